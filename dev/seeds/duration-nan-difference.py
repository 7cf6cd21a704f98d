PROPERTY="T01"
EDITS=[("ink/types/duration.cc","""  if (b == Duration32::Zero()) {
    return (a >=""","""  if (b == Duration32::Zero() && a != Duration32::Zero()) {
    return (a >=""")]
NEEDS="both operands of a duration ratio being zero (an empty stroke's age over a zero lifetime)"
BREAKS="zero divided by zero is documented as infinity; the ratio becomes NaN"
DEMO='''
#include "ink/types/duration.h"
#include <cmath>
int main() { float r = ink::Duration32::Zero() / ink::Duration32::Zero(); return std::isinf(r) ? 0 : 1; }
'''
