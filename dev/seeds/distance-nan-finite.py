PROPERTY='T02'
EDITS=[
('ink/types/physical_distance.h',
'  return std::isfinite(value_centimeters_);',
'  return !std::isinf(value_centimeters_);')]
NEEDS='a distance that is not a number'
BREAKS='a distance that is not a number is reported as finite'
DEMO='''
#include "ink/types/physical_distance.h"
#include <cmath>
using namespace ink;
int main() { return PhysicalDistance::Inches(NAN).IsFinite() ? 1 : 0; }
'''
