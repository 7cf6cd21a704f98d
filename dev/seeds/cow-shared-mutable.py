PROPERTY="T05"
EDITS=[("ink/types/internal/copy_on_write.h","""  bool IsShared() const { return value_.use_count() > 1; }""","""  bool IsShared() const { return value_.use_count() == 2; }""")]
NEEDS="three or more copies of one shared value"
BREAKS="changing one of three copies changes the others"
DEMO='''
#include "ink/types/internal/copy_on_write.h"
using ink_internal::CopyOnWrite;
int main() { CopyOnWrite<int> a(3); CopyOnWrite<int> b = a, c = a; b.MutableValue() = 5; return a.Value() == 3 && c.Value() == 3 ? 0 : 1; }
'''
