PROPERTY='B05'
EDITS=[
('ink/brush/brush_behavior.cc',
'         lhs.source_value_range == rhs.source_value_range;',
'         std::minmax(lhs.source_value_range[0], lhs.source_value_range[1]) ==\n             std::minmax(rhs.source_value_range[0], rhs.source_value_range[1]);'),
('ink/brush/brush_behavior.cc',
'#include <array>\n',
'#include <algorithm>\n#include <array>\n')]
NEEDS='two source nodes with the same range, reversed'
BREAKS='source nodes with opposite value ranges compare equal'
DEMO='''
#include "ink/brush/brush_behavior.h"
using namespace ink;
int main() { BrushBehavior::SourceNode a, b; a.source = b.source = BrushBehavior::Source::kNormalizedPressure; a.source_value_range = {0, 1}; b.source_value_range = {1, 0}; return a == b ? 1 : 0; }
'''
