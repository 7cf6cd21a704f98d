PROPERTY='B05'
EDITS=[
('ink/brush/brush_paint.cc',
'         lhs.offset_jitter == rhs.offset_jitter &&',
'         lhs.offset_jitter.x == rhs.offset_jitter.x &&')]
NEEDS='two layers that differ in the vertical offset jitter only'
BREAKS='texture layers that differ compare equal'
DEMO='''
#include "ink/brush/brush_paint.h"
using namespace ink;
int main() { BrushPaint::TextureLayer a, b; a.offset_jitter = {0.25f, 0.5f}; b.offset_jitter = {0.25f, 0.125f}; return a == b || !(a != b) ? 1 : 0; }
'''
