PROPERTY='G06'
EDITS=[
('ink/geometry/internal/intersects_internal.cc',
'      return (*projection_1 >= 0 || *projection_2 >= 0) &&\n             (*projection_1 <= 1 || *projection_2 <= 1);',
'      return (*projection_1 >= 0 && *projection_1 <= 1) ||\n             (*projection_2 >= 0 && *projection_2 <= 1);')]
NEEDS='collinear segments of which the first strictly contains the second'
BREAKS='a segment does not intersect a collinear segment inside it'
DEMO='''
#include "ink/geometry/intersects.h"
#include "ink/geometry/segment.h"
using namespace ink;
int main() { return Intersects(Segment{{0, 0}, {9, 0}}, Segment{{3, 0}, {5, 0}}) && Intersects(Segment{{3, 0}, {5, 0}}, Segment{{0, 0}, {9, 0}}) ? 0 : 1; }
'''
