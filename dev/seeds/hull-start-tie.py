PROPERTY='G07'
EDITS=[
('ink/geometry/internal/convex_hull_helper.h',
'        return GetY(lhs) < GetY(rhs) ||\n               (GetY(lhs) == GetY(rhs) && GetX(lhs) < GetX(rhs));',
'        return GetY(lhs) < GetY(rhs);')]
NEEDS='three points along the bottom of which the middle one comes first'
BREAKS='the hull starts at a point that is not a corner and keeps it'
DEMO='''
#include <vector>
#include "ink/geometry/convex_hull.h"
#include "ink/geometry/point.h"
using namespace ink;
int main() { std::vector<Point> p = {{1, 0}, {2, 0}, {0, 0}, {1, 2}}; auto h = ConvexHull(p); return h.size() == 3 && h[0].x == 0 && h[0].y == 0 ? 0 : 1; }
'''
