PROPERTY='G09'
EDITS=[
('ink/geometry/internal/polyline_processing.cc',
'              other_segment.index > polyline.first_intersection.index_int - 1) {',
'              other_segment.index > polyline.first_intersection.index_int) {')]
NEEDS='a segment that is crossed twice, the second time further along, with nothing crossed later'
BREAKS='the end of the polyline is trimmed at the earlier crossing'
DEMO='''
#include <cmath>
#include <vector>
#include "ink/geometry/internal/polyline_processing.h"
#include "ink/geometry/point.h"
using namespace ink; using namespace ink::geometry_internal;
int main() {
  std::vector<Point> p = {{0, 0}, {10, 0}, {10, 3}, {2, 3}, {2, -3}, {6, -3}, {6, 1}};
  auto r = ProcessPolylineForMeshCreation(p, 100, .01f, 100, 100);
  Point last = r.back(); return std::abs(last.x - 6) < 1e-4 && std::abs(last.y) < 1e-4 ? 0 : 1;
}
'''
