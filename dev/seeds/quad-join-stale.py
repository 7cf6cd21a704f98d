PROPERTY="G03"
EDITS=[("ink/geometry/quad.cc","""  height_ = new_height;
  semi_axes_.reset();""","""  if (new_width != width_ || new_height != height_) semi_axes_.reset();
  height_ = new_height;""")]
NEEDS="corners queried before a join that grows the height but not the width ... or the width only after assignment"
BREAKS="the quad keeps stale cached axes after a join that changes only the width"
DEMO='''
#include "ink/geometry/quad.h"
#include <cmath>
using namespace ink;
int main() { Quad q = Quad::FromCenterAndDimensions({0, 0}, 2, 2); q.Corners(); q.Join(Point{5, 0}); float m = -100; for (Point p : q.Corners()) m = std::fmax(m, p.x); return std::fabs(m - 5) < 1e-3 ? 0 : 1; }
'''
