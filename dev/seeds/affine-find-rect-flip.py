PROPERTY="G04"
EDITS=[("ink/geometry/affine_transform.cc","""  Vec v =
      q.Height() == 0 ? q.ShearFactor() * u + u.Orthogonal() : semi_axes.second;""","""  Vec v =
      q.Height() <= 0 ? q.ShearFactor() * u + u.Orthogonal() : semi_axes.second;""")]
NEEDS="a quad with negative height (a flipped one)"
BREAKS="the image of a flipped quad has the wrong height"
DEMO='''
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/quad.h"
#include <cmath>
using namespace ink;
int main() { Quad q = Quad::FromCenterAndDimensions({0, 0}, 2, -6); Quad r = AffineTransform::Scale(1, 1).Apply(q); for (int i = 0; i < 4; ++i) if (std::fabs(r.Corners()[i].y - q.Corners()[i].y) > 1e-3 || std::fabs(r.Corners()[i].x - q.Corners()[i].x) > 1e-3) return 1; return 0; }
'''
