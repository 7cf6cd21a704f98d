PROPERTY="G02"
EDITS=[("ink/geometry/envelope.h","""    rect_->Join(t.p0);
    rect_->Join(t.p1);
    rect_->Join(t.p2);
""","""    rect_->Join(Rect::FromTwoPoints(t.p0, t.p1));
    if (!rect_->Contains(t.p2)) rect_ = Rect::FromTwoPoints({rect_->XMin(), rect_->YMin()}, {rect_->XMax(), rect_->YMax()});
""")]
NEEDS="a triangle added to a non-empty envelope whose third vertex lies outside the box of the first two and the previous content"
BREAKS="the envelope no longer covers the triangle"
DEMO='''
#include "ink/geometry/envelope.h"
using namespace ink;
int main() { Envelope e; e.Add(Point{0, 0}); e.Add(Triangle{{1, 1}, {2, 1}, {1.5f, 9}}); Rect r = *e.AsRect(); return r.YMax() == 9 && r.XMin() == 0 && r.XMax() == 2 && r.YMin() == 0 ? 0 : 1; }
'''
