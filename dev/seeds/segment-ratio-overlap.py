PROPERTY="G05"
EDITS=[("ink/geometry/internal/algorithms.cc","""        std::max(std::min(*a_project_b_start, *a_project_b_end), 0.0f),
        std::max(std::min(*b_project_a_start, *b_project_a_end), 0.0f)};""","""        std::max(std::min(*a_project_b_start, *a_project_b_end), 0.0f),
        std::max(std::min(*b_project_a_end, *b_project_a_start), -1.0f)};""")]
NEEDS="collinear segments of which the second starts before the first"
BREAKS="the ratio along the second of two overlapping collinear segments is negative"
DEMO='''
#include "ink/geometry/internal/algorithms.h"
using namespace ink;
int main() { auto r = geometry_internal::SegmentIntersectionRatio({{-2, 0}, {8, 0}}, {{0, 0}, {10, 0}}); return r && r->second >= 0 ? 0 : 1; }
'''
