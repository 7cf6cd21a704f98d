PROPERTY='J03'
EDITS=[
('ink/brush/internal/jni/brush_behavior_jni.cc',
'    float y = points_elements[2 * i + 1];',
'    float y = points_elements[i + num_points];')]
NEEDS='a linear response curve with two or more points'
BREAKS='the coordinates of curve points are mixed up'
DEMO='''
#include <jni.h>
#include "ink/brush/brush_behavior.h"
#include "ink/jni/internal/jni_throw_util.h"
#include "ink/jni/internal/jni_string_util.h"
#include "ink/brush/internal/jni/brush_behavior_jni.cc"
int main() { using namespace ink; BrushBehavior b; JNIEnv env; jfloat d[4] = {0.25f, 0.5f, 0.75f, 1}; _jfloatArray a; a.length = 4; a.data = d; Java_androidx_ink_brush_BrushBehavior_00024ResponseNode_nativeAppendResponseNodeLinear(&env, nullptr, reinterpret_cast<jlong>(&b), &a); auto& n = std::get<BrushBehavior::ResponseNode>(b.nodes.at(0)); auto& l = std::get<EasingFunction::Linear>(n.response_curve.parameters); return l.points.size() == 2 && l.points[0].y == 0.5f && l.points[1].x == 0.75f ? 0 : 1; }
'''
