PROPERTY='J02'
EDITS=[
('ink/geometry/internal/jni/mutable_envelope_jni.cc',
'      Angle::Radians(quad_angle_radian), quad_shear_factor);',
'      Angle::Radians(quad_angle_radian).Normalized(), std::abs(quad_shear_factor));')]
NEEDS='adding a parallelogram with a negative shear factor'
BREAKS='the accumulator grows by the mirrored parallelogram'
DEMO='''
#include <jni.h>
#include "ink/geometry/envelope.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/internal/jni/envelope_jni_helper.h"
#include "ink/jni/internal/jni_throw_util.h"
#include "ink/geometry/internal/jni/mutable_envelope_jni.cc"
int main() { using namespace ink; JNIEnv env; jobject o = jvm::Object(JVM_INK "/geometry/BoxAccumulator"); Java_androidx_ink_geometry_BoxAccumulatorNative_nativeAddParallelogram(&env, nullptr, 0, 0, 0, 0, 0, 0, 0, 4, 2, 0.5f, -1, o); Rect w = *Envelope(Quad::FromCenterDimensionsRotationAndShear({0, 0}, 4, 2, Angle::Radians(0.5f), -1)).AsRect(); return std::abs(o->f[0] - w.XMin()) < 1e-3 && std::abs(o->f[2] - w.XMax()) < 1e-3 && std::abs(o->f[1] - w.YMin()) < 1e-3 ? 0 : 1; }
'''
