PROPERTY='J04'
EDITS=[
('ink/strokes/internal/jni/in_progress_stroke_jni.cc',
'      triangle_index_data_caches[coat_index];',
'      triangle_index_data_caches.front();')]
NEEDS='reading the triangle indices of two coats'
BREAKS='the index buffer handed out for one coat is overwritten by that of another'
DEMO='''
#include <jni.h>
#include "ink/strokes/in_progress_stroke.h"
#include "ink/geometry/internal/jni/vec_jni_helper.h"
#include "ink/geometry/internal/jni/envelope_jni_helper.h"
#include "ink/brush/internal/jni/brush_jni_helper.h"
#include "ink/strokes/internal/jni/stroke_input_jni_helper.h"
#include "ink/strokes/internal/jni/in_progress_stroke_jni.cc"
int main() {
  using namespace ink; BrushCoat c[2]; for (auto& x : c) x.tips.resize(1); c[1].tips[0].corner_rounding = 0; c[1].tips[0].scale = {3, 1};
  Brush b = *Brush::Create(*BrushFamily::Create(absl::MakeSpan(c, 2)), Color::Black(), 10, 0.1); jlong p = Java_androidx_ink_strokes_InProgressStroke_nativeCreateInProgressStroke(nullptr, nullptr); auto& s = GetInProgressStrokeWrapper(p)->in_progress_stroke; s.Start(b);
  std::vector<StrokeInput> v(3); for (int i = 0; i < 3; ++i) { v[i].position = {30.f * i, 0}; v[i].elapsed_time = Duration32::Seconds(i); } if (!s.EnqueueInputs(*StrokeInputBatch::Create(v), {}).ok() || !s.UpdateShape(Duration32::Seconds(3)).ok()) return 2;
  JNIEnv env; jobject x = Java_androidx_ink_strokes_InProgressStroke_nativeGetRawTriangleIndexData(&env, nullptr, p, 0, 0), y = Java_androidx_ink_strokes_InProgressStroke_nativeGetRawTriangleIndexData(&env, nullptr, p, 1, 0);
  if (!x || !y || s.GetMesh(0).TriangleCount() == 0) return 3; return x->address == y->address ? 1 : 0;
}
'''
