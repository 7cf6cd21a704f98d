// J04: the stroke natives do to the object behind the handle what the C++ call does, and hand all of its state to Java.
// exclude: ink/strokes/internal/(stroke_shape_builder|brush_tip|stroke_input_modeler|constrain|circular|rounded|easing)
// flags: -DINK_SHIM_STATUS_TEXT
#define ABSL_HAVE_THREAD_LOCAL 1
#include <jni.h>
#include "specs/stub_builder.h"
#include "specs/common.h"
#include "ink/strokes/stroke.cc"
#include "ink/strokes/in_progress_stroke.cc"
#include "ink/strokes/internal/jni/in_progress_stroke_jni.cc"
#include "ink/strokes/internal/jni/stroke_input_batch_jni.cc"
#include "ink/strokes/internal/jni/stroke_jni.cc"
using ink::Angle; using ink::BrushCoat; using ink::BrushFamily; using ink::Color; using ink::PhysicalDistance; using ink::PartitionedMesh;
namespace sb = ink::strokes_internal;
using B = ink::StrokeInputBatch; using IPS = ink::InProgressStroke; using In_ = ink::StrokeInput; using TT = In_::ToolType;
#define I(m) Java_androidx_ink_strokes_InProgressStroke_##m
#define S(m) Java_androidx_ink_strokes_StrokeJni_##m
#define BN(m) Java_androidx_ink_strokes_StrokeInputBatchNative_##m
#define MB(m) Java_androidx_ink_strokes_MutableStrokeInputBatchNative_##m
namespace {
template <class T> T& At(jlong p) { return *reinterpret_cast<T*>(p); }
template <class T> jlong P(const T& v) { return reinterpret_cast<jlong>(&v); }
jclass Tool() { return jvm::Class(JVM_INK "/brush/InputToolType"); }
jobject Obj(const char* n) { return jvm::Object(n); }
bool Quiet(const JNIEnv& e) { return e.thrown == 0 && e.pending == nullptr && e.chars == 0 && e.globals == 0 && e.elements == 0; }
In_ Make(int i, int fields = 0, TT t = TT::kStylus) { In_ r; r.tool_type = t; r.position = {1.5f * i, 2.f - i}; r.elapsed_time = ink::Duration32::Millis(10.f * i); if (fields & 1) r.pressure = 0.25f + 0.125f * (i % 4); if (fields & 2) r.tilt = Angle::Radians(0.5f); if (fields & 4) r.orientation = Angle::Radians(1.25f); if (fields & 8) r.stroke_unit_length = PhysicalDistance::Centimeters(0.5f); return r; }
B Batch(int first, int n, int fields = 0) { B b; for (int i = 0; i < n; ++i) if (!b.Append(Make(first + i, fields)).ok()) ai_stop(); return b; }
BrushCoat Coat(float id, float pinch) { BrushCoat c; c.tips.resize(1); c.tips[0].scale = {id, 1}; c.tips[0].pinch = pinch; return c; }
Brush MakeBrush(int coats, float pinch = 0) { std::vector<BrushCoat> c; for (int i = 0; i < coats; ++i) c.push_back(Coat(float(i + 1), pinch)); auto f = BrushFamily::Create(c, ""); if (!f.ok()) ai_stop(); auto b = Brush::Create(*f, Color::Blue(), 10, 2); if (!b.ok()) ai_stop(); return *b; }
bool SameIn(const In_& a, const In_& b) { return a.tool_type == b.tool_type && a.position == b.position && a.elapsed_time == b.elapsed_time && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation && a.stroke_unit_length == b.stroke_unit_length; }
bool SameBatch(const B& a, const B& b) { if (a.Size() != b.Size()) return false; for (size_t i = 0; i < a.Size(); ++i) if (!SameIn(a.Get(i), b.Get(i))) return false; return true; }
bool Filled(jobject o, const In_& in) { return o->touched == 1 && o->f[0] == in.position.x && o->f[1] == in.position.y && o->l[0] == (long)in.elapsed_time.ToMillis() && o->o[0] != nullptr && o->o[0]->l[0] == (int)in.tool_type && o->f[2] == in.stroke_unit_length.ToCentimeters() && o->f[3] == in.pressure && o->f[4] == in.tilt.ValueInRadians() && o->f[5] == in.orientation.ValueInRadians(); }
bool Says(jstring s, const absl::Status& st) { return st.ok() ? (void*)s == nullptr : (void*)s != nullptr && s->value == st.ToString(); }
bool HasBounds(jobject o, const ink::Envelope& e) { if (o->touched != 1 || (o->l[0] != 0) == e.IsEmpty()) return false; return e.IsEmpty() || (o->f[0] == e.AsRect()->XMin() && o->f[1] == e.AsRect()->YMin() && o->f[2] == e.AsRect()->XMax() && o->f[3] == e.AsRect()->YMax()); }
}
// ---- input batches
PROP(jstroke_batch_read) {
  for (int fields = 0; fields < 16; ++fields) for (int n : {0, 1, 3}) {
    B b = Batch(0, n, fields); JNIEnv env; jlong p = P(b); ai_assert(BN(getSize)(&env, nullptr, p) == n, "batch-size"); ai_assert(BN(getDurationMillis)(&env, nullptr, p) == (jlong)b.GetDuration().ToMillis(), "batch-duration"); ai_assert(BN(getToolType)(&env, nullptr, p) == (int)b.GetToolType(), "batch-tool-type");
    ai_assert((BN(hasPressure)(&env, nullptr, p) != 0) == b.HasPressure(), "batch-has-pressure"); ai_assert((BN(hasTilt)(&env, nullptr, p) != 0) == b.HasTilt(), "batch-has-tilt"); ai_assert((BN(hasOrientation)(&env, nullptr, p) != 0) == b.HasOrientation(), "batch-has-orientation"); ai_assert((BN(hasStrokeUnitLength)(&env, nullptr, p) != 0) == b.HasStrokeUnitLength(), "batch-has-unit-length"); ai_assert(BN(getStrokeUnitLengthCm)(&env, nullptr, p) == (b.HasStrokeUnitLength() ? b.GetStrokeUnitLength()->ToCentimeters() : 0), "batch-unit-length");
    bool ok = true; for (int i = 0; i < n; ++i) { jobject o = Obj(JVM_INK "/strokes/StrokeInput"); BN(populate)(&env, nullptr, p, i, o, Tool()); ok = ok && Filled(o, b.Get(i)); } ai_assert(ok, "every-input-filled"); ai_assert(Quiet(env), "reading-throws-nothing");
  }
  for (TT t : {TT::kUnknown, TT::kMouse, TT::kTouch, TT::kStylus}) { B b; if (!b.Append(Make(1, 0, t)).ok()) ai_stop(); JNIEnv env; ai_assert(BN(getToolType)(&env, nullptr, P(b)) == (int)t, "each-tool-type"); }
}
PROP(jstroke_batch_write) {
  // every single field moved to a value that may or may not be acceptable after what is already there
  const float nan = std::numeric_limits<float>::quiet_NaN(); struct Try { int tool; float x, y; jlong t; float u, p, ti, o; };
  const Try tries[] = {{3, 9, 8, 100, 0, -1, -1, -1}, {3, 9, 8, 10, 0, -1, -1, -1}, {3, 9, 8, 5, 0, -1, -1, -1}, {2, 9, 8, 100, 0, -1, -1, -1}, {3, 1.5f, 1, 10, 0, -1, -1, -1}, {3, nan, 8, 100, 0, -1, -1, -1}, {3, 9, 8, 100, 0.5f, -1, -1, -1}, {3, 9, 8, 100, 0, 0.5f, -1, -1}, {3, 9, 8, 100, 0, -1, 0.5f, -1}, {3, 9, 8, 100, 0, -1, -1, 0.5f}, {3, 9, 8, 100, 0.5f, 0.25f, 0.5f, 1.25f}, {3, 9, 8, 100, 0.5f, 2, 0.5f, 1.25f}, {3, 9, 8, 100, 0.5f, 0.25f, 5, 1.25f}, {3, 9, 8, 100, 0.5f, 0.25f, 0.5f, 9}, {0, -9, -8, 0, 0, -1, -1, -1}, {1, 3, 4, 1, 2, 1, 1, 1}};
  for (const Try& w : tries) for (int n : {0, 2}) for (int fields : {0, 15}) {
    B twin = Batch(0, n, fields); JNIEnv env; jlong p = BN(createNativePeer)(&env, nullptr); ai_assert(At<B>(p).IsEmpty(), "new-batch-is-empty"); ai_assert(Says(MB(appendBatch)(&env, nullptr, p, P(twin)), absl::OkStatus()) && SameBatch(At<B>(p), twin), "batch-appended");
    In_ in{.tool_type = (TT)w.tool, .position = {w.x, w.y}, .elapsed_time = ink::Duration32::Millis(w.t), .stroke_unit_length = PhysicalDistance::Centimeters(w.u), .pressure = w.p, .tilt = Angle::Radians(w.ti), .orientation = Angle::Radians(w.o)};
    absl::Status st = twin.Append(in); jstring r = MB(appendSingle)(&env, nullptr, p, w.tool, w.x, w.y, w.t, w.u, w.p, w.ti, w.o); ai_assert(Says(r, st), "append-reports-the-status"); ai_assert(SameBatch(At<B>(p), twin), "single-input-appended"); ai_assert(Quiet(env), "append-throws-nothing");
    jlong q = MB(copy)(&env, nullptr, p); ai_assert(SameBatch(At<B>(q), twin), "copy-holds-the-inputs"); MB(clear)(&env, nullptr, p); ai_assert(At<B>(p).IsEmpty() && SameBatch(At<B>(q), twin), "clear-leaves-the-copy"); BN(freeNativePeer)(&env, nullptr, p); ai_assert(SameBatch(At<B>(q), twin), "freeing-leaves-the-copy"); BN(freeNativePeer)(&env, nullptr, q);
  }
}
PROP(jstroke_batch_append_fails) {
  for (int a : {0, 15}) for (int b : {0, 15}) for (int first : {0, 5}) { B x = Batch(2, 2, a), y = Batch(first, 2, b), twin = x; absl::Status st = twin.Append(y); JNIEnv env; ai_assert(Says(MB(appendBatch)(&env, nullptr, P(x), P(y)), st), "append-batch-reports-the-status"); ai_assert(SameBatch(x, twin) && Quiet(env), "rejected-batch-changes-nothing"); }
}
PROP(jstroke_batch_memory) { JNIEnv env; int64_t before = ai_live(); jlong p = BN(createNativePeer)(&env, nullptr); for (int i = 0; i < 3; ++i) MB(appendSingle)(&env, nullptr, p, 3, 1.f * i, 2.f, 10 * i, 0.f, 0.5f, -1.f, -1.f); jlong q = MB(copy)(&env, nullptr, p); ai_assert(At<B>(q).Size() == 3, "three-inputs"); BN(freeNativePeer)(&env, nullptr, p); BN(freeNativePeer)(&env, nullptr, q); ai_assert(ai_live() == before, "freed-batches-leave-nothing"); }
PROP(jstroke_null_batch) { ai_opt("allow-check-failure"); JNIEnv env; BN(freeNativePeer)(&env, nullptr, 0); ai_assert(false, "never-frees-null"); }
// ---- strokes
PROP(jstroke_dry) {
  for (int n : {0, 3}) { JNIEnv env; Brush brush = MakeBrush(2); B in = Batch(0, n, 1); int64_t before = ai_live(); jlong p = S(createWithBrushAndInputs)(&env, nullptr, P(brush), P(in)); Stroke want(brush, in); const Stroke& s = At<Stroke>(p);
    ai_assert(s.GetBrush().GetSize() == 10 && s.GetBrush().CoatCount() == 2 && SameBatch(s.GetInputs(), in), "stroke-of-brush-and-inputs"); ai_assert(s.GetShape().RenderGroupCount() == want.GetShape().RenderGroupCount() && (n == 0 || s.GetShape().Meshes().size() == want.GetShape().Meshes().size()), "stroke-has-its-shape");
    jlong q = S(allocShallowCopyOfInputs)(&env, nullptr, p), m = S(allocShallowCopyOfShape)(&env, nullptr, p); ai_assert(SameBatch(At<B>(q), in), "inputs-of-the-stroke"); ai_assert(At<PartitionedMesh>(m).Meshes().data() == s.GetShape().Meshes().data() && At<PartitionedMesh>(m).RenderGroupCount() == s.GetShape().RenderGroupCount(), "shape-of-the-stroke");
    PartitionedMesh other = PartitionedMesh::WithEmptyGroups(1); jlong z = S(createWithBrushInputsAndShape)(&env, nullptr, P(brush), P(in), P(want.GetShape())); ai_assert(At<Stroke>(z).GetShape().Meshes().data() == want.GetShape().Meshes().data() && SameBatch(At<Stroke>(z).GetInputs(), in) && At<Stroke>(z).GetBrush().CoatCount() == 2, "stroke-of-brush-inputs-and-shape");
    S(free)(&env, nullptr, p); ai_assert(SameBatch(At<B>(q), in), "copies-outlive-the-stroke"); S(free)(&env, nullptr, z); delete &At<B>(q); delete &At<PartitionedMesh>(m); ai_assert(Quiet(env), "strokes-throw-nothing"); (void)before; }
}
PROP(jstroke_null_stroke) { ai_opt("allow-check-failure"); JNIEnv env; S(allocShallowCopyOfInputs)(&env, nullptr, 0); ai_assert(false, "never-reads-null"); }
// ---- in-progress strokes: the same operations through the natives and on a twin
namespace {
void Agree(jlong p, const IPS& t) {
  JNIEnv env; ai_assert((I(nativeIsInputFinished)(&env, nullptr, p) != 0) == t.InputsAreFinished(), "inputs-finished"); ai_assert((I(nativeNeedsUpdate)(&env, nullptr, p) != 0) == t.NeedsUpdate(), "needs-update"); ai_assert(I(nativeInputCount)(&env, nullptr, p) == (int)t.InputCount(), "input-count"); ai_assert(I(nativeRealInputCount)(&env, nullptr, p) == (int)t.RealInputCount(), "real-input-count"); ai_assert(I(nativePredictedInputCount)(&env, nullptr, p) == (int)t.PredictedInputCount(), "predicted-input-count"); ai_assert(I(nativeBrushCoatCount)(&env, nullptr, p) == (int)t.BrushCoatCount(), "coat-count");
  jobject e = Obj(JVM_INK "/geometry/BoxAccumulator"); I(nativeFillUpdatedRegion)(&env, nullptr, p, e); ai_assert(HasBounds(e, t.GetUpdatedRegion()), "updated-region");
  int n = t.InputCount(); bool ok = true; for (int i = 0; i < n; ++i) { jobject o = Obj(JVM_INK "/strokes/StrokeInput"); I(nativeGetAndOverwriteInput)(&env, nullptr, p, o, i, Tool()); ok = ok && Filled(o, t.GetInputs().Get(i)); } ai_assert(ok, "each-input-read");
  for (int from = 0; from <= n; ++from) for (int to = from; to <= n; to += 1 + (n > 3)) { B out; if (from && !out.Append(t.GetInputs().Get(0)).ok()) ai_stop(); B want = out; for (int i = from; i < to; ++i) if (!want.Append(t.GetInputs().Get(i)).ok()) ai_stop(); ai_assert(I(nativeFillInputs)(&env, nullptr, p, P(out), from, to) == n, "fill-returns-the-count"); ai_assert(SameBatch(out, want), "inputs-filled-from-to"); }
  for (int c = 0; c < (int)t.BrushCoatCount(); ++c) { const MutableMesh& m = t.GetMesh(c);
    jobject b = Obj(JVM_INK "/geometry/BoxAccumulator"); I(nativeGetMeshBounds)(&env, nullptr, p, c, b); ai_assert(HasBounds(b, t.GetMeshBounds(c)), "mesh-bounds"); ai_assert(I(nativeGetMeshPartitionCount)(&env, nullptr, p, c) == 1, "one-mesh-per-coat"); ai_assert(I(nativeGetVertexCount)(&env, nullptr, p, c, 0) == (int)m.VertexCount(), "vertex-count");
    auto outlines = t.GetCoatOutlines(c); ai_assert(I(nativeGetOutlineCount)(&env, nullptr, p, c) == (int)outlines.size(), "outline-count"); bool same = true; for (int o = 0; o < (int)outlines.size(); ++o) { same = same && I(nativeGetOutlineVertexCount)(&env, nullptr, p, c, o) == (int)outlines[o].size(); for (int v = 0; v < (int)outlines[o].size(); ++v) { jobject q = Obj(JVM_INK "/geometry/MutableVec"); I(nativeFillOutlinePosition)(&env, nullptr, p, c, o, v, q); Point at = m.VertexPosition(outlines[o][v]); same = same && q->f[0] == at.x && q->f[1] == at.y; } } ai_assert(same, "outline-positions");
    jobject raw = I(nativeGetRawVertexData)(&env, nullptr, p, c, 0); auto bytes = m.RawVertexData(); ai_assert(raw == nullptr ? bytes.empty() : raw->capacity == (long)bytes.size(), "whole-vertex-data"); if (raw != nullptr) { bool eq = true; for (size_t i = 0; i < bytes.size() && (long)i < raw->capacity; i += 4) { float u, v; std::memcpy(&u, (std::byte*)raw->address + i, 4); std::memcpy(&v, bytes.data() + i, 4); eq = eq && (u == v || (u != u && v != v)); } ai_assert(eq, "vertex-data"); }
    std::vector<uint16_t> want; for (uint32_t i = 0; i < m.TriangleCount(); ++i) { auto x = m.TriangleIndices(i); if (x[0] > 65535 || x[1] > 65535 || x[2] > 65535) break; for (uint32_t y : x) want.push_back((uint16_t)y); }
    jobject idx = I(nativeGetRawTriangleIndexData)(&env, nullptr, p, c, 0); ai_assert(idx == nullptr ? want.empty() : idx->capacity == (long)(2 * want.size()), "whole-triangles-with-16-bit-indices"); if (idx != nullptr) { bool eq = true; for (size_t i = 0; i < want.size() && (long)(2 * i) < idx->capacity; ++i) { uint16_t u; std::memcpy(&u, (char*)idx->address + 2 * i, 2); eq = eq && u == want[i]; } ai_assert(eq, "triangle-indices"); }
    ai_assert(I(nativeGetTriangleIndexStride)(&env, nullptr, p, 0) == 2, "index-stride"); jlong f = I(nativeAllocMeshFormatCopy)(&env, nullptr, p, c, 0); ai_assert(At<MeshFormat>(f) == m.Format(), "mesh-format"); delete &At<MeshFormat>(f); }
  ai_assert(Quiet(env), "reading-throws-nothing");
}
void Run(std::initializer_list<int> ops, float pinch) {
  JNIEnv env; jlong p = I(nativeCreateInProgressStroke)(&env, nullptr); IPS t; Agree(p, t); int now = 0, next = 0;
  for (int op : ops) {
    switch (op) {
      case 0: { Brush b = MakeBrush(1, pinch); I(nativeStart)(&env, nullptr, p, P(b)); t.Start(b); now = 0; next = 0; break; }
      case 1: { Brush b = MakeBrush(2, pinch); I(nativeStart)(&env, nullptr, p, P(b)); t.Start(b); now = 0; next = 0; break; }
      case 2: case 3: case 4: { B r = Batch(next, op == 3 ? 0 : 2, 15), q = Batch(next + 2, op == 2 ? 0 : 1, 15); ai_assert(Says(I(nativeEnqueueInputs)(&env, nullptr, p, P(r), P(q)), t.EnqueueInputs(r, q)), "enqueue-reports-the-status"); if (op != 3) next += 2; break; }
      case 5: { B r = Batch(0, 1, 0), q; ai_assert(Says(I(nativeEnqueueInputs)(&env, nullptr, p, P(r), P(q)), t.EnqueueInputs(r, q)), "enqueue-reports-the-status"); break; }
      case 6: now += 40; ai_assert(Says(I(nativeUpdateShape)(&env, nullptr, p, now), t.UpdateShape(ink::Duration32::Millis(now))), "update-reports-the-status"); break;
      case 7: ai_assert(Says(I(nativeUpdateShape)(&env, nullptr, p, now - 7), t.UpdateShape(ink::Duration32::Millis(now - 7))), "update-reports-the-status"); break;
      case 8: I(nativeFinishInput)(&env, nullptr, p); t.FinishInputs(); break;
      case 9: I(nativeResetUpdatedRegion)(&env, nullptr, p); t.ResetUpdatedRegion(); break;
      case 10: I(nativeClear)(&env, nullptr, p); t.Clear(); break;
    }
    ai_assert(Quiet(env), "operations-throw-nothing"); Agree(p, t);
  }
  if (t.GetBrush() != nullptr) { Stroke want = t.CopyToStroke(); jlong s = I(nativeCopyToStroke)(&env, nullptr, p); const Stroke& g = At<Stroke>(s); ai_assert(SameBatch(g.GetInputs(), want.GetInputs()) && g.GetBrush().CoatCount() == want.GetBrush().CoatCount() && g.GetShape().RenderGroupCount() == want.GetShape().RenderGroupCount() && g.GetShape().Meshes().size() == want.GetShape().Meshes().size(), "copied-stroke"); delete &g; }
  I(nativeFreeInProgressStroke)(&env, nullptr, p);
}
}
PROP(jstroke_wet) { Run({0, 2, 6, 3, 6, 9, 4, 6, 8, 6, 10, 0, 2, 6}, 0); }
PROP(jstroke_wet_two_coats) { Run({1, 4, 6, 7, 2, 6, 8, 6, 7}, 0.5f); }
PROP(jstroke_wet_refused) { Run({2, 6, 8, 0, 2, 6, 5, 6, 7, 8, 2, 6}, 0.5f); }
PROP(jstroke_wet_again) { Run({1, 2, 6, 0, 6, 2, 6, 1, 6, 3, 6, 8, 6}, 0); }
PROP(jstroke_wet_outlines) { sb::g_more_outlines = 1; Run({0, 4, 6}, 0); }
PROP(jstroke_wide_indices) {
  for (int at = 0; at < 6; ++at) for (uint32_t big : {65534u, 65535u, 65536u, 65538u, 131073u}) { sb::g_more_triangles = {{{0, 2, 1}}, {{1, 2, 0}}, {{2, 1, 0}}}; sb::g_more_triangles[at / 3][at % 3] = big; Run({0, 2, 6}, 0); }
}
PROP(jstroke_index_caches) { // data handed out for one coat stays while another coat is read
  sb::g_more_triangles.clear(); JNIEnv env; jlong p = I(nativeCreateInProgressStroke)(&env, nullptr); Brush b = MakeBrush(3); B r = Batch(0, 2), q; I(nativeStart)(&env, nullptr, p, P(b)); I(nativeEnqueueInputs)(&env, nullptr, p, P(r), P(q)); I(nativeUpdateShape)(&env, nullptr, p, 100);
  jobject x[3]; for (int c : {2, 0, 1}) { x[c] = I(nativeGetRawTriangleIndexData)(&env, nullptr, p, c, 0); ai_assert(x[c] != nullptr && x[c]->capacity == 6, "indices-of-each-coat"); if (x[c] == nullptr) ai_stop(); } ai_assert(x[0]->address != x[1]->address && x[1]->address != x[2]->address && x[0]->address != x[2]->address, "coats-do-not-share-data");
  for (int c = 0; c < 3; ++c) { uint16_t v[3]; std::memcpy(v, x[c]->address, 6); ai_assert(v[0] == 0 && v[1] == 1 && v[2] == 2, "data-stays"); }
}
PROP(jstroke_bad_mesh_index) { ai_opt("allow-check-failure"); JNIEnv env; jlong p = I(nativeCreateInProgressStroke)(&env, nullptr); Brush b = MakeBrush(1); I(nativeStart)(&env, nullptr, p, P(b)); int k = ai_i32(-3, 5, "mesh"); ai_assume(k != 0); I(nativeGetRawTriangleIndexData)(&env, nullptr, p, 0, k); ai_assert(false, "never-answers-for-another-mesh"); }
PROP(jstroke_wet_memory) { JNIEnv env; Brush b = MakeBrush(2); B r = Batch(0, 2), q = Batch(2, 1); int64_t before = ai_live(); jlong p = I(nativeCreateInProgressStroke)(&env, nullptr); I(nativeStart)(&env, nullptr, p, P(b)); I(nativeEnqueueInputs)(&env, nullptr, p, P(r), P(q)); I(nativeUpdateShape)(&env, nullptr, p, 100); ai_assert(I(nativeInputCount)(&env, nullptr, p) == 3, "three-inputs"); I(nativeFreeInProgressStroke)(&env, nullptr, p); ai_assert(ai_live() == before, "freed-stroke-leaves-nothing"); }
