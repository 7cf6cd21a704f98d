// J01: statuses, exceptions, strings and enumerators crossing into Java and back.
#define INK_SHIM_STATUS_TEXT
#include "ink/jni/internal/jni_throw_util.cc"
#include "ink/jni/internal/jni_string_util.cc"
#include "ink/color/internal/jni/color_jni_helper.cc"
#include "ink/strokes/internal/jni/stroke_input_jni_helper.cc"
// exclude: ink/strokes/input/stroke_input\.cc
#include "specs/common.h"
using absl::StatusCode;
namespace {
struct Pair { StatusCode code; const char* cls; };
const Pair kPairs[] = {{StatusCode::kFailedPrecondition, "java/lang/IllegalStateException"}, {StatusCode::kInvalidArgument, "java/lang/IllegalArgumentException"}, {StatusCode::kNotFound, "java/util/NoSuchElementException"}, {StatusCode::kOutOfRange, "java/lang/IndexOutOfBoundsException"}, {StatusCode::kUnimplemented, "java/lang/UnsupportedOperationException"}};
const char* Expected(int code) { for (const Pair& p : kPairs) if ((int)p.code == code) return p.cls; return "java/lang/IllegalStateException"; }
bool Clean(const JNIEnv& e) { return e.chars == 0 && e.globals == 0 && e.elements == 0; }
const char* const kMessages[] = {"the size is -1", "", "x"};
}
PROP(jni_status_becomes_exception) {
  for (int code = 1; code <= 16; ++code) for (const char* m : kMessages) {
    JNIEnv env; absl::Status s((StatusCode)code, m); ink::jni::ThrowExceptionFromStatus(&env, s);
    ai_assert(env.thrown == 1 && env.pending != nullptr, "one-exception-is-thrown");
    ai_assert(jvm::Eq(env.pending->type, Expected(code)), "exception-class-of-the-status");
    ai_assert(env.pending->message != nullptr && env.pending->message->value == s.ToString(), "message-is-the-whole-status");
    JNIEnv e2; bool ok = ink::jni::CheckOkOrThrow(&e2, s);
    ai_assert(!ok && e2.thrown == 1 && jvm::Eq(e2.pending->type, Expected(code)) && e2.pending->message->value == s.ToString(), "check-throws-the-same");
    ai_assert(s.code() == (StatusCode)code && s.message() == m, "status-is-left-alone");
  }
  JNIEnv e3; bool ok = ink::jni::CheckOkOrThrow(&e3, absl::OkStatus());
  ai_assert(ok && e3.thrown == 0 && e3.pending == nullptr, "nothing-thrown-for-ok");
  JNIEnv e4; ink::jni::ThrowException(&e4, "java/lang/Error", "some text");
  ai_assert(e4.thrown == 1 && jvm::Eq(e4.pending->type, "java/lang/Error") && e4.pending->message->value == "some text", "named-class-and-message");
}
PROP(jni_status_ok_is_refused) {
  ai_opt("allow-check-failure"); JNIEnv env; ink::jni::ThrowExceptionFromStatus(&env, absl::OkStatus());
  ai_assert(false, "never-throws-for-ok-status");
}
PROP(jni_exception_becomes_status) {
  { JNIEnv env; absl::Status s = ink::jni::CatchExceptionAsStatus(&env); ai_assert(s.ok() && Clean(env) && env.calls == 0, "no-exception-is-ok"); }
  for (const Pair& p : kPairs) for (const char* m : kMessages) {
    JNIEnv env; env.pending = jvm::Exception(p.cls, jvm::String(m)); absl::Status s = ink::jni::CatchExceptionAsStatus(&env);
    ai_assert(s.code() == p.code, "status-code-of-the-exception-class"); ai_assert(s.message() == m, "status-message-of-the-exception");
    ai_assert(env.pending == nullptr && env.thrown == 0, "exception-is-cleared"); ai_assert(Clean(env), "caught-message-is-released");
  }
  const char* const other[] = {"java/lang/RuntimeException", "java/lang/NullPointerException", "java/io/IOException", "java/lang/OutOfMemoryError"};
  for (const char* c : other) { JNIEnv env; env.pending = jvm::Exception(c, jvm::String("m")); absl::Status s = ink::jni::CatchExceptionAsStatus(&env); ai_assert(s.code() == StatusCode::kUnknown && s.message() == "m" && env.pending == nullptr && Clean(env), "other-exceptions-are-unknown"); }
  { JNIEnv env; env.pending = jvm::Exception("java/lang/NumberFormatException", jvm::String("n")); absl::Status s = ink::jni::CatchExceptionAsStatus(&env); ai_assert(s.code() == StatusCode::kInvalidArgument, "subclass-has-the-code-of-its-class"); }
  { JNIEnv env; env.pending = jvm::Exception("java/lang/IllegalStateException", nullptr); absl::Status s = ink::jni::CatchExceptionAsStatus(&env); ai_assert(s.code() == StatusCode::kFailedPrecondition && s.message().empty() && env.pending == nullptr && Clean(env), "exception-without-message"); }
  for (const Pair& p : kPairs) { JNIEnv env; ink::jni::ThrowExceptionFromStatus(&env, absl::Status(p.code, "round")); absl::Status s = ink::jni::CatchExceptionAsStatus(&env); ai_assert(s.code() == p.code, "code-survives-the-round-trip"); }
}
PROP(jni_strings) {
  const char* const texts[] = {"", "a", "ink://ink/texture:some-rather-long-name:1", "\xc3\xa9"};
  for (const char* t : texts) {
    JNIEnv env; jstring s = jvm::String(t);
    { ink::jni::JStringView v(&env, s); ai_assert(v.string_view() == t && v.string_view().size() == std::strlen(t), "view-is-the-string"); ai_assert(env.chars == 1, "view-holds-the-characters"); ai_assert(env.globals == 1, "view-keeps-the-string-alive"); }
    ai_assert(Clean(env), "view-is-released");
    std::string c = ink::jni::JStringToStdString(&env, s); ai_assert(c == t && Clean(env), "copy-is-the-string");
  }
  JNIEnv env; { ink::jni::JStringView v(&env, nullptr); ai_assert(v.string_view().empty() && Clean(env), "null-view-is-empty"); }
  ai_assert(ink::jni::JStringToStdString(&env, nullptr).empty() && Clean(env), "null-copy-is-empty");
}
PROP(jni_color_spaces) {
  ai_assert(ink::JIntToColorSpace(0) == ink::ColorSpace::kSrgb && ink::JIntToColorSpace(1) == ink::ColorSpace::kDisplayP3, "color-space-ids");
}
PROP(jni_color_space_unknown) {
  ai_opt("allow-check-failure"); int v = ai_i32(-3, 5, "id"); ai_assume(v < 0 || v > 1); (void)ink::JIntToColorSpace(v); ai_assert(false, "never-accepts-an-unknown-color-space");
}
using TT = ink::StrokeInput::ToolType;
PROP(jni_tool_types) {
  const TT all[] = {TT::kUnknown, TT::kMouse, TT::kTouch, TT::kStylus}; const int ids[] = {0, 1, 2, 3};
  for (int i = 0; i < 4; ++i) {
    ai_assert(ink::ToolTypeToJInt(all[i]) == ids[i], "tool-type-to-id"); ai_assert(ink::JIntToToolType(ids[i]) == all[i], "id-to-tool-type");
    JNIEnv env; jobject o = ink::ToolTypeToJObject(&env, all[i], jvm::Class(JVM_INK "/brush/InputToolType")); ai_assert(jvm::Eq(o->type, JVM_INK "/brush/InputToolType") && o->l[0] == ids[i], "tool-type-object");
    ai_assert(ink::JObjectToToolType(&env, o) == all[i], "tool-type-of-an-object");
  }
}
PROP(jni_input_to_java) {
  const TT all[] = {TT::kUnknown, TT::kMouse, TT::kTouch, TT::kStylus};
  for (int i = 0; i < 4; ++i) {
    ink::StrokeInput in{.tool_type = all[i], .position = {Fin("x"), Fin("y")}, .elapsed_time = ink::Duration32::Millis(ai_f32_in(0, 1e6, "t")), .stroke_unit_length = ink::PhysicalDistance::Centimeters(Fin("u")), .pressure = Fin("p"), .tilt = ink::Angle::Radians(Fin("tilt")), .orientation = ink::Angle::Radians(Fin("o"))};
    JNIEnv env; jobject o = jvm::Object(JVM_INK "/strokes/StrokeInput"); ink::UpdateJObjectInput(&env, in, o, jvm::Class(JVM_INK "/brush/InputToolType"));
    ai_assert(o->touched == 1, "input-updated-once"); ai_ident_f(o->f[0], in.position.x, "x"); ai_ident_f(o->f[1], in.position.y, "y"); ai_ident_f(o->f[2], in.stroke_unit_length.ToCentimeters(), "unit-length");
    ai_ident_f(o->f[3], in.pressure, "pressure"); ai_ident_f(o->f[4], in.tilt.ValueInRadians(), "tilt"); ai_ident_f(o->f[5], in.orientation.ValueInRadians(), "orientation");
    ai_assert(o->o[0] != nullptr && o->o[0]->l[0] == i, "tool-type");
    ai_ident_i((uint64_t)o->l[0], (uint64_t)(long)in.elapsed_time.ToMillis(), "time-in-millis");
  }
  const float ms[] = {0, 1, 17, 1000, 123456};
  for (float m : ms) { ink::StrokeInput in{.elapsed_time = ink::Duration32::Millis(m)}; JNIEnv env; jobject o = jvm::Object(JVM_INK "/strokes/StrokeInput"); ink::UpdateJObjectInput(&env, in, o, jvm::Class(JVM_INK "/brush/InputToolType")); ai_assert(o->l[0] == (long)in.elapsed_time.ToMillis(), "exact-time-in-millis"); }
}
PROP(jni_input_from_java) {
  for (int i = 0; i < 4; ++i) {
    JNIEnv env; jobject o = jvm::Object(JVM_INK "/strokes/StrokeInput"); jobject t = jvm::Object(JVM_INK "/brush/InputToolType"); t->l[0] = i; o->o[0] = t; o->l[0] = 40 + i;
    for (int k = 0; k < 6; ++k) o->f[k] = Fin("f");
    ink::StrokeInput in = ink::JObjectToStrokeInput(&env, o);
    ai_assert((int)in.tool_type == i, "tool-type-read"); ai_ident_f(in.position.x, o->f[0], "x-read"); ai_ident_f(in.position.y, o->f[1], "y-read"); ai_ident_f(in.stroke_unit_length.ToCentimeters(), ink::PhysicalDistance::Centimeters(o->f[2]).ToCentimeters(), "unit-length-read");
    ai_ident_f(in.pressure, o->f[3], "pressure-read"); ai_ident_f(in.tilt.ValueInRadians(), o->f[4], "tilt-read"); ai_ident_f(in.orientation.ValueInRadians(), o->f[5], "orientation-read");
    ai_assert(in.elapsed_time == ink::Duration32::Millis(40 + i), "time-read");
  }
}
