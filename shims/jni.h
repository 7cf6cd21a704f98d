// A model of the Java side of ink's native methods: objects with fields, the methods the Kotlin classes have, arrays, strings and the
// pending exception. Argument types are checked against method descriptors; calls with an exception pending are refused, as JNI demands.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "absl/log/absl_check.h"
#define JNIEXPORT __attribute__((visibility("default")))
#define JNIIMPORT
#define JNICALL
typedef unsigned char jboolean; typedef signed char jbyte; typedef unsigned short jchar; typedef short jshort;
typedef int jint; typedef long jlong; typedef float jfloat; typedef double jdouble; typedef jint jsize;
#define JNI_FALSE 0
#define JNI_TRUE 1
#define JNI_OK 0
#define JNI_COMMIT 1
#define JNI_ABORT 2
class _jobject { public: const char* type = ""; float f[8] = {}; long l[2] = {}; _jobject* o[4] = {}; void* address = nullptr; long capacity = 0; int touched = 0; };
class _jclass : public _jobject { public: const char* name = ""; };
class _jstring : public _jobject { public: std::string value; };
class _jthrowable : public _jobject { public: _jstring* message = nullptr; };
class _jarray : public _jobject { public: int length = 0; };
class _jintArray : public _jarray { public: jint* data = nullptr; };
class _jlongArray : public _jarray { public: jlong* data = nullptr; };
class _jfloatArray : public _jarray { public: jfloat* data = nullptr; };
class _jobjectArray : public _jarray { public: _jobject** data = nullptr; };
typedef _jobject* jobject; typedef _jclass* jclass; typedef _jstring* jstring; typedef _jthrowable* jthrowable; typedef _jarray* jarray;
typedef _jintArray* jintArray; typedef _jlongArray* jlongArray; typedef _jfloatArray* jfloatArray; typedef _jobjectArray* jobjectArray;
typedef _jarray* jbyteArray; typedef _jobject* jweak;
struct _jmethodID { const char* cls; const char* name; const char* sig; bool is_static; };
struct _jfieldID { const char* cls; const char* name; };
typedef _jmethodID* jmethodID; typedef _jfieldID* jfieldID;
namespace jvm {
#define JVM_INK "androidx/ink"
struct Member { const char* cls; const char* name; const char* sig; bool is_static; };
inline constexpr Member kMembers[] = {
  {JVM_INK "/geometry/MutableVec", "setX", "(F)V", false}, {JVM_INK "/geometry/MutableVec", "setY", "(F)V", false},
  {JVM_INK "/geometry/ImmutableVec", "<init>", "(FF)V", false},
  {JVM_INK "/geometry/BoxAccumulator", "reset", "()L" JVM_INK "/geometry/BoxAccumulator;", false},
  {JVM_INK "/geometry/BoxAccumulator", "overwriteFrom", "(FFFF)L" JVM_INK "/geometry/BoxAccumulator;", false},
  {JVM_INK "/geometry/MutableBox", "setXBounds", "(FF)L" JVM_INK "/geometry/MutableBox;", false},
  {JVM_INK "/geometry/MutableBox", "setYBounds", "(FF)L" JVM_INK "/geometry/MutableBox;", false},
  {JVM_INK "/geometry/ImmutableBox", "fromTwoPoints", "(L" JVM_INK "/geometry/Vec;L" JVM_INK "/geometry/Vec;)L" JVM_INK "/geometry/ImmutableBox;", true},
  {JVM_INK "/geometry/ImmutableParallelogram", "fromCenterDimensionsRotationAndShear", "(L" JVM_INK "/geometry/ImmutableVec;FFFF)L" JVM_INK "/geometry/ImmutableParallelogram;", true},
  {JVM_INK "/geometry/MutableParallelogram", "setCenterDimensionsRotationAndShear", "(FFFFFF)V", false},
  {JVM_INK "/brush/InputToolType", "from", "(I)L" JVM_INK "/brush/InputToolType;", true},
  {JVM_INK "/strokes/StrokeInput", "update", "(FFJL" JVM_INK "/brush/InputToolType;FFFF)V", false},
  {JVM_INK "/strokes/StrokeInput", "getToolType", "()L" JVM_INK "/brush/InputToolType;", false},
  {JVM_INK "/strokes/StrokeInput", "getX", "()F", false}, {JVM_INK "/strokes/StrokeInput", "getY", "()F", false},
  {JVM_INK "/strokes/StrokeInput", "getElapsedTimeMillis", "()J", false}, {JVM_INK "/strokes/StrokeInput", "getStrokeUnitLengthCm", "()F", false},
  {JVM_INK "/strokes/StrokeInput", "getPressure", "()F", false}, {JVM_INK "/strokes/StrokeInput", "getTiltRadians", "()F", false},
  {JVM_INK "/strokes/StrokeInput", "getOrientationRadians", "()F", false},
  {"java/lang/Throwable", "getMessage", "()Ljava/lang/String;", false},
};
inline bool Eq(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
inline bool Has(const char* s, const char* t) { for (; *s; ++s) { const char *p = s, *q = t; while (*q && *p == *q) { ++p; ++q; } if (!*q) return true; } return false; }
inline const char* After(const char* s, char c) { while (*s && *s != c) ++s; return *s ? s + 1 : s; }
inline bool Throwable(const char* c) { return Has(c, "Exception") || Has(c, "Error"); }
struct Arg { char tag; double f; long i; jobject o; };
inline Arg A(float v) { return {'F', v, 0, nullptr}; }
inline Arg A(double v) { return {'D', v, 0, nullptr}; }
inline Arg A(int v) { return {'I', 0, v, nullptr}; }
inline Arg A(long v) { return {'J', 0, v, nullptr}; }
inline Arg A(long long v) { return {'J', 0, (long)v, nullptr}; }
inline Arg A(jobject v) { return {'L', 0, 0, v}; }
inline jobject Object(const char* type) { auto* r = new _jobject(); r->type = type; return r; }
inline jclass Class(const char* name) { auto* r = new _jclass(); r->type = "java/lang/Class"; r->name = name; return r; }
inline jstring String(const char* s) { auto* r = new _jstring(); r->type = "java/lang/String"; r->value = s; return r; }
template <class A, class E> A* Array(int n, const E* from) { auto* r = new A(); r->type = "["; r->length = n; r->data = new E[n > 0 ? n : 1]; for (int i = 0; i < n; ++i) r->data[i] = from[i]; return r; }
inline jthrowable Exception(const char* type, jstring message) { auto* r = new _jthrowable(); r->type = type; r->message = message; return r; }
// Whether the arguments are what the descriptor says; a float argument is promoted to double on the way.
inline bool Fits(const char* sig, const Arg* a, int n) {
  const char* p = sig + 1; int i = 0;
  while (*p != ')') {
    if (i >= n) return false;
    char t = *p == 'Z' || *p == 'B' || *p == 'S' || *p == 'C' ? 'I' : *p, g = a[i].tag == 'D' ? 'F' : a[i].tag;
    if (t == 'D') t = 'F';
    if (t != g) return false;
    if (*p == 'L') while (*p != ';') ++p;
    ++p; ++i;
  }
  return i == n;
}
}
struct JNIEnv_ {
  jthrowable pending = nullptr; int thrown = 0; int chars = 0; int globals = 0; int elements = 0; int calls = 0;
  void Ready() { ABSL_CHECK(pending == nullptr); }
  jclass FindClass(const char* name) { Ready(); return jvm::Class(name); }
  jclass GetObjectClass(jobject o) { Ready(); ABSL_CHECK(o != nullptr); return jvm::Class(o->type); }
  jboolean IsInstanceOf(jobject o, jclass c) { Ready(); return o == nullptr || jvm::Eq(o->type, c->name) || (jvm::Eq(c->name, "java/lang/IllegalArgumentException") && jvm::Eq(o->type, "java/lang/NumberFormatException")); }
  jmethodID Find(jclass c, const char* name, const char* sig, bool st) {
    Ready(); ABSL_CHECK(c != nullptr);
    for (const jvm::Member& m : jvm::kMembers)
      if (m.is_static == st && jvm::Eq(m.name, name) && jvm::Eq(m.sig, sig) && (jvm::Eq(m.cls, c->name) || (jvm::Eq(m.cls, "java/lang/Throwable") && jvm::Throwable(c->name)))) return new _jmethodID{m.cls, m.name, m.sig, st};
    return nullptr;
  }
  jmethodID GetMethodID(jclass c, const char* name, const char* sig) { return Find(c, name, sig, false); }
  jmethodID GetStaticMethodID(jclass c, const char* name, const char* sig) { return Find(c, name, sig, true); }
  jfieldID GetFieldID(jclass c, const char* name, const char* sig) { Ready(); return jvm::Eq(c->name, JVM_INK "/brush/InputToolType") && jvm::Eq(name, "value") && jvm::Eq(sig, "I") ? new _jfieldID{c->name, name} : nullptr; }
  jint GetIntField(jobject o, jfieldID f) { Ready(); ABSL_CHECK(jvm::Eq(o->type, f->cls)); return (jint)o->l[0]; }
  struct Result { float f; long l; jobject o; };
  Result Call(jobject o, jmethodID m, char returns, const jvm::Arg* a, int n) {
    Ready(); ABSL_CHECK(o != nullptr && m != nullptr && !m->is_static); ABSL_CHECK(jvm::Eq(m->cls, o->type) || jvm::Eq(m->cls, "java/lang/Throwable")); ABSL_CHECK(jvm::Fits(m->sig, a, n));
    const char* r = jvm::After(m->sig, ')'); ABSL_CHECK(*r == returns); ++calls; ++o->touched; const char* k = m->name;
    auto all = [&](int at) { for (int i = 0; i < n; ++i) o->f[at + i] = (float)a[i].f; };
    if (jvm::Eq(k, "setX")) all(0); else if (jvm::Eq(k, "setY")) all(1);
    else if (jvm::Eq(k, "reset")) { o->l[0] = 0; return {0, 0, o}; }
    else if (jvm::Eq(k, "overwriteFrom")) { o->l[0] = 1; all(0); return {0, 0, o}; }
    else if (jvm::Eq(k, "setXBounds")) { o->f[0] = (float)a[0].f; o->f[2] = (float)a[1].f; return {0, 0, o}; }
    else if (jvm::Eq(k, "setYBounds")) { o->f[1] = (float)a[0].f; o->f[3] = (float)a[1].f; return {0, 0, o}; }
    else if (jvm::Eq(k, "setCenterDimensionsRotationAndShear")) all(0);
    else if (jvm::Eq(k, "update")) { o->f[0] = (float)a[0].f; o->f[1] = (float)a[1].f; o->l[0] = a[2].i; o->o[0] = a[3].o; o->f[2] = (float)a[4].f; o->f[3] = (float)a[5].f; o->f[4] = (float)a[6].f; o->f[5] = (float)a[7].f; }
    else if (jvm::Eq(k, "getX")) return {o->f[0], 0, nullptr}; else if (jvm::Eq(k, "getY")) return {o->f[1], 0, nullptr};
    else if (jvm::Eq(k, "getElapsedTimeMillis")) return {0, o->l[0], nullptr}; else if (jvm::Eq(k, "getToolType")) return {0, 0, o->o[0]};
    else if (jvm::Eq(k, "getStrokeUnitLengthCm")) return {o->f[2], 0, nullptr}; else if (jvm::Eq(k, "getPressure")) return {o->f[3], 0, nullptr};
    else if (jvm::Eq(k, "getTiltRadians")) return {o->f[4], 0, nullptr}; else if (jvm::Eq(k, "getOrientationRadians")) return {o->f[5], 0, nullptr};
    else if (jvm::Eq(k, "getMessage")) return {0, 0, static_cast<_jthrowable*>(o)->message};
    else ABSL_CHECK(false);
    return {0, 0, nullptr};
  }
  template <class... T> void CallVoidMethod(jobject o, jmethodID m, T... t) { const jvm::Arg a[] = {jvm::A(t)..., jvm::A(0)}; Call(o, m, 'V', a, sizeof...(T)); }
  template <class... T> jobject CallObjectMethod(jobject o, jmethodID m, T... t) { const jvm::Arg a[] = {jvm::A(t)..., jvm::A(0)}; return Call(o, m, 'L', a, sizeof...(T)).o; }
  template <class... T> jfloat CallFloatMethod(jobject o, jmethodID m, T... t) { const jvm::Arg a[] = {jvm::A(t)..., jvm::A(0)}; return Call(o, m, 'F', a, sizeof...(T)).f; }
  template <class... T> jlong CallLongMethod(jobject o, jmethodID m, T... t) { const jvm::Arg a[] = {jvm::A(t)..., jvm::A(0)}; return Call(o, m, 'J', a, sizeof...(T)).l; }
  template <class... T> jobject CallStaticObjectMethod(jclass c, jmethodID m, T... t) {
    const jvm::Arg a[] = {jvm::A(t)..., jvm::A(0)}; Ready(); ABSL_CHECK(c != nullptr && m != nullptr && m->is_static && jvm::Eq(m->cls, c->name)); ABSL_CHECK(jvm::Fits(m->sig, a, sizeof...(T))); ++calls;
    jobject r = jvm::Object(c->name); int nf = 0, no = 0; for (int i = 0; i < (int)sizeof...(T); ++i) { if (a[i].tag == 'L') r->o[no++] = a[i].o; else if (a[i].tag == 'I' || a[i].tag == 'J') r->l[0] = a[i].i; else r->f[nf++] = (float)a[i].f; }
    return r;
  }
  template <class... T> jobject NewObject(jclass c, jmethodID m, T... t) {
    const jvm::Arg a[] = {jvm::A(t)..., jvm::A(0)}; Ready(); ABSL_CHECK(c != nullptr && m != nullptr && jvm::Eq(m->name, "<init>") && jvm::Eq(m->cls, c->name)); ABSL_CHECK(jvm::Fits(m->sig, a, sizeof...(T))); ++calls;
    jobject r = jvm::Object(c->name); for (int i = 0; i < (int)sizeof...(T); ++i) r->f[i] = (float)a[i].f;
    return r;
  }
  jint ThrowNew(jclass c, const char* message) { Ready(); pending = jvm::Exception(c->name, jvm::String(message)); ++thrown; return JNI_OK; }
  jint Throw(jthrowable t) { Ready(); pending = t; ++thrown; return JNI_OK; }
  jthrowable ExceptionOccurred() { return pending; }
  void ExceptionClear() { pending = nullptr; }
  jboolean ExceptionCheck() { return pending != nullptr; }
  jobject NewGlobalRef(jobject o) { if (o) ++globals; return o; }
  void DeleteGlobalRef(jobject o) { if (o) --globals; }
  jobject NewLocalRef(jobject o) { return o; }
  void DeleteLocalRef(jobject) {}
  jstring NewStringUTF(const char* s) { Ready(); return jvm::String(s); }
  const char* GetStringUTFChars(jstring s, jboolean* copy) { Ready(); ABSL_CHECK(s != nullptr); ++chars; if (copy) *copy = JNI_FALSE; return s->value.c_str(); }
  void ReleaseStringUTFChars(jstring s, const char* c) { ABSL_CHECK(s != nullptr && c == s->value.c_str()); --chars; }
  jsize GetStringUTFLength(jstring s) { Ready(); ABSL_CHECK(s != nullptr); return (jsize)s->value.size(); }
  jsize GetArrayLength(jarray a) { Ready(); return a->length; }
  jfloat* GetFloatArrayElements(jfloatArray a, jboolean* copy) { Ready(); ++elements; if (copy) *copy = JNI_FALSE; return a->data; }
  void ReleaseFloatArrayElements(jfloatArray a, jfloat* e, jint) { ABSL_CHECK(e == a->data); --elements; }
  jlong* GetLongArrayElements(jlongArray a, jboolean* copy) { Ready(); ++elements; if (copy) *copy = JNI_FALSE; return a->data; }
  void ReleaseLongArrayElements(jlongArray a, jlong* e, jint) { ABSL_CHECK(e == a->data); --elements; }
  jlongArray NewLongArray(jsize n) { Ready(); auto* r = new _jlongArray(); r->type = "[J"; r->length = n; r->data = new jlong[n > 0 ? n : 1](); return r; }
  jobjectArray NewObjectArray(jsize n, jclass, jobject init) { Ready(); auto* r = new _jobjectArray(); r->type = "[L"; r->length = n; r->data = new jobject[n > 0 ? n : 1](); for (int i = 0; i < n; ++i) r->data[i] = init; return r; }
  template <class A, class E> void Region(A a, jsize from, jsize n, const E* e) { Ready(); ABSL_CHECK(from >= 0 && n >= 0 && from + n <= a->length); for (int i = 0; i < n; ++i) a->data[from + i] = e[i]; }
  void SetLongArrayRegion(jlongArray a, jsize from, jsize n, const jlong* e) { Region(a, from, n, e); }
  void SetIntArrayRegion(jintArray a, jsize from, jsize n, const jint* e) { Region(a, from, n, e); }
  void SetFloatArrayRegion(jfloatArray a, jsize from, jsize n, const jfloat* e) { Region(a, from, n, e); }
  void GetFloatArrayRegion(jfloatArray a, jsize from, jsize n, jfloat* e) { Ready(); ABSL_CHECK(from >= 0 && n >= 0 && from + n <= a->length); for (int i = 0; i < n; ++i) e[i] = a->data[from + i]; }
  void GetLongArrayRegion(jlongArray a, jsize from, jsize n, jlong* e) { Ready(); ABSL_CHECK(from >= 0 && n >= 0 && from + n <= a->length); for (int i = 0; i < n; ++i) e[i] = a->data[from + i]; }
  void SetObjectArrayElement(jobjectArray a, jsize i, jobject v) { Ready(); ABSL_CHECK(i >= 0 && i < a->length); a->data[i] = v; }
  jobject GetObjectArrayElement(jobjectArray a, jsize i) { Ready(); ABSL_CHECK(i >= 0 && i < a->length); return a->data[i]; }
  jobject NewDirectByteBuffer(void* p, jlong n) { Ready(); auto* r = jvm::Object("java/nio/ByteBuffer"); r->address = p; r->capacity = n; return r; }
};
typedef JNIEnv_ JNIEnv;
