// development aid only: runs a harness concretely, enumerating its integer choices and taking interval midpoints
#include "specs/ai.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <string>
struct Stop {};
static std::vector<long> cur, lim; static size_t pos; static std::string desc;
static long choose(long lo, long hi, const char* n) { if (hi - lo > 64) return lo; if (pos == cur.size()) { cur.push_back(0); lim.push_back(hi - lo); } long v = lo + cur[pos++]; desc += std::string(" ") + (n ? n : "?") + "=" + std::to_string(v); return v; }
extern "C" {
float ai_f32(const char*) { return .5f; } double ai_f64(const char*) { return .5; }
float ai_f32_in(double lo, double hi, const char*) { return lo / 2 + hi / 2; } double ai_f64_in(double lo, double hi, const char*) { return lo / 2 + hi / 2; }
int64_t ai_int(int64_t a, int64_t b, const char* n) { return choose(a, b, n); } int32_t ai_i32(int32_t a, int32_t b, const char* n) { return choose(a, b, n); }
uint32_t ai_u32(uint32_t a, uint32_t b, const char* n) { return choose(a, b, n); } uint64_t ai_bits(int, const char*) { return 0; } uint8_t ai_u8(uint8_t a, uint8_t b, const char* n) { return choose(a, b, n); } bool ai_bool(const char* n) { return choose(0, 1, n); }
void ai_assume(bool c) { if (!c) throw Stop(); }
void ai_assert(bool c, const char* id) { if (!c) printf("FAIL %s:%s\n", id, desc.c_str()); }
void ai_same(double a, double b, double t, const char* id) { if (!(__builtin_fabs(a - b) <= t * (1 + __builtin_fabs(b)))) printf("FAIL %s %g %g:%s\n", id, a, b, desc.c_str()); }
void ai_near(double a, double b, double t, const char* id) { if (!(__builtin_fabs(a - b) <= t)) printf("FAIL %s %g %g:%s\n", id, a, b, desc.c_str()); }
void ai_ident_f(double a, double b, const char* id) { if (!(a == b)) printf("FAIL %s %g %g:%s\n", id, a, b, desc.c_str()); }
void ai_ident_i(uint64_t a, uint64_t b, const char* id) { if (a != b) printf("FAIL %s:%s\n", id, desc.c_str()); }
void ai_reach(const char*) {} bool ai_depends(double, double) { return false; } void ai_opt(const char*) {} void ai_unopt(const char*) {} int64_t ai_live() { return 0; } void ai_havoc(void*, size_t) {}
bool ai_finite(double v) { return __builtin_isfinite(v); } bool ai_isnan(double v) { return v != v; } bool ai_and(bool a, bool b) { return a && b; } bool ai_or(bool a, bool b) { return a || b; } bool ai_not(bool a) { return !a; } bool ai_implies(bool a, bool b) { return !a || b; }
bool ai_feq(double a, double b) { return a == b; } bool ai_flt(double a, double b) { return a < b; } bool ai_fle(double a, double b) { return a <= b; } bool ai_ieq(int64_t a, int64_t b) { return a == b; } bool ai_ile(int64_t a, int64_t b) { return a <= b; } int64_t ai_split(int64_t v) { return v; }
bool ai_regions_equal(const void* p, const void* q, size_t n) { return !memcmp(p, q, n); } void ai_print(const char* n, double v) { printf("%s=%.9g\n", n, v); } void ai_printi(const char* n, int64_t v) { printf("%s=%ld\n", n, (long)v); } void ai_stop() { throw Stop(); } void ai_event(const char*) {}
void RUN();
}
int main() { long n = 0; for (;;) { pos = 0; desc.clear(); try { RUN(); } catch (Stop) {} ++n; while (!cur.empty() && cur.back() == lim.back()) { cur.pop_back(); lim.pop_back(); } if (cur.empty()) break; ++cur.back(); } printf("%ld runs\n", n); }
