// Vocabulary of the analysis harnesses: abstract inputs and proof obligations.
// Nothing declared here has a body: the abstract interpreter gives these calls their meaning.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <limits>
extern "C" {
float ai_f32(const char* name);                              // any float, NaN and infinities included
double ai_f64(const char* name);
float ai_f32_in(double lo, double hi, const char* name);     // any float in [lo,hi], no NaN
double ai_f64_in(double lo, double hi, const char* name);
int64_t ai_int(int64_t lo, int64_t hi, const char* name);
int32_t ai_i32(int32_t lo, int32_t hi, const char* name);
uint32_t ai_u32(uint32_t lo, uint32_t hi, const char* name);
uint64_t ai_bits(int k, const char* name);                 // any k-bit integer, its bits tracked one by one
uint8_t ai_u8(uint8_t lo, uint8_t hi, const char* name);
bool ai_bool(const char* name);
void ai_assume(bool c);
void ai_assert(bool c, const char* id);                      // obligation: holds in every abstract state reaching it
void ai_same(double a, double b, double tol, const char* id);  // obligation: same real-number expression
void ai_near(double a, double b, double tol, const char* id);   // obligation: the real-number values differ by at most tol
void ai_ident_f(double a, double b, const char* id);         // obligation: the very same value (value numbers equal)
void ai_ident_i(uint64_t a, uint64_t b, const char* id);
void ai_reach(const char* id);                               // obligation: some abstract state reaches this point
bool ai_depends(double v, double leaf);
void ai_opt(const char* o);
void ai_unopt(const char* o);
int64_t ai_live();                                           // number of heap objects allocated and not freed
void ai_havoc(void* p, size_t n);
bool ai_finite(double v);
bool ai_isnan(double v);
bool ai_and(bool a, bool b);
bool ai_or(bool a, bool b);
bool ai_not(bool a);
bool ai_implies(bool a, bool b);
bool ai_feq(double a, double b);
bool ai_flt(double a, double b);
bool ai_fle(double a, double b);
bool ai_ieq(int64_t a, int64_t b);
bool ai_ile(int64_t a, int64_t b);
int64_t ai_split(int64_t v);
bool ai_regions_equal(const void* p, const void* q, size_t n);
void ai_print(const char* n, double v);
void ai_printi(const char* n, int64_t v);
void ai_stop();
void ai_emit(const char* key, const void* data, uint64_t n);   // hands concrete bytes to the driver
void ai_emiti(const char* key, int64_t v);
void ai_event(const char* kind);
}
#define PROP(name) extern "C" void prop_##name()
