// Harness interface.  In the symbolic build (clang -> LLVM IR -> vsym) the vp_* functions are
// intrinsics of the symbolic executor; in the native build (vp_native.cpp) they read a concrete
// counterexample and evaluate the checks on the compiled code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <vector>
#include <vecmath/forward.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>

extern "C" {
double vp_f64(const char* name);
float vp_f32(const char* name);
int32_t vp_i32(const char* name);
int64_t vp_i64(const char* name);
int8_t vp_i8(const char* name);
int32_t vp_choose(const char* name, int32_t n);        // 0..n-1, one path per value
void vp_assume(bool c);
void vp_check(bool c, const char* id);
void vp_eq_f64(double a, double b, const char* id);   // exact in Real mode; tolerance in replay
void vp_eq_f32(float a, float b, const char* id);
void vp_le_f64(double a, double b, const char* id);
void vp_le_f32(float a, float b, const char* id);
int32_t vp_is_replay(void);
}

#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_REAL(name) extern "C" void vp_r_##name()     // real-arithmetic semantics
#define VP_FP(name) extern "C" void vp_f_##name()       // bit-exact IEEE semantics
#define VP_REAL_T(name) extern "C" void vp_rt_##name()  // thorough tier only
#define VP_FP_T(name) extern "C" void vp_ft_##name()
#define VP_CFG(name, s) extern "C" __attribute__((used)) const char vp_cfg_##name[] = s;

namespace vp {
template <typename T> T sym(const char* n);
template <> inline double sym<double>(const char* n) { return vp_f64(n); }
template <> inline float sym<float>(const char* n) { return vp_f32(n); }
template <> inline int sym<int>(const char* n) { return vp_i32(n); }
template <> inline std::int64_t sym<std::int64_t>(const char* n) { return vp_i64(n); }

// finite, bounded real input
#ifndef VP_WIDE
#define VP_WIDE 10000
#endif
template <typename T> T within(const char* n, T lo, T hi) {
  const T v = sym<T>(n);
  vp_assume(v >= lo && v <= hi);
  return v;
}
template <typename T> T num(const char* n, T lo, T hi) {
  const T v = sym<T>(n);
  const T w = (lo == -hi || lo == T(0)) && hi >= T(10) ? T(VP_WIDE) : T(1); // coordinates
  vp_assume(v >= lo * w && v <= hi * w);
  return v;
}
template <typename T> T num(const char* n) { return num<T>(n, T(-100), T(100)); }

template <typename T, std::size_t S> vm::vec<T, S> symvec(const char* n) {
  vm::vec<T, S> r;
  for (std::size_t i = 0; i < S; ++i) r[i] = sym<T>(n);
  return r;
}
template <typename T, std::size_t S> vm::vec<T, S> numvec(const char* n, T lo = T(-100), T hi = T(100)) {
  vm::vec<T, S> r;
  for (std::size_t i = 0; i < S; ++i) r[i] = num<T>(n, lo, hi);
  return r;
}
template <typename T, std::size_t R, std::size_t C>
vm::mat<T, R, C> nummat(const char* n, T lo = T(-100), T hi = T(100)) {
  vm::mat<T, R, C> m;
  for (std::size_t c = 0; c < C; ++c)
    for (std::size_t r = 0; r < R; ++r) m[c][r] = num<T>(n, lo, hi);
  return m;
}
template <typename T> bool nan(T v) { return v != v; }
template <typename T> bool fin(T v) { return v - v == T(0); }

inline void eq(double a, double b, const char* id) { vp_eq_f64(a, b, id); }
inline void eq(float a, float b, const char* id) { vp_eq_f32(a, b, id); }
inline void eq(int a, int b, const char* id) { vp_check(a == b, id); }
inline void eq(std::int64_t a, std::int64_t b, const char* id) { vp_check(a == b, id); }
inline void le(double a, double b, const char* id) { vp_le_f64(a, b, id); }
inline void le(float a, float b, const char* id) { vp_le_f32(a, b, id); }
template <typename T, std::size_t S>
void eq(const vm::vec<T, S>& a, const vm::vec<T, S>& b, const char* id) {
  for (std::size_t i = 0; i < S; ++i) eq(a.v[i], b.v[i], id);
}
template <typename T, std::size_t R, std::size_t C>
void eq(const vm::mat<T, R, C>& a, const vm::mat<T, R, C>& b, const char* id) {
  for (std::size_t c = 0; c < C; ++c)
    for (std::size_t r = 0; r < R; ++r) eq(a.v[c].v[r], b.v[c].v[r], id);
}
} // namespace vp
