// Stand-in for AOCL-Sparse's kernel templates (not installed here): the operations AOCL-DA
// uses, over compiler vector types.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstring>
#include <immintrin.h>
#include <type_traits>
#define KT_FORCE_INLINE inline __attribute__((__always_inline__))
namespace kernel_templates {
enum class bsz { b128 = 128, b256 = 256, b512 = 512 };
enum kt_avxext { AVX = 1, AVX2 = 2, AVX512F = 4, AVX512VL = 8, AVX512DQ = 16, ANY = 32 };
template <bsz B, typename T> inline constexpr std::size_t tsz_v = static_cast<std::size_t>(B) / 8 / sizeof(T);
template <bsz B, typename T> struct kt_vec_;
template <> struct kt_vec_<bsz::b128, double> { using type = __m128d; };
template <> struct kt_vec_<bsz::b128, float> { using type = __m128; };
template <> struct kt_vec_<bsz::b256, double> { using type = __m256d; };
template <> struct kt_vec_<bsz::b256, float> { using type = __m256; };
template <> struct kt_vec_<bsz::b512, double> { using type = __m512d; };
template <> struct kt_vec_<bsz::b512, float> { using type = __m512; };
#ifdef __AVX512FP16__
template <> struct kt_vec_<bsz::b128, _Float16> { using type = __m128h; };
template <> struct kt_vec_<bsz::b256, _Float16> { using type = __m256h; };
template <> struct kt_vec_<bsz::b512, _Float16> { using type = __m512h; };
#endif
template <bsz B, typename T> using avxvector_t = typename kt_vec_<B, T>::type;
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_loadu_p(const T *p) noexcept { avxvector_t<B, T> v; std::memcpy(&v, p, sizeof v); return v; }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_load_p(const T *p) noexcept { return kt_loadu_p<B, T>(p); }
template <bsz B, typename T> KT_FORCE_INLINE void kt_storeu_p(T *p, avxvector_t<B, T> v) noexcept { std::memcpy(p, &v, sizeof v); }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_set1_p(T x) noexcept { T a[tsz_v<B, T>]; for (auto &e : a) e = x; return kt_loadu_p<B, T>(a); }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_setzero_p() noexcept { return kt_set1_p<B, T>(T(0)); }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_add_p(avxvector_t<B, T> a, avxvector_t<B, T> b) noexcept { return a + b; }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_sub_p(avxvector_t<B, T> a, avxvector_t<B, T> b) noexcept { return a - b; }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_mul_p(avxvector_t<B, T> a, avxvector_t<B, T> b) noexcept { return a * b; }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_div_p(avxvector_t<B, T> a, avxvector_t<B, T> b) noexcept { return a / b; }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_fmadd_p(avxvector_t<B, T> a, avxvector_t<B, T> b, avxvector_t<B, T> c) noexcept { return a * b + c; }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_pow2_p(avxvector_t<B, T> a) noexcept { return a * a; }
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_max_p(avxvector_t<B, T> a, avxvector_t<B, T> b) noexcept {
    T x[tsz_v<B, T>], y[tsz_v<B, T>]; kt_storeu_p<B, T>(x, a); kt_storeu_p<B, T>(y, b);
    for (std::size_t i = 0; i < tsz_v<B, T>; i++) x[i] = x[i] > y[i] ? x[i] : y[i];
    return kt_loadu_p<B, T>(x); }
template <bsz B, typename T> KT_FORCE_INLINE T kt_hsum_p(avxvector_t<B, T> a) noexcept {
    T x[tsz_v<B, T>]; kt_storeu_p<B, T>(x, a); T s = 0; for (auto e : x) s += e; return s; }
template <bsz B, typename T, typename I> KT_FORCE_INLINE avxvector_t<B, T> kt_set_p(const T *p, const I *idx) noexcept {
    T a[tsz_v<B, T>]; for (std::size_t k = 0; k < tsz_v<B, T>; k++) a[k] = p[idx[k]]; return kt_loadu_p<B, T>(a); }
template <bsz B, typename T, kt_avxext E, int L, typename I> KT_FORCE_INLINE avxvector_t<B, T> kt_maskz_set_p(const T *p, I i) noexcept {
    T a[tsz_v<B, T>] = {}; for (int k = 0; k < L; k++) a[k] = p[i + k]; return kt_loadu_p<B, T>(a); }
} // namespace kernel_templates
