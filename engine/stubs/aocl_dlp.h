// Stand-in for AOCL-DLP's header (not installed here).
#pragma once
#include <stdint.h>
#ifdef AOCLDA_ILP64
typedef int64_t md_t;
#else
typedef int64_t md_t;
#endif
typedef uint16_t float16;
void aocl_gemm_f16f16f16of16(const char order, const char transa, const char transb, const md_t m,
                             const md_t n, const md_t k, const uint16_t alpha, const uint16_t *a,
                             const md_t lda, const char mem_format_a, const uint16_t *b,
                             const md_t ldb, const char mem_format_b, const uint16_t beta,
                             uint16_t *c, const md_t ldc, void *post_op);
