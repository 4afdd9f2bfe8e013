/* Wrappers around the BLASFEO routines acados calls.
 * (1) inside a simulated parallel region every matrix/vector element range read or
 *     written is a scheduling point and is reported to the race detector;
 * (2) beta == 0 means "C is not read" (BLAS semantics, as in the optimised BLASFEO
 *     targets; the GENERIC target in this sandbox computes 0*C, so NaN would survive). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include "blasfeo_d_aux.h"
#include "blasfeo_d_aux_ext_dep.h"
#include "blasfeo_d_blas.h"
#define API __attribute__((visibility("default")))
typedef struct blasfeo_dmat M; typedef struct blasfeo_dvec V;
extern int sim_par_active(void);
extern void sim_access(void *a, unsigned n, int wr, void *pc);
enum { I_daxpby, I_daxpy, I_dcolex, I_dcolsc, I_ddot, I_dgead, I_dgecp, I_dgecpsc, I_dgeex1, I_dgein1, I_dgemm_nd, I_dgemm_nn, I_dgemm_nt, I_dgemm_tn, I_dgemv_n, I_dgemv_t, I_dgesc, I_dgese, I_dgetr, I_dgetrf_rp, I_dpotrf_l, I_drowex, I_drowin, I_dsymv_l, I_dsyrk_ln, I_dsyrk_ln_mn, I_dtrcp_l, I_dtrmm_rlnn, I_dtrmv_lnn, I_dtrmv_ltn, I_dtrsm_llnn, I_dtrsm_llnu, I_dtrsm_lunn, I_dtrsm_rltn, I_dtrsv_lnn, I_dtrsv_lnu, I_dtrsv_ltn, I_dtrsv_ltu, I_dtrsv_unn, I_dtrsv_utn, I_dtrtr_l, I_dvecad, I_dvecad_sp, I_dveccp, I_dveccpsc, I_dvecex1, I_dvecex_sp, I_dvecin1, I_dvecmul, I_dvecmulacc, I_dvecnrm_inf, I_dvecpe, I_dvecpei, I_dvecsc, I_dvecse, I_N };
static const char *const nm[] = { "blasfeo_daxpby", "blasfeo_daxpy", "blasfeo_dcolex", "blasfeo_dcolsc", "blasfeo_ddot", "blasfeo_dgead", "blasfeo_dgecp", "blasfeo_dgecpsc", "blasfeo_dgeex1", "blasfeo_dgein1", "blasfeo_dgemm_nd", "blasfeo_dgemm_nn", "blasfeo_dgemm_nt", "blasfeo_dgemm_tn", "blasfeo_dgemv_n", "blasfeo_dgemv_t", "blasfeo_dgesc", "blasfeo_dgese", "blasfeo_dgetr", "blasfeo_dgetrf_rp", "blasfeo_dpotrf_l", "blasfeo_drowex", "blasfeo_drowin", "blasfeo_dsymv_l", "blasfeo_dsyrk_ln", "blasfeo_dsyrk_ln_mn", "blasfeo_dtrcp_l", "blasfeo_dtrmm_rlnn", "blasfeo_dtrmv_lnn", "blasfeo_dtrmv_ltn", "blasfeo_dtrsm_llnn", "blasfeo_dtrsm_llnu", "blasfeo_dtrsm_lunn", "blasfeo_dtrsm_rltn", "blasfeo_dtrsv_lnn", "blasfeo_dtrsv_lnu", "blasfeo_dtrsv_ltn", "blasfeo_dtrsv_ltu", "blasfeo_dtrsv_unn", "blasfeo_dtrsv_utn", "blasfeo_dtrtr_l", "blasfeo_dvecad", "blasfeo_dvecad_sp", "blasfeo_dveccp", "blasfeo_dveccpsc", "blasfeo_dvecex1", "blasfeo_dvecex_sp", "blasfeo_dvecin1", "blasfeo_dvecmul", "blasfeo_dvecmulacc", "blasfeo_dvecnrm_inf", "blasfeo_dvecpe", "blasfeo_dvecpei", "blasfeo_dvecsc", "blasfeo_dvecse" };
static void *real[I_N];
__attribute__((constructor)) static void init(void)
{
    for (int i = 0; i < I_N; i++) if (!(real[i] = dlsym(RTLD_NEXT, nm[i]))) abort();
}
#define REAL(n) ((__typeof__(&blasfeo_##n)) real[I_##n])
#define PC __builtin_return_address(0)
static void ge(M *a, int ai, int aj, int m, int n, int wr, void *pc)
{
    if (m <= 0 || n <= 0) return;
    for (int i = 0; i < m; ) {
        int r = 4 - ((ai + i) & 3); if (r > m - i) r = m - i;
        if (r == 4) sim_access(&BLASFEO_DMATEL(a, ai + i, aj), 32 * n, wr, pc);
        else for (int j = 0; j < n; j++) sim_access(&BLASFEO_DMATEL(a, ai + i, aj + j), 8 * r, wr, pc);
        i += r;
    }
}
static void lo(M *a, int ai, int aj, int m, int n, int wr, void *pc)
{
    for (int j = 0; j < n && j < m; j++)
        for (int i = j; i < m; ) {
            int r = 4 - ((ai + i) & 3); if (r > m - i) r = m - i;
            sim_access(&BLASFEO_DMATEL(a, ai + i, aj + j), 8 * r, wr, pc);
            i += r;
        }
}
static void up(M *a, int ai, int aj, int m, int wr, void *pc)
{
    for (int j = 0; j < m; j++) ge(a, ai, aj + j, j + 1, 1, wr, pc);
}
static void ve(V *x, int xi, int n, int wr, void *pc) { if (n > 0) sim_access(&BLASFEO_DVECEL(x, xi), 8 * n, wr, pc); }
static void vi(V *x, int xi, int *idx, int n, int wr, void *pc) { for (int i = 0; i < n; i++) sim_access(&BLASFEO_DVECEL(x, xi + idx[i]), 8, wr, pc); }
#define ON (sim_par_active())
static int ovl(M *a, M *b) { char *p = (char *) a->pA, *q = (char *) b->pA; return p < q + b->memsize && q < p + a->memsize; }

API void blasfeo_daxpy(int n, double alpha, V *x, int xi, V *y, int yi, V *z, int zi)
{
    if (ON) { ve(x, xi, n, 0, PC); ve(y, yi, n, 0, PC); ve(z, zi, n, 1, PC); }
    REAL(daxpy)(n, alpha, x, xi, y, yi, z, zi);
}

API void blasfeo_daxpby(int n, double alpha, V *x, int xi, double beta, V *y, int yi, V *z, int zi)
{
    if (ON) { ve(x, xi, n, 0, PC); ve(y, yi, n, 0, PC); ve(z, zi, n, 1, PC); }
    REAL(daxpby)(n, alpha, x, xi, beta, y, yi, z, zi);
}

API double blasfeo_ddot(int n, V *x, int xi, V *y, int yi)
{
    if (ON) { ve(x, xi, n, 0, PC); ve(y, yi, n, 0, PC); }
    return REAL(ddot)(n, x, xi, y, yi);
}

API void blasfeo_dveccp(int n, V *x, int xi, V *y, int yi)
{
    if (ON) { ve(x, xi, n, 0, PC); ve(y, yi, n, 1, PC); }
    REAL(dveccp)(n, x, xi, y, yi);
}

API void blasfeo_dveccpsc(int n, double alpha, V *x, int xi, V *y, int yi)
{
    if (ON) { ve(x, xi, n, 0, PC); ve(y, yi, n, 1, PC); }
    REAL(dveccpsc)(n, alpha, x, xi, y, yi);
}

API void blasfeo_dvecsc(int n, double alpha, V *x, int xi)
{
    if (ON) { ve(x, xi, n, 1, PC); }
    REAL(dvecsc)(n, alpha, x, xi);
}

API void blasfeo_dvecse(int n, double alpha, V *x, int xi)
{
    if (ON) { ve(x, xi, n, 1, PC); }
    REAL(dvecse)(n, alpha, x, xi);
}

API void blasfeo_dvecad(int n, double alpha, V *x, int xi, V *y, int yi)
{
    if (ON) { ve(x, xi, n, 0, PC); ve(y, yi, n, 0, PC); ve(y, yi, n, 1, PC); }
    REAL(dvecad)(n, alpha, x, xi, y, yi);
}

API void blasfeo_dvecad_sp(int n, double alpha, V *x, int xi, int *idx, V *z, int zi)
{
    if (ON) { ve(x, xi, n, 0, PC); vi(z, zi, idx, n, 1, PC); }
    REAL(dvecad_sp)(n, alpha, x, xi, idx, z, zi);
}

API void blasfeo_dvecex_sp(int n, double alpha, int *idx, V *x, int xi, V *z, int zi)
{
    if (ON) { vi(x, xi, idx, n, 0, PC); ve(z, zi, n, 1, PC); }
    REAL(dvecex_sp)(n, alpha, idx, x, xi, z, zi);
}

API void blasfeo_dvecmul(int n, V *x, int xi, V *y, int yi, V *z, int zi)
{
    if (ON) { ve(x, xi, n, 0, PC); ve(y, yi, n, 0, PC); ve(z, zi, n, 1, PC); }
    REAL(dvecmul)(n, x, xi, y, yi, z, zi);
}

API void blasfeo_dvecmulacc(int n, V *x, int xi, V *y, int yi, V *z, int zi)
{
    if (ON) { ve(x, xi, n, 0, PC); ve(y, yi, n, 0, PC); ve(z, zi, n, 1, PC); }
    REAL(dvecmulacc)(n, x, xi, y, yi, z, zi);
}

API void blasfeo_dvecnrm_inf(int n, V *x, int xi, double *r)
{
    if (ON) { ve(x, xi, n, 0, PC); }
    REAL(dvecnrm_inf)(n, x, xi, r);
}

API double blasfeo_dvecex1(V *x, int xi)
{
    if (ON) { ve(x, xi, 1, 0, PC); }
    return REAL(dvecex1)(x, xi);
}

API void blasfeo_dvecin1(double a, V *x, int xi)
{
    if (ON) { ve(x, xi, 1, 1, PC); }
    REAL(dvecin1)(a, x, xi);
}

API void blasfeo_dvecpe(int n, int *ip, V *x, int xi)
{
    if (ON) { ve(x, xi, n, 1, PC); }
    REAL(dvecpe)(n, ip, x, xi);
}

API void blasfeo_dvecpei(int n, int *ip, V *x, int xi)
{
    if (ON) { ve(x, xi, n, 1, PC); }
    REAL(dvecpei)(n, ip, x, xi);
}

API void blasfeo_dgecp(int m, int n, M *A, int ai, int aj, M *B, int bi, int bj)
{
    if (ON) { ge(A, ai, aj, m, n, 0, PC); ge(B, bi, bj, m, n, 1, PC); }
    REAL(dgecp)(m, n, A, ai, aj, B, bi, bj);
}

API void blasfeo_dgecpsc(int m, int n, double alpha, M *A, int ai, int aj, M *B, int bi, int bj)
{
    if (ON) { ge(A, ai, aj, m, n, 0, PC); ge(B, bi, bj, m, n, 1, PC); }
    REAL(dgecpsc)(m, n, alpha, A, ai, aj, B, bi, bj);
}

API void blasfeo_dgead(int m, int n, double alpha, M *A, int ai, int aj, M *B, int bi, int bj)
{
    if (ON) { ge(A, ai, aj, m, n, 0, PC); ge(B, bi, bj, m, n, 1, PC); }
    REAL(dgead)(m, n, alpha, A, ai, aj, B, bi, bj);
}

API void blasfeo_dgetr(int m, int n, M *A, int ai, int aj, M *B, int bi, int bj)
{
    if (ON) { ge(A, ai, aj, m, n, 0, PC); ge(B, bi, bj, n, m, 1, PC); }
    REAL(dgetr)(m, n, A, ai, aj, B, bi, bj);
}

API void blasfeo_dgese(int m, int n, double alpha, M *A, int ai, int aj)
{
    if (ON) { ge(A, ai, aj, m, n, 1, PC); }
    REAL(dgese)(m, n, alpha, A, ai, aj);
}

API void blasfeo_dgesc(int m, int n, double alpha, M *A, int ai, int aj)
{
    if (ON) { ge(A, ai, aj, m, n, 1, PC); }
    REAL(dgesc)(m, n, alpha, A, ai, aj);
}

API void blasfeo_dtrcp_l(int m, M *A, int ai, int aj, M *B, int bi, int bj)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); lo(B, bi, bj, m, m, 1, PC); }
    REAL(dtrcp_l)(m, A, ai, aj, B, bi, bj);
}

API void blasfeo_dtrtr_l(int m, M *A, int ai, int aj, M *B, int bi, int bj)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); up(B, bi, bj, m, 1, PC); }
    REAL(dtrtr_l)(m, A, ai, aj, B, bi, bj);
}

API void blasfeo_drowex(int n, double alpha, M *A, int ai, int aj, V *x, int xi)
{
    if (ON) { ge(A, ai, aj, 1, n, 0, PC); ve(x, xi, n, 1, PC); }
    REAL(drowex)(n, alpha, A, ai, aj, x, xi);
}

API void blasfeo_drowin(int n, double alpha, V *x, int xi, M *A, int ai, int aj)
{
    if (ON) { ve(x, xi, n, 0, PC); ge(A, ai, aj, 1, n, 1, PC); }
    REAL(drowin)(n, alpha, x, xi, A, ai, aj);
}

API void blasfeo_dcolex(int n, M *A, int ai, int aj, V *x, int xi)
{
    if (ON) { ge(A, ai, aj, n, 1, 0, PC); ve(x, xi, n, 1, PC); }
    REAL(dcolex)(n, A, ai, aj, x, xi);
}

API void blasfeo_dcolsc(int n, double alpha, M *A, int ai, int aj)
{
    if (ON) { ge(A, ai, aj, n, 1, 1, PC); }
    REAL(dcolsc)(n, alpha, A, ai, aj);
}

API double blasfeo_dgeex1(M *A, int ai, int aj)
{
    if (ON) { ge(A, ai, aj, 1, 1, 0, PC); }
    return REAL(dgeex1)(A, ai, aj);
}

API void blasfeo_dgein1(double a, M *A, int ai, int aj)
{
    if (ON) { ge(A, ai, aj, 1, 1, 1, PC); }
    REAL(dgein1)(a, A, ai, aj);
}

API void blasfeo_dgemv_n(int m, int n, double alpha, M *A, int ai, int aj, V *x, int xi, double beta, V *y, int yi, V *z, int zi)
{
    if (ON) { ge(A, ai, aj, m, n, 0, PC); ve(x, xi, n, 0, PC); ve(y, yi, beta == 0. ? 0 : m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dgemv_n)(m, n, alpha, A, ai, aj, x, xi, beta, y, yi, z, zi);
}

API void blasfeo_dgemv_t(int m, int n, double alpha, M *A, int ai, int aj, V *x, int xi, double beta, V *y, int yi, V *z, int zi)
{
    if (ON) { ge(A, ai, aj, m, n, 0, PC); ve(x, xi, m, 0, PC); ve(y, yi, beta == 0. ? 0 : n, 0, PC); ve(z, zi, n, 1, PC); }
    REAL(dgemv_t)(m, n, alpha, A, ai, aj, x, xi, beta, y, yi, z, zi);
}

API void blasfeo_dsymv_l(int m, double alpha, M *A, int ai, int aj, V *x, int xi, double beta, V *y, int yi, V *z, int zi)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ve(x, xi, m, 0, PC); ve(y, yi, beta == 0. ? 0 : m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dsymv_l)(m, alpha, A, ai, aj, x, xi, beta, y, yi, z, zi);
}

API void blasfeo_dtrsv_unn(int m, M *A, int ai, int aj, V *x, int xi, V *z, int zi)
{
    if (ON) { up(A, ai, aj, m, 0, PC); ve(x, xi, m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dtrsv_unn)(m, A, ai, aj, x, xi, z, zi);
}

API void blasfeo_dtrsv_lnu(int m, M *A, int ai, int aj, V *x, int xi, V *z, int zi)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ve(x, xi, m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dtrsv_lnu)(m, A, ai, aj, x, xi, z, zi);
}

API void blasfeo_dtrsv_utn(int m, M *A, int ai, int aj, V *x, int xi, V *z, int zi)
{
    if (ON) { up(A, ai, aj, m, 0, PC); ve(x, xi, m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dtrsv_utn)(m, A, ai, aj, x, xi, z, zi);
}

API void blasfeo_dtrsv_ltu(int m, M *A, int ai, int aj, V *x, int xi, V *z, int zi)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ve(x, xi, m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dtrsv_ltu)(m, A, ai, aj, x, xi, z, zi);
}

API void blasfeo_dtrmv_ltn(int m, M *A, int ai, int aj, V *x, int xi, V *z, int zi)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ve(x, xi, m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dtrmv_ltn)(m, A, ai, aj, x, xi, z, zi);
}

API void blasfeo_dtrmv_lnn(int m, M *A, int ai, int aj, V *x, int xi, V *z, int zi)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ve(x, xi, m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dtrmv_lnn)(m, A, ai, aj, x, xi, z, zi);
}

API void blasfeo_dtrsv_ltn(int m, M *A, int ai, int aj, V *x, int xi, V *z, int zi)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ve(x, xi, m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dtrsv_ltn)(m, A, ai, aj, x, xi, z, zi);
}

API void blasfeo_dtrsv_lnn(int m, M *A, int ai, int aj, V *x, int xi, V *z, int zi)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ve(x, xi, m, 0, PC); ve(z, zi, m, 1, PC); }
    REAL(dtrsv_lnn)(m, A, ai, aj, x, xi, z, zi);
}

API void blasfeo_dgemm_nn(int m, int n, int k, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, double beta, M *C, int ci, int cj, M *D, int di, int dj)
{
    if (ON) { ge(A, ai, aj, m, k, 0, PC); ge(B, bi, bj, k, n, 0, PC); ge(C, ci, cj, beta == 0. ? 0 : m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    if (beta == 0. && !ovl(D, A) && !ovl(D, B)) { REAL(dgese)(m, n, 0., D, di, dj); C = D; ci = di; cj = dj; }
    REAL(dgemm_nn)(m, n, k, alpha, A, ai, aj, B, bi, bj, beta, C, ci, cj, D, di, dj);
}

API void blasfeo_dgemm_nt(int m, int n, int k, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, double beta, M *C, int ci, int cj, M *D, int di, int dj)
{
    if (ON) { ge(A, ai, aj, m, k, 0, PC); ge(B, bi, bj, n, k, 0, PC); ge(C, ci, cj, beta == 0. ? 0 : m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    if (beta == 0. && !ovl(D, A) && !ovl(D, B)) { REAL(dgese)(m, n, 0., D, di, dj); C = D; ci = di; cj = dj; }
    REAL(dgemm_nt)(m, n, k, alpha, A, ai, aj, B, bi, bj, beta, C, ci, cj, D, di, dj);
}

API void blasfeo_dgemm_tn(int m, int n, int k, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, double beta, M *C, int ci, int cj, M *D, int di, int dj)
{
    if (ON) { ge(A, ai, aj, k, m, 0, PC); ge(B, bi, bj, k, n, 0, PC); ge(C, ci, cj, beta == 0. ? 0 : m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    if (beta == 0. && !ovl(D, A) && !ovl(D, B)) { REAL(dgese)(m, n, 0., D, di, dj); C = D; ci = di; cj = dj; }
    REAL(dgemm_tn)(m, n, k, alpha, A, ai, aj, B, bi, bj, beta, C, ci, cj, D, di, dj);
}

API void blasfeo_dgemm_nd(int m, int n, double alpha, M *A, int ai, int aj, V *B, int bi, double beta, M *C, int ci, int cj, M *D, int di, int dj)
{
    if (ON) { ge(A, ai, aj, m, n, 0, PC); ve(B, bi, n, 0, PC); ge(C, ci, cj, beta == 0. ? 0 : m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    if (beta == 0. && !ovl(D, A)) { REAL(dgese)(m, n, 0., D, di, dj); C = D; ci = di; cj = dj; }
    REAL(dgemm_nd)(m, n, alpha, A, ai, aj, B, bi, beta, C, ci, cj, D, di, dj);
}

static void lo0(M *D, int di, int dj, int m, int n) { for (int j = 0; j < n; j++) for (int i = j; i < m; i++) BLASFEO_DMATEL(D, di + i, dj + j) = 0.; }

API void blasfeo_dsyrk_ln(int m, int k, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, double beta, M *C, int ci, int cj, M *D, int di, int dj)
{
    if (ON) { ge(A, ai, aj, m, k, 0, PC); ge(B, bi, bj, m, k, 0, PC); lo(C, ci, cj, beta == 0. ? 0 : m, m, 0, PC); lo(D, di, dj, m, m, 1, PC); }
    if (beta == 0. && !ovl(D, A) && !ovl(D, B)) { lo0(D, di, dj, m, m); C = D; ci = di; cj = dj; }
    REAL(dsyrk_ln)(m, k, alpha, A, ai, aj, B, bi, bj, beta, C, ci, cj, D, di, dj);
}

API void blasfeo_dsyrk_ln_mn(int m, int n, int k, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, double beta, M *C, int ci, int cj, M *D, int di, int dj)
{
    if (ON) { ge(A, ai, aj, m, k, 0, PC); ge(B, bi, bj, n, k, 0, PC); lo(C, ci, cj, beta == 0. ? 0 : m, n, 0, PC); lo(D, di, dj, m, n, 1, PC); }
    if (beta == 0. && !ovl(D, A) && !ovl(D, B)) { lo0(D, di, dj, m, n); C = D; ci = di; cj = dj; }
    REAL(dsyrk_ln_mn)(m, n, k, alpha, A, ai, aj, B, bi, bj, beta, C, ci, cj, D, di, dj);
}

API void blasfeo_dtrmm_rlnn(int m, int n, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, M *D, int di, int dj)
{
    if (ON) { lo(A, ai, aj, n, n, 0, PC); ge(B, bi, bj, m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    REAL(dtrmm_rlnn)(m, n, alpha, A, ai, aj, B, bi, bj, D, di, dj);
}

API void blasfeo_dtrsm_rltn(int m, int n, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, M *D, int di, int dj)
{
    if (ON) { lo(A, ai, aj, n, n, 0, PC); ge(B, bi, bj, m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    REAL(dtrsm_rltn)(m, n, alpha, A, ai, aj, B, bi, bj, D, di, dj);
}

API void blasfeo_dtrsm_llnu(int m, int n, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, M *D, int di, int dj)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ge(B, bi, bj, m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    REAL(dtrsm_llnu)(m, n, alpha, A, ai, aj, B, bi, bj, D, di, dj);
}

API void blasfeo_dtrsm_llnn(int m, int n, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, M *D, int di, int dj)
{
    if (ON) { lo(A, ai, aj, m, m, 0, PC); ge(B, bi, bj, m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    REAL(dtrsm_llnn)(m, n, alpha, A, ai, aj, B, bi, bj, D, di, dj);
}

API void blasfeo_dtrsm_lunn(int m, int n, double alpha, M *A, int ai, int aj, M *B, int bi, int bj, M *D, int di, int dj)
{
    if (ON) { up(A, ai, aj, m, 0, PC); ge(B, bi, bj, m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    REAL(dtrsm_lunn)(m, n, alpha, A, ai, aj, B, bi, bj, D, di, dj);
}

API void blasfeo_dpotrf_l(int m, M *C, int ci, int cj, M *D, int di, int dj)
{
    if (ON) { lo(C, ci, cj, m, m, 0, PC); lo(D, di, dj, m, m, 1, PC); }
    REAL(dpotrf_l)(m, C, ci, cj, D, di, dj);
}

API void blasfeo_dgetrf_rp(int m, int n, M *C, int ci, int cj, M *D, int di, int dj, int *ip)
{
    if (ON) { ge(C, ci, cj, m, n, 0, PC); ge(D, di, dj, m, n, 1, PC); }
    REAL(dgetrf_rp)(m, n, C, ci, cj, D, di, dj, ip);
}
