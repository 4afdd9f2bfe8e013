#define HPIPM_COMPAT_IMPL
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "blasfeo_d_aux.h"
#include "blasfeo_d_blas.h"
#include "hpipm_compat.h"
#include "hpipm_d_core_qp_ipm.h"

void sim_forget(void *p, unsigned long n);
/* scratch memory; its previous life is of no interest to the race detector */
static void *fresh(size_t n) { void *p = malloc(n); sim_forget(p, n); return p; }

/* ---------------- seeds ---------------- */
#define NM(d,i) (2*(d)->nb[i]+2*(d)->ng[i]+2*(d)->ns[i])
static hpipm_size_t vsz(int n) { return blasfeo_memsize_dvec(n); }

hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *dim)
{
    int N = dim->N; hpipm_size_t s = 4 * (N + 1) * sizeof(struct blasfeo_dvec) + 128;
    for (int i = 0; i <= N; i++) {
        s += vsz(dim->nu[i] + dim->nx[i] + 2*dim->ns[i]) + 2 * vsz(NM(dim, i));
        if (i < N) s += vsz(dim->nx[i+1]);
    }
    return (s + 63) / 64 * 64;
}
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *q, void *mem)
{
    int N = dim->N; char *c = mem;
    memset(mem, 0, d_ocp_qp_seed_memsize(dim));
    q->dim = dim; q->memsize = d_ocp_qp_seed_memsize(dim);
    q->seed_g = (void *) c; c += (N+1)*sizeof(struct blasfeo_dvec);
    q->seed_b = (void *) c; c += (N+1)*sizeof(struct blasfeo_dvec);
    q->seed_d = (void *) c; c += (N+1)*sizeof(struct blasfeo_dvec);
    q->seed_m = (void *) c; c += (N+1)*sizeof(struct blasfeo_dvec);
    c = (char *) (((size_t) c + 63) / 64 * 64);
    for (int i = 0; i <= N; i++) {
        int n = dim->nu[i] + dim->nx[i] + 2*dim->ns[i];
        blasfeo_create_dvec(n, q->seed_g + i, c); c += vsz(n);
        if (i < N) { blasfeo_create_dvec(dim->nx[i+1], q->seed_b + i, c); c += vsz(dim->nx[i+1]); }
        blasfeo_create_dvec(NM(dim,i), q->seed_d + i, c); c += vsz(NM(dim,i));
        blasfeo_create_dvec(NM(dim,i), q->seed_m + i, c); c += vsz(NM(dim,i));
    }
}
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *s)
{
    struct d_ocp_qp_dim *dim = s->dim; int N = dim->N;
    for (int i = 0; i <= N; i++) {
        blasfeo_dvecse(dim->nu[i] + dim->nx[i] + 2*dim->ns[i], 0.0, s->seed_g + i, 0);
        if (i < N) blasfeo_dvecse(dim->nx[i+1], 0.0, s->seed_b + i, 0);
        blasfeo_dvecse(NM(dim,i), 0.0, s->seed_d + i, 0);
        blasfeo_dvecse(NM(dim,i), 0.0, s->seed_m + i, 0);
    }
}
void d_ocp_qp_seed_print(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *s) { printf("ocp_qp_seed %d\n", dim->N); }

#define DM(d) (2*(d)->nb+2*(d)->ng+2*(d)->ns)
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *dim)
{
    return (4*sizeof(struct blasfeo_dvec) + 128 + vsz(dim->nv + 2*dim->ns) + vsz(dim->ne) + 2*vsz(DM(dim)) + 63) / 64 * 64;
}
void d_dense_qp_seed_create(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *q, void *mem)
{
    char *c = mem; memset(mem, 0, d_dense_qp_seed_memsize(dim));
    q->dim = dim; q->memsize = d_dense_qp_seed_memsize(dim);
    q->seed_g = (void *) c; q->seed_b = q->seed_g + 1; q->seed_d = q->seed_g + 2; q->seed_m = q->seed_g + 3;
    c += 4*sizeof(struct blasfeo_dvec);
    c = (char *) (((size_t) c + 63) / 64 * 64);
    blasfeo_create_dvec(dim->nv + 2*dim->ns, q->seed_g, c); c += vsz(dim->nv + 2*dim->ns);
    blasfeo_create_dvec(dim->ne, q->seed_b, c); c += vsz(dim->ne);
    blasfeo_create_dvec(DM(dim), q->seed_d, c); c += vsz(DM(dim));
    blasfeo_create_dvec(DM(dim), q->seed_m, c);
}
void d_dense_qp_seed_print(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *s) { printf("dense_qp_seed %d\n", dim->nv); }

void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *v) { *v = dim->nv; }
/* ---------------- small accessors ---------------- */
void d_ocp_qp_set_m_all(double *m, struct d_ocp_qp *qp)
{
    for (int i = 0; i <= qp->dim->N; i++) blasfeo_dvecse(NM(qp->dim, i), *m, qp->m + i, 0);
}
void d_dense_qp_set_m_all(double *m, struct d_dense_qp *qp) { blasfeo_dvecse(DM(qp->dim), *m, qp->m, 0); }
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec)
{
    int n = qp->dim->nbue[stage] + qp->dim->nbxe[stage] + qp->dim->nge[stage];
    for (int i = 0; i < n; i++) vec[i] = qp->idxe[stage][i];
}
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *tau) { *tau = ws->core_workspace->mu; }

/* new-API-only options: t0_min/lam0_min are kept in a table (used by the exit
 * factorization below), the others have no effect here */
static struct { const void *a; double t0, l0; } clipt[64];
static int clip(const void *a, int add)
{
    static int nxt;
    for (int i = 0; i < 64; i++) if (clipt[i].a == a) return i;
    if (!add) return -1;
    int i = nxt++ % 64;
    clipt[i].a = a; clipt[i].t0 = clipt[i].l0 = 0.;
    return i;
}
static int newopt(const char *f, void *v, void *a)
{
    if (!strcmp(f, "t0_min")) { clipt[clip(a, 1)].t0 = *(double *) v; return 1; }
    if (!strcmp(f, "lam0_min")) { clipt[clip(a, 1)].l0 = *(double *) v; return 1; }
    return !strcmp(f, "update_fact_exit") || !strcmp(f, "t0_init") || !strcmp(f, "update_ric_exit") || !strcmp(f, "cond_ric_alg");
}
void compat_ocp_qp_ipm_arg_set(char *f, void *v, struct d_ocp_qp_ipm_arg *a)
{
    if (!newopt(f, v, a)) d_ocp_qp_ipm_arg_set(f, v, a);
}
void compat_dense_qp_ipm_arg_set(char *f, void *v, struct d_dense_qp_ipm_arg *a)
{
    if (!newopt(f, v, a) && strcmp(f, "ric_alg")) d_dense_qp_ipm_arg_set(f, v, a);
}
static void clipv(struct blasfeo_dvec *v, int n, double m)
{
    for (int i = 0; i < n; i++) if (v->pa[i] < m) v->pa[i] = m;
}
/* ---- KKT matrix at the exit of the last factorization ----
 * The sensitivity routine of this HPIPM binary predates the interface; the linear system
 *   H dv + A' dpi - sum a dlam = -seed_g,  A dv = -seed_b,  a dv - dt = seed_d,  lam dt + t dlam = seed_m
 * is solved with a dense factorization kept per workspace. */
#define KMAX 160
#define KINEQ 400
static struct kfac { const void *ws; int n, bad, piv[KMAX]; double a[KMAX * KMAX]; double lam[KINEQ], t[KINEQ]; } kfac[64];
static struct kfac *kfind(const void *ws, int add)
{
    static int nxt;
    for (int i = 0; i < 64; i++) if (kfac[i].ws == ws) return kfac + i;
    if (!add) return NULL;
    int i = __atomic_fetch_add(&nxt, 1, __ATOMIC_SEQ_CST) % 64;
    kfac[i].ws = ws;
    return kfac + i;
}
/* row of constraint r of stage i (lower: r < nb+ng, upper: + nb+ng, slack bounds after) as (index, value) pairs; -> count */
static int krow(struct d_ocp_qp *qp, int i, int r, int *ix, double *v)
{
    struct d_ocp_qp_dim *d = qp->dim;
    int m = d->nb[i] + d->ng[i], nv = d->nu[i] + d->nx[i], c = 0, up = r >= m;
    if (r >= 2 * m) { ix[0] = nv + r - 2 * m; v[0] = 1.; return 1; }
    int j = up ? r - m : r; double sg = up ? -1. : 1.;
    if (j < d->nb[i]) { ix[c] = qp->idxb[i][j]; v[c++] = sg; }
    else for (int k = 0; k < nv; k++) { ix[c] = k; v[c++] = sg * BLASFEO_DMATEL(qp->DCt + i, k, j - d->nb[i]); }
    int s = d->ns[i] ? qp->idxs_rev[i][j] : -1;
    if (s >= 0) { ix[c] = nv + s + (up ? d->ns[i] : 0); v[c++] = 1.; }
    return c;
}
static int koff(struct d_ocp_qp_dim *d, int i) { int n = 0; for (int k = 0; k < i; k++) n += d->nu[k] + d->nx[k] + 2 * d->ns[k]; return n; }
static int poff(struct d_ocp_qp_dim *d, int i) { int n = koff(d, d->N + 1); for (int k = 0; k < i; k++) n += d->nx[k + 1]; return n; }
static void kkt_factorize(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, const void *ws, int bad)
{
    struct d_ocp_qp_dim *d = qp->dim; int N = d->N, n = poff(d, N), o = 0;
    struct kfac *f = kfind(ws, 1);
    f->n = 0; f->bad = bad;
    int nt = 0;
    for (int i = 0; i <= N; i++) nt += 2 * (d->nb[i] + d->ng[i] + d->ns[i]);
    if (n > KMAX || nt > KINEQ) return;
    f->n = n;
    double *A = f->a; int ix[KMAX]; double v[KMAX];
    memset(A, 0, sizeof(double) * n * n);
    for (int i = 0; i <= N; i++) {
        int nv = d->nu[i] + d->nx[i], k0 = koff(d, i), m = 2 * (d->nb[i] + d->ng[i] + d->ns[i]);
        for (int r = 0; r < nv; r++) for (int c = 0; c < nv; c++)
            A[(k0 + r) * n + k0 + c] = r >= c ? BLASFEO_DMATEL(qp->RSQrq + i, r, c) : BLASFEO_DMATEL(qp->RSQrq + i, c, r);
        for (int r = 0; r < 2 * d->ns[i]; r++) A[(k0 + nv + r) * n + k0 + nv + r] = BLASFEO_DVECEL(qp->Z + i, r);
        for (int r = 0; r < m; r++, o++) {
            f->lam[o] = BLASFEO_DVECEL(sol->lam + i, r); f->t[o] = BLASFEO_DVECEL(sol->t + i, r);
            if (BLASFEO_DVECEL(qp->d_mask + i, r) == 0.) { f->lam[o] = 0.; f->t[o] = 1.; continue; }
            int c = krow(qp, i, r, ix, v);
            double q = f->lam[o] / f->t[o];
            for (int a = 0; a < c; a++) for (int b = 0; b < c; b++) A[(k0 + ix[a]) * n + k0 + ix[b]] += q * v[a] * v[b];
        }
        if (i < N) {
            int p0 = poff(d, i), k1 = koff(d, i + 1) + d->nu[i + 1];
            for (int j = 0; j < d->nx[i + 1]; j++) {
                for (int r = 0; r < nv; r++) A[(p0 + j) * n + k0 + r] = A[(k0 + r) * n + p0 + j] = BLASFEO_DMATEL(qp->BAbt + i, r, j);
                A[(p0 + j) * n + k1 + j] = A[(k1 + j) * n + p0 + j] = -1.;
            }
        }
    }
    for (int k = 0; k < n; k++) {           /* LU with partial pivoting */
        int p = k;
        for (int r = k + 1; r < n; r++) if (__builtin_fabs(A[r * n + k]) > __builtin_fabs(A[p * n + k])) p = r;
        f->piv[k] = p;
        if (p != k) for (int c = 0; c < n; c++) { double x = A[k * n + c]; A[k * n + c] = A[p * n + c]; A[p * n + c] = x; }
        if (A[k * n + k] == 0.) { f->bad = 1; return; }
        for (int r = k + 1; r < n; r++) {
            double x = A[r * n + k] /= A[k * n + k];
            if (x != 0.) for (int c = k + 1; c < n; c++) A[r * n + c] -= x * A[k * n + c];
        }
    }
}
static int kkt_sens(struct d_ocp_qp *qp, struct d_ocp_qp_seed *s, struct d_ocp_qp_sol *sens, const void *ws)
{
    struct d_ocp_qp_dim *d = qp->dim; int N = d->N, o = 0, ix[KMAX];
    struct kfac *f = kfind(ws, 0);
    if (!f || !f->n || f->n != poff(d, N)) return 0;
    int n = f->n; double y[KMAX], v[KMAX], *A = f->a;
    for (int i = 0; i <= N; i++) {
        int k0 = koff(d, i), nv = d->nu[i] + d->nx[i] + 2 * d->ns[i], m = 2 * (d->nb[i] + d->ng[i] + d->ns[i]);
        for (int r = 0; r < nv; r++) y[k0 + r] = -BLASFEO_DVECEL(s->seed_g + i, r);
        for (int r = 0; r < m; r++, o++) {
            if (BLASFEO_DVECEL(qp->d_mask + i, r) == 0.) continue;
            int c = krow(qp, i, r, ix, v);
            double q = (BLASFEO_DVECEL(s->seed_m + i, r) + f->lam[o] * BLASFEO_DVECEL(s->seed_d + i, r)) / f->t[o];
            for (int a = 0; a < c; a++) y[k0 + ix[a]] += q * v[a];
        }
        if (i < N) for (int j = 0; j < d->nx[i + 1]; j++) y[poff(d, i) + j] = -BLASFEO_DVECEL(s->seed_b + i, j);
    }
    for (int k = 0; k < n; k++) {
        double x = y[f->piv[k]]; y[f->piv[k]] = y[k]; y[k] = x;
    }
    for (int k = 0; k < n; k++) for (int r = k + 1; r < n; r++) y[r] -= A[r * n + k] * y[k];
    for (int k = n - 1; k >= 0; k--) {
        for (int c = k + 1; c < n; c++) y[k] -= A[k * n + c] * y[c];
        y[k] = f->bad ? 0. / 0. : y[k] / A[k * n + k];
    }
    o = 0;
    for (int i = 0; i <= N; i++) {
        int k0 = koff(d, i), nv = d->nu[i] + d->nx[i] + 2 * d->ns[i], m = 2 * (d->nb[i] + d->ng[i] + d->ns[i]);
        for (int r = 0; r < nv; r++) BLASFEO_DVECEL(sens->ux + i, r) = y[k0 + r];
        for (int r = 0; r < m; r++, o++) {
            double dt = -BLASFEO_DVECEL(s->seed_d + i, r), dl = 0.;
            int c = krow(qp, i, r, ix, v);
            for (int a = 0; a < c; a++) dt += v[a] * y[k0 + ix[a]];
            if (BLASFEO_DVECEL(qp->d_mask + i, r) != 0.) dl = (BLASFEO_DVECEL(s->seed_m + i, r) - f->lam[o] * dt) / f->t[o];
            BLASFEO_DVECEL(sens->t + i, r) = dt; BLASFEO_DVECEL(sens->lam + i, r) = dl;
        }
        if (i < N) for (int j = 0; j < d->nx[i + 1]; j++) BLASFEO_DVECEL(sens->pi + i, j) = y[poff(d, i) + j];
    }
    return 1;
}
/* iter_max 0 with update_fact_exit: factorize the KKT matrix at the (clipped)
 * starting point and leave the solution where it is.  The old API factorizes
 * in an iteration, so one iteration is run and its step is undone. */
void compat_ocp_solve(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    if (arg->iter_max > 0) { struct kfac *f = kfind(ws, 0); if (f) f->n = 0; d_ocp_qp_ipm_solve(qp, sol, arg, ws); return; }
    int N = qp->dim->N, *nx = qp->dim->nx, *nu = qp->dim->nu, *ns = qp->dim->ns, wb = arg->warm_start, c = clip(arg, 0), n = 0;
    double *bk;
#define NT(i) (2 * (qp->dim->nb[i] + qp->dim->ng[i] + ns[i]))
    for (int i = 0; i <= N; i++) n += nx[i] + nu[i] + 2 * ns[i] + 2 * NT(i) + (i < N ? nx[i + 1] : 0);
    bk = malloc(sizeof(double) * (n + 1)); n = 0;
#define EACH(OP) for (int i = 0; i <= N; i++) { OP(nx[i] + nu[i] + 2 * ns[i], sol->ux + i); OP(NT(i), sol->lam + i); OP(NT(i), sol->t + i); if (i < N) OP(nx[i + 1], sol->pi + i); }
#define SAVE(k, v) (memcpy(bk + n, (v)->pa, sizeof(double) * (k)), n += (k))
#define REST(k, v) (memcpy((v)->pa, bk + n, sizeof(double) * (k)), n += (k))
    if (c >= 0) for (int i = 0; i <= N; i++) { clipv(sol->lam + i, NT(i), clipt[c].l0); clipv(sol->t + i, NT(i), clipt[c].t0); }
    EACH(SAVE)
    arg->iter_max = 1; if (wb > 2) arg->warm_start = 2;
    d_ocp_qp_ipm_solve(qp, sol, arg, ws);
    arg->iter_max = 0; arg->warm_start = wb;
    int bad = ws->status == NAN_SOL;
    if (!bad) { ws->status = MAX_ITER; ws->iter = 0; n = 0; EACH(REST) }
    kkt_factorize(qp, sol, ws, bad);
    free(bk);
}
void compat_dense_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    if (arg->iter_max > 0) { d_dense_qp_ipm_solve(qp, sol, arg, ws); return; }
    int nv = qp->dim->nv + 2 * qp->dim->ns, ne = qp->dim->ne, nt = 2 * (qp->dim->nb + qp->dim->ng + qp->dim->ns), wb = arg->warm_start, c = clip(arg, 0), n = 0;
    double *bk = malloc(sizeof(double) * (nv + ne + 2 * nt + 1));
#define DEACH(OP) OP(nv, sol->v); OP(ne, sol->pi); OP(nt, sol->lam); OP(nt, sol->t);
    if (c >= 0) { clipv(sol->lam, nt, clipt[c].l0); clipv(sol->t, nt, clipt[c].t0); }
    DEACH(SAVE)
    arg->iter_max = 1; if (wb > 2) arg->warm_start = 2;
    d_dense_qp_ipm_solve(qp, sol, arg, ws);
    arg->iter_max = 0; arg->warm_start = wb;
    int bad = ws->status == NAN_SOL;
    if (!bad) { ws->status = MAX_ITER; ws->iter = 0; n = 0; DEACH(REST) }
    free(bk);
}
#define GETTER(NAME, T) \
void NAME(char *f, struct T *a, void *v) \
{ \
    if (!strcmp(f, "iter_max")) *(int *) v = a->iter_max; \
    else if (!strcmp(f, "tol_stat")) *(double *) v = a->res_g_max; \
    else if (!strcmp(f, "tol_eq")) *(double *) v = a->res_b_max; \
    else if (!strcmp(f, "tol_ineq")) *(double *) v = a->res_d_max; \
    else if (!strcmp(f, "tol_comp")) *(double *) v = a->res_m_max; \
    else if (!strcmp(f, "tau_min")) *(double *) v = a->tau_min; \
    else if (!strcmp(f, "mu0")) *(double *) v = a->mu0; \
    else if (!strcmp(f, "warm_start")) *(int *) v = a->warm_start; \
    else if (!strcmp(f, "t_lam_min")) *(int *) v = a->t_lam_min; \
    else if (!strcmp(f, "t0_min") || !strcmp(f, "lam0_min")) { int c = clip(a, 0); *(double *) v = c < 0 ? 0. : f[0] == 't' ? clipt[c].t0 : clipt[c].l0; } \
    else { printf("%s: field %s not available in compat layer\n", #NAME, f); exit(1); } \
}
GETTER(d_ocp_qp_ipm_arg_get, d_ocp_qp_ipm_arg)
GETTER(d_dense_qp_ipm_arg_get, d_dense_qp_ipm_arg)

void compat_set_alias_unchanged(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg) { d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged(arg, *v); }
void compat_set_comp_dual_sol_eq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg) { d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq(arg, *v); }
void compat_set_comp_dual_sol_ineq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg) { d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq(arg, *v); }

void compat_part_cond_qp_expand_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    /* of the condensed QP the old API only reads the dimensions */
    struct d_ocp_qp p; memset(&p, 0, sizeof p); p.dim = psol->dim;
    d_part_cond_qp_expand_sol(qp, &p, psol, sol, arg, ws);
}

/* ---------------- sensitivities (old API: RHS taken from a QP) ---------------- */
static struct d_ocp_qp with_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *s)
{
    struct d_ocp_qp t = *qp;
    t.rqz = s->seed_g; t.b = s->seed_b; t.d = s->seed_d; t.m = s->seed_m;
    return t;
}
void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    if (kkt_sens(qp, seed, sens, ws)) return;
    struct d_ocp_qp t = with_seed(qp, seed);
    d_ocp_qp_ipm_sens(&t, sens, arg, ws);
}
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    d_ocp_qp_ipm_sens_frw(qp, seed, sens, arg, ws);
}
void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *s, struct d_dense_qp_sol *sens, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    struct d_dense_qp t = *qp;
    t.gz = s->seed_g; t.b = s->seed_b; t.d = s->seed_d; t.m = s->seed_m;
    d_dense_qp_ipm_sens(&t, sens, arg, ws);
}
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *s, struct d_dense_qp_sol *sens, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    d_dense_qp_ipm_sens_frw(qp, s, sens, arg, ws);
}
void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    /* rhs-only reduction on a scratch QP of the reduced dimensions */
    struct d_ocp_qp t = with_seed(qp, seed), r;
    void *mem = fresh(d_ocp_qp_memsize(red->dim) + 64);
    d_ocp_qp_create(red->dim, &r, mem);
    int al = arg->alias_unchanged; arg->alias_unchanged = 0;
    d_ocp_qp_reduce_eq_dof(&t, &r, arg, ws);
    arg->alias_unchanged = al;
    for (int i = 0; i <= red->dim->N; i++) {
        blasfeo_dveccp(red->dim->nu[i]+red->dim->nx[i]+2*red->dim->ns[i], r.rqz+i, 0, red->seed_g+i, 0);
        if (i < red->dim->N) blasfeo_dveccp(red->dim->nx[i+1], r.b+i, 0, red->seed_b+i, 0);
        blasfeo_dveccp(NM(red->dim,i), r.d+i, 0, red->seed_d+i, 0);
        blasfeo_dveccp(NM(red->dim,i), r.m+i, 0, red->seed_m+i, 0);
    }
    free(mem);
}
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *red, struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    struct d_ocp_qp t = with_seed(qp, seed);
    d_ocp_qp_restore_eq_dof(&t, red, sol, arg, ws);
}
void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    /* drop eliminated variables / constraints from a full solution (warm start only) */
    struct d_ocp_qp_dim *dim = qp->dim, *rd = red->dim;
    int N = dim->N;
    for (int i = 0; i <= N; i++) {
        int nu = dim->nu[i], nx = dim->nx[i], nb = dim->nb[i], ng = dim->ng[i], ns = dim->ns[i];
        int ne = dim->nbue[i] + dim->nbxe[i] + dim->nge[i];
        char *ev = calloc(nu + nx + 1, 1), *ec = calloc(nb + ng + 1, 1);
        if (rd->nu[i] + rd->nx[i] != nu + nx)
            for (int k = 0; k < ne; k++) { int j = qp->idxe[i][k]; if (j < nb) { ec[j] = 1; ev[qp->idxb[i][j]] = 1; } }
        int a = 0;
        for (int k = 0; k < nu + nx + 2*ns; k++)
            if (k >= nu + nx || !ev[k]) BLASFEO_DVECEL(red->ux + i, a++) = BLASFEO_DVECEL(sol->ux + i, k);
        if (i < N) blasfeo_dveccp(dim->nx[i+1], sol->pi + i, 0, red->pi + i, 0);
        int nc = 0;
        for (int h = 0; h < 2; h++)
            for (int k = 0; k < nb + ng; k++)
                if (!ec[k]) {
                    BLASFEO_DVECEL(red->lam + i, nc) = BLASFEO_DVECEL(sol->lam + i, h*(nb+ng) + k);
                    BLASFEO_DVECEL(red->t + i, nc++) = BLASFEO_DVECEL(sol->t + i, h*(nb+ng) + k);
                }
        for (int k = 0; k < 2*ns; k++) {
            BLASFEO_DVECEL(red->lam + i, nc) = BLASFEO_DVECEL(sol->lam + i, 2*(nb+ng) + k);
            BLASFEO_DVECEL(red->t + i, nc++) = BLASFEO_DVECEL(sol->t + i, 2*(nb+ng) + k);
        }
        free(ev); free(ec);
    }
}
/* The rhs-only condensing of this HPIPM binary shifts the upper side of condensed general constraints in the
   wrong direction; take that side from the (correct) full condensing of the same QP. */
void compat_cond_rhs(struct d_ocp_qp *qp, struct d_dense_qp *dq, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_dense_qp p; struct d_dense_qp_dim *dd = dq->dim;
    d_cond_qp_cond_rhs(qp, dq, arg, ws);
    if (!dd->ng) return;
    void *mem = fresh(d_dense_qp_memsize(dd) + 64);
    d_dense_qp_create(dd, &p, mem);
    d_cond_qp_cond(qp, &p, arg, ws);
    blasfeo_dveccp(dd->ng, p.d, 2*dd->nb + dd->ng, dq->d, 2*dd->nb + dd->ng);
    free(mem);
}
void compat_part_cond_rhs(struct d_ocp_qp *qp, struct d_ocp_qp *pq, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp p; struct d_ocp_qp_dim *dd = pq->dim;
    d_part_cond_qp_cond_rhs(qp, pq, arg, ws);
    if (dd->N == qp->dim->N) return;
    void *mem = fresh(d_ocp_qp_memsize(dd) + 64);
    d_ocp_qp_create(dd, &p, mem);
    d_part_cond_qp_cond(qp, &p, arg, ws);
    for (int k = 0; k <= dd->N; k++)
        blasfeo_dveccp(dd->ng[k], p.d + k, 2*dd->nb[k] + dd->ng[k], pq->d + k, 2*dd->nb[k] + dd->ng[k]);
    free(mem);
}
void d_part_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp *pqp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *psol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp_dim *dim = sol->dim, *pd = psol->dim;
    if (dim->N != pd->N) return; /* true condensing: keep the cold/previous initial guess */
    for (int i = 0; i <= dim->N; i++) {
        blasfeo_dveccp(dim->nu[i]+dim->nx[i]+2*dim->ns[i], sol->ux+i, 0, psol->ux+i, 0);
        if (i < dim->N) blasfeo_dveccp(dim->nx[i+1], sol->pi+i, 0, psol->pi+i, 0);
        blasfeo_dveccp(NM(dim,i), sol->lam+i, 0, psol->lam+i, 0);
        blasfeo_dveccp(NM(dim,i), sol->t+i, 0, psol->t+i, 0);
    }
}
void d_part_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *ps, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp t = with_seed(qp, seed), p;
    struct d_ocp_qp_dim *pd = ps->dim;
    void *mem = fresh(d_ocp_qp_memsize(pd) + 64);
    d_ocp_qp_create(pd, &p, mem);
    compat_part_cond_rhs(&t, &p, arg, ws);
    for (int i = 0; i <= pd->N; i++) {
        blasfeo_dveccp(pd->nu[i]+pd->nx[i]+2*pd->ns[i], p.rqz+i, 0, ps->seed_g+i, 0);
        if (i < pd->N) blasfeo_dveccp(pd->nx[i+1], p.b+i, 0, ps->seed_b+i, 0);
        blasfeo_dveccp(NM(pd,i), p.d+i, 0, ps->seed_d+i, 0);
        blasfeo_dveccp(NM(pd,i), p.m+i, 0, ps->seed_m+i, 0);
    }
    free(mem);
}
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp t = with_seed(qp, seed);
    compat_part_cond_qp_expand_sol(&t, psol, sol, arg, ws);
}
void d_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_dense_qp_sol *dsol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    /* warm-start guess only; keep previous dense guess */
}
void d_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_seed *ds, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_ocp_qp t = with_seed(qp, seed);
    struct d_dense_qp p; struct d_dense_qp_dim *dd = ds->dim;
    void *mem = fresh(d_dense_qp_memsize(dd) + 64);
    d_dense_qp_create(dd, &p, mem);
    compat_cond_rhs(&t, &p, arg, ws);
    blasfeo_dveccp(dd->nv + 2*dd->ns, p.gz, 0, ds->seed_g, 0);
    blasfeo_dveccp(dd->ne, p.b, 0, ds->seed_b, 0);
    blasfeo_dveccp(DM(dd), p.d, 0, ds->seed_d, 0);
    blasfeo_dveccp(DM(dd), p.m, 0, ds->seed_m, 0);
    free(mem);
}
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_sol *dsol, struct d_ocp_qp_sol *sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_ocp_qp t = with_seed(qp, seed);
    d_cond_qp_expand_sol(&t, dsol, sol, arg, ws);
}
