/* Compatibility layer: acados at this commit expects a newer HPIPM than the one
 * shipped in the CasADi wheel.  The numerics are the wheel's real libhpipm; only
 * renamed / re-ordered / newly added entry points are adapted here.            */
#ifndef HPIPM_COMPAT_H_
#define HPIPM_COMPAT_H_
#include "blasfeo_common.h"
#include "hpipm_common.h"
#include "hpipm_d_ocp_qp.h"
#include "hpipm_d_ocp_qp_sol.h"
#include "hpipm_d_ocp_qp_ipm.h"
#include "hpipm_d_ocp_qp_red.h"
#include "hpipm_d_dense_qp.h"
#include "hpipm_d_dense_qp_sol.h"
#include "hpipm_d_dense_qp_ipm.h"
#include "hpipm_d_cond.h"
#include "hpipm_d_part_cond.h"
#ifdef __cplusplus
extern "C" {
#endif
struct d_ocp_qp_seed {
    struct d_ocp_qp_dim *dim;
    struct blasfeo_dvec *seed_g, *seed_b, *seed_d, *seed_m;
    hpipm_size_t memsize;
};
struct d_dense_qp_seed {
    struct d_dense_qp_dim *dim;
    struct blasfeo_dvec *seed_g, *seed_b, *seed_d, *seed_m;
    hpipm_size_t memsize;
};
hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *dim);
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *s, void *mem);
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *s);
void d_ocp_qp_seed_print(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *s);
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *dim);
void d_dense_qp_seed_create(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *s, void *mem);
void d_dense_qp_seed_print(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *s);

void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *v);
void d_ocp_qp_set_m_all(double *m, struct d_ocp_qp *qp);
void d_dense_qp_set_m_all(double *m, struct d_dense_qp *qp);
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec);
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *tau);
void d_ocp_qp_ipm_arg_get(char *field, struct d_ocp_qp_ipm_arg *arg, void *value);
void d_dense_qp_ipm_arg_get(char *field, struct d_dense_qp_ipm_arg *arg, void *value);
void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *red, struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_part_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp *pqp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *psol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *pseed, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_dense_qp_sol *dsol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_seed *dseed, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_sol *dsol, struct d_ocp_qp_sol *sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);

void compat_part_cond_qp_expand_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void compat_ocp_qp_ipm_arg_set(char *field, void *value, struct d_ocp_qp_ipm_arg *arg);
void compat_dense_qp_ipm_arg_set(char *field, void *value, struct d_dense_qp_ipm_arg *arg);
void compat_ocp_solve(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void compat_dense_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void simqp_ocp_solve(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void simqp_dense_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void compat_set_alias_unchanged(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void compat_set_comp_dual_sol_eq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void compat_set_comp_dual_sol_ineq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void compat_cond_rhs(struct d_ocp_qp *qp, struct d_dense_qp *dq, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void compat_part_cond_rhs(struct d_ocp_qp *qp, struct d_ocp_qp *pq, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
#ifndef HPIPM_COMPAT_IMPL
#define d_cond_qp_cond_rhs compat_cond_rhs
#define d_part_cond_qp_cond_rhs compat_part_cond_rhs
#define d_part_cond_qp_expand_sol compat_part_cond_qp_expand_sol
#define d_ocp_qp_ipm_arg_set compat_ocp_qp_ipm_arg_set
#define d_dense_qp_ipm_arg_set compat_dense_qp_ipm_arg_set
#define d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged compat_set_alias_unchanged
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq compat_set_comp_dual_sol_eq
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq compat_set_comp_dual_sol_ineq
/* fault-injection seam: the QP solver call */
#define d_ocp_qp_ipm_solve simqp_ocp_solve
#define d_dense_qp_ipm_solve simqp_dense_solve
#endif
#ifdef __cplusplus
}
#endif
#endif
