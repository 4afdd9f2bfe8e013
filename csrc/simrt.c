/* simrt: deterministic simulation runtime.
 *
 * Linked (via ld --wrap) in front of every source of nondeterminism the acados
 * C library and the generated solvers can reach: clock, heap, OpenMP runtime,
 * memory accesses (for preemption + race detection, via -fsanitize=thread
 * callbacks), model functions, QP solver calls and stdio.
 * One seed + one plan => one exactly repeatable execution.                  */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <errno.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;
#define API __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

/* ------------------------------------------------------------------ PRNG */
typedef struct { u64 s; } rng_t;
static u64 rnd(rng_t *r) { u64 z = (r->s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 rndn(rng_t *r, u64 n) { return n ? rnd(r) % n : 0; }

/* ------------------------------------------------------------------ log */
static u64 ev_hash, ev_count;
static int trace_on; static char *trace_buf; static size_t trace_len, trace_cap;
static void ev(u32 kind, u64 a, u64 b)
{
    u64 x[3] = {kind, a, b};
    for (int i = 0; i < 3; i++) { ev_hash ^= x[i]; ev_hash *= 0x100000001b3ull; ev_hash ^= ev_hash >> 29; }
    ev_count++;
}
static void tracef(const char *fmt, ...)
{
    if (!trace_on) return;
    va_list ap; char b[256]; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n >= (int) sizeof b) n = sizeof b - 1;
    if (trace_len + n + 1 > trace_cap) { if (trace_cap > (8u << 20)) return; trace_cap = trace_cap ? trace_cap * 2 : 1 << 16; trace_buf = realloc(trace_buf, trace_cap); }
    memcpy(trace_buf + trace_len, b, n); trace_len += n; trace_buf[trace_len] = 0;
}
API void sim_trace(int on) { trace_on = on; trace_len = 0; if (trace_buf) trace_buf[0] = 0; }
API const char *sim_trace_get(void) { return trace_buf ? trace_buf : ""; }
API u64 sim_hash(void) { return ev_hash; }
API u64 sim_events(void) { return ev_count; }

/* ------------------------------------------------------------------ counters */
enum { C_CLOCK_READ, C_CLOCK_JUMP_FWD, C_CLOCK_JUMP_BACK, C_FN_CALL, C_FN_NAN, C_FN_INF, C_FN_DELAY, C_QP_CALL, C_QP_MAXITER, C_QP_NAN, C_QP_MINSTEP,
       C_QP_INFEAS, C_QP_DELAY, C_MALLOC, C_FREE, C_ALLOC_FAIL, C_HEAP_SMASH, C_BADFREE, C_PAR_REGIONS, C_SWITCH, C_ACCESS, C_RACE, C_DEADLOCK,
       C_FOPEN, C_FOPEN_FAIL, C_FWRITE_FAIL, C_FREAD_FAIL, C_SOLVE_ALLOC, C_MAXTEAM, C_STALL, C_FN_STATUS, C_QP_UNKNOWN, C_N };
static u64 cnt[64];
API u64 sim_counter(int i) { return cnt[i]; }
API void sim_counters(u64 *out) { memcpy(out, cnt, sizeof cnt); }

static int sim_on;
static rng_t R_clock, R_sched, R_heap;

/* ------------------------------------------------------------------ clock */
static i64 mono_ns, wall_off_ns, mono_step_off;
static i64 tick_max_ns = 1000;
static u64 clock_reads;
#define MAXJ 32
static struct { u64 at; i64 delta; } jumps[MAXJ]; static int njumps;
static i64 clk_total_adv, fn_time, qp_time;
API void sim_clock_cfg(i64 start_ns, i64 wall0_ns, i64 tick_max) { mono_ns = start_ns; wall_off_ns = wall0_ns; tick_max_ns = tick_max; njumps = 0; clock_reads = 0; clk_total_adv = 0; }
/* step the wall clock by delta at the at-th clock read (counted from sim_clock_cfg) */
API void sim_clock_jump(u64 at, i64 delta) { if (njumps < MAXJ) { jumps[njumps].at = at; jumps[njumps].delta = delta; njumps++; } }
API i64 sim_mono(void) { return mono_ns; }
API i64 sim_wall(void) { return mono_ns + wall_off_ns; }
API void sim_advance(i64 ns) { mono_ns += ns; clk_total_adv += ns; }
API u64 sim_clock_reads(void) { return clock_reads; }
/* simulated time spent in model functions and in the QP solver */
API i64 sim_fn_time(void) { return fn_time; }
API i64 sim_qp_time(void) { return qp_time; }
API i64 sim_total_advance(void) { return clk_total_adv; }
/* ghost timeline: (read index -> mono) of the last reads, for oracles */
static void clock_step(void)
{
    cnt[C_CLOCK_READ]++;
    for (int i = 0; i < njumps; i++)
        if (jumps[i].at == clock_reads) {
            wall_off_ns += jumps[i].delta;
            cnt[jumps[i].delta > 0 ? C_CLOCK_JUMP_FWD : C_CLOCK_JUMP_BACK]++;
            tracef("clock-step at read %lu by %ld ns\n", (unsigned long) clock_reads, (long) jumps[i].delta);
            ev(2, jumps[i].at, jumps[i].delta);
        }
    clock_reads++;
    i64 t = tick_max_ns > 0 ? (i64) rndn(&R_clock, tick_max_ns + 1) : 0;
    mono_ns += t; clk_total_adv += t;
}
static void yield_point(void);
API int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!sim_on) return gettimeofday(tv, tz);
    yield_point();
    clock_step();
    i64 w = mono_ns + wall_off_ns;
    tv->tv_sec = w / 1000000000; tv->tv_usec = (w % 1000000000) / 1000;
    return 0;
}
API int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!sim_on) return clock_gettime(id, ts);
    yield_point();
    clock_step();
    i64 w = mono_ns + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? wall_off_ns : 0);
    ts->tv_sec = w / 1000000000; ts->tv_nsec = w % 1000000000;
    return 0;
}
API time_t __wrap_time(time_t *t) { if (!sim_on) return time(t); clock_step(); time_t w = (mono_ns + wall_off_ns) / 1000000000; if (t) *t = w; return w; }

/* ------------------------------------------------------------------ heap */
#define RZ 64
typedef struct { u64 p, base; u64 size; u32 gen, in_solve; u64 ra; } ablk;
static ablk *atab; static u64 atab_cap, atab_n, live_bytes; static u32 alloc_gen;
static int heap_scramble, alloc_track = 1;
static i64 alloc_fail_at = -1; static u64 alloc_seq;
static int in_solve; /* set by harness around real-time calls */
static u64 par_clear_range;
static void shadow_clear(u64 a, u64 n);
API void sim_mark_solve(int on) { in_solve = on; }
API void sim_alloc_cfg(int scramble, i64 fail_at) { heap_scramble = scramble; alloc_fail_at = fail_at; alloc_seq = 0; }
API u64 sim_alloc_seq(void) { return alloc_seq; }
API u64 sim_live_blocks(u32 gen) { u64 n = 0; for (u64 i = 0; i < atab_cap; i++) if (atab[i].p > 1 && atab[i].gen >= gen) n++; return n; }
API u64 sim_live_bytes(void) { return live_bytes; }
API u32 sim_alloc_newgen(void) { return ++alloc_gen; }
static ablk *afind(u64 p)
{
    if (!atab_cap) return 0;
    for (u64 h = (p >> 4) * 0x9E3779B97F4A7C15ull % atab_cap;; h = (h + 1) % atab_cap) {
        if (atab[h].p == p) return &atab[h];
        if (!atab[h].p) return 0;
    }
}
static void aput(ablk b)
{
    if ((atab_n + 1) * 2 > atab_cap) {
        ablk *o = atab; u64 oc = atab_cap; atab_cap = oc ? oc * 2 : 4096; atab = calloc(atab_cap, sizeof(ablk)); atab_n = 0;
        for (u64 i = 0; i < oc; i++) if (o[i].p > 1) aput(o[i]);
        free(o);
    }
    u64 h = (b.p >> 4) * 0x9E3779B97F4A7C15ull % atab_cap;
    while (atab[h].p > 1) h = (h + 1) % atab_cap;
    if (!atab[h].p) atab_n++;
    atab[h] = b;
}
static u8 canary(u64 p, int i) { return (u8) (0xA5 ^ (p >> 4) ^ i * 37); }
static int blk_ok(ablk *b)
{
    u8 *e = (u8 *) b->p + b->size, *s = (u8 *) b->base;
    for (int i = 0; i < RZ; i++) if (e[i] != canary(b->p, i)) return 0;
    (void) s; for (int i = 1; i <= 16; i++) if (((u8 *) b->p)[-i] != canary(b->p, i + 64)) return 0;
    return 1;
}
/* freed blocks stay unused for a while: writes to them are found */
#define QN 256
static ablk quar[QN]; static u32 quar_i;
static int quar_ok(ablk *b)
{
    const u8 *q = (const u8 *) b->p;
    for (u64 i = 0; i < b->size; i++) if (q[i] != 0xDD) return 0;
    return 1;
}
static void quar_drop(ablk *b)
{
    if (!b->base) return;
    if (!quar_ok(b)) { cnt[C_HEAP_SMASH]++; tracef("freed heap block of %lu bytes was written\n", (unsigned long) b->size); }
    free((void *) b->base);
    b->base = 0;
}
static void quarantine(ablk *b)
{
    ablk *q = &quar[quar_i++ % QN];
    quar_drop(q);
    *q = *b;
}
API u64 sim_heap_check(void)
{
    u64 bad = 0;
    for (u64 i = 0; i < atab_cap; i++) if (atab[i].p > 1 && !blk_ok(&atab[i])) { bad++; tracef("heap block of %lu bytes overrun\n", (unsigned long) atab[i].size); }
    for (int i = 0; i < QN; i++) if (quar[i].base && !quar_ok(&quar[i])) { bad++; tracef("freed heap block of %lu bytes was written\n", (unsigned long) quar[i].size); }
    cnt[C_HEAP_SMASH] += bad;
    return bad;
}
static void *sim_alloc(u64 n, int zero, void *ra)
{
    if (in_solve) { cnt[C_SOLVE_ALLOC]++; tracef("allocation of %lu bytes inside real-time call\n", (unsigned long) n); }
    if ((i64) alloc_seq++ == alloc_fail_at) { cnt[C_ALLOC_FAIL]++; tracef("alloc %lu failed\n", (unsigned long) n); errno = ENOMEM; return 0; }
    u64 sh = heap_scramble ? 16 * rndn(&R_heap, 4) : 0;
    u8 *b = malloc(n + 2 * RZ + 128);
    if (!b) return 0;
    u64 p = ((u64) b + RZ + 63) / 64 * 64 + sh;
    if (zero) memset((void *) p, 0, n);
    else if (heap_scramble) { u64 x = rnd(&R_heap); u8 *q = (u8 *) p; for (u64 i = 0; i + 8 <= n; i += 8) { memcpy(q + i, &x, 8); x = x * 6364136223846793005ull + 1442695040888963407ull; } }
    for (int i = 0; i < RZ; i++) ((u8 *) p)[n + i] = canary(p, i);
    for (int i = 1; i <= 16; i++) ((u8 *) p)[-i] = canary(p, i + 64);
    ablk k = {p, (u64) b, n, alloc_gen, in_solve, (u64) ra};
    aput(k); live_bytes += n; cnt[C_MALLOC]++;
    shadow_clear(p, n);
    return (void *) p;
}
/* overwrite the dead part of the stack, so that reads of uninitialised locals show */
API __attribute__((noinline)) void sim_scribble(u64 seed, int n)
{
    volatile u64 b[4096];
    u64 x = seed | 1;
    for (int i = 0; i < 4096; i++) { b[i] = x; x = x * 6364136223846793005ull + 1442695040888963407ull; }
    if (n > 1) sim_scribble(x, n - 1);
    __asm__ volatile("" :: "r"(b) : "memory");
}
API void sim_forget(void *p, unsigned long n) { if (sim_on && p) shadow_clear((u64) p, n); }
API void *__wrap_malloc(size_t n) { return alloc_track ? sim_alloc(n, 0, __builtin_return_address(0)) : malloc(n); }
API void *__wrap_calloc(size_t a, size_t b) { return alloc_track ? sim_alloc(a * b, 1, __builtin_return_address(0)) : calloc(a, b); }
API void __wrap_free(void *q)
{
    if (!q) return;
    ablk *b = afind((u64) q);
    if (!b) { cnt[C_BADFREE]++; tracef("free of unknown pointer\n"); return; }
    if (!blk_ok(b)) { cnt[C_HEAP_SMASH]++; tracef("heap block of %lu bytes overrun (found at free)\n", (unsigned long) b->size); }
    live_bytes -= b->size; cnt[C_FREE]++;
    shadow_clear(b->p, b->size);
    if (heap_scramble) { memset((void *) b->p, 0xDD, b->size); quarantine(b); }
    else free((void *) b->base);
    b->p = 1;
}
API void *__wrap_realloc(void *q, size_t n)
{
    if (!q) return __wrap_malloc(n);
    ablk *b = afind((u64) q);
    if (!b) { cnt[C_BADFREE]++; return 0; }
    u64 os = b->size;
    void *r = sim_alloc(n, 0, __builtin_return_address(0));
    if (r) { memcpy(r, q, os < n ? os : n); __wrap_free(q); }
    return r;
}

/* ------------------------------------------------------------------ coroutines + OpenMP */
#define MAXT 64
#define STK (1 << 20)
typedef struct team team;
typedef struct co {
    void *sp; char *stk; int state; /* 0 run, 1 barrier, 2 lock, 3 done */
    int tid; team *tm; void (*fn)(void *); void *arg;
    int icv_nthreads; u64 acc; int prio; void *lock; int nested; team *cur;
    int single_cnt;
} co;
struct team { int n; co *c; int phase; int nested; /* worksharing */
    long ws_next, ws_end, ws_incr, ws_chunk; int ws_init, ws_seen; int ws_kind; int single_done; int icv_par; co *owner; int tnum; };
static int g_icv_nthreads = 4, g_procs = 8, g_max_threads_cap = 0;
static team *T_active; static co *cur; static void *main_sp;
static int par_on; /* a parallel region with >1 coroutines is being scheduled */
static char *stk_pool[MAXT];

/* schedule policy */
enum { S_SERIAL, S_REVERSE, S_RANDOM, S_PCT, S_SEAM, S_QUANTUM, S_LIST };
static int s_mode; static u32 s_param; static u64 s_next, s_acc; static int s_pct_left;
static u64 il_hash, region_no; static u32 s_quantum;
static u64 *sl_at; static int *sl_to; static int sl_n, sl_pos;            /* explicit preemption list */
static u64 *rec_at; static int *rec_to; static int rec_n, rec_cap;         /* recorded preemptions */
static int race_detect = 1; static u64 switch_budget = ~0ull;
static u64 jitter_seen;
API void sim_sched_cfg(int mode, u32 param, u64 seed, int race) { s_mode = mode; s_param = param ? param : 1; R_sched.s = seed; race_detect = race; il_hash = 1469598103934665603ull; s_acc = 0; s_next = 0; s_pct_left = 0; rec_n = 0; sl_pos = 0; region_no = 0; }
API void sim_sched_list(int n, const u64 *at, const int *to) { sl_at = realloc(sl_at, n * 8 + 8); sl_to = realloc(sl_to, n * 4 + 4); memcpy(sl_at, at, n * 8); memcpy(sl_to, to, n * 4); sl_n = n; sl_pos = 0; s_mode = S_LIST; }
API int sim_sched_rec(u64 *at, int *to, int cap) { int n = rec_n < cap ? rec_n : cap; if (at) { memcpy(at, rec_at, n * 8); memcpy(to, rec_to, n * 4); } return rec_n; }
API u64 sim_il_hash(void) { return il_hash; }
API void sim_omp_cfg(int nthreads_icv, int procs) { g_icv_nthreads = nthreads_icv; g_procs = procs; }
API int sim_omp_icv(void) { return g_icv_nthreads; }

__attribute__((naked, noinline)) static void co_switch(void **save, void *load)
{
    __asm__ volatile(
        "pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
        "subq $8, %rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
        "movq %rsp, (%rdi)\n movq %rsi, %rsp\n"
        "ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8, %rsp\n"
        "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}
static void co_entry(void)
{
    co *c = cur;
    c->fn(c->arg);
    c->state = 3;
    co_switch(&c->sp, main_sp);
    abort();
}
static void co_make(co *c, int k)
{
    if (!stk_pool[k]) stk_pool[k] = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    c->stk = stk_pool[k];
    u64 *sp = (u64 *) (c->stk + STK - 64);
    *--sp = 0; *--sp = (u64) co_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    *--sp = 0; u32 mx; u16 cw; __asm__ volatile("stmxcsr %0" : "=m"(mx)); __asm__ volatile("fnstcw %0" : "=m"(cw));
    ((u32 *) sp)[0] = mx; ((u16 *) sp)[2] = cw;
    c->sp = sp;
}

/* --- shadow memory: data-race detection inside a parallel region ------- */
typedef struct { u64 key; u32 ep; u32 pad; u8 w[8]; u16 r[8]; u64 pc; } shd;
#define SHN (1u << 20)
static shd *sh; static u32 sh_ep = 1; static u64 sh_used;
static struct { u64 addr, pc1, pc2; int t1, t2, wr; } race0; 
static char race_txt[900];
API const char *sim_race_text(void) { return race_txt; }
static void pcname(u64 pc, char *o, int n) { Dl_info d; if (pc && dladdr((void *) pc, &d) && d.dli_fname) { const char *b = strrchr(d.dli_fname, '/'); snprintf(o, n, "<%s+0x%lx>", d.dli_fname, (unsigned long) (pc - (u64) d.dli_fbase)); (void) b; } else snprintf(o, n, "?"); }
static shd *shget(u64 key, int create)
{
    u32 h = (u32) (key * 0x9E3779B97F4A7C15ull >> 40) & (SHN - 1);
    for (u32 k = 0; k < 4096; k++, h = (h + 1) & (SHN - 1)) {
        shd *s = &sh[h];
        if (s->ep != sh_ep) { if (!create) return 0; s->ep = sh_ep; s->key = key; memset(s->w, 0, 8); memset(s->r, 0, 16); s->pc = 0; sh_used++; return s; }
        if (s->key == key) return s;
    }
    return 0;
}
static void shadow_clear(u64 a, u64 n)
{
    if (!par_on || !sh) return;
    if (n > (1 << 22)) n = 1 << 22;
    for (u64 k = a >> 3; k <= (a + n - 1) >> 3 && n; k++) { shd *s = shget(k, 0); if (s) { memset(s->w, 0, 8); memset(s->r, 0, 16); } }
}
static void race_check(u64 a, u32 n, int wr, u64 pc)
{
    int t = cur->tid; 
    if (a >= (u64) cur->stk && a < (u64) cur->stk + STK) return;
    if (!sh) { sh = mmap(0, sizeof(shd) * (u64) SHN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    if (sh_used > SHN * 3 / 4) return;
    while (n) {
        u64 k = a >> 3; u32 o = a & 7, m = 8 - o < n ? 8 - o : n;
        shd *s = shget(k, 1);
        if (!s) return;
        for (u32 i = o; i < o + m; i++) {
            u8 w = s->w[i]; u16 r = s->r[i];
            int bad = (w && w != t + 1) || (wr && (r & ~(1u << t)));
            if (bad) {
                cnt[C_RACE]++;
                if (!race_txt[0]) {
                    char p1[300], p2[300]; pcname(s->pc, p1, 300); pcname(pc, p2, 300);
                    snprintf(race_txt, sizeof race_txt, "%s by thread %d in %s conflicts with %s by thread %d in %s", wr ? "write" : "read", t, p2,
                             w && w != t + 1 ? "write" : "read", w && w != t + 1 ? w - 1 : __builtin_ctz(r & ~(1u << t)), p1);
                    tracef("RACE %s\n", race_txt);
                    ev(9, t, wr);
                }
            }
            if (wr) { s->w[i] = t + 1; } else s->r[i] |= 1u << t;
        }
        s->pc = pc;
        a += m; n -= m;
    }
}

static void to_sched(void) { co *c = cur; co_switch(&c->sp, main_sp); }
static void rec_switch(void) {
    if (rec_n == rec_cap) { if (rec_cap >= (1 << 16)) return; rec_cap = rec_cap ? rec_cap * 2 : 256; rec_at = realloc(rec_at, rec_cap * 8); rec_to = realloc(rec_to, rec_cap * 4); }
    rec_at[rec_n] = s_acc; rec_to[rec_n] = -1; rec_n++;
}
static void draw_next(void)
{
    switch (s_mode) {
    case S_RANDOM: s_next = s_acc + 1 + rndn(&R_sched, 2 * (u64) s_param); break;
    case S_QUANTUM: s_next = s_acc + s_param; break;
    case S_PCT: s_next = s_acc + 1 + rndn(&R_sched, 4 * (u64) s_param); break;
    case S_LIST: s_next = sl_pos < sl_n ? sl_at[sl_pos] : ~0ull; break;
    default: s_next = ~0ull;
    }
}
static int forced_to = -1;
static void preempt(void)
{
    if (s_mode == S_LIST) { forced_to = sl_to[sl_pos++]; }
    else if (s_mode == S_PCT) { cur->prio = -(int) (++s_pct_left); }
    rec_switch();
    cnt[C_SWITCH]++;
    to_sched();
}
static inline void access_hook(u64 a, u32 n, int wr, u64 pc)
{
    s_acc++; cur->acc++;
    if (race_detect) race_check(a, n, wr, pc);
    if (unlikely(s_acc >= s_next)) preempt();
}
static void yield_point(void)
{
    if (!par_on || !cur) return;
    s_acc++;
    if (s_mode == S_SEAM) { if (rndn(&R_sched, s_param) == 0) { rec_switch(); cnt[C_SWITCH]++; to_sched(); } }
    else if (s_acc >= s_next) preempt();
}
static int pick(team *tm, int last)
{
    int run[MAXT], n = 0;
    for (int i = 0; i < tm->n; i++) if (tm->c[i].state == 0) run[n++] = i;
    if (!n) return -1;
    if (forced_to >= 0) { int f = forced_to; forced_to = -1; for (int i = 0; i < n; i++) if (run[i] == f) return f; }
    switch (s_mode) {
    case S_REVERSE: return run[n - 1];
    case S_RANDOM: case S_SEAM: return run[rndn(&R_sched, n)];
    case S_QUANTUM: for (int i = 0; i < n; i++) if (run[i] > last) return run[i]; return run[0];
    case S_PCT: { int b = run[0]; for (int i = 1; i < n; i++) if (tm->c[run[i]].prio > tm->c[b].prio) b = run[i]; return b; }
    case S_LIST: if (last >= 0 && tm->c[last].state == 0) return last; return run[0];
    default: return run[0];
    }
}
static void run_team(team *tm)
{
    /* the caller (a plain stack) acts as the scheduler */
    par_on = 1; T_active = tm; sh_ep++; sh_used = 0; if (sh_ep == 0) sh_ep = 1;
    region_no++; cnt[C_PAR_REGIONS]++; if ((u64) tm->n > cnt[C_MAXTEAM]) cnt[C_MAXTEAM] = tm->n;
    for (int i = 0; i < tm->n; i++) { tm->c[i].prio = 1 + (int) rndn(&R_sched, 1000); }
    draw_next();
    int last = -1;
    for (;;) {
        int alive = 0, barr = 0;
        for (int i = 0; i < tm->n; i++) { if (tm->c[i].state != 3) alive++; if (tm->c[i].state == 1) barr++; }
        if (!alive) break;
        if (barr == alive) { for (int i = 0; i < tm->n; i++) if (tm->c[i].state == 1) tm->c[i].state = 0; tm->phase++; sh_ep++; sh_used = 0; tm->ws_init = 0; tm->ws_seen = 0; }
        int k = pick(tm, last);
        if (k < 0) { cnt[C_DEADLOCK]++; tracef("deadlock in parallel region\n"); break; }
        if (k != last) {
            il_hash = (il_hash ^ (u64) k) * 0x100000001b3ull; il_hash = (il_hash ^ s_acc) * 0x100000001b3ull;
            if (rec_n && rec_to[rec_n - 1] == -1) rec_to[rec_n - 1] = k;
            ev(1, k, s_acc);
            if (last >= 0) tracef("switch to thread %d at access %lu\n", k, (unsigned long) s_acc);
        } else if (rec_n && rec_to[rec_n - 1] == -1) rec_n--;
        last = k; cur = &tm->c[k];
        if (s_acc >= s_next) draw_next();
        co_switch(&main_sp, cur->sp);
        cur = 0;
    }
    par_on = 0; T_active = 0; cur = 0;
}
static int icv_get(void) { return cur ? cur->icv_nthreads : g_icv_nthreads; }
static void parallel(void (*fn)(void *), void *data, unsigned num, team *wsinit)
{
    int n = num ? (int) num : icv_get();
    if (!sim_on) n = 1;
    if (n > MAXT / 2) n = MAXT / 2;
    if (n > 8 && n > g_procs * 2) n = g_procs * 2;
    if (cur) { /* nested: max-active-levels = 1 -> team of one */
        team t = {0}; team *o = cur->cur; int oi = cur->icv_nthreads;
        if (wsinit) t = *wsinit;
        t.n = 1; cur->nested++; cur->cur = &t;
        fn(data);
        cur->nested--; cur->cur = o; cur->icv_nthreads = oi; (void) oi;
        return;
    }
    team tm = {0}; co c[MAXT]; memset(c, 0, sizeof(co) * n);
    if (wsinit) tm = *wsinit;
    tm.n = n; tm.c = c;
    for (int i = 0; i < n; i++) { c[i].tid = i; c[i].fn = fn; c[i].arg = data; c[i].icv_nthreads = g_icv_nthreads; c[i].cur = &tm; c[i].tm = &tm; co_make(&c[i], i); }
    run_team(&tm);
    g_icv_nthreads = c[0].icv_nthreads; /* master's ICV survives the region */
}
API void __wrap_GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags) { parallel(fn, data, num, 0); }
API void __wrap_GOMP_barrier(void) { if (cur && !cur->nested) { cur->state = 1; rec_switch(); if (rec_n) rec_n--; to_sched(); } }
static int crit_owner = -1;
static void lock_acq(void) { if (!cur || cur->nested) return; while (crit_owner >= 0 && crit_owner != cur->tid) { to_sched(); } crit_owner = cur->tid; }
static void lock_rel(void) { if (!cur || cur->nested) return; crit_owner = -1; }
API void __wrap_GOMP_critical_start(void) { lock_acq(); }
API void __wrap_GOMP_critical_end(void) { lock_rel(); }
API void __wrap_GOMP_critical_name_start(void **p) { lock_acq(); }
API void __wrap_GOMP_critical_name_end(void **p) { lock_rel(); }
API void __wrap_GOMP_atomic_start(void) { lock_acq(); }
API void __wrap_GOMP_atomic_end(void) { lock_rel(); }
API int __wrap_GOMP_single_start(void) { if (!cur || cur->nested) return 1; team *t = cur->cur; return ++cur->single_cnt > t->single_done ? (t->single_done = cur->single_cnt, 1) : 0; }
/* dynamic/guided worksharing */
static int ws_start(long s, long e, long inc, long ch, long *is, long *ie, int kind)
{
    team *t = cur ? cur->cur : 0; static team t0;
    if (!t) { t = &t0; t->ws_init = 0; t->n = 1; }
    if (!t->ws_init) { t->ws_init = 1; t->ws_next = s; t->ws_end = e; t->ws_incr = inc; t->ws_chunk = ch ? ch : 1; t->ws_kind = kind; }
    yield_point();
    extern int __wrap_GOMP_loop_dynamic_next(long *, long *);
    return __wrap_GOMP_loop_dynamic_next(is, ie);
}
API int __wrap_GOMP_loop_dynamic_next(long *is, long *ie)
{
    team *t = cur ? cur->cur : 0; static team t0; if (!t) t = &t0;
    yield_point();
    if (t->ws_incr > 0 ? t->ws_next >= t->ws_end : t->ws_next <= t->ws_end) return 0;
    *is = t->ws_next; long q = t->ws_next + t->ws_chunk * t->ws_incr;
    if (t->ws_incr > 0 ? q > t->ws_end : q < t->ws_end) q = t->ws_end;
    *ie = q; t->ws_next = q;
    return 1;
}
#define LOOPS(K) \
API int __wrap_GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c, a, b, 0); } \
API void __wrap_GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
{ team t = {0}; t.ws_init = 1; t.ws_next = s; t.ws_end = e; t.ws_incr = i; t.ws_chunk = c ? c : 1; parallel(fn, d, n, &t); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define NEXTS(K) API int __wrap_GOMP_loop_##K##_next(long *a, long *b) { return __wrap_GOMP_loop_dynamic_next(a, b); }
NEXTS(guided) NEXTS(nonmonotonic_dynamic) NEXTS(nonmonotonic_guided) NEXTS(runtime) NEXTS(nonmonotonic_runtime) NEXTS(maybe_nonmonotonic_runtime)
#define LOOPR(K) \
API int __wrap_GOMP_loop_##K##_start(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, a, b, 0); } \
API void __wrap_GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) \
{ team t = {0}; t.ws_init = 1; t.ws_next = s; t.ws_end = e; t.ws_incr = i; t.ws_chunk = 1; parallel(fn, d, n, &t); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
API void __wrap_GOMP_loop_end(void) { __wrap_GOMP_barrier(); }
API void __wrap_GOMP_loop_end_nowait(void) { }
API int __wrap_omp_get_thread_num(void) { return cur && !cur->nested ? cur->tid : 0; }
API int __wrap_omp_get_num_threads(void) { return cur && !cur->nested ? cur->tm->n : 1; }
API int __wrap_omp_get_max_threads(void) { return icv_get(); }
API int __wrap_omp_get_num_procs(void) { return g_procs; }
API int __wrap_omp_in_parallel(void) { return cur && cur->tm->n > 1; }
API void __wrap_omp_set_num_threads(int n) { if (n > 0) { if (cur) cur->icv_nthreads = n; else g_icv_nthreads = n; } }
API void __wrap_omp_set_dynamic(int d) { } 
API double __wrap_omp_get_wtime(void) { struct timespec t; __wrap_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

/* run n independent calls fn(arg[i]) as preemptively interleaved threads */
API int sim_run_concurrent(int n, void (**fn)(void *), void **arg, int *ret_icv)
{
    team tm = {0}; co c[MAXT]; memset(c, 0, sizeof(co) * n);
    u64 dl = cnt[C_DEADLOCK];
    tm.n = n; tm.c = c;
    for (int i = 0; i < n; i++) { c[i].tid = i; c[i].fn = fn[i]; c[i].arg = arg[i]; c[i].icv_nthreads = g_icv_nthreads; c[i].cur = &tm; c[i].tm = &tm; co_make(&c[i], i); }
    run_team(&tm);
    return cnt[C_DEADLOCK] != dl;
}
typedef struct { int (*fn)(void *); void *arg; int ret; } icall;
static void icall_tramp(void *p) { icall *c = p; c->ret = c->fn(c->arg); }
API int sim_run_concurrent_i(int n, int (**fn)(void *), void **arg, int *ret)
{
    icall c[MAXT]; void (*f[MAXT])(void *); void *a[MAXT];
    for (int i = 0; i < n; i++) { c[i].fn = fn[i]; c[i].arg = arg[i]; c[i].ret = -12345; f[i] = icall_tramp; a[i] = &c[i]; }
    int d = sim_run_concurrent(n, f, a, 0);
    for (int i = 0; i < n; i++) ret[i] = c[i].ret;
    return d;
}

/* every thread makes a sequence of calls with integer/pointer arguments */
typedef struct { void *fn; long a[8]; long ret; } gcall;
typedef struct { gcall *c; int n; } gseq;
static void gseq_tramp(void *p)
{
    gseq *q = p;
    for (int i = 0; i < q->n; i++) {
        long *a = q->c[i].a;
        q->c[i].ret = ((long (*)(long, long, long, long, long, long, long, long)) q->c[i].fn)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
        yield_point();
    }
}
API int sim_run_concurrent_s(int n, const int *count, gcall *calls)
{
    gseq q[MAXT]; void (*f[MAXT])(void *); void *a[MAXT];
    for (int i = 0; i < n; i++) { q[i].c = calls; q[i].n = count[i]; calls += count[i]; f[i] = gseq_tramp; a[i] = &q[i]; }
    return sim_run_concurrent(n, f, a, 0);
}
/* process-wide settings a library call must leave alone: OpenMP thread count, rounding mode and exception masks */
API u64 sim_procstate(void)
{
    unsigned mx; unsigned short cw;
    __asm__ volatile ("stmxcsr %0" : "=m" (mx)); __asm__ volatile ("fnstcw %0" : "=m" (cw));
    return ((u64) (mx & 0xffc0) << 32) | ((u64) cw << 16) | (u64) g_icv_nthreads;
}

/* ---- compiler callbacks (-fsanitize=thread, without libtsan) ---------- */
#define PC ((u64) __builtin_return_address(0))
#define ACC(NAME, N, W) API void NAME(void *a) { if (unlikely(par_on)) access_hook((u64) a, N, W, PC); }
ACC(__tsan_read1, 1, 0) ACC(__tsan_read2, 2, 0) ACC(__tsan_read4, 4, 0) ACC(__tsan_read8, 8, 0) ACC(__tsan_read16, 16, 0)
ACC(__tsan_write1, 1, 1) ACC(__tsan_write2, 2, 1) ACC(__tsan_write4, 4, 1) ACC(__tsan_write8, 8, 1) ACC(__tsan_write16, 16, 1)
ACC(__tsan_unaligned_read2, 2, 0) ACC(__tsan_unaligned_read4, 4, 0) ACC(__tsan_unaligned_read8, 8, 0) ACC(__tsan_unaligned_read16, 16, 0)
ACC(__tsan_unaligned_write2, 2, 1) ACC(__tsan_unaligned_write4, 4, 1) ACC(__tsan_unaligned_write8, 8, 1) ACC(__tsan_unaligned_write16, 16, 1)
API void __tsan_read_range(void *a, u64 n) { if (unlikely(par_on)) access_hook((u64) a, (u32) n, 0, PC); }
API void __tsan_write_range(void *a, u64 n) { if (unlikely(par_on)) access_hook((u64) a, (u32) n, 1, PC); }
API int sim_par_active(void) { return par_on && cur; }
API void sim_access(void *a, unsigned n, int wr, void *pc) { access_hook((u64) a, n, wr, (u64) pc); }
API void __tsan_vptr_update(void **a, void *b) { }
API void __tsan_func_entry(void *p) { }
API void __tsan_func_exit(void) { }
API void __tsan_init(void) { }
#define AT(T, B) \
API T __tsan_atomic##B##_load(const volatile T *a, int m) { yield_point(); return *a; } \
API void __tsan_atomic##B##_store(volatile T *a, T v, int m) { yield_point(); *a = v; } \
API T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { yield_point(); T o = *a; *a = v; return o; } \
API T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { yield_point(); T o = *a; *a = o + v; return o; } \
API T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { yield_point(); T o = *a; *a = o - v; return o; } \
API T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int m) { yield_point(); T o = *a; *a = o & v; return o; } \
API T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int m) { yield_point(); T o = *a; *a = o | v; return o; } \
API int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { yield_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
API int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { yield_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
AT(u8, 8) AT(u16, 16) AT(u32, 32) AT(u64, 64)
API void *__wrap_memcpy(void *d, const void *s, size_t n) { if (unlikely(par_on) && cur && n) { access_hook((u64) s, n, 0, PC); access_hook((u64) d, n, 1, PC); } return memcpy(d, s, n); }
API void *__wrap_memmove(void *d, const void *s, size_t n) { if (unlikely(par_on) && cur && n) { access_hook((u64) s, n, 0, PC); access_hook((u64) d, n, 1, PC); } return memmove(d, s, n); }
API void *__wrap_memset(void *d, int v, size_t n) { if (unlikely(par_on) && cur && n) access_hook((u64) d, n, 1, PC); return memset(d, v, n); }

/* ------------------------------------------------------------------ function-call faults */
#define MAXF 128
enum { F_NAN = 1, F_INF, F_DELAY, F_STATUS, F_HUGE };
typedef struct { u64 from, to; int kind; double arg; int fired; char name[48]; u64 mod, rem; } fault;
static fault ff[MAXF], qf[MAXF]; static int nff, nqf; static u64 fn_seq, qp_seq;
static i64 fn_cost_ns, qp_cost_ns; static i64 fn_cost_jit, qp_cost_jit;
API void sim_fn_fault(u64 from, u64 to, int kind, double arg, const char *name) { if (nff < MAXF) { fault *f = &ff[nff++]; f->from = from; f->to = to; f->kind = kind; f->arg = arg; f->fired = 0; f->mod = 0; snprintf(f->name, 48, "%s", name ? name : ""); } }
/* content-addressed variants: fire whenever hash(inputs) % mod == rem, i.e. independently of the schedule */
API void sim_fn_fault_content(u64 mod, u64 rem, int kind, double arg, const char *name) { sim_fn_fault(0, ~0ull, kind, arg, name); if (nff) { ff[nff - 1].mod = mod; ff[nff - 1].rem = rem; } }
API void sim_qp_fault(u64 from, u64 to, int kind, double arg) { if (nqf < MAXF) { fault *f = &qf[nqf++]; f->from = from; f->to = to; f->kind = kind; f->arg = arg; f->fired = 0; f->mod = 0; f->name[0] = 0; } }
API void sim_qp_fault_content(u64 mod, u64 rem, int kind, double arg) { sim_qp_fault(0, ~0ull, kind, arg); if (nqf) { qf[nqf - 1].mod = mod; qf[nqf - 1].rem = rem; } }
API void sim_faults_clear(void) { nff = nqf = 0; fn_seq = qp_seq = 0; }
API void sim_cost(i64 fn_ns, i64 fn_jit, i64 qp_ns, i64 qp_jit) { fn_cost_ns = fn_ns; qp_cost_ns = qp_ns; fn_cost_jit = fn_jit; qp_cost_jit = qp_jit; }
API u64 sim_fn_seq(void) { return fn_seq; }
API u64 sim_qp_seq(void) { return qp_seq; }
API int sim_fn_fired(void) { int n = 0; for (int i = 0; i < nff; i++) n += ff[i].fired; return n; }
API int sim_qp_fired(void) { int n = 0; for (int i = 0; i < nqf; i++) n += qf[i].fired; return n; }

typedef int (*casfn)(const double **, double **, int *, double *, int);
typedef const int *(*casspf)(int);
typedef int (*casnof)(void);
typedef struct { const char *name; casfn fn; casspf spo; casnof no; u64 calls; casspf spi; casnof ni; } simfn;
static u64 fnv_d(u64 h, const double *v, int n) { for (int i = 0; i < n; i++) { double d = v[i]; u64 x; if (d == 0) d = 0; memcpy(&x, &d, 8); h = (h ^ x) * 0x100000001b3ull; h ^= h >> 31; } return h; }
API int simfn_call(simfn *s, const double **arg, double **res, int *iw, double *w, int mem)
{
    if (!sim_on) return s->fn(arg, res, iw, w, mem);
    yield_point();
    u64 k = fn_seq++; s->calls++; cnt[C_FN_CALL]++;
    u64 ch = 0;
    for (int i = 0; i < nff; i++) if (ff[i].mod && !ch) {
        ch = 1469598103934665603ull;
        for (int q = 0; q < s->ni(); q++) if (arg[q]) { const int *sp = s->spi(q); ch = fnv_d(ch, arg[q], sp[2] ? sp[0] * sp[1] : sp[2 + sp[1]]); }
        for (const char *c = s->name; *c; c++) ch = (ch ^ (u64) *c) * 0x100000001b3ull;
        ch ^= ch >> 29; ch |= 1ull << 63;
    }
    int st = s->fn(arg, res, iw, w, mem);
    if (fn_cost_ns) { i64 d = fn_cost_ns + (fn_cost_jit ? (i64) rndn(&R_clock, fn_cost_jit) : 0); mono_ns += d; clk_total_adv += d; fn_time += d; }
    for (int i = 0; i < nff; i++) {
        fault *f = &ff[i];
        if (k < f->from || k > f->to) continue;
        if (f->name[0] && !strstr(s->name, f->name)) continue;
        /* set-up functions define data of the solver (like a set call does), they are only faulted if asked for */
        if (!f->name[0] && (strstr(s->name, "p_global_precompute") || strstr(s->name, "get_matrices"))) continue;
        if (f->mod && (ch & ~(1ull << 63)) % f->mod != f->rem) continue;
        f->fired++;
        ev(3, f->mod ? ch : k, f->kind);
        if (f->fired == 1) tracef("model function %s call %lu: fault kind %d arg %g\n", s->name, (unsigned long) k, f->kind, f->arg);
        if (f->kind == F_DELAY) { mono_ns += (i64) f->arg; clk_total_adv += (i64) f->arg; fn_time += (i64) f->arg; cnt[C_FN_DELAY]++; }
        else if (f->kind == F_STATUS) { cnt[C_FN_STATUS]++; st = 1; }
        else {
            double v = f->kind == F_NAN ? NAN : f->kind == F_INF ? INFINITY : f->arg;
            cnt[f->kind == F_NAN ? C_FN_NAN : C_FN_INF]++;
            int no = s->no();
            for (int o = 0; o < no; o++) {
                if (!res[o]) continue;
                const int *sp = s->spo(o);
                int nr = sp[0], nc = sp[1], nnz = sp[2] ? nr * nc : sp[2 + nc];
                for (int j = 0; j < nnz; j++) res[o][j] = v;
            }
        }
    }
    yield_point();
    return st;
}

/* ------------------------------------------------------------------ QP solver seam */
#define HPIPM_COMPAT_IMPL
#include "hpipm_compat.h"
#include "blasfeo_d_aux.h"
enum { Q_MAXITER = 1, Q_NAN, Q_MINSTEP, Q_INFEAS, Q_DELAY, Q_ITER, Q_STATUS_ONLY };
static int qlog[1024]; static int qlog_n;      /* status * 1000 + iterations of the last calls */
API void sim_qlog_clear(void) { qlog_n = 0; }
API int sim_qlog_n(void) { return qlog_n; }
API int sim_qlog(int i) { return i < 1024 ? qlog[i] : -1; }
static void qlog_add(int st, int it) { if (qlog_n < 1024) qlog[qlog_n] = st * 1000 + it; qlog_n++; }
static u64 qp_bad;     /* solves that ended in neither success nor the iteration limit */
API u64 sim_qp_failed(void) { return qp_bad; }
static int qp_pre(int *itmax, u64 ch)
{
    u64 k = qp_seq; int r = 0; *itmax = -1;
    for (int i = 0; i < nqf; i++) if (k >= qf[i].from && k <= qf[i].to && (!qf[i].mod || (ch >> 1) % qf[i].mod == qf[i].rem)) {
        qf[i].fired++;
        ev(4, k, qf[i].kind); tracef("QP call %lu: fault kind %d arg %g\n", (unsigned long) k, qf[i].kind, qf[i].arg);
        if (qf[i].kind == Q_DELAY) { mono_ns += (i64) qf[i].arg; clk_total_adv += (i64) qf[i].arg; qp_time += (i64) qf[i].arg; cnt[C_QP_DELAY]++; }
        else if (qf[i].kind == Q_ITER) { *itmax = (int) qf[i].arg; cnt[C_QP_MAXITER]++; }
        else r = qf[i].kind;
    }
    qp_seq++; cnt[C_QP_CALL]++;
    i64 d = qp_cost_ns + (qp_cost_jit ? (i64) rndn(&R_clock, qp_cost_jit) : 0); mono_ns += d; clk_total_adv += d; qp_time += d;
    return r;
}
static u64 qp_content(struct blasfeo_dvec *v, int n, u64 h) { for (int i = 0; i < n; i++) { double d = blasfeo_dvecex1(v, i); h = fnv_d(h, &d, 1); } return h; }
API void simqp_ocp_solve(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    if (!sim_on) { compat_ocp_solve(qp, sol, arg, ws); return; }
    yield_point();
    u64 ch = 1469598103934665603ull;
    if (nqf) for (int i = 0; i <= qp->dim->N; i++) ch = qp_content(qp->rqz + i, qp->dim->nu[i] + qp->dim->nx[i], ch);
    int it, r = qp_pre(&it, ch), bk = arg->iter_max;
    if (it >= 0 && it < bk) arg->iter_max = it;
    compat_ocp_solve(qp, sol, arg, ws);
    arg->iter_max = bk;
    if (r == Q_NAN) {
        cnt[C_QP_NAN]++; ws->status = NAN_SOL;
        for (int i = 0; i <= qp->dim->N; i++) blasfeo_dvecse(qp->dim->nu[i] + qp->dim->nx[i] + 2 * qp->dim->ns[i], NAN, sol->ux + i, 0);
    } else if (r == Q_MAXITER && ws->status != NAN_SOL) { cnt[C_QP_MAXITER]++; ws->status = MAX_ITER; }
    else if (r == Q_MINSTEP) { cnt[C_QP_MINSTEP]++; ws->status = MIN_STEP; }
    else if (r == Q_INFEAS) { cnt[C_QP_INFEAS]++; ws->status = INCONS_EQ; }
    qp_bad += ws->status != 0 && ws->status != MAX_ITER; qlog_add(ws->status, ws->iter);
    yield_point();
}
API void simqp_dense_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    if (!sim_on) { compat_dense_solve(qp, sol, arg, ws); return; }
    yield_point();
    u64 ch = 1469598103934665603ull;
    if (nqf) ch = qp_content(qp->gz, qp->dim->nv, ch);
    int it, r = qp_pre(&it, ch), bk = arg->iter_max;
    if (it >= 0 && it < bk) arg->iter_max = it;
    compat_dense_solve(qp, sol, arg, ws);
    arg->iter_max = bk;
    if (r == Q_NAN) {
        cnt[C_QP_NAN]++; ws->status = NAN_SOL;
        blasfeo_dvecse(qp->dim->nv + 2 * qp->dim->ns, NAN, sol->v, 0);
    } else if (r == Q_MAXITER && ws->status != NAN_SOL) { cnt[C_QP_MAXITER]++; ws->status = MAX_ITER; }
    else if (r == Q_MINSTEP) { cnt[C_QP_MINSTEP]++; ws->status = MIN_STEP; }
    else if (r == Q_INFEAS) { cnt[C_QP_INFEAS]++; ws->status = INCONS_EQ; }
    qp_bad += ws->status != 0 && ws->status != MAX_ITER; qlog_add(ws->status, ws->iter);
    yield_point();
}

/* ------------------------------------------------------------------ stdio seam (C side) */
static i64 fopen_fail_at = -1; static u64 fopen_seq;
API void sim_io_cfg(i64 fail_at) { fopen_fail_at = fail_at; fopen_seq = 0; }
API FILE *__wrap_fopen(const char *p, const char *m)
{
    if (!sim_on) return fopen(p, m);
    cnt[C_FOPEN]++;
    if ((i64) fopen_seq++ == fopen_fail_at) { cnt[C_FOPEN_FAIL]++; errno = EIO; return 0; }
    return fopen(p, m);
}

/* exit()/assert inside the library: report instead of killing the worker silently */
API void __wrap_exit(int code)
{
    fprintf(stderr, "SIMRT: exit(%d) called by library\n", code); fflush(0);
    _Exit(code == 0 ? 70 : 71);
}
API void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    fprintf(stderr, "SIMRT: assertion %s failed at %s:%u\n", e, f, l); fflush(0);
    _Exit(72);
}

/* ------------------------------------------------------------------ lifecycle */
API void sim_begin(u64 seed)
{
    rng_t r = {seed};
    R_clock.s = rnd(&r); R_sched.s = rnd(&r); R_heap.s = rnd(&r);
    ev_hash = 0xcbf29ce484222325ull; ev_count = 0;
    memset(cnt, 0, sizeof cnt);
    sim_faults_clear(); qp_bad = 0; sim_cost(0, 0, 0, 0); sim_clock_cfg(1000000000, 0, 0);
    g_icv_nthreads = 4; g_procs = 8; sim_alloc_cfg(0, -1); sim_io_cfg(-1);
    sim_sched_cfg(S_SERIAL, 1, rnd(&r), 1); race_txt[0] = 0; in_solve = 0;
    trace_len = 0; if (trace_buf) trace_buf[0] = 0;
    sim_on = 1;
}
/* call sites of the blocks that are still allocated (at most 6, lowest address first is irrelevant: table order is deterministic) */
API const char *sim_live_text(u32 gen)
{
    static char o[900]; char nm[200]; int k = 0, w = 0;
    o[0] = 0;
    for (u64 i = 0; i < atab_cap && k < 6; i++) if (atab[i].p > 1 && atab[i].gen >= gen) {
        pcname(atab[i].ra, nm, sizeof nm);
        w += snprintf(o + w, sizeof o - w > 0 ? sizeof o - w : 0, "%s%lu bytes at %s", k ? "; " : "", (unsigned long) atab[i].size, nm);
        if (w >= (int) sizeof o) break;
        k++;
    }
    return o;
}
API void sim_race_reset(void) { race_txt[0] = 0; cnt[C_RACE] = 0; }
API void sim_end(void) { sim_on = 0; }
API void sim_log(u64 a, u64 b) { ev(100, a, b); }
