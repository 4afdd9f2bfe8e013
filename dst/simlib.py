"""ctypes view of libsimrt.so (the in-process simulator)"""
import ctypes as ct, os, re, subprocess
import numpy as np

SERIAL, REVERSE, RANDOM, PCT, SEAM, QUANTUM, LIST = range(7)
COUNTERS = ('clock_reads clock_step_fwd clock_step_back model_calls model_nan model_inf model_delay qp_calls qp_maxiter qp_nan qp_minstep '
            'qp_infeasible qp_delay allocs frees alloc_fail heap_smash bad_free parallel_regions thread_switches instrumented_accesses races deadlocks '
            'fopens fopen_fail fwrite_fail fread_fail realtime_allocs max_team stalls model_status qp_unknown').split()
FAULTS = ('clock_step_fwd clock_step_back model_nan model_inf model_delay qp_maxiter qp_nan qp_minstep qp_infeasible qp_delay alloc_fail '
          'fopen_fail model_status').split()


class Sim:
    def __init__(self, root):
        L = self.L = ct.CDLL(os.path.join(root, 'lib', 'libsimrt.so'), mode=ct.RTLD_GLOBAL)
        u64, i64, d = ct.c_uint64, ct.c_int64, ct.c_double
        for n in ('sim_hash', 'sim_events', 'sim_il_hash', 'sim_fn_seq', 'sim_qp_seq', 'sim_heap_check', 'sim_clock_reads', 'sim_alloc_seq', 'sim_live_bytes', 'sim_qp_failed', 'sim_procstate'):
            getattr(L, n).restype = u64
        for n in ('sim_mono', 'sim_wall', 'sim_total_advance', 'sim_fn_time', 'sim_qp_time'):
            getattr(L, n).restype = i64
        L.sim_trace_get.restype = ct.c_char_p
        L.sim_race_text.restype = ct.c_char_p
        L.sim_live_text.restype = ct.c_char_p; L.sim_live_text.argtypes = [ct.c_uint32]
        L.sim_begin.argtypes = [u64]
        L.sim_counter.restype = u64
        L.sim_live_blocks.restype = u64; L.sim_live_blocks.argtypes = [ct.c_uint32]
        L.sim_alloc_newgen.restype = ct.c_uint32
        L.sim_clock_cfg.argtypes = [i64, i64, i64]; L.sim_clock_jump.argtypes = [u64, i64]; L.sim_advance.argtypes = [i64]
        L.sim_alloc_cfg.argtypes = [ct.c_int, i64]
        L.sim_sched_cfg.argtypes = [ct.c_int, ct.c_uint32, u64, ct.c_int]
        L.sim_sched_list.argtypes = [ct.c_int, ct.c_void_p, ct.c_void_p]
        L.sim_sched_rec.argtypes = [ct.c_void_p, ct.c_void_p, ct.c_int]
        L.sim_fn_fault.argtypes = [u64, u64, ct.c_int, d, ct.c_char_p]
        L.sim_fn_fault_content.argtypes = [u64, u64, ct.c_int, d, ct.c_char_p]
        L.sim_qp_fault.argtypes = [u64, u64, ct.c_int, d]
        L.sim_qp_fault_content.argtypes = [u64, u64, ct.c_int, d]
        L.sim_cost.argtypes = [i64] * 4
        L.sim_scribble.argtypes = [u64, ct.c_int]
        L.sim_io_cfg.argtypes = [i64]
        L.sim_log.argtypes = [u64, u64]
        L.sim_run_concurrent_s.argtypes = [ct.c_int, ct.c_void_p, ct.c_void_p]
        L.sim_run_concurrent_i.argtypes = [ct.c_int, ct.c_void_p, ct.c_void_p, ct.c_void_p]

    def __getattr__(self, n):
        return getattr(self.L, 'sim_' + n)

    def counters(self):
        b = (ct.c_uint64 * 64)()
        self.L.sim_counters(b)
        return {n: int(b[i]) for i, n in enumerate(COUNTERS)}

    def race(self):
        return self.where(self.L.sim_race_text().decode())

    def live_text(self, gen):
        return self.where(self.L.sim_live_text(gen).decode())

    def where(self, t):

        def sub(mt):
            try:
                o = subprocess.run(['addr2line', '-f', '-s', '-e', mt.group(1), hex(int(mt.group(2), 16) - 1)], stdout=subprocess.PIPE, text=True).stdout.split()
                return o[0] + ' (' + o[1] + ')'
            except Exception:
                return mt.group(0)
        return re.sub(r'<(/[^+>]*)\+(0x[0-9a-f]+)>', sub, t) if t else t

    def trace_text(self):
        return self.L.sim_trace_get().decode(errors='replace')

    def sched(self, s, seed=0):
        """s: {'mode','param','seed','race'} or {'list': [[at,to],...]}"""
        if 'list' in s:
            self.L.sim_sched_cfg(LIST, 1, s.get('seed', seed), int(s.get('race', 1)))
            l = s['list']
            at = (ct.c_uint64 * max(1, len(l)))(*[a for a, _ in l]); to = (ct.c_int * max(1, len(l)))(*[t for _, t in l])
            self.L.sim_sched_list(len(l), at, to)
        else:
            self.L.sim_sched_cfg(s['mode'], s.get('param', 1), s.get('seed', seed), int(s.get('race', 1)))

    def sched_rec(self):
        n = self.L.sim_sched_rec(None, None, 0)
        at = (ct.c_uint64 * max(1, n))(); to = (ct.c_int * max(1, n))()
        self.L.sim_sched_rec(at, to, n)
        return [[int(at[i]), int(to[i])] for i in range(n)]

    def concurrent(self, calls):
        """calls: list of (c function pointer address, argument pointer); run preemptively interleaved"""
        n = len(calls)
        f = (ct.c_void_p * n)(*[c[0] for c in calls]); a = (ct.c_void_p * n)(*[c[1] for c in calls]); r = (ct.c_int * n)()
        self.L.sim_run_concurrent_i(n, f, a, r)
        return list(r)

    def threads(self, seqs):
        """seqs: one list of (function address, [integer/pointer arguments]) per thread, interleaved preemptively; returns the results"""
        class G(ct.Structure):
            _fields_ = [('fn', ct.c_void_p), ('a', ct.c_long * 8), ('ret', ct.c_long)]
        n = sum(len(q) for q in seqs)
        g = (G * max(1, n))(); i = 0
        for q in seqs:
            for f, a in q:
                g[i].fn = f
                for j, v in enumerate(a):
                    g[i].a[j] = ct.c_long(v or 0).value
                i += 1
        self.L.sim_run_concurrent_s(len(seqs), (ct.c_int * len(seqs))(*[len(q) for q in seqs]), g)
        out, i = [], 0
        for q in seqs:
            out.append([ct.c_int(g[i + j].ret & 0xffffffff).value if g[i + j].ret & 0x80000000 else int(g[i + j].ret & 0x7fffffff) for j in range(len(q))]); i += len(q)
        return out
