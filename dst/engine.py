"""Seeded search: plan(seed) -> execute(plan) in a forked, simulated process;
gating (same plan twice => same event hash and verdict), minimisation, replay
files, known findings and evidence."""
import copy, ctypes, hashlib, importlib, json, os, pickle, select, shutil, signal, struct, sys, tempfile, time, traceback
import warnings
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET_S = 780


class Violation(Exception):
    """the property is violated; sig identifies *what*, msg says how"""

    def __init__(self, sig, msg=''):
        super().__init__(f'{sig}: {msg}')
        self.sig, self.msg = sig, msg


class HarnessError(Exception):
    pass


def no_aslr():
    """re-exec without address space randomisation: addresses are one more source of nondeterminism"""
    if os.environ.get('DST_NOASLR'):
        return
    os.environ['DST_NOASLR'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    try:
        libc = ctypes.CDLL(None)
        libc.personality(0x0040000)
    except Exception:
        pass
    os.execv(sys.executable, [sys.executable] + sys.argv)


# ------------------------------------------------------------------ child side
def _child(mod, plan, wfd, trace):
    """runs in a forked process: executes one plan, writes the result, dies"""
    tmp = tempfile.mkdtemp(prefix='dst-')
    res = {'violation': None, 'hash': '0', 'stats': {}}
    # the result pipe must survive a hard exit() inside the library -> pre-announce scratch directory
    os.write(wfd, struct.pack('<I', len(tmp)) + tmp.encode())
    os.chdir(tmp)
    out = os.open('stdout', os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    os.dup2(out, 1); os.dup2(out, 2)
    sys.stdout = open(1, 'w', closefd=False); sys.stderr = open(2, 'w', closefd=False)
    warnings.simplefilter('ignore')
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        res = mod.execute(plan, trace) or res
    except Violation as v:
        res['violation'] = {'sig': v.sig, 'msg': v.msg}
        res['hash'] = getattr(v, 'hash', '0')
        res['stats'] = getattr(v, 'stats', {})
        if trace:
            res['trace'] = getattr(v, 'trace', '')
    except HarnessError as e:
        res['harness'] = traceback.format_exc()
    except BaseException as e:
        tb = traceback.format_exc()
        fr = traceback.extract_tb(e.__traceback__)
        last = fr[-1] if fr else None
        if any('acados_template' in f.filename for f in fr):
            res['violation'] = {'sig': 'python-exception', 'msg': f'{type(e).__name__}: {e} ({os.path.basename(last.filename)}:{last.name})'}
        else:
            res['harness'] = tb
    try:
        sys.stdout.flush()
    except Exception:
        pass
    b = pickle.dumps(res)
    os.write(wfd, struct.pack('<I', len(b)))
    k = 0
    while k < len(b):
        k += os.write(wfd, b[k:k + 65536])
    os._exit(0)


def run_plan(mod, plan, trace=False, timeout=90):
    """fork, execute, collect. -> result dict"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _child(mod, plan, w, trace)
        finally:
            os._exit(99)
    os.close(w)
    buf = b''
    t_end = time.time() + timeout
    hung = False
    while True:
        left = t_end - time.time()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hung = True
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    tmp = None
    res = None
    if len(buf) >= 4:
        n = struct.unpack('<I', buf[:4])[0]
        tmp = buf[4:4 + n].decode()
        rest = buf[4 + n:]
        if len(rest) >= 4:
            m = struct.unpack('<I', rest[:4])[0]
            if len(rest) >= 4 + m:
                res = pickle.loads(rest[4:4 + m])
    if res is None:
        txt = ''
        try:
            with open(os.path.join(tmp, 'stdout'), errors='replace') as f:
                txt = f.read()[-600:]
        except Exception:
            pass
        if hung:
            sig, msg = 'hang', f'no result within {timeout} s of wall time'
        elif os.WIFSIGNALED(st):
            sig, msg = 'crash-signal-%d' % os.WTERMSIG(st), 'process killed by signal'
        else:
            c = os.WEXITSTATUS(st)
            sig = {70: 'library-exit', 71: 'library-exit', 72: 'library-assert'}.get(c, 'process-exit-%d' % c)
            lines = [l for l in txt.strip().splitlines() if l.strip()]
            msg = ' | '.join(lines[-3:])
        res = {'violation': {'sig': sig, 'msg': msg}, 'hash': 'dead-' + sig, 'stats': {}, 'died': True}
        if hasattr(mod, 'on_death'):
            res = mod.on_death(plan, res)
    if trace and tmp:
        try:
            with open(os.path.join(tmp, 'stdout'), errors='replace') as f:
                res['stdout'] = f.read()[-4000:]
        except Exception:
            pass
    if tmp and os.path.basename(tmp).startswith('dst-'):
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def _worker(mod, idx, nw, seeds, tier, rfd_cmd, wfd, deadline):
    """one of the parallel workers: executes seeds idx, idx+nw, ..."""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    for k in range(idx, len(seeds), nw):
        if time.time() > deadline:
            break
        if select.select([rfd_cmd], [], [], 0)[0]:
            break
        seed = seeds[k]
        try:
            plan = mod.plan(seed, tier)
            res = run_plan(mod, plan)
        except Exception:
            plan = {}
            res = {'harness': traceback.format_exc(), 'violation': None, 'hash': '0', 'stats': {}}
        b = pickle.dumps((seed, plan if res.get('violation') or k < 3 else None, res))
        os.write(wfd, struct.pack('<I', len(b)))
        j = 0
        while j < len(b):
            j += os.write(wfd, b[j:j + 65536])
    os._exit(0)


# ------------------------------------------------------------------ minimisation
def same(v, res):
    return bool(res.get('violation')) and res['violation']['sig'] == v['sig']


def minimise(mod, plan, v, budget=60):
    """delta-debug the op list and the fault list, then simplify the schedule; every candidate is re-executed"""
    t_end = time.time() + budget
    cur = copy.deepcopy(plan)
    tries = [0]

    def ok(p):
        if time.time() > t_end:
            return False
        tries[0] += 1
        try:
            return same(v, run_plan(mod, p, timeout=60))
        except Exception:
            return False
    for key in [k for k in ('faults', 'ops', 'ops2', 'jumps') if isinstance(cur.get(k), list)]:
        n = 2
        while len(cur[key]) >= 1 and time.time() < t_end:
            items = cur[key]
            step = max(1, len(items) // n)
            done = False
            for i in range(0, len(items), step):
                c = dict(cur)
                c[key] = items[:i] + items[i + step:]
                if ok(c):
                    cur = c
                    done = True
                    break
            if not done:
                if step == 1:
                    break
                n = min(len(items), n * 2)
            else:
                n = max(2, n - 1)
    if isinstance(cur.get('sched'), dict):
        c = dict(cur); c['sched'] = {'mode': 0, 'param': 1, 'seed': 0, 'race': cur['sched'].get('race', 1)}
        if ok(c):
            cur = c
        elif 'list' not in cur['sched']:
            c = dict(cur); c['record'] = 1
            r = run_plan(mod, c)
            lst = (r.get('stats') or {}).get('sched_rec') if same(v, r) else None
            if lst is not None and len(lst) < 4000:
                c = dict(cur); c['sched'] = {'list': lst, 'race': cur['sched'].get('race', 1), 'seed': cur['sched'].get('seed', 0)}
                if ok(c):
                    cur = c
                    n = 2
                    while len(lst) >= 1 and time.time() < t_end:
                        step = max(1, len(lst) // n); done = False
                        for i in range(0, len(lst), step):
                            c = dict(cur); c['sched'] = dict(cur['sched'], list=lst[:i] + lst[i + step:])
                            if ok(c):
                                cur = c; lst = c['sched']['list']; done = True
                                break
                        if not done:
                            if step == 1:
                                break
                            n = min(len(lst), n * 2)
                        else:
                            n = max(2, n - 1)
    for key, val in getattr(mod, 'SIMPLIFY', []):
        if key in cur and cur[key] != val:
            c = dict(cur); c[key] = val
            if ok(c):
                cur = c
    return cur, tries[0]


# ------------------------------------------------------------------ known findings
def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == prop and e.get('status') == 'known']


def match_known(prop, v):
    import re
    for e in known(prop):
        if re.fullmatch(e['sig'], v['sig']) and re.search(e.get('msg', ''), v['msg']):
            return e
    return None


def triage(viols, harness, agg, wall):
    g = {}
    for seed, plan, res in sorted(viols, key=lambda x: x[0]):
        g.setdefault((res['violation']['sig'], plan.get('problem')), []).append((seed, res['violation']['msg']))
    for k, l in sorted(g.items(), key=lambda e: -len(e[1])):
        print(len(l), *k, '| seed', l[0][0], l[0][1][:260].replace('\n', ' '))
    for s, h in harness[:2]:
        print('HARNESS', s, h[-700:])
    print(f'{agg["runs"]} runs in {wall:.1f} s, {len(viols)} violations, {len(harness)} harness errors, nontrivial {len(agg["nontrivial"])}, states {len(agg["states"])}, faults {agg["faults"]}')
    return 0


# ------------------------------------------------------------------ driver
def load(prop):
    sys.path.insert(0, VERIF)
    return importlib.import_module('props.' + prop.lower())


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    mod = load(rp['property'])
    mod.setup(rp['plan'].get('tier', 'quick'))
    res = run_plan(mod, rp['plan'], trace=True)
    v = res.get('violation')
    print(json.dumps({'violation': v, 'hash': res.get('hash')}))
    if res.get('trace'):
        print(res['trace'][-6000:])
    if res.get('harness'):
        print(res['harness'])
    exact = bool(v) and v['sig'] == rp['violation']['sig'] and res.get('hash') == rp['hash']
    print('REPLAY', 'exact' if exact else ('same-violation' if v and v['sig'] == rp['violation']['sig'] else 'DIFFERENT'))
    return 1 if v else 0


def check(prop, tier, mod=None):
    t0 = time.time()
    mod = mod or load(prop)
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod.setup(tier)
    except Exception as e:
        from .build import BuildError
        print('build/setup failed:', str(e)[-3000:])
        if not isinstance(e, BuildError):
            traceback.print_exc()
        # code that the real build accepts but this build cannot generate/compile: no verdict
        return 2
    t_setup = time.time() - t0
    nruns = mod.RUNS[tier] if not os.environ.get('DST_RUNS') else int(os.environ['DST_RUNS'])
    limit = mod.LIMIT[tier] if hasattr(mod, 'LIMIT') else (300 if tier == 'quick' else BUDGET_S)
    deadline = max(t0 + limit, min(time.time() + .8 * limit, t0 + 840))       # (building takes long after some changes)
    seeds = [base * 1000003 + k for k in range(nruns)]
    if os.environ.get('DST_SEED'):
        seeds = [int(os.environ['DST_SEED'])]
    nw = min(int(os.environ.get('DST_WORKERS', os.cpu_count() or 8)), len(seeds))
    rs, cmd_r, cmd_w = [], *os.pipe()
    bufs = {}
    pids = []
    sys.stdout.flush()
    for i in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r); os.close(cmd_w)
            try:
                _worker(mod, i, nw, seeds, tier, cmd_r, w, deadline)
            finally:
                os._exit(98)
        os.close(w)
        rs.append(r); bufs[r] = b''; pids.append(pid)
    t_run = time.time()
    agg = {'runs': 0, 'faults': {}, 'il': set(), 'states': set(), 'sim_ns': 0, 'nontrivial': set(), 'counters': {}, 'hashes': hashlib.sha1()}
    samples, viols, harness, knownhits = [], [], [], {}
    perseed = {}
    live = set(rs)
    stop = False
    while live:
        rd, _, _ = select.select(list(live), [], [], 5)
        for r in rd:
            d = os.read(r, 1 << 20)
            if not d:
                live.discard(r)
                continue
            bufs[r] += d
            while len(bufs[r]) >= 4:
                n = struct.unpack('<I', bufs[r][:4])[0]
                if len(bufs[r]) < 4 + n:
                    break
                seed, plan, res = pickle.loads(bufs[r][4:4 + n])
                bufs[r] = bufs[r][4 + n:]
                agg['runs'] += 1
                st = res.get('stats') or {}
                perseed[seed] = res.get('hash')
                for k, n_ in (st.get('counters') or {}).items():
                    agg['counters'][k] = max(agg['counters'].get(k, 0), n_) if k == 'max_team' else agg['counters'].get(k, 0) + n_
                for k, n_ in (st.get('faults') or {}).items():
                    agg['faults'][k] = agg['faults'].get(k, 0) + n_
                if st.get('il'):
                    agg['il'].add(st['il'])
                for h in st.get('states') or []:
                    agg['states'].add(h)
                agg['sim_ns'] += st.get('sim_ns', 0)
                if st.get('nontrivial'):
                    agg['nontrivial'].add(st.get('key') or res.get('hash'))
                if plan and len(samples) < 3:
                    samples.append({'seed': seed, 'plan': _short(plan), 'verdict': 'violation' if res.get('violation') else 'held', 'event_hash': res.get('hash')})
                if res.get('harness'):
                    harness.append((seed, res['harness']))
                    stop = len(harness) > 3 or stop
                elif res.get('violation'):
                    e = match_known(prop, res['violation'])
                    if e:
                        knownhits[e['id']] = knownhits.get(e['id'], 0) + 1
                    else:
                        viols.append((seed, plan, res))
                        if len(viols) >= (10**9 if os.environ.get('DST_TRIAGE') else 3):
                            stop = True
        if stop and cmd_w is not None:
            os.write(cmd_w, b'x' * 64)
            os.close(cmd_w); cmd_w = None
    for p in pids:
        os.waitpid(p, 0)
    wall_run = time.time() - t_run
    if os.environ.get('DST_TRIAGE'):
        return triage(viols, harness, agg, wall_run)
    ret = 0
    vio_out = []
    if viols:
        viols.sort(key=lambda x: x[0])
        confirmed = False
        for seed, plan, res in viols[:3]:
            v = res['violation']
            r1 = run_plan(mod, plan); r2 = run_plan(mod, plan)
            if not (same(v, r1) and same(v, r2)):
                print(f'note: seed {seed}: {v} did not reproduce ({r1.get("violation")}, {r2.get("violation")}) - not reported')
                continue
            exact = r1['hash'] == r2['hash'] == res['hash']
            mp, tries = minimise(mod, plan, v, budget=60 if tier == 'quick' else 120)
            rm = run_plan(mod, mp, trace=True)
            if not same(v, rm):
                mp, rm = plan, run_plan(mod, plan, trace=True)
            os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'evidence', 'replays', f'{prop}-{seed}.json')
            if rm.get('violation') is None:
                continue
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'violation': rm['violation'], 'hash': rm['hash'], 'plan': mp, 'original_plan': plan,
                           'minimisation_runs': tries, 'event_hash_repeats': exact, 'trace': (rm.get('trace') or '')[-20000:], 'stdout': rm.get('stdout', '')[-2000:],
                           'replay_command': f'bash {VERIF}/run.sh replay {path}'}, f, indent=1, default=_js)
            # fresh process replay
            import subprocess
            env = dict(os.environ); env.pop('DST_NOASLR', None)
            q = subprocess.run(['bash', os.path.join(VERIF, 'run.sh'), 'replay', path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if 'REPLAY exact' not in q.stdout and 'REPLAY same-violation' not in q.stdout:
                print('note: replay in a fresh process did not reproduce; not reported:', q.stdout[-500:])
                continue
            print(f'{v["sig"]}: {rm["violation"]["msg"]}')
            print(f'VIOLATION property={prop} replay={path}')
            vio_out.append({'sig': v['sig'], 'msg': rm['violation']['msg'], 'replay': path, 'seed': seed, 'exact': 'REPLAY exact' in q.stdout})
            confirmed = True
            break
        ret = 1 if confirmed else 2
    for e in known(prop):
        print(f'KNOWN-FINDING: property={prop} {e["what"]}' + (f' (reached {knownhits.get(e["id"], 0)} times in this run)'))
    if harness and ret == 0:
        print('harness error in seed', harness[0][0], '\n', harness[0][1])
        ret = 2
    cov = {'evaluations': agg['runs'], 'distinct_nontrivial': len(agg['nontrivial']), 'rule': mod.RULE,
           'samples': samples, 'seeds_per_hour': round(agg['runs'] / max(wall_run, 1e-9) * 3600),
           'first_seed': seeds[0], 'simulated_time_s': round(agg['sim_ns'] / 1e9, 6),
           'faults_injected': {k: v for k, v in sorted(agg['faults'].items()) if v},
           'distinct_interleavings': len(agg['il']), 'distinct_states': len(agg['states']),
           'distinct_measure': getattr(mod, 'MEASURE', 'interleavings: hash of (thread, access index) at every context switch of a run; states: hash of the final iterate/observation vector of a run'),
           'counters': {k: v for k, v in sorted(agg['counters'].items()) if v},
           'components_real': mod.REAL, 'components_stub': mod.STUB,
           'setup_s': round(t_setup, 1), 'known_findings_reached': knownhits,
           'event_hash_of_all_runs': hashlib.sha1(json.dumps(sorted((str(k), v) for k, v in perseed.items())).encode()).hexdigest()}
    ev = {'property': prop, 'tier': tier, 'seed': base, 'level': mod.LEVEL, 'coverage': cov, 'wall_s': round(time.time() - t0, 1),
          'violations': len(vio_out), 'assumptions': mod.ASSUMPTIONS}
    if vio_out:
        cov['violation_details'] = vio_out
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=_js)
    print(f'{prop} {tier}: {agg["runs"]} runs in {wall_run:.1f} s (setup {t_setup:.1f} s), {len(agg["nontrivial"])} non-trivial, {len(agg["il"])} interleavings, '
          f'{len(agg["states"])} states, faults {cov["faults_injected"]}, exit {ret}')
    return ret


def _js(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, set):
        return sorted(o)
    return str(o)


def _short(plan):
    s = json.dumps(plan, default=_js)
    return plan if len(s) < 1500 else s[:1500] + '...'


def main():
    no_aslr()
    sys.path.insert(0, VERIF)
    a = sys.argv[1:]
    if a[0] == 'replay':
        sys.exit(replay(a[1]))
    if a[0] == 'plan':
        mod = load(a[1]); mod.setup('quick')
        print(json.dumps(mod.plan(int(a[2]), 'quick'), indent=1, default=_js))
        sys.exit(0)
    if a[0] == 'one':   # run one seed verbosely
        mod = load(a[1]); mod.setup('quick')
        p = mod.plan(int(a[2]), 'quick')
        print(json.dumps(p, default=_js))
        r = run_plan(mod, p, trace=True)
        print(json.dumps({k: r.get(k) for k in ('violation', 'hash', 'harness', 'stdout')}, indent=1, default=_js))
        if len(a) > 3: print(r.get('trace', ''))
        sys.exit(0)
    sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    from dst import engine
    engine.main()
