import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from dst import engine
engine.no_aslr()
mod = importlib.import_module('props.' + sys.argv[1].lower())
plans = json.load(open(os.path.join(here, 'plans.json')))
probs = sorted({q for p in plans for q in ([p['problem']] if isinstance(p.get('problem'), str) else p.get('problems', []))})
from dst import zoo
bases = {getattr(zoo.VREG.get(q) or zoo.DREG.get(q), 'base', q) for q in probs}
if hasattr(mod, 'VAR'):
    mod.VAR = {k: v for k, v in mod.VAR.items() if k in probs}
probs = sorted(set(probs) | bases)
if probs and hasattr(mod, 'PROBLEMS'):
    mod.PROBLEMS = [q for q in mod.PROBLEMS if q in probs]
mod.setup('quick')
bad = 0
for p in plans:
    r = engine.run_plan(mod, p)
    v = r.get('violation')
    if r.get('harness'):
        print(r['harness'])
        bad = 2
    elif v:
        print('VIOLATED:', v['sig'], v['msg'])
        bad = 1
print('exit', bad)
sys.exit(bad)
