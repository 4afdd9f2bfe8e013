"""mkseed.py ID PROPERTY [--plans FILE...|--script demo.py]: (re)create seeded/ID from the current scratch patch.
The demo folder gets its own frozen copy of the simulator kit, so it does not depend on /verif."""
import json, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    sid, prop = sys.argv[1:3]
    mode, files = sys.argv[3], sys.argv[4:]
    d = f'{V}/seeded/{sid}'
    k = d + '/kit'
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k + '/props')
    ig = shutil.ignore_patterns('__pycache__', '*.pyc')
    for s in ('csrc', 'shim', 'dst', 'fakecc'):
        shutil.copytree(f'{V}/{s}', f'{k}/{s}', ignore=ig)
    shutil.copy(f'{V}/props/{prop.lower()}.py', k + '/props/')
    open(k + '/props/__init__.py', 'w').close()
    if mode == '--plans':
        plans = []
        for f in files:
            j = json.load(open(f))
            plans.append(j.get('plan', j))
        json.dump(plans, open(k + '/plans.json', 'w'))
        shutil.copy(f'{V}/tools/demo_plans.py', k + '/demo.py')
    else:
        shutil.copy(files[0], k + '/demo.py')
    with open(d + '/demo.sh', 'w') as f:
        f.write(f'''#!/bin/bash
# builds the C library and the needed generated solvers from the tree in the current directory into a scratch folder and
# runs fixed scenarios on them; exit 0: property held in all of them, 1: violated
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
. /opt/vp/env.inc >/dev/null 2>&1
export DST_REPO="$repo" DST_BUILD="$scratch" PYTHONDONTWRITEBYTECODE=1
cd "$here/kit"
/opt/acados-env/venv/bin/python demo.py {prop}
''')
    os.chmod(d + '/demo.sh', 0o755)


main()
