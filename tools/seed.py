#!/usr/bin/env python3
"""Plant a bug: build /verif/seeded/<id>/ from a spec and confirm it in a scratch worktree.

usage: seed.py make SPEC.py      (SPEC defines ID PROP NEEDS BREAKS EDITS=[(file, old, new)] DEMO, LIB=helper modules copied beside the demo)
       seed.py run ID [ID...]    apply in a scratch worktree, demo must fail, tests must pass, run the property's check
       seed.py run all
"""
import sys, os, json, subprocess, shutil, textwrap, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = VERIF + '/seeded'
PY = '/opt/venv/bin/python'
HEAD = '''#!/bin/bash
# cwd: the repository under test
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/py:$here" PATH="$PWD/bin:/opt/venv/bin:$PATH" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset RR_TEMPLATE_DIR RR_ARCHETYPE_DIR
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def worktree(i):
    w = f'/tmp/sw-{i}-{os.getpid()}'
    rc, o = sh(f'git -C /repo worktree add -q --detach {w} HEAD')
    assert rc == 0, o
    return w


def drop(w):
    sh(f'git -C /repo worktree remove --force {w}')


def demo(i, w):
    return sh(f'bash {SEED}/{i}/demo.sh', cwd=w, timeout=300)


def tests(w):
    env = dict(PYTHONPATH=w + '/py', PATH=f'{w}/bin:/opt/venv/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', TZ='UTC', LANG='C.UTF-8')
    rc, o = sh(f'{PY} -m pytest -q -x --deselect nothing -p no:cacheprovider py/redrock/test 2>&1 | tail -4', cwd=w, env=env) if False else sh(f'{PY} -m pytest -q -p no:cacheprovider py/redrock/test 2>&1 | tail -6', cwd=w, env=env)
    m = re.search(r'(\d+) passed', o)
    f = re.search(r'(\d+) failed', o)
    return int(m.group(1)) if m else 0, int(f.group(1)) if f else 0, o


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    i = g['ID']
    d = f'{SEED}/{i}'
    os.makedirs(d, exist_ok=True)
    w = worktree(i)
    try:
        open(d + '/demo.sh', 'w').write(HEAD)
        open(d + '/demo.py', 'w').write(textwrap.dedent(g['DEMO']).lstrip())
        json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        for f, src in g.get('FILES', {}).items():
            open(f'{d}/{f}', 'w').write(textwrap.dedent(src).lstrip())
        if g.get('LIB'):
            os.makedirs(d + '/rv', exist_ok=True)
            open(d + '/rv/__init__.py', 'w').close()
            for m in g['LIB']:
                shutil.copy(f'{VERIF}/rv/{m}.py', d + '/rv/')
            if 'igmref' in g['LIB']:
                shutil.copytree(VERIF + '/data', d + '/data', dirs_exist_ok=True)
        rc, o = demo(i, w)
        print('demo clean rc', rc, '' if rc == 0 else o[-1500:])
        ok = rc == 0
        for f, old, new in g['EDITS']:
            s = open(f'{w}/{f}').read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(f'{w}/{f}', 'w').write(s.replace(old, new))
        rc, p = sh('git diff', cwd=w)
        open(d + '/patch.diff', 'w').write(p)
        rc, o = demo(i, w)
        print('demo patched rc', rc, o.strip()[-300:])
        ok &= rc != 0
        a, b, o = tests(w)
        print('tests', a, 'passed', b, 'failed', '' if a == 37 else o)
        ok &= a == 37
        if not ok:
            print('NOT OK', i)
            return
        check(i, w, g['PROP'])
    finally:
        drop(w)


def check(i, w, prop):
    rc, o = sh(f'bash {VERIF}/check.sh {prop}', env=dict(VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
    print(f'{i}: check {prop} rc={rc}', '\n   '.join(x[:230] for x in o.strip().splitlines()[:3]))
    return rc


def run(ids):
    if ids == ['all']:
        ids = sorted(os.listdir(SEED))
    miss = []
    for i in ids:
        w = worktree(i)
        try:
            prop = json.load(open(f'{SEED}/{i}/meta.json'))['property']
            rc, o = demo(i, w)
            if rc:
                print(i, 'DEMO FAILS ON CLEAN', o[-300:])
            rc, o = sh(f'git apply {SEED}/{i}/patch.diff', cwd=w)
            if rc:
                print(i, 'PATCH DOES NOT APPLY', o); miss.append(i); continue
            rc, o = demo(i, w)
            if rc == 0:
                print(i, 'DEMO PASSES WITH PATCH')
            if check(i, w, prop) != 1:
                miss.append(i)
        finally:
            drop(w)
    print('missed:', miss)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for s in sys.argv[2:]:
            make(s)
    else:
        run(sys.argv[2:])
