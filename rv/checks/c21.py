"""C21 a failing worker process or MPI rank ends the run with an error: no hang, no silently missing or wrong result."""
import os, sys, json, signal, subprocess, time, textwrap
import numpy as np
from rv import synth, compare, core

DRIVER = '''
import os, sys, signal, json, pickle
sys.path.insert(0, {verif!r})
import warnings; warnings.simplefilter('ignore')
import numpy as np
from rv import synth
spec = json.load(open({spec!r}))
rng = np.random.default_rng(spec['seed'])
T = [synth.template(rng, 'GALAXY', '', 2, redshifts=np.linspace(0., .3, spec['nz'])), synth.template(rng, 'STAR', 'M', 2, redshifts=np.linspace(-.002, .002, 9), igm='None')]
sc = synth.scene(rng, T, spec['ntarg'], masked_target=False, nexp=(1, 2))
from redrock.targets import DistTargetsCopy
from redrock.zfind import zfind
import redrock.zscan, redrock.fitz, redrock.zfind
parent = os.getpid()
calls = [0]

def die():
    if spec['how'] == 'raise':
        raise MemoryError('injected')
    if spec['how'] == 'valueerror':
        raise ValueError('injected')
    if spec['how'] == 'linalg':
        raise np.linalg.LinAlgError('injected')
    if spec['how'] == 'exit':
        os._exit(3)
    if spec['how'] == 'sysexit':
        sys.exit(0)
    os.kill(os.getpid(), signal.SIGKILL)

victims = set(t['id'] for t in sc[:spec['nvictims']])
if spec['where'] == 'read':
    from redrock.targets import Target
    orig = Target.sharedmem_unpack
    def unpack(self):
        if os.getpid() != parent and self.id in victims:
            die()
        return orig(self)
    Target.sharedmem_unpack = unpack
elif spec['where'] in ('data', 'late'):
    # the fault sits in the data of one target: it strikes whenever the code touches its flux in a worker
    from redrock.targets import Spectrum
    class Bomb(Spectrum):
        hits = 0
        @property
        def flux(self):
            if os.getpid() != parent:
                Bomb.hits += 1
                if Bomb.hits > spec['after']:
                    die()
            return self.__dict__['_flux']
        @flux.setter
        def flux(self, v):
            self.__dict__['_flux'] = v
if spec['where'] == 'line':
    # one exception at the n-th executed line of redrock code in the k-th forked worker
    import threading
    forks, lines = [0], [0]
    os.register_at_fork(before=lambda: forks.__setitem__(0, forks[0] + 1))
    pydir = os.path.dirname(redrock.zscan.__file__)

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(pydir):
            return None
        if event == 'line':
            lines[0] += 1
            if lines[0] == spec['after']:
                sys.settrace(None)
                die()
        return trace
    os.register_at_fork(after_in_child=lambda: sys.settrace(trace) if forks[0] == spec['child'] and threading.current_thread() is threading.main_thread() else None)
tg = synth.build_targets(sc)
if spec['where'] in ('data', 'late'):
    for t in tg:
        if t.id in victims:
            for s in t.spectra:
                f = s.flux
                del s.__dict__['flux']
                s.__class__ = Bomb
                s.flux = f
dt = DistTargetsCopy(tg)
dts = synth.dist_templates(T, dt)
scan, zf = zfind(dt, dts, mp_procs=spec['procs'])
pickle.dump(dict(ids=[int(x) for x in zf['targetid']], z=[float(x) for x in zf['z']], znum=[int(x) for x in zf['znum']], scan=sorted(int(k) for k in scan)), open({out!r}, 'wb'))
'''


def children(pid):
    out = []
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                st = open(f'/proc/{d}/stat').read().rsplit(')', 1)[1].split()
                if int(st[1]) == pid and st[0] != 'Z':
                    out.append(int(d))
            except OSError:
                pass
    return out


def cpu(pids):
    t = 0
    for p in pids:
        try:
            st = open(f'/proc/{p}/stat').read().rsplit(')', 1)[1].split()
            t += int(st[11]) + int(st[12])
        except OSError:
            pass
    return t


def stuck(p, since):
    """quiescence test: nobody in the process tree has used the CPU for a while and all are asleep"""
    if time.time() - since['t'] < 0.5:
        return False
    tree = [p.pid] + children(p.pid)
    for c in list(tree[1:]):
        tree += children(c)
    c = cpu(tree)
    since['t'] = time.time()
    # a waiting parent that polls uses almost nothing; give the poll loop 2 ticks
    if c - since.get('cpu', -99) <= 2 and len(tree) == since.get('n'):
        since['quiet'] = since.get('quiet', 0) + 1
    else:
        since['quiet'] = 0
    since['cpu'], since['n'] = c, len(tree)
    return since['quiet'] >= 40                  # 20 s of a motionless process tree


def run_one(ctx, k, spec):
    d = ctx.sub(f'r{k}')
    sf, of, pf = (os.path.join(d, x) for x in ('spec.json', 'out.pkl', 'drv.py'))
    json.dump(spec, open(sf, 'w'))
    open(pf, 'w').write(DRIVER.format(verif=core.VERIF, spec=sf, out=of))
    p = subprocess.Popen([sys.executable, pf], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    since = dict(t=time.time())
    hang = False
    t0 = time.time()
    while p.poll() is None:
        time.sleep(0.05)
        if stuck(p, since):
            hang = True
            break
        if time.time() - t0 > 300:
            raise core.Inconclusive(f'case {k} still busy after 300 s')
    left = children(p.pid) if hang else []
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    import pickle
    res = pickle.load(open(of, 'rb')) if os.path.exists(of) else None
    return hang, p.returncode, res, left


def run(ctx):
    import concurrent.futures as cf
    ctx.rule = ('one case = one real run in its own process group with a fault (exception, exit, SIGKILL) injected in the workers that handle chosen targets, at a chosen phase, or once at a random executed line of a random worker; '
                'allowed: non-zero exit, or a complete result equal to the fault-free one; distinct = fault plans')
    specs = []
    hows = ['raise', 'kill', 'exit', 'valueerror', 'sysexit']
    n = ctx.n(14, 80)
    for k in range(n):
        r = ctx.rng(k)
        procs = [2, 3, 4, 7][k % 4]
        ntarg = int(r.integers(3, 7))
        specs.append(dict(seed=int(r.integers(2**31)), nz=int(r.choice([20, 60])), ntarg=ntarg, procs=procs, how=hows[k % 5], where='read' if k % 3 == 0 else 'data',
                          after=int([0, 0, 2, 6, 14, 30, 60][k % 7]), nvictims=1 if k % 4 else ntarg))
    nline = ctx.n(26, 240)
    for k in range(nline):
        r = ctx.rng('line', k)
        procs = int(r.integers(2, 5))
        # forks: procs for each scan of the two templates, then procs for each round of fits
        specs.append(dict(seed=int(r.integers(2**31)), nz=20, ntarg=int(r.integers(procs, 6)), procs=procs, how=['raise', 'valueerror', 'raise', 'kill', 'raise', 'linalg'][k % 6], where='line',
                          child=int(r.integers(1, 4 * procs + 1)), after=int(np.exp(r.uniform(0, np.log(4000)))), nvictims=0))
    for k in range(3):                                       # no fault at all
        specs.append(dict(seed=1000 + k, nz=20, ntarg=4, procs=3, how='none', where='none', after=0, nvictims=0))

    def go(a):
        return a[0], a[1], run_one(ctx, a[0], a[1])
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for k, spec, (hang, rc, res, left) in ex.map(go, list(enumerate(specs))):
            what = f'fault plan {spec}'
            ctx.case(spec)
            ctx.expect(not hang, 'hang', f'{what}: the run neither finishes nor fails (process tree motionless, {len(left)} workers left)')
            if hang:
                continue
            if spec['how'] == 'none':
                ctx.expect(rc == 0 and res is not None, 'no-fault', f'run without fault failed ({rc})')
                continue
            if rc == 0:
                ctx.count('fault_not_reached_or_survived' + ('_line' if spec['where'] == 'line' else ''))
                ok = res is not None
                if ok:
                    ref = None
                    rng = np.random.default_rng(spec['seed'])
                    T = [synth.template(rng, 'GALAXY', '', 2, redshifts=np.linspace(0., .3, spec['nz'])), synth.template(rng, 'STAR', 'M', 2, redshifts=np.linspace(-.002, .002, 9), igm='None')]
                    sc = synth.scene(rng, T, spec['ntarg'], masked_target=False, nexp=(1, 2))
                    _, zf = synth.run_serial(sc, T)
                    ok = res['ids'] == [int(x) for x in zf['targetid']] and np.allclose(res['z'], zf['z'], rtol=0, atol=1e-9)
                ctx.expect(ok, 'silent-loss', f'{what}: exit status 0 but the result is missing, incomplete or different')
            else:
                ctx.count('failed_cleanly' + ('_line' if spec['where'] == 'line' else ''))
    ctx.floor('failed_cleanly', 7)
    ctx.floor('failed_cleanly_line', 12)
