"""Verdict discipline shared by every check.

Three verdicts: violated (exit 1 + VIOLATION line), held on what was observed (exit 0),
inconclusive / harness error (exit 2: never folded into the other two).
"""
import os, sys, json, time, hashlib, traceback, tempfile, shutil, re, atexit, threading
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
QUICK = dict(C01=4, C03=5, C04=15, C06=12, C07=3, C08=7, C09=4, C10=8, C12=2.5, C14=2.5, C15=1.7, C16=2.5, C17=20, C18=2.5, C20=2.5, C22=2.5, C23=4, C24=1.5, C26=3, C27=2.5)


class StopCheck(Exception):
    """enough violations were recorded"""


class Inconclusive(Exception):
    pass


def from_repo(exc):
    """deepest traceback frame below the harness lies in code reached through the repository"""
    for fr in traceback.extract_tb(exc.__traceback__):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(REPO + os.sep):
            return f'{os.path.basename(fn)}:{fr.name}'
    cause = exc.__cause__
    if cause is not None and cause is not exc:
        return from_repo(cause)
    return None


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {'shape': list(x.shape), 'head': jsonable(x.ravel()[:10].tolist())}
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, bytes):
        return x.decode('latin1')
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)[:300]


class Ctx:
    def __init__(self, pid, level='exploration'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.obs = {}
        self.floors = {}
        self.rule = ''
        self.assumptions = []
        self.viol = []
        self.known_hit = {}
        self.max_viol = 4
        self.scratch = tempfile.mkdtemp(prefix=f'rv-{pid}-')
        self._pid = os.getpid()
        atexit.register(self._cleanup)
        self.known = self._load_known()

    def _cleanup(self):
        if os.getpid() == self._pid:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _load_known(self):
        out = {}
        fn = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(fn):
            for line in open(fn):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3).strip()
        return out

    # ---- workload bookkeeping
    def rng(self, *names):
        h = hashlib.sha256(repr((self.pid, SEED) + names).encode()).digest()
        return np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))

    def n(self, quick, thorough):
        # the quick tier of a cheap check takes a larger part of the thorough workload (about 20 s each on an idle machine)
        return thorough if THOROUGH else quick if not isinstance(quick, int) or thorough < quick else min(thorough, int(round(quick * QUICK.get(self.pid, 1))))

    def case(self, desc, key=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            k = key if key is not None else desc
            self.keys.add(hashlib.sha1(json.dumps(jsonable(k), sort_keys=True, default=repr).encode()).hexdigest())
        if len(self.samples) < 6 or (len(self.samples) < 12 and self.evaluations % 37 == 0):
            self.samples.append(jsonable(desc))

    def count(self, name, n=1):
        self.obs[name] = self.obs.get(name, 0) + int(n)

    def floor(self, name, n):
        """the run is inconclusive unless at least n `name` events were observed"""
        self.floors[name] = n

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ---- verdicts
    def violation(self, key, what, **detail):
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.viol.append(dict(key=key, what=what, detail=jsonable(detail)))
        if len(self.viol) >= self.max_viol:
            raise StopCheck()

    def expect(self, cond, key, what, **detail):
        self.count('oracle_decisions')
        if not cond:
            self.violation(key, what, **detail)
        return bool(cond)

    def need(self, obj, names, what):
        """The columns of a table (or the HDUs of a file) that an output must have; the case ends here without them."""
        have = obj.colnames if hasattr(obj, 'colnames') else [h.name for h in obj]
        gone = [n for n in names if n not in have]
        if gone:
            self.violation('missing-output', f'{what}: no {gone} among {have}')
            raise CaseFailed()

    def call(self, label, fn, *a, **kw):
        """Run repository code that must succeed on this (valid) input."""
        ok, r = self.attempt(label, fn, *a, **kw)
        if not ok:
            raise CaseFailed()
        return r

    def attempt(self, label, fn, *a, **kw):
        try:
            return True, fn(*a, **kw)
        except (StopCheck, Inconclusive, CaseFailed):
            raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            site = from_repo(e)
            if site is None and not isinstance(e, SystemExit):
                raise
            self.violation(f'raised-{label}-{type(e).__name__}', f'{label}: valid input raised {type(e).__name__}: {str(e)[:200]} at {site}',
                           traceback=''.join(traceback.format_exception(e))[-1800:])
            return False, e

    def finish(self):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.keys), rule=self.rule,
                   samples=self.samples[:12] or ['none'], observed=self.obs)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.known_hit:
            cov['known_findings_hit'] = self.known_hit
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(jsonable(ev), f, indent=1)


class CaseFailed(Exception):
    """a repository call failed on a valid input; the violation is already recorded"""


_real_out = None


def say(msg):
    os.write(_real_out if _real_out is not None else 1, (msg + '\n').encode())


def mute():
    """send everything the repository prints to /dev/null; keep a private fd for verdicts"""
    global _real_out
    sys.stdout.flush()
    _real_out = os.dup(1)
    os.set_inheritable(_real_out, False)
    dn = os.open(os.environ.get("RV_STDOUT", os.devnull), os.O_WRONLY | os.O_CREAT)
    os.dup2(dn, 1)
    if not os.environ.get('RV_STDERR'):
        os.dup2(dn, 2)
    os.close(dn)


def kill_children():
    import multiprocessing as mp
    for c in mp.active_children():
        try:
            c.kill()
        except Exception:
            pass


def report_violations(ctx):
    rd = os.path.join(VERIF, 'replays')
    os.makedirs(rd, exist_ok=True)
    fn = os.path.join(rd, f'{ctx.pid}-seed{SEED}-{TIER}.json')
    with open(fn, 'w') as f:
        json.dump(dict(property=ctx.pid, seed=SEED, tier=TIER, replay=f'VERIF_SEED={SEED} ./check.sh {ctx.pid} {TIER}', violations=ctx.viol), f, indent=1)
    for v in ctx.viol:
        say(f'  {v["key"]}: {v["what"]}')
    say(f'VIOLATION property={ctx.pid} replay={fn}')


def hang_guard(ctx, poll=1.0, need=12):
    """Logical (not wall-clock) hang detector for the multiprocessing paths.

    The main thread sits in a multiprocessing queue/pipe read or a join reached through the repository
    while no child process is alive any more: nobody is left who could ever satisfy it.
    """
    import multiprocessing.process as mpp
    main_id = threading.main_thread().ident
    bad = 0
    while True:
        time.sleep(poll)
        fr = sys._current_frames().get(main_id)
        names, inrepo = [], None
        while fr is not None:
            fn = fr.f_code.co_filename
            names.append(fn)
            if inrepo is None and os.path.realpath(fn).startswith(REPO + os.sep):
                inrepo = f'{os.path.basename(fn)}:{fr.f_code.co_name}:{fr.f_lineno}'
            fr = fr.f_back
        inmp = any('multiprocessing' in n for n in names[:6])
        alive = 0
        for c in list(mpp._children):
            try:
                with open(f'/proc/{c.pid}/stat') as f:
                    if f.read().rsplit(')', 1)[1].split()[0] != 'Z':
                        alive += 1
            except OSError:
                pass
        bad = bad + 1 if (inrepo and inmp and not alive) else 0
        if bad >= need:
            ctx.viol.append(dict(key='parent-waits-for-dead-workers', what=f'parent process blocks forever at {inrepo}: every worker process has exited', detail={}))
            ctx.evaluations = max(ctx.evaluations, 1)
            ctx.finish()
            report_violations(ctx)
            shutil.rmtree(ctx.scratch, ignore_errors=True)
            os._exit(1)


def main(pid, run):
    import warnings
    warnings.simplefilter('ignore')
    mute()
    ctx = Ctx(pid)
    rc = 0
    err = None
    deadline = float(os.environ.get('RV_WATCHDOG', '3300' if THOROUGH else '840'))

    def bark():
        say(f'INCONCLUSIVE property={pid} wall-clock watchdog after {deadline:.0f}s')
        if os.environ.get('RV_STDERR'):
            import faulthandler
            faulthandler.dump_traceback()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        kill_children()
        os._exit(2)
    t = threading.Timer(deadline, bark)
    t.daemon = True
    t.start()
    threading.Thread(target=hang_guard, args=(ctx,), daemon=True).start()
    try:
        run(ctx)
    except StopCheck:
        pass
    except CaseFailed:
        pass
    except Inconclusive as e:
        err = f'inconclusive: {e}'
    except BaseException as e:
        site = from_repo(e)
        tb = ''.join(traceback.format_exception(e))
        if site is not None:
            try:
                ctx.violation(f'raised-{type(e).__name__}', f'valid input raised {type(e).__name__}: {str(e)[:200]} at {site}', traceback=tb[-1800:])
            except StopCheck:
                pass
        else:
            err = 'harness error: ' + tb
    if not ctx.viol and err is None:
        for k, n in ctx.floors.items():
            if ctx.obs.get(k, 0) < n:
                err = f'inconclusive: only {ctx.obs.get(k, 0)} {k} observed, need {n}'
        if ctx.evaluations == 0:
            err = 'inconclusive: nothing evaluated'
    ctx.finish()
    for k, n in sorted(ctx.known_hit.items()):
        say(f'KNOWN-FINDING: property={pid} {ctx.known[k]}')
    if ctx.viol:
        report_violations(ctx)
        rc = 1
    elif err is not None:
        say(f'ERROR property={pid} {err}')
        rc = 2
    else:
        say(f'OK property={pid} tier={TIER} seed={SEED} evaluations={ctx.evaluations} distinct={len(ctx.keys)} wall={time.time()-ctx.t0:.1f}s observed={json.dumps(ctx.obs)}')
    ctx._cleanup()
    kill_children()
    os._exit(rc)
