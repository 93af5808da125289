"""C22 wrap-redrock runs every unfinished spectra file once, with a command that produces the outputs it waits for."""
import os, sys, io, json, types, argparse, threading, importlib.machinery, importlib.util, contextlib, subprocess
import numpy as np
from unittest import mock
from astropy.io import fits
from rv import fakempi, files, rrd, synth
from rv.core import REPO

SCRIPT = os.path.join(REPO, 'bin', 'wrap-redrock')
STUB = r'''#!/bin/sh
# records its arguments (one file per launch) and leaves the outputs it was asked for
f=$(mktemp "$RV_LOG/call-XXXXXXXX")
{ echo "$(basename "$0")"; for a in "$@"; do printf '%s\n' "$a"; done; } > "$f.part"
prev=""
base=""
for a in "$@"; do
  case "$a" in *.fits) [ -z "$base" ] && base=$(basename "$a");; esac
done
n=0
if [ -e "$RV_FAIL/$base" ]; then n=$(cat "$RV_FAIL/$base"); fi
if [ "$n" -gt 0 ]; then echo $((n-1)) > "$RV_FAIL/$base"; mv "$f.part" "$f.call"; rm "$f"; [ $((n%2)) = 0 ] || kill -9 $$; exit 3; fi
for a in "$@"; do
  case "$prev" in -o|--outfile|--output|-d|--details|--zbest) : > "$a";; esac
  prev="$a"
done
mv "$f.part" "$f.call"; rm "$f"
exit 0
'''


def load():
    ld = importlib.machinery.SourceFileLoader('rv_wrap_redrock', SCRIPT)
    spec = importlib.util.spec_from_loader('rv_wrap_redrock', ld)
    m = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    ld.exec_module(m)
    return m


class P(argparse.ArgumentParser):
    def error(self, msg):
        raise ValueError(msg)


def parsers():
    a = P(allow_abbrev=False)
    a.add_argument('-i', '--infiles', nargs='+', required=True)
    a.add_argument('-o', '--outfile')
    a.add_argument('-d', '--details')
    b = P(allow_abbrev=False)
    b.add_argument('--spplate', nargs='*', required=True)
    b.add_argument('--zbest')
    b.add_argument('-o', '--output')
    for p in (a, b):
        p.add_argument('--archetypes')
        p.add_argument('--nminima', type=int)
        p.add_argument('--mp', type=int)
    return dict(rrdesi=a, rrboss=b)


def tree(r, d, dtype, prefix):
    """a reduction directory; {spectra file: True if it must be found}"""
    os.makedirs(d)
    out = {}
    for i in range(int(r.integers(1, 9)) if r.random() < .9 else int(r.integers(11, 18))):
        pix = int(r.integers(1, 99999))
        sub = os.path.join(d, *{0: [], 1: [str(pix // 100)], 2: ['main', 'dark', str(pix // 100)]}[int(r.integers(3))], str(pix))
        os.makedirs(sub, exist_ok=True)
        fn = os.path.join(sub, f'{prefix}-{["", "", "main-dark-", f"v{pix % 7}.", "sv1.bright-"][int(r.integers(5))]}{pix}.fits')
        if dtype == 'desi':
            n = int(r.integers(1, 40)) if r.random() < .85 else int(r.integers(2000, 9000))
            t = np.array([(int(x),) for x in r.integers(1, n + 1, n)], dtype=[('TARGETID', 'i8')])
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(t, name='FIBERMAP')]).writeto(fn, overwrite=True)
        else:
            open(fn, 'w').close()
        out[fn] = True
        for name in r.choice([f'coadd-{pix}.fits', f'{prefix}-{pix}.fits.tmp', f'{prefix}-{pix}.txt', f'x{prefix}-{pix}.fits', f'cframe-{pix}.fits'], 2, replace=False):
            open(os.path.join(sub, name), 'w').close()
    if dtype == 'boss' and r.random() < .5:
        sub = os.path.join(d, 'spectra', 'lite', '77')
        os.makedirs(sub)
        open(os.path.join(sub, f'{prefix}-77.fits'), 'w').close()
    if dtype == 'boss' and r.random() < .5:             # a directory of that name elsewhere holds data like any other
        sub = os.path.join(d, 'v5_13', 'spectra', '78')
        os.makedirs(sub)
        open(os.path.join(sub, f'{prefix}-78.fits'), 'w').close()
        out[os.path.join(sub, f'{prefix}-78.fits')] = True
    if r.random() < .4:
        other = d + '-linked'
        os.makedirs(os.path.join(other, '88'))
        fn = os.path.join(other, '88', f'{prefix}-88.fits')
        if dtype == 'desi':
            t = np.array([(1,)], dtype=[('TARGETID', 'i8')])
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(t, name='FIBERMAP')]).writeto(fn)
        else:
            open(fn, 'w').close()
        os.symlink(other, os.path.join(d, 'link'))
        out[os.path.join(d, 'link', '88', f'{prefix}-88.fits')] = True
    os.makedirs(os.path.join(d, 'empty'), exist_ok=True)
    return sorted(out)


def expected(fn, prefix, outdir):
    base = os.path.basename(fn)
    o = outdir or os.path.dirname(fn)
    return (os.path.join(o, base.replace(prefix, 'redrock')), os.path.join(o, base.replace(prefix, 'rrdetails').replace('.fits', '.h5')))


def run(ctx):
    ctx.rule = ('one case = one reduction tree with finished, half-finished and failing files, run repeatedly by wrap-redrock on 1-4 ranks with a recording stand-in for rrdesi/rrboss; '
                'oracle: the set of launches, their arguments and the outputs')
    M = load()
    bind = ctx.sub('bin')
    for n in ('rrdesi', 'rrboss'):
        with open(os.path.join(bind, n), 'w') as f:
            f.write(STUB)
        os.chmod(os.path.join(bind, n), 0o755)
    tls = threading.local()

    class MPI:
        @property
        def COMM_WORLD(self):
            return tls.comm
    mp4 = types.ModuleType('mpi4py')
    mp4.MPI = MPI()

    class Clock:                                   # no real pauses between retries
        def __getattr__(self, n):
            import time
            return getattr(time, n) if n != 'sleep' else (lambda s: None)
    M.time = Clock()
    PA = parsers()

    def launch(d, argv, size, key):
        """run main() on `size` ranks; returns the recorded launches"""
        log = ctx.sub(f'log{key}')
        with mock.patch.dict(os.environ, dict(PATH=bind + os.pathsep + os.environ['PATH'], RV_LOG=log, RV_FAIL=os.path.join(d, 'fail'))), \
                mock.patch.object(sys, 'argv', ['wrap-redrock'] + argv):
            os.environ.pop('NERSC_HOST', None)
            if size == 0:
                ok, e = ctx.attempt('wrap-redrock', M.main)
                if not ok:
                    return None
            else:
                with mock.patch.dict(sys.modules, {'mpi4py': mp4}):
                    def body(comm):
                        tls.comm = comm
                        M.main()
                    res = fakempi.run(size, body)
                if not ctx.expect(res.ok, 'mpi', f'wrap-redrock {argv[2:]} on {size} ranks: {res.describe()}'):
                    return None
        out = []
        for f in sorted(os.listdir(log)):
            out.append(open(os.path.join(log, f)).read().split('\n')[:-1])
            os.remove(os.path.join(log, f))
        return out

    for k in range(ctx.n(40, 400)):
        r = ctx.rng('tree', k)
        d = ctx.sub(f't{k}')
        dtype = ['desi', 'desi', 'boss'][k % 3]
        prefix = {'desi': str(r.choice(['spectra', 'coadded'])), 'boss': 'spPlate'}[dtype]
        red = os.path.join(d, 'redux')
        found = tree(r, red, dtype, prefix)
        os.makedirs(os.path.join(d, 'fail'))
        outdir = os.path.join(d, 'out') if r.random() < .5 else None
        if outdir:
            seen, keep = set(), []
            for f in found:                         # one output name per input
                if os.path.basename(f) in seen:
                    os.remove(f)
                else:
                    keep.append(f)
                seen.add(os.path.basename(f))
            found = keep
            os.makedirs(outdir)
        state = {}
        for f in found:
            z, h = expected(f, prefix, outdir)
            s = ['none', 'none', 'both', 'zbest', 'details'][int(r.integers(5))]
            if s in ('both', 'zbest'):
                open(z, 'w').close()
            if s in ('both', 'details'):
                open(h, 'w').close()
            state[f] = s
            if r.random() < .25:
                with open(os.path.join(d, 'fail', os.path.basename(f)), 'w') as q:
                    q.write(str(int(r.integers(1, 4))))
        nmin, mp = int(r.integers(1, 6)), [None, 2, 5][int(r.integers(3))]
        arch = '/some/archetypes' if r.random() < .3 else None
        argv = ['--reduxdir', red, '--nminima', str(nmin), '--datatype', dtype]
        if prefix == 'coadded':
            argv += ['--prefix', prefix]
        if outdir:
            argv += ['--outdir', outdir]
        if mp:
            argv += ['--mp', str(mp)]
        if arch:
            argv += ['--archetypes', arch]
        size = int(r.integers(0, 5))
        if size and r.random() < .3:
            argv += ['--maxnodes', str(int(r.integers(1, 5)))]
        what = f'{dtype} tree {k} on {size or "no"} ranks, {len(found)} files, states {sorted(state.values())}, options {argv[2:]}'
        ctx.case(dict(k=k, datatype=dtype, files=len(found), ranks=size, states=sorted(state.values()), outdir=outdir is not None, mp=mp, arch=arch is not None))

        def unfinished():
            return [f for f in found if not all(os.path.exists(x) for x in expected(f, prefix, outdir))]

        def check_calls(calls, todo, fails, what):
            count = {}
            for c in calls:
                ctx.count('launches')
                try:
                    a = PA[c[0]].parse_args(c[1:])
                except (ValueError, SystemExit) as e:
                    ctx.expect(False, 'bad-command', f'{what}: {c[0]} does not accept the command {c[1:]}: {e}')
                    continue
                ctx.expect(c[0] == 'rr' + dtype, 'program', f'{what}: {c[0]} was started')
                src = a.infiles if dtype == 'desi' else a.spplate
                if not ctx.expect(len(src) == 1, 'inputs', f'{what}: started for {src}'):
                    continue
                f = src[0]
                count[f] = count.get(f, 0) + 1
                z, h = expected(f, prefix, outdir)
                got = (a.outfile, a.details) if dtype == 'desi' else (a.zbest, a.output)
                ctx.expect(got == (z, h), 'outputs', f'{what}: outputs {got} for {f} instead of {(z, h)}')
                ctx.expect(a.nminima == nmin and a.mp == mp and a.archetypes == arch, 'options', f'{what}: started with {c[1:]}')
            ctx.expect(set(count) <= set(todo), 'redone', f'{what}: finished or foreign files {sorted(set(count) - set(todo))} were processed')
            ctx.expect(set(todo) <= set(count), 'skipped', f'{what}: unfinished files {sorted(set(todo) - set(count))} were not processed')
            for f, n in count.items():
                want = min(2, fails.get(os.path.basename(f), 0) + 1)
                ctx.expect(n == want, 'times', f'{what}: {os.path.basename(f)} was started {n} times instead of {want}')

        def fails():
            return {f: int(open(os.path.join(d, 'fail', f)).read()) for f in os.listdir(os.path.join(d, 'fail'))}
        # a dry run starts nothing and leaves nothing
        before = sorted(os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs)
        c = launch(d, argv + ['--dryrun'], size, k)
        if c is None:
            continue
        ctx.expect(c == [] and before == sorted(os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs), 'dryrun', f'{what}: a dry run started {len(c)} commands or changed files')
        for rnd in range(4):
            todo, fl = unfinished(), fails()
            c = launch(d, argv, size, k)
            if c is None:
                break
            check_calls(c, todo, fl, f'{what}, round {rnd}')
            left = [f for f in todo if fl.get(os.path.basename(f), 0) < 2]
            ctx.expect(all(f not in unfinished() for f in left), 'missing-outputs', f'{what}, round {rnd}: outputs of processed files are missing')
            ctx.count('rounds')
            if not todo:
                ctx.count('rounds_with_nothing_to_do')
                break
        # logs of earlier attempts are kept
        # the job script of --plan asks for the same work
        if k % 2 == 0:
            for f in found:
                for x in expected(f, prefix, outdir):
                    if os.path.exists(x) and r.random() < .6:
                        os.remove(x)
            for f in os.listdir(os.path.join(d, 'fail')):
                os.remove(os.path.join(d, 'fail', f))
            todo = unfinished()
            if not todo:
                continue
            buf = io.StringIO()
            env = {q: v for q, v in os.environ.items() if q != 'NERSC_HOST'}
            with mock.patch.dict(os.environ, env, clear=True), mock.patch.object(sys, 'argv', ['wrap-redrock'] + argv + ['--plan', '--nompi']), contextlib.redirect_stdout(buf):
                ok, _ = ctx.attempt('wrap-redrock-plan', M.main)
            if not ok:
                continue
            lines = buf.getvalue().split('\n')
            sr = [x for x in lines if x.startswith('srun')]
            nn = [x for x in lines if x.startswith('#SBATCH -N')]
            if not ctx.expect(len(sr) == 1 and len(nn) == 1 and 'wrap-redrock' in sr[0], 'plan-script', f'{what}: --plan printed no usable srun line'):
                continue
            # the time asked for covers the slowest node, longer if fewer processes are used than half the cores
            tl = [x.split()[-1].split(':') for x in lines if x.startswith('#SBATCH -t')]
            if ctx.expect(len(tl) == 1 and len(tl[0]) == 3 and all(q.isdigit() for q in tl[0]) and int(tl[0][1]) < 60 and int(tl[0][2]) < 60, 'plan-time', f'{what}: --plan asks for the time {tl}') and dtype == 'desi':
                asked = sum(int(q) * u for q, u in zip(tl[0], (3600, 60, 1)))
                single = [float(ctx.call('group_specfiles', M.group_specfiles, np.array([f]), 1)[2][0]) for f in todo]
                need = max(max(single), sum(single) / int(nn[0].split()[-1])) * (4 / mp if mp and mp < 4 else 1.)
                ctx.expect(asked >= int(need), 'plan-time', f'{what}: --plan asks for {asked} s on {nn[0].split()[-1]} nodes, the files need {[round(x) for x in single]} s and at least {need:.0f} s on the slowest node (--mp {mp})')
                ctx.count('planned_times')
            toks = sr[0].split()
            pos = [i for i, x in enumerate(toks) if x.endswith('wrap-redrock')][0]
            pargv = toks[pos + 1:]
            mp0 = mp
            if mp is None:
                mp = int(pargv[pargv.index('--mp') + 1]) if '--mp' in pargv else None
            c = launch(d, pargv, max(1, min(8, int(nn[0].split()[-1]))), k)
            if c is not None:
                check_calls(c, todo, {}, f'{what}, planned job {pargv}')
                ctx.count('planned_jobs')
            mp = mp0
    # ---- load balance: every rank computes the same grouping, each file once, no group keeps what would finish earlier elsewhere
    for k in range(ctx.n(20, 150)):
        r = ctx.rng('groups', k)
        d = ctx.sub(f'g{k}')
        nfile, size = int(r.integers(1, 12)), int(r.integers(1, 6))
        fns, nt = [], []
        for i in range(nfile):
            ids = r.choice(10**6, int(r.choice([1, 3, 40, 200, 900])), replace=False)
            t = np.zeros(len(ids) * int(r.choice([1, 1, 3, 12])), dtype=[('TARGETID', 'i8')])     # several exposures of one target are one target
            t['TARGETID'] = np.resize(ids, len(t))
            fns.append(os.path.join(d, f'spectra-{i}.fits'))
            nt.append(len(ids))
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(t, name='FIBERMAP')]).writeto(fns[-1], overwrite=True)
        nt = np.array(nt)
        fns = np.array(fns)
        if k % 3:
            res = fakempi.run(size, lambda comm: M.group_specfiles(fns, 256, comm=comm))
            if not ctx.expect(res.ok, 'mpi', f'group_specfiles on {size} ranks: {res.describe()}'):
                continue
            G = [res.values[i] for i in range(size)]
        else:
            maxn = int(r.integers(1, 4))
            G = [ctx.call('group_specfiles', M.group_specfiles, fns, maxn)]
            size = len(G[0][0])
            ctx.expect(1 <= size <= maxn, 'maxnodes', f'groups: {size} groups for at most {maxn} nodes')
        ctx.case(dict(kind='groups', k=k, files=nfile, groups=size, targets=nt.tolist()), key=('groups', k))
        groups, ntar, times = G[0]
        what = f'groups {k}: {nfile} files with {nt.tolist()} targets in {size} groups {[list(map(int, g)) for g in groups]}'
        ctx.expect(all([list(map(int, a)) for a in g[0]] == [list(map(int, a)) for a in groups] and np.array_equal(g[1], ntar) for g in G), 'groups-differ', f'{what}: ranks disagree')
        ctx.expect(len(groups) == size and sorted(int(i) for g in groups for i in g) == list(range(nfile)), 'groups-partition', f'{what}: not a partition of the files')
        ctx.expect([int(x) for x in ntar] == [int(nt[list(g)].sum()) if len(g) else 0 for g in groups], 'groups-targets', f'{what}: targets per group {list(ntar)}')
        ctx.expect(all(a <= b for i, a in enumerate(nt) for j, b in enumerate(nt) for g in groups if i in list(g) and j in list(g) and list(g).index(j) < list(g).index(i)), 'groups-order', f'{what}: not largest first')
        T = [float(x) for x in times]
        one = [float(ctx.call('group_specfiles', M.group_specfiles, fns[i:i + 1], 1)[2][0]) for i in range(nfile)]
        ctx.expect(all(a > 0 for a in one) and all(a < b for a, p in zip(one, nt) for b, q in zip(one, nt) if p < q), 'times', f'{what}: expected times {one} of the single files')
        ctx.expect(np.allclose(T, [sum(one[i] for i in g) for g in groups]), 'groups-times', f'{what}: expected times {T} are not the sums of those of the files {one}')
        top = int(np.argmax(T))
        if len(groups[top]):
            small = min(one[i] for i in groups[top])
            ctx.expect(all(T[top] <= T[q] + small + 1e-6 for q in range(size) if q != top), 'groups-imbalance', f'{what}: expected times {T} can be improved by moving one file')
        ctx.count('groupings')
    # ---- end to end with the real commands
    env = dict(os.environ, PATH=ctx.sub('realbin') + os.pathsep + os.environ['PATH'], PYTHONPATH=os.path.join(REPO, 'py') + os.pathsep + os.environ.get('PYTHONPATH', ''))
    env.pop('NERSC_HOST', None)
    for n in ('rrdesi', 'rrboss'):
        fn = os.path.join(ctx.scratch, 'realbin', n)
        with open(fn, 'w') as f:
            f.write(f'#!/bin/sh\nexec {sys.executable} {os.path.join(REPO, "bin", n)} "$@"\n')
        os.chmod(fn, 0o755)
    for k in range(ctx.n(1, 4)):
        r = ctx.rng('real', k)
        d = ctx.sub(f'real{k}')
        td = os.path.join(d, 'tmpl')
        os.makedirs(td)
        for st, lo, hi in (('GALAXY', 3500 / 2.75, 10000 / .99), ('QSO', 480., 9700.), ('STAR', 3480., 9990.)):
            w = 10**np.arange(np.log10(lo), np.log10(hi), 2e-3)
            t = synth.template(r, st, 'A' if st == 'STAR' else '', 2, wave=w, redshifts=np.array([0., .1]))
            files.write_template(os.path.join(td, f'rrtemplate-{st.lower()}.fits'), t, redshifts=False)
        ids, pix = [11, 12, 13], 500 + k
        sub = os.path.join(d, 'redux', '5', str(pix))
        os.makedirs(sub)
        rows = files.desi_rows(r, synth.bands((40, 34, 38)), ids, (1, 2))
        files.write_desi(os.path.join(sub, f'spectra-{pix}.fits'), r, rows, False)
        env['RR_TEMPLATE_DIR'] = td
        ctx.case(dict(kind='end-to-end', k=k))
        args = [sys.executable, SCRIPT, '--reduxdir', os.path.join(d, 'redux'), '--mp', '1', '--nompi', '--nminima', '2']
        p = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        z, h = expected(os.path.join(sub, f'spectra-{pix}.fits'), 'spectra', None)
        log = z.replace('.fits', '.log')
        tail = (open(log).read() if os.path.exists(log) else p.stdout)[-800:]
        if ctx.expect(p.returncode == 0 and os.path.exists(z) and os.path.exists(h), 'end-to-end', f'wrap-redrock with the real rrdesi did not produce its outputs: {tail}'):
            ctx.expect(sorted(fits.getdata(z, 'REDSHIFTS')['TARGETID']) == ids, 'end-to-end-rows', 'the catalog written through wrap-redrock lacks targets')
            ctx.count('end_to_end')
    ctx.floor('launches', 60)
    ctx.floor('rounds_with_nothing_to_do', 5)
    ctx.floor('planned_jobs', 5)
    ctx.floor('planned_times', 4)
    ctx.floor('end_to_end', 1)
    ctx.floor('groupings', 15)
