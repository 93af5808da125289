"""C17 work distribution: exact partition, deterministic, balanced within one work unit."""
import contextlib, io, itertools, os
import numpy as np
from rv import synth


def optimum_small(weights, caps):
    best = None
    for asg in itertools.product(range(len(caps)), repeat=len(weights)):
        load = [0.] * len(caps)
        for w, p in zip(weights, asg):
            load[p] += w
        m = max(l / c for l, c in zip(load, caps))
        best = m if best is None else min(best, m)
    return best


def run(ctx):
    from redrock.utils import distribute_work
    from redrock.targets import distribute_targets, DistTargetsCopy, Target
    ctx.rule = ('one case = one (ids, weights, capacities, processes) tuple: partition, determinism, single-move load bound, and for small cases '
                'the makespan against the exhaustive optimum (4/3 list-scheduling bound for equal capacities); distinct = tuples')
    for k in range(ctx.n(1500, 15000)):
        r = ctx.rng(k)
        nproc = int(r.integers(1, 9))
        n = int(r.choice([0, 1, 2, 5, 7, 20, 60]))
        kind = int(r.integers(4))
        ids = {0: list(range(n)), 1: [int(x) for x in r.choice(2**50, n, replace=False)], 2: [f't{i}' for i in range(n)], 3: [np.int64(x) for x in r.choice(2**40, n, replace=False)]}[kind]
        w = None if r.random() < .25 else {i: int(r.choice([1, 1, 2, 3, 5, 12, 40])) for i in ids}
        if w is not None and r.random() < .3:
            w = {i: float(r.uniform(.1, 9)) for i in ids}
        caps = None if r.random() < .5 else [float(x) for x in r.choice([1, 1, 2, 5, 30], nproc)]
        ctx.case(dict(k=k, n=n, nproc=nproc, kind=kind, weighted=w is not None, caps=caps))
        i0, w0 = list(ids), None if w is None else dict(w)
        c0 = None if caps is None else list(caps)
        kw = {}
        if w is not None:
            kw['weights'] = w
        if caps is not None:
            kw['capacities'] = caps
        d = ctx.call('distribute_work', distribute_work, nproc, ids, **kw)
        ctx.expect(ids == i0 and w == w0 and caps == c0, 'inputs-changed', 'distribute_work modified its arguments')
        ctx.expect(len(d) == nproc, 'nproc', f'{len(d)} lists for {nproc} processes')
        flat = [x for p in d for x in p]
        ctx.expect(len(flat) == n and sorted(flat, key=str) == sorted(ids, key=str), 'partition', f'{len(flat)} assignments ({len(set(flat))} distinct) for {n} work units')
        d2 = distribute_work(nproc, list(ids), **kw)
        ctx.expect(d == d2, 'nondeterministic', 'two calls with the same arguments give different distributions')
        ww = w or {i: 1 for i in ids}
        cc = caps or [1.] * nproc
        load = [sum(ww[x] for x in p) for p in d]
        # greedy placement: no single unit of the most loaded process would finish earlier elsewhere
        top = max(range(nproc), key=lambda p: load[p] / cc[p])
        for q in range(nproc):
            if q != top and d[top]:
                small = min(ww[x] for x in d[top])
                ctx.expect(load[top] / cc[top] <= (load[q] + small) / cc[q] + 1e-9, 'imbalance',
                           f'process {top} (load {load[top]:.4g}, capacity {cc[top]}) keeps a unit of weight {small:.4g} that would finish earlier on process {q} (load {load[q]:.4g}, capacity {cc[q]})')
                ctx.count('moves_checked')
        if n and n <= 6 and nproc <= 3:
            best = optimum_small([ww[i] for i in ids], cc)
            m = max(l / c for l, c in zip(load, cc))
            lim = 4. / 3. if caps is None else 2.
            ctx.expect(m <= lim * best + 1e-9, 'makespan', f'makespan {m:.4g} above {lim:.3g} x optimum {best:.4g}')
            ctx.count('optimum_compared')
    # targets are weighted by their number of spectra, and every layer agrees on the assignment
    for k in range(ctx.n(40, 300)):
        r = ctx.rng('t', k)
        n, nproc = int(r.integers(1, 15)), int(r.integers(1, 6))
        wave = np.linspace(4000, 4100, 5)
        tg = []
        for i in range(n):
            sp = synth.to_spectrum(synth.raw_spectrum(r, wave, 'b', 3))
            tg.append(Target(int(r.integers(1, 2**45)), [sp] * int(r.integers(1, 7))))
        d = ctx.call('distribute_targets', distribute_targets, tg, nproc)
        ns = {t.id: len(t.spectra) for t in tg}
        ctx.case(dict(kind='targets', n=n, nproc=nproc), key=('t', k))
        ctx.expect(sorted(x for p in d for x in p) == sorted(ns), 'target-partition', 'targets lost or duplicated by distribute_targets')
        load = [sum(ns[x] for x in p) for p in d]
        top = int(np.argmax(load))
        for q in range(nproc):
            if q != top and d[top]:
                ctx.expect(load[top] <= load[q] + min(ns[x] for x in d[top]), 'target-imbalance', f'spectra per process {load} can be improved by moving one target')
        dt = DistTargetsCopy(tg)
        ctx.expect(list(dt.local_target_ids()) == [t.id for t in dt.local()] and sorted(dt.all_target_ids) == sorted(ns), 'local-ids', 'local target IDs do not match the local targets one by one')
        ctx.count('target_layouts')
    # number of worker processes
    from unittest import mock
    from redrock.utils import get_mp
    env = {k: v for k, v in os.environ.items() if k not in ('NERSC_HOST', 'SLURM_JOB_NAME')}
    for cores in (1, 2, 3, 4, 8, 64, 128):
        for host in ({}, dict(NERSC_HOST='perlmutter'), dict(NERSC_HOST='perlmutter', SLURM_JOB_NAME='x'), dict(SLURM_JOB_NAME='x')):
            for req in (0, 1, 2, 3, 4, 5, 7, 8, 9, 63, 64, 65, 200):
                with mock.patch('multiprocessing.cpu_count', lambda: cores), mock.patch('os.cpu_count', lambda: cores), mock.patch.dict(os.environ, dict(env, **host), clear=True), contextlib.redirect_stdout(io.StringIO()):
                    got = ctx.call('get_mp', get_mp, req)
                want = min(req, cores) if req else max(1, cores // 2)
                if set(host) == {'NERSC_HOST'}:
                    want = min(want, 4)
                ctx.case(dict(kind='processes', cores=cores, requested=req, **host), key=('mp', cores, req, str(host)))
                ctx.expect(got == want, 'processes', f'{got} processes for {req} requested on {cores} cores with {host}, documented {want}')
                ctx.count('process_counts')
    ctx.floor('process_counts', 300)
    ctx.floor('optimum_compared', 100)
    ctx.floor('moves_checked', 1000)
