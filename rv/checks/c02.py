"""C02 parallel equivalence: MPI ranks / multiprocessing workers give the serial answer, exactly once, no deadlock."""
import contextlib, os, hashlib, json
import numpy as np
from unittest import mock
from rv import synth, compare, fakempi


def mpi_zfind(ctx, label, sc, T, size, seed, delay=0.0015, root_only=False, key='mpi', redistribute=False, nmeta=True, **kw):
    from redrock.targets import DistTargetsCopy
    from redrock.zfind import zfind
    from redrock.templates import DistTemplate
    meta = lambda o: {'MYID': o['id'] % 100003}

    def rank(comm):
        tg = synth.build_targets(sc, meta=meta) if (comm.rank == 0 or not root_only) else []
        dt = DistTargetsCopy(tg, comm=comm, root=0)
        mine = [t.id for t in dt.local()]
        ids = list(dt.local_target_ids())
        dts = [DistTemplate(t, dt.wavegrids(), comm=comm) for t in T]
        out = zfind(dt, dts, **kw)
        return mine, ids, out, [list(d.local.redshifts) for d in dts]
    res = fakempi.run(size, rank, seed=seed, delay=delay)
    ctx.count('mpi_runs')
    ctx.count('mpi_messages', res.nmsg)
    ctx.count('mpi_collectives', res.ncoll)
    ctx.keys_inter.add(hashlib.sha1(repr(res.trace).encode()).hexdigest())
    if res.errors:
        from rv.core import from_repo
        e = res.errors[min(res.errors)]
        if from_repo(e) is None:
            raise e
    ctx.expect(res.deadlock is None, f'{key}-deadlock', f'{label}: all ranks blocked: {res.deadlock}')
    ctx.expect(res.mismatch is None, f'{key}-mismatch', f'{label}: {res.mismatch}')
    ctx.expect(not res.errors, f'{key}-raised', f'{label}: {res.describe()[-700:]}')
    if not res.ok:
        return None
    ctx.expect(res.leftover == 0, f'{key}-leftover', f'{label}: {res.leftover} messages were never received')
    # exactly-once assignment
    flat = [t for r in range(size) for t in res.values[r][0]]
    ctx.expect(sorted(flat) == sorted(o['id'] for o in sc), f'{key}-assignment', f'{label}: local targets of the ranks are {sorted(flat)}')
    for r in range(size):
        ctx.expect(res.values[r][0] == res.values[r][1], f'{key}-idorder', f'{label}: rank {r} local_target_ids differ from local data order')
        if r:
            ctx.expect(res.values[r][2] == (None, None), f'{key}-nonroot', f'{label}: rank {r} returned results')
    return res.values[0][2]


def check_equal(ctx, key, what, sc, ref, got):
    scan, zf = got
    rscan, rzf = ref
    rows, rrows = compare.rows_by_target(zf), compare.rows_by_target(rzf)
    ctx.expect(list(dict.fromkeys(int(t) for t in zf['targetid'])) == list(dict.fromkeys(int(t) for t in rzf['targetid'])), key + '-order',
               f'{what}: targets of the table {list(rows)} are not those of the serial run {list(rrows)}')
    for o in sc:
        t = o['id']
        if not ctx.expect(t in rows and t in scan, key + '-lost', f'{what}: target {t} has no result'):
            continue
        compare.compare_scan(ctx, key + '-scan', f'{what}: target {t}', scan[t], rscan[t])
        compare.compare_target(ctx, key + '-fit', f'{what}: target {t}', rows[t], rrows[t])
        for r in rows[t]:
            if 'MYID' in r.colnames:
                ctx.expect(r['MYID'] == t % 100003, key + '-meta', f'{what}: metadata of another target at {t}')
        ctx.count('targets_compared')


def run(ctx):
    ctx.keys_inter = set()
    ctx.rule = ('one case = one execution of scan+fit+gather under a worker/rank layout with seeded message and worker delays; '
                'the serial run of the same input is the oracle; distinct = layouts')
    rng = ctx.rng('scene')
    T = synth.template_set(rng, small=True)
    meta = lambda o: {'MYID': o['id'] % 100003}
    scenes = []
    for k in range(ctx.n(2, 6)):
        r = ctx.rng('scene', k)
        sc = synth.scene(r, T, int(r.integers(5, 8)), nexp=(1, 3), neg=.5)
        few = r.permutation(len(sc))[:2 + k % 2]                  # not every target was observed with every camera
        for i in few:
            use = [str(b) for b in r.permutation(sorted({q['band'] for q in sc[i]['raws']}))[:int(r.integers(1, 3))]]
            sc[i]['raws'] = [q for q in sc[i]['raws'] if q['band'] in use]
        o = sc[few[0]]                                            # one of them has the most spectra, and comes first
        o['raws'] = [q for _ in range(6) for q in synth.copy_raws(o['raws'])]
        ctx.count('targets_lacking_cameras', len(few))
        scenes.append((sc, ctx.call('zfind-serial', synth.run_serial, sc, T, meta=meta)))
        ctx.count('penalized_redshifts', sum(np.sum(np.asarray(v['penalty']) > 0) for t in scenes[-1][0] for v in [scenes[-1][1][0][t['id']]['GALAXY']]))

    # --- multiprocessing, with workers slowed down by random amounts
    import redrock.zscan, redrock.zfind
    real = getattr(redrock.zscan, "calc_zchi2", None)
    realf = getattr(redrock.zfind, "fitz", None)

    def slow(fn, seed):
        import time
        def f(*a, **k):
            r = np.random.default_rng((seed, os.getpid()))
            time.sleep(r.random() * 0.05)
            return fn(*a, **k)
        return f
    for k in range(ctx.n(10, 60)):
        r = ctx.rng('mp', k)
        sc, ref = scenes[int(r.integers(len(scenes)))]
        procs = int(r.integers(2, 13))
        sub = sc[:int(r.integers(1, len(sc) + 1))] if r.random() < .5 else sc
        if sub is not sc:
            ids = {o['id'] for o in sub}
            ref = ({t: v for t, v in ref[0].items() if t in ids}, ref[1][[int(t) in ids for t in ref[1]['targetid']]])
        ctx.case(dict(mode='multiprocessing', procs=procs, targets=len(sub), nspectra=[len(o['raws']) for o in sub]), key=('mp', procs, len(sub), k))
        with contextlib.ExitStack() as st:
            for mod, name, fn in ((redrock.zscan, 'calc_zchi2', real), (redrock.zfind, 'fitz', realf)):
                if fn is not None:
                    st.enter_context(mock.patch.object(mod, name, slow(fn, k)))
                    ctx.count('delayed_workers')
            got = ctx.call('zfind-multiprocessing', synth.run_serial, sub, T, mp_procs=procs, meta=meta)
        ctx.count('mp_runs')
        check_equal(ctx, 'mp', f'mp_procs={procs}', sub, ref, got)

    # --- MPI layouts
    for k in range(ctx.n(12, 80)):
        r = ctx.rng('mpi', k)
        sc, ref = scenes[int(r.integers(len(scenes)))]
        size = [1, 2, 3, 4, 5, 8, 2, 3, 12, 6, 1, 13][k % 12]
        ro = bool(r.integers(2))
        ctx.case(dict(mode='mpi', ranks=size, root_only=ro, targets=len(sc)), key=('mpi', size, k))
        got = mpi_zfind(ctx, f'MPI with {size} ranks', sc, T, size, seed=k, root_only=ro)
        if got is not None:
            check_equal(ctx, 'mpi', f'MPI with {size} ranks', sc, ref, got)

    # --- more ranks than redshifts of a template
    r = ctx.rng('few-z')
    tiny = synth.template(r, 'STAR', 'F', 2, redshifts=np.linspace(-0.001, 0.001, 5), igm='None')
    sc = synth.scene(r, [tiny], 2, nexp=(1, 2), masked_target=False)
    ref = ctx.call('zfind-serial', synth.run_serial, sc, [tiny], meta=meta)
    for size in ctx.n((5, 7), (2, 3, 4, 5, 6, 7, 11)):
        ctx.case(dict(mode='mpi', ranks=size, redshifts=5))
        got = mpi_zfind(ctx, f'MPI with {size} ranks, 5 redshifts', sc, [tiny], size, seed=size, key='mpi-fewz')
        if got is not None:
            check_equal(ctx, 'mpi-fewz', f'MPI with {size} ranks, 5 redshifts', sc, ref, got)

    # --- hundreds of targets
    for k in range(ctx.n(1, 4)):
        r = ctx.rng('crowd', k)
        T1 = [synth.template(r, 'STAR', 'B', 1, redshifts=np.linspace(-.001, .001, 7), igm='None'), synth.template(r, 'GALAXY', '', 2, redshifts=np.linspace(.1, .12, 8))]
        sc = synth.scene(r, T1, [270, 530, 1030, 300][k], nexp=(1, 2), grid={b: np.linspace(*synth.BANDS[b], 14) for b in 'br'})
        ref = ctx.call('zfind-crowd', synth.run_serial, sc, T1, meta=meta)
        ctx.expect(set(compare.rows_by_target(ref[1])) == {o['id'] for o in sc} == set(ref[0]), 'crowd', f'{len(sc)} targets in one process: results for {len(compare.rows_by_target(ref[1]))} of them')
        for o in [sc[int(i)] for i in r.choice(len(sc), 25, replace=False)] + [sc[0], sc[-1], sc[255], sc[256]]:
            s1, z1 = ctx.call('zfind-crowd-alone', synth.run_serial, [o], T1, meta=meta)
            compare.compare_scan(ctx, 'crowd-scan', f'one of {len(sc)} targets: {o["id"]}', ref[0][o['id']], s1[o['id']])
            compare.compare_target(ctx, 'crowd-fit', f'one of {len(sc)} targets: {o["id"]}', compare.rows_by_target(ref[1])[o['id']], compare.rows_by_target(z1)[o['id']],
                                   skip=('subtype', 'spectype') if not any(np.any(q['ivar'] > 0) for q in o['raws']) else ())
        for procs in (2, 5):
            ctx.case(dict(mode='multiprocessing', procs=procs, targets=len(sc)))
            check_equal(ctx, 'mp-crowd', f'mp_procs={procs} with {len(sc)} targets', sc, ref, ctx.call('zfind-crowd', synth.run_serial, sc, T1, mp_procs=procs, meta=meta))
        for size in (2, 4)[k % 2:]:
            ctx.case(dict(mode='mpi', ranks=size, targets=len(sc)))
            got = mpi_zfind(ctx, f'MPI with {size} ranks and {len(sc)} targets', sc, T1, size, seed=size, key='mpi-crowd')
            if got is not None:
                check_equal(ctx, 'mpi-crowd', f'MPI with {size} ranks and {len(sc)} targets', sc, ref, got)
        ctx.count('crowd_targets', len(sc))

    # --- priors and saved chi2 scans under every layout
    from redrock.results import write_zscan
    from rv import files
    sc, ref = scenes[0]
    d = ctx.sub('scan')
    scanfile = os.path.join(d, 'scan.h5')
    write_zscan(scanfile, ref[0], ref[1])
    pr = files.write_priors(os.path.join(d, 'prior.fits'), [o['id'] for o in sc][:-1], [o['z'] + 0.01 for o in sc][:-1], [0.02] * (len(sc) - 1), 'gaussian')
    refp = ctx.call('zfind-serial-priors', synth.run_serial, sc, T, meta=meta, priors=pr)
    rets = dict(scan=dict(chi2_scan=scanfile), prior=dict(priors=pr))
    for name, kw in rets.items():
        want = ref if name == 'scan' else refp
        for procs in (1, 3):
            ctx.case(dict(mode='multiprocessing', procs=procs, option=name))
            got = ctx.call(f'zfind-{name}', synth.run_serial, sc, T, mp_procs=procs, meta=meta, **kw)
            check_equal(ctx, f'mp-{name}', f'mp_procs={procs} with {name}', sc, want, got)
        for size in (2, 3):
            ctx.case(dict(mode='mpi', ranks=size, option=name))
            got = mpi_zfind(ctx, f'MPI with {size} ranks and {name}', sc, T, size, seed=size, key=f'mpi-{name}', **kw)
            if got is not None:
                check_equal(ctx, f'mpi-{name}', f'MPI with {size} ranks and {name}', sc, want, got)

    # --- the options of the fit (number of minima and points, archetypes with Legendre terms, nearest ones and a prior) under every layout
    from redrock.archetypes import All_archetypes
    for k in range(ctx.n(3, 24)):
        r = ctx.rng('fitoptions', k)
        sc, _ = scenes[k % len(scenes)]
        which = [('GALAXY', 'QSO', 'STAR'), ('GALAXY',), ('QSO', 'GALAXY')][k % 3]
        d = ctx.sub(f'arch{k}')
        for st in which:
            t = [x for x in T if x.template_type == st][0]
            w = 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave))
            fl = np.array([np.interp(w, t.wave, np.abs(synth.random_coeff(r, t) @ t.flux)) for _ in range(5)])
            files.write_archetype(os.path.join(d, f'rrarchetype-{st.lower()}.fits'), st, w, fl + .05 * fl.mean(axis=1)[:, None], ['A', 'B', 'C', 'D', 'E'])
        arch = ctx.call('All_archetypes', All_archetypes, archetypes_dir=d).archetypes
        kw = dict(archetypes=arch, nminima=int(r.integers(1, 5)), zminfit_npoints=int(r.choice([7, 11, 21])), per_camera=k % 2 == 0, deg_legendre=int(r.integers(1, 4)),
                  n_nearest=[2, None, 3, 1][(k + k // 4) % 4], prior_sigma=[.1, .02, None][(k + k // 3) % 3], ncamera=3)
        what = ', '.join(f'{n}={v}' for n, v in kw.items() if n != 'archetypes') + f', archetypes for {which}'
        want = ctx.call('zfind-serial-options', synth.run_serial, sc, T, meta=meta, **kw)
        ctx.count('archetype_rows', sum(str(m) == 'ARCH' for m in want[1]['fitmethod']))
        for procs in ctx.n((3,), (2, 3, 9)):
            ctx.case(dict(mode='multiprocessing', procs=procs, option=what))
            got = ctx.call('zfind-options', synth.run_serial, sc, T, mp_procs=procs, meta=meta, **kw)
            check_equal(ctx, 'mp-options', f'mp_procs={procs} with {what}', sc, want, got)
        for size in ctx.n((2 + k,), (2, 3, 9)):
            ctx.case(dict(mode='mpi', ranks=size, option=what))
            got = mpi_zfind(ctx, f'MPI with {size} ranks and {what}', sc, T, size, seed=size, key='mpi-options', **kw)
            if got is not None:
                check_equal(ctx, 'mpi-options', f'MPI with {size} ranks and {what}', sc, want, got)

    batched_gather(ctx)
    ctx.obs['distinct_interleavings'] = len(ctx.keys_inter)
    ctx.floor('mp_runs', 8)
    ctx.floor('archetype_rows', 10)
    ctx.floor('penalized_redshifts', 20)
    ctx.floor('mpi_runs', 14)
    ctx.floor('distinct_interleavings', 10)
    ctx.floor('crowd_targets', 250)


def batched_gather(ctx):
    """results are sent to rank 0 in batches when a rank holds many targets: nothing lost, nothing twice"""
    import redrock.zfind
    from redrock.targets import DistTargets, Target
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    r = ctx.rng('batch')
    wave = np.linspace(4000., 4400., 12)
    tmpl = synth.template(r, 'STAR', 'B', 1, redshifts=np.linspace(-0.001, 0.001, 4), igm='None', wave=synth.rest_grid(-.001, .001, 3950, 4450, 2e-3))
    raw = synth.raw_spectrum(r, wave, band='b')

    class Explicit(DistTargets):
        def __init__(self, ids, mine, comm):
            self._ids = mine
            sp = synth.to_spectrum(dict(raw, flux=np.ones(12)))
            self._data = [Target(i, [sp], meta={'MYID': i * 3}) for i in mine]
            super().__init__(ids, comm=comm)

        def _local_target_ids(self):
            return self._ids

        def _local_data(self):
            return self._data

    # cheap stand-ins for the two numerical stages: only the transport is under observation here
    def scan_stub(*a, **kw):
        targets = [x for x in list(a) + list(kw.values()) if isinstance(x, DistTargets)][0]
        z = tmpl.redshifts
        return {t: {tmpl.full_type: dict(redshifts=z, zchi2=np.full(len(z), float(t)), penalty=np.zeros(len(z)), zcoeff=np.ones((len(z), 1)))}
                for t in targets.local_target_ids()}

    def fit_stub(*a, **kw):
        a = list(a) + list(kw.values())
        target = [x for x in a if isinstance(x, Target)][0]
        zchi2 = kw['zchi2'] if 'zchi2' in kw else a[0]
        one = np.ones((1, 1))
        return dict(z=one * target.id * 1e-7, zerr=one, zwarn=np.zeros((1, 1), int), chi2=one * zchi2[0], zz=np.ones((1, 3)), zzchi2=np.ones((1, 3)),
                    coeff=one * target.id, fitmethod=np.array([['PCA']]), npixels=np.full((1, 1), 12))

    if not hasattr(redrock.zfind, 'calc_zchi2_targets') or not hasattr(redrock.zfind, 'fitz'):
        ctx.count('batched_gather_unavailable')
        return
    layouts = ctx.n([(3, 5000, 2), (2, 5001)], [(3, 5000, 2), (2, 5001), (1, 4999), (2, 10000), (7, 10001, 5000)])
    for lay in [(2, 1)] + layouts:
        ids = list(range(1, sum(lay) + 1))
        cut = np.cumsum((0,) + lay)
        parts = [ids[a:b] for a, b in zip(cut[:-1], cut[1:])]
        small = len(ids) <= 3
        if not small:
            ctx.case(dict(mode='mpi-batched', layout=lay))

        def rank(comm):
            dt = Explicit(ids, parts[comm.rank], comm)
            return zfind(dt, [DistTemplate(tmpl, {'b': wave}, comm=comm)])
        with mock.patch.object(redrock.zfind, 'calc_zchi2_targets', scan_stub), mock.patch.object(redrock.zfind, 'fitz', fit_stub):
            res = fakempi.run(len(lay), rank, seed=1)
        if small:                                    # do the stand-ins fit this version of the code at all?
            if not res.ok:
                ctx.count('batched_gather_unavailable')
                return
            continue
        ctx.count('mpi_runs')
        what = f'gather with {lay} targets per rank'
        ctx.expect(res.ok, 'mpi-batch-' + ('deadlock' if res.deadlock else 'raised'), f'{what}: {res.describe()[-500:]}')
        if not res.ok:
            continue
        ctx.expect(res.leftover == 0, 'mpi-batch-leftover', f'{what}: {res.leftover} messages never received')
        scan, zf = res.values[0]
        got = np.asarray(zf['targetid'])
        ctx.expect(len(got) == len(ids) and np.array_equal(got, ids) and len(scan) == len(ids), 'mpi-batch-lost', f'{what}: {len(got)} rows, {len(np.unique(got))} distinct, scan {len(scan)}')
        if len(got) == len(ids):
            ctx.expect(np.array_equal(np.asarray(zf['chi2']), np.asarray(ids, float)) and np.array_equal(np.asarray(zf['MYID']), np.asarray(ids) * 3)
                       and np.allclose(np.asarray(zf['z']), np.asarray(ids) * 1e-7), 'mpi-batch-crossed', f'{what}: rows carry results of other targets')
        ctx.count('batched_rows', len(got))
