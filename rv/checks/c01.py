"""C01 target isolation: a target's results depend on that target's data only."""
import numpy as np
from rv import synth, compare


def run(ctx):
    ctx.rule = ('one case = one batch (subset/permutation of a scene with 1-4 spectra sets per target, worker count) run through '
                'scan+fit+table; every row of every target is compared with that target run alone')
    rng = ctx.rng('scene')
    T = synth.template_set(rng, small=True)
    nt = ctx.n(8, 20)
    ids = [int(x) for x in rng.choice(2**50, nt, replace=False)]
    ids[0], ids[1], ids[2] = 39632960000000000, 7, 2**31 + 5
    sc = synth.scene(rng, T, nt - 1, nexp=(1, 4), ids=ids, neg=.3)
    # one entirely masked target, and duplicates of the data of another target under a new ID
    dead = synth.scene(rng, T, 1, nexp=(2, 2), ids=[ids[-1]], masked_target=False)[0]
    for r in dead['raws']:
        r['ivar'][:] = 0
    sc.append(dead)
    meta = lambda o: {'MYID': o['id'] % 100003, 'NSPEC': len(o['raws']), 'NSPEC_datatype': 'int32', 'RA': o['id'] % 7 / 3., 'FIELD': f'F{o["id"] % 11}'}
    alone = {}
    for i, o in enumerate(sc):
        scan, zf = ctx.call('zfind-single-target', synth.run_serial, [o], T, meta=meta)
        alone[o['id']] = (scan[o['id']], compare.rows_by_target(zf)[o['id']])
        ctx.count('single_target_runs')
    ncase = ctx.n(12, 60)
    for k in range(ncase):
        r = ctx.rng('case', k)
        n = int(r.integers(2, nt + 1))
        order = [int(x) for x in r.permutation(nt)[:n]]
        procs = [1, 1, 2, 3, 5][int(r.integers(5))]
        tord = [int(x) for x in r.permutation(len(T))]
        pool = [sc[i] for i in order]
        if k % 2:                                        # the same values in other memory layouts
            pool = [dict(o, raws=[dict(q, layout=[x for x in synth.LAYOUTS if r.random() < .4]) for q in o['raws']]) for o in pool]
            ctx.count('targets_in_other_memory_layouts', len(pool))
        what = f'batch of {n} targets, mp_procs={procs}'
        ctx.case(dict(order=order, mp_procs=procs, template_order=tord, nspectra=[len(o['raws']) for o in pool]))
        scan, zf = ctx.call('zfind-batch', synth.run_serial, pool, [T[i] for i in tord], mp_procs=procs, meta=meta)
        rows = compare.rows_by_target(zf)
        ctx.expect(set(rows) == {o['id'] for o in pool} and set(scan) == {o['id'] for o in pool}, 'target-set',
                   f'{what}: results for {len(rows)} targets, scan for {len(scan)} of {n}')
        for o in pool:
            if o['id'] not in rows:
                continue
            ctx.count('targets_compared')
            w = f'{what}: target {o["id"]}'
            compare.compare_scan(ctx, 'scan-depends-on-others', w, scan[o['id']], alone[o['id']][0])
            compare.compare_target(ctx, 'result-depends-on-others', w, rows[o['id']], alone[o['id']][1],
                                   skip=('subtype', 'spectype') if not any(np.any(q['ivar'] > 0) for q in o['raws']) else ())   # all chi2 tie without data
            for row in rows[o['id']]:
                ctx.expect(row['MYID'] == o['id'] % 100003 and row['NSPEC'] == len(o['raws']) and row['RA'] == o['id'] % 7 / 3. and row['FIELD'] == f'F{o["id"] % 11}', 'meta-crossed', f'{w}: metadata of another target')
    # targets without band names: wavelength grids are told apart by their values
    for k in range(ctx.n(4, 24)):
        r = ctx.rng('grids', k)
        n = int(r.integers(40, 70))
        lo, hi = r.uniform(4200, 4600), r.uniform(6800, 9000)
        lin, log = np.linspace(lo, hi, n), np.geomspace(lo, hi, n)
        log[0], log[-1] = lo, hi
        d = lin[1] - lin[0]
        grids = [lin, log, lo + d * np.arange(n + 3), lo + d * np.arange(-3, n), lo + 1.2 * d * np.arange(int(n / 1.25)), np.linspace(lo, hi, n + 1), np.linspace(lo, hi * .98, n),
                 np.linspace(lo * 1.01, hi, n), lin]
        ndiag = [5] * 8 + [3]
        sc2 = []
        for i in r.permutation(len(grids))[:6]:
            t = T[int(r.integers(len(T)))]
            # one or two grids per target, some resolution bandwidths differ on the same grid
            j = int(r.integers(len(grids)))
            raws = [synth.raw_spectrum(r, grids[i], ndiag=ndiag[i])] + ([synth.raw_spectrum(r, grids[j], ndiag=ndiag[j])] if r.random() < .5 and j != i else [])
            synth.fill(r, raws, t, r.uniform(t.redshifts[1], t.redshifts[-2]), synth.random_coeff(r, t), snr=25)
            sc2.append(dict(id=int(1000 * k + i + 1), raws=raws))
        ctx.case(dict(kind='grids', k=k, lens=[[len(q['wave']) for q in o['raws']] for o in sc2]))
        scan, zf = ctx.call('zfind-grids', synth.run_serial, sc2, T, mp_procs=[1, 2][k % 2])
        rows = compare.rows_by_target(zf)
        for o in sc2:
            s1, z1 = ctx.call('zfind-grid-alone', synth.run_serial, [o], T)
            ctx.count('mixed_grid_targets')
            w = f'batch of targets on different wavelength grids without band names: target {o["id"]}'
            compare.compare_scan(ctx, 'scan-depends-on-others', w, scan[o['id']], s1[o['id']])
            if ctx.expect(o['id'] in rows, 'target-set', f'{w}: no result'):
                compare.compare_target(ctx, 'result-depends-on-others', w, rows[o['id']], compare.rows_by_target(z1)[o['id']])
    # best-fit models of a batch are those of each target's own row
    r = ctx.rng('models')
    from redrock.targets import DistTargetsCopy
    pool = [sc[i] for i in r.permutation(nt)]
    dt = DistTargetsCopy(synth.build_targets(pool))
    scan, zf = synth.run_serial(pool, T)
    best = zf[zf['znum'] == 0]
    best = best[r.permutation(len(best))]
    bf = best.copy()
    for c in list(bf.colnames):
        bf.rename_column(c, c.upper())
    tdict = {(t.template_type, t.sub_type): t for t in T}
    models = ctx.call('eval_models', dt.eval_models, bf, tdict)
    ctx.expect(len(models) == len(pool), 'model-count', 'eval_models: one entry per local target')
    for tg, m in zip(dt.local(), models):
        o = [x for x in sc if x['id'] == tg.id][0]
        row = bf[bf['TARGETID'] == tg.id][0]
        ctx.count('models_compared')
        if np.all(row['COEFF'] == 0):
            ctx.expect(all(np.all(v == 0) for v in m.values()), 'model-of-masked', 'model of a masked target is not zero')
            continue
        t = tdict[(row['SPECTYPE'], row['SUBTYPE'])]
        for s in {s['band']: s for s in o['raws']}.values():       # models are keyed by wavelength grid
            D = synth.ref_design(t, row['Z'], [dict(wave=s['wave'], R=s['R'].toarray())])
            ref = D @ row['COEFF'][:t.nbasis]
            ctx.expect(compare.close(m[s['band']], ref, 1e-4, 1e-3 * np.abs(ref).max()), 'model-crossed', f'model of target {tg.id} band {s["band"]} is not its own best fit')
    ctx.case('eval_models')
    ctx.floor('targets_compared', 24)
