"""C03 the redshift scan is the weighted least-squares optimum at every grid redshift."""
import numpy as np
from rv import synth, igmref

HUGE = 9999999.0


def effective(raws):
    """what a spectrum set contributes according to the documented input semantics"""
    f, w, R, wave = [], [], [], []
    for s in raws:
        Rd = s['R'].toarray()
        iv = s['ivar'].copy()
        iv[Rd.sum(axis=1) < 0.99] = 0.
        f.append(s['flux'])
        w.append(iv)
        wave.append(s['wave'])
        R.append(Rd)
    return np.concatenate(f), np.concatenate(w), R, wave


def check_target(ctx, t, o, res, zi, what):
    f, w, R, wave = effective(o['raws'])
    spectra = [dict(wave=a, R=b) for a, b in zip(wave, R)]
    z = t.redshifts
    ctx.expect(np.array_equal(np.asarray(res['redshifts']), z) and res['zchi2'].shape == z.shape and res['penalty'].shape == z.shape
               and res['zcoeff'].shape == (len(z), t.nbasis), 'scan-shape', f'{what}: scan arrays do not follow the template redshift grid')
    if not np.any(w > 0):
        ctx.expect(np.all(res['zchi2'] == HUGE) and np.all(res['zcoeff'] == 0) and np.all(res['penalty'] == 0), 'nodata-scan',
                   f'{what}: a target without data must have chi2={HUGE} and zero coefficients everywhere')
        ctx.count('nodata_scans')
        return
    f0 = np.sum(w * f * f)
    isO2 = (t.wave >= 3724) & (t.wave <= 3733)
    ctx.expect(np.all(np.isfinite(res['zchi2'])) and np.all(res['zchi2'] >= 0), 'scan-finite', f'{what}: chi2 not finite/non-negative')
    # [OII] penalty at every redshift
    C = np.asarray(res['zcoeff'], float)
    if t.template_type == 'GALAXY' and t.method == 'PCA':
        o2 = (C @ t.flux[:, isO2]).sum(axis=1)
        pen = np.where(o2 < 0, -o2, 0.)
        scale = (np.abs(C) @ np.abs(t.flux[:, isO2])).sum(axis=1)
        d = np.abs(res['penalty'] - pen) - 1e-7 * np.abs(pen) - 1e-9 * scale - 1e-12
        j = int(np.argmax(d))
        ctx.expect(d[j] <= 0, 'oii-penalty', f'{what} z={z[j]:.5f}: penalty {res["penalty"][j]:.6g} instead of {pen[j]:.6g} for [OII] flux {o2[j]:.6g}')
        ctx.count('penalties_active', np.sum(pen > 0))
    else:
        ctx.expect(np.all(res['penalty'] == 0), 'penalty-applies', f'{what}: penalty for a template without [OII] prior')
    for i in zi:
        D = synth.ref_design(t, z[i], spectra)
        chi2, c = float(res['zchi2'][i]), np.asarray(res['zcoeff'][i], float)
        best, cbest = synth.ref_wls(D, f, w)
        tol = 1e-6 * best + 1e-9 * f0 + 1e-9
        sw = np.sqrt(w)
        sv = np.linalg.svd(sw[:, None] * D, compute_uv=False)
        # the solver works on the normal equations, so round-off in the coefficients grows with cond**2
        well = sv[-1] > 1e-5 * sv[0]
        if chi2 == HUGE:
            ctx.expect(not well, 'spurious-huge', f'{what} z={z[i]:.5f}: chi2={HUGE} for a solvable system')
            continue
        r = f - D @ c
        own = float(np.sum(w * r * r))
        # a (nearly) singular system can be answered with huge coefficients whose model terms cancel: the residual then
        # carries the round-off of those terms (nothing for a solvable system, whose terms are of the size of the data)
        e = 1e-9 * np.sqrt(float(np.sum(w * (np.abs(D) @ np.abs(c))**2)))
        tol += 2 * np.sqrt(max(own, chi2)) * e * (not well) + e * e
        ctx.expect(abs(own - chi2) <= 1e-6 * max(own, chi2) + tol, 'chi2-of-coeff', f'{what} z={z[i]:.5f}: chi2 {chi2:.8g} is not the weighted residual {own:.8g} of the returned coefficients')
        ctx.expect(chi2 >= best - tol, 'below-optimum', f'{what} z={z[i]:.5f}: chi2 {chi2:.8g} below the attainable minimum {best:.8g}')
        if t.method == 'PCA':
            if well:
                ctx.expect(chi2 <= best + tol, 'not-optimal', f'{what} z={z[i]:.5f}: chi2 {chi2:.8g} above the weighted least-squares minimum {best:.8g}')
                ctx.count('optima_checked')
        else:
            ctx.expect(np.all(c >= 0), 'negative-nmf', f'{what} z={z[i]:.5f}: negative coefficient in a non-negative fit {c}')
            if well and np.all(cbest >= 0):
                ctx.expect(chi2 <= best + tol, 'nmf-not-optimal', f'{what} z={z[i]:.5f}: chi2 {chi2:.8g} above the minimum {best:.8g}, whose coefficients are non-negative')
                ctx.count('nmf_interior')
            elif well:
                bn, cn = synth.ref_nnls(D, f, w)
                ctx.expect(chi2 <= bn + tol, 'nmf-not-nnls', f'{what} z={z[i]:.5f}: chi2 {chi2:.8g} above the minimum {bn:.8g} over non-negative coefficients')
                ctx.count('nmf_bound')
        ctx.count('chi2_checked')
        ctx.count('chi2_above_failed_fit', chi2 > HUGE)


def constrained(D, f, w, lo, hi, prior):
    """minimum of chi2 + c'Pc over the box lo <= c <= hi: every combination of free / lower / upper bound is solved exactly"""
    import itertools
    sw = np.sqrt(w)
    n = D.shape[1]
    A, b = sw[:, None] * D, sw * f
    if prior is not None:
        ev, V = np.linalg.eigh(prior)
        A = np.vstack([A, (np.sqrt(np.clip(ev, 0, None))[:, None] * V.T)])
        b = np.concatenate([b, np.zeros(n)])
    best, arg = np.inf, None
    for combo in itertools.product(*[[s for s, x in ((0, 0.), (-1, l), (1, h)) if np.isfinite(x)] for l, h in zip(lo, hi)]):
        c = np.array([0. if s == 0 else l if s < 0 else h for s, l, h in zip(combo, lo, hi)])
        free = [i for i, s in enumerate(combo) if s == 0]
        if free:
            c[free] = np.linalg.lstsq(A[:, free], b - A @ c, rcond=None)[0]
        if np.all(c >= lo - 1e-12) and np.all(c <= hi + 1e-12):
            v = float(np.sum((A @ c - b)**2))
            if v < best:
                best, arg = v, c
    return best, arg


def solvers(ctx):
    """every solver a template or an archetype can name, with and without bounds and prior"""
    from redrock.zscan import calc_zchi2_batch, spectral_data
    for k in range(ctx.n(60, 600)):
        r = ctx.rng('solver', k)
        nb, nz = int(r.integers(1, 5)), int(r.integers(1, 4))
        raws = [synth.raw_spectrum(r, np.linspace(4000, 4400, int(r.integers(8, 25))), b, 3) for b in 'br'[:int(r.integers(1, 3))]]
        td, wt = {}, {}
        scale = 10.**r.uniform(-1, 1, nb)
        truth = r.normal(size=nb) / scale
        for s in raws:
            n = len(s['wave'])
            s['wave'] = s['wave'] + r.uniform(0, 1)
            s['B'] = (r.normal(size=(nz, n, nb)) + .5) * scale
            s['ivar'] = np.where(r.random(n) < .2, 0, r.uniform(.2, 3, n))
            s['flux'] = s['R'] @ s['B'][0] @ truth + r.normal(size=n) * r.choice([.1, 1])
        S = [synth.to_spectrum(s) for s in raws]
        for s, q in zip(S, raws):
            td[s.wavehash] = q['B']
        w, f, wf = spectral_data(S)
        method = ['PCA', 'NMF', 'NNLS', 'BVLS', 'BVLS', 'bvls'][k % 6]
        lo, hi, kw = np.full(nb, -np.inf), np.full(nb, np.inf), {}
        if method in ('NMF', 'NNLS'):
            lo[:] = 0
        elif k % 6 == 4:
            lo, hi = -r.uniform(.1, 1, nb) / scale, r.uniform(.1, 1, nb) / scale
            for i in range(nb):
                u = r.random()
                lo[i] = -np.inf if u < .25 else 0 if u < .5 else lo[i]
                hi[i] = np.inf if r.random() < .3 else hi[i]
            kw['solver_args'] = dict(bounds=np.array([lo, hi]))
        prior = None
        if r.random() < .4:
            prior = np.diag(np.where(r.random(nb) < .3, 0, r.uniform(.1, 20, nb) * scale**2))
            kw['prior'] = prior
        chi2, coeff = ctx.call('calc_zchi2_batch', calc_zchi2_batch, S, td, w, f, wf, nz, nb, solve_matrices_algorithm=method, **kw)
        what = f'solver case {k} {method} nbasis={nb}' + (' bounded' if 'solver_args' in kw else '') + (' prior' if prior is not None else '')
        ctx.case(dict(kind='solver', k=k, method=method, bounded='solver_args' in kw, prior=prior is not None, nbasis=nb, nz=nz), key=('solver', k))
        for i in range(nz):
            D = np.vstack([s.R.toarray() @ q['B'][i] for s, q in zip(S, raws)])
            if not (np.linalg.svd(np.sqrt(w)[:, None] * D / scale, compute_uv=False)[-1] > 1e-3):
                continue
            c = np.asarray(coeff[i], float)
            own = float(np.sum(w * (f - D @ c)**2))
            ctx.expect(abs(own - chi2[i]) <= 1e-8 * own + 1e-8, 'solver-chi2', f'{what}: chi2 {chi2[i]:.8g} is not that of the coefficients {own:.8g}')
            ctx.expect(np.all(c >= lo - 1e-9 / scale) and np.all(c <= hi + 1e-9 / scale), 'solver-bounds', f'{what}: coefficients {c} outside [{lo}, {hi}]')
            obj = own + (float(c @ prior @ c) if prior is not None else 0)
            best, cb = constrained(D, f, w, lo, hi, prior)
            ctx.expect(obj <= best * (1 + 1e-6) + 1e-6, 'solver-not-optimal', f'{what}: objective {obj:.8g} at {c}, {best:.8g} attainable at {cb}')
            ctx.count('solver_optima')
            ctx.count('solver_on_bound', bool(np.any((cb == lo) | (cb == hi))))


def run(ctx):
    from redrock.targets import DistTargetsCopy
    from redrock.zscan import calc_zchi2_targets, calc_zchi2_one, spectral_data
    ctx.rule = ('one case = one target x template scan; sampled redshifts are compared with an SVD least-squares / NNLS solution on an '
                'independently built design matrix (exact bin integrals, dense resolution matrix, independent IGM); distinct = target x template')
    for k in range(ctx.n(5, 40)):
        r = ctx.rng(k)
        T = [synth.template(r, 'GALAXY', '', int(r.integers(1, 6)) if k % 3 != 1 else 10, redshifts=10**np.linspace(0.0, np.log10(r.uniform(1.2, 1.6)), int(r.integers(12, 40))) - 1),
             synth.template(r, 'QSO', r.choice(['', 'HIZ']), int(r.integers(2, 5)) if k % 3 != 2 else 8, redshifts=10**np.linspace(np.log10(1.6), np.log10(5.5), 25) - 1, method='NMF',
                            igm=['Inoue14', 'Calura12', 'Kamble20'][k % 3]),
             synth.template(r, 'QSO', 'PCA', 3, redshifts=10**np.linspace(np.log10(2.2), np.log10(4.5), 15) - 1, igm=['Kamble20', 'Inoue14', 'Calura12'][k % 3]),
             synth.template(r, 'STAR', 'K', 2, redshifts=np.linspace(-0.002, 0.002, 9), igm='None')]
        r2 = ctx.rng('bases', k)
        if k % 2 == 0:                                                 # as many redshifts as another template, but others
            T[2] = synth.template(r2, 'QSO', 'PCA', 3, redshifts=10**np.linspace(np.log10(2.2), np.log10(4.5), 25) - 1, igm=T[2].igm_model)
        if k % 5 in (0, 3):                                            # basis vectors of very different sizes
            T[1].flux *= (10.**r2.uniform(-2, 1, T[1].nbasis))[:, None]
            T[2].flux *= np.array([1, 10.**r2.uniform(-3, -2), 10.**r2.uniform(0, 1)])[:, None]
        elif k % 5 in (1, 4):                                          # basis vectors much like one another
            T[1].flux[1] = T[1].flux[0] * (1 + 10.**r2.uniform(-4, -2) * r2.uniform(.5, 1.5, len(T[1].wave)))
            T[2].flux[1] = T[2].flux[0] + 10.**r2.uniform(-4, -2) * T[2].flux[1]
        grid = synth.bands((int(r.integers(20, 60)), int(r.integers(20, 50)), int(r.integers(20, 50))))
        sc = synth.scene(r, T, 5, nexp=(1, 3), grid=grid, snr=(2, 60))
        # hostile variants
        for s in sc[0]['raws']:
            s['ivar'][:] = 0
        keep = r.permutation(len(sc[1]['raws'][0]['wave']))[:2]        # fewer valid pixels than some bases
        for j, s in enumerate(sc[1]['raws']):
            iv = s['ivar'].copy()
            s['ivar'][:] = 0
            if j == 0:
                s['ivar'][keep] = np.maximum(iv[keep], 1e-3)
        for s in sc[2]['raws']:                                        # truncated resolution rows
            s['R'] = synth.make_R(len(s['wave']), int(r.choice([3, 5, 7])), 0.9, r, norm='none')
            d = s['R'].toarray()
            d /= d[len(d) // 2].sum()
            s['R'] = synth.dense_to_dia(d, s['R'].offsets)
        for s in sc[3]['raws']:                                        # heavy masking with junk under the mask
            m = r.random(len(s['wave'])) < 0.6
            s['ivar'][m] = 0
            s['flux'][m] = r.normal(size=m.sum()) * 1e6
        if k % 2:                                                      # so bright that chi2 exceeds the value of failed fits
            for s in sc[4]['raws']:
                s['ivar'] *= 1e7
        tg = DistTargetsCopy(synth.build_targets(sc))
        dt = synth.dist_templates(T, tg)
        res = ctx.call('calc_zchi2_targets', calc_zchi2_targets, tg, dt, mp_procs=1 + k % 2)
        for o in sc:
            ctx.expect(set(res[o['id']]) == {t.full_type for t in T}, 'missing-template', f'scan of target {o["id"]} lacks a template')
            for t in T:
                n = len(t.redshifts)
                zi = sorted(set([0, n - 1] + [int(x) for x in r.integers(0, n, 5)]))
                ctx.case(dict(scene=k, target=o['id'], template=t.full_type, method=t.method, igm=t.igm_model, nbasis=t.nbasis, nspectra=len(o['raws'])))
                check_target(ctx, t, o, res[o['id']][t.full_type], zi, f'scene {k} {t.full_type}/{t.method}/{t.igm_model} nspec={len(o["raws"])}')
        # single-redshift entry point agrees with the batch
        t, d = T[0], dt[0]
        tgt = [x for x in tg.local() if x.id == sc[4]['id']][0]
        tgt.sharedmem_unpack()
        w, f, wf = spectral_data(tgt.spectra)
        for i in (0, len(t.redshifts) // 2):
            c2, cc = ctx.call('calc_zchi2_one', calc_zchi2_one, tgt.spectra, w, f, wf, {h: v[i] for h, v in d.local.data.items()}, t.solve_matrices_algorithm)
            ref = res[tgt.id][t.full_type]['zchi2'][i]
            ctx.expect(abs(c2 - ref) <= 1e-8 * max(ref, 1) + 1e-8 * np.sum(w * f * f), 'one-vs-batch', f'calc_zchi2_one {c2:.8g} differs from the batch scan {ref:.8g}')
    # sizes of real spectra and scans: thousands of pixels, more than a thousand redshifts, wide resolution
    for k in range(ctx.n(2, 8)):
        r = ctx.rng('large', k)
        nz = int(r.integers(1030, 1300)) if k % 2 == 0 else int(r.integers(515, 700))
        t = [synth.template(r, 'GALAXY', '', 3, redshifts=10**np.linspace(np.log10(1.02), np.log10(1.5), nz) - 1),
             synth.template(r, 'QSO', 'HIZ', 2, redshifts=10**np.linspace(np.log10(2.2), np.log10(4.2), nz) - 1, method='NMF', igm='Inoue14')][k % 2]
        n = [int(x) for x in (r.integers(150, 250, 3) if k % 2 == 0 else r.integers(1100, 2300, 2))]
        grid = {b: (np.linspace if (j + k) % 2 else np.geomspace)(*synth.BANDS[b], m) for j, (b, m) in enumerate(zip('brz' if k % 2 == 0 else 'bz', n))}
        raws = [synth.raw_spectrum(r, w, band=b, ndiag=[11, 17, 13][j]) for j, (b, w) in enumerate(grid.items())]
        z = float(r.uniform(t.redshifts[1], t.redshifts[-2]))
        synth.fill(r, raws, t, z, synth.random_coeff(r, t), snr=r.uniform(2, 20))
        for q in raws:
            q['ivar'][r.random(len(q['wave'])) < .05] = 0
        o = dict(id=int(k + 1), raws=raws, z=z, fulltype=t.full_type)
        tg = DistTargetsCopy(synth.build_targets([o]))
        res = ctx.call('calc_zchi2_targets', calc_zchi2_targets, tg, synth.dist_templates([t], tg), mp_procs=1)
        zi = sorted({0, nz - 1, int(np.abs(t.redshifts - z).argmin())} | {i for i in (255, 256, 511, 512, 1023, 1024) if i < nz} | {int(x) for x in r.integers(0, nz, 4)})
        ctx.case(dict(kind='large', redshifts=nz, pixels=n, template=t.full_type))
        check_target(ctx, t, o, res[o['id']][t.full_type], zi, f'large scene {k} ({nz} redshifts, {n} pixels)')
        ctx.count('large_scans')
    solvers(ctx)
    ctx.floor('large_scans', 2)
    ctx.floor('solver_optima', 80)
    ctx.floor('solver_on_bound', 20)
    ctx.floor('optima_checked', 100)
    ctx.floor('penalties_active', 5)
    ctx.floor('nmf_bound', 10)
    ctx.floor('nodata_scans', 4)
    ctx.floor('chi2_above_failed_fit', 5)
