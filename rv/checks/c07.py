"""C07 redshift priors: added once, to the named targets, with the documented shape."""
import os
import numpy as np
from rv import synth, compare, files


def prior_values(func, z, z0, s0):
    if func == 'gaussian':
        return ((z - z0) / s0)**2
    if func == 'lorentzien':
        return 2 * np.log1p(((z - z0) / s0)**2)


def run(ctx):
    from redrock.priors import Priors
    ctx.rule = ('one case = one pipeline run with a prior file (function, subset of targets, worker count); scan and refined redshifts are '
                'compared with the prior-free run of the same targets plus the prior evaluated long-hand')
    C = 299792.458
    for k in range(ctx.n(18, 150)):
        r = ctx.rng(k)
        func = ['gaussian', 'lorentzien', 'tophat'][k % 3]
        T = [synth.template(r, 'GALAXY', '', 3, redshifts=10**np.linspace(0.0, np.log10(1.5), 60) - 1),
             synth.template(r, 'QSO', '', 2, redshifts=10**np.linspace(np.log10(1.2), np.log10(3.0), 60) - 1, method='NMF')]
        star = func != 'tophat' and r.random() < .5
        if star:
            T.append(synth.template(r, 'STAR', 'K', 2, redshifts=np.linspace(-.002, .002, 17), igm='None'))
        sc = synth.scene(r, T, 4, nexp=(1, 2), snr=(1, 8), masked_target=False)
        named = sorted(int(x) for x in r.permutation(4)[:int(r.integers(1, 4))])
        z0 = {sc[i]['id']: float(r.uniform(0.24, 0.46)) for i in named}      # covered by both templates
        if star:                                             # redshifts of stars are negative as often as positive
            z0 = {t: float(r.uniform(-.0018, .0018)) if r.random() < .5 else v for t, v in z0.items()}
            ctx.count('negative_prior_redshifts', sum(v < 0 for v in z0.values()))
        s0 = {t: float(10**r.uniform(-4.5, -1.3)) if func != 'tophat' else float(r.uniform(.05, .2)) for t in z0}
        ids = list(z0)
        free = sorted({o['id'] + d for o in sc for d in (-2, -1, 1, 2)} - {o['id'] for o in sc})
        extra = [int(r.integers(1, 2**40))] + [free[int(i)] for i in r.permutation(len(free))[:3]]     # neighbours of real targets
        allid = ids + extra
        perm = r.permutation(len(allid))
        fn = files.write_priors(os.path.join(ctx.sub('p'), f'prior{k}.fits'), [allid[i] for i in perm],
                                [z0.get(allid[i], 0.3) for i in perm], [s0.get(allid[i], 0.1) for i in perm], func)
        nmin = int(r.integers(1, 4))
        procs = 1 + int(r.integers(2))
        what = f'{func} prior on {len(ids)}/4 targets, nminima={nmin}, mp_procs={procs}'
        ctx.case(dict(k=k, func=func, named=len(ids), nminima=nmin, procs=procs, sigma=list(s0.values())))
        base = ctx.call('zfind', synth.run_serial, sc, T, nminima=nmin)
        got = ctx.call(f'zfind-{func}', synth.run_serial, sc, T, mp_procs=procs, nminima=nmin, priors=fn)
        rb, rg = compare.rows_by_target(base[1]), compare.rows_by_target(got[1])
        for o in sc:
            t = o['id']
            w = f'{what}: target {t}'
            if t not in z0:
                compare.compare_scan(ctx, 'other-target-scan', w + ' (no prior)', got[0][t], base[0][t])
                compare.compare_target(ctx, 'other-target', w + ' (no prior)', rg.get(t, []), rb[t])
                ctx.count('unnamed_targets')
                continue
            ctx.count('named_targets')
            for tm in T:
                ft, z = tm.full_type, tm.redshifts
                s, b = got[0][t][ft], base[0][t][ft]
                ctx.expect(compare.close(s['penalty'], b['penalty'], 1e-9, 1e-9) and compare.close(s['redshifts'], z, 0, 0), 'penalty-touched', f'{w}: prior changed penalty/redshifts of {ft}')
                if func != 'tophat':
                    pv = prior_values(func, z, z0[t], s0[t])
                    ctx.expect(compare.close(s['zchi2'], b['zchi2'] + pv, 1e-8, 1e-7), 'prior-value', f'{w}: chi2 of {ft} changed by something else than the {func} prior (max dev {np.nanmax(np.abs(s["zchi2"] - b["zchi2"] - pv)):.4g})')
                    eff = b['zchi2'] + b['penalty'] + pv
                else:
                    inside = np.abs(z - z0[t]) < s0[t] / 2
                    near = np.convolve(inside.astype(int), [1, 1, 1], 'same') > 0
                    strict = inside.copy()
                    if inside.any():
                        if inside[0]:
                            strict[0] = False
                        if inside[-1]:
                            strict[-1] = False
                    ctx.expect(compare.close(s['zchi2'][strict], b['zchi2'][strict], 1e-12, 0), 'tophat-inside', f'{w}: chi2 of {ft} changed inside the tophat')
                    ctx.expect(not np.any(np.isfinite(s['zchi2'][~inside])), 'tophat-outside', f'{w}: {ft} keeps finite chi2 outside the tophat')
                    eff = np.where(strict, b['zchi2'] + b['penalty'], np.inf)
                rows = [x for x in rg.get(t, []) if x['spectype'] == tm.template_type]
                if func == 'tophat':
                    for x in rows:
                        j = np.where(near)[0]
                        ctx.expect(len(j) and z[j[0]] - 1e-9 <= x['z'] <= z[j[-1]] + 1e-9, 'tophat-escape', f'{w}: {ft} redshift {x["z"]:.5f} outside the prior window {z0[t]:.4f}+-{s0[t]/2:.4f}')
                        ctx.count('tophat_redshifts')
                if np.isfinite(eff).any() and nmin == 1:
                    if not ctx.expect(len(rows) == 1, 'no-row', f'{w}: {len(rows)} rows for {ft}'):
                        continue
                    i = int(np.nanargmin(eff))
                    lo, hi = z[max(0, i - 1)], z[min(len(z) - 1, i + 1)]
                    ctx.expect(lo - 1e-9 <= rows[0]['z'] <= hi + 1e-9, 'prior-minimum', f'{w}: {ft} redshift {rows[0]["z"]:.5f} not next to the minimum of chi2+prior at {z[i]:.5f}')
                    ctx.count('argmin_checked')
                    j = int(np.argmin(b['zchi2'] + b['penalty']))
                    ctx.count('prior_moved_minimum', abs(i - j) > 1)
        # evaluation object itself
        P = ctx.call('Priors', Priors, fn)
        for t in ids[:2]:
            zz = np.sort(r.uniform(0, 1, 30))
            v = P.eval(t, zz)
            if func != 'tophat':
                ctx.expect(np.allclose(v, prior_values(func, zz, z0[t], s0[t]), rtol=1e-9, atol=1e-12), 'eval', f'{func}.eval is not the documented function')
            held = np.array(v, copy=True)
            for zz in (np.sort(r.uniform(0, 1, 30)), synth.warp(r, zz)):
                v2 = P.eval(t, zz)
                if func != 'tophat':
                    ctx.expect(np.allclose(v2, prior_values(func, zz, z0[t], s0[t]), rtol=1e-9, atol=1e-12), 'eval-again', f'{func}.eval of other redshifts is not the documented function')
                else:
                    ctx.expect(not np.any(np.isfinite(np.asarray(v2)[np.abs(zz - z0[t]) > s0[t] / 2])), 'eval-again', 'tophat.eval of other redshifts is finite outside the window')
            ctx.expect(np.array_equal(held, v, equal_nan=True), 'eval-changed', 'a later evaluation changed the array returned earlier')
        u = P.eval(2**41 + k, np.linspace(0, 1, 5))
        ctx.expect(np.all(np.asarray(u) == 0), 'eval-missing', 'a target without prior gets a non-zero prior')
    # a tophat that overlaps no template grid of one target must not take the other targets down
    r = ctx.rng('nooverlap')
    T = [synth.template(r, 'GALAXY', '', 2, redshifts=10**np.linspace(0.0, np.log10(1.4), 30) - 1)]
    sc = synth.scene(r, T, 3, masked_target=False)
    fn = files.write_priors(os.path.join(ctx.sub('p'), 'far.fits'), [sc[0]['id'], sc[1]['id']], [5.0, 0.2], [0.1, 0.2], 'tophat')
    ctx.case('tophat outside every template grid')
    ok, got = ctx.attempt('tophat-no-overlap', synth.run_serial, sc, T, priors=fn)
    if ok:
        ctx.expect({o['id'] for o in sc[1:]} <= set(compare.rows_by_target(got[1])), 'tophat-no-overlap', 'targets lost because another target has a prior outside every template')
    ctx.floor('named_targets', 15)
    ctx.floor('negative_prior_redshifts', 2)
    ctx.floor('unnamed_targets', 10)
    ctx.floor('argmin_checked', 6)
    ctx.floor('prior_moved_minimum', 2)
