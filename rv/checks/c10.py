"""C10 the coadd of several spectra is the inverse-variance weighted combination of data and resolution."""
import numpy as np
from rv import synth


def ref_coadd(raws):
    f = np.array([r['flux'] for r in raws])
    w = np.array([r['ivar'] for r in raws]).copy()
    Rd = [r['R'].toarray() for r in raws]
    for i in range(len(raws)):
        w[i][Rd[i].sum(axis=1) < 0.99] = 0
    tot = w.sum(axis=0)
    bad = tot == 0
    flux = np.where(bad, f.mean(axis=0), (w * f).sum(axis=0) / np.where(bad, 1, tot))
    R = sum(wi[:, None] * Ri for wi, Ri in zip(w, Rd)) / np.where(bad, 1, tot)[:, None]
    return flux, tot, R, bad


def group(raws):
    out = {}
    for r in raws:
        out.setdefault(r['band'] if r['band'] is not None else len(r['wave']), []).append(r)
    return list(out.values())


def check(ctx, what, spec, raws, ivar_expected=None):
    flux, ivar, R, bad = ref_coadd(raws)
    n = len(flux)
    s = np.abs(flux).max() + 1e-300
    ctx.expect(len(spec.wave) == n and np.array_equal(spec.wave, raws[0]['wave']), 'wave', f'{what}: wavelength grid changed')
    ctx.expect(np.allclose(spec.ivar, ivar, rtol=1e-9, atol=0), 'ivar', f'{what}: inverse variances do not add up (max relative deviation {np.max(np.abs(spec.ivar - ivar) / (ivar + 1e-300)):.3g})')
    ctx.expect(np.allclose(spec.flux, flux, rtol=1e-9, atol=1e-11 * s), 'flux', f'{what}: coadded flux is not the weighted mean (max dev {np.abs(spec.flux - flux).max():.3g})')
    Rc = spec.R.toarray()
    ctx.expect(np.allclose(Rc[~bad], R[~bad], rtol=1e-8, atol=1e-10), 'resolution', f'{what}: coadded resolution is not the per-pixel weighted mean (max dev {np.abs(Rc - R)[~bad].max() if (~bad).any() else 0:.3g})')
    ctx.expect(np.allclose(spec.Rcsr.toarray()[~bad], R[~bad], rtol=1e-8, atol=1e-10), 'resolution-csr', f'{what}: CSR resolution differs from the diagonal one')
    ctx.count('coadded_pixels', n)
    ctx.count('fully_masked_pixels', bad.sum())
    ctx.count('partially_masked_pixels', np.sum(np.any([r['ivar'] == 0 for r in raws], axis=0) & ~bad))


def run(ctx):
    ctx.rule = ('one case = one target with several exposures per band (random ivar, masks, resolutions), coadded by the constructor or the method; '
                'flux, ivar and resolution compared with the weighted combination, cosmic-ray and metamorphic workloads on top; distinct = targets')
    for k in range(ctx.n(220, 2500)):
        r = ctx.rng(k)
        names = [str(b) for b in r.permutation(['b', 'r', 'z'])[:int(r.integers(1, 4))]]
        nexp = int(r.integers(1, 6))
        if k % 11 == 7:                                           # many exposures
            nexp = int(r.integers(11, 26))
            ctx.count('many_exposures')
        grids = {b: (np.geomspace if k % 3 == 1 else np.linspace)(*synth.BANDS[b], int(r.integers(12, 40))) for b in names}
        if k % 7 == 3:                                            # the size of a real camera
            grids[names[0]] = np.linspace(*synth.BANDS[names[0]], int(r.integers(520, 1100)))
        if k % 5 == 4:                                            # no band names: grids are told apart by their wavelengths
            grids = {b: np.linspace(*synth.BANDS[b], 12 + 7 * i) for i, b in enumerate(names)}
        style = int(r.integers(4))
        raws = []
        for e in range(nexp):
            for b in names:
                mixed = k % 5 in (1, 3) and k % 2              # exposures with other diagonals, or in another order
                q = synth.raw_spectrum(r, grids[b], band=None if k % 5 == 4 else b, ndiag=int(r.choice([1, 3, 5, 7, 9])) if mixed else int([3, 5, 7, 15][k % 4 if k % 9 == 8 else k % 3]))
                if k % 4 == 3 and r.random() < .5:
                    q['layout'] = ('offsets',)
                ctx.count('mixed_diagonals', bool(mixed) or k % 4 == 3)
                n = len(q['wave'])
                q['flux'] = r.normal(size=n) * 10
                q['ivar'] = {0: np.full(n, r.uniform(.1, 5)), 1: r.uniform(.05, 5, n), 2: 10**r.uniform(-3, 3, n), 3: np.linspace(.1, 5, n) ** (-1 if e % 2 else 1)}[style]
                q['ivar'][r.random(n) < r.choice([0, .1, .5])] = 0
                if r.random() < .07:
                    q['ivar'][:] = 0
                raws.append(q)
        if r.random() < .5:
            raws = [raws[i] for i in r.permutation(len(raws))]
        if r.random() < .3:
            j = int(r.integers(5, 9))
            for q in raws:
                q['ivar'][j] = 0
        unit = 10**r.uniform(-9, 9) if r.random() < .3 else 1.     # fluxes in any units
        for q in raws:
            q['flux'], q['ivar'] = q['flux'] * unit, q['ivar'] / unit**2
        ctx.count('other_units', unit != 1)
        cache = bool(r.random() < .5)
        ctx.case(dict(k=k, bands=names, nexp=nexp, style=style))
        keep = synth.copy_raws(raws)
        if k % 2:
            t = ctx.call('Target(coadd)', synth.to_target, 5, raws, True)
        else:
            t = synth.to_target(5, raws)
            ctx.call('compute_coadd', t.compute_coadd, cache_Rcsr=cache)
        g = group(keep)
        if not ctx.expect(len(t.spectra) == len(g), 'bands', f'case {k}: {len(t.spectra)} coadded spectra for {len(g)} wavelength grids'):
            continue
        for s, q in zip(t.spectra, g):
            ctx.expect(s.band == q[0]['band'], 'band-order', f'case {k}: band {s.band} where {q[0]["band"]} was first seen')
            check(ctx, f'case {k} band {q[0]["band"]} ({len(q)} exposures)', s, q)
        # the coadd of noiseless exposures of one object is the model seen through the coadded resolution
        if k % 4 == 0 and t.spectra:
            t0 = synth.template(r, 'STAR', 'X', 2, redshifts=np.linspace(-.001, .001, 5), igm='None')
            q2 = synth.copy_raws(keep)
            hi = {b: r.normal(size=len(w)) for b, w in grids.items()}
            for q in q2:
                b = next(b for b, w in grids.items() if len(w) == len(q['wave']) and w[0] == q['wave'][0])
                q['flux'] = q['R'] @ hi[b]
            t2 = synth.to_target(6, q2, True)
            for s in t2.spectra:
                b = next(b for b, w in grids.items() if len(w) == len(s.wave) and w[0] == s.wave[0])
                m = s.R.toarray() @ hi[b]
                good = s.ivar > 0
                ctx.expect(np.allclose(s.flux[good], m[good], rtol=1e-8, atol=1e-9), 'noiseless-model', f'case {k}: coadded flux of a noiseless object is not its coadded resolution times the object (max dev {np.abs(s.flux - m)[good].max() if good.any() else 0:.3g})')
                ctx.count('noiseless_models')
    # cosmic rejection
    for k in range(ctx.n(60, 600)):
        r = ctx.rng('cosmic', k)
        nexp = int(r.integers(3, 7) if k % 10 != 9 else r.integers(11, 20)) + (k % 6 == 5)             # at least three usable exposures: two cannot tell who was hit
        n = 80
        w = np.linspace(4000, 5000, n)
        truth = 5 + 3 * np.sin(w / 90.) + r.choice([0, 300.]) * np.exp(-0.5 * ((w - 4500) / 12.)**2)
        raws = []
        for e in range(nexp):
            q = synth.raw_spectrum(r, w, 'b', 5)
            q['ivar'] = np.full(n, r.uniform(2, 6))
            q['flux'] = truth + r.normal(size=n) / np.sqrt(q['ivar'])
            q['ivar'][(r.random(n) < .03) & (np.abs(w - 4500) > 60)] = 0   # masks next to a steep line are interpolated across
            raws.append(q)
        hit, j = int(r.integers(nexp)), int(r.integers(5, n - 5))
        allmasked = k % 6 == 5
        if allmasked:
            raws[(hit + 1) % nexp]['ivar'][:] = 0
        near = slice(max(0, j - 6), j + 7)
        raws[hit]['ivar'][near] = raws[hit]['ivar'].max()        # no interpolated pixels around the cosmic
        if k % 3:                                                # what is stored in masked pixels is arbitrary
            for q in raws:
                m = q['ivar'] == 0
                q['flux'][m] = r.choice([0., -3000., 5e4, 1e7], m.sum())
                ctx.count('garbage_in_masked_pixels', m.sum())
        clean = synth.copy_raws(raws)
        t = ctx.call('coadd-cosmics', synth.to_target, 1, synth.copy_raws(clean), True, 8.)
        s = t.spectra[0]
        ctx.case(dict(kind='cosmic', k=k, nexp=nexp, line=bool(truth.max() > 100), one_exposure_masked=allmasked), key=('cosmic', k))
        check(ctx, f'cosmic case {k} without cosmic (threshold 8 sigma)', s, clean)
        amp = 5000.
        raws[hit]['flux'][j] += amp
        t = ctx.call('coadd-cosmics', synth.to_target, 1, synth.copy_raws(raws), True, 8.)
        s = t.spectra[0]
        used = raws[hit]['ivar'][j]
        others = sum(q['ivar'][j] for i, q in enumerate(raws) if i != hit)
        ctx.expect(abs(s.ivar[j] - others) <= 1e-9 * (others + used), 'cosmic-kept', f'cosmic case {k}: a {amp:.0f}-sigma cosmic in one of {nexp} exposures is not rejected (ivar {s.ivar[j]:.4g}, expected {others:.4g})')
        if others > 0:
            ctx.expect(abs(s.flux[j] - truth[j]) < 20., 'cosmic-flux', f'cosmic case {k}: flux {s.flux[j]:.4g} at the cosmic instead of about {truth[j]:.4g}')
        m = synth.copy_raws(raws)
        lost = np.where(s.ivar < sum(q['ivar'] for q in raws) * (1 - 1e-9))[0]
        ctx.expect(all(0 <= int(x) - j <= 1 for x in lost), 'cosmic-collateral', f'cosmic case {k}: pixels {lost.tolist()} lost weight, cosmic at {j}')
        m[hit]['ivar'][lost] = 0
        if ctx.expect(all(abs(s.ivar[x] - sum(q['ivar'][x] for q in m)) < 1e-9 * s.ivar.max() for x in lost), 'cosmic-wrong-exposure',
                      f'cosmic case {k}: the weight lost at pixels {lost.tolist()} is not that of the exposure which was hit at {j}'):
            check(ctx, f'cosmic case {k} with rejected pixels', s, m)
            ctx.count('cosmics_rejected')
        # weights which change by orders of magnitude between neighbouring pixels: scatter of poor pixels is not a cosmic
        raws = []
        for e in range(nexp):
            q = synth.raw_spectrum(r, w, 'b', 5)
            q['ivar'] = 10.**r.uniform(-3, 3, n)
            q['flux'] = truth + r.normal(size=n) / np.sqrt(q['ivar'])
            raws.append(q)
        t = ctx.call('coadd-cosmics', synth.to_target, 1, synth.copy_raws(raws), True, 9.)
        check(ctx, f'cosmic case {k}: scatter according to weights between 1e-3 and 1e3 (threshold 9 sigma)', t.spectra[0], raws)
        ctx.count('scatter_only')
        # threshold zero: no rejection at all
        t = synth.to_target(1, synth.copy_raws(raws), True, 0.)
        check(ctx, f'cosmic case {k} without rejection', t.spectra[0], raws)
    ctx.floor('many_exposures', 10)
    ctx.floor('mixed_diagonals', 200)
    ctx.floor('coadded_pixels', 5000)
    ctx.floor('fully_masked_pixels', 50)
    ctx.floor('partially_masked_pixels', 1000)
    ctx.floor('cosmics_rejected', 30)
    ctx.floor('noiseless_models', 30)
