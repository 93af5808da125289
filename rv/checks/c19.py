"""C19 archetype refinement: best archetype, coefficients, chi2 and model belong together."""
import os
import numpy as np
from rv import synth, files, compare, igmref

NEG = 1 << 3


def leg_matrix(w, n):
    x = 2 * (w - w.min()) / (w.max() - w.min()) - 1
    return np.array([np.polynomial.legendre.legval(x, np.eye(n)[i]) for i in range(n)]).T if n else np.zeros((len(w), 0))


class Arch:
    def __init__(self, spectype, wave, flux, subtypes):
        self.spectype, self.wave, self.flux, self.sub = spectype, wave, flux, subtypes

    def columns(self, spectra, cams, z, idx, nleg, percam):
        """dense design matrix: archetypes idx, then Legendre terms (per camera or shared)"""
        out = []
        for s in spectra:
            w = s.wave
            b = synth.ref_rebin(self.wave * (1 + z), self.flux[idx], synth.edges_of(w)) * igmref.transmission(z, w, 'Inoue14')
            L = leg_matrix(w, nleg)
            if percam:
                full = np.zeros((len(w), nleg * len(cams)))
                i = cams.index(s.wavehash)
                full[:, i * nleg:(i + 1) * nleg] = L
                L = full
            out.append(s.R.toarray() @ np.hstack([b.T, L]))
        return np.vstack(out)


def solve(D, f, w, nn, sigma):
    M = D.T @ (w[:, None] * D)
    if sigma is not None:
        M = M + np.diag([0.] * nn + [1 / sigma**2] * (D.shape[1] - nn))
    if np.linalg.cond(M) > 1e10:
        return None
    c = np.linalg.solve(M, D.T @ (w * f))
    return float(np.sum(w * (f - D @ c)**2)), c


def evaluate(ctx, A, a, st, tgt, z, percam, nleg, nn, sigma, na, k, again):
    from redrock.zscan import spectral_data
    from redrock.fitz import prior_on_coeffs
    from rv.checks.c03 import constrained
    tgt.legendre(nleg)
    w, f, wf = spectral_data(tgt.spectra)
    cams = list(dict.fromkeys(s.wavehash for s in tgt.spectra))
    dwave = {s.wavehash: s.wave for s in tgt.spectra}
    prior = prior_on_coeffs(nn or 1, nleg, sigma, len(cams) if percam else 1) if sigma else None
    what = f'ranking {k}.{again} ({st}, {na} archetypes, per_camera={percam}, {nleg} Legendre terms, nearest={nn}, prior={sigma})'
    ctx.count('related_rankings', again > 0)
    ctx.case(dict(kind='ranking', k=k, again=again, percam=percam, nleg=nleg, nearest=nn, prior=sigma, na=na), key=('ranking', k, again))
    ok, out = ctx.attempt('get_best_archetype', A.get_best_archetype, tgt, w, f, wf, dwave, z, percam, nn, prior=prior)
    if not ok:
        return
    chi2, coeff, full = out

    def fit(idx):
        D = a.columns(tgt.spectra, cams, z, idx, nleg, percam)
        n = len(idx)
        P = np.diag([0.] * n + [1 / sigma**2] * (D.shape[1] - n)) if sigma and percam else None
        lo = np.array([0.] * n + [-np.inf] * (D.shape[1] - n))
        v, c = constrained(D, f, w, lo, np.full(D.shape[1], np.inf), P)
        return float(np.sum(w * (f - D @ c)**2)), c, D
    f0 = float(np.sum(w * f * f))
    one = [fit([i])[0] for i in range(na)]
    order = list(np.argsort(one))
    names = full.split(':::')[-1].split(';')
    n = min(nn or 1, na)                        # all of them, if fewer than requested
    ctx.count('fewer_than_requested', bool(nn) and nn > na)
    if not ctx.expect(full.startswith(st + ':::') and len(names) == n and all(q in a.sub for q in names), 'ranking-type', f'{what}: type {full!r} for archetypes {a.sub}'):
        return
    idx = [a.sub.index(q) for q in names]
    if all(one[order[i + 1]] - one[order[i]] > 1e-6 * f0 for i in range(min(n, na - 1))):
        ctx.expect(idx == order[:n], 'ranking', f'{what}: nearest {idx}, chi2 of every archetype {np.round(one, 6)}')
        ctx.count('rankings')
    v, c, D = fit(idx)
    ctx.expect(abs(v - chi2) <= 1e-6 * v + 1e-8 * f0, 'ranking-optimum', f'{what}: chi2 {chi2:.9g}, the exact constrained fit has {v:.9g}')
    # coefficients: archetypes first, then the Legendre terms, cameras in the order of the target
    got = np.asarray(coeff, float)
    if ctx.expect(len(got) == len(c), 'ranking-count', f'{what}: {len(got)} coefficients for {len(c)} terms'):
        own = float(np.sum(w * (f - D @ got)**2))
        ctx.expect(abs(own - chi2) <= 1e-6 * chi2 + 1e-8 * f0 and np.all(got[:n] >= -1e-12 * max(1., np.abs(got).max())), 'ranking-coeff', f'{what}: the coefficients returned give chi2 {own:.9g}, reported {chi2:.9g}, archetype coefficients {got[:n]}')
        ctx.count('active_bounds', np.any(c[:n] == 0))
        ctx.count('direct_fits')


def ranking(ctx):
    """the choice among many similar archetypes: called directly, against an exact bounded solution for each of them"""
    from redrock.archetypes import Archetype
    for k in range(ctx.n(60, 500)):
        r = ctx.rng('ranking', k)
        d = ctx.sub(f'r{k}')
        st = str(r.choice(['GALAXY', 'QSO']))
        z = float(r.uniform(.02, .3) if st == 'GALAXY' else r.uniform(1.9, 2.8))
        wave = synth.rest_grid(z - .01, z + .01)
        wave = 10**np.linspace(np.log10(wave[0]), np.log10(wave[-1]), len(wave))
        B = synth.basis(r, wave, 3, positive=True)
        base, na = r.uniform(.3, 1, 3), int(r.integers(4, 10))
        fl = np.array([(base * (1 + r.choice([.02, .3]) * r.normal(size=3))) @ B for _ in range(na)])
        fn = files.write_archetype(os.path.join(d, f'rrarchetype-{st.lower()}.fits'), st, wave, fl, ['A'] * na, loglam=True)
        A = ctx.call('Archetype', Archetype, fn)
        a = Arch(st, wave, fl, [f'A_{i}' for i in range(na)])
        percam, nleg = bool((k + k // 6) % 3), int(r.integers(0, 6))
        if k % 20 == 9:
            nleg = 0                              # a single coefficient, at its bound
        nn = [None, 2, 3, 1, na, na + int(r.integers(1, 4))][k % 6]
        sigma = None if k % 5 == 0 else 10.**r.uniform(-2.5, 0)
        scarce = nn is not None and nn > na
        if scarce:                                # all archetypes and several Legendre terms, shared or per camera
            percam, nleg = bool((k // 6) % 2), max(nleg, 2)
        unit = [1., 1e6, 1e-6][(k // 3) % 3]      # flux units are arbitrary
        if sigma:
            sigma *= unit
        sc = synth.scene(r, [synth.template(r, st, '', 3, redshifts=np.linspace(z - .005, z + .005, 5), wave=wave, flux=B)], 1, nexp=(1, 2), snr=(4, 40), masked_target=False, unit=1.)
        raws = synth.copy_raws(sc[0]['raws'])
        for q in raws:
            x = np.linspace(-1, 1, len(q['wave']))
            q['flux'] = q['flux'] + np.abs(q['flux']).mean() * ((-.6 if scarce else r.normal() * .3) + r.normal() * .3 * x)
            q['flux'], q['ivar'] = q['flux'] * unit, q['ivar'] / unit**2
        if k % 10 == 9:
            for q in raws:
                q['flux'] = -q['flux']            # all archetypes at their bound
        # the same archetypes again: close redshift, other data on the same grids, and back
        raws2 = synth.copy_raws(raws)
        for q in raws2:
            q['flux'] = q['flux'] * r.uniform(.5, 2.) + r.normal(size=len(q['flux'])) * np.abs(q['flux']).mean() * .1
        co = bool(r.integers(2))
        zc = z + float(r.choice([-1, 1]) * 10**r.uniform(-4.7, -2.5))
        for again, (q, zz) in enumerate([(raws, z)] if k % 3 else [(raws, z), (raws, zc), (raws2, zc), (raws, z)]):
            evaluate(ctx, A, a, st, synth.to_target(sc[0]['id'], synth.copy_raws(q), coadd=co), zz, percam, nleg, nn, sigma, na, k, again)
    ctx.floor('related_rankings', 30)
    ctx.floor('rankings', 25)
    ctx.floor('direct_fits', 40)
    ctx.floor('active_bounds', 5)
    ctx.floor('fewer_than_requested', 5)


def run(ctx):
    ranking(ctx)
    runs(ctx)


def runs(ctx):
    from redrock.archetypes import All_archetypes
    from redrock.targets import DistTargetsCopy
    from redrock.zfind import zfind
    ctx.rule = ('one case = one archetype run (which spectral types have archetypes, per-camera or shared Legendre terms, their number and prior, nearest archetypes, exposures, workers); '
                'every archetype row is re-derived with a dense independent model; distinct = runs')
    for k in range(ctx.n(32, 260)):
        r = ctx.rng(k)
        d = ctx.sub(f'a{k}')
        which = [('GALAXY', 'QSO', 'STAR'), ('GALAXY',), ('QSO',), ('GALAXY', 'QSO'), ('QSO', 'STAR'), ('STAR', 'QSO'), ('GALAXY', 'STAR')][int(r.choice(7, p=[.25, .2, .15, .1, .1, .1, .1]))]
        igm = str(r.choice(['Inoue14', 'Inoue14', 'Calura12', 'None']))
        beyond = k % 4 == 1                               # targets just beyond the redshifts which are scanned
        if beyond:
            which, igm = [('GALAXY', 'QSO', 'STAR'), ('QSO',), ('QSO', 'STAR')][k % 3], 'Inoue14'
        T, A = [], {}
        few = k % 8 == 7                                  # more archetypes per fit than template coefficients
        for st, sub, zr, nb in (('GALAXY', '', np.linspace(0.02, .35, 24), 3 - few), ('QSO', 'LOZ', np.linspace(1.9, 2.9, 24), 4 - 2 * few), ('STAR', 'M', np.linspace(-.002, .002, 11), 2)):
            w = synth.rest_grid(zr.min(), zr.max())
            w = 10**np.linspace(np.log10(w[0]), np.log10(w[-1]), len(w))
            B = synth.basis(r, w, nb, positive=True)
            T.append(synth.template(r, st, sub, nb, redshifts=zr, wave=w, flux=B, igm='None' if st == 'STAR' else igm))
            na = int(r.integers(3 if k % 4 == 3 else 2, 6)) if k % 9 != 4 else int(r.integers(11, 14))
            fl = np.array([r.uniform(.1, 1, nb) @ B for _ in range(na)])
            names = [str(x) for x in r.choice(['ELG', 'LRG', 'X'] if k % 3 else ['EmissionLineGalaxy', 'LuminousRed', 'X'], na)]
            if st in which:
                fn = files.write_archetype(os.path.join(d, f'rrarchetype-{st.lower()}.fits'), st, w, fl, names, loglam=True)
                A[st] = Arch(st, w, fl, [f'{n}_{i}' for i, n in enumerate(names)])
        arch = ctx.call('All_archetypes', All_archetypes, archetypes_dir=d if len(which) > 1 else os.path.join(d, f'rrarchetype-{which[0].lower()}.fits')).archetypes
        percam, nleg = k % 3 > 0, int(r.integers(0, 4)) if k % 5 else int(r.integers(4, 7))
        nn = [None, 2, 1, int(r.integers(3, 7)), None, 1, 3, 2][(k + k // 8) % 8]
        sigma = [None, .1, 5.][int(r.choice(3, p=[.2, .4, .4]))]
        if nn == 1 and percam and k % 16:                 # a prior without nearest neighbours
            nleg, sigma = max(nleg, 1), sigma or .1
        nexp, coadd = int(r.integers(1, 3)), bool(r.integers(2))
        nmin, procs = int(r.integers(1, 4)), int(r.integers(1, 3))
        sc = synth.scene(r, [t for t in T if t.template_type == 'QSO' or t.template_type == 'GALAXY' and not beyond], 3, nexp=(nexp, nexp), snr=(4, 25), masked_target=False, unit=1.)
        if nleg and r.random() < .4:
            for q in sc[0]['raws']:
                q['flux'] = q['flux'] + 0.3 * np.abs(q['flux']).mean()
        if beyond:
            t = [t for t in T if t.template_type == 'QSO'][0]
            keep = t.redshifts < sorted(o['z'] for o in sc)[k // 4 % 2]
            if np.sum(keep) >= 6:
                t._redshifts = t.redshifts[keep]
                ctx.count('runs_beyond_scan')
        lack = which[-1] if len(which) == 2 and k % 3 and not beyond else None     # archetypes of a type which has no template
        T = [T[i] for i in r.permutation(len(T)) if T[i].template_type != lack]
        ctx.count('archetypes_without_template', lack is not None)
        what = f'run {k} (templates for {[t.template_type for t in T]}, archetypes for {which}, per_camera={percam}, {nleg} Legendre terms, nearest={nn}, prior={sigma}, {nexp} exposures, coadd={coadd}, mp={procs}, igm={igm})'
        ctx.case(dict(k=k, which=which, percam=percam, nleg=nleg, nearest=nn, prior=sigma, nexp=nexp, coadd=coadd, procs=procs, igm=igm))
        if k % 4 == 2:                                    # not every target was observed with every camera
            o = sc[int(r.integers(len(sc)))]
            keep = [str(b) for b in r.permutation(sorted({q['band'] for q in o['raws']}))[:int(r.integers(1, 3))]]
            o['raws'] = [q for q in o['raws'] if q['band'] in keep]
            ctx.count('targets_lacking_cameras')
        ncam = 3
        if k % 8 == 5:                                    # an instrument with a single camera
            ncam, only = 1, str(r.choice(sorted({q['band'] for q in sc[0]['raws']})))
            for o in sc:
                o['raws'] = [q for q in o['raws'] if q['band'] == only]
            ctx.count('single_camera_runs', percam and nleg > 0)
        mk = lambda: DistTargetsCopy([synth.to_target(o['id'], synth.copy_raws(o['raws']), coadd=coadd) for o in sc])
        tg = mk()
        kw = dict(nminima=nmin, archetypes=arch, per_camera=percam, deg_legendre=nleg, n_nearest=nn, prior_sigma=sigma, ncamera=ncam)
        ok, out = ctx.attempt('zfind-archetypes', zfind, tg, synth.dist_templates(T, tg), mp_procs=procs, **kw)
        if not ok:
            continue
        zf = out[1]
        plain = mk()
        _, zp = ctx.call('zfind', zfind, plain, synth.dist_templates(T, plain), nminima=nmin)
        if arch:
            ctx.need(zf, ('pca_coeff', 'pca_spectype', 'pca_subtype'), what)
        ra, rp = compare.rows_by_target(zf), compare.rows_by_target(zp)
        byt = {t.template_type: t for t in T}
        for tgt in tg.local():
            tgt.sharedmem_unpack()
            f = np.concatenate([s.flux for s in tgt.spectra])
            w = np.concatenate([s.ivar for s in tgt.spectra])
            cams = list(dict.fromkeys(s.wavehash for s in tgt.spectra))
            rows = ra.get(tgt.id, [])
            f0 = np.sum(w * f * f)
            if not ctx.expect(len(rows) > 0, 'lost', f'{what}: target {tgt.id} has no row'):
                continue
            for st in byt:
                za = sorted(float(x['z']) for x in rows if x['spectype'] == st)
                zb = sorted(float(x['z']) for x in rp[tgt.id] if x['spectype'] == st)
                ctx.expect(len(za) == len(zb) and np.allclose(za, zb, rtol=0, atol=1e-9), 'redshifts', f'{what}: target {tgt.id}: {st} redshifts {za} with archetypes, {zb} without')
            for x in rows:
                st = str(x['spectype'])
                # the template fit behind the row is kept next to it
                y = [q for q in rp[tgt.id] if q['spectype'] == st and abs(q['z'] - x['z']) < 1e-9]
                nb = byt[st].nbasis
                if len(y) == 1:
                    pc, yc = np.atleast_1d(np.asarray(x['pca_coeff'], float)), np.atleast_1d(np.asarray(y[0]['coeff'], float))[:nb]
                    ctx.expect(len(pc) >= nb and np.allclose(pc[:nb], yc, rtol=1e-6, atol=1e-9 * max(1e-30, np.abs(yc).max())) and np.all(pc[nb:] == 0), 'pca-coeff', f'{what}: target {tgt.id} {st} z={x["z"]:.6f}: template coefficients {pc} kept, the template fit has {yc}')
                    ctx.expect(str(x['pca_spectype']) == st and str(x['pca_subtype']) == str(y[0]['subtype']), 'pca-type', f'{what}: target {tgt.id} {st}: template type kept as {x["pca_spectype"]} {x["pca_subtype"]}')
                    KEEP = ~(NEG | (1 << 2) | 2)  # NEGATIVE_MODEL, SMALL_DELTA_CHI2 and (by the number of coefficients) LITTLE_COVERAGE depend on the archetype fit
                    ctx.expect(bool(int(x['zwarn']) & 2) == (x['npixels'] < 10 * x['ncoeff']), 'little-coverage', f'{what}: target {tgt.id} {st} z={x["z"]:.6f}: {x["npixels"]} pixels, {x["ncoeff"]} coefficients, warning bits {int(x["zwarn"])}')
                    ctx.expect((int(x['zwarn']) & KEEP) == (int(y[0]['zwarn']) & KEEP), 'zwarn', f'{what}: target {tgt.id} {st} z={x["z"]:.6f}: warning bits {int(x["zwarn"])}, without archetypes {int(y[0]["zwarn"])}')
                    ctx.count('template_fits_kept')
                if st not in A:
                    y = [q for q in rp[tgt.id] if q['spectype'] == st and abs(q['z'] - x['z']) < 1e-9]
                    nb = byt[st].nbasis
                    ok = bool(y) and abs(y[0]['chi2'] - x['chi2']) <= 1e-9 * abs(y[0]['chi2']) and y[0]['fitmethod'] == x['fitmethod'] and str(y[0]['subtype']) == str(x['subtype']) \
                        and np.allclose(np.atleast_1d(x['coeff'])[:nb], np.atleast_1d(y[0]['coeff'])[:nb], rtol=1e-9, atol=1e-12)
                    ctx.expect(not int(x['zwarn']) & NEG, 'plain-negmodel', f'{what}: target {tgt.id}: the {st} row at z={x["z"]:.6f} (no archetypes for it) is flagged NEGATIVE_MODEL')
                    ctx.expect(ok, 'plain-row', f'{what}: target {tgt.id}: the {st} row at z={x["z"]:.6f} (no archetypes for it) differs from the run without archetypes')
                    ctx.count('plain_rows')
                    continue
                a = A[st]
                wr = f'{what}: target {tgt.id} {st} z={x["z"]:.6f}'
                subs = str(x['subtype']).split(';')
                if not ctx.expect(x['fitmethod'] == 'ARCH' and all(q in a.sub for q in subs) and len(set(subs)) == len(subs) == min(nn or 1, len(a.sub)), 'subtype', f'{wr}: fit method {x["fitmethod"]}, archetypes {subs} for {a.sub}, nearest={nn}'):
                    continue
                idx = [a.sub.index(q) for q in subs]
                z = float(x['z'])
                D = a.columns(tgt.spectra, cams, z, idx, nleg, percam)
                ac = np.atleast_1d(x['coeff'])[:len(idx)]
                lc = np.atleast_1d(x['legcoeff']).ravel() if nleg else np.zeros(0)
                if percam and nleg:                       # a row per camera of the run, those of the target first
                    ctx.expect(len(lc) == ncam * nleg and not np.any(lc[nleg * len(cams):]), 'missing-camera', f'{wr}: Legendre coefficients {lc} for {len(cams)} of {ncam} cameras')
                    lc = lc[:nleg * len(cams)]
                    ctx.count('rows_lacking_cameras', len(cams) < ncam)
                if not ctx.expect(len(ac) + len(lc) == D.shape[1], 'coeff-count', f'{wr}: {len(ac)}+{len(lc)} coefficients, model has {D.shape[1]}'):
                    continue
                c = np.concatenate([ac, lc])
                own = float(np.sum(w * (f - D @ c)**2))
                ctx.expect(abs(own - x['chi2']) <= 1e-6 * x['chi2'] + 1e-9 * f0, 'chi2-of-coeff', f'{wr}: chi2={x["chi2"]:.8g} but the reported coefficients give {own:.8g}')
                ctx.expect(np.all(ac >= -1e-12 * max(1., np.abs(ac).max())), 'negative-archetype', f'{wr}: archetype coefficients {ac}')
                if np.all(ac > 0):
                    ctx.expect(not int(x['zwarn']) & NEG, 'negmodel-spurious', f'{wr}: NEGATIVE_MODEL with coefficients {ac}')
                # every single archetype, where the bound is not active
                single = {}
                for i in range(len(a.sub)):
                    s1 = solve(a.columns(tgt.spectra, cams, z, [i], nleg, percam), f, w, 1, sigma if percam else None)
                    if s1 is not None and s1[1][0] > 1e-9:
                        single[i] = s1
                if nn is None or nn == 1:
                    if single:
                        best = min(single, key=lambda i: single[i][0])
                        ctx.expect(x['chi2'] <= single[best][0] * (1 + 1e-6) + 1e-8 * f0, 'not-best', f'{wr}: chi2 {x["chi2"]:.8g} of {subs[0]}, but {a.sub[best]} gives {single[best][0]:.8g}')
                        ctx.count('best_of_archetypes')
                    if idx[0] in single:
                        ref = single[idx[0]]
                        sc_ = np.abs(ref[1]).max()
                        ctx.expect(abs(ref[0] - x['chi2']) <= 1e-6 * ref[0] + 1e-8 * f0 and np.allclose(c, ref[1], rtol=1e-4, atol=1e-5 * sc_), 'optimum', f'{wr}: coefficients {c} instead of {ref[1]}')
                        ctx.count('optima')
                elif len(single) == len(a.sub):
                    o = sorted(single, key=lambda i: single[i][0])
                    v = [single[i][0] for i in o]
                    if nn >= len(o) or v[nn] - v[nn - 1] > 1e-6 * v[0]:
                        ctx.expect(set(idx) == set(o[:nn]), 'nearest', f'{wr}: nearest archetypes {subs}, the {nn} best are {[a.sub[i] for i in o[:nn]]}')
                        ctx.count('nearest_checked')
                    j = solve(D, f, w, len(idx), sigma if percam else None)
                    if j is not None and np.all(j[1][:len(idx)] > 1e-9):
                        ctx.expect(abs(j[0] - x['chi2']) <= 1e-6 * j[0] + 1e-8 * f0, 'joint-optimum', f'{wr}: joint fit chi2 {x["chi2"]:.8g} instead of {j[0]:.8g}')
                        ctx.count('joint_optima')
                ctx.count('archetype_rows')
                ctx.count('rows_with_fewer_than_requested', bool(nn) and nn > len(a.sub))
                ctx.count('rows_nearest_one_with_prior', nn == 1 and percam and nleg > 0 and bool(sigma))
                ctx.count('zero_archetype_rows', np.all(ac == 0))
        # the model written for the best fit is the model that was fitted
        best = zf[zf['znum'] == 0]
        for cn in best.colnames:
            best.rename_column(cn, cn.upper())
        ok, models = ctx.attempt('eval_models', tg.eval_models, best, {(t.template_type, t.sub_type): t for t in T}, arch, nleg)
        if ok:
            for tgt, m in zip(tg.local(), models):
                row = best[list(best['TARGETID']).index(tgt.id)]
                if row['FITMETHOD'] != 'ARCH':
                    continue
                own = sum(np.sum(s.ivar * (s.flux - m[s.wavehash])**2) for s in tgt.spectra)
                f0 = sum(np.sum(s.ivar * s.flux**2) for s in tgt.spectra)
                single_per_cam = len(set(s.wavehash for s in tgt.spectra)) == len(tgt.spectra)
                if single_per_cam:                       # models are kept per camera: exposures with different resolutions share one
                    ctx.expect(abs(own - row['CHI2']) <= 1e-5 * row['CHI2'] + 1e-8 * f0, 'model-chi2', f'{what}: target {tgt.id}: the evaluated model has chi2 {own:.8g}, the fit {row["CHI2"]:.8g}')
                    ctx.count('models')
    ctx.floor('archetype_rows', 80)
    ctx.floor('plain_rows', 40)
    ctx.floor('optima', 40)
    ctx.floor('nearest_checked', 5)
    ctx.floor('models', 15)
    ctx.floor('rows_with_fewer_than_requested', 5)
    ctx.floor('rows_nearest_one_with_prior', 5)
    ctx.floor('archetypes_without_template', 3)
    ctx.floor('rows_lacking_cameras', 3)
    ctx.floor('single_camera_runs', 1)
