"""C09 truth recovery: spectra made from a template come back with its type, redshift and coefficients through the whole command."""
import os
import numpy as np
from astropy.io import fits
from astropy.table import Table
from rv import synth, files, rrd


def templates(r, d):
    from redrock.templates import Template
    T = [synth.template(r, 'GALAXY', '', 3, redshifts=10**np.linspace(0.0, np.log10(1.35), 150) - 1, igm='Inoue14'),
         synth.template(r, 'QSO', 'LOZ', 2, redshifts=10**np.linspace(np.log10(2.6), np.log10(3.4), 130) - 1, igm=str(r.choice(['Calura12', 'Inoue14', 'Kamble20'])), method=str(r.choice(['PCA', 'NMF']))),
         synth.template(r, 'STAR', 'A', 1, redshifts=np.linspace(-.006, .006, 81), igm='None'),
         synth.template(r, 'STAR', 'K', 2, redshifts=np.linspace(-.006, .006, 81), igm='None')]
    for t in T:
        files.write_template(os.path.join(d, f'rrtemplate-{t.template_type}-{t.sub_type or "None"}-v1.0.fits'), t, version='1.0')
    return [Template(os.path.join(d, f'rrtemplate-{t.template_type}-{t.sub_type or "None"}-v1.0.fits')) for t in T]


def draw(r, t, grid):
    """a redshift inside the range and coefficients with a mostly positive spectrum and positive [OII] flux"""
    a, b = t.redshifts[0], t.redshifts[-1]
    z = float(r.uniform(a + .25 * (b - a), b - .25 * (b - a)))     # candidates near the ends of the range are flagged and ranked last
    sp = [dict(wave=w, R=np.eye(len(w))) for w in grid.values()]
    D = synth.ref_design(t, z, sp)
    for _ in range(200):
        c = np.abs(r.normal(size=t.nbasis)) + .2
        if t.method != 'NMF':
            c[1:] *= r.choice([-1, 1], t.nbasis - 1)
        m = D @ c
        if np.abs(m).max() > 5 * np.median(np.abs(m)):        # a line far above the noise is narrower than the redshift steps
            continue
        if np.mean(m > .02 * np.median(np.abs(m))) > .9 and (not hasattr(t, 'OIItemplate') or np.sum(c @ np.asarray(t.OIItemplate).reshape(-1, t.nbasis).T) > 0 or np.sum(np.asarray(t.OIItemplate).reshape(-1, t.nbasis) @ c) > 0):
            return z, c
    return None


def run(ctx):
    from redrock.external.desi import rrdesi
    ctx.rule = 'one case = one target made from one template at a random redshift (nearly noise-free, or with Gaussian noise of the stated inverse variance), written to a DESI file and run through rrdesi; oracle: the truth'
    pulls, chis = [], []
    for k in range(ctx.n(6, 48)):
        r = ctx.rng('set', k)
        d, td = ctx.sub(f'f{k}'), ctx.sub(f'f{k}/t')
        T = templates(r, td)
        grid = synth.bands((64, 58, 70))
        noise = bool(k % 2)
        coadd = k % 3 != 2
        truth = {}
        for i in range(8):
            t = T[i % len(T)]
            q = draw(r, t, grid)
            if q:
                truth[int(r.integers(1, 10**12))] = (t,) + q
        ids = [list(truth)[i] for i in r.permutation(len(truth))]
        rows = []
        for t in ids:
            tm, z, c = truth[t]
            for e in range(1 if coadd else int(r.integers(1, 4))):
                raws = [synth.raw_spectrum(r, w, band=b) for b, w in grid.items()]
                synth.fill(r, raws, tm, z, c, snr=25)
                if not noise:                                   # not exactly zero: a parabola minimum below zero is flagged
                    for q in raws:
                        q['flux'] = q['truth'] + .2 * (q['flux'] - q['truth'])
                row = dict(tid=t)
                for q in raws:
                    n = len(q['wave'])
                    m = r.random(n) < .04
                    q['flux'], q['ivar'] = q['flux'].astype('f4'), q['ivar'].astype('f4')
                    q['mask'] = np.where(m, 4, 0).astype('i4')
                    q['flux'][m] = r.choice([1e4, -1e4, np.nan], m.sum())
                    row[q['band']] = q
                rows.append(row)
        if not coadd:
            rows = [rows[i] for i in r.permutation(len(rows))]
        fn, out = os.path.join(d, 'in.fits'), os.path.join(d, 'out.fits')
        files.write_desi(fn, r, rows, coadd, bands=list(grid))
        opts = ['-i', fn, '-o', out, '-t', td] + ['--mp', str(int(r.integers(1, 3)))]
        ok, _ = ctx.attempt('rrdesi', rrdesi, opts)
        if not ok or not os.path.exists(out):
            ctx.expect(False, 'no-output', f'run {k}: no redshift file')
            continue
        with fits.open(out) as h:
            ctx.need(h, ('REDSHIFTS',), f'run {k}')
        Z = Table.read(out, 'REDSHIFTS')
        ctx.need(Z, ('TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2'), f'run {k}: REDSHIFTS')
        for q in Z:
            t = int(q['TARGETID'])
            tm, z, c = truth[t]
            step = np.min(np.diff(tm.redshifts))
            what = f'run {k} ({"noisy" if noise else "nearly noise-free"}, {"coadd" if coadd else "spectra"}) target {t}: {tm.full_type} at z={z:.6f}'
            ctx.case(dict(k=k, type=tm.full_type, z=round(z, 6), noise=noise, coadd=coadd), key=(k, t))
            rep = f'{str(q["SPECTYPE"]).strip()}:{q["SUBTYPE"]} z={q["Z"]:.6f}+-{q["ZERR"]:.2g} chi2={q["CHI2"]:.5g} zwarn={int(q["ZWARN"])}'
            sub = '' if np.ma.is_masked(q['SUBTYPE']) else str(q['SUBTYPE']).strip()
            good = str(q['SPECTYPE']).strip() == tm.template_type and sub == tm.sub_type
            if not noise:
                ctx.expect(good and abs(q['Z'] - z) < .2 * step + 6 * .2 * q['ZERR'], 'truth', f'{what} is reported as {rep} (grid step {step:.2g})')
                cc = np.asarray(q['COEFF'], float)[:tm.nbasis]
                ctx.expect(np.allclose(cc, c, rtol=.05, atol=.03 * np.abs(c).max()) and np.all(np.asarray(q['COEFF'])[tm.nbasis:] == 0), 'coefficients', f'{what} with coefficients {c} is reported with {np.asarray(q["COEFF"])}')
                ctx.expect(q['CHI2'] < 0.3 * q['NPIXELS'], 'chi2', f'{what}: chi2 {q["CHI2"]:.4g} of a nearly noise-free spectrum ({q["NPIXELS"]} pixels)')
                ctx.count('noise_free')
            else:
                sig = float(q['ZERR'])
                ctx.expect(good and abs(q['Z'] - z) < 6 * sig + .1 * step, 'truth-noisy', f'{what} is reported as {rep}')
                ctx.count('noisy')
                pulls.append((q['Z'] - z) / sig)
                chis.append((q['CHI2'] - (q['NPIXELS'] - tm.nbasis - 1)) / np.sqrt(2. * q['NPIXELS']))
            ctx.expect(int(q['ZWARN']) == 0, 'zwarn', f'{what}: warning bits {int(q["ZWARN"])} for a clean spectrum')
    if len(pulls) > 10:
        s = float(np.sqrt(np.mean(np.square(pulls))))
        m = float(np.mean(chis))
        n = len(pulls)
        ctx.obs['pull_rms'], ctx.obs['chi2_pull'] = round(s, 2), round(m, 2)
        ctx.expect(1 - 4.5 / np.sqrt(2 * n) < s < 1 + 4.5 / np.sqrt(2 * n) + .1, 'pulls', f'redshift errors of {n} noisy spectra: rms of (z - truth)/zerr is {s:.2f}')
        ctx.expect(abs(m) < 5 / np.sqrt(n) + .1, 'chi2-level', f'chi2 of {n} noisy spectra is off its expectation by {m:.2f} sigma on average')
    ctx.floor('noise_free', 16)
    ctx.floor('noisy', 16)
