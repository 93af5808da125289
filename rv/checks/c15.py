"""C15 best-fit models: template/archetype evaluation and the rrdesi --model file."""
import os
import numpy as np
from astropy.io import fits
from astropy.table import Table
from rv import synth, files, rrd, fakempi, igmref
from rv.checks.c19 import Arch, leg_matrix


def ref_model(wv, fl, z, wave, igm, R=None, leg=None):
    m = synth.ref_rebin(wv * (1 + z), fl, synth.edges_of(wave))[0] * igmref.transmission(z, wave, igm)
    if leg is not None and len(leg):
        m = m + leg_matrix(wave, len(leg)) @ leg
    return m if R is None else R @ m


def close(a, b, tol):
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol * max(np.abs(b).max(), 1e-30))


def run(ctx):
    from redrock.external.desi import rrdesi
    from redrock.templates import eval_model, Template
    from redrock.archetypes import Archetype
    from redrock.targets import DistTargetsCopy
    ctx.rule = 'one case = one evaluated template/archetype or one rrdesi --model run; distinct = cases'
    # ---- public evaluation functions
    for k in range(ctx.n(150, 2500)):
        r = ctx.rng('eval', k)
        st = ['GALAXY', 'QSO', 'STAR'][int(r.integers(3))]
        igm = str(r.choice(['Inoue14', 'Calura12', 'Kamble20', 'None'])) if st != 'STAR' else 'None'
        nb = int(r.integers(1, 5)) if r.random() < .7 else int(r.integers(6, 13))
        t = synth.template(r, st, '', nb, method='NMF' if r.random() < .4 else 'PCA', igm=igm)
        n = int(r.integers(24, 80))
        wave = np.cumsum(r.uniform(.2, 1., n)) * 5000 / n + 3800 if r.random() < .3 else np.linspace(*synth.BANDS[str(r.choice(list('brz')))], n)
        R = synth.make_R(n, 5, 1.0, r) if r.random() < .6 else None
        z = float(r.uniform(t.redshifts[0], t.redshifts[-1]))
        c = np.concatenate([synth.random_coeff(r, t), r.normal(size=int(r.integers(0, 3)))])     # tables pad coefficients
        ref = ref_model(t.wave, (c[:nb] @ t.flux)[None], z, wave, igm, R)
        zz = [z, np.float64(z)][int(r.integers(2))]
        m = ctx.call('Template.eval', t.eval, c.copy(), wave.copy(), zz, R)
        ctx.expect(close(np.asarray(m), ref, 1e-9), 'template-eval', f'{st} {igm} z={z:.4f}: Template.eval is off by {np.abs(np.asarray(m) - ref).max():.3g} (peak {np.abs(ref).max():.3g})')
        if k % 3 == 2:
            # again with another grid of the same length and ends, another redshift, and back
            held = np.array(m, copy=True)
            for w2, z2 in ((synth.warp(r, wave), z), (wave, float(r.uniform(t.redshifts[0], t.redshifts[-1]))), (wave, z)):
                ref2 = ref_model(t.wave, (c[:nb] @ t.flux)[None], z2, w2, igm, R)
                m2 = ctx.call('Template.eval', t.eval, c.copy(), w2, z2, R)
                ctx.expect(close(np.asarray(m2), ref2, 1e-9), 'template-eval-again', f'{st} {igm} z={z2:.4f}: Template.eval is off by {np.abs(np.asarray(m2) - ref2).max():.3g} (peak {np.abs(ref2).max():.3g}) after other calls')
            ctx.expect(np.array_equal(held, m), 'result-changed', 'a later Template.eval changed the array returned earlier')
            ctx.count('related_evals')
        ctx.case(dict(k=k, kind='eval', st=st, igm=igm, n=n, R=R is not None), key=('eval', k))
        ctx.count('evals')
        if k % 5 == 0:
            nr = int(r.integers(1, 4))
            grid = {b: np.linspace(*synth.BANDS[b], int(r.integers(24, 40))) for b in "rz"}
            t2 = synth.template(r, 'QSO', 'X', 2, igm='Inoue14')
            tt = {('GALAXY', ''): synth.template(r, 'GALAXY', '', 3), ('QSO', 'X'): t2, ('QSO', ''): synth.template(r, 'QSO', '', 2, igm='Calura12'),
                  ('QSO', 'XY'): synth.template(r, 'QSO', 'XY', 4, igm='Inoue14'), ('GALAXY', 'X'): synth.template(r, 'GALAXY', 'X', 1)}
            tab = Table()
            keys = [list(tt)[int(r.integers(len(tt)))] for _ in range(nr)]
            tab['SPECTYPE'], tab['SUBTYPE'] = [q[0] for q in keys], [q[1] for q in keys]
            tab['Z'] = [float(r.uniform(.1, .5)) if s == 'GALAXY' else float(r.uniform(.5, 3.4)) for s in tab['SPECTYPE']]
            tab['COEFF'] = r.normal(size=(nr, 5)) * (r.random((nr, 1)) < .85)
            Rd = {b: [synth.make_R(len(w), 3, .8, r) for _ in range(nr)] for b, w in grid.items()} if r.random() < .6 else None
            m = ctx.call('eval_model', eval_model, tab, grid, R=Rd, templates=tt)
            for b, w in grid.items():
                for i in range(nr):
                    q = tt[(tab['SPECTYPE'][i], tab['SUBTYPE'][i])]
                    ref = ref_model(q.wave, (tab['COEFF'][i][:q.nbasis] @ q.flux)[None], tab['Z'][i], w, q.igm_model, None if Rd is None else Rd[b][i])
                    ctx.expect(close(np.asarray(m[b][i], float), ref, 1e-6), 'eval_model', f'eval_model row {i} band {b}: off by {np.abs(m[b][i] - ref).max():.3g} (peak {np.abs(ref).max():.3g})')
                    ctx.count('evals')
        if k % 3 == 1:
            # through the targets: rows in another order, coefficients which are exactly zero (NMF), all zero, or of other templates' width
            tt = {('GALAXY', ''): synth.template(r, 'GALAXY', '', 3), ('QSO', 'X'): synth.template(r, 'QSO', 'X', 4, method='NMF', igm='Calura12'), ('STAR', 'M'): synth.template(r, 'STAR', 'M', 1, igm='None')}
            sc = synth.scene(r, list(tt.values()), int(r.integers(1, 5)), nexp=(1, 2))
            keys = [list(tt)[int(r.integers(3))] for _ in sc]
            tab = Table()
            tab['TARGETID'] = [o['id'] for o in sc]
            tab['SPECTYPE'], tab['SUBTYPE'] = [q[0] for q in keys], [q[1] for q in keys]
            tab['FITMETHOD'] = [tt[q].method for q in keys]
            tab['Z'] = [float(r.uniform(*tt[q].redshifts[[0, -1]])) for q in keys]
            tab['COEFF'] = r.normal(size=(len(sc), 5)) * (r.random((len(sc), 5)) < .6) * (r.random((len(sc), 1)) < .9)
            for i, q in enumerate(keys):
                tab['COEFF'][i, tt[q].nbasis:] = 0
            tg = DistTargetsCopy(synth.build_targets(sc, coadd=bool(r.integers(2))))
            ok, ms = ctx.attempt('eval_models', tg.eval_models, tab[r.permutation(len(sc))], tt)
            for i, (t, m) in enumerate(zip(tg.local(), ms if ok else [])):
                q = tt[keys[i]]
                row = tab[i]
                for s in t.spectra:
                    if [x.wavehash for x in t.spectra].count(s.wavehash) > 1:
                        continue                         # one model per camera
                    ref = ref_model(q.wave, (row['COEFF'][:q.nbasis] @ q.flux)[None], row['Z'], s.wave, q.igm_model, s.R.toarray())
                    ctx.expect(close(np.asarray(m[s.wavehash], float), ref, 1e-6), 'eval_models', f'eval_models {keys[i]} coefficients {row["COEFF"]}: off by {np.abs(m[s.wavehash] - ref).max():.3g} (peak {np.abs(ref).max():.3g})')
                    ctx.count('target_models')
                    ctx.count('zero_first_coefficient', row['COEFF'][0] == 0 and np.any(row['COEFF'] != 0))
        if k % 4 == 0:
            d = ctx.sub('arch')
            w = 10**np.linspace(3.0, 4.05, 500)
            fl = synth.basis(r, w, 4, positive=True)
            names = [['A', 'B', 'A', 'C'], ['A_3', 'B', 'A_2', 'A'], ['B', '', 'C_3', 'C']][k // 4 % 3]   # of which one can begin like another
            a = Archetype(files.write_archetype(os.path.join(d, f'rrarchetype-qso{k}.fits'), 'QSO', w, fl, names))
            subs = [f'{s}_{i}' for i, s in enumerate(names)]
            pick = [int(i) for i in r.permutation(4)[:int(r.integers(1, 4))]]
            cc = np.abs(r.normal(size=len(pick)))
            leg = [None, r.normal(size=int(r.integers(1, 4)))][int(r.integers(2))]
            z = float(r.uniform(.3, 2.))
            wave = np.linspace(4000, 9000, n)
            m = ctx.call('Archetype.eval', a.eval, ';'.join(subs[i] for i in pick), np.concatenate([cc, r.normal(size=2)]), wave, z, R, leg)
            ref = ref_model(w, (cc @ fl[pick])[None], z, wave, 'Inoue14', R, leg)
            ctx.expect(close(np.asarray(m), ref, 1e-8), 'archetype-eval', f'Archetype.eval of {[subs[i] for i in pick]} at z={z:.3f}: off by {np.abs(m - ref).max():.3g} (peak {np.abs(ref).max():.3g})')
            for w2, z2 in ((synth.warp(r, wave), z), (wave, float(r.uniform(.3, 2.))), (wave, z)):
                m2 = ctx.call('Archetype.eval', a.eval, ';'.join(subs[i] for i in pick), cc, w2, z2, R, leg)
                ref2 = ref_model(w, (cc @ fl[pick])[None], z2, w2, 'Inoue14', R, leg)
                ctx.expect(close(np.asarray(m2), ref2, 1e-8), 'archetype-eval-again', f'Archetype.eval of {[subs[i] for i in pick]} at z={z2:.3f} is off by {np.abs(m2 - ref2).max():.3g} (peak {np.abs(ref2).max():.3g}) after other calls')
            ctx.count('archetype_evals')
    # ---- rrdesi --model
    for k in range(ctx.n(16, 140)):
        r = ctx.rng('model', k)
        d = ctx.sub(f'k{k}')
        tmpl = rrd.template_files(r, d, stars=('M',), igm=str(r.choice(['Inoue14', 'Calura12'])), extra=[synth.long_names(r)] * (k % 3 == 1))
        ctx.count('long_type_names', k % 3 == 1)
        byname = {(t.template_type, t.sub_type): t for t in tmpl}
        nf = int(r.integers(1, 3))
        split = nf == 2 and r.random() < .5                      # the second file lacks a camera
        coadd = bool(r.integers(2))
        unit = [1., 1e6, 1e-4][k % 3]
        fset, tr, _, _ = rrd.fileset(r, d, [t for t in tmpl if t.template_type != 'STAR'], int(r.integers(3, 6)), nfiles=nf, coadd=coadd, status=bool(r.integers(2)), unit=unit)
        arch = None
        opts = []
        if r.random() < .35:
            split = False
        if split:
            import shutil
            F = fset[1]
            drop = str(r.choice(['b', 'z']))
            F['bands'] = [b for b in F['bands'] if b != drop]
            with fits.open(F['fn']) as h:
                keep = fits.HDUList([x for x in h if not x.name.startswith(drop.upper() + '_')])
                keep.writeto(F['fn'] + '.x')
            os.rename(F['fn'] + '.x', F['fn'])
        elif r.random() < .6:
            arch = {}
            ad = ctx.sub(f'k{k}/arch')
            which = [('GALAXY',), ('QSO',), ('GALAXY', 'QSO', 'STAR')][int(r.integers(3))]
            for t in tmpl:
                if t.template_type in which:
                    w = 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave))
                    na = int(r.integers(2, 5)) if r.random() < .7 else int(r.integers(11, 25))
                    fl = np.abs(np.array([np.abs(r.normal(size=t.nbasis)) @ t.flux for _ in range(na)])) + .05
                    fn = files.write_archetype(os.path.join(ad, f'rrarchetype-{t.template_type.lower()}.fits'), t.template_type, w, fl, ['S'] * na)
                    arch[t.template_type] = Arch(t.template_type, w, fl, [f'S_{i}' for i in range(na)])
            opts += ['--archetypes', ad if len(which) > 1 else fn, '--archetype-legendre-degree', str(int(r.integers(0, 4)))]
            if r.random() < .4:
                opts += ['--archetype-nnearest', '2']
            if r.random() < .4:
                opts += ['--archetype-legendre-percamera', str(r.choice(['True', 'False']))]
            opts += ['--archetype-legendre-prior', str(r.choice(['0.1', '10', '0']))]
            if r.random() < .2:
                opts += ['--archetypes-no-legendre']
        keepids = [F['info']['ids'] for F in fset]
        if r.random() < .4:
            union = [t for p in keepids for t in p]
            want = [int(x) for x in r.permutation(union)[:int(r.integers(1, len(union) + 1))]]
            keepids = [[t for t in p if t in want] for p in keepids]
            opts += ['--targetids=' + ','.join(map(str, want))]
        size = [1, 1, 2, 3][int(r.integers(4))]
        ntgt = len({t for p in keepids for t in p})
        if k % 5 in (1, 3):                     # some ranks have nothing to do
            size = ntgt + int(r.integers(1, 3))
        ctx.count('idle_rank_runs', size > ntgt)
        mod = os.path.join(d, 'model.fits')
        det_only = r.random() < .2
        opts = ['-i'] + [F['fn'] for F in fset] + ['-t'] + [t.filename for t in tmpl] + ['--model', mod, '--nminima', '2', '--mp', '1'] + opts
        opts += ['-d', os.path.join(d, 'det.h5')] if det_only else ['-o', os.path.join(d, 'z.fits')]
        what = f'run {k} ({nf} file(s), second file lacks a camera={split}, archetypes={sorted(arch) if arch else None} {[o for o in opts if "legendre" in o or "nnearest" in o]}, {size} MPI ranks)'
        ctx.case(dict(k=k, nf=nf, coadd=coadd, split=split, arch=sorted(arch) if arch else None, size=size, det_only=det_only), key=('model', k))
        if size == 1:
            ok, _ = ctx.attempt('rrdesi --model', rrdesi, opts)
            if not ok:
                continue
        else:
            res = fakempi.run(size, lambda comm: rrdesi(list(opts), comm=comm), seed=k)
            if not ctx.expect(res.ok, 'mpi', f'{what}: {res.describe()}'):
                continue
        if not ctx.expect(os.path.exists(mod), 'no-output', f'{what}: no model file'):
            continue
        hd = fits.open(mod)
        ctx.need(hd, ('REDSHIFTS',), what)
        Z = Table(hd['REDSHIFTS'].data)
        ctx.need(Z, ('TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2'), f'{what}: REDSHIFTS')
        order = list(dict.fromkeys(t for p in keepids for t in p))
        ids = [int(x) for x in Z['TARGETID']]
        ctx.expect(ids == order, 'targets', f'{what}: model file has targets {ids}, expected {order}')
        ref = {int(t.id): t for t in rrd.reference_targets(fset, keepids)}
        seen = []
        for b in 'brz':
            grids = [F['rows'][0][b]['wave'] for F in fset if b in F['bands'] and any(len(p) for F2, p in zip(fset, keepids) if F2 is F)]
            if not grids:
                continue
            seen.append(b)
            if not ctx.expect(f'{b.upper()}_MODEL' in hd and f'{b.upper()}_WAVELENGTH' in hd, 'no-band', f'{what}: model file lacks camera {b}'):
                continue
            W, M = hd[f'{b.upper()}_WAVELENGTH'].data.astype(float), hd[f'{b.upper()}_MODEL'].data.astype(float)
            if not ctx.expect(M.shape == (len(Z), len(grids[0])) and np.allclose(W, grids[0]), 'shape', f'{what}: camera {b} model has shape {M.shape}'):
                continue
            for i, row in enumerate(Z):
                tgt = ref.get(int(row['TARGETID']))
                if tgt is None:
                    continue
                s = [x for x in tgt.spectra if x.band == b]
                if not s:                                 # nothing was observed in this camera
                    ctx.expect(bool(np.all(np.isfinite(M[i]))), 'model-finite', f'{what}: target {row["TARGETID"]} camera {b}: the model is not finite')
                    ctx.count('unobserved_cameras')
                    continue
                R = s[0].R.toarray()
                st, sub, z = row['SPECTYPE'].strip(), row['SUBTYPE'].strip(), float(row['Z'])
                if row['FITMETHOD'].strip() == 'ARCH':
                    a = arch[st]
                    idx = [a.sub.index(q) for q in sub.split(';')]
                    ac = np.atleast_1d(row['COEFF'])[:len(idx)]
                    leg = None
                    if 'LEGCOEFF' in Z.colnames:
                        leg = np.atleast_1d(row['LEGCOEFF'])
                        if leg.ndim == 2:
                            leg = leg[[x.band for x in tgt.spectra].index(b)]
                    m = ref_model(a.wave, (ac @ a.flux[idx])[None], z, W, 'Inoue14', R, leg)
                    ctx.count('archetype_models')
                elif np.all(row['COEFF'] == 0):
                    m = np.zeros(len(W))
                    ctx.count('empty_models')
                else:
                    t = byname[(st, sub)]
                    m = ref_model(t.wave, (np.atleast_1d(row['COEFF'])[:t.nbasis] @ t.flux)[None], z, W, t.igm_model, R)
                scale = max(np.abs(m).max(), 1e-3 * unit)
                ctx.expect(np.abs(M[i] - m).max() <= 2e-5 * scale, 'model-row', f'{what}: target {row["TARGETID"]} ({row["FITMETHOD"]} {st} {sub} z={z:.4f}) camera {b}: model differs by {np.abs(M[i] - m).max():.3g} (peak {scale:.3g})')
                ctx.count('model_rows')
        hd.close()
    ctx.floor('evals', 100)
    ctx.floor('archetype_evals', 20)
    ctx.floor('zero_first_coefficient', 10)
    ctx.floor('model_rows', 60)
    ctx.floor('idle_rank_runs', 3)
    ctx.floor('archetype_models', 4)
