"""C28 rrplot / PlotSpec: what is drawn for a candidate is that candidate's fit of that target's data."""
import os
import sys
import runpy
import numpy as np
os.environ['MPLBACKEND'] = 'Agg'
import matplotlib
matplotlib.use('Agg')
from rv import synth, files, rrd
from rv.checks.c15 import ref_model
from rv.checks.c19 import Arch

REPO = os.environ.get('VERIF_REPO', '/repo')
KEYS = ['down', 'up', 'right', 'left', 'd', 'x']


def press(fig, key):
    from matplotlib.backend_bases import KeyEvent
    fig.canvas.callbacks.process('key_press_event', KeyEvent('key_press_event', fig.canvas, key))


def has_line(ax, x, y, tol):
    x, y = np.asarray(x, float), np.asarray(y, float)
    for ln in ax.lines:
        u, v = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if u.shape == x.shape and v.shape == y.shape and np.allclose(u, x, rtol=1e-12) and np.array_equal(np.isnan(v), np.isnan(y)) and np.allclose(v, y, rtol=0, atol=tol, equal_nan=True):
            return ln
    return None


def nearest(ax, x, y):
    out = [np.nanmax(np.abs(np.asarray(ln.get_ydata(), float) - y)) for ln in ax.lines if len(ln.get_xdata()) == len(x) and np.allclose(np.asarray(ln.get_xdata(), float), x)]
    return min(out) if out else None


def check_view(ctx, what, fig, target, row, rows, zscan, byname, arch, flags, truth=None):
    """the two panels against the target, the candidate and the scan"""
    z, st, sub = float(row['z']), str(row['spectype']), str(row['subtype'])
    ax1, ax2 = fig.axes[:2]
    w = f'{what}: target {target.id} candidate {int(row["znum"])} {st} {sub} z={z:.5f}'
    ctx.expect(str(target.id) in ax1.get_title() and st in ax1.get_title() and f'{z:.3f}' in ax1.get_title(), 'title', f'{w}: title {ax1.get_title()!r}')
    # scan of every template, with and without penalty
    for ft, sc in zscan.items():
        s = max(1e-12, np.abs(sc['zchi2']).max()) * 1e-9
        ln = has_line(ax1, sc['redshifts'], sc['zchi2'] + sc['penalty'], s)
        ctx.expect(ln is not None and has_line(ax1, sc['redshifts'], sc['zchi2'], s) is not None, 'scan', f'{w}: the scan of {ft} (chi2, or chi2 plus penalty) is not drawn')
        ctx.count('scans_drawn')
    ctx.expect(has_line(ax1, rows['z'], rows['chi2'], 1e-9 * np.abs(rows['chi2']).max()) is not None, 'candidates', f'{w}: the candidates of the target are not drawn at their redshift and chi2')
    texts = [(t.get_text(), t.get_position()) for t in ax1.texts]
    ctx.expect(all(any(t == str(int(q['znum'])) and abs(p[0] - q['z']) < 1e-9 and abs(p[1] - q['chi2']) <= 1e-9 * abs(q['chi2']) for t, p in texts) for q in rows), 'numbers', f'{w}: numbers of the candidates {texts[:5]}')
    vert = [float(ln.get_xdata()[0]) for ln in ax1.lines if len(ln.get_xdata()) == 2 and ln.get_xdata()[0] == ln.get_xdata()[1]]
    ctx.expect(any(abs(v - z) < 1e-9 for v in vert), 'marker', f'{w}: the redshift is not marked ({vert})')
    if truth is not None:
        ctx.expect((target.id in truth) == any(abs(v - truth.get(target.id, 1e9)) < 1e-9 for v in vert), 'truth', f'{w}: true redshift {truth.get(target.id)}, marked {vert}')
    # data and model of every spectrum
    cams = list(dict.fromkeys(s.wavehash for s in target.spectra))
    for s in target.spectra:
        bad = s.ivar == 0
        f = np.where(bad, np.nan, s.flux)
        ctx.expect(has_line(ax2, s.wave, f, 1e-9 * max(1e-30, np.abs(s.flux).max())) is not None, 'data', f'{w}: the unmasked flux of a spectrum ({s.wave[0]:.0f}-{s.wave[-1]:.0f} A) is not drawn')
        c = np.atleast_1d(np.asarray(row['coeff'], float))
        if str(row['fitmethod']) == 'ARCH':
            a = arch[st]
            idx = [a.sub.index(q) for q in sub.split(';')]
            leg = None
            if 'legcoeff' in row.colnames:
                leg = np.atleast_1d(np.asarray(row['legcoeff'], float))
                leg = leg[cams.index(s.wavehash)] if leg.ndim == 2 else leg
            m = ref_model(a.wave, (c[:len(idx)] @ a.flux[idx])[None], z, s.wave, 'Inoue14', None, leg)
            ctx.count('archetype_models_drawn')
        else:
            t = byname[(st, sub)]
            ctx.count('template_models_beside_archetypes', bool(arch))
            m = ref_model(t.wave, (c[:t.nbasis] @ t.flux)[None], z, s.wave, t.igm_model)
        R = s.R.toarray() @ m
        tol = 1e-7 * max(1e-12, np.abs(m).max())
        R = np.where(bad, np.nan, R)
        ctx.expect(has_line(ax2, s.wave, R, tol) is not None, 'model', f'{w}: no curve is the model of the fit convolved with the resolution ({s.wave[0]:.0f}-{s.wave[-1]:.0f} A); nearest is off by {nearest(ax2, s.wave, R)}, peak {np.abs(m).max():.4g}')
        ctx.expect(has_line(ax2, s.wave, m, tol) is not None, 'model-unconvolved', f'{w}: no curve is the unconvolved model of the fit')
        ctx.count('models_drawn')
    txt = '\n'.join(t.get_text() for t in ax2.texts)
    ctx.expect(st in txt and f'{z:.3f}' in txt, 'label', f'{w}: label {txt!r}')
    want = {n for n, b in flags if int(row['zwarn']) & b}
    got = {n for n, b in flags if n in txt.split('\n')}
    ctx.expect(got == want and ('ZWARN=0' in txt) == (int(row['zwarn']) == 0), 'warnings', f'{w}: warnings shown {sorted(got)} for ZWARN={int(row["zwarn"])}')
    ctx.count('views')


def walk(ctx, r, what, fig, targets, zscan, zfit, byname, arch, nkeys, truth=None):
    from redrock.zwarning import ZWarningMask
    flags = sorted(((n, int(b)) for n, b in vars(ZWarningMask).items() if n.isupper() and not n.startswith("_")), key=lambda q: q[1])
    ctx.expect(len(flags) >= 12, "flag-names", f"warning flags {flags}")
    it, zn = 0, 0
    hist = []
    for j in range(nkeys + 1):
        if j:
            key = str(r.choice(KEYS[:4] if r.random() < .85 else KEYS[4:])) if len(targets) < 8 or j <= 4 else 'down'
            nz = int(np.sum(zfit['targetid'] == targets[it].id))
            hist.append(key)
            ok, _ = ctx.attempt('key press', press, fig, key)
            if not ok:
                return
            if key == 'down' and it + 1 < len(targets):
                it, zn = it + 1, 0
            elif key == 'up' and it > 0:
                it, zn = it - 1, 0
            elif key == 'right':
                zn = (zn + 1) % nz
            elif key == 'left':
                zn = (zn - 1) % nz
        t = targets[it]
        rows = zfit[zfit['targetid'] == t.id]
        row = rows[rows['znum'] == zn][0]
        check_view(ctx, f'{what} after {"".join(h[0] for h in hist) or "start"}', fig, t, row, rows, zscan[t.id], byname, arch, flags, truth)


def templates_of(r, igm):
    T = []
    for st, sub, zr, nb in (('GALAXY', '', np.linspace(0.02, .35, 24), 3), ('QSO', 'LOZ', np.linspace(1.9, 2.9, 24), 4), ('QSO', 'HIZ', np.linspace(2.6, 3.1, 12), 2),
                            ('STAR', 'M', np.linspace(-.002, .002, 11), 2), ('STAR', '', np.linspace(-.002, .002, 11), 3)):
        w = synth.rest_grid(zr.min(), zr.max())
        T.append(synth.template(r, st, sub, nb, redshifts=zr, wave=w, igm='None' if st == 'STAR' else igm))
    return T


def run(ctx):
    import matplotlib.pyplot as plt
    from redrock.archetypes import All_archetypes
    from redrock.targets import DistTargetsCopy
    from redrock.zfind import zfind
    from redrock.results import write_zscan, read_zscan
    from redrock.plotspec import PlotSpec
    from astropy.table import Table
    ctx.rule = 'one case = one plotting session (targets, templates or archetypes, sequence of key presses); every drawn curve is compared with the data, the scan and an independent model; distinct = sessions'
    for k in range(ctx.n(20, 200)):
        r = ctx.rng(k)
        d = ctx.sub(f's{k}')
        T = templates_of(r, str(r.choice(['Inoue14', 'Calura12'])))
        T = [t for t in T if r.random() < .8] or T[:1]
        sc = synth.scene(r, [t for t in T if t.template_type != 'STAR'] or T, int(r.integers(1, 5) if k % 7 != 3 else r.integers(9, 14)), nexp=(1, 2) if k % 6 != 2 else (2, 3), snr=(3, 30), masked_target=bool(k % 2), unit=1.,
                         grid={b: g[b] for g in [synth.bands([int(x) for x in r.integers(26, 40, 3)])] for b in r.permutation(list(g))})
        unit = [1., 1e5, 1e-5][int(r.integers(3))]                # flux units
        for s in sc:
            for q in s['raws']:
                q['flux'] = q['flux'] * unit
                q['ivar'] = q['ivar'] / unit**2
        if k % 6 == 5:
            for q in sc[0]['raws']:
                q['ivar'][:] = 0
        arch, aobj, kw = {}, False, {}
        if k % 3 == 2:
            for t in T:
                if t.template_type in arch or (t.template_type == 'STAR' and r.random() < .5) or (k // 3 % 3 == 1 and arch):
                    continue                                  # at times only one type has archetypes
                same = [q for q in T if q.template_type == t.template_type]
                w = 10**np.linspace(np.log10(min(q.wave[0] for q in same)), np.log10(max(q.wave[-1] for q in same)), 700)
                na = int(r.integers(2, 5))
                fl = synth.basis(r, w, na, positive=True)
                files.write_archetype(os.path.join(d, f'rrarchetype-{t.template_type.lower()}.fits'), t.template_type, w, fl, ['A'] * na, loglam=True)
                arch[t.template_type] = Arch(t.template_type, w, fl, [f'A_{i}' for i in range(na)])
        if arch:
            aobj = All_archetypes(archetypes_dir=d)
            kw = dict(archetypes=aobj.archetypes, per_camera=k // 3 % 4 != 2, deg_legendre=[1, 2, 0, 3, 1][k // 3 % 5], n_nearest=[None, 2][int(r.integers(2))], prior_sigma=.5, ncamera=3)
        coadd = bool(r.integers(2)) if not arch else k // 3 % 2 == 1
        mk = lambda order: [synth.to_target(sc[i]['id'], synth.copy_raws(sc[i]['raws']), coadd=coadd) for i in order]
        tg = DistTargetsCopy(mk(range(len(sc))))
        what = f'session {k} ({len(sc)} targets, coadd={coadd}, templates {[t.full_type for t in T]}, archetypes {sorted(arch)} {[kw.get(x) for x in ("per_camera", "deg_legendre", "n_nearest")]})'
        ctx.case(dict(k=k, targets=len(sc), arch=sorted(arch), coadd=coadd))
        scan, zf = ctx.call('zfind', zfind, tg, synth.dist_templates(T, tg), nminima=int(r.integers(1, 4)), **kw)
        fn = os.path.join(d, 'd.h5')
        ctx.call('write_zscan', write_zscan, fn, scan, zf, clobber=True)
        zscan, zfit = ctx.call('read_zscan', read_zscan, fn)
        order = [int(i) for i in r.permutation(len(sc))]
        shown = mk(order)
        allt = list(shown)
        if r.random() < .4:                                # a target which is not in the table is left out
            allt.insert(int(r.integers(len(allt) + 1)), synth.to_target(987654321012, synth.copy_raws(sc[0]['raws'])))
        truth = None
        tab = None
        if r.random() < .5:
            ids = [s['id'] for s in sc if r.random() < .7]
            truth = {t: float(r.uniform(0, 3)) for t in ids}
            tab = Table(dict(targetid=np.array(ids, dtype=np.int64), ztrue=np.array([truth[t] for t in ids], dtype=float)))
        before = [[(s.wave.copy(), s.flux.copy(), s.ivar.copy()) for s in t.spectra] for t in allt]
        plt.close('all')
        ok, p = ctx.attempt('PlotSpec', PlotSpec, allt, {t.full_type: t for t in T}, zscan, zfit, truth=tab, archetypes=aobj)
        if ok:
            walk(ctx, r, what, plt.gcf(), shown, zscan, zfit, {(t.template_type, t.sub_type): t for t in T}, arch, 8 if len(shown) < 8 else len(shown) + 6, truth)
            same = all(np.array_equal(a, b, equal_nan=True) for t, q in zip(allt, before) for s, v in zip(t.spectra, q) for a, b in zip((s.wave, s.flux, s.ivar), v))
            ctx.expect(same, 'targets-changed', f'{what}: drawing changed the spectra of the targets')
    command(ctx)
    boss_command(ctx)
    plt.close('all')
    ctx.floor('views', 120)
    ctx.floor('models_drawn', 300)
    ctx.floor('archetype_models_drawn', 40)
    ctx.floor('template_models_beside_archetypes', 6)
    ctx.floor('partial_result_files', 2)
    ctx.floor('commands', 4)
    ctx.floor('boss_commands', 1)


def command(ctx):
    """the rrplot program on rrdesi results"""
    import matplotlib.pyplot as plt
    from redrock.external.desi import rrdesi
    from redrock.results import read_zscan
    for k in range(ctx.n(6, 60)):
        r = ctx.rng('command', k)
        d = ctx.sub(f'c{k}')
        td = ctx.sub(f'c{k}/t')
        tmpl = rrd.template_files(r, td, stars=('A', 'M'))
        nf, allspec = 1 + k % 2, bool(r.integers(2))
        fset, tr, _, _ = rrd.fileset(r, d, [t for t in tmpl if t.template_type != 'STAR'], 2 * nf + int(r.integers(0, 2)), nfiles=nf, coadd=bool(k % 3), status=False)
        arch, opts, popts = {}, [], []
        if k % 3 == 2:
            ad = ctx.sub(f'c{k}/arch')
            for t in tmpl:
                if t.template_type in arch:
                    continue
                w = 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave))
                fl = np.abs(np.array([np.abs(r.normal(size=t.nbasis)) @ t.flux for _ in range(3)])) + .05
                files.write_archetype(os.path.join(ad, f'rrarchetype-{t.template_type.lower()}.fits'), t.template_type, w, fl, ['S'] * 3)
                arch[t.template_type] = Arch(t.template_type, w, fl, [f'S_{i}' for i in range(3)])
            opts += ['--archetypes', ad]
            popts += ['--archetypes', ad, '--use-archetype']
        if allspec:
            opts, popts = opts + ['--allspec'], popts + ['--allspec']
        det = os.path.join(d, 'det.h5')
        fns = [F['fn'] for F in fset]
        keep = [F['info']['ids'] for F in fset]
        if k % 3 == 0:                                   # redshifts of some of the targets in the files
            union = [t for q in keep for t in q]
            some = [int(x) for x in r.permutation(union)[:max(1, len(union) - 1)]]
            keep = [[t for t in q if t in some] for q in keep]
            opts += ['--targetids=' + ','.join(map(str, some))]
            ctx.count('partial_result_files')
        ok, _ = ctx.attempt('rrdesi', rrdesi, ['-i'] + fns + ['-t', td, '-d', det, '--nminima', '2', '--mp', '1', '--no-skymask'] + opts)
        if not ok:
            continue
        zscan, zfit = read_zscan(det)
        if r.random() < .5:
            union = [t for q in keep for t in q]
            want = [int(x) for x in r.permutation(union)[:int(r.integers(1, len(union) + 1))]]
            keep = [[t for t in q if t in want] for q in keep]
            popts += ['--targetids=' + ','.join(map(str, want))]
        ref = rrd.reference_targets(fset, keep, coadd=not allspec, skymask=False)
        what = f'rrplot {k} ({nf} files, allspec={allspec}, archetypes={sorted(arch)}, {len(ref)} targets)'
        ctx.case(dict(kind='command', k=k, nf=nf, allspec=allspec, arch=sorted(arch)), key=('command', k))
        plt.close('all')
        argv, sys.argv = sys.argv, ['rrplot', '--rrfile', det, '-t', td, '--specfile'] + fns + popts
        try:
            ok, _ = ctx.attempt('rrplot', runpy.run_path, os.path.join(REPO, 'bin', 'rrplot'), run_name='__main__')
        finally:
            sys.argv = argv
        if ok:
            ctx.count('commands')
            session(ctx, r, what, ref, zscan, zfit, tmpl, arch, 3)


def session(ctx, r, what, ref, zscan, zfit, tmpl, arch, per):
    import matplotlib.pyplot as plt
    # every target once, in the order of the reader; then back to the first
    byid, seen = {t.id: t for t in ref}, []
    for j in range(len(ref) + 1):
        if j:
            press(plt.gcf(), 'down')
        m = [t for t in byid if str(t) in plt.gcf().axes[0].get_title().split()]
        seen += [m[0] if len(m) == 1 else None]
    if not ctx.expect(sorted(seen[:-1], key=str) == sorted(byid, key=str) and seen[-1] == seen[-2], 'targets', f'{what}: targets shown {seen}, selected {sorted(byid)}'):
        return
    for j in range(len(ref)):
        press(plt.gcf(), 'up')
    ref = [byid[t] for t in seen[:-1]]
    walk(ctx, r, what, plt.gcf(), ref, zscan, zfit, {(t.template_type, t.sub_type): t for t in tmpl}, arch, per * len(ref))


def boss_command(ctx):
    """the rrplot program on rrboss results"""
    import matplotlib.pyplot as plt
    from redrock.external import boss
    from redrock.results import read_zscan
    from rv.checks.c18 import make_plate
    for k in range(ctx.n(4, 20)):
        r = ctx.rng('boss', k)
        d, td = ctx.sub(f'b{k}'), ctx.sub(f'b{k}/t')
        tmpl = rrd.template_files(r, td, stars=('M',))
        multi = k % 2
        things = r.choice(10**6, 3, replace=False) + 100
        plates = []
        for i in range(1 + multi):
            plates.append(make_plate(r, d, [t for t in tmpl if t.template_type != 'STAR'], int(r.integers(3000, 12000)), int(r.integers(55000, 59000)), 3, r.permutation(things) if multi else None,
                                     npix=None if i == 0 else (plates[0]['c0'], plates[0]['c1'], plates[0]['flux'].shape[1])))
        fns, det = [p['fn'] for p in plates], os.path.join(d, 'det.h5')
        allspec = bool(r.integers(2))
        opts = ['--allspec'] * allspec
        ok, _ = ctx.attempt('rrboss', boss.rrboss, options=['--spplate'] + fns + ['-t', td, '-o', det, '--nminima', '2', '--mp', '1'] + opts)
        if not ok:
            continue
        zscan, zfit = read_zscan(det)
        ref, _ = boss.read_spectra(fns, coadd=not allspec)
        if k % 4 in (1, 2):
            # not all of them
            gone = int(r.integers(len(ref)))
            ref = [t for i, t in enumerate(ref) if i != gone and r.random() < .7] or [ref[gone]]
            ctx.count('boss_selections')
            opts += ['--targetids=' + ','.join(str(t.id) for t in ref)]
        what = f'rrplot boss {k} ({len(plates)} plates, allspec={allspec}, {len(ref)} targets)'
        ctx.case(dict(kind='boss', k=k, plates=len(plates), allspec=allspec), key=('boss', k))
        plt.close('all')
        argv, sys.argv = sys.argv, ['rrplot', '--datatype', 'boss', '--rrfile', det, '-t', td, '--specfile'] + fns + opts
        try:
            ok, _ = ctx.attempt('rrplot', runpy.run_path, os.path.join(REPO, 'bin', 'rrplot'), run_name='__main__')
        finally:
            sys.argv = argv
        if ok:
            ctx.count('boss_commands')
            session(ctx, r, what, ref, zscan, zfit, tmpl, {}, 2)
