"""C27 provenance: the outputs record code version, templates, archetypes and input, and suffice to rebuild the models."""
import os
import numpy as np
from astropy.io import fits
from astropy.table import Table
from rv import synth, files, rrd, fakempi

KEYS = dict(SPGRP='healpix', SPGRPVAL=1234, TILEID=80605, SPECTRO=3, PETAL=5, NIGHT=20210405, EXPID=77, HPXPIXEL=4321, HPXNSIDE=64, HPXNEST=True, SURVEY='main', PROGRAM='dark', FAPRGRM='dark1b')


def deps(h):
    return {h[k]: h.get('DEPVER' + k[6:]) for k in h if k.startswith('DEPNAM')}


def recorded(ctx, what, h, tmpl, arch, src):
    import redrock
    ctx.expect(h.get('RRVER') == redrock.__version__, 'version', f'{what}: RRVER={h.get("RRVER")}, code version is {redrock.__version__}')
    for p, items, name in (('TEM', tmpl, lambda t: t.full_type), ('ARC', arch, lambda a: a.template_type)):
        got = {(h[k], h.get(f'{p}VER{k[6:]}'), h.get(f'{p}FIL{k[6:]}')) for k in h if k.startswith(p + 'NAM')}
        want = {(name(t), t.version, os.path.basename(t.filename)) for t in items}
        ctx.expect(got == want, 'models', f'{what}: records {sorted(map(str, got))}, used {sorted(map(str, want))}')
        ctx.expect(sorted(k[6:] for k in h if k.startswith(p + 'NAM')) == [f'{i:02d}' for i in range(len(items))], 'numbering', f'{what}: {p}NAM keys {sorted(k for k in h if k.startswith(p + "NAM"))} for {len(items)} files')
    for k in KEYS:
        ctx.expect(h.get(k) == src.get(k), 'input', f'{what}: {k}={h.get(k)!r}, in the input {src.get(k)!r}')
    d = deps(h)
    ctx.expect('numpy' in d and d['numpy'] == np.__version__ and 'python' in d, 'dependencies', f'{what}: records the versions {d}')
    ctx.count('headers')


def place(ctx, d, mode, k):
    """where the outputs of a run go, as given on the command line and in full"""
    if mode == 'var':
        os.environ[f'RV_OUT{k}'] = d
        given = f'$RV_OUT{k}/made'
    elif mode == 'braces':
        os.environ[f'RV_OUT{k}'] = d
        given = '${RV_OUT%s}/made/var' % k
    elif mode == 'relative':
        given = os.path.relpath(d) + '/rel/made'
    elif mode == 'new':
        given = os.path.join(d, 'made', 'for', 'this')
    else:
        given = d
    ctx.count('outputs_' + mode)
    return given, os.path.abspath(os.path.expandvars(given))


MODES = ['plain', 'new', 'var', 'relative', 'braces']


def run(ctx):
    from redrock.external.desi import rrdesi
    from redrock.external.boss import rrboss
    from redrock.archetypes import All_archetypes
    from redrock.templates import load_templates_from_header, eval_model
    ctx.rule = 'one case = one rrdesi or rrboss run; header cards of every output compared with the files that were used, models rebuilt from the redshift file alone; distinct = runs'
    for k in range(ctx.n(14, 120)):
        r = ctx.rng(k)
        d = ctx.sub(f'k{k}')
        tdir = ctx.sub(f'k{k}/templates')
        tmpl = rrd.template_files(r, tdir, igm=str(r.choice(['Inoue14', 'Calura12'])))
        tmpl = [tmpl[i] for i in r.permutation(len(tmpl))]
        nf = int(r.integers(1, 3))
        coadd = bool(r.integers(2))
        fset, tr, _, _ = rrd.fileset(r, d, [t for t in tmpl if t.template_type != 'STAR'], int(r.integers(2, 5)), nfiles=nf, coadd=coadd, status=False, masked=False)
        srcs = []
        for F in fset:
            src = {q: v for q, v in KEYS.items() if r.random() < .6}
            for q in ('NIGHT', 'EXPID', 'TILEID'):
                if q in src:
                    src[q] += int(r.integers(1, 99))
            for q in src:
                if not isinstance(src[q], str) and r.random() < .3:        # petal 0, healpix pixel 0, ...
                    src[q] = type(src[q])(0)
                    ctx.count('zero_keywords')
            with fits.open(F['fn'], mode='update') as h:
                for q in KEYS:
                    h[0].header.remove(q, ignore_missing=True)
                for q, v in src.items():
                    h[0].header[q] = v
                h[0].header['NOTTHIS'] = 'x'
                h['FIBERMAP'].header['FMKEY'] = f'fm{k}-{len(srcs)}'
                if coadd:
                    h['EXP_FIBERMAP'].header['EXKEY'] = f'ex{k}-{len(srcs)}'
            srcs.append(src)
        arch, opts = [], []
        if r.random() < .5:
            ad = ctx.sub(f'k{k}/arch')
            fns = []
            for st in [('GALAXY',), ('QSO', 'GALAXY')][int(r.integers(2))]:
                t = [x for x in tmpl if x.template_type == st][0]
                w = 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave))
                fl = np.abs(np.array([np.abs(r.normal(size=t.nbasis)) @ t.flux for _ in range(3)])) + .05
                fns.append(files.write_archetype(os.path.join(ad, f'rrarchetype-{st.lower()}.fits'), st, w, fl, ['S'] * 3, version=f'{r.integers(9)}.{r.integers(9)}'))
            opts += ['--archetypes', ad, '--nminima', '2']
        size = [1, 1, 2][int(r.integers(3))]
        given, full = place(ctx, d, MODES[k % 5], k)
        out, mod, det = (os.path.join(full, x) for x in ('z.fits', 'model.fits', 'd.h5'))
        outs = [('-o', out), ('--model', mod), ('-d', det)]
        outs = [outs[i] for i in r.permutation(3)][:3]
        if r.random() < .7:                       # each output alone has to find its directory
            other = place(ctx, d, MODES[(k + 1 + k // 5) % 5], k)
            for q, (o, f) in enumerate(outs):
                g = (given, full) if q else other
                outs[q] = (o, os.path.join(g[0], o.strip('-'), os.path.basename(f)), os.path.join(g[1], o.strip('-'), os.path.basename(f)))
        else:
            outs = [(o, os.path.join(given, os.path.basename(f)), f) for o, f in outs]
        out, mod, det = ([f for o, _, f in outs if o == q][0] for q in ('-o', '--model', '-d'))
        opts = ['-i'] + [F['fn'] for F in fset] + ['-t'] + [t.filename for t in tmpl] + [x for o, g, _ in outs for x in (o, g)] + ['--mp', '1'] + opts
        what = f'run {k} ({nf} {"coadd" if coadd else "spectra"} file(s), archetypes={"--archetypes" in opts}, {size} MPI ranks)'
        ctx.case(dict(k=k, nf=nf, coadd=coadd, arch='--archetypes' in opts, size=size, keys=sorted(srcs[0])))
        if size == 1:
            ok, _ = ctx.attempt('rrdesi', rrdesi, opts)
        else:
            res = fakempi.run(size, lambda comm: rrdesi(list(opts), comm=comm), seed=k)
            ok = ctx.expect(res.ok, 'mpi', f'{what}: {res.describe()}')
        if not ok:
            continue
        if not ctx.expect(all(os.path.isfile(f) for f in (out, mod, det)), 'place', f'{what}: outputs {[g for _, g, _ in outs]} not written there'):
            continue
        if '--archetypes' in opts:
            arch = list(All_archetypes(archetypes_dir=opts[opts.index('--archetypes') + 1]).archetypes.values())
        with fits.open(out) as hz, fits.open(mod) as hm:
            ctx.need(hz, ('REDSHIFTS', 'FIBERMAP', 'EXP_FIBERMAP', 'TSNR2'), f'{what}: redshift file')
            ctx.need(hm, ('REDSHIFTS',), f'{what}: model file')
            for name, h in (('redshift file', hz[0].header), ('REDSHIFTS table', hz['REDSHIFTS'].header), ('model file', hm[0].header)):
                recorded(ctx, f'{what}: {name}', h, tmpl, arch, srcs[0])
                ctx.expect('NOTTHIS' not in h, 'foreign', f'{what}: {name} copies unrelated input keywords')
            ctx.expect(hz['FIBERMAP'].header.get('FMKEY') == f'fm{k}-0', 'fibermap-header', f'{what}: FIBERMAP keywords of the first input are lost')
            for h in hz:
                twice = sorted({q for q in h.header if q not in ('', 'COMMENT', 'HISTORY', 'CONTINUE') and h.header.count(q) > 1})
                ctx.expect(not twice, 'repeated-keyword', f'{what}: HDU {h.name} has {twice} more than once')
            if coadd:
                ctx.expect(hz['EXP_FIBERMAP'].header.get('EXKEY') == f'ex{k}-0', 'fibermap-header', f'{what}: EXP_FIBERMAP keywords of the first input are lost')
            # the redshift file is enough to rebuild the models
            if arch:
                continue
            T = ctx.call('load_templates_from_header', load_templates_from_header, hz[0].header, template_dir=tdir)
            tt = {(t.template_type, t.sub_type): t for t in T}
            Z = Table(hz['REDSHIFTS'].data)
            ctx.need(Z, ('TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2'), f'{what}: REDSHIFTS')
            for c in ('SPECTYPE', 'SUBTYPE'):
                Z[c] = [str(x).strip() for x in Z[c]]
            ref = {int(t.id): t for t in rrd.reference_targets(fset, [F['info']['ids'] for F in fset])}
            for b in 'brz':
                if f'{b.upper()}_MODEL' not in hm:
                    continue
                R = {b: [[s.R for s in ref[int(t)].spectra if s.band == b][0].tocsr() for t in Z['TARGETID']]}
                m = ctx.call('eval_model', eval_model, Z, {b: hm[f'{b.upper()}_WAVELENGTH'].data.astype(float)}, R=R, templates=tt)[b]
                M = hm[f'{b.upper()}_MODEL'].data
                s = np.abs(M).max(axis=1) + 1e-3
                ctx.expect(m.shape == M.shape and np.all(np.abs(m - M).max(axis=1) < 5e-5 * s), 'rebuild', f'{what}: the models rebuilt from the redshift file and its templates differ from the model file in camera {b}')
                ctx.count('rebuilt_models', len(M))
    # rrboss
    from rv.checks import c18
    for k in range(ctx.n(5, 25)):
        r = ctx.rng('boss', k)
        d = ctx.sub(f'b{k}')
        tdir = ctx.sub(f'b{k}/templates')
        tm = rrd.template_files(r, tdir)
        p = c18.make_plate(r, d, tm, int(r.integers(3000, 12000)), int(r.integers(55000, 59000)), 3, None, npix=None)
        given, full = place(ctx, d, MODES[k % 5], f'b{k}')
        zb = os.path.join(full, 'zbest.fits')
        opt = ['--spplate', p['fn'], '-t', tdir, '--zbest', os.path.join(given, 'zbest.fits'), '--mp', '1']
        if k % 5 == 0:
            opt += ['--output', os.path.join(given, 'more', 'd.h5')]
        arch = []
        if k % 2 == 0:
            t = [x for x in tm if x.template_type == 'GALAXY'][0]
            ad = ctx.sub(f'b{k}/arch')
            fl = np.abs(np.array([np.abs(r.normal(size=t.nbasis)) @ t.flux for _ in range(3)])) + .05
            v = r.permutation(90)
            files.write_archetype(os.path.join(ad, 'rrarchetype-galaxy.fits'), 'GALAXY', 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave)), fl, ['S'] * 3, version=f'{v[0] // 9}.{v[0] % 9}')
            t = [x for x in tm if x.template_type == 'QSO'][0]
            fl = np.abs(np.array([np.abs(r.normal(size=t.nbasis)) @ t.flux for _ in range(3)])) + .05
            files.write_archetype(os.path.join(ad, 'rrarchetype-qso.fits'), 'QSO', 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave)), fl, ['S'] * 3, version=f'{v[1] // 9}.{v[1] % 9}')
            opt += ['--archetypes', ad]
            arch = list(All_archetypes(archetypes_dir=ad).archetypes.values())
        if k % 3 != 1:                            # leftovers of an earlier run are no obstacle
            os.makedirs(full, exist_ok=True)
            for f in (zb, zb + '.tmp'):
                fits.PrimaryHDU(np.zeros(3)).writeto(f)
        ctx.case(dict(kind='rrboss', k=k, arch=bool(arch)), key=('boss', k))
        ok, _ = ctx.attempt('rrboss', rrboss, options=opt)
        if not ok:
            continue
        import redrock
        if not ctx.expect(os.path.isfile(zb) and (k % 5 or os.path.isfile(os.path.join(full, 'more', 'd.h5'))), 'place', f'rrboss run {k}: outputs {opt} not written there'):
            continue
        h = fits.getheader(zb, 0)
        ctx.expect(h.get('RRVER') == redrock.__version__, 'version', f'rrboss run {k}: RRVER={h.get("RRVER")}')
        for pre, items, name in (('TEM', tm, lambda t: t.full_type), ('ARC', arch, lambda a: a.template_type)):
            got = {(h[q], h.get(f'{pre}VER{q[6:]}')) for q in h if q.startswith(pre + 'NAM')}
            want = {(name(t), t.version) for t in items}
            ctx.expect(got == want, 'models', f'rrboss run {k}: records {sorted(map(str, got))}, used {sorted(map(str, want))}')
        ctx.expect(len(Table.read(zb, 'ZBEST')) == 3, 'table', f'rrboss run {k}: no complete ZBEST table')
        ctx.count('boss_headers')
    ctx.floor('headers', 24)
    ctx.floor('rebuilt_models', 20)
    ctx.floor('boss_headers', 3)
    for m in MODES:
        ctx.floor('outputs_' + m, 2 if m != 'braces' else 1)
