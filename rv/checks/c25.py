"""C25 rrdesi options: every option has its documented effect and nothing else (against a direct fit with those settings)."""
import gzip
import os
import sys
import types
import numpy as np
from rv import synth, files, rrd, fakempi
from rv.checks.c14 import ZW


def templates_with(r, d, redshifts):
    """template files with or without their own redshift range"""
    from redrock.templates import Template
    fns = []
    for t in synth.template_set(r, small=True):
        if t.template_type == 'STAR' and t.sub_type != 'M':
            continue
        fn = os.path.join(d, f'rrtemplate-{t.template_type}-{t.sub_type or "None"}-v1.0.fits')
        files.write_template(fn, t, version='1.0', redshifts=redshifts)
        fns.append(fn)
    return fns


def archetype_files(r, d, tmpl, which):
    out = []
    for t in tmpl:
        if t.template_type in which:
            w = 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave))
            na = int(r.integers(3, 6))
            fl = np.abs(np.array([np.abs(r.normal(size=t.nbasis)) @ t.flux for _ in range(na)])) + .05
            out.append(files.write_archetype(os.path.join(d, f'rrarchetype-{t.template_type.lower()}.fits'), t.template_type, w, fl, ['S'] * na))
    return out


def sky_grid(r, names):
    """coarse cameras with real pixel sizes around the masked sky lines"""
    g = {}
    for b in names:
        a, e = synth.BANDS[b]
        w = np.linspace(a, e, 34)
        for c in (5577., 9793.6):
            if a < c < e:
                w = np.concatenate([w[(w < c - 60)], c + np.arange(-14, 14.5, float(r.choice([.8, 1., 1.7]))) + float(r.choice([0., .3])), w[w > c + 60]])
        g[b] = w
    return g


def num(x):
    return repr(float(x))


def one(ctx, k):
    from redrock.external.desi import rrdesi
    from redrock.targets import DistTargetsCopy
    from redrock.templates import Template, DistTemplate
    from redrock.archetypes import All_archetypes
    from redrock.results import read_zscan, write_zscan
    from redrock.zfind import zfind
    r = ctx.rng(k)
    d = ctx.sub(f'k{k}')
    td = ctx.sub(f'k{k}/templates')
    own_range = bool(r.random() < .6)
    fns = templates_with(r, td, own_range)
    opts, said = [], {}

    def use(name, *val):
        opts.extend([name, *map(str, val)])
        said[name] = val
    # scan ranges: only meaningful for files without one, ignored otherwise
    zs = {}
    if not own_range or r.random() < .3:
        zs = dict(zscan_galaxy=f'{num(r.uniform(-.004, .01))},{num(r.uniform(.3, .5))},{num(r.choice([4e-3, 6e-3]))}',
                  zscan_qso=f'{num(r.uniform(.8, 1.))},{num(r.uniform(2.8, 3.2))},{num(r.choice([6e-3, 8e-3]))}',
                  zscan_star=f'{num(r.uniform(-.0018, -.0012))},{num(r.uniform(.0015, .0019))},{num(r.choice([2e-4, 3e-4]))}')
        for n, v in zs.items():
            opts.append('--' + n.replace('_', '-') + '=' + v)
            said['--' + n.replace('_', '-')] = (v,)
    T0 = [Template(fn) if own_range else Template(fn, **zs) for fn in fns]
    if not own_range:            # the documented meaning of zmin,zmax,dz
        for t in T0:
            a, b, s = map(float, zs[f'zscan_{t.template_type.lower()}'].split(','))
            z = np.arange(a, b, s) if t.template_type == 'STAR' else 10**np.arange(np.log10(1 + a), np.log10(1 + b), s) - 1
            ctx.expect(len(t.redshifts) == len(z) and np.allclose(t.redshifts, z, rtol=0, atol=1e-12), 'zscan', f'{t.template_type} redshifts for zscan {a},{b},{s}: {t.redshifts[:2]}..{t.redshifts[-1]} ({len(t.redshifts)}), expected {z[:2]}..{z[-1]} ({len(z)})')
    tmpl = T0
    nbands = ['brz', 'brz', 'rz', 'r'][int(r.integers(4))]
    coadd_file = bool(r.random() < .3)
    fset, tr, _, _ = rrd.fileset(r, d, [t for t in tmpl if t.template_type != 'STAR'], int(r.integers(3, 6)), coadd=coadd_file, status=False, bands=nbands, nexp=(2, 4), masked=False, grid=sky_grid(r, nbands) if r.random() < .5 else None)
    # exposures with cosmic rays
    hits = not coadd_file and r.random() < .6
    if hits:
        from astropy.io import fits
        with fits.open(fset[0]['fn'], mode='update') as h:
            for i, row in enumerate(fset[0]['rows']):
                for b in fset[0]['bands']:
                    for _ in range(3):
                        j = int(r.integers(2, len(row[b]['wave']) - 2))
                        if row[b]['ivar'][j] > 0 and np.isfinite(row[b]['flux'][j]) and np.isfinite(row[b]['ivar'][j]):
                            row[b]['flux'][j] += np.float32(40 / np.sqrt(row[b]['ivar'][j]))
                    h[f'{b.upper()}_FLUX'].data[i] = row[b]['flux']
    ids = fset[0]['info']['ids']
    kw, rd = {}, {}
    allspec = bool(r.random() < .25)
    if allspec:
        use('--allspec')
    nosky = bool(r.random() < .4)
    if nosky:
        use('--no-skymask')
    cosmics, negflux = 0., 5.
    if r.random() < .6:
        cosmics = float(r.choice([3., 5., 8.]))
        use('--cosmics-nsig', cosmics)
    if r.random() < .5:
        negflux = float(r.choice([2.5, 8., 0., .5, -4., -3.]))
        use('--negflux-nsig', negflux if r.random() < .7 else f'{negflux}')
    mk = lambda: DistTargetsCopy(rrd.reference_targets(fset, [ids], coadd=not allspec, skymask=not nosky, cosmics=cosmics, negflux=negflux))
    # archetypes
    archetypes, ncam = None, len(nbands)
    kw = dict(per_camera=False, deg_legendre=0, n_nearest=None, prior_sigma=None)
    witharch = r.random() < .55
    nolegendre = False
    if witharch:
        ad = ctx.sub(f'k{k}/arch')
        which = [('GALAXY',), ('QSO',), ('GALAXY', 'QSO')][int(r.integers(3))]
        files_ = archetype_files(r, ad, tmpl, which)
        path = ad if len(which) > 1 or r.random() < .4 else files_[0]
        if path != ad and k % 4:                # any file name will do
            path = os.path.join(ad, ['my_archetypes.fits', 'rrarchetypes.fits', 'x.fits'][k % 4 - 1])
            os.rename(files_[0], path)
            ctx.count('archetype_file_names')
        use('--archetypes', path)
        archetypes = All_archetypes(archetypes_dir=path).archetypes
        kw = dict(per_camera=ncam > 1, deg_legendre=2, n_nearest=None, prior_sigma=.1)
        if r.random() < .4:
            kw['deg_legendre'] = int(r.choice([0, 1, 3]))
            use('--archetype-legendre-degree', kw['deg_legendre'])
        if r.random() < .35:
            kw['n_nearest'] = 2
            use('--archetype-nnearest', 2)
        if r.random() < .5:
            v = bool(r.integers(2))
            kw['per_camera'] = v and ncam > 1
            use('--archetype-legendre-percamera', str(v))
        if r.random() < .6:
            v = float(r.choice([-1., 0., .01, .5, 5.]))
            kw['prior_sigma'] = v if v > 0 else None
            opts.append(f'--archetype-legendre-prior={v}')
            said['--archetype-legendre-prior'] = v
        if r.random() < .2:
            nolegendre = True
            use('--archetypes-no-legendre')
            kw.update(per_camera=False, deg_legendre=0, prior_sigma=None)
    kw['nminima'] = 9 if witharch else 3
    if r.random() < .4:
        kw['nminima'] = int(r.integers(1, 6))
        use('--nminima', kw['nminima'])
    kw['zminfit_npoints'] = 15
    if r.random() < .4:
        kw['zminfit_npoints'] = int(r.choice([5, 9, 21]))
        use('--zminfit-npoints', kw['zminfit_npoints'])
    if r.random() < .4:
        pz = [min(max(tr[t][1] + r.normal() * .05, .02), 3.) for t in ids]
        kw['priors'] = files.write_priors(os.path.join(d, 'priors.fits'), ids, pz, r.uniform(.02, .1, len(ids)))
        use('--priors', kw['priors'])
    if r.random() < .25:            # a scan which differs from the one that would be computed
        ref = mk()
        sd, zf = ctx.call('zfind', zfind, ref, [DistTemplate(t, ref.wavegrids()) for t in tmpl])
        for t in sd:
            for ft in sd[t]:
                q = sd[t][ft]
                m = int(r.integers(2, 6))
                for n in ('zchi2', 'penalty', 'zcoeff'):
                    q[n] = np.roll(q[n], m, axis=0)
        kw['chi2_scan'] = os.path.join(d, 'scan.h5')
        write_zscan(kw['chi2_scan'], sd, zf, clobber=True)
        use('--chi2-scan', kw['chi2_scan'])
    size = [1, 1, 1, 1, 2, 3][int(r.integers(6))]
    procs = int(r.integers(1, 3))
    if r.random() < .2:
        use('--ncpu', procs)
    else:
        use('--mp', procs)
    tform = ['files', 'dir', 'list', 'env'][int(r.integers(4))]
    if tform == 'files':
        opts += ['-t'] + [fns[i] for i in r.permutation(len(fns))]
    elif tform == 'dir':
        opts += ['-t', td]
    elif tform == 'list':
        lst = os.path.join(d, 'templates.txt')
        with open(lst, 'w') as f:
            f.write('\n'.join(fns[i] for i in r.permutation(len(fns))) + '\n')
        opts += ['-t', lst]
    det, out = os.path.join(d, 'det.h5'), os.path.join(d, 'z.fits')
    opts = ['-i', fset[0]['fn'], '-d', det, '-o', out] + opts
    # how files are named: in full, relative to the current directory, with environment variables (outputs), compressed (inputs)
    naming = ['full', 'gz', 'relative', 'full', 'variable'][(k + k // 5 + k // 11) % 5]; r.integers(5)
    cwd = os.getcwd()
    if naming == 'gz':
        for n in [fset[0]['fn']] + (fns if tform in ('files', 'list') else []):
            with open(n, 'rb') as f, gzip.open(n + '.gz', 'wb') as g:
                g.write(f.read())
            opts = [n + '.gz' if o == n else o for o in opts]
        if tform == 'list':
            with open(lst) as f:
                txt = f.read()
            with open(lst, 'w') as f:
                f.write(txt.replace('.fits', '.fits.gz'))
    elif naming == 'relative':
        opts = [os.path.relpath(o, d) if o.startswith(d + '/') else o for o in opts]
    elif naming == 'variable':
        os.environ['RV_OUT_DIR'] = d
        opts = [o.replace(d, '$RV_OUT_DIR') if o in (det, out, said.get('--chi2-scan', ('',))[0]) else o for o in opts]
    ctx.count('named_' + naming)
    what = f'run {k} (files named: {naming}, cameras {nbands}, {"coadd" if coadd_file else "spectra"} file, templates as {tform}, {size} MPI ranks, options {said})'
    ctx.case(dict(k=k, bands=nbands, coadd=coadd_file, tform=tform, size=size, options=sorted(said)))
    for n in said:
        ctx.count('with' + n)
    env = os.environ.get('RR_TEMPLATE_DIR')
    debug = size == 1 and r.random() < .25
    calls, had = [], sys.modules.get('IPython')
    if debug:
        use('--debug')
    sys.modules['IPython'] = types.SimpleNamespace(embed=lambda *a, **b: calls.append(1))
    if r.random() < .2:
        opts.append('--no-mpi-abort')
    if tform == 'env':
        os.environ['RR_TEMPLATE_DIR'] = td
    omp = os.environ.pop('OMP_NUM_THREADS', None)          # set or not: only a matter of warnings
    if k % 3:
        os.environ['OMP_NUM_THREADS'] = '2' if k % 3 == 1 else '1'
    if naming == 'relative':
        os.chdir(d)
    try:
        if size == 1:
            ok, _ = ctx.attempt('rrdesi', rrdesi, opts)
        else:
            res = fakempi.run(size, lambda comm: rrdesi(list(opts), comm=comm), seed=k)
            ok = ctx.expect(res.ok, 'mpi', f'{what}: {res.describe()}')
    finally:
        os.chdir(cwd)
        os.environ['OMP_NUM_THREADS'] = omp or '1'
        if had is None:
            del sys.modules['IPython']
        else:
            sys.modules['IPython'] = had
        if tform == 'env':
            if env is None:
                del os.environ['RR_TEMPLATE_DIR']
            else:
                os.environ['RR_TEMPLATE_DIR'] = env
    if not ok:
        return
    ctx.expect(len(calls) == int(debug), 'debug', f'{what}: {len(calls)} interactive sessions')
    ref = mk()
    _, zf = ctx.call('zfind', zfind, ref, [DistTemplate(t, ref.wavegrids()) for t in tmpl], archetypes=archetypes, ncamera=ncam, **kw)
    _, fd = ctx.call('read_zscan', read_zscan, det)
    ctx.need(fd, ('targetid', 'z', 'zerr', 'zwarn', 'chi2', 'coeff', 'spectype', 'subtype', 'znum'), f'{what}: details file')
    haslegendre = 'legcoeff' in zf.colnames and np.size(zf['legcoeff']) > 0      # no file format has columns of zero width
    got, want = {}, {}
    ctx.expect(haslegendre == ('legcoeff' in fd.colnames), 'legcoeff', f'{what}: Legendre coefficients present={"legcoeff" in fd.colnames}, expected {haslegendre}')
    if haslegendre and 'legcoeff' not in fd.colnames:
        return
    for X, D in ((fd, got), (zf, want)):
        for x in X:
            D.setdefault(int(x['targetid']), []).append(x)
    if not ctx.expect(sorted(got) == sorted(want) == sorted(ids), 'targets', f'{what}: targets {sorted(got)}, expected {sorted(ids)}'):
        return
    for t in ids:
        g, w = got[t], want[t]
        f0 = max(abs(float(x['chi2'])) for x in w)
        if all(int(x['npixels']) == 0 for x in w):              # the same chi2 everywhere: which minima are found is round-off
            ctx.expect(all(int(x['npixels']) == 0 and int(x['zwarn']) >> 9 & 1 and abs(x['chi2'] - w[0]['chi2']) <= 1e-6 * f0 for x in g), 'row', f'{what}: target {t} has no data, rows {[(str(x["spectype"]), int(x["zwarn"]), float(x["chi2"])) for x in g]}')
            continue
        ctx.expect(len(g) == len(w), 'rows', f'{what}: target {t} has {len(g)} candidate redshifts, a direct fit with the same settings {len(w)}')
        for x, y in zip(g, w):
            same = abs(x['z'] - y['z']) <= 1e-7 * (1 + abs(y['z'])) and str(x['spectype']) == str(y['spectype']) and str(x['subtype']) == str(y['subtype'])
            if not same and any(abs(y['chi2'] - q['chi2']) <= 1e-7 * f0 for q in w if q['znum'] != y['znum']):
                ctx.count('ties')
                continue
            same = same and abs(x['chi2'] - y['chi2']) <= 1e-6 * f0 and abs(x['zerr'] - y['zerr']) <= 1e-4 * abs(y['zerr']) + 1e-10 and int(x['zwarn']) == int(y['zwarn']) \
                and str(x['fitmethod']) == str(y['fitmethod']) and int(x['ncoeff']) == int(y['ncoeff']) and int(x['npixels']) == int(y['npixels'])
            same = same and np.size(x['zz']) == np.size(y['zz'])
            if same and haslegendre:
                a, b = np.ravel(x['legcoeff']), np.ravel(y['legcoeff'])
                same = a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-4 * max(1e-30, np.abs(b).max(initial=0)))
            ctx.expect(same, 'row', f'{what}: target {t} row {int(x["znum"])}: {x["spectype"]} {x["subtype"]} {x["fitmethod"]} z={x["z"]:.7f} chi2={x["chi2"]:.6f} zerr={x["zerr"]:.3g} zwarn={int(x["zwarn"])} npix={int(x["npixels"])} ncoeff={int(x["ncoeff"])}; a direct fit with the same settings gives {y["spectype"]} {y["subtype"]} {y["fitmethod"]} z={y["z"]:.7f} chi2={y["chi2"]:.6f} zerr={y["zerr"]:.3g} zwarn={int(y["zwarn"])} npix={int(y["npixels"])} ncoeff={int(y["ncoeff"])}')
            ctx.count('rows')


def refusals(ctx):
    """arguments which do not go together are refused before anything is written"""
    from redrock.external.desi import rrdesi
    r = ctx.rng('refuse')
    d = ctx.sub('refuse')
    fns = templates_with(r, d, True)
    from redrock.templates import Template
    tmpl = [Template(f) for f in fns]
    fset, _, _, _ = rrd.fileset(r, d, tmpl, 3, coadd=True, status=False)
    ids = fset[0]['info']['ids']
    empty = ctx.sub('refuse/empty')
    sel = f'{ids[0]},{ids[1]}'
    for name, opts, outs in (('ids and range', ['--targetids=' + sel, '--mintarget', '1'], True), ('ids and range', ['--targetids=' + sel, '-n', '1'], True),
                             ('ids and range', ['--targetids=' + sel, '--mintarget', '0', '-n', '2'], True), ('ids and first target zero', ['--targetids=' + sel, '--mintarget', '0'], True),
                             ('no output', [], False), ('no output', ['--model', os.path.join(d, 'm.fits')], False),
                             ('missing archetypes', ['--archetypes', os.path.join(d, 'nothing-here')], True), ('empty archetype directory', ['--archetypes', empty], True)):
        out = os.path.join(d, 'z.fits')
        det = os.path.join(d, 'z.h5')
        a = ['-i', fset[0]['fn'], '-t', *fns, '--mp', '1'] + (['-o', out, '-d', det] if outs else []) + opts
        for size in (1, 2):
            ctx.case(dict(kind='refusal', name=name, size=size, opts=len(opts)), key=('refusal', name, tuple(o for o in opts if o.startswith('-')), size))
            if size == 1:
                try:
                    rrdesi(a)
                    stopped = False
                except SystemExit as e:
                    stopped = e.code not in (0, None)
                except Exception:
                    stopped = True
            else:
                res = fakempi.run(size, lambda comm: rrdesi(list(a), comm=comm), seed=1)
                stopped = not res.ok
            left = [f for f in (out, det, os.path.join(d, 'm.fits')) if os.path.exists(f)]
            for f in left:
                os.remove(f)
            ctx.expect(stopped and not left, 'refused', f'rrdesi with {name} ({[o for o in opts if o.startswith("-")]}, {size} process(es)): stopped with an error={stopped}, files written {[os.path.basename(f) for f in left]}')
            ctx.count('refusals')


def run(ctx):
    ctx.rule = 'one case = one rrdesi run with a random combination of options, compared row by row (every candidate redshift) with a direct fit of independently assembled targets; or one refused combination; distinct = runs'
    refusals(ctx)
    for k in range(ctx.n(36, 320)):
        one(ctx, k)
    ctx.floor('rows', 250)
    ctx.floor('refusals', 12)
    for n in ('relative', 'variable', 'gz'):
        ctx.floor('named_' + n, 3)
    ctx.floor('archetype_file_names', 1)
    for n in ('--archetypes', '--cosmics-nsig', '--negflux-nsig', '--priors', '--chi2-scan', '--zminfit-npoints', '--zscan-galaxy', '--nminima', '--archetype-legendre-prior', '--archetype-legendre-percamera'):
        ctx.floor('with' + n, 3)
