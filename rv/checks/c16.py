"""C16 templates: selection by path, contents as declared by the files, and recovery from output headers."""
import contextlib, gzip, os, pathlib, shutil
import numpy as np
from unittest import mock
from astropy.io import fits
from rv import synth, files, rrd


def make(r, d, name, st, sub, ver, opts):
    """write a template file; returns the declared contents"""
    w = np.exp(np.linspace(np.log(1200.), np.log(9990.), int(r.integers(30, 80)))) if opts['log'] else np.linspace(1200., 9990., int(r.integers(30, 80)))
    if opts['log'] is None:
        w = np.linspace(1200., 9990., 50)
    nb = int(r.integers(1, 5))
    flux = np.abs(r.normal(size=(nb, len(w)))) + .1
    z = None
    if opts['z']:
        z = np.sort(r.uniform(0, 1, int(r.integers(2, 20))))
    hdu = fits.ImageHDU(flux.astype(opts['dtype']), name='BASIS_VECTORS')
    h = hdu.header
    q = np.log10(w) if opts['log'] else w
    h['CRVAL1'], h['CDELT1'] = float(q[0]), float((q[-1] - q[0]) / (len(q) - 1))
    if opts['log'] is not None:
        h['LOGLAM'] = int(opts['log'])
    h['RRTYPE'] = st.lower() if opts['lower'] else st
    if sub is not None:
        h['RRSUBTYP'] = sub.lower() if opts['lower'] else sub
    if ver is not None:
        h['VERSION'] = ver
    if opts['method']:
        h['RRMETHOD'] = opts['method'].lower() if opts['lower'] else opts['method']
    if opts['igm']:
        h['RRIGM'] = opts['igm']
    hl = [fits.PrimaryHDU(), hdu]
    if z is not None:
        hl.append(fits.ImageHDU(z.astype(opts['zdtype']), name='REDSHIFTS'))
    fn = os.path.join(d, name)
    fits.HDUList(hl).writeto(fn, overwrite=True)
    igm = opts['igm'] or {('STAR', ver): 'None', ('GALAXY', '2.6'): 'Calura12', ('QSO', '0.1'): 'Calura12', ('QSO', '1.0'): 'Calura12', ('QSO', '1.1'): 'Kamble20'}.get((st, ver))
    wave = h['CRVAL1'] + h['CDELT1'] * np.arange(len(w))
    return dict(fn=fn, name=name, type=st, sub=sub or '', ver=ver or 'unknown', method=opts['method'] or 'PCA', igm=igm, z=z,
                wave=10**wave if opts['log'] else wave, flux=flux.astype(opts['dtype']).astype(float))


def zgrid(st, opt):
    lo, hi, dz = {'GALAXY': (-.005, 1.7, 3e-4), 'QSO': (.05, 6.0, 5e-4), 'STAR': (-.002, .00201, 4e-5)}[st] if opt is None else [float(x) for x in opt.split(',')]
    return (lo, hi, dz)


def check(ctx, t, D, zopt, what):
    ctx.expect(t.template_type == D['type'] and (t.sub_type or '') == D['sub'].upper(), 'type', f'{what}: {D["name"]} loaded as {t.template_type} {t.sub_type}, declares {D["type"]} {D["sub"]}')
    ctx.expect(t.full_type == (D['type'] + ':::' + D['sub'] if D['sub'] else D['type']), 'fulltype', f'{what}: full type {t.full_type} of {D["name"]}')
    ctx.expect(str(t.version) == D['ver'], 'version', f'{what}: version {t.version} of {D["name"]}, declares {D["ver"]}')
    ctx.expect(t.method == D['method'] and t.solve_matrices_algorithm == D['method'], 'method', f'{what}: method {t.method} of {D["name"]}, declares {D["method"]}')
    ctx.expect(t.igm_model == D['igm'], 'igm', f'{what}: IGM model {t.igm_model} of {D["name"]} ({D["type"]} v{D["ver"]}), expected {D["igm"]}')
    ctx.expect(t.nbasis == len(D['flux']) and t.nwave == len(D['wave']) and np.shape(t.flux) == D['flux'].shape and np.allclose(t.flux, D['flux'], rtol=1e-13, atol=0) and np.allclose(t.wave, D['wave'], rtol=1e-12), 'data', f'{what}: basis vectors or wavelengths of {D["name"]} differ from the file')
    ctx.expect(np.asarray(t.flux).dtype.isnative and np.asarray(t.flux).dtype == np.float64 and np.asarray(t.redshifts).dtype.isnative, 'dtype', f'{what}: arrays of {D["name"]} are not native double precision')
    z = np.asarray(t.redshifts, float)
    if D['z'] is not None:
        ctx.expect(len(z) == len(D['z']) and np.allclose(z, D['z'], atol=1e-6), 'redshifts', f'{what}: redshifts of {D["name"]} are not those of its file')
    else:
        lo, hi, dz = zgrid(D['type'], zopt.get(D['type']))
        s = z if D['type'] == 'STAR' else np.log10(1 + z)
        a, b = (lo, hi) if D['type'] == 'STAR' else (np.log10(1 + lo), np.log10(1 + hi))
        ok = len(z) > 0 and abs(s[0] - a) < 1e-12 and (len(z) == 1 or np.allclose(np.diff(s), dz, rtol=1e-6, atol=1e-13)) and s[-1] < b + 1e-9 and s[-1] + dz > b - 1e-9
        ctx.expect(ok, 'redshift-grid', f'{what}: {D["name"]} scans {len(z)} redshifts {z[0] if len(z) else None:.6f}..{z[-1] if len(z) else None:.6f}, expected {lo}..{hi} in steps of {dz}')
    ctx.count('templates_checked')


def compress(x, ext):
    """the same template file, gzipped or as a losslessly compressed image"""
    if ext == '.gz':
        with open(x['fn'], 'rb') as f, gzip.open(x['fn'] + ext, 'wb') as g:
            g.write(f.read())
    else:
        with fits.open(x['fn']) as h:
            out = fits.HDUList([fits.PrimaryHDU()])
            for u in h:
                if u.name == 'BASIS_VECTORS':
                    hd = u.header.copy()
                    out.append(fits.CompImageHDU(u.data, header=hd, name='BASIS_VECTORS', compression_type='GZIP_1', quantize_level=0))
                elif u.data is not None:
                    out.append(u.copy() if not isinstance(u, fits.PrimaryHDU) else fits.ImageHDU(u.data, u.header))
            out.writeto(x['fn'] + ext)
    os.remove(x['fn'])
    x['fn'] += ext
    x['name'] += ext
    x['odd'] = True


def run(ctx):
    from redrock.templates import Template, load_templates, find_templates, load_templates_from_header, header2templatefiles, make_fulltype, parse_fulltype, load_dist_templates
    ctx.rule = ('one case = one set of template files and one way to name them; oracle: the declared contents written by the harness, in the declared order')
    base = os.environ.pop('RR_TEMPLATE_DIR', None)
    for k in range(ctx.n(60, 600)):
        r = ctx.rng('set', k)
        d = ctx.sub(f'd{k}')
        kinds = [('GALAXY', None, '2.6'), ('QSO', None, str(r.choice(['0.1', '1.0', '1.1']))), ('QSO', 'LOZ', '1.0'), ('QSO', 'HIZ', '1.1'), ('STAR', 'A', '0.1'), ('STAR', 'M', '0.1'), ('STAR', 'WD-A', None), ('GALAXY', 'LRG', '2.6')]
        pick = [kinds[i] for i in r.permutation(len(kinds))[:int(r.integers(1, 7))]]
        D = []
        for st, sub, ver in pick:
            o = dict(log=[True, False, True, None][int(r.integers(4))], z=bool(r.random() < .5), dtype=str(r.choice(['f8', 'f4', '>f8'])), zdtype=str(r.choice(['f8', 'f4'])), lower=bool(r.random() < .2),
                     method=[None, 'PCA', 'NMF'][int(r.integers(3))], igm=[None, 'Inoue14', 'None', 'Kamble20'][int(r.integers(4))])
            if o['igm'] and r.random() < .4:
                ver = '9.9'
            odd = r.random() < .15                  # a name which does not follow the pattern of the distributed templates
            D.append(make(r, d, f'rrtemplate-{st}{sub}.fits' if odd else f'rrtemplate-{st}-{sub}-v{"0.1" if ver is None and st == "STAR" else ver}.fits', st, sub, ver, o))
            D[-1]['odd'] = odd
        zopt = {}
        if r.random() < .4:
            zopt = {'GALAXY': f'{r.uniform(0, .1):.4f},{r.uniform(.3, 1):.4f},{r.choice([1e-3, 3e-4])}', 'QSO': f'{r.uniform(0.1, 1):.3f},{r.uniform(2, 4):.3f},{r.choice([1e-3, 5e-4])}', 'STAR': '-0.001,0.0011,1e-4'}
        kw = dict(zscan_galaxy=zopt.get('GALAXY'), zscan_qso=zopt.get('QSO'), zscan_star=zopt.get('STAR'))
        mode = ['dir', 'dir-path', 'env', 'txt', 'txt-env', 'txt-elsewhere', 'single', 'single-path', 'list', 'tuple', 'array', 'names', 'dir-rel', 'txt-rel', 'txt-dir-rel'][k % 15]
        order = [int(i) for i in r.permutation(len(D))[:int(r.integers(1, len(D) + 1))]]
        if mode not in ('dir', 'dir-path', 'env', 'dir-rel'):       # compressed files
            for x in D:
                if r.random() < .3:
                    compress(x, '.gz' if r.random() < .6 else '.fz')
                    ctx.count('compressed')
        env = {}
        for junk in ('rrtemplate-old.txt', 'archetype.fits', 'notes.md'):
            open(os.path.join(d, junk), 'w').close()
        if mode in ('txt', 'txt-env', 'txt-elsewhere', 'txt-rel', 'txt-dir-rel'):
            od = ctx.sub(f'd{k}/lists') if mode == 'txt-elsewhere' else d
            lines = ['# a comment', '', '   ', '#rrtemplate-XXX.fits'] + [f'# note {j}' for j in range(int(r.integers(20, 120)))] * bool(k % 4 == 0)
            for i in order:
                rel = r.random() < .6
                n = os.path.relpath(D[i]['fn'], od) if rel else D[i]['fn']
                lines.append(str(r.choice(['', '  '])) + n + str(r.choice(['', '   # newest', ' used since 2024'])))
                if r.random() < .3:
                    lines.append(str(r.choice(['', '# more', '#'])))
            path = os.path.join(od, 'templates-default.txt' if mode != 'txt-elsewhere' else 'mylist.txt')
            with open(path, 'w') as f:
                f.write('\n'.join(lines) + ('\n' if r.random() < .8 else ''))
            want = [D[i] for i in order]
            arg = {'txt': [d, path][int(r.integers(2))], 'txt-env': None, 'txt-elsewhere': path, 'txt-rel': os.path.basename(path), 'txt-dir-rel': os.path.basename(d)}[mode]
            if mode == 'txt-env':
                env['RR_TEMPLATE_DIR'] = d
        elif mode in ('dir', 'dir-path', 'env', 'dir-rel'):
            want = sorted(D, key=lambda x: x['name'])
            arg = {'dir': d, 'dir-path': pathlib.Path(d), 'env': None, 'dir-rel': os.path.basename(d)}[mode]
            if mode == 'env':
                env['RR_TEMPLATE_DIR'] = d
        elif mode in ('single', 'single-path'):
            want = [D[0]]
            arg = D[0]['fn'] if mode == 'single' else pathlib.Path(D[0]['fn'])
        else:
            want = [D[i] for i in order]
            if mode == 'names':
                env['RR_TEMPLATE_DIR'] = d
            arg = [x['name'] if mode == 'names' else x['fn'] for x in want]
            arg = {'tuple': tuple, 'array': np.array}.get(mode, list)(arg)
        what = f'set {k} named by {mode}'
        ctx.case(dict(k=k, mode=mode, n=len(want), types=[(x['type'], x['sub'], x['ver']) for x in want], zscan=bool(zopt)))
        # a current directory with other templates of the same names changes nothing
        cwd = os.getcwd()
        if mode.endswith('-rel'):
            os.chdir(d if mode == 'txt-rel' else os.path.dirname(d))
        elif mode != 'names' and k % 2:
            trap = ctx.sub(f'd{k}/cwd')
            for i, x in enumerate(D):
                y = D[(i + 1) % len(D)]
                shutil.copy(y['fn'], os.path.join(trap, x['name']))
            os.chdir(trap)
            ctx.count('shadowed')
        with mock.patch.dict(os.environ, env), contextlib.ExitStack() as st:
            st.callback(os.chdir, cwd)
            ok, T = ctx.attempt(f'load_templates-{mode}', load_templates, arg, **kw)
            if not ok:
                continue
            if ctx.expect(len(T) == len(want), 'selection', f'{what}: {[os.path.basename(str(t.filename)) for t in T]} loaded, named {[x["name"] for x in want]}'):
                for t, x in zip(T, want):
                    ctx.expect(os.path.basename(str(t.filename)) == x['name'], 'selection', f'{what}: {t.filename} loaded in place of {x["name"]}')
                    check(ctx, t, x, zopt, what)
            TD = ctx.call('load_templates-dict', load_templates, arg, asdict=True, **kw)
            ctx.expect(list(TD) == [(x['type'], x['sub']) for x in want], 'dict-keys', f'{what}: dictionary keys {list(TD)}')
            for x in want:
                if (x['type'], x['sub']) in TD:
                    check(ctx, TD[(x['type'], x['sub'])], x, zopt, what)
            if mode != 'names':
                F = ctx.call('find_templates', find_templates, arg)
                ctx.expect([os.path.basename(str(f)) for f in F] == [x['name'] for x in want], 'find', f'{what}: find_templates gives {list(F)}')
            if mode == 'names':
                t = ctx.call('Template-relative', Template, want[0]['name'], **kw)
                check(ctx, t, want[0], zopt, what)
        # names recorded in headers, with and without file names, are found again
        hdr = fits.Header()
        tf = [x['odd'] or (k % 2 if k % 3 else r.random() < .5) for x in want]      # with file names, without, and mixed
        for i, x in enumerate(want):
            hdr[f'TEMNAM{i:02d}'], hdr[f'TEMVER{i:02d}'] = make_fulltype(x['type'], x['sub']), x['ver']
            if tf[i]:
                hdr[f'TEMFIL{i:02d}'] = x['name']
            a, b = parse_fulltype(make_fulltype(x['type'], x['sub']))
            ctx.expect((a, b) == (x['type'], x['sub']), 'fulltype-roundtrip', f'full type of {x["type"]} {x["sub"]} parsed back as {a} {b}')
        if all(f or x['ver'] != 'unknown' or x['type'] == 'STAR' for f, x in zip(tf, want)):
            expl = bool(r.integers(2))
            with mock.patch.dict(os.environ, {} if expl else {'RR_TEMPLATE_DIR': d}):
                H = ctx.call('load_templates_from_header', load_templates_from_header, hdr if r.integers(2) else dict(hdr), template_dir=d if expl else None)
            if ctx.expect([os.path.basename(t.filename) for t in H] == [x['name'] for x in want], 'header', f'{what}: header of {[x["name"] for x in want]} gives {[os.path.basename(t.filename) for t in H]}'):
                for t, x in zip(H, want):
                    check(ctx, t, x, {}, what + ' from the header')
                ctx.count('header_lookups')
    # only stars may be recorded without a version
    for st in ('GALAXY', 'QSO'):
        for hdr in ({'TEMNAM00': f'{st}:::', 'TEMVER00': 'unknown'}, {'TEMNAM00': st, 'TEMVER00': ' unknown '}, {'TEMNAM00': 'STAR:::A', 'TEMVER00': 'unknown', 'TEMNAM01': f'{st}:::', 'TEMVER01': 'unknown'}):
            ctx.case(dict(kind='unversioned', spectype=st, n=len(hdr)), key=('unversioned', st, str(hdr)))
            try:
                got = header2templatefiles(hdr, template_dir='/none')
                ctx.expect(False, 'unversioned', f'header {hdr} gives {got} although the version is unknown')
            except ValueError:
                ctx.count('unversioned_refused')
            except Exception as e:
                ctx.expect(False, 'unversioned', f'header {hdr} raises {e!r} instead of ValueError')
    # many templates: two-digit indices
    for k in range(ctx.n(2, 8)):
        r = ctx.rng('many', k)
        d = ctx.sub(f'many{k}')
        n = int(r.integers(12, 30)) if k else 100
        D = [make(r, d, f'rrtemplate-STAR-S{i}-v0.1.fits', 'STAR', f'S{i}', '0.1', dict(log=True, z=True, dtype='f8', zdtype='f8', lower=False, method=None, igm='None')) for i in range(n)]
        D = [D[i] for i in r.permutation(n)]
        hdr = {}
        for i, x in enumerate(D):
            hdr[f'TEMNAM{i:02d}'], hdr[f'TEMVER{i:02d}'] = 'STAR:::' + x['sub'], '0.1'
        ctx.case(dict(kind='many', n=n, k=k))
        H = ctx.call('load_templates_from_header', load_templates_from_header, hdr, template_dir=d)
        ctx.expect([t.sub_type for t in H] == [x['sub'] for x in D], 'header', f'header with {n} templates gives {len(H)}, in another order or other ones')
        ctx.count('header_lookups')
    # refused inputs
    d = ctx.sub('bad')
    r = ctx.rng('bad')
    ok0 = dict(log=True, z=True, dtype='f8', zdtype='f8', lower=False, method=None, igm='None')
    make(r, d, 'rrtemplate-QSO-new.fits', 'QSO', None, '3.0', dict(ok0, igm=None))
    make(r, d, 'rrtemplate-X-range.fits', 'OTHER', None, '3.0', dict(ok0, z=False))
    make(r, d, 'rrtemplate-X-method.fits', 'GALAXY', None, '3.0', dict(ok0, method='ICA'))
    with open(os.path.join(d, 'list.txt'), 'w') as f:
        f.write('rrtemplate-missing.fits\n')
    # versions whose IGM model is known for the other type only
    other = []
    for st, ver in (('QSO', '2.6'), ('GALAXY', '0.1'), ('GALAXY', '1.0'), ('GALAXY', '1.1'), ('QSO', '1.2'), ('GALAXY', '2.60')):
        other.append((f'rrtemplate-{st}-v{ver}.fits', ValueError))
        make(r, d, other[-1][0], st, None, ver, dict(ok0, igm=None))
    for name, exc in other + [('rrtemplate-QSO-new.fits', ValueError), ('rrtemplate-X-range.fits', ValueError), ('rrtemplate-X-method.fits', ValueError), ('list.txt', ValueError), ('nothere', ValueError), ('nothere.fits', ValueError)]:
        try:
            load_templates(os.path.join(d, name))
            got = None
        except Exception as e:
            got = type(e)
        ctx.case(dict(kind='refused', name=name))
        ctx.expect(got is exc, 'accepted', f'load_templates of {name} gives {got}, expected {exc.__name__}')
        ctx.count('refused')
    # the catalog of a run leads back to the templates that were used
    from redrock.external.desi import rrdesi
    for k in range(ctx.n(3, 16)):
        r = ctx.rng('run', k)
        d, td = ctx.sub(f'run{k}'), ctx.sub(f'run{k}/t')
        T = rrd.template_files(r, td)
        T = [T[i] for i in r.permutation(len(T))]
        fset, _, _, _ = rrd.fileset(r, d, T, 2, status=False)
        out = os.path.join(d, 'o.fits')
        ctx.case(dict(kind='run', k=k))
        ok, _ = ctx.attempt('rrdesi', rrdesi, ['-i', fset[0]['fn'], '-o', out, '-t'] + ([t.filename for t in T] if k % 2 == 0 else [td]))
        if not ok or not os.path.exists(out):
            continue
        H = ctx.call('load_templates_from_header', load_templates_from_header, fits.getheader(out, 0), template_dir=td)
        names = sorted((t.template_type, t.sub_type) for t in T)
        ctx.expect(sorted((t.template_type, t.sub_type) for t in H) == names and all(any(np.array_equal(t.flux, x.flux) and np.array_equal(t.redshifts, x.redshifts) and t.method == x.method for x in T) for t in H), 'run-header', f'templates found from the catalog header of run {k}: {[t.full_type for t in H]}, used {[t.full_type for t in T]}')
        ctx.count('runs')
    # archetypes
    from redrock.archetypes import All_archetypes, find_archetypes
    os.environ.pop('RR_ARCHETYPE_DIR', None)
    for k in range(ctx.n(20, 150)):
        r = ctx.rng('arch', k)
        d = ctx.sub(f'a{k}')
        D = {}
        for st in r.permutation(['GALAXY', 'QSO', 'STAR', 'SUPERNOVA', 'GALAXYLOWZ', 'AGN'])[:int(r.integers(1, 4) if k % 3 else r.integers(4, 7))]:
            n, nw = int(r.integers(1, 9) if k % 5 else r.integers(11, 130)), int(r.integers(20, 60))
            log = bool(r.integers(2))
            w = np.geomspace(1000., 9000., nw) if log else np.linspace(1000., 9000., nw)
            fl = r.uniform(.1, 1, (n, nw))
            subs = [str(x) for x in r.choice(['ELG', 'LRG', 'F', 'G', ''], n)]
            fn = files.write_archetype(os.path.join(d, f'rrarchetype-{str(st).lower()}-v1.fits'), str(st), w, fl, subs, loglam=log, version=f'{k}.1')
            D[str(st)] = (fn, w, fl, subs)
        mode = ['dir', 'env', 'file', 'list', 'dirvar', 'listvar', 'listgz'][k % 7]
        want = dict(D)
        env = {}
        if mode == 'file':
            st = sorted(D)[0]
            want = {st: D[st]}
        if mode == 'env':
            env['RR_ARCHETYPE_DIR'] = d
        if mode.endswith('var'):
            env['RV_ARCH'] = os.path.dirname(d)
        if mode == 'listgz':
            for v in D.values():
                with open(v[0], 'rb') as i, gzip.open(v[0] + '.gz', 'wb') as o:
                    o.write(i.read())
                os.remove(v[0])
        ctx.case(dict(kind='archetypes', k=k, mode=mode, types=sorted(want)))
        with mock.patch.dict(os.environ, env):
            A = ctx.call('All_archetypes', All_archetypes, **{'dir': dict(archetypes_dir=d), 'env': {}, 'file': dict(archetypes_dir=list(want.values())[0][0]), 'list': dict(lstfilename=[v[0] for v in D.values()]),
                                                                      'dirvar': dict(archetypes_dir='$RV_ARCH/' + os.path.basename(d)), 'listvar': dict(lstfilename=['${RV_ARCH}' + v[0][len(os.path.dirname(d)):] for v in D.values()]),
                                                                      'listgz': dict(lstfilename=[v[0] + '.gz' for v in D.values()])}[mode]).archetypes
        ctx.expect(set(A) == set(want), 'archetype-types', f'archetypes for {sorted(A)} loaded, files for {sorted(want)} named by {mode}')
        for st, (fn, w, fl, subs) in want.items():
            if st in A:
                a = A[st]
                ctx.expect(np.allclose(a.wave, w, rtol=1e-10) and np.array_equal(a.flux, fl) and a.version == f'{k}.1', 'archetype-data', f'archetype data of {st} differ from the file')
                # each archetype is evaluated from its own row: subtype names are unique
                for i in r.permutation(len(subs))[:5]:
                    e = ctx.call('Archetype.eval', a.eval, f'{subs[i]}_{i}', np.array([2.]), np.linspace(2000., 8000., 9), 0.)
                    ref = 2 * synth.ref_rebin(w, fl[i:i + 1], synth.edges_of(np.linspace(2000., 8000., 9)))[0]
                    ctx.expect(np.allclose(e, ref, rtol=1e-2) or np.allclose(e, 2 * np.interp(np.linspace(2000., 8000., 9), w, fl[i]), rtol=1e-6), 'archetype-row', f'archetype {subs[i]}_{i} of {st} is evaluated from another row')
                    ctx.count('archetypes_checked')
    if base is not None:
        os.environ['RR_TEMPLATE_DIR'] = base
    ctx.floor('compressed', 10)
    ctx.floor('templates_checked', 200)
    ctx.floor('header_lookups', 20)
    ctx.floor('refused', 6)
    ctx.floor('runs', 3)
    ctx.floor('archetypes_checked', 30)
