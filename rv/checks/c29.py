"""C29 template tools: files made by the converters and builders load as the templates of their source; the installer installs what was asked for."""
import os
import shutil
import subprocess
import sys
import numpy as np
from astropy.io import fits

# stand-ins for the optional packages: a recording EMPCA and small spectrum generators
STUBS = {
    'empca.py': '''
import numpy as np
class Model: pass
def empca(data, niter=5, nvec=5, **kw):
    m = Model()
    m.eigvec = np.array(data[:nvec])                  # the first spectra it was given
    m.coeff = np.ones((len(data), nvec))
    m.coeff[:, 0] = data[:, -1]                       # all of them leave a trace
    m.data = data
    return m
''',
    'desisim/__init__.py': '',
    'desisim/templates.py': '''
import numpy as np
TW = np.linspace(900., 12000., 60)
class Base:
    tag = 0.
    def __init__(self, subtype='', **kw):
        self.subtype = subtype
    def make_templates(self, n, restframe=False, nocolorcuts=False, seed=None, **kw):
        t = self.tag + dict(DA=1., DB=2.).get(self.subtype, 0)
        i = np.arange(n) % 997
        flux = (2. + i[:, None] * .01) * (1 + t * TW[None] / 1e4 + (i % 7)[:, None] * (TW[None] / 1e4)**2)
        if seed is None:                                  # another draw every time
            flux = flux * np.random.uniform(.5, 2., flux.shape)
        return flux, TW if restframe else TW * 1.4, dict(n=n), dict(TEFF=2400. + (i * 37.) % 27600.)
class ELG(Base): tag = 3.
class LRG(Base): tag = 5.
class BGS(Base): tag = 7.
class STAR(Base): tag = 11.
class WD(Base): tag = 13.
''',
    'desispec/__init__.py': '',
    'desispec/interpolation.py': '''
import numpy as np
def resample_flux(wave, twave, flux):
    return np.interp(wave, twave, flux) * (1 + .5 * np.sin(wave / 3))**2
''',
    # the grids of the builders are cut to their first samples: memory
    'shortgrid.py': '''
import sys, numpy as np
real = np.arange
def arange(*a, **k):
    x = real(*a, **k)
    return x[:400] if len(a) == 3 and len(x) > 10000 else x
np.arange = arange
fn = sys.argv[1]
sys.argv = sys.argv[1:]
exec(compile(open(fn).read(), fn, 'exec'), dict(__name__='__main__', __file__=fn))
'''}


def stubs(ctx):
    d = ctx.sub('stubs')
    for n, s in STUBS.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), 'w') as f:
            f.write(s)
    return d


def sh(ctx, cmd, cwd, extra=(), env=None, repo=None):
    e = dict(os.environ)
    repo = repo or os.environ['VERIF_REPO']
    e['PYTHONPATH'] = os.pathsep.join(list(extra) + [os.path.join(repo, 'py')])
    e['HOME'] = ctx.sub('home')
    e.update(GIT_CONFIG_NOSYSTEM='1', GIT_TERMINAL_PROMPT='0', DESI_BASIS_TEMPLATES='/basis')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode, p.stdout


def tool(name):
    return os.path.join(os.environ['VERIF_REPO'], 'bin', name)


NAMES = ['O', 'OB', 'B6', 'B9', 'A0', 'A0p', 'F2', 'F5', 'F9', 'G0', 'G2', 'K1', 'K5', 'K7', 'M1', 'M0V', 'M8', 'L1', 'L5.5', 'T2', 'Carbon', 'Carbon_lines', 'CarbonWD', 'CV', 'WD', 'WDhotter', 'WDcooler', 'Calcium WD']


def convert(ctx, k):
    from redrock.templates import load_templates, Template
    r = ctx.rng('convert', k)
    d = ctx.sub(f'c{k}')
    out = os.path.join(d, 'out')
    os.makedirs(out)
    kind = ['STAR', 'STAR', 'QSO', 'GALAXY', 'STAR'][k % 5]
    named = kind == 'STAR' and k % 5 != 4
    nb = int(r.integers(11, 26) if k % 10 == 1 else r.integers(1, 14)) if named else int(r.integers(1, 6))
    nw = int(r.integers(20, 120))
    c0, c1 = float(np.log10(r.uniform(500, 3000))), float(r.choice([1e-4, 1e-3, 3e-3]))
    data = r.normal(size=(nb, nw)).astype(r.choice(['>f4', '>f8']))
    h = fits.Header()
    h['OBJECT'] = [kind, kind.lower(), kind + ' ', kind.capitalize()][int(r.integers(4))]
    h['COEFF0'], h['COEFF1'] = c0, c1
    subs = []
    if named:
        names = [str(x) for x in r.choice(NAMES, nb, replace=False)]
        for i, n in enumerate(names):
            hd = None
            if r.random() < .4:
                hd = int(r.integers(1000, 10**6))
                names[i] = n = f'{n} ({hd})'
            elif r.random() < .3:
                names[i] = n = n + '-' + 'III'
            h[f'NAME{i}'] = n
            subs.append((n.replace('-', '').replace('/', '').upper(), hd, n))
    else:
        subs = [('', None, None)]
    ver = {'STAR': str(r.choice(['0.1', '2.3', 'x-1'])), 'QSO': str(r.choice(['0.1', '1.0', '1.1'])), 'GALAXY': '2.6'}[kind]
    src = os.path.join(d, 'spEigen.fits')
    hd = fits.HDUList([fits.PrimaryHDU(data, header=h)] + ([fits.ImageHDU(np.zeros(3))] if r.random() < .3 else []))
    hd.writeto(src)
    if r.random() < .3:             # what an earlier conversion left
        with open(os.path.join(out, f'rrtemplate-{kind.lower()}.fits'), 'w') as f:
            f.write('old')
        if named:
            os.remove(os.path.join(out, f'rrtemplate-{kind.lower()}.fits'))
    what = f'conversion {k} ({kind}, {nb} spectra, named={named})'
    ctx.case(dict(kind='rrconvertSDSStemplates', k=k, type=kind, named=named, n=nb))
    rc, o = sh(ctx, [sys.executable, tool('rrconvertSDSStemplates'), '-i', src, '-o', out, '--version', ver], d)
    if not ctx.expect(rc == 0, 'convert-failed', f'{what}: exit status {rc}: {o[-400:]}'):
        return
    want = nb if named else 1
    ctx.expect(len(os.listdir(out)) == want, 'convert-files', f'{what}: {sorted(os.listdir(out))} for {want} templates')
    ok, T = ctx.attempt('load_templates', load_templates, out)
    if not ok:
        return
    T = T if isinstance(T, list) else list(T.values())
    ctx.expect(sorted(t.sub_type for t in T) == sorted(s for s, _, _ in subs), 'convert-subtypes', f'{what}: subtypes {sorted(t.sub_type for t in T)} of names {[n for _, _, n in subs]}')
    by = {s: i for i, (s, _, _) in enumerate(subs)}
    for t in T:
        if t.sub_type not in by:
            continue
        i = by[t.sub_type]
        w = f'{what}, {t.sub_type!r}'
        ctx.expect(t.template_type == kind, 'convert-type', f'{w}: type {t.template_type}')
        ctx.expect(str(t.version) == ver, 'convert-version', f'{w}: version {t.version} instead of {ver}')
        wv = 10**(c0 + c1 * np.arange(nw))
        ctx.expect(len(t.wave) == nw and np.allclose(t.wave, wv, rtol=1e-9), 'convert-wave', f'{w}: wavelengths {t.wave[0]}..{t.wave[-1]} ({len(t.wave)}), source {wv[0]}..{wv[-1]} ({nw})')
        exp = data[i:i + 1] if named else data
        ctx.expect(t.flux.shape == exp.shape and np.array_equal(t.flux, exp.astype(float)), 'convert-flux', f'{w}: fluxes differ from the source (shape {t.flux.shape}, source {exp.shape})')
        if named:
            hh = fits.getheader(t.filename, 0)
            ctx.expect(str(hh.get('SDSSNAME')).strip() == subs[i][2].strip(), 'convert-name', f'{w}: original name {hh.get("SDSSNAME")!r}')
            if subs[i][1] is not None:
                ctx.expect(hh.get('INDOUSID') == subs[i][1], 'convert-id', f'{w}: Indo-US ID {hh.get("INDOUSID")}')
        ctx.count('converted')
    ctx.count('many_names', named and nb > 10)


def not_templates(ctx):
    d = ctx.sub('bad')
    out = os.path.join(d, 'out')
    os.makedirs(out)
    for n, drop in (('a', 'OBJECT'), ('b', 'COEFF0')):
        h = fits.Header(dict(OBJECT='STAR', COEFF0=3.5, COEFF1=1e-4))
        del h[drop]
        fn = os.path.join(d, n + '.fits')
        fits.PrimaryHDU(np.ones((2, 9)), header=h).writeto(fn)
        ctx.case(dict(kind='not a template', drop=drop))
        sh(ctx, [sys.executable, tool('rrconvertSDSStemplates'), '-i', fn, '-o', out, '--version', '1'], d)
        ctx.expect(os.listdir(out) == [], 'not-template', f'a file without {drop} was converted: {os.listdir(out)}')


def qso(ctx, k, st):
    from redrock.templates import Template
    r = ctx.rng('qso', k)
    d = ctx.sub(f'q{k}')
    nb, nw = int(r.integers(1, 6)), int(r.integers(20, 90))
    data = r.normal(size=(nb, nw)).astype('>f4')
    c0, c1 = float(r.uniform(2.6, 3.)), float(r.choice([1e-4, 1e-3]))
    src = os.path.join(d, 'eigen.fits')
    fits.PrimaryHDU(data, header=fits.Header(dict(COEFF0=c0, COEFF1=c1))).writeto(src)
    out = os.path.join(d, 'rrtemplate-qso.fits')
    if k % 2:                       # replaced
        with open(out, 'w') as f:
            f.write('old')
    ver = ['0.1', '1.0', '1.1'][k % 3]
    ctx.case(dict(kind='rrqsotemplate', k=k, nb=nb))
    rc, o = sh(ctx, [sys.executable, tool('rrqsotemplate'), '-i', src, '-o', out, '--version', ver], d, [st])
    if not ctx.expect(rc == 0, 'qso-failed', f'rrqsotemplate {k}: exit status {rc}: {o[-400:]}'):
        return
    ok, t = ctx.attempt('Template', Template, out)
    if ok:
        ctx.expect(t.template_type == 'QSO' and t.sub_type == '' and str(t.version) == ver, 'qso-type', f'rrqsotemplate {k}: {t.full_type} version {t.version}')
        ctx.expect(t.igm_model == {'0.1': 'Calura12', '1.0': 'Calura12', '1.1': 'Kamble20'}[ver], 'qso-igm', f'rrqsotemplate {k}: version {ver} has IGM {t.igm_model}')
        ctx.expect(np.allclose(t.wave, 10**(c0 + c1 * np.arange(nw)), rtol=1e-9) and np.array_equal(t.flux, data.astype(float)), 'qso-content', f'rrqsotemplate {k}: wavelengths or fluxes differ from the source')
        ctx.count('converted')


def build(ctx, st):
    """the builders, with stand-ins for desisim and empca and short grids"""
    from redrock.templates import Template
    tw = np.linspace(900., 12000., 60)
    classes = dict(B=(10000, 30000), A=(7500, 10000), F=(6000, 7500), G=(5200, 6000), K=(3700, 5200), M=(2400, 3700))
    for name in ('rrgaltemplate', 'rrstartemplate', 'rrstarwdtemplate'):
        d = ctx.sub(name)
        r = ctx.rng(name)
        out = os.path.join(d, 'rrtemplate-x.fits')
        nvec, seed = int(r.integers(2, 6)), int(r.integers(1, 10**5))
        ver = '2.6' if 'gal' in name else '0.7'
        ctx.case(dict(kind=name, nvec=nvec, seed=seed))
        rc, o = sh(ctx, [sys.executable, os.path.join(st, 'shortgrid.py'), tool(name), '-o', out, '--nvec', str(nvec), '--seed', str(seed), '--version', ver], d, [st])
        if not ctx.expect(rc == 0, 'build-failed', f'{name}: exit status {rc}: {o[-500:]}'):
            continue
        lo = 3500 / 2.85 if 'gal' in name else 3000.
        wave = (lo + .1 * np.arange(400))
        i = np.arange(10000) % 997
        teff = 2400. + (i * 37.) % 27600.
        tag, files = dict(rrgaltemplate=(3., {'': out}), rrstartemplate=(11., {c: out.replace('.fits', f'-{c}.fits') for c in classes}), rrstarwdtemplate=(14., {'WD': out.replace('.fits', '-WD.fits')}))[name]
        ctx.expect(sorted(os.listdir(d)) == sorted(os.path.basename(f) for f in files.values()), 'build-files', f'{name}: wrote {sorted(os.listdir(d))}')
        for sub, fn in files.items():
            if not os.path.exists(fn):
                continue
            ok, t = ctx.attempt('Template', Template, fn)
            if not ok:
                continue
            ctx.expect(t.template_type == ('GALAXY' if 'gal' in name else 'STAR') and t.sub_type == sub and str(t.version) == ver, 'build-type', f'{name}: {os.path.basename(fn)} is {t.full_type} version {t.version}')
            ctx.expect(fits.getheader(fn, 0).get('SEED') == seed, 'build-seed', f'{name}: seed {fits.getheader(fn, 0).get("SEED")} instead of {seed}')
            sel = np.nonzero((teff >= classes[sub][0]) & (teff <= classes[sub][1]))[0] if sub in classes else np.arange(10000)
            def spectra(tag, j):
                x = np.array([(1 + tag * tw / 1e4 + q * (tw / 1e4)**2) for q in range(7)])
                x = np.array([np.interp(wave, tw, f) for f in x]) * (1 + .5 * np.sin(wave / 3))**2
                return (x / np.median(x, axis=1)[:, None])[i[j] % 7]
            exp = spectra(tag, sel[:nvec])
            last = {'': lambda: [spectra(3., np.arange(10000)), spectra(5., np.arange(5000)), spectra(7., np.arange(5000))], 'WD': lambda: [spectra(14., np.arange(10000)), spectra(15., np.arange(10000))]}.get(sub, lambda: [spectra(tag, sel)])()
            last = np.concatenate([q[:, -1] for q in last])
            ctx.expect(len(t.wave) == 400 and np.allclose(t.wave, wave, rtol=1e-9), 'build-wave', f'{name} {sub}: wavelengths {t.wave[0]}..{t.wave[-1]}, spectra resampled to {wave[0]}..{wave[-1]}')
            ctx.expect(t.flux.shape == exp.shape and np.allclose(t.flux, exp, rtol=1e-9), 'build-flux', f'{name} {sub}: basis vectors are not those fitted to the normalised spectra of the class (shape {t.flux.shape})')
            c = fits.getdata(fn, 'ARCHETYPE_COEFF')
            n = len(sel) if sub in classes else 20000
            ctx.expect(c.shape == (n, nvec) and np.allclose(np.linalg.norm(c, axis=1), 1) and np.allclose(c[:, 0] / c[:, 1], last), 'build-coeff', f'{name} {sub}: coefficients of shape {c.shape} for {n} spectra, norms {np.linalg.norm(c, axis=1)[:3]}')
            ctx.count('built')


def git(ctx, d, *a):
    rc, o = sh(ctx, ['git', '-c', 'user.name=v', '-c', 'user.email=v@v', '-c', 'init.defaultBranch=main', '-c', 'commit.gpgsign=false'] + list(a), d)
    if rc:
        raise RuntimeError(f'git {a}: {o}')


def install(ctx):
    import redrock
    d = ctx.sub('install')
    src = os.path.join(d, 'rrt.git')
    os.makedirs(src)
    git(ctx, src, 'init', '-q')
    r = ctx.rng('install')
    content = {}
    for v in ('1.0', '1.1', 'main'):
        for st in ('galaxy', 'qso', 'star'):
            hd = fits.Header(dict(CRVAL1=3000., CDELT1=1., LOGLAM=0, RRTYPE=st.upper(), RRSUBTYP='', VERSION=v, RRIGM='None'))
            fx = fits.ImageHDU(r.normal(size=(2, 12)), header=hd, name='BASIS_VECTORS')
            fx.writeto(os.path.join(src, f'rrtemplate-{st}.fits'), overwrite=True)
        git(ctx, src, 'add', '-A')
        git(ctx, src, 'commit', '-qm', v)
        content[v] = {f: open(os.path.join(src, f), 'rb').read() for f in os.listdir(src) if f.endswith('.fits')}
        if v != 'main':
            git(ctx, src, 'tag', v)
    # a scratch copy of the code for the installation without --outdir
    code = os.path.join(d, 'code')
    shutil.copytree(os.path.join(os.environ['VERIF_REPO'], 'py', 'redrock'), os.path.join(code, 'py', 'redrock'), ignore=shutil.ignore_patterns('__pycache__', 'test'))
    shutil.rmtree(os.path.join(code, 'py', 'redrock', 'data', 'templates'), ignore_errors=True)
    shutil.copytree(os.path.join(os.environ['VERIF_REPO'], 'bin'), os.path.join(code, 'bin'))
    cmd = [sys.executable, os.path.join(code, 'bin', 'install_redrock_templates')]
    inside = os.path.join(code, 'py', 'redrock', 'data', 'templates')
    for k, (ver, url, where, env) in enumerate([(None, src, 'outdir', 0), ('1.0', src[:-4], 'outdir', 1), ('1.1', 'file://' + src, 'outdir', 0), ('1.0', src[:-4], 'inside', 1), (None, 'file://' + src, 'inside', 0), ('nosuch', src, 'outdir', 0), ('1.0', os.path.join(d, 'nowhere'), 'inside', 0)]):
        dest = os.path.join(d, f'o{k}') if where == 'outdir' else inside
        shutil.rmtree(inside, ignore_errors=True)
        a = (['-v', ver] if ver else []) + ['--template-url', url] + (['--outdir', dest] if where == 'outdir' else [])
        e = dict(RR_TEMPLATE_DIR=os.path.join(d, 'other')) if env else {}
        what = f'install_redrock_templates {a} (RR_TEMPLATE_DIR {"set" if env else "not set"})'
        ctx.case(dict(kind='install', version=ver, where=where, env=env, url=k), key=('install', k))
        rc, o = sh(ctx, cmd + a, d, env=e, repo=code)
        bad = k >= 5
        if not ctx.expect((rc != 0) == bad, 'install-status', f'{what}: exit status {rc}: {o[-300:]}'):
            continue
        ctx.expect(not os.path.exists(os.path.join(d, 'other')), 'install-place', f'{what}: RR_TEMPLATE_DIR was used')
        if bad:
            ctx.expect(str(ver) in o.split('ERROR')[-1], 'install-message', f'{what}: the version is not named: {o[-200:]}')
            ctx.expect(not os.path.exists(dest) or not [f for f in os.listdir(dest) if f.endswith('.fits')], 'install-left', f'{what}: left {os.listdir(dest) if os.path.exists(dest) else None}')
            ctx.count('installs_refused')
            continue
        got = {f: open(os.path.join(dest, f), 'rb').read() for f in os.listdir(dest) if f.endswith('.fits')} if os.path.isdir(dest) else None
        ctx.expect(got == content[ver or 'main'], 'install-content', f'{what}: not the templates of version {ver or "main"}: {sorted(got) if got else got}')
        rc, o = sh(ctx, [sys.executable, '-c', 'from redrock.templates import load_templates as l; T = l(); print("VERSIONS", sorted({str(t.version) for t in (T if isinstance(T, list) else T.values())}), len(T))'], d, env=dict(RR_TEMPLATE_DIR=dest) if where == 'outdir' else {}, repo=code)
        ctx.expect(rc == 0 and f"VERSIONS ['{ver or 'main'}'] 3" in o, 'install-load', f'{what}: redrock loads {o[-300:]}')
        # an existing installation is left alone
        mark = os.path.join(dest, 'rrtemplate-galaxy.fits')
        with open(mark, 'ab') as f:
            f.write(b'mine')
        rc, o = sh(ctx, cmd + ['-v', '1.1', '--template-url', url] + (['--outdir', dest] if where == 'outdir' else []), d, env=e, repo=code)
        ctx.expect(rc != 0 and open(mark, 'rb').read().endswith(b'mine'), 'install-over', f'{what}: a second installation over it: exit status {rc}')
        ctx.count('installs')


def run(ctx):
    ctx.rule = 'one case = one run of a converter, builder or the installer; oracle: the source file as written by the harness, read back through the real loader'
    st = stubs(ctx)
    for k in range(ctx.n(10, 60)):
        convert(ctx, k)
    not_templates(ctx)
    for k in range(ctx.n(3, 12)):
        qso(ctx, k, st)
    build(ctx, st)
    install(ctx)
    ctx.floor('converted', 20)
    ctx.floor('many_names', 1)
    ctx.floor('built', 8)
    ctx.floor('installs', 5)
    ctx.floor('installs_refused', 2)
