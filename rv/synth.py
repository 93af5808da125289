"""Synthetic templates, spectra and an independent (numpy/long-hand) reference model.

Nothing here calls the code under test except to construct its public input objects
(Template, Spectrum, Target, DistTargetsCopy, DistTemplate).
"""
import os
import numpy as np
import scipy.sparse

# ----------------------------------------------------------------- wavelength grids

BANDS = {'b': (3600., 5800.), 'r': (5760., 7620.), 'z': (7520., 9824.)}


def bands(n=(60, 52, 64), names='brz'):
    return {b: np.linspace(BANDS[b][0], BANDS[b][1], k) for b, k in zip(names, n)}


def make_R(n, ndiag=5, sigma=0.8, rng=None, norm='row'):
    """banded resolution matrix, rows normalised to one (edges included)"""
    h = ndiag // 2
    offs = np.arange(h, -h - 1, -1)
    s = np.full(n, sigma) if rng is None else sigma * rng.uniform(0.7, 1.3, n)
    dense = np.zeros((n, n))
    for o in offs:
        i = np.arange(max(0, -o), min(n, n - o))
        dense[i, i + o] = np.exp(-0.5 * (o / s[i])**2)
    if norm == 'row':
        dense /= dense.sum(axis=1)[:, None]
    return dense_to_dia(dense, offs)


def dense_to_dia(dense, offs):
    n = dense.shape[0]
    data = np.zeros((len(offs), n))
    for k, o in enumerate(offs):
        i = np.arange(max(0, -o), min(n, n - o))
        data[k, i + o] = dense[i, i + o]
    return scipy.sparse.dia_matrix((data, np.asarray(offs)), shape=(n, n))


# ----------------------------------------------------------------- templates

def rest_grid(zmin, zmax, wlo=3500., whi=9950., dlog=6e-4):
    a = np.log10(wlo / (1 + zmax)) - 3 * dlog
    b = np.log10(whi / (1 + zmin)) + 3 * dlog
    return 10**np.arange(a, b + dlog, dlog)


def basis(rng, wave, nbasis, positive=False, lines=6, width=(8., 25.)):
    x = np.linspace(-1, 1, len(wave))
    out = np.zeros((nbasis, len(wave)))
    for k in range(nbasis):
        cont = np.polynomial.legendre.legval(x, rng.normal(size=4) * [0.3, .6, .4, .3])
        out[k] = cont + (1.5 if k == 0 else 0.)
        for _ in range(lines):
            c = rng.uniform(wave[0], wave[-1])
            s = rng.uniform(*width) * (1 if c > 2500 else 0.5)
            out[k] += rng.choice([-1., 1.]) * rng.uniform(.5, 3.) * np.exp(-0.5 * ((wave - c) / s)**2)
        if positive:
            out[k] = np.abs(out[k]) + 0.02
    return out


def template(rng, spectype='GALAXY', subtype='', nbasis=3, redshifts=None, method='PCA', igm='Inoue14',
             wave=None, flux=None, dlog=6e-4, lines=6, version='9.9'):
    from redrock.templates import Template
    if redshifts is None:
        redshifts = {'GALAXY': 10**np.linspace(np.log10(1.0), np.log10(1.6), 31) - 1,
                     'QSO': 10**np.linspace(np.log10(1.3), np.log10(4.6), 37) - 1,
                     'STAR': np.linspace(-0.002, 0.002, 13)}[spectype]
    if wave is None:
        wave = rest_grid(redshifts.min(), redshifts.max(), dlog=dlog)
    if flux is None:
        flux = basis(rng, wave, nbasis, positive=(method == 'NMF'), lines=lines)
    return Template(spectype=spectype, redshifts=redshifts, wave=wave, flux=flux, subtype=subtype,
                    method=method, igm_model=igm, version=version)


def template_set(rng, small=False, igm='Inoue14'):
    s = 0.5 if small else 1
    g = template(rng, 'GALAXY', '', 3, redshifts=10**np.linspace(0.0, np.log10(1.5), int(40 * s)) - 1)
    q = template(rng, 'QSO', '', 3, redshifts=10**np.linspace(np.log10(1.8), np.log10(4.2), int(44 * s)) - 1, method='NMF', igm=igm)
    st = [template(rng, 'STAR', t, 2, redshifts=np.linspace(-0.002, 0.002, int(18 * s)), igm='None') for t in ('A', 'M')]
    return [g, q] + st


def long_names(rng, d=None):
    """a template whose type and subtype are longer than those of DESI"""
    return template(rng, str(rng.choice(['GALAXYPASSIVE', 'LATEGALAXY', 'QSOBAL2'])), str(rng.choice(['', 'LuminousRedWithBroadLines1', 'X'])).upper(), 2,
                    redshifts=10**np.linspace(np.log10(1.05), np.log10(1.4), 24) - 1)


# ----------------------------------------------------------------- reference model (independent)

def edges_of(wave):
    wave = np.asarray(wave, dtype=float)
    e = np.empty(len(wave) + 1)
    e[1:-1] = 0.5 * (wave[1:] + wave[:-1])
    e[0] = wave[0] - 0.5 * (wave[1] - wave[0])
    e[-1] = wave[-1] + 0.5 * (wave[-1] - wave[-2])
    return e


def ref_integral(x, y, e):
    """cumulative integral at points e of the piecewise-linear function (x, y[..., n])"""
    y = np.atleast_2d(y)
    dx = np.diff(x)
    cum = np.concatenate([np.zeros((y.shape[0], 1)), np.cumsum(0.5 * (y[:, 1:] + y[:, :-1]) * dx, axis=1)], axis=1)
    j = np.clip(np.searchsorted(x, e, side='right') - 1, 0, len(x) - 2)
    t = (e - x[j])
    slope = (y[:, j + 1] - y[:, j]) / dx[j]
    return cum[:, j] + t * (y[:, j] + 0.5 * slope * t)


def ref_rebin(x, y, edges):
    """exact mean of the piecewise-linear interpolant over every bin -> (nbasis, nbin)"""
    return np.diff(ref_integral(np.asarray(x, float), np.asarray(y, float), edges), axis=1) / np.diff(edges)


def ref_design(tmpl, z, spectra, igm=True, flux=None, wave=None):
    """stacked design matrix (npix, nbasis) of a template at redshift z for a list of spectra"""
    from rv import igmref
    fl = tmpl.flux if flux is None else flux
    wv = tmpl.wave if wave is None else wave
    rows = []
    for s in spectra:
        b = ref_rebin(wv * (1 + z), fl, edges_of(s['wave']))       # (nbasis, npix)
        if igm is not False and igm is not None:
            model = igm if isinstance(igm, str) else tmpl.igm_model
            b = b * igmref.transmission(z, s['wave'], model)
        rows.append(s['R'] @ b.T)
    return np.vstack(rows)


def ref_wls(D, f, w):
    """unconstrained weighted least squares (chi2, coeff) through SVD of sqrt(w) D"""
    sw = np.sqrt(w)
    c, *_ = np.linalg.lstsq(sw[:, None] * D, sw * f, rcond=None)
    r = f - D @ c
    return float(np.sum(w * r * r)), c


def ref_nnls(D, f, w):
    from scipy.optimize import nnls
    sw = np.sqrt(w)
    c, _ = nnls(sw[:, None] * D, sw * f, maxiter=2000)
    r = f - D @ c
    return float(np.sum(w * r * r)), c


# ----------------------------------------------------------------- targets

def raw_spectrum(rng, wave, band=None, ndiag=5, sigma=None, norm='row'):
    n = len(wave)
    R = make_R(n, ndiag, rng.uniform(0.5, 1.2), rng, norm)
    return dict(wave=wave.copy(), flux=np.zeros(n), ivar=np.ones(n), R=R, band=band)


def fill(rng, raws, tmpl, z, coeff, snr=20., noise=True):
    """write the reference model of (template, z, coeff) plus noise into raw spectra"""
    for s in raws:
        m = ref_design(tmpl, z, [dict(wave=s['wave'], R=s['R'].toarray())]) @ coeff
        amp = max(np.median(np.abs(m)), 1e-3)
        sig = amp / snr * rng.uniform(0.7, 1.4, len(m))
        s['ivar'] = 1 / sig**2
        s['flux'] = m + (rng.normal(size=len(m)) * sig if noise else 0.)
        s['truth'] = m
    return raws


LAYOUTS = ('fortran', 'strided', 'uncached', 'offsets')


def to_spectrum(raw, cache=True):
    """layout: memory layouts of the same values (Fortran order, strided views, diagonals in another order, no cached CSR)"""
    from redrock.targets import Spectrum
    lay = raw.get('layout', ())
    R = raw['R'].copy()
    if 'offsets' in lay:
        import scipy.sparse
        o = np.argsort((R.offsets * 7) % 11, kind='stable')
        R = scipy.sparse.dia_matrix((R.data[o], R.offsets[o]), shape=R.shape)
    if 'fortran' in lay:
        R.data = np.asfortranarray(R.data)
    v = (lambda x: np.repeat(x, 3)[1::3]) if 'strided' in lay else (lambda x: x.copy())
    if 'uncached' in lay:
        cache = False
    return Spectrum(v(raw['wave']), v(raw['flux']), v(raw['ivar']), R, R.tocsr() if cache else None, band=raw['band'])


def to_target(tid, raws, coadd=False, cosmics_nsig=0., meta=None, cache=True):
    from redrock.targets import Target
    return Target(tid, [to_spectrum(r, cache) for r in raws], coadd=coadd, cosmics_nsig=cosmics_nsig,
                  meta=dict(meta) if meta else None)


def copy_raws(raws):
    return [dict(r, wave=r['wave'].copy(), flux=r['flux'].copy(), ivar=r['ivar'].copy(), R=r['R'].copy()) for r in raws]


def random_coeff(rng, tmpl):
    c = rng.normal(size=tmpl.nbasis)
    if tmpl.method == 'NMF':
        c = np.abs(c) + 0.1
    c[0] = rng.uniform(1., 2.)
    return c


def near_ids(rng, n):
    """n target IDs: neighbours of one another, mostly beyond the integers a double can tell apart, as in DESI"""
    base = int(rng.choice([-2**62, -624115160, -1000 - int(rng.integers(0, 12)), 1, 7 * 10**8, 39627322687849000, 39633328930230000, 2**62 - 5000])) + int(rng.integers(0, 1000))
    return [base + int(i) for i in rng.choice(max(3 * n, 12), n, replace=False)]


def scene(rng, templates, ntarg, nexp=(1, 1), grid=None, snr=(5, 40), masks=True, ids=None, masked_target=True, neg=0., unit=None):
    """list of (targetid, [raw spectra]) with heterogeneous numbers of spectra per target"""
    out = []
    if ids is None:
        ids = near_ids(rng, ntarg)
    if unit is None:                                   # fluxes come in any units
        unit = [1., 1., 1e5, 1e-5][int(ids[0]) % 4]
    h = int(ids[0]) // 4
    if grid is None:                                   # pixels equal in wavelength or in its logarithm
        grid = bands((34, 30, 36)) if h % 3 else {b: np.geomspace(w[0], w[-1], len(w)) for b, w in bands((34, 30, 36)).items()}
    ndiag = {b: [5, 3, 11, 7][(h // 3 + j) % 4] if h % 2 else 5 for j, b in enumerate(grid)}
    for i in range(ntarg):
        t = templates[int(rng.integers(len(templates)))]
        zr = t.redshifts
        z = rng.uniform(zr[1], zr[-2])
        raws = []
        ne = int(rng.integers(nexp[0], nexp[1] + 1))
        for e in range(ne):
            for b, w in grid.items():
                raws.append(raw_spectrum(rng, w, band=b, ndiag=ndiag[b]))
        fill(rng, raws, t, z, random_coeff(rng, t), snr=rng.uniform(*snr))
        if neg and rng.random() < neg:                 # inverted: fits of negative lines carry the [OII] penalty
            for r in raws:
                r['flux'] *= -1
                r['truth'] *= -1
        if masks:
            for r in raws:
                m = rng.random(len(r['wave'])) < 0.04
                r['ivar'][m] = 0
                r['flux'][m] = rng.normal(size=m.sum()) * 100
        if masked_target and rng.random() < 0.06:
            for r in raws:
                r['ivar'][:] = 0
        if rng.random() < .5:                          # cameras and exposures in any order
            raws = [raws[int(j)] for j in rng.permutation(len(raws))]
        for q in raws:
            for n in ('flux', 'truth', 'ivar'):
                if n in q:
                    q[n] = q[n] * (unit if n != 'ivar' else unit**-2)
        tid = int(ids[i])
        out.append(dict(id=tid, raws=raws, z=z, fulltype=t.full_type))
    seen = set()
    for o in out:
        while o['id'] in seen:
            o['id'] += 1
        seen.add(o['id'])
    return out


def build_targets(sc, order=None, meta=None, coadd=False):
    order = range(len(sc)) if order is None else order
    return [to_target(sc[i]['id'], copy_raws(sc[i]['raws']), coadd, meta=meta(sc[i]) if meta else None) for i in order]


def dist_templates(templates, targets, comm=None):
    from redrock.templates import DistTemplate
    dwave = targets.wavegrids()
    return [DistTemplate(t, dwave, comm=comm) for t in templates]


def run_serial(sc, templates, order=None, mp_procs=1, meta=None, **kw):
    """the whole serial pipeline from raw spectra: (scandata, zfit)"""
    from redrock.targets import DistTargetsCopy
    from redrock.zfind import zfind
    tg = DistTargetsCopy(build_targets(sc, order, meta))
    dt = dist_templates(templates, tg)
    return zfind(tg, dt, mp_procs=mp_procs, **kw)


def warp(r, x):
    """another increasing grid with the same length and the same two ends"""
    x = np.asarray(x, float)
    if len(x) < 3 or not np.all(np.diff(x) > 0):
        return x.copy()
    i = np.arange(1, len(x) - 1)
    f = r.uniform(-.4, .4, len(i))
    y = x.copy()
    y[1:-1] = x[1:-1] + np.where(f > 0, f * (x[2:] - x[1:-1]), f * (x[1:-1] - x[:-2]))
    return y
