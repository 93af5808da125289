"""Writers for the input files redrock reads (priors, templates, archetypes, DESI and BOSS spectra)."""
import os
import numpy as np
from astropy.io import fits


def write_priors(fn, ids, z, sigma, func='gaussian'):
    f = np.array([func] * len(ids)) if isinstance(func, str) else np.array(func)
    cols = [fits.Column('TARGETID', 'K', array=np.asarray(ids, np.int64)), fits.Column('Z', 'D', array=np.asarray(z, float)),
            fits.Column('SIGMA', 'D', array=np.asarray(sigma, float)), fits.Column('FUNCTION', '20A', array=f)]
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(cols, name='PRIORS')]).writeto(fn, overwrite=True)
    return fn


def write_template(fn, t, loglam=True, version=None, redshifts=True, method=True, igm=True, extra=None):
    """redrock-format template file; t.wave must be (log-)linear"""
    hdu = fits.ImageHDU(np.asarray(t.flux, dtype=np.float64), name='BASIS_VECTORS')
    h = hdu.header
    w = np.log10(t.wave) if loglam else t.wave
    h['CRVAL1'], h['CDELT1'] = float(w[0]), float((w[-1] - w[0]) / (len(w) - 1))
    h['LOGLAM'] = 1 if loglam else 0
    h['RRTYPE'] = t.template_type
    h['RRSUBTYP'] = t.sub_type or ''
    if version is not None:
        h['VERSION'] = version
    if method:
        h['RRMETHOD'] = t.method
    if igm:
        h['RRIGM'] = 'None' if t.igm_model is None else t.igm_model
    for k, v in (extra or {}).items():
        h[k] = v
    hl = [fits.PrimaryHDU(), hdu]
    if redshifts:
        hl.append(fits.ImageHDU(np.asarray(t.redshifts, float), name='REDSHIFTS'))
    fits.HDUList(hl).writeto(fn, overwrite=True)
    return fn


def write_archetype(fn, spectype, wave, flux, subtypes, loglam=True, version='1.0'):
    cols = [fits.Column('ARCHETYPE', f'{flux.shape[1]}D', array=flux), fits.Column('SUBTYPE', f'{max([10] + [len(x) for x in subtypes])}A', array=np.array(subtypes))]
    h = fits.BinTableHDU.from_columns(cols, name='ARCHETYPES')
    w = np.log10(wave) if loglam else wave
    h.header['RRTYPE'] = spectype
    h.header['VERSION'] = version
    h.header['CRVAL1'], h.header['CDELT1'] = float(w[0]), float((w[-1] - w[0]) / (len(w) - 1))
    h.header['LOGLAM'] = 1 if loglam else 0
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(fn, overwrite=True)
    return fn


# ----------------------------------------------------------------- DESI spectra / coadd files

def desi_rows(rng, grid, ids, nexp=(1, 1), ndiag=5, bad=True, snr=(4, 30), truth=None, mask=True):
    """rows of a DESI file: one per exposure, exposures of different targets interleaved.

    truth: dict id -> (template, z, coeff) or None for pure noise/continuum"""
    from rv import synth
    mdt = ['u4', 'i4'][int(rng.integers(2))]
    rows = []
    for t in ids:
        for e in range(int(rng.integers(nexp[0], nexp[1] + 1))):
            raws = [synth.raw_spectrum(rng, w, band=b, ndiag=ndiag) for b, w in grid.items()]
            if truth is not None and t in truth:
                tm, z, c = truth[t]
                synth.fill(rng, raws, tm, z, c, snr=rng.uniform(*snr))
            else:
                for q in raws:
                    n = len(q['wave'])
                    q['ivar'] = rng.uniform(.5, 2, n)
                    q['flux'] = 3 + rng.normal(size=n) + rng.uniform(0, 2) * np.sin(np.arange(n) / rng.uniform(3, 20))
            row = dict(tid=int(t))
            for q in raws:
                n = len(q['wave'])
                q['flux'], q['ivar'] = q['flux'].astype('f4'), q['ivar'].astype('f4')
                q['mask'] = np.where(rng.random(n) < .05, np.uint32(1) << rng.integers(0, 32, n).astype('u4'), 0).astype(mdt) if mask else np.zeros(n, 'i4')
                if bad:
                    for what, frac in (('nanflux', .02), ('infflux', .02), ('nanivar', .02), ('infivar', .01), ('neg', .02), ('zero', .03)):
                        m = rng.random(n) < frac
                        if what == 'nanflux':
                            q['flux'][m] = np.nan
                        elif what == 'infflux':
                            q['flux'][m] = rng.choice([np.inf, -np.inf])
                        elif what == 'nanivar':
                            q['ivar'][m] = np.nan
                        elif what == 'infivar':
                            q['ivar'][m] = np.inf
                        elif what == 'neg':
                            q['flux'][m] = -(rng.uniform(1, 12, m.sum()) * np.where(rng.random(m.sum()) < .1, 1e4, 1.)) / np.sqrt(np.where(q['ivar'][m] > 0, q['ivar'][m], 1))
                        else:
                            q['ivar'][m] = 0
                row[q['band']] = q
            rows.append(row)
    return rows


def desi_clean(row, band, has_mask, negflux=5.):
    """reference of what one spectrum of a file row means: flux, ivar as float64"""
    q = row[band]
    f, v = q['flux'].astype(float), q['ivar'].astype(float)
    badf = ~np.isfinite(f)
    f = np.where(badf, 0., f)
    v = np.where(badf | ~np.isfinite(v), 0., v)
    v = np.where(f * np.sqrt(v) < -abs(negflux), 0., v)
    if has_mask:
        v = np.where(q['mask'] != 0, 0., v)
    return f, v


def write_desi(fn, rng, rows, coadd, mask_bands=None, fiberstatus=None, objtype=None, tag=0, header=None, bands=None, onetile=True):
    """DESI coadd (one row per target, EXP_FIBERMAP) or spectra (one row per exposure) file.

    Returns what a reader must pass through: tables keyed by name."""
    from astropy.table import Table
    bands = bands or [k for k in rows[0] if k != 'tid']
    n = len(rows)
    ids = np.array([r['tid'] for r in rows], np.int64)
    fs = {int(t): 0 for t in ids}
    fs.update(fiberstatus or {})
    ot = {int(t): 'TGT' for t in ids}
    ot.update(objtype or {})
    t = Table()
    t['TARGETID'] = ids
    t['COADD_FIBERSTATUS' if coadd else 'FIBERSTATUS'] = np.array([fs[i] for i in ids], np.int32)
    t['OBJTYPE'] = np.array([ot[i] for i in ids], 'S3')
    radec = {int(x): (float(rng.uniform(10, 350)), float(rng.uniform(-60, 60))) for x in np.unique(ids)}
    t['TARGET_RA'] = [radec[i][0] for i in ids]
    t['TARGET_DEC'] = [radec[i][1] for i in ids]
    t['DESI_TARGET'] = np.array([2**int(rng.integers(0, 40)) for _ in ids], np.int64)
    if coadd:
        t['COADD_NUMEXP'] = rng.integers(1, 5, n).astype(np.int16)
        t['COADD_EXPTIME'] = rng.uniform(100, 900, n).astype('f4')
        ie = np.repeat(np.arange(n), t['COADD_NUMEXP'])
        e = Table()
        e['TARGETID'] = ids[ie]
        e['EXPID'] = (tag * 10000 + np.arange(len(ie))).astype(np.int32)
        e['NIGHT'] = rng.integers(20210101, 20210109, len(ie)).astype(np.int32)
        e['FIBERSTATUS'] = np.array([fs[i] for i in e['TARGETID']], np.int32)
        if len(e) > 1:
            e = e[rng.permutation(len(e))]
    else:
        t['EXPID'] = (tag * 10000 + np.arange(n)).astype(np.int32)
        t['NIGHT'] = rng.integers(20210101, 20210109, n).astype(np.int32)
        t['TILEID'] = np.full(n, 7, np.int32) if onetile else (7 + np.arange(n) % 2).astype(np.int32)
        t['FIBER'] = rng.integers(0, 5000, n).astype(np.int32)
        t['MJD'] = rng.uniform(59000, 59100, n)
        t['EXPTIME'] = rng.uniform(100, 900, n).astype('f4')
        e = None
    s = Table()
    s['TARGETID'] = ids
    for b in ('B', 'R', 'Z'):
        s[f'SUM_CALIB_COUNT_{b}'] = rng.uniform(1, 9, n)
        s[f'TSNR2_ELG_{b}'] = rng.uniform(1, 99, n).astype('f4')
    if coadd:
        s['TSNR2_ELG'] = rng.uniform(1, 99, n).astype('f4')
    hl = [fits.PrimaryHDU()]
    for k, v in (header or {}).items():
        hl[0].header[k] = v

    def tab(x, name):
        h = fits.table_to_hdu(x)
        h.name = name
        return h
    hl.append(tab(t, 'FIBERMAP'))
    if coadd:
        hl.append(tab(e, 'EXP_FIBERMAP'))
    hl.append(tab(s, 'SCORES'))
    for b in bands:
        B = b.upper()
        hl.append(fits.ImageHDU(rows[0][b]['wave'], name=f'{B}_WAVELENGTH'))
        hl.append(fits.ImageHDU(np.array([r[b]['flux'] for r in rows]), name=f'{B}_FLUX'))
        hl.append(fits.ImageHDU(np.array([r[b]['ivar'] for r in rows]), name=f'{B}_IVAR'))
        if mask_bands is None or b in mask_bands:
            hl.append(fits.ImageHDU(np.array([r[b]['mask'] for r in rows]), name=f'{B}_MASK'))
        hl.append(fits.ImageHDU(np.array([r[b]['R'].data for r in rows]).astype('f4'), name=f'{B}_RESOLUTION'))
    fits.HDUList(hl).writeto(fn, overwrite=True)
    return dict(fibermap=t, exp=e, scores=s, ids=list(dict.fromkeys(int(i) for i in ids)))
