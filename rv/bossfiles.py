"""Synthetic SDSS/BOSS spPlate, spCFrame and photoPosPlate files (the on-disk inputs of rrboss)."""
import os
import numpy as np
import fitsio


def loglam_grid(lo=3600., hi=9900., coeff1=2e-3):
    c0 = np.log10(lo)
    n = int((np.log10(hi) - c0) / coeff1) + 1
    return c0, coeff1, n


def plate(rng, fluxes, ivars, c0, c1, plateid, mjd, fiberids, andmask=None, wdisp=None, thing=None, header=None):
    nf, n = fluxes.shape
    am = np.zeros((nf, n), np.int32) if andmask is None else andmask.astype(np.int32)
    wd = rng.uniform(.8, 1.3, (nf, n)).astype(np.float32) if wdisp is None else wdisp.astype(np.float32)
    return dict(flux=fluxes.astype(np.float32), ivar=ivars.astype(np.float32), c0=c0, c1=c1, plateid=int(plateid), mjd=int(mjd),
                fiberid=np.asarray(fiberids, np.int32), andmask=am, wdisp=wd, thing=thing, header=dict(header or {}))


def write_plate(d, p):
    fn = os.path.join(d, f'spPlate-{p["plateid"]:04d}-{p["mjd"]}.fits')
    with fitsio.FITS(fn, 'rw', clobber=True) as f:
        f.write(p['flux'], header=dict(PLATEID=p['plateid'], MJD=p['mjd'], COEFF0=p['c0'], COEFF1=p['c1'], **p['header']))
        f.write(p['ivar'])
        f.write(p['andmask'])
        f.write(p['andmask'])
        f.write(p['wdisp'])
        f.write(np.array([(int(x), 0.) for x in p['fiberid']], dtype=[('FIBERID', 'i4'), ('RA', 'f8')]), extname='PLUGMAP')
    if p['thing'] is not None:
        with fitsio.FITS(fn.replace('spPlate', 'photoPosPlate'), 'rw', clobber=True) as f:
            f.write(None)
            f.write(np.array([(int(x),) for x in p['thing']], dtype=[('THING_ID', 'i4')]))
    return fn


def write_frame(d, name, plateid, mjd, camera, loglam, flux, ivar, mask, wdisp, fiberid):
    fn = os.path.join(d, f'spCFrame-{name}.fits')
    with fitsio.FITS(fn, 'rw', clobber=True) as f:
        f.write(flux.astype(np.float32), header=dict(PLATEID=int(plateid), MJD=int(mjd), CAMERAS=camera))
        f.write(ivar.astype(np.float32))
        f.write(mask.astype(np.int32))
        f.write(loglam.astype(np.float32 if False else np.float64))
        f.write(wdisp.astype(np.float32))
        f.write(np.array([(int(x), 0.) for x in fiberid], dtype=[('FIBERID', 'i4'), ('RA', 'f8')]), extname='PLUGMAP')
    return fn


def ref_resolution(wd, half):
    """Gaussian line spread with the dispersion of the pixel the light comes from, truncated at +-half pixels, columns sum to one"""
    n = len(wd)
    i = np.arange(n)
    D = np.exp(-0.5 * ((i[:, None] - i[None, :]) / wd[None, :].astype(float))**2)
    D[np.abs(i[:, None] - i[None, :]) > half] = 0
    return D / D.sum(axis=0)
