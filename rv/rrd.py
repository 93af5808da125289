"""Workloads for the rrdesi command: template files, DESI input files and an independent assembly of the same targets."""
import os
import numpy as np
from rv import synth, files


class T:
    """plain description of a template file's content"""
    def __init__(self, t, fn):
        self.wave, self.flux, self.redshifts, self.nbasis = t.wave, t.flux, t.redshifts, t.nbasis
        self.template_type, self.sub_type, self.full_type = t.template_type, t.sub_type, t.full_type
        self.method, self.igm_model, self.fn = t.method, t.igm_model, fn


def template_files(r, d, igm='Inoue14', small=True, stars=('A', 'M'), versions=True, extra=()):
    """write synthetic template files; returns [(Template read back, path)]"""
    from redrock.templates import Template
    out = []
    for t in synth.template_set(r, small=small, igm=igm) + list(extra):
        if t.template_type == 'STAR' and t.sub_type not in stars:
            continue
        fn = os.path.join(d, f'rrtemplate-{t.template_type}-{t.sub_type or "None"}-v1.0.fits')
        files.write_template(fn, t, version='1.0' if versions else None)
        out.append(Template(fn))
    return out


def truth(r, tmpl, ids):
    out = {}
    for t in ids:
        tm = tmpl[int(r.integers(len(tmpl)))]
        out[t] = (tm, float(r.uniform(tm.redshifts[1], tm.redshifts[-2])), synth.random_coeff(r, tm))
    return out


def reference_targets(fset, keep, coadd=True, skymask=True, cosmics=0., negflux=5.):
    """the same targets assembled without the reader: [Target]"""
    from redrock.targets import Spectrum, Target
    order = list(dict.fromkeys(t for p in keep for t in p))
    out = []
    for t in order:
        sp = []
        for F, p in zip(fset, keep):
            if t not in p:
                continue
            for b in F['bands']:
                for row in F['rows']:
                    if row['tid'] == t:
                        f, v = files.desi_clean(row, b, F['mask_bands'] is None or b in F['mask_bands'], negflux)
                        R = row[b]['R'].astype('f4').astype(float)
                        sp.append(Spectrum(row[b]['wave'].copy(), f, v, R, None, band=b))
        tg = Target(t, sp, coadd=coadd, cosmics_nsig=cosmics)
        if skymask:
            for s in tg.spectra:
                s.ivar[((s.wave >= 5572) & (s.wave <= 5582)) | ((s.wave >= 9792) & (s.wave <= 9795))] = 0
        out.append(tg)
    return out


def fileset(r, d, tmpl, ntarg, nfiles=1, coadd=True, overlap=False, status=True, bands='brz', nexp=(1, 3), mask=True, grid=None, bad=True, masked=True, unit=1.):
    grid = grid or synth.bands((40, 34, 38), names=bands)
    ids = synth.near_ids(r, ntarg)
    tr = truth(r, tmpl, ids)
    fset, status_all, type_all = [], {}, {}
    chunks = [ids[i::nfiles] for i in range(nfiles)]
    for i, c in enumerate(chunks):
        c = [c[j] for j in r.permutation(len(c))]
        if overlap and i:
            c = c + [int(r.choice(chunks[0]))]
            c = list(dict.fromkeys(c))
        rows = files.desi_rows(r, grid, c, (1, 1) if coadd else nexp, truth=tr, mask=mask, bad=bad, snr=(6, 40))
        if unit != 1:                                # flux units
            for q in rows:
                for b in grid:
                    q[b]['flux'], q[b]['ivar'] = (q[b]['flux'] * unit).astype('f4'), (q[b]['ivar'] / unit**2).astype('f4')
        if not coadd:
            rows = [rows[j] for j in r.permutation(len(rows))]
        fs, ot = {}, {}
        for t in c:
            if status == 'flagged':                      # all with warning bits, none blanked
                fs[t] = 1 << int(r.choice([10, 22, 23, 24]))
            elif status and r.random() < .45:
                fs[t] = int(sum(1 << int(b) for b in r.choice([0, 1, 2, 3, 8, 9, 10, 16, 20, 22, 23, 24, 25], int(r.integers(1, 3)), replace=False)))
            if status and status != 'flagged' and r.random() < .3:
                ot[t] = str(r.choice(['SKY', 'BAD', '']))
            status_all.setdefault(t, []).append(fs.get(t, 0))
            type_all.setdefault(t, []).append(ot.get(t, 'TGT'))
        if masked and r.random() < .3:
            t = rows[0]['tid']
            for q in rows:
                if q['tid'] == t:
                    for b in grid:
                        q[b]['ivar'][:] = 0
        fn = os.path.join(d, f'in{i}.fits')
        info = files.write_desi(fn, r, rows, coadd, fiberstatus=fs, objtype=ot, tag=i, bands=list(grid), header=dict(SPGRP='healpix', HPXPIXEL=100 + i, SURVEY='main'))
        fset.append(dict(fn=fn, rows=rows, bands=list(grid), mask_bands=None, coadd=coadd, info=info))
    return fset, tr, status_all, type_all


def mpi_command(name, size, argv, seed=0):
    """bin/<name> as it would run under mpirun: every rank executes the script, mpi4py.MPI.COMM_WORLD being the communicator of its rank"""
    import sys
    import threading
    import types
    from rv import fakempi
    fn = os.path.join(os.environ['VERIF_REPO'], 'bin', name)
    code = compile(open(fn).read(), fn, 'exec')
    here = threading.local()

    class MPI(types.ModuleType):
        COMM_WORLD = property(lambda self: here.comm)
    m, pkg = MPI('mpi4py.MPI'), types.ModuleType('mpi4py')
    pkg.MPI = m

    def rank(comm):
        here.comm = comm
        exec(code, {'__name__': '__main__', '__file__': fn})
    old, mods = sys.argv, {n: sys.modules.get(n) for n in ('mpi4py', 'mpi4py.MPI')}
    sys.argv = [fn] + [str(x) for x in argv]
    sys.modules.update({'mpi4py': pkg, 'mpi4py.MPI': m})
    try:
        return fakempi.run(size, rank, seed=seed)
    finally:
        sys.argv = old
        for n, v in mods.items():
            if v is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = v
