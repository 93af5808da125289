"""C14 rrdesi output: rows belong together, values are the fitter's, DESI warning bits follow the fibermap."""
import os
import numpy as np
from astropy.io import fits
from astropy.table import Table
from rv import synth, files, rrd, fakempi

ZW = dict(SKY=1 << 0, LITTLE_COVERAGE=1 << 1, UNPLUGGED=1 << 7, BAD_TARGET=1 << 8, NODATA=1 << 9, POORDATA=1 << 11)
B = dict(UNASSIGNED=0, BROKENFIBER=2, BADPOSITION=9, POORPOSITION=10, BADAMPB=22, BADAMPR=23, BADAMPZ=24)


def bits(status, otype):
    """expected extra ZWARN bits and whether the result is blanked"""
    s = lambda k: any(x >> B[k] & 1 for x in status)
    bad = any(o not in ('TGT', 'SKY') for o in otype)
    nodata = s('UNASSIGNED') or s('BROKENFIBER') or s('BADPOSITION') or bad
    z = 0
    z |= ZW['POORDATA'] if s('POORPOSITION') else 0
    z |= ZW['NODATA'] if nodata else 0
    z |= ZW['UNPLUGGED'] if s('BROKENFIBER') else 0
    z |= ZW['SKY'] if 'SKY' in otype else 0
    z |= ZW['LITTLE_COVERAGE'] if s('BADAMPB') or s('BADAMPR') or s('BADAMPZ') else 0
    z |= ZW['BAD_TARGET'] if bad else 0
    return z, nodata


def run(ctx):
    from redrock.external.desi import rrdesi
    from redrock.targets import DistTargetsCopy
    from redrock.zfind import zfind
    from redrock.zwarning import ZWarningMask
    for k, v in ZW.items():
        ctx.expect(int(getattr(ZWarningMask, k)) == v, 'bit', f'ZWARN bit {k} is {int(getattr(ZWarningMask, k))}, documented {v}')
    ctx.rule = 'one case = one rrdesi run (files, selection, MPI/multiprocessing, coadd or --allspec, sky mask); distinct = runs'
    for k in range(ctx.n(18, 150)):
        r = ctx.rng(k)
        d = ctx.sub(f'k{k}')
        long = [synth.template(r, 'QSO', 'HIZ-BROAD-ABSORPTION' + '-LINES-OF-CIV-AND-NV' * (k % 6 == 1), 3, redshifts=10**np.linspace(np.log10(2.), np.log10(3.5), 16) - 1)] if k % 3 == 1 else []
        tmpl = rrd.template_files(r, d, extra=long)
        nfiles = int(r.integers(1, 3))
        coadd = bool(r.integers(2))
        overlap = nfiles > 1 and r.random() < .4
        crowd = k % 40 == 17                     # hundreds of targets
        names = ['brz', 'brz', 'rz'][int(r.integers(3))]
        ctx.count('crowds', crowd)
        fset, tr, status, otype = rrd.fileset(r, d, [t for t in tmpl if t.sub_type == long[0].sub_type] if k % 6 == 1 else [t for t in tmpl if t.template_type != 'STAR'], int(r.integers(3, 7)) if not crowd else int(r.integers(270, 320)), nfiles=nfiles, coadd=coadd, overlap=overlap, bands=names,
                                              grid=synth.bands((14, 12, 16)[-len(names):], names=names) if crowd else None,
                                              status='flagged' if k % 6 == 1 else True)
        perfile = [F['info']['ids'] for F in fset]
        union = list(dict.fromkeys(t for p in perfile for t in p))
        keep, opts = perfile, []
        sel = ['all', 'ids', 'range'][int(r.integers(3))]
        if sel == 'ids':
            want = [int(x) for x in r.permutation(union)[:int(r.integers(1, len(union) + 1))]]
            keep = [[t for t in p if t in want] for p in perfile]
            opts += ['--targetids=' + ','.join(map(str, want))]
        elif sel == 'range':
            m = min(len(p) for p in perfile)
            a = int(r.integers(0, m))
            n = int(r.integers(1, m - a + 1))
            keep = [p[a:a + n] for p in perfile]
            opts += ['--mintarget', str(a), '-n', str(n)]
        order = list(dict.fromkeys(t for p in keep for t in p))
        allspec, nosky = bool(r.random() < .3), bool(r.random() < .3)
        opts += ['--allspec'] * allspec + ['--no-skymask'] * nosky
        nminima = int(r.integers(1, 4))
        size = [1, 1, 1, 2, 3][int(r.integers(5))]
        mp = int(r.integers(1, 3))
        out = os.path.join(d, 'out', 'redrock.fits')
        det = os.path.join(d, 'det.h5')
        opts = ['-i'] + [F['fn'] for F in fset] + ['-t'] + [t.filename for t in tmpl] + ['-o', out, '--nminima', str(nminima), '--mp', str(mp)] + opts
        if r.random() < .5:
            opts += ['-d', det]
        else:
            det = None
        what = f'run {k} ({nfiles} {"coadd" if coadd else "spectra"} file(s){" sharing a target" if overlap else ""}, selection {sel}, allspec={allspec}, {size} MPI ranks, mp={mp})'
        ctx.case(dict(k=k, nfiles=nfiles, coadd=coadd, overlap=overlap, sel=sel, allspec=allspec, nosky=nosky, size=size, mp=mp, n=len(order), details=det is not None))
        if size == 1 and k % 4 == 0:
            ok, res = ctx.attempt('rrdesi_mpi', rrd.mpi_command, 'rrdesi_mpi', 1, opts)          # one rank
            if not (ok and ctx.expect(res.ok, 'mpi', f'{what}: {res.describe()}')):
                continue
        elif size == 1:
            ok, _ = ctx.attempt('rrdesi', rrdesi, opts)
            if not ok:
                continue
        else:
            # as a function, or the command rrdesi_mpi on every rank
            res = fakempi.run(size, lambda comm: rrdesi(list(opts), comm=comm), seed=k) if k % 2 else rrd.mpi_command('rrdesi_mpi', size, opts, seed=k)
            ctx.count('mpi_runs')
            if not ctx.expect(res.ok, 'mpi', f'{what}: {res.describe()}'):
                continue
        if not ctx.expect(os.path.exists(out), 'no-output', f'{what}: no output file'):
            continue
        ctx.expect(sorted(os.listdir(os.path.dirname(out))) == ['redrock.fits'], 'leftover', f'{what}: output directory holds {os.listdir(os.path.dirname(out))}')
        hd = fits.open(out)
        ctx.need(hd, ('REDSHIFTS', 'FIBERMAP', 'EXP_FIBERMAP', 'TSNR2'), what)
        Z, F, E, S = (Table(hd[n].data) for n in ('REDSHIFTS', 'FIBERMAP', 'EXP_FIBERMAP', 'TSNR2'))
        ctx.need(Z, ('TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2'), f'{what}: REDSHIFTS')
        for X, c in ((F, ('TARGET_RA', 'COADD_FIBERSTATUS')), (E, ('EXPID', 'NIGHT')), (S, ('TSNR2_ELG_R',))):
            ctx.need(X, ('TARGETID',) + c, what)
        ids = [int(x) for x in Z['TARGETID']]
        ctx.expect(ids == order, 'targets', f'{what}: REDSHIFTS rows {ids}, selected targets in order of first appearance {order}')
        if len(set(map(tuple, keep))) and sum(len(p) for p in keep) == len(order):
            for n, X in (('FIBERMAP', F), ('TSNR2', S)):
                ctx.expect([int(x) for x in X['TARGETID']] == ids, 'row-order', f'{what}: {n} rows {[int(x) for x in X["TARGETID"]]}, REDSHIFTS rows {ids}')
                ctx.count('aligned')
        # pass-through columns
        want, wexp, wts = [], [], []
        for f, p in zip(fset, keep):
            I = f['info']
            fm = I['fibermap']
            for t in p:
                j = list(fm['TARGETID']).index(t)
                st = [int(x) for x in fm['COADD_FIBERSTATUS' if coadd else 'FIBERSTATUS'][fm['TARGETID'] == t]]
                want.append((t, round(float(fm['TARGET_RA'][j]), 9), st[0]))
                wts.append((t, float(np.sum(I['scores']['TSNR2_ELG_R'][I['scores']['TARGETID'] == t]))))
            ex = I['exp'] if coadd else fm
            wexp += [(int(x['TARGETID']), int(x['EXPID']), int(x['NIGHT'])) for x in ex if int(x['TARGETID']) in p]
        ctx.expect(sorted((int(x['TARGETID']), round(float(x['TARGET_RA']), 9), int(x['COADD_FIBERSTATUS'])) for x in F) == sorted(want), 'fibermap', f'{what}: FIBERMAP rows are not those of the input')
        ctx.expect(sorted((int(x['TARGETID']), int(x['EXPID']), int(x['NIGHT'])) for x in E) == sorted(wexp), 'exp-fibermap', f'{what}: EXP_FIBERMAP rows are not those of the input')
        a, b = sorted((int(x['TARGETID']), float(x['TSNR2_ELG_R'])) for x in S), sorted(wts)
        ctx.expect(len(a) == len(b) and all(p[0] == q[0] and abs(p[1] - q[1]) <= 1e-4 * q[1] for p, q in zip(a, b)), 'tsnr2', f'{what}: TSNR2 rows are not those of the input')
        # values: the fitter's, for independently assembled targets
        ref = DistTargetsCopy(rrd.reference_targets(fset, keep, coadd=not allspec, skymask=not nosky))
        zs, zf = ctx.call('zfind', zfind, ref, synth.dist_templates(tmpl, ref), nminima=nminima)
        best = {int(x['targetid']): x for x in zf if x['znum'] == 0}
        for row in Z:
            t = int(row['TARGETID'])
            if t not in best:
                continue
            x = best[t]
            extra, blank = bits([s for f, p, s in zip([f for f in fset if t in f['info']['ids']], [1] * 9, status[t])], otype[t])
            extra, blank = bits(kept(status, fset, keep, t), kept(otype, fset, keep, t))
            exp = int(x['zwarn']) | extra
            if int(x['npixels']) == 0:          # the same chi2 everywhere: where its minimum is found is round-off
                nd = int(row['ZWARN']) & exp & (extra | 1 << 9) == extra | 1 << 9 and int(row['NPIXELS']) == 0 and abs(row['CHI2'] - x['chi2']) <= 1e-5 * x['chi2'] + 1e-3 and np.all(row['COEFF'] == 0)
                ctx.expect(nd, 'zwarn', f'{what}: target {t} (fiberstatus {status[t]}, objtype {otype[t]}) without data: ZWARN={int(row["ZWARN"])} CHI2={row["CHI2"]} COEFF={row["COEFF"]}, expected {exp} {x["chi2"]}')
                if blank:
                    ctx.expect(row['Z'] == 0 and row['SPECTYPE'].strip() == 'GALAXY' and row['SUBTYPE'].strip() == '', 'nodata-row', f'{what}: target {t} without data has z={row["Z"]} {row["SPECTYPE"]} {row["SUBTYPE"]}')
                ctx.count('rows')
                ctx.count('empty')
                continue
            ctx.expect(int(row['ZWARN']) == exp, 'zwarn', f'{what}: target {t} (fiberstatus {status[t]}, objtype {otype[t]}): ZWARN={int(row["ZWARN"])}, expected {exp}')
            ctx.count('flagged', extra != 0)
            nb = min(row['COEFF'].size, np.size(x['coeff']))
            if blank:
                ctx.expect(row['Z'] == 0 and row['SPECTYPE'].strip() == 'GALAXY' and row['SUBTYPE'].strip() == '' and np.all(row['COEFF'] == 0), 'nodata-row', f'{what}: target {t} without data has z={row["Z"]} {row["SPECTYPE"]} {row["SUBTYPE"]} coeff={row["COEFF"]}')
                ctx.count('blanked')
            else:
                ok = abs(row['Z'] - x['z']) < 1e-7 and row['SPECTYPE'].strip() == str(x['spectype']) and row['SUBTYPE'].strip() == str(x['subtype']) \
                    and np.allclose(row['COEFF'][:nb], np.atleast_1d(x['coeff'])[:nb], rtol=2e-4, atol=1e-5 * np.abs(x['coeff']).max() + 1e-12)
                ctx.expect(ok, 'row', f'{what}: target {t}: {row["SPECTYPE"]} z={row["Z"]:.7f} {row["COEFF"]}, a direct fit of the same spectra gives {x["spectype"]} z={x["z"]:.7f} {x["coeff"]}')
            ok = abs(row['CHI2'] - x['chi2']) <= 1e-5 * x['chi2'] + 1e-3 and abs(row['DELTACHI2'] - x['deltachi2']) <= 1e-4 * abs(x['deltachi2']) + 1e-5 * x['chi2'] + 1e-3 \
                and int(row['NPIXELS']) == int(x['npixels']) and int(row['NCOEFF']) == int(x['ncoeff']) and abs(row['ZERR'] - x['zerr']) <= 1e-4 * x['zerr'] + 1e-9
            ctx.expect(ok, 'values', f'{what}: target {t}: CHI2={row["CHI2"]} DELTACHI2={row["DELTACHI2"]} NPIXELS={row["NPIXELS"]} ZERR={row["ZERR"]}, direct fit {x["chi2"]} {x["deltachi2"]} {x["npixels"]} {x["zerr"]}')
            ctx.count('rows')
            ctx.count('long_flagged_only', len(str(x['subtype'])) > 12 and not blank and k % 6 == 1)
            ctx.count('long_subtypes', len(str(x['subtype'])) > 12 and not blank)
        h = hd['REDSHIFTS'].header
        for i, t in enumerate(tmpl):
            ctx.expect(h.get(f'TEMNAM{i:02d}') == t.full_type and h.get(f'TEMVER{i:02d}') == '1.0' and h.get(f'TEMFIL{i:02d}') == os.path.basename(t.filename), 'header', f'{what}: header records template {i} as {h.get(f"TEMNAM{i:02d}")} {h.get(f"TEMVER{i:02d}")} {h.get(f"TEMFIL{i:02d}")}, used {t.full_type}')
        ctx.expect(hd[0].header.get('HPXPIXEL') == 100 and hd[0].header.get('SURVEY') == 'main', 'header-in', f'{what}: header keywords of the input are lost')
        hd.close()
        if det:
            from redrock.results import read_zscan
            zd, fd = ctx.call('read_zscan', read_zscan, det)
            ctx.expect(sorted(int(t) for t in zd) == sorted(order), 'details-targets', f'{what}: details file has targets {sorted(zd)}')
            fb = {int(x['targetid']): x for x in fd if x['znum'] == 0}
            for row in Z:
                x = fb[int(row['TARGETID'])]
                ctx.expect(row['Z'] == x['z'] and int(row['ZWARN']) == int(x['zwarn']) and row['SPECTYPE'].strip() == str(x['spectype']), 'details-row', f'{what}: target {row["TARGETID"]}: details file has z={x["z"]}, redshift file {row["Z"]}')
            ctx.count('details')
    ctx.floor('rows', 40)
    ctx.floor('aligned', 15)
    ctx.floor('long_subtypes', 2)
    ctx.floor('long_flagged_only', 2)
    ctx.floor('crowds', 1)
    ctx.floor('blanked', 6)
    ctx.floor('details', 4)


def kept(values, fset, keep, t):
    """values recorded per file for this target, restricted to the files in which it is selected"""
    out, i = [], 0
    for f, p in zip(fset, keep):
        if t in f['info']['ids']:
            if t in p:
                out.append(values[t][i])
            i += 1
    return out
