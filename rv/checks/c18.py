"""C18 BOSS: spPlate/spCFrame spectra reach the right target unchanged, and rrboss reports exactly the selected targets."""
import os
import numpy as np
from rv import synth, files, bossfiles as B, compare, rrd, fakempi
from astropy.io import fits
from astropy.table import Table


def make_plate(r, d, tmpl, plateid, mjd, nfib=8, thing=None, npix=None, cams=None, truths=None, span=(3550., 3700., 9880.)):
    """one plate: coadded spectra and (optionally) the frames they come from"""
    c0, c1, n = B.loglam_grid(r.uniform(*span[:2]), span[2], 2e-3)
    if npix is not None:
        c0, c1, n = npix
    wave = 10**(c0 + c1 * np.arange(n))
    fl, iv = np.zeros((nfib, n)), np.zeros((nfib, n))
    wd = np.array([r.uniform(.8, 1.2) + .15 * np.sin(np.linspace(0, 3, n) + k) for k in range(nfib)])
    wd *= np.clip(np.exp(r.normal(0, .9)), .05, 7)                # narrow, usual and broad line spread
    wd[r.random(wd.shape) < .004] = 0
    wd[r.random(wd.shape) < .004] = 1e-4
    am = np.where(r.random((nfib, n)) < .03, r.choice([1, 4, 1 << 20, -(1 << 31)], (nfib, n)), 0)
    for k in range(nfib):
        t, z, c = truths[k] if truths is not None else (lambda t: (t, r.uniform(t.redshifts[1], t.redshifts[-2]), synth.random_coeff(r, t)))(tmpl[int(r.integers(len(tmpl)))])
        m = synth.ref_rebin(t.wave * (1 + z), t.flux, np.clip(synth.edges_of(wave), 3500 - .5 * np.arange(len(wave) + 1)[::-1] / len(wave), 9950 + .5 * np.arange(len(wave) + 1) / len(wave))).T @ c
        s = max(np.median(np.abs(m)), 1e-3) / r.uniform(6, 30)
        fl[k] = m + r.normal(size=n) * s
        iv[k] = np.where(r.random(n) < .05, 0, s**-2 * r.uniform(.7, 1.4, n))
    iv = iv.astype('f4')
    fl = fl.astype('f4')
    wd = wd.astype('f4')
    header = {}
    frames = []
    if cams is not None:
        k = 0
        for cam in ('b1', 'r1', 'b2', 'r2'):
            ne = cams.get(cam)
            if ne is None:
                continue                                          # keyword missing from the header
            header[f'NEXP_{cam.upper()}'] = ne
            for e in range(ne):
                k += 1
                name = f'{cam}-{int(r.integers(10**3, 10**5)) * 1000 + k * int(r.choice([1, 10])):08d}'
                if any(f['name'] == name for f in frames):
                    name = f'{cam}-{int(r.integers(10**3, 10**5)) * 1000 + 500 + k:08d}'
                header[f'EXPID{k:02d}'] = f'{name}-00115982-00115983'
                nx = 150
                lo, hi = (3400., 6350.) if cam[0] == 'b' else (5300., 10300.)
                base = np.linspace(np.log10(lo), np.log10(hi), nx)
                ll = base + r.uniform(-3e-4, 3e-4, (nfib, 1)) + 2e-4 * k
                ff = r.normal(size=(nfib, nx)).astype('f4') + 3
                vv = np.where(r.random((nfib, nx)) < .05, 0, r.uniform(.5, 4, (nfib, nx))).astype('f4')
                mk = np.where(r.random((nfib, nx)) < .03, r.choice([8, -(1 << 31)], (nfib, nx)), 0)
                ww = (np.array([r.uniform(.8, 1.2) + .1 * np.sin(np.linspace(0, 3, nx) + q) for q in range(nfib)]) * np.clip(np.exp(r.normal(0, .9)), .05, 7)).astype('f4')
                fib = np.arange(nfib) + (1 if cam[1] == '1' else 501)
                B.write_frame(d, name, plateid, mjd, cam, ll, ff, vv, mk, ww, fib)
                frames.append(dict(name=name, cam=cam, ll=ll, flux=ff, ivar=vv, mask=mk, wdisp=ww, fib=fib))
    p = B.plate(r, fl, iv, c0, c1, plateid, mjd, np.arange(1, nfib + 1), am, wd, thing, header)
    p['fn'] = B.write_plate(d, p)
    p['frames'] = frames
    p['wave'] = wave
    return p


def spectra_of(p, fib, use_frames, andmask):
    """[(wave, flux, ivar, R, lmin, lmax)] a fibre should yield, uncropped"""
    out = []
    if use_frames:
        for f in p['frames']:
            if fib not in f['fib']:
                continue
            i = int(np.where(f['fib'] == fib)[0][0])
            iv = f['ivar'][i] * ((f['mask'][i] == 0) if andmask else 1)
            out.append((10**f['ll'][i], f['flux'][i], iv, f['wdisp'][i], f['wdisp'], (3500., 6000.) if f['cam'][0] == 'b' else (5500., 10000.)))
    else:
        i = fib - 1
        iv = p['ivar'][i] * ((p['andmask'][i] == 0) if andmask else 1)
        out.append((p['wave'], p['flux'][i], iv, p['wdisp'][i], p['wdisp'], (3500., 10000.)))
    return out


def check_spectrum(ctx, what, exp, sp, margin):
    wave, fl, iv, wd, allwd, (lo, hi) = exp
    n = len(sp.wave)
    i0 = int(np.argmin(np.abs(wave - sp.wave[0])))
    if not ctx.expect(i0 + n <= len(wave) and np.allclose(sp.wave, wave[i0:i0 + n], rtol=1e-9), 'wave', f'{what}: wavelengths are not those of the fibre'):
        return None
    dl = np.max(np.diff(wave)) * margin
    inside = (wave > lo + dl) & (wave < hi - dl)
    sel = slice(i0, i0 + n)
    inside[-1] = False                                            # the crop excludes its upper end
    kept = np.zeros(len(wave), bool)
    kept[sel] = True
    ctx.expect(kept[inside].all(), 'crop-lost', f'{what}: pixels inside {lo}-{hi} A are missing')
    ctx.expect(not kept[(wave < lo - dl) | (wave > hi + dl)].any(), 'crop-kept', f'{what}: pixels outside {lo}-{hi} A are used')
    w = np.where(wd[sel] < 1e-5, 2., wd[sel]).astype(float)
    half = int(np.abs(sp.R.offsets).max())                        # truncated at two sigma or beyond
    ctx.expect(half >= 2 * w.max() - 1e-6, 'resolution-width', f'{what}: resolution matrix truncated at {half} pixels for a dispersion of {w.max():.3f}')
    R = B.ref_resolution(w, half)
    Rg = sp.R.toarray()
    ctx.expect(Rg.shape == R.shape and np.allclose(Rg, R, atol=2e-5), 'resolution', f'{what}: resolution matrix is not the unit-sum Gaussian of the fibre dispersion (max dev {np.abs(Rg - R).max() if Rg.shape == R.shape else -1:.3g})')
    rs = R.sum(axis=1)
    v = np.where(rs < .99, 0, iv[sel])
    sure = np.abs(rs - .99) > 1e-5
    ctx.expect(np.allclose(np.asarray(sp.ivar, float)[sure], v[sure], rtol=1e-6), 'ivar', f'{what}: inverse variance differs from the file at pixels {np.nonzero(~np.isclose(sp.ivar, v))[0][:5].tolist()}')
    ctx.expect(np.allclose(sp.flux, fl[sel], rtol=1e-6), 'flux', f'{what}: flux differs from the file')
    if getattr(sp, "_Rcsr", None) is not None:
        ctx.expect(np.allclose(sp._Rcsr.toarray(), Rg), 'csr', f'{what}: CSR resolution differs')
    ctx.count('spectra_checked')
    ctx.count('unweighted_pixels', np.sum(v == 0))
    return dict(wave=wave[sel], flux=fl[sel].astype(float), ivar=v, R=synth.dense_to_dia(R, np.arange(n - 1, -n, -1)) if n < 5 else sp.R, band=None)


def options(ctx, boss, k, td, tm):
    """rrboss with the remaining options: what it writes is zfind on the targets it reads, with the parameters asked for"""
    import sys
    import types
    from redrock.targets import DistTargetsCopy
    from redrock.zfind import zfind
    from redrock.results import read_zscan, write_zscan
    r = ctx.rng('opt', k)
    d = ctx.sub(f'o{k}')
    frames = k % 2 == 0
    p = make_plate(r, d, tm, int(r.integers(3000, 12000)), int(r.integers(55000, 59000)), 3, cams=dict(b1=1, r1=1 + k % 3 // 2) if frames else None)
    andmask, allspec = bool(r.random() < .5), bool(r.random() < .4)
    if frames and k % 3 == 2:                   # two exposures of a camera
        allspec = k // 6 % 2 == 0
    mk = lambda: DistTargetsCopy(boss.read_spectra([p['fn']], use_frames=frames, coadd=not allspec, cache_Rcsr=True, use_andmask=andmask)[0])
    opt = ['--spplate', p['fn'], '-t', td] + ['--use-frames'] * frames + ['--use-andmask'] * andmask + ['--allspec'] * allspec
    kw = dict(nminima=int(r.integers(1, 4)))
    opt += ['--nminima', str(kw['nminima'])]
    ref = mk()
    ids = [int(t.id) for t in ref.local()]
    given = []
    if r.random() < .5:
        kw['priors'] = files.write_priors(os.path.join(d, 'priors.fits'), ids, r.uniform(.1, 2, len(ids)), r.uniform(.05, .3, len(ids)))
        opt += ['--priors', kw['priors']]
        given.append('priors')
    if r.random() < .5:             # a scan which differs from the one that would be computed
        sd, zf = ctx.call('zfind', zfind, ref, synth.dist_templates(tm, ref))
        for t in sd:
            for ft in sd[t]:
                m = int(r.integers(2, 6))
                for n in ('zchi2', 'penalty', 'zcoeff'):
                    sd[t][ft][n] = np.roll(sd[t][ft][n], m, axis=0)
        kw['chi2_scan'] = os.path.join(d, 'in.h5')
        write_zscan(kw['chi2_scan'], sd, zf, clobber=True)
        opt += ['--chi2-scan', kw['chi2_scan']]
        given.append('scan')
    size = [0, 0, 2][k % 3]
    out = [('details',), ('zbest',), ('details', 'zbest')][int(r.integers(3))]
    debug = size == 0 and k % 4 == 0
    no_abort = bool(r.random() < .3)
    of = dict(details=os.path.join(d, 'out.h5'), zbest=os.path.join(d, 'out.fits'))
    opt += (['-o', of['details']] if 'details' in out else []) + (['--zbest', of['zbest']] if 'zbest' in out else []) + ['--debug'] * debug + ['--no-mpi-abort'] * no_abort
    what = f'rrboss {k} (frames={frames}, {given}, outputs {out}, {size} ranks, debug={debug})'
    ctx.case(dict(kind='options', k=k, frames=frames, given=given, out=out, mpi=size, debug=debug), key=('options', k))
    tg = mk()
    scan, zf = ctx.call('zfind', zfind, tg, synth.dist_templates(tm, tg), per_camera=False, deg_legendre=0, ncamera=len(tg.wavegrids()), **kw)
    calls = []
    had = sys.modules.get('IPython')
    sys.modules['IPython'] = types.SimpleNamespace(embed=lambda *a, **b: calls.append(1))
    try:
        if size:
            res = fakempi.run(size, lambda comm: boss.rrboss(options=opt, comm=comm), seed=k) if k % 2 else rrd.mpi_command('rrboss_mpi', size, opt, seed=k)
            if not ctx.expect(res.ok, 'mpi', f'{what}: {res.describe()[-500:]}'):
                return
        else:
            ok, _ = ctx.attempt('rrboss-options', boss.rrboss, options=opt + ['--mp', str(1 + k % 2)])
            if not ok:
                return
    finally:
        if had is None:
            del sys.modules['IPython']
        else:
            sys.modules['IPython'] = had
    ctx.expect(len(calls) == int(debug), 'debug', f'{what}: {len(calls)} interactive sessions')
    for n, f in of.items():
        ctx.expect(os.path.exists(f) == (n in out), 'outputs', f'{what}: {os.path.basename(f)} exists: {os.path.exists(f)}')
    exp = compare.rows_by_target(zf)
    if 'details' in out and os.path.exists(of['details']):
        s1, z1 = ctx.call('read_zscan', read_zscan, of['details'])
        got = compare.rows_by_target(z1)
        ctx.expect(set(got) == set(exp), 'option-targets', f'{what}: details of targets {sorted(got)} instead of {sorted(exp)}')
        for t in set(got) & set(exp):
            compare.compare_target(ctx, 'option-details', f'{what}: target {t}', got[t], exp[t], rtol=2e-6, ztol=1e-9)
            for ft in scan[t]:
                if ft != 'meta':
                    ctx.expect(np.allclose(s1[t][ft]['zchi2'], scan[t][ft]['zchi2'], rtol=2e-6), 'option-scan', f'{what}: scan of target {t}, {ft}')
            ctx.count('option_rows', len(got[t]))
    if 'zbest' in out and os.path.exists(of['zbest']):
        z = Table.read(of['zbest'], 'ZBEST')
        ctx.need(z, ('TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2'), f'{what}: ZBEST')
        best = {int(q['targetid']): q for q in zf[zf['znum'] == 0]}
        ctx.expect(sorted(int(q) for q in z['TARGETID']) == sorted(best), 'option-targets', f'{what}: best redshifts of {sorted(z["TARGETID"])} instead of {sorted(best)}')
        for q in z:
            e = best.get(int(q['TARGETID']))
            if e is not None:
                ok = abs(q['Z'] - e['z']) <= 1e-9 and abs(q['CHI2'] - e['chi2']) <= 1e-9 * abs(e['chi2']) and str(q['SPECTYPE']).strip() == str(e['spectype']) and int(q['ZWARN']) == int(e['zwarn']) \
                    and np.allclose(np.atleast_1d(q['COEFF'])[:int(e['ncoeff'])], np.atleast_1d(e['coeff'])[:int(e['ncoeff'])], rtol=1e-7) and np.isclose(q['ZERR'], e['zerr'], rtol=1e-6)
                ctx.expect(ok, 'option-zbest', f'{what}: target {int(q["TARGETID"])}: z={q["Z"]} chi2={q["CHI2"]} {q["SPECTYPE"]}, expected {e["z"]} {e["chi2"]} {e["spectype"]}')
                ctx.count('option_rows')


def refusals(ctx, boss, td, tm):
    """arguments which do not go together are refused before anything is written"""
    r = ctx.rng('refuse')
    d = ctx.sub('refuse')
    p = make_plate(r, d, tm, 3586, 55181, 3)
    t = p['plateid'] * 10**9 + p['mjd'] * 10**4 + 2
    out = [os.path.join(d, 'z.fits'), os.path.join(d, 'z.h5')]
    for name, opts in (('no output', []), ('no output', ['--targetids', str(t)]), ('ids and range', ['--targetids', str(t), '--mintarget', '1']), ('ids and range', ['--targetids', str(t), '-n', '1']),
                       ('ids and range', ['--targetids', str(t), '--mintarget', '0']), ('no such template', ['-t', os.path.join(d, 'none')])):
        for size in (1, 2):
            o = ['--spplate', p['fn'], '-t', td] + (['--zbest', out[0], '-o', out[1]] if name != 'no output' else []) + opts
            ctx.case(dict(kind='refusal', name=name, opts=opts, size=size), key=('refusal', name, tuple(opts[::2]), size))
            if size == 1:
                try:
                    boss.rrboss(options=o + ['--mp', '1'])
                    stopped = False
                except SystemExit as e:
                    stopped = e.code not in (0, None)
                except Exception:
                    stopped = True
            else:
                stopped = not fakempi.run(size, lambda comm: boss.rrboss(options=list(o), comm=comm), seed=1).ok
            left = [f for f in out if os.path.exists(f)]
            for f in left:
                os.remove(f)
            ctx.expect(stopped and not left, 'refused', f'rrboss with {name} ({opts}, {size} process(es)): stopped with an error={stopped}, files written {[os.path.basename(f) for f in left]}')
            ctx.count('refusals')


def run(ctx):
    from redrock.external import boss
    ctx.rule = ('one case = one read_spectra call or rrboss run (plates, frames, ANDMASK, fibre/target selection, worker layout); every spectrum is compared with '
                'the row of its fibre in the files, every result row with redrock on independently assembled spectra; distinct = cases')
    # identifiers
    for k in range(ctx.n(300, 5000)):
        r = ctx.rng('id', k)
        p, m, f = int(r.integers(1, 20000)), int(r.integers(50000, 69999)), int(r.integers(1, 1001))
        ty = [int, np.int32, np.int64, np.int16][k % 4]
        t = ctx.call('platemjdfiber2targetid', boss.platemjdfiber2targetid, p, m, ty(f) if ty is not np.int16 else np.int32(f))
        ctx.expect(int(t) == p * 10**9 + m * 10**4 + f, 'targetid', f'target ID {t} of plate {p} mjd {m} fiber {f} ({ty.__name__})')
        back = ctx.call('targetid2platemjdfiber', boss.targetid2platemjdfiber, t)
        ctx.expect(len(back) == 3 and all(x == y for x, y in zip(back, (p, m, f))), 'targetid-back', f'{t} -> {back} instead of {(p, m, f)}')
        ctx.count('identifiers')
    T = synth.template_set(ctx.rng('templates'), small=True)
    # reader
    for k in range(ctx.n(30, 200)):
        r = ctx.rng('read', k)
        d = ctx.sub(f'r{k}')
        use_frames = k % 3 == 1
        multi = k % 4 == 3
        cams = None
        if use_frames:
            cams = [dict(b1=1, r1=1, b2=1, r2=1), dict(b1=2, r1=1), dict(b1=1, r1=2, r2=1), dict(b2=1, r2=2, r1=0), dict(b1=1, b2=1), dict(b1=7, r1=6)][k // 3 % 6]
        nfib = int(r.integers(3, 9))
        plates = []
        things = [int(x) for x in r.choice(10**6, 14, replace=False) + 1]
        for i in range(int(r.integers(2, 4)) if multi else 1):
            th = None
            if multi:
                th = np.full(520, -1)
                perm = r.permutation(things)
                th[:nfib] = perm[:nfib]
                th[500:500 + min(nfib, 5)] = perm[9:9 + min(nfib, 5)]
            pid, mjd = int(r.integers(266, 12000)), int(r.integers(51600, 59000))
            if i and r.random() < .6:               # the same plate on several nights, or several plates in one night
                pid, mjd = [(plates[0]['plateid'], mjd), (pid, plates[0]['mjd'])][k // 4 % 2]
            plates.append(make_plate(r, d, T, pid, mjd, nfib, th,
                                     cams=cams, span=[(3400., 3700., 10200.), (3550., 3700., 9880.)][k % 2], npix=None if i == 0 else (plates[0]['c0'], plates[0]['c1'], plates[0]['flux'].shape[1])))
        andmask = bool(r.random() < .4)
        want = {}
        for p in plates:
            allf = sorted({int(f) for q in p['frames'] for f in q['fib']}) if use_frames else [int(f) for f in p['fiberid']]
            for f in allf:
                t = int(p['thing'][f - 1]) if multi else p['plateid'] * 10**9 + p['mjd'] * 10**4 + f
                want.setdefault(t, []).extend((p, f, e) for e in spectra_of(p, f, use_frames, andmask))
        ids = sorted(want)
        kw = {}
        sel = int(r.integers(4))
        keep = ids
        if sel == 1:
            keep = sorted(int(x) for x in r.choice(ids, int(r.integers(1, len(ids) + 1)), replace=False))
            kw['targetids'] = [int(x) for x in r.permutation(keep)] + ([123456789] if r.random() < .4 else [])
        elif sel == 2:
            fib = sorted({f for v in want.values() for _, f, _ in v})
            fk = [int(x) for x in r.choice(fib, int(r.integers(1, len(fib) + 1)), replace=False)]
            kw['fiberid'] = fk if len(fk) > 1 or r.random() < .5 else fk[0]
            want = {t: [x for x in v if x[1] in fk] for t, v in want.items()}
            want = {t: v for t, v in want.items() if v}
            keep = sorted(want)
        cache = bool(r.integers(2))
        pat = bool(not multi and r.random() < .3)
        ctx.case(dict(k=k, frames=use_frames, cams=cams, plates=len(plates), andmask=andmask, select=sorted(kw), targets=len(keep)))
        names = 'spPlate*.fits' if pat else [os.path.basename(p['fn']) for p in plates]
        here = k % 5 in (1, 2)                  # files named relative to the current directory
        cwd = os.getcwd()
        os.chdir(d if here else cwd)
        ctx.count('relative_names', here)
        ctx.count('relative_frames', here and use_frames)
        try:
            tg, meta = ctx.call('read_spectra', boss.read_spectra, names if here else os.path.join(d, names) if pat else [p['fn'] for p in plates], use_frames=use_frames, coadd=False,
                                cache_Rcsr=cache, use_andmask=andmask, **kw)
        finally:
            os.chdir(cwd)
        got = [int(t.id) for t in tg]
        if not ctx.expect(sorted(got) == keep, 'selection', f'case {k}: targets {got[:6]}... instead of {keep[:6]}... ({len(got)} vs {len(keep)}, missing {sorted(set(keep) - set(got))}, extra {sorted(set(got) - set(keep))}), selection {sorted(kw)}'):
            continue
        ctx.expect([int(x) for x in meta['TARGETID']] == got, 'meta-order', f'case {k}: metadata rows are not in target order')
        for t, row in zip(tg, meta):
            exp = want[int(t.id)]
            w = f'case {k} target {t.id}'
            if not ctx.expect(len(t.spectra) == len(exp), 'nspectra', f'{w}: {len(t.spectra)} spectra instead of {len(exp)}'):
                continue
            left = list(exp)
            for s in t.spectra:
                # the spectrum of a fibre is recognised by its flux values, then checked in full
                best = [x for x in left if x[2][1].dtype == s.flux.dtype and set(np.round(np.asarray(s.flux[10:14], float), 5)) <= set(np.round(np.asarray(x[2][1], float), 5))]
                if not ctx.expect(len(best) >= 1, 'crossed', f'{w}: a spectrum holds the flux of another fibre or exposure'):
                    break
                left.remove(best[0])
                check_spectrum(ctx, w + f' fibre {best[0][1]}', best[0][2], s, 2.5 if use_frames else 1.01)
            if multi:                               # what the files have in common is named
                P, J = ({p[x] for p in plates} for x in ('plateid', 'mjd'))
                b = str(t.meta['BRICKNAME']).split('-')
                ctx.expect(len(b) == 2 and (len(P) > 1 or b[0] == str(min(P))) and (len(J) > 1 or b[1] == str(min(J))), 'brickname', f'{w}: brick {t.meta["BRICKNAME"]!r} for plates {sorted(P)} and nights {sorted(J)}')
                # and no plate or night in which the target was not observed
                for x, own in zip(b, ('plateid', 'mjd')):
                    ctx.expect(x in {'0'} | {str(e[0][own]) for e in exp}, 'brickname', f'{w}: brick {t.meta["BRICKNAME"]!r}, but it was observed in {sorted({(e[0]["plateid"], e[0]["mjd"]) for e in exp})}')
                ctx.count('common_bricks')
            else:
                bn = f'{plates[0]["plateid"]}-{plates[0]["mjd"]}'
                ctx.count('brick_names')
                ctx.expect(str(t.meta['BRICKNAME']) == bn and (row['BRICKNAME'].decode() if isinstance(row['BRICKNAME'], bytes) else str(row['BRICKNAME'])) == bn, 'brickname', f'{w}: brick {row["BRICKNAME"]!r} instead of {bn}')
    # a full plate: more than one spectrograph in one file
    for k in range(ctx.n(2, 6)):
        r = ctx.rng('full', k)
        d = ctx.sub(f'full{k}')
        nf = [1000, 640][k % 2]
        c0, c1, n = B.loglam_grid(r.uniform(3400, 3700), 9900, 4e-3)
        fl = r.normal(size=(nf, n)).astype('f4') + 5
        p = B.plate(r, fl, r.uniform(.5, 2, (nf, n)).astype('f4'), c0, c1, int(r.integers(266, 12000)), int(r.integers(51600, 59000)), np.arange(1, nf + 1))
        p.update(fn=B.write_plate(d, p), wave=10**(c0 + c1 * np.arange(n)), frames=[])
        fib = sorted(int(x) for x in np.concatenate([r.choice(500, 4, replace=False) + 1, r.choice(nf - 500, 4, replace=False) + 501]))
        ids = {p['plateid'] * 10**9 + p['mjd'] * 10**4 + f: f for f in fib}
        kw = dict(targetids=list(ids)) if k % 2 else dict(fiberid=fib)
        ctx.case(dict(kind='full plate', fibers=nf, select=sorted(kw)), key=('full', k))
        tg, _ = ctx.call('read_spectra', boss.read_spectra, [p['fn']], coadd=False, **kw)
        if ctx.expect(sorted(int(t.id) for t in tg) == sorted(ids), 'selection', f'full plate {k}: targets {sorted(int(t.id) for t in tg)} instead of {sorted(ids)}'):
            for t in tg:
                check_spectrum(ctx, f'full plate {k} fibre {ids[int(t.id)]}', spectra_of(p, ids[int(t.id)], False, False)[0], t.spectra[0], 1.01)
                ctx.count('full_plate_fibers')
    # the command
    td = ctx.sub('templates')
    tm = rrd.template_files(ctx.rng('tmpl-files'), td)
    for k in range(ctx.n(8, 48)):
        r = ctx.rng('cmd', k)
        d = ctx.sub(f'c{k}')
        multi = k % 4 == 2
        nfib = 5
        things = [int(x) for x in r.choice(10**6, 7, replace=False) + 1]
        plates = []
        for i in range(2 if multi else 1):
            th = None
            if multi:
                th = r.permutation(things)[:nfib]
            plates.append(make_plate(r, d, tm, int(r.integers(3000, 12000)), int(r.integers(55000, 59000)), nfib, th,
                                     npix=None if i == 0 else (plates[0]['c0'], plates[0]['c1'], plates[0]['flux'].shape[1])))
        andmask, allspec = bool(r.random() < .5), bool(multi and r.random() < .5)
        want = {}
        for p in plates:
            for f in p['fiberid']:
                t = int(p['thing'][f - 1]) if multi else p['plateid'] * 10**9 + p['mjd'] * 10**4 + int(f)
                want.setdefault(t, []).extend(spectra_of(p, int(f), False, andmask))
        ids = sorted(want)
        opt = ['--spplate'] + [p['fn'] for p in plates] + ['-t', td, '--zbest', os.path.join(d, 'zbest.fits'), '-o', os.path.join(d, 'scan.h5')]
        opt += ['--use-andmask'] * andmask + ['--allspec'] * allspec
        sel = ['all', 'ids', 'range', 'first', 'number'][k % 5]
        keep = ids
        if sel == 'ids':
            keep = sorted(int(x) for x in r.choice(ids, 2, replace=False))
            opt += ['--targetids', ','.join(str(x) for x in r.permutation(keep))]
        elif sel == 'range':
            keep = ids[1:3]
            opt += ['--mintarget', '1', '-n', '2']
        elif sel == 'first':
            keep = ids[2:]
            opt += ['--mintarget', '2']
        elif sel == 'number':
            keep = ids[:3]
            opt += ['-n', '3']
        nmin = int(r.integers(1, 4))
        opt += ['--nminima', str(nmin)]
        arch = None
        if k % 4 == 1:
            t = tm[0]
            ad = ctx.sub(f'a{k}')
            aflux = np.array([np.abs(t.flux[:t.nbasis].T @ (np.abs(synth.random_coeff(r, t)))) + .05 for _ in range(4)])
            files.write_archetype(os.path.join(ad, 'rrarchetype-galaxy.fits'), 'GALAXY', t.wave, aflux, ['S0'] * 4)
            opt += ['--archetypes', ad]
            arch = ad
        nproc = int([1, 2, 3][k % 3])
        size = [0, 0, 0, 2][k % 4]
        ctx.case(dict(kind='rrboss', k=k, plates=len(plates), select=sel, andmask=andmask, allspec=allspec, archetypes=bool(arch), mp=nproc, mpi=size), key=('cmd', k))
        if size:
            res = fakempi.run(size, lambda comm: boss.rrboss(options=opt, comm=comm), seed=k)
            ctx.expect(res.ok, 'mpi', f'case {k}: rrboss with {size} MPI ranks: {res.describe()[-500:]}')
            if not res.ok:
                continue
        else:
            # the number of OpenMP threads is only a matter of warnings
            omp = os.environ.pop('OMP_NUM_THREADS', None)
            if k % 3:
                os.environ['OMP_NUM_THREADS'] = '2' if k % 3 == 1 else '1'
            try:
                ctx.call('rrboss', boss.rrboss, options=opt + ['--mp', str(nproc)])
            finally:
                os.environ['OMP_NUM_THREADS'] = omp or '1'
        with fits.open(os.path.join(d, 'zbest.fits')) as h:
            ctx.need(h, ('ZBEST',), f'case {k}: zbest file')
        z = Table.read(os.path.join(d, 'zbest.fits'), 'ZBEST')
        ctx.need(z, ('TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2'), f'case {k}: ZBEST')
        hdr = fits.getheader(os.path.join(d, 'zbest.fits'), 0)
        ctx.expect({str(hdr.get(f'TEMNAM{i:02d}')) for i in range(len(tm))} == {t.full_type for t in tm}, 'header-templates', f'case {k}: template names in the header')
        ctx.expect(sorted(int(x) for x in z['TARGETID']) == keep, 'rows', f'case {k} ({sel}): rows for {sorted(int(x) for x in z["TARGETID"])} instead of {keep}')
        if sorted(int(x) for x in z['TARGETID']) != keep:
            continue
        from redrock.archetypes import All_archetypes
        # independent assembly, same templates
        sc = []
        for t in keep:
            raws = []
            for wave, fl, iv, wd, allwd, (lo, hi) in want[t]:
                i0, i1 = int(np.argmin(np.abs(wave - lo))), int(np.argmin(np.abs(wave - hi)))
                s = slice(i0, i1)
                ww = np.where(wd[s] < 1e-5, 2., wd[s]).astype(float)
                mx = np.where(allwd < 1e-5, 2., allwd)[:, s].max()
                half = int(4 * np.ceil(mx) + 1) // 2
                R = B.ref_resolution(ww, half)
                raws.append(dict(wave=wave[s], flux=fl[s].astype(float), ivar=iv[s].astype(float), R=synth.dense_to_dia(R, np.arange(half, -half - 1, -1)), band=None))
            sc.append(dict(id=t, raws=raws))
        from redrock.targets import DistTargetsCopy
        from redrock.zfind import zfind
        tg = DistTargetsCopy([synth.to_target(o['id'], o['raws'], coadd=not allspec) for o in sc])
        akw = dict(archetypes=All_archetypes(archetypes_dir=arch).archetypes, per_camera=False, deg_legendre=0, ncamera=1) if arch else {}
        scan, zf = zfind(tg, synth.dist_templates(tm, tg), nminima=nmin, **akw)
        ref = {int(q['targetid']): q for q in zf[zf['znum'] == 0]}
        for q in z:
            t = int(q['TARGETID'])
            e = ref[t]
            ok = (abs(q['Z'] - e['z']) <= 3e-6 and abs(q['CHI2'] - e['chi2']) <= 2e-5 * abs(e['chi2']) + 1e-3 and str(q['SPECTYPE']).strip() == str(e['spectype'])
                  and int(q['ZWARN']) == int(e['zwarn']) and int(q['NPIXELS']) == int(e['npixels']))
            ctx.expect(ok, 'result', f'case {k} target {t}: z {q["Z"]:.7f} chi2 {q["CHI2"]:.4f} {q["SPECTYPE"]} zwarn {q["ZWARN"]} npix {q["NPIXELS"]}, redrock on the spectra of its fibres gives {e["z"]:.7f} {e["chi2"]:.4f} {e["spectype"]} {e["zwarn"]} {e["npixels"]}')
            ctx.count('results_checked')
            if not multi:
                bn = f'{plates[0]["plateid"]}-{plates[0]["mjd"]}'
                ctx.expect(str(q['BRICKNAME']).strip() == bn, 'result-brickname', f'case {k}: BRICKNAME {q["BRICKNAME"]!r} instead of {bn}')
        # the details file holds the scan of the same targets
        from redrock.results import read_zscan
        sf, zz = ctx.call('read_zscan', read_zscan, os.path.join(d, 'scan.h5'))
        ctx.expect({int(x) for x in sf} == set(keep), 'scan-targets', f'case {k}: details file holds targets {sorted(int(x) for x in sf)}')
    for k in range(ctx.n(8, 40)):
        options(ctx, boss, k, td, tm)
    refusals(ctx, boss, td, tm)
    ctx.floor('option_rows', 20)
    ctx.floor('spectra_checked', 60)
    ctx.floor('results_checked', 15)
    ctx.floor('identifiers', 200)
    ctx.floor('common_bricks', 30)
    ctx.floor('full_plate_fibers', 16)
    ctx.floor('refusals', 12)
    ctx.floor('relative_names', 5)
    ctx.floor('relative_frames', 3)
