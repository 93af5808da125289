"""C24 DESI reader: every selected target gets exactly its own spectra, bad pixels carry no weight."""
import os
import numpy as np
from rv import synth, files, fakempi
from rv.core import SEED


def spec_key(band, f, v, R):
    return band, f, v, R


def expected(fset, tid):
    out = []
    for F in fset:
        for b in F['bands']:
            for r in F['rows']:
                if r['tid'] == tid:
                    f, v = files.desi_clean(r, b, F['mask_bands'] is None or b in F['mask_bands'], F['neg'])
                    out.append((b, r[b]['wave'], f, v, r[b]['R'].toarray().astype('f4').astype(float)))
    return out


def same(a, b):
    """a: (band, wave, flux, ivar, R) expected, b: Spectrum"""
    w = a[3] > 0
    return (b.wave.shape == a[1].shape and np.allclose(b.wave, a[1], rtol=0, atol=1e-9) and np.allclose(b.ivar, a[3], rtol=1e-12)
            and np.allclose(b.flux[w], a[2][w], rtol=1e-12, atol=0) and np.all(np.isfinite(b.flux)) and np.allclose(b.R.toarray(), a[4], rtol=0, atol=1e-7))


def match(exp, got):
    """exact multiset matching per band; returns a message or None"""
    if len(exp) != len(got):
        return f'{len(got)} spectra instead of {len(exp)}'
    if any(getattr(s, x) is None for s in got for x in ('flux', 'ivar', 'R')):
        return 'a spectrum was never filled from its file'
    left = list(exp)
    for s in got:
        for i, a in enumerate(left):
            if a[0] == s.band and same(a, s):
                del left[i]
                break
        else:
            cand = [a for a in left if a[0] == s.band and a[1].shape == s.wave.shape]
            for a in cand:
                w = a[3] > 0
                if np.allclose(s.flux[w], a[2][w]):
                    d = np.nonzero(~np.isclose(s.ivar, a[3]))[0]
                    return f'{s.band} spectrum: ivar differs from the file at pixels {d[:8].tolist()}: {s.ivar[d[:4]].tolist()} expected {a[3][d[:4]].tolist()}' if len(d) else f'{s.band} spectrum: resolution or wavelength differs from the file'
            return f'{s.band} spectrum belongs to no row of this target in the files'
    return None


def make_files(ctx, r, d, kind, several=False, big=0):
    grid = synth.bands((18, 14, 16))
    nf = 1 if kind == 'big' else int(r.integers(2 if several else 1, 4))
    pool = [int(x) for x in r.choice(10**9, 14, replace=False) * 7 + r.integers(0, 5)]
    if r.random() < .5:
        pool = synth.near_ids(r, 14)
    fset = []
    neg = float(r.choice([5., 5., 2., 9., .5, 0., -3.]))
    coadd, onetile = bool(r.integers(2)), nf > 1 or bool(r.integers(2))
    for i in range(nf):
        if kind == 'big':
            coadd = False
            ids = pool[:4]
            rows = files.desi_rows(r, {b: np.linspace(*synth.BANDS[b], 6) for b in 'br'}, ids, (1, 1), ndiag=3)
            rows = [dict(rows[int(r.integers(len(rows)))]) for _ in range([10001, 10003, 20001][big % 3])]
            for k, row in enumerate(rows):
                for b in 'br':
                    row[b] = dict(row[b], flux=row[b]['flux'] + np.float32(k))
                    row[b]['ivar'] = np.where(r.random(6) < .2, 0, row[b]['ivar']).astype('f4')
        else:
            ids = [int(x) for x in r.permutation(pool)[:int(r.integers(1, 9))]]
            g = {b: grid[b] for b in (['brz', 'brz', 'br', 'z', 'zb'][int(r.integers(5))])}
            rows = files.desi_rows(r, g, ids, (1, 1) if coadd else (1, 3))
            for row in rows:      # a flux of exactly zero is a measurement like any other
                for b in g:
                    row[b]['flux'][r.random(len(g[b])) < .03] = 0
            if not coadd and r.random() < .7:
                rows = [rows[j] for j in r.permutation(len(rows))]
        bands = [k for k in rows[0] if k != 'tid']
        mb = None if r.random() < .5 else [b for b in bands if r.random() < .5]
        fn = os.path.join(d, f'f{i}.fits')
        info = files.write_desi(fn, r, rows, coadd, mask_bands=mb, tag=i, bands=bands, onetile=onetile,
                                header=dict(SPGRP='healpix', HPXPIXEL=100 + i))
        fset.append(dict(fn=fn, rows=rows, bands=bands, mask_bands=mb, coadd=coadd, info=info, neg=neg))
    return fset


def run(ctx):
    from redrock.external.desi import DistTargetsDESI
    from redrock.targets import Target, Spectrum
    import scipy.sparse
    from redrock.utils import distribute_work
    ctx.rule = 'one case = one set of DESI files x selection x process count; distinct = cases'
    nbig = ctx.n(1, 3)
    ncase = ctx.n(55, 500)
    for k in range(ncase + nbig):
        r = ctx.rng(k)
        kind = 'big' if k >= ncase else 'std'
        d = ctx.sub(f'k{k}')
        several = k % 5 == 2
        fset = make_files(ctx, r, d, kind, several, k - ncase + SEED - 1)
        fns = [F['fn'] for F in fset]
        if len(fns) == 1 and k % 2:             # named by a pattern
            fns = os.path.join(d, ['f*.fits', 'f0.fits', 'f[0-9].fits'][k // 2 % 3])
            ctx.count('by_pattern')
        perfile = [F['info']['ids'] for F in fset]
        union = list(dict.fromkeys(t for p in perfile for t in p))
        sel = ['all', 'all', 'ids', 'range', 'first', 'n'][int(r.integers(6))] if kind == 'std' else 'all'
        kw = {}
        if several and kind == 'std' and k % 2:
            sel = 'ids'
        keep = perfile
        if sel == 'ids':
            later = [t for t in union if t not in perfile[0]]
            pick = later if later and (several or r.random() < .3) else union     # sometimes nothing of the first file
            want = [int(x) for x in r.permutation(pick)[:int(r.integers(1, len(pick) + 1))]]
            if pick is later:
                ctx.count('first_file_unselected')
            kw['targetids'] = want
            keep = [[t for t in p if t in want] for p in perfile]
        elif sel in ('range', 'first', 'n'):
            m = min(len(p) for p in perfile)
            a = int(r.integers(0, m)) if sel != 'n' else 0
            n = int(r.integers(1, m - a + 1))
            if sel != 'n':
                kw['first_target'] = a
            if sel != 'first':
                kw['n_target'] = n
            keep = [p[a:(None if sel == 'first' else a + n)] for p in perfile]
        size = [1, 1, 2, 3, 5][int(r.integers(5))] if kind == 'std' else 2
        coadd = bool(r.integers(2)) and kind == 'std'
        nsig = float(r.choice([0, 2., 4.])) if coadd else 0.
        caps = None
        if several and k % 2 == 0:
            size, coadd = 3, False
        elif size > 1 and r.random() < .25:
            caps = [1.0] + [float(r.uniform(.05, 1)) for _ in range(size - 1)]
        kw.update(coadd=coadd, cache_Rcsr=bool(r.integers(2)), negflux_nsig=fset[0]['neg'], cosmics_nsig=nsig, capacities=caps)
        what = f'case {k}: {len(fset)} file(s) ({"/".join("coadd" if F["coadd"] else "spectra" for F in fset)}), selection {sel}, {size} process(es), coadd={coadd}'
        ctx.case(dict(k=k, kind=kind, files=[dict(bands=''.join(F['bands']), mask=F['mask_bands'], coadd=F['coadd'], rows=len(F['rows'])) for F in fset], sel=sel, size=size, coadd=coadd))
        if size == 1:
            ok, tg = ctx.attempt('DistTargetsDESI', DistTargetsDESI, fns, **kw)
            if not ok:
                continue
            ranks = [tg]
        else:
            res = fakempi.run(size, lambda comm: DistTargetsDESI(fns, comm=comm, **kw), seed=k)
            if not ctx.expect(res.ok, 'mpi-failed', f'{what}: {res.describe()}'):
                continue
            ranks = [res.values[i] for i in range(size)]
        order = list(dict.fromkeys(t for p in keep for t in p))
        for tg in ranks:
            ctx.expect([int(t) for t in tg.all_target_ids] == order, 'targets', f'{what}: targets {[int(t) for t in tg.all_target_ids][:8]} instead of {order[:8]} (order of first appearance)')
        local = [[int(t) for t in tg.local_target_ids()] for tg in ranks]
        flat = sorted(t for l in local for t in l)
        if not ctx.expect(flat == sorted(order), 'partition', f'{what}: processes hold {local}, selected {order}'):
            continue
        for tg in ranks:
            ids = [int(t) for t in tg.local_target_ids()]
            data = tg.local()
            if not ctx.expect([int(t.id) for t in data] == ids, 'ids-data', f'{what}: target objects {[t.id for t in data]} under IDs {ids}'):
                continue
            for t in data:
                exp = expected([F for F, p in zip(fset, keep) if int(t.id) in p], int(t.id))
                if coadd:
                    ctx.expect(len(t.spectra) == len(set(a[0] for a in exp)), 'coadd-count', f'{what}: target {t.id} has {len(t.spectra)} coadds')
                    if nsig > 0:       # the option travels to every process's coadds
                        ref = Target(int(t.id), [Spectrum(a[1].copy(), a[2].copy(), a[3].copy(), scipy.sparse.dia_matrix(a[4]), band=a[0]) for a in exp], coadd=True, cosmics_nsig=nsig)
                        for s in t.spectra:
                            q = [x for x in ref.spectra if x.band == s.band]
                            ctx.expect(len(q) == 1 and np.allclose(s.ivar, q[0].ivar, rtol=1e-10) and np.allclose(s.flux, q[0].flux, rtol=1e-9, atol=1e-9), 'coadd-cosmics', f'{what}: target {t.id} band {s.band}: the coadd is not that with cosmics_nsig={nsig}')
                            ctx.count('cosmics_coadds')
                        continue
                    for b in set(a[0] for a in exp):
                        e = [a for a in exp if a[0] == b]
                        s = [x for x in t.spectra if x.band == b]
                        if not ctx.expect(len(s) == 1, 'coadd-count', f'{what}: target {t.id} band {b}: {len(s)} coadds'):
                            continue
                        W = sum(a[3] for a in e)
                        F = sum(a[3] * a[2] for a in e) / np.where(W > 0, W, 1)
                        g = W > 0
                        ctx.expect(np.allclose(s[0].ivar, W, rtol=1e-10) and np.allclose(s[0].flux[g], F[g], rtol=1e-9, atol=1e-12), 'coadd', f'{what}: target {t.id} band {b}: the coadd is not that of its file rows')
                        ctx.count('coadds')
                else:
                    msg = match(exp, t.spectra) if kind == 'std' else match_big(exp, t.spectra)
                    ctx.expect(msg is None, 'spectra', f'{what}: target {t.id}: {msg}')
                    ctx.count('spectra', len(exp))
        # tables that travel to the output: rows of the selected targets only, untouched
        if not coadd and caps is None:     # the work of a target is its number of spectra over all the files
            ns = {t: sum(len([1 for row in F['rows'] if row['tid'] == t]) for F, p in zip(fset, keep) if t in p) for t in order}
            load = [sum(ns[t] for t in l) for l in local]
            top = int(np.argmax(load))
            ctx.expect(all(load[top] <= load[q] + min(ns[t] for t in local[top]) for q in range(size) if q != top and local[top]), 'imbalance',
                       f'{what}: rows per process {load} can be improved by moving one target')
            ctx.count('loads', size > 1)
        tg = ranks[0]
        for name, got, src, idcol in (('fibermap', tg.fibermap, 'fibermap', 'TARGET_RA'), ('exp_fibermap', tg.exp_fibermap, 'exp', 'EXPID'), ('tsnr2', tg.tsnr2, 'scores', 'TSNR2_ELG_B')):
            want = []
            for F, p in zip(fset, keep):
                I = F['info']
                if name == 'exp_fibermap':
                    T = I['exp'] if F['coadd'] else I['fibermap']
                    want += [(int(x['TARGETID']), float(x['EXPID'])) for x in T if int(x['TARGETID']) in p]
                elif name == 'fibermap':
                    T = I['fibermap']
                    want += [(t, float(T['TARGET_RA'][list(T['TARGETID']).index(t)])) for t in I['ids'] if t in p]
                else:
                    T = I['scores']
                    want += [(t, float(np.float32(np.sum(T['TSNR2_ELG_B'][T['TARGETID'] == t])))) for t in I['ids'] if t in p]
            have = [(int(x['TARGETID']), float(x[idcol])) for x in got]
            ok = len(have) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) <= 1e-4 * abs(b[1]) for a, b in zip(have, want))
            ctx.expect(ok, 'table', f'{what}: {name} rows {have[:5]}... instead of {want[:5]}...')
            ctx.count('tables')
        if all(len(p) == 0 or not (set(p) & set(t for q in keep[:i] for t in q)) for i, p in enumerate(keep)):
            ctx.expect([int(x) for x in tg.fibermap['TARGETID']] == order, 'row-order', f'{what}: fibermap rows {[int(x) for x in tg.fibermap["TARGETID"]]} but targets {order}')
        if fset[0]['info'] and tg.header0 is not None:
            ctx.expect(tg.header0.get('HPXPIXEL') == 100, 'header', f'{what}: header0 is not that of the first file')
        for F in fset:
            os.remove(F['fn'])
    ctx.floor('spectra', 500)
    ctx.floor('coadds', 25)
    ctx.floor('cosmics_coadds', 25)
    ctx.floor('loads', 6)
    ctx.floor('first_file_unselected', 1)
    ctx.floor('by_pattern', 2)
    ctx.floor('tables', 100)


def match_big(exp, got):
    if len(exp) != len(got):
        return f'{len(got)} spectra instead of {len(exp)}'
    if any(getattr(s, x) is None for s in got for x in ('flux', 'ivar', 'R')):
        return 'a spectrum was never filled from its file'
    key = lambda b, f, v: (b, np.float32(f).tobytes(), np.float32(v).tobytes())
    a = sorted((e[0],) + (tuple(np.round(np.where(e[3] > 0, e[2], 0), 3)), tuple(np.round(e[3], 4)), round(float(np.abs(e[4]).sum()), 3)) for e in exp)
    b = sorted((s.band,) + (tuple(np.round(np.where(s.ivar > 0, s.flux, 0), 3)), tuple(np.round(s.ivar, 4)), round(float(np.abs(s.R.toarray()).sum()), 3)) for s in got)
    for x, y in zip(a, b):
        if x != y:
            return f'spectrum {y} where the file has {x}'
    return None
