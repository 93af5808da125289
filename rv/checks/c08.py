"""C08 structure and quality flags of the redshift table; C26 is the delta-chi2 part (see c26)."""
import numpy as np
from rv import synth, compare, fitref

NODATA, LITTLE, SMALLD, FITLIM, BADMIN, NEGMODEL = 1 << 9, 1 << 1, 1 << 2, 1 << 5, 1 << 10, 1 << 3
BADFIT = (1 << 3) | (1 << 4) | (1 << 5) | (1 << 6) | (1 << 10)
ALLOWED = NODATA | LITTLE | SMALLD | FITLIM | BADMIN


def check_table(ctx, what, zf, sc, T, nminima, stars):
    ids = [o['id'] for o in sc]
    order = list(dict.fromkeys(int(t) for t in zf['targetid']))
    ctx.expect(order == ids, 'row-order', f'{what}: targets appear as {order} instead of the input order {ids}')
    runs = 1 + int(np.sum(np.diff(np.asarray([ids.index(int(t)) if int(t) in ids else -1 for t in zf['targetid']])) != 0))
    ctx.expect(runs == len(ids), 'not-contiguous', f'{what}: rows of one target are not contiguous')
    for c in ('targetid', 'z', 'zerr', 'zwarn', 'chi2', 'coeff', 'npixels', 'spectype', 'subtype', 'ncoeff', 'znum', 'deltachi2', 'fitmethod', 'zz', 'zzchi2'):
        ctx.expect(c in zf.colnames, 'column', f'{what}: column {c} missing')
    rows = compare.rows_by_target(zf)
    byt = {(t.template_type, t.sub_type): t for t in T}
    nuniq = len(set(zf['ncoeff']))
    for o in sc:
        rr = rows.get(o['id'], [])
        w = f'{what}: target {o["id"]}'
        if not ctx.expect(len(rr) > 0, 'no-row', f'{w} has no row'):
            continue
        f, ivar, R, _ = fitref.effective(o['raws'])
        npix = int(np.sum(ivar > 0))
        ctx.expect([int(r['znum']) for r in rr] == list(range(len(rr))), 'znum', f'{w}: znum {[int(r["znum"]) for r in rr]}')
        bad = [bool(r['zwarn'] & BADFIT) for r in rr]
        key = [(b, float(r['chi2'])) for b, r in zip(bad, rr)]
        ctx.expect(all(key[i] <= key[i + 1] for i in range(len(key) - 1)), 'rank', f'{w}: rows not ranked by (bad fit, chi2): {key}')
        ctx.count('ranked_with_badfit', any(bad) and not all(bad))
        cnt = {}
        for r in rr:
            st, sub = str(r['spectype']), str(r['subtype'])
            cnt[st] = cnt.get(st, 0) + 1
            t = byt.get((st, sub))
            if not ctx.expect(t is not None, 'unknown-type', f'{w}: row of type {st!r}/{sub!r} which is no input template'):
                continue
            zw = int(r['zwarn'])
            ctx.expect(zw & ~ALLOWED == 0, 'unexpected-bits', f'{w}: zwarn {zw} has bits redshift fitting never sets')
            ctx.expect(bool(zw & NODATA) == (npix == 0), 'nodata', f'{w}: NODATA {"set" if zw & NODATA else "missing"} with {npix} usable pixels')
            ctx.expect(int(r['npixels']) == npix, 'npixels', f'{w}: npixels={int(r["npixels"])} instead of {npix}')
            ctx.expect(bool(zw & LITTLE) == (npix < 10 * t.nbasis), 'little-coverage', f'{w}: LITTLE_COVERAGE {"set" if zw & LITTLE else "missing"} with {npix} pixels for {t.nbasis} coefficients')
            ctx.expect(int(r['ncoeff']) == t.nbasis, 'ncoeff', f'{w}: ncoeff={int(r["ncoeff"])} for a {t.nbasis}-basis template')
            cf = np.atleast_1d(r['coeff'])
            ctx.expect(len(cf) >= t.nbasis and np.all(cf[t.nbasis:] == 0), 'coeff-width', f'{w}: {len(cf)} coefficients stored for {t.nbasis}')
            ctx.expect(t.redshifts[0] - 1e-9 <= r['z'] <= t.redshifts[-1] + 1e-9, 'z-range', f'{w}: z={r["z"]} outside the {st} grid {t.redshifts[0]}..{t.redshifts[-1]}')
            for c in ('z', 'zerr', 'chi2', 'deltachi2'):
                ctx.expect(np.isfinite(r[c]), 'nan', f'{w}: {c}={r[c]}')
            ctx.expect(np.all(np.isfinite(cf)), 'nan', f'{w}: coefficients {cf}')
            ctx.expect(r['deltachi2'] >= 0 or bad[int(r['znum'])] or any(bad), 'neg-deltachi2', f'{w}: negative deltachi2 {r["deltachi2"]}')
            ctx.expect(str(r['fitmethod']) == t.method, 'fitmethod', f'{w}: fitmethod {r["fitmethod"]} for a {t.method} template')
            if npix == 0:
                ctx.expect(np.all(cf == 0), 'nodata-coeff', f'{w}: non-zero coefficients without data')
                ctx.count('nodata_rows')
            ctx.count('little_rows', bool(zw & LITTLE))
            ctx.count('rows_checked')
        for st, n in cnt.items():
            ctx.expect(n <= nminima, 'nminima', f'{w}: {n} rows of {st} with nminima={nminima}')
        ctx.expect(set(cnt) == {t.template_type for t in T}, 'type-lost', f'{w}: spectral types {sorted(cnt)} in the table')
        # stars of several subtypes: nothing better than the worst kept row may be dropped - checked through znum=0
    return rows


def run(ctx):
    ctx.rule = ('one case = one pipeline run (random templates, masks, S/N, nminima, workers); every row of the table is checked against the invariants '
                'and the best row against an exhaustive ranking of single-template runs; distinct = runs')
    for k in range(ctx.n(14, 120)):
        r = ctx.rng(k)
        T = [synth.template(r, 'GALAXY', '', int(r.integers(1, 6)), redshifts=10**np.linspace(0.0, np.log10(1.5), 40) - 1),
             synth.template(r, 'QSO', '', int(r.integers(1, 4)), redshifts=10**np.linspace(np.log10(1.8), np.log10(4.5), 40) - 1, method='NMF')]
        T += [synth.template(r, 'STAR', s, int(r.integers(1, 4)), redshifts=np.linspace(-0.002, 0.002, 15), igm='None') for s in r.permutation(['A', 'B', 'M', 'WD'])[:int(r.integers(0, 5))]]
        if r.random() < .4:
            T.append(synth.template(r, 'QSO', 'HIZ', 2, redshifts=10**np.linspace(np.log10(2.4), np.log10(5.2), 30) - 1, method='PCA'))
        if k % 7 in (2, 4):                                  # one spectral type only, of several subtypes
            only = ctx.rng('only', k)
            T = [synth.template(only, 'STAR', s, int(only.integers(1, 4)), redshifts=np.linspace(-0.002, 0.002, 15), igm='None') for s in only.permutation(['A', 'B', 'M', 'WD', 'K'])[:int(only.integers(3, 6))]]
            ctx.count('one_spectral_type')
        elif r.random() < .4:                                # the names are what the files say, of any length
            T.append(synth.long_names(r))
            ctx.count('long_type_names')
        nmin = int(r.integers(1, 5)) if k % 5 else int(r.integers(5, 10))
        procs = int(r.choice([1, 1, 2, 3]))
        sc = synth.scene(r, T, int(r.integers(2, 6)), nexp=(1, 2), snr=(0.3, 20), masked_target=True)
        if k % 3 == 0:                                       # little coverage / no coverage
            for j, s in enumerate(sc[0]['raws']):
                keep = r.permutation(len(s['wave']))[:int(r.integers(0, 6))] if j < 2 else []
                iv = np.zeros_like(s['ivar'])
                iv[keep] = s['ivar'][keep] + 1e-4
                s['ivar'] = iv
            if len(sc) > 2:
                for s in sc[-1]['raws']:
                    s['ivar'][:] = 0
        for o in sc[1:-1] if k % 3 == 0 else sc:             # coverage next to the limits of the templates, pixels of exactly zero flux
            nb = int(r.choice([t.nbasis for t in T]))
            if r.random() < .6:
                good = np.concatenate([s['ivar'] > 0 for s in o['raws']])
                n = 10 * nb + int(r.integers(-2, 3))
                if good.sum() > n:
                    good[r.permutation(np.nonzero(good)[0])[n:]] = False
                    i = 0
                    for s in o['raws']:
                        s['ivar'] = np.where(good[i:i + len(s['ivar'])], s['ivar'], 0.)
                        i += len(s['ivar'])
                    ctx.count('limit_coverage')
            for s in o['raws']:
                s['flux'][r.integers(0, len(s['flux']), 2)] = 0.
        T = [T[i] for i in r.permutation(len(T))]
        what = f'run {k} (nminima={nmin}, mp_procs={procs}, {len(T)} templates)'
        ctx.case(dict(k=k, nminima=nmin, procs=procs, templates=[str(t.full_type) for t in T], targets=len(sc)))
        scan, zf = ctx.call('zfind', synth.run_serial, sc, T, mp_procs=procs, nminima=nmin)
        rows = check_table(ctx, what, zf, sc, T, nmin, None)
        if k % 2 == 0:
            # rows of the joint table = the best rows of the per-template tables
            per = {}
            for t in T:
                _, zt = ctx.call('zfind-one-template', synth.run_serial, sc, [t], nminima=nmin)
                for tid, rr in compare.rows_by_target(zt).items():
                    per.setdefault(tid, []).extend(rr)
            for o in sc:
                f, ivar, R, _ = fitref.effective(o['raws'])
                if not np.any(ivar > 0) or o['id'] not in rows:
                    continue
                cand = sorted(((bool(x['zwarn'] & BADFIT), float(x['chi2']), float(x['z']), str(x['spectype'])) for x in per[o['id']]))
                # candidates of equal chi2 (exact fits of a few pixels, fits with all coefficients zero) come in any order
                if any(a[0] == b[0] and abs(a[1] - b[1]) <= 2e-6 * abs(b[1]) + 1e-9 * np.sum(ivar * f * f) for a, b in zip(cand, cand[1:])):
                    ctx.count('ambiguous_rankings')
                    continue
                want, seen = [], {}
                for c in cand:
                    seen[c[3]] = seen.get(c[3], 0) + 1
                    if seen[c[3]] <= nmin:
                        want.append(c)
                got = [(bool(x['zwarn'] & BADFIT), float(x['chi2']), float(x['z']), str(x['spectype'])) for x in rows[o['id']]]
                ok = len(got) == len(want) and all(a[0] == b[0] and a[3] == b[3] and abs(a[1] - b[1]) <= 1e-6 * abs(b[1]) and abs(a[2] - b[2]) < 1e-8 for a, b in zip(got, want))
                ctx.expect(ok, 'selection', f'{what}: target {o["id"]}: table keeps {[(g[3], round(g[2], 5), round(g[1], 3)) for g in got]}, the {nmin} best per type are {[(g[3], round(g[2], 5), round(g[1], 3)) for g in want]}')
                ctx.count('rankings_rederived')
    ctx.floor('rows_checked', 150)
    ctx.floor('nodata_rows', 3)
    ctx.floor('little_rows', 3)
    ctx.floor('limit_coverage', 8)
    ctx.floor('rankings_rederived', 8)
    ctx.floor('long_type_names', 2)
    ctx.floor('one_spectral_type', 2)
