"""C23 redshift refinement: candidates, parabola, error, coefficients and chi2 of every reported row."""
import numpy as np
from rv import synth, compare, fitref

BAD_MINFIT, Z_FITLIMIT = 1 << 10, 1 << 5


def check_rows(ctx, what, t, o, scan, rows, nminima, npts, single):
    """rows: table rows of (target, template); single: no other template shares its spectype"""
    m = fitref.Model(t, o['raws'])
    zg = t.redshifts
    eff = scan['zchi2'] + scan['penalty']
    lim = 100. if t.template_type == 'STAR' else 1000.
    mins = fitref.minima(eff)
    if not np.any(m.w > 0):
        return
    for row in rows:
        z = float(row['z'])
        near = [i for i in mins if zg[max(0, i - 1)] - 1e-12 <= z <= zg[min(len(zg) - 1, i + 1)] + 1e-12]
        if not ctx.expect(len(near) > 0, 'no-coarse-minimum', f'{what}: z={z:.6f} is not within a grid step of any local minimum of the scan'):
            continue
        # which coarse minimum it was refined from: the fine grid recorded in the row tells
        zz, zzc = np.atleast_1d(row['zz']), np.atleast_1d(row['zzchi2'])
        if not ctx.expect(len(zz) == npts and len(zzc) == npts, 'zz-length', f'{what}: {len(zz)} fine-grid points instead of {npts}'):
            continue
        best = None
        for i in near:
            g = np.linspace(zg[max(0, i - 1)], zg[min(len(zg) - 1, i + 1)], npts)
            if np.allclose(g, zz, rtol=0, atol=1e-10 * (1 + abs(z))):
                best = i
        if not ctx.expect(best is not None, 'zz-grid', f'{what}: fine grid {zz[0]:.6f}..{zz[-1]:.6f} does not span the neighbours of a coarse minimum'):
            continue
        pts = range(npts) if ctx.full else sorted(set([0, npts - 1, int(np.argmin(zzc)), int(ctx.r.integers(npts))]))
        f0 = np.sum(m.w * m.f**2)
        for j in pts:
            c2, _, tot, _ = m.at(zz[j])
            ctx.expect(abs(tot - zzc[j]) <= 1e-6 * tot + 1e-8 * f0, 'zzchi2', f'{what}: fine chi2 at z={zz[j]:.6f} is {zzc[j]:.8g}, reference {tot:.8g}')
            ctx.count('fine_points')
        if t.method == 'NMF':
            srt = np.sort(zzc)
        i = int(np.clip(np.argmin(zzc), 1, npts - 2))
        x, y = zz[i - 1:i + 2], zzc[i - 1:i + 2]
        h = x[1] - x[0]
        a = (y[0] - 2 * y[1] + y[2]) / (2 * h * h)
        b = (y[2] - y[0]) / (2 * h)
        flags = int(row['zwarn'])
        ctx.count('rows_checked')
        noise = 1e-12 * np.abs(y).max() / h**2
        if abs(a) < 100 * noise:
            continue                                        # parabola lost in round-off
        x0 = x[1] - b / (2 * a)
        y0 = y[1] - b * b / (4 * a)
        bad = a <= 0 or x0 <= x[0] or x0 >= x[2] or y0 <= 0
        edge = 1e-6 * h
        marginal = abs(x0 - x[0]) < edge or abs(x0 - x[2]) < edge
        if not marginal:
            ctx.expect(bool(flags & BAD_MINFIT) == bool(bad), 'bad-minfit-flag', f'{what}: BAD_MINFIT {"set" if flags & BAD_MINFIT else "missing"} for a parabola a={a:.4g} x0={x0:.6f} in [{x[0]:.6f},{x[2]:.6f}] y0={y0:.4g}')
        tolz = 1e-5 * h + 1e-10
        if not bad:
            ctx.expect(abs(z - x0) <= tolz, 'parabola-z', f'{what}: z={z:.8f} instead of the parabola minimum {x0:.8f} (step {h:.2g})')
            ctx.expect(abs(row['chi2'] - y0) <= 1e-6 * abs(y0) + 1e-9 * f0, 'parabola-chi2', f'{what}: chi2={row["chi2"]:.8g} instead of the parabola minimum {y0:.8g}')
            ctx.expect(abs(row['zerr'] - 1 / np.sqrt(a)) <= 1e-3 / np.sqrt(a), 'zerr', f'{what}: zerr={row["zerr"]:.5g} instead of {1/np.sqrt(a):.5g} (delta chi2 = 1)')
            ctx.count('good_parabolas')
        elif x0 < zz[0] or x0 > zz[-1]:
            k = int(np.argmin(zzc))
            ctx.expect(abs(z - zz[k]) <= tolz and abs(row['chi2'] - zzc[k]) <= 1e-9 * abs(zzc[k]), 'fallback-z', f'{what}: parabola outside the fine grid must report its lowest point z={zz[k]:.7f}, not {z:.7f}')
            ctx.count('fallbacks')
        # flags for the edge of the redshift range
        atedge = z < zg[1] or z > zg[-2]
        if atedge:
            ctx.expect(flags & Z_FITLIMIT, 'fitlimit-missing', f'{what}: z={z:.6f} in the first/last grid interval without Z_FITLIMIT')
            ctx.count('edge_rows')
        elif not bad:
            ctx.expect(not flags & Z_FITLIMIT, 'fitlimit-spurious', f'{what}: Z_FITLIMIT set for z={z:.6f} well inside {zg[1]:.4f}..{zg[-2]:.4f}')
        # coefficients belong to the reported redshift
        c2, cref, tot, D = m.at(z)
        c = np.zeros(t.nbasis)
        rc = np.atleast_1d(row['coeff'])[:t.nbasis]
        c[:len(rc)] = rc
        ctx.expect(np.all(np.atleast_1d(row['coeff'])[t.nbasis:] == 0), 'coeff-tail', f'{what}: non-zero coefficients beyond ncoeff')
        own = float(np.sum(m.w * (m.f - D @ c)**2))
        sw = np.sqrt(m.w)
        sv = np.linalg.svd(sw[:, None] * D, compute_uv=False)
        if sv[-1] > 1e-5 * sv[0]:
            ctx.expect(own <= c2 * (1 + 1e-6) + 1e-8 * f0 or t.method == 'NMF' and own <= c2 * (1 + 1e-4) + 1e-6 * f0, 'coeff-at-z', f'{what}: chi2 of the reported coefficients at the reported z={z:.6f} is {own:.7g}, best fit there {c2:.7g} (zwarn {flags})')
            ctx.count('coeff_checked')
    # completeness: the lowest well-separated coarse minima are all represented
    if single:
        acc = []
        vals = np.array([eff[i] for i in mins])
        for i in mins:
            if len(acc) == nminima:
                break
            if np.sum(np.abs(vals - eff[i]) <= 1e-9 * abs(eff[i])) > 1:
                ctx.count('plateaus')                   # a fit with all coefficients zero: equal minima come in any order
                break
            if not all(abs(fitref.dv(zg[i], q)) >= lim for q in acc):
                ctx.count('minima_too_close')
            else:
                lo, hi = zg[max(0, i - 1)], zg[min(len(zg) - 1, i + 1)]
                own = [r for r in rows if np.allclose(np.atleast_1d(r['zz'])[[0, -1]], [lo, hi], rtol=0, atol=1e-10 * (1 + abs(hi)))]
                hit = [float(r['z']) for r in own] if own else [float(r['z']) for r in rows if lo - 1e-12 <= r['z'] <= hi + 1e-12 and float(r['z']) not in acc]
                # a refined candidate closer than the limit to an accepted one is dropped
                if hit:
                    acc.append(hit[0])
                else:
                    ctx.count('dropped_after_refinement')
                    nearacc = any(abs(fitref.dv(zc, q)) < lim * 1.001 for q in acc for zc in np.linspace(lo, hi, 5))
                    ctx.expect(nearacc, 'minimum-skipped', f'{what}: coarse minimum at z={zg[i]:.5f} (chi2 {eff[i]:.5g}) was not refined; rows at {[round(float(r["z"]), 5) for r in rows]}')
        ctx.expect(len(rows) <= nminima, 'too-many', f'{what}: {len(rows)} rows for nminima={nminima}')
        for u in range(len(rows)):
            for v in range(u):
                d = min(abs(fitref.dv(rows[u]['z'], rows[v]['z'])), abs(fitref.dv(rows[v]['z'], rows[u]['z'])))
                ctx.expect(d >= lim * 0.98, 'not-separated', f'{what}: rows at z={rows[u]["z"]:.6f} and {rows[v]["z"]:.6f} are only {d:.1f} km/s apart (limit {lim})')
                ctx.count('pairs_separated')


def helpers(ctx):
    from redrock.fitz import find_minima, minfit, get_dv
    for k in range(ctx.n(1500, 20000)):
        r = ctx.rng('h', k)
        n = int(r.integers(1, 30))
        x = r.normal(size=n) if k % 3 else r.integers(0, 4, n).astype(float)
        got = [int(i) for i in ctx.call('find_minima', find_minima, x)]
        ref = fitref.minima(x)
        ctx.expect(sorted(got) == sorted(ref) and np.all(np.diff(x[got]) >= 0), 'find-minima', f'find_minima({x.tolist()}) = {got}, local minima are {ref}')
        x0, s, y0 = r.uniform(0, 3), 10**r.uniform(-5, -1), r.uniform(1, 1e4)
        xs = x0 + s * np.array([-1., 0., 1.]) * r.uniform(.5, 3) + s * r.uniform(-.4, .4)
        res = ctx.call('minfit', minfit, xs, y0 + ((xs - x0) / s)**2)
        ok = abs(res[0] - x0) < 1e-3 * s and abs(res[1] - s) < 1e-2 * s and abs(res[2] - y0) < 1e-4 * y0 and res[3] == 0
        cond = (np.abs(xs).max() / np.ptp(xs))**2 * 1e-15 * (y0 + 10)
        if cond < 1e-5:
            ctx.expect(ok, 'minfit', f'minfit of an exact parabola (x0={x0:.5f}, err={s:.3g}, y0={y0:.4g}) gives {res}')
            ctx.count('parabolas')
        neg = ctx.call('minfit', minfit, xs, y0 - ((xs - x0) / s)**2)
        ctx.expect(neg[3] & BAD_MINFIT, 'minfit-maximum', 'a maximum is not flagged BAD_MINFIT')
        a, b = r.uniform(0, 5, 2)
        ctx.expect(abs(get_dv(a, b) - fitref.dv(a, b)) < 1e-6, 'get-dv', 'velocity difference wrong')
    for ys in ([1., 2.], [1.]):
        ctx.expect(minfit(np.arange(len(ys)), np.array(ys))[3] & BAD_MINFIT, 'minfit-short', 'fewer than three points not flagged')
    ctx.case('helpers')


def direct(ctx):
    """the refinement of any scan (rugged ones have many minima closer than the velocity limit)"""
    from redrock.fitz import fitz
    for k in range(ctx.n(30, 400)):
        r = ctx.r = ctx.rng('direct', k)
        z0, n = r.uniform(0, 3), int(r.integers(30, 120))
        step = 10.**r.uniform(-4.3, -3)                   # 35 to 690 km/s
        t = [lambda: synth.template(r, 'GALAXY', '', 3, redshifts=10**(np.log10(1 + z0) + step * np.arange(n)) - 1),
             lambda: synth.template(r, 'QSO', 'HIZ', 2, redshifts=10**(np.log10(1 + z0) + step * np.arange(n)) - 1, method='NMF'),
             lambda: synth.template(r, 'STAR', ['', 'G'][k % 2], 2, redshifts=np.linspace(-.002, .002, n), igm='None')][k % 3]()
        o = synth.scene(r, [t], 1, nexp=(1, 1), snr=(1, 20), masked_target=False)[0]
        nmin, npts = int(r.choice([3, 6, 10])), int(r.choice([3, 5, 9, 15]))
        scan = 1000 + r.uniform(.1, 30) * np.abs(np.cumsum(r.normal(size=n))) + r.uniform(0, 50, n)
        got = ctx.call('fitz', fitz, scan, t.redshifts, synth.to_target(o['id'], synth.copy_raws(o['raws'])), t, nminima=nmin, zminfit_npoints=npts)
        rows = [{q: v[i] if q in ('zz', 'zzchi2', 'coeff') else np.ravel(v)[i] for q, v in got.items()} for i in range(len(got['chi2']))]
        what = f'refinement {k} of {t.full_type}, {n} redshifts, nminima={nmin}, points={npts}'
        ctx.case(dict(kind='direct', k=k, template=t.full_type, nminima=nmin, npoints=npts, rows=len(rows), minima=len(fitref.minima(scan))))
        ctx.expect(np.all(np.diff([q['chi2'] for q in rows]) >= 0), 'row-order', f'{what}: rows are not in order of chi2')
        check_rows(ctx, what, t, o, dict(zchi2=scan, penalty=np.zeros(n)), rows, nmin, npts, True)


def run(ctx):
    ctx.rule = ('one case = one target x template fit; z, zerr, chi2, coefficients, flags and candidate list are re-derived from an independent '
                'model evaluated on the same fine grid; distinct = target x template x (nminima, points)')
    ctx.full = ctx.n(0, 1)
    helpers(ctx)
    direct(ctx)
    for k in range(ctx.n(12, 80)):
        r = ctx.r = ctx.rng(k)
        # every third run: grids so fine that many minima are closer than the velocity limit
        fine = k % 3 == 2
        T = [synth.template(r, 'GALAXY', '', int(r.integers(2, 5)), redshifts=10**np.linspace(np.log10(1.1), np.log10(1.1) + .035, 140) - 1),
             synth.template(r, 'QSO', 'HIZ', 3, redshifts=10**np.linspace(np.log10(3.0), np.log10(3.0) + .03, 120) - 1, method='NMF', igm=['Inoue14', 'Calura12', 'Kamble20'][k % 4 % 3]),
             synth.template(r, 'STAR', 'G', 2, redshifts=np.linspace(-0.002, 0.002, 100), igm='None')] if fine else [synth.template(r, 'GALAXY', '', int(r.integers(2, 5)), redshifts=10**np.linspace(0.0, np.log10(1.5), 60) - 1),
             synth.template(r, 'QSO', 'HIZ', 3, redshifts=10**np.linspace(np.log10(1.8), np.log10(4.8), 60) - 1, method='NMF', igm=['Inoue14', 'Calura12', 'Kamble20'][k % 3]),
             synth.template(r, 'STAR', 'G', 2, redshifts=np.linspace(-0.002, 0.002, 25), igm='None')]
        if k % 4 == 1:                                    # bases as wide as the real ones, all of the same size
            T = [synth.template(r, t.template_type, t.sub_type, 6, redshifts=t.redshifts, method=t.method, igm=t.igm_model) for t in T]
        nmin = int(r.choice([4, 6, 9])) if fine else int(r.choice([1, 2, 3, 5]))
        npts = int(r.choice([15, 15, 9, 21]))
        sc = synth.scene(r, T, 4, nexp=(1, 2), snr=(0.05, 2) if fine else (0.3, 25), masked_target=False)
        # place one truth inside the last interval of a grid
        t = T[k % 3]
        zed = t.redshifts[-1] - 0.3 * (t.redshifts[-1] - t.redshifts[-2]) if k % 2 else t.redshifts[0] + 0.4 * (t.redshifts[1] - t.redshifts[0])
        synth.fill(r, sc[0]['raws'], t, zed, synth.random_coeff(r, t), snr=30)
        procs = 1 + k % 2
        got = ctx.call('zfind', synth.run_serial, sc, T, mp_procs=procs, nminima=nmin, zminfit_npoints=npts)
        rows = compare.rows_by_target(got[1])
        for o in sc:
            for t in T:
                rr = [x for x in rows.get(o['id'], []) if (x['spectype'], x['subtype']) == (t.template_type, t.sub_type)]
                ctx.case(dict(k=k, target=o['id'], template=t.full_type, nminima=nmin, npoints=npts, rows=len(rr)))
                ctx.expect(len(rr) > 0, 'no-rows', f'target {o["id"]}: no row for {t.full_type}')
                check_rows(ctx, f'run {k} target {o["id"]} {t.full_type}', t, o, got[0][o['id']][t.full_type], rr, nmin, npts, True)
    ctx.floor('good_parabolas', 60)
    ctx.floor('coeff_checked', 60)
    ctx.floor('edge_rows', 1)
    ctx.floor('minima_too_close', 30)
    ctx.floor('dropped_after_refinement', 5)
    ctx.floor('parabolas', 200)
