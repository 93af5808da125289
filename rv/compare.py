"""Row-by-row comparison of redshift tables and scans."""
import numpy as np

ZTOL = 1e-9
RTOL = 1e-7
FLOATCOLS = ('z', 'zerr', 'chi2', 'deltachi2')
EXACTCOLS = ('zwarn', 'npixels', 'spectype', 'subtype', 'znum', 'ncoeff', 'fitmethod')


def rows_by_target(zfit):
    out = {}
    for r in zfit:
        out.setdefault(_tid(r['targetid']), []).append(r)
    return out


def _tid(x):
    return x if isinstance(x, str) else int(x)


def _pad(c, n):
    c = np.atleast_1d(np.asarray(c, float))
    return np.concatenate([c, np.zeros(max(0, n - len(c)))])


def close(a, b, rtol=RTOL, atol=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    fin = np.isfinite(a) & np.isfinite(b)
    with np.errstate(invalid='ignore'):
        d = np.abs(a - b)
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (fin & (d <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))))


def row_diff(a, b, skip=(), ztol=ZTOL, rtol=RTOL):
    """names of the columns in which two result rows differ"""
    bad = []
    for c in EXACTCOLS:
        if c in skip or c not in a.colnames or c not in b.colnames:
            continue
        x, y = a[c], b[c]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not np.array_equal(x, y):
                bad.append(c)
        elif x != y:
            bad.append(c)
    for c in FLOATCOLS:
        if c in skip:
            continue
        at = ztol if c in ('z',) else (1e-5 if c == 'deltachi2' else 0.)
        if not close(a[c], b[c], rtol=max(rtol, 1e-4) if c == 'zerr' else rtol, atol=at):
            bad.append(c)
    if 'coeff' not in skip:
        ca, cb = a['coeff'], b['coeff']
        n = max(np.size(ca), np.size(cb))
        ca, cb = _pad(ca, n), _pad(cb, n)
        s = max(np.abs(ca).max(), np.abs(cb).max(), 1e-30)
        if not np.all(np.abs(ca - cb) <= 1e-5 * s):
            bad.append('coeff')
    return bad


def compare_target(ctx, key, what, rows_a, rows_b, **kw):
    """expect the two lists of rows (one target) to be the same"""
    def nodata(rows):
        return len(rows) > 0 and all(r['npixels'] == 0 for r in rows)
    if nodata(rows_a) and nodata(rows_b):
        # chi2 is the same at every redshift: which redshifts come out of parabolas through equal values is a matter of round-off,
        # and so is their number (candidates close to each other are dropped) and their order
        ok = all(int(r['zwarn']) >> 9 & 1 for r in rows_a) and all(close(r['chi2'], rows_b[0]['chi2'], rtol=1e-6) for r in rows_a)
        ok &= 'coeff' in kw.get('skip', ()) or not any(np.any(np.asarray(r['coeff'], float)) for r in rows_a)
        ok &= [int(r['znum']) for r in rows_a] == list(range(len(rows_a)))
        return ctx.expect(ok, key, f'{what}: rows of a target without data: {[(str(r["spectype"]), int(r["zwarn"]), float(r["chi2"])) for r in rows_a]} and {[(str(r["spectype"]), int(r["zwarn"]), float(r["chi2"])) for r in rows_b]}')
    if not ctx.expect(len(rows_a) == len(rows_b), key + '-nrows', f'{what}: {len(rows_a)} rows instead of {len(rows_b)}'):
        return False
    for a, b in zip(rows_a, rows_b):
        d = row_diff(a, b, **kw)
        if not ctx.expect(not d, key, f'{what}: columns {d} differ (z {a["z"]:.8f} vs {b["z"]:.8f}, chi2 {a["chi2"]:.6f} vs {b["chi2"]:.6f}, {a["spectype"]} vs {b["spectype"]})',
                          a={c: a[c] for c in a.colnames if c not in ('zz', 'zzchi2')}, b={c: b[c] for c in b.colnames if c not in ('zz', 'zzchi2')}):
            return False
    return True


def compare_scan(ctx, key, what, sa, sb, rtol=RTOL):
    """two per-target scan dictionaries: {fulltype: dict(redshifts, zchi2, penalty, zcoeff)}"""
    fa, fb = set(sa) - {'meta'}, set(sb) - {'meta'}
    if not ctx.expect(fa == fb, key + '-types', f'{what}: template types {sorted(fa)} instead of {sorted(fb)}'):
        return False
    ok = True
    for ft in sorted(fa):
        for c in ('redshifts', 'zchi2', 'penalty', 'zcoeff'):
            x, y = np.asarray(sa[ft][c], float), np.asarray(sb[ft][c], float)
            at = 1e-9 if c == 'redshifts' else (1e-6 * max(1e-30, np.abs(y[np.isfinite(y)]).max(initial=0.) if y.size else 1.) if c in ('zcoeff', 'penalty') else 1e-6)
            ok &= ctx.expect(close(x, y, rtol, at), key + '-' + c, f'{what}: scan {c} of {ft} differs' + ('' if x.shape != y.shape else f' (max diff {np.nanmax(np.abs(x - y)):.3g})'))
    return ok
