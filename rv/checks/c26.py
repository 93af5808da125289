"""C26 delta-chi2 and the SMALL_DELTA_CHI2 warning."""
import os
import numpy as np
from rv import synth, compare, files

BADFIT = (1 << 3) | (1 << 4) | (1 << 5) | (1 << 6) | (1 << 10)
C = 299792.458


def reference(chi2, z, zwarn, lim):
    """definition, written pair by pair; also returns the smallest relative margin of any comparison"""
    n = len(chi2)
    d, flag = np.zeros(n), np.zeros(n, bool)
    margin = np.inf
    for i in range(n):
        best = None
        for j in range(n):
            if i == j:
                continue
            v = abs(C * (z[j] - z[i]) / (1 + z[i]))
            L = min(lim[i], lim[j])
            margin = min(margin, abs(v - L) / L)
            good = not (int(zwarn[j]) & BADFIT)
            if good and v >= L:
                dc = chi2[j] - chi2[i]
                margin = min(margin, abs(abs(dc) - 9.) / 9.)
                if abs(dc) < 9.:
                    flag[i] = True
                if j > i:
                    best = dc if best is None else min(best, dc)
        if best is not None:
            d[i] = best
    return d, flag, margin


def run(ctx):
    from redrock.zfind import calc_deltachi2
    from redrock.archetypes import All_archetypes
    ctx.rule = 'one case = one candidate list (synthetic, or from a pipeline run) whose deltachi2 and flags are recomputed pair by pair; distinct = lists'
    for k in range(ctx.n(3000, 40000)):
        r = ctx.rng(k)
        n = int(r.integers(1, 10)) if k % 7 else int(r.integers(10, 40))
        chi2 = r.uniform(100, 100 + 10**r.uniform(0, 2.5), n)
        base = r.choice([0.0, 0.5, 2.0])
        z = base + r.normal(size=n) * 10**r.uniform(-4, -1)
        if r.random() < .3:
            z[r.integers(n)] = z[0]
        zwarn = np.where(r.random(n) < .3, r.choice([1 << 5, 1 << 10, 1 << 3, (1 << 5) | 4, 1 << 4, 1 << 6], n), r.choice([0, 0, 4, 2, 1 << 9], n)).astype(int)
        o = np.lexsort((chi2, (zwarn & BADFIT) != 0))
        chi2, z, zwarn = chi2[o], z[o], zwarn[o]
        scalar = r.random() < .3
        lim = np.full(n, 1000.) if scalar else r.choice([100., 1000.], n)
        ctx.case(dict(k=k, n=n, bad=int(np.sum((zwarn & BADFIT) != 0)), scalar=bool(scalar)))
        c0, z0, w0 = chi2.copy(), z.copy(), zwarn.copy()
        d, f = ctx.call('calc_deltachi2', calc_deltachi2, chi2, z, zwarn, **({} if scalar else dict(dvlimit=lim)))
        ctx.expect(np.array_equal(chi2, c0) and np.array_equal(z, z0) and np.array_equal(zwarn, w0), 'inputs-changed', 'calc_deltachi2 modified its inputs')
        rd, rf, margin = reference(chi2, z, zwarn, lim)
        if margin < 1e-9:
            continue
        ctx.expect(np.allclose(d, rd, rtol=1e-10, atol=1e-9), 'deltachi2', f'deltachi2 {np.round(d, 4).tolist()} instead of {np.round(rd, 4).tolist()} for chi2={np.round(chi2, 3).tolist()} z={np.round(z, 5).tolist()} zwarn={zwarn.tolist()} limits={lim.tolist()}')
        ctx.expect(np.array_equal(np.asarray(f, bool), rf), 'small-flag', f'SMALL_DELTA_CHI2 {np.asarray(f).tolist()} instead of {rf.tolist()} for chi2={np.round(chi2, 3).tolist()} z={np.round(z, 5).tolist()} zwarn={zwarn.tolist()}')
        ctx.count('flags_set', rf.sum())
        ctx.count('lists_checked')
    # in the table
    for k in range(ctx.n(10, 80)):
        r = ctx.rng('run', k)
        if k % 2:
            T = synth.template_set(r, small=True)
            sc = synth.scene(r, T, 4, snr=(0.2, 8))
        else:
            # types which compete at nearly the same redshift: candidates 100-1000 km/s apart
            zz = np.linspace(.1, .12, 40)
            T = [synth.template(r, 'GALAXY', '', 2, redshifts=zz), synth.template(r, 'QSO', '', 2, redshifts=zz + r.uniform(.0005, .002), igm='None'),
                 synth.template(r, 'STAR', 'A', 2, redshifts=np.linspace(-.002, .002, 9), igm='None'), synth.template(r, 'STAR', 'M', 2, redshifts=np.linspace(-.0015, .0025, 9), igm='None')]
            if r.random() < .5:
                T = [T[i] for i in r.permutation(4)]
            sc = synth.scene(r, T, 6, snr=(2, 8), masked_target=False)
        kw = {}
        if k % 5 in (1, 2):                                  # rows of archetypes have the limits of their own type
            d = ctx.sub(f'arch{k}')
            for st in ('GALAXY', 'QSO', 'STAR'):
                if st == 'STAR' or r.random() < .6:
                    fl, w = [], None
                    for t in T:
                        if t.template_type == st:
                            w = 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave)) if w is None else w
                            fl += [np.interp(w, t.wave, np.abs(t.flux[0] + a * t.flux[-1]) + .05) for a in (.3, -.5)]
                    files.write_archetype(os.path.join(d, f'rrarchetype-{st.lower()}.fits'), st, w, np.array(fl), ['X'] * len(fl))
            kw = dict(archetypes=All_archetypes(archetypes_dir=d).archetypes, per_camera=bool(r.integers(2)), deg_legendre=2, n_nearest=[None, 2][int(r.integers(2))], prior_sigma=.1, ncamera=3)
            ctx.count('archetype_runs')
        scan, zf = ctx.call('zfind', synth.run_serial, sc, T, nminima=int(r.integers(1, 5)) if k % 3 else int(r.integers(5, 9)), mp_procs=1 + k % 2, **kw)
        ctx.case(dict(kind='pipeline', k=k), key=('run', k))
        for t, rr in compare.rows_by_target(zf).items():
            chi2 = np.array([float(x['chi2']) for x in rr])
            z = np.array([float(x['z']) for x in rr])
            zw = np.array([int(x['zwarn']) for x in rr])
            lim = np.array([100. if x['spectype'] == 'STAR' else 1000. for x in rr])
            rd, rf, margin = reference(chi2, z, zw, lim)
            if margin < 1e-9:
                continue
            ctx.expect(np.allclose([float(x['deltachi2']) for x in rr], rd, rtol=1e-6, atol=1e-6), 'table-deltachi2', f'target {t}: deltachi2 column {[round(float(x["deltachi2"]), 4) for x in rr]} instead of {np.round(rd, 4).tolist()} (types {[str(x["spectype"]) for x in rr]})')
            ctx.expect([bool(w & 4) for w in zw] == rf.tolist(), 'table-flag', f'target {t}: SMALL_DELTA_CHI2 {[bool(w & 4) for w in zw]} instead of {rf.tolist()}')
            ctx.count('table_lists')
            ctx.count('long_lists', len(z) > 9)
            ctx.count('star_pairs_between_limits', any(100 < abs(C * (z[j] - z[i]) / (1 + z[i])) < 1000 and lim[i] == lim[j] == 100 for i in range(len(z)) for j in range(i)) and bool(kw))
            ctx.count('table_flags', rf.sum())
    ctx.floor('flags_set', 300)
    ctx.floor('table_flags', 5)
    ctx.floor('table_lists', 25)
    ctx.floor('long_lists', 3)
    ctx.floor('star_pairs_between_limits', 5)
