"""C12 details (HDF5) file: lossless round trip at its documented precision, and reuse as chi2 scan."""
import os
import numpy as np
from astropy.table import vstack
from rv import synth, files, compare

F32 = {'zerr', 'chi2', 'zz', 'zzchi2', 'coeff', 'deltachi2'}


def same_value(a, b, f32):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == 'S':
        return np.array_equal(a, b)
    if b.dtype.kind in 'SU' or a.dtype.kind in 'SU':
        return a.dtype.kind == 'U' and b.dtype.kind == 'U' and np.array_equal(a, b)
    if a.shape != b.shape:
        return False
    if f32:
        return np.array_equal(a.astype(np.float32), b.astype(np.float32), equal_nan=True)
    return np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def run(ctx):
    from redrock.results import write_zscan, read_zscan, read_zfit, read_zscan_redrock
    from redrock.targets import DistTargetsCopy
    from redrock.zfind import zfind
    from redrock.archetypes import All_archetypes
    ctx.rule = 'one case = one zfind result written and read back in every way; distinct = results'
    for k in range(ctx.n(26, 200)):
        r = ctx.rng(k)
        d = ctx.sub(f'k{k}')
        T = synth.template_set(r, small=True, igm=str(r.choice(['Inoue14', 'Calura12'])))
        T = [T[i] for i in r.permutation(len(T))][:int(r.integers(1, 5))]
        if r.random() < .25:
            T.append(synth.long_names(r))
            ctx.count('long_type_names')
        arch = None
        pos = [t for t in T if t.template_type != 'STAR']
        if pos and r.random() < .4:
            for t in pos[:int(r.integers(1, 3))]:
                w = 10**np.linspace(np.log10(t.wave[0]), np.log10(t.wave[-1]), len(t.wave))
                fl = np.abs(np.array([np.abs(r.normal(size=t.nbasis)) @ t.flux for _ in range(3)])) + .05
                files.write_archetype(os.path.join(d, f'rrarchetype-{t.template_type.lower()}.fits'), t.template_type, w, fl, ['ELG', 'LRG', 'ELG'])
            arch = All_archetypes(archetypes_dir=d).archetypes
        percam, nleg, nn = bool(r.integers(2)), int(r.integers(0, 3)), [None, 2][int(r.integers(2))]
        kw = dict(nminima=int(r.integers(1, 5)))
        if arch:
            kw.update(archetypes=arch, per_camera=percam, deg_legendre=nleg, n_nearest=nn, prior_sigma=.1, ncamera=3)
        sc = synth.scene(r, T, int(r.integers(1, 6)), nexp=(1, 2), ids=[int(x) for x in r.choice(2**62, 6, replace=False)] if r.random() < .5 else None, neg=.4)
        meta = (lambda o: dict(mag=float(o['id'] % 97) / 7, name=f'o{o["id"] % 9999}', name_datatype='S8', n=int(o['id'] % 11))) if r.random() < .3 else None
        mk = lambda order=None: DistTargetsCopy(synth.build_targets(sc, order, meta))
        tg = mk()
        zs, zf = ctx.call('zfind', zfind, tg, synth.dist_templates(T, tg), **kw)
        what = f'result {k} ({len(sc)} targets, types {[t.full_type for t in T]}, archetypes={sorted(arch) if arch else None}, {nleg} Legendre terms, nearest={nn}, meta={meta is not None})'
        ctx.case(dict(k=k, n=len(sc), types=[t.full_type for t in T], arch=sorted(arch) if arch else None, meta=meta is not None, nmin=kw['nminima']))
        fn = os.path.join(d, 'sub', 'det.h5')
        before = zf.copy()
        ctx.call('write_zscan', write_zscan, fn, zs, zf)
        if r.random() < .4:
            ctx.call('write_zscan', write_zscan, fn, zs, zf, clobber=True)
        ctx.expect(before.colnames == zf.colnames and all(np.array_equal(np.asarray(before[c]), np.asarray(zf[c])) for c in before.colnames), 'mutated', f'{what}: write_zscan changed the table it was given')
        ctx.expect(os.listdir(os.path.dirname(fn)) == ['det.h5'], 'leftover', f'{what}: {os.listdir(os.path.dirname(fn))} left after writing')
        ids = [int(o['id']) for o in sc]
        sels = [None, int(ids[0]), [int(x) for x in r.permutation(ids)[:int(r.integers(1, len(ids) + 1))]], np.array(ids)[::-1]]
        for sel in sels:
            upper = bool(r.integers(2))
            want = ids if sel is None else [int(x) for x in np.atleast_1d(sel)]
            ok, res = ctx.attempt('read_zscan', read_zscan, fn, select_targetids=sel, upper=upper)
            if not ok:
                break
            z2, f2 = res
            ctx.expect(sorted(int(t) for t in z2) == sorted(want), 'zscan-targets', f'{what}: read_zscan(select={sel}) returned targets {sorted(z2)}')
            for t in want:
                if t not in z2:
                    continue
                ctx.expect(sorted(z2[t]) == sorted(zs[t]), 'zscan-types', f'{what}: target {t} has types {sorted(z2[t])}, written {sorted(zs[t])}')
                for ft in zs[t]:
                    a, b = zs[t][ft], z2[t].get(ft, {})
                    for key in ('zchi2', 'penalty', 'zcoeff'):
                        ctx.expect(key in b and np.array_equal(np.asarray(a[key], np.float32), np.asarray(b[key], np.float32)), 'zscan-values', f'{what}: target {t} {ft} {key} differs after reading back (select={sel})')
                    ctx.expect('redshifts' in b and np.array_equal(a['redshifts'], b['redshifts']), 'zscan-redshifts', f'{what}: target {t} {ft} redshifts differ after reading back')
                    ctx.count('scans')
            check_table(ctx, what, zf, f2, want, upper, f'read_zscan(select={sel})')
            c = (lambda n: n.upper()) if upper else (lambda n: n)
            # the per-type tables
            st, su = ('pca_spectype', 'pca_subtype') if arch else ('spectype', 'subtype')
            for t in want:
                for ft in zs[t]:
                    rows = [x for x in zf if int(x['targetid']) == t and (x[st] + (':::' + x[su] if x[su] else '')) == ft]
                    got = z2.get(t, {}).get(ft, {}).get('zfit', [])
                    za, zb = sorted(float(x['z']) for x in rows), sorted(float(x[c('z')]) for x in got)
                    ctx.expect(za == zb, 'type-zfit', f'{what}: target {t}: zfit of {ft} has redshifts {zb}, the table has {za}')
            f3 = ctx.call('read_zfit', read_zfit, fn, select_targetids=sel, upper=upper)
            check_table(ctx, what, zf, f3, want, upper, f'read_zfit(select={sel})')
        # what a refit starts from
        z5 = ctx.call('read_zscan_redrock', read_zscan_redrock, fn)
        ctx.expect(sorted(int(t) for t in z5) == sorted(ids), 'redrock-targets', f'{what}: read_zscan_redrock returned targets {sorted(z5)}')
        for t in ids:
            for ft in zs[t]:
                a, b = zs[t][ft], z5.get(t, {}).get(ft, {})
                for key in ('zchi2', 'penalty', 'zcoeff'):
                    ctx.expect(key in b and np.array_equal(np.asarray(a[key], np.float32), np.asarray(b[key], np.float32)), 'redrock-values', f'{what}: target {t} {ft} {key} differs in the scan read for reuse')
                ctx.expect('redshifts' in b and np.array_equal(a['redshifts'], b['redshifts']), 'redrock-redshifts', f'{what}: target {t} {ft} redshifts differ in the scan read for reuse')
        pen = [[np.asarray(zs[t][ft]['penalty']).tobytes() for t in ids] for ft in zs[ids[0]]]
        ctx.count('penalties_differ_between_targets', sum(len(set(p)) > 1 for p in pen))
        z4 = ctx.call('read_zscan(nozfit)', read_zscan, fn, nozfit=True)
        ctx.expect(isinstance(z4, dict) and sorted(int(t) for t in z4) == sorted(ids), 'nozfit', f'{what}: nozfit read gives {type(z4)}')
        # reuse of the scan: same redshifts for any subset and order of the targets
        order = [int(i) for i in r.permutation(len(sc))[:int(r.integers(1, len(sc) + 1))]]
        t2 = mk(order)
        kw['mp_procs'] = int(r.integers(1, 3))
        if len(T) > 1 and r.random() < .4:
            T2 = [T[i] for i in sorted(r.permutation(len(T))[:int(r.integers(1, len(T)))])]
            t3, t4 = mk(order), mk(order)
            ok, res = ctx.attempt('zfind-chi2-scan-fewer-templates', zfind, t3, synth.dist_templates(T2, t3), chi2_scan=fn, **kw)
            if ok:
                _, direct = ctx.call('zfind', zfind, t4, synth.dist_templates(T2, t4), **kw)
                a, b = compare.rows_by_target(direct), compare.rows_by_target(res[1])
                for t in a:
                    ctx.expect(t in b and abs(a[t][0]['chi2'] - b[t][0]['chi2']) <= 1e-4 * abs(a[t][0]['chi2']) + 1e-3 and set(x['spectype'] for x in b[t]) <= set(q.template_type for q in T2), 'reuse-fewer', f'{what}: target {t}: with the saved scan and templates {[q.full_type for q in T2]} the best chi2 is {b[t][0]["chi2"] if t in b else None}, directly {a[t][0]["chi2"]}')
                    ctx.count('reuse_fewer')
        ok, res = ctx.attempt('zfind-chi2-scan', zfind, t2, synth.dist_templates(T, t2), chi2_scan=fn, **kw)
        if ok:
            a, b = compare.rows_by_target(zf), compare.rows_by_target(res[1])
            ctx.expect(sorted(b) == sorted(ids[i] for i in order), 'reuse-targets', f'{what}: reuse returned targets {sorted(b)}')
            for t in b:
                key = lambda x: (x['spectype'], round(float(x['z']), 4))
                xa, xb = a[t], b[t]
                if len(xa) != len(xb) or any(x['spectype'] != y['spectype'] or abs(x['z'] - y['z']) > 1e-4 * (1 + abs(x['z'])) for x, y in zip(xa, xb)):
                    ca = sorted(float(x['chi2']) for x in xa)
                    # float32 scans may reorder or merge exactly tied minima; judge only the best one then
                    ctx.expect(abs(xa[0]['chi2'] - xb[0]['chi2']) <= 1e-4 * abs(xa[0]['chi2']) + 1e-3, 'reuse', f'{what}: target {t}: best {xb[0]["spectype"]} z={xb[0]["z"]:.6f} chi2={xb[0]["chi2"]:.4f} with the saved scan, {xa[0]["spectype"]} z={xa[0]["z"]:.6f} chi2={xa[0]["chi2"]:.4f} directly')
                    ctx.count('reuse_loose')
                else:
                    ctx.expect(all(abs(x['chi2'] - y['chi2']) <= 1e-6 * abs(x['chi2']) + 1e-6 for x, y in zip(xa, xb)), 'reuse', f'{what}: target {t}: chi2 differs when the saved scan is used')
                    ctx.count('reuse_exact')
    # more candidates and coefficients than fit a byte
    for k in range(ctx.n(3, 15)):
        r = ctx.rng('many', k)
        d = ctx.sub(f'many{k}')
        T = [synth.template(r, st, '', 2 if k % 2 else int(r.integers(15, 40)), redshifts=np.linspace(a, b, 300)) for st, a, b in (('GALAXY', .02, .5), ('QSO', 1., 3.))]
        sc = synth.scene(r, T, 2, masked_target=False)
        for o in sc:
            for q in o['raws']:
                q['flux'] = r.normal(size=len(q['flux']))
        tg = DistTargetsCopy(synth.build_targets(sc))
        zs, zf = ctx.call('zfind', zfind, tg, synth.dist_templates(T, tg), nminima=100)
        n = int(r.integers(130, 600))                  # candidates per target: those found, repeated with other redshifts
        rows = [zf[zf['targetid'] == o['id']] for o in sc]
        rows = [vstack([q] * (n // len(q) + 1))[:n] for q in rows]
        for q in rows:
            q['znum'] = np.arange(n)
            q['z'] = np.sort(r.uniform(.02, 3, n))
            q['ncoeff'] = int(r.integers(128, 300)) if k % 2 else q['ncoeff']
        big = vstack(rows)
        if k % 2:
            big.replace_column('coeff', r.normal(size=(len(big), int(big['ncoeff'].max()))))
        fn = os.path.join(d, 'det.h5')
        what = f'{n} candidates per target with {big["ncoeff"].max()} coefficients'
        ctx.case(dict(kind='many', k=k, candidates=n, ncoeff=int(big['ncoeff'].max())), key=('many', k))
        for t in zs:                                    # bright and faint targets in any units
            for ft in zs[t]:
                u = 10.**r.uniform(-8, 12)
                zs[t][ft] = dict(zs[t][ft], zchi2=zs[t][ft]['zchi2'] * u, penalty=np.abs(r.normal(size=len(zs[t][ft]['penalty']))) * u, zcoeff=zs[t][ft]['zcoeff'] * u)
        ctx.call('write_zscan', write_zscan, fn, zs, big)
        ids = [int(o['id']) for o in sc]
        z2, f2 = ctx.call('read_zscan', read_zscan, fn)
        ctx.expect(sorted(int(t) for t in z2) == sorted(ids), 'zscan-targets', f'{what}: read_zscan returned targets {sorted(z2)}')
        for t in ids:
            for ft in zs[t]:
                ctx.expect(same_value(np.asarray(zs[t][ft]['zcoeff']), np.asarray(z2[t][ft]['zcoeff']), True), 'wide-zcoeff', f'{what}: scan coefficients of {ft} {np.shape(z2[t][ft]["zcoeff"])}, written {np.shape(zs[t][ft]["zcoeff"])}')
                for key in ('zchi2', 'penalty'):
                    ctx.expect(np.allclose(z2[t][ft][key], zs[t][ft][key], rtol=1e-6, atol=0), 'zscan-values', f'{what}: target {t} {ft} {key} differs after reading back')
                rows = np.asarray(big['targetid'] == t) & np.asarray(big['spectype'] == ft)
                got = z2[t][ft].get('zfit', [])
                ctx.expect(len(got) == rows.sum() and np.array_equal(np.sort(np.asarray(got['z'])), np.sort(np.asarray(big['z'][rows]))), 'wide-rows-by-type', f'{what}: {len(got)} of {rows.sum()} rows filed under {ft}')
        check_table(ctx, what, big, f2, ids, False, 'read_zscan')
        ctx.count('wide_tables')
    ctx.floor('wide_tables', 3)
    ctx.floor('scans', 100)
    ctx.floor('tables', 100)
    ctx.floor('reuse_exact', 20)
    ctx.floor('long_type_names', 2)
    ctx.floor('penalties_differ_between_targets', 4)


def check_table(ctx, what, zf, f2, want, upper, label):
    c = (lambda n: n.upper()) if upper else (lambda n: n)
    cols = [n for n in zf.colnames if 0 not in zf[n].shape[1:]]
    ctx.expect(sorted(f2.colnames) == sorted(c(n) for n in cols), 'columns', f'{what}: {label}: columns {f2.colnames}, written {cols}')
    got = [int(x) for x in f2[c('targetid')]]
    exp = [int(t) for t in want for _ in range(int(np.sum(zf['targetid'] == t)))]
    if not ctx.expect(sorted(got) == sorted(exp), 'rows', f'{what}: {label}: rows of targets {got[:8]}, expected {exp[:8]}'):
        return
    for t in set(want):
        i, j = np.nonzero(np.asarray(zf['targetid']) == t)[0], np.nonzero(np.asarray(f2[c('targetid')]) == t)[0]
        for n in cols:
            if c(n) in f2.colnames:
                ok = same_value(np.asarray(zf[n][i]), np.asarray(f2[c(n)][j]), n in F32)
                ctx.expect(ok, f'column-{n}', f'{what}: {label}: target {t} column {n}: {np.asarray(f2[c(n)][j]).ravel()[:4]} ({f2[c(n)].dtype}), written {np.asarray(zf[n][i]).ravel()[:4]}')
    ctx.count('tables')
