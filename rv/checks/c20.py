"""C20 representation independence: equivalent descriptions of the same data and templates give the same results, and nothing handed in is changed."""
import numpy as np
import scipy.sparse
from rv import synth, compare


def digest(targets, T):
    out = []
    for t in targets:
        out.append(repr(t.id))
        for s in t.spectra:
            out += [np.asarray(s.wave).tobytes(), np.asarray(s.flux).tobytes(), np.asarray(s.ivar).tobytes(), s.Rcsr.toarray().tobytes(), s.R.toarray().tobytes(), repr(s.band)]
    for t in T:
        out += [np.asarray(t.wave).tobytes(), np.asarray(t.flux).tobytes(), np.asarray(t.redshifts).tobytes()]
    return out


def zfind_of(targets, T, mp_procs=1, **kw):
    from redrock.targets import DistTargetsCopy
    from redrock.zfind import zfind
    tg = DistTargetsCopy(targets)
    return zfind(tg, synth.dist_templates(T, tg), mp_procs=mp_procs, **kw)


def clone(t, flux=None, wave=None, redshifts=None):
    from redrock.templates import Template
    return Template(spectype=t.template_type, redshifts=(t.redshifts if redshifts is None else redshifts).copy(), wave=(t.wave if wave is None else wave).copy(),
                    flux=(t.flux if flux is None else flux).copy(), subtype=t.sub_type, method=t.method, igm_model=t.igm_model)


def run(ctx):
    ctx.rule = ('one case = one transformation of a scene (scaling, contents of masked pixels, order, splitting, weights, memory layout, bandwidth padding, basis, template sampling, redshift range, repetition); '
                'oracle: the results of the untransformed scene, transformed the same way')
    from redrock.targets import Spectrum, Target
    from redrock.archetypes import All_archetypes
    for k in range(ctx.n(2, 12)):
        r = ctx.rng('scene', k)
        T = synth.template_set(r, small=True)
        if k % 2 == 0:
            # NMF without the non-negativity bound being active everywhere, and one PCA quasar
            T[1] = synth.template(r, 'QSO', '', 2, redshifts=T[1].redshifts, method='PCA', igm='Calura12')
        sc = synth.scene(r, T, ctx.n(4, 6), nexp=(1, 3), masked_target=False, snr=(8, 40))
        base_t = synth.build_targets(sc)
        scan0, zf0 = ctx.call('zfind', zfind_of, base_t, T)
        rows0 = compare.rows_by_target(zf0)
        # a redshift is arbitrary where no template coefficient is positive
        tied = {o['id'] for o in sc if any(np.any(np.all(np.asarray(v['zcoeff']) == 0, axis=-1)) for f, v in scan0[o['id']].items() if f != 'meta')}

        def same(key, what, scan, zf, fscan=None, frow=None, skip=(), rtol=1e-6, rows=True):
            """scan/table of the transformed run against the transformed base run"""
            got = compare.rows_by_target(zf)
            z1 = zf0.copy()
            if frow:
                for q in z1:
                    frow(q)
            exp = compare.rows_by_target(z1)
            ctx.expect(list(got) == list(rows0) or set(got) == set(rows0), key + '-targets', f'{what}: results for {sorted(got)}')
            for o in sc:
                t = o['id']
                if t not in got:
                    continue
                s1 = {f: (v if f == 'meta' else (fscan(t, f, dict(v)) if fscan else v)) for f, v in scan0[t].items()}
                compare.compare_scan(ctx, key, f'{what}: target {t}', scan[t], s1, rtol=rtol)
                if rows and t not in tied:
                    compare.compare_target(ctx, key, f'{what}: target {t}', got[t], exp[t], rtol=max(rtol, 1e-6), ztol=2e-7, skip=skip)
                    ctx.count('tables_compared')
                ctx.count('scans_compared')

        def go(name, mk, TT=T, **kw):
            what = f'scene {k}, {name}'
            ctx.case(dict(k=k, transformation=name))
            ctx.count('transformations')
            tg = [mk(o) for o in sc]
            before = digest(tg, TT)
            mp = int(kw.pop('mp_procs', 1))
            ok, res = ctx.attempt(f'zfind-{name.split(" ")[0]}', zfind_of, tg, TT, mp_procs=mp, **kw)
            ctx.expect(digest(tg, TT) == before, 'modified', f'{what}: the run changed spectra or templates it was given')
            ctx.count('inputs_compared', len(before))
            return (what,) + (res if ok else (None, None))
        raws = lambda o: synth.copy_raws(o['raws'])
        mk0 = lambda o: synth.to_target(o['id'], raws(o))
        # -- repetition in the same process, after different work
        what, s, z = go('repetition', mk0)
        if z is not None:
            same('repetition', what, s, z, rtol=1e-12)
        what, s, z = go('repetition with workers', mk0, mp_procs=2)
        if z is not None:
            same('repetition', what, s, z)
        # -- fluxes of another unit
        sf = {o['id']: float(10**r.uniform(*[(-3, 3), (-12, -6), (6, 12)][i % 3])) for i, o in enumerate(sc)}

        def scaled(o):
            q = raws(o)
            for x in q:
                x['flux'] = x['flux'] * sf[o['id']]
                x['ivar'] = x['ivar'] / sf[o['id']]**2
            return synth.to_target(o['id'], q)

        def fs(t, f, v):
            v['zcoeff'] = v['zcoeff'] * sf[t]
            v['penalty'] = v['penalty'] * sf[t]
            return v

        def fr(q):
            q['coeff'] = q['coeff'] * sf[int(q['targetid'])]
        pen = {t for t in rows0 if any(np.any(np.asarray(v['penalty']) != 0) for f, v in scan0[t].items() if f != 'meta')}
        what, s, z = go('flux unit', scaled)
        if z is not None:
            # the [OII] penalty has the unit of the flux: it may choose other candidates
            same('unit', what, s, z, fs, fr, rows=not pen)
        # -- weights: chi2 scales
        g = float(r.uniform(.3, 3))

        def weighted(o):
            q = raws(o)
            for x in q:
                x['ivar'] = x['ivar'] * g
            return synth.to_target(o['id'], q)

        def fsw(t, f, v):
            v['zchi2'] = v['zchi2'] * g
            return v

        def frw(q):
            q['chi2'], q['zerr'] = q['chi2'] * g, q['zerr'] / np.sqrt(g)
            q['deltachi2'] = q['deltachi2'] * g
        what, s, z = go('inverse variances scaled', weighted)
        if z is not None:
            same('weights', what, s, z, fsw, frw, skip=('zwarn', 'deltachi2'), rows=not pen)
        # -- contents of masked pixels
        def masked(o):
            q = raws(o)
            for x in q:
                m = x['ivar'] == 0
                x['flux'][m] = r.choice([0., 1e4, -3e5, 1e7], m.sum())
            return synth.to_target(o['id'], q)
        what, s, z = go('masked pixels', masked)
        if z is not None:
            same('masked-content', what, s, z)
        # -- order of the spectra of a target
        what, s, z = go('order of spectra', lambda o: synth.to_target(o['id'], [raws(o)[i] for i in r.permutation(len(o['raws']))]))
        if z is not None:
            same('order', what, s, z)
        # -- an exposure without any weight is added
        def padded(o):
            q = raws(o)
            x = synth.copy_raws([q[int(r.integers(len(q)))]])[0]
            x['ivar'][:] = 0
            x['flux'][:] = 1e3
            q.insert(int(r.integers(len(q) + 1)), x)
            return synth.to_target(o['id'], q)
        what, s, z = go('exposure without weight', padded)
        if z is not None:
            same('weightless', what, s, z)
        # -- the pixels of a spectrum spread over two
        def split(o):
            q = raws(o)
            i = int(r.integers(len(q)))
            a, b = synth.copy_raws([q[i], q[i]])
            m = r.random(len(a['ivar'])) < .5
            a['ivar'][m] = 0
            b['ivar'][~m] = 0
            return synth.to_target(o['id'], q[:i] + [a] + q[i + 1:] + [b])
        what, s, z = go('spectrum in two parts', split)
        if z is not None:
            same('split', what, s, z)
        # -- the same spectrum twice with half the weight
        def halves(o):
            q = raws(o)
            out = []
            for x in q:
                x['ivar'] = x['ivar'] * .5
                out += synth.copy_raws([x, x])
            return synth.to_target(o['id'], out)
        what, s, z = go('halved twice', halves)
        if z is not None:
            same('halves', what, s, z, skip=('npixels', 'zwarn'))
        # -- memory layout, element order, precision
        def layout(kind):
            def f(o):
                sp = []
                for x in raws(o):
                    w, fl, iv, R = x['wave'], x['flux'], x['ivar'], x['R']
                    if kind == 'strided':
                        w, fl, iv = [np.repeat(a, 3)[::3] for a in (w, fl, iv)]
                    elif kind == 'reversed storage':
                        w, fl, iv = [a[::-1].copy()[::-1] for a in (w, fl, iv)]
                    elif kind == 'row of a table':
                        M = np.asfortranarray(np.vstack([w, fl, iv]))
                        w, fl, iv = M
                    elif kind == 'bandwidth':
                        h = int(np.max(np.abs(R.offsets)))
                        d = np.zeros((2 * h + 5, R.shape[0]))
                        d[2:-2] = R.data
                        R = scipy.sparse.dia_matrix((d, np.arange(h + 2, -h - 3, -1)), shape=R.shape)
                    elif kind == 'diagonal order':
                        p = r.permutation(len(R.offsets))
                        R = scipy.sparse.dia_matrix((R.data[p], R.offsets[p]), shape=R.shape)
                    elif kind == 'unset resolution cache':
                        pass
                    sp.append(Spectrum(w, fl, iv, R, None if kind == 'unset resolution cache' else R.tocsr(), band=x['band']))
                return Target(o['id'], sp)
            return f
        kinds = ['strided', 'reversed storage', 'row of a table', 'bandwidth', 'diagonal order', 'unset resolution cache']
        for kd in kinds:
            what, s, z = go(kd, layout(kd), mp_procs=[1, 1, 2][int(r.integers(3))])
            if z is not None:
                same('layout', what, s, z)
        # -- another basis of the same model space, and the model sampled more finely
        TT, back = [], {}
        for t in T:
            n = t.nbasis
            if t.method == 'NMF':
                A = np.diag(r.uniform(.3, 3, n))[r.permutation(n)]
            else:
                A = np.linalg.qr(r.normal(size=(n, n)))[0] * r.uniform(.5, 2)
            TT.append(clone(t, flux=A @ t.flux))
            back[t.full_type] = np.linalg.inv(A)      # coeff' = coeff @ A^-1

        def fsb(t, f, v):
            v['zcoeff'] = v['zcoeff'] @ back[f]
            return v
        from redrock.templates import make_fulltype

        def frb(q):
            ft = make_fulltype(q['spectype'], q['subtype'])
            n = len(back[ft])
            c = np.array(q['coeff'], float)
            c[:n] = c[:n] @ back[ft]
            q['coeff'] = c
        what, s, z = go('another basis', mk0, TT)
        if z is not None:
            same('basis', what, s, z, fsb, frb, rtol=3e-6)
        TT = []
        for t in T:
            w = np.sort(np.concatenate([t.wave, .5 * (t.wave[1:] + t.wave[:-1])]))
            TT.append(clone(t, wave=w, flux=np.array([np.interp(w, t.wave, f) for f in t.flux])))
        what, s, z = go('template sampled more finely', mk0, TT)
        if z is not None:
            # the [OII] term sums over samples: only the chi2 and coefficients are the same
            for o in sc:
                for f, v in scan0[o['id']].items():
                    if f != 'meta':
                        ctx.expect(compare.close(s[o['id']][f]['zchi2'], v['zchi2'], 1e-6, 1e-6), 'sampling', f'{what}: chi2 of target {o["id"]}, {f}')
                        ctx.count('scans_compared')
        # -- part of the redshift range
        TT, cut = [], {}
        for t in T:
            a = int(r.integers(0, len(t.redshifts) // 2))
            b = int(r.integers(a + 4, len(t.redshifts) + 1))
            cut[t.full_type] = slice(a, b)
            TT.append(clone(t, redshifts=t.redshifts[a:b]))
        what, s, z = go('part of the redshift range', mk0, TT)
        if z is not None:
            same('range', what, s, z, lambda t, f, v: {q: (np.asarray(v[q])[cut[f]] if q in ('redshifts', 'zchi2', 'penalty', 'zcoeff') else v[q]) for q in v}, rows=False)
    # the same with archetypes
    import os
    from rv import files
    for k in range(ctx.n(2, 10)):
        r = ctx.rng('arch', k)
        d = ctx.sub(f'a{k}')
        T, A = [], []
        for st, zr, nb in (('GALAXY', np.linspace(0.02, .35, 20), 3), ('QSO', np.linspace(1.9, 2.9, 20), 3)):
            w = synth.rest_grid(zr.min(), zr.max())
            w = 10**np.linspace(np.log10(w[0]), np.log10(w[-1]), len(w))
            B = synth.basis(r, w, nb, positive=True)
            T.append(synth.template(r, st, '', nb, redshifts=zr, wave=w, flux=B))
            files.write_archetype(os.path.join(d, f'rrarchetype-{st.lower()}.fits'), st, w, np.array([r.uniform(.1, 1, nb) @ B for _ in range(4)]), ['A', 'B', 'C', 'D'], loglam=True)
        arch = All_archetypes(archetypes_dir=d).archetypes
        sc = synth.scene(r, T, 3, nexp=(1, 2), snr=(8, 30), masked_target=False)
        percam, nleg, nn = bool(k % 2), int(r.integers(1, 4)), None      # nearest archetypes tie when their own coefficient is zero
        kw = dict(archetypes=arch, per_camera=percam, deg_legendre=nleg, n_nearest=nn, prior_sigma=None, ncamera=3)
        adig = lambda: [np.asarray(a.wave).tobytes() + np.asarray(a.flux).tobytes() for a in arch.values()]
        a0 = adig()
        raws = lambda o: synth.copy_raws(o['raws'])
        base = ctx.call('zfind-archetypes', zfind_of, [synth.to_target(o['id'], raws(o)) for o in sc], T, **kw)[1]
        sf = {o['id']: float(10**r.uniform(*[(-3, 3), (-12, -6), (6, 12)][i % 3])) for i, o in enumerate(sc)}

        def content(o):
            q = raws(o)
            for x in q:
                x['flux'][x['ivar'] == 0] = 7e5
            return q

        def weightless(o):
            q = raws(o)
            x = synth.copy_raws(q[:1])[0]
            x['ivar'][:] = 0
            return q + [x]

        def unit(o):
            q = raws(o)
            for x in q:
                x['flux'], x['ivar'] = x['flux'] * sf[o['id']], x['ivar'] / sf[o['id']]**2
            return q
        for name, f, kk in (('repetition', raws, {}), ('repetition with workers', raws, dict(mp_procs=2)), ('masked pixels', content, {}), ('exposure without weight', weightless, {}), ('flux unit', unit, {})):
            what = f'archetypes, scene {k}, {name}, {nleg} Legendre terms, per camera {percam}, nearest {nn}'
            ctx.case(dict(k=k, kind='archetypes', transformation=name, percam=percam, nleg=nleg, nearest=nn))
            tg = [synth.to_target(o['id'], f(o)) for o in sc]
            before = digest(tg, T)
            ok, res = ctx.attempt('zfind-archetypes-' + name.split(' ')[0], zfind_of, tg, T, **kw, **kk)
            ctx.expect(digest(tg, T) == before and adig() == a0, 'modified', f'{what}: the run changed spectra, templates or archetypes it was given')
            if not ok:
                continue
            z1 = base.copy()
            if name == 'flux unit':
                for q in z1:
                    q['coeff'] = q['coeff'] * sf[int(q['targetid'])]
            got, exp = compare.rows_by_target(res[1]), compare.rows_by_target(z1)
            for o in sc:
                ctx.expect(o['id'] in got, 'archetype-targets', f'{what}: no result for target {o["id"]}')
                pen = any(np.any(np.asarray(v['penalty']) != 0) for ft, v in res[0][o['id']].items() if ft != 'meta')
                dead = any(np.all(np.asarray(q['coeff'], float)[:1] == 0) for q in exp[o['id']])     # rejected archetypes tie
                if o['id'] in got and not dead and not (pen and name == 'flux unit'):
                    compare.compare_target(ctx, 'archetype-' + name.split(' ')[0], f'{what}: target {o["id"]}', got[o['id']], exp[o['id']], rtol=1e-6, ztol=2e-7)
                    ctx.count('archetype_rows', len(got[o['id']]))
    ctx.floor('archetype_rows', 20)
    ctx.floor('transformations', 20)
    ctx.floor('tables_compared', 60)
    ctx.floor('scans_compared', 100)
    ctx.floor('inputs_compared', 500)
