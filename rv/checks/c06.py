"""C06 IGM transmission: published formulae, per redshift, whatever the batching; bounded; transparent redward of Lyman alpha."""
import numpy as np
from rv import synth, igmref

MODELS = ['Calura12', 'Kamble20', 'Inoue14', 'None', None]


def run(ctx):
    from redrock.igm import transmission_Lyman
    ctx.rule = 'one case = one call (model, redshift list, wavelength grid, scalar/array form) compared element by element with the published formulae; distinct = calls'
    for k in range(ctx.n(700, 8000)):
        r = ctx.rng(k)
        model = MODELS[k % 5]
        nz, nw = int(r.integers(1, 12)), int(r.integers(1, 60))
        if k % 12 == 5:                                # many redshifts, many wavelengths
            nz = int(r.integers(30, 400))
        elif k % 12 == 10:
            nw = int(r.integers(500, 4000))
        top = r.choice([0.5, 2.5, 5.0, 7.0, 11.0])
        z = r.uniform(-0.003, top, nz)
        w = np.sort(r.uniform(*[(3000., 10000.), (800., 4000.), (3600., 5800.), (7500., 9800.)][int(r.integers(4))], nw))
        if r.random() < .5:
            z = np.sort(z)
        if r.random() < .4:
            w = r.permutation(w)
        form = int(r.integers(4))
        za = float(z[0]) if form in (1, 3) else z
        wa = float(w[0]) if form in (2, 3) else w
        ctx.case(dict(model=model, nz=np.size(za), nw=np.size(wa), zmax=float(np.max(za)), form=form, k=k))
        z0, w0 = z.copy(), w.copy()
        T = ctx.call('transmission', transmission_Lyman, za, wa, model=model)
        ctx.expect(np.array_equal(z, z0) and np.array_equal(w, w0), 'inputs-changed', 'transmission_Lyman modified its inputs')
        shape = (() if form in (1, 3) else (nz,)) + (() if form in (2, 3) else (nw,))
        if not ctx.expect(np.shape(T) == shape, 'shape', f'shape {np.shape(T)} instead of {shape}'):
            continue
        T = np.asarray(T, float).reshape(np.size(za), np.size(wa))
        ref = np.array([igmref.transmission(q, np.atleast_1d(wa), model) for q in np.atleast_1d(za)])
        d = np.abs(T - ref)
        ctx.expect(np.all(d <= 1e-9 + 1e-7 * ref), 'formula', f'{model}: transmission off by {d.max():.3g} at z={np.atleast_1d(za)[np.argmax(d.max(axis=1))]:.4f}')
        ctx.expect(np.all(np.isfinite(T)) and np.all(T >= 0) and np.all(T <= 1 + 1e-9), 'bounds', f'{model}: transmission outside [0,1]: {T.min()}..{T.max()}')
        red = np.atleast_1d(wa)[None, :] > 1215.67 * (1 + np.atleast_1d(za))[:, None] * (1 + 1e-9)
        ctx.expect(np.all(T[red] == 1.), 'redward', f'{model}: absorption redward of Lyman alpha')
        ctx.count('elements', T.size)
        ctx.count('absorbed', np.sum(T < 0.999))
        # lazy form: None only when nothing is absorbed, same values otherwise
        L = ctx.call('transmission-lazy', transmission_Lyman, za, wa, model=model, always_return_array=False)
        if L is None:
            ctx.expect(np.all(ref == 1.), 'lazy-none', f'{model}: None returned although pixels are absorbed (T down to {ref.min():.3g})')
            ctx.count('none_returned')
        else:
            ctx.expect(np.shape(L) == shape and np.allclose(np.asarray(L).reshape(T.shape), T, rtol=1e-12), 'lazy-values', f'{model}: always_return_array changes the values')
        if k % 4 == 1:
            # the same number of redshifts and wavelengths with the same ends, in the same arrays
            held = T.copy()
            z2 = np.where(z == z.max(), z, r.uniform(-0.003, z.max(), nz)) if k % 8 == 1 else z
            if k % 8 == 5:
                z2 = z + r.choice([-1, 1]) * 10**r.uniform(-5.5, -2.7)
            w2 = np.where((w == w.min()) | (w == w.max()), w, r.uniform(w.min(), w.max(), nw)) if k % 3 == 1 else w * (1 + 1e-3) if k % 3 == 2 else w
            z[:], w[:] = z2, w2
            zb, wb = (float(z[0]) if form in (1, 3) else z), (float(w[0]) if form in (2, 3) else w)
            T2 = np.asarray(ctx.call('transmission-again', transmission_Lyman, zb, wb, model=model), float).reshape(T.shape)
            ref2 = np.array([igmref.transmission(q, np.atleast_1d(wb), model) for q in np.atleast_1d(zb)])
            ctx.expect(np.all(np.abs(T2 - ref2) <= 1e-9 + 1e-7 * ref2), 'history', f'{model}: transmission off by {np.abs(T2 - ref2).max():.3g} after a call with as many redshifts and wavelengths between the same ends')
            ctx.expect(np.array_equal(held, T), 'result-changed', 'a later call changed the array returned earlier')
            ctx.count('related_calls')
            z[:], w[:] = z0, w0
        # element by element: independence of the batch
        if nz > 1 and form == 0:
            i = int(r.integers(nz))
            one = ctx.call('transmission-one', transmission_Lyman, z[i:i + 1], w, model=model)
            ctx.expect(np.allclose(one[0], T[i], rtol=1e-12), 'batching', f'{model}: transmission at one redshift depends on the other redshifts')
    for bad in ('Inoue', 'none', ''):
        try:
            transmission_Lyman(1., 4000., model=bad)
            ok = False
        except ValueError:
            ok = True
        ctx.expect(ok, 'unknown-model', f'unknown IGM model {bad!r} accepted')
    # the transmission enters scans: basis on the data grid = bin average x transmission, for slices of the redshift grid too
    from redrock.templates import DistTemplate
    from rv import fakempi
    for k in range(ctx.n(6, 40)):
        r = ctx.rng('dist', k)
        t = synth.template(r, 'QSO', '', 2, redshifts=10**np.linspace(np.log10(1.6), np.log10(5.5), 12) - 1, method='NMF', igm=MODELS[k % 4], dlog=2e-3)
        dw = synth.bands((15, 16, 17))
        pieces = {}
        if k % 2:
            res = fakempi.run(3, lambda comm: DistTemplate(t, dw, comm=comm).local)
            ctx.expect(res.ok, 'dist-raised', res.describe())
            for p in res.values.values():
                pieces[p.index] = p
        else:
            pieces[0] = ctx.call('DistTemplate', DistTemplate, t, dw).local
        ctx.case(dict(kind='DistTemplate', model=t.igm_model, slices=len(pieces)), key=('d', k))
        zz = np.concatenate([pieces[i].redshifts for i in sorted(pieces)])
        ctx.expect(np.array_equal(zz, t.redshifts), 'dist-z', 'redshift slices do not cover the template redshifts in order')
        for b, wv in dw.items():
            got = np.concatenate([pieces[i].data[b] for i in sorted(pieces)])
            ref = np.array([(synth.ref_rebin(t.wave * (1 + q), t.flux, synth.edges_of(wv)) * igmref.transmission(q, wv, t.igm_model)).T for q in t.redshifts])
            ctx.expect(np.allclose(got, ref, rtol=1e-7, atol=1e-8 * np.abs(t.flux).max()), 'dist-data', f'{t.igm_model}: distributed template band {b} is not bin average x transmission')
            ctx.count('dist_grids')
    ctx.floor('related_calls', 100)
    ctx.floor('absorbed', 2000)
    ctx.floor('none_returned', 20)
