"""C04 rebinning is the exact bin average of the piecewise-linear template."""
import os
os.environ["NUMBA_BOUNDSCHECK"] = "1"      # sanitizer: out-of-range accesses in the compiled loops raise IndexError
import numpy as np
from rv import synth


def tol(x, y, e):
    tot = np.sum(np.abs(0.5 * (y[..., 1:] + y[..., :-1])) * np.diff(x), axis=-1)
    return 4e-14 * tot[..., None] / np.diff(e) + 1e-9 * np.abs(y).max() + 1e-300


def grids(r):
    n = int(r.choice([3, 5, 12, 60, 400]))
    kind = r.choice(['lin', 'log', 'rand', 'int'])
    if kind == 'lin':
        x = np.linspace(1000., 1000. + r.uniform(1, 5000), n)
    elif kind == 'log':
        x = 10**np.linspace(3., 3. + r.uniform(.05, .8), n)
    elif kind == 'rand':
        x = 1000. + np.cumsum(r.exponential(size=n) + 1e-3)
    else:
        x = np.arange(n, dtype=float) + 10.
    return kind, x


def edges_for(r, x, scale):
    lo, hi = x[0] * scale, x[-1] * scale
    m = int(r.choice([1, 2, 3, 10, 50, 300]))
    kind = r.choice(['inside', 'touch', 'samples', 'narrow', 'wide'])
    xs = x * scale
    if kind == 'samples' and len(x) >= 4:
        e = np.sort(r.choice(xs, min(len(xs), m + 1), replace=False))
    elif kind == 'touch':
        e = np.sort(np.concatenate([[lo, hi], r.uniform(lo, hi, max(0, m - 1))]))
    elif kind == 'narrow':
        j = int(r.integers(len(xs) - 1))
        e = np.linspace(xs[j], xs[j + 1], m + 2)[1:] if m > 1 else np.array([xs[j], xs[j + 1]])
        e = np.clip(e, lo, hi)
    elif kind == 'wide':
        e = np.array([lo + 0.01 * (hi - lo), hi - 0.01 * (hi - lo)])
    else:
        e = np.sort(r.uniform(lo, hi, m + 1))
    e = np.unique(e)
    if len(e) < 2:
        e = np.array([lo, hi])
    return kind, e


def run(ctx):
    from redrock.rebin import trapz_rebin, rebin_template, centers2edges
    ctx.rule = 'one case = one (input grid, bin edges, redshift list, basis count) tuple; oracle: closed-form integral of the interpolant; distinct = tuples'
    for k in range(ctx.n(900, 12000)):
        r = ctx.rng(k)
        gk, x = grids(r)
        nb = int(r.integers(1, 5))
        y = r.normal(size=(nb, len(x))) * 10**r.uniform(-2, 3)
        if r.random() < .1:
            y = np.round(y)
        mode = int(r.integers(4))
        if mode == 0:
            myz, zs = None, [0.]
        elif mode == 1:
            z = float(r.uniform(-0.01, 3.))
            myz, zs = z, [z]
        else:
            zs = list(r.uniform(0, 0.4 if len(x) > 3 else 0.0, int(r.integers(1, 6))))
            if r.random() < .4:
                zs.sort()
            myz = np.array(zs)
        lo, hi = x[0] * (1 + max(zs)), x[-1] * (1 + min(zs))
        if hi <= lo:
            zs = [zs[0]]
            myz = np.array(zs) if mode > 1 else myz
        if len(zs) == 1:
            ek, e = edges_for(r, x, 1 + zs[0])
        else:
            ek = 'common'
            lo, hi = x[0] * (1 + max(zs)), x[-1] * (1 + min(zs))
            e = np.unique(np.concatenate([[lo, hi] if r.random() < .3 else [], r.uniform(lo, hi, int(r.integers(2, 40)))]))
        y1 = y[0] if r.random() < .3 else None
        desc = dict(grid=gk, n=len(x), edges=ek, nbins=len(e) - 1, z=len(zs), mode=mode, nbasis=nb, oned=y1 is not None, k=k)
        ctx.case(desc)
        yin = y1 if y1 is not None else y
        x0, y0, e0 = x.copy(), yin.copy(), e.copy()
        got = ctx.call('trapz_rebin', trapz_rebin, x, yin, edges=e, myz=myz)
        ctx.expect(np.array_equal(x, x0) and np.array_equal(yin, y0) and np.array_equal(e, e0), 'inputs-changed', 'trapz_rebin modified its input arrays')
        shape = (len(zs),) * (mode > 1) + (len(e) - 1,) + (nb,) * (y1 is None)
        if not ctx.expect(np.shape(got) == shape, 'shape', f'result shape {np.shape(got)} instead of {shape} for {desc}'):
            continue
        g = np.asarray(got).reshape(len(zs), len(e) - 1, 1 if y1 is not None else nb)
        for i, z in enumerate(zs):
            xz = x * (1 + z)
            Y = np.atleast_2d(yin)
            ref = synth.ref_rebin(xz, Y, e)
            d = np.abs(g[i].T - ref) - tol(xz, Y, e)
            ctx.expect(np.all(d <= 0), 'bin-average', f'bin average off by {np.max(np.abs(g[i].T - ref)):.3g} (|y| max {np.abs(Y).max():.3g}) for {desc}', z=z, bin=int(np.argmax(d.max(axis=0))))
            ctx.count('bins_checked', ref.size)
        if mode > 1 and y1 is None and k % 3 == 0:
            for i, z in enumerate(zs):
                for b in range(nb):
                    one = ctx.call('trapz_rebin-one', trapz_rebin, x, y[b], edges=e, myz=float(z))
                    ctx.expect(np.allclose(one, g[i, :, b], rtol=1e-10, atol=1e-10 * np.abs(y).max()), 'batch-vs-one', f'batch differs from a one-by-one evaluation for {desc}')
                    ctx.count('batch_vs_single')
        if k % 5 == 2 and y1 is None:
            # a call with other contents of the same size and ends, in the same arrays, depends on nothing but its arguments
            held = np.array(got, copy=True)
            xw, ew, zw = synth.warp(r, x), synth.warp(r, e), (synth.warp(r, myz) if mode > 1 else myz)
            lo, hi = xw[0] * (1 + max(np.atleast_1d(zw if zw is not None else 0.))), xw[-1] * (1 + min(np.atleast_1d(zw if zw is not None else 0.)))
            yw = np.roll(y, 1, axis=1)
            x[:], y[:], e[:] = xw, yw, ew
            if mode > 1:
                myz[:] = zw
            if e[0] >= lo and e[-1] <= hi:
                g2 = ctx.call('trapz_rebin-again', trapz_rebin, x, y, edges=e, myz=myz).reshape(len(zs), len(e) - 1, nb)
                for i, z in enumerate(np.atleast_1d(myz if myz is not None else 0.)):
                    ref = synth.ref_rebin(x * (1 + z), y, e)
                    d = np.abs(g2[i].T - ref) - tol(x * (1 + z), y, e)
                    ctx.expect(np.all(d <= 0), 'history', f'bin average off by {np.max(np.abs(g2[i].T - ref)):.3g} after a call with other contents of the same size and ends ({desc})')
                    ctx.count('related_calls')
                ctx.expect(np.array_equal(held, got), 'result-changed', 'a later call changed the array returned earlier')
            x[:], y[:], e[:] = x0, y0, e0
            if mode > 1:
                myz[:] = zs
        # outside the covered range
        if k % 4 == 0:
            w = (e[-1] - e[0]) * 1e-3 + 1e-6
            for bad in (np.concatenate([[x[0] * (1 + max(zs)) - w], e]), np.concatenate([e, [x[-1] * (1 + min(zs)) + w]])):
                bad = np.unique(bad)
                try:
                    trapz_rebin(x, yin, edges=bad, myz=myz)
                    ok = False
                except ValueError:
                    ok = True
                except IndexError:
                    ok = False
                ctx.expect(ok, 'no-valueerror', f'edges outside the redshifted input range were accepted for {desc}')
                ctx.count('rejections')
    # x and y of different lengths
    for k in range(ctx.n(40, 300)):
        r = ctx.rng('len', k)
        x = np.linspace(1000., 2000., int(r.integers(3, 60)))
        m = int(r.integers(1, len(x))) if k % 2 else len(x) + int(r.integers(1, 5))
        y = r.normal(size=m) if k % 3 else r.normal(size=(2, m))
        ctx.case(dict(kind='length', nx=len(x), ny=m, oned=bool(k % 3)), key=('len', k))
        try:
            trapz_rebin(x, y, edges=np.linspace(1001, 1999, 5), myz=None if k % 4 else 0.)
            ok = False
        except ValueError:
            ok = True
        except IndexError:
            ok = False
        ctx.expect(ok, 'length-accepted', f'{len(x)} wavelengths with {m} fluxes were accepted')
    # edges from centres, and template-level rebinning
    for k in range(ctx.n(60, 400)):
        r = ctx.rng('tmpl', k)
        c = np.cumsum(r.uniform(.5, 2., int(r.integers(2, 50)))) + 4000
        ctx.expect(np.allclose(centers2edges(c), synth.edges_of(c), rtol=1e-12), 'edges', 'bin edges are not the midpoints (with linear extrapolation at the ends)')
        for _ in range(2):
            cw = synth.warp(r, c)
            ctx.expect(np.allclose(centers2edges(cw), synth.edges_of(cw), rtol=1e-12), 'edges', 'bin edges are not the midpoints (after a grid of the same length and ends)')
        t = synth.template(r, 'GALAXY', '', int(r.integers(1, 5)), redshifts=10**np.linspace(0, .1, 6) - 1, dlog=1.5e-3, igm='None')
        dw = synth.bands((20, 21, 22))
        z = r.uniform(0, .25, 4)
        scal = [z, z[1:2], float(z[0]), np.float64(z[2])][k % 4]
        ctx.case(dict(k=k, kind='template', z=np.shape(scal)), key=('t', k))
        out = ctx.call('rebin_template', rebin_template, t, scal, dw)
        out2 = ctx.call('rebin_template-edges', rebin_template, t, scal, dedges={b: (synth.edges_of(w), synth.edges_of(w)[0], synth.edges_of(w)[-1]) if k % 2 else synth.edges_of(w) for b, w in dw.items()})
        ctx.expect(set(out) == set(dw) and set(out2) == set(dw), 'template-keys', 'rebin_template lost a wavelength grid')
        held = {b: np.array(v, copy=True) for b, v in out.items()}
        dv = {b: synth.warp(r, w) for b, w in dw.items()}
        out3 = ctx.call('rebin_template', rebin_template, t, scal, dv)
        t3 = synth.template(r, 'GALAXY', '', t.nbasis, redshifts=t.redshifts, dlog=1.5e-3, igm='None')
        out4 = ctx.call('rebin_template', rebin_template, t3, scal, dv)
        ctx.expect(all(np.array_equal(held[b], out[b]) for b in dw), 'result-changed', 'a later call changed the arrays returned earlier')
        for b, w in dv.items():
            for tt, o in ((t, out3), (t3, out4)):
                ref = np.array([synth.ref_rebin(tt.wave * (1 + q), tt.flux, synth.edges_of(w)).T for q in np.atleast_1d(scal)])
                ctx.expect(np.size(o[b]) == ref.size and np.allclose(np.asarray(o[b]).reshape(ref.shape), ref, rtol=1e-8, atol=1e-8 * np.abs(tt.flux).max()), 'template-history', 'rebin_template is wrong after a call with a wavelength grid of the same length and ends, or with another template')
        for b, w in dw.items():
            ref = np.array([synth.ref_rebin(t.wave * (1 + q), t.flux, synth.edges_of(w)).T for q in np.atleast_1d(scal)])
            for o, lab in ((out, 'centres'), (out2, 'edges')):
                v = np.asarray(o[b]).reshape(ref.shape) if np.size(o[b]) == ref.size else np.zeros((0,))
                ctx.expect(v.shape == ref.shape and np.allclose(v, ref, rtol=1e-8, atol=1e-8 * np.abs(t.flux).max()), 'template-rebin', f'rebin_template ({lab}) is not the bin average of the redshifted template')
                ctx.count('template_grids')
        # each grid is checked with its own limits, whether or not they are given
        far = np.linspace(t.wave[-1] * 1.2, t.wave[-1] * 1.3, 5)
        near = synth.edges_of(dw['b'])
        for ded in ({'b': (near, near[0], near[-1]), 'far': far}, {'b': (near, near[0], near[-1]), 'far': (far, far[0], far[-1])}, {'far': far, 'b': near}):
            try:
                rebin_template(t, np.array([0., .1]), dedges=ded)
                ok = False
            except ValueError:
                ok = True
            except IndexError:
                ok = False
            ctx.expect(ok, 'edges-no-valueerror', 'bin edges beyond the template were accepted next to a grid with precomputed limits')
        try:
            rebin_template(t, [np.array([4.0]), np.array([0.1, 4.0, 0.2]), np.array([4.0, 0.1, 0.1]), np.array([0.1, 0.1, 4.0])][k % 4], dw)
            ok = False
        except ValueError:
            ok = True
        except IndexError:
            ok = False
        ctx.expect(ok, 'template-no-valueerror', 'template that does not cover the wavelength grid at z=4 was accepted')
    ctx.floor('bins_checked', 5000)
    ctx.floor('related_calls', 60)
    ctx.floor('rejections', 100)
    ctx.floor('batch_vs_single', 100)
