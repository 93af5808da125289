"""C05 the GPU code path gives the CPU results; its kernels stay inside their arrays and do not race.

No GPU here: cupy is replaced by a numpy stand-in, and the kernel texts of the repository are compiled by g++ under
AddressSanitizer + UBSan (and ThreadSanitizer with several host threads), every array in its own heap block.
"""
import os
os.environ["NUMBA_BOUNDSCHECK"] = "1"
import numpy as np
from rv import cudahost, fakecupy, fakempi
fakecupy.install()
from rv import synth, compare, rrd
from rv.checks import c04


class Mon:
    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, label, fn, *a, **kw):
        from rv.core import CaseFailed
        try:
            return self.ctx.call(label, fn, *a, **kw)
        except cudahost.SanitizerError as e:
            self.ctx.violation('sanitizer', f'{label}: {e.args[0]}', report=e.args[1] if len(e.args) > 1 else '')
            raise CaseFailed()


def attempt(mon, *a, **kw):
    from rv.core import CaseFailed
    try:
        return mon(*a, **kw)
    except CaseFailed:
        return None


def rebin(ctx, mon, cp):
    from redrock.rebin import trapz_rebin
    for k in range(ctx.n(250, 3000)):
        r = ctx.rng('rebin', k)
        fakecupy.cfg.shuffle = bool(k % 2)
        gk, x = c04.grids(r)
        nb = int(r.integers(1, 5)) if k % 9 else int(r.integers(5, 13))
        y = r.normal(size=(nb, len(x))) * 10**r.uniform(-2, 3)
        zs = [float(r.uniform(-.01, 3.))] if k % 3 else sorted(r.uniform(0, 0.3 if len(x) > 3 else 0., int(r.integers(1, 6)) if k % 60 else int(r.integers(450, 900))))
        lo, hi = x[0] * (1 + max(zs)), x[-1] * (1 + min(zs))
        if hi <= lo:
            zs = zs[:1]
            lo, hi = x[0] * (1 + zs[0]), x[-1] * (1 + zs[0])
        if len(zs) == 1:
            ek, e = c04.edges_for(r, x, 1 + zs[0])
        else:
            ek = 'common'
            e = np.unique(np.concatenate([[lo, hi] if k % 4 else [], r.uniform(lo, hi, int(r.integers(2, 40)))]))
        mode = ['array', 'scalar', 'none'][0 if len(zs) > 1 else k % 3]
        if mode == 'none':
            x = x * (1 + zs[0])
            e = np.clip(e, x[0], x[-1])
            zs = [0.]
        myz = {'array': np.array(zs), 'scalar': zs[0], 'none': None}[mode]
        oned = r.random() < .2
        yin = y[0] if oned else y
        dev = bool(r.integers(2))
        desc = dict(grid=gk, n=len(x), edges=ek, nbins=len(e) - 1, nz=len(zs), mode=mode, nbasis=nb, oned=oned, device_input=dev, k=k)
        ctx.case(desc)
        cpu = attempt(mon, 'trapz_rebin-cpu', trapz_rebin, x, yin, edges=e, myz=myz)
        args = [cp.asarray(x), cp.asarray(yin)] if dev else [x, yin]
        gpu = attempt(mon, 'trapz_rebin-gpu', trapz_rebin, *args, edges=cp.asarray(e) if dev else e, myz=cp.asarray(myz) if dev and mode == 'array' else myz, use_gpu=True)
        if cpu is None or gpu is None:
            continue
        g = gpu.get() if hasattr(gpu, 'get') else np.asarray(gpu)
        if not ctx.expect(g.shape == cpu.shape, 'rebin-shape', f'GPU shape {g.shape}, CPU {cpu.shape} for {desc}'):
            continue
        for i, z in enumerate(zs):
            Y = np.atleast_2d(yin)
            ref = synth.ref_rebin(x * (1 + z), Y, e)
            gi = g.reshape(len(zs), len(e) - 1, -1)[i].T
            d = np.abs(gi - ref) - c04.tol(x * (1 + z), Y, e)
            ctx.expect(np.all(d <= 0), 'rebin-gpu', f'GPU bin average off by {np.max(np.abs(gi - ref)):.3g} (|y| max {np.abs(Y).max():.3g}) for {desc}', z=z)
            ctx.count('gpu_bins', ref.size)


def coverage(ctx, mon, cp):
    """wavelength coverage is refused or accepted alike, with the limits kept next to the device edges"""
    from redrock.rebin import rebin_template
    for k in range(ctx.n(60, 500)):
        r = ctx.rng('cover', k)
        t = synth.template(r, 'GALAXY', '', int(r.integers(1, 4)), redshifts=np.linspace(0, .3, 5), igm='None', dlog=3e-3)
        z = np.sort(r.uniform(0, .3, int(r.integers(1, 4))))
        lo, hi = t.wave[0] * (1 + z.max()), t.wave[-1] * (1 + z.min())
        grids = {}
        for i in range(int(r.integers(1, 4))):
            n = 12 + 5 * i
            a, b = np.sort(r.uniform(lo + 60, hi - 60, 2))
            b = max(b, a + 100)
            side = int(r.integers(6))
            if side == 0:
                a = lo - float(r.choice([1., 30., 300.]))
            elif side == 1:
                b = hi + float(r.choice([1., 30., 300.]))
            grids[i] = np.linspace(a, b, n)
        sp = [synth.to_spectrum(dict(wave=w, flux=np.ones(len(w)), ivar=np.ones(len(w)), R=synth.make_R(len(w), 3, .8), band=None)) for w in grids.values()]
        fits_ = all(synth.edges_of(s.wave)[0] >= lo and synth.edges_of(s.wave)[-1] <= hi for s in sp)
        dev = bool(r.integers(2))
        ctx.case(dict(kind='coverage', k=k, grids=len(grids), covered=bool(fits_), device_template=dev))
        out = []
        for gpu in (False, True):
            try:
                if gpu:
                    if dev:
                        t.gpuwave, t.gpuflux = cp.asarray(t.wave), cp.asarray(t.flux)
                    out.append(rebin_template(t, cp.asarray(z), dedges={s.wavehash: (s.gpuedges, s.minedge, s.maxedge) for s in sp}, use_gpu=True))
                else:
                    out.append(rebin_template(t, z, dwave={s.wavehash: s.wave for s in sp}))
            except ValueError as e:
                out.append('refused')
            except cudahost.SanitizerError as e:
                ctx.violation('sanitizer', f'rebin_template: {e.args[0]}', report=e.args[1] if len(e.args) > 1 else '')
                out.append(None)
            except Exception as e:
                out.append(repr(e)[:100])
        t.gpuwave = t.gpuflux = None
        for lab, o in zip(('CPU', 'GPU'), out):
            ctx.expect(isinstance(o, dict) if fits_ else o == 'refused', 'coverage', f'{lab}: grids {[(round(float(s.wave[0])), round(float(s.wave[-1]))) for s in sp]} {"covered" if fits_ else "not covered"} by the template from {lo:.1f} to {hi:.1f} were {"rebinned" if isinstance(o, dict) else o}')
        ctx.count('gpu_covered' if fits_ else 'gpu_refused')
        if fits_ and isinstance(out[0], dict) and isinstance(out[1], dict):
            for s in sp:
                ctx.expect(np.allclose(np.asarray(out[1][s.wavehash]), out[0][s.wavehash], rtol=1e-9, atol=1e-9 * np.abs(t.flux).max()), 'rebin-template-gpu', 'GPU and CPU rebinning of a template differ')


def chi2(ctx, mon, cp):
    from redrock.zscan import calc_zchi2_batch, calc_batch_dot_product_3d3d_gpu
    for k in range(ctx.n(60, 500)):
        r = ctx.rng('chi2', k)
        fakecupy.cfg.shuffle = bool(k % 2)
        method = ['PCA', 'NMF', 'BVLS', 'PCA'][k % 4]
        nz, nb = int(r.integers(1, 12)), int(r.integers(1, 7) if k % 5 else r.integers(8, 13))
        bands = list('brz')[:int(r.integers(1, 4))]
        grid = {b: np.linspace(*synth.BANDS[b], int(r.integers(20, 50))) for b in bands}
        raws = [synth.raw_spectrum(r, w, band=b, ndiag=int(r.choice([1, 3, 5, 11]))) for _ in range(int(r.integers(1, 3))) for b, w in grid.items()]
        for s in raws:
            n = len(s['wave'])
            s['flux'], s['ivar'] = r.normal(size=n) + 1., r.uniform(.1, 4., n) * (r.random(n) > .1)
        tg = synth.to_target(5, raws)
        td = {s.wavehash: r.normal(size=(nz, len(s.wave), nb)) + (1. if method == 'NMF' else 0.) for s in tg.spectra}
        w = np.concatenate([s.ivar for s in tg.spectra])
        f = np.concatenate([s.flux for s in tg.spectra])
        if np.count_nonzero(w) < 4 * nb:
            continue
        prior = np.diag(r.uniform(0, 5, nb)) if k % 3 == 0 else None
        b = np.array([np.where(r.random(nb) < .5, 0., -np.inf), np.full(nb, np.inf)])
        kw = dict(solve_matrices_algorithm=method, prior=prior)
        if method == 'BVLS' and k % 8 == 2:
            kw['solver_args'] = dict(bounds=b)
        desc = dict(k=k, method=method, nz=nz, nbasis=nb, spectra=len(raws), prior=prior is not None, bounds='solver_args' in kw)
        ctx.case(desc)
        gw, gf = cp.asarray(w), cp.asarray(f)
        c = attempt(mon, 'calc_zchi2_batch-cpu', calc_zchi2_batch, tg.spectra, td, w, f, w * f, nz, nb, **kw)
        g = attempt(mon, 'calc_zchi2_batch-gpu', calc_zchi2_batch, tg.spectra, {q: cp.asarray(v) for q, v in td.items()}, gw, gf, gw * gf, nz, nb, use_gpu=True, fullprecision=bool(k % 5), **kw)
        if c is None or g is None:
            continue
        ctx.expect(np.allclose(g[0], c[0], rtol=1e-7), 'chi2-gpu', f'GPU chi2 differs by {np.max(np.abs(np.asarray(g[0]) - c[0])):.3g} for {desc}')
        ctx.expect(np.allclose(np.asarray(g[1]), c[1], rtol=1e-5, atol=1e-6 * np.abs(c[1]).max()), 'coeff-gpu', f'GPU coefficients differ for {desc}')
        ctx.count('gpu_chi2', nz)
    for k in range(ctx.n(40, 300)):
        r = ctx.rng('3d3d', k)
        nz, nb, nr = int(r.choice([1, 2, 7, 60])), int(r.integers(1, 6)), int(r.choice([1, 3, 5, 63, 64, 65, 130, 200]))
        tr = bool(k % 2)
        a = r.normal(size=(nz, nr, nb) if tr else (nz, nb, nr))
        b = r.normal(size=(nz, nr, nb))
        ctx.case(dict(kind='3d3d', nz=nz, nb=nb, nr=nr, tr=tr, k=k))
        M = attempt(mon, 'dot-3d3d', calc_batch_dot_product_3d3d_gpu, cp.asarray(a), cp.asarray(b), transpose_a=tr, fullprecision=bool(k % 3))
        if M is None:
            continue
        # the kernel is documented for symmetric products; its element order is that of the transpose for others
        A = a.swapaxes(-2, -1) if tr else a
        ref = A @ b
        ctx.count('gpu_products', nz)
        Mn = np.asarray(M)
        ctx.expect(np.allclose(Mn, ref, atol=1e-9 * nr) or np.allclose(Mn, ref.swapaxes(-2, -1), atol=1e-9 * nr), 'product-gpu', f'GPU batch product differs for nz={nz} nb={nb} nrows={nr}')


def penalty(ctx, mon, cp):
    """the whole scan of one template, with the penalty of galaxy models of negative [OII] flux"""
    from redrock.zscan import calc_zchi2
    from redrock.templates import DistTemplate
    from redrock.targets import DistTargetsCopy
    for k in range(ctx.n(8, 80)):
        r = ctx.rng('penalty', k)
        st = ['GALAXY', 'GALAXY', 'QSO'][k % 3]
        zt = float(r.uniform(.05, .6))
        zz = np.unique(np.concatenate([np.linspace(.02, .6, int(r.integers(3, 20))), zt + .002 * np.arange(-4, 5)]))
        t = synth.template(r, st, '', 3, redshifts=zz, igm='None', dlog=1e-3)
        t.flux[0] = np.exp(-.5 * ((t.wave - 3728.5) / 20.)**2)          # an [OII] line that the data have in absorption
        if hasattr(t, 'OIItemplate'):
            ii = (3724 <= t.wave) & (t.wave <= 3733)
            t.OIItemplate = t.flux[:, ii]
        raws = []
        for b, w in synth.bands((60, 55, 58)).items():
            s = synth.raw_spectrum(r, w, band=b, ndiag=5)
            s['ivar'] = np.full(len(w), 4.)
            s['flux'] = 1. + r.normal(size=len(w)) / 2 + (-8. if k % 2 else 2.) * np.exp(-.5 * ((w - 3728.5 * (1 + zt)) / 30.)**2)
            raws.append(s)
        tg = DistTargetsCopy([synth.to_target(5, raws)])
        ctx.case(dict(kind='penalty', k=k, spectype=st, nz=len(t.redshifts), z=zt))
        out = []
        for gpu in (False, True):
            def go():
                dt = DistTemplate(t, tg.wavegrids(), use_gpu=gpu, gpu_mode=gpu)
                return calc_zchi2([5], tg.local(), dt, use_gpu=gpu)
            out.append(attempt(mon, 'calc_zchi2-gpu' if gpu else 'calc_zchi2-cpu', go))
        t.gpuwave = t.gpuflux = None
        if None in out:
            continue
        (a, ac, ap), (b, bc, bp) = [[np.asarray(x) for x in o] for o in out]
        ctx.expect(np.allclose(a, b, rtol=1e-6), 'scan-gpu', f'GPU scan of {st} template differs in chi2 by {np.abs(a - b).max():.3g}')
        ctx.expect(ap.shape == bp.shape and np.allclose(ap, bp, rtol=1e-4, atol=1e-5 * max(1., np.abs(ap).max())), 'penalty-gpu', f'GPU scan of {st} template: penalties {bp.ravel()[:5]} instead of {ap.ravel()[:5]}')
        ctx.count('gpu_penalties', int(np.count_nonzero(ap)))


def igm(ctx, mon, cp):
    from redrock.igm import transmission_Lyman
    for k in range(ctx.n(30, 300)):
        r = ctx.rng('igm', k)
        w = np.sort(r.uniform(800, 9800, int(r.integers(2, 200))))
        z = np.sort(r.uniform(0, 6.5, int(r.integers(1, 9)))) if k % 3 else float(r.uniform(1.5, 6))
        model = ['Calura12', 'Kamble20', 'Inoue14', 'None'][k % 4]
        ctx.case(dict(kind='igm', k=k, model=model, nz=np.shape(z), nw=len(w)))
        for always in (True, False):
            c = attempt(mon, 'transmission-cpu', transmission_Lyman, z, w, model=model, always_return_array=always)
            g = attempt(mon, 'transmission-gpu', transmission_Lyman, z, w, use_gpu=True, model=model, always_return_array=always)
            ctx.expect((c is None) == (g is None), 'igm-none', f'{model}: one path returns None, the other an array')
            if c is not None and g is not None:
                ctx.expect(np.shape(c) == np.shape(g) and np.allclose(np.asarray(g), c, rtol=1e-10, atol=1e-14), 'igm-gpu', f'{model}: GPU transmission differs')
                ctx.count('gpu_transmissions')


def caches(ctx, mon, cp):
    """what a target keeps for the GPU between calls, whatever was asked before"""
    from numpy.polynomial.legendre import legval
    for k in range(ctx.n(25, 300)):
        r = ctx.rng('caches', k)
        sc = synth.scene(r, synth.template_set(r, small=True), 1, nexp=(1, 2), masked_target=False)
        tg = synth.to_target(sc[0]['id'], synth.copy_raws(sc[0]['raws']), coadd=bool(r.integers(2)))
        hist = [(int(r.integers(0, 4)), bool(r.integers(2))) for _ in range(int(r.integers(2, 7)))]
        ctx.case(dict(kind='caches', k=k, calls=hist))
        for i, (nleg, gpu) in enumerate(hist):
            got = attempt(mon, 'legendre', tg.legendre, nleg, use_gpu=gpu)
            if got is None:
                break
            ok = set(got) == set(s.wavehash for s in tg.spectra)
            for s in tg.spectra:
                x = 2 * (s.wave - s.wave.min()) / (s.wave.max() - s.wave.min()) - 1
                want = np.array([legval(x, np.eye(nleg)[j]) for j in range(nleg)])
                g = np.asarray(got[s.wavehash])
                ok = ok and len(g) == nleg and (nleg == 0 or np.allclose(g, want, rtol=0, atol=1e-9))
            ctx.expect(ok, 'legendre-cache', f'caches {k}: call {i} of {hist} returns shapes {[np.shape(v) for v in got.values()]} or other polynomials')
            ctx.count('legendre_calls')
        for _ in range(2):
            out = attempt(mon, 'gpu_spectral_data', tg.gpu_spectral_data)
            if out is not None:
                w = np.concatenate([s.ivar for s in tg.spectra])
                f = np.concatenate([s.flux for s in tg.spectra])
                ctx.expect(all(np.array_equal(np.asarray(a), b) for a, b in zip(out, (w, f, w * f))), 'gpu-data', f'caches {k}: weights, flux or their product on the GPU differ')
                ctx.count('gpu_data')


def second_place_tied(rows, sc, o, kw, na):
    """fewer than na archetypes get a positive weight of their own: the others tie as runners-up"""
    from rv.checks import c19
    raws = [s for s in synth.to_target(o['id'], synth.copy_raws(o['raws'])).spectra]
    cams = list(dict.fromkeys(s.wavehash for s in raws))
    f, w = np.concatenate([s.flux for s in raws]), np.concatenate([s.ivar for s in raws])
    pc = kw['per_camera']
    for x in rows:
        if x['fitmethod'] != 'ARCH':
            continue
        a = kw['archetypes'][str(x['spectype'])]
        a = c19.Arch(None, np.asarray(a.wave), np.asarray(a.flux), None)
        pos = 0
        for i in range(len(a.flux)):
            s = c19.solve(a.columns(raws, cams, float(x['z']), [i], kw['deg_legendre'], pc), f, w, 1, kw['prior_sigma'] if pc else None)
            if s is None:
                return True
            pos += s[1][0] > 1e-6 * np.abs(s[1]).max()
        if pos < na:
            return True
    return False


def pipeline(ctx, mon, cp):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    from redrock.archetypes import All_archetypes
    from rv import files
    for k in range(ctx.n(6, 40)):
        r = ctx.rng('pipe', k)
        fakecupy.cfg.shuffle = bool(k % 2)
        igmm = ['Inoue14', 'Calura12', 'Kamble20'][k % 3]
        T = synth.template_set(r, small=True, igm=igmm)
        sc = synth.scene(r, T, 3, nexp=(1, 2), masked_target=False, snr=(10, 40))
        kw = {}
        if k % 3 == 1:
            d = ctx.sub(f'arch{k}')
            for t in {t.template_type for t in T}:
                tt = [x for x in T if x.template_type == t][0]
                n = int(r.integers(3, 6))
                files.write_archetype(os.path.join(d, f'rrarchetype-{t.lower()}.fits'), t, tt.wave, synth.basis(r, tt.wave, n, positive=True), [f'S{i}' for i in range(n)] if t != 'STAR' else ['A', 'M', 'A', 'M', 'A'][:n])
            kw = dict(archetypes=All_archetypes(archetypes_dir=d).archetypes, deg_legendre=int(r.integers(0, 3)), n_nearest=[None, 2][int(r.integers(2))], per_camera=bool(r.integers(2)),
                      ncamera=3, prior_sigma=[None, .1][int(r.integers(2))])
        desc = dict(k=k, kind='pipeline', igm=igmm, targets=[len(o['raws']) for o in sc], **{q: (v if q != 'archetypes' else True) for q, v in kw.items()})
        ctx.case(desc)
        out = []
        for gpu in (False, True):
            tg = DistTargetsCopy(synth.build_targets(sc))
            dw = tg.wavegrids()

            def go():
                dt = [DistTemplate(t, dw, use_gpu=gpu, gpu_mode=gpu) for t in T]
                return zfind(tg, dt, use_gpu=gpu, **kw)
            out.append(attempt(mon, 'pipeline-gpu' if gpu else 'pipeline-cpu', go))
            for t in T:
                t.gpuwave = t.gpuflux = None
        if None in out:
            continue
        (sa, za), (sb, zb) = out
        A, B = compare.rows_by_target(za), compare.rows_by_target(zb)
        ctx.expect(set(A) == set(B), 'gpu-targets', f'GPU run returns other targets for {desc}')
        for o in sc:
            compare.compare_scan(ctx, 'gpu-scan', f'GPU scan for {desc}', sb[o['id']], sa[o['id']], rtol=1e-6)
            if not ctx.expect(len(A[o['id']]) == len(B[o['id']]), 'gpu-nrows', f'GPU fit of {desc}: other number of rows'):
                continue
            # rows whose archetypes get no weight are tied between archetypes (and redshifts)
            na = kw.get('n_nearest') or 1
            zero = [y['fitmethod'] == 'ARCH' and np.any(np.asarray(y['coeff'])[:na] == 0) for y in A[o['id']]]
            flat = any(y['fitmethod'] != 'ARCH' and np.all(np.asarray(y['coeff']) == 0) for y in A[o['id']])       # no weight for any template: all redshifts tied
            if flat or any(zero) if na == 1 else flat or second_place_tied(A[o['id']], sc, o, kw, na):
                ctx.count('tied_skipped')
                continue
            for x, y, tied in zip(B[o['id']], A[o['id']], zero):
                compare.compare_target(ctx, 'gpu-fit', f'GPU fit for {desc}', [x], [y], skip=('subtype',) if tied else (), rtol=1e-6)
            ctx.count('gpu_targets')


def command(ctx, mon, cp):
    """the rrdesi command with --gpu, without MPI and with ranks that share a GPU or have one each"""
    from redrock.external.desi import rrdesi
    from astropy.table import Table
    for k in range(ctx.n(4, 30)):
        r = ctx.rng('cmd', k)
        d = ctx.sub(f'cmd{k}')
        T = rrd.template_files(r, d)
        fset, tr, _, _ = rrd.fileset(r, d, T, int(r.integers(1, 5)), nfiles=1, status=False, masked=False)
        base = ['-i', fset[0]['fn'], '-t'] + [t.filename for t in T]
        size = [1, 2, 3, 4][k % 4]
        shared = bool(r.integers(2))
        opt = [] if k % 3 else ['--max-gpuprocs', str(int(r.integers(1, size + 1)))]
        fakecupy.cfg.shuffle, fakecupy.cfg.shared = False, shared
        desc = dict(k=k, kind='rrdesi', size=size, one_gpu_for_all=shared, opt=opt, n=len(tr))
        ctx.case(desc)
        a, b = os.path.join(d, 'cpu.fits'), os.path.join(d, 'gpu.fits')
        attempt(mon, 'rrdesi-cpu', rrdesi, base + ['-o', a])
        if size == 1:
            attempt(mon, 'rrdesi-gpu', rrdesi, base + ['-o', b, '--gpu'] + opt)
        else:
            res = fakempi.run(size, lambda comm: rrdesi(base + ['-o', b, '--gpu'] + opt, comm=comm), seed=k)
            ctx.expect(res.ok, 'gpu-mpi', f'rrdesi --gpu {desc}: {res.describe()}')
        if not ctx.expect(os.path.exists(a) and os.path.exists(b), 'gpu-no-output', f'rrdesi wrote no output for {desc}'):
            continue
        A, B = Table.read(a, 'REDSHIFTS'), Table.read(b, 'REDSHIFTS')
        for X in (A, B):
            ctx.need(X, ('TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2'), f'rrdesi {desc}: REDSHIFTS')
        ctx.expect(list(A['TARGETID']) == list(B['TARGETID']), 'gpu-rows', f'rows of the GPU catalog differ for {desc}')
        for x, y in zip(A, B):
            ok = x['SPECTYPE'] == y['SPECTYPE'] and abs(x['Z'] - y['Z']) < 1e-6 and np.isclose(x['CHI2'], y['CHI2'], rtol=1e-6) and x['ZWARN'] == y['ZWARN'] and np.allclose(x['COEFF'], y['COEFF'], rtol=1e-4, atol=1e-4 * np.abs(x['COEFF']).max())
            ctx.expect(ok, 'gpu-catalog', f'catalog row of target {x["TARGETID"]} differs for {desc}: z {x["Z"]} / {y["Z"]}, chi2 {x["CHI2"]} / {y["CHI2"]}')
            ctx.count('gpu_catalog_rows')


def races(ctx, mon, cp):
    """the same kernels under ThreadSanitizer on several host threads"""
    from redrock.rebin import trapz_rebin
    from redrock.zscan import calc_zchi2_batch, calc_batch_dot_product_3d3d_gpu
    fakecupy.cfg.flavour, fakecupy.cfg.nthr, fakecupy.cfg.shuffle = 'tsan', 4, True
    try:
        try:
            cudahost.Module.get('extern "C" { __global__ void probe(double* x, int n) { const int i = threadIdx.x; if (i < n) x[i] = i; } }', 'tsan', ctx.scratch).launch('probe', 1, 8, [np.zeros(8), 8], nthr=2)
        except (cudahost.SanitizerError, cudahost.BuildError):
            ctx.count('tsan_unavailable')
            return
        for k in range(ctx.n(8, 60)):
            r = ctx.rng('race', k)
            nz, nb, nr = int(r.integers(1, 6)), int(r.integers(1, 4)), int(r.integers(8, 90))
            a = r.normal(size=(nz, nr, nb))
            ctx.case(dict(kind='race', k=k, nz=nz, nb=nb, nr=nr))
            M = attempt(mon, 'dot-3d3d', calc_batch_dot_product_3d3d_gpu, cp.asarray(a), cp.asarray(2 * a), transpose_a=True, fullprecision=bool(k % 2))
            if M is not None:
                ctx.expect(np.allclose(np.asarray(M), 2 * a.swapaxes(1, 2) @ a, atol=1e-9 * nr), 'product-gpu', 'GPU batch product differs with concurrent threads')
            raws = [synth.raw_spectrum(r, np.linspace(4000, 5000, 30), band='b')]
            tg = synth.to_target(5, raws)
            s = tg.spectra[0]
            td = r.normal(size=(nz, 30, nb))
            w, f = r.uniform(.1, 1, 30), r.normal(size=30)
            c = attempt(mon, 'chi2-cpu', calc_zchi2_batch, tg.spectra, {s.wavehash: td}, w, f, w * f, nz, nb, solve_matrices_algorithm='PCA')
            g = attempt(mon, 'chi2-gpu', calc_zchi2_batch, tg.spectra, {s.wavehash: cp.asarray(td)}, cp.asarray(w), cp.asarray(f), cp.asarray(w * f), nz, nb, use_gpu=True, solve_matrices_algorithm='PCA')
            if c is not None and g is not None:
                ctx.expect(np.allclose(np.asarray(g[0]), c[0], rtol=1e-7), 'chi2-gpu', 'GPU chi2 differs with concurrent threads')
            x = np.linspace(1000, 2000, 80)
            attempt(mon, 'rebin-gpu', trapz_rebin, x, r.normal(size=(nb, 80)), edges=np.linspace(1300, 1800, 20), myz=np.linspace(0, .2, nz), use_gpu=True)
            ctx.count('race_launches', 5)
    finally:
        fakecupy.cfg.flavour, fakecupy.cfg.nthr, fakecupy.cfg.shuffle = 'asan', 1, False


def run(ctx):
    import cupy as cp
    from rv.core import CaseFailed
    fakecupy.cfg.workdir = ctx.scratch
    fakecupy.cfg.shared = False
    ctx.rule = ('one case = one call of a function (or of the pipeline / the rrdesi command) through the GPU path and through the CPU path; oracle: equality, '
                'closed-form integrals for the rebinning, and the sanitizers in every kernel launch')
    ctx.assumptions += ['cupy replaced by a numpy stand-in: device scheduling, device memory and cupy itself are not exercised',
                        'kernels compiled for the host by g++ (double arithmetic as on the device up to rounding)']
    mon = Mon(ctx)
    try:
        for phase in (rebin, coverage, chi2, penalty, igm, caches, pipeline, command, races):
            phase(ctx, mon, cp)
    finally:
        cudahost.close_all()
    for n, v in cudahost.Module.stats.items():
        if v:
            ctx.count('kernel_' + n, v)
    for n, v in dict(gpu_bins=2000, gpu_covered=10, gpu_refused=10, gpu_chi2=100, gpu_products=200, gpu_penalties=15, gpu_transmissions=10, legendre_calls=60, gpu_data=30, gpu_targets=10, gpu_catalog_rows=4, kernel_launches=300).items():
        ctx.floor(n, v)
