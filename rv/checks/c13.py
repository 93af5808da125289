"""C13 crash safety of the outputs: process death and write errors injected at every file-changing call of rrdesi and rrboss."""
import hashlib, os, shutil
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from astropy.io import fits
from rv import faultshim, rrd, files, synth
from rv.checks import c18


def digest(fn):
    """content of a complete output file, or a reason why it is not one"""
    try:
        out = []
        with open(fn, 'rb') as f:
            head = f.read(8)
        if head.startswith(b'SIMPLE'):
            end = 0
            with fits.open(fn, memmap=False, lazy_load_hdus=False) as hx:
                hx.verify('exception')
                for h in hx:
                    data = h.data
                    out.append((h.name, [(c.keyword, str(c.value)) for c in h.header.cards if c.keyword not in ('DATE', 'CHECKSUM', 'DATASUM')], None if data is None else hashlib.sha1(np.ascontiguousarray(data).tobytes()).hexdigest()))
                    i = h.fileinfo()
                    end = max(end, i['datLoc'] + i['datSpan'])
            if os.path.getsize(fn) != end:
                return 'partial', f'{os.path.getsize(fn)} bytes, HDUs end at {end}'
        else:
            import h5py

            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    out.append((name, str(o.dtype), hashlib.sha1(np.ascontiguousarray(o[()]).tobytes()).hexdigest()))
            with h5py.File(fn, 'r') as f:
                f.visititems(visit)
        return 'complete', out
    except Exception as e:
        return 'partial', f'{type(e).__name__}: {str(e)[:120]}'


def run(ctx):
    ctx.rule = ('one case = one (command, earlier state of the output directory, file-changing call number, fault): the process is killed before or in the middle of that call, or the call (or everything from it on) fails; '
                'oracle: each output is as before the run (absent or the earlier file) or the complete file of an undisturbed run, success is only reported with complete outputs, and a restart gives the undisturbed outputs')
    so = faultshim.build(ctx.sub('shim'))
    r = ctx.rng('inputs')
    td, ind = ctx.sub('t'), ctx.sub('in')
    T = rrd.template_files(r, td)
    progs = []
    old = {}
    for v in range(ctx.n(1, 3)):
        d = ctx.sub(f'in/d{v}')
        fset, _, _, _ = rrd.fileset(r, d, T, 3 + v, nfiles=1 + v % 2, status=False)
        progs.append(('rrdesi', ['-i'] + [f['fn'] for f in fset] + ['-o', '{D}/redrock.fits', '-d', '{D}/rrdetails.h5', '--model', '{D}/rrmodel.fits', '-t'] + [t.filename for t in T], ['redrock.fits', 'rrdetails.h5', 'rrmodel.fits']))
    d = ctx.sub('in/old')
    fold, _, _, _ = rrd.fileset(r, d, T, 5, status=False)
    oldopts = {'rrdesi': ['-i', fold[0]['fn'], '-o', '{D}/redrock.fits', '-d', '{D}/rrdetails.h5', '--model', '{D}/rrmodel.fits', '-t'] + [t.filename for t in T]}
    d = ctx.sub('in/boss')
    P = c18.make_plate(r, d, T, 4055, 55359, 4)
    progs.append(('rrboss', ['--spplate', P['fn'], '-t', td, '--zbest', '{D}/zbest.fits', '-o', '{D}/scan.h5'], ['zbest.fits', 'scan.h5']))
    oldopts['rrboss'] = ['--spplate', P['fn'], '-t', td, '--zbest', '{D}/zbest.fits', '-o', '{D}/scan.h5', '-n', '2']
    nh = min(6, os.cpu_count() or 1)
    hosts = [faultshim.Host(so) for _ in range(nh)]
    try:
        fill = lambda o, d: [x.replace('{D}', d) for x in o]
        with ThreadPoolExecutor(nh) as ex:
            w = ctx.sub('warm')
            for rep in ex.map(lambda i: [hosts[i].run(warm=1, prog=p, opts=fill(o, ctx.sub(f'warm/{i}'))) for p, o, _ in progs[-2:]], range(nh)):
                for x in rep:
                    ctx.expect(x['status'] == 'ok', 'undisturbed', f'undisturbed run failed: {x}')
        jobs = []
        for q, (prog, opts, outs) in enumerate(progs):
            # undisturbed runs: the reference content, and the file-changing calls
            d = ctx.sub(f'ref{q}')
            rep = hosts[0].run(prog=prog, opts=fill(opts, d), dir=d, n=0, mode='count')
            ref = {o: digest(os.path.join(d, o)) for o in outs}
            for o in outs:
                ctx.expect(rep['status'] == 'ok' and ref[o][0] == 'complete', 'undisturbed', f'{prog}: undisturbed run ({rep["status"]}) leaves {o} {ref[o][0]}: {str(ref[o][1])[:100] if ref[o][0] != "complete" else ""}')
            if prog not in old:
                d0 = ctx.sub(f'old{q}')
                rp = hosts[0].run(prog=prog, opts=fill(oldopts[prog], d0), dir=d0, n=0, mode='count')
                old[prog] = (d0, {o: digest(os.path.join(d0, o)) for o in outs})
                ctx.expect(all(v[0] == 'complete' for v in old[prog][1].values()) and rp['status'] == 'ok', 'undisturbed', f'{prog}: earlier run failed: {rp["status"]} {rp["err"]}')
            ctx.expect(sorted(os.listdir(d)) == sorted(outs), 'leftover', f'{prog}: an undisturbed run leaves {sorted(os.listdir(d))}, asked for {sorted(outs)}')
            n = len(rep['events'])
            ctx.count('calls_seen', n)
            ctx.case(dict(prog=prog, calls=n, kinds={k: sum(e[0] == k for e in rep['events']) for k in 'wortu'}))
            allj = [(q, prog, opts, outs, ref, k, m, s) for k in range(1, n + 1) for m in ('kill', 'torn', 'nospace', 'once') for s in ('new', 'old')]
            rr = ctx.rng('pick', q)
            pick = [allj[i] for i in rr.permutation(len(allj))]
            # calls that change the directory are always taken
            E = rep['events']
            first = [j for j in pick if (E[j[5] - 1][0] in 'ru' and j[6] in ('kill', 'once')) or (j[5] > 1 and E[j[5] - 2][0] == 'r' and j[6] in ('kill', 'torn'))]
            rest = [j for j in pick if j not in first]
            jobs += (first + rest)[:ctx.n(72, 700)]
        free = list(hosts)

        def one(a):
            i, (q, prog, opts, outs, ref, k, m, s) = a
            h = free.pop()
            try:
                d = ctx.sub(f'run{i}')
                if s == 'old':
                    for o in outs:
                        shutil.copy(os.path.join(old[prog][0], o), d)
                rep = h.run(prog=prog, opts=fill(opts, d), dir=d, n=k, mode=m)
                left = {o: digest(os.path.join(d, o)) if os.path.exists(os.path.join(d, o)) else ('absent', '') for o in outs}
                again = None
                if i % 3 == 0 or m == 'torn':
                    a = h.run(prog=prog, opts=fill(opts, d), dir=d, n=0, mode='count')
                    again = (a['status'], {o: digest(os.path.join(d, o)) if os.path.exists(os.path.join(d, o)) else ('absent', '') for o in outs}, a['err'])
                shutil.rmtree(d, ignore_errors=True)
                return rep, left, again
            finally:
                free.append(h)
        with ThreadPoolExecutor(nh) as ex:
            for (q, prog, opts, outs, ref, k, m, s), (rep, left, again) in zip(jobs, ex.map(one, enumerate(jobs))):
                ev = rep['events'][-1] if rep['events'] else '-'
                what = f'{prog} with {"an earlier" if s == "old" else "no earlier"} output, {m} at file call {k} ({ev.strip()})'
                ctx.case(dict(prog=prog, k=k, fault=m, state=s, q=q), key=(q, k, m, s))
                ctx.count({'kill': 'crashes', 'torn': 'crashes'}.get(m, 'errors') + ('' if rep['status'] != 'ok' else '_survived'))
                for o in outs:
                    st, c = left[o]
                    good = st == 'absent' or (st == 'complete' and (c == ref[o][1] or (s == 'old' and c == old[prog][1][o][1])))
                    if s == 'old':
                        ctx.expect(st != 'absent', f'lost-{prog}', f'{what}: the complete {o} of the earlier run is gone')
                    ctx.expect(good, f'partial-{prog}', f'{what}: {o} is left {st} ({str(c)[:160]})')
                    ctx.count('state_' + ('absent' if st == 'absent' else 'new' if c == ref[o][1] else 'old' if good else 'bad'))
                    if rep['status'] == 'ok':
                        ctx.expect(st == 'complete' and c == ref[o][1], 'false-success', f'{what}: success is reported, but {o} is {"the earlier file" if st == "complete" else st}')
                ctx.expect(rep['status'] in ('ok', 'killed', 'raised') or m in ('nospace', 'once'), 'died',   # HDF5 itself may crash after a write error
                            f'{what}: {rep["status"]}')
                if again:
                    ctx.expect(again[0] == 'ok' and all(again[1][o] == ref[o] for o in outs), 'restart', f'{what}: a restart in the same directory ends with {again[0]} {again[2]} and {({o: again[1][o][0] for o in outs if again[1][o] != ref[o]})}')
                    ctx.count('restarts')
    finally:
        for h in hosts:
            h.close()
    ctx.floor('calls_seen', 30)
    ctx.floor('crashes', 20)
    ctx.floor('errors', 10)
    ctx.floor('restarts', 15)
