"""Run the repository's CUDA kernels on the host, compiled by g++ with AddressSanitizer + UBSan (or ThreadSanitizer).

The kernel text handed to cupy.RawModule is compiled unchanged behind a small launcher. Every launch copies each
argument into its own exact-size heap block (so the sanitizer's red zones start right at the array ends), runs all
grid threads (in a seeded order, on 1..n host threads), and returns the blocks of the non-const pointers.
A sanitizer report ends the server process; the report is kept and the launch raises SanitizerError.
"""
import os, re, subprocess, tempfile, threading, hashlib, shutil
import numpy as np

TEMPLATE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <atomic>
#include <thread>
#include <vector>
#include <algorithm>
#include <random>
#include <string>
using std::min; using std::max;
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
struct dim3_ { unsigned int x, y, z; };
static thread_local dim3_ blockDim, blockIdx, threadIdx, gridDim;
static inline double atomicAdd(double *p, double v) { return std::atomic_ref<double>(*p).fetch_add(v); }
static inline int atomicAdd(int *p, int v) { return std::atomic_ref<int>(*p).fetch_add(v); }
%SOURCE%
static bool rd(void *p, size_t n) { return fread(p, 1, n, stdin) == n; }
struct Arg { char kind; long long n; char *p; long long iv; double dv; };
int main() {
    for (;;) {
        int32_t kid, nb, nt, nthr, seed, na;
        if (!rd(&kid, 4)) return 0;
        rd(&nb, 4); rd(&nt, 4); rd(&nthr, 4); rd(&seed, 4); rd(&na, 4);
        std::vector<Arg> a(na);
        for (auto &x : a) {
            rd(&x.kind, 1);
            if (x.kind == 'p' || x.kind == 'o') { rd(&x.n, 8); x.p = (char *)malloc(x.n); rd(x.p, x.n); }
            else if (x.kind == 'i') rd(&x.iv, 8);
            else rd(&x.dv, 8);
        }
        long total = (long)nb * nt;
        std::vector<long> order;
        if (seed) { order.resize(total); for (long i = 0; i < total; i++) order[i] = i; std::mt19937 g(seed); std::shuffle(order.begin(), order.end(), g); }
        auto work = [&](int w) {
            for (long k = w; k < total; k += nthr) {
                long i = seed ? order[k] : k;
                blockDim = {(unsigned)nt, 1, 1}; gridDim = {(unsigned)nb, 1, 1};
                blockIdx = {(unsigned)(i / nt), 0, 0}; threadIdx = {(unsigned)(i % nt), 0, 0};
                switch (kid) {
%CALLS%
                }
            }
        };
        if (nthr == 1) work(0);
        else { std::vector<std::thread> th; for (int w = 0; w < nthr; w++) th.emplace_back(work, w); for (auto &t : th) t.join(); }
        char ok = 'K'; fwrite(&ok, 1, 1, stdout);
        for (auto &x : a) { if (x.kind == 'o') fwrite(x.p, 1, x.n, stdout); if (x.kind == 'p' || x.kind == 'o') free(x.p); }
        fflush(stdout);
    }
}
'''

KERNEL = re.compile(r'__global__\s+void\s+(\w+)\s*\(([^)]*)\)', re.S)


class SanitizerError(Exception):
    def __str__(self):
        return str(self.args[0])


class BuildError(Exception):
    pass


def signatures(source):
    out = []
    for name, args in KERNEL.findall(source):
        al = []
        for a in args.split(','):
            a = ' '.join(a.replace('__restrict__', '').split())
            ty = a.rsplit(' ', 1)[0] if '*' not in a else a[:a.rindex('*') + 1]
            al.append((ty.replace(' *', '*'), '*' in a, a.startswith('const')))
        out.append((name, al))
    return out


class Module:
    cache = {}
    lock = threading.Lock()
    stats = dict(launches=0, grid_threads=0, bytes=0)

    def __init__(self, source, flavour='asan', workdir=None):
        self.source, self.flavour = source, flavour
        self.sigs = signatures(source)
        if not self.sigs:
            raise BuildError('no kernel found')
        calls = []
        for k, (name, al) in enumerate(self.sigs):
            args = []
            for j, (ty, ptr, const) in enumerate(al):
                if ptr:
                    args.append(f'({ty})a[{j}].p')
                elif 'double' in ty or 'float' in ty:
                    args.append(f'({ty})a[{j}].dv')
                else:
                    args.append(f'({ty})a[{j}].iv')
            calls.append(f'                case {k}: {name}({", ".join(args)}); break;')
        self.dir = tempfile.mkdtemp(prefix='rv-cuda-', dir=workdir)
        src = os.path.join(self.dir, 'k.cpp')
        open(src, 'w').write(TEMPLATE.replace('%SOURCE%', source).replace('%CALLS%', '\n'.join(calls)))
        san = {'asan': '-fsanitize=address,undefined -fno-sanitize-recover=all', 'tsan': '-fsanitize=thread'}[flavour]
        self.exe = os.path.join(self.dir, 'k')
        p = subprocess.run(f'g++ -std=c++20 -O1 -g {san} -pthread -w -o {self.exe} {src}', shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(p.stdout[-3000:])
        self.proc = None
        self.mu = threading.Lock()

    @classmethod
    def get(cls, source, flavour='asan', workdir=None):
        key = hashlib.sha1((flavour + source).encode()).hexdigest()
        with cls.lock:
            if key not in cls.cache:
                cls.cache[key] = cls(source, flavour, workdir)
            return cls.cache[key]

    def _start(self):
        self.err = open(os.path.join(self.dir, 'err'), 'w+')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1',
                   TSAN_OPTIONS='halt_on_error=1:exitcode=99')
        env.pop('LD_PRELOAD', None)
        pre = ['setarch', '-R'] if self.flavour == 'tsan' and shutil.which('setarch') else []
        self.proc = subprocess.Popen(pre + [self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)

    def launch(self, name, nblocks, nthreads, args, nthr=1, seed=0):
        names = [n for n, _ in self.sigs]
        kid = names.index(name)
        al = self.sigs[kid][1]
        if len(args) != len(al):
            raise TypeError(f'{name}: {len(args)} arguments instead of {len(al)}')
        with self.mu:
            if self.proc is None or self.proc.poll() is not None:
                self._start()
            msg = [np.array([kid, nblocks, nthreads, nthr, seed, len(al)], np.int32).tobytes()]
            outs = []
            for (ty, ptr, const), v in zip(al, args):
                if ptr:
                    want = {'double': 8, 'float': 4, 'int': 4, 'long': 8}[ty.replace('const', '').replace('*', '').replace('unsigned', '').replace('long long', 'long').strip()]
                    if v.dtype.itemsize != want:
                        raise SanitizerError(f'kernel {name}: array of {v.dtype} passed for {ty}')
                    raw = memoryview_bytes(v)
                    msg.append((b'p' if const else b'o') + np.int64(len(raw)).tobytes() + raw)
                    if not const:
                        outs.append(v)
                elif 'double' in ty or 'float' in ty:
                    msg.append(b'd' + np.float64(v).tobytes())
                else:
                    msg.append(b'i' + np.int64(v).tobytes())
            Module.stats['launches'] += 1
            Module.stats['grid_threads'] += int(nblocks) * int(nthreads)
            try:
                self.proc.stdin.write(b''.join(msg))
                self.proc.stdin.flush()
                ok = self.proc.stdout.read(1)
            except BrokenPipeError:
                ok = b''
            if ok != b'K':
                self.proc.wait()
                self.err.seek(0)
                rep = self.err.read()
                self.proc = None
                m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n(]*)', rep)
                fr = re.search(r'#\d+ [^\n]*\b(' + '|'.join(names) + r')\(', rep)
                raise SanitizerError(f'kernel {name}: {m.group(1) if m else "server died"}' + (f' in {fr.group(1)}' if fr else ''), rep[:3000])
            for v in outs:
                buf = self.proc.stdout.read(v.nbytes)
                v[...] = np.frombuffer(buf, dtype=v.dtype).reshape(v.shape)

    def close(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=5)
            except Exception:
                self.proc.kill()


def memoryview_bytes(v):
    """the device memory of an array, as a kernel sees it: the base buffer from its first element on, C order only"""
    if not v.flags.c_contiguous:
        raise SanitizerError('a non-contiguous array was passed to a kernel')
    return v.tobytes()


def close_all():
    for m in Module.cache.values():
        m.close()
        shutil.rmtree(m.dir, ignore_errors=True)
    Module.cache.clear()
