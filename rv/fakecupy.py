"""A host stand-in for cupy: numpy semantics with cupy's differences that matter to redrock.

* device arrays are a numpy subclass with .get(); results of module functions stay device arrays
* cp.empty is filled with NaN, so elements a kernel does not write are seen
* cp.linalg.solve does not raise for singular matrices
* RawModule compiles the kernel text for the host under a sanitizer (rv.cudahost)
"""
import sys, types, threading
import numpy as np
from rv import cudahost


class ndarray(np.ndarray):
    def get(self, *a, **k):
        return np.array(np.asarray(self).view(np.ndarray))

    @property
    def device(self):
        return 0


def wrap(x):
    if isinstance(x, np.ndarray):
        return x.view(ndarray)
    if isinstance(x, (list, tuple)) and x and all(isinstance(y, np.ndarray) for y in x):
        return type(x)(wrap(y) for y in x)
    if isinstance(x, np.generic) and not isinstance(x, np.bool_):
        return np.asarray(x).view(ndarray)
    return x


class _Kernel:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def __call__(self, grid, block, args, **kw):
        a = [np.asarray(x).view(np.ndarray) if isinstance(x, np.ndarray) and x.ndim else x for x in args]
        # device arrays are written in place: keep the buffer of the caller
        o = [x.view(np.ndarray) if isinstance(x, np.ndarray) and x.ndim else y for x, y in zip(args, a)]
        self.mod.launch(self.name, int(grid[0]), int(block[0]), o, nthr=cfg.nthr, seed=cfg.next_seed())


class Config:
    flavour, nthr, workdir, _seed, shuffle, shared = 'asan', 1, None, 0, False, False

    def next_seed(self):
        if not self.shuffle:
            return 0
        self._seed += 1
        return self._seed


cfg = Config()


class RawModule:
    def __init__(self, code=None, **kw):
        self.mod = cudahost.Module.get(code, cfg.flavour, cfg.workdir)

    def get_function(self, name):
        return _Kernel(self.mod, name)


def RawKernel(code, name, **kw):
    return RawModule(code).get_function(name)


def _solve(M, y):
    M, y = np.asarray(M).view(np.ndarray), np.asarray(y).view(np.ndarray)
    try:
        return wrap(np.linalg.solve(M, y))
    except np.linalg.LinAlgError:
        out = np.full(y.shape, np.nan)
        for i in np.ndindex(M.shape[:-2]):
            try:
                out[i] = np.linalg.solve(M[i], y[i])
            except np.linalg.LinAlgError:
                pass
        return wrap(out)


def install():
    m = types.ModuleType('cupy')

    def getattr_(name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(np, name)
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            out = f(*a, **k)
            if name in ('append', 'concatenate', 'hstack', 'vstack', 'stack', 'tile'):      # C order in cupy
                out = np.ascontiguousarray(out)
            return wrap(out)
        g.__name__ = name
        return g
    m.__getattr__ = getattr_
    m.ndarray = ndarray
    m.isscalar = np.isscalar
    m.float64, m.int32, m.int64, m.float32 = np.float64, np.int32, np.int64, np.float32
    m.asarray = lambda x, dtype=None, **k: (np.array(x, dtype=dtype).view(ndarray) if not isinstance(x, ndarray) else (x if dtype is None or x.dtype == dtype else x.astype(dtype)))
    m.array = lambda x, dtype=None, **k: np.array(x, dtype=dtype).view(ndarray)

    def empty(shape, dtype=np.float64, **k):
        a = np.empty(shape, dtype).view(ndarray)
        a[...] = np.nan if np.issubdtype(np.dtype(dtype), np.floating) else -2**30
        return a
    m.empty = empty
    m.asnumpy = lambda x: np.array(np.asarray(x))
    m.RawModule, m.RawKernel = RawModule, RawKernel
    m.is_available = lambda: True
    la = types.ModuleType('cupy.linalg')
    la.solve = _solve
    m.linalg = la

    class Pool:
        def free_all_blocks(self):
            pass

        def used_bytes(self):
            return 0

        def total_bytes(self):
            return 0
    m.get_default_memory_pool = Pool
    cuda = types.ModuleType('cupy.cuda')
    cuda.Stream = types.SimpleNamespace(null=types.SimpleNamespace(synchronize=lambda: None))

    class Device:
        def __init__(self, n=0):
            pass
        mem_info = (80 * 2**30, 80 * 2**30)
        attributes = {}

        def use(self):
            pass

        def synchronize(self):
            pass
    cuda.Device = Device
    cuda.runtime = types.SimpleNamespace(getDeviceCount=lambda: 1, getDevice=lambda: 0, deviceGetPCIBusId=lambda n: '0000' if cfg.shared else f'0000:{threading.get_ident()}',
                                         getDeviceProperties=lambda n: {'name': b'host'})
    m.cuda = cuda
    m.__path__ = []
    sys.modules['cupy'] = m
    sys.modules['cupy.cuda'] = cuda
    sys.modules['cupy.linalg'] = la
    return m
