"""Runs workload tasks in one variant of the kernels: compiled, interpreted, bounds checked or with guarded memory."""
import faulthandler
import json
import os
import sys
import warnings
from pathlib import Path

faulthandler.enable()
cfg = json.loads(Path(sys.argv[1]).read_text())
wd = Path(sys.argv[1]).parent
variant = cfg['variant']

import numpy as np  # noqa: E402


def interpreted_gufuncs():
    import re

    import numba
    from numba.np.numpy_support import as_dtype

    def guvectorize(sigs, layout=None, **kw):
        if isinstance(sigs, str):  # signatures may be left out
            sigs, layout = [], sigs
        left, right = layout.replace(' ', '').split('->')
        dims = [re.findall(r'\w+', p) for p in re.findall(r'\(([^)]*)\)', left)]
        odims = [re.findall(r'\w+', p) for p in re.findall(r'\(([^)]*)\)', right)]
        nin, nout = len(dims), len(odims)
        types = [[as_dtype(getattr(t, 'dtype', t)) for t in (s.args if hasattr(s, 'args') else s)] for s in sigs]

        def deco(f):
            def call(*args, out=None):
                ins = [np.asarray(a) for a in args[:nin]]
                sig = next(t for t in types if all(np.can_cast(a.dtype, d, 'safe') for a, d in zip(ins, t)))
                ins = [a.astype(d, copy=False) for a, d in zip(ins, sig)]
                size = {}
                for a, d in zip(ins, dims):
                    for n, s in zip(d, a.shape[a.ndim - len(d):] if d else ()):
                        if size.setdefault(n, s) != s:
                            raise ValueError('mismatch in its core dimension')
                loop = np.broadcast_shapes(*[a.shape[:a.ndim - len(d)] for a, d in zip(ins, dims)])
                outs = list(args[nin:]) or ([] if out is None else list(out if isinstance(out, tuple) else (out,)))
                res = outs or [np.empty(loop + tuple(size[n] for n in d), t) for d, t in zip(odims, sig[nin:])]
                for o, d in zip(res, odims):
                    loop = np.broadcast_shapes(loop, o.shape[:o.ndim - len(d)])
                views = []
                for a, d in zip(ins + res, dims + odims):
                    core = a.shape[a.ndim - len(d):] if d else ()
                    v = np.broadcast_to(a, loop + core) if a.shape != loop + core else a
                    views.append(v if d else v[..., None])
                for i in np.ndindex(*loop):
                    f(*[v[i] for v in views])
                return res[0] if nout == 1 else tuple(res)

            call.py_func = f
            return call

        return deco

    numba.guvectorize = guvectorize


if variant == 'interpreted':
    interpreted_gufuncs()
fence = None
if variant.startswith('fence'):
    sys.path.insert(0, cfg['fence_dir'])
    import fence

import kwork  # noqa: E402

import acoular  # noqa: E402, F401

warnings.simplefilter('ignore')
if variant == 'threads':
    import numba
out, stats = {}, []
n0 = 0
for j, (name, i) in enumerate(cfg['tasks']):
    (wd / 'current').write_text(f'{name}#{i}')
    if variant == 'threads':
        numba.set_num_threads([1, 8, 3, 5, 2, 7][j % 6] if numba.config.NUMBA_NUM_THREADS >= 8 else 1)
        numba.set_parallel_chunksize([0, 1, 0, 2][j % 4])
    if fence:
        fence.install(0 if variant == 'fence-end' else 1, 0xFB if variant == 'fence-end' else 0x3F)
    r = kwork.run_task(name, cfg['seed'], i)
    if fence:
        fence.sweep()
        s = fence.stats()
        if s[2]:
            (wd / 'overwritten').write_text(f'{name}#{i}: {s[3]}')
            break
        fence.pause()
        stats = s[:2]
    for k, v in r.items():
        out[f'{j}/{k}'] = v.copy()
if variant == 'threads':
    stats = [numba.config.NUMBA_NUM_THREADS]
np.savez(wd / 'out.npz', **out)
(wd / 'stats.json').write_text(json.dumps([int(x) for x in stats]))
sys.stdout.flush()
os._exit(0)
