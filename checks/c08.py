"""C08: stored matrices and maps are only reused when they are right."""
import gc
import hashlib
import os
import pickle
import subprocess
import sys
import textwrap

import acoular as ac
import acoular.fbeamform as fb
import h5py
import numpy as np
import tables
from acoular import config
from acoular.h5cache import H5cache
from vf import monitor

RULE = ('a case is one random history over one cache directory: steps read csm/eigenvalues/eigenvectors, some frequencies of a map in '
        'random order or columns of a point spread function, with drawn caching mode, configuration, kept or new object, injected failure '
        '(source, kernel call n) or other process; every delivered value is compared with the same object computed with caching off; '
        'non-trivial = object kind x library x mode x failure x kept/new')
ASSUMPTIONS = ['values compared at 1e-9 of the maximum (1e-4 in single precision); the uncached computation itself is judged by C10, C11, C23, C25, C26']

PLAN = {'src': None, 'call': None, 'n': 0}


class Boom(RuntimeError):
    pass


def _patch_source():
    orig = ac.TimeSamples.result

    def result(self, num):
        for k, b in enumerate(orig(self, num)):
            if PLAN['src'] is not None and k >= PLAN['src']:
                raise Boom('source failed')
            yield b

    ac.TimeSamples.result = result


def _patch_kernels():
    def wrap(f):
        def g(*a, **k):
            if PLAN['call'] is not None:
                PLAN['n'] += 1
                if PLAN['n'] > PLAN['call']:
                    raise Boom('kernel interrupted')
            return f(*a, **k)

        return g

    for name in ('beamformerFreq', 'calcPointSpreadFunction', 'damasSolverGaussSeidel'):
        if hasattr(fb, name):
            setattr(fb, name, wrap(getattr(fb, name)))


_patch_source()
_patch_kernels()

MAPS = {
    'Base': lambda **k: ac.BeamformerBase(**k),
    'Base32': lambda **k: ac.BeamformerBase(precision='float32', **k),
    'Functional': lambda **k: ac.BeamformerFunctional(gamma=3, **{**k, 'r_diag': False}),
    'Capon': lambda **k: ac.BeamformerCapon(**{**k, 'r_diag': False}),
    'Eig': lambda **k: ac.BeamformerEig(n=-1, **k),
    'Music': lambda **k: ac.BeamformerMusic(n=1, **{**k, 'r_diag': False}),
    'Cleansc': lambda **k: ac.BeamformerCleansc(n_iter=5, **k),
    'Clean': lambda **k: ac.BeamformerClean(n_iter=5, **k),
    'Damas': lambda **k: ac.BeamformerDamas(n_iter=5, **k),
    'Orth': lambda **k: ac.BeamformerOrth(eva_list=[-1, -2], **k),
    'CMF': lambda **k: ac.BeamformerCMF(method='NNLS', **k),
    'Gridless': lambda **k: ac.BeamformerGridlessOrth(eva_list=[-1, -2], n=1, shgo={'n': 16, 'iters': 1, 'sampling_method': 'sobol'}, **k),
}
NF = 65


def build(kw):
    """All objects of one configuration (plain data in, objects out)."""
    mics = ac.MicGeom(pos_total=kw['mpos'])
    grid = ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.2, y_max=0.2, z=kw['z'], increment=0.2)
    src = ac.TimeSamples(data=kw['data'], sample_freq=12800.0)
    ps = ac.PowerSpectra(source=src, block_size=128, precision=kw['prec'], window=kw['window'], cached=kw['cached'])
    st = ac.SteeringVector(grid=grid, mics=mics, steer_type=kw['steer_type'])
    return ps, st


class Unit:
    """One readable object: ps, map or psf."""

    def __init__(self, kind, kw):
        self.kind = kind
        ps, st = build(kw)
        if kind == 'ps':
            self.o = ps
        elif kind == 'psf':
            self.o = ac.PointSpreadFunction(steer=st, precision=kw['psfprec'], calcmode=kw['calcmode'])
        else:
            self.o = MAPS[kind](freq_data=ps, steer=st, r_diag=kw['r_diag'], cached=kw['bfcached'])

    def read(self, what):
        """what: plain data naming what to read; returns list of arrays."""
        out = []
        for w in what:
            if self.kind == 'ps':
                r = np.array(getattr(self.o, w)[:])
                if w == 'eve':
                    # eigenvectors are compared as what they stand for (they are not unique)
                    e = np.array(self.o.eva[:])
                    ok = np.allclose(np.swapaxes(r.conj(), 1, 2) @ r, np.eye(r.shape[1]), atol=1e-3)
                    r = ((r * e[:, None, :]) @ np.swapaxes(r.conj(), 1, 2) if ok else r * np.nan).astype(r.dtype)
                out.append(r)
            elif self.kind == 'psf':
                f, idx = w
                self.o.freq = f
                self.o.grid_indices = np.array(idx)
                out.append(np.array(self.o.psf))
            else:
                r = self.o.result
                out.append(np.array(r[w] if not isinstance(w, list) else r[w[0]:w[1]]))
                if self.kind == 'Gridless':
                    pass
        return out


def close_all():
    gc.collect()
    for f in list(H5cache.open_files.values()):
        try:
            f.close()
        except Exception:
            pass
    gc.collect()


def files(d):
    return {p.name: hashlib.md5(p.read_bytes()).hexdigest() for p in sorted(d.rglob('*')) if p.is_file()} if d.exists() else {}


CHILD = textwrap.dedent('''
    import sys, pickle
    sys.path[:0] = %r
    import acoular as ac, c08
    job = pickle.load(open(sys.argv[1], 'rb'))
    ac.config.cache_dir = job['cache']; ac.config.h5library = job['lib']; ac.config.global_caching = job['mode']
    c08.PLAN.update(job['plan'])
    try:
        out = c08.Unit(job['kind'], job['kw']).read(job['what']), ''
    except c08.Boom:
        out = [], 'boom'
    pickle.dump(out, open(sys.argv[2], 'wb'))
''')


def child(ctx, job):
    d = ctx.scratch
    (d / 'job').write_bytes(pickle.dumps(job))
    (d / 'child.py').write_text(CHILD % ([p for p in sys.path if p],))
    p = subprocess.run([sys.executable, str(d / 'child.py'), str(d / 'job'), str(d / 'res')], capture_output=True, text=True, timeout=150)
    if not (d / 'res').exists():
        ctx.check(False, f'process-failed:{"".join(p.stderr.strip().splitlines()[-1:])[:60]}', p.stderr[-1500:])
    r = pickle.loads((d / 'res').read_bytes())
    os.unlink(d / 'res')
    return r


def draw_what(ctx, kind, gs):
    if kind == 'ps':
        return [ctx.pick('csm', 'eva', 'eve') for _ in range(ctx.int(1, 3))]
    if kind == 'psf':
        out = []
        for _ in range(ctx.int(1, 3)):
            f = ctx.pick(1000.0, 1000.001, 1000.004, 2500.0, 0.001)
            k = ctx.int(1, gs)
            out.append((f, [int(x) for x in ctx.rng.permutation(gs)[:k]]))
        return out
    out = []
    for _ in range(ctx.int(1, 4)):
        if ctx.flip(0.3):
            a = ctx.int(1, NF - 4)
            out.append([a, a + ctx.int(1, 3)])
        else:
            out.append(ctx.int(1, NF - 1) if ctx.flip(0.7) else ctx.int(5, 8))
    return out


def spoil(cache, lib):
    for p in cache.glob('*.h5'):
        if lib == 'pytables':
            with tables.open_file(str(p), 'a') as f:
                for d in f.walk_nodes('/', 'Leaf'):
                    if d.name not in ('freqs', 'gridpts') and d.dtype.kind in 'fc':
                        d[...] = d[...] + 7
            continue
        with h5py.File(p, 'a') as f:
            def v(name, d):
                if isinstance(d, h5py.Dataset) and not name.endswith(('freqs', 'gridpts')) and d.dtype.kind in 'fc':
                    d[...] = d[...] + 7
            f.visititems(v)


def history(ctx, lib, nops, kinds, procs=False):
    cache = ctx.scratch / 'cache'
    config.h5library = lib
    config.cache_dir = str(cache)
    n = 4
    base = ctx.rng.standard_normal((ctx.pick(300, 640), n))
    if ctx.flip(0.1):
        base[:] = 0.0
    kws = []
    for k in range(2):
        kws.append(dict(mpos=ctx.rng.uniform(-0.3, 0.3, (3, n)), z=ctx.pick(0.5, 0.7), data=base if ctx.flip(0.6) else base + 1e-3 * k,
                        prec=ctx.pick('complex128', 'complex128', 'complex64'), window=ctx.pick('Rectangular', 'Hanning'), cached=ctx.flip(0.7),
                        steer_type=ctx.pick('true level', 'classic', 'true location', 'inverse'), r_diag=ctx.flip(), bfcached=ctx.flip(0.8),
                        psfprec=ctx.pick('float64', 'float32'), calcmode=ctx.pick('single', 'block', 'full')))
    kept = {}
    trace = []
    zero = not base.any()
    for op in range(nops):
        kind, ci = ctx.pick(*kinds), ctx.int(0, 1)
        kw = kws[ci]
        if kind == 'psf' and ctx.flip(0.3):
            kw['calcmode'] = ctx.pick('single', 'block', 'full')
        if zero and kind not in ('ps', 'Base', 'psf'):
            kind = 'ps'
        what = draw_what(ctx, kind, 9)
        mode = ctx.pick('individual', 'all', 'all', 'none', 'readonly', 'readonly', 'overwrite')
        PLAN.update(src=None, call=None, n=0)
        config.global_caching = 'none'
        try:
            want = Unit(kind, kw).read(what)
        except np.linalg.LinAlgError:  # an inverse of a singular matrix is asked for: no value to compare
            continue
        plan = dict(src=None, call=None, n=0)
        fate = ctx.pick('ok', 'ok', 'ok', 'src', 'call')
        if fate == 'src':
            plan['src'] = ctx.int(0, 3)
        elif fate == 'call':
            plan['call'] = ctx.int(0, 4)
        other = procs and ctx.flip(0.4)
        guard = mode in ('none', 'readonly') and ctx.flip(0.6)
        if guard or other:
            kept.clear()
            close_all()
            before = files(cache)
        new = True
        trace.append(f'{kind}{ci}:{mode}:{fate}:{what}'.replace(' ', ''))
        ctx.note(lib=lib, zero=zero, trace=' '.join(trace), kw=str({k: v for k, v in kw.items() if k not in ('data', 'mpos')}))
        config.global_caching = mode
        got, err = None, ''
        if other:
            got, err = child(ctx, dict(cache=str(cache), lib=lib, mode=mode, kind=kind, kw=kw, what=what, plan=plan))
        else:
            u = kept.get((kind, ci)) if ctx.flip() else None
            new = u is None
            if new:
                u = Unit(kind, kw)
            if ctx.flip(0.7):
                kept[kind, ci] = u
            PLAN.update(plan)
            try:
                got = u.read(what)
            except Boom:
                err = 'boom'
            finally:
                PLAN.update(src=None, call=None, n=0)
            del u
        single = kw['prec'] == 'complex64' or kind in ('Base32',) or (kind == 'psf' and kw['psfprec'] == 'float32')
        if err:
            ctx.check(fate != 'ok', 'spurious-error', 'error without injected fault')
        else:
            for g, w_, x in zip(got, want, what):
                ctx.check(g.dtype.kind == w_.dtype.kind and g.dtype.itemsize == w_.dtype.itemsize, f'dtype@{kind}', f'{x}: {g.dtype} want {w_.dtype}')
                ctx.close(g, w_, f'values@{kind}', f'step {op} mode {mode} {"new" if new else "kept"} {x}', rtol=3e-4 if single else 1e-8, atol=1e-300)
                ctx.event()
        if guard:
            close_all()
            after = files(cache)
            kept.clear()
            ctx.check(set(after) == set(before), f'files-created@{mode}', f'{kind}: {sorted(set(after) ^ set(before))}')
            ctx.check(after == before, f'files-written@{mode}', f'{kind}: content of a cache file changed')
        ctx.sig(kind, lib, mode, fate, 'err' if err else 'ok', 'proc' if other else 'new' if new else 'kept')
        if not err and ctx.flip(0.15):
            # overwrite mode must renew whatever is stored
            kept.clear()
            close_all()
            spoil(cache, lib)
            for m in ('overwrite', 'all'):
                config.global_caching = m
                got = Unit(kind, kw).read(what)
                for g, w_, x in zip(got, want, what):
                    if kind == 'Gridless' and g.shape == w_.shape:
                        g = np.where(w_ == 0, 0, g)  # only the entries of its own components are ever computed
                    ctx.close(g, w_, f'overwrite-not-renewed@{kind}', f'{m} {x}', rtol=3e-4 if single else 1e-8, atol=1e-300)
            gc.collect()
            close_all()
            for p in cache.glob('*.h5'):
                os.unlink(p)
            ctx.sig(kind, lib, 'spoil')


def run(ctx, *a, **k):
    try:
        history(ctx, *a, **k)
    finally:
        PLAN.update(src=None, call=None, n=0)
        close_all()
        config.h5library = 'pytables'
        config.global_caching = 'none'


ALLK = ('ps', 'psf', *MAPS)
FAST = ('ps', 'ps', 'psf', 'psf', 'Base', 'Base', 'Base32', 'Eig', 'Orth', 'Clean', 'Damas')


@monitor('mixed', quick=64, thorough=2500, floor=100, timeout=200)
def mixed(ctx):
    run(ctx, ctx.pick('pytables', 'h5py'), ctx.int(4, 10), tuple(ctx.pick(*ALLK) for _ in range(3)))


@monitor('fast', quick=96, thorough=2500, floor=100, timeout=200)
def fast(ctx):
    run(ctx, ctx.pick('pytables', 'h5py'), ctx.int(6, 16), tuple(ctx.pick(*FAST) for _ in range(2)))


@monitor('processes', quick=8, thorough=100, floor=10, timeout=600)
def procs(ctx):
    run(ctx, ctx.pick('pytables', 'h5py'), ctx.int(3, 6), tuple(ctx.pick(*FAST) for _ in range(2)), procs=True)
