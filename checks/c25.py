"""C25: point spread functions are the maps of unit sources."""
import shutil

import acoular as ac
import numpy as np
import zoo
from acoular import config
from c23 import MySteering, SameSteering, setup
from prop import phase_tol, quad_bound, transfer
from vf import MONITORS, Skip, monitor

MONITORS.clear()  # importing the builders of C23 registers its monitors, too
RULE = ('a case draws array, grid, formulation, reference, flow, precision, calculation mode and a sequence of index subsets (any order, repeats) and compares every '
        'column with the map of a unit source computed from the formulas and with the conventional beamformer; non-trivial = formulation x mode x precision x subset kind x storage')
ASSUMPTIONS = ['phases are evaluated in single precision by the kernels', 'cached columns are compared within one rounding of the stored precision']


def columns(h, a, f):
    return np.abs(h(f).conj() @ a.T)**2


def subset(ctx, n):
    k = ctx.pick('all', 'one', 'some', 'shuffled', 'repeated', 'list')
    if k == 'all':
        return k, np.arange(n)
    if k == 'one':
        return k, np.array([ctx.int(0, n - 1)])
    p = ctx.rng.permutation(n)[: ctx.int(1, n)]
    if k == 'some':
        return k, np.sort(p)
    if k == 'repeated':
        return k, ctx.rng.integers(0, n, ctx.int(2, n + 3))
    if k == 'list':
        return k, [int(x) for x in p]
    return k, p


def tolerance(ctx, st, f, h, a, rm, r0, want, precision):
    e = 4 * phase_tol(f, st.env.c, 2 * rm, r0)
    w = np.abs(h(f)) @ np.abs(a).T
    return e * w**2 + (3e-7 * want if precision == 'float32' else 0) + 1e-300


@monitor('columns', quick=500, thorough=12000, floor=150)
def cols(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    p = ac.PointSpreadFunction(steer=st, precision=ctx.pick('float64', 'float32'))
    N = len(r0)
    steps = []
    for _ in range(ctx.int(1, 4)):
        f = ctx.pick(ctx.uni(100, 1000), ctx.uni(100, 10000))
        p.freq = f
        mode = p.calcmode = ctx.pick('single', 'block', 'full')
        k, ind = subset(ctx, N)
        if not (k == 'all' and not steps and ctx.flip()):
            p.grid_indices = ind
        steps.append(f'{mode}/{k}')
        ctx.note(steer=name, precision=p.precision, steps=steps, N=N, M=M)
        ctx.sig(name, p.precision, mode, k)
        a = transfer(f, st.env.c, r0, rm)[np.asarray(ind)]
        want = columns(h, a, f)
        got = np.array(p.psf)
        ctx.check(got.shape == want.shape, 'shape', f'{got.shape} {want.shape}')
        ctx.check(got.dtype == p.precision, 'precision', str(got.dtype))
        tol = tolerance(ctx, st, f, h, a, rm, r0, want, p.precision)
        d = np.abs(got - want)
        ctx.check(np.all(np.isfinite(got)) and np.all(d <= tol), f'psf@{name.rstrip("*")}', lambda: f'worst {np.max(d / tol)} of tolerance; {steps}')
        ctx.event(got.size)


@monitor('map-of-unit-source', quick=150, thorough=4000, floor=50)
def unit(ctx):
    """The column is what the conventional beamformer delivers for that source."""
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    f = ctx.uni(100, 5000)
    s = ctx.int(0, len(r0) - 1)
    a = np.array(st.transfer(f))[s]
    bf = ac.BeamformerBase(freq_data=ac.PowerSpectraImport(csm=np.outer(a, a.conj())[None], frequencies=f), steer=st, r_diag=False)
    got = np.array(ac.PointSpreadFunction(steer=st, freq=f, grid_indices=np.array([s]), calcmode=ctx.pick('single', 'block', 'full')).psf)[:, 0]
    b = np.array(bf.result[0])
    ctx.note(steer=name, s=s, M=M)
    ctx.sig(name, M)
    tol = 6 * phase_tol(f, st.env.c, 2 * rm, r0) * quad_bound(h(f), np.outer(a, a.conj())) + 1e-300
    ctx.check(np.all(np.abs(got - b) <= tol), 'psf-vs-map', lambda: f'{np.abs(got - b).max()} of {b.max()}')
    base = name.rstrip('*')
    if base in ('inverse', 'true level'):
        ctx.check(abs(got[s] - 1) < 1e-5, 'unit-at-source', f'{got[s]}')
    if base == 'true location':
        ctx.check(got[s] >= got.max() * (1 - 1e-5), 'maximum-at-source')


@monitor('stored', quick=80, thorough=1500, floor=40)
def stored(ctx):
    """Columns stored earlier and new ones combine; other settings never mix."""
    config.global_caching = ctx.pick('all', 'individual')
    config.h5library = ctx.pick('pytables', 'h5py')
    config.cache_dir = str(ctx.scratch)
    try:
        st, h, name, r0, rm, M = setup(ctx)
        N = len(r0)
        freqs = [ctx.uni(100, 5000), ctx.uni(100, 5000)]
        prec = ctx.pick('float64', 'float32')
        p = None
        log = []
        for _ in range(ctx.int(2, 7)):
            if p is None or ctx.flip(0.3):
                p = ac.PointSpreadFunction(steer=st, precision=prec)
            if ctx.flip(0.15):
                prec = p.precision = ctx.pick('float64', 'float32')
            f = p.freq = freqs[ctx.int(0, 1)]
            p.calcmode = ctx.pick('single', 'block', 'full')
            k, ind = subset(ctx, N)
            p.grid_indices = ind
            if ctx.flip(0.15):
                config.global_caching = ctx.pick('all', 'individual', 'overwrite', 'readonly', 'none')
            log.append(f'{config.global_caching}/{p.calcmode}/{k}/{p.precision}')
            a = transfer(f, st.env.c, r0, rm)[np.asarray(ind)]
            want = columns(h, a, f)
            got = np.array(p.psf)
            ctx.note(steer=name, log=log, N=N)
            ctx.check(got.shape == want.shape, 'shape', f'{got.shape} {want.shape}')
            tol = tolerance(ctx, st, f, h, a, rm, r0, want, p.precision)
            ctx.check(np.all(np.isfinite(got)) and np.all(np.abs(got - want) <= tol), 'stored-columns', lambda: f'{np.abs(got - want).max()} {log}')
            ctx.sig(name, config.h5library, p.calcmode, k, config.global_caching)
        # a request that cannot be served without computing is refused in this mode
        p = None  # releases a file opened for reading only
        config.global_caching = 'all'
        q = ac.PointSpreadFunction(steer=st, freq=ctx.uni(5001, 6000), calcmode='readonly', grid_indices=np.array([0]))
        try:
            q.psf
            ctx.check(False, 'readonly-computes')
        except ValueError:
            ctx.check(True, 'readonly-computes')
    finally:
        config.global_caching = 'none'
        config.h5library = 'pytables'
