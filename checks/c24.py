"""C24: steering vectors follow the four documented formulations."""
import acoular as ac
import numpy as np
import zoo
from prop import KINDS, dist, phase_tol, steering, transfer
from vf import monitor

RULE = ('a case draws array, grid, flow, frequency, reference (default, distance, zero, point), formulation and index set and compares transfer functions and '
        'steering vectors with the formulas; non-trivial = formulation x reference x environment x index form x sizes')
ASSUMPTIONS = ['phases are evaluated in single precision by the kernels: tolerance 3e-7 + 1.3e-7 k r',
               'no microphone coincides with a grid point']


def setup(ctx, kind=None, one=None):
    M = 1 if one else ctx.pick(ctx.int(2, 16), ctx.int(2, 5))
    m = zoo.mics(ctx, M, ctx.uni(0.1, 1))
    e = zoo.env(ctx, ctx.flip(0.35))
    gk = ctx.pick('rect', 'rect', 'rect3d', 'line', 'import')
    if gk == 'rect':
        g = zoo.grid(ctx)
    elif gk == 'rect3d':
        g = ac.RectGrid3D(x_min=-0.3, x_max=0.3, y_min=-0.2, y_max=0.2, z_min=0.6, z_max=1.0, increment=0.2)
    elif gk == 'line':
        g = ac.LineGrid(loc=(-0.5, 0.1, 0.7), direction=tuple(ctx.rng.uniform(0.1, 1, 3)), length=1.0, num_points=ctx.int(2, 9))
    else:
        p = ctx.rng.uniform(-1, 1, (3, ctx.int(1, 12)))
        p[2] += 2
        g = ac.ImportGrid(pos=p)
    st = ac.SteeringVector(grid=g, mics=m, env=e, steer_type=kind or ctx.pick(*KINDS))
    rk = ctx.pick('default', 'distance', 'zero', 'point', 'tuple')
    c, ma, fdv = e.c, getattr(e, 'ma', 0.0), getattr(e, 'fdv', None)
    pos = np.array(g.pos)
    mp = np.array(m.pos)
    if rk == 'distance':
        d = ctx.pick(ctx.uni(0.1, 3), 10.0**ctx.uni(-6, 3))
        st.ref = ctx.pick(d, d, -d)  # a distance: its sign does not matter
        r0 = np.full(pos.shape[1], d)
    elif rk == 'zero':
        st.ref = ctx.pick(0, 0.0)
        r0 = dist(pos, np.zeros((3, 1)), c, ma, fdv)[:, 0]
    elif rk in ('point', 'tuple'):
        p = ctx.rng.standard_normal(3)
        st.ref = p if rk == 'point' else [float(x) for x in p]
        r0 = dist(pos, p[:, None], c, ma, fdv)[:, 0]
    else:
        r0 = dist(pos, np.zeros((3, 1)), c, ma, fdv)[:, 0]
    rm = dist(pos, mp, c, ma, fdv)
    return st, rk, gk, r0, rm


def subset(ctx, n):
    k = ctx.pick('all', 'list', 'array', 'int', 'npint', 'mask', 'negative', 'repeat', 'range', 'slice-array')
    if k == 'all':
        return k, None, np.arange(n)
    i = ctx.rng.permutation(n)[: ctx.int(1, n)]
    if k == 'list':
        return k, [int(x) for x in i], i
    if k == 'array':
        return k, i, i
    if k == 'int':
        return k, int(i[0]), i[:1]
    if k == 'npint':
        return k, np.int64(i[0]), i[:1]
    if k == 'mask':
        mask = np.zeros(n, bool)
        mask[i] = True
        return k, mask, np.nonzero(mask)[0]
    if k == 'negative':
        return k, i - n, i
    if k == 'repeat':
        j = ctx.rng.integers(0, n, ctx.int(1, 2 * n))
        return k, j, j
    if k == 'range':
        return k, range(0, n, 2), np.arange(0, n, 2)
    return k, np.arange(n)[1::2] if n > 1 else np.arange(n), np.arange(n)[1::2] if n > 1 else np.arange(n)


@monitor('formulas', quick=700, thorough=20000, floor=150)
def formulas(ctx):
    one = ctx.flip(0.1)
    st, rk, gk, r0, rm = setup(ctx, one=one)
    N, M = rm.shape
    order = ctx.flip()
    if order:
        ctx.close(st.r0, r0, 'reference-distance', rtol=1e-11)
        ctx.close(st.rm, rm, 'microphone-distance', rtol=1e-11)
    for _ in range(ctx.int(1, 3)):
        f = ctx.pick(0.0, ctx.uni(1, 200), ctx.uni(200, 20000), ctx.uni(200, 5000))
        st.steer_type = kind = ctx.pick(*KINDS)
        ik, ind, idx = subset(ctx, N)
        ctx.note(kind=kind, ref=rk, grid=gk, flow=hasattr(st.env, 'ma'), f=f, index=ik, N=N, M=M)
        ctx.sig(kind, rk, gk, hasattr(st.env, 'ma'), ik, M == 1)
        a = transfer(f, st.env.c, r0, rm)[idx]
        d = phase_tol(f, st.env.c, rm, r0)
        t = st.transfer(f, ind) if ind is not None or ctx.flip() else st.transfer(f)
        ctx.check(t.shape == a.shape, 'transfer-shape', f'{t.shape} want {a.shape} index {ik}')
        ctx.check(np.all(np.isfinite(t)) and np.all(np.abs(t - a) <= d * np.abs(a)), 'transfer', lambda: f'{np.abs((t - a) / a).max()} tol {d}')
        h = st.steer_vector(f, ind)
        w = steering(kind, a)
        ctx.check(h.shape == w.shape, 'steer-shape', f'{h.shape} want {w.shape} index {ik}')
        ctx.check(np.all(np.isfinite(h)) and np.all(np.abs(h - w) <= 4 * d * np.abs(w)), f'steer@{kind}', lambda: f'{np.abs((h - w) / w).max()} tol {d}')
        ctx.event(h.size)
    ctx.close(st.r0, r0, 'reference-distance', rtol=1e-11)
    ctx.check(np.shape(st.rm) == rm.shape, 'rm-shape', f'{np.shape(st.rm)}')
    ctx.close(st.rm, rm, 'microphone-distance', rtol=1e-11)


@monitor('unit-source', quick=300, thorough=8000, floor=60)
def unit(ctx):
    """A unit source at the steered point is reproduced as the formulation promises."""
    kind = KINDS[ctx.index % 4]
    st, rk, gk, r0, rm = setup(ctx, kind)
    f = ctx.uni(50, 8000)
    ctx.note(kind=kind, ref=rk, grid=gk, f=f, M=rm.shape[1])
    ctx.sig(kind, rk, gk, rm.shape[1])
    a, h = st.transfer(f), st.steer_vector(f)
    M = rm.shape[1]
    b = np.einsum('ni,ni->n', h.conj(), a)
    n2 = (np.abs(a)**2).sum(1)
    tol = 1e-5
    if kind in ('inverse', 'true level'):
        ctx.check(np.all(np.abs(b - 1) <= tol), 'unit-level', lambda: f'{kind}: {np.abs(b - 1).max()}')
    elif kind == 'true location':
        ctx.check(np.all(np.abs(b - np.sqrt(n2 / M)) <= tol * np.sqrt(n2 / M)), 'location-value', kind)
        ctx.check(np.all(np.abs((np.abs(h)**2).sum(1) * M - 1) <= tol), 'location-norm', kind)
    else:
        ctx.check(np.all(np.abs(np.abs(h) * M - 1) <= tol), 'classic-magnitude', kind)
        ctx.check(np.all(np.abs(b.imag) <= tol * np.abs(b)), 'classic-phase', kind)
    if kind in ('true location', 'true level', 'inverse', 'classic'):
        s = ctx.int(0, len(r0) - 1)
        m = np.abs(h.conj() @ a[s])**2
        if kind == 'true location':
            ctx.check(m[s] >= m.max() * (1 - tol), 'location-maximum', f'at {int(m.argmax())} source {s}: {m.max()} {m[s]}')
        if kind == 'true level':
            g = np.abs(np.einsum('ni,i->n', h.conj(), a[s]))
            ctx.check(np.all(g <= np.sqrt((np.abs(h)**2).sum(1) * n2[s]) * (1 + tol)), 'cauchy-schwarz')
    # the reference only scales the source strength
    st2 = ac.SteeringVector(grid=st.grid, mics=st.mics, env=st.env, steer_type=kind, ref=2.5)
    a2, h2 = st2.transfer(f), st2.steer_vector(f)
    ctx.check(np.all(np.abs(np.abs(a2) / np.abs(a) - (2.5 / r0)[:, None]) <= tol * 2.5 / r0[:, None]), 'reference-scales-transfer')
    e = {'classic': 0, 'true location': 0, 'inverse': -1, 'true level': -1}[kind]
    ctx.check(np.all(np.abs(np.abs(h2) - np.abs(h) * ((2.5 / r0)**e)[:, None]) <= tol * np.abs(h) * ((2.5 / r0)**e)[:, None]), 'reference-scales-steering', kind)


@monitor('changes', quick=200, thorough=5000, floor=40)
def changes(ctx):
    """Steering follows every change of array, grid, flow, reference and formulation."""
    st, rk, gk, r0, rm = setup(ctx)
    zero = ctx.rng.uniform(-1, 1, (3, 1)) * 0
    done = []
    for _ in range(ctx.int(2, 6)):
        k = ctx.pick('invalid', 'mics', 'grid', 'env', 'c', 'ref', 'type', 'points')
        done.append(k)
        if k == 'invalid':
            n = st.mics.pos_total.shape[1]
            st.mics.invalid_channels = [int(x) for x in ctx.rng.permutation(n)[: ctx.int(0, n - 1)]]
        elif k == 'mics':
            st.mics = zoo.mics(ctx, ctx.int(1, 7))
        elif k == 'grid':
            st.grid = zoo.grid(ctx)
        elif k == 'points' and isinstance(st.grid, ac.RectGrid) and not isinstance(st.grid, ac.RectGrid3D):
            st.grid.z = ctx.uni(0.4, 2)
        elif k == 'env':
            st.env = zoo.env(ctx, ctx.flip())
        elif k == 'c':
            st.env.c = ctx.uni(300, 400)
        elif k == 'ref':
            st.ref = ctx.pick(0, 1.5, ctx.uni(0.2, 2), 10.0**ctx.uni(-6, 3), ctx.rng.standard_normal(3))
        else:
            st.steer_type = ctx.pick(*KINDS)
        e = st.env
        kw = (e.c, getattr(e, 'ma', 0.0), getattr(e, 'fdv', None))
        pos, mp = np.array(st.grid.pos), np.array(st.mics.pos_total)
        mp = mp[:, [i for i in range(mp.shape[1]) if i not in st.mics.invalid_channels]]
        ref = st.ref
        if np.ndim(ref) == 0:
            r0 = np.full(pos.shape[1], float(ref)) if ref > 0 else dist(pos, zero, *kw)[:, 0]
        else:
            r0 = dist(pos, np.reshape(ref, (3, 1)), *kw)[:, 0]
        rm = dist(pos, mp, *kw)
        f = ctx.uni(100, 6000)
        a = transfer(f, e.c, r0, rm)
        d = phase_tol(f, e.c, rm, r0)
        if ctx.flip(0.7):
            t = st.transfer(f)
            ctx.check(t.shape == a.shape and np.all(np.abs(t - a) <= d * np.abs(a)), 'transfer-after-change', f'{done} {t.shape} {a.shape}')
        if ctx.flip(0.7):
            h, w = st.steer_vector(f), steering(st.steer_type, a)
            ctx.check(h.shape == w.shape and np.all(np.abs(h - w) <= 4 * d * np.abs(w)), 'steer-after-change', f'{done} {h.shape} {w.shape}')
    ctx.note(steps=done)
    ctx.sig('-'.join(done[:3]))
