"""C29: propagation distances and apparent positions are physical."""
import acoular as ac
import numpy as np
import zoo
from prop import dist
from vf import monitor

RULE = ('a case draws point sets (random, collinear, coincident, far away, single points, unset microphones), flow vector and speed of sound and compares all distances '
        'with the closed form and with the moving-wavefront equation itself; non-trivial = environment x set kind x Mach class x sizes')
ASSUMPTIONS = ['subsonic flow; single precision inputs give single precision distances']


def points(ctx, n, kind):
    if kind == 'random':
        return ctx.rng.uniform(-2, 2, (3, n))
    if kind == 'axis':
        p = np.zeros((3, n))
        p[ctx.int(0, 2)] = ctx.rng.uniform(-3, 3, n)
        return p
    if kind == 'far':
        return ctx.rng.uniform(-1, 1, (3, n)) * 1e5
    if kind == 'tiny':
        return ctx.rng.uniform(-1, 1, (3, n)) * 1e-6
    if kind == 'lattice':
        return ctx.rng.integers(-2, 3, (3, n)).astype(float)
    return ctx.rng.uniform(-2, 2, (3, n))[:, ::-1]  # not contiguous


KINDS = ('random', 'random', 'axis', 'far', 'tiny', 'lattice', 'strided')


def shape(r):
    return r[:, 0] if r.shape[1] == 1 else r


@monitor('rest', quick=300, thorough=10000, floor=60)
def rest(ctx):
    N, M = ctx.pick(1, ctx.int(1, 60)), ctx.pick(1, ctx.int(1, 40))
    kg, km = ctx.pick(*KINDS), ctx.pick(*KINDS)
    g, m = points(ctx, N, kg), points(ctx, M, km)
    dt = ctx.pick(float, float, np.float32)
    env = ac.Environment(c=ctx.uni(100, 1500))
    mode = ctx.pick('mics', 'mics', 'unset')
    g = g.astype(dt) if dt is np.float32 else g
    m = m.astype(dt) if dt is np.float32 else m
    ctx.note(N=N, M=M, kg=kg, km=km, dt=str(dt), mode=mode)
    ctx.sig(kg, km, N == 1, M == 1, mode, dt is float)
    gc, mc = g.copy(), m.copy()
    got = env._r(g, m) if mode == 'mics' else env._r(g)
    want = shape(dist(g.astype(float), m.astype(float))) if mode == 'mics' else np.sqrt((g.astype(float)**2).sum(0))
    sc = np.abs(g).max() + np.abs(m).max()
    ctx.check(got.shape == want.shape, 'shape', f'{got.shape} {want.shape}')
    ctx.check(np.all(np.abs(got - want) <= (1e-14 if dt is float else 1e-6) * (want if mode == 'unset' else sc + want) + 0), 'euclid', lambda: str(np.abs(got - want).max()))
    ctx.equal(g, gc, 'input-changed')
    ctx.equal(m, mc, 'input-changed')
    ctx.event(N * M)


@monitor('uniform', quick=500, thorough=15000, floor=150)
def uniform(ctx):
    N, M = ctx.pick(1, ctx.int(1, 40)), ctx.pick(1, ctx.int(1, 30))
    kg, km = ctx.pick(*KINDS), ctx.pick(*KINDS)
    g, m = points(ctx, N, kg), points(ctx, M, km)
    ma = ctx.pick(0.0, ctx.uni(0, 0.95), ctx.uni(0, 0.3), 0.5)
    f = ctx.pick(np.eye(3)[ctx.int(0, 2)], -np.eye(3)[ctx.int(0, 2)], ctx.rng.standard_normal(3), 7.0 * ctx.rng.standard_normal(3))
    c = ctx.uni(100, 1500)
    env = ac.UniformFlowEnvironment(ma=ma, fdv=f, c=c)
    mode = ctx.pick('mics', 'mics', 'mics', 'unset', 'negative')
    o = np.zeros((3, 1))
    got = env._r(g, m) if mode != 'unset' else env._r(g)
    if mode == 'unset':
        m = o
    if mode == 'negative':  # opposite direction is the negative Mach number
        env.ma, env.fdv = -ma, -f
        got = env._r(g, m)
    want = shape(dist(g, m, c, ma, f)) if mode != 'unset' else dist(g, o, c, ma, f)[:, 0]
    sc = np.abs(g).max() + np.abs(m).max()
    ctx.note(N=N, M=M, kg=kg, km=km, ma=ma, f=f.tolist(), mode=mode)
    ctx.sig(kg, km, N == 1, M == 1, round(ma, 1), mode)
    ctx.check(got.shape == want.shape, 'shape', f'{got.shape} {want.shape}')
    ctx.check(np.isfinite(got).all(), 'uniform-finite')
    ctx.check(np.all(np.abs(got - want) <= 1e-11 * want + 1e-13 * sc), 'uniform', lambda: str(np.abs(got - want).max()))
    # the wavefront carried by the flow has reached the microphone at that time
    if got.ndim == 2:
        fu = f / np.linalg.norm(f)
        d = m[:, None, :] - g[:, :, None] - ma * fu[:, None, None] * got
        ctx.check(np.all(np.abs(np.sqrt((d * d).sum(0)) - got) <= 1e-9 * got + 1e-10 * sc), 'wavefront')
        e = dist(g, m)
        down = np.einsum('inm,i->nm', m[:, None, :] - g[:, :, None], fu)
        if ma > 0.01:
            big = e > 1e-6 * sc
            ctx.check(np.all(got[(down > 0.99 * e) & big] < e[(down > 0.99 * e) & big]), 'downstream')
            ctx.check(np.all(got[(down < -1e-9 * e) & big] > e[(down < -1e-9 * e) & big]), 'upstream')
        # reciprocity: reversing flow and path
        rev = ac.UniformFlowEnvironment(ma=ma, fdv=-f, c=c)._r(m, g)
        ctx.check(np.all(np.abs(np.reshape(rev, (M, N)).T - got) <= 1e-11 * got + 1e-13 * sc), 'reciprocity')
    ctx.event(N * M)


@monitor('changes', quick=100, thorough=2000, floor=40)
def changes(ctx):
    """Any order of changes of flow, direction and speed of sound counts from the next call on."""
    env = ac.UniformFlowEnvironment()
    g, m = points(ctx, 5, 'random'), points(ctx, 4, 'random')
    c, ma, f = 343.0, 0.0, np.array([1.0, 0, 0])
    steps = []
    for _ in range(ctx.int(2, 6)):
        k = ctx.pick('ma', 'fdv', 'c', 'g')
        if k == 'ma':
            env.ma = ma = ctx.uni(0, 0.8)
        elif k == 'fdv':
            env.fdv = f = ctx.rng.standard_normal(3)
        elif k == 'c':
            env.c = c = ctx.uni(200, 500)
        else:
            g = points(ctx, ctx.int(2, 6), 'random')
        steps.append(k)
        ctx.close(env._r(g, m), dist(g, m, c, ma, f), 'changed-flow', rtol=1e-11)
    ctx.sig('-'.join(steps[:4]))
    ctx.note(steps=steps)


@monitor('users', quick=120, thorough=3000, floor=40)
def users(ctx):
    """Steering vectors and apparent positions use these distances."""
    env = zoo.env(ctx, ctx.flip())
    g, mic = zoo.grid(ctx), zoo.mics(ctx, ctx.int(2, 6))
    st = ac.SteeringVector(grid=g, mics=mic, env=env)
    kw = (env.c, getattr(env, 'ma', 0.0), getattr(env, 'fdv', None))
    ctx.sig(hasattr(env, 'ma'), g.size, mic.num_mics)
    ctx.note(ma=getattr(env, 'ma', 0.0), size=g.size)
    ctx.close(st.rm, dist(g.pos, mic.pos, *kw), 'steering-distances', rtol=1e-11)
    ctx.close(st.r0, dist(g.pos, np.zeros((3, 1)), *kw)[:, 0], 'reference-distances', rtol=1e-11)
    p = ctx.rng.standard_normal(3)
    st.ref = p
    ctx.close(st.r0, dist(g.pos, p[:, None], *kw)[:, 0], 'reference-point', rtol=1e-11)
    env.c = env.c * 1.1
    if hasattr(env, 'ma'):
        env.ma = 0.5 * env.ma
    kw = (env.c, getattr(env, 'ma', 0.0), getattr(env, 'fdv', None))
    ctx.close(st.rm, dist(g.pos, mic.pos, *kw), 'steering-distances-renewed', rtol=1e-11)
