"""C30: ray tracing through flow fields gives correct travel times."""
import acoular as ac
import numpy as np
import prop as P
from acoular.environments import spiral_sphere
from scipy.integrate import solve_ivp
from scipy.optimize import least_squares
from traits.api import CArray, Property
from vf import Skip, monitor

RULE = ('a case draws a flow field, receiver, region and point set and compares distances with the closed form (rest, uniform flow, rigid rotation) or with rays shot from receiver to point by direct '
        'integration, compares fresh, reused and subset queries, and velocities with their definition and derivatives with finite differences; non-trivial = field x region x query kind')
ASSUMPTIONS = ['flow below half the speed of sound', 'interpolation between rays overestimates by at most 0.65 R Om/N (observed up to 0.42)', 'points behind focusing (ray tubes outside 0.6 to 1.7 of free widening, several rays) are left out', 'sheared flows: the ray equation as implemented (finding) and the true one are both evaluated']


class Uniform(ac.FlowField):
    vv = CArray(dtype=float, shape=(3,))
    digest = Property(depends_on=['vv'])

    def _get_digest(self):
        return 'u' + '_'.join(f'{x!r}' for x in self.vv)

    def v(self, xx):
        return np.array(self.vv), np.zeros((3, 3))


def region(ctx, far=True):
    """Compact region and receivers at a distance."""
    c = ctx.rng.uniform(-0.3, 0.3, 3)
    k = ctx.pick('plane', 'cloud', 'box')
    if k == 'plane':
        g = ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.2, y_max=0.2, z=0, increment=ctx.pick(0.1, 0.2)).pos
    elif k == 'box':
        g = ac.RectGrid3D(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z_min=-0.1, z_max=0.1, increment=0.1).pos
    else:
        g = ctx.rng.uniform(-0.2, 0.2, (3, ctx.int(5, 12)))
    d = ctx.rng.standard_normal(3)
    d /= np.linalg.norm(d)
    m = c + d * ctx.uni(0.7, 1.2)
    return k, g + c[:, None], m


def distances(env, g, m):
    """(N,) distances, receiver m; the region of interest is larger than the point set, so that the points are not at the rim of the ray bundle."""
    a = g.mean(1)[:, None]
    env.roi = np.c_[a + 1.7 * (g - a), a + 0.3 * np.c_[np.eye(3), -np.eye(3)]]
    return np.asarray(env._r(g, m[:, None])).reshape(-1)


def env_of(ctx, ff, c, N=None):
    return ac.GeneralFlowEnvironment(ff=ff, c=c, N=N or ctx.pick(200, 300, 400), Om=ctx.pick(np.pi, np.pi, 2 * np.pi))


def excess(env, got, want):
    """Deviation in units of the interpolation error scale R Om/N.  Travel times are convex, interpolation between rays can only overestimate them (observed: 0 to 0.42)."""
    return (np.asarray(got) - want) / (np.max(want) * env.Om / env.N)


LOW, HIGH = -0.06, 0.65


def fits(env, got, want):
    e = excess(env, got, want)
    return np.isfinite(e).all() and e.min() >= LOW and e.max() <= HIGH


# ------------------------------------------------------------- closed forms
@monitor('uniform', quick=20, thorough=150, floor=10)
def uniform(ctx):
    k, g, m = region(ctx)
    c = ctx.uni(320, 360)
    ma = ctx.pick(0.0, ctx.uni(0, 0.45))
    d = ctx.rng.standard_normal(3)
    d /= np.linalg.norm(d)
    env = env_of(ctx, Uniform(vv=c * ma * d), c)
    want = P.dist(g, m[:, None], c, ma, d).ravel()
    got = distances(env, g, m)
    ctx.sig('uniform', k, ma > 0, env.N, round(env.Om, 1))
    ctx.event(len(got))
    ctx.check(fits(env, got, want), 'uniform-flow', lambda: f'deviations {excess(env, got, want)} (units of R Om/N), allowed {LOW} to {HIGH}')
    ref = ac.UniformFlowEnvironment(ma=ma, fdv=tuple(d), c=c)._r(g, m[:, None])
    ctx.check(fits(env, got, ref), 'uniform-flow-environment', 'deviates from the uniform flow environment')


def rotated(rps, v0, c, org, g, m):
    """Travel time of sound from g to m in rigid rotation about the z axis through org with axial velocity v0 (closed form, root by bisection)."""
    out = []
    a = m - org
    for p in g.T - org:
        def F(t):
            w = 2 * np.pi * rps * t
            R = np.array([[np.cos(w), -np.sin(w), 0], [np.sin(w), np.cos(w), 0], [0, 0, 1]])
            return np.linalg.norm(R @ p + [0, 0, v0 * t] - a) - c * t
        lo, hi = 0.0, 10 * np.linalg.norm(p - a) / c + 1e-6
        for _ in range(80):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if F(mid) > 0 else (lo, mid)
        out.append(lo)
    return np.array(out)


@monitor('rotating', quick=16, thorough=120, floor=8)
def rotating(ctx):
    k, g, m = region(ctx)
    c = ctx.uni(320, 360)
    org = ctx.rng.uniform(-0.2, 0.2, 3)
    rps = ctx.uni(-12, 12)
    v0 = ctx.uni(-60, 60)
    ff = ac.RotatingFlow(rps=rps, v0=v0, origin=org)
    if ctx.flip(0.3):
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ff = ac.RotatingFlow(rpm=-60 * rps, v0=v0, origin=org)
    env = env_of(ctx, ff, c)
    t = rotated(rps, v0, c, org, g, m)
    got = distances(env, g, m)
    ctx.sig('rotating', k, env.N, round(env.Om, 1))
    ctx.event(len(got))
    ctx.check(fits(env, got, c * t), 'rigid-rotation', lambda: f'deviations {excess(env, got, c * t)} (units of R Om/N), allowed {LOW} to {HIGH}')


# ------------------------------------------------------------- jets
def shoot(ff, c, x0, target, law, start=(0.0, 0.0)):
    def f(t, y):
        v, J = ff(y[:3])
        s = y[3:]
        return np.r_[c * s / np.linalg.norm(s) - v, law(s, J)]

    def hit(p):
        n = np.array([np.sin(p[0]) * np.cos(p[1]), np.sin(p[0]) * np.sin(p[1]), np.cos(p[0])])
        n = B @ n
        r = solve_ivp(f, (0, p[2]), np.r_[x0, n], rtol=1e-6, atol=1e-8, max_step=abs(p[2]) / 15 + 1e-9)
        return r.y[:3, -1] - target

    d = target - x0
    R = np.linalg.norm(d)
    e3 = d / R
    # local basis in which the direct direction is (1, 0, 0): no pole problems
    q = np.linalg.qr(np.c_[e3, np.eye(3)[np.argsort(np.abs(e3))[:2]].T])[0]
    B = q * (1 if q[:, 0] @ e3 > 0 else -1)
    s = least_squares(hit, [np.pi / 2 + start[0], start[1], R / c], x_scale=[1, 1, 1e-3], xtol=1e-10, ftol=1e-12)
    spread = np.linalg.svd(s.jac[:, :2], compute_uv=False) / R  # widening of the ray tube relative to free propagation
    return s.x[2], np.abs(s.fun).max(), 0.6 < spread.min() and spread.max() < 1.7


def single(ff, c, x0, target, law):
    """Only one ray leads to the target (several initial directions end in the same one)."""
    t = [shoot(ff, c, x0, target, law, (a, b))[:2] for a in (-0.3, 0, 0.3) for b in (-0.3, 0, 0.3)]
    t = [x[0] for x in t if x[1] < 1e-5]
    return len(t) and max(t) - min(t) < 1e-5 * max(t)


def jet(ctx, c):
    """Jet and an independent velocity function with analytic Jacobian by complex-step-free central differences."""
    v0 = ctx.uni(20, 90)
    org = np.array([ctx.uni(-1.2, -0.5), ctx.uni(-0.2, 0.2), ctx.uni(-0.2, 0.2)])
    w = ctx.uni(0.2, 0.5)
    if ctx.flip():
        ff = ac.OpenJet(v0=v0, origin=org, D=w)
        kind = 'open'
    else:
        ff = ac.SlotJet(v0=v0, origin=org, B=w, flow=ctx.pick((1.0, 0, 0), (1.0, 0.1, 0.0)), plane=ctx.pick((0, 0, 1.0), (0, 0, -2.0)))
        kind = 'slot'
    return kind, ff, (lambda x: velocity(ff, x))


def axis_distance(ff, x):
    d = np.asarray(x, float) - ff.origin
    if isinstance(ff, ac.OpenJet):
        return np.hypot(d[1], d[2])
    return abs(d @ np.cross(ff.flow / np.linalg.norm(ff.flow), ff.plane / np.linalg.norm(ff.plane)))


def velocity(ff, x):
    """Velocity and Jacobian from the definition of the jets (Albertson 1950)."""
    d = np.asarray(x, float) - ff.origin
    if isinstance(ff, ac.OpenJet):
        e = np.array([1.0, 0, 0])
        C, off, half = 0.5022 / ff.l, 1.0, 0.5 * ff.D
        s = d - (d @ e) * e
        r = np.linalg.norm(s)
    else:
        e = ff.flow / np.linalg.norm(ff.flow)
        n = np.cross(e, ff.plane / np.linalg.norm(ff.plane))
        C, off, half = 0.5668 / ff.l, np.sqrt(np.pi) / 2, 0.5 * ff.B
        s = (d @ n) * n
        r = abs(d @ n)
    x1 = C * (d @ e)
    h = r + off * x1 - half
    if h < 0:
        return ff.v0 * e, np.zeros((3, 3))
    if x1 == 0:
        return 0 * e, np.zeros((3, 3))
    z = h / x1
    U = ff.v0 * np.exp(-z * z / 2)
    rad = s / r if r > 0 else 0 * s
    grad = -z * U * ((rad + off * C * e) / x1 - z / x1 * C * e)
    return U * e, np.outer(e, grad)


@monitor('jets', quick=12, thorough=80, floor=6, timeout=300)
def jets(ctx):
    c = ctx.uni(330, 350)
    kind, ff, vel = jet(ctx, c)
    k, g, m = region(ctx)
    # receiver outside of the core, region downstream of the nozzle, partly in the jet
    g = g + np.array([[0.1], [0], [0]])
    m = np.array([ctx.uni(-0.3, 0.5), *(ctx.pick(-1, 1) * ctx.rng.uniform(0.5, 0.8, 2))])
    if g[0].min() < ff.origin[0] + 0.1 or m[0] < ff.origin[0] + 0.1:
        raise Skip('upstream')
    env = env_of(ctx, ff, c, ctx.pick(400, 600))
    got = distances(env, g, m)
    sel = ctx.rng.permutation(g.shape[1])[:2]
    ctx.sig(kind, k, env.N)
    for i in sel:
        R = np.linalg.norm(g[:, i] - m)
        ta, ra, ua = shoot(vel, c, m, g[:, i], lambda s, J: -J @ s)   # as it is
        tt, rt, ut = shoot(vel, c, m, g[:, i], lambda s, J: J.T @ s)  # time-reversed ray equation
        ctx.event()
        if ra < 1e-6 and rt < 1e-6 and ua and ut:
            ok = fits(env, got[i], c * tt)
            if not ok and not fits(env, got[i], c * ta) and not (single(vel, c, m, g[:, i], lambda s, J: -J @ s) and single(vel, c, m, g[:, i], lambda s, J: J.T @ s)):
                continue  # several rays reach the point: the interpolated travel time is not defined
            ctx.check(ok or fits(env, got[i], c * ta), 'jet-travel-time', lambda: f'{kind}: distance {got[i]:.6g}, sound ray {c * tt:.6g}, ray of the implemented equation {c * ta:.6g}, straight {R:.6g}; deviations {excess(env, got[i], c * tt):.3g}, {excess(env, got[i], c * ta):.3g}')
            ctx.soft(ok, 'ray-equation@velocity-gradient', lambda: f'{kind}: distance {got[i]:.6g} follows the wrongly bent ray {c * ta:.6g} instead of the sound ray {c * tt:.6g}')


# ------------------------------------------------------------- velocities
@monitor('velocity', quick=80, thorough=800, floor=50)
def velocities(ctx):
    k = ctx.pick('open', 'slot', 'rotating')
    if k == 'rotating':
        org, rps, v0 = ctx.rng.uniform(-1, 1, 3), ctx.uni(-40, 40), ctx.uni(-90, 90)
        ff = ac.RotatingFlow(rps=rps, v0=v0, origin=org)

        def want(x):
            w = np.array([0, 0, 2 * np.pi * rps])
            return np.cross(w, x - org) + [0, 0, v0]
    else:
        while True:
            kind, ff, vel = jet(ctx, 343.0)
            if kind == k:
                break
        ff.l = ctx.pick(ff.l, ctx.uni(3, 9))
        if k == 'slot' and ctx.flip():
            f = ctx.rng.standard_normal(3)
            p = np.cross(f, ctx.rng.standard_normal(3))
            ff.flow, ff.plane = f, p
        want = lambda x: velocity(ff, x)[0]
    for _ in range(12):
        x = ctx.rng.uniform(-1, 1, 3)
        if k != 'rotating':
            e = np.array([1.0, 0, 0]) if k == 'open' else ff.flow / np.linalg.norm(ff.flow)
            x = ff.origin + e * ctx.pick(ctx.uni(0.3, 2), ctx.uni(0.01, 5), -ctx.uni(0.3, 2)) + ctx.rng.standard_normal(3) * ctx.pick(0.0, 0.02, 0.15, 0.15)
        v, J = ff.v(x.copy())
        w = want(x)
        ctx.event()
        sc = 1e-9 * (np.abs(w).max() + 1)
        ctx.close(v, w, f'velocity-{k}', rtol=0, atol=sc)
        h = 1e-5
        D = np.array([(want(x + h * e) - want(x - h * e)) / (2 * h) for e in np.eye(3)]).T
        D2 = np.array([(want(x + h / 2 * e) - want(x - h / 2 * e)) / h for e in np.eye(3)]).T
        err = np.abs(D - D2).max()
        if k != 'rotating' and axis_distance(ff, x) < 1e-4:
            continue  # the profile has a kink on the axis once the core has ended
        if k != 'rotating':
            ctx.close(J, velocity(ff, x)[1], f'jacobian-formula-{k}', rtol=0, atol=1e-8 * (np.abs(D).max() + 1))
        if err <= 1e-4 * (np.abs(D).max() + 1):
            ctx.sig(k, 'core' if np.abs(D).max() == 0 else 'shear')
            ctx.close(J, D, f'jacobian-{k}', rtol=0, atol=1e-3 * (np.abs(D).max() + 1))
    # exit plane
    if k != 'rotating':
        e = np.array([1.0, 0, 0]) if k == 'open' else ff.flow / np.linalg.norm(ff.flow)
        n = np.array([0, 0.6, 0.8]) if k == 'open' else np.cross(e, ff.plane / np.linalg.norm(ff.plane))
        if k == 'open' or np.count_nonzero(np.abs(e) > 1e-12) == 1:
            half = 0.5 * (ff.D if k == 'open' else ff.B)
            for r in (0.0, 0.5 * half, 1.5 * half, 3 * half):
                v, J = ff.v(ff.origin + r * n)
                ctx.close(v, (ff.v0 if r < half else 0) * e, 'exit-plane', rtol=0, atol=1e-9 * (1 + ff.v0))
                ctx.check(np.isfinite(J).all(), 'exit-plane-derivative', lambda: f'{J}')


# ------------------------------------------------------------- independence of use
@monitor('history', quick=14, thorough=100, floor=8, timeout=300)
def history(ctx):
    c = ctx.uni(330, 350)
    k, g, m = region(ctx)
    ms = m[:, None] + ctx.rng.uniform(-0.2, 0.2, (3, ctx.int(1, 3)))
    mk = lambda: Uniform(vv=ctx_v)
    ctx_v = ctx.rng.uniform(-60, 60, 3)
    env = ac.GeneralFlowEnvironment(ff=mk(), c=c, N=200)
    env.roi = g

    def fresh(gg, mm):
        e = ac.GeneralFlowEnvironment(ff=mk(), c=env.c, N=env.N, Om=env.Om)
        e.roi = None if env.roi is None else np.array(env.roi)
        return e._r(gg, mm)

    def same(got, gg, mm, what):
        w = fresh(gg, mm)
        ctx.event(w.size)
        ctx.equal(np.asarray(got).shape, np.asarray(w).shape, 'shape')
        ctx.close(got, w, 'history', rtol=1e-12, what=what) if 'what' in ctx.close.__code__.co_varnames else ctx.close(got, w, 'history', rtol=1e-12)

    full = env._r(g, ms)
    same(full, g, ms, 'first')
    full2 = full.reshape(g.shape[1], -1)
    # each point on its own and each receiver on its own
    i = ctx.rng.permutation(g.shape[1])[:max(1, g.shape[1] // 3)]
    ctx.close(np.asarray(env._r(np.ascontiguousarray(g[:, i]), ms)).reshape(len(i), -1), full2[i], 'unrelated-points', rtol=1e-12)
    for j in range(ms.shape[1]):
        ctx.close(np.asarray(env._r(g, np.ascontiguousarray(ms[:, j:j + 1]))), full2[:, j], 'unrelated-receivers', rtol=1e-12)
    one = env._r(np.ascontiguousarray(g[:, :1]), ms)
    ctx.close(np.asarray(one).ravel(), full2[0], 'single-point', rtol=1e-12)
    step = ctx.pick('flow', 'field', 'c', 'N', 'roi', 'noroi')
    ctx.sig('history', k, step, ms.shape[1])
    if step == 'flow':
        ctx_v = ctx.rng.uniform(-60, 60, 3)
        env.ff.vv = ctx_v
    elif step == 'field':
        ctx_v = ctx.rng.uniform(-60, 60, 3)
        env.ff = mk()
    elif step == 'c':
        env.c = c * 1.07
    elif step == 'N':
        env.N = 260
    elif step == 'roi':
        env.roi = np.c_[g, g.mean(1)[:, None] + 0.05]
    else:
        env.roi = None
    same(env._r(g, ms), g, ms, step)
    # a different region through the same object (no region of interest: the points themselves)
    if step == 'noroi':
        g2 = g + np.array([[0.3], [0.2], [-0.1]])
        same(env._r(g2, ms), g2, ms, 'moved points')
        same(env._r(g, ms), g, ms, 'first points again')
    # input unchanged
    a, b = g.copy(), ms.copy()
    env._r(g, ms)
    ctx.equal(g, a, 'inputs')
    ctx.equal(ms, b, 'inputs')


@monitor('directions', quick=40, thorough=300, floor=30)
def directions(ctx):
    """Ray directions are unit vectors that cover the cap of the given solid angle around the given direction."""
    N = ctx.int(20, 500)
    Om = ctx.pick(np.pi, 2 * np.pi, 0.5, 4 * np.pi * 0.9, None)
    b = ctx.rng.standard_normal(3) * ctx.pick(1, 0.01, 100)
    if ctx.flip(0.2):
        b = np.eye(3)[ctx.int(0, 2)] * ctx.pick(1, -1)
    d = spiral_sphere(N, Om, b=b)
    o = 2 * np.pi if Om is None else Om
    u = b / np.linalg.norm(b)
    ctx.sig('cap', o, N > 100)
    ctx.equal(d.shape, (3, N), 'rays-shape')
    ctx.close(np.linalg.norm(d, axis=0), np.ones(N), 'unit-rays', rtol=1e-9)
    z = u @ d
    lim = 1 - o / (2 * np.pi)
    ctx.check(z.min() >= lim - 4 * o / (2 * np.pi) / N - 1e-9, 'rays-in-cap', lambda: f'cosine {z.min()} below {lim}')
    ctx.check(z.max() > 1 - 1e-9, 'central-ray', lambda: f'{z.max()}')
    # uniform density: fraction within inner cap of half the height
    f = (z > (1 + lim) / 2).mean()
    ctx.check(abs(f - 0.5) < 3 / N + 0.02, 'rays-uniform', lambda: f'{f} of the rays in the inner half of the solid angle')
    # evenly spread around the axis
    p = d - u[:, None] * z
    ctx.check(np.linalg.norm(p.mean(1)) < 3 / np.sqrt(N) * np.abs(p).max(), 'rays-around', lambda: f'{p.mean(1)}')
    ctx.event(N)
