"""C34: trajectories interpolate their points smoothly and repeatably."""
import acoular as ac
import numpy as np
from vf import Skip, monitor

RULE = ('a case draws 2 to 30 times (irregular, negative, large offset) with positions (random, on a polynomial, constant in some coordinates, returning), reads positions and derivatives at many times, '
        'iterates the trajectory and edits points in place; non-trivial = number of points class x kind x operation')
ASSUMPTIONS = ['at least two points with different times; derivative orders up to the order of the interpolation']


def times(ctx, n):
    k = ctx.pick('even', 'uneven', 'uneven', 'offset')
    t = np.arange(n) * ctx.pick(1., .1, .037) if k == 'even' else np.cumsum(ctx.rng.uniform(.2, 1, n)) * ctx.pick(1., .01)
    return t + ctx.pick(0., ctx.uni(-3, 3)) + (100. if k == 'offset' else 0), k


def points(ctx, t):
    n = len(t)
    k = ctx.pick('random', 'random', 'line', 'constant', 'circle', 'back')
    s = (t - t[0]) / (t[-1] - t[0])
    if k == 'random':
        p = ctx.rng.uniform(-3, 3, (n, 3))
    elif k == 'line':
        p = s[:, None] * ctx.rng.uniform(-3, 3, 3) + ctx.rng.uniform(-3, 3, 3)
    elif k == 'constant':
        p = np.repeat(ctx.rng.uniform(-3, 3, (1, 3)), n, 0)
        p[:, ctx.int(0, 2)] = ctx.rng.uniform(-1, 1, n)
    elif k == 'circle':
        p = np.array([np.cos(2 * np.pi * s), np.sin(2 * np.pi * s), 0 * s]).T
    else:
        p = np.array([np.minimum(s, 1 - s), s * 0 + 1, s]).T * ctx.uni(.5, 3)
    return p, k


def make(t, p):
    return ac.Trajectory(points={float(a): tuple(map(float, b)) for a, b in zip(t, p)})


def size(n):
    return min(n, 5)


def through(ctx, tr, t, p):
    i = ctx.rng.permutation(len(t))
    got = np.array(tr.location(t[i]))
    ctx.check(got.shape == (3, len(t)), 'shape', str(got.shape))
    sc = 1 + np.abs(p).max()
    ctx.check(np.all(np.abs(got - p[i].T) <= 1e-9 * sc), 'through-points', lambda: str(np.abs(got - p[i].T).max()))
    ctx.equal(np.array(tr.interval), np.array([t.min(), t.max()]), 'interval')
    j = ctx.int(0, len(t) - 1)
    ctx.check(np.all(np.abs(np.array(tr.location(float(t[j]))) - p[j]) <= 1e-9 * sc), 'single-time')
    ctx.event(len(t))


@monitor('points', quick=500, thorough=15000, floor=150)
def at_points(ctx):
    n = ctx.pick(2, 3, 4, 5, ctx.int(2, 30))
    t, kt = times(ctx, n)
    p, kp = points(ctx, t)
    order = ctx.rng.permutation(n)  # points may be given in any order
    tr = make(t[order], p[order])
    ctx.note(n=n, kt=kt, kp=kp)
    ctx.sig(size(n), kt, kp)
    through(ctx, tr, t, p)
    x = ctx.rng.uniform(t[0], t[-1], 20)
    a = np.array(tr.location(x))
    ctx.equal(np.array(make(t, p).location(x)), a, 'order-of-points')
    ctx.equal(np.array(tr.location(x)), a, 'repeat')
    ctx.equal(np.array([tr.location(v) for v in x]).T, a, 'one-by-one')
    ctx.equal(np.array(tr.location(x.tolist())), a, 'list')


@monitor('derivatives', quick=400, thorough=12000, floor=120)
def derivatives(ctx):
    """polynomial pieces: Taylor expansions from neighbouring places agree, up to the points"""
    n = ctx.pick(2, 3, 4, 5, ctx.int(2, 20))
    t, kt = times(ctx, n)
    p, kp = points(ctx, t)
    tr = make(t, p)
    k = min(3, n - 1)
    ctx.sig(size(n), kt, kp)
    dt = np.diff(t)
    i = ctx.rng.integers(0, n - 1, 12)
    h = dt[i] * ctx.rng.uniform(.2, .8, 12)
    a = t[i] + dt[i] * .1
    b = a + h
    D = [np.array(tr.location(a, der=d)) for d in range(k + 1)]
    sc = sum(np.abs(D[d]).max() * h.max()**d for d in range(k + 1)) + 1
    for d in range(k + 1):
        want = sum(D[e] * h**(e - d) / np.prod(np.arange(1, e - d + 1)) for e in range(d, k + 1))
        got = np.array(tr.location(b, der=d))
        tol = 1e-7 * sc / h.min()**d
        ctx.check(np.all(np.abs(got - want) <= tol), f'derivative-{d}', lambda: f'{np.abs(got - want).max()} {tol}')
    # smooth at the inner points
    if n > 2:
        e = dt.min() * 1e-7
        for d in range(k):
            l, r = np.array(tr.location(t[1:-1] - e, der=d)), np.array(tr.location(t[1:-1] + e, der=d))
            j = np.abs(np.array(tr.location(t, der=d + 1))).max() if d + 1 <= k else 0
            ctx.check(np.all(np.abs(l - r) <= 1e-4 * (np.abs(l).max() + j * dt.min() + 1e-6 / dt.min()**d)), f'jump-{d}', lambda: str(np.abs(l - r).max()))
    ctx.event(12 * (k + 1))


@monitor('polynomials', quick=300, thorough=8000, floor=80)
def polynomials(ctx):
    """the order follows the number of points: polynomials of that order are reproduced everywhere"""
    n = ctx.pick(2, 3, 4, 5, ctx.int(4, 15))
    t, kt = times(ctx, n)
    k = min(3, n - 1)
    c = ctx.rng.uniform(-2, 2, (k + 1, 3))
    L = t[-1] - t[0]

    def f(x, d=0):
        s = (np.asarray(x) - t[0]) / L
        q = c
        for _ in range(d):
            q = q[1:] * np.arange(1, len(q))[:, None] / L
        return sum(q[e] * s[:, None]**e for e in range(len(q))) if len(q) else np.zeros((len(s), 3))

    tr = make(t, f(t))
    x = np.r_[ctx.rng.uniform(t[0], t[-1], 15), t]
    for d in range(k + 1):
        got = np.array(tr.location(x, der=d)).T
        ctx.check(np.all(np.abs(got - f(x, d)) <= 1e-6 * 20 / np.diff(t).min()**d), f'polynomial-{d}', lambda: str(np.abs(got - f(x, d)).max()))
    ctx.sig(size(n), kt)
    ctx.event(len(x))


def steps(t0, t1, dt):
    q = (t1 - t0) / dt
    return {max(int(np.ceil(q - 1e-9)), 0), max(int(np.ceil(q + 1e-9)), 0)}


@monitor('iterate', quick=500, thorough=12000, floor=150)
def iterate(ctx):
    n = ctx.pick(2, 3, 4, ctx.int(2, 15))
    t, kt = times(ctx, n)
    p, kp = points(ctx, t)
    tr = make(t, p)
    L = t[-1] - t[0]
    dt = L / ctx.pick(ctx.int(1, 60), ctx.uni(.7, 60))
    form = ctx.pick('step', 'start-step', 'all', 'all', 'empty')
    der = ctx.pick(0, 0, 1)
    if form == 'step':
        t0, t1, it = t[0], t[-1], tr.traj(dt, der=der)
    elif form == 'start-step':
        t0, t1 = t[0] + ctx.uni(0, .9) * L, t[-1]
        it = tr.traj(t0, None, dt, der) if ctx.flip() else tr.traj(t0, delta_t=dt, der=der)
    elif form == 'all':
        t0 = t[0] + ctx.uni(0, .5) * L
        t1 = t0 + ctx.uni(.05, .45) * L
        it = tr.traj(t0, t1, dt, der)
    else:
        t0 = t[0] + ctx.uni(0, 1) * L
        t1 = t0 - ctx.pick(0, ctx.uni(0, 1)) * L
        it = tr.traj(t0, t1, dt, der)
    if t0 == 0 and form != 'step':
        raise Skip('a start of zero')
    got = list(it)
    ctx.note(form=form, t0=t0, t1=t1, dt=dt, n=len(got))
    ctx.sig(form, der, kt, size(n))
    ctx.check(len(got) in steps(t0, t1, dt), 'count', f'{len(got)} {steps(t0, t1, dt)}')
    ctx.check(all(len(g) == 3 for g in got), 'triples')
    if got:
        x = t0 + np.arange(len(got)) * dt
        a, w = np.array(got, float), np.array(tr.location(x, der)).T
        sl = np.abs(np.array(tr.location(x, 1))).max() + (np.abs(np.array(tr.location(x, 2))).max() if n > 2 else 0)
        ctx.check(np.all(np.abs(a - w) <= 1e-9 * (1 + np.abs(w).max()) + 1e-11 * (1 + abs(t0)) * sl), 'positions', lambda: str(np.abs(a - w).max()))
    ctx.event(len(got))


@monitor('edited', quick=300, thorough=8000, floor=80)
def edited(ctx):
    """after any change of the points everything is that of a new trajectory"""
    n = ctx.int(3, 8)
    t, kt = times(ctx, n)
    p, kp = points(ctx, t)
    tr = make(t, p)
    model = {float(a): tuple(map(float, b)) for a, b in zip(t, p)}
    for _ in range(ctx.int(1, 5)):
        _ = tr.location(t[0] + .01), tr.interval, tr.digest
        before = dict(model)
        op = ctx.pick('move', 'add', 'delete', 'update', 'replace', 'shift')
        ks = list(model)
        q = tuple(ctx.rng.uniform(-3, 3, 3).tolist())
        if op == 'move':
            k = ctx.pick(*ks)
            model[k] = q
            tr.points[k] = q
        elif op == 'add':
            k = ctx.pick(max(ks) + ctx.uni(.1, 1), min(ks) - ctx.uni(.1, 1), (sorted(ks)[0] + sorted(ks)[1]) / 2)
            model[k] = q
            tr.points[k] = q
        elif op == 'delete':
            if len(ks) < 3:
                continue
            k = ctx.pick(*ks)
            del model[k]
            if ctx.flip():
                del tr.points[k]
            else:
                tr.points.pop(k)
        elif op == 'update':
            u = {ctx.pick(*ks): q, max(ks) + .5: (0., 1., 2.)}
            model.update(u)
            tr.points.update(u)
        elif op == 'replace':
            model = {k + .25: v for k, v in model.items()}
            tr.points = dict(model)
        else:
            model = dict(list(model.items())[::-1])  # the same points in another order
            tr.points = dict(model)
        tt = np.array(sorted(model))
        ctx.sig(op, size(len(tt)), kp)
        through(ctx, tr, tt, np.array([model[k] for k in tt]))
        f = ac.Trajectory(points=dict(model))
        x = np.linspace(tt[0], tt[-1], 9)
        for d in (0, 1):
            ctx.equal(np.array(tr.location(x, d)), np.array(f.location(x, d)), 'stale-location', op)
        ctx.check((tr.digest != ac.Trajectory(points=before).digest) or model == before, 'digest-kept', op)
        ctx.equal(np.array(list(tr.traj(tt[0], tt[-1], (tt[-1] - tt[0]) / 7))), np.array(list(f.traj(tt[0], tt[-1], (tt[-1] - tt[0]) / 7))), 'stale-iteration', op)
