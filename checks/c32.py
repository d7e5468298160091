"""C32: sectors select exactly the points inside them."""
import acoular as ac
import numpy as np
from vf import Skip, monitor

RULE = ('a case draws point sets (random, lattices with points exactly on the border, single points, grids of every kind) and sectors of every kind (concave, clockwise, closed, '
        'degenerate-size shapes), and compares the selection with winding numbers, half planes and distances; non-trivial = sector kind x border setting x point set x empty or not')
ASSUMPTIONS = ['polygons do not intersect themselves', 'points nearer to the border than rounding errors, unless exactly on it, are not judged']
EPS = 1e-9


def seg_dist(P, V):
    """distance of every point to the closed polyline V"""
    d = np.full(P.shape[1], np.inf)
    for a, b in zip(V, np.roll(V, -1, 0)):
        e = b - a
        L = e @ e
        t = np.clip(((P.T - a) @ e) / L, 0, 1) if L else np.zeros(P.shape[1])
        d = np.minimum(d, np.hypot(*(P - (a[:, None] + e[:, None] * t))))
    return d


def winding(P, V):
    """winding number by summed angles"""
    w = np.zeros(P.shape[1])
    for a, b in zip(V, np.roll(V, -1, 0)):
        u, v = a[:, None] - P, b[:, None] - P
        w += np.arctan2(u[0] * v[1] - u[1] * v[0], (u * v).sum(0))
    return np.rint(w / (2 * np.pi)).astype(int)


def points(ctx):
    """(positions, kind)"""
    k = ctx.pick('random', 'lattice', 'lattice', 'grid', 'one', 'cluster')
    n = ctx.int(1, 60)
    if k == 'random':
        p = ctx.rng.uniform(-3, 3, (3, n))
    elif k == 'lattice':
        p = ctx.rng.integers(-6, 7, (3, n)) / 2
    elif k == 'one':
        p = ctx.rng.uniform(-3, 3, (3, 1))
    elif k == 'cluster':
        p = ctx.rng.uniform(-3, 3, (3, 1)) + ctx.rng.uniform(-.2, .2, (3, n))
    else:
        p = grid(ctx).pos
    return p, k


def grid(ctx):
    k = ctx.int(0, 3)
    lo = [ctx.pick(-1., -2., ctx.uni(-3, 0)) for _ in range(3)]
    if k == 0:
        return ac.RectGrid(x_min=lo[0], y_min=lo[1], x_max=lo[0] + 3, y_max=lo[1] + 2, increment=ctx.pick(.5, .25))
    if k == 1:
        return ac.RectGrid3D(x_min=lo[0], y_min=lo[1], z_min=lo[2], x_max=lo[0] + 2, y_max=lo[1] + 2, z_max=lo[2] + 2, increment=ctx.pick(.5, 1.))
    if k == 2:
        return ac.LineGrid(loc=tuple(lo), direction=tuple(ctx.rng.normal(0, 1, 3)), length=4., num_points=ctx.int(1, 20))
    return ac.MergeGrid(grids=[ac.LineGrid(loc=tuple(lo), length=3., num_points=7), ac.RectGrid(increment=1.)])


def half(ctx, lo, hi):
    return ctx.int(2 * lo, 2 * hi) / 2


def rect(ctx, lat, d3):
    c = [sorted((half(ctx, -3, 3), half(ctx, -3, 3))) if lat else sorted((ctx.uni(-3.5, 3.5), ctx.uni(-3.5, 3.5))) for _ in range(3)]
    if ctx.flip(.2):
        w = ctx.uni(0, .05)
        c = [[a, a + (0 if lat else w)] for a, _ in c]
    kw = dict(x_min=c[0][0], x_max=c[0][1], y_min=c[1][0], y_max=c[1][1])
    if d3:
        kw.update(z_min=c[2][0], z_max=c[2][1])
    if ctx.flip(.2):  # limits may be exchanged
        kw['x_min'], kw['x_max'] = kw['x_max'], kw['x_min']
    s = (ac.RectSector3D if d3 else ac.RectSector)(**kw)
    nd = 3 if d3 else 2

    def margin(p):  # > 0 inside
        return np.min([np.minimum(p[i] - c[i][0], c[i][1] - p[i]) for i in range(nd)], 0)

    return s, margin, np.array([np.mean(c[i]) for i in range(nd)])


def circ(ctx, lat):
    if lat:
        x, y, r = half(ctx, -2, 2), half(ctx, -2, 2), ctx.pick(.5, 1., 1.5, 2.5, 0.)
    else:
        x, y, r = ctx.uni(-3, 3), ctx.uni(-3, 3), ctx.pick(ctx.uni(0, .1), ctx.uni(.1, 4))
    s = ac.CircSector(x=x, y=y, r=r)

    def margin(p):
        return r * r - ((p[0] - x)**2 + (p[1] - y)**2)

    return s, margin, np.array([x, y])


SHAPES = [[(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)],
          [(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)],
          [(0, 0), (4, 0), (4, 1), (3, 1), (3, 2), (4, 2), (4, 3), (0, 3), (0, 2), (1, 2), (1, 1), (0, 1)],
          [(0, 0), (2, 0), (4, 0), (4, 2), (2, 4), (0, 4), (0, 2)],
          [(0, 0), (4, 1), (0, 2), (1, 1)],
          [(0, 0), (3, 3), (6, 0), (3, 1)],
          [(0, 0), (1, 0), (1, 1), (0, 1)],
          [(0, 0), (4, 0), (2, 3)],
          [(0, 0), (5, 0), (5, 5), (1, 5), (1, 2), (3, 2), (3, 3), (2, 3), (2, 4), (4, 4), (4, 1), (0, 1)]]


def outline(ctx, lat):
    if lat:
        V = np.array(SHAPES[ctx.int(0, len(SHAPES) - 1)], float) * ctx.pick(.5, 1.)
        if ctx.flip():
            V = V[:, ::-1]
        V = V * [ctx.pick(1, -1), ctx.pick(1, -1)] + [half(ctx, -3, 1), half(ctx, -3, 1)]
    else:  # star shaped
        n = ctx.int(3, 12)
        t = np.sort(ctx.rng.uniform(0, 2 * np.pi, n))
        if np.diff(np.r_[t, t[0] + 2 * np.pi]).max() > np.pi - .05:
            raise Skip('not star shaped')
        size = ctx.pick(.05, 1, 1, 2)
        V = ctx.rng.uniform(-2, 2, 2) + (size * ctx.rng.uniform(.15, 2, n) * np.array([np.cos(t), np.sin(t)])).T
        if np.hypot(*np.diff(np.r_[V, V[:1]], axis=0).T).min() < 1e-3 * size:
            raise Skip('short edge')
    V = np.roll(V, ctx.int(0, len(V) - 1), 0)
    if ctx.flip():
        V = V[::-1]
    return V


def hull(V):
    """convex hull, counter-clockwise (monotone chain)"""
    P = sorted(map(tuple, V))

    def chain(P):
        h = []
        for p in P:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]

    return np.array(chain(P) + chain(P[::-1]))


def poly(ctx, lat, convex):
    V = outline(ctx, lat)
    E = V
    if convex:
        V = hull(V)
    given = np.r_[E, E[:1]] if ctx.flip(.3) else E  # closed explicitly
    s = (ac.ConvexSector if convex else ac.PolySector)(edges=given.ravel().tolist())

    def margin(p):
        d = seg_dist(p[:2], V)
        d = np.where(d < EPS, 0, d)
        return np.where(winding(p[:2], V) != 0, d, -d)

    return s, margin, given.mean(0)


def sector(ctx, kinds=('rect', 'rect3', 'circ', 'poly', 'poly', 'convex')):
    kind = ctx.pick(*kinds)
    lat = ctx.flip()
    s, margin, c = rect(ctx, lat, kind == 'rect3') if kind[0] == 'r' else circ(ctx, lat) if kind == 'circ' else poly(ctx, lat, kind == 'convex')
    s.include_border = ctx.flip()
    s.default_nearest = ctx.flip()
    return s, margin, c, kind, lat


def expect(s, margin, centre, p, kind, tol=None):
    """(must, may): points that have to be and points that may be selected"""
    tol = EPS if tol is None else tol
    m = margin(p)
    near = np.abs(m) < tol
    on = m == 0 if kind[0] == 'r' or kind == 'circ' else np.abs(m) < 1e-14
    doubt = near & ~on
    inside = (m > 0) | (on & s.include_border)
    inside[on & (not s.include_border)] = False
    must, may = inside & ~doubt, inside | doubt
    if not may.any() and s.default_nearest:
        d = ((p[:len(centre)] - centre[:, None])**2).sum(0)
        t = d <= d.min() + 1e-9
        return (t if t.sum() == 1 else t & False), t, True
    if not must.any() and s.default_nearest:
        raise Skip('doubtful')
    return must, may, False


def judge(ctx, got, must, may, mech, single):
    ctx.check(got.dtype == bool and got.shape == must.shape, 'mask', f'{got.dtype} {got.shape}')
    ctx.check(not np.any(must & ~got), f'{mech}-missing', lambda: f'points {np.flatnonzero(must & ~got)[:5]}')
    ctx.check(not np.any(got & ~may), f'{mech}-extra', lambda: f'points {np.flatnonzero(got & ~may)[:5]}')
    if single:
        ctx.check(got.sum() == 1, f'{mech}-nearest', str(got.sum()))


@monitor('contains', quick=3000, thorough=80000, floor=900)
def contains(ctx):
    s, margin, c, kind, lat = sector(ctx)
    p, pk = points(ctx)
    q = p.copy()
    ctx.note(kind=kind, n=p.shape[1], border=s.include_border, nearest=s.default_nearest, edges=getattr(s, 'edges', None))
    must, may, fallback = expect(s, margin, c, p, kind)
    got = s.contains(p)
    m = margin(p)
    ctx.sig(kind, lat, s.include_border, pk, 'fallback' if fallback else 'none' if not may.any() else 'all' if must.all() else 'some', bool((m == 0).any()))
    judge(ctx, got, must, may, kind, fallback)
    ctx.equal(p, q, 'input-changed')
    ctx.equal(s.contains(p), got, 'repeat')
    ctx.event(p.shape[1])


@monitor('tolerance', quick=400, thorough=10000, floor=100)
def tolerance(ctx):
    """points within the tolerance of the border count as on the border"""
    kind = ctx.pick('rect', 'rect3', 'poly', 'circ')
    s, margin, c, kind, lat = sector(ctx, (kind,))
    tol = ctx.pick(.2, .01, 1e-3)
    s.abs_tol = tol
    s.default_nearest = False
    p = points(ctx)[0]
    if kind != 'rect3' and p.shape[1] > 5:  # move some points close to the border
        q = np.linspace(0, 1, p.shape[1])
        p = p[:, :1] * (1 - q) + p[:, -1:] * q
    m = margin(p)
    doubt = np.abs(np.abs(m) - tol) < EPS
    got = s.contains(p)
    want = m > -tol if s.include_border else m > tol
    bad = (got != want) & ~doubt
    # for points beyond a corner of a rectangle the distance to the border may be meant instead of the overlap
    ctx.check(not bad.any(), f'{kind}-tolerance', lambda: f'tol={tol} margins={m[bad][:4]}')
    ctx.sig(kind, tol, s.include_border, bool((np.abs(m) < tol).any()))
    ctx.event(int((np.abs(m) < tol).sum()))


@monitor('combined', quick=400, thorough=10000, floor=80)
def combined(ctx):
    parts = [sector(ctx) for _ in range(ctx.int(0, 4))]
    p, pk = points(ctx)
    must, may = np.zeros(p.shape[1], bool), np.zeros(p.shape[1], bool)
    for s, margin, c, kind, _ in parts:
        a, b, _ = expect(s, margin, c, p, kind)
        must |= a
        may |= b
    m = ac.MultiSector(sectors=[x[0] for x in parts])
    judge(ctx, m.contains(p), must, may, 'multi', False)
    ctx.check(not m.contains(p).any() if not parts else True, 'empty-multi')
    ctx.equal(ac.Sector().contains(p), np.ones(p.shape[1], bool), 'everything')
    if parts and ctx.flip():
        m.sectors.pop()
        must[:], may[:] = False, False
        for s, margin, c, kind, _ in parts[:-1]:
            a, b, _ = expect(s, margin, c, p, kind)
            must |= a
            may |= b
        judge(ctx, m.contains(p), must, may, 'multi-changed', False)
    ctx.sig(len(parts), pk, tuple(sorted({x[3] for x in parts})))
    ctx.event(p.shape[1])


@monitor('subdomain', quick=500, thorough=12000, floor=120)
def subdomain(ctx):
    g = grid(ctx)
    s, margin, c, kind, _ = sector(ctx)
    must, may, fallback = expect(s, margin, c, g.pos, kind)
    ind = g.subdomain(s)
    ctx.check(isinstance(ind, tuple) and len(ind) == len(g.shape), 'index-tuple', repr(type(ind)))
    got = np.zeros(g.shape, int)
    np.add.at(got, ind, 1)
    ctx.check(got.max(initial=0) <= 1, 'duplicates')
    judge(ctx, got.ravel() > 0, must, may, f'subdomain-{kind}', fallback)
    ctx.sig(type(g).__name__, kind, fallback)
    # change the sector, then the grid, in use
    if isinstance(g, ac.RectGrid):
        g.x_max += 1.
        must, may, fallback = expect(s, margin, c, g.pos, kind)
        got = np.zeros(g.shape, bool)
        got[g.subdomain(s)] = True
        judge(ctx, got.ravel(), must, may, 'subdomain-after-change', fallback)
    ctx.event(g.size)


@monitor('changed', quick=300, thorough=6000, floor=80)
def changed(ctx):
    """a changed sector selects what a new one would"""
    s, margin, c, kind, lat = sector(ctx)
    p, _ = points(ctx)
    s.contains(p)
    s2, margin2, c2, _, _ = sector(ctx, (kind,))
    names = [n for n in s.editable_traits() if n not in ('include_border', 'abs_tol', 'default_nearest')]
    for n in names:
        if n == 'edges' and ctx.flip():
            s.edges[:] = s2.edges
        else:
            setattr(s, n, getattr(s2, n))
    s.include_border, s.default_nearest = s2.include_border, s2.default_nearest
    ctx.equal(s.contains(p), s2.contains(p), 'stale', kind)
    ctx.sig(kind, lat)
    ctx.event(len(names))


@monitor('outline', quick=500, thorough=15000, floor=150)
def polygon_distance(ctx):
    """signed distance to a polygon"""
    lat = ctx.flip()
    V = outline(ctx, lat)
    P = points(ctx)[0][:2]
    d = seg_dist(P, V)
    got = ac.grids.Polygon(V[:, 0], V[:, 1]).is_inside(P[0], P[1])
    ctx.close(np.abs(got), d, 'distance', rtol=1e-9, atol=1e-9)
    far = d > EPS
    ctx.equal(np.sign(got[far]), np.where(winding(P, V) != 0, 1., -1.)[far], 'side')
    ctx.check(np.all(got[d < 1e-14] == 0), 'on-edge')
    x = ac.grids.Polygon(V[:, 0], V[:, 1]).is_inside(P[0, 0], P[1, 0])
    ctx.check(abs(x - got[0]) < 1e-12, 'scalar')
    ctx.sig(lat, len(V), bool((d < 1e-14).any()))
    ctx.event(P.shape[1])
