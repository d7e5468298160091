"""C31: grids enumerate their points consistently."""
import xml.etree.ElementTree as ET

import acoular as ac
import numpy as np
from traits.api import TraitError
from vf import Skip, monitor

RULE = ('a case draws grid limits (also degenerate, reversed-increment, not a multiple of the increment), locations and regions, reads every attribute, changes traits and compares '
        'with the lattice described by the limits and with freshly built grids; non-trivial = grid kind x number of points class x divisibility x operation')
ASSUMPTIONS = ['upper limits are not below lower limits; locations exactly half way between points may go either way']


def lattice(lo, hi, inc):
    """allowed numbers of points along one axis"""
    if inc == 0:
        return {1}
    q = abs(hi - lo) / abs(inc)
    return {int(np.floor(q + .5 - 1e-9)) + 1, int(np.floor(q + .5 + 1e-9)) + 1}


def axis(lo, hi, n):
    return np.array([lo]) if n == 1 else lo + (hi - lo) * np.arange(n) / (n - 1)


def near(a, b, scale):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-12 * scale)


def limits(ctx, small=False):
    k = ctx.pick('mult', 'mult', 'free', 'free', 'point', 'dec')
    inc = ctx.pick(.1, .25, .05, 1., ctx.uni(.05, .6))
    n = ctx.int(1, 6 if small else 14)
    if k == 'dec':
        lo = round(ctx.uni(-2, 2), 1)
        return lo, round(lo + .1 * n, 1), .1, k
    lo = ctx.pick(ctx.uni(-3, 3), -1., 0.)
    if k == 'mult':
        return lo, lo + inc * n, inc, k
    if k == 'free':
        return lo, lo + inc * (n + ctx.uni(-.95, .95)) if n > 1 else lo + inc * ctx.uni(.0, 2), inc, k
    return lo, lo, inc, k


def axes_of(g, shape):
    p = g.pos.reshape((3,) + tuple(shape))
    out = []
    for d in range(len(shape)):
        sel = [0] * len(shape)
        sel[d] = slice(None)
        out.append(p[(d, *sel)])
    return out


def common(ctx, g):
    ctx.check(isinstance(g.shape, tuple), 'shape-tuple', repr(g.shape))
    ctx.check(g.pos.shape == (3, g.size), 'pos-shape', f'{g.pos.shape} size={g.size}')
    ctx.check(int(np.prod(g.shape)) == g.size, 'size-shape', f'{g.shape} {g.size}')
    ctx.check(np.isfinite(g.pos).all(), 'finite')
    s = g.subdomain(ac.Sector())
    ctx.check(len(s) == len(g.shape) and len(s[0]) == g.size, 'subdomain-all', str(len(s[0])))
    ctx.event(g.size)


def one_increment(ctx, xl, yl):
    # one increment for both directions, the limits of the second direction are rescaled
    f = xl[2] / yl[2]
    return yl[0], yl[0] + (yl[1] - yl[0]) * f


@monitor('rect', quick=500, thorough=20000, floor=150)
def rect(ctx):
    x0, x1, inc, kx = limits(ctx)
    y0, y1, inc2, ky = limits(ctx)
    y0, y1 = (y0, y1) if inc2 == inc else one_increment(ctx, (x0, x1, inc), (y0, y1, inc2))
    z = ctx.pick(0., 1., ctx.uni(-5, 5))
    sgn = ctx.pick(1, 1, 1, -1)
    ctx.note(x=(x0, x1), y=(y0, y1), z=z, inc=inc * sgn)
    g = ac.RectGrid(x_min=x0, x_max=x1, y_min=y0, y_max=y1, z=z, increment=inc * sgn)
    common(ctx, g)
    nx, ny = g.shape
    ctx.check(nx in lattice(x0, x1, inc) and ny in lattice(y0, y1, inc), 'count', f'{g.shape}')
    ctx.check((g.nxsteps, g.nysteps) == g.shape, 'nsteps')
    want = np.array([a.ravel() for a in np.meshgrid(axis(x0, x1, nx), axis(y0, y1, ny), [z], indexing='ij')])
    ctx.check(near(g.pos, want, 10), 'positions', lambda: str(np.abs(g.pos - want).max()))
    ctx.equal(np.array(g.extend()), np.array([x0, x1, y0, y1]), 'extend')
    ctx.sig(kx, ky, nx == 1, ny == 1, sgn)
    # every point is found at its own index
    for i in {0, g.size - 1, *ctx.rng.integers(0, g.size, 4).tolist()}:
        got = g.index(g.pos[0, i], g.pos[1, i])
        ctx.check(tuple(got) == np.unravel_index(i, g.shape), 'own-index', f'{i} {got}')
    # any location: a nearest point
    ax, ay = axes_of(g, g.shape)
    for _ in range(5):
        px, py = ctx.uni(x0, x1), ctx.uni(y0, y1)
        ix, iy = g.index(px, py)
        ctx.check(0 <= ix < nx and 0 <= iy < ny, 'index-range', f'{ix} {iy}')
        ctx.check(abs(ax[ix] - px) <= np.abs(ax - px).min() + 1e-12 and abs(ay[iy] - py) <= np.abs(ay - py).min() + 1e-12, 'nearest', lambda: f'{px, py} -> {ix, iy}')
    # outside
    for _ in range(2):
        d = ctx.uni(.001, 2)
        p = [ctx.uni(x0, x1), ctx.uni(y0, y1)]
        k = ctx.int(0, 1)
        p[k] = ctx.pick((x0, y0)[k] - d, (x1, y1)[k] + d)
        try:
            r = g.index(*p)
        except ValueError:
            continue
        ctx.check(False, 'outside-accepted', f'{p} -> {r}')


@monitor('regions', quick=400, thorough=12000, floor=80)
def regions(ctx):
    x0, x1, inc, kx = limits(ctx)
    y0, y1 = x0 + ctx.uni(-1, 1), 0
    y1 = y0 + inc * ctx.int(1, 10)
    g = ac.RectGrid(x_min=x0, x_max=x1, y_min=y0, y_max=y1, increment=inc, z=ctx.uni(-1, 1))
    kind = ctx.pick('circle', 'circle', 'rect', 'poly')
    small = ctx.flip(.3)
    X, Y = g.pos[0], g.pos[1]
    ctx.sig(kind, small, kx, g.nxsteps == 1)
    if kind == 'circle':
        c = ctx.uni(x0, x1), ctx.uni(y0, y1)
        r = inc * (ctx.uni(.01, .4) if small else ctx.uni(.5, 6))
        d2 = (X - c[0])**2 + (Y - c[1])**2
        if np.any(np.abs(d2 - r * r) < 1e-9):
            raise Skip('on the circle')
        want, centre, args = d2 < r * r, c, (*c, r)
    elif kind == 'rect':
        a = [ctx.uni(x0, x1), ctx.uni(y0, y1)]
        b = [ctx.uni(x0, x1), ctx.uni(y0, y1)]
        args = (*a, *b)
        ctx.note(args=args, x=(x0, x1), y=(y0, y1), inc=inc)
        ind = g.indices(*args)
        got = np.zeros(g.shape, bool)
        got[ind] = True
        # from the point nearest to one corner to the point nearest to the other
        axs = axes_of(g, g.shape)
        want = np.ones(g.shape, bool)
        for d in (0, 1):
            i, j = (int(np.argmin(np.abs(axs[d] - v))) for v in sorted((a[d], b[d])))
            m = np.zeros(g.shape[d], bool)
            m[i:j + 1] = True
            want &= m[:, None] if d == 0 else m[None, :]
        ctx.equal(got, want, 'rect-region')
        ctx.event(got.sum())
        return
    else:
        n = ctx.int(3, 6)
        c = np.array([ctx.uni(x0, x1), ctx.uni(y0, y1)])
        t = np.sort(ctx.rng.uniform(0, 2 * np.pi, n))
        rad = inc * (ctx.uni(.05, .3) if small else ctx.uni(1, 5))
        V = c + rad * np.c_[np.cos(t), np.sin(t)]
        e = np.roll(V, -1, 0) - V
        cr = e[:, :1] * (Y - V[:, 1:]) - e[:, 1:] * (X - V[:, :1])
        if np.any(np.abs(cr) < 1e-9) or np.hypot(*e.T).min() < .05 * rad:
            raise Skip('on the border')
        want, args = (cr > 0).all(0), tuple(V[::ctx.pick(1, -1)].ravel())
        centre = V.mean(0)
    ctx.note(args=args, x=(x0, x1), y=(y0, y1), inc=inc)
    if not want.any():
        if not (x0 <= centre[0] <= x1 and y0 <= centre[1] <= y1):
            raise Skip('centre outside')
        want = np.zeros(g.size, bool)
        d2 = (X - centre[0])**2 + (Y - centre[1])**2
        s = np.sort(d2)
        if len(s) > 1 and s[1] - s[0] < 1e-9:
            raise Skip('two nearest points')
        want[np.argmin(d2)] = True
    ind = g.indices(*args)
    got = np.zeros(g.shape, bool)
    got[ind] = True
    ctx.equal(got.ravel(), want, f'{kind}-region')
    ctx.check(np.size(ind[0]) == want.sum(), 'region-duplicates', f'{np.size(ind[0])} {want.sum()}')
    ctx.event(want.sum())


@monitor('cuboid', quick=400, thorough=12000, floor=100)
def cuboid(ctx):
    L = [limits(ctx, True) for _ in range(3)]
    vec = ctx.flip()
    if vec:
        inc = np.array([l[2] for l in L]) * [ctx.pick(1, 1, -1) for _ in range(3)]
        lim = [(l[0], l[1]) for l in L]
    else:
        inc = L[0][2]
        lim = [L[0][:2]] + [one_increment(ctx, L[0], l) for l in L[1:]]
    ctx.note(lim=lim, inc=np.array(inc).tolist())
    kw = {f'{a}_{m}': lim[d][j] for d, a in enumerate('xyz') for j, m in enumerate(('min', 'max'))}
    g = ac.RectGrid3D(**kw)
    g.increment = ctx.pick(list, tuple, np.array)(inc) if vec else inc
    common(ctx, g)
    iv = np.broadcast_to(inc, 3)
    n = g.shape
    ctx.check(len(n) == 3 and all(n[d] in lattice(*lim[d], iv[d]) for d in range(3)), 'count3', f'{n}')
    ctx.check((g.nxsteps, g.nysteps, g.nzsteps) == n, 'nsteps3')
    want = np.array([a.ravel() for a in np.meshgrid(*(axis(*lim[d], n[d]) for d in range(3)), indexing='ij')])
    ctx.check(near(g.pos, want, 10), 'positions3', lambda: str(np.abs(g.pos - want).max()))
    ctx.sig(vec, *(k == 1 for k in n), *(l[3] == 'free' for l in L))
    for i in {0, g.size - 1, *ctx.rng.integers(0, g.size, 4).tolist()}:
        ctx.check(tuple(g.index(*g.pos[:, i])) == np.unravel_index(i, n), 'own-index3', f'{i} {g.index(*g.pos[:, i])}')
    axs = axes_of(g, n)
    pts = []
    for _ in range(5):
        p = [ctx.uni(*lim[d]) for d in range(3)]
        pts.append(p)
        ix = g.index(*p)
        ctx.check(all(0 <= ix[d] < n[d] for d in range(3)), 'index-range3', str(ix))
        ctx.check(all(abs(axs[d][ix[d]] - p[d]) <= np.abs(axs[d] - p[d]).min() + 1e-12 for d in range(3)), 'nearest3', f'{p} -> {ix}')
    got = np.zeros(n, bool)
    got[g.indices(*pts[0], *pts[1])] = True
    want = np.zeros(n, bool)
    want[tuple(slice(min(i, j), max(i, j) + 1) for i, j in zip(g.index(*pts[0]), g.index(*pts[1])))] = True
    ctx.equal(got, want, 'box-region')
    p = list(pts[2])
    k = ctx.int(0, 2)
    p[k] = ctx.pick(lim[k][0] - ctx.uni(.001, 2), lim[k][1] + ctx.uni(.001, 2))
    try:
        r = g.index(*p)
    except ValueError:
        r = None
    ctx.check(r is None, 'outside-accepted3', f'{p} -> {r}')
    for bad in ('a', (1, 2), (.1, .1, .1, .1)):
        try:
            g.increment = bad
        except (TraitError, ValueError):
            continue
        ctx.check(False, 'bad-increment', repr(bad))


@monitor('line', quick=200, thorough=6000, floor=40)
def line(ctx):
    n = ctx.pick(1, 2, ctx.int(1, 30))
    loc, d, L = ctx.rng.uniform(-3, 3, 3), ctx.rng.normal(0, 2, 3), ctx.pick(1., ctx.uni(.1, 9))
    if ctx.flip(.3):
        d = np.eye(3)[ctx.int(0, 2)] * ctx.pick(1, -1, 4)
    g = ac.LineGrid(loc=tuple(loc), direction=tuple(d), length=L, num_points=n)
    if n == 1 and ctx.flip(.3):
        g = ac.LineGrid(loc=tuple(loc))  # one point is the default
    common(ctx, g)
    ctx.check(g.size == n and g.shape == (n,), 'count', f'{g.size} {g.shape}')
    want = loc[:, None] + (d / np.sqrt((d**2).sum()))[:, None] * np.linspace(0, L if n > 1 else 0, n)
    ctx.check(near(g.pos, want, 20), 'positions', lambda: str(np.abs(g.pos - want).max()))
    ctx.sig(n == 1, n == 2, n > 2, np.count_nonzero(d) == 1)


def write_xml(fn, pos, names, rng=None):
    root = ET.Element('root')
    for i in range(pos.shape[1]):
        a = dict(x=repr(float(pos[0, i])), y=repr(float(pos[1, i])), z=repr(float(pos[2, i])))
        if names is not None:
            a['subgrid'] = names[i]
        ET.SubElement(root, 'pos', a)
    ET.ElementTree(root).write(fn)


@monitor('imported', quick=80, thorough=1500, floor=20)
def imported(ctx):
    n = ctx.pick(1, ctx.int(1, 40))
    pos = ctx.rng.normal(0, 1, (3, n)) * ctx.pick(1, 1e-9, 1e6)
    names = [ctx.pick('', 'a', 'subgrid 2', 'ü<&>"') for _ in range(n)] if ctx.flip(.7) else None
    f1, f2 = ctx.scratch / 'a.xml', ctx.scratch / 'b.xml'
    write_xml(f1, pos, names)
    pos2 = ctx.rng.normal(0, 1, (3, ctx.int(1, 9)))
    write_xml(f2, pos2, None)
    g = ac.ImportGrid(file=str(f1))
    common(ctx, g)
    ctx.equal(g.pos, pos, 'positions')
    ctx.check(g.shape == (n,) and g.size == n, 'count')
    ctx.check(list(g.subgrids) == (names or [''] * n), 'names', str(g.subgrids))
    d1 = g.digest
    g.file = str(f2)
    common(ctx, g)
    ctx.equal(g.pos, pos2, 'second-file')
    ctx.check(g.digest != d1, 'digest')
    g.file = str(f1)
    ctx.equal(g.pos, pos, 'first-file-again')
    ctx.check(g.digest == d1, 'digest-again')
    ctx.sig(n == 1, names is None)


def some(ctx, depth=0):
    k = ctx.pick('rect', 'cuboid', 'line', 'imp', *(('merge',) if depth < 2 else ()))
    if k == 'rect':
        return ac.RectGrid(increment=ctx.pick(.5, 1), x_min=ctx.pick(-1, 0), z=ctx.pick(0, 1))
    if k == 'cuboid':
        return ac.RectGrid3D(increment=1., y_min=ctx.pick(-1, 0), z_max=ctx.pick(0, 1))
    if k == 'line':
        return ac.LineGrid(num_points=ctx.int(1, 5), length=2, loc=(0, 0, ctx.int(0, 1)))
    if k == 'merge':
        return ac.MergeGrid(grids=[some(ctx, depth + 1) for _ in range(ctx.int(1, 2))])
    g = ac.ImportGrid()
    g._gpos = ctx.rng.integers(-1, 2, (3, ctx.int(1, 5))).astype(float)
    return g


def merged_ok(ctx, m, grids):
    common(ctx, m)
    sets = [{tuple(c) for c in g.pos.T} for g in grids]
    every = set().union(*sets)
    got = [tuple(c) for c in m.pos.T]
    ctx.check(set(got) == every, 'merged-points', f'{len(got)} {len(every)}')
    ctx.check(len(set(got)) == len(got), 'merged-duplicates')
    ctx.check(m.shape == (len(every),) and m.size == len(every), 'merged-size', f'{m.shape} {m.size}')
    sub = np.asarray(m.subgrids).ravel()
    ctx.check(len(sub) == m.size, 'subgrid-count', f'{len(sub)} {m.size}')
    for p, s in zip(got, sub):
        ok = any(p in st and s == type(g).__name__ + g.digest for g, st in zip(grids, sets))
        ctx.check(ok, 'subgrid-of-point', f'{p} {s}')


@monitor('merged', quick=150, thorough=4000, floor=40)
def merged(ctx):
    grids = [some(ctx) for _ in range(ctx.int(1, 4))]
    m = ac.MergeGrid(grids=list(grids))
    merged_ok(ctx, m, grids)
    how = ctx.pick('append', 'trait', 'replace', 'remove')
    d = m.digest
    if how == 'append':
        g = some(ctx)
        grids.append(g)
        m.grids.append(g)
    elif how == 'remove' and len(grids) > 1:
        grids.pop()
        m.grids.pop()
    elif how == 'replace':
        grids = [some(ctx) for _ in range(2)]
        m.grids = list(grids)
    else:
        g = ctx.pick(*grids)
        if isinstance(g, ac.MergeGrid):
            g.grids = [some(ctx, 2), ac.LineGrid(num_points=7, length=3.)]
        elif isinstance(g, ac.LineGrid):
            g.length += 1.5
            g.num_points += 1
        elif isinstance(g, ac.RectGrid):
            g.x_max += 1
        else:
            g._gpos = ctx.rng.integers(-1, 3, (3, 4)) + .5
    ctx.sig(how, len(grids) > 1, any(isinstance(g, ac.MergeGrid) for g in grids))
    merged_ok(ctx, m, grids)
    del d


@monitor('updates', quick=300, thorough=6000, floor=80)
def updates(ctx):
    """after any change every attribute is that of a freshly built grid"""
    kind = ctx.pick('rect', 'cuboid', 'line')
    vals = dict(x_min=-1., x_max=1., y_min=-1., y_max=1., z=1., increment=.5) if kind == 'rect' else \
        dict(x_min=-1., x_max=1., y_min=-1., y_max=1., z_min=-1., z_max=1., increment=.5) if kind == 'cuboid' else \
        dict(loc=(0., 0., 0.), direction=(1., 0., 0.), length=2., num_points=5)
    cls = dict(rect=ac.RectGrid, cuboid=ac.RectGrid3D, line=ac.LineGrid)[kind]
    g = cls(**vals)
    seen = {g.digest: dict(vals)}
    for _ in range(ctx.int(1, 6)):
        _ = g.pos, g.size, g.shape, g.digest
        k = ctx.pick(*vals)
        if k in ('loc', 'direction'):
            v = tuple(ctx.rng.integers(-2, 3, 3) + .5)
        elif k == 'num_points':
            v = ctx.int(1, 7)
        elif k == 'increment':
            v = ctx.pick(.25, .4, .5, 1., 2.)
            if kind == 'cuboid' and ctx.flip():
                v = (v, .5, ctx.pick(.5, 1.))
        else:
            v = vals[k] + ctx.pick(.25, .5, 1.) * (-1 if k.endswith('min') else 1)
        vals[k] = v
        setattr(g, k, v)
        f = cls(**{a: b for a, b in vals.items() if a != 'increment' or kind != 'cuboid'})
        if kind == 'cuboid':
            f.increment = vals['increment']
        for a in ctx.rng.permutation(['pos', 'size', 'shape', 'digest']):
            ctx.check(np.array_equal(getattr(g, a), getattr(f, a)), f'stale-{a}', f'{kind} after {k}={v}')
        if kind != 'line':
            ctx.check(g.extend() == f.extend() and (g.nxsteps, g.nysteps) == (f.nxsteps, f.nysteps), 'stale-steps')
        ctx.sig(kind, k)
        ctx.event()
        # returned arrays must not be a handle to the grid's state
        before = g.pos.copy()
        ctx.equal(g.pos, before, 'pos-repeat')
    del seen
