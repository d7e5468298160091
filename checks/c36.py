"""C36: helper functions and error metrics satisfy their definitions."""
import warnings

import acoular as ac
import numpy as np
import zoo
from acoular.tools import MetricEvaluator, bardata, barspectrum, c_air, find_basename, get_file_basename, return_result
from acoular.tools.helpers import synthetic
from acoular.tools.utils import mole_fraction_of_water_vapor
from vf import Skip, monitor

RULE = ('a case draws spectra, maps, grids, sectors, streams and source positions (zeros, negative and tiny powers, empty bands and sectors, equal positions, single values) '
        'and compares helper results with direct sums; non-trivial = helper x options x special situation')
ASSUMPTIONS = ['band limits and sector borders keep a distance from lines and points', 'preferred centre frequencies after ISO 266; barspectrum may add one band below its lowest complete band']
PREF = np.array([31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500,
                 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000, 25000])


def level(x):
    x = np.asarray(x, float)
    return np.where(x > 4e-45, 10 * np.log10(np.maximum(x, 4e-45) / 4e-10), -350.)


def kept(ctx, f, *arrays):
    """call and check that no argument changes"""
    old = [a.copy() for a in arrays]
    r = f(*arrays)
    for a, o in zip(arrays, old):
        ctx.check(a.dtype == o.dtype and a.shape == o.shape and np.array_equal(a, o, equal_nan=True), 'input-changed')
    return r


def powers(ctx, shape):
    x = 10. ** ctx.rng.uniform(-14, 4, shape)
    k = ctx.pick('plain', 'zeros', 'negative')
    if k != 'plain':
        m = ctx.rng.random(shape) < .3
        x = np.where(m, 0. if k == 'zeros' else -x, x)
    return x, k


@monitor('level', quick=250, thorough=2000, floor=30)
def level_(ctx):
    shape = ctx.pick((), (1,), (ctx.int(1, 30),), (3, ctx.int(1, 5)), (2, 2, 3), (0,))
    x, k = powers(ctx, shape)
    x = np.asarray(x)
    if ctx.flip(.2) and x.size:
        x = x.copy()
        x.flat[0] = ctx.pick(1e-300, 4e-45, 4e-10, 1., 1e290)
    f32 = ctx.flip(.3)
    if f32:
        x = np.clip(x, -1e28, 1e28).astype(np.float32)
    with warnings.catch_warnings(), np.errstate(over='ignore'):
        warnings.simplefilter('error')
        y = kept(ctx, ac.L_p, x)
    ctx.check(np.shape(y) == shape, 'level-shape', np.shape(y))
    ctx.check(np.all(np.isfinite(y)), 'level-finite')
    tiny = (x > 0) & (x < 1e-40)
    ctx.check(np.all(np.abs(np.asarray(y) - level(x))[~tiny] <= (2e-4 if f32 else 1e-9)), 'level', lambda: f'{x} {y}')
    ctx.check(np.all(np.asarray(y)[x <= 0] == -350), 'level-zero', lambda: f'{x} {y}')
    ctx.sig('level', k, f32, len(shape))
    ctx.event(x.size)


def lines(ctx):
    if ctx.flip(.7):
        bs, fs = ctx.pick(16, 64, 128, 512, 1024), ctx.pick(1000., 8000., 44100., 51200.)
        return np.arange(bs // 2 + 1) * (fs / bs)
    f = np.unique(np.round(ctx.rng.uniform(1, 20000, ctx.int(1, 60)), 3))
    return f


def band_sum(data, f, c, n):
    """sum over lines of the band and whether no line lies at a limit"""
    lo, hi = c * 2 ** (-.5 / n), c * 2 ** (.5 / n)
    clear = np.all(np.abs(f - lo) > 1e-9 * lo) and np.all(np.abs(f - hi) > 1e-9 * hi)
    m = (f >= lo) & (f < hi)
    return data[m].sum(0) if m.any() else np.zeros(data.shape[1:]), clear, m.sum()


@monitor('bands', quick=300, thorough=3000, floor=40)
def bands(ctx):
    f = lines(ctx)
    tail = ctx.pick((), (ctx.int(1, 5),), (2, 3))
    data, k = powers(ctx, (len(f), *tail))
    num = ctx.pick(0, 0, 1, 3, 3, 2, 12)
    scalar = ctx.flip(.3)
    fc, names = [], set()
    for _ in range(1 if scalar else ctx.int(1, 6)):
        c = ctx.pick('line', 'between', 'above', 'pref', 'low')
        fc.append({'line': float(f[ctx.int(0, len(f) - 1)]), 'between': float(ctx.uni(f[0], f[-1])), 'above': float(f[-1] * ctx.uni(1.5, 3)) + 1,
                   'pref': float(ctx.pick(*PREF)), 'low': float(max(f[0], f[min(1, len(f) - 1)] * .3) + .01)}[c])
        names.add(c)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        arg = fc[0] if scalar else ctx.pick(list(fc), tuple(fc), np.array(fc))
        y = kept(ctx, lambda d, q: synthetic(d, q, arg, num), data, f)
    msgs = [str(i.message) for i in w]
    ctx.check(y.shape == (len(fc), *tail), 'bands-shape', y.shape)
    expect = 0
    for i, c in enumerate(fc):
        if num:
            want, clear, n = band_sum(data, f, c, num)
            if not clear:
                expect = None
                continue
            if expect is not None:
                expect += n == 0
        else:
            j = np.nonzero(f >= c)[0]
            want = data[j[0]] if len(j) else np.zeros(tail)
            if expect is not None:
                expect += (not len(j)) or f[j[0]] != c
        sc = np.abs(data).max()
        ctx.check(np.allclose(y[i], want, rtol=1e-9, atol=1e-12 * sc if num else 0), f'bands-{"sum" if num else "line"}', lambda: f'{c} of {f[:5]}..{f[-1]} n={num}: {y[i]} {want}')
        ctx.event()
    if expect is not None:
        ctx.check(len(msgs) == expect, 'bands-warning', lambda: f'{fc}: {msgs} expected {expect}')
    for n in names:
        ctx.sig('bands', num, n, len(tail), scalar)


@monitor('bars', quick=250, thorough=2000, floor=30)
def bars(ctx):
    bs, fs = ctx.pick(64, 256, 1024, 4096), ctx.pick(1000., 8000., 44100., 51200., 96000.)
    f = np.arange(bs // 2 + 1) * (fs / bs)
    data, k = powers(ctx, len(f))
    num, bar, off = ctx.pick(1, 3), ctx.flip(.6), ctx.pick(0., 0., ctx.uni(-.3, .3))
    ep = .5 / num
    allc = PREF[:: 3 // num]
    lo, hi = f[1] * 2 ** ep, f[-1] * 2 ** -ep
    need = allc[(allc >= lo * (1 + 1e-9)) & (allc <= hi * (1 - 1e-9))]
    if not len(need):
        raise Skip
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x, p, fc = kept(ctx, lambda d, q: barspectrum(d, q, num, bar, off), data, f)
    ctx.check(set(need) <= set(fc), 'bars-missing', lambda: f'{fc} needs {need}')
    ctx.check(len(set(fc)) == len(fc) and all(c in allc for c in fc) and np.all(np.diff(np.searchsorted(allc, fc)) == 1), 'bars-centres', lambda: f'{fc}')
    ctx.check(np.all(fc <= hi * (1 + 1e-9)), 'bars-above', lambda: f'{fc} {hi}')
    ctx.check(np.sum(fc < lo * (1 - 1e-9)) <= 1, 'bars-below', lambda: f'{fc} {lo}')
    lv, ok = zip(*[band_sum(data, f, c, num)[:2] for c in fc])
    sel = np.array(ok)
    curve(ctx, 'bars', x, p, np.array(lv), fc, num, bar, off, sel, 1e-12 * np.abs(data).max())
    # values of the bands drawn with bardata
    masked = ctx.pick(-360, -360, 20., -100.)
    l2 = level(np.array(lv))
    x, p = kept(ctx, lambda d, q: bardata(d, q, num, bar, off, masked), l2, fc)
    if masked > -360:
        ctx.check(isinstance(p, np.ma.MaskedArray) or not np.any(l2 <= masked), 'bars-mask-kind')
        m = np.ma.getmaskarray(p)
        want = l2 <= masked
        ctx.check(np.array_equal(m, np.repeat(want, 2) if bar else want), 'bars-mask')
        p = np.ma.getdata(p)
    curve(ctx, 'bardata', x, p, l2, fc, num, bar, off, np.ones(len(fc), bool), 1e-12)
    ctx.sig('bars', num, bar, off == 0, masked, k, len(need) == 1)


def curve(ctx, name, x, p, lv, fc, num, bar, off, sel, atol):
    ep = .5 / num
    ctx.check(len(x) == len(p) == (2 if bar else 1) * len(fc), f'{name}-size', f'{np.shape(x)} {np.shape(p)} {len(fc)}')
    if bar:
        a, b = x[0::2] / 2 ** (off / num), x[1::2] / 2 ** (off / num)
        ctx.check(np.allclose(p[0::2], p[1::2], rtol=1e-12), f'{name}-flat')
        ctx.check(np.allclose(a[1:], b[:-1], rtol=1e-12), f'{name}-gap', lambda: f'{x}')
        ctx.check(np.isclose(a[0], fc[0] * 2 ** -ep) and np.isclose(b[-1], fc[-1] * 2 ** ep), f'{name}-ends', lambda: f'{x} {fc}')
        ctx.check(np.allclose(b[:-1], (fc[:-1] * 2 ** ep + fc[1:] * 2 ** -ep) / 2), f'{name}-borders', lambda: f'{x} {fc}')
        p = p[0::2]
    else:
        ctx.check(np.allclose(x, fc), f'{name}-x')
    ctx.check(np.allclose(np.asarray(p)[sel], lv[sel], rtol=1e-9, atol=atol), f'{name}-level', lambda: f'{p} {lv}')
    ctx.event(len(fc))


def grids(ctx):
    k = ctx.pick('rect', 'rect', 'rect3', 'line', 'import')
    if k == 'rect':
        return k, ac.RectGrid(x_min=-1, x_max=ctx.pick(1., 0.), y_min=-.5, y_max=1., z=1., increment=ctx.pick(.1, .25, .5))
    if k == 'rect3':
        return k, ac.RectGrid3D(x_min=-1, x_max=1, y_min=-.5, y_max=1., z_min=1, z_max=ctx.pick(1.5, 2.), increment=ctx.pick(.25, .5))
    if k == 'line':
        return k, ac.LineGrid(loc=(-1., -.5, 1.), direction=(1., .5, 0.), length=2., num_points=ctx.int(2, 30))
    return k, ac.ImportGrid(pos=ctx.rng.uniform(-1, 1, (3, ctx.int(1, 40))))


def circle(pos, x, y, r, nearest=True):
    d = np.hypot(pos[0] - x, pos[1] - y)
    if np.any(np.abs(d - r) < 1e-6):
        raise Skip
    m = d < r
    if nearest and not m.any():
        s = np.sort(d)
        if len(s) > 1 and s[1] - s[0] < 1e-9:
            raise Skip
        m = d == d.min()
    return m


@monitor('integrate', quick=300, thorough=3000, floor=30)
def integrate(ctx):
    k, g = grids(ctx)
    pos = g.pos
    x, y, r = ctx.uni(-1, 1), ctx.uni(-.5, 1), ctx.pick(ctx.uni(.01, .8), ctx.uni(.2, .6))
    kinds = ['circle-sector', 'rect-sector', 'poly-sector'] + (['circle', 'rect', 'poly'] if k == 'rect' else ['cuboid'] if k == 'rect3' else [])
    s = ctx.pick(*kinds)
    x2, y2 = x + ctx.uni(.3, 1), y + ctx.uni(.3, 1)

    def away(v, *lims):
        if any(np.any(np.abs(v - q) < 1e-6) for q in lims):
            raise Skip

    if s in ('circle', 'circle-sector'):
        m = circle(pos, x, y, r, s != 'circle')
        if not m.any():
            raise Skip
        sec = (x, y, r) if s == 'circle' else ac.CircSector(x=x, y=y, r=r)
    elif s in ('rect-sector', 'poly-sector', 'poly'):
        away(pos[0], x, x2), away(pos[1], y, y2)
        m = (pos[0] > x) & (pos[0] < x2) & (pos[1] > y) & (pos[1] < y2)
        e = [x, y, x2, y, x2, y2, x, y2]
        sec = ac.RectSector(x_min=x, x_max=x2, y_min=y, y_max=y2) if s == 'rect-sector' else ac.PolySector(edges=e) if s == 'poly-sector' else tuple(e)
    else:  # from the grid point nearest to one corner to the one nearest to the other
        a, b = ctx.int(0, g.size - 1), ctx.int(0, g.size - 1)
        lo, hi = np.minimum(pos[:, a], pos[:, b]) - 1e-6, np.maximum(pos[:, a], pos[:, b]) + 1e-6
        m = ((pos >= lo[:, None]) & (pos <= hi[:, None])).all(0)
        n = 2 if s == 'rect' else 3
        sec = (*pos[:n, a], *pos[:n, b])
    if not m.any():
        raise Skip
    form = ctx.pick('flat', 'shaped', 'spectrum', 'spectrum')
    nf = ctx.int(1, 5) if form == 'spectrum' else 1
    data = powers(ctx, (nf, g.size))[0]
    want = data[:, m].sum(1)
    d = data if form == 'spectrum' else data[0] if form == 'flat' else data[0].reshape(g.shape)
    got = kept(ctx, lambda q: ac.integrate(q, g, sec), d)
    ctx.check(np.allclose(got, want if np.ndim(got) else want[0], rtol=1e-9, atol=1e-12 * np.abs(data).max()), f'integrate-{s}', lambda: f'{k} {sec} {got} {want}')
    if g.size > 1 and nf > 1:
        ctx.check(np.shape(got) == (nf,), 'integrate-shape', np.shape(got))
    if k in ('line', 'import'):
        try:
            ac.integrate(d, g, (0., 0., 1.))
            ctx.check(False, 'integrate-no-indices')
        except NotImplementedError:
            pass
    ctx.sig('integrate', k, s, form, m.all(), m.sum() == 1)
    ctx.event(nf)


@monitor('collect', quick=300, thorough=2000, floor=40)
def collect(ctx):
    name = ctx.pick(*zoo.TIME)
    src = zoo.TIME[name](ctx)
    num = ctx.pick(1, 7, 16, 64, 128, 1000)
    blocks = zoo.collect(src.result(num))
    if not blocks:
        raise Skip
    want = np.concatenate(blocks)
    nmax = ctx.pick(-1, 1, num, num + 1, 2 * num - 1, len(want), len(want) + 3, ctx.int(1, 400))
    got = return_result(src, nmax, num) if ctx.flip(.8) or num != 128 else return_result(src, nmax)
    ctx.equal(got, want[:nmax] if nmax > 0 else want, 'collect', f'{name} {nmax} {num}')
    ctx.sig('collect', name, nmax > len(want), nmax < 0, nmax % num == 0)
    ctx.event(len(got))


@monitor('names', quick=250, thorough=800, floor=30)
def names(ctx):
    stem = ctx.pick('a', 'array', 'with space', 'two.dots', 'ü', '.hidden', 'x' * 40)
    ext = ctx.pick('', '.h5', '.xml', '.tar')
    d = ctx.pick('', '/tmp/', 'rel/dir/', './', '../', '/a.b/')
    f = d + stem + ext
    want = stem if ext else (stem.rsplit('.', 1)[0] if '.' in stem[1:] else stem)
    ctx.check(get_file_basename(f) == want, 'basename', f'{f}: {get_file_basename(f)} {want}')
    ctx.check(get_file_basename('', ctx.pick('void', 'alt')) in ('void', 'alt') and get_file_basename('', 'q') == 'q' and get_file_basename('') == 'void', 'basename-empty')
    import h5py
    p = ctx.scratch / (stem.replace('/', '_') + '.h5')
    with h5py.File(p, 'w') as h:
        h.create_dataset('time_data', data=ctx.rng.standard_normal((40, 2)))
        h['time_data'].attrs['sample_freq'] = 100.
    file = ctx.flip()
    src = ac.TimeSamples(file=str(p)) if file else ac.WNoiseGenerator(sample_freq=100., num_samples=40)
    if not file:
        src = ac.UncorrelatedNoiseSource(signal=src, mics=ac.MicGeom(pos_total=np.zeros((3, 2))))
    o = src
    depth = ctx.int(0, 6)
    for _ in range(depth):
        o = ctx.pick(lambda s: ac.TimePower(source=s), lambda s: ac.TimeCumAverage(source=s), lambda s: ac.SampleSplitter(source=s), lambda s: ac.Mixer(source=s))(o)
    want = p.stem if file else 'alt'
    ctx.check(find_basename(o, 'alt') == want, 'find-basename', lambda: f'{find_basename(o, "alt")} {want} depth {depth}')
    ctx.sig('names', stem, ext, file, depth)
    ctx.event(4)


def moist(h, t, p, celsius=False):
    """water vapour fraction; the enhancement factor as documented or with the temperature in degrees Celsius as in its reference"""
    psv = np.exp(1.2378847e-5 * t * t - 1.9121316e-2 * t + 33.93711047 - 6.3431645e3 / t)
    te = t - 273.15 if celsius else t
    return h * (1.00062 + 3.14e-8 * p + 5.6e-7 * te * te) * psv / p


def sound(t, x, p, co2):
    a = [331.5024, .603055, -.000528, 51.471935, .1495874, -.000782, -1.82e-7, 3.73e-8, -2.93e-10, -85.20931, -.228525, 5.91e-5, -2.835149, -2.15e-13, 29.179762, .000486]
    T = np.array([1, t, t * t])
    c = co2 / 100
    return T @ a[:3] + T @ a[3:6] * x + T @ a[6:9] * p + T @ a[9:12] * c + a[12] * x * x + a[13] * p * p + a[14] * c * c + a[15] * x * p * c


@monitor('air', quick=300, thorough=4000, floor=40)
def air(ctx):
    t, h, p, co2 = ctx.pick(0., 30., ctx.uni(0, 30)), ctx.pick(0., 100., ctx.uni(0, 100)), ctx.pick(60e3, 110e3, 101325., ctx.uni(60e3, 110e3)), ctx.pick(0., .04, 1., ctx.uni(0, 1))
    x = mole_fraction_of_water_vapor(h / 100, t + 273.15, p)
    ctx.check(np.isclose(x, moist(h / 100, t + 273.15, p), rtol=1e-9), 'mole-fraction', lambda: f'{x}')
    lim = moist(h / 100, t + 273.15, p)
    if abs(lim - .06) < 1e-6:
        raise Skip
    bad = lim > .06
    try:
        c = c_air(t, h, p, co2)
        ctx.check(not bad, 'air-moist', f'{lim}')
        ctx.check(np.isclose(c, sound(t, x, p, co2), rtol=1e-10), 'air', lambda: f'{t} {h} {p} {co2}: {c} {sound(t, x, p, co2)}')
        ctx.check(325 < c < 360, 'air-range')
        xt = moist(h / 100, t + 273.15, p, True)
        ctx.soft(abs(c - sound(t, xt, p, co2)) < 2e-3, 'enhancement-factor@kelvin', lambda: f'{t} degrees, {h} %: {c} instead of {sound(t, xt, p, co2)}')
    except ValueError:
        ctx.check(bad, 'air-refused', f'{t} {h} {p} {co2}')
    v = [t, min(h, 20), p, co2]
    j = ctx.pick(0, 0, 2, 2, 3)
    v[j] = {0: ctx.pick(-1e-6, 30.000001, -50., 100.), 2: ctx.pick(59999.99, 110000.01, 0., 1e6), 3: ctx.pick(1.000001, 5.)}[j]
    try:
        c = c_air(*v)
        ctx.check(False, 'air-out-of-range', f'{v} {c}')
    except ValueError:
        pass
    ctx.sig('air', bad, j, t in (0, 30), h in (0, 100))
    ctx.event(2)


def rotation(ctx):
    q, r = np.linalg.qr(ctx.rng.standard_normal((3, 3)))
    q *= np.sign(np.diag(r))
    return q


@monitor('cylinder', quick=250, thorough=2000, floor=30)
def cylinder(ctx):
    n = ctx.int(1, 20)
    x = ctx.pick(ctx.rng.normal(0, 1, (3, n)), ctx.rng.integers(-1, 2, (3, n)).astype(float))
    Q = ctx.pick(None, np.identity(3), rotation(ctx))
    y = ac.environments.cartToCyl(x, Q) if Q is not None else ac.environments.cartToCyl(x)
    X = x if Q is None else Q @ x
    z = X[0] + 1j * X[1]
    ok = abs(z) > 1e-9
    ctx.check(y.shape == (3, n), 'cylinder-shape')
    ctx.check(np.allclose(y[1], abs(z), atol=1e-12) and np.allclose(y[2], X[2], atol=1e-12), 'cylinder-radius', lambda: f'{X} {y}')
    ctx.check(np.allclose(np.exp(1j * y[0][ok]), (z / np.maximum(abs(z), 1e-300))[ok], atol=1e-9) and np.all(np.abs(y[0]) <= np.pi + 1e-12), 'cylinder-angle', lambda: f'{X} {y}')
    b = kept(ctx, lambda q: ac.environments.cylToCart(q), y)
    ctx.check(b.shape == (3, n) and np.allclose(np.hypot(b[0], b[1]), abs(z), atol=1e-12) and np.allclose(b[2], X[2], atol=1e-12), 'cartesian-radius', lambda: f'{X} {b}')
    back = np.allclose(b, X, atol=1e-9)
    if not back and np.allclose(b[[1, 0, 2]], X, atol=1e-9):
        ctx.soft(False, 'cyl-roundtrip@axes-swapped', f'{X[:, 0]} returns as {b[:, 0]}')
    else:
        ctx.check(back, 'cyl-roundtrip', lambda: f'{X} {b}')
    ctx.sig('cylinder', Q is None, n == 1, ok.all())
    ctx.event(n)


@monitor('metrics', quick=500, thorough=6000, floor=50)
def metrics(ctx):
    k, g = grids(ctx)
    ns, nf = ctx.int(1, 5), ctx.int(1, 3)
    kind = ctx.pick('random', 'close', 'equal', 'points')
    tp = ctx.rng.uniform(-1, 1, (3, ns))
    tp[2] = 1. if ctx.flip(.7) else tp[2]
    if kind == 'close':
        tp = tp[:, :1] + ctx.rng.uniform(-.1, .1, (3, ns))
    elif kind == 'equal' and ns > 1:
        tp[:, -1] = tp[:, 0]
    elif kind == 'points':
        tp = g.pos[:, ctx.rng.integers(0, g.size, ns)] + ctx.rng.uniform(-1e-4, 1e-4, (3, ns))
    data, dk = powers(ctx, (nf, g.size))
    data = np.abs(data) if ctx.flip(.7) else data
    target, tk = powers(ctx, (nf, ns))
    target = np.abs(target)
    tg = ac.ImportGrid(pos=tp)
    r = ctx.pick(.05, .3, .6, 2.)
    default = ctx.flip(.15)
    adaptive, multi, near, border = ctx.flip(.7), ctx.flip(), ctx.flip(.7), ctx.flip(.7)
    m = MetricEvaluator(data=data, target_data=target, grid=g, target_grid=tg, adaptive_sector_size=adaptive, multi_assignment=multi)
    if default:
        r, near = ac.CircSector().r, ac.CircSector().default_nearest
    else:
        m.sector = ac.CircSector(r=r, default_nearest=near, include_border=border, x=9., y=9.)
    radii = np.full(ns, r)
    if adaptive:
        for i in range(ns):
            d = np.linalg.norm(tp - tp[:, [i]], axis=0)
            d = d[d > 0]
            if len(d):
                radii[i] = min(r, d.min() / 2)
    masks = [circle(g.pos, tp[0, i], tp[1, i], radii[i], near) for i in range(ns)]
    res = np.empty((nf, ns))
    for f in range(nf):
        free = np.ones(g.size, bool)
        for i in range(ns):
            s = masks[i] & free
            res[f, i] = data[f, s].sum()
            if not multi:
                free &= ~masks[i]
    tol = 1e-9 * np.abs(data).max()

    def same(got, want, name, num=None, den=None):
        """levels of sums; nearly cancelling sums are not judged"""
        ctx.check(got.shape == want.shape, f'metric-shape-{name}', f'{got.shape} {want.shape}')
        ok = np.ones(want.shape, bool)
        for v in (num, den):
            if v is not None:
                ok &= (np.abs(v) > 1e5 * tol) | (v == 0)
        ctx.check(np.allclose(got[ok], want[ok], atol=1e-4), f'metric-{name}', lambda: f'{k} {tp} r={r} {radii} multi={multi} adaptive={adaptive}: {got} {want}')
        ctx.event(int(ok.sum()))

    order = ['overall', 'specific', 'inverse']
    ctx.rng.shuffle(order)
    for q in order:
        if q == 'overall':
            same(kept(ctx, lambda *_: m.get_overall_level_error(), data, target), level(data.sum(1)) - level(target.sum(1)), q, data.sum(1))
        elif q == 'specific':
            same(kept(ctx, lambda *_: m.get_specific_level_error(), data, target), level(res) - level(target), q, res)
        else:
            same(kept(ctx, lambda *_: m.get_inverse_level_error(), data, target), level(res.sum(1)) - level(data.sum(1)), q, res.sum(1), data.sum(1))
        ctx.check(np.array_equal(m.data, data) and np.array_equal(m.target_data, target), 'metric-data-changed', q)
    ss = m.sectors
    ctx.check(len(ss) == ns and all(np.isclose(s.r, q) and s.x == x and s.y == y for s, q, x, y in zip(ss, radii, tp[0], tp[1])), 'metric-sectors')
    ctx.check(m.sector.r == r and (default or (m.sector.x, m.sector.y) == (9., 9.)), 'metric-sector-changed')
    w = ctx.pick('freq', 'points', 'targets')
    if w == 'freq':
        m.target_data = np.ones((nf + 1, ns))
    elif w == 'points':
        m.data = np.ones((nf, g.size + 1))
    else:
        m.target_data = np.ones((nf, ns + 1))
    for f in (m.get_overall_level_error, m.get_specific_level_error, m.get_inverse_level_error):
        try:
            f()
            ctx.check(False, 'metric-validation', w)
        except ValueError:
            pass
    ctx.sig('metrics', k, kind, adaptive, multi, default, near, ns == 1)


@monitor('demo', quick=1, thorough=4, floor=1, timeout=300)
def demo(ctx):
    """the documented example of three sources"""
    import h5py
    from acoular.demo import acoular_demo
    n = ctx.int(2, 4)
    mg = ac.MicGeom(pos_total=ctx.rng.uniform(-.3, .3, (3, n)) * [[1], [1], [0]])
    f = ctx.scratch / 'three.h5'
    src = acoular_demo.create_three_sources(mg, h5savefile=str(f))
    y = return_result(src, num=4096)
    ctx.check(y.shape == (51200, n) and src.sample_freq == 51200, 'demo-shape', y.shape)
    with h5py.File(f, 'r') as h:
        ctx.check(np.allclose(h['time_data'][()], y, rtol=1e-6, atol=1e-6), 'demo-file')
    loc = np.array([[-.1, -.1, -.3], [.15, 0, -.3], [0, .1, -.3]])
    for i in range(n):
        d = np.linalg.norm(loc - mg.pos[:, i], axis=1)
        want = np.sum(np.array([1, .7, .5]) ** 2 / d ** 2)
        ctx.check(abs(np.mean(y[:, i] ** 2) / want - 1) < .05, 'demo-power', lambda: f'{np.mean(y[:, i] ** 2)} {want}')
    ctx.check(not (ctx.scratch / 'none').exists() and acoular_demo.create_three_sources(mg, h5savefile='') is not None, 'demo-no-file')
    ctx.sig('demo', n)
    ctx.event(n)
