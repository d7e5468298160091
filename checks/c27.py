"""C27: map access, band synthesis and sector integration are consistent."""
import shutil
import warnings

import acoular as ac
import numpy as np
import zoo
from acoular import config
from c23 import matrices
from vf import MONITORS, monitor

MONITORS.clear()  # importing the builders of C23 registers its monitors, too
RULE = ('a case draws a beamformer, spectra, grid and a sequence of requests (lines, slices, bands, sectors, changed settings, storage) and compares every answer with sums '
        'over the maps of a fresh object read line by line; non-trivial = class x storage x request kinds x band/sector kind')
ASSUMPTIONS = ['sector borders keep a distance from grid points (C32 decides borders)', 'frequencies are ascending', 'band: lower limit included, upper excluded; limits are drawn away from lines except where the limit is the line itself']

CLASSES = [ac.BeamformerBase, ac.BeamformerEig, ac.BeamformerCapon, ac.BeamformerMusic, ac.BeamformerFunctional, ac.BeamformerClean, ac.BeamformerCleansc,
           ac.BeamformerOrth, ac.BeamformerDamas, ac.BeamformerCMF]


def make(ctx, cls=None, grid=None):
    M = ctx.int(4, 7)
    st = ac.SteeringVector(mics=zoo.mics(ctx, M, 0.5), grid=grid or rect(ctx), env=zoo.env(ctx, False), steer_type=ctx.pick('classic', 'true level', 'true location'))
    cls = cls or ctx.pick(*CLASSES)
    if ctx.flip():
        bs = 128
        x = ctx.rng.standard_normal((bs * 12, M))
        ps = ac.PowerSpectra(source=ac.TimeSamples(data=x, sample_freq=ctx.pick(12800.0, 51200.0)), block_size=bs)
        if ctx.flip(0.4):
            lo = ctx.int(0, 6)
            ps.ind_low, ps.ind_high = lo, ctx.pick(lo + ctx.int(1, 8), -1, None, -3)
            if ctx.flip(0.2):
                ps.ind_low, ps.ind_high = -ctx.int(4, 12), ctx.pick(-1, None, -3)
        k = 'measured'
    else:
        nf = ctx.int(2, 9)
        A = ctx.rng.standard_normal((nf, M, 3 * M)) + 1j * ctx.rng.standard_normal((nf, M, 3 * M))
        ps = ac.PowerSpectraImport(csm=A @ A.conj().swapaxes(1, 2) / M, frequencies=np.sort(ctx.rng.uniform(200, 5000, nf)))
        k = 'import'
    kw = dict(freq_data=ps, steer=st)
    if cls in (ac.BeamformerDamas, ac.BeamformerClean, ac.BeamformerCleansc):
        kw['n_iter'] = 3
    if cls is ac.BeamformerCMF:
        kw.update(method='fmin_l_bfgs_b', n_iter=3, unit_mult=1.0)
    if cls in (ac.BeamformerEig, ac.BeamformerMusic):
        kw['n'] = 1
    return cls, kw, k


def rect(ctx):
    inc = ctx.pick(0.1, 0.2, 0.15)
    nx, ny = ctx.int(1, 6), ctx.int(1, 6)
    x, y = ctx.uni(-0.5, 0), ctx.uni(-0.5, 0)
    return ac.RectGrid(x_min=x, x_max=x + inc * (nx - 1), y_min=y, y_max=y + inc * (ny - 1), z=0.6, increment=inc)


def grids(ctx):
    k = ctx.pick('rect', 'rect', 'rect', '3d', 'import', 'line', 'merge')
    if k == 'rect':
        return k, rect(ctx)
    if k == '3d':
        return k, ac.RectGrid3D(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.2, z_min=0.5, z_max=ctx.pick(0.5, 0.7), increment=0.1)
    if k == 'import':
        return k, ac.ImportGrid(pos=ctx.rng.uniform(-0.5, 0.5, (3, ctx.int(2, 20))) + np.array([[0], [0], [1.0]]))
    if k == 'line':
        return k, ac.LineGrid(loc=(-0.3, ctx.uni(-0.2, 0.2), 0.6), direction=(1.0, ctx.uni(-1, 1), 0.0), length=0.7, num_points=ctx.int(2, 12))
    return k, ac.MergeGrid(grids=[rect(ctx), ac.ImportGrid(pos=np.array([[0.611], [0.622], [0.633]]))])


def maps(cls, kw):
    """All maps of a fresh object without any storage, one after the other."""
    old = config.global_caching
    config.global_caching = 'none'
    try:
        bf = cls(**kw)
        return np.array([np.array(bf.result[i]) for i in range(len(kw['freq_data'].fftfreq()))]), np.asarray(kw['freq_data'].fftfreq())
    finally:
        config.global_caching = old


def lines(ctx, nf):
    k = ctx.pick('int', 'neg', 'slice', 'step', 'all', 'open')
    if k == 'int':
        return k, ctx.int(0, nf - 1)
    if k == 'neg':
        return k, -ctx.int(1, nf)
    a, b = sorted((ctx.int(0, nf), ctx.int(0, nf)))
    if k == 'slice':
        return k, slice(a, b)
    if k == 'step':
        return k, slice(a, b, ctx.pick(2, 3)) if ctx.flip() else slice(None, None, 2)
    if k == 'open':
        return k, ctx.pick(slice(a, None), slice(None, b), slice(-2, None), slice(None, -1))
    return k, slice(None)


@monitor('access', quick=200, thorough=5000, floor=60)
def access(ctx):
    """Any order and form of access delivers the same maps."""
    cls, kw, k = make(ctx)
    want, f = maps(cls, kw)
    mode = config.global_caching = ctx.pick('none', 'all', 'individual')
    config.cache_dir = str(ctx.scratch)
    config.h5library = ctx.pick('pytables', 'h5py')
    try:
        log = []
        bf = cls(**kw)
        for _ in range(ctx.int(2, 6)):
            q, key = lines(ctx, len(f))
            if ctx.flip(0.2):
                bf = cls(**kw)
            log.append(f'{q}:{key}')
            ctx.note(cls=cls.__name__, spectra=k, mode=mode, log=log)
            got = np.array(bf.result[key])
            ref = want[key]
            ctx.check(got.shape == ref.shape, 'access-shape', f'{got.shape} {ref.shape}')
            ctx.check(np.allclose(got, ref, rtol=1e-12, atol=0, equal_nan=True), 'access', lambda: f'{key}: {np.abs(got - ref).max()}')
            ctx.sig(cls.__name__, k, mode, q)
            ctx.event(got.size)
    finally:
        bf = None
        for i in kw.values():
            if getattr(i, 'h5f', None):
                i.h5f = None
        config.global_caching = 'none'


@monitor('bands', quick=300, thorough=8000, floor=100)
def bands(ctx):
    config.global_caching = 'none'
    gk, g = grids(ctx)
    cls, kw, k = make(ctx, ctx.pick(ac.BeamformerBase, ac.BeamformerBase, ac.BeamformerOrth, ac.BeamformerEig), g)
    want, f = maps(cls, kw)
    bf = cls(**kw)
    for _ in range(ctx.int(1, 4)):
        num = ctx.pick(0, 0, 1, 3, 12, 'list')
        if num == 0:
            i = ctx.int(0, len(f) - 1)
            w = ctx.pick('line', 'between', 'above', 'below')
            if w == 'line':
                fc, ref = f[i], want[i]
            elif w == 'above':
                fc, ref = f[-1] * 1.3 + 1, np.zeros(want.shape[1])
            elif w == 'below':
                fc, ref = f[0] - 10, want[0]
            else:  # the line used is named in the warning
                j = min(i + 1, len(f) - 1)
                fc = 0.5 * (f[i] + f[j])
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter('always')
                    got = bf.synthetic(fc, 0)
                msgs = [str(m.message) for m in rec]
                if j == i:
                    ref = want[i]
                else:
                    ctx.check(any('Using frequency' in m for m in msgs), 'single-line-warning', str(msgs))
                    ref = want[j] if any(f'{f[j]:g} Hz instead' in m for m in msgs) else want[i]
                    ctx.check(any(f'{f[q]:g} Hz instead' in m for m in msgs for q in (i, j)), 'single-line-warning', str(msgs))
            f1 = f2 = None
            kind = f'single-{w}'
        else:
            if num == 'list':
                f1, f2 = sorted((ctx.uni(0, f[-1] * 1.1), ctx.uni(0, f[-1] * 1.1)))
                if ctx.flip(0.3):  # limits on lines: the lower one belongs to the band, the upper one does not
                    f1, f2 = f[ctx.int(0, len(f) - 1)], f[-1]
                arg, fc = [float(f1), float(f2)], 1000.0
                if f1 == f2:
                    continue
                kind = 'list'
            else:
                fc = ctx.uni(f[0] * 0.7 + 1, f[-1] * 1.3)
                arg = num
                f1, f2 = fc * 2**(-0.5 / num), fc * 2**(0.5 / num)
                kind = f'1/{num}'
            sel = (f >= f1) & (f < f2)
            ref = want[sel].sum(0)
            kind += '-empty' if not sel.any() else '-one' if sel.sum() == 1 else ''
        got = np.array(bf.synthetic(fc, 0 if num == 0 else arg))
        ctx.note(cls=cls.__name__, spectra=k, grid=gk, num=num, fc=fc, f1=f1, f2=f2, lines=list(f[:6]))
        ctx.sig(cls.__name__, k, gk, kind)
        ctx.check(got.shape == (tuple(g.shape) if not np.isscalar(g.shape) else (g.shape,)), 'band-shape', f'{got.shape} {g.shape}')
        ctx.close(got.ravel(), ref, f'band@{"single" if num == 0 else "sum"}', kind, rtol=1e-12, scale=np.abs(want).max())
        ctx.event(got.size)


def sector(ctx, gk, g):
    """A sector, the positions inside it, and whether it is given as numbers."""
    p = np.asarray(g.pos)
    c = p[:, ctx.int(0, p.shape[1] - 1)] + ctx.rng.uniform(-0.04, 0.04, 3)
    numbers = gk in ('rect', '3d') and ctx.flip()
    shapes = ('rect', 'circle', 'multi') if not numbers else (('rect', 'circle', 'point') if gk == 'rect' else ('box',))
    if gk == '3d' and not numbers:
        shapes = ('rect', 'box', 'circle', 'multi')
    s = ctx.pick(*shapes)
    lo, hi = p.min(1), p.max(1)
    if numbers:
        inc = g.increment
        i = [ctx.int(0, max(n - 1, 0)) for n in g.shape]
        j = [ctx.int(a, n - 1) for a, n in zip(i, g.shape)]

        def edge(q, side):  # within the nearest-point cell of the point
            return [float(np.clip(lo[d] + q[d] * inc + ctx.uni(-0.4, 0.4) * inc, (g.x_min, g.y_min, getattr(g, 'z_min', 0))[d], (g.x_max, g.y_max, getattr(g, 'z_max', 0))[d])) for d in range(len(q))]
        if s in ('rect', 'box'):
            a, b = edge(i, -1), edge(j, 1)
            ind = np.zeros(g.shape, bool)
            ind[tuple(slice(u, v + 1) for u, v in zip(i, j))] = True
            # the corners may be given in any order
            if ctx.flip(0.3):
                a[0], b[0] = b[0], a[0]
            return s + '-numbers', (*a, *b), ind.ravel()
        if s == 'circle':
            r = ctx.uni(0.02, 0.4)
            c = np.clip(c, lo, hi)
            d = np.hypot(p[0] - c[0], p[1] - c[1])
            ind = d <= r
            if np.abs(d - r).min() < 1e-9:
                ind = None
            if ind is not None and not ind.any():
                u = [int(np.clip(np.floor((c[q] - lo[q]) / inc + 0.5), 0, g.shape[q] - 1)) for q in (0, 1)]
                ind = np.zeros(g.shape, bool)
                ind[tuple(u)] = True
                ind = ind.ravel()
            return s + '-numbers', (c[0], c[1], r), ind
        ind = np.zeros(g.shape, bool)  # four equal numbers: the nearest point
        ind[tuple(i)] = True
        a = edge(i, 0)
        return s + '-numbers', (*a, *a), ind.ravel()

    def simple(s):
        h = ctx.rng.uniform(0.01, 0.4, 3)
        if s == 'rect':
            o = ac.RectSector(x_min=c[0] - h[0], x_max=c[0] + h[0], y_min=c[1] - h[1], y_max=c[1] + h[1], default_nearest=False)
            ind = (np.abs(p[0] - c[0]) < h[0]) & (np.abs(p[1] - c[1]) < h[1])
        elif s == 'box':
            o = ac.RectSector3D(x_min=c[0] - h[0], x_max=c[0] + h[0], y_min=c[1] - h[1], y_max=c[1] + h[1], z_min=c[2] - h[2], z_max=c[2] + h[2], default_nearest=False)
            ind = (np.abs(p - c[:, None]) < h[:, None]).all(0)
        else:
            r = h[0]
            o = ac.CircSector(x=c[0], y=c[1], r=r, default_nearest=False)
            ind = np.hypot(p[0] - c[0], p[1] - c[1]) < r
        return o, ind

    if s != 'multi':
        o, ind = simple(s)
        return s, o, ind
    parts = [simple(ctx.pick('rect', 'circle')) for _ in range(ctx.int(1, 3))]
    return s, ac.MultiSector(sectors=[o for o, _ in parts]), np.any([i for _, i in parts], axis=0)


@monitor('sectors', quick=400, thorough=10000, floor=120)
def sectors(ctx):
    config.global_caching = 'none'
    gk, g = grids(ctx)
    cls, kw, k = make(ctx, ctx.pick(ac.BeamformerBase, ac.BeamformerBase, ac.BeamformerOrth), g)
    want, f = maps(cls, kw)
    ps = kw['freq_data']
    bf = cls(**kw)
    log = []
    for _ in range(ctx.int(1, 4)):
        s, sec, ind = sector(ctx, gk, g)
        if ind is None:
            continue
        how = ctx.pick('all', 'frange', 'bands', 'function', 'function-map')
        log.append(f'{how}/{s}')
        ctx.note(cls=cls.__name__, spectra=k, grid=gk, sector=s, how=how, inside=int(ind.sum()), log=log, sec=str(sec))
        ctx.sig(cls.__name__, k, gk, s, how, int(ind.sum()) == 0)
        spec = want[:, ind].sum(1)
        tol = dict(rtol=1e-12, scale=np.abs(want).sum(1).max())
        if how == 'all':
            sel = np.zeros(len(f), bool)
            sel[np.arange(len(f))[ps.ind_low:ps.ind_high]] = True
            got = bf.integrate(sec)
            ctx.close(got, np.where(sel, spec, 0), 'integrate', s, **tol)
        elif how == 'frange':
            f1, f2 = sorted((ctx.uni(0, f[-1] * 1.1), ctx.uni(0, f[-1] * 1.1)))
            if ctx.flip(0.3):
                f1 = f[ctx.int(0, len(f) - 1)]
                f1, f2 = min(f1, f2), max(f1, f2)
            sel = (f >= f1) & (f < f2)
            fr, got = bf.integrate(sec, frange=(f1, f2))
            ctx.equal(fr, f[sel], 'integrate-frequencies')
            ctx.close(got, spec[sel], 'integrate-range', s, **tol)
        elif how == 'bands':
            num = ctx.pick(1, 3)
            fc = [ctx.uni(f[0] + 1, f[-1]) for _ in range(ctx.pick(1, 2, 3, ctx.int(4, 8)))]
            ref = [spec[(f >= c * 2**(-0.5 / num)) & (f < c * 2**(0.5 / num))].sum() for c in fc]
            got = bf.integrate(sec, frange=fc if len(fc) > 1 or ctx.flip() else fc[0], num=num)
            ctx.close(np.atleast_1d(got), ref, 'integrate-bands', s, **tol)
        elif how == 'function':
            got = ac.integrate(want, g, sec)
            if want.size == g.size:
                ctx.close(np.atleast_1d(got), spec, 'integrate-function', s, **tol)
            else:
                ctx.close(got, spec, 'integrate-function', s, **tol)
        else:
            i = ctx.int(0, len(f) - 1)
            got = ac.integrate(want[i].reshape(g.shape), g, sec)
            ctx.close(got, spec[i], 'integrate-function', s, **tol)
        ctx.event()
        if ctx.flip(0.2):  # another set of lines for the same object
            cls2, kw2, k = make(ctx, cls, g)
            kw2['freq_data'] = kw2['freq_data'] if kw2['freq_data'].num_channels == kw['steer'].mics.num_mics else ps
            kw = dict(kw, freq_data=kw2['freq_data'])
            ps = kw['freq_data']
            bf.freq_data = ps
            want, f = maps(cls, kw)
            log.append('other spectra')


@monitor('gridless', quick=12, thorough=200, floor=4)
def gridless(ctx):
    """Integration over the positions found without grid."""
    config.global_caching = 'none'
    cls, kw, k = make(ctx, ac.BeamformerBase)
    n = ctx.int(1, 2)
    ps = kw['freq_data']
    if k == 'measured':
        ps = ac.PowerSpectraImport(csm=np.array(ps.csm[1:4]), frequencies=np.asarray(ps.fftfreq()[1:4]))
    bf = ac.BeamformerGridlessOrth(freq_data=ps, steer=kw['steer'], n=n, bounds=[(-0.5, 0.5), (-0.5, 0.5), (0.5, 0.6)], shgo={'n': 16})
    c = ctx.rng.uniform(-0.3, 0.3, 2)
    sec = ac.CircSector(x=c[0], y=c[1], r=ctx.uni(0.1, 0.5), default_nearest=False)
    got = bf.integrate(sec)
    p = np.array(bf.pos)
    ind = np.hypot(p[0] - sec.x, p[1] - sec.y) < sec.r
    R = np.array(bf.result[:])
    ctx.close(got, R[:, ind].sum(1), 'integrate-gridless', rtol=1e-12, scale=R.max())
    ctx.sig(n, k, len(got), int(ind.sum()))
    ctx.event(len(got))


@monitor('levels', quick=150, thorough=3000, floor=50)
def levels(ctx):
    t = ctx.pick('float64', 'float32')
    n = ctx.pick((), (ctx.int(1, 20),), (ctx.int(1, 4), ctx.int(1, 5)))
    x = (10.0**ctx.rng.uniform(-25, 12, n)).astype(t) if n != () else float(10.0**ctx.uni(-25, 12))
    x = np.array(x)
    z = ctx.rng.random(n) < 0.3
    x = np.where(z, np.where(ctx.rng.random(n) < 0.5, 0, -np.abs(x)), x).astype(t)
    before = x.copy()
    with warnings.catch_warnings(), np.errstate(all='raise'):
        warnings.simplefilter('error')
        got = ac.L_p(x if n != () else (x.item() if ctx.flip() else x))
    ctx.sig(t, len(n), bool(np.any(x < 0)), bool(np.any(x == 0)))
    xx = before.astype(float)
    with np.errstate(all='ignore'):
        want = np.where(xx / 4e-10 > 1e-35, 10 * np.log10(xx / 4e-10), -350.0)
    ctx.close(got, want, 'level', rtol=0, atol=2e-4 if t == 'float32' else 1e-9)
    ctx.equal(x, before, 'level-input')
    ctx.event(x.size)
