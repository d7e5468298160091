"""C19: stationary sources deliver the delayed and attenuated signal."""
import acoular as ac
import numpy as np
import zoo
from prop import env_dist, indices, match
from vf import Skip, monitor

RULE = ('a case draws geometry, environment (rest or uniform flow), start times, padding mode, upsampling, signal and block size; every delivered sample is compared '
        'with the upsampled signal at the own-calculated index divided by the own-calculated distance; non-trivial = source x padding x flow x delay regime')
ASSUMPTIONS = ['a position between two samples of the upsampled grid is rounded to the nearest one (truncation towards zero is admitted for negative positions, either one at ties)',
               'sources other than the point source end where the signal ends at any microphone; negative positions there wrap around the signal once',
               'the constant sub-sample offset of the spherical harmonic source (0.105 samples) is admitted']


def geom(ctx):
    M = ctx.int(1, 6)
    mic = ac.MicGeom(pos_total=ctx.rng.uniform(-1, 1, (3, M)) * np.array([[1], [1], [0.2]]))
    if M > 2 and ctx.flip(0.3):
        mic.invalid_channels = [ctx.int(0, M - 1)]
    loc = tuple(float(v) for v in ctx.rng.uniform(-1, 1, 2)) + (ctx.uni(0.3, 3),)
    return mic, loc


def vary_env(ctx):
    return zoo.env(ctx, ctx.flip(0.4))


def kwargs(ctx, env):
    return dict(env=env, start_t=ctx.pick(0.0, 0.0, ctx.uni(0, 0.02)), start=ctx.pick(0.0, ctx.uni(0, 0.02)), up=ctx.pick(1, 2, 5, 16))


@monitor('point', quick=400, thorough=12000, floor=150)
def point(ctx):
    mic, loc = geom(ctx)
    env = vary_env(ctx)
    n = ctx.pick(ctx.int(2, 40), ctx.int(100, 500))
    sig = zoo.signal(ctx, n, ctx.pick(8000.0, 25600.0, 51200.0))
    kw = kwargs(ctx, env)
    pad = ctx.pick('loop', 'zeros')
    ps = ac.PointSource(signal=sig, mics=mic, loc=loc, prepadding=pad, **kw)
    num = ctx.pick(1, 3, 16, 64, 128, n, n + 7)
    if num == 1 and n > 150:
        num = 7
    got = zoo.full(ps, num)
    u = sig.usignal(kw['up'])
    r = env_dist(env, np.array(loc)[:, None], mic.pos)
    q = (-r / env.c - kw['start_t'] + kw['start']) * sig.sample_freq * kw['up'] + np.arange(n)[:, None] * kw['up']
    ctx.note(n=n, num=num, pad=pad, up=kw['up'], start=kw['start'], start_t=kw['start_t'], flow=getattr(env, 'ma', 0.0), first=float(q.min()), last=float(q.max()))
    ctx.sig(pad, kw['up'], hasattr(env, 'ma'), q.min() < 0, q.max() < 0, q.min() < -len(u), q.max() >= len(u), num >= n, mic.num_mics)
    ctx.check(got.shape == (n, mic.num_mics), 'point-shape', f'{got.shape}')
    c = [u[i % len(u)] / r for i in indices(q)]
    if pad == 'zeros':
        c = [np.where(q < s, 0.0, w) for w in c for s in (-1e-6, 1e-6)]
    match(ctx, got, c, f'point@{pad}', 1e-9 * np.abs(u).max() / r.min())
    ctx.event(n)


@monitor('point-changes', quick=80, thorough=2000, floor=40)
def point_changes(ctx):
    """Inverse distance law, delay law and linearity between runs of the same object."""
    mic, loc = geom(ctx)
    n, fs = ctx.int(200, 400), 25600.0
    sig = zoo.signal(ctx, n, fs, 'white')
    ps = ac.PointSource(signal=sig, mics=mic, loc=loc, up=ctx.pick(1, 8), prepadding='loop')
    a = zoo.full(ps, 100)
    ctx.sig(ps.up)
    k = ctx.int(1, 20)
    # starting k samples later delivers the same stream advanced by k samples
    ps.start = k / fs
    b = zoo.full(ps, 64)
    same = np.abs(b[:-k] - a[k:]) <= 1e-9 * np.abs(a).max()
    ctx.check(same.mean() > 0.9, 'point-shift', lambda: f'{same.mean()} equal, k={k}')
    ps.start, ps.start_t = 0.0, 0.0
    ps.signal = s2 = sig.clone_traits()
    s2.rms = 3 * sig.rms
    ctx.close(zoo.full(ps, 33), 3 * a, 'point-linear', rtol=1e-9)
    ctx.close(zoo.full(ac.PointSource(signal=sig, mics=mic, loc=loc, up=ps.up), 17), a, 'point-unchanged-signal', rtol=1e-12)


def ended(q, size):
    """rows delivered before any microphone needs a sample beyond the signal (two candidates at ties)"""
    return {int(min(len(q), (np.floor(q + 0.5 + e) < size).all(1).cumprod().sum())) for e in (-1e-6, 1e-6)}


def setup(ctx, kind='white'):
    mic, loc = geom(ctx)
    env = vary_env(ctx)
    n, fs = ctx.int(150, 400), ctx.pick(8000.0, 25600.0)
    sig = zoo.signal(ctx, n, fs, kind)
    kw = kwargs(ctx, env)
    kw['start_t'] = ctx.pick(0.0, ctx.uni(0, 0.004))
    return mic, loc, env, n, fs, sig, kw


def pos(ctx, env, p, mic, kw, fs, n, size, extra=0.0):
    r = env_dist(env, np.array(p, float)[:, None], mic.pos)
    q = ((-r / env.c - kw['start_t'] + kw['start']) * fs + extra + np.arange(n)[:, None]) * kw['up']
    if q.min() < -size + 1:
        raise Skip
    return r, q


@monitor('dipole', quick=250, thorough=6000, floor=60)
def dipole(ctx):
    mic, loc, env, n, fs, sig, kw = setup(ctx, ctx.pick('white', 'sine', 'filt'))
    d = ctx.rng.standard_normal(3) * ctx.pick(1.0, 10.0, 1e3)
    src = ac.PointSourceDipole(signal=sig, mics=mic, loc=loc, direction=tuple(d), **kw)
    u = sig.usignal(kw['up'])
    dist = env.c / fs * np.linalg.norm(d) * 1e-5
    h = d / np.linalg.norm(d) * dist / 2
    r, q0 = pos(ctx, env, loc, mic, kw, fs, n, len(u))
    r1, q1 = pos(ctx, env, loc + h, mic, kw, fs, n, len(u))
    r2, q2 = pos(ctx, env, loc - h, mic, kw, fs, n, len(u))
    k = ended(np.maximum(q1, q2), len(u))
    num = ctx.pick(5, 64, 1000)
    got = zoo.full(src, num)
    ctx.note(n=n, up=kw['up'], num=num, flow=getattr(env, 'ma', 0.0), d=np.linalg.norm(d), delivered=len(got))
    ctx.sig(hasattr(env, 'ma'), q0.min() < 0, max(k) < n, kw['up'], np.linalg.norm(d) > 10)
    ctx.check(len(got) in k, 'dipole-length', f'{len(got)} {k}')
    m = len(got)
    if m == 0:
        return
    c = [r / dist * (u[i[:m] % len(u)] / r1 - u[j[:m] % len(u)] / r2) for i in indices(q1, 1e-5) for j in indices(q2, 1e-5)]
    match(ctx, got, c, 'dipole', np.abs(u).max() * (1e-7 * np.max(r / dist / r1) + 1e-6))


@monitor('line', quick=250, thorough=6000, floor=60)
def line(ctx):
    mic, loc, env, n, fs, sig, kw = setup(ctx, ctx.pick('white', 'sine', 'filt'))
    K = ctx.int(1, 5)
    d, L, w = ctx.rng.standard_normal(3) * ctx.pick(1, 5), ctx.uni(0.1, 1.5), ctx.rng.uniform(-2, 2, K)
    src = ac.LineSource(signal=sig, mics=mic, loc=loc, direction=tuple(d), length=L, num_sources=K, source_strength=w, **kw)
    u = sig.usignal(kw['up'])
    rq = [pos(ctx, env, np.array(loc) + d / np.linalg.norm(d) * L / K * s, mic, kw, fs, n, len(u)) for s in range(K)]
    k = ended(np.max([q for _, q in rq], axis=0), len(u))
    num = ctx.pick(5, 64, 1000)
    got = zoo.full(src, num)
    ctx.note(n=n, up=kw['up'], K=K, L=L, num=num, delivered=len(got))
    ctx.sig(K, hasattr(env, 'ma'), max(k) < n, kw['up'])
    ctx.check(len(got) in k, 'line-length', f'{len(got)} {k}')
    m = len(got)
    if m == 0:
        return
    tot = np.zeros((m, mic.num_mics))
    amb = np.zeros((m, mic.num_mics), bool)
    for s, (r, q) in enumerate(rq):
        i = indices(q)
        amb |= np.any([v != i[0] for v in i], axis=0)[:m]
        tot += w[s] * u[i[0][:m] % len(u)] / r
    ok = (np.abs(got - tot) <= 1e-9 * K * 2 * np.abs(u).max() / min(r.min() for r, _ in rq)) | amb
    ctx.check(np.isfinite(got).all() and ok.all(), 'line', lambda: f'{int((~ok).sum())}/{ok.size} differ, first {np.argwhere(~ok)[:1].tolist()}')
    ctx.check(amb.mean() < 0.7, 'harness-ambiguous') if (rq[0][1].min() >= 0) else None


@monitor('line-incoherent', quick=40, thorough=800, floor=15)
def line_incoherent(ctx):
    """Monopoles far apart, one microphone next to each: uncorrelated contributions of the right strength."""
    K, L = ctx.int(2, 4), 40.0
    d = ctx.rng.standard_normal(3)
    d /= np.linalg.norm(d)
    loc = np.array([0.3, -0.2, 1.0])
    off = np.cross(d, [0.3, 0.7, -0.2])
    off *= 0.05 / np.linalg.norm(off)
    mic = ac.MicGeom(pos_total=np.array([loc + d * L / K * s + off for s in range(K)]).T)
    n, fs, rms = 6000, 25600.0, ctx.uni(0.5, 2)
    sig = ac.WNoiseGenerator(rms=rms, seed=ctx.int(0, 99), num_samples=n, sample_freq=fs)
    w = ctx.rng.uniform(0.5, 2, K)
    kw = dict(signal=sig, mics=mic, loc=tuple(loc), direction=tuple(d), length=L, num_sources=K, source_strength=w, up=ctx.pick(1, 2))
    coh = ctx.pick('incoherent', 'incoherent', 'coherent')
    src = ac.LineSource(coherence=coh, **kw)
    got = zoo.full(src, 512)
    ctx.sig(coh, K, kw['up'])
    ctx.note(K=K, coh=coh, w=w.tolist())
    R = np.corrcoef(got.T)
    lev = got.std(0) / (rms * w / 0.05)
    o = np.abs(R - np.eye(K)).max()
    if coh == 'incoherent':
        ctx.check(o < 0.12, 'incoherent-correlated', lambda: str(R))
    else:
        ctx.check(R.min() > 0.9, 'coherent-uncorrelated', lambda: str(R))
    ctx.check(np.all(np.abs(lev - 1) < 0.15), 'line-level', lambda: str(lev))
    ctx.equal(zoo.full(src, 512), got, 'line-repeat')
    if coh == 'incoherent':
        ctx.equal(zoo.full(ac.LineSource(coherence=coh, **kw), 512), got, 'line-fresh-repeat')
    ctx.check(sig.seed < 100, 'signal-seed-changed')


@monitor('spherical', quick=200, thorough=4000, floor=60)
def spherical(ctx):
    mic, loc, env, n, fs, sig, kw = setup(ctx)
    a = ctx.uni(-3, 3)
    num = ctx.pick(7, 64, 1000)
    src = ac.SphericalHarmonicSource(signal=sig, mics=mic, loc=loc, lOrder=0, alpha=[a], direction=tuple(ctx.rng.standard_normal(3)), **kw)
    u = sig.usignal(kw['up'])
    both = [pos(ctx, env, loc, mic, kw, fs, n, len(u), extra=e) for e in (0.0, np.pi / 30)]
    got = zoo.full(src, num)
    k = set().union(*[ended(q, len(u)) for _, q in both])
    ctx.note(n=n, up=kw['up'], num=num, alpha=a)
    ctx.sig(hasattr(env, 'ma'), kw['up'], max(k) < n)
    ctx.check(len(got) in k, 'spherical-length', f'{len(got)} {k}')
    m = len(got)
    if not m:
        return
    c = [a / np.sqrt(4 * np.pi) * u[i[:m] % len(u)] / r for r, q in both for i in indices(q)]
    match(ctx, got, c, 'spherical-order-0', 1e-9 * abs(a) * np.abs(u).max() / both[0][0].min())
    # higher orders: every microphone hears the monopole times its own constant, linear in the coefficients
    lo = ctx.int(1, 3)
    al = ctx.rng.standard_normal((lo + 1)**2)
    be = ctx.rng.standard_normal((lo + 1)**2)
    dr = tuple(ctx.rng.standard_normal(3))
    o = [zoo.full(ac.SphericalHarmonicSource(signal=sig, mics=mic, loc=loc, lOrder=lo, alpha=x, direction=dr, **kw), num) for x in (al, be, 2 * al - be)]
    ctx.close(o[2], 2 * o[0] - o[1], 'spherical-linear', rtol=1e-9, scale=np.abs(o[0]).max() + np.abs(o[1]).max())
    base = got / a
    f = (o[0] * base).sum(0) / (base * base).sum(0)
    ctx.close(o[0], f * base, 'spherical-directivity', rtol=1e-9, scale=np.abs(o[0]).max() + np.abs(base).max())


@monitor('harmonics', quick=12, thorough=60, floor=5)
def harmonics(ctx):
    """The real radiation patterns of the modes are orthogonal over the sphere."""
    lo = ctx.int(1, 4)
    x, wx = np.polynomial.legendre.leggauss(12)
    az = 2 * np.pi * np.arange(24) / 24
    ct, aa = np.meshgrid(x, az, indexing='ij')
    st = np.sqrt(1 - ct**2)
    src = ctx.rng.uniform(-1, 1, 3)
    R = ctx.uni(0.5, 3)
    # polar axis of the documented angles is y
    p = src[:, None] + R * np.array([(st * np.cos(aa)).ravel(), ct.ravel(), (st * np.sin(aa)).ravel()])
    w = np.repeat(wx, 24) * 2 * np.pi / 24
    th = ctx.uni(0, 2 * np.pi)
    Y = ac.sources.get_modes(lOrder=lo, direction=(np.cos(th), 0.0, np.sin(th)), mpos=p, sourceposition=src)
    ctx.sig(lo)
    ctx.note(lo=lo, th=th)
    ctx.check(Y.shape == (p.shape[1], (lo + 1)**2), 'modes-shape')
    G = (Y.real * w[:, None]).T @ Y.real
    ms = np.concatenate([np.arange(-i, i + 1) for i in range(lo + 1)])
    ctx.close(G, np.diag(np.where(ms == 0, 1.0, 0.5)), 'modes-orthogonal', rtol=1e-8)


@monitor('uncorrelated', quick=150, thorough=3000, floor=40)
def uncorrelated(ctx):
    M, n = ctx.int(1, 6), ctx.pick(ctx.int(1, 60), ctx.int(300, 900))
    mic = zoo.mics(ctx, M)
    kind = ctx.pick('white', 'pink', 'filt')
    sig = zoo.signal(ctx, max(n, 2), 25600.0, kind)
    n = sig.num_samples
    seeds = ctx.pick(None, ctx.rng.permutation(1000)[:M])
    kw = {} if seeds is None else dict(seed=seeds)
    src = ac.UncorrelatedNoiseSource(signal=sig, mics=mic, **kw)
    num = ctx.pick(1, 16, n, n + 3, 128)
    got = zoo.full(src, num)
    ctx.note(M=M, n=n, kind=kind, own=seeds is not None, num=num)
    ctx.sig(kind, seeds is None, num >= n, M)
    ctx.check(got.shape == (n, M), 'uncorrelated-shape', f'{got.shape}')
    # every channel is the given generator with its own seed
    sd = np.arange(M) + sig.seed if seeds is None else seeds
    for j in range(M):
        g = sig.clone_traits()
        g.seed = int(sd[j])
        ctx.close(got[:, j], g.signal(), f'uncorrelated-channel@{kind}', rtol=1e-12)
    if n >= 300 and kind == 'white' and M > 1:
        R = np.corrcoef(got.T) - np.eye(M)
        ctx.check(np.abs(R).max() < 7 / np.sqrt(n), 'uncorrelated-correlation', lambda: str(R))
    ctx.equal(zoo.full(src, num), got, 'uncorrelated-repeat')
    bad = ac.UncorrelatedNoiseSource(signal=sig, mics=mic, seed=np.arange(M + 1))
    try:
        zoo.full(bad, 64)
    except ValueError:
        return
    ctx.check(False, 'wrong-seeds-accepted')


@monitor('convolve', quick=60, thorough=1500, floor=20)
def convolve(ctx):
    M, n, L = ctx.int(1, 4), ctx.int(5, 300), ctx.int(1, 60)
    mic = zoo.mics(ctx, M)
    sig = zoo.signal(ctx, n, 25600.0, 'white')
    k = ctx.pick(ctx.rng.standard_normal(L), ctx.rng.standard_normal((L, M)))
    got = zoo.full(ac.PointSourceConvolve(signal=sig, mics=mic, kernel=k), ctx.pick(8, 100, 1000))
    s = sig.signal()
    ctx.sig(k.ndim, L > n)
    ctx.note(n=n, L=L, M=M)
    w = np.stack([np.convolve(s, k if k.ndim == 1 else k[:, j]) for j in range(M)], axis=1)
    ctx.close(got, w, 'convolve', rtol=1e-9)
