"""C20: moving sources satisfy the emission-time equation."""
import itertools

import acoular as ac
import numpy as np
import zoo
from prop import Spline, emission, indices, match
from vf import Skip, monitor

RULE = ('a case draws trajectory (2 to 8 points, slow to transonic, curved), microphones, start times, upsampling and signal; every delivered sample is compared with '
        'the signal at the emission time found by bisection on an independent spline; non-trivial = source x speed class x points x amplification x delay regime')
ASSUMPTIONS = ['the emission time is exact to the documented iteration tolerance of 0.1 upsampled samples, so a position that near to a rounding tie may take either sample',
               'microphones hear through the medium at rest (moving sources do not use flow environments); subsonic motion',
               'with a reference vector the orientation of dipoles and lines follows the formula documented in get_moving_direction']
T2 = 0.13  # tolerance of positions in upsampled samples


def scene(ctx, vmax=0.5):
    c = ctx.uni(300, 360)
    M = ctx.int(1, 5)
    mic = ac.MicGeom(pos_total=ctx.rng.uniform(-0.8, 0.8, (3, M)) * np.array([[1], [1], [0.1]]))
    sp = ctx.pick(0.02, 0.1, vmax) * c
    k = ctx.int(2, 8)
    T = ctx.uni(0.03, 0.08)
    ts = np.sort(np.concatenate([[-0.02, T], ctx.rng.uniform(0, T * 0.9, k - 2)]))
    ts = ts[np.concatenate([[True], np.diff(ts) > 2e-3])]
    v = ctx.rng.standard_normal(3)
    v *= sp * ctx.uni(0.3, 1) / np.linalg.norm(v)
    p0 = np.array([ctx.uni(-1, 1), ctx.uni(-1, 1), ctx.uni(1, 2)])
    a = ctx.pick(0.0, 0.0, 0.1) * sp
    w = 2 * np.pi / ctx.uni(0.05, 0.2)
    pts = {float(t): tuple(float(q) for q in p0 + v * t + a / w * np.array([np.sin(w * t), np.cos(w * t), 0])) for t in ts}
    return c, mic, pts, len(ts)


def setup(ctx, vmax=0.5, kind=None):
    c, mic, pts, k = scene(ctx, vmax)
    fs, n, up = ctx.pick(6000.0, 12800.0, 25600.0), ctx.int(80, 200), ctx.pick(1, 4, 16)
    sig = zoo.signal(ctx, n, fs, kind or ctx.pick('white', 'sine', 'filt'))
    start, st = ctx.pick(0.0, ctx.uni(0, 0.01)), ctx.pick(0.0, ctx.uni(0, 0.004))
    s = Spline(pts)
    te = np.linspace(-0.03, 0.08, 200)
    vm = np.sqrt((s(te, 1)**2).sum(0)).max()
    if vm > 0.75 * c:
        raise Skip
    kw = dict(signal=sig, mics=mic, trajectory=ac.Trajectory(points=pts), env=ac.Environment(c=c), start=start, start_t=st, up=up)
    t = start + np.arange(n) / fs
    return kw, s, t, fs, up, n, k, vm


def tick(ctx, te, kw, fs, up, size):
    q = (te - kw['start_t']) * fs * up
    if q.min() < -size + 2:
        raise Skip
    return q


def ends(q, size):
    return {int(np.all(np.floor(q + 0.5 + e) < size, axis=1).cumprod().sum()) for e in (-T2, T2)}


def judge(ctx, got, proper, asis, mech, tol):
    """proper and as-is admissible values: equal to the definition, or the recorded deviation, or a violation."""
    err = np.min([np.abs(got - w) for w in proper], axis=0)
    if np.isfinite(got).all() and (err <= tol).all():
        ctx.check(True, mech)
        return 'proper'
    if asis is not None:
        e2 = np.min([np.abs(got - w) for w in asis[1]], axis=0)
        if np.isfinite(got).all() and (e2 <= tol).all():
            ctx.soft(False, asis[0], f'deviates from the definition as recorded (max {err.max():.3g}, {int((err > tol).sum())}/{err.size} samples)')
            return 'as-is'
    match(ctx, got, proper, mech, tol)
    return 'proper'


@monitor('point', quick=350, thorough=9000, floor=120, timeout=240)
def point(ctx):
    kw, s, t, fs, up, n, k, vm = setup(ctx)
    conv = ctx.flip(0.4)
    src = ac.MovingPointSource(conv_amp=conv, **kw)
    num = ctx.pick(1, 16, 64, n, n + 5)
    got = zoo.full(src, num)
    c, m = kw['env'].c, kw['mics'].pos
    te, r = emission(s, m, t, c)
    u = kw['signal'].usignal(up)
    q = tick(ctx, te, kw, fs, up, len(u))
    ctx.note(n=n, num=num, points=k, mach=vm / c, conv=conv, up=up, fs=fs)
    ctx.sig(k, round(vm / c, 1), conv, up, q.min() < 0, q.max() >= len(u), num >= n)
    ln = ends(q, len(u))
    ctx.check(any(abs(len(got) - x) <= 0 for x in ln), 'moving-length', f'{len(got)} {ln}')
    L = len(got)
    if not L:
        return
    x, v = s(te[:L]), s(te[:L], 1)
    r = r[:L]
    ii = indices(q[:L], T2)
    tol = np.abs(u).max() / r * (3 * vm * T2 / fs / up / r + 1e-9) * (4 if conv else 1)
    if not conv:
        match(ctx, got, [u[i % len(u)] / r for i in ii], 'moving-point', tol)
        return
    d = m[:, None, :] - x
    phys = r * (1 - (v * d).sum(0) / r / c)**2
    orig = r * (1 - (v * x).sum(0) / np.sqrt((x * x).sum(0)) / c)**2
    judge(ctx, got, [u[i % len(u)] / phys for i in ii], ('conv-amp@origin', [u[i % len(u)] / orig for i in ii]), 'moving-point-convective', tol * 4)


@monitor('stationary', quick=120, thorough=3000, floor=30)
def stationary(ctx):
    """A source moving on a constant trajectory is the stationary source."""
    kw, *_ = setup(ctx)
    fs, up = kw['signal'].sample_freq, kw['up']
    loc = tuple(float(v) for v in ctx.rng.uniform(-1, 1, 2)) + (ctx.uni(0.5, 2),)
    kw['trajectory'] = ac.Trajectory(points={float(x): loc for x in np.linspace(-0.1, 0.3, ctx.int(2, 7))})
    cls = ctx.pick('point', 'point', 'dipole', 'line')
    conv = ctx.flip()
    base = {k: v for k, v in kw.items() if k != 'trajectory'}
    num = ctx.pick(16, 128)
    ctx.sig(cls, conv, up)
    ctx.note(cls=cls, conv=conv, up=up)
    u = kw['signal'].usignal(up)
    n = kw['signal'].num_samples
    r = np.sqrt(((np.array(loc)[:, None] - kw['mics'].pos)**2).sum(0))
    q = (kw['start'] + np.arange(n)[:, None] / fs - r / kw['env'].c - kw['start_t']) * fs * up
    if q.min() < -len(u) + 2:
        raise Skip
    tol = 1e-7 * np.abs(u).max() / r.min()
    tie = np.abs(q - np.floor(q) - 0.5) < 1e-4  # stationary and moving source may round a tie differently
    if cls == 'point':
        got = zoo.full(ac.MovingPointSource(conv_amp=conv, **kw), num)
        w = zoo.full(ac.PointSource(loc=loc, prepadding='loop', **base), num)[:len(got)]
        ctx.check(len(got) in {len(w)} | ends(q, len(u)), 'constant-length')
        if not len(got):
            return
        neg = q[:len(got)] < 0
        ok = (np.abs(got - w) <= tol) | tie[:len(got)] | neg
        ctx.check(ok.all(), 'constant-point', lambda: f'{int((~ok).sum())} differ')
    elif cls == 'line':
        K = ctx.int(1, 3)
        lk = dict(length=ctx.uni(0.1, 1), num_sources=K, source_strength=ctx.rng.uniform(0.5, 2, K), direction=tuple(ctx.rng.standard_normal(3)))
        got = zoo.full(ac.MovingLineSource(conv_amp=conv, **kw, **lk), num)
        a = zoo.full(ac.LineSource(loc=loc, **base, **lk), num)
        L = min(len(got), len(a))
        L1 = min(len(got), len(a) - 1)
        if L1 < 5:
            raise Skip
        same = np.abs(got[:L] - a[:L]) <= K * 10 * tol
        late = np.abs(got[:L1] - a[1:L1 + 1]) <= K * 10 * tol
        if same.mean() > 0.8:
            ctx.check(True, 'constant-line')
        elif late.mean() > 0.8:
            ctx.soft(False, 'moving-line@one-sample-early', 'a moving line source on a constant trajectory delivers the stationary line source one sample early')
        else:
            ctx.check(False, 'constant-line', f'{same.mean()} {late.mean()}')
    else:
        dk = dict(direction=tuple(ctx.rng.standard_normal(3)))
        got = zoo.full(ac.MovingPointSourceDipole(conv_amp=conv, **kw, **dk), num)
        a = zoo.full(ac.PointSourceDipole(loc=loc, **base, **dk), num)
        L = min(len(got), len(a))
        if L < 5:
            raise Skip
        same = np.abs(got[:L] - a[:L]) <= 1e-4 * np.abs(u).max() / r.min()
        ctx.check(same.mean() > 0.8, 'constant-dipole', f'{same.mean()}')


def direction(s, te0, vec, rvec):
    """(T, 3) orientation of the vector at emission times te0 of the first microphone."""
    if not np.any(rvec):
        return np.broadcast_to(vec, (len(te0), 3))
    out = []
    for t0 in te0:
        dx = s(t0, 1)
        dy = np.cross(rvec, dx)
        dz = np.cross(dx, dy)
        R = np.array([dx / np.linalg.norm(dx), dy / np.linalg.norm(dy), dz / np.linalg.norm(dz)]).T
        out.append(np.cross(R @ vec, rvec))
    return np.array(out)


@monitor('dipole', quick=150, thorough=4000, floor=40, timeout=240)
def dipole(ctx):
    kw, s, t, fs, up, n, k, vm = setup(ctx, 0.3)
    conv = ctx.flip(0.3)
    d = ctx.rng.standard_normal(3) * ctx.pick(1.0, 100.0)
    rvec = ctx.pick(np.zeros(3), np.zeros(3), np.array([0, 0, 1.0]))
    src = ac.MovingPointSourceDipole(conv_amp=conv, direction=tuple(d), rvec=rvec, **kw)
    got = zoo.full(src, ctx.pick(16, 100, 1000))
    c, m = kw['env'].c, kw['mics'].pos
    te, r = emission(s, m, t, c)
    u = kw['signal'].usignal(up)
    q = tick(ctx, te, kw, fs, up, len(u))
    ctx.note(n=n, points=k, mach=vm / c, conv=conv, up=up, rvec=rvec.tolist(), d=np.linalg.norm(d))
    ctx.sig(round(vm / c, 1), conv, up, bool(np.any(rvec)), np.linalg.norm(d) > 20, m.shape[1] == 1)
    L = len(got)
    ctx.check(any(abs(L - x) <= 1 for x in ends(q, len(u))), 'moving-dipole-length', f'{L} {ends(q, len(u))}')
    if not L:
        return
    te, r, q = te[:L], r[:L], q[:L]
    D = c / fs * np.linalg.norm(d) * 2e-5
    h = direction(s, te[:, 0], d / np.linalg.norm(d) * D / 2, rvec).T[:, :, None]
    x0 = s(te[:, 0])[:, :, None]
    xm = s(te)

    def poles(x):
        return [np.sqrt(((x + e * h - m[:, None, :])**2).sum(0)) for e in (1, -1)]

    a1, a2 = poles(x0)
    xu = xm / np.sqrt((xm * xm).sum(0))
    amp = (1 - (s(te, 1) * xu).sum(0) / c)**2 if conv else 1.0
    ii = indices(q, T2)
    asis = [amp * r / D * (u[i % len(u)] / (a1 * amp) - u[i % len(u)] / (a2 * amp)) for i in ii]
    # definition: both poles with their own emission times and positions
    e = [emission(s, m, t[:L], c, off=z * h) for z in (1, -1)]
    qs = [(x[0] - kw['start_t']) * fs * up for x in e]
    pa = [(1 - (s(x[0], 1) * (m[:, None, :] - s(x[0]))).sum(0) / x[1] / c)**2 if conv else 1.0 for x in e]
    proper = [r / D * (u[i % len(u)] / e[0][1] / pa[0] - u[j % len(u)] / e[1][1] / pa[1]) for i, j in itertools.product(indices(qs[0], T2), indices(qs[1], T2))]
    g = np.abs(a1 - a2) / D
    scale = np.abs(u).max() / a1
    # position errors within the iteration tolerance change the distances (both poles alike) and their difference
    tol = scale * ((g + vm * T2 / fs / up / a1 * 4) * 6 * vm * T2 / fs / up / a1 + 4 * vm * T2 / fs / up / a1 + 1e-6)
    judge(ctx, got, proper, ('moving-dipole@one-emission-time', asis), 'moving-dipole', tol)


@monitor('line', quick=150, thorough=4000, floor=40, timeout=240)
def line(ctx):
    kw, s, t, fs, up, n, k, vm = setup(ctx, 0.3)
    conv, K = ctx.flip(0.3), ctx.int(1, 3)
    d, length, w = ctx.rng.standard_normal(3), ctx.uni(0.05, 1), ctx.rng.uniform(-2, 2, K)
    rvec = ctx.pick(np.zeros(3), np.zeros(3), np.array([0, 0, 1.0]))
    src = ac.MovingLineSource(conv_amp=conv, direction=tuple(d), rvec=rvec, length=length, num_sources=K, source_strength=w, **kw)
    got = zoo.full(src, ctx.pick(16, 100, 1000))
    c, m = kw['env'].c, kw['mics'].pos
    u = kw['signal'].usignal(up)
    size = len(u)
    vec = d / np.linalg.norm(d) * length / K

    def model(tt, asis):
        te1, _ = emission(s, m, tt, c)
        dv = direction(s, te1[:, 0], vec, rvec).T[:, :, None]
        terms = []
        for j in range(K):
            te, r = emission(s, m, tt, c, off=dv * j)
            q = tick(ctx, te, kw, fs, up, size)
            x = s(te)
            if asis:
                dv2 = direction(s, te[:, 0], vec, rvec).T[:, :, None]
                r = np.sqrt(((s(te[:, 0])[:, :, None] + dv2 * j - m[:, None, :])**2).sum(0))
                y = x + dv * j
                a = (1 - (s(te, 1) * y).sum(0) / np.sqrt((y * y).sum(0)) / c)**2 if conv and j == K - 1 else 1.0
            else:
                y = x + dv * j - m[:, None, :]
                a = (1 + (s(te, 1) * y).sum(0) / r / c)**2 if conv else 1.0
            terms.append((w[j], r * a, q))
        return terms

    A, P = model(t + 1 / fs, True), model(t, False)
    ctx.note(n=n, points=k, mach=vm / c, conv=conv, up=up, K=K, rvec=rvec.tolist())
    ctx.sig(round(vm / c, 1), conv, up, K, bool(np.any(rvec)), m.shape[1] == 1)
    L = len(got)
    ln = ends(np.max([q for _, _, q in A], axis=0), size) | ends(np.max([q for _, _, q in P], axis=0), size)
    ctx.check(any(abs(L - x) <= 1 for x in ln), 'moving-line-length', f'{L} {ln}')
    if not L:
        return

    def admissible(terms):
        return [sum(wj * u[i[:L] % size] / r[:L] for (wj, r, _), i in zip(terms, combo)) for combo in itertools.product(*[[indices(q, T2)[0], indices(q, T2)[1]] for _, _, q in terms])] + \
            [sum(wj * u[i[:L] % size] / r[:L] for (wj, r, _), i in zip(terms, combo)) for combo in itertools.product(*[[indices(q, T2)[2], indices(q, T2)[3]] for _, _, q in terms])]

    rmin = min(r[:L].min() for _, r, _ in A + P)
    tol = K * 2 * np.abs(u).max() / rmin * (10 * vm * T2 / fs / up / rmin + 1e-9)
    judge(ctx, got, admissible(P), ('moving-line@as-is', admissible(A)), 'moving-line', tol)


@monitor('trajectory-changes', quick=40, thorough=600, floor=10)
def trajectory_changes(ctx):
    """Replacing the trajectory points or the environment changes the next run."""
    kw, s, t, fs, up, n, k, vm = setup(ctx, 0.2, 'white')
    src = ac.MovingPointSource(**kw)
    a = zoo.full(src, 64)
    c, m = kw['env'].c, kw['mics'].pos
    sh = np.array([0.3, -0.2, 0.4])
    pts = {tt: tuple(float(v) for v in np.array(p) + sh) for tt, p in kw['trajectory'].points.items()}
    src.trajectory.points = pts
    s2 = Spline(pts)
    te, r = emission(s2, m, t, c)
    u = kw['signal'].usignal(up)
    q = tick(ctx, te, kw, fs, up, len(u))
    got = zoo.full(src, 64)
    L = len(got)
    ctx.sig(up, k)
    ctx.note(k=k, up=up)
    if L:
        match(ctx, got, [u[i[:L] % len(u)] / r[:L] for i in indices(q, T2)], 'changed-trajectory', np.abs(u).max() / r[:L] * (3 * vm * T2 / fs / up / r[:L] + 1e-9))
        ctx.check(not len(a) or a.shape[1] == got.shape[1], 'channels')
