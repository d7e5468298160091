"""C28: time-domain beamforming is delay and sum at every sample."""
import acoular as ac
import numpy as np
import prop as P
import zoo
from vf import Skip, monitor

RULE = ('a case draws microphones, grid, medium, reference distance, formulation, weighting, diagonal removal, trajectory, precision, source length and one or several block sizes and compares '
        'every delivered sample with a plain loop over microphones using interpolated signals; non-trivial = class x formulation x weighting x medium x trajectory kind x block/delay relation')
ASSUMPTIONS = ['trajectories cover the time from zero on', 'near ties of the CLEAN maximum and stop decision (relative distance below 1e-6, single precision 1e-3) end the comparison of that block',
               'CLEAN-type results are defined per delivered block', 'grid points approach or leave microphones slower than sound']


# ------------------------------------------------------------- reference
def sample(x, q):
    """x (L, M) at real positions q (..., M) by linear interpolation."""
    i = np.floor(q).astype(int)
    f = q - i
    m = np.arange(x.shape[1])
    return x[i, m] * (1 - f) + x[np.minimum(i + 1, len(x) - 1), m] * f


def power_weights(env, mp):
    r = P.env_dist(env, np.zeros((3, 1)), mp).ravel()
    r = np.round(r / r.max(), 1)
    u = np.unique(r)
    if len(u) == 1:
        return np.ones(len(r))
    mid = (u[1:] + u[:-1]) / 2
    b = np.r_[0, mid, 1.5 - 0.5 * mid[-1]]
    w = np.array([np.sqrt((b[k + 1]**2 - b[k]**2) / ((r >= b[k]) & (r < b[k + 1])).sum()) for k in range(len(u))])
    w /= w.mean()
    return w[np.searchsorted(u, r)]


def r0_of(st, gp):
    ref = np.asarray(st.ref, float)
    if ref.ndim == 0:
        return np.full(gp.shape[1], float(ref)) if ref > 0 else P.env_dist(st.env, gp, np.zeros((3, 1))).ravel()
    return P.env_dist(st.env, gp, ref.reshape(3, 1)).ravel()


def das(x, q, amp):
    """Summands (N, G, M) for sample positions q (N, G, M)."""
    return sample(x, q) * amp


def make_steer(ctx, moving=False, kind=None):
    M = ctx.int(30, 70) if ctx.flip(0.06) else ctx.int(1, 7)
    mg = zoo.mics(ctx, M, 0.5, plane=ctx.flip())
    if ctx.flip(0.3):
        a = np.arange(M) * 2.4
        mg = ac.MicGeom(pos_total=np.array([0.1 + 0.08 * np.sqrt(np.arange(M)) * np.cos(a), 0.08 * np.sqrt(np.arange(M)) * np.sin(a), 0 * a]))
    if moving:
        inc = ctx.uni(0.1, 0.4)
        g = ac.RectGrid(x_min=-inc, x_max=inc * ctx.int(0, 1), y_min=-inc, y_max=ctx.pick(0, -inc), z=ctx.pick(0, ctx.uni(-0.1, 0.1)), increment=inc)
    else:
        g = zoo.grid(ctx)
    return ac.SteeringVector(grid=g, mics=mg, env=zoo.env(ctx), steer_type=kind or ctx.pick(*P.KINDS), ref=ctx.pick(1.0, 0.3, 0, 2.5, (0.1, -0.2, 0.0)))


def stationary(st, fs):
    gp, mp = st.grid.pos, st.mics.pos
    rm = P.env_dist(st.env, gp, mp)
    r0 = r0_of(st, gp)
    return rm, rm / st.env.c * fs, r0, P.steering(st.steer_type, r0[:, None] / rm).real


def src(ctx, M, fs, L):
    k = ctx.pick('noise', 'noise', 'ramp', 'impulses')
    if k == 'noise':
        x = ctx.rng.standard_normal((L, M))
    elif k == 'ramp':
        x = np.arange(L * M).reshape(L, M) / 10.0
    else:
        x = np.zeros((L, M))
        x[ctx.rng.integers(0, L, 12), ctx.rng.integers(0, M, 12)] = 1.0
    return x, ac.TimeSamples(data=x.copy(), sample_freq=fs)


def nums(ctx, L):
    return ctx.pick(1, 2, 3, 5, 8, 16, 33, 64, 100, 256, L, L + 50, 2048)


# ------------------------------------------------------------- stationary grids
@monitor('stationary', quick=160, thorough=2500, floor=40)
def stationary_case(ctx):
    st = make_steer(ctx)
    fs = ctx.pick(8000.0, 12800.0, 25600.0)
    rm, q, r0, amp = stationary(st, fs)
    md = int(q.max())
    L = md + ctx.pick(0, 1, 2, 3, ctx.int(3, 30), ctx.int(30, 300))
    x, ts = src(ctx, st.mics.num_mics, fs, max(L, 1))
    L = len(x)
    sq = ctx.flip()
    rd = ctx.flip()
    wt = ctx.pick('none', 'power')
    kw = dict(source=ts, steer=st, weights=wt)
    bf = ac.BeamformerTimeSq(r_diag=rd, **kw) if sq else ac.BeamformerTime(**kw)
    ctx.equal(bf.num_channels, st.grid.size, 'channels')
    ctx.equal(float(bf.sample_freq), fs, 'sample-freq')
    w = power_weights(st.env, st.mics.pos) if wt == 'power' else np.ones(st.mics.num_mics)
    ctx.sig('Sq' if sq else 'lin', rd, wt, st.steer_type, type(st.env).__name__, np.ndim(st.ref))
    ns = {nums(ctx, L) for _ in range(2)}
    for num in ns:
        blocks = zoo.collect(bf.result(num))
        N = sum(len(b) for b in blocks)
        ctx.event(N * st.grid.size)
        ctx.sig('num<delay' if num < md else 'num>=delay', 'partial' if blocks and len(blocks[-1]) < num else 'full')
        ctx.check(all(b.shape[1:] == (st.grid.size,) and 0 < len(b) <= num for b in blocks) and all(len(b) == num for b in blocks[:-1]), 'blocks', lambda: f'{[b.shape for b in blocks]} for {num}')
        ctx.check(max(L - md - 2, 0) <= N <= max(L - md - 1, 0) or (abs(q.max() - round(q.max())) < 1e-9 and abs(N - (L - q.max())) < 4), 'length', lambda: f'{N} samples of {L} with largest delay {q.max()} ({num})')
        if not N:
            continue
        got = np.concatenate(blocks)
        s = das(x * w, np.arange(N)[:, None, None] + q, amp)
        y = s.sum(2)
        bound = np.abs(s).sum(2) + 1e-2 * np.abs(amp).sum(1) * np.abs(x * w).max()
        if not sq:
            ctx.close(got / bound, y / bound, 'stationary-sum', rtol=0, atol=1e-9)
        else:
            want = np.maximum(y * y - (s * s).sum(2), 0) if rd else y * y
            ctx.close(got / bound**2, want / bound**2, 'stationary-square', rtol=0, atol=1e-9)
            ctx.check((got >= 0).all(), 'square-negative', lambda: f'{got.min()}')


# ------------------------------------------------------------- moving grids
def traj(ctx, fs, T):
    """Trajectory over [<=0, end] with end possibly inside the record."""
    end = ctx.pick(T * 2, T * 2, T * ctx.uni(0.1, 0.9))
    t0 = ctx.pick(0.0, -0.01)
    n = ctx.int(4, 7)
    tt = np.linspace(t0, end, n)
    p0 = np.array([ctx.uni(-0.5, 0.5), ctx.uni(-0.5, 0.5), ctx.uni(0.6, 1.4)])
    sp = ctx.pick(0.5, 5.0, 40.0, 100.0)
    v = ctx.rng.uniform(-1, 1, 3) * sp
    v[0] += np.sign(v[0]) * sp * 0.3
    v[2] *= 0.05
    pts = {float(t): tuple(float(a) for a in p0 + v * t + 0.02 * np.sin(3 * t / T) * np.array([1, -1, 0.3])) for t in tt}
    tr = ac.Trajectory(points=pts)
    return tr, P.Spline(pts), end


def moved(ctx, st, sp, rvec, fs, N):
    """Grid positions (3, N, G) and velocities (3, N)."""
    t = np.arange(N) / fs
    p, v = sp(t), sp(t, 1)
    gp = st.grid.pos
    if not np.any(rvec):
        return p[:, :, None] + gp[:, None, :], v
    out = np.empty((3, N, gp.shape[1]))
    for n in range(N):
        dx = v[:, n]
        dy = np.cross(rvec, dx)
        dz = np.cross(dx, dy)
        out[:, n] = np.stack([d / np.linalg.norm(d) for d in (dx, dy, dz)], 1) @ gp + p[:, n][:, None]
    return out, v


def moving_setup(ctx, st, tr_sp, rvec, fs, L, conv):
    """Per-sample sample positions q (N, G, M), amplitudes (N, G, M) and distances for as many samples as the record admits."""
    tr, sp, end = tr_sp
    N = min(L, int(np.ceil(end * fs - 1e-9)))
    gp, v = moved(ctx, st, sp, rvec, fs, N)
    mp = st.mics.pos
    G, M = st.grid.size, mp.shape[1]
    rm = P.env_dist(st.env, gp.reshape(3, -1), mp).reshape(N, G, M)
    r0 = r0_of(st, gp.reshape(3, -1)).reshape(N, G)
    ra = rm
    rphys = rm
    if conv:
        d = gp[:, :, :, None] - mp[:, None, None, :]
        ma = np.einsum('knij,kn->nij', d, v) / np.sqrt((d * d).sum(0)) / st.env.c if type(st.env) is ac.Environment else np.einsum('knij,kn->nij', d, v) / rm / st.env.c
        ra = rm * (1 - ma)**2   # as it is: the sign of the angle is a known finding
        rphys = rm * (1 + ma)**2
    a = (r0[:, :, None] / ra).reshape(-1, M)
    amp = P.steering(st.steer_type, a).real.reshape(N, G, M)
    amp2 = P.steering(st.steer_type, (r0[:, :, None] / rphys).reshape(-1, M)).real.reshape(N, G, M)
    q = rm / st.env.c * fs + np.arange(N)[:, None, None]
    bad = np.nonzero(np.floor(q + 1e-9).max((1, 2)) + 1 >= L)[0]
    exact = int(bad[0]) if len(bad) else N
    return q, amp, amp2, ra, r0, exact


@monitor('moving', quick=180, thorough=2500, floor=50)
def moving_case(ctx):
    st = make_steer(ctx, True)
    fs = ctx.pick(8000.0, 12800.0)
    L = ctx.int(20, 260)
    x, ts = src(ctx, st.mics.num_mics, fs, L)
    tsp = traj(ctx, fs, L / fs)
    rvec = ctx.pick((0.0, 0, 0), (0, 0, 1.0), (0.3, 0.2, -1.0))
    conv = ctx.flip(0.3)
    q, amp, amp2, ra, r0, n1 = moving_setup(ctx, st, tsp, rvec, fs, L, conv)
    sq, rd, wt, prec = ctx.flip(), ctx.flip(), ctx.pick('none', 'power'), ctx.pick(64, 64, 32)
    kw = dict(source=ts, steer=st, weights=wt, trajectory=tsp[0], rvec=rvec, conv_amp=conv, precision=prec)
    bf = ac.BeamformerTimeSqTraj(r_diag=rd, **kw) if sq else ac.BeamformerTimeTraj(**kw)
    ctx.equal(bf.num_channels, st.grid.size, 'channels')
    w = power_weights(st.env, st.mics.pos) if wt == 'power' else np.ones(st.mics.num_mics)
    ctx.sig('Sq' if sq else 'lin', rd, wt, st.steer_type, type(st.env).__name__, np.ndim(st.ref), prec, conv, bool(np.any(rvec)), 'cut' if n1 < len(q) else 'trajectory-end')
    eps = 1e-8 if prec == 64 else 2e-4
    for num in {nums(ctx, L) for _ in range(2)}:
        blocks = zoo.collect(bf.result(num))
        N = sum(len(b) for b in blocks)
        ctx.event(N * st.grid.size)
        ctx.check(all(b.shape[1:] == (st.grid.size,) and 0 < len(b) <= num for b in blocks) and all(len(b) == num for b in blocks[:-1]), 'blocks', lambda: f'{[b.shape for b in blocks]} for {num}')
        ctx.check(abs(N - n1) <= 1, 'moving-length', lambda: f'{N} samples instead of {n1} ({num}, {L}, {len(q)})')
        N = min(N, n1)
        if not N:
            continue
        got = np.concatenate(blocks)[:N]

        def ref(A):
            s = das(x * w, q[:N], A[:N])
            y = s.sum(2)
            return (np.maximum(y * y - (s * s).sum(2), 0) if rd else y * y) if sq else y

        s = np.abs(amp[:N]).sum(2) * np.abs(x * w).max() + 1e-12
        tol = eps * (s**2 if sq else s) * (1 if prec == 64 else 1 + 0.02 * q.max())
        ctx.close(got / tol, ref(amp) / tol, 'moving-square' if sq else 'moving-sum', rtol=0, atol=1)
        if conv and st.steer_type != 'classic' and np.abs(x).max() > 0:
            g2 = ref(amp2)
            ctx.soft(bool((np.abs(got - g2) <= tol * 10).all()), 'conv-amp@sign', lambda: f'off by {np.abs(got - g2).max():.3g} from the amplification by 1/(1 - Ma cos)^2 towards the receiver')


# ------------------------------------------------------------- CLEAN in time
def clean(x0, q, amp, r, r0, n_iter, damp, rd, ambiguous):
    """One block: positions q (N, G, M); returns (Gamma, autopower of the last hit) or None at an ambiguous decision."""
    x = x0.copy()
    N, G, M = q.shape

    def ds():
        s = das(x, q, amp)
        return s.sum(2), (s * s).sum(2)

    def power(phi, ap):
        return np.maximum((phi**2 - ap).sum(0), 0) if rd else (phi**2).sum(0)

    phi, ap = ds()
    gam, gap = np.zeros((N, G)), np.zeros((N, G))
    rows = np.arange(len(x))
    it = -1
    for it in range(n_iter):
        p = power(phi, ap)
        o = np.sort(p)[::-1]
        if len(o) > 1 and o[0] - o[1] <= ambiguous * (o[0] + 1e-300):
            return None
        k = int(np.argmax(p))
        for m in range(M):
            tf = q[:, k, m]
            y = phi[:, k] * r0[:, k] / r[:, k, m]
            lo = int(np.floor(tf[0]))
            hi = int(np.floor(tf[-1])) + 2
            if len(tf) > 1 and np.diff(tf).min() <= 0:
                return None  # a point receding from a microphone faster than sound: reception order is not defined
            if np.abs(tf - np.round(tf)).min() < 1e-7 and ambiguous < 1e-5:
                return None
            x[lo:hi, m] -= damp * np.interp(rows[lo:hi], tf, y)
        nphi, nap = ds()
        a, b = power(nphi, nap).sum(), p.sum()
        if abs(a - b) <= ambiguous * (abs(b) + 1e-300):
            return None
        if not a < b:
            break
        gam[:, k] += damp * phi[:, k]
        gap[:, k] = ap[:, k]
        phi, ap = nphi, nap
    return gam, gap, it


@monitor('clean', quick=110, thorough=1500, floor=20)
def clean_case(ctx):
    st = make_steer(ctx, kind=ctx.pick('true level', 'true location', 'classic', 'inverse'))
    if st.grid.size * st.mics.num_mics > 120:
        raise Skip('size')
    fs = ctx.pick(8000.0, 12800.0)
    rm, q, r0, amp = stationary(st, fs)
    md = int(q.max())
    L = md + ctx.int(3, 90)
    x, ts = src(ctx, st.mics.num_mics, fs, L)
    if ctx.flip(0.5):
        # a dominating source on a grid point
        g = ctx.int(0, st.grid.size - 1)
        s = ctx.rng.standard_normal(L + 400)
        x = 0.05 * x / max(np.abs(x).max(), 1) + np.stack([np.interp(np.arange(L) - q[g, m] + 200, np.arange(L + 400), s) / rm[g, m] for m in range(x.shape[1])], 1)
        ts = ac.TimeSamples(data=x.copy(), sample_freq=fs)
    sq, rd = ctx.flip(), ctx.flip()
    wt = ctx.pick('none', 'power')
    damp, nit = ctx.pick(0.6, 1.0, 0.3, 0.05), ctx.pick(0, 1, 2, 5, 12)
    num = ctx.pick(4, 9, 16, 40, 100, 2048)
    kw = dict(source=ts, steer=st, weights=wt, damp=damp, n_iter=nit)
    bf = ac.BeamformerCleantSq(r_diag=rd, **kw) if sq else ac.BeamformerCleant(**kw)
    rd = rd and sq
    w = power_weights(st.env, st.mics.pos) if wt == 'power' else np.ones(st.mics.num_mics)
    blocks = zoo.collect(bf.result(num))
    n0 = 0
    ctx.check(all(b.shape[1:] == (st.grid.size,) for b in blocks) and abs(sum(map(len, blocks)) - (L - md - 2)) <= 1, 'clean-length', lambda: f'{[b.shape for b in blocks]} {L} {md}')
    for b in blocks:
        N = len(b)
        ex = lambda a: np.broadcast_to(a, (N, *a.shape))
        rows = x[n0:n0 + num + md + 2] * w
        res = clean(rows, np.arange(N)[:, None, None] + q, amp, ex(rm), ex(r0), nit, damp, rd, 1e-6)
        n0 += N
        if res is None:
            ctx.event()
            continue
        gam, gap = res[:2]
        want = gam if not sq else (gam**2 - damp**2 * gap if rd else gam**2)
        ctx.event()
        ctx.sig('stationary', sq, rd, wt, st.steer_type, 'stopped' if res[2] + 1 < nit else 'limit', nit)
        sc = max(np.abs(gam).max(), 1e-12)
        ctx.close(b, want, 'clean-t', rtol=0, atol=1e-7 * (sc * sc if sq else sc))


@monitor('clean-moving', quick=90, thorough=1200, floor=15)
def clean_moving_case(ctx):
    st = make_steer(ctx, True)
    fs = ctx.pick(8000.0, 12800.0)
    L = ctx.int(60, 160)
    x, ts = src(ctx, st.mics.num_mics, fs, L)
    tsp = traj(ctx, fs, L / fs)
    rvec = ctx.pick((0.0, 0, 0), (0, 0, 1.0))
    conv = ctx.flip(0.3)
    q, amp, _, ra, r0, n1 = moving_setup(ctx, st, tsp, rvec, fs, L, conv)
    sq, rd, wt, prec = ctx.flip(), ctx.flip(), ctx.pick('none', 'power'), ctx.pick(64, 64, 32)
    damp, nit = ctx.pick(0.6, 1.0, 0.3), ctx.pick(0, 1, 2, 5, 10)
    num = ctx.pick(9, 16, 40, 100, 2048)
    kw = dict(source=ts, steer=st, weights=wt, damp=damp, n_iter=nit, trajectory=tsp[0], rvec=rvec, conv_amp=conv, precision=prec)
    bf = ac.BeamformerCleantSqTraj(r_diag=rd, **kw) if sq else ac.BeamformerCleantTraj(**kw)
    rd = rd and sq
    w = power_weights(st.env, st.mics.pos) if wt == 'power' else np.ones(st.mics.num_mics)
    n0 = 0
    for b in zoo.collect(bf.result(num)):
        N = len(b)
        if n0 + N > n1:
            break
        hi = int(np.ceil(q[n0:n0 + N].max())) + 3
        res = clean((x * w)[n0:hi], q[n0:n0 + N] - n0, amp[n0:n0 + N], ra[n0:n0 + N], r0[n0:n0 + N], nit, damp, rd, 1e-6 if prec == 64 else 5e-3)
        n0 += N
        if res is None:
            ctx.event()
            continue
        gam, gap = res[:2]
        want = gam if not sq else (gam**2 - damp**2 * gap if rd else gam**2)
        ctx.event()
        ctx.sig('moving', sq, rd, wt, st.steer_type, prec, 'stopped' if res[2] + 1 < nit else 'limit', nit, conv) if nit else ctx.sig('moving', 'zero')
        sc = max(np.abs(gam).max(), np.abs(x).max() * 1e-3, 1e-12)
        e = 1e-6 if prec == 64 else 2e-2
        ctx.close(b, want, 'clean-t-moving', rtol=0, atol=e * (sc * sc if sq else sc))


# ------------------------------------------------------------- focus on a simulated moving source
@monitor('focus', quick=12, thorough=60, floor=8)
def focus(ctx):
    """A moving monopole is brought back by the moving beamformer with the amplitude it has at the reference distance."""
    fs = 25600.0
    n = 1000
    sig = ac.SineGenerator(freq=ctx.uni(300, 1200), phase=ctx.uni(-3, 3), amplitude=ctx.uni(0.5, 2), sample_freq=fs, num_samples=n + 400)
    M = ctx.int(4, 8)
    mg = zoo.mics(ctx, M, 0.5)
    e = ac.Environment(c=ctx.uni(330, 350))
    pts = {}
    p0, v = np.array([ctx.uni(-0.5, 0.5), ctx.uni(-0.3, 0.3), ctx.uni(0.8, 1.3)]), np.array([ctx.uni(10, 60) * ctx.pick(1, -1), ctx.uni(-10, 10), 0])
    for t in np.linspace(-0.05, 0.2, 6):
        pts[float(t)] = tuple(float(a) for a in p0 + v * t)
    tr = ac.Trajectory(points=pts)
    mps = ac.MovingPointSource(signal=sig, mics=mg, env=e, trajectory=tr, start_t=0.0, start=0.02, up=16)
    rec = zoo.full(mps, 200)[:600]
    st = ac.SteeringVector(grid=ac.ImportGrid(pos=np.array([[0.0, 0.3], [0, -0.2], [0, 0]])), mics=mg, env=e, steer_type=ctx.pick('true level', 'inverse'), ref=1.0)
    tr2 = ac.Trajectory(points={t - 0.02: p for t, p in pts.items()})
    y = zoo.full(ac.BeamformerTimeTraj(source=ac.TimeSamples(data=rec, sample_freq=fs), steer=st, trajectory=tr2), ctx.pick(64, 100, 333))
    s = sig.signal()[int(0.02 * fs):][:len(y)]
    ctx.sig(st.steer_type)
    ctx.event(len(y))
    ctx.check(len(y) > 200, 'focus-length', lambda: f'{len(y)}')
    err = np.abs(y[:, 0] - s).max() / np.abs(s).max()
    ctx.check(err < 0.06, 'focus', lambda: f'relative deviation {err:.3g} from the emitted signal at the reference distance of 1 m')


# ------------------------------------------------------------- sector integration over time
def box(lo, hi, i, j, inc, t):
    """Limits that select points i to j of an axis, within the axis."""
    return max(lo + i * inc - t, lo), min(lo + j * inc + t, hi)


@monitor('integrator', quick=80, thorough=900, floor=25)
def integrator(ctx):
    three = ctx.flip(0.3)
    inc = ctx.pick(0.1, 0.25)
    nx, ny, nz = ctx.int(1, 5), ctx.int(1, 5), ctx.int(1, 3)
    x0, y0 = ctx.uni(-1, 0), ctx.uni(-1, 0)
    if three:
        g = ac.RectGrid3D(x_min=x0, x_max=x0 + inc * (nx - 1), y_min=y0, y_max=y0 + inc * (ny - 1), z_min=0.5, z_max=0.5 + inc * (nz - 1), increment=inc)
    else:
        g = ac.RectGrid(x_min=x0, x_max=x0 + inc * (nx - 1), y_min=y0, y_max=y0 + inc * (ny - 1), z=0.5, increment=inc)
    pos = g.pos
    secs, masks = [], []
    for _ in range(ctx.int(1, 4)):
        if three:
            a, b = ctx.int(0, nx - 1), ctx.int(0, ny - 1)
            a2, b2 = ctx.int(a, nx - 1), ctx.int(b, ny - 1)
            c = ctx.int(0, nz - 1)
            c2 = ctx.int(c, nz - 1)
            t = 0.3 * inc
            s = (*box(g.x_min, g.x_max, a, a2, inc, t), *box(g.y_min, g.y_max, b, b2, inc, t), *box(g.z_min, g.z_max, c, c2, inc, t))
            s = s[::2] + s[1::2]
            m = (abs(pos[0] - x0 - inc * (a + a2) / 2) < inc * ((a2 - a) / 2 + .1)) & (abs(pos[1] - y0 - inc * (b + b2) / 2) < inc * ((b2 - b) / 2 + .1)) & (abs(pos[2] - .5 - inc * (c + c2) / 2) < inc * ((c2 - c) / 2 + .1))
            ctx.sig('cuboid')
        elif ctx.flip():
            a, b = ctx.int(0, nx - 1), ctx.int(0, ny - 1)
            a2, b2 = ctx.int(a, nx - 1), ctx.int(b, ny - 1)
            t = 0.3 * inc
            s = (*box(g.x_min, g.x_max, a, a2, inc, t), *box(g.y_min, g.y_max, b, b2, inc, t))
            s = s[::2] + s[1::2]
            m = (abs(pos[0] - x0 - inc * (a + a2) / 2) < inc * ((a2 - a) / 2 + .1)) & (abs(pos[1] - y0 - inc * (b + b2) / 2) < inc * ((b2 - b) / 2 + .1))
            ctx.sig('rectangle')
        else:
            s = (float(pos[0, 0]) + ctx.uni(0, inc * nx), float(pos[1, 0]) + ctx.uni(0, inc * ny), inc * ctx.uni(0.75, 3))
            d = (pos[0] - s[0])**2 + (pos[1] - s[1])**2
            m = d <= s[2]**2
            if not m.any() or abs(np.sqrt(d) - s[2]).min() < 1e-9:
                continue
            ctx.sig('circle')
        secs.append(s)
        masks.append(m)
    if not secs:
        raise Skip('no sector')
    n = ctx.int(1, 60)
    x = ctx.rng.standard_normal((n, g.size))
    if ctx.flip(0.7):
        x = x**2 * 10.0 ** ctx.rng.uniform(-4, 2, x.shape)
    clip = ctx.pick(-350.0, -350.0, -10.0, -3.0, -0.5)
    it = ac.IntegratorSectorTime(source=ac.TimeSamples(data=x.copy(), sample_freq=1000.0), grid=g, sectors=secs, clip=clip)
    ctx.equal(it.num_channels, len(secs), 'sector-channels')
    num = ctx.pick(1, 3, 7, 16, 100)
    got = zoo.full(it, num)
    want = np.zeros((n, len(secs)))
    amb = False
    for k in range(0, n, num):
        b = x[k:k + num]
        lim = b.max() * 10**(clip / 10)
        amb |= bool((np.abs(b - lim) <= 1e-12 * np.abs(lim)).any())
        c = np.where(b > lim, b, 0)
        for j, m in enumerate(masks):
            want[k:k + num, j] = c[:, m].sum(1)
    ctx.event(want.size)
    ctx.sig('3d' if three else '2d', clip)
    if not amb:
        ctx.close(got, want, 'sector-sum', rtol=1e-12, atol=1e-12 * np.abs(x).max())
