"""C18: rotation tracking and array interpolation follow their definition."""
import warnings

import acoular as ac
import numpy as np
from scipy.spatial import QhullError
import zoo
from acoular import config
from scipy.interpolate import CubicSpline
from vf import monitor

RULE = ('a case draws a pulse train (dirac or rectangular, both signs, clusters, drift) or an array with a field and compares detected peaks, angles, '
        'rpm and interpolated signals with own definitions; non-trivial = trigger mode x sign x merge rule; dimension x method x rotation regime')
ASSUMPTIONS = ['clusters of crossings are narrower than half a hunk and further apart than two hunks', 'angle tolerance 0.02 rad for drifting speed (spline), 1e-6 for constant speed',
               'one field value per microphone; ring microphones at distinct angles']


def train(ctx, kind, sign, drift=0.0):
    """Pulse train; returns signal and, per cluster, the sample numbers crossing."""
    P = ctx.int(80, 900)
    first, k = ctx.int(2, P - 10), ctx.int(6, 14)
    if ctx.flip(0.5):  # a pulse starts at or next to the end of a block of 2048 samples
        j = ctx.int(1, max(1, k - 3))
        q = [first + sum(P * (1 + drift * i / k) for i in range(m)) for m in range(k)]
        m = min(range(k), key=lambda m: abs(q[m] - 2048 * round(q[m] / 2048)) if q[m] > 1500 else 1e9)
        shift = 2048 * round(q[m] / 2048) + ctx.int(-1, 1) - int(round(q[m]))
        if q[m] > 1500 and first + shift > 2:
            first = first + shift
        del j
    pos, p = [], float(first)
    for i in range(k):
        pos.append(int(round(p)))
        p += P * (1 + drift * i / k)
    n = int(p + ctx.int(-P // 2, P // 3))
    x = 0.05 * ctx.rng.uniform(-1, 1, n)
    clusters = []
    W = max(1, int(0.04 * P))
    if kind == 'dirac':
        for q in pos:
            offs = [0] + sorted(set(int(v) for v in ctx.rng.integers(1, W + 1, ctx.int(0, 3))))
            for o in offs:
                if q + o < n:
                    x[q + o] = 1 + ctx.uni(0, 1)
            clusters.append([q + o for o in offs if q + o < n])
    else:
        x *= 0.1
        for q in pos:
            w = ctx.int(W + 1, P // 2)
            x[q:q + w] += 1 + ctx.uni(0, 0.5)
            clusters.append([q])
    return sign * x, [c for c in clusters if c], P


def trig(ctx, kind, sign, clusters, x, **kw):
    src = ac.TimeSamples(data=x[:, None], sample_freq=1000.0)
    return ac.Trigger(source=src, threshold=0.5 * sign, trigger_type=kind, **kw)


@monitor('trigger', quick=160, thorough=5000, floor=16)
def trigger(ctx):
    config.global_caching = 'none'
    kind, sign, merge = ctx.pick('dirac', 'dirac', 'rect'), ctx.pick(1, -1), ctx.pick('extremum', 'first')
    drift = ctx.pick(0.0, 0.0, 0.5)
    x, cl, P = train(ctx, kind, sign, drift)
    if kind == 'dirac' and ctx.flip(0.4):
        free = np.setdiff1d(np.arange(len(x)), [v for c in cl for v in c])
        x[ctx.rng.choice(free, min(len(free), 5), replace=False)] = 0.5 * sign  # not above the threshold
    limit = ctx.pick(0.02, 0.02, 0.0, 0.1, ctx.uni(0.01, 0.4))
    t = trig(ctx, kind, sign, cl, x, multiple_peaks_in_hunk=merge, max_variation_of_duration=limit, hunk_length=ctx.pick(0.1, 0.1, 0.06, 0.2))
    ctx.note(kind=kind, sign=sign, merge=merge, P=P, n=len(x), drift=drift, first=cl[0])
    want = [c[0] if merge == 'first' else max(c, key=lambda i: abs(x[i])) for c in cl]
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        peaks, dmax, dmin = t.trigger_data
    ctx.check(list(int(v) for v in peaks) == want, f'trigger@{kind}', lambda: f'{list(peaks)[:20]} want {want[:20]}')
    d = np.diff(want)
    ctx.check(dmax == d.max() and dmin == d.min(), 'trigger-distances')
    dev = np.abs(d - d.mean())
    vary = np.any(dev > limit * d.mean())
    ctx.check(np.any(np.abs(dev - limit * d.mean()) < 1e-9 * d.mean()) and limit > 0 or vary == any('vary too much' in str(r.message) for r in rec), 'trigger-warning', f'{vary}')
    ctx.sig(kind, sign, merge, drift > 0, len(x) > 2048, max(len(c) for c in cl))
    ctx.event(len(want))
    # passes its data on, needs one channel and enough peaks
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.equal(zoo.full(t, 333)[:, 0], x, 'trigger-pass')
        for bad in (ac.Trigger(source=ac.TimeSamples(data=np.c_[x, x], sample_freq=1000.0), threshold=0.5 * sign), trig(ctx, kind, sign, cl, x * 0.01)):
            try:
                bad.trigger_data
            except Exception:
                continue
            ctx.check(False, 'trigger-invalid-accepted')
        if kind == 'dirac':
            e = ac.Trigger(source=t.source, trigger_type=kind, multiple_peaks_in_hunk='extremum')
            y = x.copy()
            m = [max(c, key=lambda i: abs(x[i])) for c in cl]
            y[m] = 2.5 * sign
            e.source = ac.TimeSamples(data=y[:, None], sample_freq=1000.0)
            ctx.check(list(e.trigger_data[0]) == m, 'trigger-estimated-threshold', lambda: f'{list(e.trigger_data[0])} want {m}')
            # a constant offset: the estimate is three quarters of the largest distance from the mean
            off = ctx.uni(-0.4, 0.4)
            e.source = ac.TimeSamples(data=y[:, None] + off, sample_freq=1000.0)
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter('always')
                try:
                    e.trigger_data  # noqa: B018
                except Exception:  # noqa: BLE001, S110
                    pass
            said = [float(str(r.message).split('threshold of ')[1].split(' ')[0]) for r in rec if 'threshold of ' in str(r.message)]
            # the mean is taken over blocks of 2048 samples: all but the last weigh alike
            bm = np.mean([b.mean() for b in np.split(y + off, range(2048, len(y), 2048))])
            ext = max((y + off).max() - bm, (y + off).min() - bm, key=abs)
            ctx.check(len(said) > 0 and all(abs(s - 0.75 * ext) < 1e-9 for s in said), 'trigger-estimate', lambda: f'{said}, want {0.75 * ext}')


@monitor('angle', quick=40, thorough=800, floor=10)
def angle(ctx):
    config.global_caching = 'none'
    P, k = ctx.int(40, 160), ctx.int(6, 12)
    tpr = ctx.pick(1, 1, 2, 3)
    sign, rot = ctx.pick(1, -1), ctx.pick(1, -1)
    drift = ctx.pick(0.0, 0.0, 0.0, 0.15)
    first = ctx.int(0, P - 1)
    t0, a0 = ctx.pick(0.0, ctx.uni(-3, 3)), None
    # peak positions of a smooth rotation: phase(i) = pulses passed
    pos = [int(round(first + P * (i + drift * i * i / k / 2))) for i in range(k)]
    n = pos[-1] + ctx.int(0, P - 1)
    x = np.zeros(n + 1)
    x[pos] = sign
    fs = ctx.pick(1000.0, 12800.0)
    src = ac.TimeSamples(data=x[:, None], sample_freq=fs)
    tr = ac.Trigger(source=src, threshold=0.5 * sign, max_variation_of_duration=5.0)
    a = ac.AngleTracker(source=src, trigger=tr, trigger_per_revo=tpr, rot_direction=rot, start_angle=t0, interp_points=ctx.pick(4, 4, 5))
    ctx.note(P=P, k=k, tpr=tpr, rot=rot, drift=drift, first=first, t0=t0)
    i = np.arange(n + 1)
    # true phase (in pulses): inverse of pos(i)
    if drift:
        c = drift / k / 2
        y = (i - first) / P
        ph = np.where(y >= -0.2 / c, (-1 + np.sqrt(np.maximum(0, 1 + 4 * c * y))) / (2 * c), 0)
        rate = 1 / (P * (1 + 2 * c * ph))
        ok = slice(pos[0], pos[-1] + 1)
        atol, rtol = 2 * np.pi * 1.2 / P, 0.1
    else:
        ph = (i - first) / P
        rate = np.full(n + 1, 1 / P)
        ok = slice(0, n + 1)
        atol, rtol = 1e-6, 1e-6
    ang = a.angle
    ctx.check(ang.shape == (n + 1,) and a.rpm.shape == (n + 1,), 'angle-shape')
    err = np.angle(np.exp(1j * (ang - (t0 + rot * 2 * np.pi / tpr * ph))))[ok]
    ctx.check(np.all(np.abs(err) <= atol), 'angle', lambda: f'max error {np.abs(err).max()} at sample {np.abs(err).argmax()}')
    ctx.check(np.all((ang >= 0) & (ang < 2 * np.pi + 1e-12)), 'angle-range')
    want = rate * fs * 60 / tpr
    e = np.abs(a.rpm / want - 1)[ok]
    ctx.check(np.all(e <= rtol), 'rpm', lambda: f'max relative error {e.max()} at {e.argmax()}')
    ctx.close(a.average_rpm, (len(pos) - 1) / (pos[-1] - pos[0]) / tpr * fs * 60, 'average-rpm')
    ctx.sig(tpr, rot, drift > 0, sign, t0 == 0)
    # other settings are picked up
    a.start_angle = t0 + 1
    err = np.angle(np.exp(1j * (a.angle - ang - 1)))
    ctx.check(np.all(np.abs(err) < 1e-6), 'angle-start-update')


def ring(ctx, n, r=0.5, jitter=True):
    a = np.sort(-np.pi + 2 * np.pi * (np.arange(n) + 0.5 + (ctx.rng.uniform(-0.3, 0.3, n) if jitter else 0)) / n)
    return a, ac.MicGeom(pos_total=np.array([r * np.cos(a), r * np.sin(a), 0 * a]))


def per_interp(a, p, phi, method):
    aa = np.r_[a, a[0] + 2 * np.pi]
    pp = np.r_[p, p[0]]
    ph = (phi - a[0]) % (2 * np.pi) + a[0]
    if method == 'linear':
        return np.interp(ph, aa, pp)
    return CubicSpline(aa, pp, bc_type='periodic')(ph)


def quat(ctx):
    q = ctx.rng.standard_normal(4)
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


@monitor('ring', quick=120, thorough=4000, floor=20)
def ringmon(ctx):
    """Ring arrays: interpolated signals equal periodic interpolation over the angle."""
    config.global_caching = 'none'
    n = ctx.int(4, 12)
    jit = ctx.flip()
    a, m = ring(ctx, n, jitter=jit)
    perm = ctx.rng.permutation(n) if ctx.flip() else np.arange(n)
    m = ac.MicGeom(pos_total=m.pos_total[:, perm])
    N, fs = ctx.pick(ctx.int(1, 40), ctx.int(1, 40), ctx.int(260, 400)), 1000.0
    x = ctx.rng.standard_normal((N, n))
    method = ctx.pick('linear', 'spline')
    speed = ctx.pick(0.0, ctx.uni(-60, 60), fs / n, -fs / n)
    virt = ctx.pick(None, None, 'other')
    kw = dict(source=ac.TimeSamples(data=x[:, perm], sample_freq=fs), mics=m, array_dimension='ring', method=method)
    va = a[perm]
    if virt:
        va = ctx.rng.uniform(-3.1, 3.1, ctx.int(1, 7))
        kw['mics_virtual'] = ac.MicGeom(pos_total=np.array([0.5 * np.cos(va), 0.5 * np.sin(va), 0 * va]))
    if ctx.flip(0.3):
        Q = quat(ctx)
        kw['Q'] = Q
        kw['mics'] = ac.MicGeom(pos_total=Q.T @ m.pos_total)
        if virt:
            kw['mics_virtual'] = ac.MicGeom(pos_total=Q.T @ kw['mics_virtual'].pos_total)
    g = ac.SpatialInterpolatorConstantRotation(rotational_speed=speed, **kw)
    num = ctx.pick(1, 7, N, 64, 256) if N < 50 else ctx.pick(64, 256, N, N - 1)
    got = zoo.full(g, num)
    want = np.array([per_interp(a, x[t], va + 2 * np.pi * speed * t / fs, method) for t in range(N)])
    ctx.note(n=n, N=N, method=method, speed=speed, virt=virt, num=num, jit=jit)
    ctx.check(g.num_channels == len(va), 'ring-channels')
    ctx.close(got, want, f'ring@{method}', rtol=1e-6)
    if not jit and virt is None and abs(speed) == fs / n and 'Q' not in kw:
        s = 1 if speed > 0 else -1
        p2 = np.array([np.roll(x[t], -s * t) for t in range(N)])[:, perm]
        ctx.close(got, p2, 'ring-permutation', rtol=1e-6)
    # an angle source with the same rotation gives the same result
    if ctx.flip(0.4) and speed:
        class Tr(ac.AngleTracker):
            def _to_rpm_and_angle(self):
                self._angle = (2 * np.pi * speed * np.arange(N) / fs) % (2 * np.pi)
                self._calc_flag = True
        tr = Tr(source=kw['source'])
        r = ac.SpatialInterpolatorRotation(angle_source=tr, **kw)
        ctx.close(zoo.full(r, num), want, f'ring-angle-source@{method}', rtol=1e-6)
    ctx.sig(method, n, virt, 'Q' in kw, 'no' if speed == 0 else 'whole' if abs(speed) == fs / n else 'any', jit)
    ctx.event(N)


@monitor('fields', quick=60, thorough=1500, floor=12)
def fields(ctx):
    """All methods: real microphones are reproduced, linear methods keep constants and bounds."""
    config.global_caching = 'none'
    dim = ctx.pick('ring', '2D', '2D', '3D')
    n = ctx.int(8, 16)
    if dim == 'ring':
        a, m = ring(ctx, n)
        method = ctx.pick('linear', 'spline', 'rbf-cubic', 'sinc')
    else:
        k = ctx.int(2, 3)
        a = -np.pi + 2 * np.pi * (np.arange(n) + 0.5) / n
        r = np.r_[[np.full(n, 0.3 + 0.25 * i) for i in range(k)]].ravel()
        aa = np.tile(a, k) + ctx.rng.uniform(-0.05, 0.05, n * k)
        z = np.zeros(n * k) if dim == '2D' else ctx.rng.uniform(-0.2, 0.2, n * k)
        m = ac.MicGeom(pos_total=np.array([r * np.cos(aa), r * np.sin(aa), z]))
        method = ctx.pick('linear', 'spline', 'rbf-cubic', 'rbf-multiquadric', 'IDW', 'sinc') if dim == '2D' else ctx.pick('linear', 'rbf-cubic', 'rbf-multiquadric')
    N = ctx.int(1, 4)
    x = ctx.rng.standard_normal((N, m.num_mics))
    const = ctx.flip(0.3) and method in ('linear', 'spline', 'IDW')
    if const:
        x[:] = ctx.uni(-2, 2)
    g = ac.SpatialInterpolatorConstantRotation(source=ac.TimeSamples(data=x, sample_freq=1000.0), mics=m, array_dimension=dim, method=method, rotational_speed=0.0)
    ctx.note(dim=dim, method=method, n=m.num_mics, N=N, const=const)
    ctx.sig(dim, method, const)
    got = zoo.full(g, ctx.pick(1, 3))
    if dim == '3D' and method == 'linear':
        got, x = off_hull(ctx, got, x)
    ctx.close(got, x, f'nodes@{dim}-{method}', rtol=1e-4)
    if method in ('linear', 'IDW') and dim != '3D':
        # virtual microphones inside the array
        v = ctx.int(1, 5)
        lim = (0.5, 0.5) if dim == 'ring' else (0.36, 0.49)
        va, vr = ctx.rng.uniform(-2.5, 2.5, v), ctx.rng.uniform(*lim, v)
        if method == 'IDW':
            v = m.num_mics
            va, vr = np.resize(va, v), np.resize(vr, v)
        g.mics_virtual = ac.MicGeom(pos_total=np.array([vr * np.cos(va), vr * np.sin(va), 0 * va]))
        got = zoo.full(g, 2)
        ctx.check(got.shape == (N, v), 'virtual-shape', f'{got.shape}')
        tol = 1e-6 * np.abs(x).max()
        ctx.check(np.all(got <= x.max(1)[:, None] + tol) and np.all(got >= x.min(1)[:, None] - tol), f'bounds@{dim}-{method}', lambda: f'{got} outside [{x.min()}, {x.max()}]')


def off_hull(ctx, got, want):
    """Drop points which rounding puts outside the triangulated volume (filled with zeros).

    Outermost microphones lie on the surface of the volume; which side they are on is decided by
    the last bits.  At most a quarter of the microphones may be lost.
    """
    if got.shape != want.shape:
        return got, want
    lost = (got == 0) & (want != 0)
    ctx.check(lost.mean() <= 0.25, 'lost@3D-linear', lambda: f'{lost.sum()} of {lost.size} samples are outside the array')
    return np.where(lost, 0, got), np.where(lost, 0, want)


def polar(ctx, dim):
    """Regular rings of microphones (3D: two layers)."""
    n, k = ctx.int(5, 9), ctx.int(2, 3)
    a = -np.pi + 2 * np.pi * (np.arange(n) + ctx.uni(0.3, 0.7)) / n
    rows = []
    for i in range(1 if dim == 'ring' else k):
        for z in ((0.0,) if dim != '3D' else (0.0, 0.15 + 0.03 * i)):
            rows.append(np.array([(0.3 + 0.2 * i) * np.cos(a), (0.3 + 0.2 * i) * np.sin(a), np.full(n, z)]))
    pos = np.concatenate(rows, axis=1)
    return n, len(rows), pos


METHODS = {'ring': ['linear', 'spline', 'rbf-cubic', 'sinc'], '2D': ['linear', 'spline', 'rbf-cubic', 'rbf-multiquadric', 'IDW', 'sinc'],
           '3D': ['linear', 'rbf-cubic', 'rbf-multiquadric', 'sinc']}


@monitor('whole-spacings', quick=80, thorough=1500, floor=14)
def whole_spacings(ctx):
    """Rotation by whole microphone spacings permutes the channels, for every dimension and method."""
    config.global_caching = 'none'
    dim = ctx.pick('ring', '2D', '2D', '3D')
    method = ctx.pick(*METHODS[dim])
    n, layers, pos = polar(ctx, dim)
    N, fs, step = ctx.int(1, 7), 1000.0, ctx.pick(1, -1, 2, -3)
    x = ctx.rng.standard_normal((N, n * layers))
    g = ac.SpatialInterpolatorConstantRotation(source=ac.TimeSamples(data=x, sample_freq=fs), mics=ac.MicGeom(pos_total=pos), array_dimension=dim,
                                               method=method, rotational_speed=step * fs / n)
    want = np.array([np.roll(x[t].reshape(layers, n), -step * t, axis=1).ravel() for t in range(N)])
    ctx.note(dim=dim, method=method, n=n, layers=layers, N=N, step=step)
    try:
        got = zoo.full(g, ctx.pick(1, 3, 50))
    except QhullError:
        if dim != '3D':
            raise
        ctx.sig('qhull')  # regular layers: many microphones on one sphere, which Qhull may refuse
        return
    if dim == '3D' and method == 'linear':
        got, want = off_hull(ctx, got, want)
    ctx.close(got, want, f'whole-spacings@{dim}-{method}', rtol=1e-4)
    ctx.sig(dim, method, step, N > 1)
    ctx.event(N)


@monitor('formula', quick=80, thorough=1500, floor=12)
def formula(ctx):
    """Arbitrary rotation: the radial basis functions and inverse distance weights are those of the definition."""
    from scipy.interpolate import Rbf
    config.global_caching = 'none'
    dim = ctx.pick('ring', '2D', '2D', '3D')
    method = ctx.pick(*[m for m in METHODS[dim] if m not in ('linear', 'spline')])
    n, layers, pos = polar(ctx, dim)
    pos = pos * (1 + ctx.rng.uniform(-0.03, 0.03, pos.shape[1]))
    N, fs = ctx.int(1, 5), 1000.0
    speed = ctx.pick(0.0, ctx.uni(-100, 100))
    x = ctx.rng.standard_normal((N, pos.shape[1]))
    idw, pw = ctx.int(1, 6), ctx.uni(0.5, 4)
    rot = ctx.uni(-1, 1)  # the virtual array is the turned and slightly smaller real one
    c, s = np.cos(rot), np.sin(rot)
    virt = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]) @ pos * ctx.uni(0.8, 1.1)
    g = ac.SpatialInterpolatorConstantRotation(source=ac.TimeSamples(data=x, sample_freq=fs), mics=ac.MicGeom(pos_total=pos), array_dimension=dim, method=method,
                                               mics_virtual=ac.MicGeom(pos_total=virt), rotational_speed=speed, num_IDW=idw, p_weight=pw)
    ctx.note(dim=dim, method=method, n=n, N=N, speed=speed, idw=idw, pw=pw)

    def cyl(p):
        return np.array([np.arctan2(p[1], p[0]), np.hypot(p[0], p[1]), p[2]])

    m, v = cyl(pos), cyl(virt)
    want = np.empty((N, pos.shape[1]))
    skip = False
    for t in range(N):
        phi = v[0] + 2 * np.pi * speed * t / fs
        phi = (phi + np.pi) % (2 * np.pi) - np.pi
        if method == 'IDW':
            q = np.array([v[1] * np.cos(phi), v[1] * np.sin(phi)])
            for i in range(q.shape[1]):
                dist = np.hypot(q[0, i] - pos[0], q[1, i] - pos[1])
                near = np.argsort(dist)
                skip |= idw < len(dist) and dist[near[idw]] - dist[near[idw - 1]] < 1e-9 or abs(dist[near[0]] - 1e-3) < 1e-6
                near = near[:idw]
                w = 1 / np.maximum(dist[near], 1e-300)**pw
                want[t, i] = x[t, near[0]] if dist[near[0]] < 1e-3 else (w * x[t, near]).sum() / w.sum()
        else:
            nv = virt.shape[1]
            fn = {'rbf-cubic': 'cubic', 'rbf-multiquadric': 'multiquadric', 'sinc': lambda r: np.sinc(r * nv / np.pi)}[method]
            want[t] = Rbf(m[0], m[1], m[2], x[t], function=fn)(phi, v[1], v[2])
    if skip:
        return
    got = zoo.full(g, ctx.pick(1, 3, 50))
    ctx.close(got, want, f'formula@{dim}-{method}', rtol=1e-4, scale=max(np.abs(want).max(), np.abs(x).max()))
    ctx.sig(dim, method, speed == 0)
    ctx.event(N)
