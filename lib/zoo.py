"""Seeded builders for acoular objects.  Each zoo entry builds a fresh generator chain from ctx's random stream."""
import numpy as np

import acoular as ac

FS_CHOICES = (1000.0, 12800.0, 25600.0, 44100.0, 51200.0)


def mics(ctx, n=None, spread=0.4, plane=False):
    n = n or ctx.int(2, 6)
    pos = ctx.rng.uniform(-spread, spread, (3, n))
    pos[2] = 0.0 if plane else pos[2] * 0.2
    return ac.MicGeom(pos_total=pos)


def ring(ctx, n=8, r=0.5):
    a = 2 * np.pi * np.arange(n) / n - np.pi + np.pi / n
    return ac.MicGeom(pos_total=np.array([r * np.cos(a), r * np.sin(a), 0 * a]))


def length(ctx, lo=1, hi=400):
    """Stream lengths with emphasis on special ones."""
    k = ctx.int(0, 4)
    if k == 0:
        return ctx.pick(1, 2, 3, 4, 5, 7, 8, 16, 17, 63, 64, 65, 127, 128, 129, 256, 257) if lo <= 1 else ctx.int(lo, max(lo, lo + 9))
    return ctx.int(lo, hi)


def chans(ctx, lo=1, hi=5):
    """Numbers of channels, now and then beyond a dozen."""
    return ctx.pick(8, 9, 16, 17, 33, 65) if ctx.flip(0.12) else ctx.int(lo, hi)


def data(ctx, n, ch, kind=None):
    kind = kind or ctx.pick('normal', 'normal', 'ramp', 'sparse', 'scaled')
    if kind == 'normal':
        return ctx.rng.standard_normal((n, ch))
    if kind == 'ramp':
        return (np.arange(n * ch).reshape(n, ch) + 1.0)
    if kind == 'sparse':
        d = ctx.rng.standard_normal((n, ch))
        d[ctx.rng.random((n, ch)) < 0.8] = 0
        return d
    return ctx.rng.standard_normal((n, ch)) * 10.0 ** ctx.int(-6, 6)


def ts(ctx, n=None, ch=None, fs=None, kind=None):
    n = n or length(ctx)
    ch = ch or chans(ctx)
    return ac.TimeSamples(data=data(ctx, n, ch, kind), sample_freq=fs or ctx.pick(*FS_CHOICES))


def signal(ctx, n=None, fs=None, kind=None):
    n = n or ctx.int(60, 500)
    fs = fs or ctx.pick(12800.0, 25600.0, 51200.0)
    kind = kind or ctx.pick('white', 'white', 'sine', 'pink', 'filt')
    if kind == 'white':
        return ac.WNoiseGenerator(rms=ctx.uni(0.1, 3), seed=ctx.int(0, 1000), num_samples=n, sample_freq=fs)
    if kind == 'pink':
        return ac.PNoiseGenerator(rms=ctx.uni(0.1, 3), seed=ctx.int(0, 1000), num_samples=n, sample_freq=fs, depth=ctx.int(1, 5))
    if kind == 'filt':
        return ac.FiltWNoiseGenerator(rms=ctx.uni(0.1, 3), seed=ctx.int(0, 1000), num_samples=n, sample_freq=fs, ma=[0.5, 0.2, 0.1], ar=[1.0, -0.3, 0.1])
    return ac.SineGenerator(amplitude=ctx.uni(0.1, 3), freq=ctx.uni(100, 4000), phase=ctx.uni(-3, 3), num_samples=n, sample_freq=fs)


def env(ctx, flow=None):
    k = ctx.int(0, 2) if flow is None else (1 if flow else 0)
    if k == 1:
        d = ctx.rng.standard_normal(3)
        return ac.UniformFlowEnvironment(ma=ctx.uni(0, 0.6), fdv=tuple(d / np.linalg.norm(d)), c=ctx.uni(330, 350))
    return ac.Environment(c=ctx.uni(330, 350))


def line_traj(ctx, z=None, T=1.0, speed=30.0):
    p0 = np.array([ctx.uni(-0.5, 0.5), ctx.uni(-0.5, 0.5), z if z is not None else ctx.uni(0.8, 1.5)])
    v = ctx.rng.uniform(-1, 1, 3) * speed
    v[2] *= 0.1
    pts = {}
    for t in np.linspace(-0.2, T, ctx.int(4, 7)):
        pts[float(t)] = tuple(float(x) for x in p0 + v * t + 0.02 * np.sin(3 * t) * np.array([1, -1, 0]))
    return ac.Trajectory(points=pts)


def const_traj(loc, T=1.0, n=5):
    return ac.Trajectory(points={float(t): tuple(float(x) for x in loc) for t in np.linspace(-1.0, T, n)})


def grid(ctx, small=True):
    nx = ctx.int(2, 4)
    inc = ctx.uni(0.1, 0.3)
    x0, y0 = ctx.uni(-0.4, 0.0), ctx.uni(-0.4, 0.0)
    return ac.RectGrid(x_min=x0, x_max=x0 + inc * nx, y_min=y0, y_max=y0 + inc * ctx.int(1, 3), z=ctx.uni(0.5, 1.5), increment=inc)


def steer(ctx, m=None, g=None, e=None, **kw):
    kw.setdefault('steer_type', ctx.pick('true level', 'true location', 'classic', 'inverse'))
    return ac.SteeringVector(grid=g or grid(ctx), mics=m or mics(ctx, ctx.int(3, 6)), env=e or ac.Environment(), **kw)


# ------------------------------------------------------------------ generator zoo
TIME = {}
SPEC = {}


def _t(name):
    def d(f):
        TIME[name] = f
        return f
    return d


def _s(name):
    def d(f):
        SPEC[name] = f
        return f
    return d


_t('TimeSamples')(lambda c: ts(c))


@_t('MaskedTimeSamples')
def _(c):
    n, ch = length(c, 2), c.int(2, 5)
    a = c.int(0, n - 1)
    b = c.int(a + 1, n)
    return ac.MaskedTimeSamples(data=data(c, n, ch), sample_freq=c.pick(*FS_CHOICES), start=a, stop=c.pick(b, None),
                                invalid_channels=c.pick([], [0], [ch - 1], [0, ch + 3]) if ch > 1 else [])


@_t('MaskedTimeOut')
def _(c):
    s = ts(c, length(c, 2), c.int(2, 5))
    n = s.num_samples
    a = c.pick(0, c.int(0, n - 1), c.int(0, n - 1))
    b = c.int(a + 1, n)
    kw = {}
    if c.flip(0.2):
        kw = dict(start=-(n - a), stop=None)
    else:
        kw = dict(start=a, stop=c.pick(b, b, None, n + 5))
    return ac.MaskedTimeOut(source=s, invalid_channels=c.pick([], [0], [1], [s.num_channels - 1]), **kw)


@_t('ChannelMixer')
def _(c):
    s = ts(c)
    return ac.ChannelMixer(source=s, weights=c.pick([], c.rng.standard_normal(s.num_channels), [2.5]))


@_t('Mixer')
def _(c):
    n, ch, fs = length(c), c.int(1, 4), c.pick(*FS_CHOICES)
    return ac.Mixer(source=ts(c, n, ch, fs), sources=[ts(c, n, ch, fs) for _ in range(c.int(0, 3))])


@_t('SourceMixer')
def _(c):
    n, ch, fs = length(c), c.int(1, 4), c.pick(*FS_CHOICES)
    k = c.int(1, 4)
    return ac.SourceMixer(sources=[ts(c, n, ch, fs) for _ in range(k)], weights=c.pick([], c.rng.standard_normal(k)))


_t('TimePower')(lambda c: ac.TimePower(source=ts(c)))
_t('TimeCumAverage')(lambda c: ac.TimeCumAverage(source=ts(c)))
_t('TimeReverse')(lambda c: ac.TimeReverse(source=ts(c)))


@_t('FiltOctave')
def _(c):
    s = ts(c)
    return ac.FiltOctave(source=s, band=s.sample_freq * c.uni(0.02, 0.3), fraction=c.pick('Octave', 'Third octave'), order=c.int(1, 4))


@_t('FiltFiltOctave')
def _(c):
    s = ts(c, c.int(60, 400))
    return ac.FiltFiltOctave(source=s, band=s.sample_freq * c.uni(0.05, 0.3), fraction=c.pick('Octave', 'Third octave'), order=c.int(1, 3))


_t('TimeExpAverage')(lambda c: ac.TimeExpAverage(source=ts(c), weight=c.pick('F', 'S', 'I')))
_t('FiltFreqWeight')(lambda c: ac.FiltFreqWeight(source=ts(c, fs=c.pick(25600.0, 44100.0, 51200.0)), weight=c.pick('A', 'C', 'Z')))


@_t('OctaveFilterBank')
def _(c):
    lo = c.int(21, 30)
    return ac.OctaveFilterBank(source=ts(c, fs=c.pick(44100.0, 51200.0)), lband=lo, hband=lo + c.int(3, 9), fraction=c.pick('Octave', 'Third octave'))


_t('Average')(lambda c: ac.Average(source=ts(c, c.int(8, 400)), num_per_average=c.int(1, 8)))


@_t('TimeConvolve')
def _(c):
    s = ts(c)
    L = length(c, 1, 200)
    k = c.pick(c.rng.standard_normal(L), c.rng.standard_normal((L, 1)), c.rng.standard_normal((L, s.num_channels)))
    return ac.TimeConvolve(source=s, kernel=k)


@_t('Calib')
def _(c):
    s = ts(c)
    return ac.Calib(source=s, data=c.rng.uniform(0.5, 2, s.num_channels))


@_t('Cache')
def _(c):
    return ac.Cache(source=ts(c))


@_t('SampleChain')
def _(c):
    s = ts(c, c.int(40, 400), c.int(2, 4), 25600.0)
    return ac.Average(num_per_average=c.int(1, 6), source=ac.TimePower(source=ac.FiltOctave(band=c.uni(500, 4000), source=ac.MaskedTimeOut(source=s, start=c.int(0, 5), stop=s.num_samples - c.int(0, 5), invalid_channels=[1]))))


@_t('SpatialInterpolatorConstantRotation')
def _(c):
    m = ring(c, c.int(5, 9))
    s = ts(c, c.int(2, 40), m.num_mics, 1000.0)
    return ac.SpatialInterpolatorConstantRotation(source=s, mics=m, array_dimension='ring', method=c.pick('linear', 'spline'), rotational_speed=c.uni(-20, 20))


def _pkw(c):
    return dict(mics=mics(c), loc=tuple(c.rng.uniform(-0.5, 0.5, 2)) + (c.uni(0.5, 1.2),), start_t=c.pick(0.0, c.uni(0, 2e-3)), start=c.pick(0.0, c.uni(0, 2e-3)), up=c.pick(1, 4, 16))


@_t('PointSource')
def _(c):
    return ac.PointSource(signal=signal(c), env=env(c), prepadding=c.pick('loop', 'zeros'), **_pkw(c))


def _tail(c):
    """Sources that stop at the end of the signal: reception starts after the first sound has arrived."""
    kw = _pkw(c)
    kw['start_t'] = 0.0
    kw['start'] = 0.006
    return kw


@_t('PointSourceDipole')
def _(c):
    return ac.PointSourceDipole(signal=signal(c, c.int(300, 600)), direction=tuple(c.rng.standard_normal(3)), **_tail(c))


@_t('LineSource')
def _(c):
    k = c.int(1, 4)
    return ac.LineSource(signal=signal(c, c.int(300, 600), kind='white'), num_sources=k, length=c.uni(0.1, 1), direction=tuple(c.rng.standard_normal(3)),
                         source_strength=c.rng.uniform(0.3, 2, k), coherence=c.pick('coherent', 'incoherent'), **_tail(c))


@_t('MovingPointSource')
def _(c):
    return ac.MovingPointSource(signal=signal(c, c.int(300, 500)), trajectory=line_traj(c), conv_amp=c.flip(), **_tail(c))


@_t('MovingPointSourceDipole')
def _(c):
    return ac.MovingPointSourceDipole(signal=signal(c, c.int(300, 400)), trajectory=line_traj(c), direction=(0, 0, 1), rvec=c.pick((0, 0, 0), (0, 0, 1)), conv_amp=c.flip(), **_tail(c))


@_t('MovingLineSource')
def _(c):
    k = c.int(1, 3)
    return ac.MovingLineSource(signal=signal(c, c.int(300, 360), kind='white'), trajectory=line_traj(c), num_sources=k, length=0.3, direction=(1, 0, 0),
                               source_strength=c.rng.uniform(0.3, 2, k), coherence=c.pick('coherent', 'incoherent'), **_tail(c))


@_t('UncorrelatedNoiseSource')
def _(c):
    return ac.UncorrelatedNoiseSource(signal=signal(c, kind=c.pick('white', 'pink')), mics=mics(c))


@_t('PointSourceConvolve')
def _(c):
    return ac.PointSourceConvolve(signal=signal(c), mics=mics(c), kernel=c.rng.standard_normal(c.int(1, 30)))


def _btsrc(c, st, cls=ac.TimeSamples):
    n = c.int(300, 420)
    return ac.TimeSamples(data=c.rng.standard_normal((n, st.mics.num_mics)), sample_freq=c.pick(12800.0, 25600.0))


@_t('BeamformerTime')
def _(c):
    st = steer(c)
    return ac.BeamformerTime(source=_btsrc(c, st), steer=st, weights=c.pick('none', 'power'))


@_t('BeamformerTimeSq')
def _(c):
    st = steer(c)
    return ac.BeamformerTimeSq(source=_btsrc(c, st), steer=st, r_diag=c.flip(), weights=c.pick('none', 'power'))


def _cgrid(c):
    inc = c.uni(0.1, 0.3)
    return ac.RectGrid(x_min=-inc, x_max=inc, y_min=-inc, y_max=0, z=0, increment=inc)


@_t('BeamformerTimeTraj')
def _(c):
    st = steer(c, g=_cgrid(c))
    return ac.BeamformerTimeTraj(source=_btsrc(c, st), steer=st, trajectory=line_traj(c), rvec=c.pick((0, 0, 0), (0, 0, 1)), conv_amp=c.flip(), weights=c.pick('none', 'power'))


@_t('BeamformerTimeSqTraj')
def _(c):
    st = steer(c, g=_cgrid(c))
    return ac.BeamformerTimeSqTraj(source=_btsrc(c, st), steer=st, trajectory=line_traj(c), r_diag=c.flip(), conv_amp=c.flip())


@_t('IRFFT')
def _(c):
    b = 2 * c.int(2, 16)
    return ac.IRFFT(source=ac.RFFT(source=ts(c, b * c.int(1, 6)), block_size=b))


@_t('IntegratorSectorTime')
def _(c):
    g = ac.RectGrid(x_min=-1, x_max=1, y_min=-1, y_max=1, increment=0.5)
    return ac.IntegratorSectorTime(source=ts(c, None, g.size, kind='normal'), grid=g, sectors=[(-0.1, -0.1, 0.6, 0.6), (0.0, 0.0, 0.6)])


def rfft(c, n=None, ch=None, **kw):
    b = kw.pop('block_size', None) or 2 * c.int(2, 16)
    s = ts(c, n or b + c.int(0, 6 * b), ch)
    kw.setdefault('scaling', c.pick('none', 'energy', 'amplitude'))
    kw.setdefault('window', c.pick('Rectangular', 'Hanning', 'Hamming', 'Bartlett', 'Blackman'))
    kw.setdefault('overlap', c.pick('None', '50%', '75%', '87.5%') if b % 8 == 0 else 'None')
    kw.setdefault('precision', c.pick('complex128', 'complex128', 'complex64'))
    return ac.RFFT(source=s, block_size=b, **kw)


_s('RFFT')(lambda c: rfft(c))
_s('AutoPowerSpectra')(lambda c: ac.AutoPowerSpectra(source=rfft(c), scaling=c.pick('power', 'psd'), single_sided=c.flip(), precision=c.pick('float64', 'float32')))
_s('CrossPowerSpectra')(lambda c: ac.CrossPowerSpectra(source=rfft(c), scaling=c.pick('power', 'psd'), single_sided=c.flip(), calc_mode=c.pick('full', 'upper', 'lower')))
_s("AverageSpectra")(lambda c: ac.Average(source=ac.AutoPowerSpectra(source=rfft(c, 200)), num_per_average=c.int(1, 3)))
_s('CacheSpectra')(lambda c: ac.Cache(source=rfft(c)))


@_s('CalibSpectra')
def _(c):
    r = rfft(c)
    return ac.Calib(source=ac.AutoPowerSpectra(source=r), data=c.rng.uniform(0.5, 2, r.num_channels * r.num_freqs))


ALL = {**TIME, **SPEC}


def collect(gen_iter):
    """Copies of all delivered blocks (several generators document that they reuse their output buffer)."""
    return [np.array(b, copy=True) for b in gen_iter]


def full(g, num):
    b = collect(g.result(num))
    return np.concatenate(b, axis=0) if b else np.empty((0, 0))
