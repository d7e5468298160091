"""Object graphs as plain data: settings are drawn, built, mutated and rebuilt independently of live objects.

A Node is (class name, {trait: value | Node | list of Nodes}).  DRAW holds, for every class, how each public setting is
drawn.  The same Node can be built any number of times; a live object can be driven by the same mutations the Node
records, so that live and fresh objects (C07) and identity strings of different settings (C06) can be compared.
"""
import numpy as np
import zoo

import acoular as ac


class Node:
    def __init__(self, cls, **kw):
        self.cls, self.kw = cls, kw

    def copy(self, memo=None):
        memo = {} if memo is None else memo
        if id(self) not in memo:
            n = Node(self.cls)
            memo[id(self)] = n
            n.kw = {k: _cp(v, memo) for k, v in self.kw.items()}
        return memo[id(self)]

    def nodes(self, path='', out=None):
        out = {} if out is None else out
        if id(self) not in out:
            out[id(self)] = (path, self)
            for k, v in self.kw.items():
                if isinstance(v, Node):
                    v.nodes(f'{path}.{k}', out)
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if isinstance(x, Node):
                            x.nodes(f'{path}.{k}[{i}]', out)
        return out


def _cp(v, memo):
    if isinstance(v, Node):
        return v.copy(memo)
    if isinstance(v, list):
        return [_cp(x, memo) for x in v]
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return dict(v)
    return v


def build(node, memo=None):
    """The acoular object for a Node; shared Nodes give shared objects.  memo maps id(Node) to the object."""
    memo = {} if memo is None else memo
    if id(node) in memo:
        return memo[id(node)]
    o = getattr(ac, node.cls)(**{k: value(v, memo) for k, v in node.kw.items()})
    memo[id(node)] = o
    memo.setdefault('nodes', []).append(node)  # an id stays in use as long as the memo
    return o


def value(v, memo):
    if isinstance(v, Node):
        return build(v, memo)
    if isinstance(v, list):
        return [value(x, memo) for x in v]
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return dict(v)
    return v


class D:
    """Dimensions shared by all nodes of one tree, so that everything drawn fits together."""

    def __init__(self, c):
        self.ch = c.int(3, 5)
        self.fs = c.pick(12800.0, 25600.0, 51200.0)
        self.n = c.int(60, 140)
        self.big = c.flip(0.15)


DRAW = {}
FP = {}


def spec(name, fp, **draw):
    DRAW[name] = draw
    FP[name] = fp


def make(c, cls, d):
    return Node(cls, **{k: f(c, d) for k, f in DRAW[cls].items()})


def sub(*classes):
    return lambda c, d: make(c, c.pick(*classes), d)


def U(a, b):
    return lambda c, d: c.uni(a, b)


def I(a, b):  # noqa: E743
    return lambda c, d: c.int(a, b)


def P(*opts):
    return lambda c, d: c.pick(*opts)


def A(*shape, lo=None, hi=None):
    def f(c, d):
        s = tuple(getattr(d, x) if isinstance(x, str) else x for x in shape)
        return c.rng.standard_normal(s) if lo is None else c.rng.uniform(lo, hi, s)
    return f


def tup(lo, hi, n=3):
    return lambda c, d: tuple(float(x) for x in c.rng.uniform(lo, hi, n))


# ---------------------------------------------------------------- fingerprints
def fp_gen(o):
    # the documented block generators re-use buffers: copies
    g = zoo.full(o, 37)
    out = dict(rows=g, num_channels=np.array(o.num_channels), sample_freq=np.array(o.sample_freq), num_samples=np.array(o.num_samples))
    if hasattr(o, 'num_freqs'):
        out['freqs'] = np.asarray(o.freqs)
    return out


def fp_sig(o):
    return dict(signal=np.array(o.signal()))


def fp_mic(o):
    return dict(mpos=np.array(o.mpos), n=np.array(o.num_mics), center=np.array(o.center), aperture=np.array(o.aperture))


def fp_grid(o):
    return dict(pos=np.array(o.pos), size=np.array(o.size), shape=np.array(o.shape))


G0 = np.array([[0.1, -0.2, 0.3, 0.0], [0.2, 0.1, -0.3, 0.05], [0.7, 0.8, 0.9, 0.75]])
M0 = np.array([[0.0, 0.3, -0.4], [0.1, -0.2, 0.3], [0.0, 0.05, 0.02]])


def fp_env(o):
    return dict(r=np.array(o._r(G0, M0)))


def fp_flow(o):
    return dict(v=np.array([np.hstack([o.v(G0[:, k])[0], o.v(G0[:, k])[1].ravel()]) for k in range(4)]))


def fp_traj(o):
    t = np.linspace(o.interval[0], o.interval[1], 17)
    return dict(loc=np.array(o.location(t)), vel=np.array(o.location(t, der=1)), iv=np.array(o.interval))


def fp_steer(o):
    return dict(r0=np.array(o.r0), rm=np.array(o.rm), tr=np.array(o.transfer(700.0)), sv=np.array(o.steer_vector(700.0)))


def fp_ps(o):
    return dict(csm=np.array(o.csm), eva=np.array(o.eva), f=np.array(o.fftfreq()), **{'~ind': np.array(o.indices)})


def fp_bf(o):
    f = o.freq_data.fftfreq()
    k = 2 if len(f) < 10 else 10
    return dict(line=np.array(o.synthetic(f[k], 0)), band=np.array(o.synthetic(f[k], 1)))


def fp_psf(o):
    return dict(psf=np.array(o.psf[:]))


def fp_int(o):
    return fp_gen(o)


# ---------------------------------------------------------------- signals
_ns = dict(num_samples=lambda c, d: d.n + (2000 if d.big else 0), sample_freq=lambda c, d: d.fs)
_noise = dict(rms=U(0.2, 2), seed=I(0, 500), **_ns)
spec('WNoiseGenerator', fp_sig, **_noise)
spec('PNoiseGenerator', fp_sig, depth=I(1, 6), **_noise)
spec('FiltWNoiseGenerator', fp_sig, ma=A(3, lo=0.1, hi=0.6), ar=lambda c, d: np.r_[1.0, c.rng.uniform(-0.3, 0.3, 2)], **_noise)
spec('SineGenerator', fp_sig, amplitude=U(0.2, 2), freq=U(200, 3000), phase=U(-3, 3), **_ns)
spec('GenericSignalGenerator', fp_sig, loop_signal=P(True, False), amplitude=U(0.2, 2), source=sub('TimeSamples'), num_samples=lambda c, d: d.n + c.int(-20, 40))
_anysig = sub('WNoiseGenerator', 'PNoiseGenerator', 'FiltWNoiseGenerator', 'SineGenerator')

# ---------------------------------------------------------------- geometry
spec('MicGeom', fp_mic, pos_total=lambda c, d: np.vstack([c.rng.uniform(-0.4, 0.4, (2, d.ch + 1)), c.rng.uniform(-0.05, 0.05, (1, d.ch + 1))]),
     invalid_channels=lambda c, d: [c.int(0, d.ch)])
spec('Environment', fp_env, c=U(320, 360))
spec('UniformFlowEnvironment', fp_env, c=U(320, 360), ma=U(0.05, 0.6),
     fdv=lambda c, d: (lambda v: tuple(float(x) for x in v / np.linalg.norm(v)))(c.rng.standard_normal(3)))
spec('SlotJet', fp_flow, v0=U(5, 60), origin=A(3, lo=-0.2, hi=0.2), flow=lambda c, d: c.pick(np.array([1.0, 0, 0]), np.array([0.9, 0.1, 0])), plane=P(np.array([0, 1.0, 0]), np.array([0, 0.9, 0.2])), B=U(0.1, 0.8), l=U(2, 6))
spec('OpenJet', fp_flow, v0=U(5, 60), origin=A(3, lo=-0.2, hi=0.2), D=U(0.1, 0.8), l=U(2, 6))
spec('RotatingFlow', fp_flow, v0=U(5, 20), origin=A(3, lo=-0.2, hi=0.2), rps=U(-3, 3))
spec('GeneralFlowEnvironment', fp_env, c=U(320, 360), ff=sub('SlotJet', 'OpenJet', 'RotatingFlow'), N=I(60, 90), Om=U(2.6, 3.1),
     roi=lambda c, d: c.pick(None, G0 * 1.0, np.concatenate([G0, G0 * 1.3], axis=1)))
spec('RectGrid', fp_grid, x_min=U(-0.5, -0.3), x_max=U(0.2, 0.4), y_min=U(-0.4, -0.2), y_max=U(0.1, 0.3), z=U(0.5, 1), increment=U(0.24, 0.4))
spec('RectGrid3D', fp_grid, x_min=U(-0.4, -0.2), x_max=U(0.2, 0.3), y_min=U(-0.3, -0.2), y_max=U(0.1, 0.2), z_min=U(0.5, 0.6), z_max=U(0.8, 1), increment=lambda c, d: c.pick(c.uni(0.25, 0.4), tuple(float(x) for x in c.rng.uniform(0.25, 0.4, 3))))
spec('ImportGrid', fp_grid, pos=lambda c, d: np.vstack([c.rng.uniform(-0.4, 0.4, (2, 7)), c.rng.uniform(0.6, 0.9, (1, 7))]))
spec('LineGrid', fp_grid, loc=tup(-0.3, 0.9), direction=tup(0.1, 1), length=U(0.3, 1), num_points=I(2, 7))
spec('MergeGrid', fp_grid, grids=lambda c, d: [make(c, 'RectGrid', d), make(c, c.pick('RectGrid', 'ImportGrid', 'LineGrid'), d)])
_grid = sub('RectGrid', 'RectGrid', 'RectGrid3D', 'ImportGrid')
_env = sub('Environment', 'UniformFlowEnvironment')
spec('Trajectory', fp_traj, points=lambda c, d: {float(t): tuple(float(x) for x in (c.rng.uniform(-0.3, 0.3), c.rng.uniform(-0.3, 0.3), c.rng.uniform(0.8, 1.2))) for t in np.linspace(-0.2, 1, c.int(4, 6))})

# ---------------------------------------------------------------- measured data
spec('Calib', None, data=A('ch', lo=0.5, hi=2))
spec('TimeSamples', fp_gen, data=lambda c, d: c.rng.standard_normal((d.n + c.pick(0, 0, 0, 7) + (2000 if d.big else 0), d.ch)), sample_freq=lambda c, d: d.fs)
spec('TimeSamples+calib', fp_gen, data=lambda c, d: c.rng.standard_normal((d.n, d.ch)), sample_freq=lambda c, d: c.pick(d.fs, 1.5 * d.fs), calib=sub('Calib'))
spec('MaskedTimeSamples', fp_gen, data=lambda c, d: c.rng.standard_normal((d.n, d.ch + 1)), sample_freq=lambda c, d: d.fs, start=I(0, 15), stop=lambda c, d: c.pick(None, c.int(30, 50)), invalid_channels=lambda c, d: [c.int(0, d.ch)])
_src = lambda c, d: make(c, c.pick('TimeSamples', 'TimeSamples', 'MaskedTimeSamples'), d)  # noqa: E731
_src1 = sub('TimeSamples')

# ---------------------------------------------------------------- time processing
spec('MaskedTimeOut', fp_gen, source=_src1, start=I(0, 15), stop=lambda c, d: c.pick(None, c.int(30, 50)), invalid_channels=lambda c, d: c.pick([], [0], [1], [d.ch - 1], [1, 0], [d.ch - 1, 0]))
spec('ChannelMixer', fp_gen, source=_src, weights=A('ch'))
spec('TimePower', fp_gen, source=_src)
spec('TimeCumAverage', fp_gen, source=_src)
spec('TimeReverse', fp_gen, source=_src)
spec('FiltOctave', fp_gen, source=_src1, band=U(600, 3000), fraction=P('Octave', 'Third octave'), order=I(1, 4))
spec('FiltFiltOctave', fp_gen, source=_src1, band=U(900, 3000), fraction=P('Octave', 'Third octave'), order=I(1, 3))
spec('TimeExpAverage', fp_gen, source=_src, weight=P('F', 'S', 'I'))
spec('FiltFreqWeight', fp_gen, source=_src, weight=P('A', 'C', 'Z'))
spec('OctaveFilterBank', fp_gen, source=_src, lband=I(21, 25), hband=I(28, 31), fraction=P('Octave', 'Third octave'))
spec('Average', fp_gen, source=_src, num_per_average=I(1, 7))
spec('TimeConvolve', fp_gen, source=_src1, kernel=lambda c, d: c.pick(c.rng.standard_normal(c.int(1, 50)), c.rng.standard_normal((c.int(1, 50), d.ch))))
spec('CalibOut', fp_gen, source=_src, data=A('ch', lo=0.5, hi=2))
spec('Cache', fp_gen, source=_src)
spec('SourceMixer', fp_gen, sources=lambda c, d: [make(c, 'TimeSamplesN', d) for _ in range(2)], weights=A(2))
spec('TimeSamplesN', fp_gen, data=A('n', 'ch'), sample_freq=lambda c, d: d.fs)
spec('Mixer', fp_gen, source=sub('TimeSamplesN'), sources=lambda c, d: [make(c, 'TimeSamplesN', d) for _ in range(c.pick(2, 2, 1, 3))])
spec('MicRing', fp_mic, pos_total=lambda c, d: _ring(d.ch, c.uni(0.3, 0.6)))
spec('SpatialInterpolatorConstantRotation', fp_gen, source=lambda c, d: make(c, 'TimeSamplesN', d),
     mics=sub('MicRing'), array_dimension=P('ring'), method=P('linear', 'spline'), rotational_speed=U(-20, 20))
spec('InterpolatorVirtual', fp_gen, source=lambda c, d: make(c, 'TimeSamplesN', d), mics=sub('MicRing'), mics_virtual=lambda c, d: Node('MicRing', pos_total=_ring(c.int(2, 6), c.uni(0.3, 0.6))),
     array_dimension=P('ring'), method=P('linear', 'spline', 'sinc'), rotational_speed=U(-20, 20))
spec('MicDisc', fp_mic, pos_total=lambda c, d: _disc(c, d.ch + 3))
spec('InterpolatorIDW', fp_gen, source=lambda c, d: Node('TimeSamplesN', data=c.rng.standard_normal((d.n, d.ch + 3)), sample_freq=d.fs), mics=sub('MicDisc'), array_dimension=P('2D'), method=P('IDW'), num_IDW=I(1, 3), p_weight=U(0.5, 4), rotational_speed=U(-20, 20))


def _disc(c, n):
    a = 2 * np.pi * np.arange(n) / n - np.pi + np.pi / n + c.rng.uniform(-0.1, 0.1, n)
    r = c.rng.uniform(0.3, 0.6, n)
    return np.array([r * np.cos(a), r * np.sin(a), 0 * a])


def _ring(n, r):
    a = 2 * np.pi * np.arange(n) / n - np.pi + np.pi / n
    return np.array([r * np.cos(a), r * np.sin(a), 0 * a])


# ---------------------------------------------------------------- tracking
def _pulses(c, d):
    x = np.zeros((c.int(400, 440), 1))
    x[c.int(5, 12)::c.int(28, 40)] = c.uni(0.8, 1.5)
    return x


def fp_trig(o):
    t = o.trigger_data
    return dict(peaks=np.array(t[0]), lim=np.array(t[1:]))


spec('PulseTrain', None, data=_pulses, sample_freq=lambda c, d: d.fs)
spec('Trigger', fp_trig, source=sub('PulseTrain'), threshold=P(0.5, 0.6, 0.7), max_variation_of_duration=P(0.02, 0.1), hunk_length=U(0.05, 0.2), trigger_type=P('dirac', 'dirac', 'rect'), multiple_peaks_in_hunk=P('extremum', 'first'))
spec('AngleTracker', lambda o: dict(angle=np.array(o.angle), rpm=np.array(o.rpm), mean=np.array(o.average_rpm)), source=lambda c, d: Node('TimeSamples', data=c.rng.standard_normal((380, d.ch)), sample_freq=d.fs), trigger=sub('Trigger'),
     trigger_per_revo=I(1, 3), rot_direction=P(-1, 1), interp_points=P(4, 5), start_angle=U(0, 3))
spec('SpatialInterpolatorRotation', fp_gen, source=lambda c, d: Node('TimeSamples', data=c.rng.standard_normal((380, d.ch)), sample_freq=d.fs), mics=sub('MicRing'), array_dimension=P('ring'), method=P('linear', 'spline'), angle_source=sub('AngleTracker'))

# ---------------------------------------------------------------- sources
_ps = dict(mics=sub('MicGeom'), loc=lambda c, d: (c.uni(-0.4, 0.4), c.uni(-0.4, 0.4), c.uni(0.5, 1.0)), env=_env, start=lambda c, d: c.uni(0.003, 0.004), start_t=lambda c, d: c.uni(0, 5e-4), up=P(2, 4, 16))
_longsig = lambda c, d: (lambda nd: (nd.kw.update(num_samples=c.int(300, 330)), nd)[1])(make(c, c.pick('WNoiseGenerator', 'SineGenerator'), d))  # noqa: E731
_longnoise = lambda c, d: (lambda nd: (nd.kw.update(num_samples=c.int(300, 330)), nd)[1])(make(c, 'WNoiseGenerator', d))  # noqa: E731
spec('PointSource', fp_gen, signal=_anysig, prepadding=P('loop', 'zeros'), **_ps)
spec('PointSourceDipole', fp_gen, signal=_longsig, direction=tup(-1, 1), **_ps)
spec('SphericalHarmonicSource', fp_gen, signal=_longsig, direction=tup(0.1, 1), lOrder=lambda c, d: 1, alpha=lambda c, d: c.rng.standard_normal(4), **_ps)
spec('LineSource', fp_gen, signal=_longnoise, direction=tup(-1, 1), length=U(0.1, 1), num_sources=lambda c, d: 2, source_strength=A(2, lo=0.3, hi=2), coherence=P('coherent', 'incoherent'), **_ps)
spec('MovingPointSource', fp_gen, signal=_longsig, trajectory=sub('Trajectory'), conv_amp=P(True, False), **_ps)
spec('MovingPointSourceDipole', fp_gen, signal=_longsig, trajectory=sub('Trajectory'), conv_amp=P(True, False), direction=tup(-1, 1), rvec=lambda c, d: np.array(c.pick((0.0, 0, 0), (0.0, 0, 1))), **_ps)
spec('MovingLineSource', fp_gen, signal=_longnoise, trajectory=sub('Trajectory'), conv_amp=P(True, False), direction=tup(-1, 1), rvec=lambda c, d: np.array(c.pick((0.0, 0, 0), (0.0, 0, 1))), length=U(0.1, 1), num_sources=lambda c, d: 2, source_strength=A(2, lo=0.3, hi=2), coherence=P('coherent', 'incoherent'), **_ps)
spec('PointSourceConvolve', fp_gen, signal=_anysig, mics=sub('MicGeom'), loc=_ps['loc'], kernel=lambda c, d: c.rng.standard_normal(c.int(1, 30)))
spec('UncorrelatedNoiseSource', fp_gen, signal=sub('WNoiseGenerator', 'PNoiseGenerator'), mics=sub('MicGeom'), seed=lambda c, d: c.rng.choice(1000, d.ch, replace=False).astype(np.uint32))

# ---------------------------------------------------------------- spectra
_spsrc = lambda c, d: Node('TimeSamples', data=c.rng.standard_normal((c.int(200, 300), d.ch)), sample_freq=d.fs)  # noqa: E731
_pssrc = lambda c, d: Node('TimeSamples', data=c.rng.standard_normal((c.int(1500, 1600), d.ch)), sample_freq=d.fs)  # noqa: E731
spec('RFFT', fp_gen, source=_spsrc, block_size=P(16, 32, 64), window=P('Rectangular', 'Hanning', 'Hamming', 'Bartlett', 'Blackman'), overlap=P('None', '50%', '75%', '87.5%'), scaling=P('none', 'energy', 'amplitude'))
spec('IRFFT', fp_gen, source=lambda c, d: Node('RFFT', source=_spsrc(c, d), block_size=c.pick(16, 32)))
spec('AutoPowerSpectra', fp_gen, source=sub('RFFT'), scaling=P('power', 'psd'), single_sided=P(True, False))
spec('CrossPowerSpectra', fp_gen, source=sub('RFFT'), scaling=P('power', 'psd'), single_sided=P(True, False), calc_mode=P('full', 'upper', 'lower'))
spec('PowerSpectra', fp_ps, source=_pssrc, block_size=P(128, 128, 128), window=P('Rectangular', 'Hanning', 'Hamming', 'Bartlett', 'Blackman'), overlap=P('None', '50%', '75%', '87.5%'),
     ind_low=I(1, 4), ind_high=I(20, 30), precision=P('complex128', 'complex64'))
spec('PowerSpectraF', fp_ps, source=_pssrc, block_size=P(128, 256), freq_range=lambda c, d: (c.uni(0.02, 0.1) * d.fs, c.uni(0.2, 0.4) * d.fs))


def _csm(c, d, nf=5):
    x = c.rng.standard_normal((nf, d.ch, 2 * d.ch)) + 1j * c.rng.standard_normal((nf, d.ch, 2 * d.ch))
    return np.einsum('fij,fkj->fik', x, x.conj()) / (2 * d.ch)


spec('PowerSpectraImport', fp_ps, csm=lambda c, d: _csm(c, d), frequencies=lambda c, d: np.sort(c.rng.uniform(300, 4000, 5)))

# ---------------------------------------------------------------- beamforming
_ref = lambda c, d: c.pick(1.0, 0.0, 0.7, np.array([0.1, 0.2, 0.3]))  # noqa: E731
spec('SteeringVector', fp_steer, mics=sub('MicGeom'), grid=_grid, env=_env, steer_type=P('true level', 'true location', 'classic', 'inverse'), ref=P(1.0, 0.7, np.array([0.1, 0.2, 0.3])))
_fd = lambda c, d: make(c, c.pick('PowerSpectra', 'PowerSpectraImport'), d)  # noqa: E731
_b = dict(freq_data=_fd, steer=sub('SteeringVector'), precision=P('float64', 'float32'))
_br = dict(r_diag=P(True, False), **_b)
spec('BeamformerBase', fp_bf, r_diag_norm=P(0.0, 2.5), **_br)
spec('BeamformerFunctional', fp_bf, gamma=U(1, 20), **_b)
spec('BeamformerCapon', fp_bf, **_b)
spec('BeamformerEig', fp_bf, n=I(-2, 1), **_br)
spec('BeamformerMusic', fp_bf, n=I(1, 2), **_b)
spec('BeamformerDamas', fp_bf, n_iter=I(2, 20), damp=U(0.5, 1), psf_precision=P('float64', 'float32'), **_br)
spec('BeamformerDamasPlus', fp_bf, method=P('NNLS', 'LassoLars'), alpha=U(0, 0.01), n_iter=I(5, 50), unit_mult=P(1e3, 1e6), psf_precision=P('float64', 'float32'), **_br)
spec('BeamformerOrth', fp_bf, eva_list=lambda c, d: np.array(c.pick([-1], [-1, -2], [-2])), **_br)
spec('BeamformerCleansc', fp_bf, n_iter=I(0, 6), damp=U(0.3, 1), stopn=I(1, 3), **_br)
spec('BeamformerClean', fp_bf, n_iter=I(2, 20), damp=U(0.3, 1), psf_precision=P('float64', 'float32'), **_br)
spec('BeamformerCMF', fp_bf, method=P('NNLS', 'LassoLars'), alpha=U(0, 0.01), n_iter=I(5, 50), unit_mult=P(1e3, 1e6), **_br)
spec('BeamformerGIB', fp_bf, method=P('LassoLars', 'Suzuki'), n=I(1, 2), m=I(0, 1), pnorm=P(1.0, 1.5), beta=U(0.7, 0.95), eps_perc=U(0.01, 0.1), n_iter=I(2, 5), unit_mult=P(1e3, 1e6), alpha=U(0, 0.01), **_br)
spec('BeamformerGridlessOrth', lambda o: (lambda r: dict(line=r, pos=np.array(o.gpos)))(np.array(o.synthetic(o.freq_data.fftfreq()[2], 0))), freq_data=sub('PowerSpectraImport'), steer=sub('SteeringVector'), eva_list=lambda c, d: np.array(c.pick([-1], [-1, -2])),
     bounds=lambda c, d: [(-0.5, c.pick(0.5, 0.3)), (-0.5, 0.5), (0.4, 1.0)], r_diag=P(True, False))
spec('PointSpreadFunction', fp_psf, steer=sub('SteeringVector'), freq=U(400, 3000), precision=P('float64', 'float32'), calcmode=P('single', 'block', 'full'), grid_indices=lambda c, d: np.array(c.pick([0, 1], [1], [1, 0], [0])))

# ---------------------------------------------------------------- time domain beamforming
_tsrc = lambda c, d: Node('TimeSamples', data=c.rng.standard_normal((c.int(500, 520), d.ch)), sample_freq=d.fs)  # noqa: E731
_tsteer = lambda c, d: (lambda nd: (nd.kw.update(ref=1.0, grid=make(c, 'RectGrid', d)), nd)[1])(make(c, 'SteeringVector', d))  # noqa: E731
_bt = dict(source=_tsrc, steer=_tsteer, weights=P('none', 'power'))
_btt = dict(trajectory=sub('Trajectory'), rvec=lambda c, d: np.array(c.pick((0.0, 0, 0), (0.0, 0, 1))), conv_amp=P(True, False), **_bt)
spec('BeamformerTime', fp_gen, **_bt)
spec('BeamformerTimeSq', fp_gen, r_diag=P(True, False), **_bt)
spec('BeamformerTimeTraj', fp_gen, precision=P(64, 32), **_btt)
spec('BeamformerTimeSqTraj', fp_gen, r_diag=P(True, False), precision=P(64, 32), **_btt)
spec('BeamformerCleant', fp_gen, damp=U(0.4, 1), n_iter=I(1, 6), **_bt)
spec('BeamformerCleantSq', fp_gen, damp=U(0.4, 1), n_iter=I(1, 6), r_diag=P(True, False), **_bt)
spec('BeamformerCleantTraj', fp_gen, damp=U(0.4, 1), n_iter=I(1, 4), **_btt)
spec('BeamformerCleantSqTraj', fp_gen, damp=U(0.4, 1), n_iter=I(1, 4), r_diag=P(True, False), **_btt)
spec('IntegratorSectorTime', fp_gen, source=lambda c, d: Node('TimeSamples', data=c.rng.uniform(0.1, 1, (50, 9)), sample_freq=d.fs), grid=lambda c, d: Node('RectGrid', x_min=-0.5, x_max=0.5, y_min=-0.5, y_max=0.5, increment=0.5),
     sectors=lambda c, d: [(-0.1, -0.1, 0.5, 0.5), (0.0, 0.0, c.pick(0.3, 0.55)), (-0.5, -0.5, 0.1, 0.1)][:c.int(1, 3)], clip=P(-350.0, -3.0))

ALIAS = {'InterpolatorVirtual': 'SpatialInterpolatorConstantRotation', 'InterpolatorIDW': 'SpatialInterpolatorConstantRotation', 'MicDisc': 'MicGeom', 'PulseTrain': 'TimeSamples', 'MicRing': 'MicGeom', 'TimeSamples+calib': 'TimeSamples', 'CalibOut': 'Calib', 'TimeSamplesN': 'TimeSamples', 'PowerSpectraF': 'PowerSpectra'}
HELPER = {'PulseTrain', 'MicDisc', 'MicRing', 'Calib', 'TimeSamplesN'}
SLOW = {'GeneralFlowEnvironment', 'BeamformerGridlessOrth', 'BeamformerCleantTraj', 'BeamformerCleantSqTraj', 'BeamformerTimeTraj', 'BeamformerTimeSqTraj', 'BeamformerGIB', 'BeamformerCleant', 'BeamformerCleantSq', 'MovingPointSource', 'MovingPointSourceDipole', 'MovingLineSource'}
for _k, _v in ALIAS.items():
    setattr(ac, _k, getattr(ac, _v)) if not hasattr(ac, _k) else None
NAMES = [k for k in DRAW if k not in HELPER]
# traits whose two values share results although they are stored under one identity on purpose
NOEFFECT = set()


def redraw(c, d, node, trait):
    """A new value for one trait: another draw, or a small perturbation of the present value."""
    cur = node.kw[trait]
    k = c.int(0, 2)
    if k == 0 and isinstance(cur, float) and cur != 0:
        return cur * (1 + c.pick(1e-3, 1e-9)), 'tiny'
    if k <= 1 and isinstance(cur, np.ndarray) and cur.dtype.kind in 'fc' and cur.size > 2 and trait not in ('grid_indices',):
        new = cur.copy()
        i = np.unravel_index(int(c.rng.integers(cur.size)), cur.shape)
        new[i] = new[i] * (1 + c.pick(1e-2, 1e-9)) if trait != 'csm' else new[i]
        if trait == 'csm':
            f = c.int(0, cur.shape[0] - 1)
            new[f] = cur[f].T.copy()
        return new, 'element'
    for _ in range(6):
        new = DRAW[node.cls][trait](c, d)
        if isinstance(new, (Node, list, dict)) or not _same(new, cur):
            return new, 'new'
    return new, 'new'


def _same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return a == b


def targets(node):
    return [(p, n, t) for p, n in node.nodes().values() for t in n.kw if n.cls in DRAW and t in DRAW[n.cls]]


def fingerprint(node, obj):
    return FP[node.cls](obj)


def differs(a, b, rtol=0.0):
    """Names of fingerprint entries that differ."""
    bad = []
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            bad.append(f'{k}: shape {x.shape} vs {y.shape}')
            continue
        if rtol == 0:
            if not np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'):
                bad.append(f'{k}: values')
        elif x.size:
            fin = np.isfinite(x) & np.isfinite(y)
            s = max(float(np.abs(y[fin]).max()) if fin.any() else 0.0, 1e-300)
            same_nf = np.array_equal(np.isfinite(x), np.isfinite(y))
            if not same_nf or (fin.any() and float(np.abs(x[fin] - y[fin]).max()) > rtol * s):
                bad.append(f'{k}: values differ by {float(np.abs(x[fin] - y[fin]).max()) if fin.any() else "nan"} of {s}')
    return bad
