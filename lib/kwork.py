"""Workloads that drive every compiled kernel through acoular's public interface (used by check C35).

Each task is a function of a random generator and returns named arrays; the same task gives the same inputs in every variant.
"""
import zlib

import numpy as np

STEER = ('true level', 'inverse', 'classic', 'true location')
TASKS = {}


def task(f):
    TASKS[f.__name__.strip('_')] = f
    return f


def pick(r, *o):
    return o[int(r.integers(len(o)))]


def setup(r, ac, grid=None):
    M = int(pick(r, 1, 2, 3, 4, 5, 7))
    mics = ac.MicGeom(pos_total=r.uniform(-1, 1, (3, M)) * [[1], [1], [.1]])
    k = int(r.integers(0, 4))
    if grid is not None:
        k = grid
    inc = pick(r, .5, .7, 1., 1.3)
    g = ac.RectGrid(x_min=-1, x_max=1, y_min=-1, y_max=pick(r, 0, 1), z=pick(r, 1., 2.), increment=inc) if k < 2 else \
        ac.RectGrid3D(x_min=0, x_max=1, y_min=0, y_max=1, z_min=1, z_max=2, increment=1.) if k == 2 else ac.LineGrid(num_points=int(r.integers(1, 6)), loc=(0., 0., 1.))
    env = pick(r, ac.Environment(), ac.Environment(c=300.), ac.UniformFlowEnvironment(ma=.2, fdv=(1., 0., 0.)))
    st = ac.SteeringVector(grid=g, mics=mics, env=env, steer_type=pick(r, *STEER))
    if r.random() < .3:
        st.ref = pick(r, 1.5, (.1, .2, .3))
    return mics, g, env, st


def samples(r, ac, M, n=None):
    n = n or int(r.integers(140, 400))
    x = r.standard_normal((n, M))
    return ac.TimeSamples(data=x, sample_freq=1000.)


@task
def csm(r, ac):
    src = samples(r, ac, int(r.integers(1, 8)), int(r.integers(260, 700)))
    p = ac.PowerSpectra(source=src, block_size=pick(r, 128, 256), window=pick(r, 'Rectangular', 'Hanning'), overlap=pick(r, 'None', '50%', '75%'),
                        precision=pick(r, 'complex128', 'complex64'), cached=False)
    c = p.csm
    return dict(csm=c, eva=p.eva)


@task
def cross(r, ac):
    src = samples(r, ac, int(r.integers(1, 5)), 256)
    f = ac.RFFT(source=src, block_size=pick(r, 16, 64))
    cp = ac.CrossPowerSpectra(source=f, calc_mode=pick(r, 'full', 'upper', 'lower'), precision=pick(r, 'complex128', 'complex64'))
    out = list(np.array(b) for b in cp.result(1))
    return dict(first=out[0], last=out[-1])


def spectra(r, ac, M):
    return ac.PowerSpectra(source=samples(r, ac, M, 700), block_size=128, window='Hanning', cached=False)


@task
def beamform(r, ac):
    mics, g, env, st = setup(r, ac)
    ps = spectra(r, ac, mics.num_mics)
    cls = pick(r, ac.BeamformerBase, ac.BeamformerBase, ac.BeamformerBase, ac.BeamformerEig, ac.BeamformerFunctional, ac.BeamformerCapon)
    b = cls(freq_data=ps, steer=st, cached=False)
    if cls is ac.BeamformerEig:
        b.n = int(r.integers(-1, mics.num_mics))
    if cls is ac.BeamformerFunctional:
        b.gamma = 2.
    elif cls is not ac.BeamformerCapon:
        b.r_diag = bool(r.random() < .5) and mics.num_mics > 1
        b.r_diag_norm = pick(r, 0., 1.)
    elif mics.num_mics == 1:
        b = ac.BeamformerBase(freq_data=ps, steer=st, cached=False, r_diag=False)
    out = {}
    for f in (ps.fftfreq()[int(r.integers(1, 64))], ps.fftfreq()[int(r.integers(1, 64))]):
        out[f'm{f}'] = b.synthetic(f)
    out['_scale'] = np.abs(ps.csm).max()  # results may cancel to nothing
    return out


@task
def psf(r, ac):
    mics, g, env, st = setup(r, ac)
    p = ac.PointSpreadFunction(steer=st, calcmode=pick(r, 'full', 'block', 'single'), precision=pick(r, 'float64', 'float32'), freq=float(r.uniform(100, 3000)))
    n = int(r.integers(1, g.size + 1))
    p.grid_indices = r.choice(g.size, n, replace=False)
    return dict(psf=p.psf, n=np.array(n))


@task
def damas(r, ac):
    mics, g, env, st = setup(r, ac)
    ps = spectra(r, ac, mics.num_mics)
    b = ac.BeamformerDamas(freq_data=ps, steer=st, cached=False, n_iter=int(r.integers(1, 6)), damp=pick(r, 1., .7), r_diag=False,
                           calcmode=pick(r, 'full', 'block'))
    return dict(m=b.synthetic(ps.fftfreq()[int(r.integers(1, 64))]))


@task
def distances(r, ac):
    mics, g, env, st = setup(r, ac)
    out = dict(rm=st.rm, r0=st.r0)
    a, b = r.uniform(-1, 1, (3, int(r.integers(1, 9)))), r.uniform(-1, 1, (3, int(r.integers(1, 9))))
    for x in (np.float64, np.float32):
        for y in (np.float64, np.float32):
            out[f'{x.__name__}{y.__name__}'] = ac.Environment()._r(a.astype(x), b.astype(y))
    t = st.transfer(float(r.uniform(50, 2000)))
    s = st.steer_vector(float(r.uniform(50, 2000)))
    return dict(out, transfer=t, steer=s)


@task
def convolve(r, ac):
    M = int(r.integers(1, 5))
    src = samples(r, ac, M, int(r.integers(1, 130)))
    L = int(r.integers(1, 150))
    k = r.standard_normal((L, pick(r, 1, M))) if r.random() < .7 else r.standard_normal(L)
    t = ac.TimeConvolve(source=src, kernel=k)
    num = int(pick(r, 1, 7, 16, 64, 256)) if L < 60 else int(pick(r, 16, 64, 256))
    return dict(y=np.concatenate([b.copy() for b in t.result(num)]))


def source_args(r, ac):
    mics = ac.MicGeom(pos_total=r.uniform(-1, 1, (3, int(r.integers(1, 6)))))
    sig = pick(r, ac.WNoiseGenerator, ac.SineGenerator)(sample_freq=1000., num_samples=int(r.integers(20, 120)))
    if isinstance(sig, ac.SineGenerator):
        sig.freq = 77.
    return mics, sig


@task
def point(r, ac):
    mics, sig = source_args(r, ac)
    cls = pick(r, ac.PointSource, ac.PointSource, ac.PointSourceDipole, ac.SphericalHarmonicSource, ac.PointSourceDirectional if hasattr(ac, 'PointSourceDirectional') else ac.PointSource)
    kw = dict(signal=sig, mics=mics, loc=tuple(r.uniform(.5, 2, 3)), start_t=pick(r, 0., .03, -.03), start=pick(r, 0., .01))
    if cls is ac.PointSource:
        kw['prepadding'] = pick(r, 'loop', 'zeros')
        kw['up_sample'] = pick(r, 1, 4) if 'up_sample' in ac.PointSource.class_trait_names() else None
        if kw['up_sample'] is None:
            del kw['up_sample']
    elif cls is ac.SphericalHarmonicSource:
        kw.update(lOrder=1, alpha=np.array([1, .5, .2, .1], complex))
    s = cls(**kw)
    return dict(y=np.concatenate([b.copy() for b in s.result(int(pick(r, 8, 33, 64)))]))


@task
def moving(r, ac):
    mics, sig = source_args(r, ac)
    tr = ac.Trajectory(points={t: tuple(r.uniform(-1, 1, 3) + [0, 0, 2]) for t in (-.1, 0., .1, .2, .3)})
    s = ac.MovingPointSource(signal=sig, mics=mics, trajectory=tr)
    return dict(y=np.concatenate([b.copy() for b in s.result(16)]))


def joined(o, num):
    out = [b.copy() for b in o.result(num)]
    return np.concatenate(out) if out else np.zeros((0, o.num_channels))


@task
def timebf(r, ac):
    mics, g, env, st = setup(r, ac, grid=pick(r, 0, 2, 3))
    if mics.num_mics == 1:
        st.ref = 1.
    src = samples(r, ac, mics.num_mics, 60)
    cls = pick(r, ac.BeamformerTime, ac.BeamformerTimeSq)
    b = cls(source=src, steer=st)
    if r.random() < .3:
        b.weights = pick(r, 'none', 'power')
    if cls is ac.BeamformerTimeSq and mics.num_mics > 1:
        b.r_diag = bool(r.random() < .5)
    return dict(y=joined(b, int(pick(r, 5, 16, 64))))


@task
def timetraj(r, ac):
    mics, g, env, st = setup(r, ac, grid=pick(r, 0, 3))
    if mics.num_mics == 1:
        st.ref = 1.
    src = samples(r, ac, mics.num_mics, 40)
    tr = ac.Trajectory(points={t: tuple(np.array(r.uniform(-.3, .3, 3))) for t in (0., .02, .05, .1)})
    cls = pick(r, ac.BeamformerTimeTraj, ac.BeamformerTimeSqTraj)
    b = cls(source=src, steer=st, trajectory=tr)
    if cls is ac.BeamformerTimeSqTraj and mics.num_mics > 1:
        b.r_diag = bool(r.random() < .5)
    if 'precision' in b.trait_names():
        b.precision = pick(r, 64, 32)
    return dict(y=joined(b, int(pick(r, 5, 16))))


@task
def kernels(r, ac):
    from acoular import fastFuncs as ff
    M, N, F = int(r.integers(1, 7)), int(r.integers(1, 9)), int(r.integers(1, 5))
    out = {}
    prec = pick(r, np.complex128, np.complex64)
    ft = (r.standard_normal((F, M)) + 1j * r.standard_normal((F, M))).astype(prec)
    out['calcCSM'] = ff.calcCSM(np.zeros((F, M, M), prec), ft)
    A = r.standard_normal((M, M)) + 1j * r.standard_normal((M, M))
    c = np.ascontiguousarray(A @ A.conj().T)
    rm, r0 = r.uniform(.5, 3, (N, M)), r.uniform(.5, 3, N)
    k = np.array([float(r.uniform(.1, 20))])
    typ = pick(r, *STEER, 'custom')
    rd = bool(r.random() < .5) and M > 1
    if typ == 'custom':
        st = np.ascontiguousarray((r.standard_normal((N, M)) + 1j * r.standard_normal((N, M))))
    else:
        st = (r0, rm, k)
    if r.random() < .5:
        w, v = np.linalg.eigh(c)
        n = int(r.integers(1, M + 1))
        m = (w[-n:].copy(), np.ascontiguousarray(v[:, -n:]))
    else:
        m = c
    a, b = ff.beamformerFreq(typ, rd, 1.3, st, m)
    out.update(map=a, norm=b)
    out['transfer'] = ff.calcTransfer(r0, rm, float(k[0]))
    ind = r.choice(N, int(r.integers(1, N + 1)), replace=False)
    fp = pick(r, 'float64', 'float32')
    out['psf'] = np.asarray(ff.calcPointSpreadFunction(STEER[int(r.integers(4))], r0, rm, float(k[0]), ind, fp))
    P = np.abs(r.standard_normal((N, N))) + np.eye(N)
    x = np.zeros(N)
    ff.damasSolverGaussSeidel(P, np.abs(r.standard_normal(N)), 3, 1., x)
    out['damas'] = x
    return out


@task
def cleansc(r, ac):
    mics, g, env, st = setup(r, ac, grid=pick(r, 0, 2))
    ps = spectra(r, ac, mics.num_mics)
    b = ac.BeamformerCleansc(freq_data=ps, steer=st, cached=False, n_iter=1, r_diag=False)
    return dict(sum=np.sum(b.synthetic(ps.fftfreq()[int(r.integers(1, 64))])))  # which of equal maxima comes first is open


LARGE = {}


def large(f):
    LARGE[f.__name__] = f
    return f


@large
def large_map(r, ac):
    """enough grid points that threads really work side by side"""
    from acoular import fastFuncs as ff
    M, N = int(r.integers(8, 24)), int(r.integers(300, 1500))
    A = r.standard_normal((M, M)) + 1j * r.standard_normal((M, M))
    c = np.ascontiguousarray(A @ A.conj().T)
    rm, r0 = r.uniform(.5, 3, (N, M)), r.uniform(.5, 3, N)
    k = float(r.uniform(.1, 20))
    w, v = np.linalg.eigh(c)
    n = int(r.integers(1, M + 1))
    out = {}
    for typ in (*STEER, 'custom'):
        st = np.ascontiguousarray(r.standard_normal((N, M)) + 1j * r.standard_normal((N, M))) if typ == 'custom' else (r0, rm, np.array([k]))
        for rd in (False, True):
            for kind, m in (('csm', c), ('eig', (w[-n:].copy(), np.ascontiguousarray(v[:, -n:])))):
                a, b = ff.beamformerFreq(typ, rd, 1.3, st, m)
                out[f'{typ}{rd}{kind}map'], out[f'{typ}{rd}{kind}norm'] = a, b
    return out


@large
def large_csm(r, ac):
    from acoular import fastFuncs as ff
    F, M = int(r.integers(100, 400)), int(r.integers(8, 24))
    out = {}
    for p in (np.complex128, np.complex64):
        c = np.zeros((F, M, M), p)
        for _ in range(3):
            ff.calcCSM(c, (r.standard_normal((F, M)) + 1j * r.standard_normal((F, M))).astype(p))
        out[np.dtype(p).name] = c
    return out


@large
def large_psf(r, ac):
    from acoular import fastFuncs as ff
    N, M = int(r.integers(150, 400)), int(r.integers(8, 24))
    rm, r0 = r.uniform(.5, 3, (N, M)), r.uniform(.5, 3, N)
    k = float(r.uniform(.1, 20))
    out = {t: np.asarray(ff.calcPointSpreadFunction(t, r0, rm, k, np.arange(0, N, 2), 'float64')) for t in STEER}
    out['transfer'] = ff.calcTransfer(r0, rm, k)
    x = np.zeros(N)
    ff.damasSolverGaussSeidel(out['classic'].T[:, :N] if out['classic'].shape[0] == N and out['classic'].shape[1] == N else np.abs(r.standard_normal((N, N))) / N + np.eye(N),
                              np.abs(r.standard_normal(N)), 5, 1., x)
    out['damas'] = x
    a, b = r.uniform(-1, 1, (3, 600)), r.uniform(-1, 1, (3, 40))
    out['r'] = ac.Environment()._r(a, b)
    return out


@large
def large_time(r, ac):
    M = int(r.integers(8, 16))
    mics = ac.MicGeom(pos_total=r.uniform(-1, 1, (3, M)))
    g = ac.RectGrid(x_min=-1, x_max=1, y_min=-1, y_max=1, z=1., increment=.1)
    st = ac.SteeringVector(grid=g, mics=mics, steer_type=pick(r, *STEER))
    src = samples(r, ac, M, 200)
    out = {}
    for cls in (ac.BeamformerTime, ac.BeamformerTimeSq):
        out[cls.__name__] = joined(cls(source=src, steer=st), 64)
    tr = ac.Trajectory(points={t: tuple(np.array(r.uniform(-.3, .3, 3))) for t in (0., .02, .05, .1)})
    for cls in (ac.BeamformerTimeTraj, ac.BeamformerTimeSqTraj):
        out[cls.__name__] = joined(cls(source=src, steer=st, trajectory=tr), 16)
    return out


def run_task(name, seed, i):
    import acoular as ac
    ac.config.global_caching = 'none'
    np.random.seed(i)
    r = np.random.default_rng([seed, zlib.crc32(name.encode()), i])
    try:
        return {k: np.array(v) for k, v in {**TASKS, **LARGE}[name](r, ac).items()}
    except Exception as e:  # noqa: BLE001 - the same rejection is expected in every variant
        return {'rejected': np.array(f'{type(e).__name__}')}
