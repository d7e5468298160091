"""C23: beamforming maps equal their mathematical definition."""
import warnings

import acoular as ac
import numpy as np
import zoo
from acoular import config
from prop import KINDS, env_dist, phase_tol, quad, quad_bound, steering, transfer
from vf import monitor

RULE = ('a case draws array, grid, flow, reference, formulation or custom steering class, a Hermitian matrix (measured, random, low rank, with a source), and settings '
        'and compares the map of every frequency with the quadratic form; non-trivial = method x formulation x matrix kind x diagonal setting x precision x sizes')
ASSUMPTIONS = ['kernels evaluate phases in single precision: tolerances follow from phase_tol and the magnitudes involved',
               'the standard MUSIC normalisation (4e-10 times minimum over value) and its weighting by the noise eigenvalues are taken from the code',
               'Capon needs an invertible matrix; well conditioned matrices are drawn']


class MySteering(ac.SteeringVector):
    """User defined formulation: any subclass makes the beamformers use steer_vector()."""

    def steer_vector(self, f, ind=None):
        a = self.transfer(f, ind)
        return a / np.abs(a)**0.5 / a.shape[1]


class SameSteering(ac.SteeringVector):
    """Subclass without changes."""


def setup(ctx, M=None):
    M = M or ctx.pick(ctx.int(2, 6), ctx.int(2, 16))
    st_cls = ctx.pick(ac.SteeringVector, ac.SteeringVector, ac.SteeringVector, SameSteering, MySteering)
    e = zoo.env(ctx, ctx.flip(0.3))
    m = zoo.mics(ctx, M, ctx.uni(0.2, 0.8))
    g = zoo.grid(ctx) if ctx.flip(0.8) else ac.RectGrid3D(x_min=-0.3, x_max=0.3, y_min=-0.2, y_max=0.2, z_min=0.6, z_max=1.0, increment=0.2)
    kind = ctx.pick(*KINDS)
    ref = ctx.pick(0.0, 1.0, ctx.uni(0.2, 2), 'point')
    st = st_cls(grid=g, mics=m, env=e, steer_type=kind)
    rm = env_dist(e, g.pos, m.pos)
    if ref == 'point':
        p = ctx.rng.standard_normal(3)
        st.ref = p
        r0 = env_dist(e, g.pos, p[:, None])[:, 0]
    else:
        st.ref = ref
        r0 = np.full(g.size, float(ref)) if ref > 0 else env_dist(e, g.pos, np.zeros((3, 1)))[:, 0]
    if st_cls is MySteering:
        def h(f):
            a = transfer(f, e.c, r0, rm)
            return a / np.abs(a)**0.5 / M
        name = 'custom'
    else:
        def h(f):
            return steering(kind, transfer(f, e.c, r0, rm))
        name = kind + ('*' if st_cls is SameSteering else '')
    return st, h, name, r0, rm, M


def matrices(ctx, M, definite=False, r0=None, rm=None, c=343.0):
    """A spectra object, its matrices and frequencies."""
    k = ctx.pick('random', 'lowrank', 'measured', 'source', 'real') if not definite else ctx.pick('random', 'measured')
    if k == 'measured':
        bs = ctx.pick(128, 256)
        n = bs * (3 * M + 5) if definite else bs * ctx.int(1, 6)
        x = ctx.rng.standard_normal((n, M)) @ (np.eye(M) + 0.3 * ctx.rng.standard_normal((M, M)))
        ps = ac.PowerSpectra(source=ac.TimeSamples(data=x, sample_freq=ctx.pick(12800.0, 51200.0)), block_size=bs, window=ctx.pick('Hanning', 'Rectangular'), overlap=ctx.pick('None', '50%'))
        C = np.array(ps.csm[:])
        f = np.asarray(ps.fftfreq())
        sel = np.sort(ctx.rng.permutation(np.arange(1, len(f) - 1))[:3])
        return k, ps, C, f, sel
    nf = ctx.int(1, 4)
    f = np.sort(ctx.rng.uniform(100, 8000, nf))
    r = ctx.int(1, max(1, M - 1)) if k == 'lowrank' else 1 if k == 'source' else 3 * M
    if k == 'source':
        s = ctx.int(0, len(r0) - 1)
        C = []
        for fi in f:
            a = transfer(fi, c, r0, rm)[s]
            C.append(ctx.uni(0.5, 2) * np.outer(a, a.conj()))
        C = np.array(C)
    else:
        A = ctx.rng.standard_normal((nf, M, r)) + (0 if k == 'real' else 1j * ctx.rng.standard_normal((nf, M, r)))
        C = A @ A.conj().swapaxes(1, 2) / r * 10.0**ctx.int(-8, 3) + 0j
    C = (C + C.conj().swapaxes(1, 2)) / 2
    ps = ac.PowerSpectraImport(csm=C.copy(), frequencies=f.copy() if nf > 1 or ctx.flip() else float(f[0]))
    return k, ps, C, f, np.arange(nf)


def nodiag(C):
    C = C.copy()
    np.fill_diagonal(C, 0)
    return C


def touch(ctx, bf, i, share=0.4):
    """Read line i together with its neighbours first: they are computed in one go and must not influence each other."""
    if ctx.flip(share):
        nf = len(bf.freq_data.fftfreq())
        end = 1 if nf > 4 else 0  # without the first and last line of measured spectra
        lo, hi = max(i - ctx.int(0, 3), end), min(i + ctx.int(1, 4), nf - end)
        if lo < hi:
            bf.result[lo:hi]


def compare(ctx, bf, sel, ref, mech, order=True):
    """ref(i) -> (map, tolerance)"""
    res = bf.result
    touch(ctx, bf, int(sel[-1]))
    idx = list(ctx.rng.permutation(sel)) if order else list(sel)
    for i in idx:
        i = int(i)
        want, tol = ref(i)
        got = np.array(res[i])
        if bf.precision == 'float32':
            tol = tol + 1e-7 * np.abs(want)
            ctx.check(got.dtype == np.float32, 'precision', str(got.dtype))
        ctx.check(got.shape == want.shape, mech, f'shape {got.shape} {want.shape}')
        d = np.abs(got - want)
        ctx.check(np.all(np.isfinite(got)) and np.all(d <= tol), mech, lambda: f'line {i}: worst {int(np.argmax(d - tol))} got {got[np.argmax(d - tol)]} want {want[np.argmax(d - tol)]} tol {tol[np.argmax(d - tol)]}')
        ctx.event(got.size)


@monitor('conventional', quick=500, thorough=15000, floor=150)
def conventional(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    r_diag = ctx.flip()
    norm = ctx.pick(0.0, 0.0, 1.0, ctx.uni(0.5, 3))
    bf = ac.BeamformerBase(freq_data=ps, steer=st, r_diag=r_diag, r_diag_norm=norm, precision=ctx.pick('float64', 'float64', 'float32'))
    ctx.note(kind=k, steer=name, r_diag=r_diag, norm=norm, M=M, N=len(r0), precision=bf.precision)
    ctx.sig(name, k, r_diag, norm == 0, M, bf.precision)
    nf = (norm or M / (M - 1)) if r_diag else 1.0

    def ref(i):
        w, Ci = h(f[i]), (nodiag(C[i]) if r_diag else C[i])
        b = quad(w, Ci) * nf
        tol = 4 * phase_tol(f[i], st.env.c, rm, r0 if name.endswith('*') or name == 'custom' else None) * quad_bound(w, Ci) * nf + 1e-300
        if r_diag:
            b = np.maximum(b, 0)
        return b, tol

    before = C.copy()
    compare(ctx, bf, sel, ref, 'conventional')
    # whole result at once and by slices
    ctx.check(np.array_equal(np.array(bf.result[:])[sel], np.array([bf.result[int(i)] for i in sel])), 'slice')
    ctx.equal(np.array(ps.csm[:]), before, 'csm-changed')


@monitor('functional', quick=300, thorough=8000, floor=100)
def functional(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    gamma = ctx.pick(1.0, 2.0, ctx.uni(1, 8), 30.0)
    bf = ac.BeamformerFunctional(freq_data=ps, steer=st, gamma=gamma, precision=ctx.pick('float64', 'float64', 'float32'))
    ctx.note(kind=k, steer=name, gamma=gamma, M=M, N=len(r0))
    ctx.sig(name, k, round(gamma, 0), M, bf.precision)

    def ref(i):
        v, U = np.linalg.eigh(C[i])
        v = np.maximum(v, 0)**(1 / gamma)
        R = (U * v) @ U.conj().T
        w = h(f[i])
        n2 = (np.abs(w)**2).sum(1)
        u = w / np.sqrt(n2)[:, None]
        q = np.maximum(quad(u, R), 0)
        e = 4 * phase_tol(f[i], st.env.c, rm, r0 if name.endswith('*') or name == 'custom' else None)
        # numerically zero eigenvalues enter with their gamma-th root
        zero = M * (1e-15 * M * np.abs(C[i]).max() * 4)**(1 / gamma) if k in ('lowrank', 'source', 'measured', 'real') else 0.0
        B = quad_bound(u, (np.abs(U) * v) @ np.abs(U).T)
        dq = e * B + zero + 1e-12 * B
        return q**gamma * n2, ((q + dq)**gamma - np.maximum(q - dq, 0)**gamma) * n2 + 1e-6 * q**gamma * n2

    compare(ctx, bf, sel, ref, 'functional')


@monitor('capon', quick=250, thorough=6000, floor=100)
def capon(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, definite=True)
    bf = ac.BeamformerCapon(freq_data=ps, steer=st, precision=ctx.pick('float64', 'float64', 'float32'))
    ctx.note(kind=k, steer=name, M=M, N=len(r0))
    ctx.sig(name, k, M, bf.precision)

    def ref(i):
        Ci = C[i]
        K = np.linalg.inv(Ci)
        w = h(f[i])
        q = quad(w, K) * M**2
        rel = np.minimum(4 * phase_tol(f[i], st.env.c, rm, r0 if name.endswith('*') or name == 'custom' else None) * quad_bound(w, K) * M**2 / q + 1e-13 * np.linalg.cond(Ci), 0.99)
        return 1 / q, 1 / q * (rel / (1 - rel) + 1e-12)

    compare(ctx, bf, sel, ref, 'capon')


@monitor('eig', quick=300, thorough=8000, floor=100)
def eig(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, definite=True)
    n = ctx.pick(-1, -2, 0, 1, M - 1, M + 2, -M, -M - 3, ctx.int(-M, M))
    r_diag = ctx.flip()
    bf = ac.BeamformerEig(freq_data=ps, steer=st, n=n, r_diag=r_diag, precision=ctx.pick('float64', 'float64', 'float32'))
    na = min(M - 1, n if n >= 0 else max(M + n, 0))
    ctx.note(kind=k, steer=name, n=n, M=M, r_diag=r_diag)
    ctx.sig(name, k, n < 0, na == 0, na == M - 1, r_diag, M)
    ctx.check(int(bf.na) == na, 'component-number', f'{bf.na} want {na}')
    nf = M / (M - 1) if r_diag else 1.0

    def ref(i):
        v, U = np.linalg.eigh(C[i])
        gap = min([abs(v[na] - v[j]) for j in range(M) if j != na] + [v[-1]]) / v[-1]
        E = v[na] * np.outer(U[:, na], U[:, na].conj())
        w = h(f[i])
        T = nodiag(E) if r_diag else E
        b = quad(w, T) * nf
        tol = (4 * phase_tol(f[i], st.env.c, rm, r0 if name.endswith('*') or name == 'custom' else None) + 1e-13 / max(gap, 1e-13)) * quad_bound(w, E) * nf * 2
        return (np.maximum(b, 0) if r_diag else b), tol

    compare(ctx, bf, sel, ref, 'eigenvalue-component')
    if ctx.flip(0.4) and not r_diag:
        # all components together give the conventional map
        tot = 0
        for j in range(M):
            bf.n = j
            tot = tot + np.array(bf.result[int(sel[0])])
        b = ac.BeamformerBase(freq_data=ps, steer=st, r_diag=False).result[int(sel[0])]
        ctx.close(tot, b, 'components-sum', rtol=1e-4 if bf.precision == 'float32' else 3e-5)


@monitor('music', quick=150, thorough=4000, floor=50)
def music(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, definite=True)
    n = ctx.int(1, M)
    bf = ac.BeamformerMusic(freq_data=ps, steer=st, n=n)
    keep = M - min(M - 1, n)
    ctx.note(kind=k, steer=name, n=n, M=M)
    ctx.sig(name, k, n, M)

    def ref(i):
        v, U = np.linalg.eigh(C[i])
        P = (U[:, :keep] * v[:keep]) @ U[:, :keep].conj().T
        w = h(f[i])
        q = quad(w, P)
        e = (4 * phase_tol(f[i], st.env.c, rm, r0 if name.endswith('*') or name == 'custom' else None) + 1e-11) * quad_bound(w, (np.abs(U[:, :keep]) * v[:keep]) @ np.abs(U[:, :keep]).T)
        rel = np.minimum(e / q, 0.9)
        r = rel + rel[np.argmin(q)]
        want = 4e-10 * q.min() / q
        return want, want * np.where(r < 0.8, r / (1 - np.minimum(r, 0.8)) + 1e-9, 1e9)

    compare(ctx, bf, sel, ref, 'music')


@monitor('exact-source', quick=200, thorough=5000, floor=60)
def exact(ctx):
    """A monopole at a grid point in the data model gives its power there."""
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx, ctx.int(3, 12))
    if not isinstance(st, MySteering):
        pass
    s, f = ctx.int(0, len(r0) - 1), ctx.uni(300, 6000)
    p = ctx.uni(0.1, 10)
    a = transfer(f, st.env.c, r0, rm)[s]
    C = p * np.outer(a, a.conj())[None]
    r_diag = ctx.flip()
    bf = ac.BeamformerBase(freq_data=ac.PowerSpectraImport(csm=C, frequencies=f), steer=st, r_diag=r_diag)
    b = np.array(bf.result[0])
    a2 = np.abs(a)**2
    ctx.note(steer=name, r_diag=r_diag, M=M, s=s)
    ctx.sig(name, r_diag, M)
    base = name.rstrip('*')
    if not r_diag and base in ('inverse', 'true level'):
        ctx.check(abs(b[s] / p - 1) < 2e-5, 'source-power', f'{base} {b[s]} want {p}')
    if r_diag and base == 'inverse':  # all auto terms have weight 1/M^2, the normalisation restores the power exactly
        ctx.check(abs(b[s] / p - 1) < 2e-5, 'source-power', f'{base} {b[s]} want {p}')
    if base == 'true location' and not r_diag:
        ctx.check(b[s] >= b.max() * (1 - 2e-5), 'source-location', f'{int(b.argmax())} {s}')
        ctx.check(abs(b[s] / (p * a2.mean()) - 1) < 2e-5, 'source-power', f'{base} {b[s]}')
    if base == 'classic' and not r_diag:
        ctx.check(abs(b[s] / (p * np.abs(a).mean()**2) - 1) < 2e-5, 'source-power', f'{base} {b[s]}')


@monitor('simulated', quick=12, thorough=200, floor=8, timeout=200)
def simulated(ctx):
    """Time signal of a simulated source -> cross spectra -> map."""
    config.global_caching = 'none'
    flow = ctx.flip()
    e = ac.UniformFlowEnvironment(ma=ctx.uni(0.05, 0.4), fdv=(1.0, 0.2, 0.0)) if flow else ac.Environment()
    m = zoo.mics(ctx, ctx.int(8, 16), 0.3)
    g = ac.RectGrid(x_min=-0.3, x_max=0.3, y_min=-0.3, y_max=0.3, z=ctx.uni(0.5, 0.9), increment=0.15)
    s = ctx.int(0, g.size - 1)
    fs = 25600.0
    rms = ctx.uni(0.2, 3)
    src = ac.PointSource(signal=ac.WNoiseGenerator(rms=rms, seed=ctx.int(0, 999), num_samples=40000, sample_freq=fs), mics=m, env=e, loc=tuple(float(x) for x in g.pos[:, s]), up=16)
    ps = ac.PowerSpectra(source=src, block_size=512, window='Hanning', overlap='50%', cached=False)
    r_diag = ctx.flip()
    bf = ac.BeamformerBase(freq_data=ps, steer=ac.SteeringVector(grid=g, mics=m, env=e, steer_type='true level', ref=1.0), r_diag=r_diag)
    lo, hi = 20, 130
    b = np.array(bf.result[lo:hi]).sum(0)
    ctx.note(flow=flow, s=s, rms=rms, r_diag=r_diag, M=m.num_mics)
    ctx.sig(flow, r_diag, s, m.num_mics)
    # white noise: power per line is rms^2 * 2/block size; at one metre the pressure has the rms of the signal
    want = rms**2 * 2 / 512 * (hi - lo)
    ctx.check(abs(b[s] / want - 1) < 0.15, 'simulated-level', f'{b[s]} want {want}')
    ctx.check(int(b.argmax()) == s, 'simulated-position', f'{int(b.argmax())} want {s}')
