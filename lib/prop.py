"""Independent propagation references (numpy only)."""
import numpy as np


def dist(g, m, c=343.0, ma=0.0, fdv=None):
    """c * travel time from points g (3,N) to m (3,M) in a uniform flow of Mach number ma along fdv."""
    g, m = np.asarray(g, float), np.asarray(m, float)
    d = m[:, None, :] - g[:, :, None]
    R2 = (d * d).sum(0)
    if not ma:
        return np.sqrt(R2)
    f = np.asarray(fdv, float) / np.linalg.norm(fdv)
    df = np.einsum('inm,i->nm', d, f)
    return (-ma * df + np.sqrt((ma * df)**2 + (1 - ma * ma) * R2)) / (1 - ma * ma)


def env_dist(env, g, m):
    return dist(g, m, env.c, getattr(env, 'ma', 0.0), getattr(env, 'fdv', None))


def indices(q, eps=1e-6):
    """Index candidates for real positions q on the upsampled grid: nearest sample (either one at a tie), truncation for negative ones."""
    h = q + 0.5
    return [np.floor(h - eps).astype(int), np.floor(h + eps).astype(int), np.trunc(h - eps).astype(int), np.trunc(h + eps).astype(int)]


def match(ctx, got, cands, mech, tol):
    """Every delivered value equals one of the admissible ones."""
    err = np.min([np.abs(got - w) for w in cands], axis=0)
    ok = bool(np.isfinite(got).all() and (err <= tol).all())

    def msg():
        k = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), err.shape)
        return f'at {tuple(int(i) for i in k)} got {got[k]!r} admissible {sorted({float(w[k]) for w in cands})} ({int((err > tol).sum())}/{err.size} wrong)'

    ctx.check(ok, mech, msg)


class Spline:
    """Interpolating cubic (or lower order for few points) through trajectory points, independent of FITPACK."""

    def __init__(self, points):
        from scipy.interpolate import CubicSpline

        t = np.array(sorted(points))
        self.s = CubicSpline(t, np.array([points[float(k)] for k in t]), axis=0, bc_type='not-a-knot')

    def __call__(self, t, der=0):
        return np.moveaxis(self.s(np.asarray(t, float), der), -1, 0)  # (3, ...)


def emission(traj, mic, t, c, off=None):
    """Emission times te (T, M) of sound received at times t (T,) by mics (3, M): te + |x(te) + off - m|/c = t, by bisection and secant polish."""
    m = mic[:, None, :]
    o = 0.0 if off is None else off

    def r(te):
        x = traj(te) + o - m
        return np.sqrt((x * x).sum(0))

    tt = np.broadcast_to(np.asarray(t, float)[:, None], (len(t), mic.shape[1]))
    hi = tt.copy()
    lo = tt - 1e-3
    for _ in range(60):
        bad = lo + r(lo) / c - tt > 0
        if not bad.any():
            break
        lo = np.where(bad, tt - 2 * (tt - lo), lo)
    for _ in range(52):
        mid = 0.5 * (lo + hi)
        f = mid + r(mid) / c - tt
        lo, hi = np.where(f < 0, mid, lo), np.where(f < 0, hi, mid)
    te = 0.5 * (lo + hi)
    return te, r(te)


# ---------------------------------------------------------------- steering
def transfer(f, c, r0, rm):
    """Transfer function of a monopole referenced to distance r0 (N,), microphones at rm (N, M): r0/rm exp(-jk(rm-r0))."""
    k = 2 * np.pi * f / c
    return r0[:, None] / rm * np.exp(-1j * k * (rm - r0[:, None]))


def steering(kind, a):
    M = a.shape[1]
    if kind == 'classic':
        return a / np.abs(a) / M
    if kind == 'inverse':
        return 1 / a.conj() / M
    n = (np.abs(a)**2).sum(1, keepdims=True)
    if kind == 'true level':
        return a / n
    if kind == 'true location':
        return a / np.sqrt(M * n)
    raise ValueError(kind)


KINDS = ('classic', 'inverse', 'true level', 'true location')


def phase_tol(f, c, rm, r0=None):
    """Largest relative error of an exponential computed from a single precision phase with single precision functions."""
    k = 2 * np.pi * f / c
    return 3e-7 + 1.3e-7 * k * (np.abs(rm).max() + (0 if r0 is None else np.abs(r0).max()))


def quad(h, C):
    return np.einsum('ni,ij,nj->n', h.conj(), C, h).real


def quad_bound(h, C):
    return np.einsum('ni,ij,nj->n', np.abs(h), np.abs(C), np.abs(h))
