"""C11: eigenvalues and eigenvectors decompose the cross-spectral matrix."""
import acoular as ac
import numpy as np
import zoo
from acoular import config
from vf import monitor

RULE = ('a case draws a matrix (measured signal with drawn rank, or imported hermitian matrix with repeated, zero or widely spread '
        'eigenvalues), precision and caching mode and verifies E diag(v) E^H = C, E^H E = I, v real ascending; band cases sum independently '
        'selected frequency lines; non-trivial = kind x precision x caching x rank x order')
ASSUMPTIONS = ['reconstruction within 1e-9 (double) / 5e-4 (single) of the largest eigenvalue of that frequency',
               'band edges within 1e-9 of a frequency line are avoided']


def draw(ctx):
    if ctx.flip(0.5):
        bs = ctx.pick(128, 256)
        ch, rank = ctx.int(1, 8), ctx.int(1, 8)
        x = ctx.rng.standard_normal((bs * ctx.int(1, 6), rank)) @ ctx.rng.standard_normal((rank, ch)) * 10.0 ** ctx.int(-6, 4)
        ps = ac.PowerSpectra(source=ac.TimeSamples(data=x, sample_freq=ctx.pick(*zoo.FS_CHOICES)), block_size=bs,
                             window=ctx.pick('Rectangular', 'Hanning'), precision=ctx.pick('complex128', 'complex64'), cached=ctx.flip())
        return ps, 'measured', min(rank, ch)
    nf, m = ctx.int(1, 12), ctx.int(1, 8)
    kind = ctx.pick('random', 'repeated', 'zero', 'spread', 'real', 'indefinite')
    q = np.array([np.linalg.qr(ctx.rng.standard_normal((m, m)) + 1j * ctx.rng.standard_normal((m, m)))[0] for _ in range(nf)])
    v = ctx.rng.random((nf, m))
    if kind == 'repeated':
        v = np.round(v * 2)
    elif kind == 'zero':
        v[:, : m // 2] = 0
    elif kind == 'spread':
        v = 10.0 ** ctx.rng.uniform(-9, 3, (nf, m))
    elif kind == 'indefinite':
        v = v - 0.5
    elif kind == 'real':
        q = q.real
        q = np.array([np.linalg.qr(a)[0] for a in q])
    c = (q * v[:, None, :]) @ np.swapaxes(q.conj(), 1, 2)
    c = (c + np.swapaxes(c.conj(), 1, 2)) / 2
    return ac.PowerSpectraImport(csm=c.astype(complex), frequencies=np.arange(1, nf + 1) * ctx.uni(1, 500)), 'import-' + kind, m


@monitor('decomposition', quick=200, thorough=5000, floor=600)
def dec(ctx):
    mode = ctx.pick('none', 'none', 'all', 'individual')
    config.global_caching = mode
    config.cache_dir = str(ctx.scratch / 'cache')
    ps, kind, rank = draw(ctx)
    single = ps.precision == 'complex64' and kind == 'measured'
    order = ctx.pick(('eva', 'eve'), ('eve', 'eva'), ('csm', 'eve', 'eva'))
    got = {n: np.array(getattr(ps, n)[:]) for n in order}
    c = np.array(ps.csm[:]).astype(complex)
    v, e = got['eva'], got['eve'].astype(complex)
    ctx.note(kind=kind, mode=mode, shape=str(c.shape), prec=ps.precision, order=str(order))
    ctx.check(v.shape == c.shape[:2] and e.shape == c.shape, 'shape', f'{v.shape} {e.shape} {c.shape}')
    ctx.check(v.dtype.kind == 'f', 'not-real', f'{v.dtype}')
    if kind == 'measured':
        ctx.check(v.dtype.name == ('float32' if single else 'float64') and got['eve'].dtype.name == ps.precision, 'precision', f"{v.dtype} {got['eve'].dtype} for {ps.precision}")
    ctx.check(np.all(np.diff(v, axis=1) >= 0), 'not-ascending', f'{np.diff(v, axis=1).min() if v.shape[1] > 1 else 0}')
    eps = 5e-4 if single else 1e-9
    s = np.maximum(np.abs(v).max(axis=1), 1e-300)[:, None, None]
    ctx.close(((e * v[:, None, :]) @ np.swapaxes(e.conj(), 1, 2)) / s, c / s, 'reconstruction', rtol=0, atol=eps)
    ctx.close(np.swapaxes(e.conj(), 1, 2) @ e, np.broadcast_to(np.eye(c.shape[1]), c.shape), 'not-orthonormal', rtol=0, atol=eps)
    # independent values: traces of powers
    ctx.close((v.astype(float).sum(1) / s[:, 0, 0]), np.trace(c, axis1=1, axis2=2).real / s[:, 0, 0], 'trace', rtol=0, atol=eps * c.shape[1])
    config.global_caching = 'none'
    ctx.sig(kind, ps.precision, mode, rank, order)
    ctx.event(len(v))


@monitor('bands', quick=120, thorough=2500, floor=300)
def bands(ctx):
    config.global_caching = 'none'
    ps, kind, _ = draw(ctx)
    f = np.asarray(ps.fftfreq())
    v = np.array(ps.eva[:])
    for _ in range(4):
        num = ctx.pick(0, 1, 3, 12)
        fc = ctx.uni(f[0] + 1e-6, f[-1]) if len(f) > 1 else float(f[0])
        if num == 0 and ctx.flip():
            fc = float(f[ctx.int(0, len(f) - 1)])
        ctx.note(kind=kind, fc=fc, num=num, df=float(f[1] - f[0]) if len(f) > 1 else 0)
        if num:
            a, b = fc * 2 ** (-0.5 / num), fc * 2 ** (0.5 / num)
            if np.min(np.abs(f - a)) < 1e-9 * fc or np.min(np.abs(f - b)) < 1e-9 * fc:
                continue
            sel = (f >= a) & (f < b)
            if sel.any():
                want, how = v[sel].sum(0), 'band'
            else:
                nxt = np.nonzero(f >= a)[0]
                if not len(nxt):
                    continue
                want, how = v[nxt[0]], 'empty-band'
        else:
            nxt = np.nonzero(f >= fc)[0]
            if not len(nxt):
                continue
            want, how = v[nxt[0]], 'line'
        ctx.close(ps.synthetic_ev(fc, num), want, f'synthetic@{how}', f'fc={fc} num={num}', rtol=1e-5 if v.dtype == np.float32 else 1e-12, atol=1e-300)
        ctx.sig(kind, how, num)
