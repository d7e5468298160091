"""C10: the cross-spectral matrix equals its definition."""
import acoular as ac
import numpy as np
import ref
import zoo
from acoular import config
from vf import monitor

RULE = ('a case draws signal, channels, length, block size, window, overlap, precision and source kind and compares the matrix with a '
        'direct evaluation of its definition by numpy; metamorphic cases scale the signal and permute channels; axis cases draw index '
        'and frequency ranges; non-trivial = window x overlap x precision x length relative to block x source kind')
ASSUMPTIONS = ['reference: mean over all complete blocks of outer products of windowed block spectra, times 2/(block size * sum of squared window)',
               'tolerance 1e-9 (double) or 2e-4 (single) of the largest matrix element per frequency set']


def matrix(ctx, x, fs=12800.0, **kw):
    return ac.PowerSpectra(source=ac.TimeSamples(data=x, sample_freq=fs), cached=False, **kw)


def draw(ctx):
    bs = ctx.pick(128, 128, 256, 512)
    ov = ctx.pick(*ref.OVERLAPS)
    hop = bs // ref.OVERLAPS[ov]
    k = ctx.int(1, 6)
    regime = ctx.pick('fit', 'fit', 'over', 'odd', 'short')
    n = bs + (k - 1) * hop
    if regime == 'over':
        n += ctx.int(1, hop - 1)
    elif regime == 'odd':
        n = ctx.int(bs, 5 * bs)
    elif regime == 'short':
        n = ctx.int(1, bs - 1)
    return bs, ov, n, regime


@monitor('definition', quick=160, thorough=4000, floor=400)
def definition(ctx):
    config.global_caching = 'none'
    bs, ov, n, regime = draw(ctx)
    ch = ctx.int(1, 9)
    win = ctx.pick(*ref.WINDOWS)
    prec = ctx.pick('complex128', 'complex128', 'complex64')
    kind = ctx.pick('samples', 'samples', 'chain', 'float32', 'stream')
    x = zoo.data(ctx, n, ch)
    fs = ctx.pick(*zoo.FS_CHOICES)
    src = ac.TimeSamples(data=x, sample_freq=fs)
    if kind == 'float32':
        x = x.astype('float32')
        src = ac.TimeSamples(data=x, sample_freq=fs)
    elif kind == 'chain':
        w = ctx.rng.uniform(-2, 2, ch)
        x = x * w
        src = ac.Mixer(source=ac.TimeSamples(data=x, sample_freq=fs), sources=[ac.TimeSamples(data=x[:, ::-1].copy(), sample_freq=fs)])
        x = x + x[:, ::-1]
    elif kind == 'stream':
        src = ac.TimePower(source=src)
        x = x**2
    ps = ac.PowerSpectra(source=src, block_size=bs, window=win, overlap=ov, precision=prec, cached=ctx.flip())
    ctx.note(bs=bs, overlap=ov, n=n, ch=ch, window=win, prec=prec, kind=kind)
    want, nb = ref.csm(x, bs, win, ov)
    got = np.array(ps.csm[:])
    single = prec == 'complex64'
    ctx.check(got.dtype.name == prec, 'precision', f'{got.dtype} for {prec}')
    ctx.check(got.shape == want.shape, 'shape', f'{got.shape} {want.shape}')
    tol = 5e-4 if single else 1e-9
    hop = bs // ref.OVERLAPS[ov]
    if nb == 0:
        pass  # the average over no block is not defined
    elif (n - bs) % hop:
        exact = ref.OVERLAPS[ov] * n / bs - ref.OVERLAPS[ov] + 1
        s = np.abs(want).max()
        plain = np.abs(got - want).max() <= tol * s
        ctx.soft(plain or np.abs(got * exact / nb - want).max() > tol * s, 'csm-scale@incomplete-last-block', f'scaled by {nb / exact}')
        if not plain:
            ctx.close(got * exact / nb, want, 'definition', 'up to the factor blocks/num_blocks', rtol=tol)
    else:
        ctx.close(got, want, 'definition', 'csm', rtol=tol)
        ctx.check(ps.num_blocks == nb, 'num-blocks', f'{ps.num_blocks} want {nb}')
    if nb:
        s = np.abs(got).max()
        ctx.check(np.abs(got - np.swapaxes(got.conj(), 1, 2)).max() <= 1e-6 * s if single else np.abs(got - np.swapaxes(got.conj(), 1, 2)).max() <= 1e-13 * s, 'not-hermitian')
        ev = np.linalg.eigvalsh(got.astype(complex))
        # per frequency against its own largest eigenvalue
        ctx.check(np.all(ev[:, 0] >= -(1e-5 if single else 1e-12) * np.maximum(ev[:, -1], 1e-300) * ch), 'not-positive', f'{ev.min()}')
    ctx.sig(win, ov, prec, regime, kind)
    ctx.event(nb)


@monitor('scaling-and-order', quick=60, thorough=1000, floor=100)
def meta(ctx):
    config.global_caching = 'none'
    bs, ov, n, regime = draw(ctx)
    ch = ctx.int(2, 8)
    x = ctx.rng.standard_normal((n, ch))
    kw = dict(block_size=bs, overlap=ov, window=ctx.pick(*ref.WINDOWS))
    a = ctx.uni(-3, 3)
    p = ctx.rng.permutation(ch)
    c0 = np.array(matrix(ctx, x, **kw).csm[:])
    ctx.close(np.array(matrix(ctx, a * x, **kw).csm[:]), a * a * c0, 'scaling', f'factor {a}', rtol=1e-10)
    ctx.close(np.array(matrix(ctx, x[:, p], **kw).csm[:]), c0[:, p][:, :, p], 'permutation', f'{p}', rtol=1e-10)
    # masked channels are rows and columns left out
    m = ac.MaskedTimeOut(source=ac.TimeSamples(data=x, sample_freq=1000.0), invalid_channels=[int(p[0])])
    keep = [k for k in range(ch) if k != p[0]]
    ctx.close(np.array(ac.PowerSpectra(source=m, cached=False, **kw).csm[:]), c0[:, keep][:, :, keep], 'masking', rtol=1e-10)
    ctx.note(bs=bs, overlap=ov, n=n, ch=ch)
    ctx.sig(regime, ov, ch)


@monitor('axis-and-ranges', quick=80, thorough=1500, floor=200)
def axis(ctx):
    config.global_caching = 'none'
    bs = ctx.pick(128, 256, 1024)
    fs = ctx.pick(*zoo.FS_CHOICES, ctx.uni(100, 1e5))
    ps = matrix(ctx, ctx.rng.standard_normal((2 * bs, 2)), fs=fs, block_size=bs)
    f = np.arange(bs // 2 + 1) * fs / bs
    ctx.close(ps.fftfreq(), f, 'axis', 'fftfreq', rtol=1e-13)
    nf = len(f)
    lo, hi = sorted((ctx.int(0, nf - 1), ctx.int(0, nf - 1)))
    mode = ctx.pick('index', 'index-none', 'freq', 'freq-exact', 'freq-none', 'index-after-freq', 'freq-after-index', 'block-change')
    ctx.note(bs=bs, fs=fs, lo=lo, hi=hi, mode=mode)
    want = np.arange(lo, hi)
    if mode == 'index':
        ps.ind_low, ps.ind_high = lo, hi
    elif mode == 'index-none':
        ps.ind_low, ps.ind_high = lo, None
        want = np.arange(lo, nf)
    elif mode in ('freq', 'freq-exact', 'freq-after-index', 'index-after-freq', 'block-change', 'freq-none'):
        a, b = (f[lo], f[hi]) if mode == 'freq-exact' else tuple(sorted((ctx.uni(0, fs / 2), ctx.uni(0, fs / 2))))
        if mode == 'freq-after-index':
            ps.ind_low, ps.ind_high = 3, 7
            _ = ps.indices
        ps.freq_range = (a, None) if mode == 'freq-none' else (a, b)
        want = np.nonzero((f >= a) & ((f < b) if mode != 'freq-none' else True))[0]
        if mode == 'freq-none':
            want = want[want < nf]
        if mode == 'index-after-freq':
            _ = ps.indices
            ps.ind_low, ps.ind_high = lo, hi
            want = np.arange(lo, hi)
        if mode == 'block-change':
            _ = ps.indices
            ps.block_size = 512
            f = np.arange(257) * fs / 512
            want = np.nonzero((f >= a) & (f < b))[0]
    ctx.equal(np.asarray(ps.indices), want, 'index-range', f'{mode}')
    if len(want) and mode in ('freq', 'freq-exact', 'freq-after-index', 'index'):
        fr = np.asarray(ps.freq_range, float)
        ctx.close(fr[0], f[want[0]], 'freq-range', 'lower', rtol=1e-12)
        ctx.check(want[-1] + 1 >= len(f) or abs(fr[1] - f[want[-1] + 1]) <= 1e-9 * fs, 'freq-range', f'upper {fr[1]} want {f[min(want[-1] + 1, nf - 1)]}')
    ctx.sig(mode, bs, len(want) == 0)


@monitor('imported', quick=60, thorough=1000, floor=150)
def imported(ctx):
    config.global_caching = ctx.pick('none', 'individual', 'all')
    nf, m = ctx.int(1, 6), ctx.int(1, 6)
    a = ctx.rng.standard_normal((nf, m, m)) + 1j * ctx.rng.standard_normal((nf, m, m))
    c = a @ np.swapaxes(a.conj(), 1, 2)
    f = np.sort(ctx.rng.uniform(10, 1e4, nf))
    ps = ac.PowerSpectraImport(csm=c, frequencies=f) if ctx.flip() else ac.PowerSpectraImport()
    ps.csm = c
    ps.frequencies = f if nf > 1 or ctx.flip() else float(f[0])
    ctx.note(nf=nf, m=m, frequencies=str(f))
    ctx.equal(ps.csm, c, 'import-csm')
    ctx.equal(ps.fftfreq(), f, 'import-axis')
    ctx.check(ps.num_channels == m, 'import-channels', f'{ps.num_channels}')
    ctx.equal(np.asarray(ps.indices), np.arange(nf), 'import-indices')
    lo = ctx.int(0, nf - 1)
    ps.ind_low = lo
    ctx.equal(np.asarray(ps.indices), np.arange(lo, nf), 'import-indices', f'ind_low={lo}')
    for bad in (c[0], c[:, :, :-1] if m > 1 else c[0, 0]):
        try:
            ps.csm = bad
        except ValueError:
            pass
        else:
            ctx.check(False, 'import-accepts-bad-shape', f'{bad.shape}')
    # a second matrix replaces the first one completely
    ps.csm = 2 * c
    ctx.equal(ps.csm, 2 * c, 'import-replaced')
    ctx.close(ps.eva, np.linalg.eigvalsh(2 * c), 'import-eva', rtol=1e-10)
    config.global_caching = 'none'
    ctx.sig(nf, m)
