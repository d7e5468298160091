"""C12: spectral processing matches the discrete Fourier transform."""
import acoular as ac
import numpy as np
import ref
import zoo
from acoular import config
from vf import monitor

RULE = ('a case draws signal, length, block size, window, overlap, scaling, precision and rows per block and compares every delivered '
        'row with numpy\'s transform of the corresponding section; non-trivial = block x scaling x window x overlap x precision x layout x length regime')
ASSUMPTIONS = ['tolerance 1e-9 (double) / 2e-4 (single) of the largest magnitude', 'inverse: rectangular window, no scaling, no overlap']


def draw(ctx, **force):
    bs = force.get('bs') or 2 * ctx.int(1, 70) if ctx.flip() else ctx.pick(8, 16, 64, 128)
    ch = zoo.chans(ctx, 1, 5)
    n = bs * ctx.int(1, 6 if ctx.flip() else 20 if bs < 40 else 9) + (ctx.int(0, bs - 1) if ctx.flip() else 0)
    fs = ctx.pick(*zoo.FS_CHOICES)
    x = zoo.data(ctx, n, ch)
    ov = ctx.pick(*ref.OVERLAPS)
    if bs % ref.OVERLAPS[ov] and ctx.flip():  # else sections start at k * (fractional spacing), rounded down
        ov = 'None' if bs % 2 else ctx.pick('None', '50%')
    win = ctx.pick(*ref.WINDOWS) if bs > 8 else 'Rectangular'
    kw = dict(block_size=bs, window=win, overlap=ov, scaling=ctx.pick('none', 'energy', 'amplitude'), precision=ctx.pick('complex128', 'complex128', 'complex64'))
    kw.update({k: v for k, v in force.items() if k != 'bs'})
    src = ac.TimeSamples(data=x, sample_freq=fs)
    return x, fs, ac.RFFT(source=src, **kw), kw


def spectra(x, fs, kw):
    bs = kw['block_size']
    w = ref.window(kw['window'], bs)
    X = ref.dft(ref.snapshots(x, bs, kw['overlap']), w)
    if kw['scaling'] in ('energy', 'amplitude'):
        X[:, 1:-1] *= 2
    X = X / w.sum() if kw['scaling'] == 'amplitude' else X * np.sqrt(bs / (w @ w))
    return X


def rows(g, num):
    b = zoo.collect(g.result(num))
    return np.concatenate(b) if b else None


def tol(kw):
    return 2e-4 if kw['precision'] == 'complex64' else 1e-9


@monitor('rfft', quick=160, thorough=5000, floor=400)
def rfft(ctx):
    config.global_caching = 'none'
    x, fs, g, kw = draw(ctx)
    num = ctx.pick(1, 2, 3, 7, 100)
    ctx.note(num=num, n=len(x), ch=x.shape[1], **kw)
    X = spectra(x, fs, kw)
    got = rows(g, num)
    ctx.check(got is not None and len(got) == len(X) == g.num_samples, 'row-count', f'{None if got is None else len(got)} want {len(X)}, declared {g.num_samples}')
    ctx.check(got.dtype.name == kw['precision'], 'precision', f'{got.dtype}')
    ctx.close(got.reshape(X.shape), X, f'spectrum@{kw["scaling"]}', rtol=tol(kw))
    ctx.close(g.freqs, np.arange(kw['block_size'] // 2 + 1) * fs / kw['block_size'], 'axis', rtol=1e-12)
    ctx.check(g.num_freqs == kw['block_size'] // 2 + 1, 'num-freqs')
    ctx.sig(kw['scaling'], kw['window'], kw['overlap'], kw['precision'], num > len(X), len(x) % kw['block_size'] == 0)
    ctx.event(len(X))


@monitor('inverse', quick=100, thorough=3000, floor=200)
def inverse(ctx):
    config.global_caching = 'none'
    x, fs, g, kw = draw(ctx, window='Rectangular', overlap='None', scaling='none')
    bs = kw['block_size']
    prec = ctx.pick('float64', 'float64', 'float32')
    inv = ac.IRFFT(source=g, precision=prec)
    want = x[: len(x) // bs * bs]
    num = ctx.pick(bs, bs, 1, ctx.int(1, 3 * bs), 10000)
    ctx.note(num=num, n=len(x), ch=x.shape[1], prec=prec, **kw)
    got = rows(inv, num)
    ctx.check(got.shape == want.shape, 'inverse-shape', f'{got.shape} want {want.shape}')
    ctx.close(got, want, 'inverse', f'num={num}', rtol=2e-4 if 'float32' == prec else tol(kw))
    ctx.check(inv.num_samples == len(want), 'inverse-length', f'{inv.num_samples} want {len(want)}')
    ctx.check(inv.sample_freq == fs and inv.num_channels == x.shape[1], 'inverse-metadata')
    ctx.sig('bs' if num == bs else 'less' if num < bs else 'more', prec, kw['precision'], len(x) % bs == 0)


class Spec(ac.SpectraGenerator):
    """User-defined spectra; the number of frequency lines need not belong to the block size."""

    def result(self, num):
        rng = np.random.default_rng(0)
        for _ in range(3):
            yield rng.standard_normal((num, self.num_channels * self.num_freqs)) + 0j


@monitor('inverse-refuses', quick=60, thorough=600, floor=20)
def inverse_refuses(ctx):
    bs = ctx.int(4, 40)
    want = bs // 2 + 1
    nf = ctx.pick(want, want - 1, want + 1, ctx.int(1, want))
    known = ctx.pick(bs, bs, bs, -1, 0)
    g = Spec(num_samples=3, num_channels=ctx.int(1, 3), sample_freq=1000.0, num_freqs=nf, block_size=known, freqs=np.arange(nf) * 1000.0 / bs)
    inv = ac.IRFFT(source=g)
    ok = known == bs and bs % 2 == 0 and nf == want
    num = ctx.pick(bs, 1, 3 * bs + 1)
    ctx.note(block_size=known, num_freqs=nf, num=num)
    try:
        out = zoo.collect(inv.result(num))
        ctx.check(ok, 'inverse-of-incomplete', f'{nf} lines for block size {known} were accepted')
        ctx.check(all(b.shape[1] == g.num_channels for b in out), 'inverse-shape')
    except ValueError:
        ctx.check(not ok, 'inverse-of-complete-refused', f'{nf} lines for block size {known} were refused')
    ctx.sig(ok, nf - want if abs(nf - want) < 2 else 'few', known == bs, bs % 2, num == bs)


@monitor('auto-power', quick=100, thorough=3000, floor=200)
def autop(ctx):
    config.global_caching = 'none'
    x, fs, g, kw = draw(ctx)
    single, sc = ctx.flip(), ctx.pick('power', 'psd')
    prec = ctx.pick('float64', 'float64', 'float32')
    ap = ac.AutoPowerSpectra(source=g, single_sided=single, scaling=sc, precision=prec)
    bs = kw['block_size']
    X = spectra(x, fs, kw)
    want = np.abs(X)**2 * (2 if single else 1) / bs**2
    if sc == 'psd':
        want = want * bs / fs
    num = ctx.pick(1, 3, 50)
    ctx.note(num=num, n=len(x), single=single, sc=sc, prec=prec, **kw)
    got = rows(ap, num)
    ctx.check(got.dtype.name == prec, 'precision', f'{got.dtype} for {prec}')
    ctx.close(got.reshape(want.shape), want, f'auto-power@{sc}', rtol=2e-4 if prec == 'float32' else 2 * tol(kw))
    if kw['scaling'] == 'none' and kw['window'] == 'Rectangular' and not single and sc == 'power':
        # Parseval: one-sided bins counted twice give the mean square of the block
        m = want.copy()
        m[:, 1:-1] *= 2
        ctx.close(got.reshape(want.shape)[:, 1:-1].sum(1) * 2 + got.reshape(want.shape)[:, [0, -1]].sum(1),
                  (ref.snapshots(x, bs, kw['overlap'])**2).mean(1), 'parseval', rtol=1e-3 if prec == 'float32' or kw['precision'] == 'complex64' else 1e-9)
    ctx.sig(sc, single, prec, kw['scaling'], kw['window'])


@monitor('cross-power', quick=120, thorough=3000, floor=300)
def crossp(ctx):
    config.global_caching = 'none'
    x, fs, g, kw = draw(ctx)
    single, sc, mode = ctx.flip(), ctx.pick('power', 'psd'), ctx.pick('full', 'upper', 'lower')
    prec = ctx.pick('complex128', 'complex128', 'complex64')
    cp = ac.CrossPowerSpectra(source=g, single_sided=single, scaling=sc, precision=prec, calc_mode=mode)
    bs, ch = kw['block_size'], x.shape[1]
    X = spectra(x, fs, kw)
    C = np.einsum('bfi,bfj->bfij', X, X.conj()) * (2 if single else 1) / bs**2
    if sc == 'psd':
        C = C * bs / fs
    if mode == 'full':
        want = C.reshape(len(C), -1)
    else:
        pairs = [(i, j) for i in range(ch) for j in range(ch) if (j >= i if mode == 'upper' else j <= i)]
        want = np.stack([C[:, :, i, j] for i, j in pairs], axis=2).reshape(len(C), -1)
    num = ctx.pick(1, 2, 5, 50)
    ctx.note(num=num, n=len(x), ch=ch, single=single, sc=sc, prec=prec, mode=mode, **kw)
    got = rows(cp, num)
    ctx.check(cp.num_channels * (bs // 2 + 1) == want.shape[1], 'declared-channels', f'{cp.num_channels}')
    ctx.close(got, want, f'cross-power@{mode}', f'num={num}', rtol=5e-4 if prec == 'complex64' else 2 * tol(kw))
    ctx.sig(mode, sc, single, prec, kw['scaling'], num > 1, ch)
    # averaging reproduces the cross-spectral matrix
    if mode == 'full' and kw['scaling'] == 'none' and single and sc == 'power' and len(C):
        avg = rows(ac.Average(source=cp, num_per_average=len(C)), ctx.pick(1, 2))
        want = ref.csm(x, bs, kw['window'], kw['overlap'])[0]
        ctx.close(avg[0].reshape(want.shape), want, 'average-is-csm', rtol=5e-4 if prec == 'complex64' else 2 * tol(kw))
        ctx.sig('average')


@monitor('pure-tone', quick=40, thorough=500, floor=60)
def tone(ctx):
    """A tone on a frequency line shows its amplitude with amplitude scaling whatever the block size."""
    config.global_caching = 'none'
    bs = ctx.pick(16, 64, 128, 250)
    k = ctx.int(2, bs // 2 - 2)
    a, ph, fs = ctx.uni(0.1, 9), ctx.uni(-3, 3), 1000.0
    t = np.arange(bs * 3)
    x = (a * np.sin(2 * np.pi * k * t / bs + ph))[:, None]
    win = ctx.pick('Rectangular', 'Hanning', 'Hamming')
    g = ac.RFFT(source=ac.TimeSamples(data=x, sample_freq=fs), block_size=bs, scaling='amplitude', window=win)
    r = np.abs(rows(g, 2))
    ctx.note(bs=bs, k=k, a=a, win=win)
    ctx.close(r[:, k], np.full(3, a), 'tone-amplitude', rtol=1e-9 if win == 'Rectangular' else 2e-2)
    ctx.sig(bs, win)
