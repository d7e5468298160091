"""C22: generated signals match their parameters exactly."""
import acoular as ac
import numpy as np
import zoo
from numpy.random import RandomState
from vf import monitor

RULE = ('a case draws generator class, length, rate, seed, level and filter or file source and compares every sample with its own formula; statistical monitors '
        'average over many seeds; non-trivial = generator x parameter regime x length regime')
ASSUMPTIONS = ['noise is drawn from numpy RandomState(seed); pink noise follows the documented Voss scheme (octave-wise held noise); filter coefficients have a non-zero leading value',
               'statistical bounds are at least six standard deviations wide']


def nlen(ctx, lo=1, hi=3000):
    return ctx.pick(ctx.int(lo, 40), ctx.int(lo, hi), *[k for k in (1023, 1024, 1025, 2048, 2049) if k <= hi])


@monitor('sine', quick=300, thorough=8000, floor=150)
def sine(ctx):
    n, fs = nlen(ctx), ctx.pick(*zoo.FS_CHOICES, ctx.uni(10, 1e5))
    a, f, ph = ctx.pick(1.0, ctx.uni(0.01, 10), -ctx.uni(0.01, 10)), ctx.pick(1000.0, ctx.uni(0.1, fs), fs / 4, fs / 2), ctx.pick(0.0, np.pi / 2, ctx.uni(-7, 7))
    s = ac.SineGenerator(amplitude=a, freq=f, phase=ph, sample_freq=fs, num_samples=n)
    ctx.note(n=n, fs=fs, a=a, f=f, ph=ph)
    ctx.sig(f > fs / 2, ph == 0, a < 0, n > 1024)
    t = np.arange(n) / fs
    w = a * np.sin(2 * np.pi * f * t + ph)
    got = s.signal()
    ctx.close(got, w, 'sine', rtol=1e-10, scale=abs(a))
    ctx.equal(s.signal(), got, 'sine-repeat')
    # change of parameters takes effect
    s.amplitude, s.phase = 2 * a, ph + np.pi
    ctx.close(s.signal(), -2 * w, 'sine-changed', rtol=1e-9, scale=2 * abs(a))
    s.num_samples = n + 5
    ctx.check(len(s.signal()) == n + 5, 'sine-length')


@monitor('white', quick=200, thorough=5000, floor=100)
def white(ctx):
    n, fs, seed, rms = nlen(ctx), ctx.pick(*zoo.FS_CHOICES), ctx.pick(0, ctx.int(0, 1000), 2**32 - 1), ctx.pick(1.0, ctx.uni(1e-3, 100))
    g = ac.WNoiseGenerator(num_samples=n, sample_freq=fs, seed=seed, rms=rms)
    ctx.note(n=n, seed=seed, rms=rms)
    ctx.sig(seed, n > 1024, rms == 1)
    x = g.signal()
    ctx.close(x, rms * RandomState(seed).standard_normal(n), 'white', rtol=1e-14)
    np.random.seed(ctx.int(0, 99))
    ctx.equal(ac.WNoiseGenerator(num_samples=n, sample_freq=2 * fs, seed=seed, rms=rms).signal(), x, 'white-seed-repeat')
    # the state of numpy's global generator is neither used nor changed
    st = np.random.get_state()[1].copy()
    g.signal()
    ctx.equal(np.random.get_state()[1], st, 'global-random-state')
    g.rms = 3 * rms
    ctx.close(g.signal(), 3 * x, 'white-rms', rtol=1e-14)
    if n > 20:
        o = ac.WNoiseGenerator(num_samples=n, sample_freq=fs, seed=(seed + 1) % 2**32, rms=rms).signal()
        ctx.check(abs(np.dot(o, x)) / rms**2 < 8 * np.sqrt(n), 'white-independent', lambda: str(np.dot(o, x)))


@monitor('filtered', quick=250, thorough=6000, floor=120)
def filtered(ctx):
    from scipy.signal import lfilter

    n, fs, seed, rms = nlen(ctx, 1, 1500), 25600.0, ctx.int(0, 1000), ctx.uni(0.1, 5)
    # stable denominator from its roots
    na, nb = ctx.int(0, 4), ctx.int(0, 9)
    poles = ctx.rng.uniform(0, 0.9, na // 2) * np.exp(1j * ctx.rng.uniform(0, np.pi, na // 2))
    ar = np.real(np.poly(np.concatenate([poles, poles.conj(), ctx.rng.uniform(-0.9, 0.9, na % 2)]))) if na else np.array([])
    ma = ctx.rng.standard_normal(nb) if nb else np.array([])
    if nb:
        ma[0] = ctx.pick(1.0, 0.5, -2.0)
    g = ac.FiltWNoiseGenerator(num_samples=n, sample_freq=fs, seed=seed, rms=rms, ar=ar, ma=ma)
    d = round(0.5 * (max(nb, 1) - 1))
    ctx.note(n=n, na=na, nb=nb, seed=seed)
    ctx.sig(na, nb)
    w = lfilter(ma if nb else [1.0], ar if na else [1.0], rms * RandomState(seed).standard_normal(n + d))[d:]
    got = g.signal()
    ctx.check(len(got) == n == g.num_samples, 'filtered-length', f'{len(got)} {n}')
    ctx.close(got, w, f'filtered@ar{na}ma{nb}', rtol=1e-7, scale=max(np.abs(w).max(), rms))
    # one further coefficient at a time takes effect
    g.ma = np.array([2.0])
    ctx.close(g.signal(), lfilter([2.0], ar if na else [1.0], rms * RandomState(seed).standard_normal(n)), 'filtered-changed', rtol=1e-7, scale=10 * rms)


def voss(n, depth, seed, rms):
    depth = min(depth, int(np.floor(np.log2(n) + 1e-12)))
    r = RandomState(seed)
    s = r.standard_normal(n)
    k = np.arange(n)
    for o in range(depth):
        hold, off = 2**(o + 1), 2**o - 1
        v = r.standard_normal(n // hold + 1)
        m = k >= off
        s[m] += v[(k[m] - off) // hold]
    return rms / np.sqrt(depth + 1.5) * s


@monitor('pink', quick=200, thorough=5000, floor=100)
def pink(ctx):
    n, seed, rms, depth = nlen(ctx), ctx.int(0, 2000), ctx.uni(0.1, 5), ctx.int(1, 16)
    g = ac.PNoiseGenerator(num_samples=n, sample_freq=25600.0, seed=seed, rms=rms, depth=depth)
    ctx.note(n=n, depth=depth, seed=seed)
    ctx.sig(depth, 2**depth > n)
    # int(log(n)/log(2)) may fall one short for exact powers of two: either depth is a valid limit there
    ok = [voss(n, depth, seed, rms)]
    if n & (n - 1) == 0 and n > 1:
        ok.append(voss(n, min(depth, n.bit_length() - 2), seed, rms))
    got = g.signal()
    ctx.check(got.shape == (n,), 'pink-length')
    ctx.check(any(np.abs(got - w).max() <= 1e-12 * (np.abs(w).max() + rms) for w in ok), 'pink-values', lambda: str(np.abs(got - ok[0]).max()))
    ctx.equal(g.signal(), got, 'pink-repeat')
    ctx.check(g.depth == depth, 'pink-depth-setting')


@monitor('levels', quick=24, thorough=120, floor=50)
def levels(ctx):
    """Nominal level and spectrum, averaged over seeds."""
    kind = ctx.pick('white', 'pink', 'pink')
    n, reps, rms = 4096, 40, ctx.uni(0.2, 4)
    depth = ctx.int(4, 8)
    p = np.zeros(n // 2 + 1)
    v = 0.0
    s0 = ctx.int(0, 10000)
    prev = None
    for i in range(reps):
        kw = dict(num_samples=n, sample_freq=25600.0, seed=s0 + i, rms=rms)
        x = (ac.WNoiseGenerator(**kw) if kind == 'white' else ac.PNoiseGenerator(depth=depth, **kw)).signal()
        v += np.mean(x * x) / reps
        p += np.abs(np.fft.rfft(x))**2 / n / reps
        if prev is not None:
            c = np.corrcoef(prev, x)[0, 1]
            ctx.check(abs(c) < (0.11 if kind == 'white' else 0.75), 'seeds-independent', lambda: f'{kind} correlation {c}')
        prev = x
    ctx.note(kind=kind, depth=depth, v=v / rms**2)
    ctx.sig(kind, depth)
    if kind == 'white':
        ctx.check(abs(v / rms**2 - 1) < 6 * np.sqrt(2 / (n * reps)), 'white-level', lambda: str(v / rms**2))
        b = p[1:2048].reshape(-1, 23).mean(1) / rms**2
        ctx.check(np.all(np.abs(b - 1) < 7 / np.sqrt(23 * reps)), 'white-spectrum', lambda: str(b))
    else:
        # within 0.5 dB of the rms value (dominated by the slowest octave: n/2^depth*reps independent values)
        ctx.check(0.75 < v / rms**2 < 1.25, 'pink-level', lambda: str(v / rms**2))
        # equal power per octave between the slowest octave and fs/4
        lo = [p[2**k:2**(k + 1)].sum() for k in range(12 - depth, 10)]
        lv = 10 * np.log10(np.array(lo))
        ctx.check(np.ptp(lv) < 3.0, 'pink-spectrum', lambda: str(lv))
        ctx.event(len(lo))


@monitor('generic', quick=300, thorough=8000, floor=150)
def generic(ctx):
    L, ch, fs = ctx.pick(ctx.int(1, 60), ctx.int(1000, 1050), 1024, 2048, ctx.int(2040, 2100)), ctx.int(1, 3), ctx.pick(*zoo.FS_CHOICES)
    x = ctx.rng.standard_normal((L, ch))
    N = ctx.pick(0, L, ctx.int(1, L), L + ctx.int(1, 30), 2 * L, 3 * L + ctx.int(0, L - 1), L - 1 or 1, 2 * L - 1)
    loop, amp = ctx.flip(0.6), ctx.pick(1.0, ctx.uni(-3, 3))
    src = ac.TimeSamples(data=x.copy(), sample_freq=fs)
    g = ac.GenericSignalGenerator(source=src, loop_signal=loop, amplitude=amp)
    if N:
        g.num_samples = N
    M = N or L
    ctx.note(L=L, N=N, loop=loop, amp=amp, ch=ch)
    ctx.sig(N == 0, (M > L) - (M < L), M // L, M % L == 0, loop, L >= 1024, ch > 1)
    ctx.check(g.num_samples == M and g.sample_freq == fs, 'generic-metadata', f'{g.num_samples} {M}')
    k = np.arange(M)
    w = amp * (x[k % L, 0] if loop else np.where(k < L, x[np.minimum(k, L - 1), 0], 0.0))
    ctx.close(g.signal(), w, f'generic@loop{loop}', rtol=1e-14, scale=4 * abs(amp) + 1e-30)
    ctx.equal(src.data, x, 'generic-source-changed')
    g.loop_signal = not loop
    w = amp * (x[k % L, 0] if not loop else np.where(k < L, x[np.minimum(k, L - 1), 0], 0.0))
    ctx.close(g.signal(), w, f'generic@loop{not loop}', rtol=1e-14, scale=4 * abs(amp) + 1e-30)


@monitor('generic-chain', quick=60, thorough=1500, floor=40)
def generic_chain(ctx):
    """File or processing chain as the source of a signal; the signal drives a source again."""
    n, ch = ctx.int(1, 1500), ctx.int(1, 3)
    x = ctx.rng.standard_normal((n, ch))
    if ctx.flip():
        p = ctx.scratch / 's.h5'
        zoo_src = ac.TimeSamples(data=x.copy(), sample_freq=25600.0)
        for _ in ac.WriteH5(source=zoo_src, file=str(p)).result(100):
            pass
        src = ac.TimeSamples(file=str(p))
        how = 'file'
        want = x[:, 0].astype(np.float32)
    else:
        src = ac.TimePower(source=ac.MaskedTimeOut(source=ac.TimeSamples(data=x.copy(), sample_freq=25600.0), start=min(2, n - 1)))
        how = 'chain'
        want = x[min(2, n - 1):, 0]**2
    ctx.note(n=n, how=how)
    ctx.sig(how, n > 1024)
    g = ac.GenericSignalGenerator(source=src)
    ctx.close(g.signal(), want, f'generic-{how}', rtol=1e-6)
    if len(want) > 300:
        ps = ac.PointSource(signal=g, mics=zoo.mics(ctx, 2), loc=(0, 0, 1.0), up=2)
        y = zoo.full(ps, 64)
        ctx.check(y.shape == (len(want), 2) and ps.sample_freq == 25600.0, 'generic-source-stream')


@monitor('upsampling', quick=200, thorough=5000, floor=100)
def upsampling(ctx):
    n, f = ctx.pick(ctx.int(1, 60), ctx.int(60, 600)), ctx.pick(1, 2, 3, 4, 7, 16)
    kind = ctx.pick('white', 'sine', 'filt', 'generic')
    if kind == 'generic':
        s = ac.GenericSignalGenerator(source=ac.TimeSamples(data=ctx.rng.standard_normal((n, 1)), sample_freq=1000.0))
    else:
        s = zoo.signal(ctx, n, 25600.0, kind)
    x, u = s.signal(), s.usignal(f)
    ctx.note(n=n, f=f, kind=kind)
    ctx.sig(f, n % 2, kind)
    ctx.check(u.shape == (n * f,), 'usignal-length', f'{u.shape} {n * f}')
    sc = np.abs(x).max() + 1e-300
    ctx.close(u[::f], x, 'usignal-grid', rtol=1e-9, scale=sc)
    # band limited: no content above the Nyquist frequency of the signal
    U = np.abs(np.fft.fft(u))
    k = np.minimum(np.arange(n * f), n * f - np.arange(n * f))
    if f > 1:
        ctx.check(np.all(U[k > n // 2] < 1e-8 * sc * n * f), 'usignal-band', lambda: str(U[k > n // 2].max()))
    # and interpolates: trigonometric polynomial through the samples
    X = np.fft.fft(x) / n
    q = np.fft.fftfreq(n, 1 / n)
    t = ctx.rng.integers(0, n * f, 10)
    if n % 2:
        w = np.real(np.exp(2j * np.pi * np.outer(t / (f * n), q)) @ X)
        ctx.close(u[t], w, 'usignal-between', rtol=1e-8, scale=sc)
