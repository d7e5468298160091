"""C13: filters act on the whole stream as one linear time-invariant filter."""
import acoular as ac
import numpy as np
import zoo
from acoular import config
from scipy.signal import butter, sosfilt, sosfiltfilt, sosfreqz
from vf import Skip, monitor

RULE = ('a case draws signal, sampling rate, band, fraction, order or weighting and two block sizes; the delivered stream is compared with the '
        'independently designed filter applied to the complete signal, channel by channel; non-trivial = filter x fraction x order x length regime x blocks')
ASSUMPTIONS = ['band filters: Butterworth band pass whose edges are widened so that the noise bandwidth equals the band (documented design)',
               'frequency weightings are compared with the analog curves of IEC 61672 below a twentieth of the sampling rate',
               'a band centre above fs/2/sqrt(2) is out of range']
CORR = {6: 1.01, 5: 1.012, 4: 1.016, 3: 1.022, 2: 1.036, 1: 1.083}


def edges(band, frac, order, fs, half=False):
    """Cut-off frequencies (relative to fs/2) of an n-th order Butterworth filter with the noise bandwidth of the band."""
    g = 2.0**(0.5 / frac)
    q = np.pi / order / np.sin(np.pi / (2 * order)) / (g - 1 / g)      # bandwidth quotient corrected for noise bandwidth
    a = (1 + np.sqrt(1 + q * q)) / q
    if half:
        a *= CORR.get(order, 1.0)**(3 / frac)
    return 2 * band / fs / a, 2 * band / fs * a


def signal(ctx, lo=1, hi=500):
    n, ch, fs = zoo.length(ctx, lo, hi), zoo.chans(ctx, 1, 5), ctx.pick(*zoo.FS_CHOICES)
    return zoo.data(ctx, n, ch), fs


def stream(ctx, g, n):
    num = ctx.pick(1, 3, 16, 128, n, n + 1, max(1, n // 2))
    ctx.note(num=num)
    b = zoo.collect(g.result(num))
    ctx.check(all(len(x) == num for x in b[:-1]) and (not b or 0 < len(b[-1]) <= num), 'block-sizes')
    ctx.event(len(b))
    return np.concatenate(b)


@monitor('octave', quick=220, thorough=8000, floor=200)
def octave(ctx):
    config.global_caching = 'none'
    x, fs = signal(ctx)
    zero = ctx.flip(0.35)
    frac, order = ctx.pick('Octave', 'Third octave'), ctx.int(1, 6)
    if zero:
        order = ctx.int(1, 4)
        need = 3 * (2 * order + 1) + 2
        if len(x) <= need:
            x = zoo.data(ctx, need + ctx.int(1, 200), x.shape[1])
    f = {'Octave': 1, 'Third octave': 3}[frac]
    hi = 1 / np.sqrt(2)
    rel = ctx.pick(ctx.uni(0.02, hi - 1e-6), ctx.uni(0.02, 0.5), ctx.uni(hi + 1e-6, 1.2))
    band = rel * fs / 2
    cls = ac.FiltFiltOctave if zero else ac.FiltOctave
    ctx.note(cls=cls.__name__, n=len(x), ch=x.shape[1], fs=fs, band=band, frac=frac, order=order)
    src = ac.TimeSamples(data=x.copy(), sample_freq=fs)
    g = cls(source=src, band=band, fraction=frac, order=order)
    ctx.sig(cls.__name__, frac, order, rel > hi)
    if rel > hi:
        try:
            next(g.result(16))
        except ValueError:
            ctx.check(True, 'rejected')
            return
        ctx.check(False, 'band-not-rejected', f'band {band} at {fs}')
    e = edges(band, f, order, fs, zero)
    if e[1] >= 0.999:
        # upper cut-off beyond the Nyquist frequency: no such filter exists, must not deliver anything silently wrong
        try:
            got = stream(ctx, g, len(x))
        except ValueError:
            return
        ctx.check(e[1] < 1, 'edge-beyond-nyquist')
        return
    sos = butter(order, e, 'bandpass', output='sos')
    ctx.close(sosfreqz(g.sos, 256)[1], sosfreqz(sos, 256)[1], 'response', rtol=1e-6)
    want = sosfiltfilt(sos, x, axis=0) if zero else np.stack([sosfilt(sos, x[:, i]) for i in range(x.shape[1])], 1)
    ctx.close(stream(ctx, g, len(x)), want, f'band-filter@{cls.__name__}', rtol=1e-7)
    ctx.close(stream(ctx, g, len(x)), want, f'band-filter-again@{cls.__name__}', rtol=1e-7)
    # properties of the design itself: unit gain at the (warped) centre, noise bandwidth of the band
    w, h = sosfreqz(sos, [np.pi * rel])
    wc = 2 * np.arctan(np.sqrt(np.tan(np.pi * e[0] / 2) * np.tan(np.pi * e[1] / 2)))
    ctx.close(np.abs(sosfreqz(g.sos, [wc])[1]), [1.0], 'centre-gain', rtol=1e-6)
    if rel < 0.1:
        w, h = sosfreqz(g.sos, np.linspace(0, np.pi * min(1, rel * 16), 6000))
        p = (np.abs(h)**(4 if zero else 2))
        enb = np.sum((p[1:] + p[:-1]) / 2 * np.diff(w)) / np.pi / rel
        gg = 2.0**(0.5 / f)
        if order > 1:
            ctx.close(enb, gg - 1 / gg, 'noise-bandwidth', rtol=0.06)
        ctx.close(np.abs(sosfreqz(g.sos, [np.pi * rel])[1]), [1.0], 'band-centre-gain', rtol=0.05)


@monitor('exponential', quick=80, thorough=2000, floor=60)
def exponential(ctx):
    config.global_caching = 'none'
    x, fs = signal(ctx)
    x = x**2 if ctx.flip() else x
    w = ctx.pick('F', 'S', 'I')
    tau = {'F': 0.125, 'S': 1.0, 'I': 0.035}[w]
    g = ac.TimeExpAverage(source=ac.TimeSamples(data=x.copy(), sample_freq=fs), weight=w)
    ctx.note(n=len(x), fs=fs, w=w)
    al = 1 - np.exp(-1 / tau / fs)
    want = np.empty_like(x)
    y = np.zeros(x.shape[1])
    for k in range(len(x)):
        y = y + al * (x[k] - y)
        want[k] = y
    ctx.close(stream(ctx, g, len(x)), want, 'exponential', rtol=1e-9)
    ctx.sig(w, fs)


def analog(f, w):
    f1, f2, f3, f4 = 20.598997, 107.65265, 737.86223, 12194.217
    if w == 'Z':
        return np.ones_like(f)
    c = f4**2 * f**2 / (f**2 + f1**2) / (f**2 + f4**2)
    if w == 'C':
        return c * 10**(0.0619 / 20)
    return c * f**2 / np.sqrt((f**2 + f2**2) * (f**2 + f3**2)) * 10**(1.9997 / 20)


@monitor('weighting', quick=80, thorough=2000, floor=60)
def weighting(ctx):
    config.global_caching = 'none'
    n, ch, fs = zoo.length(ctx, 1, 500), zoo.chans(ctx, 1, 4), ctx.pick(*zoo.FS_CHOICES, 48000.0, 96000.0)
    x = zoo.data(ctx, n, ch)
    w = ctx.pick('A', 'C', 'Z')
    g = ac.FiltFreqWeight(source=ac.TimeSamples(data=x.copy(), sample_freq=fs), weight=w)
    ctx.note(n=n, fs=fs, w=w)
    # response measured from the delivered stream itself
    f4 = 12194.217
    imp = ac.TimeSamples(data=np.eye(1, 4096).T @ np.ones((1, 2)), sample_freq=fs)
    h = np.concatenate(zoo.collect(ac.FiltFreqWeight(source=imp, weight=w).result(ctx.pick(1000, 4096, 37))))
    got = stream(ctx, g, n)
    if n <= 4096:
        want = np.stack([np.convolve(x[:, i], h[:n, 0])[:n] for i in range(ch)], 1)
        ctx.close(got, want, 'weighting-lti', rtol=1e-7, scale=np.abs(x).max() + np.abs(want).max())
    ctx.equal(h[:, 0], h[:, 1], 'weighting-channels')
    if w == 'Z':
        ctx.close(got, x, 'z-weighting', rtol=1e-12)
    elif fs >= 12800:
        f = np.geomspace(10 if w == 'C' else 200, fs / 20, 40)
        z = np.abs(np.exp(-2j * np.pi * np.outer(f, np.arange(4096)) / fs) @ h[:, 0])
        lo = fs / 4096 * 30
        m = f > lo
        # bilinear transform: compare at the warped frequency
        fw = fs / np.pi * np.tan(np.pi * f / fs)
        d = 20 * np.log10(z[m] / analog(fw, w)[m])
        ctx.check(np.all(np.abs(d) < 0.02), f'weighting-curve@{w}', lambda: f'{np.c_[f[m], d][np.argmax(np.abs(d))]}')
        d1 = 20 * np.log10(np.interp(1000, f, z) / 1.0) if fs > 20000 else 0
        ctx.check(abs(d1) < 0.03, f'weighting-1kHz@{w}', f'{d1} dB')
    ctx.sig(w, fs, n > 100)


@monitor('bank', quick=60, thorough=2000, floor=40)
def bank(ctx):
    config.global_caching = 'none'
    n, ch, fs = zoo.length(ctx, 1, 400), zoo.chans(ctx, 1, 4), ctx.pick(25600.0, 44100.0, 51200.0, 96000.0)
    x = zoo.data(ctx, n, ch)
    frac = ctx.pick('Octave', 'Third octave')
    step = {'Octave': 3, 'Third octave': 1}[frac]
    top = int(np.floor(10 * np.log10(fs / 2 * 0.6)))
    lo = ctx.int(15, top - 1)
    hi = ctx.int(lo + 1, min(lo + 14, top + 1)) if ctx.flip(0.85) else ctx.int(top + 3, top + 8)
    idx = list(range(lo, hi, step))
    ctx.note(n=n, ch=ch, fs=fs, frac=frac, lo=lo, hi=hi)
    g = ac.OctaveFilterBank(source=ac.TimeSamples(data=x.copy(), sample_freq=fs), lband=lo, hband=hi, fraction=frac)
    ctx.close(np.array(g.bands), 10.0**(np.array(idx) / 10), 'bands', rtol=1e-12)
    ctx.check(g.num_bands == len(idx) and g.num_channels == ch * len(idx), 'num-bands')
    ctx.sig(frac, len(idx), n > 50)
    es = [edges(10.0**(i / 10), {'Octave': 1, 'Third octave': 3}[frac], 3, fs) for i in idx]
    if any(2 * 10.0**(i / 10) / fs > 1 / np.sqrt(2) for i in idx) or any(e[1] >= 1 for e in es):
        try:
            next(g.result(16))
        except ValueError:
            return
        ctx.check(False, 'bank-band-not-rejected')
    got = stream(ctx, g, n)
    for b, e in enumerate(es):
        sos = butter(3, e, 'bandpass', output='sos')
        ctx.close(got[:, b * ch:(b + 1) * ch], sosfilt(sos, x, axis=0), 'bank-band', f'band {b}', rtol=1e-7)
        one = ac.FiltOctave(source=ac.TimeSamples(data=x.copy(), sample_freq=fs), band=10.0**(idx[b] / 10), fraction=frac)
        ctx.close(got[:, b * ch:(b + 1) * ch], zoo.full(one, 64), 'bank-vs-single', rtol=1e-12)


@monitor('general', quick=40, thorough=800, floor=20)
def general(ctx):
    """User-defined filters and banks built on the base classes."""
    config.global_caching = 'none'
    x, fs = signal(ctx, 1, 300)
    k = ctx.int(1, 3)
    # changing second-order sections: coefficients of stable sections
    soss = []
    for _ in range(k):
        s = []
        for _ in range(ctx.int(1, 3)):
            r, th = ctx.uni(0.1, 0.95), ctx.uni(0, np.pi)
            s.append(np.r_[ctx.rng.standard_normal(3), 1, -2 * r * np.cos(th), r * r])
        soss.append(np.array(s))

    from traits.api import Any, Property

    class F(ac.tprocess.Filter):
        coef = Any()
        sos = Property()

        def _get_sos(self):
            return self.coef

    class B(ac.tprocess.FilterBank):
        coef = Any()

        def _get_sos(self):
            return self.coef

        def _get_bands(self):
            return list(range(len(self.coef)))

        def _get_num_bands(self):
            return len(self.coef)

    src = ac.TimeSamples(data=x.copy(), sample_freq=fs)
    ctx.note(n=len(x), ch=x.shape[1], k=k)

    def ref(s):
        y = x.astype(float)
        for b0, b1, b2, a0, a1, a2 in s:
            out = np.zeros_like(y)
            x1 = x2 = y1 = y2 = np.zeros(y.shape[1])
            for i in range(len(y)):
                v = b0 * y[i] + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2
                x2, x1, y2, y1 = x1, y[i], y1, v
                out[i] = v
            y = out
        return y

    got = stream(ctx, F(source=src, coef=soss[0]), len(x))
    w = ref(soss[0])
    ctx.close(got, w, 'user-filter', rtol=1e-8)
    got = stream(ctx, B(source=src, coef=soss), len(x))
    for i, s in enumerate(soss):
        ctx.close(got[:, i * x.shape[1]:(i + 1) * x.shape[1]], ref(s), 'user-bank', f'band {i}', rtol=1e-8)
    base = zoo.full(ac.tprocess.Filter(source=src), 7)
    ctx.close(base, x, 'default-filter', rtol=1e-12)
    ctx.sig(k, len(x) > 50)
