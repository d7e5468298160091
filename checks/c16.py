"""C16: channel selection, sample ranges, mixing and calibration are exact."""
import h5py
import acoular as ac
import numpy as np
import zoo
from acoular import config
from vf import monitor

RULE = ('a case draws stream, range (None, zero, negative, beyond the end, empty), invalid channels, weights or factors and block size and compares '
        'every row; non-trivial = block x range kind x mask kind x block regime')
ASSUMPTIONS = ['an empty range, incompatible factors, rates, channel counts or missing channels must raise; rows and channels otherwise as python slicing defines']


def rng(ctx, n):
    a = ctx.pick(0, 0, ctx.int(0, n), ctx.int(0, n), -ctx.int(1, n + 2), n + ctx.int(0, 2))
    b = ctx.pick(None, None, ctx.int(0, n), ctx.int(1, n), n, n + ctx.int(1, 9), -ctx.int(1, n + 1))
    return a, b


def kind(v, n):
    return 'None' if v is None else '0' if v == 0 else 'neg' if v < 0 else 'end' if v == n else 'beyond' if v > n else 'in'


def mask(ctx, ch):
    k = ctx.int(0, 3)
    if k == 0:
        return []
    if k == 1:
        return [ctx.int(0, ch - 1)]
    if k == 2:
        m = sorted(set(int(i) for i in ctx.rng.integers(0, ch, ctx.int(1, ch))))
        return m if ctx.flip() else [int(i) for i in ctx.rng.permutation(m)] + m[:ctx.int(0, 1)]  # any order, also twice
    return [ctx.int(0, ch - 1), ch + ctx.int(0, 3)]


def raises(ctx, fn, mech):
    try:
        fn()
    except (OSError, ValueError, IndexError):
        ctx.check(True, mech)
        return
    ctx.check(False, mech, 'no error raised')


@monitor('mask-block', quick=500, thorough=20000, floor=150)
def mask_block(ctx):
    config.global_caching = 'none'
    n, ch = zoo.length(ctx, 1, 200), ctx.int(1, 6)
    x = zoo.data(ctx, n, ch)
    a, b = rng(ctx, n)
    inv = mask(ctx, ch)
    keep = [i for i in range(ch) if i not in inv]
    num = ctx.pick(1, 2, 3, 8, 32, n, n + 3, max(1, n // 2), max(1, n - 1))
    g = ac.MaskedTimeOut(source=ac.TimeSamples(data=x.copy(), sample_freq=1000), start=a, stop=b, invalid_channels=inv)
    want = x[slice(a, b)]
    ctx.note(n=n, ch=ch, start=a, stop=b, inv=inv, num=num)
    ctx.sig(kind(a, n), kind(b, n), len(want) == 0, bool(inv), num >= n)
    if len(want) == 0:
        raises(ctx, lambda: zoo.full(g, num), 'empty-range-accepted')
        return
    if not keep:
        return
    want = want[:, keep]
    blocks = zoo.collect(g.result(num))
    ctx.equal(np.concatenate(blocks), want, 'masked-block')
    ctx.check(all(len(v) == num for v in blocks[:-1]) and 0 < len(blocks[-1]) <= num, 'masked-blocks')
    ctx.check(g.num_samples == len(want) and g.num_channels == len(keep), 'masked-metadata', f'{g.num_samples}, {g.num_channels}')
    ctx.check(g.num_samples_total == n and g.num_channels_total == ch, 'masked-totals')
    ctx.event(len(blocks))


@monitor('mask-source', quick=300, thorough=10000, floor=120)
def mask_source(ctx):
    config.global_caching = 'none'
    n, ch, fs = zoo.length(ctx, 1, 200), ctx.int(1, 6), ctx.pick(*zoo.FS_CHOICES)
    x = zoo.data(ctx, n, ch)
    a, b = rng(ctx, n)
    inv = mask(ctx, ch)
    keep = [i for i in range(ch) if i not in inv]
    num = ctx.pick(1, 2, 3, 8, 32, n, n + 3, max(1, n // 2))
    kw = dict(start=a, stop=b, invalid_channels=inv)
    how = ctx.pick('data', 'file')
    if how == 'data':
        g = ac.MaskedTimeSamples(data=x.copy(), sample_freq=fs, **kw)
    else:
        p = ctx.scratch / 'm.h5'
        with h5py.File(p, 'w') as f:
            f.create_dataset('time_data', data=x)
            f['time_data'].attrs['sample_freq'] = fs
        g = ac.MaskedTimeSamples(file=str(p), **kw)
    want = x[slice(a, b)]
    ctx.note(n=n, ch=ch, start=a, stop=b, inv=inv, num=num, how=how)
    cal = ctx.pick(None, None, 'full', 'kept')
    fac = None
    if keep:
        want = want[:, keep]
    if cal and keep:
        # calibration of a source: factors of all channels, or of the channels in use (mask given to the calibration as well)
        fac = ctx.rng.uniform(0.5, 2, ch)
        if cal == 'full':
            g.calib = ac.Calib(data=fac, invalid_channels=inv)
        else:
            g.calib = ac.Calib(data=fac[keep])
        want = want * fac[keep]
    ctx.sig(how, kind(a, n), kind(b, n), len(want) == 0, bool(inv), cal)
    if len(want) == 0:
        raises(ctx, lambda: zoo.full(g, num), 'empty-source-range-accepted')
        return
    if not keep:
        return
    got = zoo.full(g, num)
    ctx.close(got, want, f'masked-source@{cal}', rtol=1e-15)
    ctx.check(g.num_samples == len(want) and g.num_channels == len(keep) and g.sample_freq == fs, 'source-metadata', f'{g.num_samples}, {g.num_channels}')
    if fac is not None:
        g.calib = ac.Calib(data=np.ones(ch + 1))
        raises(ctx, lambda: zoo.full(g, num), 'wrong-calibration-accepted')


@monitor('calibration', quick=200, thorough=6000, floor=40)
def calibration(ctx):
    config.global_caching = 'none'
    n, ch, fs = zoo.length(ctx, 1, 200), ctx.int(1, 6), ctx.pick(*zoo.FS_CHOICES)
    x = zoo.data(ctx, n, ch)
    fac = ctx.pick(ctx.rng.uniform(0.1, 5, ch), -ctx.rng.uniform(0.1, 5, ch), 10.0**ctx.rng.integers(-4, 4, ch))
    src = ac.TimeSamples(data=x.copy(), sample_freq=fs)
    num = ctx.pick(1, 5, 64, n)
    inv = mask(ctx, ch)
    keep = [i for i in range(ch) if i not in inv]
    where = ctx.pick('time', 'before-mask', 'after-mask', 'spectra', 'source', 'xml')
    ctx.note(n=n, ch=ch, where=where, inv=inv, num=num)
    ctx.sig(where, bool(inv), ch, num >= n)
    if where == 'time':
        ctx.equal(zoo.full(ac.Calib(source=src, data=fac), num), x * fac, 'calib')
        bad = ac.Calib(source=src, data=fac[:-1] if ch > 1 else np.ones(2))
        raises(ctx, lambda: zoo.full(bad, num), 'wrong-factors-accepted')
        bad = ac.Calib(source=src, data=np.r_[fac, 1.0])
        raises(ctx, lambda: zoo.full(bad, num), 'wrong-factors-accepted')
    elif where == 'before-mask' and keep:
        g = ac.MaskedTimeOut(source=ac.Calib(source=src, data=fac), invalid_channels=inv)
        ctx.equal(zoo.full(g, num), (x * fac)[:, keep], 'calib-before-mask')
    elif where == 'after-mask' and keep:
        m = ac.MaskedTimeOut(source=src, invalid_channels=inv)
        ctx.equal(zoo.full(ac.Calib(source=m, data=fac[keep]), num), (x * fac)[:, keep], 'calib-after-mask')
        ctx.equal(zoo.full(ac.Calib(source=m, data=fac, invalid_channels=inv), num), (x * fac)[:, keep], 'calib-masked-factors')
    elif where == 'spectra':
        bs = 2 * ctx.int(1, 8)
        if n < bs:
            return
        r = ac.RFFT(source=src, block_size=bs)
        f = ctx.rng.uniform(0.5, 2, ch * (bs // 2 + 1))
        rows = zoo.full(r, 1)
        ctx.equal(zoo.full(ac.Calib(source=r, data=f), num), rows * f, 'calib-spectra')
        bad = ac.Calib(source=r, data=f[:ch])
        raises(ctx, lambda: zoo.full(bad, num), 'wrong-factors-accepted')
    elif where == 'source':
        g = ac.TimeSamples(data=x.copy(), sample_freq=fs, calib=ac.Calib(data=fac))
        ctx.equal(zoo.full(g, num), x * fac, 'calib-source')
        g.calib = ac.Calib(data=np.r_[fac, 2.0])
        raises(ctx, lambda: zoo.full(g, num), 'wrong-calibration-accepted')
    elif where == 'xml':
        p = ctx.scratch / 'cal.xml'
        p.write_text('<?xml version="1.0" encoding="utf-8"?>\n<Calib name="x">\n'
                     + ''.join(f'<pos Name="P{i}" factor="{float(v)!r}"/>\n' for i, v in enumerate(fac)) + '</Calib>\n')
        c = ac.Calib(file=str(p), source=src)
        ctx.check(c.num_mics == ch, 'xml-count')
        ctx.equal(c.data, np.asarray(fac, float), 'xml-factors')
        ctx.equal(zoo.full(c, num), x * fac, 'calib-xml')


@monitor('channel-mixer', quick=100, thorough=3000, floor=20)
def channel_mixer(ctx):
    config.global_caching = 'none'
    n, ch = zoo.length(ctx, 1, 200), ctx.int(1, 6)
    x = zoo.data(ctx, n, ch)
    k = ctx.pick('none', 'all', 'one', 'bad')
    w = {'none': np.array([]), 'all': ctx.rng.standard_normal(ch), 'one': ctx.rng.standard_normal(1), 'bad': ctx.rng.standard_normal(ch + ctx.int(1, 3) if ch == 1 or ctx.flip() else ctx.int(2, ch) % ch or ch + 1)}[k]
    g = ac.ChannelMixer(source=ac.TimeSamples(data=x.copy(), sample_freq=1000), weights=w)
    num = ctx.pick(1, 7, 64, n)
    ctx.note(n=n, ch=ch, k=k, nw=len(w))
    ctx.sig(k, ch, num >= n)
    if ctx.flip(0.2) and ch > 1:
        # weights of two dimensions do not belong to channels
        g.weights = ctx.pick(ctx.rng.standard_normal((1, ch)), ctx.rng.standard_normal((ch, 1)), ctx.rng.standard_normal((1, 1)), ctx.rng.standard_normal((num, ch)))
        raises(ctx, lambda: zoo.full(g, num), 'wrong-weights-accepted')
        return
    if k == 'bad' and len(w) not in (1, ch):
        raises(ctx, lambda: zoo.full(g, num), 'wrong-weights-accepted')
        return
    ww = np.ones(ch) if not len(w) else np.broadcast_to(w, (ch,))
    want = np.array([[sum(ww[c] * r[c] for c in range(ch))] for r in x])
    ctx.close(zoo.full(g, num), want, 'channel-mixer', rtol=1e-12, scale=np.abs(x).max() * np.abs(ww).sum())
    ctx.check(g.num_channels == 1 and g.num_samples == n, 'mixer-metadata')


@monitor('mixer', quick=150, thorough=4000, floor=20)
def mixer(ctx):
    config.global_caching = 'none'
    n, ch, fs = zoo.length(ctx, 1, 200), zoo.chans(ctx, 1, 4), 1000.0
    k = ctx.int(0, 4)
    xs = [zoo.data(ctx, n, ch) for _ in range(k + 1)]
    src = [ac.TimeSamples(data=v.copy(), sample_freq=fs) for v in xs]
    num = ctx.pick(1, 7, 64, n)
    bad = ctx.pick(None, None, None, 'fs', 'ch') if k else None
    if bad == 'fs':
        src[ctx.int(1, k)].sample_freq = 1001.0
    elif bad == 'ch':
        src[ctx.int(1, k)].data = zoo.data(ctx, n, ctx.pick(ch + 1, max(ch - 1, 1) if ch > 1 else 2, 1 if ch > 1 else 3))
    g = ac.Mixer(source=src[0], sources=src[1:])
    ctx.note(n=n, ch=ch, k=k, bad=bad, num=num)
    ctx.sig(k, bad, num >= n)
    if bad:
        raises(ctx, lambda: zoo.full(g, num), f'wrong-source-accepted@{bad}')
        return
    ctx.close(zoo.full(g, num), sum(xs), 'mixer', rtol=1e-13, scale=sum(np.abs(v).max() for v in xs))
    ctx.check(g.num_samples == n and g.num_channels == ch and g.sample_freq == fs, 'mixer-metadata')
    if k and ctx.flip(0.4):
        # shared source: the same object twice
        g.sources = [src[0], src[0]]
        ctx.close(zoo.full(g, num), 3 * xs[0], 'mixer-shared', rtol=1e-13)


@monitor('time-data', quick=120, thorough=3000, floor=20)
def time_data(ctx):
    """TimeSamples from memory and file deliver the stored rows; meta data come from the file."""
    config.global_caching = 'none'
    n, ch, fs = zoo.length(ctx, 1, 300), zoo.chans(ctx, 1, 5), ctx.pick(*zoo.FS_CHOICES)
    dt = ctx.pick('float64', 'float32', 'int16', 'int32')
    x = (zoo.data(ctx, n, ch, 'normal') * 1000).astype(dt)
    num = ctx.pick(1, 7, 64, n, n + 1)
    how = ctx.pick('data', 'file')
    ctx.note(n=n, ch=ch, dt=dt, how=how, num=num)
    if how == 'data':
        g = ac.TimeSamples(data=x.copy(), sample_freq=fs)
    else:
        p = ctx.scratch / 't.h5'
        with h5py.File(p, 'w') as f:
            f.create_dataset('time_data', data=x)
            f['time_data'].attrs['sample_freq'] = fs
        g = ac.TimeSamples(file=str(p))
    ctx.equal(zoo.full(g, num), x, 'time-data')
    ctx.check(g.num_samples == n and g.num_channels == ch and g.sample_freq == fs, 'time-data-metadata')
    ctx.sig(how, dt, num >= n, n % num == 0)
