"""C15: block convolution equals direct convolution."""
import acoular as ac
import numpy as np
import zoo
from acoular import config
from vf import monitor

RULE = ('a case draws signal, kernel layout and lengths around the block size and compares with direct convolution; '
        'non-trivial = kernel layout x (signal, kernel, result length) relative to the block size')
ASSUMPTIONS = ['tolerance 1e-10 of sum|kernel| max|signal|']


def rel(n, num):
    return '=1' if n == 1 else '<' if n < num else '=' if n == num else 'k' if n % num == 0 else 'k-' if n % num == num - 1 else 'k+' if n % num == 1 else '>'


def lens(ctx, num):
    return max(1, ctx.pick(1, 2, num - 1, num, num + 1, 2 * num - 1, 2 * num, 2 * num + 1, 3 * num, ctx.int(1, 4 * num + 3), ctx.int(1, 150)))


def direct(x, k):
    k = k.reshape(len(k), -1)
    out = np.zeros((len(x) + len(k) - 1, x.shape[1]))
    for c in range(x.shape[1]):
        h = k[:, c if k.shape[1] > 1 else 0]
        for j in range(len(h)):
            out[j:j + len(x), c] += h[j] * x[:, c]
    return out


def kernel(ctx, L, ch):
    lay = ctx.pick('1d', 'col', 'multi')
    k = ctx.rng.standard_normal(L if lay == '1d' else (L, 1 if lay == 'col' else ch))
    if ctx.flip(0.15):
        k[:] = 0
        k[ctx.int(0, L - 1)] = 1
    return lay, k


def verify(ctx, g, x, k, num, mech):
    b = zoo.collect(g.result(num))
    want = direct(x, k)
    got = np.concatenate(b)
    ctx.close(got, want, mech, rtol=1e-10, scale=np.abs(k).sum() * np.abs(x).max())
    ctx.check(all(len(v) == num for v in b[:-1]) and 0 < len(b[-1]) <= num, mech + '-blocks', f'{[len(v) for v in b]} num {num}')
    ctx.check(g.num_samples == len(want), mech + '-length', f'{g.num_samples} want {len(want)}')
    ctx.event(len(b))


@monitor('convolve', quick=400, thorough=20000, floor=150)
def convolve(ctx):
    config.global_caching = 'none'
    num = ctx.pick(1, 2, 3, 4, 5, 8, 16, 33, 64, 100)
    n, L, ch = lens(ctx, num), lens(ctx, num), zoo.chans(ctx, 1, 4)
    x = zoo.data(ctx, n, ch)
    lay, k = kernel(ctx, L, ch)
    ctx.note(num=num, n=n, L=L, ch=ch, lay=lay)
    g = ac.TimeConvolve(source=ac.TimeSamples(data=x.copy(), sample_freq=1000), kernel=k)
    verify(ctx, g, x, k, num, 'convolve')
    ctx.sig(lay, rel(n, num), rel(L, num), rel(n + L - 1, num))
    if ctx.flip(0.3):
        # same object: other block size, other kernel, other source
        num2 = ctx.pick(1, 7, 32, num + 1)
        verify(ctx, g, x, k, num2, 'convolve-reused')
        L2 = lens(ctx, num2)
        lay, k2 = kernel(ctx, L2, ch)
        g.kernel = k2
        verify(ctx, g, x, k2, num2, 'convolve-new-kernel')
        y = zoo.data(ctx, lens(ctx, num), ch)
        g.source = ac.TimeSamples(data=y.copy(), sample_freq=1000)
        verify(ctx, g, y, k2, num2, 'convolve-new-source')


@monitor('interleaved', quick=60, thorough=2000, floor=30)
def interleaved(ctx):
    """Two convolutions of different streams advance alternately (no shared state)."""
    config.global_caching = 'none'
    gens, wants, nums = [], [], []
    for _ in range(2):
        num = ctx.pick(2, 5, 16)
        x = zoo.data(ctx, ctx.int(1, 80), 2, 'normal')
        lay, k = kernel(ctx, ctx.int(1, 60), 2)
        gens.append(ac.TimeConvolve(source=ac.TimeSamples(data=x, sample_freq=1000), kernel=k).result(num))
        wants.append(direct(x, k))
    outs = [[], []]
    alive = [0, 1]
    while alive:
        i = alive[ctx.int(0, len(alive) - 1)]
        try:
            outs[i].append(next(gens[i]).copy())
        except StopIteration:
            alive.remove(i)
    for o, w in zip(outs, wants):
        ctx.close(np.concatenate(o), w, 'interleaved', rtol=1e-9)
    ctx.sig(len(wants[0]), len(wants[1]))


@monitor('source', quick=80, thorough=2500, floor=40)
def source(ctx):
    """PointSourceConvolve: the source signal at every microphone, convolved with the common or the microphone's kernel."""
    config.global_caching = 'none'
    num = ctx.pick(1, 4, 16, 64, 200)
    s = zoo.signal(ctx, n=ctx.int(30, 300))
    m = zoo.mics(ctx, ctx.int(1, 4))
    lay, k = kernel(ctx, lens(ctx, ctx.pick(4, 16, 40)), m.num_mics)
    g = ac.PointSourceConvolve(kernel=k, signal=s, mics=m, loc=tuple(ctx.rng.uniform(-0.4, 0.4, 2)) + (ctx.uni(0.3, 1.0),))
    ctx.note(num=num, L=len(k), lay=lay, n=s.num_samples, mics=m.num_mics)
    sig = np.array(s.signal())
    x = np.repeat(sig[:, None], m.num_mics, 1)
    b = zoo.collect(g.result(num))
    want = direct(x, k)
    ctx.close(np.concatenate(b), want, 'source-convolve', rtol=1e-10, scale=np.abs(k).sum() * np.abs(x).max())
    ctx.check(all(len(v) == num for v in b[:-1]) and 0 < len(b[-1]) <= num, 'source-blocks')
    ctx.check(g.num_channels == m.num_mics and g.sample_freq == s.sample_freq, 'source-metadata')
    ctx.equal(s.signal(), sig, 'source-signal-unchanged')
    ctx.sig(lay, num, rel(len(x), num), rel(len(k), num))


@monitor('invalid', quick=30, thorough=200, floor=3)
def invalid(ctx):
    config.global_caching = 'none'
    ch = ctx.int(2, 5)
    x = zoo.data(ctx, 40, ch)
    which = ctx.pick('3d', 'cols', 'many')
    k = {'3d': np.ones((3, ch, 2)), 'cols': np.ones((4, ch - 1 if ch > 2 else 3)), 'many': np.ones((4, ch + 1))}[which]
    g = ac.TimeConvolve(source=ac.TimeSamples(data=x, sample_freq=1000), kernel=k)
    try:
        next(g.result(16))
    except ValueError:
        ctx.check(True, 'rejected')
    else:
        ctx.check(False, 'invalid-kernel-accepted', f'{k.shape} for {ch} channels')
    ctx.sig(which, ch)
