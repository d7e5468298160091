"""C14: averages, powers, cumulative averages and reversal are exact."""
import acoular as ac
import numpy as np
import zoo
from acoular import config
from vf import monitor

RULE = 'a case draws a stream, group size and block size and compares every delivered row; non-trivial = block x length regime x group x blocks regime'
ASSUMPTIONS = ['tolerance 1e-12 relative to the largest magnitude']


class Rag(ac.TimeSamples):
    """A source delivering the requested block sizes only (contract); data as given."""


def draw(ctx):
    n, ch, fs = zoo.length(ctx, 1, 500), ctx.int(1, 6), ctx.pick(*zoo.FS_CHOICES)
    x = zoo.data(ctx, n, ch)
    if ctx.flip(0.2):
        x = x + 1e4
    num = ctx.pick(1, 2, 5, 32, 128, n, n + 1, max(1, n - 1), max(1, n // 2), max(1, n // 3))
    ctx.note(n=n, ch=ch, num=num)
    return x, ac.TimeSamples(data=x.copy(), sample_freq=fs), num, fs


def regime(n, num):
    return '1' if num >= n else 'div' if n % num == 0 else 'rem'


@monitor('average', quick=200, thorough=8000, floor=60)
def average(ctx):
    config.global_caching = 'none'
    x, s, num, fs = draw(ctx)
    n = len(x)
    nav = ctx.pick(1, 2, 3, 7, 64, ctx.int(1, n), n, n + 1)
    a = ac.Average(source=s, num_per_average=nav)
    k = n // nav
    want = np.array([sum(x[i * nav + j] for j in range(nav)) / nav for i in range(k)]).reshape(k, x.shape[1])
    b = zoo.collect(a.result(num))
    got = np.concatenate(b) if b else np.empty((0, x.shape[1]))
    ctx.note(nav=nav)
    ctx.close(got, want, 'average', rtol=1e-12, scale=np.abs(x).max())
    ctx.check(a.num_samples == k and abs(a.sample_freq * nav - fs) < 1e-9 * fs, 'average-metadata')
    ctx.check(all(len(v) == num for v in b[:-1]), 'average-blocks')
    ctx.sig(regime(n, num), min(nav, 8), nav > n, n % nav == 0)
    ctx.event(k)


@monitor('average-spectra', quick=60, thorough=2000, floor=20)
def average_spectra(ctx):
    config.global_caching = 'none'
    bs, nb, ch = 2 * ctx.int(2, 10), ctx.int(1, 12), zoo.chans(ctx, 1, 4)
    x = zoo.data(ctx, bs * nb + ctx.int(0, bs - 1), ch)
    r = ac.RFFT(source=ac.TimeSamples(data=x, sample_freq=1000), block_size=bs)
    cls = ctx.pick(ac.AutoPowerSpectra, ac.CrossPowerSpectra)
    p = cls(source=r)
    nav, num = ctx.int(1, 5), ctx.pick(1, 2, 3, 50)
    rows = zoo.full(p, 1)
    k = nb // nav
    want = np.array([np.mean(rows[i * nav:(i + 1) * nav], 0) for i in range(k)]).reshape(k, rows.shape[1])
    got = zoo.collect(ac.Average(source=p, num_per_average=nav).result(num))
    got = np.concatenate(got) if got else np.empty((0, rows.shape[1]), rows.dtype)
    ctx.note(bs=bs, nb=nb, nav=nav, num=num, cls=cls.__name__)
    ctx.close(got, want, 'average-spectra', rtol=1e-12)
    ctx.sig(cls.__name__, nav, num, nb % nav == 0)


@monitor('power', quick=60, thorough=2000, floor=20)
def power(ctx):
    config.global_caching = 'none'
    x, s, num, fs = draw(ctx)
    ctx.equal(zoo.full(ac.TimePower(source=s), num), x * x, 'power')
    ctx.sig(regime(len(x), num), len(x) > 50)


@monitor('cumulative', quick=120, thorough=5000, floor=30)
def cumulative(ctx):
    config.global_caching = 'none'
    x, s, num, fs = draw(ctx)
    g = ac.TimeCumAverage(source=s)
    want = np.array([np.mean(x[:i + 1], 0) for i in range(len(x))])
    ctx.close(zoo.full(g, num), want, 'cumulative', rtol=1e-11, scale=np.abs(x).max())
    ctx.close(zoo.full(g, num), want, 'cumulative-again', rtol=1e-11, scale=np.abs(x).max())
    ctx.sig(regime(len(x), num), len(x) > 50, x.shape[1])


@monitor('reverse', quick=120, thorough=5000, floor=30)
def reverse(ctx):
    config.global_caching = 'none'
    x, s, num, fs = draw(ctx)
    g = ac.TimeReverse(source=s)
    b = zoo.collect(g.result(num))
    ctx.equal(np.concatenate(b), x[::-1], 'reverse')
    ctx.check(all(len(v) == num for v in b[:-1]) and len(b[-1]) > 0, 'reverse-blocks', f'{[len(v) for v in b]}')
    ctx.equal(zoo.full(ac.TimeReverse(source=g), ctx.pick(1, 7, num)), x, 'reverse-twice')
    ctx.sig(regime(len(x), num), len(x) > 50, x.shape[1])


@monitor('chain', quick=60, thorough=2000, floor=20)
def chain(ctx):
    """Combined: square, average, cumulate, reverse in random order."""
    config.global_caching = 'none'
    x, s, num, fs = draw(ctx)
    g, want, names = s, x, []
    for _ in range(ctx.int(2, 4)):
        k = ctx.pick('pow', 'avg', 'cum', 'rev')
        names.append(k)
        if k == 'pow':
            g, want = ac.TimePower(source=g), want**2
        elif k == 'avg':
            m = ctx.int(1, 4)
            if len(want) < m:
                continue
            g = ac.Average(source=g, num_per_average=m)
            want = want[:len(want) // m * m].reshape(-1, m, want.shape[1]).mean(1)
        elif k == 'cum':
            g, want = ac.TimeCumAverage(source=g), np.cumsum(want, 0) / np.arange(1, len(want) + 1)[:, None]
        else:
            g, want = ac.TimeReverse(source=g), want[::-1]
    ctx.note(chain=names)
    ctx.close(zoo.full(g, num), want, 'chain', rtol=1e-10)
    ctx.check(g.num_samples == len(want), 'chain-length')
    ctx.sig(*names)
