"""C01: the delivered stream does not depend on the requested block size."""
import numpy as np
import zoo

import acoular as ac
from acoular import config
from vf import monitor

RULE = ('a case builds one generator chain with seeded settings and stream length and reads it with 3-4 block sizes '
        '(1 or 2, sizes around divisors of the length, longer than the stream); non-trivial = class x (length mod block) class x block regime')
ASSUMPTIONS = ['values compared with relative tolerance 1e-9 (1e-4 for single precision) against the largest magnitude of the stream']
SINGLE = {'complex64', 'float32'}


def one(ctx, name):
    config.global_caching = 'none'
    st = ctx.rng.bit_generator.state
    g = zoo.ALL[name](ctx)
    ref_num = ctx.int(64, 160)
    tot = None
    sizes = [ctx.pick(1, 2, 3), ctx.int(3, 40), ctx.int(300, 1500)]
    ref = None
    minlen = 1
    for num in [ref_num] + sizes:
        blocks = zoo.collect(g.result(num))
        ctx.event(len(blocks))
        ctx.check(len(blocks) > 0, f'no-output@{name}', f'num={num}')
        ctx.note(cls=name, sizes=str([ref_num] + sizes), rows=sum(len(b) for b in blocks), num=num)
        for k, b in enumerate(blocks):
            ctx.check(b.ndim == 2 and b.shape[1] == blocks[0].shape[1], f'block-shape@{name}', f'block {k} {b.shape}')
            ctx.check(b.shape[0] > 0, f'empty-block@{name}', f'block {k} of {len(blocks)} num={num}')
            if k < len(blocks) - 1:
                ctx.check(b.shape[0] == num, f'short-inner-block@{name}', f'block {k} of {len(blocks)} has {b.shape[0]} rows, num={num}')
            ctx.check(b.shape[0] <= num, f'long-block@{name}', f'block {k} {b.shape[0]} rows, num={num}')
        out = np.concatenate(blocks)
        if ref is None:
            ref = out
            single = out.dtype.name in SINGLE or getattr(g, 'precision', '') in (32,)
            src = getattr(g, 'source', None)
            while src is not None:
                single = single or str(getattr(src, 'precision', '')) in SINGLE
                src = getattr(src, 'source', None)
        else:
            ctx.close(out, ref, f'depends-on-block-size@{name}', f'num={num} vs {ref_num}', rtol=2e-4 if single else 1e-9)
        n = len(out)
        ctx.sig(name, 'mul' if n % num == 0 else 'rem1' if n % num == 1 else 'rem', 'one' if num >= n else 'few' if n / num < 4 else 'many')


@monitor('long-streams', quick=24, thorough=400, floor=12)
def long_streams(ctx):
    """Thousands of rows per block."""
    n, ch = ctx.int(9000, 20000), ctx.pick(1, 2, 9)
    src = ac.TimeSamples(data=ctx.rng.standard_normal((n, ch)), sample_freq=44100.0)
    make = {
        'ChannelMixer': lambda: ac.ChannelMixer(source=src, weights=ctx.rng.standard_normal(ch)), 'TimePower': lambda: ac.TimePower(source=src),
        'TimeCumAverage': lambda: ac.TimeCumAverage(source=src), 'TimeReverse': lambda: ac.TimeReverse(source=src), 'FiltOctave': lambda: ac.FiltOctave(source=src, band=1000),
        'FiltFiltOctave': lambda: ac.FiltFiltOctave(source=src, band=1000), 'TimeExpAverage': lambda: ac.TimeExpAverage(source=src, weight='F'),
        'FiltFreqWeight': lambda: ac.FiltFreqWeight(source=src, weight='A'), 'OctaveFilterBank': lambda: ac.OctaveFilterBank(source=src, lband=24, hband=27),
        'Average': lambda: ac.Average(source=src, num_per_average=ctx.pick(1, 3, 4097)), 'MaskedTimeOut': lambda: ac.MaskedTimeOut(source=src, start=ctx.int(0, 5000), stop=n - ctx.int(0, 99)),
        'TimeConvolve': lambda: ac.TimeConvolve(source=src, kernel=ctx.rng.standard_normal(ctx.pick(1, 50, 5000, 9000))), 'SampleSplitter': lambda: src,
        'PowerChain': lambda: ac.Average(source=ac.TimePower(source=src), num_per_average=ctx.int(2, 40)),
    }
    name = ctx.pick(*make)
    g = make[name]()
    config.global_caching = 'none'
    ref = None
    for num in (ctx.int(200, 1000), ctx.int(4097, 8000), ctx.pick(4096, 8191, 8192, 8193), 65536):
        if name == 'Average':
            num = max(num // 4, 2)
        b = zoo.collect(g.result(num))
        out = np.concatenate(b)
        ctx.event(len(b))
        ctx.note(cls=name, n=n, num=num)
        ctx.check(all(len(v) == num for v in b[:-1]) and 0 < len(b[-1]) <= num, f'blocks@{name}', f'{[len(v) for v in b]} num {num}')
        if ref is None:
            ref = out
        else:
            ctx.close(out, ref, f'depends-on-block-size@{name}', f'num={num}', rtol=1e-9)
        ctx.sig('long', name)


for _n in zoo.ALL:
    def _f(ctx, _n=_n):
        one(ctx, _n)
    heavy = _n.startswith(('Moving', 'Beamformer'))
    monitor(_n, quick=12 if heavy else 60, thorough=60 if heavy else 400, floor=10)(_f)
