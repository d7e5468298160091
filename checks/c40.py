"""C40: the sample buffer re-blocks a stream without loss."""
import acoular as ac
import numpy as np
import zoo
from acoular import config
from vf import monitor

RULE = ('a case draws stream length, source block, window, step and buffer length and compares every delivered window with the rows it must contain; '
        'non-trivial = shift mode x orderings of (source block, window, step, buffer length, stream length)')
ASSUMPTIONS = ['windows are guaranteed complete when the buffer can hold a window besides a source block (length >= source block + window - 1); '
               'otherwise a window may be shorter but starts at the same row and no row is skipped',
               'the buffer object belongs to one consumer at a time']


def cmp(a, b):
    return '<' if a < b else '=' if a == b else '>'


def expect(ctx, x, wins, rnums, step, complete, mech):
    """wins[k] must be the rows from start_k on; start advances by step (or by the delivered length when step is None)."""
    start, n = 0, len(x)
    for k, w in enumerate(wins):
        want = x[start:start + rnums[k]]
        ctx.check(len(w) > 0, mech + '-empty', f'window {k}')
        if complete:
            ctx.check(len(w) == len(want), mech + '-length', lambda: f'window {k} at row {start}: {len(w)} rows, want {len(want)}')
        ctx.check(len(w) <= len(want), mech + '-too-long', lambda: f'window {k} at {start}: {len(w)} > {len(want)}')
        ctx.equal(w, want[:len(w)], mech, f'window {k} at row {start}')
        start += step if step is not None else len(w)
    ctx.check(start >= n, mech + '-truncated', lambda: f'{n - start} of {n} rows never delivered')
    ctx.check(not wins or start - (step if step is not None else len(wins[-1])) < n, mech + '-extra')


@monitor('reblock', quick=500, thorough=20000, floor=60)
def reblock(ctx):
    config.global_caching = 'none'
    n, ch = zoo.length(ctx, 1, 300), zoo.chans(ctx, 1, 4)
    x = zoo.data(ctx, n, ch, 'ramp')
    dt = ctx.pick(None, None, 'float32', 'float64')
    if dt != 'float32':
        x = x + 1 / 3  # not representable in single precision
    num = ctx.pick(1, 2, 5, 16, 33, n, ctx.int(1, 60))
    snum = ctx.pick(None, None, 1, 3, 16, ctx.int(1, 60))
    rnum = ctx.pick(None, None, 1, 7, 20, ctx.int(1, 60))
    shift = ctx.pick('result_num', 'num')
    s, r = snum or num, rnum or num
    length = ctx.pick(s + r - 1, s + r, 2 * max(s, r), s + r + ctx.int(0, 50), max(s, r), s, n + s + r, ctx.int(1, 80))
    kw = dict(length=length, shift_index_by=shift)
    if snum:
        kw['source_num'] = snum
    if rnum:
        kw['result_num'] = rnum
    if dt:
        kw['dtype'] = dt
    src = ac.TimeSamples(data=x.copy(), sample_freq=1000)
    b = ac.process.SamplesBuffer(source=src, **kw)
    ctx.note(n=n, ch=ch, num=num, snum=snum, rnum=rnum, shift=shift, length=length, dt=dt)
    step = None if shift == 'result_num' else num
    complete = length >= s + r - 1
    wins = zoo.collect(b.result(num))
    expect(ctx, x, wins, [r] * len(wins), step, complete, 'window')
    if dt:
        ctx.check(all(w.dtype == dt for w in wins), 'dtype')
    ctx.check(b.num_samples == n and b.num_channels == ch and b.sample_freq == 1000, 'metadata')
    if ctx.flip(0.3):
        wins2 = zoo.collect(b.result(num))
        ctx.check(len(wins) == len(wins2) and all(np.array_equal(p, q) for p, q in zip(wins, wins2)), 'second-read')
    ctx.equal(src.data, x, 'source-unchanged')
    ctx.sig(shift, cmp(s, r), cmp(s, num), cmp(length, s + r - 1), cmp(n, length), snum is None, rnum is None)
    ctx.event(len(wins))


@monitor('varying', quick=200, thorough=8000, floor=20)
def varying(ctx):
    """The consumer changes the window length while reading (as the moving beamformers do)."""
    config.global_caching = 'none'
    n, ch = zoo.length(ctx, 20, 300), ctx.int(1, 3)
    x = zoo.data(ctx, n, ch, 'ramp')
    num, s = ctx.int(1, 30), ctx.int(1, 30)
    rs = [ctx.int(num, num + 40) for _ in range(400)]
    length = max(rs) + s + ctx.int(0, 10)
    b = ac.process.SamplesBuffer(source=ac.TimeSamples(data=x, sample_freq=1000), length=length, source_num=s, result_num=rs[0], shift_index_by='num')
    wins = []
    for w in b.result(num):
        wins.append(w.copy())
        b.result_num = rs[len(wins)]
    ctx.note(n=n, num=num, s=s, length=length)
    expect(ctx, x, wins, rs, num, True, 'varying')
    # a window longer than the buffer makes the buffer grow
    big = length + ctx.int(1, 30)
    b = ac.process.SamplesBuffer(source=ac.TimeSamples(data=x, sample_freq=1000), length=s + num, source_num=s, result_num=num, shift_index_by='num')
    wins, rr = [], []
    rr.append(num)
    at = ctx.int(0, 3)
    for w in b.result(num):
        wins.append(w.copy())
        if len(wins) == at + 1:
            b.result_num = big
        rr.append(b.result_num)
    start = 0
    for k, w in enumerate(wins):
        ctx.equal(w, x[start:start + rr[k]][:len(w)], 'growing', f'window {k}')
        start += num
    ctx.check(start >= n, 'growing-truncated')
    ctx.sig(cmp(num, s), cmp(n, length), at)
    ctx.event(len(wins))
