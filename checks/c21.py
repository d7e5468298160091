"""C21: mixing sources is weighted superposition."""
import acoular as ac
import numpy as np
import zoo
from vf import monitor

RULE = ('a case draws the inputs (recorded data, simulated sources, processing chains, the same object twice), weights, block size and a history of list edits, and compares '
        'every row with the sum of separately collected inputs; non-trivial = mixer x number x kind x end regime')
ASSUMPTIONS = ['inputs whose streams end early although the declared lengths agree (moving sources, unequal inputs of the stream mixer) end the mix with the shortest']


def stream(ctx, n, ch, fs, mic):
    k = ctx.pick('data', 'data', 'int', 'point', 'noise', 'chain', 'moving', 'file')
    if k == 'data':
        return k, ac.TimeSamples(data=zoo.data(ctx, n, ch, 'normal'), sample_freq=fs)
    if k == 'int':
        return k, ac.TimeSamples(data=ctx.rng.integers(-99, 99, (n, ch)), sample_freq=fs)
    if k == 'point':
        return k, ac.PointSource(signal=zoo.signal(ctx, n, fs, 'white'), mics=mic, loc=(0.1, 0.2, ctx.uni(0.3, 2)), up=2)
    if k == 'noise':
        return k, ac.UncorrelatedNoiseSource(signal=zoo.signal(ctx, n, fs, 'white'), mics=mic)
    if k == 'moving':
        return k, ac.MovingPointSource(signal=zoo.signal(ctx, n, fs, 'white'), mics=mic, trajectory=zoo.line_traj(ctx), up=2, start=ctx.pick(0.0, 0.004, 0.02 * n / 500))
    if k == 'file':
        p = ctx.scratch / f'{ctx.int(0, 10**9)}.h5'
        for _ in ac.WriteH5(source=ac.TimeSamples(data=zoo.data(ctx, n, ch, 'normal'), sample_freq=fs), file=str(p), precision='float64').result(100):
            pass
        return k, ac.TimeSamples(file=str(p))
    return k, ac.TimePower(source=ac.TimeSamples(data=zoo.data(ctx, n, ch, 'normal'), sample_freq=fs))


def expected(parts, weights):
    L = min(len(p) for p in parts)
    return sum(w * p[:L].astype(float) for w, p in zip(weights, parts))


def compare(ctx, mixer, srcs, weights, num, mech, n):
    before = [zoo.full(s, num) for s in srcs]
    raw = [np.array(s.data[:]) if hasattr(s, 'data') else None for s in srcs]
    blocks = zoo.collect(mixer.result(num))
    for s, b, x in zip(srcs, before, raw):
        ctx.equal(zoo.full(s, num), b, 'input-changed')
        if x is not None:
            ctx.equal(np.array(s.data[:]), x, 'input-data-changed')
    live = [b for b in before if b.size]
    if len(live) < len(before):
        ctx.check(not blocks, mech + '@empty-input', f'{len(blocks)} blocks although an input delivers nothing')
        return 'empty'
    want = expected(before, weights)
    got = np.concatenate(blocks) if blocks else np.empty((0, want.shape[1]))
    ctx.close(got, want, mech, rtol=1e-12, scale=max(abs(w) * np.abs(b).max() for w, b in zip(weights, before)) * len(before))
    ctx.check(all(len(b) == num for b in blocks[:-1]) and all(len(b) for b in blocks), mech + '-blocks', str([len(b) for b in blocks]))
    ctx.event(len(blocks))
    return 'short' if len(want) < n else 'full'


@monitor('source-mixer', quick=300, thorough=8000, floor=120)
def source_mixer(ctx):
    n, fs = ctx.pick(ctx.int(1, 40), ctx.int(100, 400), 128, 256), 25600.0
    mic = zoo.mics(ctx, ctx.int(1, 4))
    ch = mic.num_mics
    k = ctx.int(1, 6)
    kinds, srcs = zip(*[stream(ctx, n, ch, fs, mic) for _ in range(k)])
    srcs = list(srcs)
    if k > 1 and ctx.flip(0.15):
        srcs[1] = srcs[0]
    w = ctx.pick(None, ctx.rng.standard_normal(k), np.zeros(k), np.eye(k)[ctx.int(0, k - 1)])
    num = ctx.pick(1, 7, 32, 128, n, n + 3) if n < 60 else ctx.pick(16, 33, 64, 128, n, n + 3)
    m = ac.SourceMixer(sources=srcs, **({} if w is None else dict(weights=w)))
    ctx.note(n=n, kinds=list(kinds), num=num, w=None if w is None else w.tolist())
    ctx.check((m.num_samples, m.num_channels, m.sample_freq) == (n, ch, fs), 'mixer-metadata')
    end = compare(ctx, m, srcs, np.ones(k) if w is None else w, num, 'source-mixer', n)
    ctx.sig(k, ''.join(sorted({x[0] for x in kinds})), w is None, end, num >= n)


@monitor('short-inputs', quick=120, thorough=3000, floor=30)
def short_inputs(ctx):
    """Inputs ending at and between block boundaries."""
    fs, ch, num = 1000.0, ctx.int(1, 3), ctx.pick(1, 4, 16)
    k = ctx.int(2, 4)
    lens = [num * ctx.int(1, 4) + ctx.pick(0, 0, ctx.int(0, num - 1)) for _ in range(k)]
    srcs = [ac.TimeSamples(data=ctx.rng.standard_normal((L, ch)), sample_freq=fs) for L in lens]
    which = ctx.pick('stream', 'declared')
    ctx.note(lens=lens, num=num, which=which)
    ctx.sig(which, int(np.argmin(lens)), min(lens) % num == 0, num)
    if which == 'stream':
        m = ac.Mixer(source=srcs[0], sources=srcs[1:])
        compare(ctx, m, srcs, np.ones(k), num, 'mixer-short', max(lens))
    else:
        # declared lengths agree, streams end early (as those of moving sources do)
        wrapped = []
        for s, L in zip(srcs, lens):
            long = ac.TimeSamples(data=np.concatenate([s.data, np.ones((max(lens) - L, ch))]), sample_freq=fs)
            wrapped.append(early(long, L))
        m = ac.SourceMixer(sources=wrapped)
        compare(ctx, m, wrapped, np.ones(k), num, 'source-mixer-short', max(lens))


def early(src, stop):
    """A source that declares the full length but stops after `stop` rows."""
    from traits.api import Int

    class Early(ac.TimeOut):
        upto = Int(0)

        def result(self, num):
            left = self.upto
            for b in self.source.result(num):
                if left <= 0:
                    return
                yield b[:left]
                left -= len(b)

    return Early(source=src, upto=stop)


@monitor('mixer', quick=200, thorough=5000, floor=60)
def mixer(ctx):
    n, fs = ctx.pick(ctx.int(1, 40), ctx.int(100, 400)), 25600.0
    mic = zoo.mics(ctx, ctx.int(1, 4))
    k = ctx.int(0, 5)
    kinds, srcs = zip(*[stream(ctx, n, mic.num_mics, fs, mic) for _ in range(k + 1)])
    num = ctx.pick(7, 32, 128, n, n + 3)
    m = ac.Mixer(source=srcs[0], sources=list(srcs[1:]))
    ctx.note(n=n, kinds=list(kinds), num=num)
    ctx.check((m.num_samples, m.num_channels, m.sample_freq) == (n, mic.num_mics, fs), 'mixer-metadata')
    end = compare(ctx, m, srcs, np.ones(k + 1), num, 'mixer', n)
    ctx.sig(k, ''.join(sorted({x[0] for x in kinds})), end, num >= n)


@monitor('mismatch', quick=150, thorough=2000, floor=20)
def mismatch(ctx):
    n, ch, fs, k = ctx.int(5, 100), ctx.int(1, 3), 1000.0, ctx.int(2, 5)
    bad = ctx.int(1, k - 1) if ctx.flip(0.8) else 0
    what = ctx.pick('sample_freq', 'channels', 'length', 'weights', 'none')
    cls = ctx.pick('SourceMixer', 'Mixer')

    def one(i):
        o = i == bad
        return ac.TimeSamples(data=ctx.rng.standard_normal((n + (o and what == 'length'), ch + (o and what == 'channels'))), sample_freq=fs * (1 + 1e-3 * (o and what == 'sample_freq')))

    srcs = [one(i) for i in range(k)]
    ctx.sig(cls, what, bad == 0, k)
    ctx.note(cls=cls, what=what, bad=bad, k=k)
    if cls == 'Mixer':
        m = ac.Mixer(source=srcs[0], sources=srcs[1:])
        if what in ('length', 'weights', 'none'):
            zoo.full(m, 16)
            return
    else:
        kw = dict(weights=np.ones(k + ctx.pick(-1, 1))) if what == 'weights' else {}
        m = ac.SourceMixer(sources=srcs, **kw)
        if what == 'none':
            zoo.full(m, 16)
            m.sources = []
            what = 'empty'
    it = m.result(16)
    try:
        next(it)
    except (ValueError, AssertionError):
        ctx.check(True, 'mismatch')
        return
    ctx.check(False, f'accepted@{cls}-{what}', 'mismatching inputs delivered data')


@monitor('histories', quick=120, thorough=3000, floor=60)
def histories(ctx):
    """Adding, removing, exchanging and modifying inputs is reflected by the next run, its metadata and identity."""
    n, ch, fs = ctx.int(5, 60), ctx.int(1, 3), 1000.0
    cls = ctx.pick('SourceMixer', 'Mixer')

    def new(nn=n):
        return ac.TimeSamples(data=ctx.rng.standard_normal((nn, ch)), sample_freq=fs)

    first = new()
    rest = [new() for _ in range(ctx.int(0, 2))]
    m = ac.Mixer(source=first, sources=list(rest)) if cls == 'Mixer' else ac.SourceMixer(sources=[first, *rest])
    digests = {m.digest: tuple(id(s.data) for s in [first, *rest])}
    steps = []
    for _ in range(ctx.int(2, 6)):
        op = ctx.pick('append', 'pop', 'replace', 'modify', 'clear', 'insert', 'assign')
        L = m.sources
        lo = 0 if cls == 'Mixer' else 1
        if op == 'append':
            L.append(new())
        elif op == 'insert':
            L.insert(ctx.int(0, len(L)), new())
        elif op == 'pop' and len(L) > lo:
            L.pop(ctx.int(0, len(L) - 1))
        elif op == 'replace' and L:
            L[ctx.int(0, len(L) - 1)] = new()
        elif op == 'modify' and L:
            L[ctx.int(0, len(L) - 1)].data = ctx.rng.standard_normal((n, ch))
        elif op == 'clear' and lo == 0:
            del L[:]
        elif op == 'assign':
            m.sources = [new() for _ in range(ctx.int(max(1, lo), 3))]
        else:
            continue
        steps.append(op)
        cur = ([m.source] if cls == 'Mixer' else []) + list(m.sources)
        num = ctx.pick(4, 16, n)
        got = zoo.full(m, num)
        ctx.close(got, sum(s.data for s in cur), f'history@{cls}', rtol=1e-12, scale=10)
        key = tuple(id(s.data) for s in cur)
        ctx.check(digests.get(m.digest, key) == key, 'history-digest', f'{steps}')
        digests[m.digest] = key
        ctx.keep = getattr(ctx, 'keep', []) + [s.data for s in cur]
    ctx.note(cls=cls, steps=steps)
    ctx.sig(cls, '-'.join(steps[:3]))
