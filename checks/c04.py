"""C04: the sample splitter hands every block to every consumer exactly once and in order."""
import sys
import threading
import time
import warnings
from collections import deque

import numpy as np

import acoular as ac
from vf import monitor

RULE = ('schedule: a seeded single-threaded schedule of consumer steps is compared step by step with a queue model (exactly-once, order, drop-oldest, '
        'overflow reaction); threads: consumer threads with injected delays in source and consumers, checked offline over the received block logs; '
        'non-trivial = consumers x treatments x buffer regime x outcome')
ASSUMPTIONS = ['all consumers of a run start before the first of them has seen the end of the stream',
               'thread schedules are those produced by 1 us switch interval plus seeded sleeps, not enumerated']


class Src(ac.SamplesGenerator):
    """Block k carries the number k in every element."""

    nblocks = 10
    delay = None

    def result(self, num):
        buf = np.empty((num, self.num_channels))
        for k in range(self.__dict__['nb']):
            d = self.__dict__.get('delay_fn')
            if d:
                d()
            if self.__dict__.get('reuse'):  # like several sources of the package: one array for all blocks
                buf[:] = k
                yield buf
            else:
                yield np.full((num, self.num_channels), float(k))


class Sink(ac.TimeOut):
    def result(self, num):
        yield from self.iterate(num)

    def iterate(self, num):
        for b in self.source.result(num):
            yield b


def make(ctx, nb, ch=2):
    s = Src(num_channels=ch, num_samples=nb * 4, sample_freq=1000.0)
    s.__dict__['nb'] = nb
    s.__dict__['reuse'] = ctx.flip(0.4)
    return s


def blockno(ctx, b, num, ch):
    b = np.asarray(b)
    ctx.check(b.shape == (num, ch) and bool(np.all(b == b.flat[0])), 'block-modified', lambda: f'{b.shape} {b[:2]}')
    return int(b.flat[0])


@monitor('schedule', quick=500, thorough=12000, floor=1500)
def schedule(ctx):
    nb, num, ch = ctx.int(1, 25), ctx.int(1, 5), ctx.int(1, 3)
    src = make(ctx, nb, ch)
    nc = ctx.int(1, 4)
    sp = ac.SampleSplitter(source=src)
    mode = ctx.pick('global', 'dict', 'register', 'default')
    bounds, treat = [], []
    sinks = [Sink(source=sp) for _ in range(nc)]
    for _ in range(nc):
        bounds.append(100 if mode == 'default' else ctx.pick(1, 2, 3, 5, 50))
        treat.append(ctx.pick('error', 'warning', 'none', 'none'))
    if mode == 'global':
        bounds = [bounds[0]] * nc
        sp.buffer_size = bounds[0]
    if mode == 'dict':
        sp.buffer_size = dict(zip(sinks, bounds))
    for s, b, t in zip(sinks, bounds, treat):
        kw = dict(buffer_overflow_treatment=t) if t != 'error' or ctx.flip() else {}
        if mode == 'register':
            kw['buffer_size'] = b
        sp.register_object(s, **kw)
    if mode == 'global' and ctx.flip(0.3):
        bounds = [bounds[0] + 1] * nc
        sp.buffer_size = bounds[0]
    if ctx.flip(0.2):
        try:
            sp.register_object(sinks[0])
            ok = False
        except OSError:
            ok = True
        ctx.check(ok, 'double-registration-accepted')
    if ctx.flip(0.2):
        stranger = Sink(source=sp)
        try:
            next(iter(stranger.result(num)))
            ok = False
        except OSError:
            ok = True
        ctx.check(ok, 'unregistered-consumer-served')
    ctx.note(nblocks=nb, consumers=nc, bounds=str(bounds), treat=str(treat), mode=mode, num=num)
    outcome = set()
    for run in range(ctx.int(1, 3)):
        q = [deque() for _ in range(nc)]
        # a consumer may stop reading early; as long as another one reads to the end the next run starts afresh
        stop_at = [ctx.int(1, 12) if k and ctx.flip(0.25) else None for k in range(nc)]
        nread = [0] * nc
        pos = 0
        its = [iter(s.result(num)) for s in sinks]
        done = [False] * nc
        order = [int(x) for x in ctx.rng.permutation(nc)]
        bias = ctx.rng.dirichlet(np.ones(nc) * ctx.pick(0.3, 1, 10))
        overflow = False
        steps = 0
        while not all(done):
            i = order.pop() if order else int(ctx.rng.choice(nc, p=bias))
            if steps > 400:
                i = next(k for k in range(nc) if not done[k])
            steps += 1
            if done[i]:
                continue
            want, warnwant = None, 0
            if overflow:
                want = 'error'
            elif q[i]:
                want = q[i].popleft()
            elif pos < nb:
                for k in range(nc):
                    if len(q[k]) == bounds[k]:
                        if treat[k] == 'error':
                            overflow = True
                        elif treat[k] == 'warning':
                            warnwant += 1
                if overflow:
                    want = 'error'
                else:
                    for k in range(nc):
                        if len(q[k]) == bounds[k]:
                            q[k].popleft()
                            outcome.add('drop-' + treat[k])
                        q[k].append(pos)
                    pos += 1
                    want = q[i].popleft()
            else:
                want = 'end'
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter('always')
                try:
                    got = blockno(ctx, next(its[i]), num, ch)
                except StopIteration:
                    got = 'end'
                except OSError:
                    got = 'error'
            nw = sum('data will get lost' in str(r.message) or 'uffer' in str(r.message) for r in rec)
            ctx.event()
            mech = ('overflow-not-reported' if want == 'error' else 'spurious-overflow-error' if got == 'error' else
                    'block-lost-or-reordered')
            ctx.check(got == want, mech, lambda: f'run {run} step {steps} consumer {i}: got {got}, expected {want}')
            if not overflow:
                ctx.check((nw > 0) == (warnwant > 0), 'overflow-warning', lambda: f'step {steps}: {nw} warnings, expected {warnwant}')
            nread[i] += 1
            if got in ('end', 'error'):
                done[i] = True
                outcome.add(str(got))
            elif nread[i] == stop_at[i]:
                done[i] = True
                outcome.add('stopped-early')
                its[i] = None
        if overflow:
            break
        if nc > 1 and ctx.flip(0.3):
            k = ctx.int(0, nc - 1)
            sp.remove_object(sinks[k])
            sp.register_object(sinks[k], buffer_size=bounds[k], buffer_overflow_treatment=treat[k])
            outcome.add('registered-again')
        ctx.sig(nc, mode, *sorted(outcome))


@monitor('threads', quick=120, thorough=3000, floor=500, timeout=60)
def threads(ctx):
    nb, num, ch = ctx.int(5, 60), ctx.int(1, 4), 2
    src = make(ctx, nb, ch)
    nc = ctx.int(2, 5)
    sp = ac.SampleSplitter(source=src)
    sinks = [Sink(source=sp) for _ in range(nc)]
    limited = ctx.flip(0.4)
    bounds = [ctx.pick(1, 2, 4, nb + 5) if limited else nb + 5 for _ in range(nc)]
    if limited:
        bounds[0] = nb + 5
    treat = ['error' if b > nb else ctx.pick('warning', 'none') for b in bounds]
    for s, b, t in zip(sinks, bounds, treat):
        sp.register_object(s, buffer_size=b, buffer_overflow_treatment=t)
    seeds = [int(ctx.rng.integers(1 << 30)) for _ in range(nc + 1)]
    srng = np.random.default_rng(seeds[-1])
    dl = ctx.pick(0, 1e-5, 2e-4)
    src.__dict__['delay_fn'] = lambda: time.sleep(srng.random() * dl) if dl and srng.random() < 0.5 else None
    ctx.note(nblocks=nb, consumers=nc, bounds=str(bounds), treat=str(treat), delay=dl)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for run in range(ctx.int(1, 2)):
            logs = [[] for _ in range(nc)]
            errs = [None] * nc
            start = threading.Barrier(nc)
            began = threading.Barrier(nc)

            def consume(k):
                r = np.random.default_rng(seeds[k] + run)
                try:
                    start.wait(20)
                    it = iter(sinks[k].result(num))
                    first = True
                    while True:
                        try:
                            b = next(it)
                        except StopIteration:
                            break
                        logs[k].append(np.array(b))
                        if first:
                            first = False
                            began.wait(20)
                        if r.random() < 0.3 * (k % 2):
                            time.sleep(r.random() * 2e-4)
                except Exception as e:  # noqa: BLE001
                    errs[k] = e

            th = [threading.Thread(target=consume, args=(k,), daemon=True) for k in range(nc)]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for t in th:
                    t.start()
                for t in th:
                    t.join(40)
            ctx.check(not any(t.is_alive() for t in th), 'consumer-stuck', lambda: f'{[t.is_alive() for t in th]}')
            ctx.check(all(e is None for e in errs), 'consumer-failed', lambda: f'{errs}')
            for k in range(nc):
                seq = [blockno(ctx, b, num, ch) for b in logs[k]]
                ctx.event(len(seq))
                if bounds[k] > nb:
                    ctx.check(seq == list(range(nb)), 'block-lost-or-reordered', lambda: f'run {run} consumer {k}: {seq}')
                else:
                    ctx.check(all(b > a for a, b in zip(seq, seq[1:])), 'block-duplicated-or-reordered', lambda: f'consumer {k}: {seq}')
                    tail = list(range(max(0, nb - bounds[k]), nb))
                    ctx.check(seq[-len(tail):] == tail, 'newest-blocks-lost', lambda: f'consumer {k} bound {bounds[k]}: {seq}')
            ctx.sig(nc, limited, dl, 'complete' if all(len(x) == nb for x in logs) else 'dropped')
    finally:
        sys.setswitchinterval(old)


@monitor('real_consumers', quick=60, thorough=1500, floor=200, timeout=60)
def real_consumers(ctx):
    """acoular's own processing blocks as consumers, compared with the same blocks fed directly."""
    n, ch, num = ctx.int(20, 300), ctx.int(1, 3), ctx.int(1, 40)
    data = ctx.rng.standard_normal((n, ch))
    src = ac.TimeSamples(data=data.copy(), sample_freq=25600.0)
    mk = [lambda s: ac.TimePower(source=s), lambda s: ac.FiltOctave(source=s, band=1000.0), lambda s: ac.TimeCumAverage(source=s),
          lambda s: ac.ChannelMixer(source=s), lambda s: ac.TimeExpAverage(source=s), lambda s: ac.Average(source=s, num_per_average=1)]
    ks = [ctx.int(0, len(mk) - 1) for _ in range(ctx.int(2, 4))]
    ref = [np.concatenate([b.copy() for b in mk[k](src).result(num)]) for k in ks]
    sp = ac.SampleSplitter(source=src)
    cons = [mk[k](sp) for k in ks]
    sp.register_object(*cons, buffer_size=n + 2)
    out = [[] for _ in ks]
    errs = []
    bar = threading.Barrier(len(ks))

    def run(i):
        try:
            first = True
            for b in cons[i].result(num):
                out[i].append(np.array(b))
                if first:
                    first = False
                    bar.wait(20)
        except Exception as e:  # noqa: BLE001
            errs.append(e)

    th = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(ks))]
    for t in th:
        t.start()
    for t in th:
        t.join(40)
    ctx.note(n=n, num=num, consumers=str([type(c).__name__ for c in cons]))
    ctx.check(not errs and not any(t.is_alive() for t in th), 'consumer-failed', lambda: f'{errs}')
    for i, r in enumerate(ref):
        ctx.equal(np.concatenate(out[i]), r, 'consumer-result-differs', type(cons[i]).__name__)
    ctx.equal(src.data, data, 'source-data-changed')
    sp.remove_object(cons[0])
    ctx.check(cons[0] not in sp.block_buffer, 'remove_object')
    if len(cons) > 1:
        again = np.concatenate([b.copy() for b in cons[1].result(num)])
        ctx.equal(again, ref[1], 'consumer-result-differs', 'after removing another consumer')
    ctx.sig('real', *sorted(type(c).__name__ for c in cons))
