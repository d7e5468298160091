"""C17: files written can be read back unchanged."""
import os
import struct
import warnings

import acoular as ac
import numpy as np
import zoo
from acoular import config
from vf import monitor

RULE = ('a case writes a generated stream (saved at once, streamed, limited, stopped or abandoned) with one backend, reads it back with either backend '
        'and compares every sample; WAV files are parsed byte by byte; non-trivial = backend pair x mode x precision x block regime x metadata')
ASSUMPTIONS = ['float32 files hold the values rounded to single precision', 'WAV: 16 bit, common factor 0.9 * 2^15 / peak of the selected channels, truncation towards zero',
               'PyTables group attributes (CLASS, TITLE, VERSION) may accompany the metadata']


def meta(ctx):
    m = {}
    for i in range(ctx.pick(0, 0, 1, 3)):
        m[f'k{i}'] = ctx.pick('some text', 'x' * ctx.int(1, 60), ctx.rng.standard_normal(ctx.int(1, 9)), np.arange(6).reshape(2, 3), np.array([ctx.uni(-1, 1)]))
    return m


def check_file(ctx, p, want, fs, md, mech):
    config.h5library = ctx.pick('pytables', 'h5py')
    t = ac.TimeSamples(file=str(p))
    ctx.check(t.num_samples == len(want) and t.num_channels == want.shape[1], mech + '-shape', f'{t.num_samples}x{t.num_channels} want {want.shape}')
    ctx.check(t.sample_freq == fs, mech + '-rate', f'{t.sample_freq}')
    if len(want):
        ctx.equal(zoo.full(t, ctx.pick(1, 16, 1000)).astype(want.dtype), want, mech)
    ctx.check(sorted(set(t.metadata) - {'CLASS', 'TITLE', 'VERSION'}) == sorted(md), mech + '-metadata-keys', f'{sorted(t.metadata)}')
    for k, v in md.items():
        g = t.metadata[k]
        g = np.array(g[()] if hasattr(g, 'shape') and g.shape == () else g[:] if hasattr(g, '__getitem__') else g)
        if isinstance(v, str):
            g = g.item() if g.shape == () else g
            ctx.check(g == v.encode(), mech + '-metadata', f'{k}: {g!r} want {v!r}')
        else:
            ctx.equal(g, v, mech + '-metadata', k)
    t.h5f.close()


@monitor('h5', quick=160, thorough=4000, floor=40)
def h5(ctx):
    config.global_caching = 'none'
    n, ch, fs = ctx.pick(zoo.length(ctx, 1, 300), ctx.pick(4095, 4096, 4097, 9000)), zoo.chans(ctx, 1, 5), ctx.pick(*zoo.FS_CHOICES)
    x = zoo.data(ctx, n, ch)
    lib = config.h5library = ctx.pick('pytables', 'h5py')
    prec = ctx.pick('float32', 'float64')
    mode = ctx.pick('save', 'stream', 'stream', 'limit', 'flag', 'abandon', 'again')
    p = ctx.scratch / 'w.h5'
    md = meta(ctx)
    src = ac.TimeSamples(data=x.copy(), sample_freq=fs)
    w = ac.WriteH5(source=src, file=str(p), precision=prec, metadata=md)
    num = ctx.pick(1, 7, 64, n, n + 1, 4096) if n < 1000 else ctx.pick(64, 1000, n)
    ctx.note(n=n, ch=ch, lib=lib, prec=prec, mode=mode, num=num, md=list(md))
    xw = x.astype(prec)
    ctx.sig(lib, mode, prec, 'one' if num >= n else 'div' if n % num == 0 else 'rem', bool(md))
    if mode == 'save':
        w.save()
    elif mode == 'stream':
        ctx.equal(zoo.full(w, num), x, 'stream-passed-on')
    elif mode == 'again':
        y = zoo.data(ctx, ctx.int(1, 400), ch)
        w.source = ac.TimeSamples(data=y, sample_freq=fs)
        w.save()
        w.source = src
        ctx.equal(zoo.full(w, num), x, 'stream-passed-on')
    elif mode == 'limit':
        lim = ctx.pick(0, 1, num, num + 1, 2 * num, n - 1, n, n + 5, ctx.int(0, n + 3))
        w.num_samples_write = lim
        ctx.note(lim=lim)
        b = zoo.collect(w.result(num))
        k = -(-min(lim, n) // num)
        got = np.concatenate(b) if b else np.empty((0, ch))
        ctx.equal(got, x[:min(n, k * num)], 'limited-passed-on')
        xw = xw[:lim]
    elif mode == 'flag':
        stop = ctx.int(1, max(1, n // num + 1))
        k = 0
        for blk in w.result(num):
            ctx.equal(blk, x[k * num:(k + 1) * num], 'flag-passed-on')
            k += 1
            if k == stop:
                w.write_flag = False
        xw = xw[:k * num]
        ctx.check(k == min(stop, -(-n // num)), 'flag-blocks', f'{k} blocks, stop after {stop}')
    elif mode == 'abandon':
        # the consumer stops early: what has been delivered must be in the file, and the file must be usable again
        stop = ctx.int(1, max(1, n // num))
        g = w.result(num)
        for _ in range(stop):
            next(g)
        g.close()
        xw = xw[:stop * num]
    check_file(ctx, p, xw, fs, md, f'h5@{mode}')
    ctx.equal(src.data, x, 'source-unchanged')
    ctx.event(len(xw))


@monitor('failing-source', quick=30, thorough=300, floor=4)
def failing(ctx):
    """The source raises while being saved: the part written is readable, the file can be written again."""
    config.global_caching = 'none'
    lib = config.h5library = ctx.pick('pytables', 'h5py')
    ch, num, good = ctx.int(1, 3), ctx.int(1, 30), ctx.int(1, 4)
    x = zoo.data(ctx, num * 6, ch, 'normal')

    class Src(ac.TimeSamples):
        def result(self, num):
            for i, b in enumerate(super().result(num)):
                if i == good:
                    raise RuntimeError('sensor lost')
                yield b

    p = ctx.scratch / 'f.h5'
    w = ac.WriteH5(source=Src(data=x, sample_freq=1000), file=str(p), precision='float64')
    try:
        for _ in w.result(num):
            pass
    except RuntimeError:
        pass
    ctx.note(lib=lib, num=num, good=good)
    check_file(ctx, p, x[:good * num], 1000, {}, 'interrupted')
    config.h5library = lib
    w.source = ac.TimeSamples(data=x, sample_freq=1000)
    w.save()
    check_file(ctx, p, x, 1000, {}, 'written-again')
    ctx.sig(lib, good)


@monitor('auto-name', quick=16, thorough=60, floor=2)
def auto_name(ctx):
    config.global_caching = 'none'
    old = config.td_dir
    try:
        config.td_dir = str(ctx.scratch)
        config.h5library = ctx.pick('pytables', 'h5py')
        x = zoo.data(ctx, ctx.int(1, 100), 2)
        w = ac.WriteH5(source=ac.TimeSamples(data=x, sample_freq=1000), precision='float64')
        w.save()
        ctx.check(os.path.dirname(w.file) == str(ctx.scratch) and os.path.exists(w.file), 'auto-name', w.file)
        check_file(ctx, w.file, x, 1000, {}, 'auto-named')
    finally:
        config.td_dir = old
    ctx.sig(config.h5library)


@monitor('wav', quick=80, thorough=2000, floor=20)
def wav(ctx):
    config.global_caching = 'none'
    n, ch, fs = ctx.pick(zoo.length(ctx, 1, 300), ctx.pick(1023, 1024, 1025, 2500)), zoo.chans(ctx, 1, 5), ctx.pick(8000, 44100, 48000, 51200)
    x = zoo.data(ctx, n, ch)
    if ctx.flip(0.1):
        x[:] = 0
    sel = [int(c) for c in ctx.rng.permutation(ch)[:ctx.int(1, min(ch, 4))]]
    p = ctx.scratch / 'w.wav'
    w = ac.WriteWAV(source=ac.TimeSamples(data=x.copy(), sample_freq=fs), file=str(p), channels=sel)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            w.save()
    raw = p.read_bytes()
    ctx.note(n=n, ch=ch, sel=sel, fs=fs, peak=float(np.abs(x).max()))
    ctx.check(raw[:4] == b'RIFF' and raw[8:16] == b'WAVEfmt ', 'wav-header')
    tag, nc, rate, brate, align, bits = struct.unpack('<HHIIHH', raw[20:36])
    size, = struct.unpack('<I', raw[40:44])
    ctx.check((tag, nc, rate, brate, align, bits) == (1, len(sel), fs, fs * 2 * len(sel), 2 * len(sel), 16), 'wav-format', f'{(tag, nc, rate, brate, align, bits)}')
    ctx.check(size == n * 2 * len(sel) and len(raw) == 44 + size, 'wav-size', f'{size} for {n} samples')
    got = np.frombuffer(raw[44:], '<i2').reshape(n, len(sel))
    y = x[:, sel]
    pk = np.abs(y).max()
    want = y / pk * 0.9 * 2**15 if pk > 0 else y
    d = np.abs(got - want)
    ctx.check(d.max() <= 1 + 1e-9, 'wav-samples', lambda: f'max deviation {d.max()} at {np.unravel_index(d.argmax(), d.shape)}')
    ctx.check(np.all(np.abs(got) <= np.abs(want) + 1e-6), 'wav-truncation')
    if pk > 0:
        ctx.check(abs(np.abs(got.astype(int)).max() - int(0.9 * 2**15)) <= 1, 'wav-peak')
    ctx.sig(len(sel), len(sel) == ch, 'one' if n <= 1024 else 'many', pk == 0)
    w.channels = []
    try:
        w.save()
    except ValueError:
        pass
    else:
        ctx.check(False, 'wav-no-channels')
    ctx.equal(zoo.full(w, 77), x, 'wav-passed-on')
