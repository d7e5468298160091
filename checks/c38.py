"""C38: recording from a sound device."""
import sys

import sounddevice

DEVICES = [dict(max_input_channels=1, default_samplerate=44100.0), dict(max_input_channels=2, default_samplerate=48000.0),
           dict(max_input_channels=8, default_samplerate=96000.0), dict(max_input_channels=32, default_samplerate=51200.0)]
LOG = []


class Lost(RuntimeError):
    pass


class FakeStream:
    """A device that delivers numbered frames and may lose frames before a read (overflow) or fail."""

    plan = None

    def __init__(self, **kw):
        self.kw, self.open, self.reads, self.sent, self.frame = kw, False, [], [], 0
        self.p = FakeStream.plan
        if kw['channels'] > DEVICES[kw['device']]['max_input_channels'] or kw['channels'] < 1:
            raise ValueError('Invalid number of channels')
        LOG.append(self)

    def __enter__(self):
        self.open = True
        return self

    def start(self):
        self.open = True

    def __exit__(self, *a):
        self.open = False

    stop = close = lambda self, *a: self.__exit__()

    def read(self, frames):
        if not self.open:
            raise Lost('read from a stream that is not running')
        k = len(self.reads)
        if self.p['fail'] == k:
            raise Lost('device lost')
        over = bool(self.p['rng'].random() < self.p['overflow'])
        if over:
            self.frame += int(self.p['rng'].integers(1, 500))
        dt = np.dtype(self.kw['dtype'])
        n = np.arange(self.frame, self.frame + frames)[:, None] * 7 + np.arange(self.kw['channels']) * 3
        data = (n % 120).astype(dt) if dt.kind in 'iu' else ((n % 100003) / 100003).astype(dt)
        self.frame += frames
        self.reads.append((frames, over))
        self.sent.append(data.copy())
        return data, over


def query(device=None, kind=None):
    return dict(DEVICES[device], name=f'fake {device}', index=device)


sounddevice.InputStream = FakeStream
sounddevice.query_devices = query

import acoular as ac  # noqa: E402
import numpy as np  # noqa: E402
from vf import monitor  # noqa: E402

if 'acoular.sdinput' in sys.modules:
    sys.modules['acoular.sdinput'].sd = sounddevice

RULE = ('a case draws a device, channels, sampling frequency, precision, limit, block size, overflows, device failures, moments of switching off and of '
        'abandoning, repeats recordings with one object and compares every block with what the fake device handed out; '
        'non-trivial = ending x limit kind x precision x overflow x number of recordings')
ASSUMPTIONS = ['the sounddevice library is replaced by a fake with the same interface (InputStream as context manager with blocking read, query_devices)',
               'a real device is not available here; its driver and the PortAudio library are outside of the property']


def start(ctx, **kw):
    FakeStream.plan = dict(rng=ctx.rng, overflow=ctx.pick(0, 0, 0.3, 0.9), fail=kw.get('fail'))
    LOG.clear()


@monitor('recording', quick=600, thorough=15000, floor=60)
def recording(ctx):
    dev = ctx.int(0, 3)
    start(ctx)
    o = ac.SoundDeviceSamplesGenerator(device=dev)
    o.num_channels = ctx.int(1, DEVICES[dev]['max_input_channels'])
    fs = ctx.pick(None, 8000.0, 44100.0)
    if fs:
        o.sample_freq = fs
    prec = ctx.pick(None, 'float32', 'int32', 'int16', 'int8', 'uint8')
    if prec:
        o.precision = prec
    runs = ctx.int(1, 3)
    for run in range(runs):
        num = ctx.pick(1, 2, 16, 128, ctx.int(1, 300))
        limit = ctx.pick(-1, -1, 0, 1, num, num - 1, num + 1, 3 * num, ctx.int(1, 1000))
        stop = ctx.int(0, 6)  # block after which something ends the recording
        end = ctx.pick('limit', 'abandon', 'fail', 'error') if limit >= 0 else ctx.pick('switch', 'switch', 'abandon', 'fail', 'error')
        FakeStream.plan['fail'] = stop if end == 'fail' else None
        o.num_samples = limit
        o.collect_samples = True
        ctx.note(dev=dev, ch=o.num_channels, fs=fs, prec=prec, num=num, limit=limit, end=end, stop=stop, run=run)
        LOG.clear()
        blocks, over, err = [], [], None
        if end == 'switch' and stop == 0:
            o.collect_samples = False
        g = o.result(num)
        try:
            for b in g:
                ctx.event()
                s, = LOG
                ctx.check(s.open and o.running, 'not-running', lambda: f'while recording: stream open {s.open}, running {o.running}')
                ctx.check(o.overflow == s.reads[-1][1], 'overflow', lambda: f'block {len(blocks)}: overflow {o.overflow}, device said {s.reads[-1][1]}')
                ctx.check(len(s.reads) == len(blocks) + 1, 'read-ahead', lambda: f'{len(s.reads)} reads for {len(blocks) + 1} blocks')
                blocks.append(b)
                if end == 'abandon' and len(blocks) > stop:
                    g.close()
                    break
                if end == 'error' and len(blocks) > stop:
                    g.throw(Lost('consumer failed'))
                if end == 'switch' and len(blocks) >= stop:
                    o.collect_samples = False
                if len(blocks) > 3000:
                    break
        except Lost as e:
            err = e
        s, = LOG
        ctx.check(not s.open, 'stream-left-open', lambda: f'after {end}')
        ctx.check(not o.running, 'still-running', lambda: f'running after {end}')
        ctx.check(s.kw['device'] == dev and s.kw['channels'] == o.num_channels, 'stream-settings', lambda: str(s.kw))
        ctx.check(s.kw['samplerate'] == (fs or DEVICES[dev]['default_samplerate']), 'stream-frequency', lambda: str(s.kw))
        ctx.check(np.dtype(s.kw['dtype']) == np.dtype(prec or 'float32'), 'stream-precision', lambda: str(s.kw))
        sent = np.concatenate(s.sent) if s.sent else np.zeros((0, o.num_channels))
        got = np.concatenate(blocks) if blocks else np.zeros((0, o.num_channels))
        for k, b in enumerate(blocks):
            ctx.check(b.ndim == 2 and b.shape[1] == o.num_channels, 'block-shape', lambda: f'block {k}: {b.shape}')
            ctx.check(b.dtype == np.dtype(prec or 'float32'), 'block-precision', lambda: f'block {k}: {b.dtype}')
            ctx.check(len(b) == num or (k == len(blocks) - 1 and 0 < len(b) <= num and limit > 0), 'block-length', lambda: f'block {k} of {len(blocks)}: {len(b)}, {num} asked')
        ctx.equal(got, sent[:len(got)], 'frames', 'recorded frames')
        if limit >= 0:
            ctx.check(len(got) <= limit, 'limit-exceeded', lambda: f'{len(got)} frames, {limit} wanted')
        complete = err is None and end != 'abandon'
        if complete and limit >= 0:
            ctx.check(len(got) == limit, 'limit-missed', lambda: f'{len(got)} frames, {limit} wanted')
            ctx.check(sum(r[0] for r in s.reads) < limit + num, 'reads-beyond-limit', lambda: f'{s.reads} for {limit}')
        if complete and end == 'switch':
            ctx.check(len(blocks) == stop, 'switch-off', lambda: f'{len(blocks)} blocks, switched off after {stop}')
        if end == 'fail' and (limit < 0 or limit > stop * num):
            ctx.check(isinstance(err, Lost), 'failure-hidden', lambda: f'{len(blocks)} blocks, device failed at {stop}')
            ctx.check(len(blocks) == stop, 'failure-blocks', lambda: f'{len(blocks)} blocks before the failure, want {stop}')
        ctx.sig(end, 'unlimited' if limit < 0 else 'zero' if limit == 0 else 'part' if limit % num else 'full', prec, FakeStream.plan['overflow'] > 0, run)


@monitor('device', quick=200, thorough=4000, floor=20)
def device(ctx):
    """Channels and sampling frequency follow the device, old names and identities follow the settings."""
    start(ctx)
    o = ac.SoundDeviceSamplesGenerator()
    ctx.check(o.device == 0 and o.num_channels == 1 and o.num_samples == -1 and o.collect_samples and not o.running and not o.overflow, 'defaults', '')
    own, want = None, 1
    for _ in range(ctx.int(2, 8)):
        ctx.event()
        k = ctx.pick('device', 'channels', 'fs', 'read')
        if k == 'device':
            o.device = ctx.int(0, 3)
            want = min(want, DEVICES[o.device]['max_input_channels'])
        elif k == 'channels':
            n = ctx.int(1, 40)
            with_old = ctx.flip(0.3)
            setattr(o, 'numchannels' if with_old else 'num_channels', n)
            want = min(n, DEVICES[o.device]['max_input_channels'])
        elif k == 'fs':
            own = o.sample_freq = ctx.pick(8000.0, 22050.0, ctx.uni(1000, 90000))
        ctx.note(step=k, device=o.device)
        ctx.check(o.num_channels == want, 'channel-limit', lambda: f'{o.num_channels} channels at device {o.device}, want {want}')
        ctx.check(o.sample_freq == (own or DEVICES[o.device]['default_samplerate']), 'frequency', lambda: f'{o.sample_freq} at device {o.device}, set {own}')
        p = o.device_properties()
        ctx.check(p['max_input_channels'] == DEVICES[o.device]['max_input_channels'], 'properties', lambda: str(p))
        ctx.sig(k, o.device, own is not None)
    for old, new, v in (('collectsamples', 'collect_samples', False), ('numsamples', 'num_samples', ctx.int(1, 99))):
        setattr(o, old, v)
        ctx.check(getattr(o, new) == v and getattr(o, old) == v, 'old-name', old)
    a = dict(device=ctx.int(1, 3), num_channels=1, num_samples=ctx.int(1, 9), precision='float32', sample_freq=8000.0)
    x = ac.SoundDeviceSamplesGenerator(**a)
    t = ctx.pick(*a)
    b = dict(a, **{t: dict(device=a['device'] % 3 + 1, num_channels=2, num_samples=10, precision='int16', sample_freq=9000.0)[t]})
    y = ac.SoundDeviceSamplesGenerator(**b)
    ctx.check(x.digest == ac.SoundDeviceSamplesGenerator(**a).digest, 'identity-unstable', '')
    ctx.check(x.digest != y.digest, 'identity-shared', f'{t}: {a[t]} and {b[t]}')
    setattr(x, t, b[t])
    ctx.check(x.digest == y.digest, 'identity-stale', f'after setting {t}')
    ctx.sig('identity', t)


@monitor('chain', quick=150, thorough=3000, floor=8)
def chain(ctx):
    """Recordings pass through processing blocks and to files like any other stream."""
    import gc
    ac.config.global_caching = 'none'
    start(ctx)
    dev = ctx.int(1, 3)
    n, num, ch = ctx.int(1, 300), ctx.int(1, 80), ctx.int(1, 2)
    o = ac.SoundDeviceSamplesGenerator(device=dev, num_channels=ch, num_samples=n)
    kind = ctx.pick('mixer', 'power', 'masked', 'h5', 'fft')
    ctx.note(kind=kind, n=n, num=num, ch=ch)
    ctx.event()
    if kind == 'h5':
        f = str(ctx.scratch / 'r.h5')
        w = ac.WriteH5(source=o, file=f)
        w.save()
        sent = np.concatenate(LOG[-1].sent)[:n]
        t = ac.TimeSamples(file=f)
        ctx.check(t.sample_freq == DEVICES[dev]['default_samplerate'], 'file-frequency', '')
        got = np.array(t.data[:])
        ctx.equal(got, sent, 'file-frames')
        del t
        gc.collect()
    else:
        if kind == 'mixer':
            b, f = ac.ChannelMixer(source=o), lambda x: x.sum(1, keepdims=True)
        elif kind == 'power':
            b, f = ac.TimePower(source=o), lambda x: x**2
        elif kind == 'masked':
            b, f = ac.MaskedTimeOut(source=o, invalid_channels=[0] if ch > 1 else []), lambda x: x[:, 1:] if ch > 1 else x
        else:
            bs = ctx.pick(8, 32)
            b, f = ac.RFFT(source=o, block_size=bs), lambda x: np.fft.rfft(x[:len(x) // bs * bs].reshape(-1, bs, ch), axis=1)
        got = [np.array(v) for v in b.result(1 if kind == 'fft' else num)]
        sent = np.concatenate(LOG[-1].sent)[:n].astype(float)
        if kind == 'fft':
            want = f(sent)
            ctx.check(len(got) in (len(want), len(want) + 1), 'chain-blocks', lambda: f'{len(got)} spectra')
            for k, v in enumerate(want):
                ctx.close(got[k].reshape(-1, ch), v, 'chain-spectra', rtol=1e-5, scale=float(np.abs(v).max()) + 1e-3)
        else:
            ctx.close(np.concatenate(got), f(sent), 'chain-output', kind, rtol=1e-5)
    ctx.check(not o.running and not LOG[-1].open, 'chain-left-open', kind)
    ctx.sig(kind, n < num, ch)
