"""C03: declared metadata equals what is delivered."""
import numpy as np

import acoular as ac
import zoo
from traits.api import CArray
from vf import monitor

RULE = ('a case builds one generator chain, reads its metadata, compares with the rows it delivers, then reconfigures source data or settings '
        'and compares again; non-trivial = class x (kind of change)')
ASSUMPTIONS = ['sources whose signal has ended and time-domain beamformers deliver only rows for which all data are available']
FS = {}


def expected_fs(g):
    """Independent propagation of the sampling frequency through the chain."""
    if isinstance(g, ac.Average):
        return expected_fs(g.source) / g.num_per_average
    if isinstance(g, ac.SourceMixer):
        return expected_fs(g.sources[0])
    if getattr(g, 'signal', None) is not None and not callable(g.signal):
        return g.signal.sample_freq
    src = getattr(g, 'source', None)
    return expected_fs(src) if src is not None else g.sample_freq


def spectra_shape(ctx, g, name, out):
    src = g
    while not isinstance(src, ac.RFFT):
        src = src.source
    bs, fs = src.block_size, src.source.sample_freq
    nf = bs // 2 + 1
    ctx.check(g.num_freqs == nf, f'num_freqs@{name}', f'{g.num_freqs} != {nf}')
    if hasattr(g, 'freqs') and not isinstance(g, (ac.Average, ac.Cache, ac.Calib)):
        ctx.close(g.freqs, np.arange(nf) * fs / bs, f'freqs@{name}', 'freqs', rtol=1e-12)
        ctx.check(g.block_size == bs, f'block_size@{name}', f'{g.block_size} != {bs}')
    ctx.check(out.shape[1] == g.num_channels * nf, f'columns@{name}', f'{out.shape[1]} columns, num_channels {g.num_channels}, num_freqs {nf}')


def check_meta(ctx, g, name, when):
    num = ctx.int(2, 200)
    declared = (g.num_samples, g.num_channels, g.sample_freq)
    out = zoo.full(g, num)
    now = (g.num_samples, g.num_channels, g.sample_freq)
    ctx.check(declared == now, f'metadata-changes-by-reading@{name}', f'{declared} -> {now}')
    ctx.check(abs(declared[2] - expected_fs(g)) <= 1e-12 * abs(expected_fs(g)), f'sample_freq@{name}', f'{when}: {declared[2]} != {expected_fs(g)}')
    if name in zoo.SPEC:
        spectra_shape(ctx, g, name, out)
    else:
        ctx.check(out.shape[1] == declared[1], f'num_channels@{name}', f'{when}: declared {declared[1]}, delivered {out.shape}')
    if name.startswith('Beamformer'):
        # only completely delayed samples are delivered
        ctx.check(declared[0] == g.source.num_samples, f'num_samples-not-from-source@{name}', f'{declared[0]}')
        ctx.soft(out.shape[0] == declared[0], f'num_samples@{name}', f'{when}: declared {declared[0]}, delivered {out.shape[0]}')
    elif name == 'PointSourceConvolve':
        m, L = g.signal.num_samples, g.kernel.shape[0]
        ctx.check(out.shape[0] in (m, m + L - 1) and declared[0] in (m, m + L - 1), f'num_samples-wrong@{name}', f'{declared[0]} {out.shape}')
        ctx.soft(out.shape[0] == declared[0], f'num_samples@{name}', f'{when}: declared {declared[0]}, delivered {out.shape[0]} (num={num})')
    else:
        ctx.soft(out.shape[0] == declared[0], f'num_samples@{name}', f'{when}: declared {declared[0]}, delivered {out.shape[0]} (num={num})')
    ctx.note(cls=name, declared=str(declared), shape=str(out.shape))


def root(g):
    while getattr(g, 'source', None) is not None:
        g = g.source
    return g


def one(ctx, name):
    ac.config.global_caching = 'none'
    g = zoo.ALL[name](ctx)
    if isinstance(g, (ac.MovingPointSource, ac.PointSourceDipole, ac.LineSource)):
        g.start = 0.0
    check_meta(ctx, g, name, 'fresh')
    r = root(g)
    if isinstance(r, ac.TimeSamples) and type(r) is ac.TimeSamples and name not in ('Mixer', 'SourceMixer'):
        kind = ctx.pick('longer', 'shorter', 'fs')
        if kind == 'fs':
            r.sample_freq = r.sample_freq * ctx.pick(1.25, 2.0) if name not in ('OctaveFilterBank',) else r.sample_freq * 1.25
        else:
            n = r.num_samples + ctx.int(1, 80) if kind == 'longer' else r.num_samples - ctx.int(0, r.num_samples // 2)
            if name in ('IRFFT',):
                n = r.num_samples * 2
            if name in ('MaskedTimeOut', 'SampleChain', 'FiltFiltOctave', 'AverageSpectra', 'Average') or name in zoo.SPEC or name.startswith('Beamf'):
                n = r.num_samples + ctx.int(1, 80)
            r.data = ctx.rng.standard_normal((n, r.num_channels))
        check_meta(ctx, g, name, f'after {kind}')
        ctx.sig(name, kind)
    sets = dict(MaskedTimeOut=lambda: setattr(g, 'stop', g.num_samples_total - ctx.int(0, 2)) if g.num_samples > 6 else None,
                Average=lambda: setattr(g, 'num_per_average', ctx.int(1, 4)),
                OctaveFilterBank=lambda: setattr(g, 'hband', g.lband + ctx.int(3, 7)),
                RFFT=lambda: setattr(g, 'overlap', 'None'),
                CrossPowerSpectra=lambda: setattr(g, 'calc_mode', ctx.pick('full', 'upper', 'lower')),
                TimeConvolve=lambda: setattr(g, 'kernel', ctx.rng.standard_normal(ctx.int(1, 60))),
                IntegratorSectorTime=lambda: setattr(g, 'sectors', g.sectors[:1]))
    if name in sets:
        sets[name]()
        check_meta(ctx, g, name, 'after a setting changed')
        ctx.sig(name, 'setting')
    sg = getattr(g, 'signal', None)
    if isinstance(sg, ac.SignalGenerator):
        sg.num_samples = sg.num_samples + ctx.int(1, 50)
        check_meta(ctx, g, name, 'after the signal changed')
        ctx.sig(name, 'signal')
    if getattr(g, 'mics', None) is not None and name in ('PointSource', 'UncorrelatedNoiseSource', 'PointSourceConvolve', 'PointSourceDipole'):
        g.mics = zoo.mics(ctx, ctx.int(1, 8))
        check_meta(ctx, g, name, 'after the microphones changed')
        ctx.sig(name, 'mics')
    ctx.sig(name, 'fresh')


for _n in zoo.ALL:
    def _f(ctx, _n=_n):
        one(ctx, _n)
    heavy = _n.startswith(('Moving', 'Beamformer'))
    monitor(_n, quick=10 if heavy else 40, thorough=80 if heavy else 500, floor=10)(_f)


class Endless(ac.SamplesGenerator):
    """A source that does not know its length in advance."""

    def result(self, num):
        rng = np.random.default_rng(1)
        for _ in range(4):
            yield rng.standard_normal((num, self.num_channels))


@monitor('unknown_length', quick=60, thorough=400, floor=60)
def unknown_length(ctx):
    s = Endless(num_samples=-1, num_channels=ctx.int(1, 4), sample_freq=44100.0)
    other = Endless(num_samples=-1, num_channels=s.num_channels, sample_freq=44100.0)
    mk = dict(
        TimePower=lambda x: ac.TimePower(source=x), TimeCumAverage=lambda x: ac.TimeCumAverage(source=x),
        FiltOctave=lambda x: ac.FiltOctave(source=x), TimeExpAverage=lambda x: ac.TimeExpAverage(source=x),
        FiltFreqWeight=lambda x: ac.FiltFreqWeight(source=x), Average=lambda x: ac.Average(source=x, num_per_average=ctx.int(1, 7)),
        ChannelMixer=lambda x: ac.ChannelMixer(source=x), Mixer=lambda x: ac.Mixer(source=x, sources=[]),
        RFFT=lambda x: ac.RFFT(source=x, block_size=16), Calib=lambda x: ac.Calib(source=x, data=np.ones(x.num_channels)),
        TimeConvolve=lambda x: ac.TimeConvolve(source=x, kernel=np.ones(3)), Cache=lambda x: ac.Cache(source=x),
        SourceMixer=lambda x: ac.SourceMixer(sources=[x]), WriteH5=lambda x: ac.WriteH5(source=x),
        OctaveFilterBank=lambda x: ac.OctaveFilterBank(source=x), SamplesBuffer=lambda x: ac.SamplesBuffer(source=x) if hasattr(ac, 'SamplesBuffer') else ac.Cache(source=x),
        IRFFT=lambda x: ac.IRFFT(source=ac.RFFT(source=x, block_size=16)),
        AutoPowerSpectra=lambda x: ac.AutoPowerSpectra(source=ac.RFFT(source=x, block_size=16)),
        CrossPowerSpectra=lambda x: ac.CrossPowerSpectra(source=ac.RFFT(source=x, block_size=16)),
    )
    k = ctx.pick(*mk)
    g = mk[k](s)
    ctx.note(chain=k)
    ctx.check(g.num_samples == -1, f'unknown-length@{k}', f'{g.num_samples}')
    if k not in ('RFFT', 'AutoPowerSpectra', 'CrossPowerSpectra'):
        k2 = ctx.pick('TimePower', 'FiltOctave', 'Average', 'Calib', 'ChannelMixer') if k != 'OctaveFilterBank' else 'TimePower'
        g2 = mk[k2](g)
        ctx.check(g2.num_samples == -1, f'unknown-length@{k2}', f'after {k}: {g2.num_samples}')
        ctx.sig('unknown', k, k2)
    else:
        g2 = ac.Average(source=g, num_per_average=ctx.int(2, 4))
        ctx.check(g2.num_samples == -1, 'unknown-length@Average', f'after {k}: {g2.num_samples}')
        ctx.sig('unknown', k, 'Average')


class Unannounced(ac.SamplesGenerator):
    """Delivers data whatever it announces."""

    data = CArray()

    def result(self, num):
        for i in range(0, len(self.data), num):
            yield self.data[i:i + num].copy()


STREAM = dict(
    TimePower=lambda c, x: dict(), TimeCumAverage=lambda c, x: dict(), FiltOctave=lambda c, x: dict(band=1000.0, fraction=c.pick('Octave', 'Third octave')),
    FiltFiltOctave=lambda c, x: dict(band=1000.0), TimeExpAverage=lambda c, x: dict(weight=c.pick('F', 'I')), FiltFreqWeight=lambda c, x: dict(weight=c.pick('A', 'C')),
    Average=lambda c, x: dict(num_per_average=c.int(1, 40)), ChannelMixer=lambda c, x: dict(weights=c.rng.standard_normal(x.num_channels)), Mixer=lambda c, x: dict(sources=[]),
    Calib=lambda c, x: dict(data=c.rng.uniform(0.5, 2, x.num_channels)), TimeConvolve=lambda c, x: dict(kernel=c.rng.standard_normal((c.int(1, 90), c.pick(1, x.num_channels)))),
    Cache=lambda c, x: dict(), OctaveFilterBank=lambda c, x: dict(lband=28, hband=30), TimeReverse=lambda c, x: dict(),
    MaskedTimeOut=lambda c, x: dict(start=c.pick(0, c.int(0, 60)), stop=c.pick(None, c.int(61, 500)), invalid_channels=c.pick([], [0]) if x.num_channels > 1 else []),
    RFFT=lambda c, x: dict(block_size=c.pick(16, 30), window=c.pick('Rectangular', 'Hanning'), overlap=c.pick('None', '50%')),
    PowerSpectra=lambda c, x: dict(block_size=128, overlap=c.pick('None', '50%'), window='Hanning', cached=False),
    BeamformerTime=lambda c, x: dict(steer=ac.SteeringVector(mics=ac.MicGeom(pos_total=c.rng.uniform(-0.1, 0.1, (3, x.num_channels))), grid=ac.RectGrid(x_min=-0.1, x_max=0.1, y_min=0, y_max=0.1, z=0.3, increment=0.1))),
)


@monitor('unannounced', quick=200, thorough=4000, floor=80)
def unannounced(ctx):
    """What a source announces about its length does not change what is made of its data."""
    ac.config.global_caching = 'none'
    k = ctx.pick(*STREAM)
    ch = ctx.int(1, 4)
    n = ctx.int(100, 600)
    if k == 'PowerSpectra':
        n = 128 * ctx.int(2, 6)
    x = ctx.rng.standard_normal((n, ch))
    how = ctx.pick('unknown', 'unknown', 'early') if k not in ('PowerSpectra', 'MaskedTimeOut') else 'unknown' if k == 'PowerSpectra' else ctx.pick('unknown', 'early')
    s = Unannounced(num_samples=-1 if how == 'unknown' else n + ctx.int(1, 200), num_channels=ch, sample_freq=8000.0)
    s.data = x
    ts = ac.TimeSamples(data=x, sample_freq=8000.0)
    kw = STREAM[k](ctx, ts)
    num = ctx.pick(1, 16, 33, 64, 128, 1000)
    ctx.note(chain=k, announced=s.num_samples, n=n, num=num)
    ctx.sig('unannounced', k, how, num)
    a, b = getattr(ac, k)(source=s, **kw), getattr(ac, k)(source=ts, **kw)
    if k == 'PowerSpectra':
        ctx.close(np.array(a.csm), np.array(b.csm), f'unannounced@{k}', rtol=1e-12)
        ctx.event(n)
        return
    if k == 'TimeReverse' and how == 'early':
        return
    got, want = (zoo.full(o, num) for o in (a, b))
    ctx.check(got.shape == want.shape, f'unannounced@{k}', f'{got.shape} want {want.shape} ({how})')
    ctx.close(got, want, f'unannounced@{k}', how, rtol=1e-12, scale=np.abs(want).max())
    ctx.event(len(got))
