"""C37: deprecated names and configuration switches."""
import datetime
import gc
import hashlib
import importlib.util
import itertools
import os
import warnings
from pathlib import Path

import acoular as ac
import h5py
import numpy as np
import spec
import zoo
from acoular import config
from acoular.configuration import Config
from acoular.deprecation import deprecated_alias
from acoular.h5cache import H5cache
from traits.api import Float, HasStrictTraits, Int, TraitError
from vf import monitor

RULE = ('alias: every class x every old name of its closest declaring class, read, set (or refused) against a twin driven through the new name; '
        'decorator: drawn class declarations; classes/special: old classes and traits against their replacements; config: drawn switches and values; '
        'caching: drawn sequences of modes over four kinds of objects, observed through source consumption and file contents; '
        'non-trivial = class x old name x operation; switch x value; kind x mode x stored x flag')
ASSUMPTIONS = ['the table of old names is the one of the unchanged tree: an old name that disappears is reported',
               'caching modes are observed with fresh objects per step; kept objects and failures are the subject of C08 and C09']

# declaring class: {old: (new, writable)}
TABLE = {
    'Generator': {'numchannels': ('num_channels', 1), 'numsamples': ('num_samples', 1)},
    'TimeOut': {'numchannels': ('num_channels', 0), 'numsamples': ('num_samples', 0)},
    'SpectraOut': {'numchannels': ('num_channels', 0), 'numsamples': ('num_samples', 0), 'numfreqs': ('num_freqs', 0)},
    'InOut': {'numchannels': ('num_channels', 0), 'numsamples': ('num_samples', 0)},
    'Calib': {'from_file': ('file', 1)},
    'BeamformerDamasPlus': {'max_iter': ('n_iter', 1)},
    'BeamformerCMF': {'max_iter': ('n_iter', 1)},
    'BeamformerSODIX': {'max_iter': ('n_iter', 1)},
    'BeamformerGIB': {'max_iter': ('n_iter', 1)},
    'BeamformerCleansc': {'n': ('n_iter', 1)},
    'RFFT': {'numfreqs': ('num_freqs', 0), 'numsamples': ('num_samples', 0)},
    'IRFFT': {'numsamples': ('num_samples', 0)},
    'CrossPowerSpectra': {'numchannels': ('num_channels', 0)},
    'Grid': {'gpos': ('pos', 1)},
    'RectGrid': {'gpos': ('pos', 0)},
    'ImportGrid': {'from_file': ('file', 1), 'gpos_file': ('pos', 1)},
    'LineGrid': {'gpos': ('pos', 0), 'numpoints': ('num_points', 1)},
    'MergeGrid': {'gpos': ('pos', 0)},
    'MicGeom': {'mpos_tot': ('pos_total', 1), 'mpos': ('pos', 0), 'from_file': ('file', 1)},
    'Average': {'naverage': ('num_per_average', 1), 'numsamples': ('num_samples', 0)},
    'SignalGenerator': {'numsamples': ('num_samples', 1)},
    'GenericSignalGenerator': {'rms': ('amplitude', 1)},
    'TimeSamples': {'name': ('file', 1)},
    'MaskedTimeSamples': {'numchannels_total': ('num_channels_total', 1), 'numsamples_total': ('num_samples_total', 1),
                          'numchannels': ('num_channels', 0), 'numsamples': ('num_samples', 0)},
    'PointSource': {'numchannels': ('num_channels', 0), 'numsamples': ('num_samples', 0)},
    'UncorrelatedNoiseSource': {'numchannels': ('num_channels', 0)},
    'SourceMixer': {'numchannels': ('num_channels', 0), 'numsamples': ('num_samples', 0)},
    'BaseSpectra': {'time_data': ('source', 1), 'numchannels': ('num_channels', 0)},
    'MaskedTimeOut': {'numchannels_total': ('num_channels_total', 1), 'numsamples_total': ('num_samples_total', 1)},
    'FilterBank': {'numbands': ('num_bands', 0)},
    'WriteWAV': {'name': ('file', 1)},
    'WriteH5': {'name': ('file', 1), 'numsamples_write': ('num_samples_write', 1), 'writeflag': ('write_flag', 1)},
}


def aliases(cls):
    """old name -> (new, writable) of the closest declaring class."""
    out = {}
    for c in cls.__mro__:
        for old, v in TABLE.get(c.__name__, {}).items():
            if old not in out:
                out[old] = v
    return out


EXTRA = ['WriteWAV', 'WriteH5', 'BeamformerSODIX']


def extra(name, data):
    ts = ac.TimeSamples(data=data.copy(), sample_freq=1000.0)
    if name == 'WriteWAV':
        return ac.WriteWAV(source=ts, channels=[0])
    if name == 'WriteH5':
        return ac.WriteH5(source=ts)
    return ac.BeamformerSODIX(n_iter=20)


CASES = [(n, o) for n in [*spec.NAMES, *EXTRA] for o in aliases(getattr(ac, spec.ALIAS.get(n, n)))]


class Deprecated:
    """Collects the warnings of a block."""

    def __enter__(self):
        self.c = warnings.catch_warnings(record=True)
        self.log = self.c.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        self.msgs = [str(w.message) for w in self.log if issubclass(w.category, DeprecationWarning)]
        return self.c.__exit__(*a)


def warned(ctx, d, old, new, mech):
    ctx.check(any(f"'{old}'" in m and f"'{new}'" in m for m in d.msgs), mech, lambda: f'warnings of {old}: {d.msgs}')


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if hasattr(a, 'digest') and hasattr(b, 'digest'):
        return a.digest == b.digest
    return a == b


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


COUNT = itertools.count()


def new_file(ctx, cls, obj):
    """Path of a fresh file the class can read."""
    p = Path(ctx.scratch) / f'f{next(COUNT)}'
    r = ctx.rng
    if cls in ('WriteWAV', 'WriteH5'):
        return str(p) + '.out'
    if cls == 'MicGeom' or cls == 'MicRing':
        (p.with_suffix('.xml')).write_text('<MicArray name="x">' + ''.join(
            f'<pos Name="P{i}" x="{r.uniform():.4f}" y="{r.uniform():.4f}" z="0"/>' for i in range(ctx.int(3, 6))) + '</MicArray>')
    elif cls == 'ImportGrid':
        (p.with_suffix('.xml')).write_text('<Grid name="x">' + ''.join(
            f'<pos subgrid="s{i % 2}" x="{r.uniform():.4f}" y="{r.uniform():.4f}" z="1"/>' for i in range(ctx.int(3, 6))) + '</Grid>')
    elif cls.startswith('Calib'):
        (p.with_suffix('.xml')).write_text('<Calib>' + ''.join(
            f'<pos Name="P{i}" factor="{r.uniform(0.5, 2):.4f}"/>' for i in range(obj.num_mics or 3)) + '</Calib>')
    else:
        with h5py.File(p.with_suffix('.h5'), 'w') as f:
            f['time_data'] = r.standard_normal((ctx.int(80, 120), 5)).astype('f4')
            f['time_data'].attrs['sample_freq'] = 2000.0
        return str(p.with_suffix('.h5'))
    return str(p.with_suffix('.xml'))


def drawn(ctx, name, node, obj, d, new):
    """(builder of a new value for the new trait, stateful) so that both objects get equal but separate values."""
    cls = spec.ALIAS.get(name, name)
    if new == 'file':
        v = new_file(ctx, cls if cls != 'Calib' else 'Calib', obj)
        return lambda memo: v
    if new == 'source':
        v = spec.make(ctx, 'TimeSamplesN', d)
        return lambda memo: spec.value(v, memo)
    if node is not None and new in spec.DRAW[name]:
        v, _ = spec.redraw(ctx, d, node, new)
        return lambda memo: spec.value(v, memo)
    if new == 'write_flag':
        return lambda memo: True
    if new.startswith('num_channels') or new.startswith('num_samples') or new in ('n_iter', 'num_samples_write'):
        v = ctx.int(1, 60)
        return lambda memo: v
    if new == 'pos':
        v = ctx.rng.uniform(-1, 1, (3, 4))
        return lambda memo: v.copy()
    return None


@monitor('alias', quick=2 * len(CASES), thorough=30 * len(CASES), floor=len(CASES))
def alias(ctx):
    config.global_caching = 'none'
    name, old = CASES[ctx.index % len(CASES)]
    cls = spec.ALIAS.get(name, name)
    new, rw = aliases(getattr(ac, cls))[old]
    d = spec.D(ctx)
    d.big = False
    ctx.note(cls=name, old=old, new=new)
    if name in EXTRA:
        data = ctx.rng.standard_normal((40, 2))
        node, a, b = None, extra(name, data), extra(name, data)
    else:
        node = spec.make(ctx, name, d)
        a, b = spec.build(node), spec.build(node)
    ctx.event()

    def read(how):
        with Deprecated() as w:
            try:
                got = getattr(a, old)
            except AttributeError as e:
                got = e
        ctx.check(not isinstance(got, AttributeError) or not hasattr(b, new), 'old-name-missing', lambda: f'{cls}.{old}: {got!r}')
        if isinstance(got, Exception):
            return False
        warned(ctx, w, old, new, 'no-read-warning')
        want = quiet(lambda: getattr(b, new))
        ctx.check(same(got, want), 'read-other-value', lambda: f'{how}: {cls}.{old} = {got!r}, {new} = {want!r}')
        ctx.sig(cls, old, how)
        return True

    default_time = cls == 'WriteH5' and new == 'file'  # the default file name carries the time
    if not default_time:
        read('read')
    if not rw:
        before = quiet(lambda: getattr(b, new))
        with Deprecated():
            try:
                setattr(a, old, before)
                err = None
            except TraitError as e:
                err = e
        ctx.check(err is not None, 'read-only-set', f'{cls}.{old} accepted a value')
        read('refused')
        return
    for k in range(ctx.int(1, 3)):
        mk = drawn(ctx, name, node, a, d, new)
        if mk is None:
            break
        va, vb = mk({}), mk({})
        e1 = e2 = None
        with Deprecated() as w:
            try:
                setattr(a, old, va)
            except Exception as e:  # noqa: BLE001
                e1 = e
        try:
            quiet(lambda: setattr(b, new, vb))
        except Exception as e:  # noqa: BLE001
            e2 = e
        ctx.check((e1 is None) == (e2 is None), 'set-differs', lambda: f'{cls}.{old} = {va!r}: {e1!r}; {new}: {e2!r}')
        if e1 is None:
            warned(ctx, w, old, new, 'no-set-warning')
        got, want = quiet(lambda: getattr(a, new)), quiet(lambda: getattr(b, new))
        ctx.check(same(got, want), 'set-other-value', lambda: f'{cls}.{old} = {va!r}: {new} is {got!r}, want {want!r}')
        if e1 is None and new not in ('pos_total', 'pos', 'file', 'source') and isinstance(vb, (int, float)):
            ctx.check(same(got, vb), 'set-not-stored', lambda: f'{cls}.{old} = {va!r} gives {got!r}')
        read('after-set')
        ctx.sig(cls, old, 'set', k)
    if hasattr(a, 'digest'):
        ctx.check(quiet(lambda: a.digest) == quiet(lambda: b.digest), 'identity-differs', lambda: f'{cls}: digests after {old} differ')
    if name in spec.FP and spec.FP[name] is not None and name not in spec.SLOW and new not in ('num_channels', 'num_channels_total'):
        def fp(o):
            try:
                return quiet(lambda: spec.FP[name](o))
            except Exception as e:  # noqa: BLE001
                return {'error': np.array(type(e).__name__)}
        fa, fb = fp(a), fp(b)
        ctx.check(fa.keys() == fb.keys(), 'results-differ', lambda: f'{cls} after {old}: {fa} vs {fb}')
        if 'error' in fa:
            ctx.check(str(fa) == str(fb), 'results-differ', lambda: f'{cls} after {old}: {fa} vs {fb}')
            return
        bad = spec.differs(fa, fb, 1e-9)
        ctx.check(not bad, 'results-differ', lambda: f'{cls} after {old}: {bad}')


@monitor('constructor', quick=100, thorough=1500, floor=20)
def constructor(ctx):
    """Old names as keyword arguments."""
    cands = [(n, o) for n, o in CASES if n in spec.DRAW and n not in spec.SLOW and aliases(getattr(ac, spec.ALIAS.get(n, n)))[o][1]
             and aliases(getattr(ac, spec.ALIAS.get(n, n)))[o][0] in spec.DRAW[n]]
    name, old = cands[ctx.index % len(cands)]
    cls = spec.ALIAS.get(name, name)
    new = aliases(getattr(ac, cls))[old][0]
    node = spec.make(ctx, name, spec.D(ctx))
    ctx.note(cls=name, old=old)
    want = spec.build(node)
    memo = {}
    kw = {k: spec.value(v, memo) for k, v in node.kw.items()}
    kw[old] = kw.pop(new)
    with Deprecated() as w:
        got = getattr(ac, cls)(**kw)
    ctx.event()
    warned(ctx, w, old, new, 'no-constructor-warning')
    ctx.check(same(getattr(got, new), getattr(want, new)), 'constructor-value', lambda: f'{cls}({old}=...)')
    if hasattr(got, 'digest'):
        ctx.check(quiet(lambda: got.digest) == quiet(lambda: want.digest), 'constructor-identity', f'{cls}({old}=...)')
    ctx.sig(cls, old)


@monitor('decorator', quick=150, thorough=3000, floor=12)
def decorator(ctx):
    ns = {f'new{i}': ctx.pick(Int(ctx.int(-5, 5)), Float(1.5)) for i in range(ctx.int(1, 4))}
    old2new = {f'old{i}': f'new{ctx.int(0, len(ns) - 1)}' for i in range(ctx.int(1, 4))}
    ro = ctx.pick(False, True, [o for o in old2new if ctx.flip()])
    rv = ctx.pick('', '25.10', {o: f'9{i}.01' for i, o in enumerate(old2new) if ctx.flip()})
    ctx.note(old2new=old2new, ro=ro, rv=rv)
    ctx.event()
    if ctx.flip(0.15):
        try:
            deprecated_alias({**old2new, 'x': 'missing'})(type('T', (HasStrictTraits,), dict(ns)))
            ctx.check(False, 'missing-accepted', 'alias of a missing trait')
        except ValueError:
            ctx.check(True, 'ok')
        ctx.sig('missing')
        return
    T = deprecated_alias(old2new, read_only=ro, removal_version=rv)(type('T', (HasStrictTraits,), dict(ns)))
    sub = ctx.flip()
    if sub:
        T = type('S', (T,), {})
    a, b = T(), T()
    for old, new in old2new.items():
        isro = old in ro if isinstance(ro, list) else ro
        ver = rv if isinstance(rv, str) else rv.get(old, '')
        with Deprecated() as w:
            v = getattr(a, old)
        warned(ctx, w, old, new, 'decorator-warning')
        ctx.check(all((ver in m) if ver else 'removed' not in m for m in w.msgs), 'decorator-version', lambda: f'{ver!r}: {w.msgs}')
        ctx.check(v == getattr(a, new), 'decorator-read', old)
        x = ctx.int(10, 99)
        with Deprecated() as w:
            try:
                setattr(a, old, x)
                err = None
            except TraitError as e:
                err = e
        ctx.check((err is not None) == bool(isro), 'decorator-read-only', lambda: f'{old}: read_only {ro}: {err!r}')
        if not isro:
            warned(ctx, w, old, new, 'decorator-set-warning')
            ctx.check(getattr(a, new) == x, 'decorator-set', old)
        else:
            ctx.check(getattr(a, new) == v, 'decorator-refused-value', old)
        ctx.sig('ro' if isro else 'rw', type(ro).__name__, 'ver' if ver else '', 'sub' if sub else '')
    ctx.check(all(getattr(b, n) == getattr(T(), n) for n in ns), 'decorator-shared', 'another object changed')


@monitor('classes', quick=100, thorough=2500, floor=6)
def classes(ctx):
    """Replaced classes do what their replacement does."""
    config.global_caching = 'none'
    config.cache_dir = str(ctx.scratch)
    n, ch, fs = ctx.int(1, 300), ctx.int(1, 4), 1000.0
    x = ctx.rng.standard_normal((n, ch))
    src = lambda: ac.TimeSamples(data=x.copy(), sample_freq=fs)  # noqa: E731
    which = ctx.pick('TimeAverage', 'TimeCache', 'FFTSpectra', 'MaskedTimeInOut', 'TimeInOut')
    ctx.note(which=which, n=n, ch=ch)
    kw, repl = {}, None
    if which == 'TimeAverage':
        kw, repl = dict(num_per_average=ctx.int(1, 9)), ac.Average
    elif which == 'TimeCache':
        config.global_caching = ctx.pick('none', 'individual', 'all')
        repl = ac.Cache
    elif which == 'FFTSpectra':
        kw, repl = dict(block_size=ctx.pick(2, 16, 64), window=ctx.pick('Hanning', 'Rectangular')), ac.RFFT
    elif which == 'MaskedTimeInOut':
        kw = dict(start=ctx.int(0, n // 2), invalid_channels=[0] if ch > 1 else [])
        repl = ac.MaskedTimeOut
    else:
        repl = ac.TimeOut
    cls = getattr(ac, which)
    if which == 'TimeInOut':
        cls = type('OldBlock', (cls,), {'result': _double})
        repl = type('NewBlock', (repl,), {'result': _double})
    with Deprecated() as w:
        a = cls(source=src(), **kw)
    b = repl(source=src(), **kw)
    ctx.event()
    ctx.check(any(which in m and 'deprecated' in m.lower() for m in w.msgs), 'class-warning', lambda: f'{which}: {w.msgs}')
    for t in ('num_channels', 'num_samples', 'sample_freq'):
        ctx.check(getattr(a, t) == getattr(b, t), 'class-trait', lambda: f'{which}.{t}: {getattr(a, t)} != {getattr(b, t)}')
    if which == 'FFTSpectra' or n < kw.get('num_per_average', 0):
        num = 1
    else:
        num = ctx.int(1, 50)
    ga, gb = zoo.collect(a.result(num)), zoo.collect(b.result(num))
    ctx.check(len(ga) == len(gb), 'class-blocks', lambda: f'{which}: {len(ga)} vs {len(gb)} blocks')
    for p, q in zip(ga, gb):
        ctx.equal(p, q, 'class-output', which)
    ctx.sig(which, config.global_caching)


def _double(self, num):
    for b in self.source.result(num):
        yield 2 * b


@monitor('special', quick=120, thorough=2500, floor=10)
def special(ctx):
    config.global_caching = 'none'
    config.cache_dir = str(ctx.scratch)
    which = ctx.pick('rpm', 'rpm', 'beamformer', 'beamformer', 'beamformer', 'calib', 'basename')
    ctx.event()
    if which == 'rpm':
        v = ctx.pick(0.0, ctx.uni(-3000, 3000), ctx.int(-90, 90))
        f = ac.RotatingFlow(rps=ctx.uni(-3, 3))
        with Deprecated() as w:
            r = f.rpm
        ctx.close(r, -60 * f.rps, 'rpm-read', rtol=1e-12)
        with Deprecated() as w2:
            f.rpm = v
        ctx.close(f.rps, -v / 60, 'rpm-set', rtol=1e-12)
        ctx.check(w.msgs and w2.msgs, 'rpm-warning', f'{w.msgs} {w2.msgs}')
        g = ac.RotatingFlow(rps=-v / 60)
        p = ctx.rng.uniform(-1, 1, 3)
        ctx.equal(f.v(p)[0], g.v(p)[0], 'rpm-flow')
        ctx.check(f.digest == g.digest, 'rpm-identity', '')
        ctx.sig('rpm', int(v > 0))
    elif which == 'beamformer':
        cls = getattr(ac, ctx.pick('BeamformerDamas', 'BeamformerDamasPlus', 'BeamformerOrth', 'BeamformerClean'))
        d = spec.D(ctx)
        node = spec.make(ctx, cls.__name__, d)
        want = spec.build(node)
        base = (ac.BeamformerEig if cls is ac.BeamformerOrth else ac.BeamformerBase)(freq_data=want.freq_data, steer=want.steer, r_diag=want.r_diag)
        own = {k: spec.value(v, {}) for k, v in node.kw.items() if k not in ('freq_data', 'steer', 'r_diag')}
        late = ctx.flip()
        with Deprecated() as w:
            if late:
                o = cls(**own)
                o.beamformer = base
            else:
                o = cls(beamformer=base, **own)
        ctx.note(cls=cls.__name__, late=late)
        ctx.check(any("'beamformer'" in m for m in w.msgs), 'beamformer-warning', lambda: str(w.msgs))

        def cmp(how):
            for t in ('freq_data', 'steer', 'r_diag'):
                ctx.check(getattr(o, t) is getattr(want, t) or getattr(o, t) == getattr(want, t), 'beamformer-trait', lambda: f'{how} {t}')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fr = want.freq_data.fftfreq()
                i = ctx.int(1, len(fr) - 1)
                ctx.close(o.synthetic(fr[i], 0), want.synthetic(fr[i], 0), 'beamformer-map', how, rtol=1e-7)
            ctx.sig(cls.__name__, how, late)

        cmp('set')
        if ctx.flip():
            base.r_diag = not base.r_diag
            want.r_diag = base.r_diag
            cmp('changed')
    elif which == 'calib':
        ch, n = ctx.int(1, 4), ctx.int(20, 80)
        x = ctx.rng.standard_normal((n, ch + 1))
        masked = ctx.flip()
        full = masked and ctx.flip()
        inv = [ctx.int(0, ch)] if masked else []
        good = [i for i in range(ch + 1) if i not in inv]
        c = ctx.rng.uniform(0.5, 2, ch + 1)
        cal = ac.Calib(data=c if full or not masked else c[good])
        kw = dict(data=x.copy(), sample_freq=1000.0, calib=cal)
        o = ac.MaskedTimeSamples(invalid_channels=inv, **kw) if masked else ac.TimeSamples(**kw)
        num = ctx.int(1, 40)
        with Deprecated() as w:
            got = zoo.full(o, num)
        ctx.check(any('calib' in m for m in w.msgs), 'calib-warning', lambda: str(w.msgs))
        ctx.close(got, (x * c)[:, good], 'calib-output', rtol=1e-12)
        b = ac.Calib(source=ac.TimeSamples(data=x[:, good].copy(), sample_freq=1000.0), data=c[good])
        ctx.close(got, zoo.full(b, num), 'calib-block', rtol=1e-12)
        ctx.sig('calib', masked, full)
    else:
        ts = ac.TimeSamples(data=np.ones((5, 2)), sample_freq=1000.0)
        cls = ctx.pick(ac.WriteWAV, ac.MaskedTimeOut, ac.PowerSpectra)
        o = cls(source=ts)
        with Deprecated() as w:
            o.basename  # noqa: B018
        ctx.check(cls is ac.PowerSpectra or any('basename' in m for m in w.msgs), 'basename-warning', lambda: f'{cls.__name__}: {w.msgs}')
        ctx.sig('basename', cls.__name__)


@monitor('config', quick=200, thorough=3000, floor=16)
def switches(ctx):
    import acoular.configuration as cm
    which = ctx.pick('defaults', 'invalid', 'valid', 'strict', 'cache_dir', 'cache_dir', 'default_dir', 'have', 'missing', 'backend', 'backend', 'td_dir')
    c = Config()
    d = Path(ctx.scratch)
    ctx.event()
    ctx.note(which=which)
    ctx.sig(which)
    valid = dict(global_caching=['individual', 'all', 'none', 'readonly', 'overwrite'], h5library=['pytables', 'tables', 'h5py'], use_traitsui=[True, False])
    if which == 'defaults':
        got = (c.global_caching, c.h5library, c.use_traitsui, c.td_dir)
        ctx.check(got == ('individual', 'pytables', False, os.curdir), 'defaults', lambda: str(got))
    elif which in ('invalid', 'valid'):
        for _ in range(4):
            t = ctx.pick(*valid)
            v = ctx.pick(*valid[t])
            setattr(c, t, v)
            ctx.check(getattr(c, t) == v, 'value-not-stored', f'{t} = {v!r}: {getattr(c, t)!r}')
            ctx.sig(t, v)
            if which == 'invalid':
                bad = ctx.pick('x', 'ALL', 3, None, 'h5', '', 1.5, 'None')
                try:
                    setattr(c, t, bad)
                    err = None
                except TraitError as e:
                    err = e
                ctx.check(err is not None, 'invalid-accepted', f'{t} = {bad!r}')
                ctx.check(getattr(c, t) == v, 'invalid-changed-value', f'{t} after {bad!r}: {getattr(c, t)!r}')
                ctx.sig(t, bad)
    elif which == 'strict':
        t = ctx.pick('cachedir', 'caching', 'h5lib', 'tddir', 'have_magic')
        try:
            setattr(c, t, 'none')
            ctx.check(False, 'unknown-accepted', t)
        except TraitError:
            pass
        t = ctx.pick('have_tables', 'have_h5py', 'have_pylops', 'have_matplotlib', 'have_sounddevice', 'have_traitsui')
        v = getattr(c, t)
        try:
            setattr(c, t, not v)
            ctx.check(False, 'have-settable', t)
        except TraitError:
            pass
        ctx.check(getattr(c, t) == v, 'have-changed', t)
    elif which == 'cache_dir':
        p = d / ctx.pick('new', 'with space', 'ünicode')
        exists = ctx.flip()
        if exists:
            p.mkdir()
            (p / 'keep').write_text('x')
        v = ctx.pick(p, str(p))
        c.cache_dir = v
        ctx.check(p.is_dir() and Path(c.cache_dir) == p, 'cache-dir-created', f'{v!r}: {c.cache_dir!r}')
        ctx.check(not exists or (p / 'keep').exists(), 'cache-dir-kept', '')
        try:
            c.cache_dir = str(d / 'no' / 'such' / 'parent')
            ctx.check((d / 'no' / 'such' / 'parent').is_dir(), 'cache-dir-missing-parent', 'accepted without a directory')
        except OSError:
            ctx.check(Path(c.cache_dir) == p, 'cache-dir-failed', lambda: f'{c.cache_dir!r} after a failure')
        ctx.sig('cache_dir', exists, type(v).__name__ == 'str')
    elif which == 'default_dir':
        cwd = os.getcwd()
        try:
            os.chdir(d)
            if ctx.flip():
                (d / 'cache').mkdir()
            v = c.cache_dir
            ctx.check((d / 'cache').is_dir() and Path(v).resolve() == (d / 'cache').resolve(), 'default-cache-dir', lambda: repr(v))
            ctx.check(c.cache_dir == v, 'default-cache-dir-stable', '')
        finally:
            os.chdir(cwd)
    elif which == 'have':
        for m, t in dict(tables='tables', h5py='h5py', matplotlib='matplotlib', pylops='pylops', sounddevice='sounddevice', traitsui='traitsui').items():
            ctx.check(getattr(c, 'have_' + t) == (importlib.util.find_spec(m) is not None), 'have', m)
    elif which == 'missing':
        real = importlib.util.find_spec
        gone = set(ctx.pick(('tables',), ('tables', 'h5py'), ('traitsui',), ('sounddevice', 'pylops')))
        importlib.util.find_spec = lambda n, *a: None if n in gone else real(n, *a)
        try:
            try:
                m = Config()
            except ImportError:
                m = None
            ctx.check((m is None) == (gone >= {'tables', 'h5py'}), 'missing-backends', lambda: f'{gone}: {m}')
            if m is not None:
                for g in gone:
                    ctx.check(getattr(m, 'have_' + g) is False, 'missing-have', g)
                ctx.check(m.h5library == ('h5py' if 'tables' in gone else 'pytables'), 'missing-library', lambda: f'{gone}: {m.h5library}')
                if 'traitsui' in gone:
                    try:
                        m.use_traitsui = True
                        ctx.check(False, 'missing-traitsui', 'accepted')
                    except ImportError:
                        ctx.check(m.use_traitsui is False, 'missing-traitsui-value', '')
        finally:
            importlib.util.find_spec = real
        ctx.sig('missing', *sorted(gone))
    elif which == 'backend':
        old = config.h5library, config.global_caching
        try:
            config.cache_dir = str(d)
            x = ctx.rng.standard_normal((50, 2))
            for k in range(3):
                lib = ctx.pick('pytables', 'tables', 'h5py')
                kind = ctx.pick('WriteH5', 'Cache')
                config.h5library = lib
                ts = ac.TimeSamples(data=x + k, sample_freq=1000.0)
                if kind == 'WriteH5':
                    f = d / f'o{k}.h5'
                    ac.WriteH5(source=ts, file=str(f), precision='float64').save()
                    got = zoo.full(ac.TimeSamples(file=str(f)), 16)
                else:
                    config.global_caching = 'all'
                    config.cache_dir = str(d / f'c{k}')
                    cb = ac.Cache(source=ts)
                    got = zoo.full(cb, 16)
                    config.global_caching = 'none'
                    del cb
                    gc.collect()
                    H5cache.close_unreferenced_cachefiles()
                    f, = (d / f'c{k}').glob('*_cache.h5')
                with h5py.File(f, 'r') as h:
                    tables = 'PYTABLES_FORMAT_VERSION' in h.attrs
                ctx.check(tables == (lib != 'h5py'), 'other-backend', f'{kind}: {lib} chosen, file written by {"pytables" if tables else "h5py"}')
                ctx.equal(got, x + k, 'backend-data', f'{kind} {lib}')
                ctx.sig('backend', lib, kind)
        finally:
            config.h5library, config.global_caching = old
    else:
        p = d / 'td'
        p.mkdir()
        old = config.td_dir
        try:
            config.td_dir = str(p)
            o = ac.WriteH5(source=ac.TimeSamples(data=np.ones((4, 1)), sample_freq=1000.0))
            t0 = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None, microsecond=0)
            o.save()
            fs = list(p.glob('*.h5'))
            ctx.check(len(fs) == 1 and Path(o.file) == fs[0], 'td-dir', lambda: f'{o.file}: {fs}')
            stamp = datetime.datetime.strptime(fs[0].name[:19], '%Y-%m-%d_%H-%M-%S')
            ctx.check(abs((stamp - t0).total_seconds()) < 120, 'td-dir-name', lambda: fs[0].name)
        finally:
            config.td_dir = old
    config.global_caching = 'none'


class Counted(ac.TimeSamples):
    """Counts how often its data are read."""

    reads = 0

    def result(self, num):
        Counted.reads += 1
        yield from super().result(num)


def state(d):
    return {p.name: hashlib.md5(p.read_bytes()).hexdigest() for p in sorted(d.iterdir())}


@monitor('caching', quick=60, thorough=1200, floor=50)
def caching(ctx):
    """One switch for all objects: what is consumed and what is written."""
    d = Path(ctx.scratch)
    config.cache_dir = str(d)
    config.h5library = ctx.pick('pytables', 'h5py')
    x = {k: ctx.rng.standard_normal((400, 4)) for k in ('block', 'ps', 'eva', 'eve', 'bf', 'psf')}
    m = ac.MicGeom(pos_total=ctx.rng.uniform(-0.5, 0.5, (3, 4)))
    g = ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.2, y_max=0.2, z=1, increment=0.2)
    kernel = {'n': 0}

    def read(kind, flag, line=4):
        src = Counted(data=x[kind].copy(), sample_freq=1000.0)
        if kind == 'block':
            return zoo.full(ac.Cache(source=src), 32)
        if kind in ('ps', 'eva', 'eve'):
            return np.array(getattr(ac.PowerSpectra(source=src, block_size=128, cached=flag), 'csm' if kind == 'ps' else kind)[:])
        st = ac.SteeringVector(grid=g, mics=m)
        if kind == 'bf':
            ps = ac.PowerSpectra(source=src, block_size=128, cached=False)
            return np.array(ac.BeamformerBase(freq_data=ps, steer=st, cached=flag).synthetic(ps.fftfreq()[line], 0))
        return np.array(ac.PointSpreadFunction(steer=st, freq=900.0).psf)

    import acoular.fbeamform as fb
    orig = fb.calcPointSpreadFunction

    def counted(*a, **k):
        kernel['n'] += 1
        return orig(*a, **k)

    fb.calcPointSpreadFunction = counted
    orig_freq = fb.beamformerFreq

    def counted_freq(*a, **k):
        kernel['n'] += 1
        return orig_freq(*a, **k)

    fb.beamformerFreq = counted_freq
    stored, hist = set(), []
    try:
        config.global_caching = 'none'
        want = {(k, n): read(k, True, n) for k in x for n in ((0, 4, 5) if k == 'bf' else (0,))}
        ctx.check(not list(d.iterdir()), 'none-writes', lambda: str(list(d.iterdir())))
        for _ in range(ctx.int(5, 10)):
            kind = ctx.pick('block', 'ps', 'eva', 'eve', 'bf', 'bf', 'psf')
            line = ctx.pick(0, 4, 5) if kind == 'bf' else 0  # lines of a map are stored one by one
            mode = ctx.pick('individual', 'individual', 'all', 'none', 'readonly', 'readonly', 'overwrite')
            flag = ctx.flip()
            hist.append((mode, kind, line, flag))
            ctx.note(hist=hist, lib=config.h5library)
            config.global_caching = mode
            gc.collect()
            H5cache.close_unreferenced_cachefiles()
            s0 = state(d)
            Counted.reads = kernel['n'] = 0
            got = read(kind, flag, line)
            gc.collect()
            H5cache.close_unreferenced_cachefiles()
            s1 = state(d)
            ctx.event()
            used = kernel['n'] if kind in ('psf', 'bf') else Counted.reads
            ctx.close(got, want[kind, line], 'mode-changes-values', f'{mode} {kind} {line}', rtol=1e-9)
            active = flag or kind in ('block', 'psf')
            writes = mode in ('all', 'overwrite') or (mode == 'individual' and active)
            if not writes:
                ctx.check(s0 == s1, mode + '-writes', lambda: f'{kind} cached={flag}: {set(s0.items()) ^ set(s1.items())}')
            reuse = (kind, line) in stored and (mode in ('all', 'readonly') or (mode == 'individual' and active))
            if reuse:
                ctx.check(used == 0, mode + '-not-read', lambda: f'{kind} cached={flag} was stored but computed again')
            else:
                ctx.check(used > 0, mode + '-not-computed', lambda: f'{kind} cached={flag} was not computed')
            if writes:
                if (kind, line) not in stored:
                    ctx.check(s0 != s1, mode + '-not-written', lambda: f'{kind} cached={flag}: no file was written')
                if mode == 'overwrite':  # renews everything of the object
                    stored -= {(kind, n) for n in (0, 4, 5)}
                stored.add((kind, line))
            ctx.sig(kind, line, mode, flag, reuse)
    finally:
        fb.calcPointSpreadFunction = orig
        fb.beamformerFreq = orig_freq
        config.global_caching = 'none'
        config.h5library = 'pytables'
