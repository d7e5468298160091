"""C39: benchmark files."""
import gc
import warnings

import acoular as ac
import h5py
import numpy as np
import zoo
from acoular import config
from vf import monitor

RULE = ('a case writes benchmark files with drawn sizes, precisions, attribute types and metadata, reads them through every reader with either backend, '
        'changes the file of kept readers, overwrites nothing and compares all delivered values with what was written; '
        'non-trivial = reader x precision x attribute type x backend x fresh/changed')
ASSUMPTIONS = ['files follow the layout of the published benchmark (written here with h5py)',
               'two files of one base name are told apart by matrices/frequencies/sign (CSM), by the first row of the data (time data, see the finding of C06) and by positions (microphones)']


def attr(ctx, v, kinds=('int32', 'int64', 'float64')):
    return np.dtype(ctx.pick(*kinds)).type(v)


def write(ctx, p, part, ch, **kw):
    """One benchmark file; returns what was written."""
    r = ctx.rng
    dt = ctx.pick('f4', 'f8')
    out = {'dt': dt}
    p.parent.mkdir(exist_ok=True, parents=True)
    with h5py.File(p, 'w') as f:
        if 'mic' in part or 'csm' in part or ctx.flip():
            g = f.create_group('MetaData')
            g.attrs['revisionNumberMajor'] = np.int32(2)
            a = g.create_group('ArrayAttributes')
            a.attrs['microphoneCount'] = np.int32(ch)
            out['mpos'] = r.uniform(-1, 1, (ch, 3)).astype(ctx.pick('f4', 'f8'))
            a['microphonePositionsM'] = out['mpos']
            t = g.create_group('TestAttributes')
            t.attrs['machNumber'] = out['mach'] = r.uniform(0, 0.5, 3)
            t.attrs['testDescription'] = 'what a test'
        if 'time' in part:
            out['x'] = r.standard_normal((ctx.int(1, 300), ch)).astype(dt)
            d = f.create_dataset('MicrophoneData/microphoneDataPa', data=out['x'])
            out['fs'] = ctx.pick(48000, 51200, 8000, ctx.int(1000, 200000))
            d.attrs['sampleRateHz'] = attr(ctx, out['fs'])
        if 'tacho' in part:
            out['tacho'] = r.standard_normal((ctx.int(1, 300), ctx.int(1, 2))).astype(dt)
            d = f.create_dataset('TachoData/tachoDataV', data=out['tacho'])
            out['tfs'] = ctx.int(1000, 200000)
            d.attrs['sampleRateHz'] = attr(ctx, out['tfs'])
        if 'csm' in part:
            nf = ctx.int(1, 9)
            y = r.standard_normal((nf, ch, 3 * ch)) + 1j * r.standard_normal((nf, ch, 3 * ch))
            C = np.einsum('fik,fjk->fij', y, y.conj())
            out['re'], out['im'] = C.real.astype(dt), C.imag.astype(dt)
            out['sign'] = ctx.pick(1, -1)
            g = f.create_group('CsmData')
            g.attrs['fftSign'] = attr(ctx, out['sign'], ('int32', 'int64', 'int8'))
            g['csmReal'], g['csmImaginary'] = out['re'].transpose(1, 2, 0), out['im'].transpose(1, 2, 0)
            out['freqs'] = np.sort(r.uniform(100, 10000, nf)).astype(ctx.pick('f4', 'f8'))
            g['binCenterFrequenciesHz'] = out['freqs'].reshape(*ctx.pick((nf,), (1, nf), (nf, 1)))
    return out


def edit(p, node, fn):
    with h5py.File(p, 'r+') as f:
        v = f[node][...]
        f[node][...] = fn(v)


def backend(ctx):
    config.global_caching = 'none'
    config.h5library = ctx.pick('pytables', 'h5py')
    return config.h5library


@monitor('time', quick=150, thorough=3000, floor=20)
def time(ctx):
    lib = backend(ctx)
    cls = ctx.pick('TimeSamplesAIAABenchmark', 'TimeSamplesAIAABenchmark', 'TriggerAIAABenchmark')
    tacho = cls.startswith('Trig')
    o = None
    for k in range(ctx.int(1, 3)):
        ch = ctx.int(1, 6)
        p = ctx.scratch / f'd{k}' / ctx.pick('a.h5', 'b.h5')
        w = write(ctx, p, ('tacho',) if tacho else ('time',), ch)
        x, fs = (w['tacho'], w['tfs']) if tacho else (w['x'], w['fs'])
        fresh = o is None or ctx.flip(0.3)
        dig0 = None if o is None else o.digest
        if fresh:
            o = getattr(ac.aiaa, cls)(file=str(p))
        else:
            o.file = str(p)
        ctx.note(cls=cls, lib=lib, k=k, n=len(x), dt=w['dt'], fs=fs, fresh=fresh)
        ctx.event()
        ctx.check((o.num_samples, o.num_channels) == x.shape, 'time-shape', lambda: f'{o.num_samples, o.num_channels} want {x.shape}')
        ctx.check(o.sample_freq == fs, 'time-frequency', lambda: f'{o.sample_freq} want {fs}')
        ctx.equal(o.data[:], x, 'time-data')
        got = zoo.full(o, ctx.pick(1, 7, 64, 1000))
        ctx.equal(got, x, 'time-stream')
        if 'mach' in w:
            ctx.check(o.metadata.get('revisionNumberMajor') == 2, 'metadata', lambda: str(o.metadata.keys()))
            ctx.equal(o.metadata['TestAttributes']['machNumber'], w['mach'], 'metadata-value')
            ctx.equal(o.metadata['ArrayAttributes']['microphonePositionsM'][:], w['mpos'], 'metadata-array')
        else:
            ctx.check(not o.metadata, 'metadata-invented', lambda: str(o.metadata))
        ctx.check(o.basename == p.stem, 'time-basename', lambda: o.basename)
        ctx.check(dig0 != o.digest, 'time-identity', f'{p.name} after another file')
        q = ac.TimeSamples(data=x.copy(), sample_freq=fs)
        if len(x) >= 128:
            C = [np.array(ac.PowerSpectra(source=s, block_size=128, cached=False).csm[:]) for s in (o, q)]
            ctx.close(C[0], C[1], 'time-spectra', rtol=1e-6)
        ctx.sig(cls, w['dt'], lib, fresh, 'meta' if 'mach' in w else 'plain')


@monitor('csm', quick=250, thorough=5000, floor=25)
def csm(ctx):
    lib = backend(ctx)
    seen, o = {}, None
    m = None
    for k in range(ctx.int(1, 4)):
        ch = zoo.chans(ctx, 1, 5)
        p = ctx.scratch / f'd{k}' / ctx.pick('a.h5', 'a.h5', 'b.h5')
        edited = ''
        if seen and ctx.flip():
            p0, w = ctx.pick(*[v for v in seen.values()])
            w = dict(w)
            p = ctx.scratch / f'e{k}' / p0.name
            p.parent.mkdir()
            p.write_bytes(p0.read_bytes())
            edited = ctx.pick('re', 'im', 'freqs', 'sign', 'none')
            i = tuple(ctx.int(0, s - 1) for s in w['re'].shape)
            one = np.zeros(w['re'].shape)
            one[i] = 1
            ch = w['re'].shape[1]
            if edited in ('re', 'im'):
                w[edited] = (w[edited] + one).astype(w[edited].dtype)
                edit(p, 'CsmData/' + dict(re='csmReal', im='csmImaginary')[edited], lambda v: w[edited].transpose(1, 2, 0))
            elif edited == 'freqs':
                w['freqs'] = (w['freqs'] * 1.001).astype(w['freqs'].dtype)
                edit(p, 'CsmData/binCenterFrequenciesHz', lambda v: w['freqs'].reshape(v.shape))
            elif edited == 'sign':
                w['sign'] = -w['sign']
                with h5py.File(p, 'r+') as f:
                    f['CsmData'].attrs['fftSign'] = np.int32(w['sign'])
        else:
            w = write(ctx, p, ('csm', 'mic'), ch)
        fresh = o is None or ctx.flip(0.3)
        old = ctx.flip(0.2)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if fresh:
                o = ac.aiaa.CsmAIAABenchmark(**{'name' if old else 'file': str(p)})
            else:
                setattr(o, 'name' if old else 'file', str(p))
        C = w['re'].astype(complex) + w['sign'] * 1j * w['im']
        ctx.note(lib=lib, k=k, ch=ch, nf=len(C), dt=w['dt'], sign=w['sign'], edited=edited, fresh=fresh)
        ctx.event()
        ctx.close(o.csm[:], C, 'csm-values', rtol=1e-12)
        ctx.equal(o.fftfreq(), w['freqs'].astype(float), 'csm-frequencies')
        ctx.check(o.num_channels == ch, 'csm-channels', lambda: f'{o.num_channels} want {ch}')
        ctx.check(list(o.indices) == list(range(len(C))), 'csm-indices', lambda: str(o.indices))
        ctx.check(o.basename == p.stem, 'csm-basename', lambda: o.basename)
        for name, (q, v) in seen.items():
            eq = q.name == p.name and all(np.array_equal(v[t], w[t]) for t in ('re', 'im', 'freqs', 'sign'))
            if not eq:
                ctx.check(name != o.digest, 'csm-identity', f'{q} and {p} ({edited}) share an identity')
        twin = ac.aiaa.CsmAIAABenchmark(file=str(p))
        ctx.check(twin.digest == o.digest, 'csm-identity-changed-file', 'kept and fresh reader differ')
        seen[o.digest] = (p, w)
        if np.allclose(C, C.conj().transpose(0, 2, 1), atol=1e-3 * abs(C).max()) and edited in ('', 'none', 'sign', 'freqs') and ctx.flip():
            ref = ac.PowerSpectraImport(csm=C, frequencies=w['freqs'].astype(float))
            ctx.close(np.sort(o.eva[:], -1), np.linalg.eigvalsh(C), 'csm-eigenvalues', rtol=3e-5)
            m = ac.MicGeom(pos_total=w['mpos'].T.astype(float))
            st = ac.SteeringVector(mics=m, grid=ac.RectGrid(x_min=-0.1, x_max=0.1, y_min=-0.1, y_max=0.1, z=1.5, increment=0.1))
            i = ctx.int(0, len(C) - 1)
            maps = [ac.BeamformerBase(freq_data=s, steer=st, cached=False, r_diag=False).synthetic(w['freqs'][i].astype(float), 0) for s in (o, ref)]
            ctx.close(maps[0], maps[1], 'csm-map', rtol=1e-5)
        ctx.sig(w['dt'], w['sign'], lib, fresh, edited)
    del o, twin
    gc.collect()


@monitor('mics', quick=120, thorough=2500, floor=10)
def mics(ctx):
    lib = backend(ctx)
    o = None
    for k in range(ctx.int(1, 3)):
        ch = ctx.int(1, 12)
        p = ctx.scratch / f'd{k}' / 'a.h5'
        w = write(ctx, p, ctx.pick(('mic',), ('mic', 'time'), ('mic', 'csm')), ch)
        fresh = o is None or ctx.flip(0.3)
        dig0 = None if o is None else o.digest
        if fresh:
            o = ac.aiaa.MicAIAABenchmark(file=str(p))
        else:
            o.file = str(p)
        ctx.event()
        ctx.note(lib=lib, ch=ch, k=k, fresh=fresh)
        ctx.equal(o.pos_total, w['mpos'].T, 'positions')
        ctx.check(o.num_mics == ch, 'mic-count', lambda: f'{o.num_mics} want {ch}')
        inv = sorted(set(ctx.rng.integers(0, ch, ctx.int(0, 2)).tolist()))
        if ch > len(inv):
            o.invalid_channels = inv
            good = [i for i in range(ch) if i not in inv]
            ctx.equal(o.pos, w['mpos'].T[:, good], 'valid-positions')
            o.invalid_channels = []
        ctx.check(dig0 != o.digest, 'mic-identity', 'after another file')
        # the file is free again after reading
        with h5py.File(p, 'r+') as f:
            f.attrs['x'] = 1
        ctx.sig(lib, fresh, w['mpos'].dtype, len(inv))


@monitor('whole', quick=80, thorough=1500, floor=4)
def whole(ctx):
    """One file with everything, read by all readers at once, unchanged on disk."""
    lib = backend(ctx)
    ch = ctx.int(2, 6)
    p = ctx.scratch / 'all.h5'
    w = write(ctx, p, ('time', 'tacho', 'csm', 'mic'), ch)
    raw = p.read_bytes()
    readers = ['TimeSamplesAIAABenchmark', 'TriggerAIAABenchmark', 'CsmAIAABenchmark', 'MicAIAABenchmark']
    objs = {readers[i]: getattr(ac.aiaa, readers[i])(file=str(p)) for i in ctx.rng.permutation(4)}
    ctx.event()
    ctx.note(lib=lib, ch=ch)
    ctx.equal(zoo.full(objs['TimeSamplesAIAABenchmark'], 33), w['x'], 'whole-time')
    ctx.equal(zoo.full(objs['TriggerAIAABenchmark'], 33), w['tacho'], 'whole-tacho')
    ctx.close(objs['CsmAIAABenchmark'].csm[:], w['re'].astype(complex) + w['sign'] * 1j * w['im'], 'whole-csm', rtol=1e-12)
    ctx.equal(objs['MicAIAABenchmark'].pos_total, w['mpos'].T, 'whole-mics')
    ctx.check(len({o.digest for o in objs.values()}) == 4, 'whole-identity', 'readers of one file share an identity')
    objs.clear()
    gc.collect()
    ctx.check(p.read_bytes() == raw, 'file-changed', 'reading changed the file')
    bad = ctx.scratch / 'bad.h5'
    with h5py.File(bad, 'w') as f:
        f['x'] = [1.0]
    cls = ctx.pick(*readers[:3])  # failures in change handlers of geometries are only logged (traits)
    ctx.note(cls=cls)
    try:
        o = getattr(ac.aiaa, cls)(file=str(bad))
        v = o.data[:] if hasattr(o, 'data') and not cls.startswith('Csm') else o.csm if cls.startswith('Csm') else o.pos_total
        ctx.check(False, 'foreign-file-accepted', lambda: f'{cls} read {np.shape(v)} from a file without such data')
    except Exception as e:  # noqa: BLE001
        from vf import Violation
        if isinstance(e, Violation):
            raise
    ctx.sig(lib, cls)
