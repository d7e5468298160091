"""C05: the result cache block is transparent."""
import gc
import hashlib
import os
import subprocess
import sys
import textwrap

import acoular as ac
import h5py
import numpy as np
import zoo
from acoular import config
from acoular.h5cache import H5cache
from vf import HarnessError, monitor

RULE = ('a case is one random history of runs over one cache directory: each run draws caching mode, configuration (2-3 that share the '
        'base name), block size, object (kept or new), how it ends (complete, abandoned after k blocks, source fails at block k) and '
        'sometimes another process; after each run blocks, values and dtype are compared with the uncached source and files with their '
        'state before; non-trivial = source kind x library x mode x outcome x what was stored before')
ASSUMPTIONS = ['the reference is the source itself with the same block size, compared bit for bit (behind processing blocks to 1e-11 of the block maximum: stored rows may stem from another block size)',
               'one run at a time per cache file (the package documents no concurrent writers)']

PLAN = {'fail': None, 'n': 0}
_orig = {}


class Boom(RuntimeError):
    pass


def _patched(cls):
    orig = cls.result

    def result(self, num):
        for k, b in enumerate(orig(self, num)):
            PLAN['n'] += 1
            if PLAN['fail'] is not None and k >= PLAN['fail']:
                raise Boom('injected')
            yield b

    cls.result = result


_patched(ac.TimeSamples)
_patched(ac.MaskedTimeSamples)


class Conf:
    """One source configuration as plain data, buildable again in any process."""

    def __init__(self, **kw):
        self.kw = kw

    def build(self):
        return build(**self.kw)


def build(file=None, data=None, fs=1000.0, start=0, stop=None, invalid=(), block='none', par=0):
    if file:
        s = ac.MaskedTimeSamples(file=str(file), start=start, stop=stop, invalid_channels=list(invalid))
    else:
        s = ac.TimeSamples(data=data, sample_freq=fs)
    if block == 'none':
        return s
    if block == 'avg':
        return ac.Average(source=s, num_per_average=par)
    if block == 'power':
        return ac.TimePower(source=s)
    if block == 'rfft':
        return ac.RFFT(source=s, block_size=(8, 16)[par % 2])
    if block == 'rfft32':
        return ac.RFFT(source=s, block_size=(8, 16)[par % 2], precision='complex64')
    if block == 'octave':
        return ac.FiltOctave(source=s, band=(60.0, 90.0)[par % 2])
    if block == 'cum':
        return ac.TimeCumAverage(source=s)
    raise HarnessError(block)


def close_all():
    gc.collect()
    for f in list(H5cache.open_files.values()):
        try:
            f.close()
        except Exception:
            pass
    gc.collect()


def files(d):
    return {p.name: hashlib.md5(p.read_bytes()).hexdigest() for p in sorted(d.rglob('*')) if p.is_file()}


def layout(blocks):
    return [b.shape for b in blocks]


CHILD = textwrap.dedent('''
    import sys, pickle, numpy as np
    sys.path[:0] = %r
    import acoular as ac, c05
    job = pickle.load(open(sys.argv[1], 'rb'))
    ac.config.cache_dir = job['cache']; ac.config.h5library = job['lib']; ac.config.global_caching = job['mode']
    c05.PLAN['fail'] = job['fail']
    out = []; err = ''
    try:
        for k, b in enumerate(ac.Cache(source=c05.Conf(**job['kw']).build()).result(job['num'])):
            out.append(np.array(b))
            if job['abandon'] is not None and k + 1 >= job['abandon']:
                break
    except c05.Boom:
        err = 'boom'
    pickle.dump((out, err), open(sys.argv[2], 'wb'))
    if job['kill']:
        import os; os._exit(9)
''')


def in_child(ctx, job):
    import pickle

    d = ctx.scratch
    (d / 'job').write_bytes(pickle.dumps(job))
    (d / 'child.py').write_text(CHILD % ([p for p in sys.path if p],))
    p = subprocess.run([sys.executable, str(d / 'child.py'), str(d / 'job'), str(d / 'res')], capture_output=True, text=True, timeout=100)
    if not (d / 'res').exists():
        ctx.check(False, f'process-failed:{"".join(p.stderr.strip().splitlines()[-1:])[:60]}', p.stderr[-1500:])
    r = pickle.loads((d / 'res').read_bytes())
    os.unlink(d / 'res')
    return r


def history(ctx, lib, procs, nops):
    cache = ctx.scratch / 'cache'
    config.cache_dir = str(cache)
    config.h5library = lib
    filebased = ctx.flip(0.4)
    n, ch = ctx.int(20, 90), ctx.int(1, 3)
    dt = ctx.pick('float64', 'float64', 'float32', 'int64', 'int16') if not filebased else 'float64'
    block = ctx.pick('none', 'avg', 'power', 'rfft', 'rfft32', 'octave', 'cum')
    if dt.startswith('int') and block not in ('none', 'power'):
        block = 'none'
    if ctx.flip(0.1) and not filebased:
        n, block = 3, 'avg'  # may deliver no block at all
    confs = []
    if filebased:
        config.global_caching = 'none'
        w = ctx.scratch / 'rec.h5'
        ac.WriteH5(source=ac.TimeSamples(data=ctx.rng.standard_normal((n, ch + 1)), sample_freq=1000.0), file=str(w),
                   precision='float64').save()
        for k in range(2):
            confs.append(Conf(file=str(w), start=ctx.int(0, 5), stop=n - ctx.int(0, 5), invalid=ctx.pick((), (0,), (ch,)), block=block, par=ctx.int(2, 9)))
    else:
        base = zoo.data(ctx, n, ch) * ctx.pick(1, 1, 100)
        for k in range(2):
            d = base.copy()
            if k:
                d[ctx.int(0, n - 1), ctx.int(0, ch - 1)] += ctx.pick(1, 100)
            d = np.clip(d, -3e4, 3e4).astype(dt) if dt.startswith('int') else d.astype(dt)
            confs.append(Conf(data=d, fs=1000.0, block=block, par=ctx.int(2, 9)))
    confs.append(Conf(**{**confs[0].kw, 'par': confs[0].kw['par'] + 1}))
    state = {}  # identity -> 'complete' / 'partial'
    kept = {}
    trace = []
    for op in range(nops):
        ci = ctx.int(0, 2) if ctx.flip(0.5) else 0
        c = confs[ci]
        dg = ac.Cache(source=c.build()).digest
        mode = ctx.pick('individual', 'all', 'all', 'none', 'readonly', 'readonly', 'overwrite')
        num = ctx.pick(1, 4, 7, 16, 33, 200) if ctx.flip(0.7) else ctx.int(1, 60)
        # reference: the plain source
        PLAN['fail'] = None
        config.global_caching = 'none'
        want = [np.array(b) for b in c.build().result(num)]
        fate = ctx.pick('full', 'full', 'full', 'abandon', 'fail')
        abandon = ctx.int(1, max(1, len(want))) if fate == 'abandon' else None
        fail = None
        if fate == 'fail':
            fail = ctx.int(0, 6) if ctx.flip(0.6) else 0
        other = procs and ctx.flip(0.35)
        before = None
        if mode in ('none', 'readonly'):
            if other or ctx.flip(0.7):
                kept.clear()
            close_all()
            before = files(cache) if cache.exists() else {}
        sig = (block, lib, mode, fate, state.get(ci, 'nothing'), 'proc' if other else 'obj')
        trace.append(f'{ci}:{mode}:{num}:{fate}{abandon or ""}{fail if fail is not None else ""}:{"p" if other else "o"}')
        ctx.note(lib=lib, block=block, dtype=dt, file=filebased, n=n, ch=ch, trace=' '.join(trace))
        config.global_caching = mode
        got, err = [], ''
        PLAN['n'] = 0
        if other:
            kept.clear()
            close_all()
            got, err = in_child(ctx, dict(cache=str(cache), lib=lib, mode=mode, fail=fail, kw=c.kw, num=num, abandon=abandon, kill=ctx.flip(0.5)))
        else:
            obj = kept.get(ci) if ctx.flip(0.5) else None
            if obj is None:
                obj = ac.Cache(source=c.build())
            if ctx.flip(0.6):
                kept[ci] = obj
            PLAN['fail'] = fail
            it = obj.result(num)
            try:
                for k, b in enumerate(it):
                    got.append(np.array(b))
                    if abandon is not None and k + 1 >= abandon:
                        break
            except Boom:
                err = 'boom'
            finally:
                PLAN['fail'] = None
            if abandon is not None and ctx.flip(0.8):
                it.close()
            del it
        ctx.event(len(got))
        served = state.get(dg) == 'complete' and mode in ('individual', 'all', 'readonly')
        # the source itself fails when it would pull block number `fail` of its own reading
        if err:
            ctx.check(fail is not None, 'spurious-error', 'error without injected fault')
            ctx.check(not served, 'stored-result-not-found', 'a complete stored result exists, but the source was read')
        if served and not other:
            ctx.check(PLAN['n'] == 0, 'stored-result-not-found', f'a complete stored result exists, but {PLAN["n"]} source blocks were read')
        if fate == 'full' or (fate == 'fail' and not err):
            if fate == 'fail' and not served and not other:
                pass
            ctx.check(len(got) == len(want), f'block-count@{mode}', f'{layout(got)} want {layout(want)}')
        if abandon is not None:
            ctx.check(len(got) == min(abandon, len(want)), f'block-count@{mode}', f'{layout(got)} want first {abandon} of {layout(want)}')
        for k, (g, w_) in enumerate(zip(got, want)):
            ctx.check(g.shape == w_.shape, f'block-layout@{mode}', f'block {k}: {layout(got)} want {layout(want)}')
            ctx.check(g.dtype == w_.dtype, f'dtype@{mode}', f'block {k}: {g.dtype} want {w_.dtype}')
            what = f'block {k} of {len(want)} num={num} after {state.get(dg)}'
            if block == 'none':
                ctx.equal(g, w_, f'values@{mode}', what)
            else:  # the stored rows may come from a run with another block size
                ctx.close(g, w_, f'values@{mode}', what, rtol=1e-5 if block == 'rfft32' or dt == 'float32' else 1e-11, atol=1e-300)
        if mode not in ('none', 'readonly') and want:
            done = not err and (abandon is None)
            if mode == 'overwrite':
                # a failure before the first block was stored leaves nothing stored
                state[dg] = 'complete' if done else 'partial'
            elif not served:
                state[dg] = 'complete' if done else 'partial'
        if before is not None:
            close_all()
            after = files(cache) if cache.exists() else {}
            ctx.check(set(after) == set(before), f'files-created@{mode}', f'{sorted(set(after) ^ set(before))}')
            ctx.check(after == before, f'files-written@{mode}', 'content of a cache file changed')
            kept.clear()
        ctx.sig(*sig)
        # overwrite renews what is stored: spoil the stored values first, some of the time
        if state.get(dg) == 'complete' and ctx.flip(0.3):
            kept.clear()
            close_all()
            spoil(ctx, cache, c)
            state = {dg: "complete"}
            config.global_caching = 'overwrite'
            got = [np.array(b) for b in ac.Cache(source=c.build()).result(num)]
            ctx.close(np.concatenate(got), np.concatenate(want), 'overwrite-delivers-old', 'overwrite mode', rtol=1e-4)
            gc.collect()
            config.global_caching = 'all'
            got = [np.array(b) for b in ac.Cache(source=c.build()).result(num)]
            ctx.close(np.concatenate(got), np.concatenate(want), 'overwrite-not-renewed', 'after overwrite', rtol=1e-4)
            ctx.sig(block, lib, 'spoil')
    kept.clear()
    close_all()


def spoil(ctx, cache, c):
    """Change the stored values of all complete nodes (as an older, wrong run would have left them)."""
    for p in cache.glob('*.h5'):
        with h5py.File(p, 'a') as f:
            for k in f:
                d = f[k]
                if d.shape[0]:
                    d[0, 0] = d[0, 0] + 7
    config.global_caching = 'overwrite'
    # only the configuration under test is renewed here; drop the others so that they are not found spoiled
    dig = ac.Cache(source=c.build()).digest
    for p in cache.glob('*.h5'):
        with h5py.File(p, 'a') as f:
            for k in list(f):
                if not k.endswith(dig):
                    del f[k]


def _run(ctx, lib, procs, nops):
    try:
        history(ctx, lib, procs, nops)
    finally:
        PLAN['fail'] = None
        close_all()
        config.h5library = 'pytables'
        config.global_caching = 'none'


@monitor('history-pytables', quick=80, thorough=3000, floor=100, timeout=200)
def h_tables(ctx):
    _run(ctx, 'pytables', False, ctx.int(4, 12))


@monitor('history-h5py', quick=80, thorough=3000, floor=100, timeout=200)
def h_h5py(ctx):
    _run(ctx, 'h5py', False, ctx.int(4, 12))


@monitor('processes', quick=6, thorough=120, floor=20, timeout=400)
def h_proc(ctx):
    _run(ctx, ctx.pick('pytables', 'h5py'), True, ctx.int(4, 8))
