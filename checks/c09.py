"""C09: the cache file manager always makes progress and shares handles."""
import gc
import sys
import threading
import time
from pathlib import Path

import acoular as ac
import numpy as np
from acoular import config
from acoular.h5cache import H5cache
from acoular.h5files import H5CacheFileBase
from traits.api import HasTraits, Instance
from vf import monitor

RULE = ('a case is a seeded history (or several threads running one each, with injected switches and slow opens) of requests by objects '
        'that take a file, move to another base name, get dropped, meet unopenable files, other cache directories and readonly mode; '
        'non-trivial = library x threads x kind of event x sharing situation')
ASSUMPTIONS = ['a request that does not return within the time limit counts as no progress',
               'an object uses a file while its h5f attribute refers to it']


class Holder(HasTraits):
    h5f = Instance(H5CacheFileBase, transient=True)


def is_open(f):
    return bool(f.isopen) if hasattr(f, 'isopen') else bool(f)


def same(path, want):
    return Path(path).resolve() == Path(want).resolve()


def expected(base):
    return Path(config.cache_dir) / (base + '_cache.h5')


def close_all():
    gc.collect()
    for f in list(H5cache.open_files.values()):
        try:
            f.close()
        except Exception:
            pass


def check_state(ctx, objs, what):
    """objs: list of (object, base name); all of them hold a file at this moment."""
    byname = {}
    for o, base in objs:
        ctx.check(o.h5f is not None and is_open(o.h5f), 'handle-closed', f'{what}: file of a live object ({base}) is closed')
        ctx.check(same(o.h5f.filename, base), 'wrong-file', f'{what}: {o.h5f.filename} for {base}')
        h = byname.setdefault(str(Path(base).resolve()), o.h5f)
        ctx.check(h is o.h5f, 'handle-not-shared', f'{what}: two handles for {base}')


def history(ctx, lib, nops):
    config.h5library = lib
    dirs = [ctx.scratch / 'a', ctx.scratch / 'b']
    config.cache_dir = str(dirs[0])
    names = ['x', 'y', 'z', 'x1']
    # things that cannot be opened
    (dirs[0] / 'bad_cache.h5').write_bytes(b'this is no hdf5 file' * 100)
    (dirs[0] / 'dir_cache.h5').mkdir()
    objs = []
    strong = []  # all handles ever seen: they stay reachable for the oracle only
    trace = []
    for _ in range(nops):
        ev = ctx.pick('new', 'new', 'move', 'move', 'again', 'drop', 'drop', 'fail', 'failmove', 'readonly-missing', 'readonly', 'cachedir')
        config.global_caching = 'all'
        trace.append(ev)
        ctx.note(lib=lib, trace=' '.join(trace))
        if ev == 'cachedir':
            config.cache_dir = str(ctx.pick(*dirs))
        elif ev == 'drop':
            if objs:
                k = ctx.int(0, len(objs) - 1)
                objs.pop(k)
        elif ev in ('fail', 'failmove'):
            bad = ctx.pick('bad', 'dir')
            if str(config.cache_dir) != str(dirs[0]):
                continue
            if ev == 'failmove' and objs:
                o, base = objs.pop(ctx.int(0, len(objs) - 1))
            else:
                o, base = Holder(), None
            try:
                H5cache.get_cache_file(o, bad)
            except Exception as e:
                ctx.check(type(e) not in (KeyError, AttributeError, RuntimeError, UnboundLocalError), f'failed-open:{type(e).__name__}', repr(e))
            else:
                ctx.check(False, 'failed-open-silent', f'{bad} opened as {o.h5f}')
            if base is not None and o.h5f is not None and is_open(o.h5f) and same(o.h5f.filename, base):
                objs.append((o, base))
            del o
        elif ev == 'readonly-missing':
            o = Holder()
            config.global_caching = 'readonly'
            H5cache.get_cache_file(o, 'missing')
            ctx.check(o.h5f is None and not expected('missing').exists(), 'readonly-creates', 'readonly request for a missing file')
            del o
        elif ev == 'readonly':
            ex = [n for n in names if expected(n).exists()]
            if not ex:
                continue
            n = ctx.pick(*ex)
            b = expected(n)
            o = Holder()
            config.global_caching = 'readonly'
            H5cache.get_cache_file(o, n)
            objs.append((o, b))
            check_state(ctx, [(o, b)], ev)
            del o
        else:
            n = ctx.pick(*names)
            if ev == 'new' or not objs:
                o = Holder()
            else:
                o, old = objs.pop(ctx.int(0, len(objs) - 1))
                if ev == 'again':
                    n = Path(old).name[:-len('_cache.h5')]
            H5cache.get_cache_file(o, n)
            b = expected(n)
            if o.h5f is None:
                # only a file that others keep open for reading may be refused
                ctx.check(any(same(x, b) and p.h5f.mode == 'r' for p, x in objs), 'no-file', f'{ev}: no file for {n}')
                ctx.sig(lib, 'in-use-readonly')
            else:
                ctx.check(o.h5f.mode != 'r', 'writer-got-readonly-handle', f'{ev} {n}: mode {o.h5f.mode}')
                objs.append((o, b))
            del o
            p = None
        for p, _ in objs:
            if not any(p.h5f is s for s in strong):
                strong.append(p.h5f)
        check_state(ctx, objs, ev)
        ctx.event()
        ctx.sig(lib, ev, len(objs), len({str(q) for _, q in objs}))
        p = q = x = None
        # unused handles are closed at the latest with the next request
        probe = Holder()
        config.global_caching = 'all'
        n = ctx.pick('probe', *names)
        H5cache.get_cache_file(probe, n)
        used = {id(o.h5f) for o, _ in objs} | {id(probe.h5f)}
        refused = probe.h5f is None
        if not refused and not any(probe.h5f is s for s in strong):
            strong.append(probe.h5f)
        # (only then are all handles looked through when the request had to assign a file)
        for s in strong:
            if id(s) not in used and not refused:
                ctx.check(not is_open(s), 'unused-handle-open', f'after {ev}: a file no object uses any more is still open')
        strong = [s for s in strong if is_open(s)]
        del probe
        s = None
    objs.clear()
    strong.clear()


def run(ctx, fn, *a):
    try:
        fn(ctx, *a)
    finally:
        close_all()
        config.h5library = 'pytables'
        config.global_caching = 'none'


@monitor('history', quick=120, thorough=4000, floor=500, timeout=60)
def hist(ctx):
    run(ctx, history, ctx.pick('pytables', 'h5py'), ctx.int(5, 40))


def threaded(ctx, lib, nthreads, nops, slow):
    config.h5library = lib
    config.global_caching = 'all'
    config.cache_dir = str(ctx.scratch / 'a')
    (Path(config.cache_dir) / 'bad_cache.h5').write_bytes(b'no hdf5' * 100)
    names = ['x', 'y', 'z']
    seeds = [ctx.int(0, 2**31) for _ in range(nthreads)]
    start = threading.Barrier(nthreads)
    errors = []
    trace = []
    done = []

    def work(tid):
        rng = np.random.default_rng(seeds[tid])
        objs = []
        try:
            start.wait()
            for op in range(nops):
                r = rng.random()
                if r < 0.1:
                    o = Holder()
                    try:
                        H5cache.get_cache_file(o, 'bad')
                        errors.append(('failed-open-silent', 'bad file opened'))
                    except Exception as e:
                        if type(e) in (KeyError, AttributeError, RuntimeError, UnboundLocalError):
                            errors.append((f'failed-open:{type(e).__name__}', repr(e)))
                    trace.append((tid, 'bad'))
                    continue
                if r < 0.3 and objs:
                    objs.pop(int(rng.integers(len(objs))))
                    continue
                n = names[int(rng.integers(len(names)))]
                o = objs.pop() if objs and r < 0.5 else Holder()
                H5cache.get_cache_file(o, n)
                trace.append((tid, n))
                f = o.h5f
                if f is None or not is_open(f):
                    errors.append(('handle-closed', f'thread {tid} op {op}: {n} closed right after the request'))
                elif Path(f.filename).name != f'{n}_cache.h5':
                    errors.append(('wrong-file', f'thread {tid}: {f.filename} for {n}'))
                objs.append(o)
                time.sleep(float(rng.random()) * slow)
                for p in objs:
                    if not is_open(p.h5f):
                        errors.append(('handle-closed', f'thread {tid} op {op}: a used handle was closed by another thread'))
                if errors:
                    return
        except BaseException as e:  # noqa: BLE001
            import traceback

            errors.append((f'exception:{type(e).__name__}', traceback.format_exc()[-1200:]))
        finally:
            done.append((tid, objs))

    ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nthreads)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for t in ths:
            t.start()
        for t in ths:
            t.join(40)
    finally:
        sys.setswitchinterval(old)
    ctx.note(lib=lib, threads=nthreads, ops=nops, requests=len(trace))
    ctx.check(not any(t.is_alive() for t in ths), 'no-progress', f'{sum(t.is_alive() for t in ths)} of {nthreads} threads still wait for a cache file')
    if errors:
        ctx.check(False, errors[0][0], errors[0][1])
    objs = [o for _, os_ in done for o in os_]
    check_state(ctx, [(o, o.h5f.filename) for o in objs], 'at the end')
    ctx.event(len(trace))
    # switches between threads in the request order: a coarse fingerprint of the interleaving
    sw = sum(a[0] != b[0] for a, b in zip(trace, trace[1:]))
    ctx.sig(lib, nthreads, 'interleaved' if sw > len(trace) / 4 else 'serial', hash(tuple(t for t, _ in trace)))
    del objs, done


@monitor('threads', quick=24, thorough=800, floor=50, timeout=100)
def thr(ctx):
    run(ctx, threaded, ctx.pick('pytables', 'h5py'), ctx.int(2, 6), ctx.int(5, 20), ctx.pick(0.0, 0.001, 0.004))


def real(ctx, lib):
    """Real objects whose base name changes during their life."""
    config.h5library = lib
    config.global_caching = 'all'
    config.cache_dir = str(ctx.scratch / 'a')
    src = []
    for k in range(2):
        f = ctx.scratch / f'rec{k}.h5'
        ac.WriteH5(source=ac.TimeSamples(data=ctx.rng.standard_normal((512, 2)), sample_freq=1000.0), file=str(f), precision='float64').save()
        src.append(ac.TimeSamples(file=str(f)))
    want = []
    config.global_caching = 'none'
    for s in src:
        want.append(np.array(ac.PowerSpectra(source=s, block_size=128).csm[:]))
    config.global_caching = 'all'
    ps = [ac.PowerSpectra(source=src[0], block_size=128) for _ in range(ctx.int(1, 3))]
    cc = ac.Cache(source=src[0])
    for _ in range(ctx.int(3, 8)):
        k = ctx.int(0, 1)
        p = ps[ctx.int(0, len(ps) - 1)]
        p.source = src[k]
        ctx.close(np.array(p.csm[:]), want[k], 'csm-after-move', rtol=1e-12)
        cc.source = src[ctx.int(0, 1)]
        ctx.equal(np.concatenate([np.array(b) for b in cc.result(10)]), cc.source.data[:], 'cache-after-move')
        for q in ps:
            if q.h5f is not None:
                ctx.check(is_open(q.h5f), 'handle-closed', 'file of a power spectra object closed')
                ctx.close(np.array(q.csm[:]), want[src.index(q.source)], 'csm-of-other-object', rtol=1e-12)
        ctx.event()
    ctx.note(lib=lib, objects=len(ps))
    ctx.sig(lib, len(ps))


@monitor('moving-objects', quick=16, thorough=300, floor=40, timeout=60)
def mov(ctx):
    run(ctx, real, ctx.pick('pytables', 'h5py'))
