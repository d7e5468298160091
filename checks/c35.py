"""C35: compiled kernels stay inside their arrays and give one well-defined result."""
import json
import os
import shutil
import signal
import subprocess
import sys
import sysconfig
from pathlib import Path

import kwork
import numpy as np
from vf import HarnessError, monitor

RULE = ('a case runs a batch of workloads (cross spectra, beamformers of every steering type, point spread functions, Gauss-Seidel, distances, convolution, static and moving sources, '
        'time domain beamformers, the kernels themselves; sizes from one microphone, point, frequency up) in this process and in a second process whose kernels are interpreted, '
        'bounds checked, run with other numbers of threads, or work on arrays between inaccessible pages with poisoned fresh memory; results must agree; '
        'non-trivial = variant x workload x accepted or rejected')
ASSUMPTIONS = ['floating point results may differ by reordering of sums (relative 1e-9, single precision 1e-3, interpreted 1e-4 of the largest value)',
               'guard pages see accesses outside of an allocation, bounds checks those outside of a dimension']
HERE = Path(__file__).resolve().parent.parent
NAMES = list(kwork.TASKS)


def build_fence(d):
    """compile the memory handler (private to the case)"""
    inc = sysconfig.get_path('include')
    if not (Path(inc) / 'Python.h').exists():
        inc = f'/usr/include/python{sys.version_info.major}.{sys.version_info.minor}'
    r = subprocess.run(['gcc', '-O2', '-w', '-shared', '-fPIC', f'-I{inc}', f'-I{np.get_include()}', str(HERE / 'lib' / 'fence.c'), '-o', str(d / 'fence.so')],
                       capture_output=True, text=True)
    if r.returncode:
        raise HarnessError(f'fence: {r.stderr[:300]}')


def tol(v, kind=''):
    if v.dtype in (np.float32, np.complex64):
        return 1e-3
    return 1e-4 if kind == 'interpreted' else 1e-9  # some kernels compute phases in single precision


def variant(ctx, kind, n, env=None, NAMES=NAMES):
    tasks = [(NAMES[(ctx.index * n + j) % len(NAMES)], ctx.int(0, 10**6)) for j in range(n)]
    wd = ctx.scratch
    cfg = dict(variant=kind, seed=ctx.seed, tasks=tasks, fence_dir=str(wd))
    if kind.startswith('fence'):
        build_fence(wd)
    (wd / 'cfg.json').write_text(json.dumps(cfg))
    e = dict(os.environ, TMPDIR=str(wd))
    nc = wd / 'nc'
    if kind == 'bounds':
        nc.mkdir()
    else:
        shutil.copytree(os.environ['NUMBA_CACHE_DIR'], nc)
    e['NUMBA_CACHE_DIR'] = str(nc)
    e.update(env or {})
    p = subprocess.run([sys.executable, str(HERE / 'lib' / 'kvariant.py'), str(wd / 'cfg.json')], cwd=wd, env=e, capture_output=True, text=True)
    cur = (wd / 'current').read_text() if (wd / 'current').exists() else 'import'
    ctx.note(variant=kind, last=cur)
    if p.returncode < 0:
        if p.returncode == -signal.SIGKILL:
            raise HarnessError('killed')
        ctx.check(False, f'{kind}-crash:{cur.split("#")[0]}', f'signal {-p.returncode} in {cur}\n{p.stderr[:1500]}')
    if p.returncode:
        raise HarnessError(f'{kind} {cur}: {p.stderr[-600:]}')
    if (wd / 'overwritten').exists():
        ctx.check(False, f'{kind}-overwritten:{cur.split("#")[0]}', (wd / 'overwritten').read_text())
    got = np.load(wd / 'out.npz')
    stats = json.loads((wd / 'stats.json').read_text())
    for j, (name, i) in enumerate(tasks):
        want = kwork.run_task(name, ctx.seed, i)
        keys = [k.split('/', 1)[1] for k in got.files if k.startswith(f'{j}/')]
        ctx.sig(kind, name, 'rejected' in want)
        ctx.check(set(keys) == set(want), f'{kind}-outcome:{name}', f'#{i}: {sorted(keys)} {sorted(want)} {got[f"{j}/rejected"] if "rejected" in keys else ""}')
        floor = float(want.pop('_scale', 0))
        for k, w in want.items():
            v = got[f'{j}/{k}']
            if k == 'rejected':
                ctx.check(str(v) == str(w), f'{kind}-error:{name}', f'#{i}: {v} {w}')
                continue
            ctx.check(v.shape == w.shape and v.dtype == w.dtype, f'{kind}-shape:{name}', f'#{i} {k}: {v.shape}{v.dtype} {w.shape}{w.dtype}')
            if not w.size:
                continue
            bad = ~np.isfinite(w) | ~np.isfinite(v)
            ctx.check(np.array_equal(v[bad], w[bad], equal_nan=True), f'{kind}-finite:{name}', f'#{i} {k}')
            sc = np.abs(w[~bad]).max(initial=0)
            d = np.abs(v[~bad] - w[~bad]).max(initial=0)
            ctx.check(d <= tol(w, kind) * max(sc, floor), f'{kind}-result:{name}', lambda: f'#{i} {k}: {d} of {sc}')
            ctx.event(w.size)
    return stats


@monitor('interpreted', quick=8, thorough=60, floor=4, timeout=600)
def interpreted(ctx):
    variant(ctx, 'interpreted', 45, dict(NUMBA_DISABLE_JIT='1'))


@monitor('threads', quick=4, thorough=30, floor=2, timeout=600)
def threads(ctx):
    s = variant(ctx, 'threads', 60, dict(NUMBA_NUM_THREADS='8'))
    ctx.check(s and s[0] >= 1, 'threads')


@monitor('threads-large', quick=2, thorough=20, floor=1, timeout=600)
def threads_large(ctx):
    """enough work per kernel that threads run side by side"""
    s = variant(ctx, 'threads', 24, dict(NUMBA_NUM_THREADS='8'), list(kwork.LARGE))
    ctx.check(s and s[0] >= 1, 'threads')


@monitor('single-thread', quick=4, thorough=24, floor=2, timeout=600)
def single(ctx):
    variant(ctx, 'compiled', 60, dict(NUMBA_NUM_THREADS='1'))


@monitor('fence-end', quick=4, thorough=30, floor=2, timeout=600)
def fence_end(ctx):
    s = variant(ctx, 'fence-end', 45)
    if not s or s[0] < 1000 or s[1] > s[0] / 10:
        raise HarnessError(f'memory not guarded {s}')
    ctx.event(s[0])


@monitor('fence-start', quick=4, thorough=30, floor=2, timeout=600)
def fence_start(ctx):
    s = variant(ctx, 'fence-start', 45)
    if not s or s[0] < 1000 or s[1] > s[0] / 10:
        raise HarnessError(f'memory not guarded {s}')
    ctx.event(s[0])


@monitor('bounds', quick=2, thorough=8, floor=1, timeout=800)
def bounds(ctx):
    variant(ctx, 'bounds', 120, dict(NUMBA_BOUNDSCHECK='1', NUMBA_NUM_THREADS='2'))


@monitor('repeat', quick=30, thorough=600, floor=10)
def repeat(ctx):
    """the same workload twice in one process, with other work in between"""
    name, i = ctx.pick(*NAMES), ctx.int(0, 10**6)
    a = kwork.run_task(name, ctx.seed, i)
    kwork.run_task(ctx.pick(*NAMES), ctx.seed, ctx.int(0, 10**6))
    b = kwork.run_task(name, ctx.seed, i)
    ctx.check(set(a) == set(b), 'repeat-outcome', name)
    for k in a:
        if a[k].dtype.kind in 'US':
            ctx.check(a[k] == b[k], 'repeat-error', name)
        else:
            sc = np.abs(a[k][np.isfinite(a[k])]).max(initial=0)
            ctx.check(a[k].shape == b[k].shape and np.allclose(a[k], b[k], rtol=0, atol=tol(a[k]) * 1e-3 * sc, equal_nan=True), f'repeat-result:{name}', f'#{i} {k}')
    ctx.sig('repeat', name)
    ctx.event(len(a))


