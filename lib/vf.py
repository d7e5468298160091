"""Monitor framework (runs inside the shard workers, under acoular's interpreter)."""
import gc
import importlib
import json
import os
import shutil
import signal
import sys
import time
import traceback
import warnings
import zlib
from pathlib import Path

REPO = os.environ.get('VERIF_REPO', '/repo')


class HarnessError(Exception):
    """The harness itself misbehaved (never a verdict about acoular)."""


class CaseTimeout(Exception):
    pass


class Violation(Exception):
    def __init__(self, mech, msg):
        super().__init__(f'{mech}: {msg}')
        self.mech, self.msg = mech, msg


class Skip(Exception):
    """The generated case is outside the property's domain."""


MONITORS = []


def monitor(name, quick, thorough=None, floor=1, timeout=120, heavy=1):
    """Register fn(ctx): one generated execution plus its oracle.  quick/thorough: number of cases."""

    def deco(fn):
        MONITORS.append(dict(name=name, fn=fn, quick=quick, thorough=thorough or quick * 12, floor=floor, timeout=timeout))
        return fn

    return deco


class Ctx:
    def __init__(self, prop, mon, seed, index, tier, scratch):
        import numpy as np

        self.np = np
        self.mon, self.index, self.tier, self.seed = mon, index, tier, seed
        self.rng = np.random.default_rng([seed, zlib.crc32(f'{prop}/{mon}'.encode()), index])
        self.checks = 0
        self.events = 0
        self.sigs = set()
        self.desc = {}
        self.violations = []
        self._scratch_root = scratch
        self._scratch = None

    # --- randomness helpers
    def pick(self, *opts):
        return opts[int(self.rng.integers(len(opts)))]

    def int(self, lo, hi):
        """inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    def uni(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = self._scratch_root / f'c-{self.mon}-{self.index}'
            self._scratch.mkdir(parents=True, exist_ok=True)
        return self._scratch

    # --- verdicts
    def sig(self, *parts):
        """Name what makes this case distinct; counted once over the whole run."""
        self.sigs.add(self.mon + '|' + '|'.join(str(p) for p in parts))

    def note(self, **kw):
        kw = {k: (v.item() if isinstance(v, self.np.generic) else v) for k, v in kw.items()}
        self.desc.update({k: (v if isinstance(v, (int, float, str, bool, list, dict, type(None))) else str(v)) for k, v in kw.items()})

    def event(self, n=1):
        self.events += int(n)

    def check(self, cond, mech, msg=''):
        self.checks += 1
        if not cond:
            m = msg() if callable(msg) else msg
            self.violations.append((mech, f'{m}\ncase: {self.desc}'))
            raise Violation(mech, m)

    def soft(self, cond, mech, msg=''):
        """Like check but the case continues (used for known-finding candidates)."""
        self.checks += 1
        if not cond:
            m = msg() if callable(msg) else msg
            self.violations.append((mech, f'{m}\ncase: {self.desc}'))
        return bool(cond)

    def equal(self, got, want, mech, what=''):
        """Bit-for-bit equality of arrays (NaN equal NaN)."""
        np = self.np
        got, want = np.asarray(got), np.asarray(want)
        self.check(got.shape == want.shape, mech, lambda: f'{what} shape {got.shape} != {want.shape}')
        ok = np.array_equal(got, want, equal_nan=got.dtype.kind in 'fc' and want.dtype.kind in 'fc')
        self.check(ok, mech, lambda: f'{what} differs: {_diff(got, want)}')

    def close(self, got, want, mech, what='', rtol=1e-9, atol=None, scale=None):
        """|got-want| <= rtol*max|want| (+atol) element-wise; NaN/inf anywhere fails."""
        np = self.np
        got, want = np.asarray(got), np.asarray(want)
        self.check(got.shape == want.shape, mech, lambda: f'{what} shape {got.shape} != {want.shape}')
        if got.size == 0:
            return
        s = float(np.max(np.abs(want))) if scale is None else scale
        tol = rtol * s + (atol or 0.0)
        d = np.abs(got - want)
        ok = bool(np.all(np.isfinite(got)) and np.all(d <= tol))
        self.check(ok, mech, lambda: f'{what} differs: {_diff(got, want)} (tol {tol:.3g})')


def _diff(got, want):
    import numpy as np

    if got.shape != want.shape:
        return f'{got.shape} vs {want.shape}'
    with np.errstate(all='ignore'):
        try:
            d = np.abs(got.astype(complex) - want.astype(complex))
            d = np.where(np.isnan(d), np.inf, d)
            k = np.unravel_index(int(np.argmax(d)), d.shape) if d.size else ()
            return f'at {tuple(int(x) for x in k)} got {got[k]!r} want {want[k]!r}; {int((d > 0).sum())}/{d.size} differ, max {d.max():.3g}'
        except Exception:
            return f'{got!r} vs {want!r}'


def _where(tb):
    """Innermost acoular frame of a traceback: file:function."""
    out = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + '/acoular') or '/acoular/' in f.filename and 'verif' not in f.filename:
            out = f'{os.path.basename(f.filename)}:{f.name}'
    return out


def _alarm(*_):
    raise CaseTimeout('case exceeded its time limit')


def run_case(m, prop, seed, i, tier, scratch):
    ctx = Ctx(prop, m['name'], seed, i, tier, scratch)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(m['timeout'])
    skipped = False
    try:
        m['fn'](ctx)
    except Violation:
        pass
    except Skip:
        skipped = True
    except HarnessError:
        raise
    except CaseTimeout as e:
        ctx.violations.append((f'no-progress@{m["name"]}',
                               f'case did not finish within {m["timeout"]} s\n{traceback.format_exc()[-1800:]}\ncase: {ctx.desc}'))
    except Exception as e:
        w = _where(e.__traceback__)
        ctx.violations.append((f'exception:{type(e).__name__}@{w or "harness:" + m["name"]}', f'{traceback.format_exc()[-1800:]}\ncase: {ctx.desc}'))
    finally:
        signal.alarm(0)
        if ctx._scratch is not None:
            shutil.rmtree(ctx._scratch, ignore_errors=True)
    return ctx, skipped


def run_shard(cfg, wd):
    warnings.simplefilter('ignore')
    import numpy as np  # noqa: F401  (OPENBLAS_NUM_THREADS=1 is set, so acoular keeps numba threads)

    np.seterr(all='ignore')
    import acoular

    here = Path(acoular.__file__).resolve().parent
    if here != (Path(REPO) / 'acoular').resolve():
        raise HarnessError(f'acoular imported from {here}, expected {REPO}/acoular')
    cache = wd / 'accache'
    cache.mkdir(exist_ok=True)
    acoular.config.cache_dir = str(cache)
    # acoular's cache manager prints the open files on every access
    mod = importlib.import_module(cfg['prop'].lower())
    if cfg['replay']:
        rp = json.loads(Path(cfg['replay']).read_text())
        todo = [(m, rp['index']) for m in MONITORS if m['name'] == rp['monitor']]
        cfg['seed'], cfg['tier'] = rp['seed'], rp['tier']
    else:
        todo = []
        n = 0
        for m in MONITORS:
            if cfg['only'] and m['name'] != cfg['only']:
                continue
            for i in range(m[cfg['tier']]):
                if n % cfg['shards'] == cfg['shard']:
                    todo.append((m, i))
                n += 1
    # imported modules are not scanned by acoular's many gc.collect() calls
    gc.collect()
    gc.freeze()
    mons, sigs, samples, viols = {}, set(), [], []
    seen = {}
    cur = open(wd / 'current', 'w')
    for m, i in todo:
        cur.seek(0)
        cur.truncate()
        cur.write(f"{m['name']}#{i}")
        cur.flush()
        t = time.time()
        np.random.seed(zlib.crc32(f"{cfg['seed']}/{m['name']}/{i}".encode()))
        ctx, skipped = run_case(m, cfg['prop'], cfg['seed'], i, cfg['tier'], wd)
        d = mons.setdefault(m['name'], dict(cases=0, checks=0, skipped=0, events=0, floor=m['floor'], wall_s=0))
        d['cases'] += 1
        d['checks'] += ctx.checks
        d['skipped'] += skipped
        d['events'] += ctx.events
        d['wall_s'] += time.time() - t
        sigs |= ctx.sigs
        if len(samples) < 40 and ctx.desc and not skipped:
            samples.append({**ctx.desc, 'monitor': m['name'], 'index': i})
        for mech, msg in ctx.violations:
            seen[mech] = seen.get(mech, 0) + 1
            if seen[mech] <= 10:  # examples of every mechanism are kept
                viols.append(dict(mech=mech, msg=msg, monitor=m['name'], index=i))
        if cfg['verbose']:
            print(f"{m['name']}#{i} {time.time() - t:.2f}s checks={ctx.checks} viol={len(ctx.violations)} {ctx.desc}")
    for m in MONITORS:
        mons.setdefault(m['name'], dict(cases=0, checks=0, skipped=0, events=0, floor=m['floor'], wall_s=0)) if not cfg['only'] and not cfg['replay'] else None
    Path(cfg['out']).write_text(json.dumps(dict(monitors=mons, sigs=sorted(sigs), samples=samples, violations=viols,
                                               rule=getattr(mod, 'RULE', ''), assumptions=getattr(mod, 'ASSUMPTIONS', [])), default=str))
    return 0
