"""C06: different settings never share an identity string; equal settings always do."""
import json
import os
import subprocess
import sys
from pathlib import Path

import acoular as ac
import numpy as np
import spec
from vf import REPO, HarnessError, Skip, monitor

RULE = ('a case draws the complete settings of one object graph, then changes one setting somewhere in it (a new value, a perturbation by 1e-9 '
        'or one array element); non-trivial = root class x changed class.trait x kind of change with observable effect or a different identity')
ASSUMPTIONS = ['objects are compared through their public results; arrays edited in place (without assignment) are outside the property']


def differs(a, b):
    # the evaluated frequency range of a matrix is a view of it, not part of its identity
    return spec.differs({k: v for k, v in a.items() if k[0] != '~'}, {k: v for k, v in b.items() if k[0] != '~'})


def ident(node, n_mut):
    def fn(ctx):
        ac.config.global_caching = 'none'
        d = spec.D(ctx)
        a = spec.make(ctx, node, d)
        oa, ob = spec.build(a), spec.build(a.copy())
        ctx.note(cls=node)
        da = oa.digest
        ctx.check(isinstance(da, str) and len(da) > 8, f'no-identity@{node}', repr(da))
        ctx.check(ob.digest == da, f'identity-not-reproducible@{node}', f'{da} vs {ob.digest} for equal settings')
        for _ in range(n_mut):
            b = a.copy()
            t = spec.targets(b)
            path, nd, trait = t[int(ctx.rng.integers(len(t)))]
            if nd.cls == 'PointSpreadFunction' and trait in ('freq', 'grid_indices'):
                continue  # stored under the identity by frequency (see C08)
            new, kind = spec.redraw(ctx, d, nd, trait)
            nd.kw[trait] = new
            o2 = spec.build(b)
            ctx.event()
            ctx.note(changed=f'{path}.{trait}', kind=kind)
            d2 = o2.digest
            ctx.sig(node, nd.cls, trait, kind)
            if d2 == da:
                # the same identity: results must be the same
                bad = differs(spec.fingerprint(a, spec.build(a.copy())), spec.fingerprint(b, spec.build(b.copy())))
                ctx.check(not bad, f'collision@{node}:{nd.cls}.{trait}', lambda p=path, tr=trait: f'identity {da} for different {p}.{tr} ({kind}); results differ: {bad}')
            else:
                ctx.check(True, '')
    return fn


for _n in spec.NAMES:
    monitor(_n, quick=14 if _n in spec.SLOW else 28, thorough=400, floor=30, timeout=240)(ident(_n, 5))


# ------------------------------------------------------------------ other processes
PROG = """
import sys, json, warnings
warnings.simplefilter('ignore')
from pathlib import Path
import vf, spec, acoular as ac
seed, lo, hi = map(int, sys.argv[1:4])
out = {}
for k, n in enumerate(spec.NAMES):
    for i in range(lo, hi):
        c = vf.Ctx('C06', 'proc-' + n, seed, i, 'quick', Path('.'))
        out[f'{n}#{i}'] = spec.build(spec.make(c, n, spec.D(c))).digest
print('RESULT' + json.dumps(out))
"""


def other(ctx, hashseed, lo, hi):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=os.environ['PYTHONPATH'])
    r = subprocess.run([sys.executable, '-c', PROG, str(ctx.seed), str(lo), str(hi)], env=env, capture_output=True, text=True, timeout=200, cwd=ctx.scratch)
    for line in r.stdout.splitlines():
        if line.startswith('RESULT'):
            return json.loads(line[6:])
    raise HarnessError('identity subprocess: ' + r.stderr[-800:])


@monitor('processes', quick=4, thorough=24, floor=100, timeout=400)
def processes(ctx):
    lo = 2 * ctx.index
    a = other(ctx, 1 + ctx.index, lo, lo + 2)
    b = other(ctx, 77777 + ctx.index, lo, lo + 2)
    bad = sorted({k.split('#')[0] for k in a if a[k] != b[k]})
    for k in a:
        ctx.event()
        ctx.sig('process', k.split('#')[0])
    for k in bad:
        ctx.soft(False, f'process-dependent@{k}', f'{k}: the identity of equal settings differs between processes')
    for _ in range(len(a)):
        ctx.check(True, '')
    ctx.note(objects=len(a))


# ------------------------------------------------------------------ many objects at once
@monitor('population', quick=24, thorough=300, floor=60)
def population(ctx):
    """Many objects of one class, many settings different: pairwise different identities unless equal results."""
    ac.config.global_caching = 'none'
    n = spec.NAMES[ctx.index % len(spec.NAMES)]
    seen = {}
    for _ in range(40):
        d = spec.D(ctx)
        a = spec.make(ctx, n, d)
        k = spec.build(a).digest
        ctx.event()
        if k in seen:
            bad = differs(spec.fingerprint(a, spec.build(a)), spec.fingerprint(seen[k], spec.build(seen[k])))
            ctx.check(not bad, f'collision@{n}', f'two different objects share {k}: {bad}')
        seen[k] = a
        ctx.check(True, '')
    ctx.sig('population', n, len(seen) > 10)
    ctx.note(cls=n, distinct=len(seen))


# ------------------------------------------------------------------ long and structured arrays
@monitor('long-arrays', quick=160, thorough=2000, floor=60)
def long_arrays(ctx):
    """One element of a long array is changed by a tiny amount; shape, order and type of the rest stay."""
    ac.config.global_caching = 'none'
    n = ctx.pick(500, 1001, 3000, 20000)
    ch = ctx.int(1, 4)
    fs = 1000.0
    base = ctx.rng.standard_normal((n, ch))

    def ts(x):
        return ac.TimeSamples(data=x, sample_freq=fs)
    kind = ctx.pick('data', 'kernel', 'mics', 'grid', 'csm', 'calib', 'weights', 'ar', 'strength', 'swap', 'sum', 'split')
    i = int(ctx.rng.integers(n))
    v = ctx.rng.standard_normal(n)
    w = v.copy()
    w[i] = w[i] * (1 + 1e-12) if ctx.flip() else np.nextafter(w[i], np.inf)
    if w[i] == v[i]:
        raise Skip
    if kind == 'data':
        other = base.copy()
        other[i, ctx.int(0, ch - 1)] += 1e-9
        a, b = ts(base), ts(other)
    elif kind == 'swap':  # same multiset of values
        j = int(ctx.rng.integers(n))
        if i == j:
            raise Skip
        other = base.copy()
        other[[i, j]] = other[[j, i]]
        a, b = ts(base), ts(other)
    elif kind == 'sum':  # same row and column sums
        if ch < 2 or i == 0:
            raise Skip
        other = base.copy()
        other[i, 0] += 1
        other[i, 1] -= 1
        other[0, 0] -= 1
        other[0, 1] += 1
        a, b = ts(base), ts(other)
    elif kind == 'split':  # the same numbers in another arrangement
        a, b = ac.TimeConvolve(source=ts(base[:50]), kernel=v[:24].reshape(24, 1)), ac.TimeConvolve(source=ts(base[:50]), kernel=v[:24].reshape(-1, ch)) if ch > 1 and 24 % ch == 0 else None
        if b is None:
            raise Skip
    elif kind == 'kernel':
        a, b = (ac.TimeConvolve(source=ts(base[:50]), kernel=x) for x in (v, w))
    elif kind == 'mics':
        a, b = (ac.MicGeom(pos_total=np.tile(x, (3, 1))) for x in (v, w))
    elif kind == 'grid':
        a, b = (ac.ImportGrid(pos=np.array([x, 0 * x, 0 * x + 1])) for x in (v, w))
    elif kind == 'csm':
        m = base[:50, :1] * base[:50, :1].T + 1j * 0
        m2 = m.copy()
        m2[3, 4] *= 1 + 1e-10
        m2[4, 3] *= 1 + 1e-10
        nf = ctx.pick(2, ctx.int(3, 60))  # a single line differs
        j = ctx.int(0, nf - 1)
        a, b = (ac.PowerSpectraImport(csm=np.array([m] * j + [x] + [m] * (nf - 1 - j)), frequencies=np.arange(1.0, nf + 1)) for x in (m, m2))
    elif kind == 'calib':
        a, b = (ac.Calib(source=ts(base[:5]), data=x) for x in (v, w))
    elif kind == 'weights':
        a, b = (ac.ChannelMixer(source=ts(base[:5]), weights=x) for x in (v, w))
    elif kind == 'ar':
        a, b = (ac.FiltWNoiseGenerator(ma=np.r_[1.0, x], num_samples=5, sample_freq=fs) for x in (v, w))
    else:
        a, b = (ac.LineSource(source_strength=x, num_sources=n, signal=ac.WNoiseGenerator(num_samples=5, sample_freq=fs), mics=ac.MicGeom(pos_total=np.ones((3, 1)))) for x in (v, w))
    ctx.note(kind=kind, n=n, index=i)
    ctx.sig('long', kind, n)
    ctx.check(a.digest != b.digest, f'collision-long@{kind}', f'{kind}: arrays of {n} elements that differ at element {i} share one identity')


# ------------------------------------------------------------------ files
@monitor('files', quick=40, thorough=400, floor=40)
def files(ctx):
    """Data read from files of the same name in different places, or with different contents."""
    ac.config.global_caching = 'none'
    n, ch = ctx.int(5, 60), ctx.int(1, 4)
    x = ctx.rng.standard_normal((n, ch))
    kind = ctx.pick('first-row', 'rate', 'length', 'equal', 'other-row')
    y = x.copy()
    fy = 1000.0
    if kind == 'first-row':
        y[0, 0] += 0.5
    elif kind == 'other-row':
        y[ctx.int(1, n - 1), 0] += 0.5
    elif kind == 'rate':
        fy = 2000.0
    elif kind == 'length':
        y = np.concatenate([y, y[:1]])
    paths = []
    for k, (z, f) in enumerate(((x, 1000.0), (y, fy))):
        p = ctx.scratch / f'd{k}' / 'data.h5'
        p.parent.mkdir()
        w = ac.WriteH5(source=ac.TimeSamples(data=z, sample_freq=f), file=str(p), precision='float64')
        w.save()
        paths.append(str(p))
    a, b = (ac.TimeSamples(file=p) for p in paths)
    ctx.note(kind=kind, n=n)
    ctx.sig('files', kind)
    if kind == 'equal':
        ctx.check(a.digest == b.digest, 'file-identity-not-reproducible', 'equal file contents, different identity')
    elif kind == 'other-row':
        ctx.soft(a.digest != b.digest, 'file-content-not-in-identity', 'files of the same name whose data differ beyond the first row share one identity')
    else:
        ctx.check(a.digest != b.digest, f'file-collision@{kind}', f'files that differ in {kind} share one identity')
    # re-pointing one object to the other file
    ref = spec.fp_gen(b)
    live = ac.TimeSamples(file=paths[0])
    live.digest  # noqa: B018
    live.file = paths[1]
    bad = spec.differs(spec.fp_gen(live), ref)
    ctx.check(not bad, 'file-switch-stale', f'after switching to a file of the same name: {bad}')
    m = ac.MaskedTimeSamples(file=paths[0], start=1)
    m.digest  # noqa: B018
    m.file = paths[1]
    bad = spec.differs(spec.fp_gen(m), spec.fp_gen(ac.MaskedTimeSamples(file=paths[1], start=1)))
    ctx.check(not bad, 'file-switch-stale@Masked', f'after switching to a file of the same name: {bad}')
