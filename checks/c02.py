"""C02: reading is repeatable and leaves inputs unchanged."""
import numpy as np

import acoular as ac
import zoo
from vf import monitor
from watch import Watch

RULE = ('a case builds one generator chain (or spectra/beamformer chain), snapshots every array, setting and digest reachable from it, then reads it '
        'completely, abandons iterations after a random number of blocks, reads upstream objects in between and reads again; '
        'non-trivial = class x action sequence')
ASSUMPTIONS = ['private attributes and open file handles are not user state', 'values on re-reading must be bit-for-bit equal (same code, same data)']


@zoo._t('SphericalHarmonicSource')
def _(c):
    kw = zoo._tail(c)
    o = c.int(0, 2)
    return ac.SphericalHarmonicSource(signal=zoo.signal(c, c.int(300, 400)), lOrder=o, alpha=c.rng.standard_normal((o + 1) ** 2), **kw)


@zoo._t('BeamformerCleant')
def _(c):
    st = zoo.steer(c)
    return c.pick(ac.BeamformerCleant, ac.BeamformerCleantSq)(source=zoo._btsrc(c, st), steer=st, n_iter=c.int(1, 5), damp=c.uni(0.2, 1), weights=c.pick('none', 'power'))


@zoo._t('BeamformerCleantTraj')
def _(c):
    st = zoo.steer(c, g=zoo._cgrid(c))
    return c.pick(ac.BeamformerCleantTraj, ac.BeamformerCleantSqTraj)(source=zoo._btsrc(c, st), steer=st, trajectory=zoo.line_traj(c), n_iter=c.int(1, 4), damp=c.uni(0.2, 1))


ALL = {**zoo.TIME, **zoo.SPEC}


def upstream(g):
    out, todo = [], [g]
    while todo:
        o = todo.pop()
        for n in ('source', 'signal'):
            s = getattr(o, n, None)
            if isinstance(s, (ac.SignalGenerator, ac.base.Generator)):
                out.append(s)
                todo.append(s)
        for s in getattr(o, 'sources', None) or []:
            out.append(s)
            todo.append(s)
    return out


def read(o, num):
    return o.signal() if isinstance(o, ac.SignalGenerator) else zoo.full(o, num)


def one(ctx, name):
    ac.config.global_caching = 'none'
    g = ALL[name](ctx)
    num = ctx.int(2, 90)
    if name.startswith('BeamformerCleant'):
        num = ctx.int(40, 90)
    ups = upstream(g)
    before = [read(u, 64).copy() for u in ups]
    w = Watch(g)
    ref = zoo.full(g, num)
    ctx.note(cls=name, num=num, rows=len(ref))
    seq = []

    def unchanged(what):
        bad = w.changed()
        ctx.check(not bad, f'input-changed@{name}', lambda: f'after {what}: {bad[:4]}')

    unchanged('a complete read')
    hang = []
    for _ in range(ctx.int(2, 5)):
        act = ctx.pick('full', 'abandon', 'close', 'up', 'interleave', 'hang')
        seq.append(act)
        if act == 'full':
            ctx.equal(zoo.full(g, num), ref, f'not-repeatable@{name}', f'after {seq}')
        elif act in ('abandon', 'close', 'hang'):
            it = iter(g.result(ctx.pick(num, num, ctx.int(2, 90))))
            for _k in range(ctx.int(0, 4)):
                next(it, None)
            if act == 'close':
                it.close()
            elif act == 'hang' and name not in ('SampleSplitter',):
                hang.append(it)
        elif ups:
            k = ctx.int(0, len(ups) - 1)
            if act == 'up' or isinstance(ups[k], ac.SignalGenerator):
                ctx.equal(read(ups[k], 64), before[k], f'upstream-changed@{name}', f'{type(ups[k]).__name__} after {seq}')
            else:
                a, b = [], []
                i1, i2 = iter(g.result(num)), iter(ups[k].result(64))
                m = True
                d1 = d2 = False
                while not (d1 and d2):
                    if not d1 and (ctx.flip() or d2):
                        x = next(i1, None)
                        d1 = x is None
                        if not d1:
                            a.append(np.array(x))
                    elif not d2:
                        x = next(i2, None)
                        d2 = x is None
                        if not d2:
                            b.append(np.array(x))
                ctx.equal(np.concatenate(a), ref, f'not-repeatable@{name}', f'interleaved with {type(ups[k]).__name__}')
                ctx.equal(np.concatenate(b), before[k], f'upstream-changed@{name}', f'{type(ups[k]).__name__} interleaved')
        unchanged(str(seq))
    ctx.equal(zoo.full(g, num), ref, f'not-repeatable@{name}', f'after {seq}')
    for u, r in zip(ups, before):
        ctx.equal(read(u, 64), r, f'upstream-changed@{name}', f'{type(u).__name__} at the end')
    unchanged('the end')
    ctx.sig(name, *sorted(set(seq)))


for _n in ALL:
    def _f(ctx, _n=_n):
        one(ctx, _n)
    heavy = _n.startswith(('Moving', 'Beamformer'))
    monitor(_n, quick=10 if heavy else 40, thorough=60 if heavy else 400, floor=10)(_f)


# ------------------------------------------------------------------ spectra and frequency-domain beamforming
def bf_zoo(ctx, ps, st):
    c = ctx
    k = c.int(0, 12)
    kw = dict(freq_data=ps, steer=st, cached=False)
    if k == 0:
        return ac.BeamformerBase(r_diag=c.flip(), **kw)
    if k == 1:
        return ac.BeamformerCapon(**kw)
    if k == 2:
        return ac.BeamformerEig(n=c.int(-1, ps.num_channels - 1), r_diag=c.flip(), **kw)
    if k == 3:
        return ac.BeamformerMusic(n=c.int(1, ps.num_channels - 1), **kw)
    if k == 4:
        return ac.BeamformerFunctional(gamma=c.uni(1, 4), r_diag=False, **kw)
    if k == 5:
        return ac.BeamformerClean(n_iter=c.int(1, 10), r_diag=c.flip(), **kw)
    if k == 6:
        return ac.BeamformerCleansc(n=c.int(1, 6), r_diag=c.flip(), **kw)
    if k == 7:
        return ac.BeamformerDamas(n_iter=c.int(1, 10), r_diag=c.flip(), **kw)
    if k == 8:
        return ac.BeamformerOrth(n=c.int(1, 2), r_diag=c.flip(), **kw)
    if k == 9:
        return ac.BeamformerCMF(method=c.pick('NNLS', 'LassoLars'), r_diag=c.flip(), **kw)
    if k == 10:
        return ac.BeamformerDamasPlus(method=c.pick('NNLS', 'LP'), r_diag=c.flip(), **kw)
    if k == 11:
        return ac.BeamformerGIB(method='Suzuki', n=2, max_iter=3, **kw)
    return ac.BeamformerSODIX(max_iter=3, **kw)


@monitor('spectra_beamformers', quick=240, thorough=2500, floor=60)
def spectra_beamformers(ctx):
    ac.config.global_caching = 'none'
    m = zoo.mics(ctx, ctx.int(4, 7))
    src = ac.TimeSamples(data=ctx.rng.standard_normal((1024, m.num_mics)), sample_freq=25600.0)
    ps = ac.PowerSpectra(source=src, block_size=128, window=ctx.pick('Hanning', 'Rectangular'), overlap=ctx.pick('None', '50%'), cached=False)
    st = zoo.steer(ctx, m)
    csm0, r0, rm = ps.csm.copy(), st.r0.copy(), st.rm.copy()
    ev = [x.copy() for x in (ps.eva, ps.eve)]
    w = Watch(src)
    w2 = Watch(st)
    f = ps.fftfreq()[ctx.int(3, 30)]
    names = []
    first = {}
    for r in range(3):
        rs = ctx.rng.bit_generator.state
        b = bf_zoo(ctx, ps, st)
        names.append(type(b).__name__)
        a1 = np.array(b.synthetic(f, 0))
        a2 = np.array(b.synthetic(f, 0))
        ctx.equal(a1, a2, f'not-repeatable@{names[-1]}')
        # an equal second object on the same shared data gives the same map
        b2 = b.clone_traits()
        b2.freq_data, b2.steer = ps, st
        b2.cached = False
        ctx.equal(np.array(b2.synthetic(f, 0)), a1, f'not-repeatable@{names[-1]}', 'second object on the same data')
        ctx.note(bfs=str(names), f=f, steer=st.steer_type, mics=m.num_mics)
        ctx.equal(ps.csm, csm0, f'csm-changed@{names[-1]}')
        ctx.equal(ps.eva, ev[0], f'eva-changed@{names[-1]}')
        ctx.equal(ps.eve, ev[1], f'eve-changed@{names[-1]}')
        ctx.equal(st.r0, r0, f'r0-changed@{names[-1]}')
        ctx.equal(st.rm, rm, f'rm-changed@{names[-1]}')
        bad = w.changed() + w2.changed()
        ctx.check(not bad, f'input-changed@{names[-1]}', lambda: str(bad[:4]))
        m0 = a1.copy()
        g = st.grid
        if not isinstance(b, ac.BeamformerSODIX):
            b.integrate((g.x_min, g.y_min, g.x_max, g.y_max), (f - 1, f + 1))
        ac.L_p(a1)
        ctx.equal(np.array(b.synthetic(f, 0)), m0, f'map-changed-by-reading@{names[-1]}')
        ctx.sig('bf', names[-1], st.steer_type)
