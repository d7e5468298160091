"""C26: deconvolution methods keep their defining invariants."""
import itertools
import warnings

import acoular as ac
import numpy as np
import zoo
from acoular import config
from c23 import matrices, nodiag, setup, touch
from prop import phase_tol, quad, steering, transfer
from vf import MONITORS, monitor

MONITORS.clear()  # importing the builders of C23 registers its monitors, too
RULE = ('a case draws array, grid, formulation, matrix, settings and number of iterations and compares the result with an independent implementation of the documented '
        'iteration or with the optimality conditions of the fit; non-trivial = method x formulation x matrix kind x diagonal setting x iterations')
ASSUMPTIONS = ['dirty maps and point spread functions are inputs here (C23, C25 decide them)',
               'iterations in which the largest value is ambiguous within rounding are excluded by choosing fewer iterations',
               'LassoLars, BIC and OMPCV solutions are taken from scikit-learn: the check covers range, sign and recovery']


def dirty(ps, st, r_diag, norm):
    return ac.BeamformerBase(freq_data=ps, steer=st, r_diag=r_diag, r_diag_norm=norm)


def gs(A, y, n, damp, x):
    x = x.copy()
    for _ in range(n):
        for g in range(len(y)):
            s = A[g] @ x - A[g, g] * x[g]
            x[g] = max(0.0, (1 - damp) * x[g] + damp * (y[g] - s))
    return x


@monitor('damas', quick=250, thorough=6000, floor=80)
def damas(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    n = ctx.pick(0, 1, 2, ctx.int(3, 30))
    damp = ctx.pick(1.0, 1.0, 0.6, ctx.uni(0.1, 1.5))
    r_diag, norm = ctx.flip(), ctx.pick(0.0, 0.0, 1.0)
    prec = ctx.pick('float64', 'float64', 'float32')
    bf = ac.BeamformerDamas(freq_data=ps, steer=st, r_diag=r_diag, r_diag_norm=norm, n_iter=n, damp=damp, psf_precision=prec, calcmode=ctx.pick('full', 'block', 'single'))
    if ctx.flip(0.3):  # changed settings take effect
        bf.n_iter = n + 1
        _ = bf.result[int(sel[0])]
        bf.n_iter = n
    ctx.note(kind=k, steer=name, n=n, damp=damp, r_diag=r_diag, M=M, N=len(r0), psf=prec)
    ctx.sig(name, k, r_diag, n, damp == 1, prec)
    ref = dirty(ps, st, r_diag, norm)
    for i in ctx.rng.permutation(sel):
        i = int(i)
        y = np.array(ref.result[i])
        A = np.array(ac.PointSpreadFunction(steer=st, freq=float(f[i]), precision=prec).psf).astype(float)
        x = gs(A, y, n, damp, y)
        touch(ctx, bf, i)
        got = np.array(bf.result[i])
        # growth of rounding differences: the same steps without clipping applied to a perturbation
        e = gs_growth(A, n, damp)
        ctx.check(got.shape == x.shape and np.all(got >= (0 if n else min(0, y.min()))), 'damas-sign')
        ctx.close(got, x, 'damas', f'line {i}', rtol=1e-11 * e, scale=max(np.abs(y).max(), x.max()))
        if n == 0:
            ctx.equal(got, y, 'damas-start')
        ctx.event(got.size)


def gs_growth(A, n, damp):
    """Bound of the amplification of rounding differences by n steps (absolute values of the step)."""
    e = np.ones(len(A))
    for _ in range(n):
        for g in range(len(A)):
            s = np.abs(A[g]) @ e - abs(A[g, g]) * e[g]
            e[g] = min(abs(1 - damp) * e[g] + damp * (1 + s), 1e12)
    return min(e.max(), 1e5)


@monitor('damas-solvers', quick=120, thorough=3000, floor=40)
def plus(ctx):
    """NNLS and LP satisfy their optimality conditions, the other solvers deliver finite maps."""
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    r_diag = ctx.flip()
    meth = ctx.pick('NNLS', 'LP', 'LassoLars', 'OMPCV')
    bf = ac.BeamformerDamasPlus(freq_data=ps, steer=st, r_diag=r_diag, method=meth, n_iter=ctx.pick(500, 50), alpha=ctx.pick(0.0, 1e-9), unit_mult=ctx.pick(1e9, 1.0, 1e3) if meth == 'NNLS' else 1e9 / np.abs(C).max())
    ctx.note(kind=k, steer=name, method=meth, r_diag=r_diag, M=M, N=len(r0))
    ref = dirty(ps, st, r_diag, 0.0)
    i = int(sel[ctx.int(0, len(sel) - 1)])
    y = np.array(ref.result[i])
    A = np.array(ac.PointSpreadFunction(steer=st, freq=float(f[i])).psf)
    if meth == 'OMPCV' and (len(y) < 12 or (y > 0).sum() < 10):
        return
    x = np.array(bf.result[i])
    ctx.sig(meth, name, k, r_diag, len(r0))
    ctx.check(x.shape == y.shape and np.isfinite(x).all(), f'finite@{meth}')
    ctx.event(x.size)
    if meth != 'OMPCV' and not (meth == 'LassoLars' and (k == 'random' or r_diag)):  # ill-conditioned paths may leave the range by rounding
        ctx.check((x >= -(1e-2 if meth == 'LassoLars' else 1e-9) * np.abs(x).max()).all(), f'negative@{meth}', f'{x.min()}')
    res = y - A @ x
    scale = np.abs(y).max() + 1e-300
    if meth == 'NNLS':
        g = A.T @ res  # Karush-Kuhn-Tucker: no gain from any point, none left at active points
        gs_ = np.abs(A).T @ (np.abs(y) + np.abs(A) @ x) + 1e-300
        ctx.check(np.all(g <= 3e-3 * gs_) and np.all(np.abs(g[x > 0]) <= 3e-3 * gs_[x > 0]), 'nnls-optimal', lambda: f'{(g / gs_).max()} {np.abs(g / gs_)[x > 0].max()}')
    if meth == 'LP':
        ctx.check(np.all(res >= -1e-6 * scale), 'lp-feasible', lambda: f'{res.min() / scale}')
        slack = np.array([np.min(np.where(A[:, j] > 1e-9, res / np.maximum(A[:, j], 1e-9), np.inf)) for j in range(len(x))])
        ctx.check(np.all(slack <= 1e-5 * max(scale, x.max())), 'lp-maximal', lambda: f'{slack.max() / scale}')


@monitor('clean', quick=300, thorough=8000, floor=100)
def clean(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    r_diag, norm, prec = ctx.flip(), ctx.pick(0.0, 0.0, 1.0), ctx.pick('float64', 'float64', 'float32')
    damp, n = ctx.pick(1.0, 0.6, ctx.uni(0.05, 1)), ctx.pick(1, 2, 100, ctx.int(1, 60))
    mode = ctx.pick('block', 'full', 'single')
    ref = dirty(ps, st, r_diag, norm)
    bf = None
    for i in ctx.rng.permutation(sel):
        i = int(i)
        d = np.array(ref.result[i]).copy()
        A = np.array(ac.PointSpreadFunction(steer=st, freq=float(f[i]), precision=prec).psf).astype(float)
        tol = 1e-9 * np.abs(d).max()
        x = np.zeros_like(d)
        m, why = 0, 'limit'
        while m < n:
            s = np.sort(d)
            g = int(d.argmax())
            if m and len(s) > 1 and s[-1] - s[-2] < tol:
                why = 'ambiguous'
                break
            before = np.abs(d).sum()
            x[g] += damp * d[g]
            d = d - A[:, g] * (damp * d[g])
            m += 1
            if abs(np.abs(d).sum() - before) < tol or abs(d.max()) < tol:
                why = 'ambiguous'
                break
            if np.abs(d).sum() > before or d.max() <= 0:
                why = 'grown' if d.max() > 0 else 'exhausted'
                break
        bf = ac.BeamformerClean(freq_data=ps, steer=st, r_diag=r_diag, r_diag_norm=norm, damp=damp, n_iter=n if why in ('grown', 'exhausted') else max(m, 1), psf_precision=prec, calcmode=mode)
        ctx.note(kind=k, steer=name, n=bf.n_iter, m=m, why=why, damp=damp, r_diag=r_diag, M=M, N=len(r0), psf=prec, mode=mode)
        ctx.sig(name, k, r_diag, min(m, 8), why, mode)
        touch(ctx, bf, i)
        got = np.array(bf.result[i])
        ctx.check((got >= 0).all(), 'clean-negative', lambda: f'{got.min()}')
        ctx.close(got, x, 'clean', f'line {i} {m} iterations ({why})', rtol=1e-7 if prec == 'float64' else 1e-5, scale=max(np.abs(x).max(), 1e-300))
        ctx.event(m)


def sijtsma(C, w, r_diag, damp, J, stopn, nf):
    """CLEAN-SC; returns the maps after each iteration, the gaps and the reason of the end."""
    C = C.copy()
    M = len(C)

    def image(c):
        return quad(w, nodiag(c) if r_diag else c) * nf

    d = image(C)
    x = np.zeros(len(d))
    out, powers = [], []
    for j in range(J):
        s = np.sort(d)
        g = int(d.argmax())
        gap = s[-1] - s[-2] if len(s) > 1 else np.inf
        p = d[g]
        powers.append(p)
        if p <= 0:
            out.append((x.copy(), gap, p, 'exhausted'))
            break
        x[g] += damp * p
        stop = j > stopn and p > powers[j - stopn]
        near = np.inf if j <= stopn else abs(p - powers[j - stopn])
        out.append((x.copy(), min(gap, near), p, 'stop' if stop else ''))
        if stop:
            break
        u = w[g] * np.sqrt(nf)
        D = nodiag(C) @ u / p
        q = u.copy()
        for _ in range(20):
            H = np.abs(q)**2
            q = (D + H * u) / np.sqrt(1 + (np.abs(u)**2 * H).sum())
        G = damp * p * np.outer(q, q.conj())
        d = d - image(G)
        C = C - G
    return out


@monitor('cleansc', quick=400, thorough=10000, floor=120)
def cleansc(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx, ctx.pick(None, None, None, 2, 3))
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    r_diag, norm = ctx.flip(), ctx.pick(0.0, 0.0, 1.0)
    nf = (norm or M / (M - 1)) if r_diag else 1.0
    damp, stopn, n = ctx.pick(1.0, 0.6, ctx.uni(0.05, 1), ctx.uni(0.05, 0.2)), ctx.pick(3, 1, 5), ctx.pick(0, 0, 1, 2, ctx.int(1, 30))
    for i in ctx.rng.permutation(sel):
        i = int(i)
        w = h(f[i])
        J = n or 2 * M
        steps = sijtsma(C[i], w, r_diag, damp, J, stopn, nf)
        e = 4 * phase_tol(f[i], st.env.c, rm, r0)
        p0 = steps[0][2]
        top = np.abs(C[i]).max() * (np.abs(w).sum(1).max())**2 * nf
        good = 0  # iterations that rounding cannot change
        for x, gap, p, why in steps:
            if gap < 3e3 * e * top or abs(p) < 1e-2 * p0 or not np.isfinite(x).all():
                break
            good += 1
        if good == 0:
            ctx.sig('ambiguous')
            if p0 > 100 * e * top:
                bf = ac.BeamformerCleansc(freq_data=ps, steer=st, r_diag=r_diag, r_diag_norm=norm, damp=damp, stopn=stopn, n_iter=1)
                ctx.close(bf.result[i].sum(), damp * p0, 'first-power', rtol=1e-3)
            continue
        complete = good == len(steps)
        bf = ac.BeamformerCleansc(freq_data=ps, steer=st, r_diag=r_diag, r_diag_norm=norm, damp=damp, stopn=stopn, n_iter=n if complete else good)
        want, why = steps[good - 1][0], steps[good - 1][3] or ('limit' if complete else 'cut')
        ctx.note(kind=k, steer=name, n=bf.n_iter, good=good, why=why, damp=damp, stopn=stopn, r_diag=r_diag, norm=norm, M=M, N=len(r0))
        ctx.sig(name, k, r_diag, min(good, 8), why, n == 0)
        touch(ctx, bf, i)
        got = np.array(bf.result[i])
        ctx.close(got, want, 'cleansc', f'line {i}, {good} iterations ({why})', rtol=2e-3 if good > 1 else 5e-4, scale=want.max())
        ctx.event(good)


@monitor('cleansc-sign', quick=250, thorough=6000, floor=80)
def cleansc_sign(ctx):
    """Any number of iterations: finite, no negative source power."""
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    if ctx.flip(0.15):
        k, C = 'silent', np.zeros_like(C)
        ps = ac.PowerSpectraImport(csm=C, frequencies=f)
    bf = ac.BeamformerCleansc(freq_data=ps, steer=st, r_diag=ctx.flip(), damp=ctx.pick(1.0, 0.6, 0.3), n_iter=ctx.pick(0, 50, ctx.int(1, 200)), stopn=ctx.pick(3, 10))
    ctx.note(kind=k, steer=name, n=bf.n_iter, damp=bf.damp, r_diag=bf.r_diag, M=M, N=len(r0))
    ctx.sig(name, k, bf.r_diag, bf.n_iter, bf.stopn)
    for i in sel:
        x = np.array(bf.result[int(i)])
        ctx.check(np.isfinite(x).all() and (x >= 0).all(), 'cleansc-range', lambda: f'{x.min()} {x.max()}')
        ctx.event(x.size)


@monitor('orth', quick=300, thorough=8000, floor=100)
def orth(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    r_diag = ctx.flip()
    bf = ac.BeamformerOrth(freq_data=ps, steer=st, r_diag=r_diag)
    if ctx.flip():
        n = bf.n = ctx.int(1, M)
        comp = list(range(-1, -1 - n, -1))
        if n == 1:
            comp = [-1]
    else:
        comp = [int(c) for c in ctx.rng.permutation(np.arange(-M, M))[: ctx.int(1, M)]]
        bf.eva_list = np.array(comp)
    ctx.note(kind=k, steer=name, comp=comp, r_diag=r_diag, M=M, N=len(r0))
    ctx.sig(name, k, r_diag, len(comp), M)
    for i in ctx.rng.permutation(sel):
        i = int(i)
        touch(ctx, bf, i)
        got = np.array(bf.result[i])
        v, U = np.linalg.eigh(C[i])
        w = h(f[i])
        want = np.zeros(len(r0))
        e = 8 * phase_tol(f[i], st.env.c, rm, r0)
        gaps = np.diff(v)
        clear = True
        for c in comp:
            u = U[:, c]
            R = np.outer(u, u.conj())
            m = quad(w, nodiag(R) if r_diag else R)
            s = np.sort(m)
            # eigenvectors must be separated and the maximum unambiguous
            c = c % M
            sep = min([abs(v[c] - v[j]) for j in range(M) if j != c])
            if sep < 1e-6 * v[-1] or len(s) > 1 and s[-1] - s[-2] < e * (np.abs(w).sum(1).max()**2) + 1e-8 * s[-1]:
                clear = False
            want[int(m.argmax())] += v[c] / M
        tot = sum(v[c % M] for c in comp) / M
        ctx.check(abs(got.sum() - tot) <= 1e-9 * v[-1] * len(comp), 'orth-total', lambda: f'{got.sum()} want {tot}')
        ctx.check(np.isfinite(got).all() and got.min() >= -1e-12 * v[-1], 'orth-negative')
        ctx.check((got != 0).sum() <= len(comp), 'orth-points')
        if clear:
            ctx.close(got, want, 'orth', f'line {i}', rtol=1e-9, scale=v[-1])
            ctx.sig('clear', name, k, len(comp))
        ctx.event(len(comp))


def source_case(ctx, lo=5, hi=16):
    """One source on a grid point of an array that resolves it."""
    M = ctx.int(lo, hi)
    e = zoo.env(ctx, ctx.flip(0.2))
    m = zoo.mics(ctx, M, ctx.uni(0.4, 0.8))
    g = ac.RectGrid(x_min=-0.4, x_max=0.4, y_min=-0.3, y_max=0.3, z=ctx.uni(0.5, 1.0), increment=ctx.pick(0.2, 0.1))
    st = ac.SteeringVector(grid=g, mics=m, env=e, steer_type=ctx.pick('classic', 'inverse', 'true level', 'true location'))
    f = ctx.uni(2000, 8000)
    a = np.array(st.transfer(f))
    s = ctx.int(0, g.size - 1)
    p = 10.0**ctx.uni(-6, 2)
    return M, st, g, f, a, s, p


@monitor('recovery', quick=250, thorough=6000, floor=80)
def recovery(ctx):
    """A single source without noise is found at its point with its power."""
    config.global_caching = 'none'
    M, st, g, f, a, s, p = source_case(ctx)
    C = p * np.outer(a[s], a[s].conj())
    ps = ac.PowerSpectraImport(csm=C[None], frequencies=f)
    N = g.size
    # correlation of the source with any other point
    n = a / np.linalg.norm(a, axis=1)[:, None]
    corr = np.abs(n.conj() @ n[s])
    corr[s] = 0
    meth = ctx.pick('cleansc', 'orth', 'cmf-LassoLars', 'cmf-NNLS', 'cmf-LassoLarsBIC', 'cmf-fmin_l_bfgs_b', 'cmf-FISTA', 'cmf-OMPCV', 'clean', 'gib-Suzuki')
    st.steer_type = 'true location' if meth in ('cleansc', 'orth', 'clean') else st.steer_type
    r_diag = meth in ('cleansc', 'clean', 'cmf-LassoLars', 'cmf-NNLS') and ctx.flip(0.3)
    ctx.note(method=meth, M=M, N=N, corr=corr.max(), r_diag=r_diag, p=p, s=s)
    if corr.max() > (0.7 if 'OMP' in meth or 'gib' in meth else 0.97) or (r_diag and corr.max() > 0.9) or meth == 'cmf-LassoLarsBIC' and M * M < N + 5:
        ctx.sig('unresolved')
        return
    ctx.sig(meth, M, N, r_diag, round(corr.max(), 1))
    ctx.event()
    kw = dict(freq_data=ps, steer=st)
    if meth == 'cleansc':
        x = np.array(ac.BeamformerCleansc(r_diag=r_diag, damp=1.0, n_iter=1, **kw).result[0])
        power = p * np.linalg.norm(a[s])**2 / M  # level at the array
        exact = 1e-3 if not r_diag else 0.5
    elif meth == 'clean':
        x = np.array(ac.BeamformerClean(r_diag=r_diag, damp=1.0, n_iter=1, **kw).result[0])
        power = p * np.linalg.norm(a[s])**2 / M
        exact = 1e-3 if not r_diag else 0.5
    elif meth == 'orth':
        x = np.array(ac.BeamformerOrth(r_diag=False, **kw).result[0])
        power = p * np.linalg.norm(a[s])**2 / M
        exact = 1e-3
    elif meth.startswith('cmf'):
        bf = ac.BeamformerCMF(method=meth[4:], r_diag=r_diag, unit_mult=1e3 / p, n_iter=ctx.pick(500, 1000), **kw)
        x = np.array(bf.result[0])
        power, exact = p, {'cmf-LassoLars': 1e-3, 'cmf-NNLS': 1e-3, 'cmf-OMPCV': 1e-3, 'cmf-LassoLarsBIC': 0.1}.get(meth, 0.9)
    else:
        bf = ac.BeamformerGIB(method=meth[4:], n=1, unit_mult=1e3 / np.sqrt(p), **kw)
        x = np.array(bf.result[0])
        power, exact = p, 1.0
    ctx.check(np.isfinite(x).all(), f'finite@{meth}')
    ctx.check(int(np.abs(x).argmax()) == s, f'position@{meth}', lambda: f'{x.argmax()} want {s}; {np.sort(x)[-3:]} at source {x[s]}')
    ctx.check(abs(x[s] - power) <= exact * power, f'power@{meth}', lambda: f'{x[s] / power}')


@monitor('cmf', quick=120, thorough=3000, floor=40)
def cmf(ctx):
    """Non-negative fits; the gradient method never increases the misfit."""
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    i = int(sel[ctx.int(0, len(sel) - 1)])
    r_diag = ctx.flip()
    N = len(r0)
    meth = ctx.pick('LassoLars', 'NNLS', 'fmin_l_bfgs_b', 'fmin_l_bfgs_b', 'FISTA', 'Split_Bregman', 'OMPCV')
    unit = 10.0**ctx.int(1, 3) / np.abs(C[i]).max()
    if meth == 'OMPCV' and M < 5:
        return
    kw = dict(freq_data=ps, steer=st, method=meth, r_diag=r_diag, unit_mult=unit, alpha=ctx.pick(0.0, 1e-9))
    bf = ac.BeamformerCMF(n_iter=ctx.pick(500, 60, 20), **kw)
    ctx.note(kind=k, steer=name, method=meth, r_diag=r_diag, M=M, N=N, n=bf.n_iter)
    ctx.sig(meth, k, r_diag, M, bf.n_iter)
    x = np.array(bf.result[i])
    ctx.check(x.shape == (N,) and np.isfinite(x).all(), f'cmf-finite@{meth}', str(x[:3]))
    if meth not in ('FISTA', 'Split_Bregman', 'OMPCV') and not (meth == 'LassoLars' and k == 'random'):
        ctx.check((x >= -(1e-2 if meth == 'LassoLars' else 1e-9) * np.abs(x).max()).all(), f'cmf-negative@{meth}', f'{x.min()}')
    a = transfer(f[i], st.env.c, r0, rm)

    def misfit(q):
        R = np.einsum('g,gi,gj->ij', q, a, a.conj()) - C[i]
        low = np.tril(R, -1)
        return (np.abs(low)**2).sum() + (0 if r_diag else (np.abs(np.diag(R))**2).sum())

    e = 1e-4 * misfit(np.zeros(N)) + 1e-12 * misfit(np.ones(N) / unit)
    ctx.event()
    if meth == 'fmin_l_bfgs_b':
        last = misfit(np.ones(N) / unit)
        for n in (1, 3, 10, 100):
            v = misfit(np.array(ac.BeamformerCMF(n_iter=n, **kw).result[i]))
            ctx.check(v <= last + e, 'cmf-descent', lambda: f'{n} iterations: {v} after {last}')
            last = v
            ctx.event()
        ctx.check(last <= misfit(np.zeros(N)) + e, 'cmf-fit', f'{last} of {misfit(np.zeros(N))}')
    if meth == 'NNLS':
        low = np.tril_indices(M, -1 if r_diag else 0)
        off = np.tril_indices(M, -1)
        P = np.einsum('gi,gj->ijg', a, a.conj())
        B = np.concatenate([P[low].real, P[off].imag])
        R = np.concatenate([C[i][low].real, C[i][off].imag])
        k0 = len(low[0])
        sign = np.where(np.arange(len(R)) < k0, 1.0, -1.0)
        worst = []
        # without an offset, with a constant offset of the equations (as sklearn's default intercept; depends on the signs of the imaginary rows)
        for B_, R_ in ((B, R), (B - B.mean(0), R - R.mean()), (B * sign[:, None] - (B * sign[:, None]).mean(0), R * sign - (R * sign).mean())):
            n = np.linalg.norm(B, axis=0)
            g = (B_ / n).T @ (R_ - B_ @ x)
            s = np.linalg.norm(R_) + np.abs(B_ @ x).max()
            worst.append(float(max((g / s).max(), np.abs(g / s)[x > 0].max(initial=0))))
        ctx.check(min(worst) <= 1e-3, 'cmf-nnls-optimal', str(worst))
        ctx.soft(worst[0] <= 1e-5, 'cmf-nnls@offset-fitted', str(worst))


@monitor('sodix', quick=60, thorough=1500, floor=20)
def sodix(ctx):
    """Directive source strengths: every requested line is fitted, the misfit decreases with the iterations."""
    config.global_caching = 'none'
    M = ctx.int(3, 6)
    st, h, name, r0, rm, M = setup(ctx, M)
    N = len(r0)
    if N > 20:
        return
    nf = ctx.int(1, 3)
    f = np.sort(ctx.rng.uniform(500, 5000, nf))
    C = []
    for fi in f:
        a = transfer(fi, st.env.c, r0, rm)
        s = ctx.int(0, N - 1)
        p = a[s] * ctx.rng.uniform(0.5, 2, M)
        C.append(np.outer(p, p.conj()) + np.eye(M) * 0.01)
    C = np.array(C)
    if ctx.flip(0.2):
        C[ctx.int(0, nf - 1)] = 0
    ps = ac.PowerSpectraImport(csm=C, frequencies=f)
    order = [int(i) for i in ctx.rng.permutation(nf)]
    ctx.note(M=M, N=N, nf=nf, order=order)
    ctx.sig(M, N, nf, order)

    def misfit(i, q):
        p = transfer(f[i], st.env.c, r0, rm) * np.sqrt(q.reshape(N, M))
        return (np.abs(C[i] - p.T @ p.conj())**2).sum()

    last = None
    for n in (1, 5, 60):
        bf = ac.BeamformerSODIX(freq_data=ps, steer=st, n_iter=n)
        vals = np.full(nf, np.inf)
        for i in order:
            x = np.array(bf.result[i])
            ctx.check(x.size == N * M and np.isfinite(x).all() and (x >= 0).all(), 'sodix-range')
            vals[i] = misfit(i, x)
            ctx.event(x.size)
        if n == 1:
            start = np.array([misfit(i, np.ones(N * M)) for i in range(nf)])
            ctx.check(vals[0] < start[0], 'sodix-first-line', lambda: f'{vals} {start}')
        if last is not None:
            ctx.check(vals[0] <= last[0] * (1 + 1e-9), 'sodix-descent', f'{vals} {last}')
        last = vals
    tot = np.array([(np.abs(c)**2).sum() for c in C])
    ctx.check(vals[0] <= 0.1 * tot[0] + 1e-6 and np.all(vals <= tot * (1 + 1e-6) + 1e-6), 'sodix-fit', lambda: f'{vals} {tot}')


def suzuki(A, modes, n_iter, pnorm, beta, eps, trunc, last):
    """Generalised inverse with iteratively reweighted, shrinking set of points; returns the map and the worst condition."""
    M, N = A.shape
    Q = np.zeros((len(modes), N), complex)
    loc = np.arange(N)
    worst = 1.0
    for s, e in enumerate(modes):
        loc = np.arange(N)
        w = np.ones(N)
        for it in range(n_iter):
            B = A[:, loc]
            G = (B * w) @ B.conj().T if M <= len(loc) else B.conj().T @ B
            reg = np.abs(np.linalg.eigvals(G)).max() * eps
            reg = int(reg) if trunc else reg
            if M <= len(loc):
                K = G + reg * np.eye(M)
                Q[s, loc] = (w[:, None] * B.conj().T) @ np.linalg.inv(K) @ e
            else:
                K = G + np.diag(reg / w)
                Q[s, loc] = np.linalg.inv(K) @ (B.conj().T @ e)
            worst = max(worst, np.linalg.cond(K))
            if beta < 1 and it > 1:
                left = max(1, round(N * beta**(it + 1)))
                keep = np.argsort(np.abs(Q[s, loc]))[::-1][:left]
                v = np.sort(np.abs(Q[s, loc]))[::-1]
                if left < len(v) and v[left - 1] - v[left] < 1e-9 * v[0]:
                    worst = np.inf
                drop = np.setdiff1d(np.arange(len(loc)), keep)
                if not last:
                    Q[s, loc[drop]] = 0
                loc = loc[np.sort(keep)]
            w = np.abs(Q[s, loc])**(2 - pnorm)
    P = np.abs(Q)**2
    if last:
        x = np.zeros(N)
        x[loc] = P[:, loc].sum(0)
        return x, worst
    return P.sum(0), worst


@monitor('gib', quick=150, thorough=3000, floor=40)
def gib(ctx):
    config.global_caching = 'none'
    st, h, name, r0, rm, M = setup(ctx)
    k, ps, C, f, sel = matrices(ctx, M, r0=r0, rm=rm, c=st.env.c)
    if ctx.flip(0.1):
        k, C = 'silent', np.zeros_like(C)
        ps = ac.PowerSpectraImport(csm=C, frequencies=f)
    i = int(sel[ctx.int(0, len(sel) - 1)])
    N = len(r0)
    n = ctx.int(1, min(3, M - 1))
    m = ctx.pick(0, 0, ctx.int(0, M - n))
    meth = ctx.pick('Suzuki', 'Suzuki', 'Suzuki', 'InverseIRLS', 'LassoLars', 'OMPCV')
    if meth == 'OMPCV' and M < 6:
        meth = 'LassoLars'
    it = ctx.pick(1, 2, 10, ctx.int(3, 30))
    eps, pnorm, beta = ctx.pick(0.05, 0.5, 0.001), ctx.pick(1.0, 1.5, 2.0), ctx.pick(0.9, 0.7, 1.0)
    if meth == 'InverseIRLS':
        it = 1
    bf = ac.BeamformerGIB(freq_data=ps, steer=st, method=meth, n=n, m=m, n_iter=it, eps_perc=eps, pnorm=pnorm, beta=beta, unit_mult=1e3 / np.sqrt(np.abs(C[i]).max() + 1e-300))
    ctx.note(kind=k, steer=name, method=meth, n=n, m=m, it=it, eps=eps, pnorm=pnorm, beta=beta, M=M, N=N)
    ctx.sig(meth, k, n, m, it, M > N, beta, pnorm)
    ctx.event()
    try:
        x = np.array(bf.result[i])
    except AttributeError:
        if meth == 'InverseIRLS' and M > N:
            ctx.soft(False, 'gib-irls@more-microphones-than-points')
            return
        raise
    except np.linalg.LinAlgError:
        # weights of points without any power cannot be inverted
        ctx.soft(False, 'gib-suzuki@singular-weights')
        return
    v, U = np.linalg.eigh(C[i])
    v, U = v[::-1].copy(), U[:, ::-1]
    v[v < v.max() / 1e12] = 0
    if k == 'silent':
        ctx.check(np.all(x == 0), 'gib-silent')
        return
    if not np.isfinite(x).all():
        ctx.check(meth == 'Suzuki', f'gib-finite@{meth}', str(x))
    ctx.check((x >= 0).all() or not np.isfinite(x).all(), f'gib-negative@{meth}')
    A = np.array(st.transfer(f[i])).T
    comp = [s for s in range(m, n + m) if v[s] > 0]
    for s in comp:  # separated eigenvalues only
        if min(abs(v[s] - v[j]) for j in range(M) if j != s) < 1e-3 * v[0]:
            return
    modes = [np.sqrt(v[s]) * U[:, s] for s in comp]
    if not modes:
        ctx.check(np.all(x == 0), 'gib-empty')
        return
    if meth == 'InverseIRLS' and np.linalg.cond(A) < 1e4:
        want = sum(np.abs(np.linalg.pinv(A) @ e)**2 for e in modes)
        ctx.close(x, want, 'gib-minimum-norm', rtol=1e-6)
    if meth != 'Suzuki':
        return
    par = (A, modes, it, pnorm, beta, eps)
    tried = []
    for trunc, last, mech in [(False, False, None), (True, False, 'gib-suzuki@regularisation-truncated'), (False, True, 'gib-suzuki@points-of-last-mode'), (True, True, 'gib-suzuki@points-of-last-mode')]:
        try:
            want, cond = suzuki(*par, trunc, last)
        except np.linalg.LinAlgError:
            return
        if cond > 1e7 or not np.isfinite(want).all():  # numerically undetermined
            ctx.sig('undetermined', trunc)
            return
        ok = bool(np.isfinite(x).all() and np.all(np.abs(x - want) <= (1e-6 + 1e-12 * cond) * want.max()))
        tried.append(float(np.abs(x - want).max() / want.max()))
        if ok:
            ctx.sig('matched', trunc, last, n, it)
            ctx.soft(mech is None, mech, f'{tried}')
            return
    ctx.check(False, 'gib-suzuki', f'deviations {tried}')


@monitor('gridless', quick=30, thorough=400, floor=10, timeout=240)
def gridless(ctx):
    """The global search finds a single source and its power."""
    config.global_caching = 'none'
    M = ctx.int(12, 24)
    m = zoo.mics(ctx, M, 0.6)
    e = ac.Environment(c=ctx.pick(343.0, 340.0))
    nf = ctx.int(1, 3)
    f = np.sort(ctx.rng.uniform(400, 1500, nf))
    z = ctx.uni(0.4, 0.6)
    src = np.array([ctx.uni(-0.3, 0.3), ctx.uni(-0.3, 0.3), z])
    p = 10.0**ctx.uni(-4, 2)
    rm = np.linalg.norm(m.pos.T - src, axis=1)
    a = transfer_point(f, e.c, src, rm)
    C = p * np.einsum('fi,fj->fij', a, a.conj())
    st = ac.SteeringVector(mics=m, env=e, steer_type=ctx.pick('true location', 'classic'), grid=ac.ImportGrid(pos=np.zeros((3, 1)) + 0.5))
    n = ctx.pick(1, 1, 2)
    bf = ac.BeamformerGridlessOrth(freq_data=ac.PowerSpectraImport(csm=C, frequencies=f), steer=st, r_diag=False, n=n,
                                   bounds=[(-0.5, 0.5), (-0.5, 0.5), (z - 0.05, z + 0.05)], shgo={'n': 128})
    if n == 2 and ctx.flip():  # the order in which components are named does not matter
        bf.eva_list = np.array(ctx.pick([-2, -1], [M - 2, -1], [M - 1, M - 2]))
    roi = None
    if ctx.flip(0.3):
        roi = e.roi = ctx.rng.standard_normal((3, 5))
        roi = roi.copy()
    if ctx.flip(0.3):  # another number of lines before
        bf.freq_data = ac.PowerSpectraImport(csm=np.concatenate([C, C[:1]]), frequencies=np.append(f, 2000.0))
        ctx.check(np.array(bf.result[nf]).shape == (n * (nf + 1),) and np.array(bf.pos).shape == (3, n * (nf + 1)), 'gridless-shape')
        bf.freq_data = ac.PowerSpectraImport(csm=C, frequencies=f)
    ctx.note(M=M, nf=nf, n=n, src=list(src), kind=st.steer_type)
    ctx.sig(M, nf, n, st.steer_type)
    order = [int(i) for i in ctx.rng.permutation(nf)]
    for i in order:
        row = np.array(bf.result[i])
        ctx.check(row.shape == (n * nf,), 'gridless-shape', str(row.shape))
        used = np.zeros(n * nf, bool)
        used[i * n:(i + 1) * n] = True
        power = np.trace(C[i]).real / M
        ctx.check(np.all(row[~used] == 0), 'gridless-other-lines')
        ctx.check(abs(row[i * n] - power) <= 1e-9 * power and np.all(np.abs(row[i * n + 1:(i + 1) * n]) <= 1e-9 * power), 'gridless-power', lambda: f'{row} {power}')
        pos = np.array(bf.pos)[:, i * n]
        every = np.array(bf.pos)[:, i * n:(i + 1) * n].T
        ctx.check(np.all(every >= [-0.5, -0.5, z - 0.05]) and np.all(every <= [0.5, 0.5, z + 0.05]), 'gridless-bounds', str(pos))

        def val(x):
            w = steering(st.steer_type, transfer(f[i], e.c, np.array([np.linalg.norm(x) if np.all(st.ref == 0) else float(np.max(st.ref))]), np.linalg.norm(m.pos.T - x, axis=1)[None]))
            u = a[i] / np.linalg.norm(a[i])
            return abs(w[0].conj() @ u)**2

        # the found point is as good as the true one (a maximum for 'true location', near it else)
        ctx.check(st.steer_type == 'classic' or val(pos) >= val(src) * 0.95, 'gridless-maximum', lambda: f'{pos} {val(pos)} true {src} {val(src)}')
        ctx.check(e.roi is None if roi is None else np.array_equal(e.roi, roi), 'gridless-environment', f'{e.roi}')
        ctx.event()


def transfer_point(f, c, src, rm):
    r0 = np.linalg.norm(src)
    k = 2 * np.pi * f[:, None] / c
    return r0 / rm * np.exp(-1j * k * (rm - r0))
