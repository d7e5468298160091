"""C33: microphone geometries keep positions, selection and files in step."""
import xml.etree.ElementTree as ET

import acoular as ac
import numpy as np
from vf import Skip, monitor

RULE = ('a case draws positions (random, at the origin, collinear, one or no microphone, tiny and huge) and a history of assignments, in-place changes of the list of invalid channels, '
        'imports and exports; after every step all attributes are compared with those of the positions a bookkeeping model holds; non-trivial = kind of positions x step x number of valid microphones')
ASSUMPTIONS = ['positions are not changed inside the array that was assigned']


def positions(ctx, n=None):
    n = ctx.pick(1, 2, ctx.int(1, 30)) if n is None else n
    k = ctx.pick('random', 'random', 'origin', 'axis', 'tiny', 'huge', 'copies')
    p = ctx.rng.uniform(-2, 2, (3, n))
    if k == 'origin':
        p[:] = 0
    elif k == 'axis':
        p[1:] = 0
    elif k == 'tiny':
        p *= 1e-9
    elif k == 'huge':
        p *= 1e7
    elif k == 'copies':
        p[:] = p[:, :1]
    return p, k


def valid(P, inv):
    return P[:, [i for i in range(P.shape[1]) if i not in inv]]


def agree(ctx, m, P, inv):
    v = valid(P, inv)
    for a in ctx.rng.permutation(['pos', 'num_mics', 'center', 'aperture', 'pos_total']):
        got = getattr(m, a)
        if a == 'pos':
            ctx.equal(got, v, 'pos')
        elif a == 'pos_total':
            ctx.equal(got, P, 'pos-total')
        elif a == 'num_mics':
            ctx.check(got == v.shape[1], 'num-mics', f'{got} {v.shape[1]}')
        elif not v.size:
            ctx.check(got is None, f'{a}-of-nothing', repr(got))
        elif a == 'center':
            want = v.mean(1)
            ctx.check(got is not None and np.shape(got) == (3,) and np.all(np.abs(got - want) <= 1e-13 * np.abs(v).max() + 1e-16), 'center', f'{got} {want}')
        else:
            want = max(np.sqrt(((v[:, i:i + 1] - v)**2).sum(0)).max() for i in range(v.shape[1]))
            ctx.check(got is not None and abs(got - want) <= 1e-12 * want, 'aperture', f'{got} {want}')
    ctx.event()


def write(fn, P, extra=False):
    root = ET.Element('MicArray', name='m')
    for i in range(P.shape[1]):
        if extra:
            ET.SubElement(root, 'comment').text = 'no microphone'
        ET.SubElement(root, 'pos', dict(zip('xyz', (repr(float(x)) for x in P[:, i]))), Name=f'Point {i + 1}')
    ET.ElementTree(root).write(fn, encoding='utf-8', xml_declaration=True)


@monitor('history', quick=400, thorough=12000, floor=120)
def history(ctx):
    P, k = positions(ctx)
    inv = []
    m = ac.MicGeom(pos_total=P.copy())
    agree(ctx, m, P, inv)
    digests = {m.digest: valid(P, inv)}
    for _ in range(ctx.int(1, 8)):
        n = P.shape[1]
        op = ctx.pick('assign', 'invalid', 'append', 'remove', 'item', 'clear', 'slice', 'file', 'export')
        if op == 'assign':
            P, k = positions(ctx, ctx.pick(None, n))
            m.pos_total = ctx.pick(P.copy(), P.tolist())
        elif op == 'invalid':
            inv = [int(i) for i in ctx.rng.choice(n + 2, ctx.int(0, n), replace=False)]
            m.invalid_channels = list(inv)
        elif op == 'append':
            i = ctx.int(0, n)
            inv = inv + [i]
            m.invalid_channels.append(i)
        elif op == 'remove' and inv:
            j = ctx.int(0, len(inv) - 1)
            inv = inv[:j] + inv[j + 1:]
            del m.invalid_channels[j]
        elif op == 'item' and inv:
            j, i = ctx.int(0, len(inv) - 1), ctx.int(0, n - 1)
            inv = inv[:j] + [i] + inv[j + 1:]
            m.invalid_channels[j] = i
        elif op == 'clear':
            inv = []
            m.invalid_channels.clear()
        elif op == 'slice':
            inv = [ctx.int(0, n - 1) for _ in range(ctx.int(0, 3))]
            m.invalid_channels[:] = inv
        elif op == 'file':
            P, k = positions(ctx)
            fn = ctx.scratch / f'g{ctx.int(0, 10**9)}.xml'
            write(fn, P, ctx.flip(.3))
            m.file = str(fn)
        elif op == 'export' and valid(P, inv).size:
            fn = ctx.scratch / f'e{ctx.int(0, 10**9)}.xml'
            m.export_mpos(str(fn))
            ctx.equal(ac.MicGeom(file=str(fn)).pos_total, valid(P, inv), 'export')
        ctx.sig(op, k, min(valid(P, inv).shape[1], 2), bool(inv))
        agree(ctx, m, P, inv)
        ctx.check(m.digest == ac.MicGeom(pos_total=P.copy(), invalid_channels=list(inv)).digest, 'digest-fresh', op)
        v = valid(P, inv)
        old = digests.setdefault(m.digest, v)
        ctx.check(np.array_equal(old, v), 'digest-collision', op)


NAMES = ('array', 'a & b', 'x<y>', 'quo"te', "apo'strophe", 'grüße', 'a.b', '"both\'')


@monitor('files', quick=200, thorough=4000, floor=50)
def files(ctx):
    P, k = positions(ctx)
    if ctx.flip(.4):  # values of every magnitude
        P = ctx.rng.choice([1., -1.], P.shape) * 10.**ctx.rng.uniform(-100, 100, P.shape)
        k = 'magnitudes'
    inv = [int(i) for i in ctx.rng.choice(P.shape[1], ctx.int(0, P.shape[1] - 1), replace=False)]
    m = ac.MicGeom(pos_total=P, invalid_channels=inv)
    name = ctx.pick(*NAMES)
    fn = ctx.scratch / f'{name}.xml'
    if ctx.flip(.3):
        fn.write_text('x' * 100000)  # an older, longer file
    m.export_mpos(ctx.pick(str, lambda f: f)(fn))
    ctx.sig(name, k, bool(inv))
    els = ET.fromstring(fn.read_text('utf-8').split('?>', 1)[1]).findall('pos')
    v = valid(P, inv)
    ctx.equal(np.array([[float(e.get(a)) for e in els] for a in 'xyz']).reshape(3, -1), v, 'written')
    ctx.check([e.get('Name') for e in els] == [f'Point {i + 1}' for i in range(v.shape[1])], 'names')
    n = ac.MicGeom(file=str(fn))
    agree(ctx, n, v, [])
    ctx.equal(m.pos_total, P, 'exporter-changed')
    ctx.equal(n.pos, m.pos, 'restored')
    # a second export is the same file
    f2 = ctx.scratch / 'again' / f'{name}.xml'
    f2.parent.mkdir()
    n.export_mpos(str(f2))
    ctx.check(f2.read_bytes() == fn.read_bytes(), 'second-export')


@monitor('bundled', quick=12, thorough=12, floor=4)
def bundled(ctx):
    from pathlib import Path
    fs = sorted((Path(ac.__file__).parent / 'xml').glob('*.xml'))
    if not fs:
        raise Skip('none')
    fn = fs[ctx.index % len(fs)]
    els = list(ET.fromstring(fn.read_bytes().split(b'?>', 1)[1]).iter('pos'))
    if not els:
        raise Skip('not a geometry')
    P = np.array([[float(e.get(a)) for e in els] for a in 'xyz'])
    m = ac.MicGeom(file=str(fn))
    agree(ctx, m, P, [])
    ctx.sig(fn.name)


@monitor('in-use', quick=80, thorough=1500, floor=20)
def in_use(ctx):
    """objects using the geometry see the selection"""
    P = ctx.rng.uniform(-1, 1, (3, ctx.int(3, 12)))
    m = ac.MicGeom(pos_total=P)
    g = ac.RectGrid(increment=1., z=2.)
    st = ac.SteeringVector(grid=g, mics=m)
    src = ac.PointSource(signal=ac.WNoiseGenerator(sample_freq=1000., num_samples=50), mics=m, loc=(0., 0., 1.))
    for _ in range(3):
        inv = [int(i) for i in ctx.rng.choice(P.shape[1], ctx.int(0, P.shape[1] - 1), replace=False)]
        if ctx.flip():
            m.invalid_channels[:] = inv
        else:
            m.invalid_channels = inv
        v = valid(P, inv)
        d = np.sqrt(((g.pos[:, :, None] - v[:, None, :])**2).sum(0))
        ctx.close(st.rm, d.reshape(st.rm.shape), 'steering-distances', rtol=1e-12)
        ctx.check(src.num_channels == v.shape[1], 'source-channels', f'{src.num_channels}')
        b = next(src.result(16))
        ctx.check(b.shape == (16, v.shape[1]), 'source-shape', f'{b.shape}')
        r = next(ac.PointSource(signal=src.signal, mics=ac.MicGeom(pos_total=v), loc=src.loc).result(16))
        ctx.equal(b, r, 'source-samples')
        ctx.sig(len(inv), P.shape[1] > 6)
    ctx.event(3)
