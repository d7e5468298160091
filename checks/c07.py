"""C07: results always reflect the current settings."""
import acoular as ac
import spec
from vf import Skip, monitor

RULE = ('a case builds one object graph and applies a random sequence of assignments anywhere in it, with full, partial or no reads between, '
        'then compares the live object with a newly built one; non-trivial = root class x assigned class.trait x read/unread before')
ASSUMPTIONS = ['values compared with relative tolerance 1e-11; arrays are replaced, not edited in place; lists and dictionaries are replaced or edited item by item']


def peek(ctx, o, names):
    """Read a few public attributes, so that lazily computed values are held."""
    for n in names:
        try:
            getattr(o, n)
        except Exception:  # noqa: BLE001, S110
            pass


def edit(ctx, cur, new):
    """Give a list or dictionary trait its new contents by item operations."""
    if isinstance(cur, dict):
        if ctx.flip():
            cur.update(new)
            for k in [k for k in cur if k not in new]:
                del cur[k]
        else:
            for k in [k for k in cur if k not in new]:
                cur.pop(k)
            for k, v in new.items():
                cur[k] = v
        return
    for i in range(min(len(cur), len(new))):
        cur[i] = new[i]
    if len(new) > len(cur):
        if ctx.flip():
            cur.extend(new[len(cur):])
        else:
            for v in new[len(cur):]:
                cur.append(v)
    while len(cur) > len(new):
        cur.pop()


PEEK = ['num_samples', 'num_channels', 'channels', 'num_freqs', 'freqs', 'indices', 'freq_range', 'num_blocks', 'size', 'pos', 'shape', 'sos', 'bands', 'csm', 'digest',
        'result', 'interval', 'tck', 'mpos', 'pos_total', 'center', 'aperture', 'r0', 'rm', 'num_mics', 'trigger_data', 'angle']


def retarget(ctx, name):
    """A kept object is given the settings of another data set (other channel count, length and rate), all of them or only some."""
    root = spec.make(ctx, name, spec.D(ctx))
    memo = {}
    live = spec.build(root, memo)
    ctx.note(cls=name)
    hist = []
    for _ in range(ctx.int(1, 2)):
        if ctx.flip(0.7):
            try:
                spec.fingerprint(root, live)
            except Exception:  # noqa: BLE001, S110
                pass
        other = spec.make(ctx, name, spec.D(ctx))
        some = ctx.flip(0.5)
        kept = []
        for k in ctx.rng.permutation(list(root.kw)):
            k = str(k)
            if some and k not in ('source', 'freq_data') and ctx.flip(0.6):
                kept.append(k)
                continue
            root.kw[k] = other.kw[k]
            try:
                setattr(live, k, spec.value(other.kw[k], memo))
            except Exception as e:
                ctx.check(False, f'assignment-refused@{name}', f'{k}: {e!r} after {hist}')
            if ctx.flip(0.3):
                peek(ctx, live, PEEK)
        hist.append(f'retarget, kept {kept}')
        ctx.note(steps=hist)
        ctx.event()
        ctx.sig(name, 'retarget', some, len(kept))
    compare(ctx, name, root, live, hist)


def run(name, steps):
    def fn(ctx):
        ac.config.global_caching = 'none'
        if ctx.flip(0.25):
            retarget(ctx, name)
            return
        d = spec.D(ctx)
        root = spec.make(ctx, name, d)
        memo = {}
        live = spec.build(root, memo)
        keep = [memo]  # objects stay alive
        ctx.note(cls=name, steps=[])
        first = spec.fingerprint(root, live) if ctx.flip(0.7) else None
        d0 = live.digest
        orig = root.copy() if first is not None else None
        log, undo = [], []
        for k in range(ctx.int(1, steps)):
            t = spec.targets(root)
            lists = [x for x in t if isinstance(x[1].kw[x[2]], (list, dict))]
            if lists and ctx.flip(0.25):
                t = lists
            path, nd, trait = t[int(ctx.rng.integers(len(t)))]
            o = memo[id(nd)]
            old = nd.kw[trait]
            new, kind = spec.redraw(ctx, d, nd, trait)
            log.append(f'{path}.{trait} ({kind})')
            ctx.note(steps=log)
            nd.kw[trait] = new
            inplace = isinstance(new, (list, dict)) and isinstance(getattr(o, trait), type(new)) and bool(new) and ctx.flip(0.6)
            if inplace:  # the list or dictionary of the object is edited, not replaced
                log[-1] += ' in place'
                edit(ctx, getattr(o, trait), spec.value(new, memo))
                if isinstance(new, dict):
                    nd.kw[trait] = dict(getattr(o, trait))  # in the order the edits have left
            else:
                setattr(o, trait, spec.value(new, memo))
            undo.append((nd, trait, old))
            ctx.event()
            how = ctx.pick('none', 'peek', 'digest', 'full')
            ctx.sig(name, nd.cls, trait, how, inplace)
            if how == 'peek':
                peek(ctx, live, PEEK)
            elif how == 'digest':
                live.digest  # noqa: B018
            elif how == 'full':
                compare(ctx, name, root, live, log)
        compare(ctx, name, root, live, log)
        if first is not None and ctx.flip(0.5):
            # restore the original values one by one, in reverse order
            for nd, trait, old in reversed(undo):
                nd.kw[trait] = old
                setattr(memo[id(nd)], trait, spec.value(old, memo))
            bad = spec.differs(spec.fingerprint(root, live), first, 1e-11)
            ctx.check(not bad, f'not-restored@{name}', f'after restoring all settings ({log}): {bad}')
            ctx.check(live.digest == d0, f'identity-not-restored@{name}', f'{log}')
            assert orig is not None
        del keep
    return fn


def compare(ctx, name, root, live, log):
    fresh = spec.build(root.copy())
    try:
        want = spec.fingerprint(root, fresh)
    except Exception as e:  # settings that are refused: the live object must refuse too
        try:
            spec.fingerprint(root, live)
        except type(e):
            raise Skip from None
        ctx.check(False, f'stale-accepts@{name}', f'fresh object raises {e!r}, live object delivers after {log}')
    last = log[-1].split(' ')[0]
    bad = spec.differs(spec.fingerprint(root, live), want, 1e-11)
    ctx.check(not bad, f'stale@{name}:{last}', f'after {log}: {bad}')
    ctx.check(live.digest == fresh.digest, f'stale-identity@{name}', f'digest differs from that of a fresh object after {log}')


for _n in spec.NAMES:
    monitor(_n, quick=10 if _n in spec.SLOW else 40, thorough=300, floor=8, timeout=240)(run(_n, 4))
