"""State watchers: snapshots of everything the user supplied to an object graph."""
import numpy as np
from traits.api import HasTraits

SKIP = {'h5f', 'write_flag', 'h5f_debug', 'tables', 'file'}


def _walk(o, path, seen, out, depth=0):
    if depth > 12:
        return
    if isinstance(o, np.ndarray):
        out[path] = ('arr', o, o.copy())
    elif isinstance(o, (bool, int, float, complex, str, bytes, np.generic, type(None))):
        out[path] = ('val', o, o)
    elif isinstance(o, tuple) and all(isinstance(x, (bool, int, float, str)) for x in o):
        out[path] = ('val', o, o)
    elif isinstance(o, (list, tuple)):
        out[path + '#len'] = ('val', len(o), len(o))
        for i, x in enumerate(o):
            _walk(x, f'{path}[{i}]', seen, out, depth + 1)
    elif isinstance(o, dict):
        for k, x in o.items():
            _walk(x, f'{path}[{k!r}]', seen, out, depth + 1)
    elif isinstance(o, HasTraits):
        if id(o) in seen:
            return
        seen[id(o)] = o
        for k in sorted(o.__dict__):
            if k.startswith('_') or k in SKIP:
                continue
            _walk(o.__dict__[k], f'{path}.{k}', seen, out, depth + 1)


class Watch:
    """Remembers the user-visible state reachable from obj; changed() lists what differs now."""

    def __init__(self, obj):
        self.obj = obj
        self.out, self.seen = {}, {}
        _walk(obj, type(obj).__name__, self.seen, self.out)
        self.dig = {}
        for i, o in self.seen.items():
            d = getattr(o, 'digest', None)
            if isinstance(d, str):
                self.dig[i] = d

    def changed(self):
        bad = []
        seen, now = {}, {}
        _walk(self.obj, type(self.obj).__name__, seen, now)
        for p, (kind, ref, cp) in self.out.items():
            if kind == 'arr':
                if not np.array_equal(ref, cp, equal_nan=ref.dtype.kind in 'fc'):
                    bad.append(f'array {p} was modified in place')
                if p in now and not (now[p][0] == 'arr' and now[p][1].shape == cp.shape and np.array_equal(now[p][1], cp, equal_nan=cp.dtype.kind in 'fc')):
                    bad.append(f'array {p} was replaced')
            elif p in now:
                a, b = now[p][2], cp
                if not (a == b or (a != a and b != b)):
                    bad.append(f'{p} changed from {b!r} to {a!r}')
            elif p not in now:
                bad.append(f'{p} vanished')
        for i, d in self.dig.items():
            if self.seen[i].digest != d:
                bad.append(f'digest of {type(self.seen[i]).__name__} changed')
        return bad
