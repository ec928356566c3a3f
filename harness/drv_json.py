"""Dumping and loading (C12)."""
import collections
import io
import json as stdjson
import os
import tempfile

import common
from common import Gen, Q, fr, guarded, np, q

NONE = '<none>'
VK, AK, SK = '__value__', '__ndarray__', '__scipy.sparse.sparsematrix__'


def build(n, plain=False):
    """The Python object a tree stands for."""
    from blmath.value import Value
    t = n['t']
    if t == 'num':
        if n.get('i') or (int(n['v'][1]) == 1 and not n.get('f')):
            return int(n['v'][0])
        return fr(n['v'])
    if t in ('str', 'bool'):
        return n['v'] if t == 'bool' else n['v'].encode('ascii').decode('unicode_escape')
    if t == 'none':
        return None
    if t == 'list':
        return [build(x) for x in n['v']]
    if t == 'tuple':
        return tuple(build(x) for x in n['v'])
    if t == 'dict':
        items = [(k.encode('ascii').decode('unicode_escape'), build(x)) for k, x in n['v']]
        return collections.OrderedDict(items) if n.get('ordered') else dict(items)
    if t == 'value':
        return Value(fr(n['v']), None if n['u'] == NONE else n['u'])
    raise ValueError(t)


def esc(s):
    return s.encode('unicode_escape').decode('ascii')


def tree(x):
    from blmath.value import Value
    import scipy.sparse as sp
    if x is None:
        return {'t': 'none'}
    if sp.issparse(x):
        return {'t': 'sparse', 'dtype': str(x.dtype), 'format': x.format, 'shape': list(x.shape), 'v': Q(np.asarray(x.todense()))}
    if isinstance(x, bool):
        return {'t': 'bool', 'v': x}
    if isinstance(x, (int, float)):
        return {'t': 'num', 'v': q(x)}
    if isinstance(x, str):
        return {'t': 'str', 'v': esc(x)}
    if isinstance(x, list):
        return {'t': 'list', 'v': [tree(y) for y in x]}
    if isinstance(x, dict):
        return {'t': 'dict', 'v': [[esc(k), tree(y)] for k, y in x.items()]}
    if type(x) is Value:
        return {'t': 'value', 'v': q(x.value), 'u': NONE if x.units is None else x.units}
    if type(x) is np.ndarray and x.dtype.kind in 'fiub':
        return {'t': 'arr', 'dtype': str(x.dtype), 'shape': list(x.shape), 'v': Q(x)}
    return {'t': 'bad', 'v': type(x).__name__}


def run(ops):
    from blmath.util import json
    events = []
    for op in ops:
        ev = dict(op)
        ev['mut'] = False
        x = build(op['tree'])
        if op['op'] == 'roundtrip':
            before = tree(x)
            kw = op.get('kw', {})
            if op['via'] == 'str':
                r = guarded(lambda: (tree(json.loads(json.dumps(x, **kw))),))
            elif op['via'] == 'io':
                def viaio():
                    f = io.StringIO()
                    json.dump(x, f, **kw)
                    f.seek(0)
                    return (tree(json.load(f)),)
                r = guarded(viaio)
            else:
                def viafile():
                    fd, path = tempfile.mkstemp(dir=os.environ['VERIF_SCRATCH'])
                    os.close(fd)
                    with open(path, 'w') as f:
                        json.dump(x, f, **kw)
                    with open(path) as f:
                        y = tree(json.load(f))
                    os.unlink(path)
                    return (y,)
                r = guarded(viafile)
            ev['mut'] = tree(x) != before
        else:
            text = stdjson.dumps(x)
            if op['via'] == 'str':
                r = guarded(lambda: (tree(json.loads(text)),))
            else:
                r = guarded(lambda: (tree(json.load(io.StringIO(text))),))
        ev['obs'] = r[0] if isinstance(r, tuple) else {'t': 'exc', 'v': r['t']}
        events.append(ev)
    return events


KEYS = ['a', 'b', 'value', 'units', 'dtype', 'shape', 'data', 'row', 'col', 'format', '', 'x y', '\u00e9', '__values__', '__ndarray', 'ndarray']
DTYPES = {'float64': 'f', 'f8': 'f', 'float': 'f', 'd': 'f', 'float32': 'd', 'f4': 'd', 'int64': 'i', 'i8': 'i', 'int': 'i',
          'int32': 'i', 'i4': 'i', 'int8': 'i', 'uint8': 'u', 'u1': 'u', 'uint16': 'u', 'bool': 'b'}
from drv_units import NAMES  # noqa: E402  pylint: disable=wrong-import-position


def num(g, kind=None):
    if kind in ('big', 'sum'):                     # 64-bit whole numbers, more than a float holds
        return {'t': 'num', 'v': q(g.pick([2 ** 53 + 1, -2 ** 53 - 1, 10 ** 17 + 1, 7, 0] + ([2 ** 62 + 3, -2 ** 63] if kind == 'big' else [])))}
    if kind is None and g.chance(0.1):
        return {'t': 'num', 'v': q(g.pick([10 ** 17 + 1, -2 ** 40, 1e300, 1e-300, 5e-324, -1.5e10])), 'f': False}
    if kind == 'u':
        return {'t': 'num', 'v': q(g.int(0, 60))}
    if kind == 'b':
        return {'t': 'bool', 'v': g.chance(0.5)} if g.chance(0.7) else {'t': 'num', 'v': q(g.int(0, 3))}
    x = g.num(kind if kind != 'f' else None)
    return {'t': 'num', 'v': q(x), 'f': g.chance(0.5) and kind != 'i'}


def nested(g, shape, kind):
    if not shape:
        return num(g, kind)
    return {'t': 'list', 'v': [nested(g, shape[1:], kind) for _ in range(shape[0])]}


def leaf(g):
    r = g.r.random()
    if r < 0.35:
        return num(g)
    if r < 0.5:
        return {'t': 'str', 'v': esc(g.pick(['', 'cm', '__value__', 'x', '\u00e9\u4e2d', 'a"b\\c', '\n', '1.5', 'null']))}
    if r < 0.6:
        return g.pick([{'t': 'bool', 'v': True}, {'t': 'bool', 'v': False}, {'t': 'none'}])
    if r < 0.65:
        return g.pick([{'t': 'list', 'v': []}, {'t': 'dict', 'v': []}])
    x = g.num() * g.pick([1.0, 1e8, 1e-8])
    return {'t': 'value', 'v': q(x), 'u': g.pick(NAMES + [NONE, NONE, NONE])}


def plain(g, depth):
    r = g.r.random()
    if depth == 0 or r < 0.3:
        return leaf(g)
    n = g.int(0, 4)
    if r < 0.6:
        return {'t': g.pick(['list', 'list', 'tuple']), 'v': [plain(g, depth - 1) for _ in range(n)]}
    ks = sorted({g.pick(KEYS) for _ in range(n)})
    return {'t': 'dict', 'v': [[esc(k), plain(g, depth - 1)] for k in ks], 'ordered': g.chance(0.3)}


def shuffled(g, xs):
    return [xs[i] for i in g.r.permutation(len(xs))]


def annotated(g):
    r = g.r.random()
    S = lambda s: {'t': 'str', 'v': s}
    L = lambda xs: {'t': 'list', 'v': [{'t': 'num', 'v': q(x)} for x in xs]}
    if r < 0.2:
        inner = [['value', num(g, g.pick('fi'))]]
        if g.chance(0.8):
            inner.append(['units', g.pick([S(g.pick(NAMES)), {'t': 'none'}])])
        return {'t': 'dict', 'v': [[VK, {'t': 'dict', 'v': shuffled(g, inner)}]]}
    if r < 0.55:
        shape = g.pick([[3], [0], [1], [2, 3], [3, 2], [1, 1], [2, 0], [2, 2, 2], [1, 3, 1], [4, 3]])
        dt = g.pick(list(DTYPES) + [None, None, None])
        items = [[AK, nested(g, shape, 'big' if dt in ('int64', 'i8', 'int') and g.chance(0.4) else DTYPES.get(dt, 'f'))]]
        if dt:
            items.append(['dtype', S(dt)])
        if g.chance(0.15):
            items.append(['shape', L(shape)])
        return {'t': 'dict', 'v': shuffled(g, items)}
    r_, c_ = g.int(1, 4), g.int(1, 4)
    n = g.int(0, 6)
    dt = g.pick(['float64', 'float32', 'int64', 'int32', 'f8', 'i4'])
    items = {'dtype': S(dt), 'shape': L([r_, c_]), 'format': S(g.pick(['csr', 'csc', 'coo', 'lil', 'dok', 'dia', 'bsr'])),
             'data': nested(g, [n], 'sum' if dt == 'int64' and g.chance(0.3) else {'f': 'd', 'd': 'd', 'i': 'i'}[DTYPES[dt]]),
             'row': L([g.int(0, r_ - 1) for _ in range(n)]), 'col': L([g.int(0, c_ - 1) for _ in range(n)])}
    ks = list(items)
    if g.chance(0.35):
        ks = [k for k in ks if g.chance(0.8)]
    mark = g.pick([{'t': 'bool', 'v': True}, {'t': 'num', 'v': q(1)}, {'t': 'none'}, {'t': 'bool', 'v': False}])
    return {'t': 'dict', 'v': shuffled(g, [[SK, mark]] + [[k, items[k]] for k in ks])}


def withann(g, depth):
    """Plain data and annotations, nested."""
    r = g.r.random()
    if r < 0.4 or depth == 0:
        return annotated(g) if g.chance(0.7) else leaf_plain(g)
    n = g.int(1, 3)
    if r < 0.7:
        return {'t': 'list', 'v': [withann(g, depth - 1) for _ in range(n)]}
    ks = sorted({g.pick(KEYS) for _ in range(n)})
    return {'t': 'dict', 'v': [[esc(k), withann(g, depth - 1)] for k in ks]}


def leaf_plain(g):
    while True:
        x = leaf(g)
        if x['t'] != 'value':
            return x


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(110 if tier == 'quick' else 1500):
        ops = []
        for _ in range(8):
            if g.chance(0.45):
                ops.append({'op': 'roundtrip', 'tree': plain(g, g.int(0, 4)), 'via': g.pick(['str', 'str', 'io', 'file']),
                            'kw': g.pick([{}, {}, {'indent': 2}, {'sort_keys': True}, {'separators': [',', ':']}])})
            else:
                ops.append({'op': 'decode', 'tree': withann(g, g.int(0, 2)), 'via': g.pick(['str', 'io'])})
        yield ops


if __name__ == '__main__':
    common.main(__import__('drv_json'))
