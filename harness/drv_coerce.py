"""Coercion and the numeric predicates (C13)."""
import array as pyarray
from decimal import Decimal
from fractions import Fraction

import common
from common import F, Gen, Watch, call, guarded, np, q

DT = {'f8': np.float64, 'f4': np.float32, 'f2': np.float16, 'i1': np.int8, 'i2': np.int16, 'i4': np.int32, 'i8': np.int64,
      'u1': np.uint8, 'u2': np.uint16, 'u4': np.uint32, 'u8': np.uint64}
NAMES = {np.dtype(v): k for k, v in DT.items()}


class Thing:
    pass


BAD = {'bool': [True, False], 'text': ['1', '', 'abc', b'1'], 'complex': [1j, 2 + 0j, np.complex128(1)],
       'nan': [float('nan'), np.float64('nan'), np.float32('nan')], 'inf': [float('inf'), -float('inf'), np.float64('inf')],
       'none': [None], 'time': [np.datetime64('2001-02-03'), np.timedelta64(3, 's')], 'obj': [Thing(), {}, len, {1}]}
OBJECTS = {'dict': lambda: {1: 2.0}, 'emptydict': dict, 'set': lambda: {1.0, 2.0}, 'emptyset': set, 'frozenset': lambda: frozenset([1]),
           'gen': lambda: (i for i in [1.0, 2.0, 3.0]), 'iter': lambda: iter([1.0]), 'str': lambda: '123', 'emptystr': lambda: '',
           'bytes': lambda: b'12', 'object': Thing, 'type': lambda: int, 'func': lambda: len, 'map': lambda: map(float, [1]),
           'keys': lambda: {1: 2}.keys(), 'exc': lambda: ValueError('1')}
RAGGED = {'rows': lambda: [[1.0, 2.0], [3.0]], 'depth': lambda: [[1.0, 2.0], 3.0], 'tuple': lambda: ((1.0,), (2.0, 3.0)),
          'arrays': lambda: [np.zeros(2), np.zeros(3)], 'empty': lambda: [[], [1.0]]}


def number(x, how):
    """A real number as one of Python's or numpy's."""
    return {'f': float, 'i': int, 'd': lambda v: Decimal(repr(v)), 'fr': Fraction, 'f4': np.float32, 'f8': np.float64,
            'i8': lambda v: np.int64(int(v)), 'u1': lambda v: np.uint8(int(v)), 'big': lambda v: int(v)}[how](x)


def build(x):
    """The input a descriptor stands for."""
    k = x['kind']
    if k == 'none':
        return None
    if k == 'object':
        return OBJECTS[x['name']]()
    if k == 'ragged':
        return RAGGED[x['name']]()
    vals = [common.fr(v) for v in x['v']]
    form = x.get('form', 'f')
    if k == 'scalar':
        return number(vals[0], form) if x['elem'] == 'real' else BAD[x['elem']][x['pick'] % len(BAD[x['elem']])]
    shape = tuple(x['shape'])
    if x['elem'] == 'real':
        flat = [number(v, form if form in ('f', 'i', 'd', 'fr') else 'f') for v in vals]
    else:
        bad = BAD[x['elem']]
        flat = [bad[x['pick'] % len(bad)] if j == x['at'] % max(1, len(vals)) or x['elem'] in ('bool', 'time') else v
                for j, v in enumerate(vals)]
    cont = x['cont']
    if cont == 'array':
        if x['elem'] == 'real' and form in DT:
            a = np.array(flat, dtype=DT[form])
        elif x['elem'] == 'real' and form in ('d', 'fr') or x.get('objarr'):
            a = np.empty(len(flat), dtype=object)
            for j, v in enumerate(flat):
                a[j] = v
        elif not flat:
            a = np.array(flat, dtype={'text': '<U1', 'complex': complex, 'bool': bool}.get(x['elem'], float))
        else:
            a = np.array(flat)
        a = a.reshape(shape)
        lay = x.get('layout', 'c')
        if lay == 'F' and a.ndim:
            a = np.asfortranarray(a)
        elif lay == 'n' and a.ndim:
            big = np.empty(tuple(2 * n for n in a.shape), dtype=a.dtype)
            v = big[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            a = v
        elif lay == 'r':
            a.flags.writeable = False
        return a
    if cont == 'range':
        return range(1, 1 + shape[0])
    if cont == 'mem':
        return memoryview(pyarray.array('d', flat))
    if cont == 'arr':
        return pyarray.array('d', flat)

    def nest(i, sh):
        if not sh:
            return flat[i]
        step = 1
        for n in sh[1:]:
            step *= n
        items = [nest(i + j * step, sh[1:]) for j in range(sh[0])]
        return tuple(items) if cont == 'tuple' or (cont == 'mixed' and len(sh) == 1) else items
    if cont == 'rows':            # a list of arrays
        return [np.array(nest(j * shape[1], shape[1:])) for j in range(shape[0])]
    return nest(0, shape)


def see(r):
    if type(r) is np.ndarray:
        try:
            flat = [q(v if not isinstance(v, Decimal) else Fraction(v)) for v in r.ravel().tolist()]
        except Exception:  # pylint: disable=broad-except
            return {'k': 'bad', 'v': str(r.dtype)}
        return {'k': 'array', 'shape': list(r.shape), 'dtype': NAMES.get(r.dtype, str(r.dtype)), 'flat': flat}
    return common.obs(r)


def run(ops):
    from blmath.numerics.coercion import as_numeric_array
    from blmath.numerics.predicates import is_empty_arraylike, isnumeric, isnumericarray, isnumericscalar
    events = []
    for op in ops:
        ev = dict(op)
        a = build(op['x'])
        w = Watch(a)
        if op['op'] == 'coerce':
            kw = {}
            if op['hs']:
                sh = tuple(op['shape'])
                kw['shape'] = list(sh) if op.get('shlist') else sh
            for f in ('allow_none', 'empty_as_none'):
                if op[f] or op.get('explicit'):
                    kw[f] = op[f]
            if op['dtype']:
                kw['dtype'] = {0: DT[op['dtype']], 1: op['dtype'], 2: np.dtype(op['dtype'])}[op.get('dtform', 0)]
            r = guarded(lambda: (as_numeric_array(a, **kw),))
            ev['obs'] = see(r[0]) if isinstance(r, tuple) else r
        else:
            ev['obs'] = {'num': call(isnumeric, a), 'scalar': call(isnumericscalar, a),
                         'array': call(isnumericarray, a), 'empty': call(is_empty_arraylike, a)}
        ev['mut'] = op['x']['kind'] not in ('object',) and w.changed()
        events.append(ev)
    return events


SHAPES = [[], [0], [1], [2], [3], [4], [1, 3], [3, 1], [2, 3], [3, 2], [3, 3], [4, 3], [3, 4], [1, 1], [0, 3], [3, 0], [1, 0], [0, 0],
          [2, 2, 3], [3, 2, 2], [2, 3, 4], [4, 2, 3], [3, 2, 1], [1, 2, 1], [3, 1, 0], [5, 3], [3, 7], [2, 1, 2, 3]]


def size(sh):
    n = 1
    for k in sh:
        n *= k
    return n


def describe(g):
    r = g.r.random()
    base = {'elem': 'real', 'shape': [], 'v': [], 'cont': 'other', 'pick': g.int(0, 5), 'at': g.int(0, 9)}
    if r < 0.04:
        return dict(base, kind='none')
    if r < 0.12:
        return dict(base, kind='object', elem='obj', name=g.pick(sorted(OBJECTS)))
    if r < 0.17:
        return dict(base, kind='ragged', name=g.pick(sorted(RAGGED)))
    if r < 0.32:
        if g.chance(0.5):
            return dict(base, kind='scalar', elem=g.pick(sorted(set(BAD) - {'none'})), v=[q(1.0)])
        x = g.pick([0.0, 1.0, -2.0, 0.5, 3.25, 200.0])
        forms = ['f', 'd', 'fr', 'f4', 'f8'] + (['i', 'i8'] if x == int(x) else []) + (['u1'] if x == int(x) and x >= 0 else [])
        return dict(base, kind='scalar', v=[q(x)], form=g.pick(forms))
    sh = g.pick(SHAPES)
    n = size(sh)
    cont = g.pick(['array'] * 4 + ['list', 'tuple', 'mixed', 'list'])
    if len(sh) == 0:
        cont = 'array'
    if n == 0 and cont != 'array':
        # an empty list has the shape numpy gives it
        sh = g.pick([[0], [1, 0], [2, 0], [3, 0]])
    if cont == 'mixed' and len(sh) < 2:
        cont = 'list'
    if len(sh) == 2 and n and g.chance(0.06):
        cont = 'rows'
    if g.chance(0.25):
        elem = g.pick(sorted(BAD))
        if elem in ('bool', 'text', 'complex') and cont == 'array' or n:
            d = dict(base, kind='nested', elem=elem, shape=sh, cont=cont, v=[q(float(1 + j % 7)) for j in range(n)])
            if elem in ('bool', 'none', 'nan', 'inf', 'complex', 'obj') and cont == 'array' and n and g.chance(0.2) or elem == 'obj':
                d['objarr'] = True
            if elem == 'text':
                d['pick'] = 0 if n and cont == 'rows' else d['pick']
            if cont == 'rows' or elem == 'obj' and cont != 'array':
                d['cont'] = 'list'
            return d
    if len(sh) == 1 and g.chance(0.15):
        if g.chance(0.5):
            return dict(base, kind='nested', shape=sh, cont='range', v=[q(1.0 + j) for j in range(n)])
        return dict(base, kind='nested', shape=sh, cont=g.pick(['mem', 'arr']), v=[q(j / 2.0) for j in range(n)])
    kind = g.pick(['i', 'i', 'd', 'p', 'z'])
    v = {'i': lambda: float(g.int(-5, 5)), 'd': lambda: g.int(-40, 40) / 8.0, 'p': lambda: float(g.int(0, 250)),
         'z': lambda: 0.0}[kind]
    vals = [v() for _ in range(n)]
    forms = ['f', 'f', 'd', 'fr']
    if kind != 'd':
        forms += ['i', 'i']
    if cont == 'array':
        forms += ['f8', 'f4', 'f2'] + (['i2', 'i4', 'i8'] if kind != 'd' else []) + (['u1', 'u2', 'u8'] if kind in 'pz' else [])
    form = g.pick(forms)
    return dict(base, kind='nested', shape=sh, cont=cont, v=[q(x) for x in vals], form=form if not (cont == 'rows' and form in ('d', 'fr')) else 'f',
                layout=g.pick(['c', 'c', 'F', 'n', 'r']))


def pattern(g, sh):
    """A pattern related to a shape, or not."""
    r = g.r.random()
    p = list(sh)
    if r < 0.15:
        return g.pick(SHAPES)
    if r < 0.5:
        p = p[::-1]
    elif r < 0.65:                                         # the dimensions in any order
        p = [p[i] for i in g.r.permutation(len(p))]
    if g.chance(0.6):
        p = [-1 if g.chance(0.5) else k for k in p]
    if g.chance(0.3) and p:
        i = g.int(0, len(p) - 1)
        p[i] = g.pick([p[i] + 1, 3, 1, -1, 0]) if p[i] >= 0 else 3
    if g.chance(0.08):
        p = p + [g.pick([1, -1, 3])]
    return p


def one(g):
    x = describe(g)
    if g.chance(0.35):
        return {'op': 'pred', 'x': x}
    hs = g.chance(0.75)
    return {'op': 'coerce', 'x': x, 'hs': hs, 'shape': pattern(g, x['shape']) if hs else [], 'allow_none': g.chance(0.4),
            'empty_as_none': g.chance(0.35), 'dtype': g.pick(['', '', ''] + sorted(DT)), 'dtform': g.int(0, 2),
            'explicit': g.chance(0.3), 'shlist': g.chance(0.1)}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(150 if tier == 'quick' else 2500):
        yield [one(g) for _ in range(20)]


if __name__ == '__main__':
    common.main(__import__('drv_coerce'))
