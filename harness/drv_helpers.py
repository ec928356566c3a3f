"""Rounding, scaling, guarded division, reshaping, shortcuts, translation (C23)."""
import operator
import warnings

import common
from common import F, Gen, Q, Watch, arr, fr, guarded, np, obs, q, rescaled

OPERS = {'add': np.add, 'sub': operator.sub, 'mul': np.multiply, 'max': np.maximum}


def number(x, form):
    x = fr(x)
    if form == 'int':
        return int(x)
    if form == 'np':
        return np.float64(x)
    return x


def typed(a, form):
    if form in ('u1', 'i1', 'i2', 'u2', 'i4', 'f4', 'f2'):
        return np.array(F(a)).astype(form)
    return arr(a, form)


def run(ops):
    from blmath.geometry.transform.translation import translation
    from blmath.numerics import matlab, np_make_readonly, np_reshape_safe, round_to, rounded_list, scale_to_range, zero_safe_divide
    events = []
    for op in ops:
        ev = dict(op)
        kind = op['op']
        w = Watch()
        if kind == 'round':
            v, inc = number(op['v'], op['vform']), number(op['inc'], op['iform'])
            ev['obs'] = common.call(round_to, v, inc)
        elif kind == 'rlist':
            items = [None if it['none'] else number(it['v'], it['form']) for it in op['items']]
            w = Watch(items)
            given = items if op['as'] == 'list' else tuple(items) if op['as'] == 'tuple' else (x for x in items)
            ev['obs'] = common.call(rounded_list, given, **({'precision': op['prec']} if op['told'] else {}))
        elif kind == 'scale':
            a = typed(op['a'], op['form'])
            w = Watch(a)
            ev['obs'] = common.call(scale_to_range, a, number(op['lo'], op['nform']), number(op['hi'], op['nform']))
            ev['eps'] = q(1e-5 if op['form'] == 'f4' else 1e-12)
        elif kind == 'divide':
            a, b = arr(op['a'], op['form']), arr(op['b'], op['bform'])
            if op['flat']:
                b = b[0] if op['flat'] == 'row' else b[0, 0]
            w = Watch(a, b)
            ev['obs'] = common.call(zero_safe_divide, a, b, **({'default_error_value': fr(op['dflt'])} if op['told'] else {}))
        elif kind == 'reshape':
            n = 64
            buf = np.arange(n)
            a = np.lib.stride_tricks.as_strided(buf[op['off']:], op['shape'], [8 * s for s in op['strides']])
            w = Watch(a, buf)
            shape = tuple(op['new'])

            def go():
                r = np_reshape_safe(a, shape, **({'just_warn': True} if op['justwarn'] else {}))
                if type(r) is not np.ndarray:
                    return {'k': 'bad', 'v': type(r).__name__}
                return {'k': 'shaped', 'shape': list(r.shape), 'flat': obs(r.flatten()), 'shares': bool(np.shares_memory(r, a))}
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter('always')
                ev['obs'] = guarded(go)
            ev['warned'] = any(issubclass(x.category, UserWarning) for x in got)
        elif kind == 'readonly':
            items = []
            for it in op['items']:
                items.append({'arr': lambda: np.arange(3.0), 'mat': lambda: np.ones((2, 2), dtype=int), 'view': lambda: np.arange(6.0)[::2],
                              'ro': lambda: arr(Q([1.0]), 'r'), 'empty': lambda: np.zeros((0, 3)), 'zero': lambda: np.array(5.0),
                              'sub': lambda: np.ones(3).view(np.recarray), 'none': lambda: None, 'num': lambda: 2.5, 'list': lambda: [1, 2], 'str': lambda: 'x'}[it]())
            before = [repr(x) for x in items]

            def freeze():
                np_make_readonly(items if op['as'] == 'list' else tuple(items) if op['as'] == 'tuple' else iter(items))
                out = []
                for x, b in zip(items, before):
                    said = 'kept' if repr(x) == b else 'changed'
                    if isinstance(x, np.ndarray) and said == 'kept':
                        said = 'readonly'
                        try:
                            x[...] = 7
                            said = 'writable'
                        except ValueError:
                            pass
                    out.append(said)
                return obs(out)
            ev['obs'] = guarded(freeze)
            ev['items'] = ['other' if it in ('none', 'num', 'list', 'str') else it for it in op['items']]
        elif kind in ('row', 'col'):
            a = arr(op['a'], op['form'])
            if op['flat']:
                a = a[0]
            w = Watch(a)
            ev['obs'] = common.call(getattr(matlab, kind), a)
        elif kind == 'bsx':
            a, b = arr(op['a'], op['form']), arr(op['b'], op['form'])
            w = Watch(a, b)
            ev['obs'] = common.call(matlab.bsxfun, OPERS[op['f']], a, b)
        elif kind == 'sparse':
            i, j, d = np.array(op['i']).reshape(op['ishape']), np.array(op['j']).reshape(op['ishape']), arr(op['data'])
            w = Watch(i, j, d)

            def build():
                r = matlab.sparse(i, j, d, op['m'], op['n']) if op['sized'] else matlab.sparse(i, j, d)
                return {'k': 'sparse', 'v': obs(r.toarray())}
            ev['obs'] = guarded(build)
        else:
            p = arr(op['p'], op['form'])
            f = arr(op['factor'], op['fform']) if op['given'] else None
            w = Watch(p, f)

            def move():
                r = translation(p, f) if op['given'] else translation(p)
                if not isinstance(r, tuple) or len(r) != 2:
                    return {'k': 'bad', 'v': 'not a pair'}
                return {'k': 'moved', 'image': obs(r[0]), 'factor': obs(r[1])}
            ev['obs'] = guarded(move)
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def item(g):
    if g.chance(0.2):
        return {'none': True, 'v': q(0), 'form': 'float'}
    v = g.num() * g.pick([1.0, 1.0, 100.0, 1e4, 1e-3])
    if v == round(v):
        return {'none': False, 'v': q(v), 'form': g.pick(['int', 'float', 'np'])}
    return {'none': False, 'v': q(v), 'form': g.pick(['float', 'float', 'np'])}


FLOAT = set('fFnrl')


def one(g):
    op = draw(g)
    k = op['op']
    if k == 'scale' and op['form'] in FLOAT:
        return rescaled(g, op, 'a')
    if k == 'bsx' and op['form'] in FLOAT:
        return rescaled(g, op, 'ab')
    if k == 'sparse':
        return rescaled(g, op, ['data'])
    if k == 'translate' and op['form'] in FLOAT:
        return rescaled(g, op, ['p', 'factor'], forms=['fform'])
    return op


def draw(g):
    t = g.r.random()
    if t < 0.15:
        inc = g.pick([0.1, 0.05, 0.25, 0.5, 1.0, 2.0, 0.01, 0.33, 0.001, 0.2, 5.0, 10.0, 0.125, 2.5, 0.3, 1 / 3.0, 1 / 7.0, 1e-6, 100.0, 0.75, g.r.uniform(0.01, 20)])
        u = g.r.random()
        v = g.num() * g.pick([1.0, 10.0, 1000.0, 0.1])
        if u < 0.3:
            v = g.int(-200, 200) * inc                     # a multiple already
        elif u < 0.45:
            v = (g.int(-200, 200) + 0.5) * inc             # half way
        elif u < 0.6:
            v = (g.int(-200, 200) + g.pick([0.49, 0.51, -0.4999, 0.01])) * inc
        return {'op': 'round', 'v': q(v), 'inc': q(inc), 'vform': g.pick(['int' if v == round(v) else 'float', 'float', 'np']),
                'iform': g.pick(['int' if inc == round(inc) else 'float', 'float'])}
    if t < 0.25:
        told = g.chance(0.7)
        prec = g.pick([0, 1, 2, 2, 3, 6, -1, -2]) if told else 0
        return {'op': 'rlist', 'items': [item(g) for _ in range(g.int(0, 6))], 'told': told, 'prec': prec, 'as': g.pick(['list', 'list', 'tuple', 'gen'])}
    if t < 0.37:
        n, m = g.int(1, 4), g.int(1, 4)
        form = g.pick(['f', 'F', 'n', 'r', 'u1', 'i1', 'i2', 'i4', 'f4', 'i', 'l', 'u2'])
        if form in ('u1', 'u2'):
            a = [[float(g.int(0, 255)) for _ in range(m)] for _ in range(n)]
        elif form == 'i1':
            a = [[float(g.int(-128, 127)) for _ in range(m)] for _ in range(n)]
        elif form in ('i2', 'i4', 'i'):
            a = [[float(g.int(-30000, 30000)) for _ in range(m)] for _ in range(n)]
        elif form == 'f4':
            a = np.float32(g.pts(n, None, m)).astype(float)
        else:
            a = np.array(g.pts(n, None, m)) * g.pick([1.0, 1e-3, 1e4])
        lo, hi = g.pick([(0.0, 1.0), (-1.0, 1.0), (0.0, 255.0), (1.0, 0.0), (10.0, 20.0), (g.num(), g.num())])
        return {'op': 'scale', 'a': Q(a), 'form': form, 'lo': q(lo), 'hi': q(hi), 'nform': 'int' if (lo, hi) == (round(lo), round(hi)) and g.chance(0.5) else 'float'}
    if t < 0.5:
        n, m = g.int(1, 4), g.int(1, 4)
        num = g.pick('iidf')

        def entries(n, m, odd):
            x = np.array(g.pts(n, num, m))
            for _ in range(g.int(0, 3)):
                x[g.int(0, n - 1), g.int(0, m - 1)] = g.pick(odd)
            return x
        odd = [0.0, 0.0, 0.0, 1.0] if num == 'i' else [0.0, 0.0, -0.0, np.inf, -np.inf, np.nan, 1e300, 1e-300, 1e-10, 5e-324]
        a = entries(n, m, odd)
        flat = ''
        bn, bm = g.pick([(n, m), (n, m), (n, m), (1, m), (n, 1), (1, 1)])
        b = entries(bn, bm, odd)
        if bn == 1 and g.chance(0.5):
            flat = 'row' if bm > 1 or m == 1 else 'num'
        told = g.chance(0.5)
        return {'op': 'divide', 'a': Q(a), 'b': Q(b), 'form': g.pick('fFn') if num != 'i' else g.pick('fi'), 'bform': g.pick('fFn') if num != 'i' else g.pick('fi'),
                'flat': flat, 'told': told, 'dflt': q(g.pick([0.0, 1.0, -1.0, 7.5, 100.0])) if told else q(0)}
    if t < 0.63:
        shape = g.pick([[12], [3, 4], [4, 3], [2, 3, 2], [2, 2, 3], [1, 6], [6, 1], [24], [4, 6], [2, 3, 4], [1], [5]])
        strides = [int(s) // 8 for s in np.empty(shape).strides]
        off = 0
        for _ in range(g.int(0, 3)):
            d, u = g.int(0, len(shape) - 1), g.int(0, 3)
            if u == 0 and len(shape) > 1:
                e = g.int(0, len(shape) - 1)
                shape, strides = list(shape), list(strides)
                shape[d], shape[e], strides[d], strides[e] = shape[e], shape[d], strides[e], strides[d]
            elif u == 1:
                off, strides = off + strides[d] * (shape[d] - 1), [-s if k == d else s for k, s in enumerate(strides)]
            elif u == 2:
                shape, strides = [(x + 1) // 2 if k == d else x for k, x in enumerate(shape)], [2 * s if k == d else s for k, s in enumerate(strides)]
            elif shape[d] > 1:
                off, shape = off + strides[d], [x - 1 if k == d else x for k, x in enumerate(shape)]
        n = int(np.prod(shape))
        divs = [k for k in range(1, n + 1) if n % k == 0]
        a = g.pick(divs)
        b = g.pick([k for k in divs if (n // a) % k == 0])
        new = g.pick([[n], [-1], [a, n // a], [a, -1], [-1, a], [a, b, n // a // b], [n, 1], [1, n], [a, n // a], [a, 1, n // a]])
        if g.chance(0.12):
            new = g.pick([[n + 1], [a, n // a + 1], [-1, -1], [n + 1, -1], [n, 2]])
        return {'op': 'reshape', 'shape': shape, 'strides': strides, 'off': off, 'new': new, 'justwarn': g.chance(0.4)}
    if t < 0.68:
        return {'op': 'readonly', 'items': [g.pick(['arr', 'mat', 'view', 'ro', 'empty', 'zero', 'none', 'num', 'list', 'str']) for _ in range(g.int(0, 5))],
                'as': g.pick(['list', 'tuple', 'iter'])}
    if t < 0.75:
        n, m = g.int(1, 4), g.int(1, 4)
        flat = g.chance(0.3)
        a = g.pts(1 if flat else n, None, m)
        return {'op': g.pick(['row', 'col']), 'a': Q(a), 'flat': flat, 'form': g.form(a)}
    if t < 0.84:
        sa = g.pick([(1, 3), (3, 1), (2, 3), (1, 1), (3, 3), (2, 1), (1, 2), (4, 2)])
        sb = g.pick([sa, (sa[0], 1), (1, sa[1]), (1, 4), (4, 1), (2, 3), (1, 1), (3, 2)])
        if g.chance(0.3):                                  # a line across a line
            sa, sb = g.pick([((1, g.int(1, 4)), (g.int(2, 4), 1)), ((g.int(2, 4), 1), (1, g.int(1, 4)))])
        a, b = g.pts(sa[0], None, sa[1]), g.pts(sb[0], None, sb[1])
        return {'op': 'bsx', 'f': g.pick(sorted(OPERS)), 'a': Q(a), 'b': Q(b), 'form': g.form([x for r in a + b for x in r], 'fFn')}
    if t < 0.9:
        n = g.int(1, 6)
        i, j = [g.int(0, 4) for _ in range(n)], [g.int(0, 4) for _ in range(n)]
        if g.chance(0.3):
            i[-1], j[-1] = i[0], j[0]
        return {'op': 'sparse', 'i': i, 'j': j, 'ishape': [2, n // 2] if n % 2 == 0 and g.chance(0.4) else [n], 'data': Q(g.vec(n)),
                'sized': g.chance(0.6), 'm': g.int(3, 7), 'n': g.int(3, 7)}
    n, m = g.int(1, 6), g.pick([1, 2, 3, 3, 4])
    p = g.pts(n, None, m)
    f = g.vec(m)
    if g.chance(0.12):                       # nothing, or nearly nothing, or in one direction only
        f = (g.pick([[0.0] * 4, [0.0, 0.0, 2.0, 1.0], [1e-9, 0.0, -1e-7, 0.0], [0.0, -3.0, 0.0, 0.0], [1e-20, 1.0, 0.0, 0.0]]))[:m]
    return {'op': 'translate', 'p': Q(p), 'factor': Q(f), 'given': g.chance(0.5), 'form': g.form(p, 'fFnr'), 'fform': g.form(f)}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(80 if tier == 'quick' else 1500):
        yield [one(g) for _ in range(24)]


if __name__ == '__main__':
    common.main(__import__('drv_helpers'))
