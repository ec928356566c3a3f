"""Values with units (C11)."""
import operator

import common
from common import Gen, call, fr, guarded, np, obs, q
from drv_units import CLASSES, any_unit

NONE = '<none>'
BIN = {'add': lambda a, x: a + x, 'radd': lambda a, x: x + a, 'sub': lambda a, x: a - x, 'rsub': lambda a, x: x - a,
       'mul': lambda a, x: a * x, 'rmul': lambda a, x: x * a, 'div': lambda a, x: a / x, 'floordiv': lambda a, x: a // x,
       'iadd': operator.iadd, 'isub': operator.isub, 'imul': operator.imul, 'idiv': operator.itruediv}
REFUSED = {'mod': lambda a, x: a % x, 'rmod': lambda a, x: x % a, 'pow': lambda a, x: a ** x, 'rpow': lambda a, x: x ** a,
           'rdiv': lambda a, x: x / a, 'rfloordiv': lambda a, x: x // a, 'product': lambda a, x: a * x}
REL = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}

RAW = {'none': None, 'x': 'x', 'list': [1]}


def show(x):
    from blmath.value import Value
    if type(x) is Value:
        u = x.units
        return {'k': 'value', 'v': obs(x.value), 'u': NONE if u is None else u if isinstance(u, str) else '<bad>'}
    if isinstance(x, list) and any(type(y) is Value for y in x):
        return {'k': 'list', 'v': [show(y) for y in x]}
    return obs(x)


def operand(regs, x):
    if x['k'] == 'reg':
        return regs[x['r']]
    if x['k'] == 'seq':
        items = [operand(regs, y) for y in x['v']]
        return {'l': list, 't': tuple, 'np': np.array}[x.get('form', 'l')](items)
    v = fr(x['v'])
    return {'f': float, 'i': int, 'np': np.float64}[x.get('form', 'f')](v)


def run(ops):
    from blmath.value import Value
    regs, events = {}, []
    for op in ops:
        ev = dict(op)
        k = op['op']
        if any(op.get(n) is not None and op[n] not in regs for n in ('a',)) or \
           (isinstance(op.get('x'), dict) and any(y.get('r', '') not in regs for y in ([op['x']] + (op['x']['v'] if op['x']['k'] == 'seq' else [])) if y.get('k') == 'reg')):
            continue
        if k == 'new':
            val = RAW[op.get('raw', 'none')] if not op['valid'] else {'f': float, 'i': int, 'np': np.float64}[op.get('form', 'f')](fr(op['v']))
            u = None if op['u'] == NONE else op['u']
            fn = (lambda: Value(val)) if u is None and op.get('bare') else (lambda: Value(val, u))
        elif k == 'set_value':
            val = RAW[op.get('raw', 'none')] if not op['valid'] else fr(op['v'])
            fn = lambda: setattr(regs[op['a']], 'value', val)
        elif k == 'set_units':
            fn = lambda: setattr(regs[op['a']], 'units', None if op['u'] == NONE else op['u'])
        elif k == 'bin':
            fn = lambda: BIN[op['bop']](regs[op['a']], operand(regs, op['x']))
        elif k == 'refused':
            fn = lambda: REFUSED[op['rop']](regs[op['a']], operand(regs, op['x']))
        elif k == 'as':
            x = regs[op['a']]
            to = None if op['to'] == NONE else op['to']
            if op['how'] == 'attr':
                fn = lambda: getattr(x, op['to'])
            elif op['how'] == 'convert':
                fn = lambda: x.convert(to)
            else:
                fn = lambda: x.convert_to_system_default(to)
        elif k == 'unary':
            x = regs[op['a']]
            fn = {'neg': lambda: -x, 'pos': lambda: +x, 'abs': lambda: abs(x), 'float': lambda: float(x),
                  'int': lambda: int(x), 'bool': lambda: bool(x), 'item0': lambda: x[0], 'item1': lambda: x[1],
                  'item2': lambda: x[2], 'prettified': lambda: x.prettified,
                  'round': lambda: round(x, op['n']) if op['hp'] else round(x),
                  'round_to': lambda: x.round(fr(op['inc']))}[op['uop']]
        elif k == 'compare':
            x, y = regs[op['a']], operand(regs, op['x'])
            if op['swap']:
                x, y = y, x
            ev['obs'] = {'k': 'rels', **{n: call(f, x, y) for n, f in REL.items()}}
        if k != 'compare':
            r = guarded(lambda: (fn(),))
            ev['obs'] = show(r[0]) if isinstance(r, tuple) else r
            if op.get('dst') and isinstance(r, tuple) and ev['obs']['k'] == 'value' and ev['obs']['v']['k'] == 'num' \
                    and np.isfinite(r[0].value) and ev['obs']['u'] != '<bad>':
                known = r[0].units is None or r[0].units in __import__('blmath.units').units.all_units
                if known:
                    regs[op['dst']] = Value(r[0].value, r[0].units)
        ev['regs'] = {n: show(v) for n, v in regs.items()}
        events.append(ev)
    return events


def num(g):
    x = g.num() * g.pick([1.0, 1.0, 1.0, 100.0, 0.01, 1e-4, 1e-7, 1e6]) * g.scale(0.05)
    return float(x)


def operand_op(g, names, seq=True):
    r = g.r.random()
    if r < 0.5:
        return {'k': 'reg', 'r': g.pick(names)}
    if r < 0.9 or not seq:
        x = num(g)
        return {'k': 'num', 'v': q(x), 'form': g.pick(['f', 'i']) if x == round(x) else 'f'}
    items = [operand_op(g, names, seq=False) for _ in range(g.int(0, 3))]
    plain = all(y['k'] == 'num' for y in items)
    return {'k': 'seq', 'v': items, 'form': g.pick(['l', 't', 'np']) if plain and items else g.pick(['l', 't'])}


def one(g, names, cls):
    a = g.pick(names)
    r = g.r.random()
    keep = {'dst': g.pick(['x', 'y', 'z', 'w'])} if g.chance(0.25) else {}
    if r < 0.3:
        x = operand_op(g, names)
        bops = ['add', 'sub', 'mul', 'div', 'floordiv', 'iadd', 'isub', 'imul', 'idiv']
        if x['k'] == 'seq':
            bops = ['add', 'sub', 'mul'] + (['radd', 'rsub', 'rmul'] if x['form'] == 'l' else [])
        elif x['k'] == 'num':
            bops += ['radd', 'rsub', 'rmul']
        return {'op': 'bin', 'bop': g.pick(bops), 'a': a, 'x': x, **(keep if x['k'] != 'seq' else {})}
    if r < 0.36:
        x = operand_op(g, names, seq=False)
        rops = ['mod', 'pow'] + (['product'] if x['k'] == 'reg' else ['rmod', 'rpow', 'rdiv', 'rfloordiv'])
        return {'op': 'refused', 'rop': g.pick(rops), 'a': a, 'x': x}
    if r < 0.52:
        return {'op': 'compare', 'a': a, 'x': operand_op(g, names, seq=False), 'swap': g.chance(0.4)}
    if r < 0.64:
        how = g.pick(['attr', 'convert', 'system'])
        to = g.pick(['metric', 'united_states', 'imperial']) if how == 'system' else any_unit(g, cls)
        if how == 'attr' and to in ('', NONE):
            to = 'cm'
        return {'op': 'as', 'how': how, 'a': a, 'to': to or NONE, **keep}
    if r < 0.84:
        u = g.pick(['neg', 'pos', 'abs', 'float', 'int', 'bool', 'item0', 'item1', 'item2', 'prettified', 'round', 'round', 'round_to', 'round_to'])
        op = {'op': 'unary', 'uop': u, 'a': a, **keep}
        if u == 'round':
            op['hp'] = g.chance(0.7)
            op['n'] = g.int(-1, 4) if op['hp'] else 0
        if u == 'round_to':
            op['inc'] = q(g.pick([0.5, 0.25, 0.1, 1.0, 2.0, 0.05, 3.0, 0.3]))
        return op
    if r < 0.93:
        if g.chance(0.15):
            return {'op': 'set_value', 'a': a, 'valid': False, 'raw': g.pick(['none', 'x', 'list']), 'v': q(0)}
        v = g.pick([0.0, num(g), num(g)])
        return {'op': 'set_value', 'a': a, 'valid': True, 'v': q(v)}
    return {'op': 'set_units', 'a': a, 'u': unit_or_none(g, cls)}


def unit_or_none(g, cls):
    if g.chance(0.1):
        return NONE
    while True:
        u = any_unit(g, cls)
        if u not in ('', NONE) and u in __import__('drv_units').NAMES:
            return u


def new(g, name, cls):
    if g.chance(0.12):
        if g.chance(0.5):
            return {'op': 'new', 'dst': name, 'valid': False, 'raw': g.pick(['none', 'x', 'none']), 'v': q(0), 'u': g.pick(['cm', NONE, 'furlong'])}
        return {'op': 'new', 'dst': name, 'valid': True, 'v': q(2), 'u': g.pick(['furlong', 'CM', 'cms'])}
    v = num(g)
    return {'op': 'new', 'dst': name, 'valid': True, 'v': q(v), 'u': unit_or_none(g, cls), 'bare': g.chance(0.5),
            'form': g.pick(['f', 'i']) if v == round(v) else g.pick(['f', 'np'])}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(110 if tier == 'quick' else 1200):
        cls = g.pick(CLASSES)
        ops = [{'op': 'new', 'dst': n, 'valid': True, 'v': q(num(g)), 'u': unit_or_none(g, cls)} for n in 'xy']
        ops += [new(g, 'z', cls), new(g, 'w', g.pick(CLASSES))]
        ops += [one(g, g.pick([['x', 'y'], ['x', 'y', 'z'], ['x', 'y', 'z', 'w']]), cls) for _ in range(22)]
        yield ops


if __name__ == '__main__':
    common.main(__import__('drv_value'))
