"""Units of measurement (C10)."""
import common
from common import Gen, Q, call, fr, guarded, np, q

NAMES = ['m', 'meter', 'meters', 'mm', 'millimeter', 'millimeters', 'cm', 'centimeter', 'centimeters', 'in', 'inch',
         'inches', 'ft', 'foot', 'feet', 'fathoms', 'cubits', 'kg', 'kilograms', 'g', 'grams', 'lbs', 'pounds', 'lb',
         'stone', 'deg', 'degrees', 'rad', 'radians', 'sec', 'second', 'seconds', 'min', 'minute', 'minutes', 'hr',
         'hour', 'hours', 'day', 'days', 'yr', 'year', 'years', 'hours_per_week']
CLASSES = ['length', 'weight', 'angle', 'time', 'time_rate']
NAMED = {'lengths': 'length', 'weights': 'weight', 'angles': 'angle', 'times': 'time', 'time_rates': 'time_rate'}
UNKNOWN = ['furlong', 'CM', 'length', 'kilogram', 'c', 'hours per week']


def unit(u):
    return None if u == '<none>' else u


def number(v):
    """The value operand of an op."""
    if v['k'] == 'none':
        return None
    if v['k'] == 'arr':
        return np.array([fr(x) for x in v['v']])
    x = fr(v['v'])
    f = v.get('form', 'f')
    return {'f': float, 'i': int, 'np': np.float64}[f](x)


def run(ops):
    from blmath import units
    events = []
    for op in ops:
        ev = dict(op)
        k = op['op']
        if k in ('factor', 'convert'):
            a, b, c = unit(op['from']), unit(op['to']), unit(op['uc'])
            extra = {'units_class': c} if c else {}
            if k == 'factor':
                ev['obs'] = call(units.factor, a, b, **extra)
            else:
                ev['obs'] = call(units.convert, number(op['val']), a, b, **extra)
        elif k == 'convert_list':
            vals = [fr(x) for x in op['vals']]
            if op.get('form') == 't':
                vals = tuple(vals)
            elif op.get('form') == 'np':
                vals = np.array(vals)
            w = common.Watch(vals)
            ev['obs'] = call(units.convert_list, vals, unit(op['from']), unit(op['to']))
            ev['mut'] = w.changed()
        elif k == 'to_default':
            ev['obs'] = call(units.convert_to_default, number(op['val']), unit(op['from']), dict(op['defaults']))
        elif k == 'to_system':
            args = () if op['system'] == 'metric' and op.get('bare') else (op['system'],)
            ev['obs'] = call(units.convert_to_system_default, number(op['val']), unit(op['from']), *args)
        elif k == 'prettify':
            args = (op['prec'],) if op['hp'] else ()
            ev['obs'] = call(units.prettify, number(op['val']), unit(op['from']), *args)
        elif k == 'catalog':
            w, arg = op['what'], op.get('arg', '')
            if w in ('all_units', 'all_units_classes'):
                ev['obs'] = call(lambda: list(getattr(units, w)))
            elif w == 'named':
                name = [n for n, c in NAMED.items() if c == arg][0]
                ev['obs'] = call(lambda: list(getattr(units, name)))
            else:
                ev['obs'] = call(getattr(units, w), unit(arg))
        elif k == 'defaults':
            exc = dict(op['exc'])
            w = common.Watch(exc)
            args = (op['system'],) + ((exc,) if exc or not op.get('bare') else ())
            r = guarded(lambda: (units.default_units(*args),))
            if isinstance(r, tuple):
                r = r[0]
                if isinstance(r, dict) and all(isinstance(x, str) for p in r.items() for x in p):
                    ev['obs'] = {'k': 'pairs', 'v': sorted(list(p) for p in r.items())}
                    if op.get('poke'):      # what a caller does with the result is its own affair
                        r['length'] = 'fathoms'
                        r['weight'] = 'stone'
                else:
                    ev['obs'] = {'k': 'bad', 'v': ''}
            else:
                ev['obs'] = r
            ev['mut'] = w.changed()
        events.append(ev)
    return events


def any_unit(g, cls=None):
    r = g.r.random()
    if cls is not None and r < 0.75:
        from blmath import units
        return g.pick([u for u in NAMES if u in units.units_in_class(cls)] or NAMES)
    if r < 0.93:
        return g.pick(NAMES)
    return g.pick(UNKNOWN + ['', '<none>'])


def value(g):
    r = g.r.random()
    if r < 0.12:
        return {'k': 'none'}
    if r < 0.2:
        return {'k': 'arr', 'v': Q(g.vec(g.int(0, 4)))}
    x = g.num() * g.pick([1.0, 1.0, 100.0, 1e-6, 1e6])
    if x == round(x) and g.chance(0.5):
        return {'k': 'num', 'v': q(x), 'form': 'i'}
    return {'k': 'num', 'v': q(x), 'form': g.pick(['f', 'f', 'np'])}


def pair(g):
    cls = g.pick(CLASSES)
    f = any_unit(g, cls)
    return f, (f if g.chance(0.12) else any_unit(g, cls)), (g.pick(CLASSES) if g.chance(0.2) else cls if g.chance(0.3) else g.pick(['', '<none>']))


def one(g):
    r = g.r.random()
    f, t, c = pair(g)
    if r < 0.2:
        return {'op': 'factor', 'from': f, 'to': t, 'uc': c}
    if r < 0.42:
        return {'op': 'convert', 'from': f, 'to': t, 'uc': c, 'val': value(g)}
    if r < 0.5:
        return {'op': 'convert_list', 'from': f, 'to': t, 'vals': Q(g.vec(g.int(0, 4))), 'form': g.pick(['l', 't', 'np'])}
    if r < 0.58:
        d = {c_: any_unit(g, c_) for c_ in CLASSES if g.chance(0.8)}
        d = {a: b for a, b in d.items() if b not in ('', '<none>')}
        return {'op': 'to_default', 'from': f, 'to': '', 'uc': '', 'val': value(g), 'defaults': sorted(list(p) for p in d.items())}
    if r < 0.68:
        return {'op': 'to_system', 'from': f, 'to': '', 'uc': '', 'val': value(g), 'bare': g.chance(0.5),
                'system': g.pick(['metric', 'metric', 'united_states', 'united_states', 'imperial'])}
    if r < 0.82:
        hp = g.chance(0.4)
        v = g.num() * g.pick([1.0, 10.0, 0.01, 1000.0])
        return {'op': 'prettify', 'from': f, 'val': {'k': 'num', 'v': q(v), 'form': 'f'}, 'hp': hp,
                'prec': g.int(-1, 5) if hp else 0}
    if r < 0.9:
        w = g.pick(['all_units', 'all_units_classes', 'units_in_class', 'units_class', 'raw', 'named'])
        arg = '' if w.startswith('all') else g.pick(CLASSES) if w in ('units_in_class', 'named') else f
        if w == 'raw' and arg in ('', '<none>'):
            arg = 'cm'
        return {'op': 'catalog', 'what': w, 'arg': arg}
    exc = {}
    for c_ in CLASSES + ['mood']:
        if g.chance(0.25):
            u = any_unit(g, c_ if c_ != 'mood' else None)
            if u not in ('', '<none>'):
                exc[c_] = u
    return {'op': 'defaults', 'system': g.pick(['metric', 'united_states', 'metric', 'united_states', 'imperial']),
            'exc': sorted(list(p) for p in exc.items()), 'bare': g.chance(0.5), 'poke': g.chance(0.5)}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(40 if tier == 'quick' else 600):
        yield [one(g) for _ in range(25)]


if __name__ == '__main__':
    common.main(__import__('drv_units'))
