"""Apex, farthest point, inflection points and boxes (C19)."""
import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs, rescaled

FIELDS = ['ranges', 'min_x', 'min_y', 'min_z', 'max_x', 'max_y', 'max_z', 'mid_x', 'mid_y', 'mid_z',
          'width', 'height', 'depth', 'center_point', 'floor_point', 'volume', 'surface_area', 'origin', 'shape']

MALFORMED = {
    'none': None, 'scalar': 3.0, 'two': [1.0, 2.0], 'four': [1.0, 2.0, 3.0, 4.0], 'empty': [], 'column': [[1.0], [2.0], [3.0]],
    'row': [[1.0, 2.0, 3.0]], 'text': 'abc', 'texts': ['1', '2', '3'], 'nan': [1.0, float('nan'), 2.0],
    'ragged': [1.0, [2.0], 3.0], 'complex': [1j, 2, 3], 'nones': [None, 1.0, 2.0], 'matrix': np.eye(3).tolist(), 'dict': {},
}


def run(ops):
    from blmath.geometry.apex import apex, farthest, inflection_points
    from blmath.geometry.primitives.box import Box
    from blmath.geometry.primitives.polyline import Polyline
    events = []
    for op in ops:
        ev = dict(op)
        kind = op['op']
        if kind == 'apex':
            v, a = arr(op['v'], op['form']), arr(op['axis'], op.get('aform', 'f'))
            w = Watch(v, a)
            if op['via'] == 'f':
                r = guarded(lambda: (apex(v, a),))
            else:
                def go():
                    p = Polyline(v, closed=op['via'] == 'c')
                    return (p.apex(a),)
                r = guarded(go)
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        elif kind == 'far':
            v, p = arr(op['v'], op['form']), arr(op['p'], op['form'])
            w = Watch(v, p)
            r = guarded(lambda: (farthest(p, v),))
            if isinstance(r, tuple):
                r = r[0]
                ev['obs'] = {'k': 'far', 'point': obs(r[0]), 'index': obs(r[1])} if isinstance(r, tuple) and len(r) == 2 else {'k': 'bad'}
            else:
                ev['obs'] = r
        elif kind == 'inflection':
            v, a, s = arr(op['v'], op['form']), arr(op['axis']), arr(op['span'])
            w = Watch(v, a, s)
            r = guarded(lambda: (inflection_points(v, a, s),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        elif kind == 'box':
            o, s = arr(op['origin'], op['form']), arr(op['size'], op['form'])
            w = Watch(o, s)

            def read():
                b = Box(o, s)
                fields = FIELDS[::-1] if op.get('back') else FIELDS
                for _ in range(op.get('reads', 1)):
                    f = {x: obs(getattr(b, x)) for x in fields}
                return {'k': 'box', 'f': f}
            ev['obs'] = guarded(read)
        else:
            good = [1.0, 2.0, 3.0]
            bad = MALFORMED[op['bad']]
            args = (bad, good) if op['which'] == 'origin' else (good, bad)
            w = Watch(good)
            ev['obs'] = guarded(lambda: {'k': 'box', 'f': repr(Box(*args).volume)})
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def cloud(g, dim=3):
    n = g.many(g.pick([1, 2, 3, 4, 5, 8, 13, 30]), 0.01)
    num = g.pick('iiiddfm')
    v = np.array(g.pts(n, num, dim))
    t = g.r.random()
    if t < 0.2:
        v = v + np.array(g.vec(dim, 'i')) * g.pick([10.0, 100.0])
    elif t < 0.3:
        v = -np.abs(v) - 1.0
    elif t < 0.4:
        v = v * 1e-3
    if n > 2 and g.chance(0.4):                            # ties
        for _ in range(g.int(1, 3)):
            v[g.int(0, n - 1)] = v[g.int(0, n - 1)]
    if n > 2 and g.chance(0.3):
        v[:, g.int(0, dim - 1)] = v[0, 0]
    return v


def flat(*a):
    return [x for p in a for x in np.ravel(p).tolist()]


def one(g):
    op = draw(g)
    if op['op'] == 'apex':
        return rescaled(g, rescaled(g, op, ['v']), ['axis'], forms=['aform'])
    if op['op'] == 'far':
        return rescaled(g, op, ['v', 'p'])
    if op['op'] == 'inflection':
        return rescaled(g, rescaled(g, rescaled(g, op, ['v']), ['axis'], forms=[]), ['span'], forms=[])
    if op['op'] == 'box':
        return rescaled(g, op, ['origin', 'size'])
    return op


def draw(g):
    t = g.r.random()
    if t < 0.27:
        via = g.pick('fffoc')
        dim = 3 if via != 'f' else g.pick([3, 3, 2])
        v = cloud(g, dim)
        a = np.array(g.nzvec(dim, g.pick('iidf')))
        if g.chance(0.5):
            a = np.eye(dim)[g.int(0, dim - 1)] * g.pick([1.0, -1.0, 2.0, -0.5])
        elif g.chance(0.2):
            a = a / np.linalg.norm(a)
        return {'op': 'apex', 'v': Q(v), 'axis': Q(a), 'via': via, 'form': g.form(v, 'fFnr'), 'aform': g.pick('ffl')}
    if t < 0.5:
        v = cloud(g)
        p = np.array(g.vec(3, g.pick('iidf'))) * g.pick([1.0, 1.0, 0.0, 10.0])
        if g.chance(0.2):
            p = v[g.int(0, len(v) - 1)]
        if g.chance(0.2):                                  # mirror pairs about p
            v = np.vstack([v, 2 * p - v])
        return {'op': 'far', 'v': Q(v), 'p': Q(p), 'form': g.form(flat(v, p))}
    if t < 0.75:
        n = g.int(3, 14)
        if g.chance(0.6):                                  # evenly spaced
            x = np.arange(n) * g.pick([1.0, -1.0, 2.0, 0.5, -4.0])
        elif g.chance(0.3):
            x = np.cumsum([g.pick([1.0, 2.0, 4.0, 3.0]) for _ in range(n)])
        else:
            x = np.cumsum([abs(g.num('f')) + 0.3 for _ in range(n)]) * g.pick([1.0, -1.0])
        if g.chance(0.25):                                 # a curve that turns back on itself
            while True:
                x = np.cumsum([g.pick([1.0, 2.0, -1.0, -3.0, 0.5]) for _ in range(n)])
                if (np.gradient(x) != 0).all():
                    break
        m = g.r.random()
        if m < 0.35:
            y = np.array([float(g.int(-3, 3)) for _ in range(n)])
        elif m < 0.5:                                      # straight pieces
            y = np.cumsum(np.repeat([float(g.int(-2, 2)) for _ in range(n)], 3)[:n])
        elif m < 0.7:
            y = np.sin(x * g.pick([0.3, 1.0, 1.7]))
        elif m < 0.8:
            y = x * x * g.pick([1.0, -1.0])
        else:
            y = np.array([g.num('f') for _ in range(n)])
        z = np.array([g.num('i') for _ in range(n)]) * g.pick([0.0, 1.0])
        v = np.array([x, y, z]).T
        e = np.eye(3)[g.r.permutation(3)]
        v = v.dot(e)
        span, axis = e[0] * g.pick([1.0, 1.0, -1.0, 2.0]), e[1] * g.pick([1.0, 1.0, -1.0, 4.0])
        if g.chance(0.2):                                  # a leaning frame
            axis = axis + span * g.pick([1.0, -0.5])
        if g.chance(0.2):
            v = v + np.array(g.vec(3, 'i'))
        return {'op': 'inflection', 'v': Q(v), 'axis': Q(axis), 'span': Q(span), 'form': g.form(v)}
    if t < 0.95:
        o = np.array(g.vec(3)) * g.pick([1.0, 1.0, 100.0])
        s = np.abs(np.array(g.vec(3))) * g.pick([1.0, 1.0, 1e-3, 100.0])
        if g.chance(0.3):
            s[g.int(0, 2)] = 0.0
        if g.chance(0.15):
            s[g.int(0, 2)] = g.pick([-1.0, -1e-12, -0.5, -1000.0])
        forms = ['f', 'l', 't', 'n', 'r']
        if (np.array(flat(o, s)) == np.round(flat(o, s))).all():
            forms += ['i', 'li', 'i', 'li']
        return {'op': 'box', 'origin': Q(o), 'size': Q(s), 'form': g.pick(forms), 'reads': g.int(1, 2), 'back': g.chance(0.5)}
    return {'op': 'box_bad', 'bad': g.pick(sorted(MALFORMED)), 'which': g.pick(['origin', 'size'])}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(130 if tier == 'quick' else 2500):
        yield [one(g) for _ in range(12)]


if __name__ == '__main__':
    common.main(__import__('drv_extremes'))
