"""Convex hulls of planar curves (C20)."""
import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs, rescaled
from drv_rotations import frame


def run(ops):
    from blmath.geometry.convexify import convexify_planar_curve
    from blmath.geometry.primitives.polyline import Polyline
    events = []
    for op in ops:
        ev = dict(op)
        v = arr(op['v'], op['form'], shape=(-1, 3))
        p = Polyline(v, closed=op['closed'])
        n = arr(op['normal'], op.get('nform', 'f')) if op['given'] else None
        w = Watch(v, p.v, p.e, n)
        kw = {}
        if op['flatten']:
            kw['flatten'] = True
        if op['want']:
            kw['want_vertices'] = True
        if op['given']:
            kw['normal'] = n

        def go():
            r = convexify_planar_curve(p, **kw)
            k = None
            if op['want'] and len(v) > 1:
                if not isinstance(r, tuple) or len(r) != 2:
                    return {'k': 'bad', 'v': 'not a pair'}
                r, k = r
            if not isinstance(r, Polyline):
                return {'k': 'bad', 'v': type(r).__name__}
            return {'k': 'hull', 'v': obs(r.v), 'closed': bool(r.closed), 'indices': obs(k)}
        ev['obs'] = guarded(go)
        ev['mut'] = w.changed() or bool(p.closed) != op['closed']
        events.append(ev)
    return events


def flat_shape(g):
    """Points of the plane in general position, in the order of a curve."""
    while True:
        n = g.many(g.pick([3, 4, 4, 5, 6, 7, 9, 12]), 0.01, (20, 33, 65))
        t = g.r.random()
        if t < 0.3:
            p = np.array([[float(g.int(-5, 5)), float(g.int(-5, 5))] for _ in range(n)])
        elif t < 0.5:
            p = np.array([[g.num('f'), g.num('f')] for _ in range(n)])
        else:
            a = np.sort(g.r.uniform(0, 2 * np.pi, n)) + g.r.uniform(0, 6)
            r = np.array([g.pick([1.0, 1.0, 0.6, 0.3, 1.4]) for _ in range(n)]) if t < 0.8 else np.ones(n)
            p = (r * np.array([np.cos(a) * g.pick([1.0, 1.0, 3.0]), np.sin(a)])).T
            p = np.round(p * 4096) / 4096
        if g.chance(0.3):
            p = p[::-1]
        d = p - p.mean(axis=0)
        s = np.abs(d).max()
        ok = np.linalg.svd(d)[1][-1] > 0.1 * s > 0
        for i in range(n):
            for j in range(i):
                ok = ok and np.abs(p[i] - p[j]).max() > 0.01 * s
                for k in range(j):
                    ok = ok and abs(np.linalg.det([p[i] - p[k], p[j] - p[k]])) > 1e-3 * s * s
        if ok:
            return p


def one(g):
    t = g.r.random()
    base = {'op': 'hull', 'closed': g.chance(0.6), 'flatten': g.chance(0.5), 'want': g.chance(0.5), 'given': g.chance(0.5)}
    if t < 0.04:
        v = [] if g.chance(0.4) else [g.vec(3)]
        return dict(base, v=Q(v), normal=Q([0.0, 1.0, 0.0]), form='f', want=g.chance(0.3))
    st = flat_shape(g)
    if t < 0.3:                                            # in a coordinate plane
        k = g.int(0, 2)
        v = np.insert(st, k, float(g.int(-5, 5)), axis=1)
        n = np.eye(3)[k] * g.pick([1.0, -1.0])
        if g.chance(0.4):
            v = v - np.round(v.mean(axis=0))
    elif t < 0.45:                                         # an even lean, integers
        m = g.pick([([1, -1, 0], [0, 1, -1]), ([1, 1, 0], [0, 0, 1]), ([1, 0, -1], [0, 1, 0]), ([2, 1, 0], [0, 1, 2]), ([1, -2, 2], [2, 2, 1])])
        v = st.dot(np.array(m, dtype=float))
        n = np.cross(*np.array(m, dtype=float)) * g.pick([1.0, -1.0])
        n = n / np.linalg.norm(n)
    else:
        a, b, n = frame(g)
        v = st[:, :1] * a + st[:, 1:] * b
        n = n * g.pick([1.0, -1.0])
    if g.chance(0.5):
        v = v + np.array(g.vec(3)) * g.pick([1.0, 10.0])
    elif g.chance(0.3):
        v = v - v.mean(axis=0)
    v = v * g.pick([1.0, 1.0, 1.0, 0.01, 100.0])
    if base['flatten'] and base['given'] and g.chance(0.4):   # only nearly planar
        s = np.abs(v - v.mean(axis=0)).max()
        v = v + np.outer([g.r.uniform(-0.3, 0.3) * s for _ in v], n)
    if not base['flatten'] and g.chance(0.2):
        n = n * g.pick([2.0, 0.1])
    return dict(base, v=Q(v), normal=Q(n), form=g.form(v, 'fFnr'), nform=g.pick('ffrn'))


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(60 if tier == 'quick' else 1200):
        yield [rescaled(g, one(g), ['v'], lo=-40, hi=40) for _ in range(8)]


if __name__ == '__main__':
    common.main(__import__('drv_hull'))
