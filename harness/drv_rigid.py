"""Rigid alignment (C16)."""
from fractions import Fraction

import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs, q, rescaled
from drv_rotations import matrix, quat

WITNESS = ('rot', 's', 't')


def laid(pts, lay, form):
    """n points as 3 x n columns or n x 3 rows."""
    x = np.array(F(pts))
    return arr(Q(x.T if lay == 'c' else x), form)


def run(ops):
    from blmath.geometry.transform.rigid_transform import find_rigid_rotation, find_rigid_transform
    events = []
    todo = []
    for op in ops:
        if op['op'] == 'model':
            # the model's points, against the model's images and against an exact motion of them
            a = np.array(F(op['a']))
            r = np.array(quat(op['quat']))
            t = np.array([1.0, -2.0, 3.0])
            todo.append({'op': 'rotation', 'a': op['a'], 'b': op['b'], 'exact': False, 'scaling': False, 'form': 'f'})
            todo.append({'op': 'transform', 'a': op['a'], 'b': op['b'], 'exact': False, 'la': 'c', 'lb': 'c', 'form': 'f'})
            c = a - a.mean(axis=0)
            if np.linalg.matrix_rank(a) >= 2:
                todo.append(exact('rotation', a, r, 1.0, t * 0, {'scaling': False}))
                todo.append(exact('rotation', a, r, 2.5, t * 0, {'scaling': True}))
            if np.linalg.matrix_rank(c) >= 2:
                todo.append(exact('transform', a, r, 1.0, t, {'la': 'c', 'lb': 'c'}))
        else:
            todo.append(op)
    for op in todo:
        ev = dict(op)
        if op['op'] == 'transform':
            a, b = laid(op['a'], op['la'], op['form']), laid(op['b'], op['lb'], op['form'])
            w = Watch(a, b)
            r = guarded(lambda: (find_rigid_transform(a, b),))
            if isinstance(r, tuple):
                r = r[0]
                ev['obs'] = {'k': 'rt', 'r': obs(r[0]), 't': obs(r[1])} if isinstance(r, tuple) and len(r) == 2 else {'k': 'bad', 'v': 'not a pair'}
            else:
                ev['obs'] = r
        else:
            a, b = laid(op['a'], 'c', op['form']), laid(op['b'], 'c', op['form'])
            if op.get('flat') and len(op['a']) == 1:
                a, b = a.ravel(), b.ravel()
            w = Watch(a, b)
            r = guarded(lambda: (find_rigid_rotation(a, b, allow_scaling=True) if op['scaling'] else find_rigid_rotation(a, b),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def exact(op, a, r, s, t, more, form='f'):
    """b is the image of a, each coordinate computed exactly and rounded once."""
    R = [[Fraction(float(x)) for x in row] for row in r]
    b = [[float(Fraction(float(s)) * sum(R[i][j] * Fraction(float(p[j])) for j in range(3)) + Fraction(float(t[i]))) for i in range(3)] for p in a]
    return dict({'op': op, 'a': Q(np.array(a)), 'b': Q(b), 'exact': True, 'rot': Q(np.array(r)), 's': q(float(s)), 't': Q(list(map(float, t))), 'form': form}, **more)


def rotation(g):
    r = g.r.random()
    if r < 0.35:
        while True:
            p = [g.int(-3, 3) for _ in range(4)]
            if any(p):
                return quat(p)
    if r < 0.45:
        return np.eye(3).tolist()
    if r < 0.6:                                            # half turns
        v = np.array(g.pick([[1., 0, 0], [0, 1., 0], [0, 0, 1.], [0.6, 0.8, 0], [0, -0.6, 0.8]]))
        return matrix(v * np.pi).tolist()
    v = np.array(g.nzvec(3, 'f'))
    return matrix(v / np.linalg.norm(v) * g.r.uniform(0, 3.14)).tolist()


def points(g, centred):
    """Points that span at least a plane, well enough."""
    while True:
        n = g.many(g.pick([3, 3, 4, 5, 6, 8, 12] if centred else [2, 3, 3, 4, 6, 9]), 0.02)
        p = np.array(g.pts(n, g.pick('idf')))
        t = g.r.random()
        if t < 0.35:                                       # a plane
            k = g.int(0, 2)
            p[:, k] = 0.0
            if g.chance(0.5):
                p = p.dot(np.array(rotation(g)))
        if centred:
            p = p + np.array(g.vec(3)) * g.pick([0.0, 0.0, 1.0, 10.0, 100.0])
        c = p - p.mean(axis=0) if centred else p
        s = np.linalg.svd(c)[1]
        if s[1] > 0.05 * s[0] and s[0] > 0.5:
            if len(s) < 3 or s[2] < 1e-9 * s[0] or s[2] > 0.02 * s[0]:
                return p * g.pick([1.0, 1.0, 1.0, 0.01, 100.0])


def one(g):
    kind = g.pick(['transform', 'rotation'])
    tr = kind == 'transform'
    single = not tr and g.chance(0.2)
    a = np.array([g.nzvec(3)]) if single else points(g, tr)
    if single and g.chance(0.3):
        a = np.array([[float(j == g.int(0, 2)) * g.pick([1.0, -2.0]) for j in range(3)]])
        if not a.any():
            a[0, 1] = 1.0
    r = rotation(g)
    n = len(a)
    scaling = not tr and g.chance(0.4)
    s = g.pick([1.0, 2.0, 0.5, 0.01, 30.0, 1.7]) if scaling else 1.0
    t = np.array(g.vec(3)) * g.pick([0.0, 1.0, 10.0]) if tr else np.zeros(3)
    more = {'la': 'c', 'lb': 'c'} if tr else {'scaling': scaling, 'flat': single and g.chance(0.5)}
    if tr and n != 3:
        more = {'la': g.pick('cr'), 'lb': g.pick('cr')}
    if single and g.chance(0.2):                           # back to front
        ev = exact(kind, a, (np.diag([-1.0, -1.0, 1.0])).tolist(), s, t, more)
        if abs(a[0, 2]) < 1e-9:
            return ev
    if single or g.chance(0.6):
        ev = exact(kind, a, r, s, t, more)
        ev['form'] = g.form([F(ev['a']), F(ev['b'])], 'fFnr')
        return ev
    b = a.dot(np.array(r).T) + t
    m = g.r.random()
    if m < 0.6:
        b = b + g.pick([1e-6, 1e-3, 0.1, 1.0]) * g.r.normal(size=b.shape) * np.abs(a).max()
    elif m < 0.8:
        b = g.r.normal(size=b.shape) * np.abs(a).max()
    else:
        b = a * np.array([1.0, 1.0, -1.0])                 # a reflection
        b = b.dot(np.array(r).T) + t
    ev = dict({'op': kind, 'a': Q(a), 'b': Q(b), 'exact': False, 'form': 'f'}, **more)
    ev['form'] = g.form([F(ev['a']), F(ev['b'])], 'fFnr')
    return ev


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(50 if tier == 'quick' else 900):
        yield [rescaled(g, x, ['a', 'b'] + (['t'] if x['exact'] else [])) for x in [one(g) for _ in range(12)]]


if __name__ == '__main__':
    common.main(__import__('drv_rigid'))
