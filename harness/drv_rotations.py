"""Rotation constructions (C15)."""
import math

import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs, q

common.stub_modules()

NONE = {'k': 'none'}


def quat(p):
    a, b, c, d = p
    n = float(a * a + b * b + c * c + d * d)
    return (np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)],
                      [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
                      [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]]) / n).tolist()


def rotvec(r, form):
    v = np.array(F(r), dtype=float)
    return {'v': lambda: v, 'c': lambda: v.reshape(3, 1), 'r': lambda: v.reshape(1, 3), 'l': v.tolist, 't': lambda: tuple(v.tolist()),
            'cl': lambda: v.reshape(3, 1).tolist(), 'i': lambda: v.astype(int), 'ro': lambda: arr(r, 'r')}[form]()


def pair(r, jac):
    if not isinstance(r, tuple):
        return {'r': r, 'j': r}
    r = r[0]
    if jac:
        if isinstance(r, tuple) and len(r) == 2:
            return {'r': obs(r[0]), 'j': obs(r[1])}
        return {'r': {'k': 'bad', 'v': 'not a pair'}, 'j': NONE}
    return {'r': obs(r), 'j': NONE}


def run(ops):
    from blmath.geometry.transform import rodrigues as rod
    from blmath.geometry.transform import rotation as rot
    events = []
    for op in ops:
        ev = dict(op)
        k = op['op']
        w = Watch()
        if k == 'quaternion':
            k = ev['op'] = 'from_matrix'
            ev['m'] = Q(quat(op['q']))
            ev['form'] = 'f'
        if k == 'up_look':
            up, look = arr(op['up'], op['form']), arr(op['look'], op['form'])
            w = Watch(up, look)
            r = guarded(lambda: (rot.rotation_from_up_and_look(up, look),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        elif k == 'euler':
            xyz = F(op['xyz'])
            order = ''.join(op['axes'])
            a = {'l': lambda: list(xyz), 't': lambda: tuple(xyz), 'f': lambda: np.array(xyz), 's': lambda: xyz[0], 'i': lambda: np.array(xyz, dtype=int)}[op['form']]()
            kw = {}
            if order != 'xyz' or op.get('explicit'):
                kw['order'] = order
            if op['units'] != 'deg' or op.get('explicit'):
                kw['units'] = op['units']
            w = Watch(a)
            r = guarded(lambda: (rot.euler(a, **kw),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        elif k == 'from_vector':
            a = rotvec(op['r'], op['form'])
            w = Watch(a)
            r = guarded(lambda: (rod.rodrigues(a, calculate_jacobian=True) if op['jac'] else rod.rodrigues(a),))
            ev['obs'] = pair(r, op['jac'])
        elif k == 'from_matrix':
            a = arr(ev['m'], ev['form'])
            w = Watch(a)
            r = guarded(lambda: (rod.rodrigues(a, calculate_jacobian=True) if op['jac'] else rod.rodrigues(a),))
            ev['obs'] = pair(r, op['jac'])
        elif k == 'as_matrix':
            a = rotvec(op['r'], op['form']) if op['vec'] else arr(op['m'], op['form'])
            w = Watch(a)
            r = guarded(lambda: (rod.as_rotation_matrix(a),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        elif k == 'refused':
            a = np.ones(tuple(op['shape']))
            r = guarded(lambda: (getattr(rod, op['fn'])(a),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        elif k == 'xz':
            pts = arr(op['points'], op['form'])
            n = arr(op['normal'], op['nform']) if op['hasnormal'] else None
            w = Watch(pts, n)
            r = guarded(lambda: (rot.rotate_to_xz_plane(pts, normal=n) if op['hasnormal'] else rot.rotate_to_xz_plane(pts),))
            if isinstance(r, tuple):
                r = r[0]
                ev['obs'] = {'k': 'xz', 'image': obs(r[0]), 'rot': obs(r[1]), 'p0': obs(r[2])} if isinstance(r, tuple) and len(r) == 3 else {'k': 'bad', 'v': 'not three'}
            else:
                ev['obs'] = r
        elif k == 'normal':
            pts = arr(op['points'], op['form'])
            w = Watch(pts)
            r = guarded(lambda: (rot.estimate_normal(pts),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def direction(g):
    while True:
        v = np.array(g.vec(3))
        n = np.linalg.norm(v)
        if n > 0.05:
            return v / n


def angle(g):
    return g.pick([0.0, math.pi, math.pi / 2, 1e-3, 1e-6, 1e-9, 1e-12, math.pi - 1e-3, math.pi - 1e-6, math.pi - 1e-8, 2e-5, 5e-6,
                   g.r.uniform(0, math.pi), g.r.uniform(0, math.pi), g.r.uniform(0, math.pi), g.r.uniform(0, math.pi)])


def axis(g):
    if g.chance(0.3):
        v = [0.0, 0.0, 0.0]
        v[g.int(0, 2)] = g.pick([1.0, -1.0])
        return np.array(v)
    if g.chance(0.2):
        v = np.array(g.pick([[1., 1, 0], [0, 1., -1], [-1., 0, 1], [1., 1, 1], [-1., 1, 1], [0, 1., 1], [1, -1., 0]]))
        return v / np.linalg.norm(v)
    return direction(g)


def matrix(v):
    """A rotation matrix, in floating point, by Rodrigues' formula in extended precision."""
    v = np.asarray(v, dtype=np.longdouble)
    t = np.sqrt((v * v).sum())
    if t == 0:
        return np.eye(3)
    u = v / t
    k = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]], dtype=np.longdouble)
    m = np.eye(3, dtype=np.longdouble) + np.sin(t) * k + 2 * np.sin(t / 2) ** 2 * k.dot(k)
    return m.astype(np.float64)


def frame(g):
    """Two orthonormal directions and their normal."""
    n = axis(g)
    while True:
        a = np.cross(n, direction(g))
        m = np.linalg.norm(a)
        if m > 0.1:
            a = a / m
            return a, np.cross(n, a), n


def planar(g):
    a, b, n = frame(g)
    while True:
        m = g.int(4, 8)
        st = np.array([[g.num('i'), g.num('i')] for _ in range(m)]) if g.chance(0.5) else np.array([[g.num('f'), g.num('f')] for _ in range(m)])
        c = st - st.mean(axis=0)
        if np.linalg.svd(c)[1][-1] > 0.5:
            break
    off = np.array(g.vec(3)) * g.pick([0.0, 1.0, 10.0])
    if g.chance(0.25):
        st, off = c, np.array(g.nzvec(3)) * g.pick([1e-2, 1e-3, 1e-4, 1e-6])
    elif g.chance(0.3):
        st, off = c, off * 0
    s = g.pick([1.0, 1.0, 10.0])
    k = g.scale(0.15, -24, 24)
    s, off = s * k, off * k
    return (s * (st[:, :1] * a + st[:, 1:] * b) + off).tolist(), n.tolist()


def one(g):
    r = g.r.random()
    if r < 0.2:
        up = [x * g.pick([1.0, 1.0, 1.0, 1e-3, 1e3]) for x in g.nzvec()]
        look = g.nzvec()
        t = g.r.random()
        if t < 0.15:
            look = [x * g.pick([2.0, -1.0, 0.5, 4.0]) for x in up]
        elif t < 0.22:
            up = [0.0, 0.0, 0.0]
        elif t < 0.29:
            look = [0.0, 0.0, 0.0]
        elif t < 0.4:
            look = [x * 3 + 1e-3 * y for x, y in zip(up, look)]
        elif t < 0.5:
            i = g.int(0, 2)
            up = [float(j == i) * g.pick([1.0, -1.0, 3.0]) for j in range(3)]
        s = g.scale(0.2)
        if s != 1.0:
            t = s if g.chance(0.5) else 1.0
            up, look = [x * s for x in up], [x * t for x in look]
            if g.chance(0.3):
                up, look = look, up
        return {'op': 'up_look', 'up': Q(up), 'look': Q(look), 'form': g.form(up + look, 'fnrlt')}
    if r < 0.4:
        n = g.pick([3, 3, 3, 2, 1, 4])
        deg = g.chance(0.5)
        ts = [g.pick([g.r.uniform(-180, 180), g.r.uniform(-180, 180), 90.0, -90.0, 180.0, 0.0, 30.0, 400.0, 1e-3, float(g.int(-360, 360))]) for _ in range(n)]
        if not deg:
            ts = [t / 57.0 for t in ts]
        axes = list(g.pick(['xyz', 'xyz', 'zyx', 'yxz', 'zxy', 'yzx', 'xzy', 'zxz', 'xyx', 'x', 'y', 'z', 'zy', 'xyzx'])) if n != 1 else [g.pick('xyz')]
        form = 's' if n == 1 and g.chance(0.5) else g.pick('ltf')
        if all(t == round(t) for t in ts) and form == 'f' and g.chance(0.4):
            form = 'i'
        return {'op': 'euler', 'xyz': Q(ts), 'axes': axes, 'units': 'deg' if deg else 'rad', 'form': form, 'explicit': g.chance(0.3)}
    if r < 0.58:
        v = axis(g) * angle(g)
        if g.chance(0.15):
            v = direction(g) * g.r.uniform(3.2, 9)
        form = g.pick(['v', 'v', 'c', 'r', 'l', 't', 'cl', 'ro'])
        if (v == np.round(v)).all() and g.chance(0.5):
            form = 'i'
        if g.chance(0.7):
            return {'op': 'from_vector', 'r': Q(v), 'form': form, 'jac': g.chance(0.6)}
        return {'op': 'as_matrix', 'vec': True, 'r': Q(v), 'form': g.pick(['v', 'c', 'r', 'ro'])}
    if r < 0.8:
        if g.chance(0.3):
            while True:
                p = [g.int(-4, 4) for _ in range(4)]
                if any(p):
                    break
            if g.chance(0.4) and any(p[1:]):
                p[0] = 0                                    # a half turn
            m = quat(p)
        else:
            m = matrix(axis(g) * angle(g)).tolist()
        if g.chance(0.75):
            return {'op': 'from_matrix', 'm': Q(m), 'form': g.pick('fFnlr'), 'jac': g.chance(0.5)}
        return {'op': 'as_matrix', 'vec': False, 'm': Q(m), 'form': g.pick('fFnr')}
    if r < 0.82:
        return {'op': 'refused', 'fn': g.pick(['rodrigues', 'as_rotation_matrix']), 'shape': g.pick([[2], [4], [3, 2], [2, 2], [4, 4], [1, 4], [2, 3], [1, 1, 3]])}
    pts, n = planar(g)
    form = g.form(pts, 'fFnr')
    if r < 0.87:
        return {'op': 'normal', 'points': Q(pts), 'form': form}
    has = g.chance(0.6)
    if has:
        if g.chance(0.3):                                    # points off the plane too
            pts = [[x + 0.3 * g.num('f') for x in p] for p in pts]
            form = 'f'
        t = g.r.random()
        if t < 0.25:
            n = [0.0, g.pick([1.0, -1.0]), 0.0]
        elif t < 0.4:
            e = g.pick([1e-6, 1e-4, 1e-3]) * g.pick([1, -1])
            n = np.array([e * g.num('f'), g.pick([1.0, -1.0]), e])
            n = (n / np.linalg.norm(n)).tolist()
        elif t < 0.6:
            n = direction(g).tolist()
        elif g.chance(0.5):
            n = [-x for x in n]
    return {'op': 'xz', 'points': Q(pts), 'form': form, 'hasnormal': has, 'normal': Q(n), 'nform': g.form(n, 'fnr')}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(60 if tier == 'quick' else 900):
        yield [one(g) for _ in range(16)]


if __name__ == '__main__':
    common.main(__import__('drv_rotations'))
