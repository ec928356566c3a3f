"""Vector shortcuts (C14)."""
import common
from common import F, Gen, Q, Watch, arr, call, guarded, np, obs, q

FORMS = 'fFnr'


def make(x):
    """An array of any number of dimensions."""
    a = np.array(F(x['v']), dtype=float) if x['nd'] != 0 else np.array(common.fr(x['v']))
    if x['nd'] == 2 and not len(x['v']):
        a = np.zeros((0, x['w']))
    return arr(Q(a), x.get('form', 'f'), a.shape) if x['nd'] in (1, 2) else a


def run(ops):
    from blmath.numerics import vx
    events = []
    for op in ops:
        ev = dict(op)
        k, ev['mut'], ev['shared'] = op['op'], False, False
        if k == 'vector':
            a, onto = make(op['x']), arr(op['onto'], op.get('oform', 'f'))
            w = Watch(a, onto)
            fn = op['fn']
            if fn in ('normalize', 'magnitude'):
                r = guarded(lambda: (getattr(vx, fn)(a),))
            elif fn in ('sproj', 'proj'):
                r = guarded(lambda: (getattr(vx, fn)(a, onto=onto) if op.get('kw') else getattr(vx, fn)(a, onto),))
            elif fn == 'reject':
                r = guarded(lambda: (vx.reject(a, from_v=onto) if op.get('kw') else vx.reject(a, onto),))
            else:
                r = guarded(lambda: (vx.reject_axis(a, op['axis'], squash=True) if op['squash'] else vx.reject_axis(a, axis=op['axis']),))
            if isinstance(r, tuple):
                ev['obs'] = obs(r[0])
                if fn == 'reject_axis':
                    ev['shared'] = isinstance(r[0], np.ndarray) and bool(np.shares_memory(r[0], a))
            else:
                ev['obs'] = r
            ev['mut'] = w.changed()
        elif k in ('angle', 'almost'):
            a, b = arr(op['a'], op.get('form', 'f')), arr(op['b'], op.get('form', 'f'))
            look = arr(op['look'], op.get('lform', 'f')) if k == 'angle' else None
            w = Watch(a, b, look)
            if k == 'angle':
                ev['obs'] = call(vx.signed_angle if op['signed'] else vx.angle, a, b, look)
            else:
                kw = {'atol': common.fr(op['atol'])} if op['hastol'] else {}
                ev['obs'] = call(vx.almost_zero, a, **kw) if op['fn'] == 'zero' else call(vx.almost_collinear, a, b, **kw)
            ev['mut'] = w.changed()
        elif k == 'pad':
            a = make(op['x'])
            w = Watch(a)
            ev['obs'] = call(vx.pad_with_ones if op['fn'] == 'pad' else vx.unpad, a)
            ev['mut'] = w.changed()
        elif k == 'apply':
            a, m = make(op['x']), arr(op['m'], op.get('mform', 'f'))
            w = Watch(a, m)
            ev['obs'] = call(vx.apply_homogeneous, a, m)
            ev['mut'] = w.changed()
        elif k == 'basis':
            r = guarded(lambda: (getattr(vx.basis, op['name']),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
            if isinstance(r, tuple) and op.get('poke'):
                guarded(lambda: r[0].fill(7.0))
        events.append(ev)
    return events


class NoOverflow(Gen):
    def form(self, v, forms=FORMS):
        f = super().form(v, forms)
        return 'f' if f == 'i' and np.abs(np.ravel(np.array(v, dtype=float))).max(initial=0) > 3e4 else f


def scale(g):
    return g.pick([1.0, 1.0, 1.0, 1.0, 1e-3, 1e3, 1e-6, 1e6, 0.1, 37.5, 1e-10, 1e-13, 1e9])


def vec(g, n=3, kind=None):
    s = scale(g)
    return [x * s for x in g.nzvec(n, kind)]


def stack(g, nd, n=3):
    if nd == 1:
        return {'nd': 1, 'w': n, 'v': Q(vec(g, n))}
    if nd == 2:
        m = g.many(g.pick([1, 2, 3, 3, 4, 6]))
        k = g.pick('idm')
        rows = [vec(g, n, k) if g.chance(0.8) else vec(g, n) for _ in range(m)]
        if g.chance(0.25):                # all of them tiny, or huge
            s = g.pick([1e-9, 1e-11, 1e-6, 1e8])
            rows = [[x * s for x in g.nzvec(n)] for _ in range(m)]
        if m > 1 and g.chance(0.3):
            rows[1] = rows[0]
        return {'nd': 2, 'w': n, 'v': Q(rows)}
    if nd == 0:
        return {'nd': 0, 'w': 0, 'v': q(2.5)}
    return {'nd': 3, 'w': n, 'v': Q([[vec(g, n) for _ in range(2)] for _ in range(2)])}


def formed(g, x):
    if x['nd'] in (1, 2):
        x['form'] = g.form(F(x['v']) if x['v'] else [], FORMS)
    return x


def related(g, v):
    """A vector at a chosen attitude to v."""
    r = g.r.random()
    n = len(v)
    if r < 0.15:
        return [x * g.pick([1.0, 2.0, -1.0, -0.5, 3.0]) for x in v]
    if r < 0.3 and n == 3:
        w = np.cross(v, g.nzvec(3))
        if np.abs(w).max() > 1e-3:
            return [float(x) for x in w]
    if r < 0.4:
        return [x + g.pick([1e-3, -1e-3, 1e-6, 1e-5]) * g.num('f') for x in v]
    return vec(g, n)


def one(g):
    r = g.r.random()
    if r < 0.42:
        fn = g.pick(['normalize', 'magnitude', 'sproj', 'proj', 'reject', 'reject_axis', 'reject_axis'])
        n = 3 if fn == 'reject_axis' else g.pick([3, 3, 3, 2, 4, 1, 5])
        nd = g.pick([1, 1, 2, 2, 2, 2, 3, 0]) if g.chance(0.3) else g.pick([1, 2])
        x = formed(g, stack(g, nd, n))
        base = F(x['v']) if nd == 1 else F(x['v'])[0] if nd == 2 else g.nzvec(n)
        onto = related(g, base)
        return {'op': 'vector', 'fn': fn, 'x': x, 'onto': Q(onto), 'oform': g.form(onto, 'fnr'), 'kw': g.chance(0.5),
                'axis': g.pick([0, 1, 2, 0, 1, 2, 3, -1, 5]) if fn == 'reject_axis' else 0, 'squash': fn == 'reject_axis' and g.chance(0.5)}
    if r < 0.62:
        a = vec(g)
        b = related(g, a)
        c = np.cross(a, b)
        look = g.nzvec(3)
        if g.chance(0.3) and np.abs(c).max() > 1e-6:
            look = [float(x) for x in c * g.pick([1.0, -1.0])]
        elif g.chance(0.2):
            look = list(a)
        fs = g.form(a + b, 'fnr')
        return {'op': 'angle', 'signed': g.chance(0.6), 'a': Q(a), 'b': Q(b), 'look': Q(look), 'form': fs, 'lform': g.form(look, 'fnr')}
    if r < 0.76:
        hastol = g.chance(0.6)
        atol = g.pick([1e-8, 1e-6, 0.5, 1e-3, 2.0, 0.0]) if hastol else 1e-8
        if g.chance(0.5):
            s = g.pick([0.0, 0.5, 0.9, 1.1, 2.0, 50.0]) * (atol or 1e-8)
            a = [s * g.pick([0.0, 1.0, -1.0, 0.3]) for _ in range(3)] if g.chance(0.8) else vec(g)
            return {'op': 'almost', 'fn': 'zero', 'a': Q(a), 'b': Q(a), 'atol': q(atol), 'hastol': hastol, 'form': g.form(a, 'fnr')}
        a = vec(g) if g.chance(0.5) else g.nzvec(3)
        u = np.cross(a, g.nzvec(3))
        k = g.pick([1.0, -1.0, 2.0, 0.5])
        n2 = float(np.dot(a, a))
        m = float(np.linalg.norm(u))
        if m < 1e-3:
            u, m = np.array([0.0, 0.0, 1.0]), 1.0
        eps = g.pick([0.0, 0.3, 0.8, 1.3, 3.0, 1e3]) * (atol or 1e-8) / (n2 ** 0.5) / m
        b = [float(k * x + eps * y) for x, y in zip(a, u)] if g.chance(0.85) else [0.0, 0.0, 0.0]
        return {'op': 'almost', 'fn': 'collinear', 'a': Q(a), 'b': Q(b), 'atol': q(atol), 'hastol': hastol, 'form': 'f'}
    if r < 0.88:
        fn = g.pick(['pad', 'unpad'])
        n = {'pad': 3, 'unpad': 4}[fn] if g.chance(0.75) else g.pick([2, 3, 4, 5, 5])
        x = stack(g, 2 if g.chance(0.85) else g.pick([1, 3]), n)
        if x['nd'] == 2 and g.chance(0.1):
            x['v'] = []
        if x['nd'] == 2 and n >= 4 and fn == 'unpad':
            mode = g.pick([0, 0, 0, 1, 2, 3])
            odd = g.int(0, len(x['v']) - 1) if x['v'] else 0
            for i, row in enumerate(x['v']):
                row[3] = q(1.0)
                if mode == 1 and i == odd or mode == 2:
                    row[3] = q(g.pick([0.0, 2.0, 1.001, -1.0, 1.0, 1 + 1e-6, 1 - 1e-9, 1 + 2.0 ** -52]))
                elif mode == 3 and i == odd:     # ones, but for one that is only nearly one
                    row[3] = q(g.pick([1 + 1e-4, 1 + 1e-6, 1 - 1e-6, 1 - 1e-9, 1 + 1e-12, 1 + 2.0 ** -52]))
        return {'op': 'pad', 'fn': fn, 'x': formed(g, x)}
    if r < 0.95:
        x = stack(g, 2 if g.chance(0.9) else 1, 3 if g.chance(0.9) else g.pick([2, 4]))
        if x['nd'] == 2 and g.chance(0.05):
            x['v'] = []
        kind = g.pick('idm')
        m = [g.vec(4, kind) for _ in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
        if g.chance(0.2):
            s = g.scale(1.0)
            m = [[y * s for y in row] for row in m[:3]] + m[3:]
        if g.chance(0.2):
            m[3] = g.pick([[0.0, 0.0, 0.0, 2.0], [1.0, 0.0, 0.0, 1.0], [0.0, 0.0, 0.0, 0.0], [0.5, 2.0, 0.0, 1.0], [0.0, 1e-7, 0.0, 1.0], [0.0, 0.0, 0.0, 1 + 1e-9]])
        if g.chance(0.1):
            m = g.pick([m[:3], [row[:3] for row in m[:3]], [row[:3] for row in m]])
        return {'op': 'apply', 'x': formed(g, x), 'm': Q(m), 'mform': g.form(m, FORMS)}
    return {'op': 'basis', 'name': g.pick(['x', 'y', 'z', 'neg_x', 'neg_y', 'neg_z']), 'poke': g.chance(0.5)}


def generate(prop, tier, seed):
    g = NoOverflow(seed)
    for _ in range(70 if tier == 'quick' else 1300):
        yield [one(g) for _ in range(25)]


if __name__ == '__main__':
    common.main(__import__('drv_vx'))
