"""Lines that meet, and barycentric coordinates (C18)."""
import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs, rescaled

ENDS = ('p0', 'q0', 'p1', 'q1')


def run(ops):
    from blmath.geometry.segment import line_intersect, line_intersect3
    from blmath.geometry.barycentric import barycentric_coordinates_of_projection
    events = []
    for op in ops:
        ev = dict(op)
        if op['op'] == 'bary':
            a = [arr(op[k][0] if op['single'] else op[k], op['form']) for k in 'pquv']
            fn = barycentric_coordinates_of_projection
        else:
            a = [arr(op['l'][k], op['form']) for k in ENDS]
            fn = line_intersect if op['op'] == 'line2' else line_intersect3
        w = Watch(*a)
        r = guarded(lambda: (fn(*a),))
        ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def line(kind, ps, g, forms='fFnr'):
    k = g.pick([1.0, 1.0, 1.0, 1.0, 0.01, 1.0 / 1024, 64.0])
    ps = [np.array(p, dtype=float) * k for p in ps]
    flat = [x for p in ps for x in np.ravel(p).tolist()]
    big = max(abs(x) for x in flat) > 1e5
    return {'op': kind, 'l': {k: Q(np.array(p, dtype=float)) for k, p in zip(ENDS, ps)},
            'form': 'f' if big else g.form(flat, forms)}


def param(g):
    return g.pick([0.0, 1.0, -1.0, 2.0, 0.5, -0.25, 3.0, 10.0]) if g.chance(0.7) else g.num('f')


def lines(g):
    """Two lines: through a common point, parallel, coincident, or whatever (in the plane)."""
    dim = g.pick([2, 3, 3])
    kind = 'line%d' % dim
    t = g.r.random()
    num = g.pick('iiddfm')
    x = np.array(g.vec(dim, num)) * g.pick([1.0, 1.0, 1.0, 100.0])
    d = np.array(g.nzvec(dim, num))
    e = np.array(g.nzvec(dim, num))
    if g.chance(0.3):                                      # along an axis
        d = np.eye(dim)[g.int(0, dim - 1)] * g.pick([1.0, -2.0, 0.5])
    if g.chance(0.2):
        e = np.eye(dim)[g.int(0, dim - 1)] * g.pick([1.0, -2.0, 0.5])
    if dim == 3 and g.chance(0.15):                        # a plane that holds an axis, or leans evenly
        i, j = g.int(0, 2), g.int(0, 2)
        k = g.pick([1.0, 3.0, -0.3, 0.7, 0.1])
        for a in (x, d, e):
            a[i] = a[j] * k
        if not d.any() or not e.any():
            d, e = np.ones(3), np.ones(3)
            e[3 - i - j if i != j else (i + 1) % 3] = -1.7
    if t < 0.5:                                            # meet at x
        def two(d):
            while True:
                a, b = param(g), param(g)
                if abs(a - b) > 1e-2:
                    return [x + a * d, x + b * d]
        return line(kind, two(d) + two(e), g)
    if t < 0.6:                                            # a given point in common
        ps = [x, x + d, x, x + e]
        if g.chance(0.3):
            ps = [x, x + d, x, x + 2 * d]                  # the same line
        if g.chance(0.5):
            ps[:2] = ps[1::-1]
        if g.chance(0.5):
            ps[2:] = ps[:1:-1]
        return line(kind, ps, g)
    if t < 0.66:                                           # parallel, as far as the coordinates can tell
        off = np.array(g.vec(dim, num))
        k = g.pick([1.0, -1.0, 3.0, 0.7, -1.3])
        a = g.num('f')
        return line(kind, [x, x + d, x + off + a * d, x + off + (a + k) * d], g)
    if t < 0.9:                                            # parallel, exactly
        d, x = np.round(d * 8) / 8, np.round(x * 8) / 8
        if not d.any():
            d[0] = 1.0
        if g.chance(0.4):
            d = np.array([float(g.int(-60, 60)) for _ in range(dim)])
            if not d.any():
                d[-1] = 7.0
        k = g.pick([1.0, -1.0, 2.0, -0.5, 3.0, 0.25, 5.0])
        off = d * g.int(-3, 3) if g.chance(0.25) else np.round(np.array(g.vec(dim)) * 4) / 4
        return line(kind, [x, x + d, x + off, x + off + k * d], g)
    if dim == 2:
        return line(kind, [x, x + d, np.array(g.vec(2, num)), np.array(g.vec(2, num)) + e], g)
    # three points and a fourth in their plane
    a, b, c = (np.array(g.vec(3, 'i')) for _ in range(3))
    y = a + (b - a) * g.int(-2, 2) + (c - a) * g.int(-2, 2)
    ps = [[a, b, c, y], [a, c, b, y], [y, a, b, c], [a, y, c, b]][g.int(0, 3)]
    return line(kind, ps, g)


def triangle(g):
    num = g.pick('idfm')
    while True:
        u, v = np.array(g.nzvec(3, num)), np.array(g.nzvec(3, num))
        if g.chance(0.2):
            u, v = np.eye(3)[g.int(0, 2)] * g.num('i'), v
        if np.linalg.norm(np.cross(u, v)) > 0.02 * np.linalg.norm(u) * np.linalg.norm(v) > 0:
            break
    q = np.array(g.vec(3, num)) * g.pick([0.0, 1.0, 1.0, 100.0])
    t = g.r.random()
    if t < 0.15:
        p = g.pick([q, q + u, q + v])
    elif t < 0.3:
        p = q + u * g.num('d') + v * g.num('d')
    elif t < 0.4:                                          # close to an edge, or to a corner
        e = lambda: g.pick([1, -1]) * 10.0 ** -g.int(2, 9)
        p = q + u * g.pick([e(), 1 + e(), 0.5 + e()]) + v * g.pick([e(), 0.5 - e(), 0.25])
    elif t < 0.5:
        p = q + u * 0.25 + v * 0.25 + np.cross(u, v) * g.pick([1.0, -0.5, 3.0])
    else:
        p = np.array(g.vec(3, num)) * g.pick([1.0, 1.0, 10.0])
    s = g.pick([1.0, 1.0, 1.0, 1e-3, 64.0])
    return p * s, q * s, u * s, v * s


def bary(g):
    n = g.many(g.pick([1, 1, 2, 3, 3, 4, 5, 7]), 0.01)
    ts = [triangle(g) for _ in range(n)]
    if n > 1 and g.chance(0.2):                            # one flat triangle among the others
        k = g.int(0, n - 1)
        ts[k] = (ts[k][0], ts[k][1], ts[k][2], ts[k][2] * g.pick([0.0, 1.0, 2.0]))
    p, q, u, v = (np.array([t[k] for t in ts]) for k in range(4))
    flat = [x for a in (p, q, u, v) for x in a.ravel().tolist()]
    return {'op': 'bary', 'p': Q(p), 'q': Q(q), 'u': Q(u), 'v': Q(v), 'single': n == 1 and g.chance(0.6),
            'form': g.form(flat)}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(140 if tier == 'quick' else 2500):
        yield [rescaled(g, bary(g), 'pquv') if g.chance(0.25) else rescaled(g, lines(g), ['l']) for _ in range(12)]


if __name__ == '__main__':
    common.main(__import__('drv_lines'))
