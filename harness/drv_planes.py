"""Planes: making and asking (C07), lines and segments (C08)."""
import common
from common import F, Gen, Q, Watch, arr, call, guarded, obs, np, scribble

common.stub_modules()


def show(p):
    return {'k': 'plane', 'normal': call(lambda: p.normal), 'reference': call(lambda: p.reference_point),
            'canonical': call(lambda: p.canonical_point), 'equation': call(lambda: p.equation)}


class WatchPlane:
    """Arguments, and a plane as it shows itself."""

    def __init__(self, plane, *args):
        self.plane, self.watch, self.before = plane, Watch(*args), repr(show(plane))

    def changed(self):
        return self.watch.changed() or repr(show(self.plane)) != self.before


def after(op, plane, arrays):
    """The caller goes on with its arrays, and with those the plane gave out."""
    if op.get('after'):
        for f in (lambda: plane.normal, lambda: plane.reference_point, lambda: plane.canonical_point, lambda: plane.equation):
            r = guarded(f)
            scribble(r)
        for a in arrays:
            scribble(a)


def run(ops):
    from blmath.geometry.primitives.plane import Plane
    plane = None
    events = []
    for op in ops:
        ev = dict(op)
        k, form = op['op'], op.get('form', 'f')
        if k == 'make':
            kind = op['kind']
            if kind == 'pn':
                fn, args = Plane, (arr(op['pt'], form), arr(op['n'], form))
            elif kind == 'points':
                fn, args = Plane.from_points, tuple(arr(op[x], form) for x in ('p1', 'p2', 'p3'))
            elif kind == 'vector':
                fn, args = Plane.from_points_and_vector, tuple(arr(op[x], form) for x in ('p1', 'p2', 'n'))
            else:
                fn, args = Plane.fit_from_points, (arr(op['pts'], form, (-1, 3)),)
            w = Watch(*args)
            r = guarded(lambda fn=fn, args=args: (fn(*args),))
            plane = None
            if isinstance(r, tuple):
                plane = r[0]
                if isinstance(plane, Plane):
                    ev['mut'] = w.changed()
                    after(op, plane, args)
                ev['obs'] = show(plane) if isinstance(plane, Plane) else {'k': 'bad', 'v': ''}
            else:
                ev['obs'] = r
            ev.setdefault('mut', w.changed())
            events.append(ev)
            if not isinstance(plane, Plane):
                break
            continue
        if k == 'query':
            pts = arr(op['pts'], form, (-1, 3))
            front = arr(op['pts'], 'f' if form in ('l', 'li') else form, (-1, 3))
            if op['single']:
                pts = pts[0]
            w = WatchPlane(plane, pts, front)
            inv = {'inverted': op['inv']} if op['inv'] or op.get('bare') is False else {}
            ev['obs'] = {'sd': call(plane.signed_distance, pts), 'dist': call(plane.distance, pts),
                         'sign': call(plane.sign, pts)}
            if not op['single']:
                ev['obs']['front'] = call(plane.points_in_front, front, **inv)
                ev['obs']['indices'] = call(plane.points_in_front, front, ret_indices=True, **inv)
            ev['mut'] = w.changed()
        elif k == 'project':
            x = arr(op['x'], form)
            w = WatchPlane(plane, x)
            r = guarded(lambda x=x: (plane.project_point(x),))
            ev['mut'] = w.changed()
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
            if op.get('after') and isinstance(r, tuple):
                scribble(r[0])
        elif k == 'flipped':
            r = guarded(lambda: (plane.flipped(),))
            ev['obs'] = (show(r[0]) if isinstance(r[0], Plane) else {'k': 'bad', 'v': ''}) if isinstance(r, tuple) else r
        elif k == 'line':
            a, b = arr(op['x'], form, op.get('shape')), arr(op['ray'], form, op.get('shape'))
            w = WatchPlane(plane, a, b)
            ev['obs'] = call(plane.line_xsection, a, b)
            ev['mut'] = w.changed()
        elif k == 'segment':
            a, b = arr(op['a'], form, op.get('shape')), arr(op['b'], form, op.get('shape'))
            w = WatchPlane(plane, a, b)
            ev['obs'] = call(plane.line_segment_xsection, a, b)
            ev['mut'] = w.changed()
        elif k == 'batch':
            a, b = arr(op['a'], form, (-1, 3)), arr(op['b'], form, (-1, 3))
            w = WatchPlane(plane, a, b)
            fn = plane.line_xsections if op['kind'] == 'line' else plane.line_segment_xsections
            r = guarded(lambda fn=fn, a=a, b=b: (fn(a, b),))
            if isinstance(r, tuple):
                r = r[0]
                if isinstance(r, tuple) and len(r) == 2:
                    ev['pts'], ev['valid'] = obs(r[0]), obs(r[1])
                else:
                    ev['pts'] = ev['valid'] = {'k': 'bad', 'v': ''}
            else:
                ev['pts'] = ev['valid'] = r
            ev['mut'] = w.changed()
        events.append(ev)
    return events


def normal(g):
    r = g.r.random()
    if r < 0.3:
        n = [0.0, 0.0, 0.0]
        n[g.int(0, 2)] = float(g.pick([1, -1, 2, -3, 0.5, 10]))
        return n
    if r < 0.45:
        n = [float(g.pick([-1, 0, 1])) for _ in range(3)]
        return n if any(n) else [1.0, 1.0, 0.0]
    n = g.nzvec()
    if g.chance(0.2):                     # almost along an axis
        i = g.int(0, 2)
        e = 10.0 ** -g.int(3, 9)
        n = [g.pick([1.0, -1.0, 2.0]) if j == i else e * x * g.pick([0.0, 1.0, 1.0]) for j, x in enumerate(n)]
    if g.chance(0.2):
        s = g.pick([100.0, 0.01, 1e4, 1e-5, 1e9])
        n = [x * s for x in n]
    elif g.chance(0.2):                   # almost of length one
        s = (1 + g.pick([1, -1]) * 10.0 ** -g.int(2, 10)) / float(np.linalg.norm(n))
        n = [x * s for x in n]
    return n


def place(g):
    """Scale and offset of a scene."""
    s = g.pick([1.0, 1.0, 1.0, 1.0, 100.0, 0.05, 1000.0])
    o = [0.0, 0.0, 0.0] if g.chance(0.6) else [50.0 * x for x in g.vec(3, 'i')]
    k = g.scale(0.2)
    return s * k, [x * k for x in o]


def put(pts, s, o):
    return [[float(x * s + c) for x, c in zip(p, o)] for p in pts]


def make(g, s, o):
    kind = g.pick(['pn', 'pn', 'pn', 'points', 'vector', 'fit'])
    if s < 0.05 and kind in ('points', 'vector'):    # their normal would count as zero
        kind = 'pn'
    numkind = g.pick('idfm')
    op = {'op': 'make', 'kind': kind}
    if kind == 'pn':
        pt = put([g.vec(3, numkind)], s, o)[0]
        n = normal(g)
        if g.chance(0.03):
            n = [0.0, 0.0, 0.0]
        op.update(pt=Q(pt), n=Q(n), form=g.form(pt + n, 'ffnr'))
        return op, pt, n
    if kind in ('points', 'vector'):
        while True:
            ps = put(g.pts(3, numkind), s, o)
            v = normal(g)
            a, b, c = [np.array(x) for x in ps]
            n = np.cross(b - a, c - a) if kind == 'points' else np.cross(b - a, v)
            e = (np.linalg.norm(c - a) if kind == 'points' else np.linalg.norm(v)) * np.linalg.norm(b - a)
            if e > 0 and np.linalg.norm(n) > 0.05 * e and np.linalg.norm(n) > 1e-5:
                break
        if g.chance(0.04):            # exactly collinear
            ps = [[float(x) for x in g.vec(3, 'i')]]
            d = g.nzvec(3, 'i')
            ps += [[x + k * y for x, y in zip(ps[0], d)] for k in g.pick([(1, 2), (2, -1), (1, 1)])]
            v = [2 * x for x in d]
        if kind == 'points':
            op.update(p1=Q(ps[0]), p2=Q(ps[1]), p3=Q(ps[2]), form=g.form(ps, 'ffnrlt'))
        else:
            op.update(p1=Q(ps[0]), p2=Q(ps[1]), n=Q(v), form=g.form(ps + [v], 'ffnrlt'))
        return op, ps[0], [float(x) for x in n]
    m, den = g.quat_rotation()
    m = np.array(m) / float(den)
    count = g.many(g.pick([4, 5, 8, 15]), 0.05)
    while True:
        flat = np.array([[g.num('f') * 3, g.num('f'), g.num('f') * g.pick([0.0, 0.05])] for _ in range(count)])
        e = np.linalg.eigvalsh(np.cov(flat.T))
        if e[2] > 1.3 * e[1] and e[1] > 10 * abs(e[0]) and e[1] > 1e-2:
            break
    pts = put((flat @ m.T).tolist(), s, o)
    op.update(pts=Q(pts), form=g.pick('ffFnr'))
    return op, [float(x) for x in np.mean(pts, axis=0)], [float(x) for x in m[:, 2]]


def questions(g, s, o, pt, n):
    ops = []
    for _ in range(g.int(2, 4)):
        what = g.pick(['query', 'query', 'project', 'flipped'])
        numkind = g.pick('idfm')
        if what == 'query':
            k = g.many(g.pick([1, 1, 2, 5, 9]))
            if g.chance(0.3):           # some exactly on an axis plane
                pts = [[float(g.int(-4, 4)) if g.chance(0.6) else float(c) for c in pt] for _ in range(k)]
            else:
                pts = put(g.pts(k, numkind), s, o)
            if g.chance(0.3):
                for i in range(k):
                    if g.chance(0.6):
                        pts[i] = g.near(pt, n, s)
            if g.chance(0.04):
                pts = []
            op = {'op': 'query', 'pts': Q(pts), 'single': len(pts) == 1 and g.chance(0.6), 'inv': g.chance(0.4),
                  'bare': g.chance(0.5), 'form': g.form(pts, 'ffnrFl') if pts else 'f'}
        elif what == 'project':
            x = put([g.vec(3, numkind)], s, o)[0] if g.chance(0.6) else g.near(pt, n, s * g.pick([1, 1, 100]))
            op = {'op': 'project', 'x': Q(x), 'after': g.chance(0.3), 'form': g.form(x, 'ffnr')}
        else:
            op = {'op': 'flipped'}
        ops.append(op)
    return ops


def parallel_ray(g, n):
    nz = [i for i in range(3) if n[i]]
    ray = [0.0, 0.0, 0.0]
    if len(nz) == 1:
        for i in range(3):
            if i != nz[0]:
                ray[i] = g.num()
        return ray
    if len({abs(n[i]) for i in nz}) == 1:
        i, j = nz[0], nz[1]
        f = g.pick([1.0, 2.0, -0.5])
        ray[i], ray[j] = f * (1 if n[i] > 0 else -1), -f * (1 if n[j] > 0 else -1)
        if len(nz) == 2:
            k = [x for x in range(3) if x not in nz][0]
            ray[k] = float(g.pick([0, 1, -2]))
        return ray
    return None


def scaled_ray(g, numkind):
    ray = g.nzvec(3, numkind)
    if g.chance(0.25):
        k = g.pick([1e-4, 1e-6, 1e-3, 1e4, 1e-9, 1e-12, 1e8])
        ray = [x * k for x in ray]
    return ray


def segment_ends(g, s, o, pt, n, numkind):
    """Both ends, often on different sides, sometimes parallel to the plane
    or along an axis."""
    a, b = put([g.vec(3, numkind), g.vec(3, numkind)], s, o)
    r = g.r.random()
    if r < 0.3:                          # along an axis: other coordinates equal
        i = g.int(0, 2)
        b = [b[j] if j == i else a[j] for j in range(3)]
    elif r < 0.5:
        ray = parallel_ray(g, n)
        if ray is not None:
            if s >= 0.05:
                a = [float(round(x)) for x in a]
                b = [x + y for x, y in zip(a, ray)]
            else:
                b = [x + y * s for x, y in zip(a, ray)]
            if g.chance(0.15):
                b = list(a)
    elif r < 0.6:                        # an end, or both, close to the plane
        a = g.near(pt, n, s)
        if g.chance(0.6):
            b = g.near(pt, n, s)
        if g.chance(0.5):
            a, b = b, a
    elif r < 0.7:
        nn = np.array(n) / np.linalg.norm(n)
        b = [float(x) for x in np.array(a) - nn * (2.1 * float(np.dot(np.array(a) - np.array(pt), nn)))]
    return a, b


def crossings(g, s, o, pt, n):
    ops = []
    for _ in range(g.int(2, 4)):
        numkind = g.pick('idfm')
        what = g.pick(['line', 'segment', 'batch', 'batch'])
        if what == 'line':
            x = put([g.vec(3, numkind)], s, o)[0]
            ray = scaled_ray(g, numkind)
            if g.chance(0.3):
                ray = parallel_ray(g, n) or ray
            op = {'op': 'line', 'x': Q(x), 'ray': Q(ray), 'form': g.form(x + ray, 'ffnrl'),
                  'shape': g.pick([[3], [3], [1, 3]])}
        elif what == 'segment':
            a, b = segment_ends(g, s, o, pt, n, numkind)
            op = {'op': 'segment', 'a': Q(a), 'b': Q(b), 'form': g.form(a + b, 'ffnrl'),
                  'shape': g.pick([[3], [3], [1, 3]])}
        else:
            k = g.many(g.pick([0, 1, 2, 3, 5, 8, 8]))
            kind = g.pick(['line', 'segment', 'segment'])
            if kind == 'segment':
                rows = [segment_ends(g, s, o, pt, n, numkind) for _ in range(k)]
            else:
                rows = []
                for _ in range(k):
                    ray = scaled_ray(g, numkind)
                    if g.chance(0.3):
                        ray = parallel_ray(g, n) or ray
                    rows.append((put([g.vec(3, numkind)], s, o)[0], ray))
            a, b = [list(r[0]) for r in rows], [list(r[1]) for r in rows]
            op = {'op': 'batch', 'kind': kind, 'a': Q(a), 'b': Q(b), 'form': g.form(a + b, 'ffnrF') if k else 'f'}
        ops.append(op)
    return ops


def generate(prop, tier, seed):
    g = Gen(seed)
    count = {'C07': 320, 'C08': 320}[prop] * (1 if tier == 'quick' else 10)
    for _ in range(count):
        s, o = place(g)
        op, pt, n = make(g, s, o)
        while prop == 'C08' and (op['kind'] == 'fit' and g.chance(0.7) or not any(F(op['n']) if 'n' in op else [1])):
            op, pt, n = make(g, s, o)
        op['after'] = g.chance(0.3)
        yield [op] + (questions if prop == 'C07' else crossings)(g, s, o, pt, n)


if __name__ == '__main__':
    common.main(__import__('drv_planes'))
