"""Composite transforms and the coordinate manager (C01, C02, C03)."""
import random

import common
from common import F, Gen, Q, Watch, arr, call, fr, guarded, obs, np, scribble

common.stub_modules()
PROBES = {'quick': 10, 'thorough': 60}


class Mesh(object):
    """An object with points, as the library knows meshes."""

    def __init__(self, v):
        self.v = v
        self.f = [[0, 1, 2]]
        self.name = 'm'


class CopyMesh(Mesh):
    copies = 0

    def copy(self):
        CopyMesh.copies += 1
        new = CopyMesh(None if self.v is None else np.array(self.v))
        new.f = [list(x) for x in self.f]
        new.name = self.name
        return new


def thing(what, pts, form):
    if what == 'arr':
        return arr(pts, form, (-1, 3))
    if what == 'mesh':
        return Mesh(arr(pts, form, (-1, 3)))
    if what == 'meshcopy':
        return CopyMesh(arr(pts, form, (-1, 3)))
    return Mesh(None)


def see(src, what, before, fn):
    """Call fn; describe its result relative to the object src."""
    CopyMesh.copies = 0
    r = guarded(lambda: (fn(),))
    if isinstance(r, dict):
        return r
    r = r[0]
    if what == 'arr':
        return {'k': 'pts', 'v': obs(r)}
    if not isinstance(r, Mesh):
        return {'k': 'bad', 'v': type(r).__name__}
    if src is not r:
        orig = not before.changed() and src.__class__.__name__ in ('Mesh', 'CopyMesh')
    else:
        orig = True
    return {'k': 'mesh', 'v': obs(r.v), 'same': r is src,
            'kept': (type(r) is type(src) and getattr(r, 'f', None) == [[0, 1, 2]]
                     and getattr(r, 'name', None) == 'm'),
            'copied': what != 'meshcopy' or CopyMesh.copies == 1,
            'orig': orig}


def append(target, op):
    kind, form = op['kind'], op.get('form', 'f')
    if kind == 'translate':
        a = arr(op['v'], form)
        return target.translate, (a,)
    if kind == 'scale':
        x = fr(op['x'])
        return target.scale, (int(x) if form == 'i' else x,)
    if kind == 'units':
        return target.convert_units, (op['from'], op['to'])
    if kind == 'append4':
        return target.append_transform4, tuple(arr(op[k], form) for k in ('f', 'r') if k in op)
    if kind == 'append3':
        return target.append_transform3, tuple(arr(op[k], form) for k in ('f', 'r') if k in op)
    if kind == 'reorient':
        return target.reorient, (arr(op['up'], form), arr(op['look'], form))
    if kind == 'rotate':
        return target.rotate, (arr(op['w'] if 'w' in op else op['v'], form, op.get('shape')),)
    raise ValueError(kind)


def expand(ops):
    """The model's behaviours call the coordinate manager and end in a probe:
    make the same calls on a composite and ask about ranges and tags."""
    if not any(o['op'] == 'probe' for o in ops):
        return ops
    out, depth, tags, slot = [], 0, [], False
    rnd = random.Random(repr(ops))
    for o in ops:
        if o['op'] == 'probe':
            qs = []
            rs = [[i, j] for i in range(depth + 1) for j in range(i, depth + 1)]
            for r in rs:
                for rev in (False, True):
                    qs.append({'op': 'call', 'pts': o['pts'], 'range': r, 'rev': rev})
                    qs.append({'op': 'matrix', 'range': r, 'rev': rev})
                qs.append({'op': 'round_trip', 'pts': o['pts'], 'range': r})
            for rev in (False, True):
                qs.append({'op': 'call', 'pts': o['pts'], 'rev': rev})
                qs.append({'op': 'matrix', 'rev': rev})
            for a in ('a', 'b'):
                qs.append({'op': 'get', 'name': a})
                for b in ('a', 'b'):
                    for w in ('arr', 'mesh', 'meshcopy'):
                        qs.append({'op': 'move', 'what': w, 'pts': o['pts'], 'from': a, 'to': b})
            rnd.shuffle(qs)
            out += qs[:PROBES['quick']]
        else:
            out.append(o)
            if o['op'] == 'append':
                out.append(dict(o, on='comp'))
                depth += 1
    return out


def run(ops):
    from blmath.geometry.transform import CompositeTransform, CoordinateManager
    comp, cm = CompositeTransform(), CoordinateManager()
    cur, before, curwhat = None, None, None
    events = []
    for op in expand(ops):
        ev = dict(op)
        k = op['op']
        form = op.get('form', 'f')
        if k == 'reset':
            pass
        elif k == 'append':
            target = comp if op['on'] == 'comp' else cm
            fn, args = append(target, op)
            w = Watch(*args)
            ev['obs'] = call(fn, *args)
            ev['mut'] = w.changed()
            if op.get('after'):
                for a in args:
                    scribble(a)
        elif k in ('call', 'matrix'):
            kw = {}
            if 'range' in op:
                kw['from_range'] = tuple(op['range'])
            if op['rev'] or not op.get('bare'):
                kw['reverse'] = op['rev']
            if k == 'call':
                p = arr(op['pts'], form, (-1, 3))
                w = Watch(p)
                r = guarded(lambda p=p, kw=kw: (comp(p, **kw),))
                ev['mut'] = w.changed()
            else:
                r = guarded(lambda kw=kw: (comp.matrix_for(**kw),))
            ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
            if op.get('after') and isinstance(r, tuple):
                scribble(r[0])
        elif k == 'round_trip':
            p = arr(op['pts'], form, (-1, 3))
            r = tuple(op['range'])
            ev['obs'] = call(lambda p=p, r=r: comp(comp(p, from_range=r), from_range=r, reverse=True))
        elif k == 'tag':
            ev['obs'] = call(cm.tag_as, op['name'])
        elif k == 'set':
            x = thing(op['what'], op['pts'], form)
            ev['obs'] = call(lambda n=op['name'], x=x: setattr(cm, n, x))
            if ev['obs']['k'] != 'exc':
                cur, curwhat = x, op['what']
                before = Watch(getattr(x, 'v', x))
        elif k == 'get':
            ev['obs'] = see(cur, curwhat or 'arr', before, lambda n=op['name']: getattr(cm, n))
        elif k == 'move':
            x = thing(op['what'], op['pts'], form)
            w = Watch(getattr(x, 'v', x))
            ev['obs'] = see(x, op['what'], w,
                            lambda x=x, o=op: cm.do_transform(x, o['from'], o['to']))
            ev['mut'] = w.changed()
        events.append(ev)
    return events


LENGTHS = ['m', 'mm', 'cm', 'in', 'ft', 'fathoms', 'cubits', 'meter', 'centimeters', 'inches', 'feet', 'foot']


def special_matrix(g):
    """Matrices that look like simpler ones than they are."""
    what = g.pick(['unit_columns', 'unit_rows', 'reflection', 'rotation', 'triangular', 'symmetric', 'diagonal'])
    m, _ = g.quat_rotation(3)
    m = np.array(m, dtype=float)
    rot = m / np.sqrt((m ** 2).sum(axis=1))[:, np.newaxis]
    if what in ('unit_columns', 'unit_rows'):
        while True:
            m = np.array([g.pick([[1., 0, 0], [0, 1., 0], [0, 0, 1.], [.6, .8, 0], [0, .6, -.8], [-.8, 0, .6],
                                  [0.28, 0.96, 0]]) for _ in range(3)])
            if abs(np.linalg.det(m)) > 0.2:
                return m if what == 'unit_rows' else m.T
    if what == 'reflection':
        return -rot
    if what == 'rotation':
        return rot
    if what == 'triangular':
        m = np.triu([[float(g.int(-2, 2)) for _ in range(3)] for _ in range(3)], 1) + np.eye(3)
        return m if g.chance(.5) else m.T
    if what == 'symmetric':
        a, b, c = [g.pick([0.5, -0.25, 0.25, 0.]) for _ in range(3)]
        return np.array([[1, a, b], [a, 1, c], [b, c, 2.]])
    return np.diag([g.pick([1., 2., -1., 0.5]) for _ in range(3)])


def nearly(g):
    """A small amount, to be just off a special case."""
    return g.pick([1, -1]) * 10.0 ** -g.int(2, 12)


def gen_append(g, on, honest, mild=False):
    after = g.chance(0.3)
    kind = g.pick(['translate', 'rotate', 'reorient'] if mild and g.chance(.7) else ['translate', 'translate', 'scale', 'units', 'append4', 'append3', 'reorient', 'rotate', 'rotate'])
    op = {'op': 'append', 'on': on, 'kind': kind, 'after': after}
    if kind == 'translate':
        v = g.vec()
        if g.chance(0.1):
            v = [0.0, 0.0, 0.0]
        if g.chance(0.1):
            v = [x * 1000.0 for x in v]
        elif g.chance(0.1):                                # next to nothing
            v = [x * abs(nearly(g)) for x in v]
        op['form'] = g.form(v, 'ffnrlt')
        if v == [float(int(x)) for x in v] and min(v) >= 0 and max(v) < 256:
            op['form'] = g.pick(['u', 'i', op['form']])
        op['v'] = Q(v)
    elif kind == 'scale':
        x = g.pick([2.0, 0.5, 10.0, 0.1, 3.0, 1.0, 0.0254, 100.0, g.num('d'), -1.0, 0.0, 1.0 + nearly(g), abs(nearly(g)), 1.0 / nearly(g)])
        op['x'] = Q(x)
        if x == int(x):
            op['form'] = g.pick('fi')
    elif kind == 'units':
        op['from'], op['to'] = g.pick(LENGTHS), g.pick(LENGTHS)
        if g.chance(0.15):
            op['to'] = g.pick(['kg', 'yr', 'parsec', 'rad'])
        elif g.chance(0.05):
            op['from'], op['to'] = 'kg', 'g'
    elif kind in ('append4', 'append3') and g.chance(0.08):  # no transform at all
        m = np.eye(4 if kind == 'append4' else 3)
        if kind == 'append3' and g.chance(0.6):
            m = np.array(g.pts(g.pick([2, 3, 3, 4]), 'i', g.pick([2, 4])))
        else:
            m[g.int(0, 2)] = 0.0
        op['f'], op['form'] = Q(m), g.form(m, 'ffFn')
    elif kind in ('append4', 'append3'):
        n = 3
        while True:
            if g.chance(0.3):
                m = special_matrix(g)
                if g.chance(0.3):
                    m = m + np.array([[nearly(g) if g.chance(0.3) else 0.0 for _ in range(3)] for _ in range(3)])
                break
            m = np.array([[g.int(-3, 3) for _ in range(n)] for _ in range(n)], dtype=float)
            if g.chance(0.5):
                m = m + 0.25 * np.array([[g.int(-3, 3) for _ in range(n)] for _ in range(n)])
            d = np.linalg.det(m)
            if abs(d) > 0.5:
                break
        if kind == 'append4':
            full = np.eye(4)
            full[:3, :3] = m
            full[:3, 3] = g.vec(3, 'd')
            m = full
        op['f'] = Q(m)
        op['form'] = g.form(m, 'ffFn')
        if g.chance(0.4):
            if honest:
                # an exactly representable inverse: a signed permutation with powers of two
                p = np.zeros((n, n))
                r = np.zeros((n, n))
                perm = [int(x) for x in g.r.permutation(n)]
                for i, j in enumerate(perm):
                    s = g.pick([1.0, -1.0, 2.0, -0.5, 4.0])
                    p[i, j] = s
                    r[j, i] = 1.0 / s
                if kind == 'append4':
                    t = np.array(g.vec(3, 'i'))
                    pp, rr = np.eye(4), np.eye(4)
                    pp[:3, :3], pp[:3, 3] = p, t
                    rr[:3, :3], rr[:3, 3] = r, -r @ t
                    p, r = pp, rr
                op['f'], op['r'] = Q(p), Q(r)
                op['form'] = 'f'
            elif g.chance(0.5):                            # the inverse, but for a little
                k = 2.0 ** g.int(-2, 2)
                m, r = np.eye(len(m)) * k, np.eye(len(m)) / k
                if kind == 'append4':
                    m[3, 3] = r[3, 3] = 1.0
                r[g.int(0, 2), g.int(0, len(m) - 1)] += nearly(g)
                op['f'], op['r'], op['form'] = Q(m), Q(r), 'f'
            else:
                r = np.eye(len(m))
                r[:3, :3] = [[g.int(-3, 3) for _ in range(3)] for _ in range(3)]
                op['r'] = Q(r)
    elif kind == 'reorient':
        m, den = g.quat_rotation()
        m = np.array(m)
        s, a, b = g.int(1, 3), g.int(1, 3), g.int(-3, 3)
        up = m[1] * s
        look = m[2] * a + m[1] * b
        from fractions import Fraction
        op['up'], op['look'] = Q(up), Q(look)
        op['w'] = Q([[Fraction(int(x), den) for x in row] for row in m])
        op['form'] = g.pick(['f', 'i', 'l', 'li', 'n'])
    else:
        if g.chance(0.5):
            m, den = g.quat_rotation(3)
            from fractions import Fraction
            op['w'] = Q([[Fraction(int(x), den) for x in row] for row in m])
            op['form'] = g.pick(['f', 'l', 'F'])
        else:
            v = g.pick([g.vec(), [0.0, 0.0, 0.0], [np.pi / 2, 0, 0], [0, 0, np.pi], [0, -0.3, 0], [1e-3, 2e-3, 0], [nearly(g), nearly(g), nearly(g)],
                        [np.pi + nearly(g), 0, 0], [0, nearly(g), np.pi / 2]])
            v = [float(x) for x in v]
            while sum(x * x for x in v) > 30:
                v = [x / 2 for x in v]
            op['v'] = Q(v)
            op['form'] = g.pick(['f', 'l', 'n'])
            op['shape'] = g.pick([[3], [3], [1, 3], [3, 1]])
    return op


def refused_matrix(op):
    return op['kind'] in ('append3', 'append4') and (np.shape(op['f'])[:2] not in ((3, 3), (4, 4)) or op['kind'] == 'append3'
                                                    and len(op['f']) != 3 or not np.array(F(op['f'])).any(axis=1).all())


def gen_range(g, n):
    r = [g.int(0, n), g.int(0, n)]
    if g.chance(0.75):
        r.sort()
    if g.chance(0.1):
        r[1] = n + g.int(1, 2)
    return r


def gen_pts(g):
    n = g.many(g.pick([1, 1, 2, 3, 4, 5, 17]), 0.05) if not g.chance(0.03) else 0
    p = g.pts(n)
    if n > 40:
        p = (p[:23] * 20)[:n - 1] + p[-1:]      # many, but few different ones
    if g.chance(0.1):
        p = [[1000.0 * x for x in y] for y in p]
    return p


def comp_session(g, tier):
    honest = g.chance(0.8)
    ops = [{'op': 'reset'}]
    n = 0
    asked = []
    long = g.chance(0.12)
    if long:
        # a long stack, asked about only then
        while n < 7 or (n < 16 and g.chance(0.8)):
            op = gen_append(g, 'comp', True, True)
            if op['kind'] not in ('scale', 'units'):
                ops.append(op)
                n += 1
    for _ in range(g.int(3, 12 if tier == 'quick' else 20)):
        what = g.r.random()
        if asked and g.chance(0.25):
            # the same question again, after what has happened since
            ops.append(dict(g.pick(asked)))
            continue
        if what < 0.4 and n < (17 if long else 6):
            op = gen_append(g, 'comp', honest, long)
            ops.append(op)
            if not (op['kind'] == 'scale' and fr(op['x']) <= 0) and not refused_matrix(op) and not (
                    op['kind'] == 'units' and (op['to'] not in LENGTHS or op['from'] not in LENGTHS)):
                n += 1
            continue
        pts = gen_pts(g)
        if what < 0.7:
            op = {'op': 'call', 'pts': Q(pts), 'rev': g.chance(0.5), 'form': g.form(pts), 'bare': g.chance(0.5)}
            if g.chance(0.65):
                op['range'] = gen_range(g, n)
        elif what < 0.9 or not honest or not pts:
            op = {'op': 'matrix', 'rev': g.chance(0.5), 'bare': g.chance(0.5)}
            if g.chance(0.65):
                op['range'] = gen_range(g, n)
        else:
            op = {'op': 'round_trip', 'pts': Q(pts), 'range': sorted(gen_range(g, n)), 'form': g.form(pts)}
        op['after'] = g.chance(0.3)
        ops.append(op)
        asked.append(op)
    return ops


NAMES = ['source', 'floored', 'scaled', 'centered_at_origin', 'x']


def cm_session(g, tier):
    ops = [{'op': 'reset'}]
    tags = []
    asked = []
    for _ in range(g.int(6, 16 if tier == 'quick' else 28)):
        what = g.r.random()
        if asked and g.chance(0.15):
            ops.append(dict(g.pick(asked)))
        elif what < 0.3:
            ops.append(gen_append(g, 'cm', True))
        elif what < 0.5 or not tags:
            name = g.pick(NAMES)
            tags.append(name)
            ops.append({'op': 'tag', 'name': name})
        elif what < 0.62:
            pts = gen_pts(g)
            name = g.pick(tags) if g.chance(0.9) else 'nowhere'
            ops.append({'op': 'set', 'name': name, 'what': g.pick(['arr', 'arr', 'mesh', 'meshcopy', 'none']),
                        'pts': Q(pts), 'form': g.form(pts)})
        elif what < 0.82:
            ops.append({'op': 'get', 'name': g.pick(tags) if g.chance(0.93) else 'elsewhere'})
        else:
            pts = gen_pts(g)
            ops.append({'op': 'move', 'what': g.pick(['arr', 'arr', 'mesh', 'meshcopy', 'none']), 'pts': Q(pts),
                        'from': g.pick(tags) if g.chance(0.95) else 'nowhere',
                        'to': g.pick(tags) if g.chance(0.95) else 'elsewhere', 'form': g.form(pts)})
        if ops[-1]['op'] in ('get', 'move', 'set'):
            asked.append(ops[-1])
    return ops


def generate(prop, tier, seed):
    g = Gen(seed)
    count = {'quick': 250, 'thorough': 2500}[tier]
    for _ in range(count):
        yield cm_session(g, tier) if prop == 'C03' else comp_session(g, tier)


if __name__ == '__main__':
    common.main(__import__('drv_transforms'))
