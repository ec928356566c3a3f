"""Prisms, the horizontal plane and surface normals (C22)."""
import sys
import types

import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs, q, rescaled


def stub_lace():
    """Stands in for the lace package, of which one function is needed."""
    try:
        import lace.topology  # noqa: F401
        return
    except ImportError:
        pass

    def quads_to_tris(quads, **_):
        quads = np.asarray(quads)
        tris = np.empty((2 * len(quads), 3), dtype=quads.dtype)
        tris[0::2] = quads[:, [0, 1, 2]]
        tris[1::2] = quads[:, [0, 2, 3]]
        return tris
    lace, topology = types.ModuleType('lace'), types.ModuleType('lace.topology')
    lace.topology, topology.quads_to_tris = topology, quads_to_tris
    sys.modules['lace'], sys.modules['lace.topology'] = lace, topology


def mesh(make):
    def go():
        r = make(ret_unique_vertices_and_faces=True)
        if not isinstance(r, tuple) or len(r) != 2:
            return {'k': 'bad', 'v': 'not a pair'}
        v, f = r
        return {'k': 'mesh', 'v': obs(v), 'f': obs(np.array(f)), 'flat': obs(make())}
    return guarded(go)


def run(ops):
    stub_lace()
    from blmath.geometry import shapes
    from blmath.geometry.surface_normals import surface_normal
    events = []
    for op in ops:
        ev = dict(op)
        kind = op['op']
        if kind == 'box':
            o = arr(op['origin'], op['form'])
            s = arr(op['size'], op['sform'])
            w = Watch(o, s)
            if op['cube']:
                side = F(op['size'])[0]
                side = int(side) if op['sform'] == 'i' else side
                ev['obs'] = mesh(lambda **kw: shapes.create_cube(o, side, **kw))
            else:
                ev['obs'] = mesh(lambda **kw: shapes.create_rectangular_prism(o, s, **kw))
        elif kind == 'prism':
            p = [arr(x, op['form']) for x in op['p']]
            h = F(op['height'])
            w = Watch(*p)
            ev['obs'] = mesh(lambda **kw: shapes.create_triangular_prism(p[0], p[1], p[2], h, **kw))
        elif kind == 'plane':
            w = Watch()
            ev['obs'] = mesh(shapes.create_horizontal_plane)
        else:
            p = arr(op['p'], op['form'], shape=(-1, 3, 3))
            if op['single']:
                p = p[0]
            w = Watch(p)
            kw = {'normalize': op['unit']} if op['told'] else {}
            ev['obs'] = common.call(surface_normal, p, **kw)
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def triangle(g):
    t = g.r.random()
    if t < 0.5:
        p = g.pts(3)
    elif t < 0.7:                                          # thin
        a, b = np.array(g.vec(3)), np.array(g.nzvec(3))
        p = [a, a + b, a + b * g.r.uniform(-1, 2) + np.array(g.vec(3, 'f')) * g.pick([0.1, 0.01])]
    elif t < 0.85:                                         # on a coordinate plane
        p = np.array(g.pts(3))
        p[:, g.int(0, 2)] = g.num('i')
    else:
        p = np.array(g.pts(3, 'f')) * g.pick([1e-4, 1e4, 1e6, 1e-3]) + np.array(g.vec(3)) * g.pick([0, 1])
    return np.array(p, dtype=float)


def one(g):
    op = draw(g)
    if op['op'] == 'box':
        return rescaled(g, op, ['origin', 'size'], forms=['form', 'sform'])
    if op['op'] == 'prism':
        return rescaled(g, op, ['p', 'height'])
    if op['op'] == 'normal':
        return rescaled(g, op, ['p']) if len(op['p']) else op
    return op


def draw(g):
    t = g.r.random()
    if t < 0.4:
        o, s = g.vec(3), g.vec(3)
        if g.chance(0.6):
            s = [abs(x) for x in s]
        if g.chance(0.2):
            o = [0.0] * 3
        if g.chance(0.2):
            o = [x * 1000.0 for x in o]
        cube = g.chance(0.35)
        if cube:
            s = [s[0]] * 3
        return {'op': 'box', 'origin': Q(o), 'size': Q(s), 'cube': cube, 'form': g.form(o), 'sform': g.form(s)}
    if t < 0.65:
        p = triangle(g)
        return {'op': 'prism', 'p': Q(p), 'height': q(g.num() * g.pick([1.0, 1.0, max(1.0, np.abs(p).max())])), 'form': g.form(p)}
    if t < 0.67:
        return {'op': 'plane'}
    n = g.many(g.pick([1, 1, 1, 2, 3, 3, 4, 6, 0]))
    p = [triangle(g) for _ in range(n)]
    if n == 3 and g.chance(0.5):                           # as many triangles as corners
        p = np.round(np.array(p))
    form = 'f' if n == 0 or np.abs(p).max() > 1e4 else g.form(p)
    return {'op': 'normal', 'p': Q(np.array(p)), 'single': n == 1 and g.chance(0.6), 'unit': g.chance(0.6),
            'told': True, 'form': form}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(60 if tier == 'quick' else 1500):
        ops = [one(g) for _ in range(12)]
        for op in ops:
            if op['op'] == 'normal' and op['unit']:
                op['told'] = g.chance(0.5)
        yield ops


if __name__ == '__main__':
    common.main(__import__('drv_shapes'))
