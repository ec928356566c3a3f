"""Mesh normals for optimization and their derivatives (C25)."""
import inspect

import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs

FACE_TYPES = {'i8': np.int64, 'u4': np.uint32, 'i4': np.int32, 'u8': np.uint64}


def import_chumpy():
    """chumpy, with the names that it expects of an older Python and numpy."""
    if not hasattr(inspect, 'getargspec'):
        inspect.getargspec = inspect.getfullargspec
    for name, x in dict(bool=np.bool_, int=int, float=float, complex=complex, object=object, unicode=str, str=str,
                        nan=np.nan, inf=np.inf).items():
        if name not in np.__dict__:
            setattr(np, name, x)
    import chumpy
    return chumpy


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m) if m is not None else None


def run(ops):
    ch = import_chumpy()
    from blmath.optimization.objectives import normals
    events = []
    o = {}

    def remake():
        o['tn'] = normals.TriNormals(o['v'], o['f'])
        o['sc'] = normals.TriNormalsScaled(o['v'], o['f'])
    for op in ops:
        ev = dict(op)
        kind = op['op']
        w = Watch(*[x for k, x in o.items() if k in ('f', 'raw')])
        if kind == 'mesh':
            o['raw'] = arr(op['v'], op.get('form', 'f'))
            o['v'] = ch.array(o['raw'])
            o['f'] = np.array(op['f'], dtype=FACE_TYPES[op.get('ft', 'i8')])
            o['vn'] = normals.VertNormals(o['v'], o['f']) if op['unit'] and not op.get('told') else normals.VertNormals(o['v'], o['f'], normalized=op['unit'])
            o['te'] = normals.TriEdges(o['f'], 1, 0, o['v'])
            remake()
        elif kind == 'set_v':
            if op['how'] == 'inplace' and len(op['v']) == len(o['v']):
                o['v'][:] = arr(op['v'])
                w = Watch()
            else:
                o['v'] = ch.array(arr(op['v']))
                o['vn'].v = o['v']
                o['te'].v = o['v']
                remake()
        elif kind == 'set_f':
            o['f'] = np.array(op['f'], dtype=o['f'].dtype)
            o['vn'].f = o['f']
            o['te'].f = o['f']
            remake()
        elif kind == 'set_unit':
            o['vn'].normalized = op['unit']
        elif kind == 'set_corners':
            o['te'].cplus, o['te'].cminus = op['to'], op['from']
        elif kind == 'factors':
            o['a'] = ch.array(arr(op['a']))
            o['b'] = o['a'] if op['tied'] else ch.array(arr(op['b']))
            if op.get('reuse') and 'cross' in o:
                o['cross'].a, o['cross'].b = o['a'], o['b']
            else:
                o['cross'] = normals.CrossProduct(o['a'], o['b'])
        elif kind in ('set_a', 'set_b'):
            k = kind[-1]
            if op['how'] == 'inplace' or o['a'] is o['b']:
                o[k][:] = arr(op[k])
            else:
                o[k] = ch.array(arr(op[k]))
                setattr(o['cross'], k, o[k])
        elif kind == 'vectors':
            x = arr(op['x'])
            if o.get('unit') is not None and op['how'] == 'inplace' and x.size == o['x'].size:
                o['x'][:] = x.reshape(o['x'].shape)
            elif o.get('unit') is not None and op['how'] == 'replace':
                o['x'] = ch.array(x.ravel() if op['flat'] else x)
                o['unit'].v = o['x']
            else:
                o['x'] = ch.array(x.ravel() if op['flat'] else x)
                o['unit'] = normals.NormalizedNx3(o['x'])
        elif kind == 'read':
            def go():
                m = {'edges': o['te'], 'scaled': o['sc'], 'normals': o['tn'], 'vertex_normals': o['vn']}[op['what']]
                r = {'k': 'both', 'd': {'k': 'none'}}
                if op['deriv'] and op.get('first'):
                    r['d'] = obs(dense(m.dr_wrt(o['v'])))
                r['r'] = obs(np.array(m.r))
                if op['deriv']:
                    r['d'] = obs(dense(m.dr_wrt(o['v'])))
                return r
            ev['obs'] = guarded(go)
        elif kind == 'read_cross':
            ev['obs'] = guarded(lambda: {'k': 'cross', 'da': obs(dense(o['cross'].dr_wrt(o['a']))), 'db': obs(dense(o['cross'].dr_wrt(o['b']))), 'r': obs(np.array(o['cross'].r))})
        elif kind == 'read_unit':
            ev['obs'] = guarded(lambda: {'k': 'both', 'r': obs(np.array(o['unit'].r)), 'd': obs(dense(o['unit'].dr_wrt(o['x'])))})
            ev['flat'] = o['x'].ndim == 1
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def vertices(g, n):
    if g.chance(0.3):
        return np.array(g.pts(n, 'i'))
    return np.array(g.pts(n)) * g.pick([1.0, 1.0, 10.0, 0.1]) + np.array(g.vec(3)) * g.pick([0.0, 0.0, 1.0])


def faces(g, n):
    m = g.many(g.int(1, 7), 0.02, (33, 65))
    t = g.r.random()
    if t < 0.15 and n == 4:
        return [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]]
    if t < 0.3:                                            # a fan
        return [[0, k, k + 1] for k in range(1, n - 1)]
    if t < 0.45:                                           # a strip
        return [[k, k + 1, k + 2] if k % 2 == 0 else [k + 1, k, k + 2] for k in range(n - 2)]
    return [[int(x) for x in g.r.permutation(n)[:3]] for _ in range(m)]


def session(g):
    n = g.int(3, 6)
    f = faces(g, n)
    ops = [{'op': 'mesh', 'v': Q(vertices(g, n)), 'f': f, 'unit': g.chance(0.6), 'told': g.chance(0.5), 'ft': g.pick(sorted(FACE_TYPES))}]

    def read():
        return {'op': 'read', 'what': g.pick(['edges', 'scaled', 'normals', 'vertex_normals', 'vertex_normals', 'vertex_normals']), 'deriv': g.chance(0.6), 'first': g.chance(0.3)}
    for _ in range(g.int(2, 5)):
        ops += [read() for _ in range(g.int(0, 2))]
        t = g.r.random()
        if t < 0.35:
            ops.append({'op': 'set_v', 'v': Q(vertices(g, n)), 'how': g.pick(['inplace', 'replace'])})
        elif t < 0.5:                                      # another mesh altogether
            n = g.int(3, 6)
            change = [{'op': 'set_v', 'v': Q(vertices(g, n)), 'how': 'replace'}, {'op': 'set_f', 'f': faces(g, n)}]
            ops += change
        elif t < 0.65:
            ops.append({'op': 'set_f', 'f': faces(g, n)})
        elif t < 0.8:
            ops.append({'op': 'set_unit', 'unit': g.chance(0.5)})
        else:
            to, frm = g.pick([(1, 0), (2, 0), (2, 1), (0, 1), (0, 2), (1, 2)])
            ops.append({'op': 'set_corners', 'to': to, 'from': frm})
    return ops + [read(), {'op': 'read', 'what': 'vertex_normals', 'deriv': True}]


def factors(g):
    ops = []
    tied = g.chance(0.15)
    for _ in range(g.int(1, 3)):
        n = g.int(1, 3)
        a = g.pts(n)
        ops.append({'op': 'factors', 'a': Q(a), 'b': Q(a) if tied else Q(g.pts(n)), 'tied': tied, 'reuse': g.chance(0.6)})
        ops.append({'op': 'read_cross'})
        for _ in range(g.int(0, 3)):
            k = g.pick('ab') if not tied else 'a'
            ops.append({'op': 'set_' + k, k: Q(g.pts(n)), 'how': g.pick(['inplace', 'replace'])})
            if g.chance(0.7):
                ops.append({'op': 'read_cross'})
        ops.append({'op': 'read_cross'})
    return ops


def vectors(g):
    ops = []
    for _ in range(g.int(1, 4)):
        x = (np.array(g.pts(g.int(1, 3))) * g.pick([1.0, 1.0, 1e-3, 1e4])).tolist()
        if g.chance(0.2):
            x[0] = [0.0] * 3
        ops += [{'op': 'vectors', 'x': Q(x), 'flat': g.chance(0.5), 'how': g.pick(['inplace', 'replace', 'new'])}, {'op': 'read_unit'}]
    return ops


def resized(g, ops):
    """The same session with vertices (or factors, or vectors) all tiny or huge."""
    k = {x: g.scale(0.25) for x in 'vabx'}
    tied = any(op.get('tied') for op in ops)
    k['b'] = k['a'] if tied else k['b']
    return [dict(op, **{x: Q(np.array(F(op[x]), dtype=float) * k[x]) for x in 'vabx' if x in op}) for op in ops]


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(60 if tier == 'quick' else 1000):
        yield resized(g, session(g))
    for _ in range(40 if tier == 'quick' else 600):
        yield resized(g, factors(g))
        yield resized(g, vectors(g))


if __name__ == '__main__':
    common.main(__import__('drv_normals'))
