"""Cross sections of meshes (C09)."""
import common
from common import F, Gen, Q, Watch, arr, call, fr, guarded, obs, np

common.stub_modules()


class Mesh(object):
    def __init__(self, v, f):
        self.v = v
        self.f = f


def see(p):
    return {'v': call(lambda: p.v), 'closed': call(lambda: p.closed), 'len': call(lambda: len(p))}


def run(ops):
    from blmath.geometry.primitives.plane import Plane
    events = []
    for op in ops:
        ev = dict(op)
        form = op.get('form', 'f')
        f = np.array(op['mesh']['f'], dtype=op.get('ftype', 'int64')).reshape(-1, 3)
        v = arr(op['mesh']['v'], form, (-1, 3))
        if 'at' in op['mesh']:
            # the mesh's vertices at these places of a much longer list, the others used by no face
            at = np.array(op['mesh']['at'])
            spread = np.random.RandomState(len(at)).normal(size=(at.max() + 3, 3))
            spread[at] = v
            v, f = spread, at[f].astype(f.dtype)
        m = Mesh(v, f)
        plane = Plane(arr(op['plane']['pt']), arr(op['plane']['n']))
        hood = arr(op['hood'], 'f', (-1, 3)) if op['hood'] else None
        w = Watch(m.v, m.f, hood, plane.normal, plane.reference_point)
        kw = {} if hood is None and op.get('bare') else {'neighborhood': hood}
        r = guarded(lambda: (plane.mesh_xsections(m, **kw),))
        ev['obs'] = {'exc': {'k': 'none'}, 'comps': []}
        if isinstance(r, tuple) and isinstance(r[0], list):
            ev['obs']['comps'] = [see(p) for p in r[0]]
        else:
            ev['obs']['exc'] = r if isinstance(r, dict) else {'k': 'bad', 'v': type(r[0]).__name__}
        r = guarded(lambda: (plane.mesh_xsection(m, **kw),))
        if isinstance(r, tuple):
            ev['obs']['single'] = see(r[0])
        else:
            ev['obs']['single'] = {'v': r, 'closed': r, 'len': r}
        ev['obs']['faces'] = call(plane.mesh_intersecting_faces, m)
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def grid(nx, ny, wrapx, wrapy):
    f = []
    for i in range(nx if wrapx else nx - 1):
        for j in range(ny if wrapy else ny - 1):
            a, b = i * ny + j, ((i + 1) % nx) * ny + j
            c, d = ((i + 1) % nx) * ny + (j + 1) % ny, i * ny + (j + 1) % ny
            f += [[a, b, c], [a, c, d]]
    return f, nx * ny


OCTA = [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]
OCTA_V = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
TETRA = [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]
TETRA_V = [[1, 1, 1], [-1, -1, 1], [1, -1, -1], [-1, 1, -1]]
CUBE_V = [[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
CUBE = [[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4],
        [1, 5, 7], [1, 7, 3]]


def piece(g):
    """One connected piece: vertices around the origin, and faces."""
    rows = None
    kind = g.pick(['octa', 'tetra', 'cube', 'sheet', 'tube', 'torus', 'fan', 'one'])
    if kind == 'octa':
        v, f = OCTA_V, OCTA
    elif kind == 'tetra':
        v, f = TETRA_V, TETRA
    elif kind == 'cube':
        v, f = CUBE_V, CUBE
    elif kind == 'one':
        v, f = [[1, 0, 0.5], [-1, 0.3, 1], [0.2, 1, -1]], [[0, 1, 2]]
    elif kind == 'fan':
        n = g.int(3, 6)
        full = g.chance(0.5) and n > 2
        v = [[0, 0, 0.4]] + [[np.cos(6.28 * i / n), np.sin(6.28 * i / n), 0.5 * np.sin(5.0 * i)] for i in range(n)]
        f = [[0, 1 + i, 1 + (i + 1) % n] for i in range(n if full else n - 1)]
    elif kind == 'sheet':
        nx, ny = (g.int(2, 5), g.int(2, 5)) if g.chance(0.95) else (g.int(8, 12), g.int(8, 12))
        f, n = grid(nx, ny, False, False)
        amp = g.pick([0.2, 1.0, 2.0])
        v = [[i - nx / 2.0, j - ny / 2.0, amp * np.sin(2.1 * i + 0.3) * np.cos(1.7 * j)] for i in range(nx) for j in range(ny)]
    elif kind == 'tube':
        nx, ny = g.int(3, 5), g.int(2, 4)
        rows = ny
        f, n = grid(nx, ny, True, False)
        v = [[np.cos(6.2832 * i / nx), np.sin(6.2832 * i / nx), 1.0 * j - ny / 2.0] for i in range(nx) for j in range(ny)]
    else:
        nx, ny = g.int(3, 5), g.int(3, 4)
        f, n = grid(nx, ny, True, True)
        v = []
        for i in range(nx):
            for j in range(ny):
                a, b = 6.2832 * i / nx, 6.2832 * j / ny
                v.append([(2 + np.cos(b)) * np.cos(a), (2 + np.cos(b)) * np.sin(a), np.sin(b)])
    f = [list(x) for x in f]
    return np.array(v, dtype=float), f, rows


def holes(g, f):
    if g.chance(0.35) and len(f) > 2:       # a hole or two
        for _ in range(g.int(1, 3)):
            if len(f) > 1:
                f.pop(g.int(0, len(f) - 1))
    return f


def seam(g, v, f):
    """The mesh cut open: the same points under two indices, for some of the faces around them."""
    f = [list(x) for x in f]
    if g.chance(0.5):        # along the border of some of the faces
        n = g.r.normal(size=3)
        mid = v.mean(axis=0)
        some = [k for k, x in enumerate(f) if (v[x].mean(axis=0) - mid).dot(n) > 0]
    else:                    # from one face on, around the faces at one of its corners
        a = f[g.int(0, len(f) - 1)][0]
        around = [k for k, x in enumerate(f) if a in x]
        some = [around[g.int(0, len(around) - 1)]]
    inside = set(x for k in some for x in f[k])
    outside = set(x for k in range(len(f)) if k not in some for x in f[k])
    both = sorted(inside & outside)
    if g.chance(0.5):
        both = [x for x in both if g.chance(0.7)]
    new = {x: len(v) + i for i, x in enumerate(both)}
    for k in some:
        f[k] = [new.get(x, x) for x in f[k]]
    return np.vstack([v, v[both]]), f


def slit(g, v, f, rows):
    """A tube cut along one of its lines (rows to a line)."""
    cut = list(range(rows))
    new = {x: len(v) + x for x in cut}
    # the faces on one side of line 0: those that also use the last line
    last = set(range(len(v) - rows, len(v)))
    f = [[new.get(x, x) for x in y] if set(y) & last else y for y in f]
    return np.vstack([v, v[cut]]), f


def mesh(g):
    vs, fs, n = [], [], 0
    for _ in range(g.pick([1, 1, 2, 2, 3])):
        v, f, rows = piece(g)
        m, den = g.quat_rotation()
        v = v @ (np.array(m) / float(den)).T * g.pick([1.0, 1.0, 2.0, 0.6])
        v = v + np.array(g.vec(3, 'f')) * (0.5 if n else 0.3)
        v = v + 0.05 * g.r.normal(size=v.shape)
        if rows and g.chance(0.2):
            v, f = slit(g, v, f, rows)
        f = holes(g, f)
        if g.chance(0.12):
            v, f = seam(g, v, f)
        vs.append(v)
        fs += [[int(a) + n for a in x] for x in f]
        n += len(v)
        if len(fs) > 40:
            break
    v = np.vstack(vs)
    if g.chance(0.15):                       # vertices of no face
        v = np.vstack([v, g.r.normal(size=(2, 3))])
    perm = [int(x) for x in g.r.permutation(len(v))]
    inv = np.argsort(perm)
    v = v[perm]
    fs = [[int(inv[a]) for a in x] for x in fs]
    if g.chance(0.7):
        fs = [fs[int(i)] for i in g.r.permutation(len(fs))]
    if g.chance(0.6):
        fs = [x[k:] + x[:k] for x, k in zip(fs, [g.int(0, 2) for _ in fs])]
    if g.chance(0.3):
        fs = [x[::-1] if g.chance(0.5) else x for x in fs]
    if g.chance(0.3):
        v = np.round(v, 2)
    s = g.pick([1.0, 1.0, 1.0, 100.0, 0.1])
    v = v * s
    if g.chance(0.2):
        v = v + np.array(g.vec(3, 'i')) * 20 * s
    k = g.scale(0.2)
    v, s = v * k, s * k
    return v, fs, s


def spread(g, n):
    """Where the vertices of a mesh are in a longer list: anywhere, or in a few blocks far apart."""
    if g.chance(0.4):
        return [int(x) for x in sorted(g.r.permutation(g.pick([300, 3000, 70000]))[:n])]
    step = g.pick([256, 1000, 1024, 4096, 32768, 65536])
    k = g.int(2, 4)
    return [(i % k) * step + i // k for i in range(n)]


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(90 if tier == 'quick' else 1200):
        v, fs, s = mesh(g)
        m = {'v': Q(v), 'f': fs}
        if g.chance(0.15):
            m['at'] = spread(g, len(v))
        ops = []
        for _ in range(2):
            k = g.int(0, len(v) - 1)
            pt = (v[k] + v[g.int(0, len(v) - 1)]) / 2 if g.chance(0.7) else v.mean(axis=0)
            if g.chance(0.05):
                pt = v.max(axis=0) + 5 * s
            n = [0.0, 0.0, 0.0]
            if g.chance(0.4):
                n[g.int(0, 2)] = float(g.pick([1, -1, 2]))
            else:
                n = g.nzvec(3, 'f')
            if g.chance(0.15):                   # a vertex close to the plane
                pt = np.array(g.near(v[k], n, s, 3, 8))
            op = {'op': 'slice', 'mesh': m, 'plane': {'pt': Q(pt), 'n': Q(n)}, 'hood': [],
                  'form': g.pick('ffFnr'), 'ftype': g.pick(['int64', 'int64', 'uint64', 'int32', 'uint32']),
                  'bare': g.chance(0.5)}
            if g.chance(0.5):
                c = v[g.int(0, len(v) - 1)]
                op['hood'] = Q([(c + 0.3 * s * g.r.normal(size=3)).tolist() for _ in range(g.pick([1, 1, 3, 6]))])
            ops.append(op)
        yield ops


if __name__ == '__main__':
    common.main(__import__('drv_slices'))
