"""Polylines: histories (C04), subdivision (C05), plane cuts (C06)."""
import common
from common import F, Gen, Q, Watch, arr, call, fr, guarded, obs, np

common.stub_modules()


def verts(op):
    if op.get('nil'):
        return None
    form = op.get('form', 'f')
    if form == 'T':                       # transposed: coerced back
        return arr(op['v'], 'f', (-1, 3)).T
    return arr(op['v'], form, (-1, 3))


BAD = {
    'flat': lambda: [1.0, 2.0, 3.0],
    'scalar': lambda: 5.0,
    'pairs': lambda: [[1.0, 2.0], [3.0, 4.0]],
    'quads': lambda: np.ones((5, 4)),
    'cube': lambda: np.ones((2, 3, 3)),
    'text': lambda: [['a', 'b', 'c']],
    'string': lambda: 'abc',
    'ragged': lambda: [[1.0, 2.0, 3.0], [4.0, 5.0]],
    'nan': lambda: [[1.0, 2.0, 3.0], [4.0, float('nan'), 5.0]],
    'inf': lambda: np.array([[1.0, 2.0, float('inf')]]),
    'complex': lambda: [[1j, 2.0, 3.0]],
    'nested_none': lambda: [[1.0, None, 3.0]],
    'dict': lambda: {'v': 1},
    'object': lambda: object(),
}


ASKED = [0]


def see(p):
    """Everything a polyline shows."""
    def write():
        p.e[0, 0] = 77
        return True

    def write_slice():
        p.e[-1] = [5, 5]
        return True

    def assign():
        p.e = np.zeros((1, 2), dtype=int)
        return True
    o = {'v': call(lambda: p.v), 'closed': call(lambda: bool(p.closed) if isinstance(p.closed, int) else p.closed), 'e': call(lambda: p.e),
         'len': call(lambda: len(p)), 'repr': call(lambda: repr(p)),
         'lengths': call(lambda: p.segment_lengths), 'total': call(lambda: p.total_length),
         'segments': call(lambda: p.segments), 'vectors': call(lambda: p.segment_vectors)}
    ASKED[0] += 1
    decimals = [None, 0, 1, 3, 2, None, -1, 4, 6][ASKED[0] % 9]
    d = guarded(lambda: (p.to_dict() if decimals is None else p.to_dict(decimals=decimals)
                         if ASKED[0] % 2 else p.to_dict(decimals),))
    if isinstance(d, tuple) and isinstance(d[0], dict):
        d = d[0]
        vv = call(lambda: np.array(d['vertices'], dtype=np.float64).reshape(len(d['vertices']), -1))
        if not (isinstance(d.get('vertices'), list) and all(isinstance(x, list) for x in d['vertices'])):
            vv = {'k': 'bad', 'v': 'vertices are not lists'}
        o['dict'] = {'keys': sorted(str(x) for x in d), 'edges': obs(d.get('edges')), 'vertices': vv,
                     'decimals': 3 if decimals is None else decimals}
    else:
        o['dict'] = {'keys': [], 'edges': {'k': 'none'}, 'vertices': {'k': 'none'}, 'decimals': 3}
    o['write'] = call(write)
    if o['write']['k'] == 'exc':
        o['write'] = call(write_slice)
    o['assign'] = call(assign)
    # looking changes nothing
    o['v2'] = obs(p.v)
    return o


def plane_of(d, form='f'):
    from blmath.geometry.primitives.plane import Plane
    return Plane(arr(d['pt'], form), arr(d['n'], form))


def openness(op):
    """True or False, now and then as numpy or C would say it."""
    return {'np': np.bool_, 'int': int}.get(op.get('cform'), bool)(op['closed'])


def expand(ops):
    """After every call, look at every polyline."""
    if any(o['op'] in ('probe', 'cut', 'intersect', 'segment', 'fill', 'segment_refused') for o in ops):
        return ops
    out, live = [], []
    for o in ops:
        out.append(o)
        for k in ('id', 'to'):
            if o.get(k) and o[k] not in live and o['op'] != 'new_bad':
                live.append(o[k])
        out += [{'op': 'probe', 'id': i} for i in live]
    return out


def run(ops):
    from blmath.geometry import Polyline
    from blmath.geometry import segment as sg
    heap = {}
    events = []
    for op in expand(ops):
        ev = dict(op)
        k = op['op']
        p = heap.get(op.get('id'))
        if k == 'new':
            x = verts(op)
            kw = {'closed': openness(op)} if op['closed'] or not op.get('bare') else {}
            r = guarded(lambda x=x, kw=kw: (Polyline(x, **kw),))
            ev['obs'] = obs(None)
            if isinstance(r, tuple):
                heap[op['id']] = r[0]
            else:
                events.append(dict(ev, obs=r))
                break
        elif k == 'new_bad':
            ev['obs'] = call(lambda o=op: Polyline(BAD[o['what']]()))
        elif k == 'set_bad':
            ev['obs'] = call(lambda o=op, p=p: setattr(p, 'v', BAD[o['what']]()))
        elif k == 'set_v':
            x = verts(op)
            ev['obs'] = call(lambda x=x, p=p: setattr(p, 'v', x))
        elif k == 'set_closed':
            ev['obs'] = call(lambda o=op, p=p: setattr(p, 'closed', openness(o)))
        elif k == 'poke':
            r = guarded(lambda o=op, p=p: p.v.__setitem__(o['i'], F(o['x'])))
            if isinstance(r, dict):       # not writable: nothing happened
                continue
        elif k == 'copy':
            r = guarded(lambda p=p: (p.copy(),))
            ev['obs'] = obs(None) if isinstance(r, tuple) else r
            if not isinstance(r, tuple) or not isinstance(r[0], Polyline) or r[0] is p:
                ev['obs'] = r if isinstance(r, dict) else {'k': 'exc', 't': 'NotACopy', 'm': ''}
                events.append(ev)
                break
            heap[op['to']] = r[0]
        elif k == 'flip':
            ev['obs'] = call(p.flip)
            ev['after'] = obs(p.v)
            ev['closed'] = obs(p.closed)
        elif k == 'reindexed':
            kw = {'ret_edge_mapping': op['map']} if op['map'] or not op.get('bare') else {}
            r = guarded(lambda o=op, p=p, kw=kw: (p.reindexed(o['i'], **kw),))
            ev['obs'] = {'poly': r, 'closed': r, 'mapping': r}
            if isinstance(r, tuple):
                r = r[0]
                m = None
                if op['map']:
                    r, m = r if isinstance(r, tuple) and len(r) == 2 else (None, None)
                ok = isinstance(r, Polyline) and r is not p
                ev['obs'] = {'poly': obs(r.v) if ok else {'k': 'bad', 'v': ''},
                             'closed': obs(r.closed) if ok else {'k': 'bad', 'v': ''}, 'mapping': obs(m)}
                if ok and op['to']:
                    heap[op['to']] = r
                elif not ok:
                    events.append(ev)
                    break
            elif op['to']:
                events.append(ev)
                break
        elif k == 'partition':
            mx = fr(op['max'])
            if op.get('mform') == 'i':
                mx = int(mx)
            counts = []
            twin = guarded(lambda p=p, mx=mx: p.copy().partition_by_length(mx, ret_indices=True))
            if isinstance(twin, np.ndarray) and twin.ndim == 1:
                ends = twin.tolist()
                q = p.copy()
                guarded(lambda q=q, mx=mx: q.partition_by_length(mx))
                if p.closed:
                    ends = ends + [len(q.v)]
                counts = [int(b - a) for a, b in zip(ends, ends[1:])]
            ev['counts'] = counts
            ev['before_total'] = call(lambda p=p: p.total_length)
            kw = {'ret_indices': op['ret']} if op['ret'] or not op.get('bare') else {}
            r = guarded(lambda p=p, mx=mx, kw=kw: (p.partition_by_length(mx, **kw),))
            if isinstance(r, tuple):
                ev['obs'] = {'k': 'self'} if r[0] is p else obs(r[0])
            else:
                ev['obs'] = r
            ev['after'] = obs(p.v)
            ev['closed'] = obs(p.closed)
            ev['after_total'] = call(lambda p=p: p.total_length)
        elif k == 'probe':
            ev['obs'] = see(p)
            if ev['obs'].pop('v2') != ev['obs']['v']:
                ev['obs']['v'] = {'k': 'bad', 'v': 'looking changed it'}
        elif k in ('cut', 'intersect'):
            pl = plane_of(op['plane'], op.get('pform', 'f'))
            w = Watch(p.v, p.closed, np.array(p.e), pl.normal, pl.reference_point)
            if k == 'cut':
                r = guarded(lambda p=p, pl=pl: (p.cut_by_plane(pl),))
                if isinstance(r, tuple):
                    ok = isinstance(r[0], Polyline) and r[0] is not p
                    ev['obs'] = {'v': obs(r[0].v) if ok else {'k': 'bad', 'v': ''},
                                 'closed': obs(r[0].closed) if ok else {'k': 'bad', 'v': ''}}
                else:
                    ev['obs'] = {'v': r, 'closed': r}
            else:
                kw = {'ret_edge_indices': op['ret']} if op['ret'] or not op.get('bare') else {}
                if op.get('via') == 'plane':
                    r = guarded(lambda p=p, pl=pl, kw=kw: (pl.polyline_xsection(p, **kw),))
                else:
                    r = guarded(lambda p=p, pl=pl, kw=kw: (p.intersect_plane(pl, **kw),))
                if isinstance(r, tuple):
                    r = r[0]
                    if op['ret'] and isinstance(r, tuple) and len(r) == 2:
                        ev['obs'], ev['indices'] = obs(r[0]), obs(r[1])
                    else:
                        ev['obs'], ev['indices'] = obs(r), {'k': 'none'}
                else:
                    ev['obs'], ev['indices'] = r, r
            ev['mut'] = w.changed()
        elif k in ('segment', 'segment_refused'):
            form = op.get('form', 'f')
            a, b = arr(op['a'], form), arr(op['b'], form)
            w = Watch(a, b)
            n = op['n']
            if k == 'segment_refused':
                n = {'float': 5.0, 'one': 1, 'zero': 0, 'negative': -3, 'text': '3', 'none': None,
                     'two_float': 2.0, 'half': 2.5}[n]
            if op['fn'] == 'old':
                if op.get('bare'):
                    ev['obs'] = call(sg.partition_segment_old, a, b)
                else:
                    ev['obs'] = call(sg.partition_segment_old, a, b, n)
            elif op['endpoint'] and op.get('bare'):
                ev['obs'] = call(sg.partition_segment, a, b, n)
            else:
                ev['obs'] = call(sg.partition_segment, a, b, n, endpoint=op['endpoint'])
            ev['mut'] = w.changed()
        elif k == 'fill':
            v = arr(op['v'], op.get('form', 'f'))
            w = Watch(v)
            if op.get('bare'):
                ev['obs'] = call(sg.partition, v)
            else:
                ev['obs'] = call(sg.partition, v, op['n'])
            ev['mut'] = w.changed()
        events.append(ev)
    return events


def chain(g, n=None):
    n = n if n is not None else g.many(g.pick([1, 2, 2, 3, 3, 4, 5, 6, 8, 12]), 0.01, (33, 65, 130))
    v = g.pts(n)
    if g.chance(0.15):
        s = g.pick([1000.0, 0.01])
        v = [[x * s for x in y] for y in v]
    s = g.scale(0.12)
    if s != 1.0:
        v = [[x * s for x in y] for y in v]
    if n > 1 and g.chance(0.25):          # repeated points
        i, j = g.int(0, n - 1), g.int(0, n - 1)
        v[i] = list(v[j])
    if n > 2 and g.chance(0.15):
        v[1] = list(v[0])
    return v


def form_for(g, v):
    return g.form(v, 'ffnFlt')


def history(g, tier):
    ops, live, size, closed = [], [], {}, {}

    def new(i):
        r = g.r.random()
        if r < 0.06:
            ops.append({'op': 'new', 'id': i, 'nil': True, 'v': [], 'closed': g.chance(0.5), 'bare': g.chance(0.5)})
            size[i] = 0
        elif r < 0.1:
            ops.append({'op': 'new', 'id': i, 'nil': False, 'v': [], 'closed': g.chance(0.5), 'bare': g.chance(0.5)})
            size[i] = 0
        else:
            v = chain(g)
            op = {'op': 'new', 'id': i, 'nil': False, 'v': Q(v), 'closed': g.chance(0.5), 'form': form_for(g, v),
                  'bare': g.chance(0.5)}
            if len(v) != 3 and g.chance(0.08):
                op['form'] = 'T'
            ops.append(op)
            size[i] = len(v)
        closed[i] = ops[-1]['closed']
        live.append(i)
    new(1)
    for _ in range(g.int(3, 8 if tier == 'quick' else 16)):
        i = g.pick(live)
        n = size[i]
        what = g.pick(['new', 'copy', 'copy', 'set_v', 'set_v', 'set_nil', 'bad', 'new_bad', 'closed', 'closed', 'flip',
                       'reindex', 'reindex', 'partition', 'poke', 'poke', 'poke', 'poke'])
        j = g.pick([1, 2, 3])
        if what == 'new' and len(live) < 3:
            new(max(live) + 1)
        elif what == 'copy':
            if j == i:
                continue
            ops.append({'op': 'copy', 'id': i, 'to': j})
            size[j], closed[j] = n, closed[i]
            if j not in live:
                live.append(j)
        elif what == 'set_v':
            v = chain(g) if g.chance(0.93) else []
            ops.append({'op': 'set_v', 'id': i, 'nil': False, 'v': Q(v), 'form': form_for(g, v) if v else 'f'})
            size[i] = len(v)
        elif what == 'set_nil':
            if g.chance(0.4):
                ops.append({'op': 'set_v', 'id': i, 'nil': True, 'v': []})
                size[i] = 0
        elif what == 'bad':
            ops.append({'op': 'set_bad', 'id': i, 'what': g.pick(sorted(BAD))})
        elif what == 'new_bad':
            ops.append({'op': 'new_bad', 'what': g.pick(sorted(BAD))})
        elif what == 'closed':
            c = g.chance(0.5)
            ops.append({'op': 'set_closed', 'id': i, 'closed': c})
            closed[i] = c
        elif what == 'flip' and n:
            ops.append({'op': 'flip', 'id': i})
        elif what == 'reindex' and n:
            if not closed[i]:
                ops.append({'op': 'reindexed', 'id': i, 'to': 0, 'i': g.int(0, n - 1), 'map': g.chance(0.5),
                            'bare': g.chance(0.5)})
            elif j != i:
                ops.append({'op': 'reindexed', 'id': i, 'to': j, 'i': g.int(0, n - 1), 'map': g.chance(0.5),
                            'bare': g.chance(0.5)})
                size[j], closed[j] = n, True
                if j not in live:
                    live.append(j)
        elif what == 'partition' and n and n < 15:
            v = current(ops, i)
            if v is not None:
                ops.append(partition_op(g, i, v, closed[i]))
        elif what == 'poke' and n:
            ops.append({'op': 'poke', 'id': i, 'i': g.int(0, n - 1), 'x': Q(g.vec())})
    for o in ops:
        if 'closed' in o and g.chance(0.3):
            o['cform'] = g.pick(['np', 'np', 'int'])
    return expand(ops)


def current(ops, i):
    """The vertices of polyline i, if they were just given."""
    for o in reversed(ops):
        if o.get('to') == i or (o.get('id') == i and o['op'] in ('partition', 'poke', 'flip')):
            return None
        if o.get('id') == i and o['op'] in ('new', 'set_v') and o['v']:
            return F(o['v'])
    return None


def partition_op(g, i, v, closed):
    v = np.array(v, dtype=float)
    d = np.diff(np.vstack([v, v[:1]]) if closed else v, axis=0)
    ls = np.sqrt((d ** 2).sum(axis=1))
    top = float(ls.max()) if len(ls) else 1.0
    if top == 0:
        top = 1.0
    r = g.r.random()
    if r < 0.5:
        mx = top / g.pick([0.7, 1.5, 2.5, 3.3, 6.2])
    elif r < 0.8:
        mx = float(g.pick([x for x in ls if x > top / 30] or [top]) / g.pick([1, 2, 3, 4, 5]))
    elif r < 0.85 and 0 < len(ls) < 5:
        mx = top / g.pick([130.5, 257.5, 300.25])
    else:
        mx = max(top / 8, float(round(top / 2)))
    op = {'op': 'partition', 'id': i, 'max': Q(mx), 'ret': g.chance(0.5), 'bare': g.chance(0.5)}
    if mx == int(mx) and g.chance(0.5):
        op['mform'] = 'i'
    return op


PYTHAGOREAN = [(3, 4, 0), (0, 0, 5), (1, 2, 2), (2, 3, 6), (4, 4, 7), (0, 6, 8), (2, 6, 9), (-3, 0, 4), (0, 0, 0), (0, 1, 0),
               (8, -1, 4), (-6, 2, -3), (0, -2, 0), (10, 0, 0)]


def exact_chain(g):
    """Segments of whole length: the counts of pieces are decided exactly."""
    k = g.int(1, 6)
    p = np.array(g.vec(3, 'i'))
    v = [p]
    s = g.pick([1.0, 1.0, 0.5, 2.0])
    for _ in range(k):
        d = np.array(g.pick(PYTHAGOREAN), dtype=float)
        p = p + d[[int(x) for x in g.r.permutation(3)]] * s
        v.append(p)
    return [[float(x) for x in y] for y in v]


def curves(g, tier):
    r = g.r.random()
    if r < 0.45:                                  # subdivide
        ops = []
        exact = g.chance(0.6)
        v = exact_chain(g) if exact else chain(g)
        closed = g.chance(0.5)
        ops.append({'op': 'new', 'id': 1, 'nil': False, 'v': Q(v), 'closed': closed, 'form': form_for(g, v)})
        if exact:
            mx = g.pick([1.0, 2.0, 2.5, 3.0, 0.5, 5.0, 1.25, 10.0, 0.75, 3.5, 7.0])
            total = float(np.sqrt((np.diff(np.array(v), axis=0) ** 2).sum(axis=1)).sum())
            while total / mx > 60:
                mx *= 2
            op = {'op': 'partition', 'id': 1, 'max': Q(mx), 'ret': g.chance(0.6), 'bare': g.chance(0.5)}
            if mx == int(mx) and g.chance(0.4):
                op['mform'] = 'i'
        else:
            op = partition_op(g, 1, v, closed)
        ops += [op, {'op': 'probe', 'id': 1}]
        return ops
    if r < 0.7:                                   # reindex and flip
        v = chain(g)
        closed = g.chance(0.75)
        ops = [{'op': 'new', 'id': 1, 'nil': False, 'v': Q(v), 'closed': closed, 'form': form_for(g, v)}]
        for _ in range(3):
            if g.chance(0.3):
                ops.append({'op': 'flip', 'id': 1})
            else:
                ops.append({'op': 'reindexed', 'id': 1, 'to': 2 if closed else 0, 'i': g.int(0, len(v) - 1),
                            'map': g.chance(0.6), 'bare': g.chance(0.5)})
        ops.append({'op': 'probe', 'id': 1})
        if any(o.get('to') == 2 for o in ops):
            ops.append({'op': 'probe', 'id': 2})
        return ops
    ops = []
    for _ in range(3):
        dim = g.pick([1, 2, 3, 3, 3, 4, 5])
        kind = g.pick('idfm')
        sc = g.scale(0.2)
        a, b = [x * sc for x in g.vec(dim, kind)], [x * sc for x in g.vec(dim, kind)]
        r = g.r.random()
        if r < 0.2:
            ops.append({'op': 'segment_refused', 'fn': g.pick(['new', 'old']), 'a': Q(a), 'b': Q(b),
                        'endpoint': g.chance(0.5),
                        'n': g.pick(['float', 'one', 'zero', 'negative', 'text', 'none', 'two_float', 'half'])})
        elif r < 0.75:
            old = g.chance(0.4)
            if old and a == b:
                b[0] += 1.0
            bare = g.chance(0.2)
            ops.append({'op': 'segment', 'fn': 'old' if old else 'new', 'a': Q(a), 'b': Q(b), 'bare': bare,
                        'n': 5 if bare and old else g.pick([2, 2, 3, 4, 5, 7, 10]), 'endpoint': g.chance(0.5) and not old,
                        'form': g.form(a + b, 'ffnr')})
        else:
            n = g.int(2, 5)
            v = g.pts(n, kind, dim)
            for i in range(1, n):
                while v[i] == v[i - 1]:
                    v[i] = g.vec(dim, 'f')
            bare = g.chance(0.2)
            ops.append({'op': 'fill', 'v': Q(v), 'n': 5 if bare else g.int(1, 7), 'bare': bare,
                        'form': g.form(v, 'ffnrF')})
    return ops


def cuts(g, tier):
    n = g.many(g.pick([1, 2, 3, 4, 5, 6, 7, 9, 12]), 0.02, (33, 65, 130))
    kind = g.pick('idfm')
    normal = g.nzvec(3, g.pick('idf'))
    if g.chance(0.3):
        normal = [0.0, 0.0, 0.0]
        normal[g.int(0, 2)] = float(g.pick([1, -1, 2, -0.5]))
    v = g.pts(n, kind)
    pt = g.vec(3, kind)
    if g.chance(0.35):
        # well-behaved: heights rise and fall
        nn = np.array(normal)
        heights = [np.sin(2 * np.pi * (i + g.r.random() * 0.3) / n) + 0.05 for i in range(n)]
        v = [list(np.array(w) - nn * float(np.dot(np.array(w) - pt, nn) / np.dot(nn, nn)) + nn * h * 3)
             for w, h in zip(v, heights)]
        v = [[float(x) for x in w] for w in v]
        if g.chance(0.5):
            k = g.int(0, n - 1)
            v = v[k:] + v[:k]
    if g.chance(0.15):
        off = [1000.0 * x for x in g.vec(3, 'i')]
        v = [[a + b for a, b in zip(w, off)] for w in v]
        pt = [a + b for a, b in zip(pt, off)]
    if g.chance(0.1):
        v = [[x * 1000 for x in w] for w in v]
        pt = [x * 1000 for x in pt]
    elif g.chance(0.1):
        normal = [x * 1e3 for x in normal]
    if n > 1 and g.chance(0.15):
        v[g.int(0, n - 1)] = list(v[g.int(0, n - 1)])
    if g.chance(0.25):                    # some vertices close to the plane
        for i in range(n):
            if g.chance(0.5):
                side = np.dot(np.array(v[i]) - pt, normal)
                w = np.array(g.near(pt, normal, 1.0)) - pt
                if np.dot(w, normal) * side < 0:
                    w = -w
                v[i] = [float(x) for x in np.array(pt) + w]
    s = g.scale(0.2)
    if s != 1.0:
        v = [[x * s for x in w] for w in v]
        pt = [x * s for x in pt]
    closed = g.chance(0.55)
    plane = {'pt': Q(pt), 'n': Q(normal)}
    if g.chance(0.2):
        # vertices on the plane, where the sides are exact: a plane of the axes
        n = min(n, 9)
        hs = g.pick([[0, 1], [0, 0, 1, 2], [0, -1], [-1, 0, 1, 2], [-1, 1, 1, 1], [-1, -1, 1]])
        v = [[float(g.int(-3, 3)), float(g.int(-3, 3)), float(g.pick(hs))] for _ in range(n)]
        if g.chance(0.5):                 # a single one, somewhere
            v = [[float(g.int(-3, 3)), float(g.int(-3, 3)), float(g.pick([1, 2]))] for _ in range(n)]
            if g.chance(0.5):
                j = g.int(0, n)
                v[:j] = [[a, b, -c] for a, b, c in v[:j]]
            v[g.pick([0, n - 1, g.int(0, n - 1)])][2] = 0.0
            if not closed and g.chance(0.7):
                v = [[a, b, abs(c) * g.pick([1, 1, 1, -1]) if c else 0.0] for a, b, c in v]
        k = g.int(0, 2)
        v = [w[-k:] + w[:-k] for w in v]
        pt, normal = [float(g.int(-2, 2)), float(g.int(-2, 2)), 0.0], [0.0, 0.0, g.pick([1.0, 2.0, -1.0])]
        plane = {'pt': Q(pt[-k:] + pt[:-k]), 'n': Q(normal[-k:] + normal[:-k])}
    flip = {'pt': plane['pt'], 'n': Q([-x for x in F(plane['n'])])}
    ops = [{'op': 'new', 'id': 1, 'nil': False, 'v': Q(v), 'closed': closed, 'form': form_for(g, v)}]
    pform = g.form(F(plane['pt']) + F(plane['n']), 'ffr')
    for pl in (plane, flip):
        ops.append({'op': 'intersect', 'id': 1, 'plane': pl, 'ret': g.chance(0.6), 'pform': pform, 'bare': g.chance(0.5),
                    'via': g.pick(['plane', 'polyline', 'polyline'])})
        ops.append({'op': 'cut', 'id': 1, 'plane': pl, 'pform': pform})
    ops.append({'op': 'probe', 'id': 1})
    return ops


def generate(prop, tier, seed):
    g = Gen(seed)
    what, count = {'C04': (history, 130), 'C05': (curves, 330), 'C06': (cuts, 260)}[prop]
    for _ in range(count * (1 if tier == 'quick' else 10)):
        yield what(g, tier)


if __name__ == '__main__':
    common.main(__import__('drv_polyline'))
