"""Gram-Schmidt and change of basis (C17)."""
import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs, rescaled


def run(ops):
    from blmath.numerics.linalg.gram_schmidt import orthogonalize, orthonormalize
    from blmath.numerics.linalg.isomorphism import isomorphism
    events = []
    for op in ops:
        ev = dict(op)
        if op['op'] == 'ortho':
            v = arr(op['v'], op['form'])
            if not op['normal']:
                w = Watch(v)
                r = guarded(lambda: (orthogonalize(v),))
            elif op['all']:
                w = Watch(v)
                r = guarded(lambda: (orthonormalize(v),))
            else:
                idx = list(op['indices'])
                if op.get('iform') == 'a':
                    idx = np.array(idx, dtype=int)
                elif op.get('iform') == 't':
                    idx = tuple(idx)
                w = Watch(v, idx)
                r = guarded(lambda: (orthonormalize(v, idx) if op.get('pos') else orthonormalize(v, indices=idx),))
        else:
            f, g = arr(op['f'], op['form']), arr(op['g'], op['form'])
            w = Watch(f, g)
            # a matrix or an array: both are judged by their entries
            r = guarded(lambda: (np.asarray(isomorphism(f, g)),))
        ev['obs'] = obs(r[0]) if isinstance(r, tuple) else r
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def nearly(g, n, d):
    """n rows that are orthonormal, or just not."""
    u = np.eye(d)[g.r.permutation(d)] * np.array([[g.pick([1.0, 1.0, -1.0])] for _ in range(d)])
    if g.chance(0.4):
        u = np.linalg.qr(g.r.normal(size=(d, d)))[0]
    u = u * g.pick([1.0, 1.0, 1.0, 1.0 + 10.0 ** -g.int(2, 12), 2.0])
    if g.chance(0.8):
        u = u + np.array(g.pts(d, 'f', d)) * (g.r.random((d, d)) < g.pick([0.2, 1.0])) * 10.0 ** -g.int(2, 12)
    return u[:n]


def rows(g, n, d):
    """n clearly independent rows in d dimensions."""
    if g.chance(0.2):
        return nearly(g, n, d)
    while True:
        v = np.array(g.pts(n, g.pick('iidfm'), d))
        if g.chance(0.3):
            v[:, :] = np.triu(v) if g.chance(0.5) else np.tril(v)
        if g.chance(0.2):
            v = v + 10.0
        s = np.linalg.svd(v)[1]
        if s[-1] > 0.1 * s[0] / n and s[-1] > 0.05:
            return v


def scaled(g, v):
    t = g.r.random()
    if t < 0.6:
        return v
    if t < 0.8:
        return v * g.pick([1e-3, 100.0, 1e4])
    return v * np.array([[g.pick([1.0, 1e-3, 1e3])] for _ in v])


def dependent(g, d):
    """d integer (or scaled) rows that lie in fewer than d dimensions, exactly."""
    while True:
        m = np.array(g.pts(d, 'i', d))
        k = g.int(0, d - 1)
        c = np.array([float(g.int(-3, 3)) for _ in range(d)])
        c[k] = 0
        m[k] = c.dot(m)
        if d > 1 and np.abs(m).max() > 0:
            return m * g.pick([1.0, 1.0, 0.25, 1024.0])


def one(g):
    op = draw(g)
    if op['op'] == 'ortho':
        return rescaled(g, op, 'v')
    return rescaled(g, rescaled(g, op, 'f'), 'g')


def draw(g):
    d = g.int(1, 5)
    if g.chance(0.5):
        n = g.int(1, d)
        v = scaled(g, rows(g, n, d))
        op = {'op': 'ortho', 'v': Q(v), 'normal': g.chance(0.6), 'all': g.chance(0.4), 'indices': [],
              'form': g.form(v)}
        if op['normal'] and not op['all']:
            op['indices'] = [int(x) for x in g.r.permutation(n)[:g.int(0, n)]]
            op['iform'] = g.pick('lat')
            op['pos'] = g.chance(0.5)
            if g.chance(0.15) and op['indices']:           # the same row named twice
                op['indices'].append(op['indices'][0])
        return op
    t = g.r.random()
    if t < 0.25 and d > 1:
        f = dependent(g, d) if g.chance(0.8) else g.pick([
            np.arange(1.0, d * d + 1).reshape(d, d) if d > 2 else np.ones((d, d)), np.zeros((d, d)), np.ones((d, d))])
        h = rows(g, d, d)
        if g.chance(0.1):
            h = dependent(g, d)
        pair = [f, h] if g.chance(0.5) else [h, f]
    elif t < 0.4:
        e = g.pick([x for x in range(1, 6) if x != d])
        pair = [rows(g, d, d), rows(g, e, e)]
        if g.chance(0.3):                                  # as many vectors, of another dimension
            lo, hi = min(d, e), max(d, e)
            if g.chance(0.5):                              # one vector too many, or too few
                b = rows(g, hi, hi)
                pair = [rows(g, hi, hi), b[:-1] if g.chance(0.5) else np.vstack([b, b[:1]])][::g.pick([1, -1])]
                flat = [x for p in pair for x in p.ravel().tolist()]
                return {'op': 'iso', 'f': Q(pair[0]), 'g': Q(pair[1]), 'form': g.form(flat, 'fFnr')}
            pair = [rows(g, lo, lo), rows(g, lo, hi)][::g.pick([1, -1])]
    else:
        pair = [scaled(g, rows(g, d, d)), scaled(g, rows(g, d, d))]
        if g.chance(0.1):
            pair[1] = pair[0].copy()
        elif g.chance(0.1):
            pair[g.int(0, 1)] = np.eye(d)
        elif g.chance(0.1):
            pair[1] = pair[0][::-1].copy()
    flat = [x for p in pair for x in p.ravel().tolist()]
    return {'op': 'iso', 'f': Q(pair[0]), 'g': Q(pair[1]), 'form': g.form(flat, 'fFnr')}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(90 if tier == 'quick' else 1500):
        yield [one(g) for _ in range(12)]


if __name__ == '__main__':
    common.main(__import__('drv_linalg'))
