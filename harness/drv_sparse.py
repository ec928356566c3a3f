"""Sparse factorization, block-sparse products and conjugate gradients (C21)."""
import glob
import importlib.util
import os
import subprocess
import sys

import common
from common import F, Gen, Q, Watch, arr, guarded, np, obs, q, rescaled


def load_extension():
    """Build the extension from the sources as they are now, outside the repository."""
    import blmath.numerics.linalg as package
    repo, out = os.environ['VERIF_REPO'], os.path.join(os.environ['VERIF_SCRATCH'], 'ext')
    subprocess.run([sys.executable, '-W', 'ignore', 'setup.py', '-q', 'build_ext', '--build-lib', out, '--build-temp', out + '.tmp', '--force'],
                   cwd=repo, check=True, stdout=subprocess.DEVNULL)
    path = glob.glob(os.path.join(out, 'blmath', 'numerics', 'linalg', 'cholmod*.so'))[0]
    spec = importlib.util.spec_from_file_location('blmath.numerics.linalg.cholmod', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[spec.name] = mod
    package.cholmod = mod


LOADED = []


def sparse(a, fmt):
    import scipy.sparse as sp
    a = np.array(F(a)).reshape(len(a), -1)
    if fmt == 'dense':
        return a
    if fmt == 'int':
        return sp.csc_matrix(a.astype(np.int64))
    if fmt == 'single':
        return sp.csc_matrix(a.astype(np.float32))
    if fmt.startswith('long'):                             # indices already as wide as CHOLMOD wants them
        m = sp.csc_matrix(a.astype({'long': np.float64, 'longint': np.int64, 'longsingle': np.float32}[fmt]))
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
        return m
    if fmt in ('unsorted', 'zeros'):                       # rows out of order within a column; zeros stored
        rows, cols = np.nonzero(a) if fmt == 'unsorted' else np.nonzero(np.ones(a.shape))
        order = np.lexsort((-rows, cols))
        rows, cols = rows[order], cols[order]
        start = np.concatenate([[0], np.cumsum(np.bincount(cols, minlength=a.shape[1]))])
        return sp.csc_matrix((a[rows, cols], rows, start), shape=a.shape)
    if fmt == 'icsr':
        return sp.csr_matrix(a.astype(np.int64))
    return getattr(sp, fmt + '_matrix')(a)


def parts(m):
    if isinstance(m, np.ndarray):
        return (m,)
    if hasattr(m, 'indptr'):
        return (m.data, m.indices, m.indptr)
    if hasattr(m, 'row'):
        return (m.data, m.row, m.col)
    return (m.toarray(),)


class WatchMatrix:
    """Remembers a matrix by the arrays it holds, whichever arrays these come to be."""

    def __init__(self, m, *args):
        self.m, self.watch = m, Watch(*args)
        self.old = Watch(*parts(m))
        self.before = [Watch.snap(p) for p in parts(m)]

    def changed(self):
        return self.watch.changed() or self.old.changed() or [Watch.snap(p) for p in parts(self.m)] != self.before


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


def run(ops):
    if not LOADED:
        load_extension()
        LOADED.append(1)
    from blmath.numerics.linalg.lchol import lchol
    from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
    from blmath.numerics.linalg.sparse_cg import block_sparse_cg_solve
    import scipy.sparse as sp
    events = []
    for op in ops:
        ev = dict(op)
        kind = op['op']
        if kind == 'chol':
            a = sparse(op['a'], op['fmt'])
            w = WatchMatrix(a)
            r = guarded(lambda: (lchol(a),))
            if isinstance(r, tuple):
                l, c, s = r[0]
                r = guarded(lambda: {'k': 'chol', 'l': obs(dense(l)), 'code': obs(c), 's': obs(dense(s))})
            ev['obs'] = r
        elif kind == 'blocks':
            m = sparse(op['m'], op['fmt'])
            v, x = arr(op['v']), arr(op['w'])
            if op['fmt'] in ('icsr', 'int'):
                v, x = arr(op['v'], 'i'), arr(op['w'], 'i')
            kw = {}
            masks = []
            for key, told, mask in (('row_sparsity', 'rtold', 'rs'), ('column_sparsity', 'ctold', 'cs')):
                if op[told] == 'mask':
                    kw[key] = np.array(op[mask], dtype=bool)
                    masks.append(kw[key])
                elif op[told] == 'empty':
                    kw[key] = []
            if 'count' in (op['rtold'], op['ctold']):
                kw['sparsity_threshold'] = F(op['thr'])
            w = WatchMatrix(m, v, x, *masks)

            def go():
                b = StaticBlockSparseMatrix(m, **kw)
                fields = {}
                steps = [('matvec', lambda: b.matvec(v)), ('lin_matvec', lambda: b.linOp.matvec(v)),
                         ('matmat', lambda: b.matmat(x)), ('lin_matmat', lambda: b.linOp.matmat(x)),
                         ('MMT', b.MMT), ('MTM', b.MTM)]
                names = ['row_sparsity', 'row_density', 'column_sparsity', 'column_density', 'sparse_row_indices', 'dense_row_indices',
                         'sparse_column_indices', 'dense_column_indices', 'num_sparse_rows', 'num_dense_rows',
                         'num_sparse_columns', 'num_dense_columns', 'shape']
                for _ in range(op.get('reads', 1)):
                    for name, f in steps[::-1] if op.get('back') else steps:
                        r = f()
                        fields[name] = obs(dense(r) if name not in ('matvec', 'lin_matvec') else r)
                    for name in names:
                        r = getattr(b, name)
                        fields[name] = obs(list(r) if name == 'shape' else r)
                return {'k': 'blocks', 'f': fields}
            ev['obs'] = guarded(go)
        elif kind == 'cg':
            a = sparse(op['a'], op['fmt'])
            b = arr(op['b'], op.get('form', 'f'))
            x0 = arr(op['x0'], op.get('form', 'f')) if op['given'] else None
            w = WatchMatrix(a, b, x0)

            def solve():
                m = StaticBlockSparseMatrix(a, np.array(op['rs'], dtype=bool), np.array(op['cs'], dtype=bool))
                x, i = m.conjGradSolve(b, x0=x0) if op['given'] else m.conjGradSolve(b)
                return {'k': 'solved', 'x': obs(x), 'i': obs(i)}
            ev['obs'] = guarded(solve)
        else:
            rows = op['rows']
            n = len(rows)
            i = [k for k, r in enumerate(rows) for _ in r]
            j = [e[0] - 1 for r in rows for e in r]
            d = [F(e[1]) for r in rows for e in r]
            a = sp.coo_matrix((d, (i, j)), shape=(n, n)).asformat(op['fmt'])
            b = arr(op['b'])
            w = WatchMatrix(a, b)
            ev['obs'] = common.call(block_sparse_cg_solve, a, b)
        ev['mut'] = w.changed()
        events.append(ev)
    return events


def symmetric(g, n):
    num = g.pick('iidf')
    t = g.r.random()
    keep = (g.r.random((n, n)) < g.pick([0.2, 0.5, 0.9])).astype(float)
    b = np.array([[g.num(num) for _ in range(n)] for _ in range(n)]) * keep
    if t < 0.6:                                            # positive definite
        if num in 'id':
            a = b.dot(b.T) + np.eye(n) * g.pick([1.0, 1.0, 0.25])
        else:
            b = np.tril(b, -1)
            a = b + b.T
            a = a + np.diag(np.abs(a).sum(axis=0) + np.array([abs(g.num('f')) + 0.1 for _ in range(n)]))
    elif t < 0.75:                                         # indefinite by little
        a = np.tril(b, -1)
        a = a + a.T
        a = a + np.diag(np.abs(a).sum(axis=0) + 1.0)
        k = g.int(0, n - 1)
        a[k, k] = g.pick([-1.0, 0.0, -0.01, -a[k, k]])
    else:
        a = np.tril(b)
        a = a + a.T
        if g.chance(0.5):
            a[np.arange(n), np.arange(n)] = np.abs(np.diag(a)) + 1.0
    return a * g.pick([1.0, 1.0, 1.0, 1.0 / 1024, 256.0, 2.0 ** -44])


def permuted(g, a):
    p = g.r.permutation(len(a))
    return a[p][:, p]


def one(g):
    op = draw(g)
    if op['op'] == 'chol':
        return rescaled(g, op, 'a', lo=-40) if op['fmt'] in ('csc', 'csr') else op
    if op['op'] == 'blocks' and op['fmt'] not in ('icsr', 'int'):
        return rescaled(g, rescaled(g, rescaled(g, op, 'm'), 'v'), 'w')
    if op['op'] == 'cg':
        return rescaled(g, op, 'a', lo=-20, hi=20)
    return op


def draw(g):
    t = g.r.random()
    if t < 0.4:
        n = g.pick([1, 2, 3, 3, 4, 5, 6, 8, 10])
        a = permuted(g, symmetric(g, n))
        if n > 3 and g.chance(0.3):                        # an arrow, a band or blocks
            m = np.zeros((n, n))
            if g.chance(0.5):
                m[0, :] = m[:, 0] = 1.0
                m[np.arange(n), np.arange(n)] = n + 1.0
            else:
                for i in range(n - 1):
                    m[i, i + 1] = m[i + 1, i] = g.num('i')
                m[np.arange(n), np.arange(n)] = 13.0
            a = permuted(g, m)
        fmt = g.pick(['csc', 'csc', 'csr', 'long', 'unsorted', 'zeros'])
        if (a == np.round(a)).all():
            fmt = g.pick([fmt, 'int', 'single', 'longint', 'longsingle'])
        elif (a.astype(np.float32) == a).all() and g.chance(0.3):
            fmt = g.pick(['single', 'longsingle'])
        return {'op': 'chol', 'a': Q(a), 'fmt': fmt}
    if t < 0.8:
        n, m = g.int(1, 8), g.int(1, 8)
        if g.chance(0.2):
            m = n
        num = g.pick('iidf')
        keep = (g.r.random((n, m)) < g.pick([0.1, 0.3, 0.6, 1.0])).astype(float)
        for _ in range(g.int(0, 2)):                       # dense rows and columns
            if g.chance(0.5):
                keep[g.int(0, n - 1)] = 1.0
            else:
                keep[:, g.int(0, m - 1)] = 1.0
        a = np.array([[g.num(num) for _ in range(m)] for _ in range(n)]) * keep
        op = {'op': 'blocks', 'm': Q(a), 'rtold': g.pick(['mask', 'mask', 'count', 'count', 'empty']),
              'ctold': g.pick(['mask', 'mask', 'count', 'count', 'empty']),
              'rs': [g.int(0, 1) for _ in range(n)], 'cs': [g.int(0, 1) for _ in range(m)],
              'thr': q(g.pick([0.05, 0.25, 0.5, 0.5, 0.75, 0.3, 1.0, 0.125])), 'v': Q(g.vec(m, 'i' if num == 'i' else None)),
              'w': Q(np.array(g.pts(m, 'i' if num == 'i' else None, g.int(1, 3)))),
              'fmt': g.pick(['csr', 'csc', 'coo', 'bsr', 'dense', 'csr']), 'reads': g.int(1, 2), 'back': g.chance(0.5)}
        if g.chance(0.2):
            op['rs'], op['cs'] = [1 - x for x in [0] * n], [g.pick([0, 1])] * m
        if g.chance(0.2):
            op['rs'] = [g.pick([0, 1])] * n
        if num == 'i' and g.chance(0.3):
            op['fmt'] = g.pick(['icsr', 'int'])
        if op['fmt'] == 'bsr' and 'count' in (op['rtold'], op['ctold']):
            op['fmt'] = 'csr'                              # blocks store zeros, which would count
        return op
    if t < 0.93:
        n = g.int(1, 7)
        a = symmetric(g, n)
        a = a + a.T
        s = np.abs(a).max() or 1.0
        w = np.linalg.eigvalsh(a)[0]
        a = a + np.eye(n) * (s * 0.5 - min(w, 0.0))
        a = np.tril(a) + np.tril(a, -1).T
        x0 = g.vec(n, 'i')
        b = g.vec(n)
        if g.chance(0.2):
            b = [0.0] * n
        elif g.chance(0.3):                                # an eigenvector: solved in one step
            b = np.linalg.eigh(a)[1][:, g.int(0, n - 1)].tolist()
        return {'op': 'cg', 'a': Q(a), 'b': Q(b), 'x0': Q(x0), 'given': g.chance(0.4), 'fmt': g.pick(['csr', 'csc', 'coo', 'dense']),
                'rs': [g.int(0, 1) for _ in range(n)], 'cs': [g.int(0, 1) for _ in range(n)]}
    return system(g, g.int(1, 12), 0)


def system(g, n, arrow):
    """A diagonally dominant system; the last `arrow` rows and columns are full."""
    rows = [{} for _ in range(n)]
    empty = set() if g.chance(0.7) else {g.int(0, n - 1)}
    for i in range(n):
        for j in ([i - 1] if n > 50 else range(i)):
            if 0 <= j and i not in empty and j not in empty and (n > 50 or g.chance(0.4)):
                rows[i][j] = rows[j][i] = float(g.int(-4, 4)) or 1.0
    for k in range(n - arrow, n):
        for j in range(k):
            if k not in empty and j not in empty:
                rows[k][j] = rows[j][k] = g.pick([1.0, -1.0, 0.5])
    for i in range(n):
        if i not in empty:
            rows[i][i] = sum(abs(x) for x in rows[i].values()) + g.pick([1.0, 0.25, 5.0])
    b = [0.0 if i in empty else g.num('d') for i in range(n)]
    if not any(b):
        b = [0.0 if i in empty else 1.0 for i in range(n)]
    return {'op': 'bcg', 'rows': [[[j + 1, q(r[j])] for j in sorted(r)] for r in rows], 'b': Q(b), 'fmt': g.pick(['csr', 'csc'])}


def generate(prop, tier, seed):
    g = Gen(seed)
    for _ in range(60 if tier == 'quick' else 1200):
        yield [one(g) for _ in range(10)]
    for _ in range(1 if tier == 'quick' else 8):
        yield [system(g, g.int(1001, 1020), g.int(1, 3))]


if __name__ == '__main__':
    common.main(__import__('drv_sparse'))
