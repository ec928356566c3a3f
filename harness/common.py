"""Runs inside the repository's Python: encoding of values, guarded calls.

Numbers are written as exact rationals [n, d]; what does not fit in TLC's
32-bit integers is a decimal string.  No comparison is made here: a driver
performs operations on the real library and records what it saw.
"""
import json
import math
import signal
import sys
import warnings
from fractions import Fraction

import numpy as np

warnings.simplefilter('ignore')
np.seterr(all='ignore')

LIM = 2 ** 31 - 1
CALL_SECONDS = 20
MAX_ELEMS = 20000


def _i(n):
    return n if -LIM <= n <= LIM else str(n)


def q(x):
    """A number as an exact rational."""
    if isinstance(x, Fraction):
        return [_i(x.numerator), _i(x.denominator)]
    if isinstance(x, (bool, np.bool_)):
        return [int(x), 1]
    if isinstance(x, (int, np.integer)):
        return [_i(int(x)), 1]
    x = float(x)
    if math.isnan(x):
        return [0, 0]
    if math.isinf(x):
        return [1 if x > 0 else -1, 0]
    n, d = x.as_integer_ratio()
    return [_i(n), _i(d)]


def Q(a):
    """Nested numbers to nested rationals."""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [Q(x) for x in a]
    return q(a)


def fr(p):
    """A rational back to a float (exact for those made from floats)."""
    n, d = int(p[0]), int(p[1])
    if d == 0:
        return math.nan if n == 0 else math.inf * n
    return float(Fraction(n, d))


def isq(p):
    return (isinstance(p, (list, tuple)) and len(p) == 2
            and all(isinstance(x, (int, str)) for x in p))


def F(a):
    """Nested rationals to nested floats."""
    if isq(a):
        return fr(a)
    return [F(x) for x in a]


def arr(a, form='f', shape=None):
    """An array argument, in one of the forms a caller might pass.

    f float64, i int64, u uint8, s float32, F Fortran order, n non-contiguous view,
    l plain (nested) list, t nested tuples, r read-only array.
    """
    x = np.array(F(a), dtype=np.float64)
    if shape is not None:
        x = x.reshape(shape)
    if form == 'f':
        return x
    if form == 'i':
        return x.astype(np.int64)
    if form == 'u':
        return x.astype(np.uint8)
    if form == 's':
        return x.astype(np.float32)
    if form == 'F':
        return np.asfortranarray(x)
    if form == 'n':
        big = np.full(tuple(2 * k for k in x.shape), 7.25)
        view = big[tuple(slice(None, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    if form == 'l':
        return x.tolist()
    if form == 'li':
        return x.astype(np.int64).tolist()
    if form == 't':
        def tup(v):
            return tuple(tup(w) for w in v) if isinstance(v, list) else v
        return tup(x.tolist())
    if form == 'r':
        x.flags.writeable = False
        return x
    raise ValueError(form)


def obs(x, depth=0):
    """A returned value as a typed record."""
    try:
        if x is None:
            return {'k': 'none'}
        if isinstance(x, (bool, np.bool_)):
            return {'k': 'bool', 'v': bool(x)}
        if isinstance(x, (int, np.integer)):
            return {'k': 'num', 'dt': 'i', 'v': q(x)}
        if isinstance(x, (float, np.floating)):
            return {'k': 'num', 'dt': 'f', 'v': q(x)}
        if isinstance(x, str):
            return {'k': 'str', 'v': x[:2000]}
        if isinstance(x, np.ndarray):
            if type(x) is not np.ndarray:
                return {'k': 'bad', 'v': 'array subclass ' + type(x).__name__}
            if x.dtype.kind not in 'fiub' or x.size > MAX_ELEMS:
                return {'k': 'bad', 'v': 'array %s %s' % (x.dtype, x.shape)}
            if x.ndim == 0:
                return {'k': 'num', 'dt': 'i' if x.dtype.kind in 'iu' else x.dtype.kind,
                        'v': q(x.item())}
            return {'k': 'arr', 'dt': 'i' if x.dtype.kind in 'iu' else x.dtype.kind,
                    'shape': list(x.shape), 'v': Q(x), 'fin': bool(np.isfinite(x).all())}
        if isinstance(x, (list, tuple)) and depth < 4:
            return {'k': 'list', 'v': [obs(y, depth + 1) for y in x]}
        return {'k': 'bad', 'v': type(x).__name__}
    except Exception as e:  # pylint: disable=broad-except
        return {'k': 'bad', 'v': 'unreadable: ' + type(e).__name__}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def guarded(fn):
    """Run fn; the observation of its result, or of what it raised."""
    signal.alarm(CALL_SECONDS)
    try:
        r = fn()
        signal.alarm(0)
        return r
    except Hang:
        return {'k': 'exc', 't': 'Hang', 'm': ''}
    except BaseException as e:  # pylint: disable=broad-except
        if isinstance(e, KeyboardInterrupt):
            raise
        return {'k': 'exc', 't': type(e).__name__, 'm': str(e)[:200]}
    finally:
        signal.alarm(0)


def call(fn, *a, **kw):
    return guarded(lambda: obs(fn(*a, **kw)))


class Watch:
    """Remembers arguments, to see afterwards whether a call changed them."""

    def __init__(self, *args):
        self.args = args
        self.before = [self.snap(a) for a in args]

    @staticmethod
    def snap(a):
        if isinstance(a, np.ndarray):
            return (a.shape, a.dtype.str, a.tobytes())
        return repr(a)

    def changed(self):
        return any(self.snap(a) != b for a, b in zip(self.args, self.before))


def scribble(a):
    """What a caller may do, later, with an array it passed or was given."""
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = 7
    elif isinstance(a, list):
        a[:] = [[7] * len(x) if isinstance(x, list) else 7 for x in a]


class Writer:
    """Sessions of events, one per line; every line carries its session."""

    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def session(self, sid, events):
        for ev in events:
            self.f.write(json.dumps({'s': sid, 'e': ev}) + '\n')
            self.n += 1
        self.f.flush()

    def close(self):
        self.f.close()


class Gen:
    """Seeded choices of the numbers callers use."""

    def __init__(self, seed):
        self.r = np.random.default_rng(seed)

    def int(self, a, b):
        return int(self.r.integers(a, b + 1))

    def pick(self, xs):
        return xs[int(self.r.integers(0, len(xs)))]

    def chance(self, p):
        return bool(self.r.random() < p)

    def num(self, kind=None):
        """One number: small integer, dyadic, decimal or plain random."""
        kind = kind or self.pick('iidfm')
        if kind == 'i':
            return float(self.int(-6, 6))
        if kind == 'd':
            return self.int(-64, 64) / 8.0
        if kind == 'm':
            return round(float(self.r.normal()) * 10, 2)
        return float(self.r.normal()) * 3

    def vec(self, n=3, kind=None):
        kind = kind or self.pick('idfm')
        return [self.num(kind) for _ in range(n)]

    def nzvec(self, n=3, kind=None):
        while True:
            v = self.vec(n, kind)
            if sum(x * x for x in v) > 1e-3:
                return v

    def pts(self, n, kind=None, dim=3):
        kind = kind or self.pick('idfm')
        return [self.vec(dim, kind) for _ in range(n)]

    def many(self, n, p=0.015, sizes=(32, 50, 64, 100, 128, 200, 256)):
        """Now and then as many as a real scene has: any number, or one at, just below or above a round one."""
        if not self.chance(p):
            return n
        return self.int(20, int(max(sizes) * 1.2)) if self.chance(0.35) else self.pick(sizes) + self.pick([-1, 0, 1, 1])

    def form(self, v, forms='fFnr'):
        """A form in which these numbers can be passed unchanged."""
        flat = np.ravel(np.array(v, dtype=float))
        fs = list(forms)
        if flat.size and (flat == np.round(flat)).all() and np.abs(flat).max() < 2 ** 20:  # products that fit
            fs += ['i', 'i']
        return self.pick(fs)

    def scale(self, p=0.25, lo=-60, hi=40):
        """Mostly 1; else a power of two, to make a scene tiny or huge."""
        return 2.0 ** self.int(lo, hi) if self.chance(p) else 1.0

    def near(self, pt, n, s, lo=2, hi=9):
        """A point of a scene of size s, a small step off the plane (pt, n)."""
        n = np.array(n, dtype=float)
        n = n / np.abs(n).max()
        n = n / np.sqrt(n @ n)
        x = np.array(self.vec(3, 'f')) * s
        x = x - n * (x @ n)
        return [float(y) for y in np.array(pt) + x + n * (s * self.pick([1, -1]) * 10.0 ** -self.int(lo, hi))]

    def quat_rotation(self, big=4):
        """An integer quaternion's rotation: (integer matrix, denominator)."""
        while True:
            a, b, c, d = [self.int(-big, big) for _ in range(4)]
            n = a * a + b * b + c * c + d * d
            if n:
                break
        return [[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)],
                [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
                [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]], n


def rescaled(g, op, keys, p=0.2, lo=-60, hi=40, forms=('form',)):
    """Now and then the same scene, tiny or huge: the fields named by keys times a power of two, exactly."""
    s = g.scale(p, lo, hi)
    if s == 1.0:
        return op
    op = dict(op)
    for k in keys:
        if isinstance(op[k], dict):
            op[k] = {x: Q((np.array(F(y), dtype=float) * s).tolist()) for x, y in op[k].items()}
        else:
            op[k] = Q((np.array(F(op[k]), dtype=float) * s).tolist())
    for f in forms:                                        # a form for whole numbers no longer fits
        if op.get(f) in ('i', 'li', 'u'):
            op[f] = 'f'
    return op


def stub_modules():
    """A stand-in for chumpy where it cannot be imported (it needs an old
    Python): enough for the modules that only use it to declare classes."""
    import types
    try:
        import chumpy  # noqa: F401
        return
    except Exception:  # pylint: disable=broad-except
        pass
    for name in [m for m in sys.modules if m.split('.')[0] == 'chumpy']:
        del sys.modules[name]
    ch = types.ModuleType('chumpy')
    ch.Ch = object
    sys.modules['chumpy'] = ch


def main(driver):
    """driver.generate(prop, tier, seed) yields sessions (lists of ops);
    driver.run(ops) performs one session and returns its events."""
    import traceback
    spec = json.load(open(sys.argv[1]))
    out = Writer(spec['out'])

    def one(sid, ops):
        try:
            events = driver.run(ops)
        except Exception:  # pylint: disable=broad-except
            events = [{'op': 'crash', 'what': traceback.format_exc()[-1500:], 'ops': ops}]
        out.session(sid, events)
    n = 0
    for ops in spec['sessions']:
        one('b%d' % n, ops)
        n += 1
    if spec['random']:
        for ops in driver.generate(spec['prop'], spec['tier'], spec['seed']):
            one('r%d' % n, ops)
            n += 1
    out.close()
