"""How much of what is recorded is really judged: sessions of a property with
one number, truth value or word of one observation changed, and how often the
specification rejects them, by operation and place in the observation.

    python3 tools/corrupt.py PROP [sessions] [seed]
"""
import copy
import json
import os
import random
import sys
import tempfile
from fractions import Fraction

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import core                      # noqa: E402
from table import TABLE          # noqa: E402


def rational(x):
    return (isinstance(x, list) and len(x) == 2 and all(isinstance(y, (int, str)) and not isinstance(y, bool) for y in x)
            and all(str(y).lstrip('-').isdigit() for y in x) and int(x[1]) > 0)


def leaves(x, path=()):
    if rational(x) or isinstance(x, (bool, str)):
        yield path
    elif isinstance(x, dict):
        for k in (k for k in x if k not in ('shape', 'dt', 'fin', 'm', 't')):
            for p in leaves(x[k], path + (k,)):
                yield p
    elif isinstance(x, list):
        for i, y in enumerate(x):
            for p in leaves(y, path + (i,)):
                yield p


def get(x, path):
    for k in path:
        x = x[k]
    return x


def whole(x, path):
    """Is this one of an array of integers?"""
    is_int = False
    for k in path:
        if isinstance(x, dict):
            is_int = x.get('dt') == 'i'
        x = x[k]
    return is_int


def change(v, integral=False):
    if os.environ.get("CONTROL"):
        return v
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return v + 'x'
    f = Fraction(int(v[0]), int(v[1]))
    f = f + 1 if integral else f + f * Fraction(1, 50) + (Fraction(1, 1000) if not f else 0)
    n, d = f.numerator, f.denominator
    return [n if abs(n) < 2 ** 31 else str(n), d if abs(d) < 2 ** 31 else str(d)]


def main():
    prop, n = sys.argv[1], int((sys.argv[2:3] or ['400'])[0])
    seed = int((sys.argv[3:4] or ['5'])[0])
    conf = TABLE[prop]
    core.ensure_build()
    r = random.Random(seed)
    work = tempfile.mkdtemp(prefix='verif-corrupt-')
    out, crash = core.drive(conf['area'], prop, 'quick', seed * 1000, [], work)
    base = core.read_sessions(out)
    made, what = [], {}
    while len(made) < n:
        sid, evs = r.choice(base)
        ks = [k for k, e in enumerate(evs) if 'obs' in e and e.get('op') in conf['ops']]
        if not ks or len(json.dumps(evs)) > 200000:
            continue
        k = r.choice(ks)
        ps = list(leaves(evs[k]['obs'])) + ([] if 'mut' not in evs[k] else [None])
        if not ps:
            continue
        p = r.choice(ps)
        evs = copy.deepcopy(evs[:k + 1])
        if p is None:
            evs[k]['mut'] = True
            name = 'mut'
        else:
            v = get(evs[k]['obs'], p)
            if p:
                get(evs[k]['obs'], p[:-1])[p[-1]] = change(v, whole(evs[k]['obs'], p))
            else:
                evs[k]['obs'] = change(v)
            name = '.'.join(x for x in p if isinstance(x, str))
        made.append(('c%d' % len(made), evs))
        what[made[-1][0]] = (evs[k]['op'], evs[k].get('fn', evs[k].get('kind', '')) if isinstance(evs[k].get('fn', evs[k].get('kind', '')), str) else '', name, k)
    tally, quiet = {}, {}
    # one at a time where the specification cannot even read it
    _, fails = core.validate(conf['trace'], made, work)
    if os.environ.get("CONTROL"):
        print(sorted({x for f in fails for x in f[2]}), len(fails))
    bad = {sid for sid, k, c in fails if k == what[sid][3]}
    for sid, evs in made:
        key = what[sid][:3]
        t = tally.setdefault(key, [0, 0])
        t[1] += 1
        if sid in bad:
            t[0] += 1
        else:
            quiet.setdefault(key, evs[-1])
    for key in sorted(tally):
        print('%-60s %d/%d' % (' '.join(key), tally[key][0], tally[key][1]))
    print('%s: %d of %d changed observations rejected' % (prop, sum(t[0] for t in tally.values()), len(made)))
    if len(sys.argv) > 4:
        for key, e in quiet.items():
            print(key, json.dumps(e)[:int(sys.argv[4])])


main()
