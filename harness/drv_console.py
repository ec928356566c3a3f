"""Console input (C24)."""
import io
import sys

import common
from common import Gen, fr, guarded, q
from drv_value import show
from drv_units import NAMES

NONE = '<none>'


def run(ops):
    from blmath import console
    events = []
    for op in ops:
        ev = dict(op)
        text = ''.join(x['t'] + '\n' for x in op['lines'])
        kw = {}
        if op['allow'] or not op.get('bare', True):
            kw['allow_empty'] = op['allow']
        if op['op'] == 'float':
            fn = lambda: console.input_float(op['prompt'], **kw)
            mark = [op['prompt'].rstrip(' \t:')]
        else:
            fn = lambda: console.input_value(op['label'], None if op['units'] == NONE else op['units'], **kw)
            mark = [op['label'], op['units'] if op['units'] != NONE else op['label']]
        stdin, stdout = sys.stdin, sys.stdout
        sys.stdin, sys.stdout = io.StringIO(text), io.StringIO()
        try:
            r = guarded(lambda: (fn(),))
            rest, shown = sys.stdin.read(), sys.stdout.getvalue()
        finally:
            sys.stdin, sys.stdout = stdin, stdout
        ev['obs'] = show(r[0]) if isinstance(r, tuple) else r
        ev['left'] = rest.count('\n')
        # a prompt is the label followed, before anything else is shown
        # again, by the units
        parts = shown.split(mark[0])
        n = len(parts) - 1
        if op['op'] == 'value' and not all(mark[1] in p for p in parts[1:]) and op['units'] != NONE:
            n = -1
        ev['prompts'] = n
        ev['shown'] = shown[:300].encode('unicode_escape').decode('ascii')
        ev['lines'] = [{k: v for k, v in x.items() if k != 't' or v.isascii()} for x in op['lines']]
        events.append(ev)
    return events


JUNK = ['abc', '1,5', '--3', '5 in', '1.2.3', 'ten', '0x10', '$', 'none', '- 4', '1e', 'e5', '.', '1;2']
EMPTY = ['', ' ', '\t', '   ']


def line(g):
    r = g.r.random()
    if r < 0.35:
        return {'k': 'junk', 't': g.pick(JUNK)}
    if r < 0.6:
        return {'k': 'empty', 't': g.pick(EMPTY)}
    x = g.pick([0.0, -0.0, g.num(), g.num() * 1e6, g.num() * 1e-6, float(g.int(-9, 9))])
    t = g.pick(['%r' % x, ' %r' % x, '%r  ' % x, '\t%r' % x, '%.3e' % x, '%d' % int(x), '+%r' % abs(x), '%.2f' % x])
    return {'k': 'num', 't': t, 'v': q(float(t))}


def generate(prop, tier, seed):
    g = Gen(seed)
    labels = ['Chest girth', 'Height', 'Waist', 'How wide (front)', 'W', 'Age {now}', 'Size %d']
    for _ in range(60 if tier == 'quick' else 600):
        ops = []
        for _ in range(8):
            lines = [line(g) for _ in range(g.int(0, 6))] + [{'k': 'num', 't': '7.5', 'v': q(7.5)}] + [line(g) for _ in range(g.int(0, 3))]
            base = {'lines': lines, 'allow': g.chance(0.5), 'bare': g.chance(0.5)}
            if g.chance(0.5):
                ops.append({'op': 'float', 'prompt': g.pick(labels) + g.pick([': ', '', ' : ', '?', ' ']), **base})
            else:
                ops.append({'op': 'value', 'label': g.pick(labels), 'units': g.pick(NAMES + [NONE] * 3), **base})
        yield ops


if __name__ == '__main__':
    common.main(__import__('drv_console'))
