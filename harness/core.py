"""Decides one property: model checking, replay of the model's behaviours,
recording of real runs, and validation of every recorded event by TLC."""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar'
COMMUNITY = '/opt/veriftools/tla/CommunityModules-deps.jar'
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
EVIDENCE = os.path.join(VERIF, 'evidence')
JOBS = 7


class Broken(Exception):
    """The machinery failed: no verdict."""


def ensure_build():
    """The Java arithmetic behind spec/Rationals.tla."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'java', 'Rationals.java')
    cls = os.path.join(BUILD, 'Rationals.class')
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            subprocess.run(['javac', '-cp', TLA, '-d', BUILD, src], check=True)


def tlc(module, cfg, env=None, timeout=800, workers='1', heap='1500m', extra=()):
    """Run TLC in a scratch metadir; (exit status, output)."""
    meta = tempfile.mkdtemp(prefix='tlc')
    try:
        cmd = ['java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC',
               '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + meta, '-Xss64m', '-Xmx' + heap,
               '-cp', ':'.join([BUILD, TLA, COMMUNITY]), 'tlc2.TLC',
               '-workers', workers, '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg, *extra, module]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        raise Broken('TLC timed out on %s %s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def model_check(item):
    """Check a design model; its state counts.  CASE lines it prints are
    behaviours (JSON) to be replayed on the code."""
    cfg = item
    module = cfg.split('.')[0] + '.tla'
    if not os.path.exists(os.path.join(SPEC, module)):
        module = re.sub(r'_[a-z0-9]+\.cfg$', '', cfg) + '.tla'
    t = time.time()
    rc, out = tlc(module, cfg, workers='4', heap='4g')
    m = STATS.findall(out)
    if rc != 0 or not m or 'No error has been found' not in out:
        raise Broken('model %s failed:\n%s' % (cfg, out[-4000:]))
    cases = []
    for line in out.splitlines():
        if line.startswith('"CASE '):
            cases.append(json.loads(json.loads(line)[len('CASE '):]))
    return {'cfg': cfg, 'generated': int(m[-1][0]), 'distinct': int(m[-1][1]),
            'cases': cases, 's': time.time() - t}


def drive(area, prop, tier, seed, sessions, workdir, random=True, name='d', timeout=600):
    """Run the driver on the real code; (events file, crash description)."""
    out = os.path.join(workdir, name + '.ndjson')
    job = os.path.join(workdir, name + '.job.json')
    with open(job, 'w') as f:
        json.dump({'prop': prop, 'tier': tier, 'seed': seed, 'sessions': sessions,
                   'out': out, 'random': random}, f)
    home = os.path.join(workdir, name + '.home')
    os.makedirs(home, exist_ok=True)
    env = {'PATH': '/opt/venv/bin:/usr/bin:/bin', 'HOME': home, 'TMPDIR': home,
           'PYTHONPATH': REPO + ':' + os.path.join(VERIF, 'harness'),
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
           'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
           'VERIF_REPO': REPO, 'VERIF_SCRATCH': home}
    try:
        p = subprocess.run([PYTHON, '-W', 'ignore',
                            os.path.join(VERIF, 'harness', 'drv_%s.py' % area), job],
                           cwd=home, env=env, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return out, 'the driver did not finish in %d s' % timeout
    if p.returncode < 0:
        return out, 'the process died with signal %d' % -p.returncode
    if p.returncode != 0:
        text = p.stdout.decode('utf8', 'replace')[-3000:]
        # an error below the code under test is an observation; one in the
        # harness alone is ours
        if os.path.join(REPO, 'blmath') + '/' in text:
            return out, 'the process failed: ' + text
        raise Broken('driver failed: ' + text)
    return out, None


def read_sessions(path):
    sessions, order = {}, []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    break       # cut short by a crash
                if r['s'] not in sessions:
                    sessions[r['s']] = []
                    order.append(r['s'])
                sessions[r['s']].append(r['e'])
    return [(s, sessions[s]) for s in order]


def unreadable(out):
    """TLC failed on the values of an event, rather than for want of resources."""
    error = out[out.find('Error:'):]
    return ('TLC threw an unexpected exception' in error and STATS.search(error) is not None
            and not any(x in error for x in ('OutOfMemory', 'StackOverflow', 'Deserialize')))


def validate(trace_module, sessions, workdir, jobs=JOBS):
    """Every event of every session against the specification.  Returns
    (number of events consumed, [(session id, index, clauses)])."""
    if not sessions:
        return 0, []
    weights = [sum(len(json.dumps(e)) + 200 for e in evs) for _, evs in sessions]
    total = sum(weights)
    n = max(1, min(jobs, total // 60000 + 1))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for i in sorted(range(len(sessions)), key=lambda k: -weights[k]):
        b = load.index(min(load))
        bins[b].append(i)
        load[b] += weights[i]

    def run(b):
        todo, done, fails = sorted(bins[b]), 0, []
        for attempt in range(6):
            path = os.path.join(workdir, '%s.%d.ndjson' % (trace_module, b))
            where = []
            with open(path, 'w') as f:
                for i in todo:
                    sid, evs = sessions[i]
                    for k, ev in enumerate(evs):
                        e = dict(ev)
                        e['first'] = (k == 0)
                        f.write(json.dumps(e) + '\n')
                        where.append((sid, k, i))
            if not where:
                break
            rc, out = tlc(trace_module + '.tla', trace_module + '.cfg',
                          env={'TRACE': path}, heap='2500m')
            os.unlink(path)
            fine = rc == 0 and 'No error has been found' in out
            if not fine and not unreadable(out):
                raise Broken('trace validation of %s failed:\n%s' % (trace_module, '...' + out[out.find('Error:'):][:400] + out[-2500:]))
            for line in out.splitlines():
                if line.startswith('"FAIL '):
                    f = json.loads(json.loads(line)[len('FAIL '):])
                    sid, k, _ = where[f['l'] - 1]
                    fails.append((sid, k, sorted(f['c'])))
                elif 'FAIL' in line:
                    raise Broken('unreadable verdict: ' + line)
            if fine:
                done += len(where)
                break
            # an observation of a form no rule foresees: that event fails, and
            # the sessions after it still have to be judged
            at = int(STATS.findall(out)[-1][1])
            sid, k, i = where[at - 1]
            fails.append((sid, k, ['ANY.unreadable']))
            done += at
            todo = [j for j in todo if j > i]
        return done, fails

    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(run, range(n)))
    return sum(r[0] for r in rs), [f for r in rs for f in r[1]]


def load_known(prop):
    known = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    r = json.loads(line)
                    if r.get('property') == prop and r.get('status') == 'finding':
                        known.append(r)
    return known


def matches(finding, ev, clauses):
    """A finding names the operation, the clause and the exact argument
    values that fail."""
    return (ev.get('op') == finding['op'] and set(clauses) <= set(finding['clauses'])
            and all(ev.get(k) == v for k, v in finding['args'].items()))


def check(prop, conf, replay=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    ensure_build()
    os.makedirs(EVIDENCE, exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return _check(prop, conf, replay, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(prop, conf, replay, tier, seed, work, t0):
    area = conf['area']
    models, cases = [], []
    pool = cf.ThreadPoolExecutor(4)
    futs = []
    if replay is None:
        cfgs = list(conf.get('models', ()))
        if tier == 'thorough':
            cfgs = [conf.get('thorough_models', {}).get(c, c) for c in cfgs]
        futs = [pool.submit(model_check, c) for c in cfgs]
        gens = [pool.submit(model_check, c) for c in conf.get('gens', ())]
        for g in gens:
            r = g.result()
            models.append(r)
            cases += r['cases']
            if not r['cases']:
                raise Broken('no behaviours from ' + r['cfg'])
    files = []
    if replay is None:
        # the random runs are split over processes
        nproc = conf.get('procs', 3)
        jobs = [(area, prop, tier, seed * 1000 + k, cases[k::nproc], work, True, 'd%d' % k)
                for k in range(nproc)]
    else:
        jobs = [(area, prop, tier, seed, replay, work, False, 'd0')]
    crashes = []
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        for (job, (out, crash)) in zip(jobs, ex.map(lambda j: drive(*j), jobs)):
            files.append((job[7], out))
            if crash:
                crashes.append(crash)
    sessions = []
    for name, out in files:
        sessions += [(name + s, evs) for s, evs in read_sessions(out)]
    if not sessions and not crashes:
        raise Broken('the driver recorded nothing')
    consumed, fails = validate(conf['trace'], sessions, work)
    for f in futs:
        models.append(f.result())
    byid = dict(sessions)

    known = load_known(prop)
    violations, found = [], {}
    for sid, k, clauses in fails:
        if any(c.startswith('HARNESS.') for c in clauses):
            raise Broken('bad witness: %s' % json.dumps(byid[sid][k])[:2000])
        mine = [c for c in clauses if c.startswith(prop + '.') or c.startswith('ANY.')]
        if not mine:
            continue
        ev = byid[sid][k]
        hit = [f for f in known if matches(f, ev, mine)]
        if hit:
            found[hit[0]['id']] = hit[0]
        else:
            violations.append((sid, k, mine))
    for f in known:
        if f['id'] in found or replay is None:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    path = os.path.join(EVIDENCE, prop + '.replay.json')
    if replay is None and os.path.exists(path):
        os.unlink(path)
    if violations or crashes:
        rec = {'property': prop, 'seed': seed, 'tier': tier, 'crashes': crashes,
               'violations': []}
        violations.sort(key=lambda v: len(json.dumps(byid[v[0]])))
        for sid, k, mine in violations[:10]:
            rec['violations'].append({
                'clauses': mine, 'event': byid[sid][k],
                'session': [{a: b for a, b in e.items() if a not in ('obs',)}
                            for e in byid[sid][:k + 1]]})
        rec['count'] = len(violations)
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)

    # evidence
    interesting = conf.get('ops')
    evs = [e for _, es in sessions for e in es]
    mine = [e for e in evs if interesting is None or e.get('op') in interesting]
    distinct = {json.dumps({k: v for k, v in e.items() if k not in ('obs', 'first')},
                           sort_keys=True) for e in mine}
    perop = {}
    for e in evs:
        perop[e.get('op')] = perop.get(e.get('op'), 0) + 1
    samples = [e for e in mine if len(json.dumps(e)) < 1500][:400:150] or mine[:1]
    cov = {
        'states': sum(m['distinct'] for m in models) + consumed,
        'transitions': sum(m['generated'] for m in models) + consumed,
        'traces_validated_against_impl': len(sessions),
        'samples': samples,
        'evaluations': consumed,
        'distinct_nontrivial': len(distinct),
        'rule': 'events of this property recorded from the real code, counted once per '
                'distinct operation and arguments; each was judged by TLC against the specification',
        'events_by_operation': perop,
        'model_runs': [{k: m[k] for k in ('cfg', 'generated', 'distinct')} for m in models],
        'behaviours_replayed_from_the_model': len(cases),
        'trace_specification': conf['trace'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': conf.get('level', 'model_checking'),
          'coverage': cov, 'assumptions': conf.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + len(crashes)}
    if replay is None:
        with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d sessions, %d events judged, %d model states, %d violations, %.1f s'
          % (prop, len(sessions), consumed, sum(m['distinct'] for m in models),
             len(violations) + len(crashes), time.time() - t0))
    if violations or crashes:
        tally = {}
        for _, _, mine_ in violations:
            for c in mine_:
                tally[c] = tally.get(c, 0) + 1
        for c in sorted(tally):
            print('  clause %s failed %d times' % (c, tally[c]))
        for c in crashes:
            print('  ' + c.splitlines()[-1])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def main(argv, table):
    if len(argv) < 2 or argv[1] not in table:
        print('usage: check.py PROPERTY [--replay FILE]')
        return 2
    prop = argv[1]
    replay = None
    if len(argv) > 3 and argv[2] == '--replay':
        with open(argv[3]) as f:
            replay = [v['session'] for v in json.load(f)['violations']]
    try:
        return check(prop, table[prop], replay)
    except Broken as e:
        print('NO VERDICT: ' + str(e))
        return 2
