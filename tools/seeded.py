"""Which clause reports which planted bug: applies each patch of seeded/ to a
scratch copy of /repo, runs the check of its property there and prints a table.
No check uses this.

    python3 tools/seeded.py [ID...]
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
for name in ids:
    d = os.path.join(HERE, 'seeded', name)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    scratch = tempfile.mkdtemp(prefix='seeded-')
    try:
        repo, verif = os.path.join(scratch, 'repo'), os.path.join(scratch, 'verif')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
        # a copy of the checks, so that no evidence is overwritten
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        p = subprocess.run([sys.executable, 'check.py', meta['property']], cwd=verif, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'))
        out = p.stdout.decode()
        clauses = sorted(set(re.findall(r'clause (\S+) failed', out)))
        if p.returncode == 1 and not clauses:
            clauses = ['crash']
        print('| %s | %s | %s | %s |' % (name, meta['property'], ', '.join(clauses) if p.returncode == 1 else 'MISSED (%d)' % p.returncode,
                                         meta['needs'].rstrip('.')), flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
