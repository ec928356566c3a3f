"""DESIGN.md from its text, the list of fixes and the table of planted bugs."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(here, 'tools', 'design.md')).read()
fixes = ['- ' + json.loads(x)['line'] for x in open(os.path.join(here, 'known_findings.jsonl')) if x.strip()]
table = os.path.join(here, 'tools', 'seeded_table.md')
rows = open(table).read() if os.path.exists(table) else ''
open(os.path.join(here, 'DESIGN.md'), 'w').write(text.replace('@FIXES@', '\n'.join(fixes)) + rows)
