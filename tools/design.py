"""Fills the generated parts of DESIGN.md: the repaired defects and the planted changes."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(here, 'tools/design.md')).read()
fixed = []
for one in json.load(open(os.path.join(here, 'known_findings.json')))['fixed']:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', one)
    fixed.append('| %s | %s | %s |' % m.groups())
text = text.replace('@FIXED@', '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fixed))
rows = []
base = os.path.join(here, 'seeded')
for name in sorted(os.listdir(base)):
    d = json.load(open(os.path.join(base, name, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (name, d['property'], d['what_it_breaks'], d['needs']))
text = text.replace('@SEEDED@', '| change | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows))
missed = os.path.join(here, 'tools/missed.txt')
text = text.replace('@MISSED@', open(missed).read().rstrip('\n') if os.path.exists(missed) else '')
open(os.path.join(here, 'DESIGN.md'), 'w').write(text)
