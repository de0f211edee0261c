"""writes the table of planted bugs into DESIGN.md (between the markers)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for sid in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % sid))
    rows.setdefault(m['property'], []).append('%s: %s' % (sid, ' '.join(m['needs'].split()).rstrip('.')))
text = '| caught by | planted bugs (what each needs in order to show) |\n|----|----|\n'
for prop in sorted(rows):
    text += '| %s | %s |\n' % (prop, '; '.join(rows[prop]).replace('|', '/'))
path = HERE + '/DESIGN.md'
s = open(path).read()
a, b = '<!-- seeded: begin -->\n', '<!-- seeded: end -->\n'
s = s[:s.index(a) + len(a)] + text + s[s.index(b):]
open(path, 'w').write(s)
