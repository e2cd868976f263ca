"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, d)))
    rows.setdefault(m['property'], []).append('%s (%s)' % (d.split('-', 1)[1], m['what_it_breaks']))
n = sum(map(len, rows.values()))
t = '<!-- seeds -->\n%d changes, every one reported by the quick check of its property (`check=1 CAUGHT` in the log of `bin/seedtest`):\n\n' % n
t += '| caught by | planted changes (what they break) |\n|---|---|\n'
t += ''.join('| %s | %s |\n' % (p, '; '.join(rows[p])) for p in sorted(rows)) + '<!-- /seeds -->'
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S) if '<!-- seeds -->' in s else s.replace('@@TABLE@@', t)
open(p, 'w').write(s)
