"""Writes known_findings.txt: one 'fixed:' line per repair commit (map of commit subject -> property) plus FINDINGS."""
import subprocess, os
MAP = [  # (start of the subject, properties)
 ('BigInteger order', 'C12 C14'), ('BigInteger sum', 'C12'), ('BigInteger remainder', 'C13'), ('BigInteger refuses', 'C14'),
 ('do not read past the end of a truncated', 'C01'), ('String::ReverseFind', 'C03'), ('String::Find', 'C03'), ('a String can be inserted', 'C02'),
 ('Format gives each', 'C05'), ('an empty format spec', 'C05'), ('floating format', 'C06'), ('repeating a text', 'C26'), ('FindLastNonSpace', 'C26'),
 ('EscapeString', 'C26'), ('appending to a copied', 'C07'), ('kmp', 'C26'), ('case mapping offsets', 'C04'), ('case of the Latin', 'C04'),
 ('SharedPtr destroys', 'C16'), ('a SharedPtr can be', 'C16'), ('UniquePtr assignment', 'C18'), ('a UniquePtr can', 'C18'), ('resetting a Ptr', 'C18'),
 ('public headers compile', 'C27'), ('public headers can', 'C27'), ('a WeakPtr', 'C16 C17'), ('cmp_ne', 'C28'), ('Expected::UnwrapOrDefault', 'C19'),
 ('Expected::Filter', 'C19'), ('Expected::MapError', 'C19'), ('Expected keeps', 'C20'), ('opening a File', 'C21'), ('File::Read returns', 'C22'),
 ('a File that was read', 'C21 C22'), ('File::Erase', 'C22'), ('InputStream::ReadChar', 'C25'), ('every run of the test', 'C23'),
 ('a test failing', 'C23'), ('ASSERT_STREQ', 'C24'), ('BigFloat', 'C15'), ('a String can be added', 'C02'), ('a Ptr can be reset or', 'C18'),
]
EXTRA = {}   # subject start -> properties for JSON commits, filled below
JSON = [('JSON: ', 'C08')]
REPO = '/repo'
out = ['# Genuine defects of szawrowski/caitlyn found by the checks.',
       '# "fixed:" entries are repaired in /repo and suppress nothing; "finding:" entries are recorded, not repaired.']
log = subprocess.check_output(['git', '-C', REPO, 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    if s.startswith('[C'):
        props, s2 = s[1:].split(']', 1)
        ps = [props]
    else:
        ps = [p for k, v in MAP if s.startswith(k) for p in v.split()]
    assert ps, s
    for p in ps:
        out.append('fixed: property=%s %s %s' % (p, h, s))
try:
    from findings import FINDINGS
    out += FINDINGS
except ImportError:
    pass
open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
