"""C28: comparisons, random values, map and size helpers against spec/Values.tla."""
from vf import *

EDGES = sorted({s * (2 ** k) + d for k in (0, 1, 7, 8, 15, 16, 31, 32, 63, 64) for s in (-1, 1) for d in (-2, -1, 0, 1, 2) if -2 ** 63 <= s * 2 ** k + d < 2 ** 64} | {0, 42, -42})
RANGES = {'i16': (-2 ** 15, 2 ** 15 - 1), 'u16': (0, 2 ** 16 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1), 'u32': (0, 2 ** 32 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1), 'u64': (0, 2 ** 64 - 1)}
REALS = {'f': ['-3.4e38', '3.4e38', '0', '1', '-1', '1e-40', '1e-45', '3.4028234663852886e38', '-3.4028234663852886e38', '0.1', '16777216', '16777217', '1e10'],
         'd': ['-1.7e308', '1.7e308', '0', '1', '-1', '5e-324', '1e-308', '1.7976931348623157e308', '-1.7976931348623157e308', '0.1', '0.3', '9007199254740993', '1e100', '-5'],
         'ld': ['-1.1e4932', '1.1e4932', '0', '1', '-1', '4e-4951', '1e-100', '0.1', '18446744073709551616', '-1e4000', '1e300']}
TEXTS = [b'', b'a', b'b', b'ab', b'key', '\u00e4'.encode(), '\u4e2d'.encode(), b'zz', b'value', b'1', b'2', b'10', b' ']


def hx(b):
    return 'x' + b.hex()


def c28(c):
    r = c.rng()
    c.model('MCValues', name='MCValues (machine integers of 2 to 6 bits, int of 4 bits)')
    exe = c.build('values.cpp')
    hs = [['size']]
    for t in range(12):
        for u in range(12):
            xs = EDGES + [r.randint(-2 ** 63, 2 ** 64 - 1) for _ in range(4)] + [r.randint(-2 ** 15, 2 ** 16) for _ in range(4)]
            if c.quick:
                xs = r.sample(xs, 26) + [0, -1, 2 ** 63, 2 ** 64 - 1, -2 ** 63, 128, 255, -128]
                xs = list(dict.fromkeys(xs))
            hs.append(['cmp %d %d %d %s' % (t, u, x, ' '.join(map(str, xs))) for x in xs])
    # all pairs of bytes
    for t in (0, 1):
        for u in (0, 1):
            vals = list(range(-128, 256))
            for x in (r.sample(vals, 40) if c.quick else vals):
                hs.append(['cmp %d %d %d %s' % (t, u, x, ' '.join(map(str, vals)))])
    seed = lambda: r.randint(1, 10 ** 15)
    for ty, (lo, hi) in RANGES.items():
        pts = [lo, lo + 1, hi, hi - 1, (lo + hi) // 2, 0, 1, 5, 100]
        h = ['defaults %s %d 200' % (ty, seed())]
        for a, b in [(lo, hi), (0, hi), (lo, (lo + hi) // 2), (lo + 1, hi - 1), ((lo + hi) // 2, hi), (0, 5000)]:
            h.append('random %s %d 200 %d %d 0' % (ty, seed(), a, b))
        for a in pts:
            for b in pts:
                if lo <= a <= b <= hi:
                    h.append('random %s %d %d %d %d 0' % (ty, seed(), 12 if c.quick else 100, a, b))
        for a in [x for x in pts if lo <= x]:
            for k in (1, 2, 3, 4):
                if a + k - 1 <= hi:
                    h.append('random %s %d %d %d %d %d' % (ty, seed(), 400, a, a + k - 1, k))
        hs.append(h)
    for ty, vals in REALS.items():
        h = ['defaults %s %d 200' % (ty, seed())]
        for a in vals:
            for b in vals:
                if float(a) <= float(b) or (ty == 'ld' and (a.startswith('-') and not b.startswith('-'))):
                    if ty == 'ld' and float(a) == float(b) and a != b:
                        continue
                    h.append('random %s %d %d %s %s 0' % (ty, seed(), r.choice([40, 200]) if c.quick else 2000, a, b))
        hs.append(h)
    h = []
    for p in ('0', '1', '0.5', 'default', '0.25', '0.75', '1e-300', '0.9999999', '-0.0', '-1e-300', '-1', '1.0000000000000002', '2', 'inf', '-inf', 'nan', '5e-324', '-5e-324'):
        h.append('bool %d %d %s' % (seed(), 500 if c.quick else 20000, p))
    hs.append(h)
    for n in range(120 if c.quick else 2000):
        hs.append(['map %d %s' % (k, ' '.join(hx(r.choice(TEXTS)) for _ in range(2 * r.choice([0, 1, 2, 4, 9])))) for k in range(6)])
    for n in (17, 33, 65, 129, 300):
        keys = [str(k).encode() for k in r.sample(range(10 ** 6), n)] + [b'same'] * 3
        r.shuffle(keys)
        for k in range(6):
            hs.append(['map %d %s' % (k, ' '.join(hx(x) + ' ' + hx(r.choice(TEXTS) + x) for x in keys))])
    go = lambda hs, name='h': c.run_histories(exe, hs, name=name)
    ev = go(hs)
    c.validate('TValues', ev, scripts=hs, rerun=lambda k: go([hs[k]], 'again')[0])
    n = {}
    for h in ev:
        for e in h or ():
            n[e['op']] = n.get(e['op'], 0) + (6 * len(e['ys']) if e['op'] == 'cmp' else len(e['vals']) if e['op'] == 'random' else 1)
    c.notes['answers'] = n
    c.sample({'script': hs[1][:1], 'events': str(ev[1][:1])[:300]})
    c.negative_control('TValues', ev[1], lambda h: h[0]['res'][0].reverse() if h[0]['res'][0] != h[0]['res'][0][::-1] else h[0]['res'][0].__setitem__(0, 2))
    c.assumptions.append('bounds of random values are finite and not reversed; numbers are recorded in the 80-bit format, which holds every number of every type')
