"""C15: BigFloat histories against spec/BigDec.tla."""
from fractions import Fraction
from vf import *
from c_bigint import hx, num, last_out


def dec(r, maxd):
    """decimal text (canonical or not)"""
    t = str(abs(num(r, maxd)))
    k = r.random()
    if k < 0.25:
        s = t
    elif k < 0.35:
        s = '0.' + '0' * r.choice([0, 1, 2, 3, 7]) + t
    elif k < 0.75:
        p = r.randint(0, len(t))
        s = (t[:p] or '0') + ('.' + t[p:] if t[p:] else '')
    else:
        s = t + '.' + r.choice(['0', '00', '5', '50', '05', '999', '001', '9999999999', '000000001', '10'])
    k = r.random()
    if k < 0.15:
        s = '0' * r.choice([1, 2, 4]) + s
    if k > 0.85 and '.' in s:
        s += '0' * r.choice([1, 2, 3])
    if r.random() < 0.05 and s.startswith('0.'):
        s = s[1:]
    elif r.random() < 0.05 and '.' not in s:
        s += '.'
    return r.choice(['', '', '', '-', '-', '+']) + s


def size(v):
    """digits needed for a decimal"""
    n, d = abs(v.numerator), v.denominator
    k = 0
    while d > 1:
        d = d // 2 if d % 2 == 0 and d % 5 else d // 5 if d % 2 else d // 10
        k += 1
    return len(str(n)) + k


def history(r, maxd, n, cap, ops, cmps=0.2):
    v = [Fraction(0)] * 5
    out = []

    def put(d):
        t = dec(r, maxd)
        v[d] = Fraction(t if not t.endswith('.') else t + '0')
        out.append('set.%s %d %s' % (r.choice('csl'), d, hx(t)))
    for d in range(1, 5):
        put(d)
    if r.random() < 0.3:    # close neighbours: same number otherwise written, or differing in the last place
        a = dec(r, maxd)
        if '.' in a and not a.endswith('.'):
            b = a + '0' * r.randint(0, 3) + r.choice(['', '', '1'])
            for d, t in ((1, a), (2, b)):
                v[d] = Fraction(t)
                out.append('set.c %d %s' % (d, hx(t)))
    for _ in range(n):
        d, a, b = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
        if r.random() < cmps:
            out.append('cmp %d %d' % (a, b))
            continue
        name = r.choice(ops)
        sa, sb = size(v[a]), size(v[b])
        if name in ('mul', 'sqr') and sa + (sb if name == 'mul' else sa) > cap:
            name = 'add'
        if name == 'pow':
            e = r.choice([-2, -1, 0, 1, 2, 3, 4, 5, 7])
            if e > 1 and 2 * sa * e > cap:
                e = r.choice([0, 1])
            out.append('pow %d %d %d' % (d, a, e))
            if e >= 0:
                v[d] = v[a] ** e
        elif name == 'sqrt':
            if sa > 12:
                continue
            out.append('sqrt %d %d' % (d, a))
            if v[a] >= 0:
                put(d)
        elif name in ('sqr', 'abs', 'copy', 'move'):
            out.append('%s %d %d' % (name, d, a))
            v[d] = {'sqr': v[a] * v[a], 'abs': abs(v[a])}.get(name, v[a])
            if name == 'move' and d != a:
                put(a)
        else:
            out.append('%s %d %d %d' % (name, d, a, b))
            if name == 'add':
                v[d] = v[a] + v[b]
            elif name == 'sub':
                v[d] = v[a] - v[b]
            elif name == 'mul':
                v[d] = v[a] * v[b]
            elif v[b]:
                put(d)      # continue from a known number
        if r.random() < 0.06:
            put(r.randint(1, 4))
    return out + ['dump']


BAD = ['', '-', '+', 'a', '1a', '1.2.3', '1..2', '--1', '-+1', '1.-5', '1.+5', '-1.-5', ' 1', '1 ', '1,5', '1e5', '0x1', '1.5f', '.-5', '-.+5', '1.a', 'a.1', '１.5',
       '1.５', '+-.5', '..', '1.5.', '-1-', '1-1', '1.5-', '1.5-3', '\t1', '−1', 'inf', 'nan', '1/2', '5:', ':5', '1./']


def c15(c):
    r = c.rng()
    c.model('MCBigDec', name='MCBigDec (arithmetic, order and text laws against rationals over TLC integers)')
    m = c.model('MCBigDec', 'MCBigDecEmit.cfg', name='MCBigDec (emits one test per transition)')
    tests = c.emitted(m.out)
    per = {}
    for t in tests:
        per.setdefault(''.join(map(chr, t['x'])), []).append(t)
    hs = []
    for x in sorted(per):
        h = ['set.c 1 ' + hx(x)]
        for t in sorted(per[x], key=lambda t: (t['y'], t['op'])):
            op = {'div0': 'div', 'sqrtneg': 'sqrt', 'powneg': 'pow'}.get(t['op'], t['op'])
            if op == 'pow':
                h.append('pow 3 1 %d' % t['e'])
            elif op in ('abs', 'sqr', 'sqrt'):
                h.append('%s 3 1' % op)
            else:
                h.append('set.c 2 ' + hx(''.join(map(chr, t['y']))))
                h.append('%s 3 1 2' % op)
                if op == 'add':
                    h.append('cmp 1 2')
        hs.append(h + ['dump'])
    c.notes['tests_from_model_transitions'] = len(tests)
    for b in BAD:
        hs.append(['set.c 1 %s' % hx('1.5'), 'set.c 1 ' + hx(b), 'set.s 2 ' + hx(b), 'set.l 3 ' + hx(b), 'dump'])
    import itertools
    texts = [''.join(t) for n in range(0, 5) for t in itertools.product('-.05', repeat=n)] + [''.join(t) for t in itertools.product('+.1a', repeat=3)]
    for k in range(0, len(texts), 30):
        hs.append(['set.%s %d %s' % ('cs'[j % 2], 1 + j % 4, hx(t)) for j, t in enumerate(texts[k:k + 30])] + ['dump'])
    hs.append(['set.d %d %s' % (1 + k % 4, hx('%.6f' % (k / 64))) for k in range(-130, 131, 7)] + ['dump'])
    ops = ['add', 'sub', 'add', 'sub', 'mul', 'div', 'div', 'sqr', 'abs', 'pow', 'sqrt', 'copy', 'move']
    n, maxd, cap = (220, 24, 110) if c.quick else (1600, 60, 300)
    for k in range(n):
        hs.append(history(r, r.choice([1, 2, 3, 8, maxd]), 9, cap, ops))
    for d in (60, 120, 200, 270) if c.quick else (60, 120, 200, 270, 400, 600) * 6:
        for _ in range(3):
            hs.append(history(r, d, 6, 2 * d + 4, ['add', 'sub', 'mul', 'sqr', 'abs', 'copy'], .4))
    exe = c.build('bigint.cpp', out='bigfloat', extra=['-DBIGFLOAT'])
    ev = c.run_histories(exe, hs)
    c.validate('TBigDec', ev, scripts=hs, rerun=lambda k: c.run_histories(exe, [hs[k]], name='again')[0])
    for k in (0, len(hs) - 1):
        c.sample({'script': hs[k][:12], 'events': ev[k][:4]})
    c.negative_control('TBigDec', ev[-1], last_out)
