"""C12, C13, C14: BigInteger histories against spec/BigInt.tla."""
import math
from vf import *


def hx(s):
    if isinstance(s, str):
        s = s.encode('utf-8', 'surrogatepass')
    return 'x' + s.hex()


def num(r, maxd=40):
    k = r.random()
    if k < 0.12:
        v = r.choice([0, 0, 1, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001])
    elif k < 0.3:
        v = 10 ** r.randint(1, max(1, maxd - 1)) + r.choice([-1, 0, 1])
    elif k < 0.4:
        v = int(''.join(r.choice('09') for _ in range(r.randint(1, maxd))))
    elif k < 0.5:
        v = int(''.join(r.choice('019') for _ in range(r.randint(1, maxd))))
    elif k < 0.6:
        v = 2 ** r.choice([7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 128]) + r.choice([-1, 0, 1])
        if len(str(v)) > maxd:
            v %= 10 ** maxd
    else:
        v = r.randrange(10 ** r.randint(1, maxd))
    return -v if r.random() < 0.45 else v


def settext(r, v):
    """decimal text of v in one of its spellings, and a constructor for it"""
    t = str(v)
    if r.random() < 0.25:
        s = ''
        if t[0] == '-':
            s, t = '-', t[1:]
        elif r.random() < 0.3:
            s = '+'
        t = s + '0' * r.choice([0, 1, 2, 5]) + t
        if v == 0 and r.random() < 0.3:
            t = '-' + t.lstrip('+-')
    c = 'set.' + r.choice('csl')
    if r.random() < 0.15:
        if -2 ** 63 <= v < 2 ** 63:
            c, t = 'set.i', str(v)
        elif 0 <= v < 2 ** 64:
            c, t = 'set.u', str(v)
    return c, t


class Machine:
    """Builds a history; the shadow values only steer the generation."""
    def __init__(self, r, maxd, cap):
        self.r, self.maxd, self.cap = r, maxd, cap
        self.v = [0] * 5
        self.ops = []

    def set(self, d, v):
        c, t = settext(self.r, v)
        self.v[d] = v
        self.ops.append('%s %d %s' % (c, d, hx(t)))

    def op(self, name, d, a, b=None):
        r = self.r
        x, y = self.v[a], self.v[b] if b else 0
        big = max(len(str(abs(x))), len(str(abs(y))))
        if name == 'pow':
            e = r.choice([-3, -1, 0, 0, 1, 2, 3, 4, 5, 7, 8, 13])
            if e > 0 and len(str(abs(x))) * e * 2 > self.cap:
                e = r.choice([0, 1, 2])
            if len(str(abs(x))) * e * 2 > self.cap:
                e = -1
            self.ops.append('pow %d %d %d' % (d, a, e))
            if e >= 0:
                self.v[d] = x ** e
            return
        if name in ('mul', 'sqr') and big * 2 > self.cap:
            name = 'add'
            b = b or a
            y = self.v[b]
        if name == 'sqrt':
            if len(str(abs(x))) > 26:
                return
            if x >= 0:
                self.v[d] = math.isqrt(x)
            self.ops.append('sqrt %d %d' % (d, a))
            return
        if name in ('sqr', 'abs', 'copy', 'move'):
            self.ops.append('%s %d %d' % (name, d, a))
            if name == 'move':
                if d != a:      # the moved-from number is left open: give it a new value
                    self.v[d] = x
                    self.set(a, num(r, self.maxd))
            else:
                self.v[d] = {'sqr': x * x, 'abs': abs(x), 'copy': x}[name]
            return
        self.ops.append('%s %d %d %d' % (name, d, a, b))
        if name == 'add':
            self.v[d] = x + y
        elif name == 'sub':
            self.v[d] = x - y
        elif name == 'mul':
            self.v[d] = x * y
        elif name in ('div', 'mod') and y:
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            self.v[d] = q if name == 'div' else x - q * y

    def end(self):
        self.ops.append('dump')
        return self.ops


def history(r, ops, maxd, cap, n, cmps=0.0):
    m = Machine(r, maxd, cap)
    for k in range(1, 5):
        m.set(k, num(r, maxd))
    # related operands: equal, opposite, multiples, squares, neighbours
    k = r.random()
    if k < 0.2:
        m.set(2, m.v[1] * r.choice([1, -1]) + r.choice([-1, 0, 1]))
    elif k < 0.4 and len(str(m.v[2])) * 2 <= maxd:
        m.set(1, m.v[2] * num(r, maxd // 2) + r.choice([-1, 0, 0, 1]))
    elif k < 0.5 and len(str(m.v[2])) * 2 <= maxd:
        m.set(1, m.v[2] ** 2 + r.choice([-1, 0, 1, 2 * abs(m.v[2])]))
    for _ in range(n):
        d, a, b = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
        if r.random() < cmps:
            m.ops.append('cmp %d %d' % (a, b))
            continue
        m.op(r.choice(ops), d, a, b)
        if r.random() < 0.08:
            m.set(r.randint(1, 4), num(r, maxd))
    return m.end()


def from_model(c, ops):
    """one implementation history per first operand out of the transitions of MCBigInt"""
    r = c.model('MCBigInt', 'MCBigIntEmit.cfg', name='MCBigInt (laws against TLC integers; emits one test per transition)')
    tests = [t for t in c.emitted(r.out) if t['op'] in ops]
    per = {}
    for t in tests:
        per.setdefault(t['x'], []).append(t)
    hs = []
    for x in sorted(per):
        h = ['set.c 1 ' + hx(str(x))]
        for t in sorted(per[x], key=lambda t: (t['y'], t['op'])):
            op = {'div0': 'div', 'sqrtneg': 'sqrt', 'powneg': 'pow'}.get(t['op'], t['op'])
            if op == 'pow':
                h.append('pow 3 1 %d' % t['y'])
            elif op in ('abs', 'sqr', 'sqrt'):
                if t['y'] == min(q['y'] for q in per[x]):
                    h.append('%s 3 1' % op)
            else:
                h.append('set.c 2 ' + hx(str(t['y'])))
                h.append('%s 3 1 2' % op)
                if t['op'] == 'div0':
                    h.append('mod 3 1 2')
        h.append('dump')
        hs.append(h)
    c.notes['tests_from_model_transitions'] = len(tests)
    return hs


def run(c, hs, corrupt):
    exe = c.build('bigint.cpp')
    ev = c.run_histories(exe, hs)

    def rerun(k):
        return c.run_histories(exe, [hs[k]], name='again')[0]
    c.validate('TBigInt', ev, scripts=hs, rerun=rerun)
    for k in (0, len(hs) // 2, len(hs) - 1):
        c.sample({'script': hs[k][:12], 'events': ev[k][:4]})
    c.negative_control('TBigInt', ev[-1], corrupt)
    c.assumptions += ['the driver reports ToString()/operator<< of every result; big numbers are read only through their decimal text']


def last_out(h):
    e = [x for x in h if 'out' in x and not x.get('ex')][-1]
    e['out'][-1] = 48 + (e['out'][-1] - 48 + 1) % 10 if len(e['out']) > 1 else 50 if e['out'][-1] != 50 else 51


def c12(c):
    r = c.rng()
    hs = from_model(c, ('add', 'sub', 'mul', 'sqr', 'abs', 'pow', 'powneg'))
    n, maxd, cap = (260, 36, 150) if c.quick else (1500, 90, 400)
    for k in range(n):
        hs.append(history(r, ['add', 'sub', 'add', 'sub', 'mul', 'mul', 'sqr', 'abs', 'pow', 'copy', 'move'],
                          r.choice([3, 8, maxd]), cap, 9))
    for d in (70, 130, 200, 270, 400) if c.quick else (70, 130, 200, 270, 400, 520, 800) * 6:
        hs += [history(r, ['add', 'sub', 'mul', 'sqr', 'pow', 'copy'], d, 2 * d + 2, 6) for _ in range(3)]
    # columns of nines: the largest sums
    for d in (100, 410, 820) if c.quick else (100, 410, 820, 1700, 2600):
        x, y = hx('9' * d), hx('-' + '9' * (d - r.randint(0, 3)))
        hs.append(['set.c 1 ' + x, 'set.s 2 ' + y, 'mul 3 1 2', 'sqr 4 1', 'add 3 1 1', 'sub 4 1 2', 'add 2 2 1', 'dump'])
    hs.append(['set.c 1 ' + hx('-2'), 'pow 2 1 257', 'pow 3 1 300', 'set.c 1 ' + hx('10'), 'pow 2 1 255', 'pow 3 1 256', 'mul 4 2 3', 'set.c 1 ' + hx('1'), 'pow 2 1 100000', 'set.c 1 ' + hx('-1'), 'pow 3 1 65537', 'pow 4 1 1000000000', 'dump'])
    run(c, hs, last_out)


def c13(c):
    r = c.rng()
    hs = from_model(c, ('div', 'mod', 'div0', 'sqrt', 'sqrtneg'))
    n, maxd = (230, 36) if c.quick else (1500, 80)
    for k in range(n):
        hs.append(history(r, ['div', 'mod', 'div', 'mod', 'sqrt'], r.choice([2, 6, 12, 24, maxd]), 100, 6))
    for d in (60, 100, 140, 260) if c.quick else (60, 100, 140, 260, 520) * 6:
        hs += [history(r, ['div', 'mod'], d, 2 * d + 2, 6) for _ in range(3)]
    run(c, hs, last_out)


BAD = ['', '+', '-', '--1', '+-1', '-+1', '1-', '1+2', ' 1', '1 ', '1.0', '.', '1e5', '0x10', 'abc', '12a', 'a12', '１２', '1２3', '٣', '-٣',
       '1,000', '1_000', "1'000", '−5', '\t7', '7\n', '+ 1', '- 1', '1/2', '1:', '/', ':', '0:', '9/']


def c14(c):
    r = c.rng()
    c.model('MCBigInt', name='MCBigInt (order, text and canonical form laws)')
    hs = []
    for b in BAD:
        hs.append(['set.c 1 %s' % hx('17'), 'set.%s 1 %s' % (r.choice('csl'), hx(b)), 'set.c 2 ' + hx(b), 'set.s 3 ' + hx(b), 'dump'])
    # all signed digit texts up to three characters over a small alphabet
    import itertools
    texts = [''.join(t) for n in range(0, 4) for t in itertools.product('+-019a', repeat=n)]
    for k in range(0, len(texts), 30):
        hs.append(['set.%s %d %s' % ('cs'[j % 2], 1 + j % 4, hx(t)) for j, t in enumerate(texts[k:k + 30])] + ['dump'])
    # comparisons of all pairs of a boundary set
    vals = sorted(set([s * v for v in [0, 1, 2, 9, 10, 11, 99, 100, 999, 1000, 2 ** 63, 2 ** 64, 10 ** 19, 10 ** 30, 10 ** 30 + 1, 123456789012345678901234567890]
                       for s in (1, -1)]))
    for x in vals:
        h = ['set.s 1 ' + hx(str(x))]
        for y in vals:
            h += ['set.c 2 ' + hx(str(y)), 'cmp 1 2', 'cmp 2 1']
        hs.append(h + ['dump'])
    for v in [2 ** 63 - 1, -2 ** 63, 0, -1, 1, 10 ** 18, -10 ** 18]:
        hs.append(['set.i 1 ' + hx(str(v)), 'set.c 2 ' + hx(str(v)), 'cmp 1 2', 'dump'])
    for v in [2 ** 64 - 1, 2 ** 63, 0, 1, 10 ** 19]:
        hs.append(['set.u 1 ' + hx(str(v)), 'set.c 2 ' + hx(str(v)), 'cmp 1 2', 'dump'])
    # values however computed: all zeros are one zero, equal values compare equal
    for k in range(200 if c.quick else 1500):
        h = history(r, ['add', 'sub', 'mul', 'div', 'mod', 'abs', 'copy', 'move'], r.choice([1, 2, 2, 6, 30]), 90, 8, 0.35)
        hs.append(h[:-1] + ['cmp %d %d' % (a, b) for a in (1, 2, 3) for b in (2, 3, 4)] + ['dump'])

    for d in (65, 130, 257, 520) if c.quick else (65, 130, 257, 520, 1030) * 6:
        for _ in range(3):
            v = num(r, d) if r.random() < .2 else r.randrange(10 ** (d - 1), 10 ** d) * r.choice([1, -1])
            k = r.randint(0, len(str(abs(v))) - 1)
            h = ['set.c 1 ' + hx('0' * r.choice([0, 3, 70]) + str(v) if v >= 0 else str(v)), 'set.s 2 ' + hx(str(v + 10 ** k)), 'set.c 3 ' + hx(str(-v)), 'set.s 4 ' + hx(str(v))]
            h += ['cmp %d %d' % (a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)]
            t = str(abs(v))
            h += ['set.%s 4 %s' % (r.choice('cs'), hx(t[:k] + r.choice(['a', '-', ' ', '.', '+', ':', '\u0663']) + t[k:])), 'set.%s 4 %s' % (r.choice('cs'), hx(t + r.choice('x -'))), 'cmp 4 1']
            hs.append(h + ['dump'])

    def corrupt(h):
        e = [x for x in h if x['op'] == 'cmp'][-1]
        e['lt'] = not e['lt']
    run(c, hs, corrupt)
