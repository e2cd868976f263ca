"""C01, C02, C03: String against spec/Strings.tla, Text.tla, Utf8.tla."""
import itertools
from vf import *

# characters of every encoded length, with class boundaries
CPS = [ord(c) for c in 'abcAZ09 .\n'] + [1, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0x4e16, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x3ffff, 0x40000, 0xfffff,
                                                0x100000, 0x10ffff]


def hx(t):
    if isinstance(t, str):
        t = t.encode('utf-8')
    return 'x' + bytes(t).hex()


def cps(l):
    return hx(''.join(map(chr, l)))


def text(r, alpha, n):
    return ''.join(chr(r.choice(alpha)) for _ in range(r.randint(0, n)))


class Shadow:
    """generates edit histories; the shadow content only keeps the arguments meaningful"""
    def __init__(self, r, alpha, maxlen):
        self.r, self.alpha, self.maxlen = r, alpha, maxlen
        self.s = [''] * 4
        self.ops = []

    def set(self, d, t):
        how = self.r.choice('csavx')
        self.ops.append('set.%s %d %s' % (how, d, hx(t)))
        self.s[d] = t

    def step(self):
        r, s = self.r, self.s
        d, a, b = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)
        L = len(s[d])
        pos = r.choice([0, L, L + 1, r.randint(0, L + 2), r.randint(0, L)])
        cp = r.choice(self.alpha)
        n = r.choice([0, 1, 2, 3])
        if any(len(x) > self.maxlen for x in s):
            k = max(range(1, 4), key=lambda k: len(s[k]))
            if r.random() < 0.5:
                self.ops.append('clear %d' % k)
                s[k] = ''
            else:
                p = r.randint(0, 3)
                self.ops.append('substr %d %d %d %d' % (k, k, p, 4))
                s[k] = s[k][p:p + 4]
            return
        op = r.choice(['set', 'setn', 'append', 'append', 'pluseq', 'pluseq', 'cat', 'cats', 'push', 'pushown', 'appendn', 'appendown', 'insert', 'insert', 'inserts', 'inserts',
                       'insertn', 'insertown', 'setat', 'setat', 'at', 'substr', 'clear', 'copy', 'copy', 'swap', 'move'])
        t = text(r, self.alpha, 4)
        o = self.ops.append
        if op == 'set':
            self.set(d, t)
        elif op == 'setn':
            o('setn.%s %d %d %d' % (r.choice('pc'), d, n, cp))
            s[d] = chr(cp) * n
        elif op == 'append':
            o('append.%s %d %s' % (r.choice('pc'), d, hx(t)))
            s[d] += t
        elif op == 'pluseq':
            o('pluseq %d %d' % (d, a))
            s[d] += s[a]
        elif op == 'cat':
            o('cat %d %d %d' % (d, a, b))
            s[d] = s[a] + s[b]
        elif op == 'cats':
            o('cats %d %d %s' % (d, a, hx(t)))
            s[d] = s[a] + t
        elif op == 'push':
            o('push %d %d' % (d, cp))
            s[d] += chr(cp)
        elif op == 'appendn':
            o('appendn.%s %d %d %d' % (r.choice('pc'), d, n, cp))
            s[d] += chr(cp) * n
        elif op in ('pushown', 'appendown', 'insertown'):
            if not L:
                return
            k = r.randrange(L)
            if op == 'pushown':
                o('pushown %d %d' % (d, k))
                s[d] += s[d][k]
            elif op == 'appendown':
                o('appendown %d %d %d' % (d, n, k))
                s[d] += s[d][k] * n
            else:
                pos = r.randint(0, L)
                o('insertown %d %d %d %d' % (d, pos, n, k))
                s[d] = s[d][:pos] + s[d][k] * n + s[d][pos:]
        elif op == 'insert':
            o('insert %d %d %s' % (d, pos, hx(t)))
            if pos <= L:
                s[d] = s[d][:pos] + t + s[d][pos:]
        elif op == 'inserts':
            o('inserts %d %d %d' % (d, pos, a))
            if pos <= L:
                s[d] = s[d][:pos] + s[a] + s[d][pos:]
        elif op == 'insertn':
            o('insertn %d %d %d %d' % (d, pos, n, cp))
            if pos <= L:
                s[d] = s[d][:pos] + chr(cp) * n + s[d][pos:]
        elif op == 'setat':
            o('setat.%s %d %d %d' % (r.choice('aibr'), d, pos, cp))
            if pos < L:
                s[d] = s[d][:pos] + chr(cp) + s[d][pos + 1:]
        elif op == 'at':
            o('at.%s %d %d' % (r.choice('mk'), d, pos))
        elif op == 'substr':
            q, m = r.randint(0, len(s[a]) + 1), r.choice([-1, 0, 1, 2, 3, 50])
            o('substr %d %d %d %d' % (d, a, q, m))
            if q <= len(s[a]):
                s[d] = s[a][q:] if m < 0 else s[a][q:q + m]
        elif op == 'clear':
            o('clear %d' % d)
            s[d] = ''
        elif op == 'copy':
            o('copy.%s %d %d' % (r.choice('ck'), d, a))
            s[d] = s[a]
        elif op == 'swap':
            o('swap %d %d' % (d, a)) if d != a else None
            s[d], s[a] = s[a], s[d]
        elif op == 'move':
            o('move.%s %d %d' % (r.choice('ck'), d, a))
            s[d] = s[a]
            if d != a:
                self.set(a, t)


def model_tests(c, cfg='MCStringsEmit.cfg'):
    m = c.model('MCStrings', cfg, workers=1, name='MCStrings (emits one test per transition)')
    hs = []
    for t in c.emitted(m.out):
        h = []
        for e in t:
            op = e['op']
            f = {'set': ['d', 'text'], 'append': ['d', 'text'], 'setn': ['d', 'n', 'cp'], 'pluseq': ['d', 'a'], 'copy': ['d', 'a'], 'swap': ['d', 'a'], 'cat': ['d', 'a', 'b'],
                 'push': ['d', 'cp'], 'pushown': ['d', 'pos'], 'appendn': ['d', 'n', 'cp'], 'appendown': ['d', 'n', 'pos'], 'insert': ['d', 'pos', 'text'],
                 'inserts': ['d', 'pos', 'a'], 'insertn': ['d', 'pos', 'n', 'cp'], 'insertown': ['d', 'pos', 'n', 'k'], 'setat': ['d', 'pos', 'cp'],
                 'at': ['d', 'pos'], 'substr': ['d', 'a', 'pos', 'n'], 'clear': ['d']}[op]
            if op in ('swap',) and e['d'] == e['a']:
                op, f = 'copy', ['d', 'a']
            how = {'set': '.c', 'append': '.c', 'setat': '.' + 'aibr'[len(hs) % 4], 'appendn': '.' + 'pc'[len(hs) % 2], 'setn': '.' + 'pc'[len(hs) % 2]}.get(op, '')
            h.append(op + how + ' ' + ' '.join(cps(e[k]) if k == 'text' else str(e[k]) for k in f))
        hs.append(h)
    c.notes['tests_from_model_transitions'] = len(hs)
    return hs


def finish(c, exe, hs, corrupt, neg=-1):
    ev = c.run_histories(exe, hs)
    c.validate('TStrings', ev, scripts=hs, rerun=lambda k: c.run_histories(exe, [hs[k]], name='again')[0])
    for k in (len(hs) // 2, len(hs) - 1):
        c.sample({'script': hs[k][:12], 'events': ev[k][:3]})
    c.negative_control('TStrings', ev[neg], corrupt)
    c.assumptions.append('bytes are read back with the driver\'s own UTF-8 decoder; out-of-bounds reads are made visible by AddressSanitizer and exact-size C strings')


def c01(c):
    r = c.rng()
    c.model('MCUtf8', name='MCUtf8 (structure, decoding and encoding agree on all byte sequences over the class boundary bytes)')
    m = c.model('MCUtf8', 'MCUtf8Emit.cfg', workers=1, name='MCUtf8 (emits one test per byte sequence)')
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    hs, cur = [], []
    hows = ['c', 's', 'l', 'append', 'insert', 'pluseq']

    def add(op):
        cur.append(op)
        if len(cur) >= 60:
            hs.append(list(cur))
            cur.clear()
    for k, t in enumerate(tests):
        b = bytes(t['bs'])
        if not (t['ok'] or not t['st']):
            continue
        add('build.%s %s' % (hows[k % 6], hx(b)))
        if len(b) <= 3:
            add('char.%s %s' % (['c', 's', 'ac', 'as', 'l'][k % 5], hx(b)))
    # well-formed texts, whole and cut at every byte
    for k in range(150 if c.quick else 1500):
        t = ''.join(chr(r.choice(CPS) if r.random() < 0.7 else r.choice([r.randint(1, 0x7f), r.randint(0x80, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff)]))
                    for _ in range(r.choice([1, 2, 5, 12, 30])))
        b = t.encode()
        add('build.%s %s' % (r.choice(hows), hx(b)))
        if '\n' not in t:
            add('build.in %s' % hx(b))
        for _ in range(2):
            q = bytearray(b)
            x = r.random()
            if x < 0.4:
                q = q[:r.randint(0, len(q))]
            elif x < 0.7:
                q[r.randrange(len(q))] = r.choice([0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xf8, 0xff, 0x41, 0xfc, 0xfe])
            elif x < 0.85:
                del q[r.randrange(len(q))]
            else:
                q.insert(r.randint(0, len(q)), r.choice([0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xff]))
            if b'\0' in q:
                continue
            add('build.%s %s' % (r.choice(hows), hx(q)))
    # long texts, of one kind of character and of all kinds
    for n in [63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 400, 511, 513, 1023, 1025, 2049] + ([4097, 9000] if c.quick else [4095, 4096, 4097, 8191, 8193, 16385, 32769]):
        for alpha in ([97], [0xe9, 97], [0x20ac], [0x1f600], CPS):
            if n > 600 and alpha != CPS and c.quick and r.random() < .6:
                continue
            b = ''.join(chr(r.choice(alpha)) for _ in range(n)).encode()
            add('build.%s %s' % (r.choice(hows), hx(b)))
            cut = bytearray(b)
            if r.random() < .5 and len(alpha) > 2:
                cut[-1 - r.randint(0, 3)] = 0xff
                add('build.%s %s' % (r.choice(hows), hx(cut)))
    # one character of every class: every cut and every wrong byte at every place
    for cp in [0x41, 0xe9, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
        b = chr(cp).encode()
        for pre in (b'', b'x' * 40):
            for k in range(len(b) + 1):
                add('build.%s %s' % (r.choice(hows), hx(pre + b[:k])))
                if not pre and k:
                    for how in ('c', 's', 'ac', 'as', 'l'):
                        add('char.%s %s' % (how, hx(b[:k])))
            for k in range(len(b)):
                for x in (0x41, 0x80, 0xc3, 0xe2, 0xf1, 0xff, 0xf8):
                    q = bytearray(b)
                    q[k] = x
                    add('build.%s %s' % (r.choice(hows), hx(pre + q)))
                    if not pre:
                        add('char.%s %s' % (r.choice(['c', 's', 'ac', 'as', 'l']), hx(q)))
    # code points
    if c.quick:
        add('codes 1 2303 1')
        for v in [0x7ff, 0xfff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]:
            add('codes %d %d 1' % (v - 70, v + 70))
        for k in range(60):
            lo = r.randint(0x800, 0x10ffff)
            add('codes %d %d %d' % (lo, lo + 4000, r.choice([63, 64, 61, 127])))
        for k in range(17):
            add('codes %d %d 251' % (k * 65536, k * 65536 + 65535))
    else:
        for lo in range(0, 0x110000, 2048):
            add('codes %d %d 1' % (lo, lo + 2047))
    hs.append(list(cur))
    exe = c.build('strings.cpp')

    def corrupt(h):
        e = [x for x in h if x['op'] == 'codes'][-1]
        e['out'][0][-1] ^= 1
    finish(c, exe, hs, corrupt)


def c02(c):
    r = c.rng()
    c.model('MCStrings', name='MCStrings (laws of editing, searching and order)')
    hs = model_tests(c)
    for k in range(260 if c.quick else 2500):
        alpha = r.choice([[97, 98], [97, 0x20ac], [0xe9, 0x1f600, 97], CPS, CPS])
        m = Shadow(r, alpha, r.choice([8, 20, 60]))
        for d in (1, 2, 3):
            m.set(d, text(r, alpha, 6))
        while len(m.ops) < 26:
            m.step()
        hs.append(m.ops)
    # long strings: doubled and grown past all sizes that allocators and buffers like, then edited everywhere
    for k in range(10 if c.quick else 60):
        top = [70, 130, 260, 300, 520, 1030, 1100, 2060, 3000, 4200][k % 10]
        alpha = r.choice([[97, 98], [0xe9, 0x1f600, 97], CPS])
        m = Shadow(r, alpha, top)
        for d in (1, 2, 3):
            m.set(d, ''.join(chr(r.choice(alpha)) for _ in range(r.choice([3, 17, 40]))))
        while len(m.s[1]) < top:
            m.ops.append('pluseq 1 1') if len(m.s[1]) < top // 3 else m.ops.append('pluseq 1 2')
            m.s[1] += m.s[1] if len(m.s[1]) < top // 3 else m.s[2]
            if len(m.s[1]) >= top // 3 and len(m.s[2]) < top // 12:
                m.ops.append('copy.k 2 1')
                m.s[2] = m.s[1]
        m.maxlen = 2 * top
        end = len(m.ops) + 14
        while len(m.ops) < end:
            m.step()
        L = len(m.s[1])
        t = text(r, alpha, 90)
        m.ops += ['appendn.%s 1 %d %d' % (r.choice('pc'), r.choice([65, 129, 257, 600]), r.choice(alpha)), 'insertn 1 %d %d %d' % (r.randint(0, L), r.choice([64, 255, 300]), r.choice(alpha)),
                  'insert 1 %d %s' % (r.randint(0, L), hx(t)), 'substr 3 1 %d %d' % (L // 3, r.choice([-1, 64, 256, 1000])), 'inserts 1 %d 1' % r.randint(0, L), 'insertown 1 %d 70 %d' % (r.randint(0, L), r.randint(0, L)),
                  'setn.c 2 %d %d' % (r.choice([66, 300, 1025]), r.choice(alpha)), 'set.%s 3 %s' % (r.choice('csavx'), hx(''.join(chr(r.choice(alpha)) for _ in range(r.choice([80, 300, 1100]))))),
                  'cat 2 2 3', 'move.c 1 2', 'set.c 2 ' + hx('x'), 'setat.a 1 %d 98' % (L // 4)]
        hs.append(m.ops)
    exe = c.build('strings.cpp')

    def corrupt(h):
        e = h[-1]
        e['s'][1] = e['s'][1] + [97]
    finish(c, exe, hs, corrupt)


def c03(c):
    r = c.rng()
    c.model('MCStrings', name='MCStrings (laws of editing, searching and order)')
    hs = []
    # all small texts and needles over two characters, including prefixes and overlaps
    for alpha in ([97, 0x20ac], [97, 98], [0xe9, 0xe8]):
        hay = [''.join(map(chr, t)) for n in range(0, 6 if alpha[0] == 97 and alpha[1] != 98 else 5) for t in itertools.product(alpha, repeat=n)]
        ned = [''.join(map(chr, t)) for n in range(0, 4) for t in itertools.product(alpha, repeat=n)]
        for t in hay:
            h = ['set.c 1 ' + hx(t)]
            for n in ned:
                h += ['set.c 2 ' + hx(n), 'query 1 2', 'query 2 1'] if len(t) < 4 else ['set.c 2 ' + hx(n), 'query 1 2']
            hs.append(h)
            if len(t) <= 4:
                hs.append(['set.s 1 ' + hx(t), 'subs 1'])
    for k in range(150 if c.quick else 1500):
        alpha = r.choice([[97, 98], [97, 0x20ac, 0xe9], [0x1f600, 0x1f601], CPS, [0x80, 0xc280, 0x10000, 0xffff, 0xe000, 0xd7ff], [0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000]])
        t = text(r, alpha, 14)
        h = ['set.c 1 ' + hx(t), 'subs 1'] if k % 5 == 0 else ['set.c 1 ' + hx(t)]
        for _ in range(6):
            x = r.random()
            if t and x < 0.6:
                a = r.randint(0, len(t))
                n = t[a:a + r.choice([1, 2, 3, 5])]
                if x < 0.2:
                    n += chr(r.choice(alpha))
            else:
                n = text(r, alpha, 3)
            h += ['set.s 2 ' + hx(n), 'query 1 2', 'query 2 1', 'query 1 1']
        hs.append(h)
    # long texts: found early, late, at the very end, overlapping, almost
    for k in range(40 if c.quick else 400):
        n = r.choice([33, 64, 65, 100, 128, 129, 255, 256, 257, 300])
        alpha = r.choice([[97, 98], [97, 0x20ac, 0xe9], [97], CPS, list(range(97, 123))])
        t = ''.join(chr(r.choice(alpha)) for _ in range(n))
        if k % 4 == 0:
            p = ''.join(chr(r.choice(alpha)) for _ in range(r.choice([1, 2, 5, 17])))
            t = (p * n)[:n]
        h = ['set.c 1 ' + hx(t)]
        for _ in range(2):
            w = r.choice([1, 2, 5, 9, 17, 33, 64, 70, 130])
            a = r.choice([0, max(0, n - w), r.randint(0, n)])
            q = t[a:a + w] or 'a'
            if r.random() < .4:
                p = r.randrange(len(q))
                q = q[:p] + chr(r.choice(alpha)) + q[p + 1:]
            h += ['set.s 2 ' + hx(q), 'query 1 2', 'set.s 3 ' + hx(t[:n - 1] + chr(r.choice(alpha))), 'query 1 3']
        hs.append(h)
    for k in range(12 if c.quick else 120):
        n = r.choice([40, 70, 260, 520, 1030]) if k % 2 else r.choice([600, 1500, 2500, 4500])
        alpha = r.choice([list(range(97, 123)), CPS, [97, 98, 0x20ac, 0x1f600]])
        t = ''.join(chr(r.choice(alpha)) for _ in range(n))
        h = ['set.c 1 ' + hx(t)] + (['subs 1'] if n < 1100 else [])
        for _ in range(5):
            w = min(n, r.choice([1, 3, 8, 20, 66, 260, n // 2, n - 1, n]))
            a = r.choice([0, n - w, r.randint(0, n - w)])
            q = t[a:a + w]
            if r.random() < .4:
                p = r.choice([0, w - 1, r.randrange(w)])
                q = q[:p] + chr(r.choice(alpha)) + q[p + 1:]
            h += ['set.s 2 ' + hx(q), 'look 1 2 ' + ' '.join(str(x) for x in sorted({0, 1, a, a + 1, max(0, a - 1), a + w - 1, a + w, n - 1, n, n + 1, r.randint(0, n), 255, 256, 257} - {-1})), 'look 2 1 0 1 %d' % (w // 2)]
        hs.append(h)
    # order of every pair of boundary characters, also behind a common prefix
    bnd = [0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 97]
    for x in bnd:
        h = ['set.c 1 ' + hx('ab' + chr(x)), 'set.c 3 ' + hx(chr(x))]
        for y in bnd:
            h += ['set.c 2 ' + hx('ab' + chr(y)), 'query 1 2', 'set.c 2 ' + hx(chr(y) + 'a'), 'query 3 2', 'query 2 3']
        hs.append(h)
    exe = c.build('strings.cpp')

    def corrupt(h):
        e = [x for x in h if x['op'] == 'query'][-1]
        e['find'][0] = e['find'][0] + 1
    finish(c, exe, hs, corrupt)
