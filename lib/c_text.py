"""C04 characters, C05/C06 formatting, C07 builders, C26 text utilities."""
from vf import *
from c_strings import hx, cps, text, CPS


def c04(c):
    r = c.rng()
    c.model('MCChars', name='MCChars (coherence of the tables, character by character)')
    hs = [['map %s %s' % (f, v)] for f in ('upper', 'lower') for v in ('code', 'char', 'string')] + [['class']]
    near = [97, 65, 122, 90, 0xdf, 0x131, 0x130, 0x149, 0x1e9e, 0x212a, 0x212b, 0x3b1, 0x3c2, 0x3c3, 0x391, 0x430, 0x44f, 0x410, 0x100, 0x137, 0x138, 0x177, 0x178, 0x1f00,
            0x1f7d, 0x1fb3, 0x1fe5, 0x1fec, 0x20, 0x31, 0x20ac, 0x10400, 0x1f600, 0x450, 0xe9, 0x1ffb, 0x1ff8]
    cur = []
    for k in range(200 if c.quick else 4000):
        t = ''.join(chr(r.choice(near) if r.random() < .6 else r.choice([r.randint(0x41, 0x7a), r.randint(0x100, 0x180), r.randint(0x380, 0x460), r.randint(0x1f00, 0x1fff)]))
                    for _ in range(r.choice([0, 1, 3, 10])))
        cur.append('str %s %s' % (r.choice(['upper', 'lower']), hx(t)))
        if len(cur) == 20:
            hs.append(cur)
            cur = []
    for n in [63, 65, 129, 255, 257, 513, 1025, 4097] + ([] if c.quick else [64, 128, 256, 512, 8193, 20000]):
        for f in ('upper', 'lower'):
            hs.append(['str %s %s' % (f, hx(''.join(chr(r.choice(al)) for _ in range(n)))) for al in (near, near[:4], [r.choice(near)])])
    exe = c.build('chars.cpp', flags=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'])
    ev = c.run_histories(exe, hs, per_history=60)
    c.validate('TChars', ev, scripts=hs, rerun=lambda k: c.run_histories(exe, [hs[k]], name='again', per_history=60)[0])
    c.sample({'script': hs[8][:5], 'events': ev[8][:5]})
    c.notes['code_points'] = 'all of 0..0x10FFFF for every function, as code point; as character and string all but 0 and surrogates'

    def drop(h):
        h[0]['pairs'].pop()
    c.negative_control('TChars', ev[0], drop, label='missing pair')

    def dig(h):
        h[0]['digit'].append(0x966 - 1)
    c.negative_control('TChars', ev[6], dig, label='extra digit')


VALS_I = [0, 1, -1, 7, -42, 1234567, -2147483648, 2147483647]
VALS_F = [0.0, 1.5, -2.25, 3.14159, 1e6, 123456.789, -0.001, 1e-7, 99999.9999999, 0.5, -0.0, 1e60, -2.5e80, 1.7976931348623157e308, 5e-324, 123456789012345678.0]


def arg(r, kinds='stcdiulmfbwn', alpha=CPS):
    k = r.choice(kinds)
    if k == 'i':
        return 'i:%d' % r.choice(VALS_I)
    if k == 'u':
        return 'u:%d' % r.choice([0, 5, 4294967295])
    if k == 'l':
        return 'l:%d' % r.choice([0, -5, 9223372036854775807, -9223372036854775808])
    if k == 'm':
        return 'm:%d' % r.choice([0, 18446744073709551615, 77])
    if k == 'f':
        return 'f:%r' % r.choice(VALS_F)
    if k == 'b':
        return 'b:%d' % r.randint(0, 1)
    return k + ':' + hx(text(r, alpha, r.choice([0, 2, 5])))[1:]


def fspec(r, fill=True):
    s = ''
    x = r.random()
    if x < .45:
        s += chr(r.choice([32, 42, 48, 45, 60, 62, 94, 0x20ac, 0xe9, 0x1f600, 58, 46, 53, 123, 102, 115])) if fill else ''
        s += r.choice('<>^')
    elif x < .7:
        s += r.choice('<>^')
    if r.random() < .75:
        s += str(r.choice([0, 1, 2, 3, 5, 7, 8, 12, 20, 41]))
    if r.random() < .4:
        s += '.' + str(r.choice([0, 1, 2, 3, 6, 7, 9, 12]))
    if r.random() < .6:
        s += r.choice('sdf')
    return s


NUM = re.compile(r'^-?[0-9]+(\.[0-9]+)?$')


def template(r, n, specs):
    t = ''
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        x = r.random()
        if x < .3:
            t += text(r, CPS, 4).replace('{', '').replace('}', '')
        elif x < .4:
            t += r.choice(['{{', '}}', '{{}}'])
        elif x < .6:
            t += '{}'
        elif x < .75 and n:
            t += '{%d}' % r.choice([0, n - 1, n, r.randint(0, n - 1), r.randint(0, n + 1)])
        elif x < .95:
            t += '{%s:%s}' % ('' if r.random() < .6 or not n else str(r.randint(0, n - 1)), fspec(r))
        else:
            t += r.choice(['{', '}', '{0', '}}}', '{{{', '{:', '{{}', '{}}', '{99999999999999999999999}', '{18446744073709551616}', '{4294967296}', '{00}', '{01}'])
    return t


def finish(c, exe, hs, corrupt, neg):
    ev = c.run_histories(exe, hs)
    c.validate('TText', ev, scripts=hs, rerun=lambda k: c.run_histories(exe, [hs[k]], name='again')[0])
    for k in (0, len(hs) // 2, len(hs) - 1):
        c.sample({'script': hs[k][:6], 'events': (ev[k] or [])[:3]})
    for k in range(len(hs) - 1, -1, -1):
        if ev[k] and neg(ev[k]):
            c.negative_control('TText', ev[k], corrupt)
            return
    raise ToolError('no history for the negative control')


def bundle(ops, n=40):
    return [ops[k:k + n] for k in range(0, len(ops), n)]


def okfmt(h):
    return sum(1 for e in h if not e['ex'] and e['out']) > 5


def badfmt(h):
    for e in h:
        e['out'].append(97)


STD14 = ['-std=c++14']


def fmt_emit(c):
    c.model('MCFormat', name='MCFormat (laws of templates and fields)')
    m = c.model('MCFormat', 'MCFormatEmit.cfg', workers=1, name='MCFormat (emits every short template and specification)')
    return c.emitted(m.out)


def c05(c):
    r = c.rng()
    tests = fmt_emit(c)
    ops = []
    for t in tests:
        if not t['q']:
            for n in range(3):
                ops.append('fmt %s' % cps(t['t']) + ''.join(' ' + a for a in ['s:78e282ac', 'c:79'][:n]))
    c.notes['tests_from_model_transitions'] = len(ops)
    if c.quick and len(ops) > 9000:
        ops = r.sample(ops, 9000)
    # every kind of argument, alone and in pairs
    for a in 'stcdiulmfbwn':
        for b in 'stcdiulmfbwn':
            ops.append('fmt %s %s %s' % (hx('{}|{}|{1}|{0}{{'), arg(r, a), arg(r, b)))
        ops.append('fmt %s %s' % (hx('{}|{:>9}|{0}'), arg(r, a)))
    for k in range(2500 if c.quick else 40000):
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        ops.append('fmt %s' % hx(template(r, n, True)) + ''.join(' ' + arg(r) for _ in range(n)))
    # long argument lists (indices of two digits), long templates, long values
    for k in range(260 if c.quick else 3000):
        n = r.choice([7, 10, 11, 11, 12, 12, 17, 33])
        t = ''
        for _ in range(r.choice([1, 3, 8, 14])):
            j = r.choice([0, 1, 9, 10, 11, n - 1, n - 1, r.randint(0, n - 1), r.randint(0, n - 1)])
            t += '{%d}' % min(j, n - 1) if r.random() < .6 else r.choice(['{}', '{:>4}', '{%d:^7}' % r.randint(0, n - 1), '|', '{{', 'é'])
        if r.random() < .15:
            t += r.choice(['{%d}' % n, '{%d}' % (n + 7), '{100}', '{010}', '{%d' % (n - 1)])
        if r.random() < .1:
            t = '{}' * r.choice([n - 1, n, n, n + 1])
        ops.append('fmt %s' % hx(t) + ''.join(' ' + arg(r) for _ in range(n)))
    for k in range(30 if c.quick else 300):
        n = r.choice([1, 2, 3, 12])
        t = ''
        want = r.choice([60, 130, 260, 520, 1100]) if k % 3 else r.choice([2100, 4200])
        while len(t) < want:
            t += r.choice([text(r, CPS, 70).replace('{', '').replace('}', ''), '{%d}' % r.randint(0, n - 1), '{{', '}}', 'x' * r.choice([1, 30, 260])])
        ops.append('fmt %s' % hx(t) + ''.join(' ' + arg(r) for _ in range(n)))
        v = ''.join(chr(r.choice(CPS)) for _ in range(r.choice([64, 129, 257, 700, 1500, 5000])))
        ops.append('fmt %s s:%s %s' % (hx(r.choice(['{}', '{0}{1}{0}', 'a{}b{}', '{1}{0:>20}'])), hx(v)[1:], arg(r)))
    # cut and disturbed templates: refusals everywhere
    for k in range(600 if c.quick else 8000):
        n = r.choice([1, 2, 3])
        t = template(r, n, True)
        q = r.randint(0, len(t))
        t = t[:q] + r.choice(['', '{', '}', '{}', '{2}', '{3}']) + t[q + r.randint(0, 1):]
        ops.append('fmt %s' % hx(t) + ''.join(' ' + arg(r) for _ in range(n)))
    exe = c.build('text.cpp', extra=STD14)
    finish(c, exe, bundle(ops), badfmt, okfmt)


def c06(c):
    r = c.rng()
    tests = fmt_emit(c)
    ops = []
    vals = ['s:', 's:61', 'c:61e282ac6161', 'd:332e313431', 'i:-7', 'f:2.5', 'b:1', 'u:12', 's:' + hx('€é😀')[1:]]
    k = 0
    for t in tests:
        if not t['t']:
            s = ''.join(map(chr, t['q']))
            for v in (vals if c.tier == 'thorough' else (vals[k % 9], vals[(k + 3) % 9], vals[(k + 5) % 9])):
                ops.append('fmt %s %s' % (hx('{:' + s + '}'), v))
            k += 1
    c.notes['tests_from_model_transitions'] = len(ops)
    if c.quick and len(ops) > 9000:
        ops = r.sample(ops, 9000)
    # all alignments, widths around the length of the value, precisions, fills
    for al in ['', '<', '>', '^', '*<', '0>', '€^', '😀>', ':^', '<<', '>^', '5>', '.<']:
        for w in ['', '0', '1', '4', '5', '6', '7', '17', '18', '19', '21']:
            for pr in ['', '.0', '.1', '.5', '.6', '.7', '.15']:
                for ty in ['', 's', 'd', 'f']:
                    if c.quick and r.random() < .6:
                        continue
                    v = r.choice(['f:%r' % r.choice(VALS_F), 'i:%d' % r.choice(VALS_I), 'd:' + hx(r.choice(['1.23456789', '-3', '0.5', '12.']))[1:]])
                    if ty != 'f' and r.random() < .4:
                        v = r.choice(vals)
                    i = r.choice(['', '', '0'])
                    ops.append('fmt %s %s' % (hx('%s{%s:%s%s%s%s}%s' % (r.choice(['', 'é']), i, al, w, pr, ty, r.choice(['', '|']))), v))
    # wide fields, long values, high precisions
    for w in [62, 63, 64, 65, 127, 128, 129, 199, 255, 256, 257, 300, 511, 513, 999, 1000, 1001, 1023, 1025, 2049, 4097]:
        for al in ('<', '>', '^', '*^', '0>', '€<', '😀^'):
            v = r.choice(['s:', 's:61', 'i:-42', 'f:2.5', 'c:' + hx('é€')[1:], 's:' + hx('y' * r.choice([w - 1, w, w + 1, w // 2]))[1:]])
            ops.append('fmt %s %s' % (hx('[{:%s%d%s}]' % (al, w, r.choice(['', 's', 'd']))), v))
        ops.append('fmt %s %s' % (hx('{:.%df}|' % w), r.choice(['f:2.5', 'f:-0.125', 'i:7', 'd:' + hx('1.' + '123456789' * 40)[1:]])))
        ops.append('fmt %s %s' % (hx('{:>%d.%df}|' % (w + 9, w)), r.choice(['f:2.5', 'd:' + hx('-3.' + '98' * 150)[1:]])))
    for k in range(1500 if c.quick else 30000):
        n = r.choice([1, 2, 3])
        t = ''.join('{:%s}%s' % (fspec(r), r.choice(['', ' ', 'é'])) for _ in range(n))
        ops.append('fmt %s' % hx(t) + ''.join(' ' + arg(r) for _ in range(n)))
    exe = c.build('text.cpp', extra=STD14)
    finish(c, exe, bundle(ops), badfmt, okfmt)


def c07(c):
    r = c.rng()
    c.model('MCBuilder', name='MCBuilder (concatenation, independence)')
    m = c.model('MCBuilder', 'MCBuilderEmit.cfg', workers=1, name='MCBuilder (emits one test per transition)')
    hs = []
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    if c.quick and len(tests) > 4000:
        tests = r.sample(tests, 4000)
    hows = ['.x', '.c', '.m']
    for k, t in enumerate(tests):
        h = []
        for e in t:
            if e['op'] in ('copy', 'move'):
                h.append('%s %d %d' % (e['op'], e['d'], e['a']))
            elif e['op'] == 'drop':
                h.append('drop %d' % e['d'])
            else:
                h.append('%s%s %d %s' % (e['op'], hows[(k + len(h)) % 3] if e['op'] in ('new', 'newf') else '', e['d'], cps(e['text'])) +
                         ''.join(' s:' + cps(a)[1:] for a in e['args']))
        hs.append(h)
    for k in range(250 if c.quick else 4000):
        alive = set()
        h = []
        big = r.random() < .2
        while len(h) < 24:
            d, a = r.randint(1, 3), r.randint(1, 3)
            op = r.choice(['new', 'newf', 'append', 'append', 'appendf', 'line', 'line', 'linef', 'copy', 'move', 'drop'])
            t = text(r, CPS, 300 if big else 6)
            if op == 'new':
                if r.random() < .2:
                    t = r.choice('aZ{} 0')
                h.append('new.%s %d %s' % (r.choice(['x', 'c', 'm', 'h', 'mh']), d, hx(t)))
                alive.add(d)
            elif op in ('newf', 'appendf', 'linef'):
                if op != 'newf' and d not in alive:
                    continue
                n = r.choice([1, 1, 2, 3])
                args = [arg(r, 'stcdiulmbwn') for _ in range(n)]
                t = r.choice(['{}', '{}', 'a{}b{{', '{0}{0}', '{:>7}', 'x', '{5}', '{', '}', 'é{}€'])
                h.append('%s%s %d %s %s' % (op if op == 'newf' else op[:-1], '.' + r.choice('xm') if op == 'newf' else '', d, hx(t), ' '.join(args)))
                if op == 'newf' and t not in ('{5}', '{', '}'):
                    alive.add(d)
            elif op in ('append', 'line'):
                if d in alive:
                    h.append('%s %d %s' % (op, d, hx(r.choice([t, t, '{', '{}', '%s', '\n', '']))))
            elif op in ('copy', 'move'):
                if a in alive and a != d:
                    h.append('%s %d %d' % (op, d, a))
                    alive.add(d)
                    if op == 'move':
                        alive.discard(a)
            elif r.random() < .3:
                h.append('drop %d' % d)
                alive.discard(d)
        hs.append(h)
    # large builders
    for k in range(12 if c.quick else 100):
        piece = lambda: ''.join(chr(r.choice(r.choice([CPS, [97], [0x1f600, 97]]))) for _ in range(r.choice([1, 63, 64, 65, 128, 255, 257, 400])))
        h = ['new.%s 1 %s' % (r.choice('xcmh'), hx(piece()))]
        top = [200, 600, 1200, 2500, 5000, 9000][k % 6]
        size = 0
        while size < top and len(h) < 60:
            t = piece()
            size += len(t)
            if r.random() < .2:
                h.append('append 1 %s s:%s' % (hx('{}'), hx(t)[1:]))
            else:
                h.append('%s 1 %s' % (r.choice(['append', 'line']), hx(t)))
        h += ['copy 2 1', 'append 2 ' + hx('end'), 'line 1 ' + hx(''), 'move 3 1', 'append 3 ' + hx('€'), 'line 2 %s %s' % (hx('{11}{10}{}' ), ' '.join(arg(r) for _ in range(12)))]
        hs.append(h)
    exe = c.build('text.cpp', extra=STD14)

    def corrupt(h):
        k = [j for j in range(3) if h[-1]['b'][j]][0]
        h[-1]['b'][k][0].append(10)
    finish(c, exe, hs, corrupt, lambda h: any(h[-1]['b']))


def c26(c):
    r = c.rng()
    c.model('MCTextUtil', name='MCTextUtil (laws of searching, splitting, unescaping)')
    m = c.model('MCTextUtil', 'MCTextUtilEmit.cfg', workers=1, name='MCTextUtil (emits every short text)')
    ops = []
    for t in c.emitted(m.out):
        if t['e']:
            ops.append('unesc ' + cps(t['e']))
            if len(t['e']) < 4:
                ops.append('space ' + cps(t['e']))
        else:
            ops.append('kmp %s %s' % (cps(t['p']), cps(t['t'])))
            if not t['p']:
                ops.append('split %s 97' % cps(t['t']))
                ops.append('repeat %s %d' % (cps(t['t']), r.randint(0, 4)))
    c.notes['tests_from_model_transitions'] = len(ops)
    for k in range(1500 if c.quick else 20000):
        al = r.choice([[97, 98], [97, 98, 99], [97, 0x20ac, 0xe9]])
        p = text(r, al, r.choice([2, 4, 9]))
        t = text(r, al, r.choice([4, 12, 30]))
        if r.random() < .5 and p:     # near misses: the pattern, one off, behind a repeated prefix
            q = list(p)
            if r.random() < .5:
                q[-1] = chr(r.choice(al))
            t = t + p[:r.randint(0, len(p))] + ''.join(q) + t[:3]
        ops.append('kmp %s %s' % (hx(p), hx(t)))
    # texts that make the scan fall back from any place of the pattern to any other: start, one deviating character, some later part
    sp = []
    for n in (5, 6, 7):
        for v in range(2 ** n):
            p = ''.join('ab'[v >> k & 1] for k in range(n))
            for j in range(n):
                for k in range(1, n):
                    sp.append((p, p[:j] + ('b' if p[j] == 'a' else 'a') + p[k:]))
    for p, t in (sp if c.tier == 'thorough' else r.sample(sp, 4500)):
        ops.append('kmp %s %s' % (hx(p), hx(t)))
    for k in range(600 if c.quick else 9000):
        p = ''.join(r.choice('aab') for _ in range(r.randint(1, 3))) * r.randint(2, 4) + r.choice(['', 'a', 'b', 'c'])
        t = ''.join(p[:r.randint(0, len(p))] + r.choice(['', 'a', 'b']) for _ in range(3)) + p[r.randint(0, 4):]
        ops.append('kmp %s %s' % (hx(p), hx(t)))
    # long ones
    for k in range(60 if c.quick else 800):
        al = r.choice([[97, 98], [97], [97, 98, 0x20ac], list(range(97, 123))])
        n = r.choice([63, 64, 65, 100, 128, 200, 256, 257, 400])
        t = ''.join(chr(r.choice(al)) for _ in range(n))
        if k % 3 == 0:
            t = (t[:r.choice([1, 2, 3, 7, 30])] * n)[:n]
        w = r.choice([1, 8, 16, 31, 33, 64, 65, 100, 130])
        a = r.choice([0, max(0, n - w), r.randint(0, n)])
        p = t[a:a + w]
        q = p[:-1] + chr(r.choice(al)) if p else p
        o = p[:len(p) // 2] + chr(r.choice(al)) + p[len(p) // 2 + 1:]
        ops += ['kmp %s %s' % (hx(x), hx(t)) for x in (p, q, o)]
    # long patterns that repeat themselves: far falls back
    for n in (127, 128, 129, 255, 256, 257, 300, 515):
        for u in ('a', 'ab', 'aab', 'abcde'):
            b = (u * n)[:n]
            for p, t in ((b + 'x', u * r.randint(1, 3) + b + 'x'), (b + 'x', b + u + 'y' + b[:-1] + 'x'), (b, b[:-1] + 'y' + b), (b, b[:-1] + 'y' + b[1:]), (b + 'x' + b, b + 'x' + b[:-2] + u * 2 + b + 'x' + b)):
                if r.random() < (.4 if c.quick else 1):
                    ops.append('kmp %s %s' % (hx(p), hx(t)))
    for n in [64, 65, 128, 129, 255, 256, 257, 600, 1025]:
        for d in (44, 59):
            ops.append('split %s %d' % (hx(''.join(chr(r.choice([44, 97, 0x20ac, 98, 99])) for _ in range(n))), d))
            ops.append('split %s %d' % (hx(','.join('x' * r.choice([0, 1, 9, 70, 300]) for _ in range(min(n, 300))) + r.choice(['', ','])), d))
        ops.append('repeat %s %d' % (hx(r.choice(['a', 'é', '\u20acb', 'xyz'])), n))
        ops.append('repeat %s %d' % (hx('z' * n), r.choice([0, 1, 2, 5])))
        ops.append('unesc ' + hx(''.join(r.choice(['\\n', '\\u20ac', 'a', 'é', '\\"', '\\x', '\\\\', '\\u00e9']) for _ in range(n))))
        for pre, post in ((32, 97), (97, 32), (0x3000, 0x20ac)):
            m = r.choice([0, 1, n // 2, n - 1, n])
            ops.append('space ' + hx(chr(pre) * m + chr(post) * (n - m)))
        ops.append('space ' + hx(''.join(chr(r.choice([48, 57, 0x660])) for _ in range(n))))
        ops.append('space ' + hx('4' * (n - 1) + r.choice('a4') ))
    SP = [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2003, 0x2028, 0x202f, 0x205f, 0x3000]
    NSP = [97, 0x200b, 0x180e, 0xfeff, 0x20ac, 0x30, 0x663, 0x84, 0x1f600]
    DG = [48, 53, 57, 0x660, 0x969, 0xff19, 0x1049]
    for k in range(700 if c.quick else 9000):
        ops.append('space ' + hx(text(r, r.choice([SP, SP + NSP, NSP, DG, DG + [97], [48, 57], [47, 48, 57, 58], [0x65f, 0x660, 0x669, 0x66a]]), r.choice([1, 3, 8]))))
        t = text(r, r.choice([[44, 97], [44], [44, 0x20ac, 10], [10, 97, 44]]), r.choice([0, 3, 9]))
        ops.append('split %s %d' % (hx(t), r.choice([44, 10, 97, 59])))
        ops.append('repeat %s %d' % (hx(text(r, CPS, 4)), r.choice([0, 1, 2, 3, 10, 40])))
        b = ''
        for _ in range(r.choice([1, 2, 4, 7])):
            x = r.random()
            if x < .35:
                b += '\\' + r.choice('"?\\/abfnrtv')
            elif x < .55:
                b += '\\u' + r.choice(['0041', '20ac', '20AC', '00e9', 'FFFD', '07ff', '0800', '007f', '0080', 'd7fF', 'E000', '0001'])
            elif x < .7:
                b += '\\u' + r.choice(['', '1', '12', '123', 'g000', '12g4', ' 041', '+041', '0x41', '-001', '00 1', '€'])
            elif x < .8:
                b += '\\' + r.choice('xyzUN0123€ ')
            else:
                b += r.choice(['a', '€', '\\', 'u0041', '"', '\n', 'n'])
        ops.append('unesc ' + hx(b))
    exe = c.build('text.cpp', extra=STD14)

    def corrupt(h):
        h[-1]['out'].append(97)
    finish(c, exe, bundle(ops), corrupt, lambda h: h[-1]['op'] == 'unesc')
