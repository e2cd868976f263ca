"""C08-C11: JSON texts, output, trees and documents against spec/JsonText.tla and spec/JsonTree.tla."""
from vf import *
from c_strings import hx

CH = [97, 98, 32, 34, 92, 47, 8, 9, 10, 12, 13, 1, 31, 127, 0xe9, 0x20ac, 0x1f600, 0x2028, 0xa0, 0x7b, 0x7d, 0x5b, 0x3a, 0x2c]
KEYS = ['', 'a', 'b', 'k"\\\n', 'é\U0001f600']


def rtext(r, n=None):
    return ''.join(chr(r.choice(CH)) for _ in range(r.choice([0, 1, 2, 3, 5, 9]) if n is None else n))


def rint(r):
    return r.choice([0, 1, -1, 7, -10, 123456789, 2**31 - 1, -2**31, 2**53 + 1, 2**63 - 1, -2**63, 10**18, r.randint(-2**63, 2**63 - 1)])


def rflt(r):
    return r.choice(['0.5', '-2.25', '3.0', '100000.0', '1000000.0', '-0.0', '1e10', '1e-10', '3.14159', '0.1', '123456.7', '1e-37', '3e38', '-1e30', '9.99999e5', '65536.0',
                     '%.6ge%d' % (r.uniform(1, 10), r.randint(-30, 30)), '%.3f' % r.uniform(-1e4, 1e4), '%d.0' % r.randint(-999999, 999999)])


def rtree(r, d, top=False):
    """tree as nested python: ('o', [(k, v)]) ('a', [v]) ('s', str) ('i', n) ('d', text) ('n',) ('t',) ('f',)"""
    x = r.random()
    if top or (d > 0 and x < .3):
        ks = []
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            k = r.choice(KEYS) if r.random() < .6 else rtext(r)
            if k not in ks:
                ks.append(k)
        return ('o', [(k, rtree(r, d - 1)) for k in ks])
    if d > 0 and x < .6:
        return ('a', [rtree(r, d - 1) for _ in range(r.choice([0, 1, 2, 3]))])
    if x < .75:
        return ('s', rtext(r))
    if x < .83:
        return ('i', rint(r))
    if x < .91:
        return ('d', rflt(r))
    return (r.choice('ntf'),)


def code(v):
    if v[0] == 'o':
        return ','.join(['o%d' % len(v[1])] + [hx(k) + ',' + code(x) for k, x in v[1]])
    if v[0] == 'a':
        return ','.join(['a%d' % len(v[1])] + [code(x) for x in v[1]])
    if v[0] == 's':
        return 's' + hx(v[1])[1:]
    if v[0] in 'id':
        return v[0] + str(v[1])
    return v[0]


def large(r, k):
    """trees with many members, many elements, long texts and keys, deep nesting"""
    out = []
    for _ in range(k):
        small = lambda: rtree(r, r.choice([0, 0, 0, 1]))
        keys = list(dict.fromkeys(rtext(r, r.choice([1, 2, 3])) for _ in range(400)))
        n = r.choice([33, 65, 129, 260])
        out += [('o', [(x, small()) for x in keys[:n]]), ('o', [('a', ('a', [small() for _ in range(r.choice([33, 70, 130, 300]))]))]),
                ('o', [('a', ('a', [('a', [('i', x)] * (x % 5)) for x in range(r.choice([9, 17, 40]))]))])]
        for m in (63, 64, 65, 127, 128, 255, 256, 257, 511, 513, r.randint(600, 1500), r.randint(1500, 3000)):
            s = rtext(r, m) if m < 600 else ''.join(chr(r.choice(CH)) if r.random() < .05 else r.choice('abc é') for _ in range(m))
            out.append(('o', [(s, ('s', s)), ('p', ('s', 'x' * m)), ('q', ('s', 'x' * (m - 1) + r.choice(['"', '\n', 'é', '\x01'])))]))
        p = 'k' * r.choice([31, 64, 128, 256])       # long keys that differ late, or are parts of each other
        lk = [p, p + '1', p + '2', p[:-1], p + '1' + p, p + '1' + p[:-1] + 'q', 'q' + p[1:]]
        r.shuffle(lk)
        out.append(('o', [(x, small()) for x in lk]))
        t = ('n',)
        for _ in range(r.choice([100, 110])):
            t = ('a', [t]) if r.random() < .5 else ('o', [(r.choice(KEYS), t)])
        out.append(('o', [('deep', t), ('b', small())]))
    return out


WS = ['', '', '', ' ', '\n', '\t\r ', '\xa0', '\u2003', '\x0b', '\u3000']


def quoted(r, s):
    out = '"'
    for c in s:
        x = r.random()
        n = ord(c)
        short = {34: '\\"', 92: '\\\\', 47: '\\/', 8: '\\b', 12: '\\f', 10: '\\n', 13: '\\r', 9: '\\t'}
        if n in short and (x < .7 or n in (34, 92)) and not (n in (34, 92) and x > .9):
            out += short[n]
        elif n < 32 or n in (34, 92) or x < .15:
            u = [n] if n < 0x10000 else [0xd800 + ((n - 0x10000) >> 10), 0xdc00 + ((n - 0x10000) & 0x3ff)]
            out += ''.join('\\u' + ('%04x' if r.random() < .5 else '%04X') % k for k in u)
        else:
            out += c
    return out + '"'


def written(r, v, ws=WS):
    w = lambda: r.choice(ws)
    if v[0] == 'o':
        ms = [w() + quoted(r, k) + w() + ':' + w() + written(r, x, ws) + w() for k, x in v[1]]
        if ms and r.random() < .2:
            ms.append(w() + quoted(r, r.choice(v[1])[0]) + ':' + written(r, rtree(r, 1), ws))
        return '{' + (','.join(ms) if ms else w()) + '}'
    if v[0] == 'a':
        return '[' + (','.join(w() + written(r, x, ws) + w() for x in v[1]) if v[1] else w()) + ']'
    if v[0] == 's':
        return quoted(r, v[1])
    if v[0] == 'i':
        return '-0' if v[1] == 0 and r.random() < .2 else str(v[1])
    if v[0] == 'd':
        return v[1] if r.random() < .7 else r.choice(['1E5', '1e+5', '2.50e-3', '-0.0E0', '0e9', '12345678901234567890.5', '0.000000000000000000012', '1.0000001', '3.402824e38', '1e39', '-1e400'])
    return {'n': 'null', 't': 'true', 'f': 'false'}[v[0]]


SNIP = ['{', '}', '[', ']', ',', ':', '"', '\\', 'u', '\\u12', '\\ud83d', '\\ude00', '\\x', '-', '+', '.', 'e', '0', '1', 'true', 'nul', 'null', 'tru', ' ', 'é', '\u0663', '\x01', "'", '//', ',,', '01', '1.', '.5', '1e', '--1',
        '9223372036854775808', '-9223372036854775809', '9223372036854775807', '\ufeff', 'NaN', 'Infinity', '0x1']


def mutated(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randint(0, len(t))
        x = r.random()
        if x < .4:
            t = t[:k] + t[k + r.choice([1, 1, 2, 4]):]
        elif x < .8:
            t = t[:k] + r.choice(SNIP) + t[k:]
        elif x < .9:
            t = t[:k]
        else:
            j = r.randint(0, len(t))
            t = t[:k] + t[min(k, j):j] + t[k:]
    return t


def go(c, hs, corrupt, neg, chunk=None):
    exe = c.build('json.cpp')
    ev = c.run_histories(exe, hs)
    c.validate('TJson', ev, scripts=hs, rerun=lambda k: c.run_histories(exe, [hs[k]], name='again')[0])
    for k in (len(hs) // 2, len(hs) - 1):
        c.sample({'script': hs[k][:4], 'event': ev[k][:1]})
    for h in reversed(ev):
        if neg(h):
            c.negative_control('TJson', h, corrupt)
            return ev
    raise ToolError('no history for the negative control')


def groups(lines, n):
    return [lines[k:k + n] for k in range(0, len(lines), n)]


def c08(c):
    r = c.rng()
    c.model('MCJson', name='MCJson (decoder against declarative grammars; print/parse laws)')
    m = c.model('MCJson', 'MCJsonEmit.cfg', workers=1, name='MCJsonEmit.cfg (emits one test per text)')
    texts = []
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    for t in tests:
        x = ''.join(map(chr, t['x']))
        if t['k'] == 'tok':
            texts.append(x if x.startswith('{') else '{"r":' + x + '}')
        elif t['k'] == 'num':
            texts.append('{"r":' + x + '}')
        else:
            texts.append('{"r":"' + x + '"}' if len(x) % 2 else '{"' + x + '":0}')
    limit = 9000 if c.quick else 10**9
    if len(texts) > limit:
        texts = r.sample(texts, limit)
    texts += ['', ' ', '\n\t', '\xa0', '{', '}', '{}', ' {} ', '{}{}', '{} {}', '{},', '{}x', '[]', '"a"', '1', 'null', '{"a"}', '{"a":}', '{"a":1', '{"a":1,', '{"a":1,}', '{"a":[1,]}', '{"a":[1', '{"a":"', '{"a":"}',
              '{"a":"\\"}', '{"a":"\\', '{"a":1}}', '{{}}', '{"a":{}', '{"a" 1}', '{a:1}', "{'a':1}", '{"a":1 "b":2}', '{"a":[1 2]}', '{"a":tru}', '{"a":nulL}', '{"a":TRUE}', '{"é":true,"\U0001f600":null,"x":false}',
              '{"\U0001f600":[true,false,null]}', '{"a":1,"b":2,"a":3}', '{"":{"":{"":[]}}}', '{"a":"\u2028\x7f"}', '}', '{"a":truefalse}', '{"a":1}\x0b', '\x0b{"a":1}', '{"a":"\\ud83d\\ude00"}', '{"a":"\\uD83Dx"}',
              '{"a":"\\u00e9\\u20AC"}', '{"a":"\\u00g0"}', '{"a":"\\u 12"}', '{"a":"\\u+123"}', '{"a":"\\u-001"}', '{"a":"\\u0x41"}', '{"a":-}', '{"a":- 1}', '{"a":1 .5}', '{"a":[[],[[]],{}]}', '{"a":1,,"b":2}', '{,}', '{"a"::1}', '{:1}']
    for n in (50, 120, 250) if c.quick else (50, 120, 250, 400):
        texts += ['{"a":' + '[' * n + ']' * n + '}', '{"a":' * n + '1' + '}' * n, '{"a":' + '[' * n + '}', '{"a":' * n + '1' + '}' * (n - 1), '{"a":' + '[{"b":' * (n // 2) + 'null' + '}]' * (n // 2) + '}']
    for v in large(r, 1 if c.quick else 8):
        t = written(r, v)
        texts += [t, mutated(r, t)]
    for n in (255, 256, 257, 1000, 5000, 20000):
        texts += [' ' * n + '{"a":1}', '{"a":' + ' \n' * n + '1}', '{"' + 'k' * n + '":"' + 'v' * n + '"}', '{"a":"' + 'v' * n, '{"a":"' + 'v' * n + '\\q"}', '{"a":1}' + ' ' * n, '{"a":1}' + ' ' * n + 'x']
    texts += ['{"a":"' + 'xé' * 300 + '"}', '{"a":[' + ','.join('%d' % k for k in range(300)) + ']}', '{' + ','.join('"k%d":%d' % (k % 70, k) for k in range(100)) + '}']
    for _ in range(1500 if c.quick else 30000):
        t = r.choice(WS) + written(r, rtree(r, r.choice([0, 1, 2, 3]), True)) + r.choice(WS)
        texts.append(t)
        for _ in range(2):
            texts.append(mutated(r, t))
    lines = ['text.%d %s' % (r.randint(0, 9999), hx(t)) for t in texts]
    r.shuffle(lines)

    def corrupt(h):
        for e in h:
            if e['op'] == 'parse' and not e['err']:
                e['tree']['k'] = e['tree']['k'] + [[99]]
                e['tree']['v'] = e['tree']['v'] + [{'t': 'null'}]
                return
    go(c, groups(lines, 60), corrupt, lambda h: h and any(e['op'] == 'parse' and not e['err'] and e['s'][:2] == [123, 34] for e in h))
    c.notes['texts'] = len(texts)


def c09(c):
    r = c.rng()
    c.model('MCJson', name='MCJson (decoder against declarative grammars; print/parse laws)')
    vs = [('o', []), ('o', [('', ('o', []))]), ('o', [('a', ('a', []))])]
    for n in list(range(1, 0x82)) + [0xa0, 0xad, 0x7ff, 0x800, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]:
        vs.append(('o', [(chr(n), ('s', chr(n))), ('x' + chr(n) + chr(n), ('a', [('s', 'a' + chr(n) + 'b')]))]))
    for f in ['%se%d' % (a, e) for a in ('1', '-1.5', '9.99999', '1.23457', '4.00001') for e in range(-30, 38, 1 if not c.quick else 3)] + ['0.0', '-0.0', '1.0', '99999.0', '100000.0', '999999.0', '1000000.0', '123456.0']:
        vs.append(('o', [('f', ('d', f)), ('g', ('a', [('d', f), ('i', 3)]))]))
    for n in (2**63 - 1, -2**63, 0, 10**17, -1):
        vs.append(('o', [('i', ('i', n))]))
    t = ('n',)
    for _ in range(60):
        t = ('a', [t]) if r.random() < .5 else ('o', [(r.choice(KEYS), t)])
    vs.append(('o', [('deep', t)]))
    vs += large(r, 1 if c.quick else 8)
    for _ in range(1200 if c.quick else 20000):
        vs.append(rtree(r, r.choice([1, 2, 3, 4]), True))
    lines = ['print.%d %d %s' % (r.randint(0, 9999), r.choice([0, 1, 2, 3, 4, 8]), code(v)) for v in vs]
    r.shuffle(lines)

    def corrupt(h):
        h[0]['c'] = h[0]['c'][:-1]
    go(c, groups(lines, 20), corrupt, lambda h: h and h[0]['op'] == 'print')
    c.notes['trees'] = len(vs)
    c.assumptions.append('floating values are finite and compared to the six printed digits')


def path(r, vars_too=True):
    p = r.randint(1, 5 if vars_too else 3)
    n = r.choice([1, 1, 1, 2, 2, 3]) if p <= 3 else r.choice([0, 0, 1, 1, 2])
    s = []
    for k in range(n):
        if (p <= 3 and k == 0) or r.random() < .55:
            s.append('k' + hx(r.choice(KEYS[:3] if r.random() < .8 else KEYS))[1:])
        else:
            s.append('n%d' % r.choice([0, 0, 1, 1, 2, 3]))
    return '/'.join([str(p)] + s)


def hop(r, parse, known):
    w = lambda *a: ' '.join([a[0] + '.%d' % r.randint(0, 9999)] + [str(x) for x in a[1:]])
    op = r.choice(['set'] * 5 + ['touch', 'at', 'append', 'append', 'append2', 'assign', 'assign', 'assign', 'appendfrom', 'move', 'move', 'remove', 'add', 'addfrom', 'addfrom', 'copydoc', 'movedoc', 'clear'] + ['parse'] * parse + ['copydoc', 'movedoc'] * (parse // 3))
    loc = lambda: r.choice(known) if known and r.random() < .7 else path(r)
    small = lambda: code(rtree(r, r.choice([0, 0, 1])))
    key = lambda: hx(r.choice(KEYS[:3] if r.random() < .8 else KEYS))
    if op in ('set', 'append', 'append2'):
        l = loc()
        known.append(l)
        return w(op, l, small()) if op != 'append2' else w(op, l, small(), small())
    if op in ('touch', 'at'):
        return w(op, loc())
    if op in ('assign', 'appendfrom', 'move'):
        d, s = loc(), loc()
        x = r.random()
        if x < .25:      # hoist: the source is a part of the destination
            s = d + '/' + r.choice(['k' + hx(r.choice(KEYS[:3]))[1:], 'n0', 'n1'])
            return [w('set', s, small()), w(op, d, s)]
        if x < .35 and op != 'move':      # sink: the destination is a part of the source
            d = s + '/' + r.choice(['k' + hx(r.choice(KEYS[:3]))[1:], 'n0', 'n1'])
        known.append(d)
        return w(op, d, s)
    if op == 'remove':
        return w(op, r.randint(1, 3), key())
    if op == 'add':
        return w(op, r.randint(1, 3), key(), small())
    if op == 'addfrom':
        return w(op, r.randint(1, 3), key(), loc())
    if op == 'clear':
        return w(op, r.randint(1, 3))
    if op == 'parse':
        t = written(r, rtree(r, 2, True), WS[:6])
        if r.random() < .45:
            t = mutated(r, t)
        # documents stay observable: verdict must be fixed
        return ('parse', w(op, r.randint(1, 3), hx(t)), t)
    return w(op, r.randint(1, 3), r.randint(1, 3))


def fixed(t):
    """no construct on which the specification leaves the verdict open (decided conservatively)"""
    import re
    if re.search(r'[+]|\\u[dD][89a-fA-F]|\\u0000|[\x00-\x1f]|(?<![\d.eE])-?0\d|\.(?!\d)|(?<!\d)\.|e[-+]?\d\d|E[-+]?\d\d|e[-+]?\d|E', t):
        return False
    return True


def histories(r, n, parse):
    hs = []
    for _ in range(n):
        h, known = [], []
        for _ in range(r.choice([6, 12, 20])):
            o = hop(r, parse, known)
            if isinstance(o, list):
                h += o
            elif isinstance(o, tuple):
                if fixed(o[2]):
                    h.append(o[1])
            else:
                h.append(o)
        hs.append(h + ['end'])
    return hs


def wide(r, n):
    """histories that grow one array and one object far, and reach into all of it"""
    hs = []
    for _ in range(n):
        w = lambda *a: ' '.join([a[0] + '.%d' % r.randint(0, 9999)] + [str(x) for x in a[1:]])
        small = lambda: code(rtree(r, r.choice([0, 0, 0, 1])))
        size = r.choice([10, 17, 34, 66])
        ka = 'k' + hx(r.choice(KEYS[:3]))[1:]
        arr = '1/' + ka
        h, have = [], 0
        while have < size:
            x = r.random()
            if x < .5 or not have:
                h.append(w('append', arr, small()))
                have += 1
            elif x < .65:
                h.append(w('append2', arr, small(), small()))
                have += 2
            elif x < .85:
                h.append(w('appendfrom', arr, '%s/n%d' % (arr, r.choice([0, have - 1, have // 2]))))
                have += 1
            elif x < .92:
                h.append(w('set', '%s/n%d' % (arr, r.choice([have - 1, have - 1, r.randint(0, have - 1), have])), small()))
            else:
                h.append(w('assign', '%s/n%d' % (arr, have - 1), '%s/n%d' % (arr, r.randint(0, have - 1))))
        for j in [9, 10, 11, 15, 16, 31, 32, have - 1, have, have + 1, 99, 100]:
            h.append(w(r.choice(['at', 'touch']), '%s/n%d' % (arr, j)))
        h += [w('assign', '4', arr), w('copydoc', 2, 1), w('set', arr + '/n%d' % (have - 1), 'n'), w('assign', '4/n%d' % (have // 2), '4'), w('movedoc', 3, 1)]
        keys = [('k%d' % j if r.random() < .7 else rtext(r, 4) + str(j)) for j in range(r.choice([9, 17, 33, 65]))]
        p = lambda k: 'k' + hx(k)[1:]
        for k in keys:
            h.append(w('add', 2, hx(k), small()) if r.random() < .5 else w('set', '2/' + p(k), small()))
            if r.random() < .1:
                h.append(w('addfrom', 2, hx(r.choice(keys)), '2/' + p(k)))
        for k in r.sample(keys, 4) + [keys[0], keys[-1]]:
            h.append(w('remove', 2, hx(k)))
            h.append(w('touch', '2/' + p(r.choice(keys))))
        q = 'k' * r.choice([31, 64, 128, 256])
        for k in (q + '1', q + '2', q, q[:-1], q + '1' + q):
            h += [w('add', 2, hx(k), small()) if r.random() < .5 else w('set', '2/' + p(k), small())]
        h += [w('set', '2/' + p(q + '2'), small()), w('at', '2/' + p(q + '1')), w('remove', 2, hx(q + r.choice(['1', '2', '']))), w('touch', '2/' + p(q[:-1]))]
        h += [w('copydoc', 1, 2), w('clear', 2), w('set', '1/' + p(keys[1]), code(('s', 'x' * r.choice([63, 64, 300])))), w('set', '1/' + p('y' * r.choice([31, 64, 257])), small()), w('movedoc', 2, 1)]
        hs.append(h + ['end'])
    return hs


def emitted(c, r, cfgs):
    hs = []
    loc = lambda l, docs: '/'.join([str(l['p'] if l['p'] <= docs else l['p'] - docs + 3)] + ['k' + hx(''.join(map(chr, s['k'])))[1:] if 'k' in s else 'n%d' % s['n'] for s in l['path']])
    val = lambda v: code(('i', 1) if v['t'] == 'int' else ('s', 'x'))
    for cfg, docs, limit in cfgs:
        m = c.model('MCJsonTree', cfg, workers=1, name=cfg + ' (emits one test per transition)')
        tests = c.emitted(m.out)
        c.notes['tests_from_model_transitions'] = c.notes.get('tests_from_model_transitions', 0) + len(tests)
        for t in (r.sample(tests, limit) if len(tests) > limit else tests):
            h = []
            for e in t:
                a = [e['op'] + '.%d' % r.randint(0, 9999)]
                if e['op'] in ('set', 'append'):
                    a += [loc(e['d'], docs), val(e['v'])]
                elif e['op'] in ('touch', 'at'):
                    a += [loc(e['d'], docs)]
                elif e['op'] in ('assign', 'appendfrom', 'move'):
                    a += [loc(e['d'], docs), loc(e['s'], docs)]
                elif e['op'] == 'remove':
                    a += [e['d'], hx(''.join(map(chr, e['k'])))]
                elif e['op'] == 'addfrom':
                    a += [e['d'], hx(''.join(map(chr, e['k']))), loc(e['s'], docs)]
                elif e['op'] == 'clear':
                    a += [e['d']]
                elif e['op'] == 'parse':
                    a += [e['d'], hx(''.join(map(chr, e['s'])))]
                else:
                    a += [e['d'], e['s']]
                h.append(' '.join(map(str, a)))
            hs.append(h + ['end'])
    return hs


def corrupt_tree(h):
    h[-2]['docs'][0]['size'] += 1


def neg_tree(h):
    return h and len(h) > 3 and h[-1]['op'] == 'end' and 'docs' in h[-2] and h[-2]['docs'][0]['t'] == 'obj'


def c10(c):
    r = c.rng()
    c.model('MCJsonTree', 'MCJsonTree.cfg' if not c.quick else 'MCJsonTreeQuick.cfg', name='MCJsonTree (laws of access, copies, removal)')
    hs = emitted(c, r, [('MCJsonTreeEmit.cfg', 2, 1200)] if c.quick else [('MCJsonTreeEmit.cfg', 2, 20000), ('MCJsonTreeEmit3.cfg', 1, 20000)])
    hs += histories(r, 500 if c.quick else 8000, 1) + wide(r, 8 if c.quick else 120)
    go(c, hs, corrupt_tree, neg_tree)
    c.assumptions.append('moving a value into a part of itself is not generated')


def c11(c):
    r = c.rng('11')
    c.model('MCJsonTree', 'MCJsonTree.cfg' if not c.quick else 'MCJsonTreeQuick.cfg', name='MCJsonTree (laws of parses, copies, moves)')
    hs = emitted(c, r, [('MCJsonTreeDocs.cfg', 2, 1200)])
    hs += histories(r, 500 if c.quick else 8000, 30)
    for v in large(r, 1 if c.quick else 6):
        t = written(r, v, WS[:6])
        if fixed(t):
            hs.append(['parse.%d 1 %s' % (r.randint(0, 9), hx(t)), 'copydoc.%d 2 1' % r.randint(0, 8), 'parse.%d 2 %s' % (r.randint(0, 9), hx(t[:-1])), 'movedoc.%d 3 1' % r.randint(0, 8), 'parse.%d 3 %s' % (r.randint(0, 9), hx('{"a":1}')), 'end'])
    # every way of parsing, after every outcome
    good, wrong = ['{"a":1}', '{}', '{"b":[1,"x"],"a":null}'], ['', '{', '[]', '{"a":}', '{"a":1,}', '{"a":"\\q"}', '{"a":9999999999999999999}', '{"a":1.5.2}', '{"a" 1}', '{"a":[1}', '{"a":"x', '{"a":nul}', '{"a":"\\u12"}', '{"a":1e99}', '{1:2}', '{"a":1}x', 'x', ' ']
    for how in range(10):
        for t in good + wrong:
            for first in (r.choice(good), r.choice(wrong)):
                d = r.randint(1, 3)
                hs.append(['parse.%d %d %s' % (r.randint(0, 9), d, hx(first)), 'parse.%d %d %s' % (how, d, hx(t)), 'copydoc.%d %d %d' % (r.randint(0, 8), r.randint(1, 3), d), 'movedoc.%d %d %d' % (r.randint(0, 8), r.randint(1, 3), d),
                           'parse.%d %d %s' % (r.randint(0, 9), d, hx(r.choice(good))), 'end'])
    # documents written in the source
    for k in range(9):
        for first in (r.choice(good), r.choice(wrong)):
            hs.append(['parse.%d 1 %s' % (r.randint(0, 9), hx(first)), 'parse.10 1 %d' % k, 'parse.10 2 %d' % r.randint(0, 8), 'copydoc.0 3 1', 'end'])
    go(c, hs, corrupt_tree, neg_tree)
