"""C23: registrations and runs of the test registry against spec/TestRunner.tla; C24: assertions against spec/Asserts.tla."""
import re
from vf import *

T = rb' \(-?\d+ ms\)$'
LINES = [
    (rb'\[==========\] Running (\d+) tests? from (\d+) test cases?\.$', 'start', 2),
    (rb'\[==========\] (\d+) tests? from (\d+) test cases? ran\. \(-?\d+ ms total\)$', 'end', 2),
    (rb'\[----------\] (\d+) tests? from (.*) \(-?\d+ ms total\)$', 'suiteEnd', 1),
    (rb'\[----------\] (\d+) tests? from (.*)$', 'suite', 1),
    (rb'\[ RUN      \] (.*)$', 'run', 0),
    (rb'\[       OK \] (.*)' + T, 'ok', 0),
    (rb'\[     FAIL \] (.*)' + T, 'fail', 0),
    (rb'\[     INFO \] (.*)$', 'info', 0),
    (rb'\[  PASSED  \] (\d+) tests?\.$', 'passed', 1),
    (rb'\[  FAILED  \] (\d+) tests?, listed below:$', 'failed', 1),
    (rb'\[  FAILED  \] (.*)$', 'listed', 0),
    (rb'(\d+) FAILED TESTS?$', 'summary', 1),
    (rb'@@(\w+) (\d+)$', 'mark', 0),
]
LINES = [(re.compile(r, re.S), k, n) for r, k, n in LINES]


def parse(raw):
    out = []
    for l in raw.split(b'\n'):
        for r, k, n in LINES:
            m = r.match(l)
            if not m:
                continue
            g = m.groups()
            if k == 'mark':
                out.append({'k': g[0].decode(), 'n': int(g[1]), 'm': 0, 's': []})
            else:
                nums = [int(x) for x in g[:n]]
                if any(x > 2000000000 for x in nums):
                    nums = [2000000000 for x in nums]
                rest = g[n:]
                out.append({'k': k, 'n': nums[0] if nums else 0, 'm': nums[1] if n > 1 else 0, 's': list(rest[0]) if rest else []})
            break
        else:
            if l.startswith((b'[       OK', b'[     FAIL', b'[ RUN', b'[  PASSED', b'[==')):
                out.append({'k': 'other', 'n': 0, 'm': 0, 's': list(l)})
    return [x for x in out if not (x['k'] in ('passed', 'failed') and x['n'] == 0)]


MESSAGES = [b'', b'x', b'boom', 'Fehler \u00e4\u4e2d\U0001F600'.encode(), b'{}', b'{0}', b'%s%n%d', b'\xff\xfe broken', b'\xe4', b'[  FAILED  ] A.B', b'a (1 ms)', b' ', b'\\n', b'"quoted"', b'm' * 300,
            b'[       OK ] Alpha.One (0 ms)', b'\xc3', b'\x01\x02', b'\r', b'tab\there']
SUITES = ['Alpha', 'Mid', 'Fix', 'Box', 'A', 'B', 'a', 'AlphaBeta', 'Alpha2', 'Al', 'Zeta', '\u00c4rger', '\u4e2d', 'Z', '_', 'with space', '{}', '', '0', 'Mi', '\U0001F600']
NAMES = ['One', 'Two', 'First', 'Only', 'Zeta', 'Beta', 'x', '', 'T{0}', '\u00e4', 'name with space', '%s', 'One']
FAILS = 'rlo2afisnzxt'


def hx(x):
    return 'x' + (x if isinstance(x, bytes) else x.encode()).hex()


def c23(c):
    r = c.rng()
    c.model('MCTestRunner', name='MCTestRunner (3 tests in 3 suites, 2 runs)')
    m = c.model('MCTestRunner', 'MCTestRunnerEmit.cfg', workers=1, name='MCTestRunnerEmit.cfg (emits every registry and outcome)')
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    if c.quick:
        tests = r.sample(tests, min(len(tests), 700))
    exe = c.build('runner.cpp')
    hs = []
    for t in tests:
        h, fns = [], {}
        for e in t:
            if e['op'] == 'add':
                fns[e['fn']] = e['fn'] + (12 if e['fix'] else 0)
                h.append('add %s %s %d' % (hx(bytes(e['suite'])), hx(bytes(e['name'])), fns[e['fn']]))
            else:
                oc = ['p'] * 22
                for f, real in fns.items():
                    o = e['oc'][f - 1]
                    msg = r.choice(MESSAGES)
                    kind = r.choice('pq') if o['ok'] else r.choice('FG' if real > 12 else 'isnzx') if o['ctor'] else r.choice('rlo2t') if o['std'] else r.choice('isnzx')
                    oc[real - 1] = kind + msg.hex()
                if r.random() < .5:
                    oc[16 + r.randint(0, 5)] = r.choice(FAILS) + b'static'.hex()
                h.append('run ' + ' '.join(oc))
        hs.append(h)

    def outcomes(p):
        oc = []
        for f in range(1, 23):
            k = r.choice('ppq') if r.random() > p else r.choice(FAILS + ('FFG' if f >= 13 and f not in (17, 18, 20, 22) else ''))
            oc.append(k + r.choice(MESSAGES).hex())
        return 'run ' + ' '.join(oc)
    # every single failure, of every kind
    for f in range(17, 23):
        for k in FAILS + 'FGpq':
            if k in 'FG' and f not in (19, 21):
                continue
            oc = ['p'] * 22
            oc[f - 1] = k + r.choice(MESSAGES).hex()
            hs.append(['run ' + ' '.join(oc), 'run ' + ' '.join(['p'] * 22), 'run ' + ' '.join(oc)])
    for msg in MESSAGES:
        hs.append(['run ' + ' '.join(['r' + msg.hex()] * 22)])
    for n in range(300 if c.quick else 5000):
        h = []
        p = r.choice([0, .05, .3, .3, .7, 1])
        free = list(range(1, 17))
        r.shuffle(free)
        suites = r.sample(SUITES, r.choice([1, 2, 4, 10]))
        for k in range(r.choice([1, 2, 3, 5])):
            for _ in range(r.choice([0, 1, 2, 4, 6])):
                if free:
                    f = free.pop()
                    s = r.choice(suites)
                    h.append('add %s %s %d' % (hx(s), hx(r.choice(NAMES)), f))
            h.append(outcomes(r.choice([0, p, p])))
        hs.append(h)

    # many tests, in one suite and in many; 256 failures among them
    for kind in ('one', 'many', 'mixed') if c.quick else ('one', 'many', 'mixed') * 8:
        n = r.choice([130, 200, 300])
        h = []
        for k in range(n):
            s = {'one': 'Alpha', 'many': 'Suite%d' % (k % 70), 'mixed': r.choice(SUITES)}[kind]
            h.append('add %s %s %d' % (hx(s), hx('Test%d' % k), r.randint(1, 16)))
        hs.append(h + [outcomes(0), outcomes(.3), outcomes(1), outcomes(0)])
    for n in (255, 256, 257):
        oc = ['p'] * 22
        oc[2], oc[5] = 'r' + b'boom'.hex(), 'q'
        hs.append(['add %s %s %d' % (hx('S%d' % (k % 3)), hx('T%d' % k), 6 if k % 40 == 7 else 3) for k in range(n + len(range(7, n, 39)))] + ['run ' + ' '.join(oc)])
        hs.append(['add %s %s 3' % (hx('S'), hx('T%d' % k)) for k in range(n)] + ['run ' + ' '.join(oc), 'run ' + ' '.join(['p'] * 22)])

    def go(hs, name='h'):
        ev = c.run_histories(exe, hs, name=name)
        for h in ev:
            for e in h or ():
                if 'raw' in e:
                    e['lines'] = parse(bytes.fromhex(e.pop('raw')))
        return ev
    ev = go(hs)
    c.validate('TTestRunner', ev, scripts=hs, rerun=lambda k: go([hs[k]], 'again')[0])
    c.sample({'script': hs[0], 'events': ev[0][-1:]})
    c.notes['runs'] = sum(1 for h in ev if h for e in h if e['op'] == 'run')
    for h in reversed(ev):
        if h and h[-1].get('status') == 1:
            c.negative_control('TTestRunner', h, lambda h: h[-1].update(status=0))
            c.negative_control('TTestRunner', h, lambda h: h[-1]['lines'].remove([l for l in h[-1]['lines'] if l['k'] == 'listed'][0]), label='listed')
            break
    c.assumptions.append('messages are single lines; the time spans printed are not judged; tests do not register tests and do not end the process')


TYPES = ['int', 'dbl', 'mix', 'mix2', 'uns', 'bool', 'chr', 'str', 'sstr', 'only', 'bits', 'oss']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge', 'eqp']
FORMS = ['one', 'not', 'or', 'and', 'same', 'less', 'choose', 'comma']


def c24(c):
    r = c.rng()
    c.model('MCAsserts')
    m = c.model('MCAsserts', 'MCAssertsEmit.cfg', workers=1, name='MCAssertsEmit.cfg (emits every body of two assertions)')
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    if c.quick:
        tests = r.sample(tests, min(len(tests), 600))
    exe = c.build('asserts.cpp')
    hs = []
    for t in tests:
        # values 0 and 1 of the model as bool or int operands
        h = []
        for z in t:
            ty = r.choice(['bool', 'int'])
            v = lambda n: n if ty == 'bool' else n + 2
            h.append('as %s %s %d %d %s %d %d' % (z['a'], z['f'], 0 if z['a'] in CMP else 0, r.randint(0, 6) if z['a'] not in CMP else r.randint(0, 5), ty, v(z['x']['n']), v(z['y']['n'])))
        hs.append(h)
    one = []
    # every comparison of every pair of values of every type
    size = {'int': (6, 6), 'dbl': (14, 14), 'mix': (6, 14), 'mix2': (14, 4), 'uns': (4, 4), 'bool': (2, 2), 'chr': (5, 5), 'str': (11, 11), 'sstr': (11, 11), 'only': (3, 3), 'bits': (6, 6), 'oss': (11, 11)}
    for ty in TYPES:
        for i in range(size[ty][0]):
            for j in range(size[ty][1]):
                for a in CMP:
                    one.append('as %s one %d %d %s %d %d' % (a, r.choice([0, 1, 2, 3]), r.randint(0, 5), ty, i, j))
    for i in range(12):
        for j in range(12):
            for form in range(4):
                one.append('as streq one %d %d cstr %d %d' % (form, r.randint(0, 6), i, j))
    for a in ('true', 'false'):
        for f in FORMS:
            for ty, n in (('bool', 2), ('int', 6), ('dbl', 14), ('only', 3), ('ptr', 2)):
                for i in range(n):
                    for j in range(n):
                        if ty in ('ptr',) and f == 'less':
                            continue
                        if ty == 'dbl' and (i == 12 or j == 12) and f not in ('same', 'less'):
                            continue      # a NaN as a condition is true in C++; not modelled
                        one.append('as %s %s 0 %d %s %d %d' % (a, f, r.randint(0, 6), ty, i, j))
    for ctx in range(7):
        for a in ('pass', 'fail'):
            one.append('as %s one 0 %d int 0 0' % (a, ctx))
        for ty in ('int', 'dbl', 'str', 'sstr', 'chr'):
            for i in range(12):
                one.append('as message one 0 %d %s %d 0' % (ctx, ty, i))
    # each assertion once; then bodies of several
    rest = [[x] for x in one]
    if c.quick:
        rest = r.sample(rest, 2500)
    hs += rest
    for n in range(1500 if c.quick else 30000):
        h = []
        for _ in range(r.choice([2, 4, 8])):
            x = r.choice(one).split()
            if x[1] in CMP and r.random() < .6:
                k = r.randint(0, 10)
                x[6], x[7] = str(k), str(k)
                x[1] = r.choice(['eq', 'le', 'ge', 'eqp'])
            h.append(' '.join(x))
        hs.append(h)
    go = lambda hs, name='h': c.run_histories(exe, hs, name=name)
    ev = go(hs)
    c.validate('TAsserts', ev, scripts=hs, rerun=lambda k: go([hs[k]], 'again')[0])
    n = [0, 0]
    for h in ev:
        for e in h or ():
            if e['op'] == 'assert':
                n[e['ex']] += 1
    c.notes['assertions_passed_failed'] = n
    c.sample({'script': hs[-1], 'events': ev[-1][:1]})
    for h in reversed(ev):
        if h and h[0].get('op') == 'assert' and not h[0]['ex'] and h[0]['a'] in CMP:
            c.negative_control('TAsserts', h, lambda h: h[0].update(n1=2))
            break
    c.assumptions.append('operands have an ordering and an output operator; a failing comparison may evaluate its operands again for the message')
