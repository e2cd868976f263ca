"""C25: histories of the console streams against spec/Console.tla."""
from vf import *

PIECES = [b'', b'a', b'bc', b'\n', b'\n\n', b'x\n', b'{}', b'{0}', b'}{', b'{', b'\r\n', b'\t', '\u00e4'.encode(), '\u4e2d'.encode(), '\U0001F600'.encode(), b'%d%s', b'\\n', b' ', b'42', b'7', b'0',
          b'prompt> ', b'  ', b'\x1b[31m', b'"', b'line one\nline two\n', b'\x07', b'\xe2\x80\x8b']
INPUT = [b'a\n', b'\n', b'\n\n', 'zeile \u00e4\n'.encode(), '\u00e4\n'.encode(), '\u4e2d\u6587\n'.encode(), '\U0001F600x\n'.encode(), b'x', b'  lead\n', b'trail \t\n', b'\r\n', b'a\rb\n', b'{}\n', b'%s\n', b'1 2 3\n',
         b'two\nlines\n', b'half', b'\nend', b' \n', b'\\n\n', 'e\u0301\n'.encode(), b'\t\n', b'y' * 200 + b'\n']


def hx(b):
    return 'x' + b.hex()


def text(r, big=False):
    if big and r.random() < .1:
        return b''.join(r.choice(PIECES) for _ in range(r.choice([100, 4000])))
    return b''.join(r.choice(PIECES) for _ in range(r.choice([0, 1, 1, 1, 2, 3])))


def c25(c):
    r = c.rng()
    c.model('MCConsole', name='MCConsole (4 calls)')
    m = c.model('MCConsole', 'MCConsoleEmit.cfg', workers=1, name='MCConsoleEmit.cfg (emits every history of three calls)')
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    if c.quick:
        tests = r.sample(tests, min(len(tests), 900))
    exe = c.build('console.cpp')
    line = lambda op, w, x: '%s.%d %s %s' % (op, r.randint(0, 19), w, hx(x))
    hs = [[line(e['op'], e.get('w', 'out'), bytes(e.get('x', []))) for e in t] for t in tests]
    # every way of writing every piece
    for op in ('write', 'writeLine', 'newLine'):
        for w in ('out', 'err', 'log'):
            for how in range(10 if op != 'newLine' else 1):
                hs.append(['%s.%d %s %s' % (op, how, w, hx(x)) for x in PIECES])
    for op in ('readLine', 'readChar'):
        for how in range(5):
            hs.append([y for x in PIECES for y in (line('feed', 'in', r.choice(INPUT) + b'\n'), '%s.%d in %s' % (op, how, hx(x)))] + [line('shut', 'in', b'')] + ['%s.%d in %s' % (op, how, hx(x)) for x in PIECES])
            for inp in INPUT:
                hs.append([line('feed', 'in', inp), line('shut', 'in', b'')] + ['%s.%d in %s' % (op, how, hx(b'')), '%s.%d in %s' % (r.choice(['readLine', 'readChar']), how, hx(b'?'))] * 2)
    for n in range(350 if c.quick else 6000):
        h = []
        for _ in range(r.choice([5, 15, 40])):
            op = r.choice(['write', 'writeLine'] * 4 + ['newLine', 'newLine'] + ['feed'] * 4 + ['readLine', 'readChar'] * 3)
            if op in ('readLine', 'readChar') and r.random() < .02:
                op = 'shut'
            w = r.choice(['out', 'out', 'err', 'log'])
            x = r.choice(INPUT) if op == 'feed' else text(r, n % 8 == 0) if op not in ('readLine', 'readChar') or r.random() < .6 else b''
            h.append(line(op, w, x))
        h += [line('shut', 'in', b'')] + [line(r.choice(['readLine', 'readChar', 'write']), 'out', text(r)) for _ in range(4)]
        hs.append(h)
    go = lambda hs, name='h': c.run_histories(exe, hs, name=name)
    ev = go(hs)
    c.validate('TConsole', ev, scripts=hs, rerun=lambda k: go([hs[k]], 'again')[0])
    c.sample({'script': hs[0], 'events': ev[0][:2]})
    for h in reversed(ev):
        if h and any(e['op'] == 'write' and e['w'] == 'log' and e['x'] for e in h):
            c.negative_control('TConsole', h, lambda h: [e.update(out=e['err'], err=[]) for e in h if e['op'] == 'write' and e['w'] == 'log' and e['x']][:1])
            break
    c.assumptions.append('texts and input are valid UTF-8 without NUL; the program does not change the formatting flags of the standard streams; input after its end is not modelled')
