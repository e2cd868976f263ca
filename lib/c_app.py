"""C27: histories of the application object against spec/App.tla."""
from vf import *

TEXTS = [b'', b'a', b'--flag', b'-x=1', b'a b', '\u00e4\u4e2d\U0001F600'.encode(), b'\xff\xfe', b'%s', b'{}', b'/path/to/file', b'x' * 250, b'"q"', b'\n', b'!', b'-']


def hx(b):
    return 'x' + b.hex()


def c27(c):
    r = c.rng()
    c.model('MCApp')
    m = c.model('MCApp', 'MCAppEmit.cfg', workers=1, name='MCAppEmit.cfg (emits every history of four steps)')
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    tests = [t for t in tests if any(e['op'].startswith('init') for e in t)]
    if len(tests) > (1200 if c.quick else 12000):
        tests = r.sample(tests, 1200 if c.quick else 12000)
    exe = c.build(['app.cpp', 'app_other.cpp'])

    def line(op, n=0, xs=()):
        return '%s.%d %d %s' % (op, r.randint(0, 1), n, ' '.join(hx(x) for x in xs))
    hs = []
    for t in tests:
        h = []
        for e in t:
            op = e['op']
            h.append(line(op, e.get('n', e.get('k', 0)), [bytes(x) for x in e['x']] if op == 'store' else [bytes(e['x'])] if op == 'poke' else []))
        hs.append(h)
    for n in range(300 if c.quick else 4000):
        h = []
        for _ in range(r.choice([4, 8, 20])):
            op = r.choice(['store', 'store', 'poke', 'poke', 'look', 'init', 'initArgs', 'initArgs'])
            if op == 'store':
                h.append(line(op, 0, [r.choice(TEXTS) for _ in range(r.choice([0, 1, 2, 3, 8, 60 if n % 20 == 0 else 4]))]))
            elif op == 'poke':
                h.append(line(op, r.randint(1, 4), [r.choice(TEXTS)]))
            else:
                h.append(line(op, r.choice([-1, 0, 1, 1, 2, 3, 4, 60])))
        hs.append(h)
    for n in (127, 128, 129, 255, 256, 257, 300, 1000):
        hs.append([line('store', 0, [r.choice(TEXTS) for _ in range(n)]), line('initArgs', n), line('look'), line('poke', r.randint(1, n), [b'changed']), line('init')])
    hs.append([line('store', 0, [b'y' * k for k in (63, 64, 1023, 1024, 4095, 4096, 70000)]), line('initArgs', 7)])
    go = lambda hs, name='h': c.run_histories(exe, hs, name=name)
    ev = go(hs)
    c.validate('TApp', ev, scripts=hs, rerun=lambda k: go([hs[k]], 'again')[0])
    c.sample({'script': hs[-1], 'events': ev[-1][:3]})
    c.notes['skipped_steps'] = sum(1 for h in ev if h for e in h if e['op'] == 'skip')
    for h in reversed(ev):
        if h and h[-1].get('args'):
            c.negative_control('TApp', h, lambda h: h[-1]['args'].reverse() or h[-1]['args'].append([1]))
            break
    c.assumptions.append('argv holds at least argc C strings; initialisations of one process are not concurrent')
