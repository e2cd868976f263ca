"""C19, C20: results against spec/Expected.tla."""
from vf import *

KINDS = ['tt', 'same', 'it', 'ti', 'ss', 'is', 'ts', 'mt', 'tm']
CONTENT = ['cv', 'cr', 'ce', 'cer', 'mk', 'mke']
ASSIGN = ['av', 'ar', 'ae', 'aer']
COMBS = ['map', 'mapError', 'andThen', 'then', 'orElse', 'catchError', 'onError', 'filter', 'fold', 'inspect0', 'inspect1', 'inspect2', 'customize',
         'unwrapOr', 'unwrapOrDefault1', 'unwrapOrDefault0', 'unwrapOrElse', 'get', 'expect', 'getError', 'expectError', 'bool', 'hasValue', 'hasError']


def line(op, how=0, d=1, s=1, x=0, f=0, a=0, k=0):
    return '%s.%d %d %d %d %d %d %d' % (op, how, d, s, x, f, a, k)


def run(c, hs, corrupt, neg):
    exe = c.build('expected.cpp')
    ev = c.run_histories(exe, hs)
    c.validate('TExpected', ev, scripts=hs, rerun=lambda k: c.run_histories(exe, [hs[k]], name='again')[0])
    c.notes['skipped_steps'] = sum(1 for h in ev if h for e in h if e['op'] == 'skip')
    for k in (len(hs) // 3, len(hs) - 1):
        c.sample({'script': hs[k][:8], 'events': ev[k][:3]})
    for k in range(len(hs) - 1, -1, -1):
        if ev[k] and neg(ev[k]):
            c.negative_control('TExpected', ev[k], corrupt)
            return
    raise ToolError('no history for the negative control')


def c19(c):
    r = c.rng()
    c.model('MCExpected', 'MCExpectedEmit.cfg', name='laws of the combinators', workers=1)
    hs = []
    # every combinator, with every callback, on every side and every way the result came about
    for kind in KINDS:
        for made in CONTENT + ASSIGN + ['cc', 'cm', 'ac', 'am']:
            for ok in (0, 1):
                if made in ('cv', 'cr', 'mk', 'av', 'ar') and not ok or made in ('ce', 'cer', 'mke', 'ae', 'aer') and ok:
                    continue
                h = [kind]
                x = r.choice([0, 1, 4, 7, 1000])
                if made in CONTENT:
                    h.append(line(made, r.randint(0, 1), 1, x=x))
                elif made in ASSIGN:
                    h += [line(r.choice(CONTENT), 0, 1, x=5), line(made, 0, 1, x=x)]
                else:
                    h.append(line('cv' if ok else 'ce', 0, 2, x=x))
                    if made in ('ac', 'am'):
                        h.append(line(r.choice(CONTENT), 0, 1, x=9))
                    h.append(line(made, r.randint(0, 1), 1, 2))
                for op in COMBS:
                    for f in range(5) if op in ('andThen', 'then', 'orElse', 'catchError') else range(4):
                        h.append(line(op, r.randint(0, 5), s=1, f=f, a=r.choice([0, 1, 3, 50])))
                h.append('end')
                hs.append(h)
    for n in range(300 if c.quick else 6000):
        h = [r.choice(KINDS)]
        for _ in range(r.choice([10, 25, 60])):
            d, s = r.randint(1, 3), r.randint(1, 3)
            u = r.random()
            if u < .3:
                h.append(line(r.choice(CONTENT + ASSIGN + ['cc', 'cm', 'ac', 'am', 'del']), r.randint(0, 1), d, s, r.randint(0, 20)))
            else:
                op = r.choice(COMBS)
                k = r.choice([0, 0, 0, 0, 1, 2, 3])
                h.append(line(op, r.randint(0, 5), s=s, f=r.randint(0, 4 if op in ('andThen', 'then', 'orElse', 'catchError') else 3), a=r.randint(0, 9), k=k))
        h.append('end')
        hs.append(h)

    def corrupt(h):
        e = [e for e in h if e.get('calls')][0]
        e['calls'] = e['calls'] + e['calls']
    run(c, hs, corrupt, lambda h: any(e.get('calls') for e in h))
    c.assumptions.append('callbacks are those of the driver (numbered functions of the content, one throwing); payload types are int, String and two instance-counting types')


def c20(c):
    r = c.rng()
    c.model('MCExpected', name='MCExpected (3 results)')
    m = c.model('MCExpected', 'MCExpectedEmit.cfg', workers=1, name='MCExpected (2 results; emits one test per transition)')
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    hs = []
    kinds = ['tt', 'same', 'it', 'ti', 'ts', 'mt', 'tm'] if c.quick else KINDS
    for t in tests:
        for kind in ([r.choice(kinds)] if c.quick else kinds):
            hs.append([kind] + [line(e['op'], r.randint(0, 1), e['d'], e.get('s', 1), e.get('x', 0), k=e['k']) for e in t] + ['end'])
    for n in range(500 if c.quick else 9000):
        h = [r.choice(['tt', 'tt', 'same', 'it', 'ti', 'ss', 'is', 'ts', 'mt', 'mt', 'tm', 'tm'])]
        for _ in range(r.choice([8, 20, 50])):
            d, s = r.randint(1, 3), r.randint(1, 3)
            k = r.choice([0, 0, 0, 1, 1, 2, 3])
            if r.random() < .85:
                h.append(line(r.choice(CONTENT + ASSIGN * 2 + ['cc', 'cm', 'ac', 'ac', 'ac', 'am', 'am', 'del']), r.randint(0, 1), d, s, r.randint(0, 20), k=k))
            else:
                op = r.choice(COMBS)
                h.append(line(op, r.randint(0, 5), s=s, f=r.randint(0, 3), a=r.randint(0, 9), k=k))
        h.append('end')
        hs.append(h)

    # moving constructors of payloads may fail too, if they say so
    for kind in ('mt', 'tm'):
        for made in ('cv', 'ce', 'mk', 'mke'):
            for k in (0, 1, 2):
                for tail in ([], [line('del', 0, 1)], [line('cm', 0, 3, 1)], [line('ac', 0, 1, 3), line('cc', 0, 3, 1)]):
                    hs.append([kind, line(made, 0, 1, x=7), line('cm', 0, 2, 1, k=k)] + tail + [line('cm', 0, 2, 1), 'end'])

    def corrupt(h):
        h[0]['live'] += 1
    run(c, hs, corrupt, lambda h: 'live' in h[0] and h[0]['op'] != 'end')
    c.assumptions.append('moves of the payloads do not throw, except in the construction of a result from another; the k-th copy of a payload within a call throws; leaks by counting blocks and instances, use after destruction by AddressSanitizer and the register of instances')
