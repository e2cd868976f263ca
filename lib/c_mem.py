"""C16, C18: pointer histories against spec/Shared.tla and spec/Unique.tla."""
from vf import *

ROOTS, OBJS = 3, 10


def run(c, mode, module, hs, corrupt, neg):
    exe = c.build('mem.cpp')
    ev = c.run_histories(exe, hs, args=(mode,))
    c.validate(module, ev, scripts=hs, rerun=lambda k: c.run_histories(exe, [hs[k]], name='again', args=(mode,))[0])
    skips = sum(1 for h in ev if h for e in h if e['op'] == 'skip')
    c.notes['skipped_steps'] = skips
    for k in (len(hs) // 3, len(hs) - 1):
        c.sample({'script': hs[k][:8], 'events': ev[k][:3]})
    for k in range(len(hs) - 1, -1, -1):
        if neg(ev[k]):
            c.negative_control(module, ev[k], corrupt)
            return
    raise ToolError('no history for the negative control')


def emitted(c, module, cfgs, roots, salt, limit):
    """tests of the small model, with its places mapped to those of the driver"""
    hs = []
    r = c.rng(salt)
    for cfg, k in cfgs:
        m = c.model(module, cfg, workers=1, name=cfg + ' (emits one test per transition)')
        tests = c.emitted(m.out)
        c.notes['tests_from_model_transitions'] = c.notes.get('tests_from_model_transitions', 0) + len(tests)
        if c.quick and len(tests) > limit:
            tests = r.sample(tests, limit)
        place = lambda l: l if l <= k else l - k + ROOTS
        for t in tests:
            h = []
            for e in t:
                h.append('%s.%d %d %d' % (e['op'], r.randint(0, 59), place(e['d']), place(e['s']) if 's' in e else e.get('o', 0)))
            h.append('end.%d 1' % r.randint(0, 1))
            hs.append(h)
    return hs


def c16(c):
    r = c.rng()
    c.model('MCShared', name='MCShared (2 variables, 3 objects)')
    if not c.quick:
        c.model('MCShared', 'MCSharedDeep.cfg', name='MCShared (weak pointers everywhere)')
    hs = emitted(c, 'MCShared', [('MCSharedEmit.cfg', 1), ('MCSharedEmit2.cfg', 2)], 0, 'emit', 2500)
    for k in range(500 if c.quick else 8000):
        h = []
        born = 0
        style = r.random()
        for _ in range(r.choice([12, 30, 45])):
            top = ROOTS + (0 if style < .15 else born)
            p = lambda: r.randint(1, ROOTS) if r.random() < .5 else r.randint(1, top)
            op = r.choice(['new'] * 3 + (['crowd', 'crowdnull'] if k % 8 == 0 else []) + ['null', 'null', 'copy', 'copy', 'copy', 'move', 'move', 'swap', 'self', 'deref', 'watch', 'watch', 'watch', 'wnull', 'wcopy', 'wmove', 'lock', 'lock', 'wderef'])
            if op == 'new':
                if born >= OBJS:
                    continue
                born += 1
            d, s = p(), p()
            h.append('%s.%d %d %d' % (op, r.randint(0, 59), d, s if op in ('copy', 'move', 'swap', 'watch', 'wcopy', 'wmove', 'lock') else d))
        h.append('end.%d 1' % r.randint(0, 1))
        hs.append(h)
    for n in range(60):
        hs.append(['new 1 1', 'watch 1 1', 'copy 2 1', 'crowd.%d 1 1' % n, 'crowdnull.%d 2 2' % n, 'crowdnull.%d 1 1' % n, 'lock 3 1', 'crowd.%d 3 3' % n, 'end.0 1'])
    # long chains, rings and their destruction from every place
    for n in range(1, 8):
        for kind in ('chain', 'ring', 'back'):
            for cut in range(1, ROOTS + n + 1):
                h = ['new 1 1']
                for o in range(2, n + 1):
                    h += ['new %d %d' % (ROOTS + o - 1, ROOTS + o - 1)]
                if kind == 'ring':
                    h.append('copy %d 1' % (ROOTS + n))
                if kind == 'back':
                    for o in range(2, n + 1):
                        h.append('watch %d %d' % (ROOTS + o, 1 if o == 2 else ROOTS + o - 2))
                h += ['watch 1 1', 'watch 2 %d' % (ROOTS + max(1, n - 1)), 'lock 3 2', 'null.%d %d' % (cut, cut), 'null 1', 'lock 2 1', 'null 3', 'wderef 1', 'null 2', 'end.0 1']
                hs.append(h)

    def corrupt(h):
        h[-2]['expired'][0] = not h[-2]['expired'][0]
    run(c, 'shared', 'TShared', hs, corrupt, lambda h: h and len(h) > 2 and 'expired' in h[-2])
    c.assumptions.append('an object is recognised by the identity its constructor registered; use after free is made visible by AddressSanitizer; leaks by counting blocks')


def c18(c):
    r = c.rng()
    c.model('MCUnique', name='MCUnique (2 variables, 3 objects)')
    hs = emitted(c, 'MCUnique', [('MCUniqueEmit.cfg', 2)], 0, 'emit', 5000)
    for k in range(600 if c.quick else 9000):
        h = []
        born = 0
        style = r.random()
        for _ in range(r.choice([12, 30, 45])):
            top = ROOTS + (0 if style < .15 else born)
            p = lambda: r.randint(1, ROOTS) if r.random() < .5 else r.randint(1, top)
            op = r.choice(['new'] * 4 + ['null', 'null', 'move', 'move', 'move', 'swap', 'self', 'release', 'release', 'adopt', 'adopt', 'deref'] +
                          ['pset', 'pset', 'pcopy', 'pnew', 'preset', 'presetnew', 'pdestroy', 'pself', 'pdrop', 'pderef'])
            if op in ('new', 'pnew', 'presetnew'):
                if born >= OBJS:
                    continue
                born += 1
            d, s = p(), p()
            if op.startswith('p'):
                d = r.randint(1, ROOTS)
            if op in ('adopt', 'pset', 'preset', 'pself'):
                s = r.randint(0 if op in ('pset', 'preset') else 1, max(1, born))
            elif op == 'pcopy':
                s = r.randint(1, ROOTS)
            h.append('%s.%d %d %d' % (op, r.randint(0, 59), d, s))
        h.append('end.%d 1' % r.randint(0, 1))
        hs.append(h)
    for n in range(1, 8):
        for kind in ('chain', 'ring'):
            for cut in range(1, ROOTS + n + 1):
                h = ['new 1 1'] + ['new %d 0' % (ROOTS + o - 1) for o in range(2, n + 1)]
                if kind == 'ring':
                    h.append('move %d 1' % (ROOTS + n))
                h += ['null.%d %d' % (cut, cut), 'move 2 %d' % (ROOTS + 1), 'move 1 2', 'end.%d 1' % (cut % 2)]
                hs.append(h)

    def corrupt(h):
        h[-2]['died'] = h[-2]['died'] + [1]
    run(c, 'unique', 'TUnique', hs, corrupt, lambda h: h and len(h) > 2 and 'died' in h[-2])
    c.assumptions.append('an object is recognised by the identity its constructor registered; use after free is made visible by AddressSanitizer; leaks by counting blocks')
