"""C17: executions of threads over shared and weak pointers, every order of their atomic operations, against spec/Owners.tla and spec/Memory.tla."""
from concurrent.futures import ThreadPoolExecutor
from vf import *

ORDERS = {'DropAcquire': 'TRUE', 'DropRelease': 'TRUE', 'WeakAcquire': 'TRUE', 'WeakRelease': 'TRUE', 'LockOnce': 'FALSE'}
OPS = ['copy', 'hold', 'move', 'take', 'dropa', 'dropb', 'nulla', 'renew', 'lock', 'locka', 'lockuse', 'expired', 'isnull', 'watch', 'watchv', 'wcopy', 'wmove', 'unwatch', 'use']
INITS = [(1, 0, 1, 0), (0, 0, 1, 1), (1, 1, 0, 0), (2, 1, 1, 2), (1, 2, 2, 0), (0, 0, 0, 0), (1, 0, 0, 1), (1, 1, 1, 1), (0, 1, 1, 0)]


def build(c):
    # the library code is instrumented by -fsanitize=thread; explore.cpp takes the place of its runtime
    inst, rt, exe = c.path('threads.o'), c.path('explore.o'), c.path('threads')
    env = dict(os.environ, LC_ALL='C.UTF-8')
    base = ['g++'] + CXXFLAGS + ['-I' + os.path.join(REPO, 'include'), '-I' + DRV]
    cmds = [base + ['-O0', '-fsanitize=thread', '-c', os.path.join(DRV, 'threads.cpp'), '-o', inst],
            base + ['-O1', '-c', os.path.join(DRV, 'explore.cpp'), '-o', rt]]
    ps = [subprocess.Popen(x, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=c.work) for x in cmds]
    outs = [p.communicate(timeout=300)[0].decode('utf-8', 'replace') for p in ps]
    if ps[1].returncode:
        raise ToolError('explore.cpp does not compile:\n' + outs[1][:3000])
    if ps[0].returncode:
        c.build('mem.cpp', out='sane')   # raises ToolError when the compiler itself does not work
        raise Violation('the library no longer compiles as used by threads.cpp', {'kind': 'build', 'output': outs[0][:6000]})
    r = subprocess.run(['g++', inst, rt, '-pthread', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=c.work)
    if r.returncode:
        raise ToolError('linking the runtime failed:\n' + r.stdout.decode('utf-8', 'replace')[:3000])
    return exe


def c17(c):
    r = c.rng()
    c.model('MCOwners', 'MCOwners.cfg' if not c.quick else 'MCOwnersQuick.cfg')
    c.model('MCSharedAlg', name='MCSharedAlg (two threads)')
    if not c.quick:
        c.model('MCOwners', 'MCOwners3.cfg', timeout=1500, heap='8g')
        c.model('MCSharedAlg', 'MCSharedAlgDeep.cfg', timeout=900)
        c.model('MCSharedAlg', 'MCSharedAlg3.cfg', timeout=900)
    # the model of the algorithm must fail with each weakening
    text = open(os.path.join(SPEC, 'MCSharedAlg.cfg')).read()
    for k in (['DropAcquire', 'LockOnce'] if c.quick else ORDERS):
        f = c.path('weak-%s.cfg' % k)
        open(f, 'w').write(text.replace('%s = %s' % (k, ORDERS[k]), '%s = %s' % (k, 'FALSE' if ORDERS[k] == 'TRUE' else 'TRUE')))
        w = c.tlc('MCSharedAlg', f)
        if not (w.invariant and 'bad = "' in w.out):
            raise ToolError('the weakened algorithm (%s) was not refuted:\n%s' % (k, w.out[-3000:]))
        c.notes['refuted_weakenings_of_the_algorithm'] = c.notes.get('refuted_weakenings_of_the_algorithm', 0) + 1
    e2 = c.emitted(c.model('MCOwners', 'MCOwnersEmit.cfg', workers=1, name='MCOwnersEmit.cfg (emits programs of two threads)').out)
    e3 = c.emitted(c.model('MCOwners', 'MCOwnersEmit3.cfg', workers=1, name='MCOwnersEmit3.cfg (emits programs of three threads)').out)
    c.notes['programs_from_model'] = len(e2) + len(e3)
    exe = build(c)
    progs = []

    def add(init, prog, keep, limits):
        progs.append(['limits %d %d %d' % limits] + ['thread %s %s' % (' '.join(map(str, i)), ' '.join(p)) for i, p in zip(init, prog)] +
                     ['keep %d' % k for k in keep])
    L2 = (4000, 10, -1) if c.quick else (20000, 40, -1)
    L3 = (3000, 10, -1) if c.quick else (40000, 40, -1)
    # every pair of operations at least once with owners and observers of one object
    by = {}
    for t in e2:
        by.setdefault((tuple(t['prog'][0]), tuple(t['prog'][1])), []).append(t)
    pick = []
    for k in sorted(by):
        if k[0] <= k[1]:
            own = [t for t in by[k] if sum(1 for i in t['init'] for o in i[:2] if o == 1) >= 1]
            pick += r.sample(own, 1 if c.quick else min(len(own), 6))
    for t in pick:
        add(t['init'], t['prog'], t['keep'], L2)
    for t in r.sample([t for t in e3 if any(i[0] for i in t['init'])], 60 if c.quick else 700):
        add(t['init'], t['prog'], t['keep'], L3)
    for n in range(60 if c.quick else 600):
        k = 2 if n % 3 else 3
        add([r.choice(INITS) for _ in range(k)], [[r.choice(OPS) for _ in range(r.randint(1, 4 if k == 2 else 3))] for _ in range(k)],
            r.choice([[], [], [1], [1, 2]]), (3000, 10, -1 if n % 2 else 2) if c.quick else (20000, 60, -1 if n % 2 else 3))
    W = 8
    parts = [progs[k::W] for k in range(W)]
    with ThreadPoolExecutor(W) as ex:
        outs = list(ex.map(lambda k: c.run_histories(exe, parts[k], name='p%d' % k, per_history=120), range(W)))
    hist, where, explored = [], [], {'executions': 0, 'redundant': 0}
    for k in range(W):
        for p, ev in zip(parts[k], outs[k]):
            if ev is None:
                continue
            n = 0
            for e in ev:
                if e['op'] == 'run':
                    hist.append(e['ev'])
                    where.append((p, n))
                    n += 1
                elif e['op'] == 'explored':
                    explored['executions'] += e['executions']
                    explored['redundant'] += e['redundant']
                else:
                    hist.append([{'op': 'start', 'cells': 0, 'vars': [[0, 0, 0, 0]], 'keep': []}, e])
                    where.append((p, n))
    c.notes['programs_run'] = len(progs)
    c.notes['interleavings_explored'] = explored['executions']
    c.notes['interleavings_equivalent_to_others'] = explored['redundant']

    def again(k):
        p, n = where[k]
        ev = c.run_histories(exe, [p], name='again', per_history=120)[0]
        runs = [e['ev'] for e in ev if e['op'] == 'run']
        if n < len(runs):
            return runs[n]
        return [{'op': 'start', 'cells': 0, 'vars': [[0, 0, 0, 0]], 'keep': []}] + [e for e in ev if e['op'] not in ('run', 'explored')][:1]
    n = 6000 if c.quick else 10000
    for k in range(0, len(hist), n):
        c.validate('TOwners', hist[k:k + n], scripts=[{'program': p, 'recorded': i} for p, i in where[k:k + n]], rerun=lambda j, k=k: again(k + j), timeout=900, heap='8g')
    c.sample({'program': where[0][0], 'execution': hist[0][:12]})
    # corrupted copies: a relaxed release, a destruction that is missing, a lock that fails although owned, a leak
    def relaxed(h):
        for e in h:
            e['e'] = False
    good = [h for h in hist if any(e['op'] == 'destroy' and e['t'] > 1 for e in h) and sum(1 for i in h[0]['vars'] if 1 in i[:2]) > 1]
    done = False
    for h in good:
        t = [e['t'] for e in h if e['op'] == 'destroy'][0]
        if any(e['op'] == 'access' and e['m'] == 'w' and e['t'] not in (1, t) for e in h):
            c.negative_control('TOwners', h, relaxed, label='relaxed releases')
            done = True
            break
    if not done:
        raise ToolError('no execution for the control of release operations')
    c.negative_control('TOwners', good[0], lambda h: h.remove([e for e in h if e['op'] == 'destroy'][0]), label='missing destruction')
    c.negative_control('TOwners', good[0], lambda h: h.remove([e for e in h if e['op'] == 'free'][-1]), label='leak')
    locks = [h for h in hist for e in h if e['op'] == 'ret' and e['r'] > 0 and h[0]['keep'] == [1]]
    for h in hist:
        open_ = {}
        hit = None
        if 1 in h[0]['keep']:
            for j, e in enumerate(h):
                if e['op'] == 'call':
                    open_[e['t']] = e['o']
                if e['op'] == 'ret' and open_.get(e['t']) in ('lock', 'locka', 'lockuse') and e['r'] == 1:
                    hit = j
        if hit is not None:
            c.negative_control('TOwners', h, lambda h, hit=hit: h[hit].__setitem__('r', 0), label='lock of an owned object failing')
            break
    c.assumptions.append('threads use their own pointer variables; interleavings of atomic and locking operations, with at most one spurious failure of weak compare-exchange per execution; '
                         'values are sequentially consistent, ordering is judged by happens-before')
