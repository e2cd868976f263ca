"""C31: the histories of the other properties run by several threads at a time, on objects of their own and on objects they only read."""
import importlib, threading
from concurrent.futures import ThreadPoolExecutor
from vf import *
from c_dialect import Dialect

PARTS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C26', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19', 'C20', 'C21', 'C22', 'C28']
WIDTH = 4                 # threads of a batch (driver.h)
FLAGS = ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-DDRV_THREADS']
WRAP = ['-Wl,--wrap=__tsan_atomic%d_%s' % (n, o) for n in (8, 16, 32, 64) for o in ('load', 'store', 'exchange', 'fetch_add', 'fetch_sub', 'compare_exchange_strong', 'compare_exchange_weak')] + \
       ['-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_unlock']
TSAN = {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'}


class Parallel(Dialect):
    """A check of another property whose driver runs its histories by threads."""
    def __init__(self, pid, top, amount):
        Dialect.__init__(self, pid, top, ('g++', 'c++14', 'threads'), amount)
        self.last = []
        self.races = 0

    def build(self, sources, out=None, flags=ASAN, cxx='g++', extra=(), timeout=600):
        extra = [x for x in extra if not x.startswith('-std=')] + ['-std=c++14']
        sources = ([sources] if isinstance(sources, str) else list(sources)) + ['delay.cpp']
        return self.top.once(('build', repr(sources), repr(extra)), lambda: Check.build(self, sources, out, FLAGS, 'g++', extra + WRAP, timeout))

    def run_histories(self, exe, histories, **kw):
        kw['env'] = TSAN
        if len(histories) > 1:
            # of every kind some, and each twice: one thread does the same as another
            kinds = {}
            for h in histories:
                kinds.setdefault(' '.join(re.sub(r'[.\d]+$', '', w) for w in h[0].split()[:2]) if h else '', []).append(h)
            kinds = [self.r2.sample(kinds[k], len(kinds[k])) for k in sorted(kinds)]
            pick = [k[n] for n in range(max(map(len, kinds))) for k in kinds if n < len(k)][:self.amount // 2]
            histories[:] = [h for h in pick for _ in range(2)]
            ev = self.check(Check.run_histories(self, exe, histories, **kw))
            self.last.append((list(histories), ev))
            return ev
        # a history is confirmed together with those it ran with
        for hs, ev in self.last:
            for k, h in enumerate(hs):
                if h is histories[0] or h == histories[0]:
                    # what was recorded is what happened: threads may need luck to meet again.  Only what could be the
                    # fault of the machine (a time limit, a killed process) has to happen once more.
                    first = ev[k] or []
                    if not (first and first[-1]['op'] == 'crash') or 'data race' in first[-1].get('stderr', ''):
                        return [first]
                    for n in range(5):
                        s = (k, k - k % WIDTH)[n % 2]
                        again = self.check(Check.run_histories(self, exe, hs[s:s + WIDTH], **kw))
                        hit = [e for e in again if e and e[-1]['op'] == 'crash']
                        if hit:
                            return hit
                    return [again[k - s]]
        return self.check(Check.run_histories(self, exe, histories, **kw))

    def check(self, ev):
        for h in ev:
            for e in h or ():
                if e['op'] == 'crash' and 'FATAL: ThreadSanitizer' in e.get('stderr', ''):
                    raise ToolError('the race detector does not work here:\n' + e['stderr'])
        return ev


def c31(c):
    lock, slots = threading.Lock(), {}

    def once(key, make):
        with lock:
            l = slots.setdefault(key, [threading.Lock(), None])
        with l[0]:
            if l[1] is None:
                l[1] = (make(),)
        return l[1][0]
    c.once = once
    def models():
        c.model('Parallel', 'MCParallel.cfg', name='Parallel (2 threads, 3 operations each)', workers=4)
        if not c.quick:
            c.model('Parallel', 'MCParallel3.cfg', name='Parallel (3 threads, 2 operations each)')
        # shared scratch areas, caches filled by reading and shared counts must be refuted
        text = open(os.path.join(SPEC, 'MCParallel.cfg')).read()
        for k, inv in (('Scratch', 'NoRace'), ('Scratch', 'Undisturbed'), ('Cache', 'NoRace'), ('Count', 'NoRace')):
            f = c.path('weak-%s-%s.cfg' % (k, inv))
            with open(f, 'w') as o:
                o.write(text.replace('%s = FALSE' % k, '%s = TRUE' % k).replace('NoRace Undisturbed Untouched', inv))
            w = c.tlc('Parallel', f, workers=2)
            if not w.invariant:
                raise ToolError('the weakened threads (%s) were not refuted:\n%s' % (k, w.out[-3000:]))
            c.notes['refuted_weakenings'] = c.notes.get('refuted_weakenings', 0) + 1

    def control():
        # the machinery sees races, and only races
        exe = c.build(['racy.cpp', 'delay.cpp'], flags=FLAGS + WRAP)
        for op in ('own', 'shared'):
            ev = c.run_histories(exe, [[op]] * 8, name=op, env=TSAN, max_crashes=1)
            races = [e for h in ev for e in h or () if e['op'] == 'crash' and 'data race' in e['stderr']]
            if bool(races) != (op == 'shared') or op == 'own' and any(h != [{'op': 'own', 'v': 1000}] for h in ev):
                raise ToolError('the race detector does not work here: %s %s' % (op, ev))
        c.notes['negative_controls'] = 1
    import registry
    bad = []

    def job(pid):
        if bad:
            return None
        mod, fn = registry.CHECKS[pid]
        d = Parallel(pid, c, 400 if c.quick else 3000)
        t = time.time()
        try:
            getattr(importlib.import_module(mod), fn)(d)
        except Violation as v:
            bad.append((pid, v))
        d.wall = time.time() - t
        if not bad:
            c.log('%s by threads: %d traces, %.1fs' % (pid, d.traces, d.wall))
        return d
    with ThreadPoolExecutor(4) as ex:
        first = [ex.submit(models), ex.submit(control)]
        done = list(ex.map(job, PARTS))
        for f in first:
            f.result()
    if bad:
        pid, v = bad[0]
        raise Violation('%s by threads: %s' % (pid, v.what), dict(v.data, of=pid))
    for pid, d in zip(PARTS, done):
        c.states += d.states
        c.transitions += d.transitions
        c.traces += d.traces
        c.parts.append({'property': pid, 'threads': WIDTH, 'traces': d.traces, 'wall_s': round(d.wall, 2)})
    c.sample({'property': PARTS[0], 'threads': WIDTH, 'traces': done[0].traces})
    c.assumptions.append('races are found by happens-before (ThreadSanitizer) on the executions that were run, whatever order the accesses came in; histories of the other properties in batches of four threads; '
                         'objects that are only read are looked at by two threads at once; standard library code that is not in headers is trusted')
