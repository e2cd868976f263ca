"""C30: the histories of the other properties under other language standards, compilers and optimisation."""
import importlib, threading
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import *

PARTS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C26', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C27', 'C28']
QUICK = [('g++', 'c++20', 'checked'), ('clang++', 'c++17', 'checked'), ('g++', 'c++11', '-O2')]
ALL = [(x, s, 'checked') for x in ('g++', 'clang++') for s in ('c++11', 'c++14', 'c++17', 'c++20')] + [(x, s, '-O2') for x in ('g++', 'clang++') for s in ('c++11', 'c++20')]
OPT = ['-O2', '-g0', '-fsanitize=address']      # the drivers tell objects by address: freed ones must not come back


class Dialect(Check):
    """A check of another property with other compiler settings and a sample of its histories."""
    jvm = ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1']        # many short runs side by side

    def __init__(self, pid, top, how, amount):
        Check.__init__(self, pid, 'quick')
        self.seed = top.seed
        self.top, self.how, self.amount = top, how, amount
        self.r2 = random.Random('%d/%s/%s' % (top.seed, pid, how))

    def log(self, *a):
        pass

    def build(self, sources, out=None, flags=ASAN, cxx='g++', extra=(), timeout=600):
        x, std, opt = self.how
        if opt != 'checked':
            flags = OPT
        if '-std=c++14' in extra and std == 'c++11':
            std = 'c++14'         # the driver itself needs it
        return self.top.once(('build', repr(sources), repr(flags), x, std, opt, repr(extra)),
                             lambda: Check.build(self, sources, out, flags, x, list(extra) + ['-std=' + std, '-D_GLIBCXX_USE_TBB_PAR_BACKEND=0'], timeout))

    def run_histories(self, exe, histories, **kw):
        # the caller's list itself becomes the sample: what it does with the positions afterwards stays right
        if len(histories) > self.amount:
            histories[:] = [histories[k] for k in sorted(self.r2.sample(range(len(histories)), self.amount))]
        return Check.run_histories(self, exe, histories, **kw)

    def tlc(self, module, cfg=None, env=None, workers=8, **kw):
        return Check.tlc(self, module, cfg, env, min(workers, 2), **kw)

    def model(self, module, cfg=None, name=None, **kw):
        if 'mit' not in (cfg or '') + (name or ''):
            return None            # laws of the specification: checked with the property itself
        def go():
            r = self.tlc(module, cfg, **kw)
            if not r.ok:
                raise ToolError('model %s (%s) failed:\n%s' % (module, cfg, r.out[-6000:]))
            return r
        return self.top.once(('model', module, cfg), go)

    def negative_control(self, *a, **kw):
        pass


def c30(c):
    lock, slots = threading.Lock(), {}

    def once(key, make):
        with lock:
            l = slots.setdefault(key, [threading.Lock(), None])
        with l[0]:
            if l[1] is None:
                l[1] = (make(),)
        return l[1][0]
    c.once = once
    import registry
    jobs = [(pid, how) for how in (QUICK[::-1] if c.quick else ALL) for pid in PARTS]      # the slow compilations first
    bad = []

    def job(j):
        pid, how = j
        if bad:
            return None
        mod, fn = registry.CHECKS[pid]
        d = Dialect(pid, c, how, 200 if c.quick else 1500)
        t = time.time()
        try:
            getattr(importlib.import_module(mod), fn)(d)
        except Violation as v:
            bad.append((pid, how, v))
        d.wall = time.time() - t
        if not bad:
            c.log('%s as %s: %d traces, %.1fs' % (pid, ' '.join(how), d.traces, d.wall))
        return d
    # every public header, alone and in two translation units of one program
    headers = sorted(h for h in os.listdir(os.path.join(REPO, 'include', 'Caitlyn')) if os.path.isfile(os.path.join(REPO, 'include', 'Caitlyn', h)) and '.' not in h)
    hows = [(x, s) for x in ('g++', 'clang++') for s in (('c++14', 'c++20') if c.quick else ('c++11', 'c++14', 'c++17', 'c++20'))]

    for h in headers:
        for k in range(2):
            with open(c.path('h-%s-%d.cpp' % (h, k)), 'w') as f:
                f.write('#include <Caitlyn/%s>\n#include <Caitlyn/%s>\n%s' % (h, h, 'int main() {}\n' if k else ''))

    def header(j):
        x, std = j[0]
        out = c.path('h-%s-%s-%s' % (j[1], x, std))
        r = subprocess.run([x] + CXXFLAGS + ['-O0', '-std=' + std, '-D_GLIBCXX_USE_TBB_PAR_BACKEND=0', '-I' + os.path.join(REPO, 'include')] + [c.path('h-%s-%d.cpp' % (j[1], k)) for k in range(2)] + ['-o', out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            bad.append(('C27', j[0], Violation('Caitlyn/%s cannot be included' % j[1], {'kind': 'build', 'output': r.stdout.decode('utf-8', 'replace')[:4000]})))
    c.build('mem.cpp', out='sane', flags=['-O0'])       # the compilers are in order
    c.build('mem.cpp', out='sane2', flags=['-O0'], cxx='clang++')
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(header, [(how, h) for how in hows for h in headers]))
    c.notes['headers'] = len(headers) * len(hows)
    c.log('%d headers in %d dialects' % (len(headers), len(hows)))
    with ThreadPoolExecutor(6) as ex:
        done = list(ex.map(job, jobs))
    if bad:
        pid, how, v = bad[0]
        raise Violation('%s under %s: %s' % (pid, ' '.join(how), v.what), dict(v.data, dialect=how, of=pid))
    for (pid, how), d in zip(jobs, done):
        c.states += d.states
        c.transitions += d.transitions
        c.traces += d.traces
        c.parts.append({'property': pid, 'dialect': ' '.join(how), 'traces': d.traces, 'wall_s': round(d.wall, 2)})
    c.notes['dialects'] = [' '.join(h) for h in (QUICK if c.quick else ALL)]
    c.sample({'dialect': ' '.join(jobs[0][1]), 'property': jobs[0][0], 'traces': done[0].traces})
    c.assumptions.append('<execution>, which the library includes since C++17, is used without TBB (libstdc++ would have programs linked with it); gcc 13 and clang 18 with libstdc++ on x86-64 Linux; samples of the histories of the other properties')
