"""Framework shared by all checks: building drivers, running histories, TLC runs, verdicts, evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, random, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRV = os.path.join(VERIF, 'drivers')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXXFLAGS = ['-std=c++11', '-include', 'cstdint', '-w', '-pthread']
# as checked as can be: a use of a container outside its bounds ends the process
ASAN = ['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1']


class ToolError(Exception):
    """Something in the machinery failed: exit 2, no verdict."""


class Violation(Exception):
    def __init__(self, what, data):
        self.what, self.data = what, data


class TlcResult:
    pass


class Check:
    jvm = ['-XX:+UseParallelGC']

    def __init__(self, pid, tier=None):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        os.chmod(self.work, 0o755)
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.findings = []
        self.parts = []

    @property
    def quick(self):
        return self.tier == 'quick'

    def rng(self, salt=''):
        return random.Random('%d/%s/%s' % (self.seed, self.pid, salt))

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------------------------------------------
    def build(self, sources, out=None, flags=ASAN, cxx='g++', extra=(), timeout=400):
        if isinstance(sources, str):
            sources = [sources]
        out = self.path(out or os.path.splitext(os.path.basename(sources[0]))[0])
        base = [cxx] + CXXFLAGS + list(flags) + ['-I' + os.path.join(REPO, 'include'), '-I' + DRV] + list(extra)
        env = dict(os.environ, LC_ALL='C.UTF-8')
        for v in ('CXXFLAGS', 'CPPFLAGS', 'LDFLAGS', 'CPATH', 'CPLUS_INCLUDE_PATH'):
            env.pop(v, None)
        objs, procs = [], []
        for k, s in enumerate(sources):
            src = s if os.path.isabs(s) else os.path.join(DRV, s)
            o = out + '.%d.o' % k
            objs.append(o)
            procs.append(subprocess.Popen(base + ['-c', src, '-o', o], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, env=env, cwd=self.work))
        fail = None
        for s, p in zip(sources, procs):
            txt = p.communicate(timeout=timeout)[0].decode('utf-8', 'replace')
            if p.returncode:
                fail = (s, txt)
        if fail is None:
            r = subprocess.run(base + objs + ['-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                               timeout=timeout, cwd=self.work)
            if r.returncode:
                fail = ('link', r.stdout.decode('utf-8', 'replace'))
        if fail:
            # Is the compiler itself in order?  Then the API the property is stated over no longer compiles.
            t = self.path('sane.cpp')
            with open(t, 'w') as f:
                f.write('#include <vector>\nint main(){std::vector<int> v(3);return v.size()-3;}\n')
            ok = subprocess.run([cxx] + CXXFLAGS + list(flags) + [t, '-o', t + '.x'], env=env,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            if not ok:
                raise ToolError('compiler does not work')
            raise Violation('the library no longer compiles or links as used by %s' % fail[0],
                            {'kind': 'build', 'output': fail[1][:6000]})
        return out

    # ---- running histories through a driver -----------------------------------------------------------------
    def run_histories(self, exe, histories, name='h', per_history=20, args=(), max_crashes=6, env=None, cwd=None):
        """histories: list of list of op lines (str).  Returns list of event lists; a crash adds a crash event."""
        inp = self.path(name + '.ops')
        with open(inp, 'w') as f:
            for h in histories:
                f.write('H\n')
                for l in h:
                    f.write(l + '\n')
        out = [None] * len(histories)
        start, crashes = 0, 0
        e = dict(os.environ, LC_ALL='C.UTF-8',
                 ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1',
                 UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99')
        if env:
            e.update(env)
        while start < len(histories):
            logf = self.path('%s.%d.log' % (name, start))
            errf = self.path('%s.%d.err' % (name, start))
            with open(errf, 'wb') as ef:
                p = subprocess.Popen([exe, inp, logf, str(start), str(per_history)] + list(args), stdin=subprocess.DEVNULL,
                                     stdout=subprocess.DEVNULL, stderr=ef, env=e, cwd=cwd or self.work, start_new_session=True)
                try:
                    rc = p.wait(timeout=max(60, per_history * 4 + 600))
                except subprocess.TimeoutExpired:
                    rc = -9
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            cur = start - 1
            if os.path.exists(logf):
                with open(logf, 'rb') as f:
                    for line in f:
                        line = line.rstrip(b'\n')
                        if line.startswith(b'H '):
                            cur = int(line[2:])
                            out[cur] = []
                        elif line.startswith(b'{'):
                            try:
                                out[cur].append(json.loads(line.decode('utf-8')))
                            except ValueError:
                                pass   # cut off by a crash
                        elif line == b'END':
                            cur = len(histories)
            early = open(errf, errors='replace').read() if cur < start else ''
            if cur < start and (rc == -signal.SIGALRM or rc not in (0, -9) and re.search(r'Sanitizer: (?!CHECK)|runtime error|terminate called|Assertion', early)):
                # the first uses of the library, before any history, went wrong
                out[start] = [{'op': 'crash', 'why': 'exit code %s before the first operation' % rc, 'stderr': early[:3000]}]
                break
            if not os.path.exists(logf):
                raise ToolError('driver wrote no log: ' + early[-2000:])
            if rc == 0 and cur == len(histories):
                break
            if cur < start:
                raise ToolError('driver failed before the first history (rc=%s): %s' %
                                (rc, open(errf, errors='replace').read()[-2000:]))
            if cur >= len(histories):
                cur = len(histories) - 1
            why = 'exit code %s' % rc
            if rc == -signal.SIGALRM or rc == -9:
                why = 'timeout'
            err = open(errf, errors='replace').read()
            out[cur].append({'op': 'crash', 'why': why, 'stderr': err[:3000]})
            crashes += 1
            start = cur + 1
            if crashes >= max_crashes:
                for k in range(start, len(histories)):
                    out[k] = None
                break
        return out

    # ---- TLC ------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, args=(), heap='4g', deadlock=True, name=None, want_out=False):
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cfg = cfg or module + '.cfg'
        if not os.path.isabs(cfg):
            cfg = os.path.join(SPEC, cfg)
        cmd = ['java'] + self.jvm + ['-Xmx' + heap, '-Xss256m', '-cp', TLA_CP,
               '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + meta, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg] + ([] if deadlock else ['-deadlock']) + list(args) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        if env:
            e.update(env)
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + module)
        out = r.stdout.decode('utf-8', 'replace')
        shutil.rmtree(meta, ignore_errors=True)
        res = TlcResult()
        res.out, res.rc, res.wall = out, r.returncode, time.time() - t
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        res.generated = int(m[-1][0].replace(',', '')) if m else 0
        res.distinct = int(m[-1][1].replace(',', '')) if m else 0
        if not m:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                res.generated = res.distinct = int(m[-1].replace(',', ''))
        res.deadlock = 'Deadlock reached' in out
        res.invariant = re.search(r'(Invariant|Action property|Temporal properties|property) (\S+)? ?(is|was|were) violated', out)
        res.error = r.returncode != 0
        # an event the specification cannot even evaluate (a crash, a value of another kind): no step of it either
        res.stuck = res.deadlock or bool(res.invariant) or (
            ('Attempted to' in out or 'Overflow when computing' in out) and 'behavior up to this point' in out) and 'StackOverflow' not in out and 'OutOfMemory' not in out
        res.ok = r.returncode == 0
        return res

    def model(self, module, cfg=None, name=None, **kw):
        """Exhaustive model run: must succeed; a failure is an error of the specification, not of the code."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise ToolError('model %s (%s) failed:\n%s' % (module, cfg, r.out[-6000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({'model': name or (cfg or module), 'distinct_states': r.distinct, 'transitions': r.generated,
                           'wall_s': round(r.wall, 2)})
        self.log('model %s: %d distinct states, %d transitions, %.1fs' % (cfg or module, r.distinct, r.generated, r.wall))
        return r

    def emitted(self, out, tag='T:'):
        """Tests printed by a model as PrintT("T:" \\o ToJson(x))."""
        tests = []
        for line in out.splitlines():
            if line.startswith('"' + tag):
                s = line.strip()
                try:
                    tests.append(json.loads(json.loads(s)[len(tag):]))
                except ValueError:
                    # TLC prints strings with \" and \\ escapes only
                    body = s[1 + len(tag):-1].replace('\\"', '"').replace('\\\\', '\\')
                    tests.append(json.loads(body))
        return tests

    def _validate_once(self, module, cfg, hist, env=None, workers=8, timeout=600, heap='4g'):
        f = self.path('trace-%d.ndjson' % time.monotonic_ns())
        with open(f, 'w') as o:
            for h in hist:
                line = json.dumps(h, separators=(',', ':'))
                if re.search(r'[:,\[]-?\d{10}', line):       # the specifications' integers have 32 bits
                    line = json.dumps(clamped(h), separators=(',', ':'))
                o.write(line + '\n')
        e = {'TRACE_FILE': f}
        if env:
            e.update(env)
        r = self.tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
        os.unlink(f)
        return r

    def rejected_at(self, r):
        """(history, position) of the state TLC could not continue from."""
        hs = re.findall(r'^(?:/\\ )?h = (\d+)', r.out, re.M)
        is_ = re.findall(r'^(?:/\\ )?i = (\d+)', r.out, re.M)
        if hs and is_:
            return int(hs[-1]), int(is_[-1])
        return None

    def validate(self, module, histories, cfg=None, scripts=None, rerun=None, describe=None, env=None, workers=8, timeout=600, heap='4g', chunk=None, label=None):
        """Trace validation.  histories: list of event lists (None entries are skipped: not run after many crashes).
        rerun(k) -> event list of a fresh execution of history k (to confirm a rejection).
        Raises Violation for the first rejected history that is not a known finding."""
        idx = [k for k, h in enumerate(histories) if h is not None]
        skip = set()
        known = known_findings(self.pid)
        while True:
            run = [k for k in idx if k not in skip]
            if not run:
                return
            r = self._validate_once(module, cfg, [histories[k] for k in run], env, workers, timeout, heap)
            if r.ok:
                self.states += r.distinct
                self.transitions += r.generated
                self.traces += len(run)
                self.parts.append({'trace_spec': label or module, 'traces': len(run), 'events': sum(len(histories[k]) for k in run),
                                   'distinct_states': r.distinct, 'wall_s': round(r.wall, 2)})
                self.log('validated %d traces (%d events) against %s, %.1fs' %
                         (len(run), sum(len(histories[k]) for k in run), label or module, r.wall))
                return
            pos = self.rejected_at(r) if r.stuck else None
            if pos is None:
                raise ToolError('trace validation with %s failed:\n%s' % (module, r.out[-6000:]))
            k = run[pos[0] - 1]
            # confirm on a fresh execution
            h2 = histories[k]
            if rerun is not None:
                for n in range(4):
                    h2 = rerun(k)
                    r2 = self._validate_once(module, cfg, [h2], env, 1, timeout, heap)
                    if not r2.ok:
                        break
                else:
                    # what the memory happened to hold may matter, and what was recorded did happen; only what can be the
                    # fault of the machine (a killed process, a time limit) does not count without happening again
                    last = histories[k][-1]
                    if last.get('op') == 'crash' and not re.search('Sanitizer|runtime error|Assertion', last.get('stderr', '')):
                        raise ToolError('rejection of history %d is not repeatable' % k)
                    h2 = histories[k]
                    r2 = self._validate_once(module, cfg, [h2], env, 1, timeout, heap)
                if r2.ok or not r2.stuck:
                    raise ToolError('confirming run failed:\n' + r2.out[-4000:])
                p2 = self.rejected_at(r2)
            else:
                p2 = (1, pos[1])
            ev = h2[p2[1] - 1] if p2 and p2[1] <= len(h2) else {'op': 'end of history'}
            data = {'kind': 'trace', 'spec': module, 'rejected_event': ev, 'position': p2[1] if p2 else None,
                    'history': h2, 'script': scripts[k] if scripts else None, 'what': describe(k) if describe else None}
            key = json.dumps(scripts[k] if scripts else h2, sort_keys=True)
            kf = [x for x in known if x['match'] in key]
            if kf:
                line = 'KNOWN-FINDING: property=%s %s' % (self.pid, kf[0]['what'])
                if line not in self.findings:
                    self.findings.append(line)
                    print(line, flush=True)
                skip.add(k)
                continue
            raise Violation('event %s is not a step of the specification %s' % (json.dumps(ev)[:600], module), data)

    def negative_control(self, module, history, corrupt, cfg=None, env=None, label=''):
        """A corrupted copy of an accepted history must be rejected: shows the specification is really bound."""
        h = json.loads(json.dumps(history))
        corrupt(h)
        r = self._validate_once(module, cfg, [h], env, 1)
        if r.ok or not (r.deadlock or r.invariant):
            raise ToolError('negative control %s of %s was accepted or failed:\n%s' % (label, module, r.out[-3000:]))
        self.notes['negative_controls'] = self.notes.get('negative_controls', 0) + 1

    # ---- end ------------------------------------------------------------------------------------------------
    def evidence(self, violations):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'samples': self.samples[:4], 'parts': self.parts, **self.notes},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write('\n')

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x, ensure_ascii=False)
            self.samples.append(x if len(s) < 3000 else s[:3000] + '...')


def clamped(x):
    if isinstance(x, list):
        return [clamped(y) for y in x]
    if isinstance(x, dict):
        return {k: clamped(y) for k, y in x.items()}
    return max(-2 ** 31, min(2 ** 31 - 1, x)) if type(x) is int else x


def known_findings(pid):
    """known_findings.txt: lines  'finding: property=<id> match=<json-escaped text of the failing script> what=<text>'."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) what=(.*)', l.strip())
            if m and m[1] == pid:
                out.append({'match': m[2], 'what': m[3]})
    return out


def main(pid, fn, tier=None):
    c = Check(pid, tier)
    try:
        fn(c)
    except Violation as v:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%d.json' % (pid, c.tier, c.seed))
        with open(p, 'w') as f:
            json.dump({'property': pid, 'what': v.what, 'data': v.data}, f, indent=1, ensure_ascii=False, default=str)
        c.evidence(1)
        c.log(v.what)
        print('VIOLATION property=%s replay=%s' % (pid, p), flush=True)
        return 1
    except ToolError as e:
        print('ERROR property=%s: %s' % (pid, e), file=sys.stderr, flush=True)
        return 2
    c.evidence(0)
    c.log('held: %d states, %d transitions, %d traces' % (c.states, c.transitions, c.traces))
    return 0
