"""C21, C22: file histories against spec/Files.tla."""
from vf import *

PIECES = [b'', b'a', b'bc', b'\n', b'\n\n', b'x\n', b'\ny', b'a;b', b';', b'{}', b'{0}', b'}{', b'{', b'\r\n', b'\t', '\u00e4'.encode(), '\u4e2d'.encode(), '\U0001F600'.encode(),
          b'line one\nline two\n', b'%d%s', b'\\n', b' ', b'\xc3\xa9\n\xc3\xa9']
DELIMS = [10, 10, 10, 59, 97, 32]


def hx(b):
    return 'x' + b.hex()


def text(r, big=False):
    if big and r.random() < .2:
        return b''.join(r.choice(PIECES) for _ in range(r.choice([50, 3000])))
    return b''.join(r.choice(PIECES) for _ in range(r.choice([0, 1, 1, 2, 3])))


def run(c, hs, corrupt, neg):
    exe = c.build('file.cpp')
    d = c.path('files')
    os.makedirs(d)
    go = lambda hs, name='h': c.run_histories(exe, hs, name=name, cwd=d)
    ev = go(hs)
    c.validate('TFiles', ev, scripts=hs, rerun=lambda k: go([hs[k]], 'again')[0])
    c.notes['skipped_steps'] = sum(1 for h in ev if h for e in h if e['op'] == 'skip')
    for k in (len(hs) // 3, len(hs) - 1):
        c.sample({'script': hs[k][:8], 'events': ev[k][:3]})
    for k in range(len(hs) - 1, -1, -1):
        if ev[k] and neg(ev[k]) and len(json.dumps(ev[k])) < 60000:
            c.negative_control('TFiles', ev[k], corrupt)
            return
    raise ToolError('no history for the negative control')


def emitted(c, limit):
    r = c.rng('emit')
    m = c.model('MCFiles', 'MCFilesEmit.cfg', workers=1, name='MCFilesEmit.cfg (emits one test per transition)')
    tests = c.emitted(m.out)
    c.notes['tests_from_model_transitions'] = len(tests)
    if c.quick and len(tests) > limit:
        tests = r.sample(tests, limit)
    sub = {7: b'a', 10: b'\n'}
    hs = []
    for t in tests:
        h = []
        for e in t:
            v = e.get('p', e.get('b', e.get('delim', e.get('pos', r.randint(0, 6) if e['op'] == 'refuse' else 0))))
            h.append('%s.%d %d %d %s' % (e['op'], r.randint(0, 23), e['o'], v, hx(b''.join(sub[x] for x in e.get('x', [])))))
        hs.append(h)
    return hs


def c21(c):
    r = c.rng()
    c.model('MCFiles', name='MCFiles (1 path, 2 objects)')
    c.model('MCFiles', 'MCFilesDeep.cfg', name='MCFiles (2 paths, 2 objects)')
    hs = emitted(c, 2500)
    # every way of writing, with every text, after every state of the object
    for op in ('write', 'writeLine', 'append', 'appendLine'):
        for how in range(8):
            for pre in (b'', b'old', b'old\n'):
                h = ['prefill.0 1 1 ' + hx(pre), 'make.%d 1 1' % how, 'make.%d 2 1' % how]
                for x in PIECES[:20]:
                    for before in ([], ['readLine 1 10'], ['read 1 0'], ['close 1 0'], ['readLine 1 10', 'readLine 1 10'], ['setPos 1 1'], ['close 1 0', 'open 1 0']):
                        if r.random() < (.12 if c.quick else .5):
                            h += before + ['%s.%d 1 0 %s' % (op, how, hx(x)), r.choice(['read 2 0', 'readLine 2 10', 'writeLine.1 2 0 ' + hx(b'2'), 'readLine 1 10'])]
                hs.append(h)
    for n in range(350 if c.quick else 6000):
        h = []
        if r.random() < .4:
            h.append('prefill.0 1 %d %s' % (r.randint(1, 2), hx(text(r, True))))
        for _ in range(r.choice([10, 25, 50])):
            o = r.randint(1, 3)
            op = r.choice(['make'] * 4 + ['copy', 'refuse', 'del', 'open', 'close', 'close', 'close', 'erase', 'vanish', 'prefill', 'read', 'readLine', 'readLine', 'setPos'] + ['write', 'writeLine', 'append', 'appendLine'] * 4)
            how = r.randint(0, 23)
            v = {'make': r.randint(1, 2), 'vanish': r.randint(1, 2), 'prefill': r.randint(1, 2), 'copy': r.randint(1, 3), 'refuse': r.randint(0, 6), 'readLine': r.choice(DELIMS), 'setPos': r.randint(0, 12)}.get(op, 0)
            h.append('%s.%d %d %d %s' % (op, how, o, v, hx(text(r, n % 10 == 0))))
        h += ['make 1 1', 'read 1 0', 'make 2 2', 'read 2 0']
        hs.append(h)
    # texts and contents around and beyond the sizes of buffers
    for n in (255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193) + ((65535, 65536, 65537) if c.quick else (65535, 65536, 65537, 200000)):
        x = (PIECES[r.randint(10, 22)] * n)[:n - 1].decode('utf-8', 'ignore').encode() + b'z'
        for op in ('write', 'writeLine', 'append', 'appendLine'):
            if n < 60000 or r.random() < .4:
                hs.append(['make 1 1', '%s.%d 1 0 %s' % (op, r.randint(0, 7), hx(x)), '%s.%d 1 0 %s' % (r.choice(['write', 'append', 'writeLine']), r.randint(0, 7), hx(r.choice(PIECES))), 'read 1 0', 'close 1 0', 'appendLine.%d 1 0 %s' % (r.randint(0, 7), hx(x[:40].decode('utf-8', 'ignore').encode()))])
    hs.append(['make 1 1'] + ['%s.%d 1 0 %s' % (r.choice(['append', 'write', 'writeLine']), r.randint(0, 7), hx(text(r))) for _ in range(300)] + ['read 1 0'])

    def corrupt(h):
        e = [e for e in h if e['op'].startswith(('write', 'append')) and e['x']][-1]
        e['x'] = e['x'] + [65]
    run(c, hs, corrupt, lambda h: any(e['op'].startswith(('write', 'append')) and e['x'] for e in h))
    c.assumptions.append('the disk content is read back by the driver through stdio after every call; files only in a scratch directory')


def c22(c):
    r = c.rng()
    c.model('MCFiles', name='MCFiles (1 path, 2 objects; laws of reading)')
    hs = emitted(c, 1500)
    # every short content, read by lines with every delimiter, from every position
    import itertools
    for n in range(0, 5 if c.quick else 6):
        for t in itertools.product(b'a\n;', repeat=n):
            pre = bytes(t)
            h = ['prefill.0 1 1 ' + hx(pre), 'make.0 1 1']
            h += ['readLine.%d 1 10' % (k % 2) for k in range(n + 3)]
            for p in range(n + 2):
                h += ['setPos 1 %d' % p, 'readLine.1 1 %d' % r.choice([10, 59]), 'readLine.0 1 %d' % r.choice([10, 59]), 'read 1 0']
            hs.append(h)
    for n in range(400 if c.quick else 7000):
        h = ['prefill.0 1 %d %s' % (r.randint(1, 2), hx(text(r, n % 5 == 0) + text(r, n % 7 == 0)))]
        for _ in range(r.choice([10, 25, 60])):
            o = r.randint(1, 3)
            op = r.choice(['make'] * 4 + ['copy', 'del', 'open', 'close', 'close', 'read', 'read', 'setPos', 'setPos', 'erase', 'vanish', 'prefill'] + ['readLine'] * 14 + ['write', 'writeLine', 'append', 'appendLine'])
            how = r.randint(0, 23)
            v = {'make': r.randint(1, 2), 'vanish': r.randint(1, 2), 'prefill': r.randint(1, 2), 'copy': r.randint(1, 3), 'readLine': r.choice(DELIMS), 'setPos': r.choice([0, 0, 1, 2, 3, 5, 9, 30])}.get(op, 0)
            h.append('%s.%d %d %d %s' % (op, how, o, v, hx(text(r))))
        hs.append(h)

    # lines and contents around and beyond the sizes of buffers
    for n in (127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193) + ((65535, 65536, 65537) if c.quick else (65535, 65536, 65537, 200000)):
        x = (PIECES[r.randint(10, 17)].replace(b'\n', b'') * n)[:n - 1].decode('utf-8', 'ignore').encode() + b'z'
        pre = x + r.choice([b'\n', b'\nrest', b'', b'\n\n', b';\n']) + (x[:n - 1].decode('utf-8', 'ignore').encode() if n < 60000 else b'')
        hs.append(['prefill.0 1 1 ' + hx(pre), 'make.0 1 1', 'readLine.0 1 10', 'readLine.1 1 10', 'readLine.0 1 10', 'setPos 1 %d' % (n - 1), 'readLine.%d 1 10' % r.randint(0, 1), 'setPos 1 %d' % r.choice([n // 2, len(pre), len(pre) + 1]), 'read 1 0', 'readLine.1 1 59'])
    pre = b''.join(r.choice([b'', b'a', b'xyz', b'12']) + b'\n' for _ in range(400))
    hs.append(['prefill.0 1 1 ' + hx(pre), 'make.0 1 1'] + ['readLine.%d 1 10' % r.randint(0, 1) for _ in range(403)])

    def corrupt(h):
        e = [e for e in h if e['op'] == 'readLine'][-1]
        k = e['o'] - 1
        e['objs'][k][0] += 1
    run(c, hs, corrupt, lambda h: any(e['op'] == 'readLine' for e in h))
    c.assumptions.append('content is valid UTF-8 and delimiters are ASCII characters; positions are not negative; only open files are positioned')
