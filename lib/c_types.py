"""C29: what the traits say about generated types, against spec/Types.tla."""
from vf import *


def cpp(t):
    k, s = t['k'], [cpp(x) for x in t['s']]
    if k == 'fund':
        b = 'std::nullptr_t' if t['n'] == 'nullptr_t' else t['n']
    elif k == 'user':
        b = 'U::' + t['n']
    elif k == 'ptr':
        b = 'Ptr<%s>' % s[0]
    elif k == 'lref':
        b = 'LRef<%s>' % s[0]
    elif k == 'rref':
        b = 'RRef<%s>' % s[0]
    elif k == 'arr':
        b = 'Arr<%s, %s>' % (s[0], t['n']) if t['n'] else 'ArrU<%s>' % s[0]
    elif k == 'fun':
        b = {'': 'Fn', 'const': 'FnC', '&': 'FnL', 'const&&': 'FnCR'}[t['n']] + '<%s>' % ', '.join(s)
    elif k == 'mptr':
        b = 'MPtr<%s>' % ', '.join(s)
    if t['c']:
        b = 'Const<%s>' % b
    if t['v']:
        b = 'Volatile<%s>' % b
    return b


def fund(n, c=False, v=False, k='fund', s=()):
    return {'k': k, 'n': n, 'c': c, 'v': v, 's': list(s)}


def ptr(t):
    return fund('', k='ptr', s=[t])


# classes that differ in their operations only
TINY = {'CopyTriv', 'MoveAssignTriv', 'CopyAssignTriv', 'MoveCtorTriv', 'CopyCtorTriv', 'DefTriv', 'NoAssign', 'NoCopyAssign', 'AssignOnly', 'MoveThrows', 'CopyNothrow', 'NoMoveAssign', 'NoMoveCtor'}

CONST = r'''
static_assert(Caitlyn::TrueType::Value && !Caitlyn::FalseType::Value, "");
static bool constants()
{
    constexpr bool t = Caitlyn::TrueType()(), f = Caitlyn::FalseType()();
    return t && !f && static_cast<bool>(Caitlyn::TrueType()) && !static_cast<bool>(Caitlyn::FalseType()) && Caitlyn::BooleanConstant<true>::Type::Value && !Caitlyn::BooleanConstant<false>::Type::Value
        && std::is_same<Caitlyn::TrueType::ValueType, bool>::value == std::is_same<Caitlyn::FalseType::ValueType, bool>::value;
}
static bool values()
{
    int x = 1; const int y = 2; U::Plain p = {3};
    int&& m = Caitlyn::MakeMovable(x); int& l = Caitlyn::Forward<int&>(x); int&& r = Caitlyn::Forward<int>(x); const int& c = Caitlyn::Forward<const int&>(y); U::Plain&& q = Caitlyn::MakeMovable(p);
    return &m == &x && &l == &x && &r == &x && &c == &y && &q == &p;
}
'''


def run(c, tests, pairs, std, tag, parts=8):
    """One program per part; each part's types are one history."""
    files, hs = [], []
    main = 'int main(int, char** a) { FILE* f = fopen(a[1], "w"); %s fclose(f); }\n'
    for k in range(parts):
        body = '#include "types.h"\n' + (CONST if k == 0 else '')
        body += 'void part%d(FILE* f)\n{\n' % k
        if k == 0:
            body += '    fprintf(f, "{\\"op\\":\\"const\\",\\"good\\":%s}\\n", constants() && values() ? "true" : "false");\n'
        body += ''.join('    row<%s>(f);\n' % cpp(t) for t in tests[k::parts])
        body += ''.join('    pairs<%s, %s>(f);\n' % (cpp(t), cpp(u)) for t, u in pairs[k::parts])
        body += '    fprintf(f, "END\\n");\n}\n'
        if k == 0:
            body += ''.join('void part%d(FILE*);\n' % j for j in range(1, parts)) + main % ' '.join('part%d(f);' % j for j in range(parts))
        p = c.path('types_%s_%d.cpp' % (tag, k))
        with open(p, 'w') as f:
            f.write(body)
        files.append(p)
    exe = c.build(files, out='types_' + tag, flags=['-O0'], extra=['-std=' + std], timeout=600)
    out = c.path('types_%s.log' % tag)
    r = subprocess.run([exe, out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        raise Violation('the generated program of type questions failed', {'kind': 'run', 'output': r.stderr.decode('utf-8', 'replace')[:2000]})
    evs, cur = [], []
    for line in open(out):
        if line.startswith('END'):
            evs.append(cur)
            cur = []
        else:
            cur.append(json.loads(line))
    # one history per few questions, so that a rejection names them
    hs = [e[a:a + 10] for e in evs for a in range(0, len(e), 10)]
    asked = {json.dumps(t, sort_keys=True) for t in tests}
    told = {json.dumps(e['t'], sort_keys=True) for h in hs for e in h if e['op'] == 'type'}
    if asked != told:
        raise ToolError('the program describes other types than those asked about: %s' % list(asked ^ told)[:3])
    return hs


def c29(c):
    r = c.rng()
    if not c.quick:
        c.model('MCTypes', 'MCTypesDeep.cfg', workers=1, name='MCTypesDeep (two constructors)')
    wide = c.emitted(c.model('MCTypes', 'MCTypesEmit.cfg', workers=1, name='MCTypesEmit (every type of one constructor)').out)
    deep = c.emitted(c.model('MCTypes', 'MCTypesCoreEmit.cfg', workers=1, name='MCTypesCoreEmit (every type of three constructors)').out)
    c.notes['types_from_model_states'] = len(wide) + len(deep)
    special = lambda t: t['k'] == 'user' and (t['n'].startswith('Op_') or t['n'].startswith('Mem_') or t['n'] in TINY)
    touches = lambda t: special(t) or any(map(touches, t['s']))
    # types of the operator classes matter only by themselves, const and referred to
    a = [t for t in wide if not touches(t) or special(t) or t['k'] in ('lref', 'rref', 'ptr')]
    seen, tests = set(), []
    if c.quick:
        a = [t for t in a if not t['s'] or t['k'] != 'fun' or r.random() < .3]
        # pointers and arrays with every qualification, and a sample of the rest
        near = lambda t: t['k'] in ('ptr', 'mptr', 'arr') and all(not x['s'] for x in t['s'])
        deep = [t for t in deep if near(t)] + r.sample([t for t in deep if not near(t)], 220)
        c.notes['deep_types'] = len(deep)
    for t in a + deep:
        k = json.dumps(t, sort_keys=True)
        if k not in seen:
            seen.add(k)
            tests.append(t)
    u = [fund(n, k='user') for n in ('Plain', 'Derived', 'Derived2', 'PrivD', 'Empty', 'Poly', 'Abstract', 'MoveOnly', 'Pinned', 'Conv', 'FromInt', 'Explicit', 'Union', 'UEnum', 'SEnum', 'NoDefault')]
    f = [fund(n) for n in ('void', 'nullptr_t', 'bool', 'char', 'signed char', 'wchar_t', 'int', 'unsigned int', 'long', 'long long', 'float', 'double')]
    ps = [ptr(x) for x in (fund('void'), fund('int'), fund('int', c=True), fund('int', v=True), fund('int', True, True), fund('void', True), fund('long'), u[0], u[1], u[2], u[3], fund('Plain', True, k='user'), u[12])]
    extra = [fund('int', c=True), fund('Plain', c=True, k='user'), fund('', k='lref', s=[fund('int')]), fund('', k='rref', s=[fund('int')]), fund('2', k='arr', s=[fund('int')])]
    fam = u + f + ps + extra
    pairs = [(x, y) for x in fam for y in fam]
    if c.quick:
        pairs = [p for p in pairs if p[0]['k'] == p[1]['k'] or r.random() < .5]
    hs = run(c, tests, pairs, 'c++11', '11')
    c.log('%d types, %d pairs' % (len(tests), len(pairs)))
    c.validate('TTypes', hs, label='TTypes (C++11)')
    c.sample(hs[3][0])
    if not c.quick:
        for std, n in (('c++14', 400), ('c++17', 400)):
            c.validate('TTypes', run(c, r.sample(tests, n), r.sample(pairs, n), std, std[3:]), label='TTypes (%s)' % std)
    # the character type of C++20
    c8 = fund('char8_t')
    t20 = [c8, fund('char8_t', True), ptr(c8), fund('', k='lref', s=[c8]), fund('2', k='arr', s=[c8])] + [fund(n) for n in ('char', 'int', 'bool', 'double')] + u
    c.validate('TTypes', run(c, t20, [(c8, x) for x in (c8, fund('char'), fund('unsigned char'))], 'c++20', '20', parts=1), label='TTypes (C++20)')
    h = next(h for h in hs if any(e['op'] == 'type' and e['t']['c'] and e['t']['k'] == 'fund' for e in h))
    c.negative_control('TTypes', h, lambda h: [e['to'].update(RemoveConst=e['t']) for e in h if e['op'] == 'type' and e['t']['c']], label='RemoveConst')
    c.assumptions.append('sign conversions only of unqualified character and standard integer types; operators only of arithmetic, enumeration and class types; g++ on x86-64')
