"""C32: what the names of the library mean, in every dialect, against spec/Names.tla."""
from concurrent.futures import ThreadPoolExecutor
from vf import *

HOWS = [(x, s) for x in ('g++', 'clang++') for s in ('c++11', 'c++14', 'c++17', 'c++20')]


def c32(c):
    c.model('MCNames')

    def one(how):
        x, s = how
        exe = c.build('names.cpp', out='names-%s-%s' % how, flags=['-O0', '-g0'], cxx=x, extra=['-std=' + s, '-D_GLIBCXX_USE_TBB_PAR_BACKEND=0'])
        return c.run_histories(exe, [['all']], name='h-%s-%s' % how)[0]
    with ThreadPoolExecutor(8) as p:
        ev = list(p.map(one, HOWS))
    c.validate('TNames', ev, scripts=[['compiled with %s as %s' % h] for h in HOWS], rerun=lambda k: one(HOWS[k]))
    c.notes['names'] = {'characters': 128, 'aliases': 30, 'facts': 14, 'builds': len(HOWS)}
    c.sample({'build': HOWS[0], 'events': str(ev[0][40:42])})
    for what, change in [('character', lambda h: h[65].update(point=h[65]['point'] + 1)),
                         ('text', lambda h: h[70].update(text=[1])),
                         ('missing name', lambda h: h.pop(3)),
                         ('alias', lambda h: next(e for e in h if e.get('name') == 'Int32').update(bits=64)),
                         ('fact', lambda h: next(e for e in h if e.get('name') == 'HAS_CXX14').update(value='2'))]:
        c.negative_control('TNames', ev[0], change, label=what)
    c.assumptions.append('64-bit Linux; enumerators are compared with each other only')
