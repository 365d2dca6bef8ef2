"""Executable contract of the exclusion constraints of tulip.synth."""
import itertools
from dyn.base import expect, raises, Violation
from dyn import ltl
from tulip import synth

RULE = ('all lists of up to 4 formulas out of 7 (with empty strings and compound formulas over 3 variables), evaluated '
        'in all 8 valuations; all sets of up to 3 values (names, integers with gaps) under all options')
FORMULAS = ['a', 'b', 'c', 'a && b', 'a || c', '! b', 'a -> c', '']
STR = ['a', 'b', 'c', 'park', 'act_']
INT = [-2, 0, 1, 3, 7]


def cases(tier, rng):
    for n in range(0, 5):
        for fs in itertools.permutations(FORMULAS, n):
            if n < 4 or rng.random() < (.2 if tier == 'quick' else 1):
                yield dict(f='mutex', forms=list(fs), cont=rng.choice(['list', 'tuple', 'iter', 'dict']))
                if n and '' not in fs:
                    yield dict(f='xor', forms=list(fs), cont=rng.choice(['list', 'tuple', 'dict']))
    for dom in (STR, INT):
        for n in range(0, 4):
            for vs in itertools.permutations(dom, n):
                for must in ('mutex', 'xor', None):
                    for b in (True, False):
                        for pre in (0, 1, 2):
                            yield dict(f='iter2var', vals=list(vs), must=must, b=b, pre=pre,
                                       cont=rng.choice(['list', 'set', 'tuple']))
    for c in (None, ['a || b'], ['a -> b'], ['a']):
        yield dict(f='add', con=c)
    yield dict(f='iter2var', vals=['a', 1], must='mutex', b=False, pre=0, cont='list')


def vals(names):
    names = sorted(names)
    for bits in itertools.product([False, True], repeat=len(names)):
        yield dict(zip(names, bits))


def check(c):
    if c['f'] in ('mutex', 'xor'):
        fs = c['forms']
        arg = {'list': list, 'tuple': tuple, 'iter': iter, 'dict': lambda x: dict.fromkeys(x).keys()}[c['cont']](fs)
        real = [f for f in fs if f]
        r = (synth.mutex if c['f'] == 'mutex' else synth.exactly_one)(arg)
        expect(isinstance(r, list), 'result is a list')
        if c['f'] == 'mutex' and len(real) < 2:
            expect(r == [], lambda: f'constraint {r} for fewer than two formulas')
            return
        expect(len(r) == 1, lambda: f'expected one constraint, got {r}')
        t = ltl.P(r[0])
        for v in vals('abc'):
            k = sum(ltl.ev(ltl.P(f), [v]) for f in real)
            want = k <= 1 if c['f'] == 'mutex' else k == 1
            expect(ltl.ev(t, [v]) == want, lambda: f'{c["f"]}({fs}) = {r[0]} is {not want} in {v} where {k} formulas hold')
        return
    if c['f'] == 'add':
        i, t = ['p'], ['q', 'r']
        synth._add_actions(c['con'], i, t)
        if c['con'] is None:
            expect((i, t) == (['p'], ['q', 'r']), 'something was added for no constraint')
            return
        expect(i[0] == 'p' and t[:2] == ['q', 'r'] and len(i) == 2 and len(t) == 3, 'one condition added to each list')
        for v in vals('ab'):
            for w in vals('ab'):
                expect(ltl.ev(ltl.P(i[1]), [v, w]) == ltl.ev(ltl.P(c['con'][0]), [v]), 'initial constraint')
                expect(ltl.ev(ltl.P(t[2]), [v, w]) == ltl.ev(ltl.P(c['con'][0]), [w]), 'next-step constraint')
        return
    vs, must, b = c['vals'], c['must'], c['b']
    arg = {'list': list, 'set': set, 'tuple': tuple}[c['cont']](vs)
    pre = {0: {}, 1: {'other': (0, 3)}, 2: {'act': 'boolean', 'x': ['u', 'w']}}[c['pre']]
    var = dict(pre)
    as_bool = b or must is None
    mixed = len({type(x) for x in vs}) > 1

    def call():
        return synth.iter2var(arg, var, 'act', b, must)
    if vs and as_bool and not all(isinstance(x, str) for x in vs):
        raises(TypeError, call, 'Booleans for integers')
        return
    if vs and not as_bool and 'act' in pre:
        raises(ValueError, call, 'existing variable')
        expect(var == pre, 'variables changed by a rejected call')
        return
    if mixed:
        raises(TypeError, call, 'mixed values')
        return
    ids, con = call()
    expect(set(ids) == set(vs), 'an expression for each value')
    expect(set(arg) == set(vs), 'argument changed')
    if not vs:
        expect(con is None and var == pre, 'nothing for an empty set')
        return
    if as_bool:
        expect(var == dict(pre, **{x: 'boolean' for x in vs}), lambda: f'declared {var}')
        for v in vals(set(vs)):
            n = 0
            for x in vs:
                h = bool(ltl.ev(ltl.P(ids[x]), [v]))
                expect(h == v[x], lambda: f'expression of {x} is {ids[x]}')
                n += h
            want = {'mutex': n <= 1, 'xor': n == 1, None: True}[must]
            got = all(ltl.ev(ltl.P(s), [v]) for s in con) if con is not None else True
            expect(got == want, lambda: f'constraint {con} is {got} in {v} (must={must})')
        return
    expect({k: x for k, x in var.items() if k != 'act'} == pre, 'other variables changed')
    expect(con is None, lambda: f'unexpected constraint {con}')
    dom = var['act']
    if isinstance(vs[0], int):
        expect(isinstance(dom, tuple) and dom == (min(vs), max(vs) + (must != 'xor')), lambda: f'domain {dom} of {vs}')
        values = range(dom[0], dom[1] + 1)
    else:
        extra = set(dom) - set(vs)
        expect(set(vs) <= set(dom) and len(dom) == len(set(dom)) and len(extra) == (must != 'xor'),
               lambda: f'domain {dom} of {vs}')
        values = dom
    for x in values:
        hold = [y for y in vs if ltl.ev(ltl.P(ids[y]), [{'act': x}])]
        expect(hold == ([x] if x in vs else []), lambda: f'act = {x}: expressions of {hold} hold')
