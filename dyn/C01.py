"""Executable contract of tulip.transys.cost."""
import itertools
from dyn.base import expect, raises, Violation
from tulip.transys.cost import VectorCost, ValidTransitionCost

RULE = ('all pairs of vectors over {-1,0,1,2} up to length 2, all pairs with numbers, '
        'random longer vectors with long common prefixes; mismatched lengths; membership of valid costs')


def cases(tier, rng):
    vals = [-1, 0, 1, 2]
    vecs = [list(v) for n in (0, 1, 2) for v in itertools.product(vals, repeat=n)]
    for a in vecs:
        for b in vecs:
            yield dict(k='vv', a=a, b=b)
    for a in vecs:
        for c in (-1, 0, 1, 0.5):
            yield dict(k='vs', a=a, c=c)
    for v in vecs + [-1, 0, 1, 0.5, -0.5]:
        yield dict(k='valid', v=v)
    for x in ('str', 'none', 'list', 'set', 'dict', 'obj', 'tuple'):
        yield dict(k='invalid', v=x)
    for x in ('none', 'object'):
        yield dict(k='ctor', v=x)
    n = 3000 if tier == 'quick' else 60000
    for _ in range(n):
        k = rng.randrange(0, 7)
        a = [rng.choice([-2, -1, 0, 0.5, 1, 3]) for _ in range(k)]
        b = list(a)
        for _ in range(rng.randrange(3)):
            if b:
                b[rng.randrange(len(b))] += rng.choice([-1, 0, 1, 0.25])
        if rng.random() < .1:
            b = b + [0]
        yield dict(k='vv', a=a, b=b)
        yield dict(k='vs', a=a, c=rng.choice([-1, 0, 0.5, 2]))
        yield dict(k='valid', v=a)


def cmp_all(x, y, a, b, msg):
    want = {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}
    got = {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}
    expect(got == want, lambda: f'{msg}: {got} expected {want}')


def check(c):
    k = c['k']
    if k == 'vv':
        a, b = c['a'], c['b']
        x, y = VectorCost(a), VectorCost(iter(b))
        expect(list(x) == a and len(x) == len(a), 'constructor')
        for i, v in enumerate(a):
            expect(x[i] == v, 'item')
        if len(a) != len(b):
            for op in ('+', '<', '<=', '>', '>=', '==', '!='):
                raises(ValueError, lambda: eval(f'x {op} y', dict(x=x, y=y)), f'{a} {op} {b}')
            return
        s = x + y
        expect(isinstance(s, VectorCost) and list(s) == [p + q for p, q in zip(a, b)], f'{a} + {b} = {list(s)}')
        s = sum([x, y], 0)
        expect(list(s) == [p + q for p, q in zip(a, b)], 'sum with start 0')
        cmp_all(x, y, a, b, f'{a} ? {b}')
        expect(list(x) == a and list(y) == b, 'operands changed')
        z = list(a)
        w = VectorCost(z)
        z.append(9)
        expect(list(w) == a, 'vector shares its argument')
    elif k == 'vs':
        a, c_ = c['a'], c['c']
        x = VectorCost(a)
        b = [c_] * len(a)
        expect(list(x + c_) == [p + c_ for p in a], 'vector + number')
        expect(list(c_ + x) == [p + c_ for p in a], 'number + vector')
        cmp_all(x, c_, a, b, f'{a} ? {c_}')
        cmp_all(c_, x, b, a, f'{c_} ? {a}')
    elif k == 'valid':
        v = c['v']
        if isinstance(v, list):
            x, want = VectorCost(v), v >= [0] * len(v)
        else:
            x, want = v, v >= 0
        got = x in ValidTransitionCost()
        expect(got == want, f'{v} in ValidTransitionCost() is {got}')
    elif k == 'invalid':
        x = dict(str='abc', none=None, list=[1], set={1}, dict={1: 2}, obj=object(), tuple=(1, 2))[c['v']]
        expect((x in ValidTransitionCost()) is False, f'{x!r} accepted as a cost')
    elif k == 'ctor':
        raises(TypeError, lambda: VectorCost(None if c['v'] == 'none' else object()), 'constructor')
