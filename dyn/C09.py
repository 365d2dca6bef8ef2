"""Executable contract of tulip.transys.mathset."""
import itertools
from dyn.base import expect, raises, Violation
from tulip.transys import mathset as ms

RULE = ('random sequences of up to 10 edits of sets over a universe of hashable and unhashable items (lists, dicts, sets, tuples '
        'that contain lists, empty and falsy items), operands given as list, tuple, iterator, set, MathSet or SubSet; subsets of '
        'lists, sets and MathSets, power sets, Cartesian products and typed dictionaries')
U = [0, 2, 'a', 'ab', '', None, (1, 2), frozenset({5}), 'b', 7.5, [1], [], {'a': 1}, {3}, (1, [2]), ([], 'x'), [[1]], {}]
NH = 10
OPS = ['add', 'add_from', 'update', 'ior', 'or', 'sub', 'isub', 'remove', 'inter', 'mul', 'pop', 'eq', 'iter']


def cases(tier, rng):
    n = 4000 if tier == 'quick' else 60000
    for k in range(n):
        mode = rng.choice(['set', 'set', 'set', 'subset', 'power', 'dict', 'misc'])
        hi = rng.choice([NH, len(U), len(U)])
        item = lambda: rng.randrange(hi)
        some = lambda m=5: [item() for _ in range(rng.randrange(m))]
        if mode in ('set', 'subset'):
            yield dict(mode=mode, init=some(), sup=some(9), supkind=rng.choice(['list', 'MathSet', 'MathSet', 'set']),
                       ops=[[rng.choice(OPS), some(), rng.choice(['list', 'iter', 'MathSet', 'set', 'tuple', 'SubSet', 'self'])]
                            for _ in range(rng.randrange(1, 9))])
        elif mode == 'power':
            yield dict(mode=mode, init=some(5), q=some(4), kind=rng.choice(['list', 'iter', 'MathSet', 'tuple']))
        elif mode == 'dict':
            yield dict(mode=mode, types=[[k, rng.choice([None, 'list', 'set', 'power', 'fn']), some(5)] for k in range(rng.randrange(3))],
                       ops=[[rng.choice(['set', 'update', 'kw', 'pairs', 'ior', 'setdefault', 'del']), rng.randrange(4), item(),
                             rng.randrange(4), item()] for _ in range(rng.randrange(1, 7))])
        else:
            yield dict(mode=mode, a=some(6), b=some(6), c=some(3), w=rng.randrange(4), kind=rng.choice(['list', 'iter', 'MathSet']))


def has(m, x):
    return any(same(x, y) for y in m)


def same(x, y):
    return type(x) is type(y) and x == y


def norm(xs):
    out = []
    for x in xs:
        if not has(out, x):
            out.append(x)
    return out


def agree(s, m, what, universe=U):
    l = list(s)
    expect(len(l) == len(m) and all(has(m, x) for x in l) and all(has(l, x) for x in m), lambda: f'{what}: members {l}, expected {m}')
    expect(len(s) == len(m), lambda: f'{what}: length {len(s)}, expected {len(m)}')
    for x in universe:
        expect((x in s) == has(m, x), lambda: f'{what}: {x!r} in it is {x in s}, expected {has(m, x)}')
    expect(bool(s) == bool(m), lambda: f'{what}: truth')
    t = ms.MathSet(list(reversed(m)))
    expect((s == t) is True and not (s != t), lambda: f'{what}: is not equal to the set of its members')
    for x in universe:
        t = ms.MathSet(m)
        if has(m, x):
            t.remove(x)
        else:
            t.add(x)
        expect(not (s == t) and s != t, lambda: f'{what} = {m} equals {t!r}')


def items(ix):
    return [U[i] for i in ix]


def operand(ix, kind, s):
    v = items(ix)
    if kind == 'iter':
        return iter(v), v
    if kind == 'MathSet':
        return ms.MathSet(v), v
    if kind == 'tuple':
        return tuple(v), v
    if kind == 'set':
        v = [x for i, x in zip(ix, v) if i < NH]
        return set(v), v
    if kind == 'SubSet':
        return ms.SubSet(ms.MathSet(U), v), v
    if kind == 'self':
        return s, list(s)
    return v, list(v)


def check(c):
    globals()['c_' + c['mode']](c)


def c_set(c):
    s, m = ms.MathSet(items(c['init'])), norm(items(c['init']))
    agree(s, m, 'new set')
    agree(ms.MathSet(iter(items(c['init']))), m, 'set of an iterator')
    expect(len(ms.MathSet()) == 0, 'empty set')
    run(s, m, c['ops'], None)


def run(s, m, ops, sup):
    for op, ix, kind in ops:
        if op in ('add', 'remove') and not (ix and kind not in ('self', 'set')):
            continue
        o, v = operand(ix, kind, s)
        dump = None if kind in ('iter', 'self') else [list(o), type(o)]
        before = list(m)
        bad = sup is not None and not all(has(sup, x) for x in (v[:1] if op == 'add' else v))
        if op in ('add', 'add_from', 'update', 'ior') and bad:
            def f():
                if op == 'add':
                    s.add(v[0])
                elif op == 'ior':
                    t = s
                    t |= o
                else:
                    getattr(s, op)(o)
            # (a plain set as superset cannot be asked about unhashables)
            raises((ValueError, TypeError) if isinstance(s.superset, set) else ValueError, f, f'{op} of {v} outside the superset {sup}')
        elif op == 'add':
            s.add(v[0])
            m = norm(m + v[:1])
        elif op in ('add_from', 'update'):
            getattr(s, op)(o)
            m = norm(m + v)
        elif op == 'ior':
            t = s
            t |= o
            expect(t is s, '|= makes another set')
            m = norm(m + v)
        elif op == 'or':
            agree(s | o, norm(m + v), f'{m} | {v}')
        elif op == 'sub':
            agree(s - o, [x for x in m if not has(v, x)], f'{m} - {v}')
        elif op == 'isub':
            t = s
            t -= o
            m = [x for x in m if not has(v, x)]
        elif op == 'remove':
            if has(m, v[0]):
                s.remove(v[0])
                m = [x for x in m if not same(x, v[0])]
            else:
                raises((ValueError, KeyError), lambda: s.remove(v[0]), 'removal of an item that is not in the set')
        elif op == 'inter':
            agree(s.intersection(o), [x for x in m if has(v, x)], f'intersection of {m} and {v}')
            o, _ = operand(ix, kind, s)
            expect(s.intersects(o) == any(has(m, x) for x in v), 'intersects')
        elif op == 'mul':
            o, v = operand(ix, 'MathSet', s)
            agree(s * o, [(x, y) for x in m for y in norm(v)], f'{m} * {v}', [(x, y) for x in U for y in U[::3]])
        elif op == 'pop':
            if m:
                x = s.pop()
                expect(has(m, x), 'pop')
                m = [y for y in m if not same(x, y)]
            else:
                raises(KeyError, s.pop, 'pop of an empty set')
        elif op == 'eq':
            expect((s == ms.MathSet(v)) == (len(norm(v)) == len(m) and all(has(m, x) for x in v)), lambda: f'{m} == {v}')
            raises(TypeError, lambda: s == v, 'comparison with a list')
        agree(s, m, f'after {op} of {v} ({kind}) to {before}')
        if dump is not None and not (op == 'mul'):
            expect([list(o), type(o)] == dump, lambda: f'{op} changed its operand {v}')
    return m


def c_subset(c):
    sup = norm(items([i for i in c['sup'] if c['supkind'] != 'set' or i < NH]))
    S = sup if c['supkind'] == 'list' else set(sup) if c['supkind'] == 'set' else ms.MathSet(sup)
    v = items(c['init'])
    if not all(has(sup, x) for x in v):
        raises((ValueError, TypeError) if c['supkind'] == 'set' else ValueError, lambda: ms.SubSet(S, v), 'subset with other elements')
        v = [x for x in v if has(sup, x)]
    s = ms.SubSet(S, iter(v))
    agree(s, norm(v), 'new subset')
    expect(s.superset is S, 'superset')
    run(s, norm(v), c['ops'], list(sup))


def c_power(c):
    v = items(c['init'])
    m = norm(v)
    p = ms.PowerSet(operand(c['init'], c['kind'], None)[0])
    agree(p.math_set, m, 'base set')
    expect(len(p) == 2 ** len(m), 'length of a power set')
    subs = [list(x) for x in p]
    expect(len(subs) == 2 ** len(m), 'number of enumerated subsets')
    for x in subs:
        expect(len(norm(x)) == len(x) and all(has(m, y) for y in x) and x in p and tuple(x) in p and ms.MathSet(x) in p and iter(x) in p,
               lambda: f'enumerated subset {x}')
    for i, x in enumerate(subs):
        for y in subs[:i]:
            expect(not (len(x) == len(y) and all(has(y, z) for z in x)), lambda: f'{x} is enumerated twice')
    q = items(c['q'])
    expect((q in p) == all(has(m, x) for x in q), lambda: f'{q} in 2^{m}')
    expect((ms.PowerSet(v) == p) is True, 'equality of power sets')
    agree((p + ms.PowerSet(q)).math_set, norm(m + q), 'base set of a sum')
    expect((p == ms.PowerSet(q)) == (len(norm(q)) == len(m) and all(has(m, x) for x in q)), 'equality of power sets')
    p.math_set.add_from(q)
    expect(len(p) == 2 ** len(norm(m + q)) and q in p, 'extended base set')
    raises(TypeError, lambda: setattr(p, 'math_set', [1]), 'a base set that is not a MathSet')
    raises(TypeError, lambda: p == [1], 'comparison with a list')


def c_dict(c):
    K = ['k', 'kk', 'x', 'y']
    types, ok = {}, {}
    for k, kind, ix in c['types']:
        v = items(ix)
        if kind is None:
            types[K[k]] = None
        elif kind == 'list':
            types[K[k]], ok[K[k]] = v, lambda y, v=v: has(v, y)
        elif kind == 'set':
            types[K[k]], ok[K[k]] = ms.MathSet(v), lambda y, v=v: has(v, y)
        elif kind == 'power':
            types[K[k]] = ms.PowerSet(v)
            ok[K[k]] = lambda y, v=v: (isinstance(y, (list, tuple, set, frozenset, dict)) and all(has(v, z) for z in y))
        else:
            types[K[k]], ok[K[k]] = range(3), lambda y: type(y) is int and 0 <= y < 3
    d, m = ms.TypedDict(), {}
    d.set_types(types)
    allowed = lambda k, v: k not in ok or ok[k](v)
    for op, k, v, k2, v2 in c['ops']:
        k, v, k2, v2 = K[k], U[v], K[k2], U[v2]
        new = {k: v} if op == 'set' else {k: v, k2: v2}
        if op == 'del':
            if k in m:
                del d[k], m[k]
            continue
        if op == 'setdefault':
            new = {k: v} if k not in m else {}

        def f():
            nonlocal d
            if op == 'set':
                d[k] = v
            elif op == 'update':
                d.update(new)
            elif op == 'kw':
                d.update(**new)
            elif op == 'pairs':
                d.update(iter(new.items()))
            elif op == 'ior':
                d |= new
            else:
                r = d.setdefault(k, v)
                expect(same(r, m.get(k, v)), 'value of setdefault')
        if all(allowed(a, b) for a, b in new.items()):
            f()
            m.update(new)
        else:
            raises(ValueError, f, f'{op} of {new} with types {types}')
            bad = {a for a, b in new.items() if not allowed(a, b)}
            for a in bad:
                expect((a in d) == (a in m) and (a not in m or same(d[a], m[a])), lambda: f'a rejected {op} changed {a}')
            m = {a: d[a] for a in d}
        expect(isinstance(d, ms.TypedDict) and dict(d) == m, lambda: f'contents {dict(d)}, expected {m}')
        for a, b in d.items():
            expect(allowed(a, b), lambda: f'{op}: stored disallowed value {b!r} for key {a}')
        expect(d.is_consistent() is True, 'is_consistent of allowed values')
    for k in ok:
        if k in d and isinstance(types[k], ms.MathSet):
            types[k].remove(d[k])
            expect(d.is_consistent() is False, 'is_consistent after a value was disallowed')
    e = ms.TypedDict({'a': [1]}, b=2)
    expect(dict(e) == {'a': [1], 'b': 2}, 'constructor')


def c_misc(c):
    a, b = items(c['a']), items(c['b'])
    arg = iter(a) if c['kind'] == 'iter' else ms.MathSet(a) if c['kind'] == 'MathSet' else list(a)
    u = list(ms.unique(arg))
    m = norm(a)
    expect(len(u) == len(m) and all(has(m, x) for x in u), lambda: f'unique({a}) = {u}')
    expect(ms.contains_multiple(a) == (len(m) < len(a)), 'contains_multiple')
    big = iter(b) if c['kind'] == 'iter' else ms.MathSet(b) if c['kind'] == 'MathSet' else list(b)
    r = ms.is_subset(list(a), big)
    expect(r == all(has(b, x) for x in a), lambda: f'is_subset({a}, {b}) = {r}')
    same_bag = sorted(map(repr, a)) == sorted(map(repr, b))
    expect(ms.compare_lists(a, b) == same_bag and ms.compare_lists(a, list(reversed(a))), lambda: f'compare_lists({a}, {b})')
    raises(TypeError, lambda: ms.compare_lists(tuple(a), b), 'compare_lists of a tuple')
    p = ms.CartesianProduct()
    p.add(ms.MathSet(a))
    p.add_from([list(b), ms.MathSet(items(c['c']))])
    e = [a[0] if a and c['w'] % 2 else 9, b[-1] if b else 9, U[c['c'][0]] if c['c'] else 9][:3 if c['w'] else 2]
    want = len(e) == 3 and has(a, e[0]) and has(b, e[1]) and has(items(c['c']), e[2])
    expect((e in p) == want, lambda: f'{e} in the product of {a}, {b}, {items(c["c"])}')
    expect(sorted(ms.powerset(range(len(a)))) == sorted(x for r in range(len(a) + 1) for x in itertools.combinations(range(len(a)), r)), 'powerset')
