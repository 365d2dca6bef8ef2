"""Executable contract of queries of labeled graphs."""
from dyn.base import expect, raises, Violation
from dyn.C06 import make, pick, N
from tulip.transys import labeled_graphs as lg
import copy

RULE = ('random graphs of 7 kinds (several label types, defaults, untyped attributes, parallel and unlabeled transitions, self-loops) and random '
        'queries: states given as list, tuple, set, iterator, States, MathSet or one state; labels by dictionary or keywords, full, partial, '
        'equal up to order, absent; label types that are functions')
KINDS = ['graph', 'fts', 'ba', 'fsa', 'wfa', 'graph2', 'semantic']


def cases(tier, rng):
    n = 3000 if tier == 'quick' else 50000
    for _ in range(n):
        k = rng.randrange(1, len(N) + 1)
        nd = lambda: rng.randrange(k)
        lb = lambda: [rng.randrange(5), rng.randrange(5), rng.randrange(4)]
        sets = lambda: [rng.choice(['none', 'list', 'tuple', 'set', 'iter', 'states', 'one', 'MathSet', 'empty']), [rng.randrange(len(N)) for _ in range(rng.randrange(4))]]
        yield dict(kind=rng.choice(KINDS), nodes=[[i, lb()] for i in range(k)], edges=[[nd(), nd(), lb()] for _ in range(rng.randrange(12))],
                   untyped=rng.random() < .2, q=[[rng.choice(['states', 'trans', 'trans', 'post', 'pre', 'term', 'dead', 'reach']), sets(), sets(), lb(),
                                                  rng.randrange(3)] for _ in range(rng.randrange(1, 8))])


def build(c):
    if c['kind'] == 'semantic':
        near = lambda a, b: abs(a - b) <= 1
        class Near(set):
            __call__ = staticmethod(near)
        vals = Near({0, 1, 2, 3})
        g = lg.LabeledDiGraph([dict(name='h', values=vals)], [dict(name='w', values=vals), dict(name='d', values={'a', 'b'})])
        g.semantic = {'h': near, 'w': near}
        nc, ec = {'h': ([0, 1, 2, 3], [])}, {'w': ([0, 1, 2, 3], []), 'd': (['a', 'b'], [])}
    else:
        g, nc, ec, _, _ = make(c['kind'])
        g.semantic = {}
    for i, lb in c['nodes']:
        g.states.add(N[i], pick(nc, lb, False))
        if c['untyped'] and lb[0] % 2:
            g.nodes[N[i]]['extra'] = lb[1]
        if lb[2] == 3:
            g.states.initial.add(N[i])
    for u, v, lb in c['edges']:
        try:
            g.transitions.add(N[u], N[v], pick(ec, lb, False))
        except Exception:
            pass
        if c['untyped'] and lb[0] % 2 and g.has_edge(N[u], N[v]):
            for d in g[N[u]][N[v]].values():
                d['extra'] = lb[1]
    return g, nc, ec


def dump(g):
    return copy.deepcopy((dict(g.nodes(data=True)), list(g.edges(keys=True, data=True)), set(g.states.initial)))


def states(g, spec):
    kind, ix = spec
    xs = [N[i] for i in ix if N[i] in g]
    if kind == 'none':
        return None, set(g)
    if kind == 'empty':
        return [], set()
    if kind == 'states':
        return g.states, set(g)
    if kind == 'one':
        x = N[ix[0]] if ix else None
        return (x, {x}) if x in g else ([], set())
    if kind == 'tuple' and tuple(xs) in g or not xs:
        return list(xs), set(xs)
    return dict(list=list, tuple=tuple, set=set, iter=iter, MathSet=lg._mset.MathSet)[kind](xs), set(xs)


def match(g, have, want):
    if not want or have == want:
        return True
    if set(have) != set(want):
        return False
    return all((g.semantic[k](have[k], want[k]) if k in g.semantic else have[k] == want[k]) for k in have)


def check(c):
    g, nc, ec = build(c)
    for op, s1, s2, lb, how in c['q']:
        before = dump(g)
        nodes, edges = before[0], [(u, v, d) for u, v, _, d in before[1]]
        what = f'{op} {s1} {s2} {lb} {how}'
        a, A = states(g, s1)
        if op in ('states', 'trans'):
            ch, data = (nc, list(nodes.values())) if op == 'states' else (ec, [e[2] for e in edges])
            want = pick(ch, lb, False) if lb[2] < 2 or not data else dict(data[lb[0] % len(data)]) if lb[2] == 2 else {}
            if lb[2] == 2 and lb[1] == 3 and data:
                want['extra'] = 1
            snap = copy.deepcopy(want)
            args, kw = ([want], {}) if how == 0 else ([], want) if how == 1 else ([dict(list(want.items())[:1])], dict(list(want.items())[1:]))
            if op == 'states':
                got = g.states.find(a, *args, **kw)
                exp = [(n, d) for n, d in nodes.items() if n in A and match(g, d, snap)]
            else:
                b, B = states(g, s2)
                got = g.transitions.find(a, b, *args, **kw)
                exp = [(u, v, d) for u, v, d in edges if u in A and v in B and (not d or match(g, d, snap))]
            expect(len(got) == len(exp) and all(got.count(x) == exp.count(x) for x in exp), lambda: f'{what}: label {snap}: {got}, expected {exp} among {nodes if op == "states" else edges}')
            expect(want == snap, lambda: f'{what}: the requested label became {want}')
            for t in got:
                t[-1]['changed'] = 1
        elif op in ('post', 'pre'):
            if op == 'post':
                if a is None:
                    expect(g.states.post() == before[2], 'post of the initial states')
                elif s1[0] != 'one':
                    got = g.states.post(a)
                    expect(isinstance(got, set) and got == {v for u, v, _ in edges if u in A}, lambda: f'{what}: {got}')
            elif a is not None and s1[0] != 'one':
                got = g.states.pre(a)
                expect(isinstance(got, set) and got == {u for u, v, _ in edges if v in A}, lambda: f'{what}: {got}')
        elif op == 'term':
            for n in nodes:
                expect(g.states.is_terminal(n) == (not any(e[0] == n for e in edges)), lambda: f'{what}: terminal {n}')
        elif op == 'dead':
            expect(g.has_deadends() == any(not any(e[0] == n for e in edges) for n in nodes), lambda: f'{what}: has_deadends')
        else:
            for n in nodes:
                for q, i, j in ((g.states.forward_reachable, 0, 1), (g.states.backward_reachable, 1, 0)):
                    r = {n}
                    while True:
                        k = r | {e[j] for e in edges if e[i] in r}
                        if k == r:
                            break
                        r = k
                    expect(q(n) == r - {n}, lambda: f'{what}: reachable from {n}')
        expect(dump(g) == before, lambda: f'{what}: the query changed the graph')


def key(c):
    return (c['kind'], len(c['edges']) > 3) + tuple(sorted({o[0] for o in c['q']}))
