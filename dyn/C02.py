"""Executable contract of tulip.transys.graph_algorithms."""
import itertools
from dyn.base import expect, raises, Violation
from tulip.transys import transys
from tulip.transys.cost import VectorCost
from tulip.transys.labeled_graphs import LabeledDiGraph
from tulip.transys.graph_algorithms import (
    dijkstra_single_source_multiple_targets as single,
    dijkstra_multiple_sources_multiple_targets as multi)

RULE = ('all weighted graphs on 2 states with up to 3 transitions, random graphs of up to 7 states with parallel '
        'transitions, zero costs, ties, vector costs, int/str/tuple states of mixed types, unreachable '
        'targets and sources that are targets; compared with Bellman-Ford on lists')

NODES = {'int': list(range(8)), 'str': ['s', 's1', 'b', 'ab', 'a', 'x', 'y', 's10'],
         'mix': [0, 'a', ('b', 1), 3, 'ab', (1, 'c'), 5, 'z'], 'obj': [(i, str(i)) for i in range(8)]}


def cases(tier, rng):
    for k in range(4):
        for es in itertools.product([(0, 0), (0, 1), (1, 0), (1, 1)], repeat=k):
            for w in itertools.product([0, 1, 2], repeat=k):
                if k == 3 and rng.random() > .1:
                    continue
                yield dict(n=2, kind='int', vec=0, key='cost', edges=[[a, b, c] for (a, b), c in zip(es, w)],
                           src=[0], tgt=[1])
    n = 4000 if tier == 'quick' else 60000
    for _ in range(n):
        m = rng.randrange(1, 8)
        vec = rng.choice([0, 0, 1, 2, 3])
        ne = rng.randrange(0, 2 * m + 4)
        top = rng.choice([2, 3, 10])
        edges = []
        for _ in range(ne):
            c = [rng.randrange(top) for _ in range(vec)] if vec else rng.choice([rng.randrange(top), rng.randrange(top) + 0.5])
            edges.append([rng.randrange(m), rng.randrange(m), c])
        yield dict(n=m, kind=rng.choice(sorted(NODES)), vec=vec, key=rng.choice(['cost', 'w']), edges=edges,
                   src=sorted(rng.sample(range(m), rng.randrange(1, min(m, 3) + 1))),
                   tgt=sorted(rng.sample(range(m), rng.randrange(0, min(m, 3) + 1))))


def check(c):
    nodes = NODES[c['kind']][:c['n']]
    vec = c['vec']
    key = c['key']
    g = LabeledDiGraph(edge_label_types=[dict(name=key, values={*()}), dict(name='id', values={*()})]) \
        if False else LabeledDiGraph()
    g.add_nodes_from(nodes)
    for i, (a, b, w) in enumerate(c['edges']):
        g.add_edge(nodes[a], nodes[b], attr_dict={key: VectorCost(w) if vec else w, 'id': i}, check=False)
    zero = [0] * vec if vec else 0
    plus = (lambda x, y: [p + q for p, q in zip(x, y)]) if vec else (lambda x, y: x + y)
    before = sorted((repr(e) for e in g.edges(data='id')))

    def dist(s):
        d = {s: zero}
        for _ in range(c['n'] + 1):
            for a, b, w in c['edges']:
                if a in d:
                    x = plus(d[a], w)
                    if b not in d or x < d[b]:
                        d[b] = x
        return d
    tgt = {nodes[t] for t in c['tgt']}

    def verify(res, srcs, what):
        expect(isinstance(res, tuple) and len(res) == 2, f'{what}: result is not a pair')
        cost, path = res
        best = [d[t] for s in srcs for d in [dist(s)] for t in c['tgt'] if t in d]
        if not best:
            expect(cost == float('inf') and path == [], lambda: f'{what}: no target reachable, returned {res}')
            return
        want = min(best)
        expect(path and path[0] in [nodes[s] for s in srcs] and path[-1] in tgt,
               lambda: f'{what}: path {path} does not join a source to a target')
        tot = zero
        for u, v in zip(path, path[1:]):
            ws = [w for a, b, w in c['edges'] if nodes[a] == u and nodes[b] == v]
            expect(ws, lambda: f'{what}: {u} -> {v} is not a transition (path {path})')
            tot = plus(tot, min(ws))
        got = list(cost) if vec and isinstance(cost, VectorCost) else cost
        if vec and got == 0:
            got = zero
        expect(got == want, lambda: f'{what}: cost {got}, minimum is {want}')
        expect(got == tot, lambda: f'{what}: cost {got}, cheapest transitions along {path} cost {tot}')
        if any(s in c['tgt'] for s in srcs) and len(srcs) == 1:
            expect(got == zero and path == [nodes[srcs[0]]], lambda: f'{what}: source is a target, returned {res}')
    for s in c['src']:
        verify(single(g, nodes[s], tgt, key), [s], f'single source {nodes[s]!r}')
        if key == 'cost':
            verify(single(g, nodes[s], tgt), [s], f'single source {nodes[s]!r}, default key')
        verify(single(g, nodes[s], list(tgt), cost_key=key), [s], 'target list')
    verify(multi(g, [nodes[s] for s in c['src']], tgt, key), c['src'], 'multiple sources')
    verify(multi(g, iter([nodes[s] for s in c['src']]), tgt, cost_key=key), c['src'], 'multiple sources')
    expect(sorted(repr(e) for e in g.edges(data='id')) == before, 'the graph was changed')
