"""Executable contract of the abstractions in tulip/transys/transys.py."""
from dyn.base import expect, raises, Violation
from tulip.transys import transys as tr
import contextlib
import copy
import io

RULE = ('random transition systems of up to 8 states with up to 4 propositions, self-loops, parallel transitions, dead-ends, several initial states; '
        'both kinds of abstraction, checked against the definition')
AP = ['p', 'q', 'r', 's']
NAMES = [lambda i: i, lambda i: f's{i}', lambda i: (i, i % 2), lambda i: [3, 'a', (1,), -1, 'b', 7, None or 'z', 2.5][i]]


def cases(tier, rng):
    n = 1500 if tier == 'quick' else 30000
    for _ in range(n):
        k = rng.randrange(1, 9 if tier == 'quick' else 11)
        na = rng.randrange(0, 5)
        labs = [rng.randrange(1 << na) for _ in range(rng.randrange(1, 4))]
        m = rng.randrange(0, 2 * k + 3)
        e = [[rng.randrange(k), rng.randrange(k)] for _ in range(m)]
        if rng.random() < .3:
            e = [[i, (i + 1) % k] for i in range(k)] + e[:k // 2]
        yield dict(n=k, na=na, lab=[rng.choice(labs) for _ in range(k)], e=e, init=[i for i in range(k) if rng.random() < .4], names=rng.randrange(4) if k <= 8 else 0,
                   par=rng.random() < .2)


def build(c):
    nm = NAMES[c['names']]
    ts = tr.FTS()
    ts.atomic_propositions.add_from(AP[:c['na']])
    ts.sys_actions.add_from(['a', 'b'])
    for i in range(c['n']):
        ap = [p for j, p in enumerate(AP) if c['lab'][i] >> j & 1]
        ts.states.add(nm(i), ap=set(ap if i % 2 else reversed(ap)))
    for u, v in c['e']:
        for a in 'ab' if c['par'] else 'a':
            ts.transitions.add(nm(u), nm(v), sys_actions=a)
    ts.states.initial.add_from([nm(i) for i in c['init']])
    return ts


def check(c):
    ts = build(c)
    dump = lambda: copy.deepcopy((dict(ts.nodes(data=True)), list(ts.edges(keys=True, data=True)), set(ts.states.initial), set(ts.atomic_propositions)))
    before = dump()
    succ = {u: set(ts.successors(u)) for u in ts}
    for kind in ('bi', 'dual'):
        with contextlib.redirect_stdout(io.StringIO()):
            out, maps = tr.simu_abstract(ts, kind)
        expect(dump() == before, f'{kind}: the system is changed')
        up, down = maps['ts2simu'], maps['simu2ts']
        cells = set(out.states())
        expect(isinstance(out, tr.FTS) and set(down) == cells, lambda: f'{kind}: states {cells}, map {down}')
        expect(set(up) == set(ts), lambda: f'{kind}: map of the states {up}')
        for i in cells:
            expect(down[i] and set(down[i]) <= set(ts), lambda: f'{kind}: cell {i}: {down[i]}')
            expect(len(set(down[i])) == len(list(down[i])), f'{kind}: state repeated in a cell')
            for s in down[i]:
                expect(ts.nodes[s]['ap'] == out.nodes[i]['ap'], lambda: f'{kind}: label of cell {i} {out.nodes[i]} with state {s}: {ts.nodes[s]}')
        for s in ts:
            expect(sorted(up[s]) == sorted(i for i in cells if s in down[i]) and up[s], lambda: f'{kind}: cells of {s}: {up[s]}, inverse of {down}')
        expect(set(out.atomic_propositions) == set(ts.atomic_propositions), f'{kind}: propositions')
        expect(set(out.states.initial) == {i for i in cells if set(down[i]) & set(ts.states.initial)}, lambda: f'{kind}: initial cells {out.states.initial}')
        E = [e[:2] for e in out.edges()]
        expect(len(E) == len(set(E)), f'{kind}: duplicate transitions')
        E = set(E)
        can = lambda s, j: bool(succ[s] & set(down[j]))
        for i in cells:
            for j in cells:
                if (i, j) in E:
                    expect(all(can(s, j) for s in down[i]), lambda: f'{kind}: transition {i} -> {j} is not realizable from all of {down[i]}')
                elif kind == 'bi':
                    expect(not any(can(s, j) for s in down[i]), lambda: f'bi: some state of {down[i]} steps to {down[j]} without a transition')
        if kind == 'bi':
            expect(all(len(up[s]) == 1 for s in ts), lambda: f'bi: cells overlap {down}')
        else:
            for u in ts:
                for v in succ[u]:
                    for j in up[v]:
                        expect(any((i, j) in E for i in up[u]), lambda: f'dual: {u} -> {v}: no transition to cell {j} from a cell of {u}')


def key(c):
    return (c['n'], len(c['e']) // 3, len(c['init']) > 0, len(set(c['lab'])), c['names'])
