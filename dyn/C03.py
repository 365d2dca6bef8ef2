"""Executable contract of tulip.transys.products."""
import warnings
from dyn.base import expect, raises, Violation
from tulip.transys import products as pr
from tulip.transys.transys import FTS
from tulip.transys.automata import BuchiAutomaton

RULE = ('random transition systems of 1-5 states (names that contain one another, integers, tuples), parallel and '
        'unlabeled transitions, with and without actions, dead-ends, and random Buchi automata of 1-4 states with '
        'unlabeled transitions, letters, the letter {True}, parallel transitions and several initial states; the three '
        'products are compared with the definition')
NAMES = {'str': ['s1', 's10', 's', 's2', 'q1'], 'int': [0, 1, 2, 3, 10], 'tup': [('a', 0), ('a', 1), ('b', 0), 'a', ('a',)]}


def cases(tier, rng):
    for _ in range(2500 if tier == 'quick' else 40000):
        kind = rng.choice(['str', 'str', 'int', 'tup'])
        n, m = rng.randrange(1, 6), rng.randrange(1, 5)
        aps = rng.choice([['p'], ['p', 'q'], ['p', 'q', 'r'], []])
        acts = rng.choice([None, None, {'sys_actions': ['go', 'stay']}, {'env_actions': ['sun'], 'sys_actions': ['go', 'stay']},
                           {'sys_gear': ['g0', 'g1']}])
        sub = lambda: sorted(rng.sample(aps, rng.randrange(len(aps) + 1)))
        labels = [sub() for _ in range(n)]
        edges = []
        for _ in range(rng.randrange(0, 2 * n + 3)):
            a = {k: rng.choice(v) for k, v in acts.items() if rng.random() < .7} if acts else {}
            edges.append([rng.randrange(n), rng.randrange(n), a])
        bed = []
        for _ in range(rng.randrange(0, 3 * m + 3)):
            k = rng.random()
            let = 'none' if k < .2 else 'true' if k < .4 else rng.choice(labels) if k < .8 else sub()
            bed.append([rng.randrange(m), rng.randrange(m), let])
        yield dict(kind=kind, n=n, m=m, aps=aps, acts=acts, labels=labels, edges=edges, bed=bed,
                   names=rng.sample(range(5), 5), init=sorted(rng.sample(range(n), rng.randrange(0, min(n, 3) + 1))),
                   binit=sorted(rng.sample(range(m), rng.randrange(0, min(m, 2) + 1))),
                   acc=sorted(rng.sample(range(m), rng.randrange(0, m + 1))))


def freeze(d):
    return tuple(sorted((k, frozenset(v) if isinstance(v, (set, frozenset)) else v) for k, v in d.items()))


def dump(g):
    return (sorted(map(repr, g.states(data=True))), sorted(map(repr, g.transitions(data=True))), sorted(map(repr, g.states.initial)))


def check(c):
    warnings.simplefilter('ignore')
    S = [NAMES[c['kind']][i] for i in c['names'][:c['n']]]
    Q = [f'q{i}' for i in range(c['m'])]
    if c['acts'] is None:
        ts = FTS()
    else:
        mk = lambda o: [dict(name=t, values=set(v), setter=True) for t, v in c['acts'].items() if t.startswith(o)]
        ts = FTS(mk('env') or None, mk('sys') or None)
    ts.atomic_propositions.add_from(c['aps'])
    for s, l in zip(S, c['labels']):
        ts.states.add(s, ap=set(l))
    for i in c['init']:
        ts.states.initial.add(S[i])
    E = set()
    lab = dict(zip(S, [frozenset(l) for l in c['labels']]))
    tlab = set()
    for a, b, d in sorted(c['edges'], key=lambda e: not e[2]):
        if (a, b, freeze(d)) in tlab:
            continue
        tlab.add((a, b, freeze(d)))
        ts.transitions.add(S[a], S[b], **d)
        E.add((S[a], S[b]))
    ba = BuchiAutomaton()
    ba.atomic_propositions.add_from(c['aps'])
    ba.atomic_propositions.add(True)
    ba.states.add_from(Q)
    for i in c['binit']:
        ba.states.initial.add(Q[i])
    for i in c['acc']:
        ba.accepting.add(Q[i])
    D = set()
    seen = set()
    for a, b, l in sorted(c['bed'], key=lambda e: e[2] == 'none'):
        k = (a, b, str(l))
        if k in seen:
            continue
        seen.add(k)
        if l == 'none':
            ba.transitions.add(Q[a], Q[b])
        else:
            ba.transitions.add(Q[a], Q[b], letter={True} if l == 'true' else set(l))
        D.add((Q[a], Q[b], l if isinstance(l, str) else frozenset(l)))
    en = lambda q, r, l: any((q, r, x) in D for x in ('none', 'true', frozenset(l)))
    init = {(S[i], q) for i in c['init'] for q in Q if any(en(Q[k], q, lab[S[i]]) for k in c['binit'])}
    succ = lambda s, q: {(t, r) for t in S if (s, t) in E for r in Q if en(q, r, lab[t])}
    states, todo = set(), list(init)
    trans = set()
    while todo:
        x = todo.pop()
        if x in states:
            continue
        states.add(x)
        for y in succ(*x):
            trans.add((x, y))
            todo.append(y)
    acc = {x for x in states if x[1] in [Q[i] for i in c['acc']]}
    before = dump(ts), dump(ba)

    p, persistent = pr.ts_ba_sync_prod(ts, ba)
    cmp('system form', set(p.states()), states, set(p.states.initial), init, set(persistent), acc,
        {(u, v) for u, v in p.transitions()}, trans)
    lt = {(S[a], S[b], d) for a, b, d in tlab}
    got = {(u, v, freeze(d)) for u, v, d in p.transitions(data=True)}
    want = {(u, v, d) for u, v in trans for a, b, d in lt if (a, b) == (u[0], v[0])}
    expect(got == want, lambda: f'labeled transitions of the system form {got}, expected {want}')
    for x in states:
        expect(p.states[x]['ap'] == {x[1]}, lambda: f'label of {x} is {p.states[x]}')

    lettered = {(u, v, lab[v[0]]) for u, v in trans}
    b = pr.ba_ts_sync_prod(ba, ts)
    cmp('automaton form', set(b.states()), states, set(b.states.initial), init, set(b.accepting), acc,
        {(u, v, frozenset(d['letter'])) for u, v, d in b.transitions(data=True)}, lettered)
    o = pr.OnTheFlyProductAutomaton(ba, ts)
    cmp('initial on-the-fly product', set(o.states()), init, set(o.states.initial), init, set(o.accepting), acc & init,
        set(o.transitions()), set())
    o.add_all_states()
    cmp('on-the-fly product', set(o.states()), states, set(o.states.initial), init, set(o.accepting), acc,
        {(u, v, frozenset(d['letter'])) for u, v, d in o.transitions(data=True)}, lettered)
    o = pr.OnTheFlyProductAutomaton(ba, ts)
    for x in sorted(init, key=repr):
        new = o.add_successors(*x)
        expect(set(new) <= succ(*x), lambda: f'successors of {x}: {new}')
        expect({v for u, v in o.transitions() if u == x} == succ(*x), lambda: f'transitions from {x}')
        expect(set(o.accepting) == {y for y in o.states() if y[1] in [Q[i] for i in c['acc']]}, 'accepting states on the fly')
    for s in S:
        for q in Q:
            r = pr.find_ba_succ(q, s, ts, ba)
            expect({(u, v) for u, v, _ in r} == {(q, v) for v in Q if en(q, v, lab[s])}, lambda: f'enabled transitions of {q} on {lab[s]}: {r}')
    expect((dump(ts), dump(ba)) == before, 'the arguments changed')


def cmp(name, *pairs):
    for k, x, y in zip(('states', 'initial states', 'accepting states', 'transitions'), pairs[::2], pairs[1::2]):
        expect(x == y, lambda: f'{name}: {k} {sorted(x, key=repr)}, expected {sorted(y, key=repr)}')
