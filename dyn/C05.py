"""Executable contract of minimum-violation planning (tulip/mvp.py, tulip/spec/prioritized_safety.py)."""
from dyn.base import expect, raises, finding, Violation
from tulip import mvp, transys
from tulip.transys.automata import WeightedFiniteStateAutomaton as WFA, FiniteWordAutomaton as FWA
from tulip.transys.mathset import PowerSet
from tulip.spec.prioritized_safety import PrioritizedSpecification
import itertools
import random

RULE = ('Kripke structures with up to 4 states (with and without weights, parallel transitions), up to 2 propositions, up to 4 rules in up to 3 levels '
        'with nondeterministic automata of up to 2 states (also not accepting), added in any order')


def cases(tier, rng):
    n = 700 if tier == 'quick' else 9000
    for _ in range(n):
        nr = rng.randrange(1, 5)
        yield dict(f=rng.choice(['s', 's', 'p']), n=rng.randrange(1, 5), w=rng.random() < .75, ap=rng.randrange(1, 3), s=rng.randrange(1 << 30), dens=rng.choice([.3, .5, .8]),
                   rules=[[rng.randrange(3), rng.randrange(1, 4), rng.choice([1, 1, 2]), rng.random() < .3] for _ in range(nr)], null=rng.random() < .2,
                   par=rng.random() < .3, zero=rng.random() < .3)


def system(c, r):
    ks = transys.WeightedKripkeStructure() if c['w'] else transys.KripkeStructure()
    aps = ['p', 'q'][:c['ap']]
    names = ['null' if c['null'] and i == 0 else f's{i}' for i in range(c['n'])]
    ks.states.add_from(names)
    ks.states.initial.add_from(r.sample(names, r.randrange(1, len(names) + 1)))
    ks.atomic_propositions.add_from(aps)
    for x in names:
        ks.states[x]['ap'] = {a for a in aps if r.random() < .5}
    trans = set()
    for u in names:
        for v in names:
            if r.random() < c['dens']:
                for k in range(2 if c['par'] and c['w'] else 1):
                    cost = r.randrange(0 if c['zero'] else 1, 5) if c['w'] else 0
                    if (u, v, cost) not in trans:
                        trans.add((u, v, cost))
                        ks.transitions.add(u, v, {'cost': cost} if c['w'] else {})
    return ks, names, aps, trans


def automaton(n, aps, r, nonacc):
    fa = (WFA if r.random() < .5 else FWA)()
    fa.atomic_propositions.add_from(aps)
    st = [f'q{i}' for i in range(n)]
    fa.states.add_from(st)
    fa.states.initial.add_from(r.sample(st, r.randrange(1, n + 1)))
    acc = r.sample(st, r.randrange(0 if nonacc else n, n + 1)) if nonacc else st
    fa.accepting.add_from(acc)
    letters = [set(x) for x in PowerSet(aps)]
    delta = set()
    for u in st:
        for v in st:
            for l in letters:
                if r.random() < .45:
                    lab = {'letter': l}
                    if isinstance(fa, WFA):
                        lab['cost'] = 0
                    fa.transitions.add(u, v, lab)
                    delta.add((u, v, frozenset(l)))
    return fa, st, set(fa.states.initial), set(acc), delta


def check(c):
    r = random.Random(c['s'])
    ks, names, aps, trans = system(c, r)
    spec = PrioritizedSpecification()
    rules = []
    for lvl, prio, n, nonacc in c['rules']:
        a = automaton(n, aps, r, nonacc)
        spec.add_rule(a[0], priority=prio, level=lvl)
        rules.append((lvl, prio) + a)
    order = sorted(rules, key=lambda x: x[0])
    levels = 1 + max(x[0] for x in rules)
    expect(len(spec) == len(rules) and spec.get_num_levels() == levels, lambda: f'counts {len(spec)}, {spec.get_num_levels()}')
    ident = lambda got: len(got) == len(order) and all(g.automaton() is x[2] and g.level() == x[0] and g.priority() == x[1] for g, x in zip(got, order))
    for _ in range(2):
        expect(ident(list(spec)), 'the enumeration of the rules is not by level and insertion')
    expect(ident([spec[i] for i in range(len(rules))]), 'indexing is not by level and insertion')
    expect(ident(spec.get_rules()), 'get_rules is not by level and insertion')
    raises(IndexError, lambda: spec[len(rules)], 'index out of range')
    for l in range(levels + 1):
        expect([g.automaton() for g in spec.get_rules_at(l)] == [x[2] for x in order if x[0] == l], f'rules of level {l}')
    prod = lambda k: set(itertools.product(*[x[k] for x in order]))
    expect(set(spec.get_states()) == prod(3) and set(spec.get_initial_states()) == prod(4) and set(spec.get_accepting_states()) == prod(5), 'states of the rules')
    if len(rules) > 1 and [1 for _ in spec for _ in spec] != [1] * len(rules) ** 2:
        finding('nested-enumeration', 'two enumerations of a specification at the same time interfere')
    try:
        PrioritizedSpecification().add_rule(order[0][2], priority=.5, level=0)
    except TypeError as e:
        finding('float-priority', f'a rule with a floating-point priority, which add_rule declares, is refused: {e!r}')
    if c['f'] == 'p':
        return
    ap = {x: frozenset(ks.states[x]['ap']) for x in names}

    def viol(q, q2, x):
        cost = [0] * levels
        for i, (lvl, prio, _, _, _, _, delta) in enumerate(order):
            if (q[i], q2[i], ap[x]) not in delta:
                cost[lvl] += prio
        return tuple(cost)
    before = (set(ks.states), sorted(map(repr, ks.edges(data=True))))
    for goal in aps:
        out = mvp.solve(ks, goal, spec)
        cost, path, ppath, wpa = out
        expect((set(ks.states), sorted(map(repr, ks.edges(data=True)))) == before, 'the system was changed')
        # the product
        null = set(u for u, _ in wpa.states) - set(names)
        expect(len(null) == 1, lambda: f'initial marker {null}')
        null, = null
        Q = prod(3)
        want = set()
        for u, v, w in trans:
            for q in Q:
                for q2 in Q:
                    want.add(((u, q), (v, q2), viol(q, q2, v) + (w,)))
        for x in ks.states.initial:
            for q in prod(4):
                for q2 in Q:
                    want.add(((null, q), (x, q2), viol(q, q2, x) + (0,)))
        got = [(u, v, tuple(d['cost'])) for u, v, d in wpa.edges(data=True)]
        expect(set(got) == want, lambda: f'transitions of the product: missing {list(want - set(got))[:3]}, extra {list(set(got) - want)[:3]}')
        expect(len(got) == len(set(got)), 'a transition of the product is repeated')
        expect(set(wpa.states) == {(x, q) for x in [null] + names for q in Q}, 'states of the product')
        expect(set(wpa.states.initial) == {(null, q) for q in prod(4)}, 'initial states of the product')
        expect(set(wpa.accepting) == {(x, q) for x in names for q in prod(5)}, 'accepting states of the product')
        # optimum by relaxation over all states
        best = {(null, q): (0,) * (levels + 1) for q in prod(4)}
        change = True
        while change:
            change = False
            for u, v, w in want:
                if u in best:
                    d = tuple(a + b for a, b in zip(best[u], w))
                    if v not in best or d < best[v]:
                        best[v] = d
                        change = True
        ends = [best[x, q] for x in names for q in prod(5) if goal in ap[x] and (x, q) in best]
        if not ends:
            expect(not path and not ppath and cost == float('inf'), lambda: f'a plan {path} of cost {cost} but no accepting run reaches {goal}')
            continue
        expect(tuple(cost) == min(ends), lambda: f'cost {tuple(cost)} instead of {min(ends)} for {goal}')
        expect([x for x, _ in ppath if x != null] == list(path) and path, lambda: f'path {path} and {ppath}')
        expect(path[0] in set(ks.states.initial) and goal in ap[path[-1]] and all(any((u, v) == t[:2] for t in trans) for u, v in zip(path, path[1:])), lambda: f'the plan {path} is not a trajectory to the goal')
        steps = [min([w for a, b, w in want if (a, b) == (u, v)], default=None) for u, v in zip(ppath, ppath[1:])]
        expect(None not in steps, 'the plan is not a run of the product')
        expect(ppath[0] in set(wpa.states.initial) and ppath[-1] in {(x, q) for x in names for q in prod(5)}, 'the run does not accept')
        expect(tuple(map(sum, zip(*steps))) == min(ends), 'the run has another cost')


def classify(e, c):
    return None
