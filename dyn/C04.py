"""Executable contract of tulip.transys.compositions."""
import itertools
import math
import copy
from dyn.base import expect, raises
from tulip.transys import compositions as co
from tulip import transys as trs
from tulip.transys.cost import VectorCost

KINDS = {'ks': trs.KripkeStructure, 'wks': trs.WeightedKripkeStructure, 'mc': trs.MarkovChain, 'mdp': trs.MarkovDecisionProcess}
RULE = ('1-3 random components of random kinds (Kripke, weighted with number or vector costs, Markov chain, decision process, '
        'and structures outside the family), 0-4 states named by integers, strings or tuples, several initial states, overlapping labels, '
        'parallel transitions, actions such as 0 and False-like values; random total policies; composites of composites')
NAMES = {'int': [0, 1, 2, 3], 'str': ['s', 's1', 's10', 'x'], 'tup': [('a', 0), ('a', 1), ('b',), 'a']}
ACTS = [['a', 'b'], [0, 1], ['', 'go'], [('u', 1), ('u', 2)], ['only']]


def component(rng, kind):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
    acts = rng.randrange(len(ACTS))
    vec = rng.random() < .3
    es, seen = [], set()
    for _ in range(rng.randrange(0, 2 * n + 2) if n else 0):
        e = [rng.randrange(n), rng.randrange(n)]
        if kind == 'wks':
            e.append([rng.randrange(4), rng.randrange(4)] if vec else rng.choice([0, 1, 2.5, 7]))
        elif kind in ('mc', 'mdp'):
            e.append(rng.choice([0, .25, .5, .75, 1]))
        if kind == 'mdp':
            e.append(rng.randrange(len(ACTS[acts])))
        key = repr(e if kind in ('wks', 'mc') else e[:2] + e[3:])
        if key not in seen:
            seen.add(key)
            es.append(e)
    aps = rng.choice([[], ['p'], ['p', 'q'], ['q', 'r']])
    return dict(kind=kind, n=n, names=rng.choice(list(NAMES)), vec=vec, acts=acts, edges=es, aps=aps,
                labels=[sorted(rng.sample(aps, rng.randrange(len(aps) + 1))) for _ in range(n)],
                init=sorted(rng.sample(range(n), rng.randrange(0, min(n, 2) + 1))))


def cases(tier, rng):
    for _ in range(1500 if tier == 'quick' else 25000):
        fam = rng.choice([['ks'], ['ks', 'wks'], ['ks', 'mc'], ['mdp', 'mc', 'ks'], ['mdp', 'mc', 'ks'], ['mdp'],
                          ['mdp', 'mc', 'ks', 'wks']])
        k = rng.choice([1, 2, 2, 2, 3])
        yield dict(models=[component(rng, rng.choice(fam)) for _ in range(k)], ops=rng.random() < .2,
                   foreign=rng.random() < .05, policy=[rng.randrange(5) for _ in range(8)])


def build(c):
    m = KINDS[c['kind']]()
    S = NAMES[c['names']][:c['n']]
    m.atomic_propositions.add_from(c['aps'])
    if c['kind'] == 'mdp':
        m.actions.add_from(ACTS[c['acts']])
    for s, l in zip(S, c['labels']):
        m.states.add(s, ap=set(l))
    for i in c['init']:
        m.states.initial.add(S[i])
    trans = []
    for e in c['edges']:
        d = {}
        if c['kind'] == 'wks':
            d['cost'] = VectorCost(e[2]) if c['vec'] else e[2]
        if c['kind'] in ('mc', 'mdp'):
            d['probability'] = e[2]
        if c['kind'] == 'mdp':
            d['action'] = ACTS[c['acts']][e[3]]
        m.transitions.add(S[e[0]], S[e[1]], **d)
        trans.append((S[e[0]], S[e[1]], d))
    return m, dict(S=S, lab=dict(zip(S, map(frozenset, c['labels']))), init=[S[i] for i in c['init']], trans=trans,
                   aps=set(c['aps']), acts=ACTS[c['acts']] if c['kind'] == 'mdp' else None)


def fz(d):
    return tuple(sorted((k, repr(tuple(v)) if isinstance(v, VectorCost) else repr(v)) for k, v in d.items()))


def dump(m):
    return (sorted((repr(s), sorted(d['ap'])) for s, d in m.states(data=True)),
            sorted((repr(u), repr(v), fz(d)) for u, v, d in m.transitions(data=True)),
            sorted(map(repr, m.states.initial)), sorted(m.atomic_propositions))


def check(c):
    pairs = [build(d) for d in c['models']]
    ms = [p[0] for p in pairs]
    ds = [p[1] for p in pairs]
    kinds = {d['kind'] for d in c['models']}
    before = list(map(dump, ms))
    if c['foreign']:
        for x in (trs.FiniteTransitionSystem(), 'ks', None):
            raises(TypeError, lambda: co.synchronous_parallel(ms + [x]), 'composition with something that is not a Kripke structure')
            raises(TypeError, lambda: co.apply_policy(x, {}), 'policy for something that is not a decision process')
    if 'wks' in kinds and kinds & {'mc', 'mdp'}:
        raises(TypeError, lambda: co.synchronous_parallel(ms), 'weighted and probabilistic structures')
        return
    want = 'mdp' if 'mdp' in kinds else 'mc' if 'mc' in kinds else 'wks' if 'wks' in kinds else 'ks'
    # vector costs of one composition have one length, numbers are mixed with them
    ops = {'cost': lambda *a: max(x for x in a if x is not None)} if c['ops'] and want == 'wks' and not any(
        d['vec'] for d in c['models']) else None
    p = co.synchronous_parallel(ms, dict(ops)) if ops else co.synchronous_parallel(ms)
    expect(type(p) is KINDS[want], lambda: f'kind of the composition: {type(p)}, expected {want}')
    expect(list(map(dump, ms)) == before, 'the components changed')
    S = list(itertools.product(*[d['S'] for d in ds]))
    expect(set(p.states()) == set(S), lambda: f'states {list(p.states())}, expected {S}')
    I = set(itertools.product(*[d['init'] for d in ds]))
    expect(set(p.states.initial) == I, lambda: f'initial states {list(p.states.initial)}, expected {I}')
    expect(set(p.atomic_propositions) == set().union(*[d['aps'] for d in ds]), 'propositions of the composition')
    for s in S:
        l = set().union(*[d['lab'][x] for d, x in zip(ds, s)])
        expect(set(p.states[s]['ap']) == l, lambda: f'label of {s}: {p.states[s]}, expected {l}')
    if want == 'mdp':
        acts = [d['acts'] for d in ds if d['acts'] is not None]
        A = set(acts[0]) if len(acts) == 1 else set(itertools.product(*acts))
        expect(set(p.actions) == A, lambda: f'actions {set(p.actions)}, expected {A}')
    T = []
    for choice in itertools.product(*[d['trans'] for d in ds]):
        a = {}
        cs = [t[2]['cost'] for t in choice if 'cost' in t[2]]
        if cs:
            tot = cs[0]
            if ops:
                tot = max(cs)
            else:
                vs = [x for x in cs if isinstance(x, VectorCost)]
                if vs:
                    tot = VectorCost([sum(x[i] if isinstance(x, VectorCost) else x for x in cs) for i in range(2)])
                else:
                    tot = sum(cs)
            a['cost'] = tot
        ps = [t[2]['probability'] for t in choice if 'probability' in t[2]]
        if ps:
            a['probability'] = math.prod(ps)
        xs = [t[2]['action'] for t in choice if 'action' in t[2]]
        if xs:
            a['action'] = xs[0] if len(xs) == 1 else tuple(xs)
        T.append((tuple(t[0] for t in choice), tuple(t[1] for t in choice), num(a)))
    got = [(u, v, num(d)) for u, v, d in p.transitions(data=True)]
    expect(set(got) == set(T), lambda: f'transitions of the composition: extra {set(got) - set(T)}, missing {set(T) - set(got)}')
    expect(len(got) == len(set(got)), 'a transition of the composition occurs twice')
    for m, d, cc in zip(ms, ds, c['models']):
        if cc['kind'] == 'mdp':
            policy(m, d, c['policy'])
    if want == 'mdp' and S:
        acts = sorted(p.actions, key=repr)
        pol = {s: acts[c['policy'][i % 8] % len(acts)] for i, s in enumerate(S)}
        applied(p, dict(S=S, init=I, aps=set(p.atomic_propositions), lab={s: set(p.states[s]['ap']) for s in S},
                        trans=[(u, v, dict(x)) for u, v, x in p.transitions(data=True)]), pol)
        # a composite is a component again
        q = co.synchronous_parallel([p])
        expect({(u[0], v[0], num(x)) for u, v, x in q.transitions(data=True)} == set(got), 'composition of one composite')
    wide(c)


def num(d):
    out = []
    for k, v in sorted(d.items()):
        if k == 'probability':
            v = round(v, 9)
        elif isinstance(v, VectorCost):
            v = tuple(float(x) for x in v)
        elif k == 'cost':
            v = float(v)
        else:
            v = repr(v)
        out.append((k, v))
    return tuple(out)


def policy(m, d, choice):
    pol = {s: d['acts'][choice[i % 8] % len(d['acts'])] for i, s in enumerate(d['S'])}
    applied(m, d, pol)


def applied(m, d, pol):
    before, p0 = dump(m), dict(pol)
    r = co.apply_policy(m, pol)
    expect(type(r) is trs.MarkovChain, 'kind of the result of a policy')
    expect(dump(m) == before and pol == p0, 'the decision process or the policy changed')
    expect(set(r.states()) == set(d['S']), 'states under a policy')
    expect(set(r.states.initial) == set(d['init']), 'initial states under a policy')
    expect(set(r.atomic_propositions) == set(d['aps']), 'propositions under a policy')
    for s in d['S']:
        expect(set(r.states[s]['ap']) == set(d['lab'][s]), 'labels under a policy')
    T = {(u, v, round(x['probability'], 9)) for u, v, x in d['trans'] if x['action'] == pol[u]}
    got = [(u, v, round(x['probability'], 9)) for u, v, x in r.transitions(data=True)]
    expect(set(got) == T, lambda: f'transitions under the policy {pol}: {got}, expected {T}')
    expect(all(set(x) == {'probability'} for u, v, x in r.transitions(data=True)), 'labels of the transitions under a policy')


def wide(c):
    vals = [c['policy'][i] - 1 if c['policy'][i] else None for i in range(5)]
    some = [v for v in vals if v is not None]
    if some:
        expect(co.sum_values(*vals) == sum(some), 'sum_values')
        expect(co.mult_values(*vals) == math.prod(some), 'mult_values')
    expect(co.neglect_none(*vals) == (some[0] if len(some) == 1 else tuple(some)), 'neglect_none')
