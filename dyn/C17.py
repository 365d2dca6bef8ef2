"""Executable contract of the machines built from strategies (tulip/synth.py)."""
from dyn.base import expect, raises, Violation
from tulip import synth, spec as sp, transys
from tulip.transys import machines as ma
import copy
import itertools
import networkx as nx

RULE = ('random strategies with up to 8 nodes over up to 4 Boolean, integer and string variables (also names of parameters), hidden variables, '
        'nodes with equal values, initial nodes given or computed from the initial conditions; machines with up to 4 states for '
        'deterministic initialization and masks')
NAMES = ['x', 'y', 'key', 'from_state', 'loc', 'attr_dict']
DOM = ['boolean', (0, 2), ['a', 'b', 'c'], (-1, 1), ['up', 'down']]


def cases(tier, rng):
    n = 1500 if tier == 'quick' else 25000
    for _ in range(n):
        k = rng.randrange(1, 5)
        names = rng.sample(NAMES[:4] if rng.random() < .7 else NAMES, k)
        nn = rng.randrange(1, 9)
        yield dict(f=rng.choice(['s', 's', 'd', 'm', 'p']), vars=[[v, rng.randrange(len(DOM)), rng.randrange(2)] for v in names], n=nn,
                   val=[[rng.randrange(3) for _ in range(k + 1)] for _ in range(nn)], e=[[rng.randrange(nn), rng.randrange(nn)] for _ in range(rng.randrange(3 * nn + 1))],
                   init=sorted(rng.sample(range(nn), rng.randrange(1, nn + 1))), how=rng.randrange(3), hidden=rng.random() < .3, b=rng.random() < .5,
                   cond=[rng.randrange(3), rng.randrange(3), rng.randrange(k), rng.randrange(k)], given=[rng.randrange(3) for _ in range(k)],
                   gset=rng.randrange(1 << k), names=rng.randrange(2))


def raw(d, i):
    """Value number i of a variable, as in a strategy."""
    t = DOM[d]
    if t == 'boolean':
        return i % 2
    if isinstance(t, tuple):
        return t[0] + i % (t[1] - t[0] + 1)
    return i % len(t)


def real(d, v):
    t = DOM[d]
    return t[int(v)] if isinstance(t, list) else v


def strategy(c):
    A = nx.DiGraph()
    nm = lambda i: i if c['names'] else 10 * i + 3
    for i in range(c['n']):
        st = {}
        for (v, d, _), x in zip(c['vars'], c['val'][i]):
            y = raw(d, x)
            st[v] = bool(y) if c['b'] and DOM[d] == 'boolean' else y
        if c['hidden']:
            st['_goal'] = c['val'][i][-1]
        A.add_node(nm(i), state=st)
    A.add_edges_from((nm(u), nm(v)) for u, v in c['e'])
    return A, nm


def expr(c, side):
    """An initial condition over one variable of the side."""
    x = [(v, d) for v, d, s in c['vars'] if s == side]
    k = c['cond'][side]
    if k == 0 or not x:
        return [], lambda st: True
    v, d = x[c['cond'][2 + side] % len(x)]
    if DOM[d] == 'boolean':
        return ([v], lambda st: bool(st[v])) if k == 1 else ([f'! {v}'], lambda st: not st[v])
    val = real(d, raw(d, k))
    txt = f'({v} = "{val}")' if isinstance(val, str) else f'({v} = {val})'
    return [txt], lambda st: real(d, st[v]) == val


def same(a, b):
    return len(a) == len(b) and all(a.count(e) == b.count(e) for e in a)


def check(c):
    if c['f'] == 's':
        A, nm = strategy(c)
        env = {v: DOM[d] for v, d, s in c['vars'] if s == 0}
        sys = {v: DOM[d] for v, d, s in c['vars'] if s == 1}
        (ei, ef), (si, sf) = expr(c, 0), expr(c, 1)
        spec = sp.GRSpec(env_vars=copy.deepcopy(env), sys_vars=copy.deepcopy(sys), env_init=ei, sys_init=si)
        if c['how'] == 0:
            init = [nm(i) for i in c['init']]
            A.initial_nodes = set(init) if c['b'] else init
        else:
            init = [u for u, d in A.nodes(data=True) if not ef(d['state']) or sf(d['state'])]
        before = copy.deepcopy((dict(A.nodes(data=True)), list(A.edges)))
        lab = {u: {v: real(d, A.nodes[u]['state'][v]) for v, d, _ in c['vars']} for u in A}
        m = synth.strategy2mealy(A, spec)
        expect((dict(A.nodes(data=True)), list(A.edges)) == before, 'the strategy is changed')
        dom = lambda t: {0, 1} if t == 'boolean' else set(range(t[0], t[1] + 1)) if isinstance(t, tuple) else set(t)
        expect(isinstance(m, ma.MealyMachine) and m.inputs == {v: dom(t) for v, t in env.items()} and m.outputs == {v: dom(t) for v, t in sys.items()},
               lambda: f'ports {m.inputs} {m.outputs}')
        expect(set(m) == set(A) | {'Sinit'} and set(m.states.initial) == {'Sinit'}, lambda: f'states {set(m)}')
        got = [(u, v, dict(d)) for u, v, d in m.edges(data=True) if u != 'Sinit']
        want = [(u, v, lab[v]) for u, v in A.edges]
        expect(same(got, want), lambda: f'transitions {got}, expected {want}')
        got = [(v, dict(d)) for u, v, d in m.edges(data=True) if u == 'Sinit']
        expect(all(v in init and d == lab[v] for v, d in got), lambda: f'initial transitions {got} of initial nodes {init}, labels {lab}')
        for u in init:
            k = sum(d == lab[u] for _, d in got)
            expect(k == 1, lambda: f'{k} initial transitions for initial node {u} with values {lab[u]}: {got}')
        return
    if c['f'] == 'p':
        ports = {v: DOM[d] for v, d, _ in c['vars']}
        r = ma.create_machine_ports(ports)
        expect(r == {v: {0, 1} if t == 'boolean' else set(range(t[0], t[1] + 1)) if isinstance(t, tuple) else set(t) for v, t in ports.items()},
               lambda: f'ports of {ports}: {r}')
        d = {v: raw(k, x) for (v, k, _), x in zip(c['vars'], c['val'][0])}
        if c['b']:
            d = {v: str(x) if x >= 0 and isinstance(ports[v], list) else x for v, x in d.items()}
        b = dict(d)
        got = synth._int2str(d, {v: t for v, t in ports.items() if isinstance(t, list)})
        expect(d == b and got == {v: real(k, d[v]) for v, k, _ in c['vars']}, lambda: f'values {d}: {got}')
        return
    # a machine
    m = ma.MealyMachine()
    ins = {v: d for v, d, s in c['vars'] if s == 0}
    outs = {v: d for v, d, s in c['vars'] if s == 1}
    dom = lambda d: {raw(d, i) for i in range(3)}
    m.add_inputs({v: dom(d) for v, d in ins.items()})
    m.add_outputs({v: dom(d) for v, d in outs.items()})
    k = min(c['n'], 4)
    nodes = ['Sinit'] + list(range(1, k))
    m.states.add_from(nodes)
    m.states.initial.add('Sinit')
    for (u, v), w in zip(c['e'], itertools.cycle(c['val'])):
        lab = {x: raw(d, i) for (x, d, _), i in zip(c['vars'], w)}
        u, v = nodes[u % k] if u % 3 else 'Sinit', nodes[v % k]
        m.add_edge(u, v, attr_dict=lab)
    dump = lambda g: [(u, v, dict(d)) for u, v, d in g.edges(data=True)]
    before = dump(m)
    if c['f'] == 'm':
        synth.mask_outputs(m)
        want = [(u, v, {x: y for x, y in d.items() if not (x in outs and y == 0)}) for u, v, d in before]
        expect(same(dump(m), want), lambda: f'mask of {before}: {dump(m)}')
        return
    given = {v: raw(d, i) for j, ((v, d, s), i) in enumerate(zip(c['vars'], c['given'])) if s == 1 and c['gset'] >> j & 1}
    g = synth.determinize_machine_init(m, given or None)
    expect(dump(m) == before and g is not m, 'the machine is changed')
    expect(dict(g.inputs) == dict(m.inputs) and dict(g.outputs) == dict(m.outputs) and set(g) == set(m), 'ports and states')
    got = dump(g)
    expect(same([e for e in got if e[0] != 'Sinit'], [e for e in before if e[0] != 'Sinit']), 'other transitions')
    first = [e for e in got if e[0] == 'Sinit']
    expect(all(e in before for e in first), 'initial transitions of the machine')
    good = [e for e in before if e[0] == 'Sinit' and all(e[2][v] == x for v, x in given.items())]
    expect(all(e in good for e in first), lambda: f'outputs {given} of initial transitions {first}')
    p = lambda e: {v: x for v, x in e[2].items() if v in ins}
    for e in good:
        n = sum(p(a) == p(e) for a in first)
        expect(n == 1, lambda: f'{n} initial transitions for inputs {p(e)} and outputs {given}: {first}')


def key(c):
    return (c['f'], c['n'], tuple(map(tuple, c['vars'])), c['how'], c['hidden'], tuple(c['cond']), c['gset'])
