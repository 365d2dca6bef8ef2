"""Executable contract of edits of labeled graphs (labeled_graphs, automata)."""
from dyn.base import expect, raises, Violation
from tulip.transys import labeled_graphs as lg, automata as au, transys as tr
import networkx as nx
import copy

RULE = ('random histories of up to 14 edits (states, transitions with labels, defaults and several label types, initial and accepting '
        'states, removals one by one, in bulk and through the graph, dead-ends) of transition systems, automata and labeled graphs')
KINDS = ['graph', 'fts', 'ba', 'fsa', 'dra', 'wfa', 'graph2']
N = [0, 1, 's', 'st', 't', (0, 1), 'x']
OPS = ['add', 'add', 'add_from', 'tadd', 'tadd', 'tadd', 'tadd', 'tadd_from', 'comb', 'init', 'init_from', 'acc', 'acc', 'rm', 'rm_from', 'rm_node',
       'rm_nodes', 'trm', 'trm_from', 'uninit', 'unacc', 'deadends', 'shared', 'pairs', 'mutate']


def cases(tier, rng):
    n = 4000 if tier == 'quick' else 60000
    for _ in range(n):
        k = rng.randrange(2, len(N) + 1)
        nd = lambda: rng.randrange(k)
        lb = lambda: [rng.randrange(5), rng.randrange(5), rng.randrange(3)]
        ops = [['add_from', [i for i in range(k - (rng.random() < .5))], lb(), 0]] if rng.random() < .8 else []
        for _ in range(rng.randrange(1, 15)):
            ops.append([rng.choice(OPS), [nd() for _ in range(rng.randrange(1, 5))], lb(), nd()])
        yield dict(kind=rng.choice(KINDS), ops=ops)


def make(kind):
    """graph, node label choices, edge label choices (name -> (good, bad)), node defaults, edge defaults"""
    AP = [set(), {'p'}, {'q'}, {'p', 'q'}]
    if kind == 'graph':
        g = lg.LabeledDiGraph([dict(name='c', values={'r', 'g'}, default='r')], [dict(name='w', values={0, 1, 2}, default=0), dict(name='d', values={'a', 'b'})])
        return g, {'c': (['r', 'g'], ['z', 0])}, {'w': ([0, 1, 2], [7, 'a']), 'd': (['a', 'b'], ['c'])}, dict(c='r'), dict(w=0)
    if kind == 'graph2':
        g = lg.LabeledDiGraph([dict(name='m', values=None, default=[])], [dict(name='ap', values=au._mset.PowerSet(['p', 'q']), default={'p'})])
        return g, {'m': ([[], [1], 5], [])}, {'ap': (AP, [{'z'}])}, dict(m=[]), dict(ap={'p'})
    if kind == 'fts':
        g = tr.FTS()
        g.atomic_propositions.add_from({'p', 'q'})
        g.sys_actions.add_from({'a', 'b'})
        g.env_actions.add_from({'e', 'f'})
        return g, {'ap': (AP, [{'z'}, {'p', 'z'}])}, {'sys_actions': (['a', 'b'], ['e', 'c']), 'env_actions': (['e', 'f'], ['a'])}, dict(ap=set()), {}
    if kind in ('ba', 'fsa', 'dra', 'wfa'):
        g = dict(ba=au.BuchiAutomaton, fsa=au.FiniteStateAutomaton, dra=au.DRA, wfa=au.WeightedFiniteStateAutomaton)[kind]()
        g.atomic_propositions.add_from({'p', 'q'})
        e = {'letter': (AP, [{'z'}])}
        if kind == 'wfa':
            e['cost'] = ([0, 1, 2.5], [-1])
        return g, {}, e, {}, {}


def pick(choices, lb, bad):
    """attributes from the indices lb; with `bad`, one value outside its type"""
    d = {}
    for (name, (good, no)), i in zip(choices.items(), lb):
        if i < len(good):
            d[name] = copy.deepcopy(good[i])
        elif bad and i == 4 and no:
            d[name] = copy.deepcopy(no[lb[2] % len(no)])
    return d


class M:
    """Reference model."""
    def __init__(self):
        self.nodes, self.edges, self.init, self.acc = {}, [], set(), set()

    def add(self, n, d):
        self.nodes.setdefault(n, {}).update(copy.deepcopy(d))

    def rm(self, n):
        del self.nodes[n]
        self.edges = [e for e in self.edges if n not in e[:2]]
        self.init.discard(n)
        self.acc.discard(n)

    def dead(self):
        return {n for n in self.nodes if not any(e[0] == n for e in self.edges)}


def compare(g, m, kind, what):
    expect({n: dict(d) for n, d in g.nodes(data=True)} == m.nodes, lambda: f'{what}: states {dict(g.nodes(data=True))}, expected {m.nodes}')
    got = [(u, v, dict(d)) for u, v, d in g.edges(data=True)]
    expect(len(got) == len(m.edges) and all(e in m.edges for e in got) and all(got.count(e) == m.edges.count(e) for e in got),
           lambda: f'{what}: transitions {got}, expected {m.edges}')
    expect(set(g.states.initial) == m.init and len(g.states.initial) == len(m.init), lambda: f'{what}: initial states {g.states.initial}, expected {m.init}')
    if hasattr(g, 'accepting'):
        a = set(g.accepting.good(0)) if kind == 'dra' else set(g.accepting)
        expect(a == m.acc, lambda: f'{what}: accepting states {a}, expected {m.acc}')
        if kind == 'dra':
            expect(set(g.accepting.bad(0)) == m.acc, lambda: f'{what}: states in the pair {g.accepting.bad(0)}, expected {m.acc}')
    expect(len(g.states) == len(m.nodes) and set(g.states) == set(m.nodes) and set(g.states()) == set(m.nodes), f'{what}: collection of states')
    expect(len(g.transitions) == len(m.edges), f'{what}: number of transitions')
    expect(g.is_consistent() is True, f'{what}: is_consistent')


ODD = ['key', 'u_for_edge', 'v_for_edge', 'from_state', 'attr_dict', 'check', 'self', 'u', 'v', 'attr']


def odd_names(ops):
    """Labels named as parameters of the methods, given as a dictionary."""
    names = [ODD[sum(ns) % len(ODD)] for _, ns, _, _ in ops[:3]]
    g = lg.LabeledDiGraph([], [dict(name=k, values={0, 1}) for k in sorted(set(names))])
    g.states.add_from(range(3))
    want = set()
    for i, (_, ns, lb, _) in enumerate(ops):
        u, v, d = ns[0] % 3, ns[-1] % 3, {k: (lb[0] + j + i) % 2 for j, k in enumerate(sorted(set(names)))}
        (g.transitions.add if i % 2 else g.add_edge)(u, v, attr_dict=dict(d))
        want.add((u, v, tuple(sorted(d.items()))))
        got = sorted((a, b, tuple(sorted(e.items()))) for a, b, e in g.edges(data=True))
        expect(got == sorted(want), lambda: f'labels named {sorted(set(names))}: transitions {got}, expected {sorted(want)}')


def check(c):
    kind = c['kind']
    if kind == 'graph':
        odd_names(c['ops'])
    g, nc, ec, nd, ed = make(kind)
    if kind == 'dra':
        g.accepting.add([], [])
    m = M()
    hist = []
    for op, ns, lb, x in c['ops']:
        ns = [N[i] for i in ns]
        n, x = ns[0], N[x]
        hist.append(op)
        what = f'{kind} after {op} {ns} {lb} {x!r}'
        nattr, eattr = pick(nc, lb, True), pick(ec, lb, True)
        nok = nattr == pick(nc, lb, False)
        eok = eattr == pick(ec, lb, False)
        snap = copy.deepcopy((nattr, eattr))
        ntyped, etyped = {**copy.deepcopy(nd), **nattr}, {**copy.deepcopy(ed), **eattr}
        acc = getattr(g, 'accepting', None)
        accs = [acc.good(0), acc.bad(0)] if kind == 'dra' else [acc]
        if op == 'add':
            f = (lambda: g.states.add(n, nattr)) if lb[2] == 0 else (lambda: g.states.add(n, **nattr)) if lb[2] == 1 else (lambda: g.add_node(n, nattr))
            if nok:
                f()
                m.add(n, ntyped)
            else:
                raises(ValueError, f, f'{what}: state with a label that is not allowed')
        elif op == 'add_from':
            if nok:
                if lb[2] == 0:
                    g.states.add_from(ns, **nattr)
                elif lb[2] == 1:
                    # pairs and states with different labels over a common one
                    common = {k: v[0][0] for k, v in nc.items() if lb[1] % 2}
                    g.states.add_from([(k, [nattr, {}][(i + lb[1]) % 2]) if i < 2 or lb[0] else k for i, k in enumerate(ns)], **copy.deepcopy(common))
                    for i, k in enumerate(ns):
                        m.add(k, {**nd, **common, **[nattr, {}][(i + lb[1]) % 2]} if i < 2 or lb[0] else {**nd, **common})
                    compare(g, m, kind, what)
                    continue
                else:
                    g.add_nodes_from(iter(ns), **nattr)
                for k in ns:
                    m.add(k, ntyped)
        elif op == 'tadd':
            f = (lambda: g.transitions.add(n, x, eattr)) if lb[2] == 0 else (lambda: g.transitions.add(n, x, **eattr)) if lb[2] == 1 else \
                (lambda: g.add_edge(n, x, attr_dict=eattr))
            tadd(m, n, x, etyped, eok, f, what)
        elif op in ('tadd_from', 'comb'):
            pairs = list(zip(ns, ns[1:])) if op == 'tadd_from' else [(u, v) for u in dict.fromkeys(ns[:2]) for v in dict.fromkeys([x, n])]
            ok = eok and all(u in m.nodes and v in m.nodes for u, v in pairs) and bool(etyped)
            ok = ok and not any(e[2] == {} for e in m.edges)
            if ok:
                if op == 'tadd_from' and lb[2] == 0 and lb[1] > 2:
                    # different labels over a common one
                    for name in ec:
                        common = {name: copy.deepcopy(ec[name][0][-1])}
                        g.transitions.add_from([(u, v, [{}, eattr][i % 2]) for i, (u, v) in enumerate(pairs)], common)
                        for i, (u, v) in enumerate(pairs):
                            d = {**ed, **common, **[{}, eattr][i % 2]}
                            if (u, v, d) not in m.edges:
                                m.edges.append((u, v, copy.deepcopy(d)))
                    compare(g, m, kind, what)
                    continue
                if op == 'comb':
                    g.transitions.add_comb(ns[:2], [x, n], eattr)
                elif lb[2] == 0:
                    g.transitions.add_from([(u, v, eattr) for u, v in pairs])
                elif lb[2] == 1:
                    g.transitions.add_from(pairs, **eattr)
                else:
                    g.transitions.add_from(pairs, eattr)
                for u, v in pairs:
                    if (u, v, etyped) not in m.edges:
                        m.edges.append((u, v, copy.deepcopy(etyped)))
        elif op == 'shared':
            # a stored label is given with a further attribute for another transition
            es = list(g.edges(data=True))
            if es and eok and eattr and n in m.nodes and x in m.nodes and etyped:
                d = es[lb[0] % len(es)][2]
                want = {**copy.deepcopy(ed), **d, **eattr}
                if not any(e[:2] == (n, x) and e[2] == {} for e in m.edges):
                    g.transitions.add(n, x, d, **eattr)
                    if (n, x, want) not in m.edges:
                        m.edges.append((n, x, copy.deepcopy(want)))
        elif op == 'mutate' and kind in ('fts', 'graph2'):
            # in-place change of a default label of one state or transition
            for k in ns:
                g.states.add(k)
                m.add(k, nd)
            if kind == 'fts':
                g.nodes[n]['ap'].add('p')
                m.nodes[n]['ap'].add('p')
            else:
                g.nodes[n]['m'].append(5)
                m.nodes[n]['m'].append(5)
                g.transitions.add(n, n)
                d = dict(ap={'p'})
                if (n, n, d) in m.edges:
                    m.edges.remove((n, n, d))
                next(e for e in g[n][n].values() if e == d)['ap'].add('q')
                m.edges.append((n, n, dict(ap={'p', 'q'})))
        elif op == 'init' or op == 'init_from':
            xs = ns if op == 'init_from' else [n]
            f = (lambda: g.states.initial.add(n)) if op == 'init' else (lambda: g.states.initial.add_from(iter(ns))) if lb[2] else (lambda: g.states.initial.update(ns))
            if all(k in m.nodes for k in xs):
                f()
                m.init |= set(xs)
            else:
                raises(ValueError, f, f'{what}: initial state that is not a state')
        elif op == 'acc' and acc is not None:
            f = (lambda: [a.add(n) for a in accs]) if lb[2] or kind == 'dra' else (lambda: acc.update(ns))
            xs = [n] if lb[2] or kind == 'dra' else ns
            if all(k in m.nodes for k in xs):
                f()
                m.acc |= set(xs)
            else:
                raises(ValueError, f, f'{what}: accepting state that is not a state')
        elif op == 'pairs' and kind == 'dra':
            if all(k in m.nodes for k in ns):
                acc.add_states(0, ns, ns)
                m.acc |= set(ns)
            else:
                raises(ValueError, lambda: acc.add(ns, []), f'{what}: pair with other states')
        elif op in ('rm', 'rm_node'):
            f = (lambda: g.states.remove(n)) if op == 'rm' else (lambda: g.remove_node(n))
            if n in m.nodes:
                f()
                m.rm(n)
            else:
                raises((nx.NetworkXError, ValueError, KeyError), f, f'{what}: removal of a state that is not there')
        elif op in ('rm_from', 'rm_nodes'):
            xs = [k for k in dict.fromkeys(ns) if k in m.nodes]
            if op == 'rm_from':
                g.states.remove_from(xs)
            else:
                g.remove_nodes_from(ns)
            for k in xs:
                m.rm(k)
        elif op == 'trm':
            lab = etyped if lb[1] < 3 else eattr
            f = (lambda: g.transitions.remove(n, x, lab)) if lb[2] else (lambda: g.transitions.remove(n, x, **lab))
            f()
            m.edges = [e for e in m.edges if not (e[:2] == (n, x) and e[2] == lab)]
        elif op == 'trm_from':
            pairs = list(zip(ns, ns[1:] + [x]))
            if lb[2] == 0:
                g.transitions.remove_from([(u, v, etyped) for u, v in pairs])
                m.edges = [e for e in m.edges if not (e[:2] in pairs and e[2] == etyped)]
            elif lb[2] == 1:
                g.transitions.remove_from(pairs)
                m.edges = [e for e in m.edges if e[:2] not in pairs]
        elif op == 'uninit' and n in m.init:
            g.states.initial.remove(n)
            m.init.discard(n)
        elif op == 'unacc' and n in m.acc:
            for a in accs:
                a.remove(n)
            m.acc.discard(n)
        elif op == 'deadends':
            k = copy.deepcopy(m)
            expect(g.has_deadends() == bool(m.dead()), lambda: f'{what}: has_deadends')
            while k.dead():
                for z in k.dead():
                    k.rm(z)
            if m.nodes and not k.nodes:
                raises(AssertionError, g.remove_deadends, f'{what}: every state is removed')
                return
            g.remove_deadends()
            m = k
        expect((nattr, eattr) == snap, lambda: f'{what}: the given label became {(nattr, eattr)}')
        compare(g, m, kind, what)


def tadd(m, u, v, typed, ok, f, what):
    if u not in m.nodes or v not in m.nodes:
        raises(ValueError, f, f'{what}: transition between missing states')
    elif not ok:
        raises(ValueError, f, f'{what}: transition with a label that is not allowed')
    elif any(e[:2] == (u, v) and e[2] == {} for e in m.edges):
        raises(Exception, f, f'{what}: second transition besides an unlabeled one')
    else:
        f()
        if (u, v, typed) not in m.edges:
            m.edges.append((u, v, copy.deepcopy(typed)))


def key(c):
    return (c['kind'],) + tuple(sorted({o[0] for o in c['ops']}))
