"""Executable contract of exported Python controllers (tulip/dumpsmach.py)."""
from dyn.base import expect, Violation
from tulip import dumpsmach, transys
import itertools
import os
import tempfile
import networkx as nx

RULE = ('deterministic Mealy machines with up to 5 states, up to 3 inputs and 3 outputs with Boolean, integer and string values '
        '(also quotes, backslashes, line breaks), any start state, dead ends; walks that cover all states and inputs')
NAMES = ['x', 'output', 'state', 'move', 'env_2', 'input_vars', 'y', 'w']
VALUES = [[False, True], [0, 1, 2], [-3, 0, 7], ['a', 'b', 'c'], ["it's", 'a"b', '\\'], ['x', "' or True or '", 'new\nline'], [True, 'on', 3], ['', '{x}', 'None']]


def cases(tier, rng):
    n = 1500 if tier == 'quick' else 20000
    for _ in range(n):
        k, m = rng.randrange(4), rng.randrange(4)
        names = rng.sample(NAMES, k + m)
        ns = rng.randrange(1, 6)
        yield dict(i=[[v, rng.randrange(len(VALUES))] for v in names[:k]], o=[[v, rng.randrange(len(VALUES))] for v in names[k:]], n=ns, q=rng.randrange(ns),
                   nodes=rng.randrange(3), nx=rng.random() < .3, dead=rng.choice([0, .2, .6]), s=rng.randrange(1 << 30), file=rng.random() < .1,
                   cls=rng.choice([None, 'Ctrl']), dflt=rng.random() < .5)


def machine(c):
    import random
    r = random.Random(c['s'])
    q = c['q']
    name = lambda u: 'Sinit' if c['dflt'] and u == q else u if c['nodes'] == 0 else f's{u}' if c['nodes'] == 1 else (u, 'a')
    order = list(range(c['n']))
    r.shuffle(order)
    if c['nx']:
        g = nx.MultiDiGraph() if r.random() < .5 else nx.DiGraph()
        g.inputs, g.outputs = {v: VALUES[d] for v, d in c['i']}, {v: VALUES[d] for v, d in c['o']}
    else:
        g = transys.MealyMachine()
        g.add_inputs({v: set(VALUES[d]) for v, d in c['i']})
        g.add_outputs({v: set(VALUES[d]) for v, d in c['o']})
    g.add_nodes_from([name(u) for u in order])
    delta = {}
    used = set()
    for u in range(c['n']):
        if r.random() < c['dead']:
            continue
        combos = list(itertools.product(*[VALUES[d] for _, d in c['i']]))
        r.shuffle(combos)
        for ins in combos[:r.randrange(1, 6)]:
            # not two equal valuations
            if (u, ins) in used:
                continue
            t = r.randrange(c['n'])
            if c['nx'] and not g.is_multigraph() and g.has_edge(name(u), name(t)):
                continue
            used.add((u, ins))
            lab = dict(zip([v for v, _ in c['i']], ins))
            out = {v: r.choice(VALUES[d]) for v, d in c['o']}
            items = list({**lab, **out}.items())
            r.shuffle(items)
            if c['nx']:
                g.add_edge(name(u), name(t), **dict(items))
            else:
                g.transitions.add(name(u), name(t), attr_dict=dict(items))
            delta[u, ins] = (t, out)
    return g, name, delta


def check(c):
    g, name, delta = machine(c)
    q = c['q']
    before = (list(g), list(g.edges(data=True)).__repr__())
    kw = {} if c['cls'] is None else dict(classname=c['cls'])
    if name(q) != 'Sinit' or not c['dflt']:
        kw['start'] = name(q)
    if c['file']:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'ctrl.py')
            dumpsmach.write_python_case(f, g, **kw)
            text = open(f).read()
    else:
        text = dumpsmach.python_case(g, **kw)
    expect(isinstance(text, str), 'not a text')
    expect((list(g), list(g.edges(data=True)).__repr__()) == before, 'the machine was changed')
    space = {}
    try:
        exec(compile(text, '<controller>', 'exec'), space)
    except SyntaxError as e:
        raise Violation(f'the exported text is not Python code: {e}')
    C = space[c['cls'] or 'TulipStrategy']
    names = [v for v, _ in c['i']]
    m = C()
    expect(list(m.input_vars) == list(g.inputs or ()) and set(m.input_vars) == set(names), lambda: f'input_vars: {m.input_vars}')
    # walks: all states that are reached, all inputs
    combos = list(itertools.product(*[VALUES[d] for _, d in c['i']])) + [tuple('no such value' for _ in names)] * bool(names)
    has = {u for u, _ in delta}
    path = {q: []}
    todo = [q]
    while todo:
        u = todo.pop()
        for ins in combos:
            m = C()
            for w in path[u]:
                m.move(**dict(zip(names, w)))
            kwargs = dict(zip(names, ins))
            try:
                out = m.move(**kwargs)
            except ValueError:
                expect(u in has and (u, ins) not in delta, lambda: f'ValueError for input {kwargs} in state {u} ({"transition" if (u, ins) in delta else "dead end"})')
                # the state stays
                for again in combos:
                    if (u, again) in delta:
                        expect(m.move(**dict(zip(names, again))) == delta[u, again][1], 'an invalid input changes the state')
                        break
                continue
            except RuntimeError:
                expect(u not in has, lambda: f'RuntimeError in state {u} for {kwargs}')
                continue
            except Exception as e:
                raise Violation(f'{type(e).__name__}: {e} in state {u} for {kwargs}')
            expect((u, ins) in delta, lambda: f'no error for {kwargs} in state {u}: outputs {out}')
            t, want = delta[u, ins]
            expect(out == want and all(type(out[k]) is type(want[k]) for k in want), lambda: f'outputs {out} instead of {want} in state {u} for {kwargs}')
            if t not in path:
                path[t] = path[u] + [ins]
                todo.append(t)


def classify(e, c):
    return None
