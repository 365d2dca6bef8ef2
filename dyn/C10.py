"""Executable contract of finite-state machines (tulip/transys/machines.py)."""
from dyn.base import expect, raises, Violation
from tulip.transys import machines as ma
import copy
import itertools

RULE = ('random Mealy and Moore machines with up to 3 inputs and 2 outputs (one named as a parameter), up to 5 states, deterministic or not, partial; '
        'reactions to every valuation, random guided runs, both conversions compared on all input sequences up to length 4, port removal')
DOM = [{0, 1}, {'x', 'y'}, {0, 1, 2}, {True, False}, {'a'}]
INS, OUTS = ['a', 'u', 'in'], ['o', 'v']


def cases(tier, rng):
    n = 1500 if tier == 'quick' else 25000
    for _ in range(n):
        k = rng.randrange(1, 6)
        ni, no = rng.randrange(0, 4), rng.randrange(0, 3)
        yield dict(n=k, ins=[rng.randrange(len(DOM)) for _ in range(ni)], outs=[rng.randrange(len(DOM)) for _ in range(no)],
                   e=[[rng.randrange(k), rng.randrange(k), [rng.randrange(3) for _ in range(ni + no)]] for _ in range(rng.randrange(0, 3 * k + 1))],
                   det=rng.random() < .7, lab=[[rng.randrange(3) for _ in range(no)] for _ in range(k)], init=rng.randrange(k), names=rng.randrange(3),
                   seq=[[rng.randrange(3) for _ in range(ni)] for _ in range(rng.randrange(0, 6))], start=rng.randrange(k), strip=rng.randrange(1 << (ni + no)),
                   seed=rng.randrange(10 ** 6))


def val(d, i):
    v = sorted(DOM[d], key=repr)
    return v[i % len(v)]


def nm(c, i):
    return [i, f's{i}', (i, 'q')][c['names']]


def masks(c, ports):
    return dict(masks={p: lambda x: bool(x) for p in ports[:1]}) if c['seed'] % 4 == 0 else {}


def mealy(c):
    m = ma.MealyMachine()
    m.add_inputs({p: set(DOM[d]) for p, d in zip(INS, c['ins'])}, **masks(c, INS))
    m.add_outputs({p: set(DOM[d]) for p, d in zip(OUTS, c['outs'])}, **masks(c, OUTS))
    m.states.add_from([nm(c, i) for i in range(c['n'])])
    m.states.initial.add(nm(c, c['init']))
    seen = []
    for u, v, w in c['e']:
        d = {p: val(k, i) for p, k, i in zip(INS, c['ins'], w)}
        if c['det'] and (u, d) in seen:
            continue
        seen.append((u, d))
        d = dict(d, **{p: val(k, i) for p, k, i in zip(OUTS, c['outs'], w[len(c['ins']):])})
        if not d and m.has_edge(nm(c, u), nm(c, v)):
            continue
        m.add_edge(nm(c, u), nm(c, v), attr_dict=d)
    return m


def moore(c):
    m = ma.MooreMachine()
    m.add_inputs({p: set(DOM[d]) for p, d in zip(INS, c['ins'])}, **masks(c, INS))
    m.add_outputs({p: set(DOM[d]) for p, d in zip(OUTS, c['outs'])}, **masks(c, OUTS))
    for i in range(c['n']):
        m.states.add(nm(c, i), {p: val(k, j) for p, k, j in zip(OUTS, c['outs'], c['lab'][i])})
    m.states.initial.add(nm(c, c['init']))
    for u, v, w in c['e']:
        d = {p: val(k, i) for p, k, i in zip(INS, c['ins'], w)}
        if not d and m.has_edge(nm(c, u), nm(c, v)):
            continue
        m.add_edge(nm(c, u), nm(c, v), attr_dict=d)
    return m


def dump(m):
    return copy.deepcopy((dict(m.nodes(data=True)), list(m.edges(keys=True, data=True)), list(m.states.initial), dict(m.inputs), dict(m.outputs), dict(m.state_vars)))


def part(d, ports):
    return {k: v for k, v in d.items() if k in ports}


def step(m, s, x):
    return [(v, part(d, m.outputs)) for u, v, d in m.edges(data=True) if u == s and part(d, m.inputs) == x]


def same_edges(a, b):
    return len(a) == len(b) and all(a.count(e) == b.count(e) for e in a)


def check(c):
    m = mealy(c)
    before = dump(m)
    ins = list(itertools.product(*[[{p: v} for v in sorted(DOM[d], key=repr)] for p, d in zip(INS, c['ins'])]))
    ins = [{k: v for d in x for k, v in d.items()} for x in ins][:12]
    for s in m:
        for x in ins:
            t = step(m, s, x)
            if len(t) == 1:
                got = m.reaction(s, dict(x))
                expect(got == t[0], lambda: f'reaction at {s!r} to {x}: {got}, expected {t[0]}')
            else:
                raises(ValueError, lambda: m.reaction(s, dict(x)), f'reaction at {s!r} to {x} with transitions {t}')
        if ins and c['ins']:
            x = dict(ins[c['seed'] % len(ins)])
            if c['seed'] % 2:
                x.pop(INS[c['seed'] // 2 % len(c['ins'])])
            else:
                x['another'] = 0
            raises(ValueError, lambda: m.reaction(s, x), f'reaction to {x}')
    # guided run
    if c['ins']:
        seqs = {p: [val(d, w[i]) for w in c['seq']] for i, (p, d) in enumerate(zip(INS, c['ins']))}
        for start in (None, nm(c, c['start'])):
            s = nm(c, c['init']) if start is None else start
            states, outs = [], {p: [] for p in m.outputs}
            for i in range(len(c['seq'])):
                t = step(m, s, {p: q[i] for p, q in seqs.items()})
                if len(t) != 1:
                    states = None
                    break
                s = t[0][0]
                states.append(s)
                for p in outs:
                    outs[p].append(t[0][1][p])
            f = lambda: ma.guided_run(m, start, copy.deepcopy(seqs)) if c['seed'] % 2 else m.run(start, copy.deepcopy(seqs))
            if states is None:
                raises(ValueError, f, f'guided run without reaction from {start!r} for {seqs}')
            else:
                got = f()
                expect(got == (states, outs), lambda: f'guided run from {start!r} for {seqs}: {got}, expected {(states, outs)}')
        bad = dict(seqs)
        del bad[INS[0]]
        raises((ValueError, TypeError), lambda: ma.guided_run(m, None, bad), 'missing input')
    expect(dump(m) == before, 'the machine is changed')
    # mealy -> moore
    if all(DOM[d] for d in c['outs']):
        w = ma.mealy2moore(m)
        expect(isinstance(w, ma.MooreMachine) and w.inputs == m.inputs and w.outputs == m.outputs, 'ports of the Moore machine')
        expect(len(w.states.initial) == 1, 'initial state of the Moore machine')
        for x, typ in m.outputs.items():
            expect(all(d[x] in typ for _, d in w.nodes(data=True)), 'outputs of the Moore machine')
        q0, = w.states.initial
        out = lambda q: part(w.nodes[q], w.outputs)
        # the same traces: subset construction over both machines
        front = [({nm(c, c['init'])}, {q0})]
        seen = []
        while front and len(seen) < 60:
            A, Q = front.pop()
            if (A, Q) in seen:
                continue
            seen.append((A, Q))
            for x in ins:
                a = {}
                for s in A:
                    for v, o in step(m, s, x):
                        a.setdefault(repr(sorted(o.items())), set()).add(v)
                b = {}
                for s in Q:
                    for _, v, d in w.edges(s, data=True):
                        if part(d, w.inputs) == x:
                            expect(dict(d) == x, lambda: f'label {d} of the Moore machine')
                            b.setdefault(repr(sorted(out(v).items())), set()).add(v)
                expect(set(a) == set(b), lambda: f'mealy2moore: input {x} after some sequence: outputs {sorted(a)} of the Mealy machine, {sorted(b)} of the Moore machine')
                front += [(a[o], b[o]) for o in a]
        expect(dump(m) == before, 'mealy2moore changes the machine')
    # moore -> mealy
    w = moore(c)
    wb = dump(w)
    y = ma.moore2mealy(w)
    expect(dump(w) == wb, 'moore2mealy changes the machine')
    expect(isinstance(y, ma.MealyMachine) and y.inputs == w.inputs and y.outputs == w.outputs and list(y.inputs) == list(w.inputs), 'moore2mealy: ports')
    expect(set(y) == set(w) and set(y.states.initial) == set(w.states.initial), 'moore2mealy: states')
    want = [(u, v, {**d, **part(w.nodes[u], w.outputs)}) for u, v, d in w.edges(data=True)]
    got = [(u, v, dict(d)) for u, v, d in y.edges(data=True)]
    expect(same_edges(got, want), lambda: f'moore2mealy: transitions {got}, expected {want}')
    # removal of ports
    ports = list(m.inputs) + list(m.outputs)
    rm = [p for i, p in enumerate(ports) if c['strip'] >> i & 1]
    names = [list, set, iter, tuple][c['seed'] % 4](rm)
    z = ma.strip_ports(m, names)
    expect(dump(m) == before, 'strip_ports changes the machine')
    expect(isinstance(z, ma.MealyMachine) and z.inputs == {k: v for k, v in m.inputs.items() if k not in rm} and
           z.outputs == {k: v for k, v in m.outputs.items() if k not in rm}, lambda: f'strip_ports {rm}: ports {z.inputs} {z.outputs}')
    expect(set(z) == set(m) and set(z.states.initial) == set(m.states.initial), 'strip_ports: states')
    want = []
    for u, v, d in m.edges(data=True):
        e = (u, v, {k: x for k, x in d.items() if k not in rm})
        if e not in want:
            want.append(e)
    got = [(u, v, dict(d)) for u, v, d in z.edges(data=True)]
    expect(same_edges(got, want), lambda: f'strip_ports {rm}: transitions {got}, expected {want}')


def key(c):
    return (c['n'], tuple(c['ins']), tuple(c['outs']), len(c['e']) // 2, c['det'], c['strip'])
