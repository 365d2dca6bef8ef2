"""Executable contract of synthesis (tulip/synth.py, tulip/interfaces/omega.py, tulip/interfaces/gr1py.py):
realizability against an explicit game, and the plays of the synthesized machine."""
import contextlib
import io
import itertools
import random
import signal
import networkx as nx
from dyn.base import expect, raises, finding, Violation
from tulip import spec as _spec, synth, transys

RULE = ('specifications over 1-3 variables (Boolean, integers, strings), random initial, safety and progress conditions, the four quantifications of the initial state, '
        'Mealy and Moore, both forms of implication; realizability against an explicit game, the plays of the machines against the conditions')
QINIT = [r'\A \A', r'\E \E', r'\A \E', r'\E \A']


def cases(tier, rng):
    n = 400 if tier == 'quick' else 4000
    for i in range(n):
        yield dict(s=rng.randrange(1 << 30), ne=rng.randrange(0 if rng.random() < .15 else 1, 3), ns=rng.randrange(0 if rng.random() < .1 else 1, 3), q=rng.randrange(4), moore=rng.random() < .5, plus=rng.random() < .5,
                   solver=rng.choice(['omega', 'omega', 'gr1py']), kinds=rng.randrange(3), k=rng.randrange(6), deep=rng.choice([0, 1]), ts=rng.choice([0, 0, 0, 1, 2]))


class Cond:
    def __init__(self, text, f):
        self.text, self.f = text, f


def atom(r, vrs, primed):
    v = r.choice(sorted(vrs))
    dom, vals = vrs[v]
    p = r.random() < .6 and v in primed
    name = f"{v}'" if p else v
    i = 1 if p else 0
    if dom == 'boolean':
        return Cond(name, lambda s: s[i][v])
    c = r.choice(vals)
    if isinstance(c, str):
        return Cond(f'{name} = "{c}"', lambda s: s[i][v] == c)
    op = r.choice(['=', '!=', '<', '<=', '>', '>='])
    return Cond(f'{name} {op} {c}', {'=': lambda s: s[i][v] == c, '!=': lambda s: s[i][v] != c, '<': lambda s: s[i][v] < c, '<=': lambda s: s[i][v] <= c,
                                     '>': lambda s: s[i][v] > c, '>=': lambda s: s[i][v] >= c}[op])


def cond(r, vrs, primed, depth):
    if depth <= 0 or r.random() < .25:
        a = atom(r, vrs, primed)
        return a if r.random() < .7 else Cond(f'!({a.text})', lambda s: not a.f(s))
    a, b = cond(r, vrs, primed, depth - 1), cond(r, vrs, primed, depth - 1)
    op = r.choice(['&&', '||', '->', '||', '<->'])
    return Cond(f'(({a.text}) {op} ({b.text}))', {'&&': lambda s: a.f(s) and b.f(s), '||': lambda s: a.f(s) or b.f(s), '->': lambda s: not a.f(s) or b.f(s),
                                                  '<->': lambda s: bool(a.f(s)) == bool(b.f(s))}[op])


def game(c):
    r = random.Random(c['s'])

    def domain():
        k = r.choice([['boolean'], ['boolean', 'int'], ['boolean', 'int', 'str']][c['kinds']])
        if k == 'int':
            lo = 0 if r.random() < .5 else r.randrange(0, 2)
            hi = lo + r.randrange(1, 3)
            return ((lo, hi), list(range(lo, hi + 1)))
        if k == 'str':
            v = ['u', 'v', 'w'][:r.randrange(2, 4)]
            return (v, v)
        return ('boolean', [False, True])
    env = {f'x{i}': domain() for i in range(c['ne'])}
    sys = {f'y{i}': domain() for i in range(c['ns'])}
    if not env and not sys:
        sys = {'y0': domain()}
    ts = None
    if c.get('ts') and len(sys) < 2:
        # the transition system controls the variable loc
        n = r.randrange(2, 4)
        names = ['a', 'b', 'c'][:n]
        sys['loc'] = (names, names)
        succ = {u: sorted({r.choice(names) for _ in range(r.randrange(1, 3))}) for u in names}
        ts = dict(states=names, init=sorted({r.choice(names) for _ in range(r.randrange(1, 3))}), succ=succ, ignore=r.random() < .2)
    both = {**env, **sys}
    some = lambda n, vrs, primed, d: [cond(r, vrs, primed, d) for _ in range(r.randrange(n + 1))] if vrs else []
    d = 1 + c['deep']
    q = QINIT[c['q']]
    g = dict(env=env, sys=sys, q=q, env_init=[], sys_init=[])
    if q != r'\E \E':
        g['env_init'] = some(1, both if q == r'\A \A' else env, (), 1)
    if q != r'\A \A':
        g['sys_init'] = some(1, both if q == r'\E \E' else sys, (), 1)
    g['env_safety'] = some(2, both, env, d)
    g['sys_safety'] = some(2, both, sys if c['moore'] else both, d)
    g['ts'], g['ts_init'], g['ts_step'] = ts, [], []
    if ts:
        if not ts['ignore']:
            g['ts_init'] = [Cond('', lambda s: s[0]['loc'] in ts['init'])]
        g['ts_step'] = [Cond('', lambda s: s[1]['loc'] in ts['succ'][s[0]['loc']])]
    g['env_prog'], g['sys_prog'] = some(2, both, (), 1), some(2, both, (), 1)
    return g


def grspec(g, c):
    s = _spec.GRSpec(env_vars={k: v[0] for k, v in g['env'].items()}, sys_vars={k: v[0] for k, v in g['sys'].items() if not (g['ts'] and k == 'loc')},
                     **{k: [x.text for x in g[k]] for k in ('env_init', 'sys_init', 'env_safety', 'sys_safety', 'env_prog', 'sys_prog')})
    s.moore, s.plus_one, s.qinit = c['moore'], c['plus'], g['q']
    return s


class Game:
    def __init__(self, g, c):
        self.g, self.c = g, c
        en, sn = sorted(g['env']), sorted(g['sys'])
        vals = lambda names, vrs: [dict(zip(names, t)) for t in itertools.product(*[vrs[n][1] for n in names])]
        self.X, self.Y = vals(en, g['env']), vals(sn, g['sys'])
        self.nx, self.ny = range(len(self.X)), range(len(self.Y))
        self.val = {(i, j): {**self.X[i], **self.Y[j]} for i in self.nx for j in self.ny}
        all_ = lambda key: lambda u, v=None: all(x.f((self.val[u], self.val[v] if v else None)) for x in g[key])
        t = 'env' if g['q'] == r'\A \A' else 'sys'
        both = lambda a, b: lambda u, v=None: a(u, v) and b(u, v)
        self.ei, self.si = (both(all_(f'{w}_init'), all_('ts_init')) if w == t else all_(f'{w}_init') for w in ('env', 'sys'))
        S = list(self.val)
        es, ss = all_('env_safety'), both(all_('sys_safety'), all_('ts_step'))
        # the assumption on the next input does not depend on the next output
        self.E = {(u, i): es(u, (i, 0)) for u in S for i in self.nx}
        self.S = {(u, v): ss(u, v) for u in S for v in S}
        self.ep = [{u for u in S if x.f((self.val[u], None))} for x in g['env_prog']] or [set(S)]
        self.sp = [{u for u in S if x.f((self.val[u], None))} for x in g['sys_prog']] or [set(S)]

    def cpre(self, T):
        def ok(u, i, j):
            if self.c['plus']:
                return self.S[u, (i, j)] and (not self.E[u, i] or (i, j) in T)
            return not self.E[u, i] or self.S[u, (i, j)] and (i, j) in T
        if self.c['moore']:
            return {u for u in self.val if any(all(ok(u, i, j) for i in self.nx) for j in self.ny)}
        return {u for u in self.val if all(any(ok(u, i, j) for j in self.ny) for i in self.nx)}

    def win(self):
        Z = set(self.val)
        while True:
            new = Z
            for G in self.sp:
                goal = G & self.cpre(new)
                Y = set()
                while True:
                    base = goal | self.cpre(Y)
                    Y2 = set(Y)
                    for J in self.ep:
                        X = set(self.val)
                        while True:
                            X2 = base | (self.cpre(X) - J)
                            if X2 == X:
                                break
                            X = X2
                        Y2 |= X
                    if Y2 == Y:
                        break
                    Y = Y2
                new = new & Y
            if new == Z:
                return Z
            Z = new

    def realizable(self):
        W = self.win()
        self.W = W
        if self.c['plus']:
            ok = lambda u: self.si(u) and (u in W or not self.ei(u))
        else:
            ok = lambda u: self.si(u) and u in W or not self.ei(u)
        q = self.g['q']
        if q == r'\A \A':
            return all(u in W or not self.ei(u) for u in self.val)
        if q == r'\E \E':
            return any(u in W and self.si(u) for u in self.val)
        if q == r'\A \E':
            return all(any(ok((i, j)) for j in self.ny) for i in self.nx)
        return any(all(ok((i, j)) for i in self.nx) for j in self.ny)


def play(m, gm, c, q):
    """Plays of the machine in its environment."""
    key = lambda d: tuple(sorted((k, bool(v) if isinstance(v, bool) else v) for k, v in d.items()))
    conv = {key(v): u for u, v in gm.val.items()}
    names = set(gm.g['env']) | set(gm.g['sys'])

    def val(d):
        w = {}
        for k in names:
            x = d[k]
            dom = gm.g['env'].get(k) or gm.g['sys'].get(k)
            w[k] = bool(x) if dom[0] == 'boolean' else x if isinstance(dom[0], list) else int(x)
        expect(key(w) in conv, lambda: f'values out of the domains: {w}')
        return conv[key(w)]
    init = [(v, val(d)) for _, v, d in m.edges('Sinit', data=True)]
    at = {}
    G = nx.MultiDiGraph()
    todo = list(init)
    while todo:
        v, u = todo.pop()
        if v in at:
            expect(at[v] == u, 'a state of the machine has two valuations')
            continue
        at[v] = u
        G.add_node(v)
        out = [(w, val(d)) for _, w, d in m.edges(v, data=True)]
        seen = {}
        for w, t in out:
            expect(gm.E[u, t[0]], lambda: f'a transition for inputs that violate the assumption: {gm.val[u]}, {gm.val[t]}')
            expect(gm.S[u, t], lambda: f'the machine violates a safety guarantee: {gm.val[u]}, {gm.val[t]}')
            seen[t[0]] = t[1]
            G.add_edge(v, w)
            todo.append((w, t))
        for i in gm.nx:
            expect(not gm.E[u, i] or i in seen, lambda: f'no reaction at {gm.val[u]} to {gm.X[i]}')
    # initial states
    us = [u for _, u in init]
    for u in us:
        expect(gm.si(u), lambda: f'initial values {gm.val[u]} violate the initial guarantee')
        expect(u in gm.W or not gm.ei(u), lambda: f'losing initial values {gm.val[u]}')
    if q == r'\A \A':
        expect({u for u in gm.val if gm.ei(u)} <= set(us), 'no reaction to an initial state')
    elif q == r'\E \E':
        expect(us, 'no initial state')
    else:
        for i in gm.nx:
            if c['solver'] == 'omega' and any(gm.ei((i, j)) for j in gm.ny):     # gr1py drops initial nodes that it merges with others
                expect(any(u[0] == i for u in us), lambda: f'no initial values for {gm.X[i]}')
        if q == r'\E \A':
            expect(len({u[1] for u in us}) <= 1, 'the initial outputs depend on the initial inputs')
    # progress
    for n, goal in enumerate(gm.sp):
        H = G.subgraph([v for v in G if at[v] not in goal])
        for comp in nx.strongly_connected_components(H):
            if len(comp) == 1 and not H.has_edge(*(list(comp) * 2)):
                continue
            expect(not all(any(at[v] in J for v in comp) for J in gm.ep), lambda: f'a play keeps all assumptions but never reaches progress goal {n}')


def fts(g):
    t = g['ts']
    f = transys.FiniteTransitionSystem()
    f.states.add_from(t['states'])
    f.states.initial.add_from(t['init'])
    for u in t['states']:
        for v in t['succ'][u]:
            f.transitions.add(u, v)
    f.owner = 'sys'
    return f


def system(g):
    return dict(sys=fts(g), ignore_sys_init=g['ts']['ignore']) if g['ts'] else {}


def machine(g, c):
    if g['ts'] and c['ts'] == 2:
        ig = dict(ignore_init={'loc'}) if g['ts']['ignore'] else {}
        m = synth.synthesize_many(grspec(g, c), {'loc': fts(g)}, solver=c['solver'], **ig)
        return m
    return synth.synthesize(grspec(g, c), solver=c['solver'], rm_deadends=False, **system(g))


def solver_fails(e):
    """The exception is raised in a solver, which is not part of the repository."""
    t = e.__traceback__
    while t.tb_next:
        t = t.tb_next
        if isinstance(e, TimeoutError) and '/site-packages/gr1py/' in t.tb_frame.f_code.co_filename:
            return True
    f = t.tb_frame.f_code.co_filename
    return any(f'/site-packages/{x}/' in f for x in ('gr1py', 'omega'))


def late(*a):
    raise TimeoutError('the solver takes long')


def check(c):
    if c['solver'] == 'gr1py':          # does not terminate for some games
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, 4)
    try:
        check_(c)
    except Violation:
        raise
    except Exception as e:
        if not solver_fails(e) or c['solver'] == 'omega':
            raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def check_(c):
    g = game(c)
    if c['solver'] == 'gr1py':
        c = dict(c, moore=False, plus=False)
        if g['q'] == r'\E \A':
            s = grspec(g, c)
            raises(ValueError, lambda: synth.is_realizable(s, solver='gr1py'), 'gr1py with an unsupported quantification')
            return
        g['q'] = r'\A \E'        # the only one that gr1py supports
        g['env_init'] = [x for x in g['env_init'] if 'y' not in x.text and 'loc' not in x.text]
        g['sys_init'] = [x for x in g['sys_init'] if 'x' not in x.text]
    gm = Game(g, c)
    if c['solver'] == 'gr1py' and len(gm.val) > 16:
        return          # enumerative and slow
    want = gm.realizable()
    regular = all(any(gm.E[u, i] for i in gm.nx) for u in gm.val) and any(map(gm.ei, gm.val))
    if c['solver'] == 'gr1py' and not regular:
        return          # gr1py does not decide games in which the environment has no moves
    out = io.StringIO()
    text = lambda: f"{c['solver']}, moore {c['moore']}, plus_one {c['plus']}, qinit {g['q']}: " + grspec(g, c).pretty()
    with contextlib.redirect_stdout(out):
        try:
            got = synth.is_realizable(grspec(g, c), solver=c['solver'], **system(g))
        except AssertionError as e:
            if solver_fails(e):
                return
            raise Violation(f'AssertionError {e} for {text()}')
        expect(bool(got) == want, lambda: f'reported realizable: {got}, the game says {want}: {text()}')
        try:
            m = machine(g, c)
        except AssertionError as e:
            if c['solver'] == 'omega' and not any(gm.S.values()):
                return          # refused: the guarantees allow no step
            if not regular:
                return          # the assumption allows no initial state or no input of some state
            raise Violation(f'AssertionError {e!r} for {text()}')
    expect((m is not None) == want, lambda: f'a machine: {m is not None}, the game says {want}: {text()}')
    if m is None or g['ts'] and c['ts'] == 2 and not regular:
        return          # (deadends are removed, as documented)
    try:
        play(m, gm, c, g['q'])
    except Violation as e:
        raise Violation(f'{e} of {text()}')
