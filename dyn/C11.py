"""Executable contract of tulip.synth.sys_to_spec and env_to_spec."""
import itertools
import random
import warnings
from dyn.base import expect, raises, Violation
from dyn import ltl
from tulip import synth
from tulip.transys.transys import FTS

RULE = ('random transition systems of 1-4 states (names or integers), 0-2 propositions, 0-2 action types per player with '
        '0-3 values, all exclusion options, Boolean and finite-domain encodings, dead-ends, parallel transitions, '
        'previous-step labels; the specification is evaluated on pairs of valuations, uniformly drawn and drawn '
        'around the transitions, and compared with the system')
TYPES = {'env': ['env_actions', 'env_mode'], 'sys': ['sys_actions', 'sys_gear']}
VALS = {'env_actions': ['sun', 'rain', 'sunny'], 'env_mode': ['m0', 'm1'], 'sys_actions': ['go', 'stop', 'go_on'],
        'sys_gear': ['g0', 'g1']}


def cases(tier, rng):
    n = 2200 if tier == 'quick' else 30000
    for i in range(n):
        m = rng.randrange(1, 5)
        ints = rng.random() < .3
        states = rng.sample([0, 1, 2, 3, 5], m) if ints else rng.sample(['s0', 's1', 's2', 'home', 's10'], m)
        types = {}
        for o in ('env', 'sys'):
            k = rng.choice([0, 1, 1, 1, 2])
            for t in TYPES[o][:k] if rng.random() < .8 else TYPES[o][1:1 + k]:
                types[t] = rng.sample(VALS[t], rng.randrange(1, len(VALS[t]) + 1))
        aps = rng.sample(['p', 'q', 'home_p'], rng.choice([0, 1, 1, 2]))
        edges = []
        for _ in range(rng.randrange(0, 2 * m + 2)):
            lab = {t: rng.choice(v) for t, v in types.items() if rng.random() < .7}
            prev = [t for t in lab if rng.random() < .25] if rng.random() < .4 else None
            edges.append([rng.randrange(m), rng.randrange(m), lab, prev])
        owner = rng.choice(['sys', 'sys', 'env'])
        bool_states = rng.random() < .3 and not ints
        yield dict(owner=owner, states=states, types=types, aps=aps, edges=edges,
                   labels=[rng.sample(aps, rng.randrange(len(aps) + 1)) for _ in states],
                   init=sorted(rng.sample(range(m), rng.randrange(0, m + 1))), ign=rng.random() < .2,
                   bs=bool_states, ba=rng.random() < .4,
                   must={o: rng.choice(['mutex', 'xor', 'xor', None]) for o in ('env', 'sys')}, seed=rng.randrange(10**6))


def check(c):
    warnings.simplefilter('ignore')
    mk = lambda o: [dict(name=t, values=set(v), setter=True) for t, v in c['types'].items() if t.startswith(o)]
    f = FTS(mk('env') or None, mk('sys') or None)
    f.owner = c['owner']
    f.env_actions_must, f.sys_actions_must = c['must']['env'], c['must']['sys']
    S = c['states']
    f.atomic_propositions.add_from(c['aps'])
    for s, l in zip(S, c['labels']):
        f.states.add(s, ap=set(l))
    for i in c['init']:
        f.states.initial.add(S[i])
    edges = []
    seen = set()
    for a, b, lab, prev in c['edges']:
        key = (a, b, tuple(sorted(lab.items())))
        bare = prev is None or c['owner'] == 'env'
        if key in seen or (a, b, None) in seen:
            continue
        seen.add(key)
        if not lab and bare:
            seen.add((a, b, None))
        d = dict(lab)
        if prev is not None and c['owner'] == 'sys':
            d['previous'] = list(prev)
        f.transitions.add(S[a], S[b], attr_dict=d, check=False)
        edges.append((S[a], S[b], lab, set(prev or ()) if c['owner'] == 'sys' else set()))
    snapshot = (sorted(map(repr, f.states(data=True))), sorted(map(repr, f.transitions(data=True))))
    fn = synth.sys_to_spec if c['owner'] == 'sys' else synth.env_to_spec
    call = lambda: fn(f, c['ign'], 'loc', bool_states=c['bs'], bool_actions=c['ba'])
    if not c['init'] and not c['ign']:
        raises(Exception, call, 'no initial states')
        return
    raises(AssertionError, lambda: (synth.env_to_spec if c['owner'] == 'sys' else synth.sys_to_spec)(f, c['ign'], 'loc'),
           'owner of the other kind')
    sp = call()
    expect((sorted(map(repr, f.states(data=True))), sorted(map(repr, f.transitions(data=True)))) == snapshot,
           'the system was changed')
    own, oth = c['owner'], 'env' if c['owner'] == 'sys' else 'sys'
    act_bool = {o: c['ba'] or c['must'][o] is None for o in ('env', 'sys')}
    dom = {'env': {}, 'sys': {}}
    for p in c['aps']:
        dom[own][p] = [False, True]
    if c['bs']:
        for s in S:
            dom[own][s] = [False, True]
    else:
        dom[own]['loc'] = list(range(min(S), max(S) + 1)) if isinstance(S[0], int) else list(S)
    for t, vs in c['types'].items():
        o = t[:3]
        if act_bool[o]:
            for v in vs:
                dom[o][v] = [False, True]
        else:
            dom[o][t] = list(vs) + ([t + 'none'] if c['must'][o] != 'xor' else [])
    for o in ('env', 'sys'):
        got = getattr(sp, o + '_vars')
        expect(set(got) == set(dom[o]), lambda: f'{o} variables {got}, expected {dom[o]}')
        for x, d in got.items():
            vals = [False, True] if d == 'boolean' else list(range(d[0], d[1] + 1)) if isinstance(d, tuple) else list(d)
            expect(sorted(map(str, vals)) == sorted(map(str, dom[o][x])), lambda: f'domain of {x}: {d}, expected {dom[o][x]}')
        expect(not getattr(sp, o + '_prog'), f'{o} progress conditions')
    at = (lambda v, s: v[s]) if c['bs'] else (lambda v, s: v['loc'] == s)
    act = lambda v, t, x: v[x] if act_bool[t[:3]] else v[t] == x
    F = {(o, k): [ltl.P(x) for x in getattr(sp, f'{o}_{k}')] for o in ('env', 'sys') for k in ('init', 'safety')}

    def must(v, o):
        if not act_bool[o]:
            return True
        for t, vs in c['types'].items():
            if t[:3] == o:
                k = sum(v[x] for x in vs)
                if c['must'][o] == 'mutex' and k > 1 or c['must'][o] == 'xor' and k != 1:
                    return False
        return True

    def aps_ok(v):
        return all(not at(v, s) or all(v[p] == (p in l) for p in c['aps']) for s, l in zip(S, c['labels']))

    def want_init(v, o):
        r = must(v, o)
        if o == own:
            r = r and aps_ok(v) and (c['ign'] or any(at(v, S[i]) for i in c['init']))
        return r

    def steps(v, w):
        for s in S:
            if not at(v, s):
                continue
            out = [e for e in edges if e[0] == s]
            if own == 'sys':
                ok = any(at(w, t) and all(act(v if k in prev else w, k, x) for k, x in lab.items())
                         for _, t, lab, prev in out)
            else:
                ok = any(at(w, t) and all(act(v if k.startswith('sys') else w, k, x) for k, x in lab.items())
                         for _, t, lab, _ in out)
                if out and all(any(k.startswith('sys') for k in lab) for _, _, lab, _ in out):
                    # the system disables every outgoing transition
                    ok = ok or any(not any(act(v, t, x) for x in vs) for t, vs in c['types'].items() if t[:3] == 'sys')
            if not ok:
                return False
        return True

    def env_of_sys(v, w):
        for s in S:
            if not at(v, s):
                continue
            combs = [{k: x for k, x in e[2].items() if k.startswith('env')} for e in edges if e[0] == s]
            combs = [k for k in combs if k]
            if combs and not any(all(act(w, k, x) for k, x in d.items()) for d in combs):
                return False
        return True

    def want_safety(v, w, o):
        r = must(w, o)
        if o == own:
            r = r and (not c['bs'] or sum(v[s] for s in S) == 1) and steps(v, w) and aps_ok(w)
        elif own == 'sys':
            r = r and env_of_sys(v, w)
        return r
    rng = random.Random(c['seed'])
    alld = {**dom['env'], **dom['sys']}

    def draw():
        return {x: rng.choice(d) for x, d in alld.items()}

    def put(v, s):
        if c['bs']:
            for x in S:
                v[x] = x == s
        else:
            v['loc'] = s
        i = S.index(s)
        if rng.random() < .8:
            for p in c['aps']:
                v[p] = p in c['labels'][i]

    def act_put(v, t, x):
        if act_bool[t[:3]]:
            if rng.random() < .8:
                for y in c['types'][t]:
                    v[y] = y == x
            else:
                v[x] = True
        else:
            v[t] = x
    for i in range(40):
        v, w = draw(), draw()
        if rng.random() < .6 and c['bs']:
            put(v, rng.choice(S))
        if rng.random() < .8 and edges:
            s, t, lab, prev = rng.choice(edges)
            put(v, s)
            put(w, t)
            for u in (v, w):
                for k, vs in c['types'].items():
                    if rng.random() < .7:
                        act_put(u, k, rng.choice(vs))
            for k, x in lab.items():
                now = k in prev if own == 'sys' else k.startswith('sys')
                if rng.random() < .9:
                    act_put(v if now else w, k, x)
        for o in ('env', 'sys'):
            for k in range(2):
                u = (v, w)[k]
                got = all(ltl.ev(e, [u]) for e in F[o, 'init'])
                expect(got == want_init(u, o), lambda: f'{o} init is {got} in {u}, expected {not got}: {getattr(sp, o + "_init")}')
            got = all(ltl.ev(e, [v, w]) for e in F[o, 'safety'])
            expect(got == want_safety(v, w, o),
                   lambda: f'{o} safety is {got} for step {v} -> {w}, expected {not got}: {getattr(sp, o + "_safety")}')
