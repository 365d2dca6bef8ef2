"""Executable contract of tulip.spec.gr1_fragment."""
import itertools
import random
from dyn.base import finding, expect, raises, Violation
from dyn import ltl
from tulip.spec import gr1_fragment as gr1
from tulip.spec import parser

RULE = ('conversions: propositional p, q over 3 variables, evaluated on all ultimately periodic words over two of the '
        'variables with stem up to 2 and loop up to 2 and random longer ones; existence of the auxiliary valuation by '
        'exhaustive search of the product with the word; splitting: random conjunctions of admissible and inadmissible pieces')
PROP = ['a', 'b', 'c', '! a', 'a && b', 'a || b', 'a -> b', 'a <-> b', 'a ^ c', 'a && !b || c', 'True', 'False', 'b || !a']
CONV = ('stability', 'response', 'eventually', 'until')
TEMP = ['X a', '<> a', '[] b', 'a U b', 'a W b', 'a V b', '! ([] a)', "a'", '[]<> c', '(X a) U b', 'a && X(b || c)']
ADM_G = ['X a', "a' -> b", 'a && X b', 'X X c']


def cases(tier, rng):
    N = 700 if tier == 'quick' else 8000
    for i in range(N):
        k = CONV[i % 4]
        p, q = rng.choice(PROP), rng.choice(PROP)
        aux = rng.choice(['aux', 'aux', 'z', 'a', 'b', 'c', 'a1'])
        yield dict(f='conv', kind=k, p=p, q=q, aux=aux, seed=rng.randrange(1 << 30))
        yield dict(f='split', pieces=[piece(rng) for _ in range(rng.randint(1, 4))], tree=rng.random() < .3,
                   shape=rng.choice(['flat', 'left', 'right']), seed=rng.randrange(1 << 30))
        yield dict(f='spec', a=[piece(rng, True) for _ in range(rng.randint(1, 3))],
                   g=[piece(rng, True) for _ in range(rng.randint(1, 3))], seed=rng.randrange(1 << 30))


def piece(rng, good=False):
    bad = not good and rng.random() < .25
    k = rng.choice(['init', 'G', 'GF'])
    pool = TEMP if bad else PROP + (ADM_G if k == 'G' else [])
    body = rng.choice(pool)
    for _ in range(rng.choice([0, 0, 1, 2])):
        x = rng.choice(PROP)
        body = rng.choice([f'({x}) && ({body})', f'({body}) || ({x})', f'!({body})', f'({x}) -> ({body})'])
    return [k, body]


def text(k, b):
    return {'init': f'({b})', 'G': f'[]({b})', 'GF': f'[]<>({b})'}[k]


def letters(vs):
    return [dict(zip(vs, x)) for x in itertools.product([False, True], repeat=len(vs))]


def words(vs, rng):
    L = letters(vs)
    if len(vs) <= 1:
        for n in range(0, 3):
            for m in range(1, 4):
                for w in itertools.product(L, repeat=n + m):
                    yield list(w[:n]), list(w[n:])
    else:
        for _ in range(60):
            n, m = rng.randint(0, 3), rng.randint(1, 3)
            yield [rng.choice(L) for _ in range(n)], [rng.choice(L) for _ in range(m)]
        for w in L:
            yield [], [w]
            for v in L:
                yield [w], [v]
                yield [], [w, v]


def aux_exists(s, aux, stem, loop):
    """Is there a valuation of `aux` with which the word satisfies the specification?"""
    word = stem + loop
    n, m = len(word), len(stem)
    ex = lambda i, v: dict(word[i], **{aux: v})
    nxt = lambda i: i + 1 if i + 1 < n else m
    init = [ltl.P(x) for x in s.sys_init]
    safe = [ltl.P(x) for x in s.sys_safety]
    prog = [ltl.P(x) for x in s.sys_prog]
    edges = {}
    for i in range(n):
        for v in (False, True):
            edges[i, v] = [(nxt(i), w) for w in (False, True)
                           if all(ltl.ev(t, [ex(i, v), ex(nxt(i), w)]) for t in safe)]

    def reach(src):
        seen, todo = set(), list(src)
        while todo:
            u = todo.pop()
            for x in edges[u]:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen
    start = [(0, v) for v in (False, True) if all(ltl.ev(t, [ex(0, v)]) for t in init)]
    R = reach(start) | set(start)
    for u in R:
        c = reach([u])
        if u not in c:
            continue
        scc = {x for x in c if u in reach([x])} | {u}
        if all(any(ltl.ev(t, [ex(*x)]) for x in scc) for t in prog):
            return True
    return False


def check(c):
    rng = random.Random(c['seed'])
    {'conv': c_conv, 'split': c_split, 'spec': c_spec}[c['f']](c, rng)


def c_conv(c, rng):
    k, p, q, aux = c['kind'], c['p'], c['q'], c['aux']
    two = k in ('response', 'until')
    f = getattr(gr1, f'{k}_to_gr1')
    args = (p, q) if two else (p,)
    vs = sorted(ltl.mentioned(p) | (ltl.mentioned(q) if two else set()))
    if aux in vs:
        raises(ValueError, lambda: f(*args, aux=aux), 'auxiliary variable in use')
        return
    s = f(*args, aux=aux) if aux != 'aux' or rng.random() < .5 else f(*args)
    expect(s.sys_vars == dict.fromkeys([*vs, aux], 'boolean') and s.env_vars == {}, lambda: f'variables {s.sys_vars}')
    expect(not (s.env_init or s.env_safety or s.env_prog), 'assumptions')
    pat = {'stability': f'<>[]({p})', 'response': f'[](({p}) -> <>({q}))', 'eventually': f'<>({p})',
           'until': f'({p}) U ({q})'}[k]
    for stem, loop in words(vs, rng):
        want = bool(ltl.lasso(ltl.P(pat), stem, loop)[0])
        got = aux_exists(s, aux, stem, loop)
        expect(got == want, lambda: f'{pat} is {want} on {stem} ({loop})^w, but the GR(1) formula is {got}; '
               f'init {s.sys_init} safety {s.sys_safety} progress {s.sys_prog}')


def ops_of(t):
    if t[0] in ('var', 'num', 'str', 'bool'):
        return set()
    return {t[0]}.union(*(ops_of(x) for x in t[1:]))


def conjuncts(t):
    return conjuncts(t[1]) + conjuncts(t[2]) if t[0] == '&&' else [t]


TEMPORAL = ALL_TEMPORAL = {'[]', '<>', 'U', 'W', 'V'}


def admissible(t, temporal=None):
    TEMPORAL = temporal or ALL_TEMPORAL
    for u in conjuncts(t):
        if u[0] == '[]' and u[1][0] == '<>':
            bad = ops_of(u[1][1]) & (TEMPORAL | {'X'})
        elif u[0] == '[]':
            bad = ops_of(u[1]) & TEMPORAL
        else:
            bad = ops_of(u) & (TEMPORAL | {'X'})
        if bad:
            return False
    return True


def join(ts, shape, rng):
    if shape == 'flat' or len(ts) == 1:
        return ' && '.join(ts)
    r = ts[0]
    for t in ts[1:]:
        r = f'({r}) & {t}' if shape == 'left' else f'{t} /\\ ({r})'
    return r


def recombine(d):
    fs = [f'({x})' for x in d['init'] if x] + [f'[]({x})' for x in d['G'] if x] + [f'[]<>({x})' for x in d['GF'] if x]
    return ' && '.join(fs) or 'True'


def c_split(c, rng):
    f = join([text(*x) for x in c['pieces']], c['shape'], rng)
    t = ltl.P(f)
    arg = parser.parse(f) if c['tree'] else f
    if not admissible(t):
        if admissible(t, TEMPORAL - {'W'}):
            try:
                gr1.split_gr1(arg)
            except AssertionError:
                return
            finding('split-weak-until', f'weak until is accepted in {f}')
            return
        raises(AssertionError, lambda: gr1.split_gr1(arg), f'inadmissible operator in {f}')
        return
    d = gr1.split_gr1(arg)
    expect(set(d) == {'init', 'G', 'GF'}, 'parts')
    equivalent(ltl.P(recombine(d)), t, sorted(ltl.mentioned(f)), rng, lambda: f'{f} split into {d}')


def equivalent(t1, t2, vs, rng, msg):
    for stem, loop in words(vs, rng):
        x, y = bool(ltl.lasso(t1, stem, loop)[0]), bool(ltl.lasso(t2, stem, loop)[0])
        expect(x == y, lambda: f'{msg()}: differ ({x}, {y}) on {stem} ({loop})^w')


def c_spec(c, rng):
    A = ' && '.join(text(*x) for x in c['a'])
    G = ' && '.join(text(*x) for x in c['g'])
    s = gr1.str_to_grspec(f'({A}) -> ({G})')
    for side in ('env', 'sys'):
        for part in ('init', 'safety', 'prog'):
            v = getattr(s, f'{side}_{part}')
            if '' in v:
                finding('grspec-empty-parts', f'({A}) -> ({G}): {side}_{part} = {v}')
                setattr(s, f'{side}_{part}', [x for x in v if x != ''])
    equivalent(ltl.P(str(s)), ltl.P(f'({A}) -> ({G})'), sorted(ltl.mentioned(A) | ltl.mentioned(G)), rng, lambda: f'{A} -> {G} became {s}')
