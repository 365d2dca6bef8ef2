"""Executable contract of syntactic manipulation (tulip.spec.transformation, GRSpec.str_to_int, sub_values, replace_dependent_vars)."""
import copy
import random
from dyn.base import finding, expect, raises, Violation
from dyn.C14 import tree as tree_, node, back, size
from dyn import ltl
import tulip.spec.transformation as tx
from tulip.spec import parser
from tulip.spec.form import GRSpec, replace_dependent_vars

RULE = ('random trees over every operator, depth up to 5, every variable several times; substitutions of some or all '
        'variables by values, trees and constants; random GR(1) specifications over Boolean, integer and string variables '
        'of random domains, compared by value in every valuation of current and next values')
LEAF = ('var', 'num', 'bool', 'str')
VS = ['a', 'b', 'p1', 'x_y', 'u', 'v']
TX = 'tulip/spec/transformation.py'


def few(t, rng):
    """Rename variables to few names."""
    if t[0] == 'var':
        return ['var', rng.choice(VS)]
    if t[0] in LEAF:
        return t
    return t[:2] + [few(x, rng) for x in t[2:]]


def pos(t, under=False):
    """(leaf, under next?)"""
    if t[0] in LEAF:
        yield t, under
        return
    for x in t[2:]:
        yield from pos(x, under or t[1] == 'X')


def sub(t, f):
    if t[0] in LEAF:
        return f(t)
    return t[:2] + [sub(x, f) for x in t[2:]]


DOM = dict(b1='boolean', b2='boolean', n1=[0, 3], n2=[-1, 2], s1=['go', 'park', 'stop'], s2=['stop', 'go'], s3=['on', 'off'])


def lit(d, rng, k):
    if d == 'boolean':
        return None
    if isinstance(d[0], int):
        return ['num', str(rng.randint(max(0, d[0]), d[1]))]
    return ['str', rng.choice(d)]


def ltree(rng, doms, d, nxt):
    """Random well-typed condition over variables `doms`."""
    if d == 0 or rng.random() < .25:
        v = rng.choice(list(doms))
        x = ['var', v]
        if nxt and rng.random() < .4:
            x = ['un', 'X', x]
        c = lit(doms[v], rng, v)
        if c is None:
            return x
        op = rng.choice(['=', '!='])
        if c[0] == 'num' and rng.random() < .3:
            op = rng.choice(['<', '<=', '>', '>='])
        return ['cmp', op] + ([x, c] if rng.random() < .6 else [c, x])
    k = rng.random()
    r = lambda: ltree(rng, doms, d - 1, nxt)
    if k < .2:
        return ['un', '!', r()]
    if k < .3 and nxt:
        return ['un', 'X', ltree(rng, doms, d - 1, False)]
    if k < .38:
        s = [v for v in doms if isinstance(doms[v], list) and not isinstance(doms[v][0], int)]
        if s:
            v = rng.choice(s)
            one, two = (['str', rng.choice(doms[v])] for _ in range(2))
            return ['cmp', '=', ['ite', 'ite', r(), one, two], ['var', v]]
    if k < .45:
        return ['ite', 'ite', r(), r(), r()]
    return ['bin', rng.choice(['&', '|', '->', '<->', '^']), r(), r()]


def cases(tier, rng):
    n = 1500 if tier == 'quick' else 20000
    for i in range(n):
        t = few(tree_(rng, rng.choice([0, 1, 2, 3, 3, 4, 5])), rng)
        yield dict(f='graph', t=t)
        m = {v: rng.choice(['go', 'x1', 'park']) for v in VS}
        yield dict(f='values', t=t, m=m, kind=rng.choice(['str', 'str', 'str', 'bool', 'int']))
        ks = rng.sample(VS, rng.randrange(0, 4))
        yield dict(f='subtree', t=t, m={k: few(tree_(rng, rng.choice([0, 1, 2])), rng) for k in ks})
        yield dict(f='idents', t=t, d=rng.sample(VS, rng.randrange(0, len(VS) + 1)))
        if i % 3 == 0:
            yield dict(f='conflict', t=t, name=rng.choice(VS + ['zz', 'go']))
            d = {k: DOM[k] for k in rng.sample(list(DOM), rng.randrange(1, 6))}
            if rng.random() < .4:
                d['go'] = 'boolean'
            yield dict(f='infer', t=ltree(rng, {k: v for k, v in d.items()}, rng.choice([0, 1, 2, 3]), True), d=d,
                       names=rng.random() < .3)
        if i % 3 == 1:
            ds = {k: DOM[k] for k in rng.sample(list(DOM), rng.randrange(2, 6))}
            env = [k for k in ds if rng.random() < .4]
            part = lambda vs, nxt: [ltree(rng, vs, rng.choice([0, 1, 2, 3]), nxt) for _ in range(rng.randrange(0, 3))]
            ev = {k: ds[k] for k in env}
            parts = dict(env_init=part(ev, False) if ev else [], sys_init=part(ds, False), env_safety=[], sys_safety=part(ds, True),
                         env_prog=part(ds, False), sys_prog=part(ds, False))
            yield dict(f='spec', d=ds, env=env, parts=parts)
            if i % 6 == 1:
                pool = [[rng.choice(['sys_init', 'sys_safety', 'sys_prog', 'env_init']), ltree(rng, ev if ev else ds, rng.choice([0, 1, 2]), False)]
                        for _ in range(4)]
                yield dict(f='history', d=ds, env=env, pool=pool, steps=[
                    [rng.choice(['int', 'int', 'parse', 'add', 'add', 'del', 'ast']), rng.randrange(4)] for _ in range(rng.randrange(3, 9))])
            if i % 15 == 1:
                yield dict(f='pair', ite=rng.random() < .5, t=rng.choice(['s1', 's3']), v=rng.choice(['go', 'stop']))
            bs = [k for k in ds if ds[k] == 'boolean']
            yield dict(f='dep', d=ds, env=env, parts=parts,
                       m={k: ltree(rng, {v: ds[v] for v in ds if isinstance(ds[v], str) or isinstance(ds[v][0], int)} or {k: 'boolean'},
                                   rng.choice([0, 1, 2]), False) for k in bs if rng.random() < .8})


def txt(t):
    """Text with quotes (fully parenthesized)."""
    k = t[0]
    if k == 'str':
        return f'"{t[1]}"'
    if k in LEAF:
        return t[1]
    ws = [txt(x) for x in t[2:]]
    if k == 'ite':
        return f'(ite {", ".join(ws)})'
    if k == 'un':
        return f'({t[1]} ({ws[0]}))'
    return f'({ws[0]} {t[1]} {ws[1]})'


def graph_of(t):
    u = node(t)
    return u, tx.Tree.from_recursive_ast(u)


def tree_back(g):
    return back(g.to_recursive_ast())


def dom(d):
    return tuple(d) if not isinstance(d, str) and isinstance(d[0], int) else d


def make_spec(c):
    return GRSpec(env_vars={k: dom(c['d'][k]) for k in c['env']},
                  sys_vars={k: dom(c['d'][k]) for k in c['d'] if k not in c['env']},
                  **{p: [txt(t) for t in ts] for p, ts in c['parts'].items()})


def quoted(t):
    return any(x[0] == 'str' for x, _ in pos(t))


def check(c):
    f = c['f']
    if f == 'graph':
        t = c['t']
        u, g = graph_of(t)
        expect(g.root is u, 'root')
        expect(tree_back(g) == t, f'graph of {t} stands for {tree_back(g)}')
        w = g.to_recursive_ast()
        expect(w is not u and back(u) == t, 'the given tree is changed')
        expect(len(g) == size(t), f'{len(g)} nodes, not {size(t)}')
        expect(g.number_of_edges() == size(t) - 1, 'edges')
        vs = sorted(x.value for x in g.variables)
        expect(vs == sorted(x[1] for x, _ in pos(t) if x[0] == 'var'), f'variables {vs} of {t}')
        pr = tx.collect_primed_vars(u)
        want = {x[1] for x, b in pos(t) if x[0] == 'var' and b}
        expect(pr == want, f'primed variables {pr} of {t}, not {want}')
        expect(back(u) == t, 'changed by collecting variables')
    elif f == 'values':
        t, m = c['t'], dict(c['m'])
        if c['kind'] != 'str':
            m = {k: (len(v) % 2 == 0) if c['kind'] == 'bool' else len(v) for k, v in m.items()}
        u, g = graph_of(t)
        mk = {'str': lambda v: ['str', v], 'bool': lambda v: ['bool', str(v)], 'int': lambda v: ['num', str(v)]}[c['kind']]
        want = sub(t, lambda x: mk(m[x[1]]) if x[0] == 'var' else x)
        try:
            tx.sub_values(g, m)
        except TypeError as e:
            expect(c['kind'] != 'str' and want != t, f'sub_values: {e}')
            return finding('sub-values-type', f'sub_values raises TypeError for Boolean and integer values ({TX} sub_values)')
        got = tree_back(g)
        if t[0] == 'var' and got == t:
            return finding('root', f'sub_values and infer_constants leave a formula that is a single name unchanged ({TX}, '
                           'relabel_nodes does not update Tree.root)')
        expect(got == want, f'values {m} for variables of {t} give {got}, not {want}')
        expect(back(u) == t, 'the given tree is changed')
    elif f == 'subtree':
        t, m = c['t'], c['m']
        u, g = graph_of(t)
        gm = {k: graph_of(x)[1] for k, x in m.items()}
        tx.sub_bool_with_subtree(g, gm)
        want = sub(t, lambda x: m[x[1]] if x[0] == 'var' and x[1] in m else x)
        got = tree_back(g)
        expect(got == want, f'subtrees {m} in {t} give {got}, not {want}')
        expect(back(u) == t, 'the given tree is changed')
        for k in m:
            expect(tree_back(gm[k]) == m[k], 'a given subtree is changed')
    elif f == 'idents':
        t = c['t']
        u, g = graph_of(t)
        missing = {x[1] for x, _ in pos(t) if x[0] == 'var'} - set(c['d'])
        # constants need an operator of two operands above
        try:
            tx.check_for_undefined_identifiers(g, {k: 'boolean' for k in c['d']})
            r = None
        except Exception as e:
            r = type(e).__name__
        if r in ('StopIteration', 'ValueError') and any(x[0] in ('num', 'str') for x, _ in pos(t)) and not missing:
            return  # no operator of two operands above a constant: not a condition
        if missing:
            expect(r in ('ValueError', 'StopIteration'), f'undeclared {missing} accepted in {t}')
        else:
            expect(r is None, f'{t} with declared variables raises {r}')
    elif f == 'conflict':
        t, n = c['t'], c['name']
        if quoted(t):
            return
        s = txt(t)
        occ = {x[1] for x, _ in pos(t) if x[0] == 'var'}
        try:
            r = tx.check_var_name_conflict(s, n)
        except ValueError:
            expect(n in occ, f'{n} reported as used in {s}')
            return
        expect(n not in occ, f'{n} used in {s} is not reported')
        expect(r == occ, f'variables {r} of {s}, not {occ}')
    elif f == 'infer':
        t, d = c['t'], {k: dom(v) for k, v in c['d'].items()}
        bare = sub(t, lambda x: ['var', x[1]] if x[0] == 'str' else x)
        s = txt(bare)
        vals = {x for v in d.values() if isinstance(v, list) for x in v}
        arg = list(d) if c['names'] else d
        try:
            r = tx.infer_constants(s, arg)
        except Exception as e:
            expect(not c['names'] and set(d) & vals, f'infer_constants({s!r}, {d}) raises {type(e).__name__}: {e}')
            return
        expect(c['names'] or not set(d) & vals, f'ambiguous names of {d} are accepted')
        want = sub(bare, lambda x: ['str', x[1]] if x[1] not in d and x[0] == 'var' else x)
        got = back(parser.parse(r))
        expect(got == want, f'infer_constants({s!r}) gives {r!r}')
        if quoted(t):
            try:
                r2 = back(parser.parse(tx.infer_constants(txt(t), arg)))
            except Exception as e:
                r2 = None
            if r2 != t:
                finding('infer-quoted', 'infer_constants drops the quotes of constants that are quoted already '
                        f'({TX} infer_constants)')
        own = {k: v for k, v in d.items()}
        own['go2'] = ['go2', 'x2']
        try:
            tx.infer_constants(s, own)
            if not c['names'] and not set(d) & vals:
                finding('own-domain', 'infer_constants accepts a variable whose own domain has a value of the same name, '
                        f'documented as checked ({TX} infer_constants)')
        except Exception:
            pass
    elif f == 'spec':
        s = make_spec(c)
        d = {k: dom(v) for k, v in c['d'].items()}
        s.str_to_int()
        for p, ts in c['parts'].items():
            for t in ts:
                x = txt(t)
                i = s._bool_int[x]
                b = s.ast(i)
                expect(b.flatten() == i, f'the stored tree of {i!r}')
                same_meaning(t, i, d)
        vals = {k: 'go' for k in d}
        asts = s.sub_values(vals)
        done = {x for ts in c['parts'].values() for t in ts for x in (txt(t), s._bool_int[txt(t)])}
        expect(set(asts) == done, f'formulas {set(asts)}, not {done}')
        for p, ts in c['parts'].items():
            for t in ts:
                want = sub(t, lambda x: ['str', vals[x[1]]] if x[0] == 'var' else x)
                got = back(asts[txt(t)])
                if t[0] == 'var' and got == t:
                    finding('root', f'sub_values and infer_constants leave a formula that is a single name unchanged ({TX}, '
                            'relabel_nodes does not update Tree.root)')
                    continue
                expect(got == want, f'sub_values of {txt(t)} gives {got}')
                expect(back(s.ast(txt(t))) == t, 'the specification is changed by sub_values')
    elif f == 'history':
        d = {k: dom(v) for k, v in c['d'].items()}
        s = make_spec(dict(c, parts={}))
        for what, j in c['steps']:
            p, t = c['pool'][j]
            x = txt(t)
            l = getattr(s, p)
            if what == 'add':
                l.append(x)
            elif what == 'del' and x in l:
                l.remove(x)
            elif what == 'int':
                s.str_to_int()
            elif what == 'parse':
                s.parse()
            elif what == 'ast' and x in l:
                expect(back(s.ast(x)) == t, f'the tree of {x} after {c["steps"]}')
        s.str_to_int()
        for p, t in c['pool']:
            x = txt(t)
            if x in getattr(s, p):
                expect(back(s.ast(x)) == t, f'the tree of {x} after {c["steps"]}')
                i = s._bool_int[x]
                expect(i in s._ast and s._ast[i].flatten() == i, f'the tree of the integer form {i} of {x}')
                same_meaning(t, i, d)
    elif f == 'pair':
        d = {k: dom(v) for k, v in DOM.items()}
        o = c['t']
        if c['ite']:
            # the variable of the condition is not the one compared with the value
            t = ['cmp', '=', ['ite', 'ite', ['cmp', '=', ['var', o], ['str', d[o][0]]], ['var', 's2'], ['var', 's2']],
                 ['str', c['v']]]
            key, msg = 'ite-variables', ('a string constant compared with a ternary conditional over variables is numbered by '
                                         f'the domain of a variable of its condition ({TX} pair_node_to_var)')
        else:
            t = ['cmp', '=', ['var', o], ['var', 's2']]
            key, msg = 'two-variables', ('comparing two string variables of different domains compares positions of values '
                                         '(tulip/spec/form.py GRSpec.str_to_int)')
        s = GRSpec(sys_vars=d, sys_init=[txt(t)])
        try:
            s.str_to_int()
            same_meaning(t, s._bool_int[txt(t)], d)
        except (Violation, ValueError):
            finding(key, msg)
    elif f == 'dep':
        if any(quoted(t) for ts in c['parts'].values() for t in ts) or any(quoted(t) for t in c['m'].values()):
            s = make_spec(c)
            replace_dependent_vars(s, {k: txt(t) for k, t in c['m'].items()})
            bad = False
            for p, ts in c['parts'].items():
                for t, x in zip(ts, getattr(s, p), strict=True):
                    want = sub(t, lambda x: c['m'][x[1]] if x[0] == 'var' and x[1] in c['m'] else x)
                    got = back(parser.parse(x))
                    if got != want and got == sub(want, lambda x: ['var', x[1]] if x[0] == 'str' else x):
                        bad = True
                        continue
                    expect(got == want, f'{txt(t)} with {c["m"]} becomes {x}')
            if bad:
                finding('dependent-strings', 'replace_dependent_vars drops the quotes of string constants in conditions '
                        '(tulip/spec/form.py replace_dependent_vars)')
            return
        s = make_spec(c)
        replace_dependent_vars(s, {k: txt(t) for k, t in c['m'].items()})
        for p, ts in c['parts'].items():
            for t, x in zip(ts, getattr(s, p), strict=True):
                want = sub(t, lambda x: c['m'][x[1]] if x[0] == 'var' and x[1] in c['m'] else x)
                expect(back(parser.parse(x)) == want, f'{txt(t)} with {c["m"]} becomes {x}')


def values(d):
    return [False, True] if d == 'boolean' else list(range(d[0], d[1] + 1)) if isinstance(d, tuple) else list(d)


def sem(t, val, ints, d, k=0):
    """Value; `ints`: string variables have positions as values."""
    o = t[0]
    if o == 'var':
        return val[k][t[1]]
    if o == 'num':
        return int(t[1])
    if o in ('bool', 'str'):
        return t[1] == 'True' if o == 'bool' else t[1]
    op = t[1]
    if op == 'X':
        return sem(t[2], val, ints, d, k + 1)
    xs = [sem(x, val, ints, d, k) for x in t[2:]]
    if op == 'ite':
        return xs[1] if xs[0] else xs[2]
    if op == '!':
        return not xs[0]
    x, y = xs
    return {'&': lambda: x and y, '|': lambda: x or y, '->': lambda: not x or y, '<->': lambda: bool(x) == bool(y),
            '^': lambda: bool(x) != bool(y), '=': lambda: x == y and type(x) is type(y),
            '!=': lambda: not (x == y and type(x) is type(y)), '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
            '>=': lambda: x >= y}[op]()


def same_meaning(t, text, d):
    b = back(parser.parse(text))
    expect(not quoted(b), f'string constants are left in {text!r}')
    rng = random.Random(len(text))
    for _ in range(30):
        val = [{k: rng.choice(values(v)) for k, v in d.items()} for _ in range(3)]
        num = [{k: d[k].index(x) if isinstance(d[k], list) else x for k, x in v.items()} for v in val]
        one = bool(sem(t, val, False, d))
        two = bool(sem(b, num, True, d))
        expect(one == two, f'{txt(t)} is {one} for {val}, but its integer form {text!r} is {two}')
