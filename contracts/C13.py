"""Contracts for tulip/spec/translation.py (and the tree classes it builds).

Formulas: every operator of every target language, translated and printed by the real code
with arbitrary operands (recursive calls through their contract: the translation of an
operand prints as an opaque closed text), read back in the syntax of the target.  Induction
over the tree gives the property for every formula.
Specifications: the emitted text with families of conditions and variables of any size,
split into the sections of the target format.
"""
import re
import z3
from vf.contract import *
from vf.interp import Builtin
from vf.core import _MISSING, Join

MOD = 'tulip.spec.translation'
AST = 'tulip.spec.ast'
Z, B = z3.IntSort(), z3.BoolSort()
CMP = ['<', '<=', '=', '>=', '>', '!=']
TEMP = ['X', 'G', 'F', 'U', 'W', 'V']
ALL = dict(Binary=['&', '|', '^', '->', '<->', 'U', 'W', 'V'], Comparator=CMP, Arithmetic=['+', '-', '*', '/', '<<>>'],
           Unary=['!', 'X', 'G', 'F'], Operator=['ite'])
# what each language must accept
MUST = dict(
    jtlv=['&', '|', '->', '<->', 'U', '!', 'G', 'F', 'X'] + CMP,
    gr1c=['&', '|', '->', '<->', '!', 'G', 'F', 'X'] + CMP,
    slugs=['&', '|', '->', '<->', '!', 'G', 'F', 'X', '+', '-'] + CMP,
    promela=['&', '|', '->', '<->', 'U', 'V', '!', 'G', 'F', 'X', '+', '-', '*', '/'] + CMP,
    smv=['U', 'G', 'F', 'X'],
    python=['&', '|', '->', '<->', '^', '!', '+', '-'] + CMP,
    wring=['&', '|', '->', '<->', 'U', 'V', '!', 'G', 'F', 'X'])
NO_BOOL = {'smv'}                                   # known finding smv-boolean
# syntax of the targets: text of an operator -> operator
SPIN = {'[]': 'G', '<>': 'F', 'X': 'X', 'U': 'U', 'V': 'V', 'W': 'W', '!': '!', '&&': '&', '&': '&', '||': '|', '|': '|',
        '->': '->', '<->': '<->', '==': '=', '!=': '!=', '<': '<', '<=': '<=', '>': '>', '>=': '>=', '+': '+', '-': '-',
        '*': '*', '/': '/', '^': '^', '/\\': '&', '\\/': '|'}
GR1C = {'[]': 'G', '<>': 'F', '!': '!', '&': '&', '|': '|', '->': '->', '<->': '<->', '=': '=', '!=': '!=', '<': '<',
        '<=': '<=', '>': '>', '>=': '>=', '+': '+', '-': '-', '*': '*', '/': '/'}
SYNTAX = dict(
    jtlv={**GR1C, 'next': 'X', 'U': 'U'},
    gr1c=GR1C, slugs={**GR1C, '^': '^'}, promela=SPIN,
    smv={'X': 'X', 'G': 'G', 'F': 'F', 'U': 'U', 'V': 'V', '!': '!', '&': '&', '|': '|', '->': '->', '<->': '<->', 'xor': '^',
         '=': '=', '!=': '!=', '<': '<', '<=': '<=', '>': '>', '>=': '>=', '+': '+', '-': '-', '*': '*', '/': '/'},
    python={'not': '!', 'and': '&', 'or': '|', '^': '^', '==': '=', '!=': '!=', '<': '<', '<=': '<=', '>': '>', '>=': '>=',
            '+': '+', '-': '-', '*': '*'},
    wring={'!': '!', '+': '|', '*': '&', '->': '->', '<->': '<->', '^': '^', 'G': 'G', 'F': 'F', 'X': 'X', 'U': 'U', 'R': 'V',
           'V': 'V', '=': '='})
CONST = dict(jtlv={'TRUE': True, 'FALSE': False}, gr1c={'True': True, 'False': False}, slugs={'TRUE': True, 'FALSE': False},
             promela={'true': True, 'false': False}, smv={'TRUE': True, 'FALSE': False},
             python={'True': True, 'False': False}, wring={'1': True, '0': False})
TOK = re.compile(r"\s*([A-Za-z_][\w.]*|\d+|<<>>|<->|->|\[\]|<>|<=|>=|==|!=|&&|\|\||/\\|\\/|[&|^!<>=+\-*/()',.])")
LOGIC = {'&', '|', '^', '->', '<->', '!'}


class Bad(Exception):
    pass


def toks(I, text):
    out = []
    for p in lib.str_pieces(I, text):
        if isinstance(p, str):
            i, p = 0, p.rstrip()
            while i < len(p):
                m = TOK.match(p, i)
                if not m:
                    raise Bad(f'cannot read {p[i:i + 10]!r}')
                out.append(m.group(1))
                i = m.end()
        elif isinstance(p, Sym):
            out.append(p)
        elif isinstance(p, lib.StrHole) and isinstance(p.v, Sym):
            out.append(p.v)
        else:
            raise Unsupported(f'text piece {p!r}')
    return out


def read(I, lang, text):
    """Tree of a text in which every operator is enclosed in parentheses."""
    t = toks(I, text)
    syn, con = SYNTAX[lang], CONST[lang]
    pos = [0]

    def peek():
        return t[pos[0]] if pos[0] < len(t) else None

    def prim():
        x = peek()
        pos[0] += 1
        if isinstance(x, Sym):
            if x.kind == 'name' and lang == 'jtlv':
                raise Bad('a variable without its player')
            if x.kind == 'name' and peek() == "'" and lang in ('gr1c', 'slugs'):
                pos[0] += 1
                return ('X', x)
            return x
        if x == '(':
            # (e.v), (s.v), (v=1)
            if lang == 'jtlv' and peek() in ('e.', 's.', 'e', 's'):
                who = peek()[0]
                pos[0] += 1
                if peek() == '.':
                    pos[0] += 1
                v = peek()
                pos[0] += 1
                if not isinstance(v, Sym) or peek() != ')':
                    raise Bad('variable')
                pos[0] += 1
                return (who, v)
            e = group()
            if peek() != ')':
                raise Bad(f'{peek()!r} instead of )')
            pos[0] += 1
            if lang == 'wring' and isinstance(e, tuple) and e[0] == '=' and isinstance(e[1], Sym) and e[2] is True:
                return ('is1', e[1])
            return e
        if x == '-' and isinstance(peek(), Sym) and peek().kind == 'digits':
            v = peek()
            pos[0] += 1
            return ('-', v)
        if isinstance(x, str) and x in con:
            return con[x]
        if isinstance(x, str) and syn.get(x) in ('!', 'X', 'G', 'F'):
            return (syn[x], prim())
        raise Bad(f'unexpected {x!r}')

    def group():
        a = prim()
        x = peek()
        if x in (None, ')'):
            return a
        if not isinstance(x, str) or syn.get(x) in (None, '!', 'X', 'G', 'F'):
            raise Bad(f'unknown operator {x!r}')
        if isinstance(a, tuple) and a[0] in ('X', 'G', 'F', '!') and t[pos[0] - 1] != ')' and lang not in ('gr1c', 'slugs'):
            raise Bad('operator next to an operator without parentheses')
        pos[0] += 1
        b = prim()
        return (syn[x], a, b)
    e = prim()
    if pos[0] != len(t):
        raise Bad(f'more text: {t[pos[0]:]!r}')
    return e


def key(x):
    if isinstance(x, Sym):
        return ('h', x.t.get_id())
    if isinstance(x, tuple):
        return (x[0],) + tuple(key(y) for y in x[1:])
    return x


def leaves(e, out):
    if isinstance(e, tuple) and e[0] in LOGIC:
        for x in e[1:]:
            leaves(x, out)
    else:
        out.add(key(e))


def ev(e, v):
    if not (isinstance(e, tuple) and e[0] in LOGIC):
        k = key(e)
        return k if isinstance(k, bool) else v[k]
    a = [ev(x, v) for x in e[1:]]
    return {'!': lambda: not a[0], '&': lambda: a[0] and a[1], '|': lambda: a[0] or a[1], '^': lambda: a[0] != a[1],
            '->': lambda: not a[0] or a[1], '<->': lambda: a[0] == a[1]}[e[0]]()


def same(a, b, lang):
    """The same formula: same tree up to propositional equivalence of a single operator."""
    if key(a) == key(b):
        return True
    if lang != 'python':
        return False
    # truth table over the operands (== of two truth values is equivalence)
    import itertools

    def eqv(e):
        if isinstance(e, tuple) and e[0] == '=':
            return ('<->', eqv(e[1]), eqv(e[2]))
        if isinstance(e, tuple) and e[0] in LOGIC:
            return (e[0],) + tuple(eqv(x) for x in e[1:])
        return e
    if not (isinstance(b, tuple) and b[0] in LOGIC):
        return False
    a = eqv(a)
    ks = set()
    leaves(a, ks)
    leaves(b, ks)
    ks = sorted((k for k in ks if not isinstance(k, bool)), key=repr)
    if any(k[0] != 'h' for k in ks):
        return False
    return all(ev(a, dict(zip(ks, x))) == ev(b, dict(zip(ks, x))) for x in itertools.product([False, True], repeat=len(ks)))


class Node(Val):
    """An arbitrary subformula; its translation prints as the opaque closed text `text`."""

    def __init__(self, text, log):
        self.text, self.log = text, log

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        if name == 'flatten':
            def f(I, *a, **kw):
                self.log.append(dict(kw))
                return self.text
            return Builtin('flatten', f)
        return _MISSING


def interp(ctx):
    I = ctx.new()
    for k in ('name', 'formula', 'digits'):
        I.kind_isinstance[k] = ('str', 'Hashable')
    # modules are evaluated before the paths
    I.mod_get(I.load(AST), 'nodes')
    I.mod_get(I.load(MOD), 'lang2nodes')

    def rec(I, f, a, kw):
        env = I.bind(f, a, kw)
        u = next(iter(env.values()))
        if isinstance(u, Node):
            return u
        return I.run_body(f, env)
    for n in ('_ast_to_lang', '_ast_to_python', 'translate_ast'):
        I.contracts[f'{MOD}:{n}'] = rec
    return I


def name(I, kind='name', tag='v'):
    return Sym(I.const(tag, V), kind)


def mk_lang(lang):
    def go(ctx):
        I = interp(ctx)
        ctx.under_contract += [f'{MOD}:make_{lang}_nodes', f'{MOD}:translate_ast', f'{MOD}:_ast_to_lang' if lang != 'python'
                               else f'{MOD}:_ast_to_python', f'{AST}:OperatorSpec.flatten', f'{AST}:BinarySpec.flatten',
                               f'{AST}:BoolSpec.flatten', f'{AST}:TerminalSpec.flatten']
        nodes = lambda: I.mod_get(I.load(AST), 'nodes')
        tr = lambda u: I.call(I.mod_get(I.load(MOD), 'translate_ast'), [u, lang], {})
        st = {}

        def call(u, kw):
            return I.call(I.getattr_(tr(u), 'flatten'), [], dict(kw))

        def players(I):
            e, s = I.func('is_env', V, B), I.func('is_sys', V, B)
            x = I.const('x', V)
            dom = I.func('dom', V, V)
            kw = dict(env_vars=PDict([Part((x,), e(x), (Sym(x, 'name'), Sym(dom(x), 'dom')))]),
                      sys_vars=PDict([Part((x,), And_(s(x), Not_(e(x))), (Sym(x, 'name'), Sym(dom(x), 'dom')))]))
            return kw, e, s, dom
        # operators
        for cn, ops in ALL.items():
            for op in ops:
                n = {'Unary': 1, 'Operator': 3}.get(cn, 2)
                for prime in ([False, True] if lang in ('gr1c', 'slugs') and op not in ('X', 'G', 'F') else [False]):
                    def setup(I, cn=cn, op=op, n=n, prime=prime):
                        ts = [name(I, 'formula', 't') for _ in range(n)]
                        logs = [[] for _ in ts]
                        kw = players(I)[0]
                        if prime:
                            kw['prime'] = True
                        st.update(ts=ts, logs=logs, kw=kw)

                        def thunk():
                            u = I.call(I.getattr_(nodes(), cn), [op] + [Node(t, l) for t, l in zip(ts, logs)], {})
                            return call(u, kw)
                        return thunk

                    def post(I, out, cn=cn, op=op, prime=prime):
                        if isinstance(out, Raised):
                            I.prove(z3.BoolVal(op not in MUST[lang]), f'{op} is translated ({out.name}: {out.e})'[:150])
                            return
                        ts, kw = st['ts'], st['kw']
                        want = (op, *ts)
                        push = op == 'X' and lang in ('gr1c', 'slugs')
                        if push:
                            want = ts[0]
                        if lang == 'promela' and op in ('ite', '<<>>'):
                            I.prove(TRUE, f'{op}: known finding promela-ite')
                            return
                        try:
                            got = read(I, lang, out)
                        except Bad as e:
                            I.prove(FALSE, f'{op}: {out!r} is a closed formula of the language ({e})')
                            return
                        I.prove(z3.BoolVal(same(got, want, lang)), f'{op}: same operator, same operands in the same order')
                        if lang in ('python', 'promela', 'smv'):
                            return
                        for i, l in enumerate(st['logs']):
                            exp = dict(kw, prime=True) if push or prime else kw
                            ok = bool(l) and all(set(exp) <= set(d) and all(d[k] is exp[k] for k in exp) and
                                                 (('prime' in exp) or not d.get('prime')) for d in l)
                            I.prove(z3.BoolVal(ok), f'{op}: operand {i} is printed with the variables of the players'
                                    + (' and under next' if 'prime' in exp else ''))
                    ctx.verify(f'{lang} {op}' + (' under next' if prime else ''), setup, post)
        # terminals
        for prime in ([False, True] if lang in ('gr1c', 'slugs') else [False]):
            def setup(I, prime=prime):
                v = name(I)
                kw, e, s, dom = players(I)
                if prime:
                    kw['prime'] = True
                st.update(v=v, e=e(v.t), s=s(v.t), dom=dom(v.t))
                return lambda: call(I.call(I.getattr_(nodes(), 'Var'), [v], {}), kw)

            def post(I, out, prime=prime):
                v, e, s = st['v'], st['e'], st['s']
                isb = st['dom'] == I.enc_.enc('boolean')
                if isinstance(out, Raised):
                    if lang == 'jtlv':
                        I.prove(Not_(Or_(e, s)), f'variables of the players are translated ({out.e})')
                    elif lang == 'wring':
                        I.prove(Not_(And_(Or_(e, s), isb)), f'Boolean variables of the players are translated ({out.e})')
                    else:
                        I.prove(FALSE, f'variables are translated ({out.e})')
                    return
                try:
                    got = read(I, lang, out)
                except Bad as ex:
                    I.prove(FALSE, f'variable: {out!r} is closed ({ex})')
                    return
                if lang == 'jtlv':
                    ok = isinstance(got, tuple) and got[0] in ('e', 's') and key(got[1]) == key(v)
                    I.prove(z3.BoolVal(ok), 'variable: a variable of a player')
                    if ok:
                        I.prove(e if got[0] == 'e' else And_(s, Not_(e)), 'variable: the player that owns it')
                elif lang == 'wring':
                    I.prove(z3.BoolVal(key(got) == ('is1', key(v))), 'variable: has the value 1')
                    I.prove(And_(Or_(e, s), isb), 'variable: a Boolean variable of a player')
                else:
                    I.prove(z3.BoolVal(key(got) == (('X', key(v)) if prime else key(v))), 'variable: preserved'
                            + (' and primed' if prime else ''))
            ctx.verify(f'{lang} variable' + (' under next' if prime else ''), setup, post)
        if lang == 'wring':
            def setup(I):
                v = st['v'] = name(I)
                return lambda: call(I.call(I.getattr_(nodes(), 'Var'), [v], {}), {})

            def post(I, out):
                if ctx.no_raise(I, out, 'variable without tables'):
                    I.prove(z3.BoolVal(key(read(I, lang, out)) == ('is1', key(st['v']))), 'variable: has the value 1')
            ctx.verify(f'{lang} variable without tables', setup, post)
        for nm, neg in (('number', False), ('negative number', True)):
            def setup(I, neg=neg):
                k = st['k'] = name(I, 'digits', 'k')
                return lambda: call(I.call(I.getattr_(nodes(), 'Num'), [lib.mkstr(['-', k]) if neg else k], {}), players(I)[0])

            def post(I, out, neg=neg):
                if not ctx.no_raise(I, out, 'number'):
                    return
                try:
                    got = key(read(I, lang, out))
                except Bad as e:
                    I.prove(FALSE, f'number: {out!r} ({e})')
                    return
                k = key(st['k'])
                I.prove(z3.BoolVal(got == (('-', k) if neg else k)), 'number: preserved')
            ctx.verify(f'{lang} {nm}', setup, post)
        for b in (True, False):
            def setup(I, b=b):
                return lambda: call(I.call(I.getattr_(nodes(), 'Bool'), [str(b)], {}), players(I)[0])

            def post(I, out, b=b):
                if isinstance(out, Raised):
                    I.prove(z3.BoolVal(lang in NO_BOOL), f'{b} is translated ({out.e})')
                    return
                try:
                    got = read(I, lang, out)
                except Bad as e:
                    got = e
                I.prove(z3.BoolVal(got is b), f'{b} is printed as {out!r}')
            ctx.verify(f'{lang} constant {b}', setup, post)
    return go


# ------------------------------------------------------------ specifications
SIDES = [(p, q) for p in ('env', 'sys') for q in ('init', 'safety', 'prog')]


def family(I, tag):
    f = I.func(tag, V, B)
    x = I.const('x', V)
    return PList([Part((x,), f(x), Sym(x, 'formula'))]), f


def spec_dict(I, boolean_only=False, lists=True):
    d = PDict([])
    parts = []
    F = {}
    for p, q in SIDES:
        l, F[p, q] = family(I, f'{p}_{q}')
        parts.append(single((f'{p}_{q}', l)))
    vs = {}
    for p in ('env', 'sys'):
        b, r, s = (I.func(f'{p}_{k}', V, B) for k in ('bool', 'range', 'list'))
        lo, hi, n = (I.func(f'{p}_{k}', V, Z) for k in ('lo', 'hi', 'n'))
        x = I.const('v', V)
        k = I.const('i', Z)
        item = I.func(f'{p}_item', V, Z, V)
        ps = [Part((x,), b(x), (Sym(x, 'name'), 'boolean'))]
        if not boolean_only:
            ps.append(Part((x,), And_(r(x), Not_(b(x))), (Sym(x, 'name'), (SN(lo(x)), SN(hi(x))))))
        vs[p] = dict(b=b, r=r, s=s, lo=lo, hi=hi, n=n)
        parts.append(single((f'{p}_vars', PDict(ps))))
    I.set_parts(d, parts)
    return d, F, vs


def inst_join(I, j, nm):
    """[(vars, cond, pieces)] of the elements of a Join."""
    out = []
    for p in j.parts:
        p = I.inst(p)
        out.append((p.vars, p.cond, list(lib.str_pieces(I, p.val))))
    return out


def stream(I, text):
    """str, Join and Sym pieces."""
    return list(lib.str_pieces(I, text))


def sections(I, text, header, end):
    """{name: items} by a regular expression of headers; items are (str|Join|Sym)."""
    out, cur, order = {}, None, []
    for p in stream(I, text):
        if not isinstance(p, str):
            if cur is None:
                raise Bad(f'{p!r} outside of a section')
            out[cur].append(p)
            continue
        i = 0
        while i < len(p):
            m = header.match(p, i)
            if m and (cur is None or end is None):
                cur = m.group(1)
                if cur in out:
                    raise Bad(f'section {cur} twice')
                out[cur] = []
                order.append(cur)
                i = m.end()
                continue
            if end and p.startswith(end, i):
                if cur is None:
                    raise Bad(f'{end} outside of a section')
                cur = None
                i += 1
                continue
            if cur is None:
                if not p[i].isspace():
                    raise Bad(f'text outside of sections: {p[i:i + 20]!r}')
                i += 1
                continue
            if out[cur] and isinstance(out[cur][-1], str):
                out[cur][-1] += p[i]
            else:
                out[cur].append(p[i])
            i += 1
    if end and cur is not None:
        raise Bad(f'section {cur} is not closed')
    return {k: [x for x in v if not isinstance(x, str) or x.strip()] for k, v in out.items()}


def condition(pieces, prefix, suffix=')'):
    """The hole of `prefix ( hole )`; None if it is something else."""
    ps = [x for x in pieces if not isinstance(x, str) or x.strip()]
    hs = [x for x in ps if not isinstance(x, str)]
    if len(hs) != 1 or not isinstance(hs[0], Sym):
        return None
    i = ps.index(hs[0])
    pre = re.sub(r'\s', '', ''.join(ps[:i]))
    post = re.sub(r'\s', '', ''.join(ps[i + 1:]))
    return hs[0] if pre == prefix and post == suffix else None


def conditions(I, items, sep, prefix, suffix, cond, nm):
    """Section items state each element of the family `cond` once."""
    x = z3.FreshConst(V, 'x')
    if not items:
        I.prove(z3.ForAll([x], Not_(cond(x))), f'{nm}: empty only if there is no condition')
        return
    if len(items) != 1 or not isinstance(items[0], Join):
        I.prove(FALSE, f'{nm}: a list of conditions, not {items!r}'[:200])
        return
    j = items[0]
    I.prove(z3.BoolVal(j.sep.strip(' \t') == sep or re.sub(r'\s', '', j.sep) == sep), f'{nm}: separated by {sep!r}')
    els = inst_join(I, j, nm)
    I.prove(z3.BoolVal(len(els) == 1), f'{nm}: each condition once')
    ps = []
    for vs, c, pieces in els:
        h = condition(pieces, prefix, suffix)
        if h is None:
            I.prove(FALSE, f'{nm}: each condition is {prefix} condition {suffix}, not {pieces!r}'[:200])
            return
        I.prove(z3.BoolVal(len(vs) == 1 and h.t.eq(vs[0])), f'{nm}: one copy of each condition')
        ps.append(Part(vs, c, h))
    y = I.const('y', V)
    I.prove_same([Part((y,), cond(y), Sym(y, 'formula'))], ps, f'{nm}: exactly the conditions of the specification')


def variables(I, items, vs, nm, style, only_bool=False):
    """Section items declare each variable once, with its domain."""
    got = {'b': [], 'r': []}
    for it in items:
        if isinstance(it, str):
            I.prove(FALSE, f'{nm}: unexpected text {it!r}')
            return
        els = [((), TRUE, [it])] if isinstance(it, Sym) else inst_join(I, it, nm)
        if isinstance(it, Join):
            I.prove(z3.BoolVal(it.sep.strip() == '' and (style == 'gr1c' or '\n' in it.sep)), f'{nm}: separator of variables')
        for v, c, pieces in els:
            ps = [x for x in pieces if not isinstance(x, str) or x.strip()]
            txt = ''.join(re.sub(r'\s', '', x) if isinstance(x, str) else '@' for x in ps)
            hs = [x for x in ps if not isinstance(x, str)]
            # a blank separates variables
            if isinstance(it, Join) and it.sep == '' and style == 'gr1c':
                I.prove(z3.BoolVal(isinstance(pieces[0], str) and pieces[0][:1].isspace()), f'{nm}: a blank before a variable')
            if txt == '@':
                got['b'].append((v, c, hs))
            elif txt == ('@[@,@]' if style == 'gr1c' else '@:@...@'):
                got['r'].append((v, c, hs))
            else:
                I.prove(FALSE, f'{nm}: declaration {pieces!r}')
                return
    y = I.const('y', V)
    I.prove_same([Part((y,), vs['b'](y), Sym(y, 'name'))], [Part(v, c, h[0]) for v, c, h in got['b']],
                 f'{nm}: exactly the Boolean variables')
    I.prove_same([] if only_bool else [Part((y,), And_(vs['r'](y), Not_(vs['b'](y))), Sym(y, 'name'))],
                 [Part(v, c, h[0]) for v, c, h in got['r']], f'{nm}: exactly the integer variables')
    for v, c, h in got['b'] + got['r']:
        I.prove(z3.BoolVal(len(v) == 1 and isinstance(h[0], Sym) and h[0].t.eq(v[0])), f'{nm}: one declaration of each variable')
    for v, c, h in got['r']:
        n = h[0].t
        for w, k in ((h[1], 'lo'), (h[2], 'hi')):
            I.prove(Implies_(c, (w.t if isinstance(w, SN) else z3.IntVal(-12345)) == vs[k](n)), f'{nm}: bound {k}')


def guard(fn):
    """A text that cannot be read is a failed obligation."""
    def post(I, out):
        try:
            fn(I, out)
        except Bad as e:
            I.prove(FALSE, f'the text has the form of the language ({e})'[:200])
    return post


GR1C_SEC = [('ENVINIT', 'env', 'init', ''), ('ENVTRANS', 'env', 'safety', '[]'), ('ENVGOAL', 'env', 'prog', '[]<>'),
            ('SYSINIT', 'sys', 'init', ''), ('SYSTRANS', 'sys', 'safety', '[]'), ('SYSGOAL', 'sys', 'prog', '[]<>')]
SLUGS_SEC = [('ENV_INIT', 'env', 'init', '&'), ('ENV_TRANS', 'env', 'safety', '\n'), ('ENV_LIVENESS', 'env', 'prog', '\n'),
             ('SYS_INIT', 'sys', 'init', '&'), ('SYS_TRANS', 'sys', 'safety', '\n'), ('SYS_LIVENESS', 'sys', 'prog', '\n')]


def gr1c_text(ctx):
    I = ctx.new()
    st = {}
    for k in ('name', 'formula'):
        I.kind_isinstance[k] = ('str', 'Hashable')

    def setup(I):
        d, st['F'], st['vs'] = spec_dict(I)
        return lambda: I.call(I.mod_get(I.load(MOD), '_to_gr1c'), [d], {})

    def post(I, out):
        if not ctx.no_raise(I, out, '_to_gr1c'):
            return
        s = sections(I, out, re.compile(r'([A-Z]+)\s*:'), ';')
        I.prove(z3.BoolVal(set(s) == {'ENV', 'SYS'} | {x[0] for x in GR1C_SEC}), f'the sections of gr1c ({sorted(s)})')
        for n, p in (('ENV', 'env'), ('SYS', 'sys')):
            variables(I, s.get(n, []), st['vs'][p], n, 'gr1c')
        for n, p, q, pre in GR1C_SEC:
            conditions(I, s.get(n, []), '&', pre + '(', ')', st['F'][p, q], n)
    ctx.verify('gr1c text', setup, guard(post), f'{MOD}:_to_gr1c')
    ctx.under_contract.append(f'{MOD}:_gr1c_str')

    # finite domains of strings
    def setup(I):
        n = st['n'] = I.const('n', Z)
        I.assume(n > 0)
        v = st['v'] = name(I)
        d, st['F'], _ = spec_dict(I)
        it = I.func('item', Z, V)
        i = I.const('i', Z)
        dom = PList([Part((i,), And_(0 <= i, i < n), Sym(it(i), 'name'), ordered=n)])
        side = st['side'] = ('env', 'sys')[I.choose([TRUE, TRUE])]
        ps = [single((k, x)) for k, x in ((p.val[0], p.val[1]) for p in d.parts) if not k.endswith('_vars')]
        for p in ('env', 'sys'):
            ps.append(single((f'{p}_vars', PDict([single((v, dom))] if p == side else []))))
        e = PDict(ps)
        return lambda: I.call(I.mod_get(I.load(MOD), '_to_gr1c'), [e], {})

    def post(I, out):
        if not ctx.no_raise(I, out, '_to_gr1c'):
            return
        text = lib.mkstr(out.pieces)
        ps = stream(I, text)
        # the declaration is in the text before the first condition
        flat = ''.join(x if isinstance(x, str) else '@' for x in ps)
        head = {'env': r'ENV:\s+@ \[0, @\];\s*SYS:\s*;', 'sys': r'ENV:\s*;\s*SYS:\s+@ \[0, @\];'}[st['side']]
        I.prove(z3.BoolVal(re.match(head, flat) is not None), 'string variable: integers from 0')
        hs = [x for x in ps if not isinstance(x, (str, Join))]
        I.prove(z3.BoolVal(len(hs) >= 2 and isinstance(hs[0], Sym) and hs[0].t.eq(st['v'].t)), 'string variable: its name')
        if len(hs) >= 2 and isinstance(hs[1], SN):
            I.prove(hs[1].t == st['n'] - 1, 'string variable: to the number of values - 1')
        else:
            I.prove(FALSE, 'string variable: an upper bound')
    ctx.verify('gr1c string domains', setup, guard(post), f'{MOD}:convert_domain')


def slugs_text(ctx):
    I = ctx.new()
    st = {}
    for k in ('name', 'formula'):
        I.kind_isinstance[k] = ('str', 'Hashable')

    def setup(I):
        d, st['F'], st['vs'] = spec_dict(I)
        return lambda: I.call(I.mod_get(I.load(MOD), '_to_slugs'), [d], {})

    def post(I, out):
        if not ctx.no_raise(I, out, '_to_slugs'):
            return
        s = sections(I, out, re.compile(r'\[([A-Z_]+)\]\n'), None)
        I.prove(z3.BoolVal(set(s) == {'INPUT', 'OUTPUT'} | {x[0] for x in SLUGS_SEC}), f'the sections of slugs ({sorted(s)})')
        for n, p in (('INPUT', 'env'), ('OUTPUT', 'sys')):
            variables(I, s.get(n, []), st['vs'][p], n, 'slugs')
        for n, p, q, sep in SLUGS_SEC:
            conditions(I, s.get(n, []), sep, '', '', st['F'][p, q], n)
    ctx.verify('slugs text', setup, guard(post), f'{MOD}:_to_slugs')
    ctx.under_contract += [f'{MOD}:_slugs_str', f'{MOD}:_format_slugs_vars']


def top(I, text, sep):
    """Conjuncts of a text: [(vars, cond, pieces)], families as written; separators at depth 0."""
    out = [[]]
    dep = 0
    for p in stream(I, text):
        if not isinstance(p, str):
            out[-1].append(p)
            continue
        for ch in p:
            dep += (ch == '(') - (ch == ')')
            if ch == sep and dep == 0:
                out.append([])
            elif out[-1] and isinstance(out[-1][-1], str):
                out[-1][-1] += ch
            else:
                out[-1].append(ch)
    return [[x for x in c if not isinstance(x, str) or x.strip()] for c in out]


def conj_text(I, text, sep, want, nm):
    """`text` is the conjunction of families: want = [(prefix, suffix, cond)], each at most once, in any order."""
    left = list(want)
    cs = top(I, text, sep)
    if cs == [[]]:
        cs = []
    for c in cs:
        if len(c) != 1 or not isinstance(c[0], Join):
            I.prove(FALSE, f'{nm}: conjunct {c!r}'[:200])
            return
        els = inst_join(I, c[0], nm)
        hit = None
        for w in left:
            if els and all(condition(ps, w[0], w[1]) is not None for _, _, ps in els):
                hit = w
        if hit is None:
            I.prove(FALSE, f'{nm}: conditions {els!r}'[:200])
            return
        left.remove(hit)
        conditions(I, [c[0]], sep, hit[0], hit[1], hit[2], f'{nm} {hit[0]}')
    x = z3.FreshConst(V, 'x')
    for w in left:
        I.prove(z3.ForAll([x], Not_(w[2](x))), f'{nm}: only empty parts are missing ({w[0]})')


def strip_comments(I, text):
    return lib.mkstr([re.sub(r'--[^\n]*\n', '', p) if isinstance(p, str) else p for p in stream(I, text)])


def jtlv_text(ctx):
    I = ctx.new()
    st = {}
    for k in ('name', 'formula'):
        I.kind_isinstance[k] = ('str', 'Hashable')

    def resub(I, pat, rep, s, *a, **kw):
        # blanks between `next` and a parenthesis
        if pat == r'next\s*\(' and rep == 'next(' and not a and not kw:
            return s
        raise Unsupported('re.sub')
    I.ext['re'] = dict(sub=Builtin('sub', resub))
    I.contract_uses['re.sub'] = 1

    def setup(I):
        d, st['F'], st['vs'] = spec_dict(I)
        return lambda: I.call(I.mod_get(I.load(MOD), '_to_jtlv'), [d], {})

    def post(I, out):
        if not ctx.no_raise(I, out, '_to_jtlv'):
            return
        I.prove(z3.BoolVal(isinstance(out, tuple) and len(out) == 2), 'assumption and guarantee')
        for p, text in zip(('env', 'sys'), out):
            conj_text(I, strip_comments(I, text), '&', [(a + '(', ')', st['F'][p, q]) for a, q in (
                ('', 'init'), ('[]', 'safety'), ('[]<>', 'prog'))], {'env': 'assumption', 'sys': 'guarantee'}[p])
    ctx.verify('jtlv text', setup, guard(post), f'{MOD}:_to_jtlv')
    ctx.under_contract.append(f'{MOD}:_jtlv_str')


def wring_text(ctx):
    I = ctx.new()
    st = {}
    for k in ('name', 'formula'):
        I.kind_isinstance[k] = ('str', 'Hashable')

    def setup(I):
        d, st['F'], st['vs'] = spec_dict(I, True)
        return lambda: I.call(I.mod_get(I.load(MOD), '_to_wring'), [d], {})

    def post(I, out):
        if not ctx.no_raise(I, out, '_to_wring'):
            return
        F = st['F']
        want = lambda p: [('(', ')', F[p, 'init']), ('G(', ')', F[p, 'safety']), ('G(F(', '))', F[p, 'prog'])]
        x = z3.FreshConst(V, 'x')
        none = lambda p: And_(*[z3.ForAll([x], Not_(w[2](x))) for w in want(p)])
        if isinstance(out, str):
            I.prove(z3.BoolVal(re.sub(r'\s', '', out) in ('G(1)', '(1)', '1')), f'no guarantee: {out!r} is true')
            I.prove(none('sys'), 'true only if there is no guarantee')
            return
        ps = stream(I, out)
        ok = isinstance(ps[0], str) and ps[0].startswith('(') and isinstance(ps[-1], str) and ps[-1].endswith(')')
        I.prove(z3.BoolVal(ok), 'enclosed in parentheses')
        if not ok:
            return
        ps[0], ps[-1] = ps[0][1:], ps[-1][:-1]
        # ((assumption) -> (guarantee))
        for i, p in enumerate(ps):
            if isinstance(p, str) and re.search(r'\)\s*->\s*\(', p):
                a, b = re.split(r'->', p, maxsplit=1)
                l, r = lib.mkstr(ps[:i] + [a]), lib.mkstr([b] + ps[i + 1:])

                def inner(t):
                    q = stream(I, t)
                    q[0], q[-1] = q[0].strip(), q[-1].strip()
                    if not (q[0].startswith('(') and q[-1].endswith(')')):
                        raise Bad('operands of the implication')
                    q[0], q[-1] = q[0][1:], q[-1][:-1]
                    return lib.mkstr(q)
                conj_text(I, inner(l), '*', want('env'), 'assumption')
                conj_text(I, inner(r), '*', want('sys'), 'guarantee')
                return
        I.prove(none('env'), 'no implication only if there is no assumption')
        conj_text(I, lib.mkstr(ps), '*', want('sys'), 'guarantee')
    ctx.verify('wring text', setup, guard(post), f'{MOD}:_to_wring')


class Spec(Val):
    """An arbitrary GR(1) specification."""

    def __init__(self, st):
        self.st = st

    def subst(self, pairs):
        return self

    def isinstance_(self, I, name):
        return name == 'GRSpec'

    def getattr_(self, I, n):
        st = self.st
        if n in ('check_syntax', 'str_to_int'):
            return Builtin(n, lambda I, *a: st['log'].append(n))
        if n in ('env_vars', 'sys_vars'):
            return st[n]
        if n == '_parts':
            return tuple(f'{p}_{q}' for p, q in SIDES)
        if n == '_bool_int':
            return BoolInt(st)
        if n == 'ast':
            return Builtin('ast', lambda I, f: Tree('ast', st['AST'](f.t)))
        if n in st['L']:
            return st['L'][n]
        return _MISSING


class BoolInt(Val):
    def __init__(self, st):
        self.st = st

    def subst(self, pairs):
        return self

    def getitem_(self, I, k):
        # filled by str_to_int
        I.prove(z3.BoolVal('str_to_int' in self.st['log']), 'conditions with integers, after the conversion')
        return Sym(self.st['BI'](k.t), 'formula')


class Tree(Val):
    def __init__(self, what, t):
        self.what, self.t = what, t

    def subst(self, pairs):
        return Tree(self.what, z3.substitute(self.t, *pairs))

    def getattr_(self, I, n):
        if n == 'flatten' and self.what == 'out':
            def f(I, *a, **kw):
                st = self.st_
                I.prove(z3.BoolVal(kw.get('env_vars') is st['env_vars'] and kw.get('sys_vars') is st['sys_vars']),
                        'printed with the variables of the specification')
                return Sym(st['TXT'](self.t), 'formula')
            return Builtin('flatten', f)
        return _MISSING


def whole(ctx):
    for lang in ('gr1c', 'slugs', 'jtlv', 'wring'):
        I = ctx.new()
        st = {}

        def setup(I, lang=lang):
            for n in ('AST', 'BI', 'TXT'):
                st[n] = I.func(n, V, V)
            st.update(log=[], L={}, F={}, out=None, env_vars=PDict([]), sys_vars=PDict([]), langs=[])
            for p, q in SIDES:
                st['L'][f'{p}_{q}'], st['F'][f'{p}_{q}'] = family(I, f'{p}_{q}')

            def tr(I, f, a, kw):
                env = I.bind(f, a, kw)
                t = env['tree']
                st['langs'].append(env['lang'])
                r = Tree('out', t.t)
                r.st_ = st
                return r
            I.contracts[f'{MOD}:translate_ast'] = tr

            def emit(I, f, a, kw):
                st['out'] = (f.qual, I.bind(f, a, kw)['d'])
                return Sym(I.const('result', V), 'text')
            for n in ('_to_gr1c', '_to_slugs', '_to_jtlv', '_to_wring'):
                I.contracts[f'{MOD}:{n}'] = emit
            return lambda: I.call(I.mod_get(I.load(MOD), 'translate'), [Spec(st), lang], {})

        def post(I, out, lang=lang):
            if not ctx.no_raise(I, out, 'translate'):
                return
            I.prove(z3.BoolVal('check_syntax' in st['log']), 'misplaced next operators are refused first')
            I.prove(z3.BoolVal(bool(st['langs']) and set(st['langs']) == {lang}), f'formulas are translated to {lang}')
            I.prove(z3.BoolVal(st['out'] is not None and st['out'][0] == f'_to_{lang}'), f'printed as {lang}')
            if st['out'] is None:
                return
            d = st['out'][1]
            for p in ('env_vars', 'sys_vars'):
                I.prove(z3.BoolVal(I.getitem(d, p) is st[p]), f'{p} of the specification')
            for n in st['L']:
                l = I.getitem(d, n)
                x = I.const('x', V)
                want = [Part((x,), st['F'][n](x), Sym(st['TXT'](st['AST'](st['BI'](x))), 'formula'))]
                ps = I.iter_parts(l)
                I.prove(z3.BoolVal(len(ps) == 1 and len(ps[0].vars) == 1), f'{n}: each condition once')
                I.prove_same(want, ps, f'{n}: the translations of the conditions of this part')
        ctx.verify(f'translate to {lang}', setup, post, f'{MOD}:translate')


GROUPS = [Group(f'formulas {l}', mk_lang(l)) for l in MUST] + [
    Group('gr1c text', gr1c_text), Group('slugs text', slugs_text), Group('jtlv text', jtlv_text),
    Group('wring text', wring_text), Group('translate', whole)]
