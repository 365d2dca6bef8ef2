"""Contracts for the LTL lexer, parser and tree classes (tulip/spec/lexyacc.py, parser.py, ast.py).

The grammar is read from the code: productions and token rules (documentation strings of
p_* and t_* members, as PLY reads them), the precedence table that Parser.__init__ builds,
reserved words.  PLY itself is assumed: it splits text by the token rules (functions in the
order of the source, then string rules by decreasing length) and resolves conflicts by the
precedence table.
For every operator and every kind of node: the text that flatten prints for arbitrary
operands is split into tokens, the only production that matches is run by the verifier with
opaque operands, and the node that it makes is compared with the printed one.  Induction over
the tree (operands of the text are read as the operands) gives the round trip.
"""
import ast as pyast
import re
import z3
from vf.contract import *
from vf.interp import Builtin, FuncVal, ClassVal, ExtClass
from vf.core import _MISSING

LY = 'tulip.spec.lexyacc'
AST = 'tulip.spec.ast'
BOOL = {'&': ['&', '&&', '/\\'], '|': ['|', '||', '\\/'], '^': ['^'], '->': ['->', '=>'], '<->': ['<->', '<=>'],
        'U': ['U'], 'W': ['W'], 'V': ['V', 'R']}
CMP = {'<': ['<'], '<=': ['<=', '=<'], '=': ['='], '>=': ['>='], '>': ['>'], '!=': ['!=', '/=']}
ARI = {'+': ['+'], '-': ['-'], '*': ['*'], '/': ['/']}
UN = {'!': ['!', '~'], 'X': ['X', 'next'], 'G': ['G', '[]'], 'F': ['F', '<>']}
# listed in known_findings.txt: read, but the tree keeps the spelling (or the spelling is not read)
KNOWN_RAW = {'=>', '<=>', '/=', '=<', '~'}
KNOWN_UNREAD = {'R'}
LEVELS = [('left', ['<->']), ('left', ['->']), ('left', ['^']), ('left', ['|']), ('left', ['&']), ('left', ['G', 'F']),
          ('left', ['U', 'W', 'V']), ('left', ['=', '!=']), ('left', ['<', '<=', '>=', '>']), ('left', ['+', '-']),
          ('left', ['*', '/']), ('right', ['!']), ('right', ['X']), ('left', ["'"])]


class Grammar:
    """Token rules and productions of the real classes."""

    def __init__(self, ctx, I):
        self.I = I
        m = I.load(LY)
        noop = lambda I, f, a, kw: None
        I.contracts[f'{LY}:Lexer.build'] = noop
        I.contracts[f'{LY}:Parser.build'] = noop
        self.L, self.P = I.mod_get(m, 'Lexer'), I.mod_get(m, 'Parser')
        self.nodes = I.mod_get(I.load(AST), 'nodes')
        self.lexer = I.call(self.L, [], {})
        self.parser = I.call(self.P, [], {})
        self.reserved = {}
        d = I.getattr_(self.lexer, 'reserved')
        fun, txt = [], []
        for name, v in self.members(self.L):
            if not name.startswith('t_') or name in ('t_ignore', 't_error'):
                continue
            if isinstance(v, FuncVal):
                fun.append((v.node.lineno, name[2:], self.doc(v), v))
            elif isinstance(v, str):
                txt.append((name[2:], v))
            else:
                raise Unsupported(f'token rule {name}')
        fun.sort(key=lambda x: x[0])
        txt.sort(key=lambda x: len(x[1]), reverse=True)
        self.rules = [(n, re.compile(rx, re.VERBOSE), f) for _, n, rx, f in fun] + [
            (n, re.compile(rx, re.VERBOSE), None) for n, rx in txt]
        ign = [v for n, v in self.members(self.L) if n == 't_ignore']
        ign = ign[0] if ign else ''
        if not isinstance(ign, str):
            raise Unsupported('t_ignore')
        self.ignore = ign
        self.prods = []
        for name, v in self.members(self.P):
            if not name.startswith('p_') or name == 'p_error':
                continue
            lhs = None
            for line in self.doc(v).splitlines():
                w = line.split()
                if not w:
                    continue
                if w[0] == '|':
                    w = [lhs, ':'] + w[1:]
                if len(w) < 2 or w[1] not in (':', '::='):
                    raise Unsupported(f'grammar of {name}: {line}')
                lhs = w[0]
                rhs, prec = w[2:], None
                if '%prec' in rhs:
                    k = rhs.index('%prec')
                    rhs, prec = rhs[:k], rhs[k + 1]
                self.prods.append((lhs, tuple(rhs), prec, v))
        self.prec = {}
        tab = I.getattr_(self.parser, 'precedence')
        for lev, row in enumerate(I.concrete_elems(tab), 1):
            row = I.concrete_elems(row)
            for t in row[1:]:
                self.prec[t] = (row[0], lev)
        I.contract_uses['ply.lex.lex'] = I.contract_uses.get('ply.lex.lex', 0) + 1
        I.contract_uses['ply.yacc.yacc'] = I.contract_uses.get('ply.yacc.yacc', 0) + 1

    def members(self, cls):
        seen = {}
        for c in self.I.mro(cls):
            if isinstance(c, ClassVal):
                for n, v in c.ns.items():
                    seen.setdefault(n, v)
        return list(seen.items())

    def doc(self, f):
        d = pyast.get_docstring(f.node, clean=False)
        if d is None:
            raise Unsupported(f'{f.qual}: no rule')
        return d

    def lex(self, s):
        """[(type, value)] of a constant text."""
        I = self.I
        out, i = [], 0
        while i < len(s):
            if s[i] in self.ignore:
                i += 1
                continue
            for n, rx, f in self.rules:
                m = rx.match(s, i)
                if m and m.end() > i:
                    i = m.end()
                    if f is None:
                        out.append((n, m.group()))
                        break
                    t = Obj(TOKEN)
                    for k, v in (('type', n), ('value', m.group())):
                        I.set_field(t, k, v)
                    lx = Obj(TOKEN)
                    I.set_field(lx, 'lineno', 1)
                    I.set_field(t, 'lexer', lx)
                    r = I.call(f, [self.lexer, t], {})
                    if r is not None:
                        out.append((I.getattr_(r, 'type'), I.getattr_(r, 'value')))
                    break
            else:
                return None
        return out

    def split(self, text):
        """Tokens of a text with holes (operands and names)."""
        I = self.I
        out = []
        for p in lib.str_pieces(I, text):
            if isinstance(p, str):
                r = self.lex(p)
                if r is None:
                    return None
                out += r
                continue
            v = p.v if isinstance(p, lib.StrHole) else p
            if not isinstance(v, Sym) or v.kind not in ('text', 'name', 'digits'):
                raise Unsupported(f'text {p!r}')
            if v.kind == 'text':
                out.append(('expr', v))
            elif v.kind == 'digits':
                out.append(('NUMBER', v))
            else:
                f = [f for n, rx, f in self.rules if n == 'NAME']
                t = Obj(TOKEN)
                I.set_field(t, 'type', 'NAME')
                I.set_field(t, 'value', v)
                r = I.call(f[0], [self.lexer, t], {}) if f and f[0] is not None else t
                out.append((I.getattr_(r, 'type'), I.getattr_(r, 'value')))
        return out

    def run(self, prod, vals):
        p = PList([])
        I = self.I
        I.set_parts(p, [Part((), TRUE, v, ordered=True) for v in [None] + list(vals)])
        I.call(prod[3], [self.parser, p], {})
        return I.getitem(p, 0)

    def derivations(self, sym, toks):
        """All derivation trees of a sequence of token types from `sym`; operands are given derivations of expr."""
        out = []
        if len(toks) == 1 and toks[0] == sym:
            out.append(None)
        if sym not in {p[0] for p in self.prods}:
            return out

        def seqs(rhs, ts):
            if not rhs:
                return [[]] if not ts else []
            r = []
            for n in range(1, len(ts) - len(rhs) + 2):
                for d in self.derivations(rhs[0], ts[:n]):
                    for rest in seqs(rhs[1:], ts[n:]):
                        r.append([(n, d)] + rest)
            return r
        for p in self.prods:
            if p[0] == sym and p[1] != (sym,) and len(p[1]) <= len(toks):
                out += [(p, d) for d in seqs(p[1], toks)]
        return out

    def value(self, d, vals):
        if d is None:
            return vals[0]
        p, subs = d
        args, i = [], 0
        for n, e in subs:
            args.append(self.value(e, vals[i:i + n]))
            i += n
        return self.run(p, args)

    def read(self, text, name):
        """The tree of an unambiguous text, or None with a failed obligation."""
        I = self.I
        toks = self.split(text)
        if toks is None:
            I.prove(FALSE, f'{name}: no token for {text!r}'[:200])
            return None
        ds = self.derivations('expr', tuple(t for t, _ in toks))
        I.prove(z3.BoolVal(len(ds) == 1), f'{name}: exactly one derivation of {[t for t, _ in toks]} ({len(ds)})')
        return self.value(ds[0], [v for _, v in toks]) if len(ds) == 1 else None

    def level(self, prod):
        """Precedence of a production as PLY assigns it."""
        if prod[2] is not None:
            return self.prec.get(prod[2], ('right', 0))
        nts = {p[0] for p in self.prods}
        for t in reversed(prod[1]):
            if t not in nts:
                return self.prec.get(t, ('right', 0))
        return ('right', 0)

    def shift(self, prod, tok):
        """Does PLY shift `tok` instead of reducing `prod`?  None: an error (nonassoc)."""
        ra, rl = self.level(prod)
        sa, sl = self.prec.get(tok, ('right', 0))
        if sl < rl or (sl == rl and ra == 'left'):
            return False
        if sl == rl and ra == 'nonassoc':
            return None
        return True


TOKEN = ExtClass('LexToken')
TXT = z3.Function('upper_', V, V)


class Node(Val):
    """An arbitrary operand: prints as an opaque text."""

    def __init__(self, text, log):
        self.text = text
        self.log = log

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        if name == 'flatten':
            def f(I, *a, **kw):
                self.log.append((a, kw))
                return self.text
            return Builtin('flatten', f)
        return _MISSING


def hook(I, o, name):
    if isinstance(o, Sym) and o.kind in ('name', 'digits') and name in ('upper', 'lower', 'title'):
        return Builtin(name, lambda I: Sym(TXT(o.t), 'upper'))
    return _MISSING


def names_ok(I, G, n):
    """A name is not a reserved word, in any case for the Boolean constants."""
    words = set(I.concrete_elems(I.call(I.getattr_(I.getattr_(G.lexer, 'reserved'), 'keys'), [], {})))
    for w in words | {'next', 'X', 'ite', 'G', 'F', 'U', 'V', 'W', 'R', 'TRUE', 'FALSE'}:
        I.assume(n.t != I.enc_.enc(w))
    for w in ('TRUE', 'FALSE', 'true', 'false', 'True', 'False'):
        I.assume(TXT(n.t) != I.enc_.enc(w))


def eqs(I, a, b):
    return lib._bb(I.eq(a, b))


def same_node(I, u, cls, op, args, name):
    """u is an operator of class `cls`."""
    ok = isinstance(u, Obj) and u.cls is cls
    I.prove(z3.BoolVal(ok), f'{name}: a node of class {cls.name}')
    if not ok:
        return
    I.prove(eqs(I, I.getattr_(u, 'operator'), op), f'{name}: operator {op}')
    I.prove(eqs(I, I.getattr_(u, 'type'), 'operator'), f'{name}: type of an operator')
    got = I.concrete_elems(I.getattr_(u, 'operands'))
    I.prove(z3.BoolVal(len(got) == len(args)), f'{name}: {len(args)} operands')
    for i, (g, w) in enumerate(zip(got, args)):
        if isinstance(w, Sym):
            I.prove(eqs(I, g, w), f'{name}: operand {i}')
        else:
            I.prove(z3.BoolVal(g is w), f'{name}: operand {i}')


def same_leaf(I, u, cls, val, typ, name):
    ok = isinstance(u, Obj) and u.cls is cls
    I.prove(z3.BoolVal(ok), f'{name}: a node of class {cls.name}')
    if ok:
        I.prove(eqs(I, I.getattr_(u, 'value'), val), f'{name}: value')
        I.prove(eqs(I, I.getattr_(u, 'type'), typ), f'{name}: type {typ}')


KINDS = [('Binary', BOOL, 2), ('Comparator', CMP, 2), ('Arithmetic', ARI, 2), ('Unary', UN, 1), ('Operator', {'ite': []}, 3)]


def texts(I, n):
    return [Sym(I.const('t', V), 'text') for _ in range(n)]


def setup_grammar(ctx, fn):
    I = ctx.new()
    I.attr_hooks.append(hook)
    I.kind_isinstance['name'] = ('str', 'Hashable')
    I.kind_isinstance['text'] = ('str', 'Hashable')
    I.kind_isinstance['digits'] = ('str', 'Hashable')

    def setup(I):
        return lambda: fn(I, Grammar(ctx, I))

    def post(I, out):
        if isinstance(out, Raised):
            I.prove(FALSE, f'no {out.name} ({out.e})'[:200])
    return setup, post


def roundtrip(ctx):
    """Text of every kind of node, read again."""
    def go(I, G):
        for cn, ops, n in KINDS:
            cls = I.getattr_(G.nodes, cn)
            for op in ops:
                ts = texts(I, n)
                log = []
                u = I.call(cls, [op] + [Node(t, log) for t in ts], {})
                s = I.call(I.getattr_(u, 'flatten'), [], {})
                name = f'{cn} {op}'
                ps = [p for p in lib.str_pieces(I, s)]
                I.prove(z3.BoolVal(isinstance(ps[0], str) and ps[0].lstrip().startswith('(') and isinstance(ps[-1], str)
                                   and ps[-1].rstrip().endswith(')')), f'{name}: the text is enclosed in parentheses')
                r = G.read(s, name)
                if r is not None:
                    same_node(I, r, cls, op, ts, name)
        cls = I.getattr_(G.nodes, 'Arithmetic')
        t = texts(I, 1)[0]
        k = Sym(I.const('k', V), 'digits')
        u = I.call(cls, ['<<>>', Node(t, []), I.call(I.getattr_(G.nodes, 'Num'), [k], {})], {})
        r = G.read(I.call(I.getattr_(u, 'flatten'), [], {}), 'truncation')
        if r is not None:
            I.prove(z3.BoolVal(r.cls is cls), 'truncation: class')
            I.prove(eqs(I, I.getattr_(r, 'operator'), '<<>>'), 'truncation: operator')
            a, b = I.concrete_elems(I.getattr_(r, 'operands'))
            I.prove(eqs(I, a, t), 'truncation: operand')
            same_leaf(I, b, I.getattr_(G.nodes, 'Num'), k, 'num', 'truncation: number')
        # terminals
        n = Sym(I.const('n', V), 'name')
        names_ok(I, G, n)
        Var, Num, Bool = (I.getattr_(G.nodes, x) for x in ('Var', 'Num', 'Bool'))
        r = G.read(I.call(I.getattr_(I.call(Var, [n], {}), 'flatten'), [], {}), 'variable')
        if r is not None:
            same_leaf(I, r, Var, n, 'var', 'variable')
        for nm, v in (('number', k), ('negative number', lib.mkstr(['-', k]))):
            r = G.read(I.call(I.getattr_(I.call(Num, [v], {}), 'flatten'), [], {}), nm)
            if r is not None:
                same_leaf(I, r, Num, v, 'num', nm)
        for b in ('True', 'False'):
            for w in (b, b.upper(), b.lower()):
                u = I.call(Bool, [w], {})
                same_leaf(I, u, Bool, b, 'bool', f'constant {w}')
                r = G.read(I.call(I.getattr_(u, 'flatten'), [], {}), f'constant {w}')
                if r is not None:
                    same_leaf(I, r, Bool, b, 'bool', f'constant {w} read again')
    setup, post = setup_grammar(ctx, go)
    ctx.under_contract += [f'{AST}:{x}' for x in ('make_nodes', 'make_fol_nodes', 'OperatorSpec.__init__', 'OperatorSpec.flatten',
                           'BinarySpec.flatten', 'TerminalSpec.__init__', 'TerminalSpec.flatten', 'BoolSpec.__init__',
                           'BoolSpec.flatten', 'VarSpec.__init__', 'NumSpec.__init__', '_comma')]
    ctx.under_contract += [f'{LY}:Lexer.t_*', f'{LY}:Parser.p_*']
    ctx.verify('round trip', setup, post)


def spellings(ctx):
    def go(I, G):
        for cn, ops, n in KINDS:
            cls = I.getattr_(G.nodes, cn)
            for op, sps in ops.items():
                for sp in sps:
                    if sp in KNOWN_UNREAD:
                        continue
                    ts = texts(I, n)
                    name = f'spelling {sp} of {op}'
                    r = G.read(lib.mkstr([ts[0], f' {sp} ', ts[1]] if n == 2 else [f' {sp} ', ts[0]]), name)
                    if r is None:
                        continue
                    got = I.getattr_(r, 'operator')
                    if sp in KNOWN_RAW and got == sp:
                        # known finding spelling-raw
                        same_node(I, r, cls, sp, ts, name)
                    else:
                        same_node(I, r, cls, op, ts, name)
        t = texts(I, 1)
        r = G.read(lib.mkstr([t[0], "'"]), 'postfix next')
        if r is not None:
            same_node(I, r, I.getattr_(G.nodes, 'Unary'), 'X', t, 'postfix next')
        r = G.read(lib.mkstr(['( ', t[0], ' )']), 'parentheses')
        if r is not None:
            I.prove(eqs(I, r, t[0]), 'parentheses do not change the tree')
        n = Sym(I.const('n', V), 'name')
        names_ok(I, G, n)
        r = G.read(lib.mkstr(['"', n, '"']), 'string')
        if r is not None:
            same_leaf(I, r, I.getattr_(G.nodes, 'Str'), n, 'str', 'string')
        for w in ('true', 'True', 'TRUE', 'tRuE', 'false', 'False', 'FALSE'):
            r = G.read(w, f'constant {w}')
            if r is not None:
                same_leaf(I, r, I.getattr_(G.nodes, 'Bool'), w.title(), 'bool', f'constant {w}')
        for w in ('Xp', 'Gq', 'nextval', 'U1', 'FF', 'ite1', 'x_y', 'room.door', 'v:w', '_z', 'Vx', 'Truex', 'Ff'):
            r = G.read(w, f'name {w}')
            if r is not None:
                same_leaf(I, r, I.getattr_(G.nodes, 'Var'), w, 'var', f'name {w}')
        for s in ('  a', 'a # b', '\ta\n', '# x U\n a'):
            r = G.read(s, f'blank space and comments {s!r}')
            if r is not None:
                same_leaf(I, r, I.getattr_(G.nodes, 'Var'), 'a', 'var', f'blank space and comments {s!r}')
    setup, post = setup_grammar(ctx, go)
    ctx.under_contract += [f'{LY}:Lexer.__init__', f'{LY}:Lexer.t_*', f'{LY}:Parser.p_*']
    ctx.verify('spellings', setup, post)


def precedence(ctx):
    def go(I, G):
        lev = {op: (a, i) for i, (a, ops) in enumerate(LEVELS, 1) for op in ops}
        tok = {}
        for cn, ops, n in KINDS[:4]:
            for op, sps in ops.items():
                for sp in sps + [op]:
                    if sp in KNOWN_UNREAD:
                        continue
                    ts = G.lex(f' {sp} ')
                    I.prove(z3.BoolVal(ts is not None and len(ts) == 1), f'{sp} is one token')
                    if ts:
                        tok[ts[0][0]] = op
        ts = G.lex("'")
        I.prove(z3.BoolVal(len(ts) == 1), "' is one token")
        tok[ts[0][0]] = "'"
        infix = {p[1][1] for p in G.prods if len(p[1]) == 3 and p[1][0] == p[1][2] == 'expr'}
        seen = set()
        for p in G.prods:
            if p[1][-1] != 'expr':
                continue
            left = tok.get(p[1][0] if len(p[1]) == 2 else p[1][1])
            if left is None:
                raise Unsupported(f'production {p[1]}')
            seen.add(left)
            for t in sorted(infix | {ts[0][0]}):
                right = tok.get(t)
                if right is None:
                    raise Unsupported(f'operator {t}')
                la, ll = lev[left]
                ra, rl = lev[right]
                want = rl > ll or (rl == ll and la == 'right')
                got = G.shift(p, t)
                rel = 'binds tighter than' if want else 'does not bind tighter than'
                I.prove(z3.BoolVal(got is want), f'{right} after {left}: {right} {rel} {left}')
        I.prove(z3.BoolVal(seen == set(lev) - {"'"}), f'a production for every operator (missing {set(lev) - seen})')
        # reading a negative number is decided by the next token only
        I.prove(z3.BoolVal(G.lex('-3') is not None and [t for t, _ in G.lex('-3')] == ['MINUS', 'NUMBER']), 'signed numbers')
    setup, post = setup_grammar(ctx, go)
    ctx.under_contract.append(f'{LY}:Parser.__init__')
    ctx.verify('precedence and associativity', setup, post)


def wrappers(ctx):
    """Results of the parser are returned, failures raise."""
    I = ctx.new()
    I.ext['logging'] = dict(getLogger=Builtin('getLogger', lambda I, *a: None))
    I.ext.setdefault('functools', {})['cache'] = Builtin('cache', lambda I, f: f)
    st = {}

    def setup(I):
        st['tree'] = Sym(I.const('tree', V), 'obj')
        I.assume(st['tree'].t != I.enc_.enc(None))
        st['none'] = I.choose([TRUE, TRUE])
        st['args'] = None

        def run(I, *a, **kw):
            st['args'] = (a, kw)
            return None if st['none'] else st['tree']
        I.contracts[f'{LY}:Parser.build'] = lambda I, f, a, kw: None
        I.contracts[f'{LY}:Lexer.build'] = lambda I, f, a, kw: I.set_field(I.bind(f, a, kw)['self'], 'lexer', Tok)
        m = I.load('tulip.spec.parser')

        def go():
            p = I.call(I.mod_get(I.load(LY), 'Parser'), [], {})
            I.set_field(p, 'parser', Yacc(run))
            I.contracts['tulip.spec.parser:_make_parser'] = lambda I, f, a, kw: p
            st['s'] = Sym(I.const('s', V), 'text')
            return I.call(I.mod_get(m, 'parse'), [st['s']], {})
        return go

    def post(I, out):
        a, kw = st['args'] or ((), {})
        I.prove(z3.BoolVal(bool(a) and a[0] is st['s']), 'the given text is parsed')
        I.prove(z3.BoolVal(kw.get('lexer') is Tok), 'with the lexer of the class')
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(st['none'] == 1), f'raises only if parsing fails ({out.e})')
        else:
            I.prove(z3.BoolVal(st['none'] == 0 and out is st['tree']), 'returns the tree')
    ctx.verify('parse', setup, post, 'tulip.spec.parser:parse')
    ctx.under_contract.append(f'{LY}:Parser.parse')


class Yacc(Val):
    def __init__(self, run):
        self.run = run

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        return Builtin('parse', self.run) if name == 'parse' else _MISSING


class _Tok(Val):
    def subst(self, pairs):
        return self


Tok = _Tok()


def full_names(ctx):
    DOC = {'next': 'X', 'always': 'G', 'eventually': 'F', 'until': 'U', 'stronguntil': 'U', 'weakuntil': 'W', 'unless': 'W',
           'release': 'V', 'implies': '->', 'equivalent': '<->', 'not': '!', 'and': '&', 'or': '|'}

    def go(I, G):
        d = I.mod_get(I.load(AST), 'FULL_OPERATOR_NAMES')
        ks = I.concrete_elems(I.call(I.getattr_(d, 'keys'), [], {}))
        I.prove(z3.BoolVal(set(ks) == set(DOC)), 'the documented names of operators')
        for k in DOC:
            if k in ks:
                ts = G.lex(f" {I.getitem(d, k)} ")
                vals = {'X': 'NEXT'}
                I.prove(z3.BoolVal(ts is not None and len(ts) == 1 and ts[0][1] == DOC[k]), f'{k} stands for {DOC[k]}')
    setup, post = setup_grammar(ctx, go)
    ctx.verify('full operator names', setup, post)


GROUPS = [Group('round trip', roundtrip), Group('spellings', spellings), Group('precedence', precedence),
          Group('wrappers', wrappers), Group('full names', full_names)]
