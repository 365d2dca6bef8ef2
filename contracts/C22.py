"""Contracts for the synthesis interfaces (tulip/synth.py, tulip/interfaces/omega.py, gr1py.py, gr1c.py).

The game that is given to omega is compared, as formulas over an arbitrary pair
of states, with the specification.  The texts of formulas are read back with
the precedence of omega's parser.  The solvers are external: assumed contracts.
"""
import ast
import re
import z3
from vf.contract import *
from vf import lib
from vf.core import _MISSING, Ite, Join
from vf.digraph import A, F, B, Z
from contracts.C10 import fam, mem, St
from contracts.C18 import Gr

OM, SY, GP, GC = 'tulip.interfaces.omega', 'tulip.synth', 'tulip.interfaces.gr1py', 'tulip.interfaces.gr1c'
TRU = F('true_at_the_step', V, B)               # truth of a formula at an arbitrary pair of states
NOW, NEXT = F('value_now', V, Z), F('value_next', V, Z)
SECT = {k: F(f'in_{k}', V, B) for k in ('env_init', 'sys_init', 'env_safety', 'sys_safety', 'env_prog', 'sys_prog')}
BI = F('with_integers', V, V)                   # the formula with integers instead of strings
ENV, SYS = F('env_variable', V, B), F('sys_variable', V, B)
BOOLV, ISL, ISB = F('is_boolean', V, B), F('has_list', V, B), F('written_bool', V, B)
LO, HI, NVAL = F('first', V, Z), F('last', V, Z), F('number_of_values', V, Z)
BDD = F('bdd_of', V, V)


# ------------------------------------------------------------------ formulas
class Bad(Exception):
    pass


TOK = re.compile(r'\s*(=>|<=>|<->|->|/\\|\\/|&&|\|\||<=|>=|!=|==|/=|[()&|!~=<>\'^-]|\d+|[A-Za-z_]\w*)')


class Reader:
    """Meaning of a text with holes, at an arbitrary step."""

    def __init__(self, I):
        self.I, self.h = I, {}

    def text(self, s):
        out = []
        for p in lib.str_pieces(self.I, s):
            if isinstance(p, str):
                if re.search(r'vf\d+_', p):
                    raise Bad(p)
                out.append(p)
            else:
                if isinstance(p, lib.ReprHole):
                    raise Bad('quoted')
                n = f'vf{len(self.h)}_'
                self.h[n] = p.v if isinstance(p, lib.StrHole) else p
                out.append(n)
        return ''.join(out)

    def truth(self, s):
        t = self.text(s)
        self.toks, self.i = TOK.findall(t), 0
        if TOK.sub('', t).strip():
            raise Bad(f'formula {t!r}')
        if len(self.toks) == 1:
            return self.name(self.toks[0])
        e = self.equiv()
        if self.i != len(self.toks):
            raise Bad(f'formula {t!r}')
        return e

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def take(self, *ts):
        if self.peek() in ts:
            self.i += 1
            return True

    def binary(self, sub, ops, f):
        def g():
            e = sub()
            while self.take(*ops):
                e = f(e, sub())
            return e
        return g

    def equiv(self):
        conj = self.binary(self.unary, ('&', '&&', '/\\'), lambda a, b: And_(a, b))
        disj = self.binary(conj, ('|', '||', '\\/'), lambda a, b: Or_(a, b))
        imp = self.binary(disj, ('=>', '->'), lambda a, b: Implies_(a, b))
        return self.binary(imp, ('<=>', '<->'), lambda a, b: a == b)()

    def unary(self):
        if self.take('!', '~'):
            return Not_(self.unary())
        if self.take('('):
            if self.i + 1 < len(self.toks) and self.toks[self.i + 1] == ')' and self.peek() in self.h:
                e = self.name(self.peek())
                self.i += 1
            else:
                e = self.equiv()
            if not self.take(')'):
                raise Bad('parentheses')
            return e
        t = self.peek()
        if t in self.h and isinstance(self.h[t], Join):
            self.i += 1
            return self.join(self.h[t])
        if t in ('TRUE', 'FALSE'):
            self.i += 1
            return TRUE if t == 'TRUE' else FALSE
        a = self.number()
        op = self.peek()
        self.i += 1
        f = {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '>': lambda a, b: a > b,
             '=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '/=': lambda a, b: a != b}.get(op)
        if f is None:
            raise Bad(f'operator {op}')
        return f(a, self.number())

    def number(self):
        t = self.peek()
        if t is None:
            raise Bad('number')
        self.i += 1
        neg = t == '-'
        if neg:
            t = self.peek()
            self.i += 1
        if t.isdigit():
            n = z3.IntVal(int(t))
        else:
            v = self.h.get(t)
            if isinstance(v, SN):
                n = v.t
            elif isinstance(v, Sym):
                n = NEXT(v.t) if self.take("'") else NOW(v.t)
            else:
                raise Bad(f'operand {t}')
        return -n if neg else n

    def name(self, t):
        """A text that stands alone or between parentheses."""
        v = self.h.get(t)
        if v is None:
            if t in ('TRUE', 'FALSE'):
                return TRUE if t == 'TRUE' else FALSE
            raise Bad(f'formula {t}')
        if isinstance(v, Join):
            return self.join(v)
        if isinstance(v, Sym):
            return TRU(v.t)
        raise Bad(f'formula {t}')

    def join(self, j):
        op = {'&': And_, '&&': And_, '/\\': And_, '|': Or_, '||': Or_, '\\/': Or_}.get(j.sep.strip())
        if op is None:
            raise Bad(f'separator {j.sep!r}')
        out = []
        for p in map(self.I.inst, j.parts):
            ps = lib.str_pieces(self.I, p.val)
            whole = ps and isinstance(ps[0], str) and ps[0].startswith('(') and isinstance(ps[-1], str) and ps[-1].endswith(')')
            if whole:
                r = Reader(self.I)
                t = r.text(p.val)
                d = 0
                for k, ch in enumerate(t):
                    d += (ch == '(') - (ch == ')')
                    if d == 0 and k + 1 < len(t):
                        whole = False
                        break
            if not whole:
                # `p <= x` is fine, anything else needs parentheses
                r = Reader(self.I)
                if any(x in ('|', '||', '=>', '->', '<=>', '<->', '\\/') for x in TOK.findall(r.text(p.val))) or len(ps) == 1:
                    raise Bad('operand without parentheses')
            t = truth(self.I, p.val)
            if op is And_:
                out.append(ForAll_(list(p.vars), Implies_(p.cond, t)))
            else:
                out.append(Exists_(list(p.vars), And_(p.cond, t)))
        self.I.prove(Or_(*[Exists_(list(p.vars), p.cond) for p in map(self.I.inst, j.parts)]), 'a formula is not an empty text')
        return op(*out)


def truth(I, v):
    if isinstance(v, Sym):
        return TRU(v.t)
    if isinstance(v, Ite):
        return z3.If(v.c, truth(I, v.a), truth(I, v.b))
    return Reader(I).truth(v)


def says(I, v, t, what):
    """The formula v means t."""
    try:
        g = truth(I, v)
    except Bad as e:
        I.fail(what, 'refuted', f'not read as a formula: {e}')
        return
    I.prove(g == t, what)


def basics(I):
    I.enc_.formats = True
    I.assume(TRU(I.enc_.enc('TRUE')))
    I.assume(Not_(TRU(I.enc_.enc('FALSE'))))


def every(f):
    x = z3.Const('x', V)
    return ForAll_([x], Implies_(f(x), TRU(BI(x))))


def in_domain(member, val):
    x = z3.Const('x', V)
    return ForAll_([x], Implies_(And_(member(x), Not_(BOOLV(x))), And_(LO(x) <= val(x), val(x) <= HI(x))))


# ------------------------------------------------------------------ omega: formulas
def mk_conj(ctx):
    I = ctx.new()
    basics(I)
    IN = F('is_conjunct', V, B)

    def setup(I):
        basics(I)
        return lambda: I.call(ctx.resolve(f'{OM}:_conj'), [It([fam(I, IN)])], {})

    def post(I, out):
        if ctx.no_raise(I, out, '_conj'):
            x = z3.Const('x', V)
            says(I, out, ForAll_([x], Implies_(IN(x), TRU(x))), '_conj: the conjunction')
    ctx.verify('_conj', setup, post, f'{OM}:_conj')
    for n in range(4):
        def setup2(I, n=n):
            basics(I)
            xs = [I.sym(f'f{i}') for i in range(n)]
            st['xs'] = xs
            return lambda: I.call(ctx.resolve(f'{OM}:_conj'), [PList([single(x) for x in xs])], {})

        def post2(I, out, n=n):
            if ctx.no_raise(I, out, f'_conj of {n}'):
                says(I, out, And_(*[TRU(x.t) for x in st['xs']]), f'_conj of {n}: the conjunction')
        st = {}
        ctx.verify(f'_conj of {n}', setup2, post2, f'{OM}:_conj')


def mk_implies(ctx):
    I = ctx.new()
    st = {}

    def setup(I):
        basics(I)
        st['p'], st['q'] = I.sym('p'), I.sym('q')
        return lambda: I.call(ctx.resolve(f'{OM}:_implies'), [st['p'], st['q']], {})

    def post(I, out):
        if ctx.no_raise(I, out, '_implies'):
            says(I, out, Implies_(TRU(st['p'].t), TRU(st['q'].t)), '_implies: the implication')
    ctx.verify('_implies', setup, post, f'{OM}:_implies')


class Dom(Val):
    """Declared type: 'bool' or (first, last)."""

    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Dom(z3.substitute(self.k, *pairs))

    def eq_(self, I, a, b):
        o = b if a is self else a
        return BOOLV(self.k) if o == 'bool' else FALSE

    def unpack_(self, I, n):
        I.prove(Not_(BOOLV(self.k)), 'bounds of integer variables only')
        return [SN(LO(self.k)), SN(HI(self.k))]

    def getitem_(self, I, i):
        return self.unpack_(I, 2)[i]

    def iter_(self, I):
        return [single(x) for x in self.unpack_(I, 2)]


def conj_contract(ctx, I):
    """_conj, by its contract: some text that means the conjunction."""
    def conj(I, f, args, kw):
        b = I.bind(f, args, kw)
        v = b['strings']
        r = Sym(I.const('conjunction', V), 'str')
        ts = []
        for p in map(I.inst, I.iter_parts(v)):
            try:
                ts.append(ForAll_(list(p.vars), Implies_(p.cond, truth(I, p.val))))
            except Bad as e:
                raise Unsupported(f'conjunct: {e}')
        I.assume(TRU(r.t) == And_(*ts))
        return r
    I.contracts[f'{OM}:_conj'] = conj

    def implies(I, f, args, kw):
        b = I.bind(f, args, kw)
        r = Sym(I.const('implication', V), 'str')
        I.assume(TRU(r.t) == Implies_(truth(I, b['p']), truth(I, b['q'])))
        return r
    I.contracts[f'{OM}:_implies'] = implies


def mk_bounds(ctx):
    I = ctx.new()
    conj_contract(ctx, I)
    VAR = F('variable', V, B)

    def setup(I):
        basics(I)
        return lambda: I.call(ctx.resolve(f'{OM}:_bound_integers'), [PDict([fam(I, VAR, lambda k: Sym(k))]), PDict([fam(I, lambda k: Or_(ENV(k), SYS(k), VAR(k)), Dom)])], {})

    def post(I, out):
        nm = '_bound_integers'
        if not ctx.no_raise(I, out, nm):
            return
        if not isinstance(out, tuple) or len(out) != 2:
            I.prove(FALSE, f'{nm}: two formulas')
            return
        says(I, out[0], in_domain(VAR, NOW), f'{nm}: values now')
        says(I, out[1], in_domain(VAR, NEXT), f'{nm}: next values')
    ctx.verify('_bound_integers', setup, post, f'{OM}:_bound_integers')



# ------------------------------------------------------------------ omega: the automaton
class Type(Val):
    """Type of a variable in a specification: 'boolean', 'bool', (first, last), or a list of strings."""

    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Type(z3.substitute(self.k, *pairs))

    def eq_(self, I, a, b):
        o = b if a is self else a
        return And_(BOOLV(self.k), ISB(self.k)) if o == 'bool' else And_(BOOLV(self.k), Not_(ISB(self.k))) if o == 'boolean' else FALSE

    def isinstance_(self, I, name):
        k = self.k
        return BOOLV(k) if name == 'str' else And_(Not_(BOOLV(k)), ISL(k)) if name == 'list' else And_(Not_(BOOLV(k)), Not_(ISL(k))) if name == 'tuple' else FALSE

    def len_(self, I):
        if not I.branch(Or_(BOOLV(self.k), Not_(ISL(self.k)))):
            return SN(NVAL(self.k))
        raise Unsupported('length of a type')

    def unpack_(self, I, n):
        if not I.branch(And_(Not_(BOOLV(self.k)), Not_(ISL(self.k)))):
            raise Unsupported('bounds of a list')
        return [SN(LO(self.k)), SN(HI(self.k))]

    def getitem_(self, I, i):
        return self.unpack_(I, 2)[i]


def domain_cases(I, v, k, conds, what):
    if isinstance(v, Ite):
        domain_cases(I, v.a, k, conds + [v.c], what)
        domain_cases(I, v.b, k, conds + [Not_(v.c)], what)
        return
    if v == 'bool' if isinstance(v, str) else False:
        g = BOOLV(k)
    elif isinstance(v, Type):
        g = And_(v.k == k, Not_(BOOLV(k)), Not_(ISL(k)))
    elif isinstance(v, Dom):
        g = v.k == k
    elif isinstance(v, tuple) and len(v) == 2 and all(lib.to_num(I, x) is not None for x in v):
        g = And_(Not_(BOOLV(k)), lib.to_num(I, v[0]) == LO(k), lib.to_num(I, v[1]) == HI(k))
    else:
        g = FALSE
    I.prove(Implies_(And_(*conds), g), what)


def types(I):
    k = z3.Const('k', V)
    I.assume(ForAll_([k], Not_(And_(ENV(k), SYS(k)))))
    # a list of strings is represented by integers from 0
    I.assume(ForAll_([k], Implies_(And_(Or_(ENV(k), SYS(k)), ISL(k)), And_(LO(k) == 0, HI(k) == NVAL(k) - 1, NVAL(k) >= 0))))


def type_loop(I, fr, node, it):
    """A loop over the variables that stores the type of each one for omega."""
    ps = I.iter_parts(it) if isinstance(it, Container) else it.iter_(I) if hasattr(it, 'iter_') else []
    if not ps or not all(isinstance(p.val, tuple) and len(p.val) == 2 and isinstance(p.val[1], Type) for p in ps):
        return False
    names = {t.value.id for s in node.body for t in ast.walk(s) if isinstance(t, ast.Subscript) and isinstance(t.ctx, ast.Store) and isinstance(t.value, ast.Name)}
    ds = [fr.f[n] for n in names if isinstance(fr.f.get(n), PDict)]
    if len(ds) != 1 or node.orelse:
        return False
    c, = ds
    before = list(c.parts)
    x = I.const('x', V)
    over = lambda y: Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == y)) for p in map(I.inst, ps)])
    has = lambda parts, y: Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == y)) for p in map(I.inst, parts)])
    k = I.choose([TRUE] * (len(ps) + 1))
    if k == len(ps):
        I.prove(Implies_(has(before, x), over(x)), 'the loop covers all variables')
        y = z3.Const('y', V)
        I.set_parts(c, [Part((p.vars), p.cond, (p.val[0], Dom(I.enc_.enc(p.val[0])))) for p in ps])
        return True
    p = I.inst(ps[k])
    I.assume(p.cond)
    kk = I.enc_.enc(p.val[0])
    I.iteration(fr, node, p, [c])
    I.prove(has(c.parts, x) == Or_(has(before, x), x == kk), 'one type is stored for each variable')
    for q in map(I.inst, c.parts):
        key = I.enc_.enc(q.val[0])
        old = isinstance(q.val[1], Type)
        domain_cases(I, q.val[1], key, [q.cond, key == kk], 'type of a variable for omega')
        I.prove(Implies_(And_(q.cond, key != kk), q.val[1].k == key if old else FALSE), 'the types of other variables do not change')
    raise Infeasible()


class Slots(St):
    """Fields of the automaton that are set by name."""

    def setitem_(self, I, k, v):
        if not isinstance(k, str):
            raise Unsupported('name of a field')
        self.put(I, k, v)

    def getitem_(self, I, k):
        if k not in self.o.f:
            raise PyExc(KeyError, (k,))
        return self.o.f[k]

    def getattr_(self, I, name):
        if name == 'update':
            def update(I, *a, **kw):
                for x in a:
                    kw.update({p.val[0]: p.val[1] for p in x.parts})
                for k, v in kw.items():
                    self.put(I, k, v)
            return Builtin('update', update)
        raise Unsupported(f'field {name}')


class Aut(St):
    """omega.symbolic.temporal.Automaton, by its documentation."""

    def getattr_(self, I, name):
        if name == 'declare_variables':
            def declare(I, **kw):
                I.prove(z3.BoolVal(self.get('declared') is None), 'variables are declared once')
                d = kw.pop('**', PDict([]))
                self.put(I, 'declared', PDict(list(d.parts) + [single(x) for x in kw.items()]))
            return Builtin('declare_variables', declare)
        if name == 'bdds_from':
            def bdds(I, *a):
                self.converts(I)
                out = []
                for x in a:
                    for p in (x.parts if isinstance(x, lib.StarArgs) else [single(x)]):
                        out.append(Part(p.vars, p.cond, ('bdd', p.val), p.ordered))
                return PList(out)
            return Builtin('bdds_from', bdds)
        if name not in self.o.f:
            raise Unsupported(f'automaton: {name}')
        v = self.o.f[name]
        if name in ('init', 'action') and v is not None:
            self.converts(I)
        return v

    def converts(self, I):
        I.prove(z3.BoolVal(self.get('declared') is not None), 'formulas are given after the declarations')

    def setattr_(self, I, name, v):
        if name in ('declared',):
            raise Unsupported(name)
        self.put(I, name, v)


def new_automaton():
    return Aut(declared=None, varlist=Slots(), init=Slots(), action=Slots(), win=Slots())


def domains(I, d, what):
    """d is a mapping from the variables to the types for omega."""
    if not isinstance(d, PDict):
        I.prove(FALSE, what)
        return
    k = I.const('k', V)
    ks = []
    for p in map(I.inst, d.parts):
        kk = I.enc_.enc(p.val[0])
        ks.append(Exists_(list(p.vars), And_(p.cond, kk == k)))
        domain_cases(I, p.val[1], kk, [p.cond], what)
    I.prove(Or_(*ks) == Or_(ENV(k), SYS(k)), what + ': each variable')


def check_automaton(I, out, q, nm, st):
    if not isinstance(out, Aut):
        I.prove(FALSE, f'{nm}: an automaton')
        return
    f = out.o.f
    domains(I, f['declared'], f'{nm}: declared types')
    k = I.const('k', V)
    for who, m in (('env', ENV), ('sys', SYS)):
        v = f['varlist'].o.f.get(who)
        if v is None:
            I.prove(FALSE, f'{nm}: variables of {who}')
            continue
        I.prove(Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val) == k)) for p in map(I.inst, I.iter_parts(v))]) == m(k), f'{nm}: variables of {who}')
    env, env2, sys, sys2 = in_domain(ENV, NOW), in_domain(ENV, NEXT), in_domain(SYS, NOW), in_domain(SYS, NEXT)
    t = {}
    for where in ('init', 'action'):
        for who in ('env', 'sys'):
            try:
                t[where, who] = truth(I, f[where].o.f[who])
            except (Bad, KeyError) as e:
                I.fail(f'{nm}: {where} {who}', 'refuted', f'not read as a formula: {e!r}')
                return
    E, S = every(SECT['env_init']), every(SECT['sys_init'])
    ei, si = t['init', 'env'], t['init', 'sys']
    if q == r'\A \A':
        I.prove(ei == And_(E, env, sys), f'{nm}: initial states')
        I.prove(si == S, f'{nm}: no initial condition of the system is lost')
    elif q == r'\E \E':
        I.prove(si == And_(S, env, sys), f'{nm}: initial states')
        I.prove(ei == E, f'{nm}: no initial condition of the environment is lost')
    else:
        I.prove(ei == And_(E, env), f'{nm}: initial inputs')
        I.prove(Implies_(env, si == And_(S, sys)), f'{nm}: initial outputs')
        I.prove(Implies_(And_(Not_(env), sys), si), f'{nm}: outside of the domains of inputs nothing is required')
    ea, sa = t['action', 'env'], t['action', 'sys']
    E, S = every(SECT['env_safety']), every(SECT['sys_safety'])
    I.prove(ea == And_(E, env2), f'{nm}: steps of the environment')
    I.prove(Implies_(env2, sa == And_(S, sys2)), f'{nm}: steps of the system')
    I.prove(Implies_(And_(Not_(env2), sys2), sa), f'{nm}: for next inputs outside of their domains nothing is required')
    # progress: a list of conditions
    for key, sect, neg in (('<>[]', 'env_prog', True), ('[]<>', 'sys_prog', False)):
        v = f['win'].o.f.get(key)
        if v is None:
            I.prove(FALSE, f'{nm}: {key}')
            continue
        ps = [I.inst(p) for p in I.iter_parts(v)]
        m = SECT[sect]
        x = z3.Const('goal', V)
        some = Exists_([x], m(x))
        I.prove(Or_(*[Exists_(list(p.vars), p.cond) for p in ps]), f'{nm}: {key} is not empty')
        # each element is one of the conditions, and each condition is there
        got = []
        for p in ps:
            if not isinstance(p.val, tuple) or p.val[0] != 'bdd':
                I.prove(FALSE, f'{nm}: {key}: list of nodes')
                break
            try:
                tr = truth(I, p.val[1])
            except Bad as e:
                I.fail(f'{nm}: {key}', 'refuted', f'not read as a formula: {e!r}')
                break
            meaning = lambda y: Not_(TRU(BI(y))) if neg else TRU(BI(y))
            const = z3.BoolVal(not neg)
            I.assume(TRUE)
            same = Exists_([x], And_(m(x), p_same(I, p, tr, x, meaning)))
            I.prove(Implies_(p.cond, Or_(same, And_(Not_(some), tr == const))), f'{nm}: {key}: each formula is one of the specification')
            got.append((p, tr))
        if len(ps) == len(got):
            y = I.const('y', V)
            I.prove(Implies_(m(y), Or_(*[Exists_(list(p.vars), And_(p.cond, p_same(I, p, tr, y, meaning))) for p, tr in got])), f'{nm}: {key}: each condition')
    for a in ('moore', 'plus_one'):
        v = f.get(a)
        I.prove(z3.BoolVal(isinstance(v, Sym)) if not isinstance(v, Sym) else v.t == st[a].t, f'{nm}: {a}')
    I.prove(z3.BoolVal(f.get('qinit') == q), f'{nm}: quantification')


def p_same(I, p, tr, x, meaning):
    """The element with truth tr is the condition x (the same formula, and not only one with the same truth here)."""
    return And_(holes_are(I, p.val[1], x), tr == meaning(x))


def holes_are(I, v, x):
    """The formula refers to the condition x."""
    hs = [v] if isinstance(v, Sym) else []
    if not hs:
        r = Reader(I)
        r.text(v)
        hs = list(r.h.values())
    if not hs or not all(isinstance(h, Sym) for h in hs):
        return FALSE
    return And_(*[h.t == BI(x) for h in hs])


QS = [r'\A \A', r'\E \E', r'\A \E', r'\E \A']


def mk_automaton(ctx):
    I = ctx.new()
    I.feas_ground = True
    conj_contract(ctx, I)
    I.for_rules.append(type_loop)
    st = {}

    def bound(I, f, args, kw):
        b = I.bind(f, args, kw)
        member = None
        k = I.const('k', V)
        ps = [I.inst(p) for p in I.iter_parts(b['variables'])]
        inn = Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val) == k)) for p in ps])
        for name, m in (('env', ENV), ('sys', SYS)):
            if I.prove(inn == m(k), '', record=False):
                member = m
        if member is None:
            I.prove(FALSE, '_bound_integers: the variables of one player')
            raise Infeasible()
        domains(I, b['domains'], '_bound_integers: domains of the variables')
        r = [Sym(I.const('bounds', V), 'str') for _ in 'ab']
        I.assume(TRU(r[0].t) == in_domain(member, NOW))
        I.assume(TRU(r[1].t) == in_domain(member, NEXT))
        return tuple(r)
    I.contracts[f'{OM}:_bound_integers'] = bound

    def spec(I, q):
        sect = {k: PList([fam(I, f)]) for k, f in SECT.items()}

        def str_to_int(I):
            st['converted'] = True
            return None

        def bi(I, x):
            if not st['converted']:
                raise PyExc(KeyError, (x,))
            t = I.enc_.enc(x)
            I.prove(Or_(*[f(t) for f in SECT.values()]), 'conditions of the specification')
            return Sym(BI(t), 'str')
        st['converted'] = False
        st['moore'], st['plus_one'] = I.sym('moore'), I.sym('plus_one')
        table = A('table of formulas', **{'%item': bi, '__getitem__': Builtin('__getitem__', bi), 'get': Builtin('get', bi)})
        return A('specification', env_vars=PDict([fam(I, ENV, Type)]), sys_vars=PDict([fam(I, SYS, Type)]), str_to_int=Builtin('str_to_int', str_to_int),
                 _bool_int=table, moore=st['moore'], plus_one=st['plus_one'], qinit=q, **sect)

    for q in QS:
        def setup(I, q=q):
            basics(I)
            types(I)
            st['g'] = spec(I, q)
            st['a'] = None
            return lambda: I.call(ctx.resolve(f'{OM}:_grspec_to_automaton'), [st['g']], {})

        def post(I, out, q=q):
            nm = f'_grspec_to_automaton {q}'
            if not ctx.no_raise(I, out, nm):
                return
            check_automaton(I, out, q, nm, st)
        I.overrides[f'{OM}:trl'] = A('trl', Automaton=Builtin('Automaton', lambda I: new_automaton()))
        ctx.verify(f'_grspec_to_automaton {q}', setup, post, f'{OM}:_grspec_to_automaton')


# ------------------------------------------------------------------ omega: the strategy
ND, ED = F('node', V, B), F('edge', V, V, B)
DH, DV = F('node_has', V, V, B), F('node_value', V, V, V)
INI, AV = F('initial_node', V, B), F('variable_of_automaton', V, B)


class Data(Val):
    """The annotation of a node."""

    def __init__(self, u):
        self.u = u

    def subst(self, pairs):
        return Data(z3.substitute(self.u, *pairs))

    def iter_(self, I):
        return [fam(I, lambda k: DH(self.u, k))]

    def contains_(self, I, k):
        return DH(self.u, I.enc_.enc(k))

    def getitem_(self, I, k):
        t = I.enc_.enc(k)
        if not I.branch(DH(self.u, t)):
            raise PyExc(KeyError, (k,))
        return Sym(DV(self.u, t))

    def getattr_(self, I, name):
        if name == 'items':
            return Builtin('items', lambda I: PList([fam(I, lambda k: DH(self.u, k), lambda k: Sym(DV(self.u, k)))]))
        if name == 'keys':
            return Builtin('keys', lambda I: self)
        if name == 'get':
            return Builtin('get', lambda I, k, d=None: self.getitem_(I, k) if I.branch(self.contains_(I, k)) else d)
        raise Unsupported(f'annotation: {name}')


def mk_annotated(ctx):
    I = ctx.new()
    I.feas_ground = True
    st = {}
    u, v = z3.Const('u', V), z3.Const('v', V)

    class Gr2(Gr):
        def __init__(self, I):
            super().__init__(I)

            def nodes_from(I, it, **attrs):
                if attrs:
                    raise Unsupported('attributes of all nodes')
                for p in map(I.inst, I.iter_parts(it)):
                    if not (isinstance(p.val, tuple) and isinstance(p.val[1], PDict)):
                        raise Unsupported('nodes without attributes')
                    I.add_parts(self.N, [p])
            self.v.at['add_nodes_from'] = Builtin('add_nodes_from', nodes_from)
            self.v.at['add_edges_from'] = Builtin('add_edges_from', lambda I, it: I.add_parts(self.E, [p for p in map(I.inst, I.iter_parts(it))]))

    def setup(I):
        st['graphs'] = []

        def new(I):
            g = Gr2(I)
            st['graphs'].append(g)
            return g.v
        I.overrides['networkx:DiGraph'] = Builtin('DiGraph', new)
        I.assume(ForAll_([u, v], Implies_(ED(u, v), And_(ND(u), ND(v)))))
        I.assume(ForAll_([u], Implies_(INI(u), ND(u))))
        view = lambda f: A('view', **{'%call': f, '%iter': lambda I: f(I).parts, '%item': lambda I, k: Data(I.enc_.enc(k))})
        nodes = lambda I, data=False: PList([Part((u,), ND(u), (Sym(u), Data(u)) if data else Sym(u))])
        edges = lambda I, data=False: PList([Part((u, v), ED(u, v), (Sym(u), Sym(v)))])
        st['ini'] = PSet([Part((u,), INI(u), Sym(u))])
        g = A('enumerated strategy', nodes=view(nodes), edges=view(edges), initial_nodes=st['ini'], **{'%iter': lambda I: nodes(I).parts})
        aut = A('automaton', vars=A('vars', **{'%in': lambda I, k: AV(I.enc_.enc(k))}))
        return lambda: I.call(ctx.resolve(f'{OM}:_strategy_to_state_annotated'), [g, aut], {})

    def post(I, out):
        nm = '_strategy_to_state_annotated'
        if not ctx.no_raise(I, out, nm):
            return
        gs = [g for g in st['graphs'] if g.v is out]
        I.prove(z3.BoolVal(len(gs) == 1), f'{nm}: a graph')
        if not gs:
            return
        g, = gs
        x, y, k, w = (I.const(n, V) for n in 'xykw')
        I.prove(mem(I, Sym(x), PList([Part(p.vars, p.cond, p.val[0]) for p in g.N.parts])) == ND(x), f'{nm}: the nodes')
        for p in map(I.inst, g.N.parts):
            n = I.enc_.enc(p.val[0])
            d = p.val[1]
            ok = isinstance(d, PDict) and len(d.parts) == 1 and d.parts[0].val[0] == 'state'
            I.prove(z3.BoolVal(ok), f'{nm}: the annotation is the state')
            if not ok:
                continue
            s = d.parts[0].val[1]
            ps = [I.inst(q) for q in s.parts]
            e = lambda q: And_(q.cond, I.enc_.enc(q.val[0]) == k)
            I.prove(Implies_(p.cond, Or_(*[Exists_(list(q.vars), e(q)) for q in ps]) == And_(DH(n, k), AV(k))), f'{nm}: values of the variables and nothing else')
            for q in ps:
                I.prove(Implies_(And_(p.cond, q.cond), I.enc_.enc(q.val[1]) == DV(n, I.enc_.enc(q.val[0]))), f'{nm}: the values')
        I.prove(mem(I, (Sym(x), Sym(y)), g.E) == ED(x, y), f'{nm}: the edges')
        ini = g.o.f.get('initial_nodes')
        if ini is None:
            I.prove(FALSE, f'{nm}: the initial nodes')
        else:
            I.prove(mem(I, Sym(x), ini) == INI(x), f'{nm}: the initial nodes')
    ctx.verify('_strategy_to_state_annotated', setup, post, f'{OM}:_strategy_to_state_annotated')


def mk_omega(ctx):
    """The calls of the solver (assumed contracts of omega.games.gr1 and omega.games.enumeration)."""
    I = ctx.new()
    st = {}

    def same(I, a, b, what):
        I.prove(z3.BoolVal(a is b) if not isinstance(b, Sym) else a.t == b.t if isinstance(a, Sym) else FALSE, what)

    def setup_(I):
        log = st['log'] = St(made=False, asked=False)
        st['spec'] = A('specification')
        st['false'] = A('false node')
        st['R'] = I.const('realizable', B)
        st['noaction'] = I.const('no_step_of_the_system', B)

        class Node(Val):
            def subst(self, pairs):
                return self

            def eq_(self, I, a, b):
                o = b if a is self else a
                if o is not st['false']:
                    raise Unsupported('comparison of nodes')
                return st['noaction']
        node = Node()
        action = A('actions', **{'%item': lambda I, k: node if k == 'sys' else A('other node')})
        st['q'] = I.sym('qinit')
        st['aut'] = A('automaton', action=action, false=st['false'], true=A('true node'), qinit=st['q'])

        def automaton(I, f, args, kw):
            b = I.bind(f, args, kw)
            same(I, b['g'], st['spec'], 'the game of the given specification')
            return st['aut']
        I.contracts[f'{OM}:_grspec_to_automaton'] = automaton
        zs = st['z'] = (I.sym('z'), I.sym('yij'), I.sym('xijk'))

        def solve(I, a, rank=1):
            same(I, a, st['aut'], 'the game is solved')
            I.prove(z3.BoolVal(rank == 1), 'one Streett pair')
            return zs

        def is_r(I, z, a):
            same(I, z, zs[0], 'realizable: the winning set')
            same(I, a, st['aut'], 'realizable: in the game')
            I.set_field(log.o, 'asked', True)
            return SB(st['R'])

        def make(I, z, yij, xijk, a, *r, **kw):
            if r or kw:
                raise Unsupported('options of the transducer')
            for x, y in zip((z, yij, xijk), zs):
                same(I, x, y, 'the strategy is from the iterates')
            same(I, a, st['aut'], 'the strategy of the game')
            I.prove(And_(z3.BoolVal(log.get('asked')), st['R']), 'a strategy is constructed only if the game is won')
            I.set_field(log.o, 'made', True)
        I.overrides[f'{OM}:gr1'] = A('gr1', solve_streett_game=Builtin('solve', solve), is_realizable=Builtin('is_realizable', is_r), make_streett_transducer=Builtin('make', make))
        st['g'], st['h'] = A('enumerated'), A('annotated')

        def steps(I, a, env, sys, qinit=None):
            same(I, a, st['aut'], 'enumeration of the game')
            I.prove(z3.BoolVal(env == 'env' and sys == 'impl' and log.get('made')), 'the steps of the implementation and of the environment are enumerated')
            same(I, qinit, st['q'], 'enumeration from the initial states')
            return st['g']
        I.overrides[f'{OM}:enum'] = A('enum', action_to_steps=Builtin('action_to_steps', steps))
        I.overrides[f'{OM}:time'] = A('time', time=Builtin('time', lambda I: SN(I.const('t', z3.RealSort()))))

        def annotated(I, f, args, kw):
            b = I.bind(f, args, kw)
            same(I, b['g'], st['g'], 'the enumerated strategy')
            same(I, b['aut'], st['aut'], 'the variables of the game')
            return st['h']
        I.contracts[f'{OM}:_strategy_to_state_annotated'] = annotated

    def setup(I):
        setup_(I)
        return lambda: I.call(ctx.resolve(f'{OM}:synthesize_enumerated_streett'), [st['spec']], {})

    def post(I, out):
        nm = 'synthesize_enumerated_streett'
        if isinstance(out, Raised):
            I.prove(And_(z3.BoolVal(out.name == 'AssertionError'), st['noaction']), f'{nm}: refused only if the guarantees allow no step ({out.e})')
            return
        I.prove(st['R'] if out is not None else Not_(st['R']), f'{nm}: no strategy is returned exactly if the game is not won')
        I.prove(z3.BoolVal(out is None or out is st['h']), f'{nm}: the strategy of the game')
    ctx.verify('synthesize_enumerated_streett', setup, post, f'{OM}:synthesize_enumerated_streett')

    def setup2(I):
        setup_(I)
        return lambda: I.call(ctx.resolve(f'{OM}:is_realizable'), [st['spec']], {})

    def post2(I, out):
        nm = 'omega.is_realizable'
        if ctx.no_raise(I, out, nm):
            I.prove(tt(I, out) == st['R'], f'{nm}: exactly if the game is won')
    ctx.verify('omega.is_realizable', setup2, post2, f'{OM}:is_realizable')


# ------------------------------------------------------------------ gr1py, gr1c
def mk_options(ctx):
    I = ctx.new()
    st = {}
    for q in QS + ['other']:
        def setup(I, q=q):
            for k in ('moore', 'plus', 'env', 'sys'):
                st[k] = I.const(k, B)
            lst = lambda f: PList([Part((), f, I.sym('condition'))])
            spec = A('specification', moore=SB(st['moore']), plus_one=SB(st['plus']), qinit=q, env_init=lst(st['env']), sys_init=lst(st['sys']))
            return lambda: I.call(ctx.resolve(f'{GC}:select_options'), [spec], {})

        def post(I, out, q=q):
            nm = f'select_options {q}'
            bad = Or_(st['moore'], st['plus'])
            if q == r'\A \A':
                bad = Or_(bad, st['sys'])
            if q == r'\E \E':
                bad = Or_(bad, st['env'])
            if q in (r'\E \A', 'other'):
                bad = TRUE
            if isinstance(out, Raised):
                I.prove(And_(bad, z3.BoolVal(out.name in ('AssertionError', 'ValueError'))), f'{nm}: refused only if not supported ({out.e})')
                return
            I.prove(Not_(bad), f'{nm}: what is not supported is refused')
            I.prove(z3.BoolVal(out == {r'\A \E': 'ALL_ENV_EXIST_SYS_INIT'}.get(q, 'ONE_SIDE_INIT')), f'{nm}: the quantification')
        ctx.verify(f'select_options {q}', setup, post, f'{GC}:select_options')


def mk_gr1py(ctx):
    I = ctx.new()
    st = {}

    def same(I, a, b, what):
        I.prove(z3.BoolVal(a is b), what)

    def setup_(I):
        I.enc_.formats = True
        st['spec'] = A('specification')
        st['text'], st['tsys'], st['tab'] = Sym(I.const('text', V), 'str'), A('tsys', symtab=A('symtab')), A('exprtab')
        st['strategy'], st['json'], st['graph'] = A('strategy'), A('json'), A('graph')
        st['R'] = I.const('realizable', B)
        st['opt'] = A('init option')

        def translate(I, f, args, kw):
            b = I.bind(f, args, kw)
            same(I, b['spec'], st['spec'], 'the specification is translated')
            I.prove(z3.BoolVal(b['lang'] == 'gr1c'), 'the language of gr1c')
            return st['text']
        I.contracts['tulip.spec.translation:translate'] = translate

        def loads(I, s):
            I.prove(s.t == st['text'].t if isinstance(s, Sym) else FALSE, 'the translation is loaded')
            return (st['tsys'], st['tab'])

        def options(I, f, args, kw):
            same(I, I.bind(f, args, kw)['spec'], st['spec'], 'options of the specification')
            return st['opt']
        I.contracts[f'{GC}:select_options'] = options

        def args(I, tsys, tab, init_flags=None):
            same(I, tsys, st['tsys'], 'the loaded game')
            same(I, tab, st['tab'], 'the conditions of the loaded game')
            same(I, init_flags, st['opt'], 'the quantification of initial states')

        def realizable(I, *a, **kw):
            args(I, *a, **kw)
            return SB(st['R'])

        def synth(I, *a, **kw):
            args(I, *a, **kw)
            return st['strategy'] if I.branch(st['R']) else None

        def dumps(I, symtab, s):
            same(I, symtab, st['tsys'].at['symtab'], 'the names of the game')
            same(I, s, st['strategy'], 'the strategy is written')
            return st['json']
        I.overrides[f'{GP}:gr1py'] = A('gr1py', cli=A('cli', loads=Builtin('loads', loads)), output=A('output', dumps_json=Builtin('dumps_json', dumps)),
                                       solve=A('solve', check_realizable=Builtin('check_realizable', realizable), synthesize=Builtin('synthesize', synth)))

        def load(I, f, a, kw):
            b = list(I.bind(f, a, kw).values())
            same(I, b[0], st['json'], 'the written strategy is loaded')
            return st['graph']
        I.contracts[f'{GC}:load_aut_json'] = load

    def go(fn, post):
        def setup(I):
            setup_(I)
            return lambda: I.call(ctx.resolve(f'{GP}:{fn}'), [st['spec']], {})
        ctx.verify(f'gr1py.{fn}', setup, post, f'{GP}:{fn}')

    def p1(I, out):
        if ctx.no_raise(I, out, 'gr1py.check_realizable'):
            I.prove(tt(I, out) == st['R'], 'gr1py.check_realizable: the answer of the solver')

    def p2(I, out):
        nm = 'gr1py.synthesize'
        if ctx.no_raise(I, out, nm):
            I.prove(st['R'] if out is not None else Not_(st['R']), f'{nm}: no strategy exactly if not realizable')
            I.prove(z3.BoolVal(out is None or out is st['graph']), f'{nm}: the strategy')

    def p3(I, out):
        if ctx.no_raise(I, out, '_spec_to_gr1py'):
            I.prove(z3.BoolVal(isinstance(out, tuple) and len(out) == 2 and out[0] is st['tsys'] and out[1] is st['tab']), '_spec_to_gr1py: the loaded game')
    go('check_realizable', p1)
    go('synthesize', p2)
    go('_spec_to_gr1py', p3)


# ------------------------------------------------------------------ synth
SOLVERS = dict(gr1c='gr1c', slugs='slugs', gr1py='gr1py', omega='omega_int')


def mk_dispatch(ctx):
    I = ctx.new()
    I.enc_.formats = True
    st = {}

    def solvers(I):
        st['spec'] = A('specification')
        st['answers'] = {}
        st['R'] = I.const('realizable', B)
        for s, mod in SOLVERS.items():
            g = st['answers'][s] = A(f'strategy of {s}')

            def synth(I, x, s=s):
                I.prove(z3.BoolVal(x is st['final']), f'{s}: the specification is solved')
                return st['answers'][s]

            def real(I, x, s=s):
                I.prove(z3.BoolVal(x is st['final']), f'{s}: the specification is decided')
                st['asked'] = s
                return SB(st['R'])
            names = ('synthesize_enumerated_streett', 'is_realizable') if s == 'omega' else ('synthesize', 'check_realizable')
            I.overrides[f'{SY}:{mod}'] = A(mod, **{names[0]: Builtin(names[0], synth), names[1]: Builtin(names[1], real)})

    for s in [*SOLVERS, 'other']:
        def setup(I, s=s):
            solvers(I)
            st['final'] = st['spec']
            st['rm'] = SB(I.const('rm_deadends', B))
            st['m'] = A('machine')
            st['trim'] = None

            def trim(I, f, args, kw):
                b = I.bind(f, args, kw)
                I.prove(z3.BoolVal(b['specs'] is st['spec']), 'the machine is of the specification')
                r = b['rm_deadends']
                I.prove(tt(I, r) == st['rm'].t, 'the option about deadends')
                st['trim'] = b['strategy']
                return st['m']
            I.contracts[f'{SY}:_trim_strategy'] = trim
            return lambda: I.call(ctx.resolve(f'{SY}:_synthesize'), [st['spec'], s, st['rm']], {})

        def post(I, out, s=s):
            nm = f'_synthesize {s}'
            if s == 'other':
                I.prove(z3.BoolVal(isinstance(out, Raised) and out.name == 'ValueError'), f'{nm}: other solvers are rejected')
                return
            if ctx.no_raise(I, out, nm):
                I.prove(z3.BoolVal(st['trim'] is st['answers'][s] and out is st['m']), f'{nm}: the machine of the strategy')
        ctx.verify(f'_synthesize {s}', setup, post, f'{SY}:_synthesize')

    # is_realizable
    def plus(I):
        st['final'] = A('with the transition systems')

        def plus_sys(I, f, args, kw):
            b = I.bind(f, args, kw)
            a = st['args']
            for k, v in a.items():
                I.prove(z3.BoolVal(b[k] is v), f'the argument {k}')
            return st['final']
        I.contracts[f'{SY}:_spec_plus_sys'] = plus_sys
    for s in [*SOLVERS, 'other']:
        def setup(I, s=s):
            solvers(I)
            st['args'] = dict(specs=st['spec'], env=A('environment'), sys=A('system'), ignore_env_init=SB(I.const('ie', B)), ignore_sys_init=SB(I.const('is', B)))
            plus(I)
            return lambda: I.call(ctx.resolve(f'{SY}:is_realizable'), list(st['args'].values()), dict(solver=s))

        def post(I, out, s=s):
            nm = f'is_realizable {s}'
            if s == 'other':
                I.prove(z3.BoolVal(isinstance(out, Raised) and out.name == 'ValueError'), f'{nm}: other solvers are rejected')
                return
            if ctx.no_raise(I, out, nm):
                I.prove(z3.BoolVal(st['asked'] == s), f'{nm}: the solver')
                I.prove(tt(I, out) == st['R'], f'{nm}: the answer of the solver')
        ctx.verify(f'is_realizable {s}', setup, post, f'{SY}:is_realizable')

    # synthesize
    def setup(I):
        st['spec'] = A('specification')
        st['args'] = dict(specs=st['spec'], env=A('environment'), sys=A('system'), ignore_env_init=SB(I.const('ie', B)), ignore_sys_init=SB(I.const('is', B)))
        st['rm'], st['solver'], st['m'] = SB(I.const('rm_deadends', B)), A('solver'), A('machine')
        plus(I)

        def synth(I, f, args, kw):
            b = I.bind(f, args, kw)
            I.prove(z3.BoolVal(b['specs'] is st['final'] and b['solver'] is st['solver'] and b['rm_deadends'] is st['rm']), 'the arguments of synthesis')
            return st['m']
        I.contracts[f'{SY}:_synthesize'] = synth
        return lambda: I.call(ctx.resolve(f'{SY}:synthesize'), list(st['args'].values()) + [st['rm'], st['solver']], {})

    def post(I, out):
        if ctx.no_raise(I, out, 'synthesize'):
            I.prove(z3.BoolVal(out is st['m']), 'synthesize: the machine')
    ctx.verify('synthesize', setup, post, f'{SY}:synthesize')


def mk_trim(ctx):
    for none in (True, False):
        I = ctx.new()
        I.enc_.formats = True
        st = {}

        def setup(I):
            st['rm'] = SB(I.const('rm_deadends', B))
            st['spec'], st['s'] = A('specification'), None if none else A('strategy')
            log = st['log'] = St(removed=False)
            st['m'] = A('machine', states=A('states', **{'%len': lambda I: SN(I.const('n', Z))}), remove_deadends=Builtin('remove_deadends', lambda I: I.set_field(log.o, 'removed', True)))

            def mealy(I, f, args, kw):
                b = I.bind(f, args, kw)
                I.prove(z3.BoolVal(b['A'] is st['s'] and b['spec'] is st['spec'] and not none), 'the machine of the strategy and the specification')
                return st['m']
            I.contracts[f'{SY}:strategy2mealy'] = mealy
            return lambda: I.call(ctx.resolve(f'{SY}:_trim_strategy'), [st['s'], st['spec'], st['rm']], {})

        def post(I, out):
            nm = f'_trim_strategy (none: {none})'
            if ctx.no_raise(I, out, nm):
                I.prove(z3.BoolVal(out is (None if none else st['m'])), f'{nm}: the machine, if there is one')
                if not none:
                    I.prove(st['rm'].t == z3.BoolVal(st['log'].get('removed')), f'{nm}: deadends are removed exactly if asked')
        ctx.verify(f'_trim_strategy (none: {none})', setup, post, f'{SY}:_trim_strategy')


class Spec(St):
    """A specification: initial conditions as predicates, options, and which specifications it unites."""

    def getattr_(self, I, name):
        if name == 'pretty':
            return Builtin('pretty', lambda I: Sym(I.const('text', V), 'str'))
        if name not in self.o.f:
            raise Unsupported(f'specification: {name}')
        return self.o.f[name]

    def setattr_(self, I, name, v):
        if name not in ('env_init', 'sys_init', 'moore', 'plus_one', 'qinit'):
            raise Unsupported(f'specification: {name} is set')
        self.put(I, name, v)

    def binop_(self, I, op, a, b):
        if op not in ('|', 'BitOr') or not isinstance(a, Spec) or not isinstance(b, Spec):
            raise Unsupported(f'{op} of specifications')
        for k in ('moore', 'plus_one', 'qinit'):
            I.prove(opt(I, a.o.f[k]) == opt(I, b.o.f[k]), f'united specifications have the same {k}')
        return Spec(parts=a.get('parts') + b.get('parts'), env_init=PList(list(a.get('env_init').parts) + list(b.get('env_init').parts)),
                    sys_init=PList(list(a.get('sys_init').parts) + list(b.get('sys_init').parts)), moore=a.get('moore'), plus_one=a.get('plus_one'), qinit=a.get('qinit'))


def opt(I, v):
    return I.enc_.enc(v)


def new_spec(I, name, e, s, **o):
    return Spec(parts=(name,), env_init=PList([fam(I, e)]), sys_init=PList([fam(I, s)]), **o)


class Ts(Val):
    """A transition system with the given attributes."""

    def __init__(self, name, **at):
        self.name, self.at = name, at

    def subst(self, pairs):
        return self

    def isinstance_(self, I, name):
        return TRUE if name in ('FiniteTransitionSystem', 'FTS') else FALSE

    def getattr_(self, I, name):
        if name not in self.at:
            raise PyExc(AttributeError, (name,))
        return self.at[name]


SE, SS = F('env_init_of_specification', V, B), F('sys_init_of_specification', V, B)
TE, TS = {w: F(f'env_init_of_{w}', V, B) for w in ('env', 'sys')}, {w: F(f'sys_init_of_{w}', V, B) for w in ('env', 'sys')}


def translations(ctx, I, st):
    def to_spec(w):
        def go(I, f, args, kw):
            b = list(I.bind(f, args, kw).values())
            st['calls'].append((w, b[0], b[1], b[2]))
            return new_spec(I, w, TE[w], TS[w], moore=True, plus_one=True, qinit=r'\A \E')
        return go
    I.contracts[f'{SY}:sys_to_spec'] = to_spec('sys')
    I.contracts[f'{SY}:env_to_spec'] = to_spec('env')


def same_init(I, s, e, y, nm):
    x = I.const('x', V)
    I.prove(mem(I, Sym(x), s.get('env_init')) == e(x), f'{nm}: initial conditions of the environment')
    I.prove(mem(I, Sym(x), s.get('sys_init')) == y(x), f'{nm}: initial conditions of the system')


def combined(q, ws):
    """Initial conditions of the specification with the transition systems ws."""
    if q == r'\A \A':
        return (lambda x: Or_(SE(x), *[Or_(TE[w](x), TS[w](x)) for w in ws]), SS)
    return (lambda x: Or_(SE(x), *[TE[w](x) for w in ws]), lambda x: Or_(SS(x), *[TS[w](x) for w in ws]))


def mk_plus(ctx):
    for q in QS:
        for ws in ((), ('sys',), ('env',), ('sys', 'env')):
            for named in (True, False):
                for own in (True, False):
                    if (named or own) and not ws:
                        continue
                    I = ctx.new()
                    I.enc_.formats = True
                    st = {}

                    def setup(I):
                        st['calls'] = []
                        translations(ctx, I, st)
                        o = st['o'] = dict(moore=I.sym('moore'), plus_one=I.sym('plus_one'), qinit=q)
                        st['spec'] = new_spec(I, 'given', SE, SS, **o)
                        st['ts'] = {w: Ts(w, **(dict(state_varname=f'name of {w}') if named else {}), **(o if own else {})) for w in ws}
                        st['ig'] = {w: SB(I.const(f'ignore_{w}', B)) for w in ('env', 'sys')}
                        return lambda: I.call(ctx.resolve(f'{SY}:_spec_plus_sys'), [st['spec'], st['ts'].get('env'), st['ts'].get('sys'), st['ig']['env'], st['ig']['sys']], {})

                    def post(I, out):
                        nm = f'_spec_plus_sys {q} {ws}'
                        if not ctx.no_raise(I, out, nm):
                            return
                        if not isinstance(out, Spec):
                            I.prove(FALSE, f'{nm}: a specification')
                            return
                        I.prove(z3.BoolVal(sorted(out.get('parts')) == sorted(('given',) + ws)), f'{nm}: the specification and the transition systems')
                        same_init(I, out, *combined(q, ws), nm)
                        for k, v in st['o'].items():
                            I.prove(opt(I, out.get(k)) == opt(I, v), f'{nm}: {k}')
                        I.prove(z3.BoolVal(sorted(c[0] for c in st['calls']) == sorted(ws)), f'{nm}: each transition system is translated once')
                        for w, t, ig, name in st['calls']:
                            I.prove(z3.BoolVal(t is st['ts'].get(w)), f'{nm}: the transition system')
                            I.prove(tt(I, ig) == st['ig'][w].t, f'{nm}: the option about initial states')
                            I.prove(z3.BoolVal(name == (f'name of {w}' if named else dict(sys='loc', env='eloc')[w])), f'{nm}: the name of the variable')
                        # the given specification does not change
                        I.prove(z3.BoolVal(st['spec'].get('parts') == ('given',)), f'{nm}: the given specification')
                        same_init(I, st['spec'], SE, SS, f'{nm}: the given specification')
                    ctx.verify(f'_spec_plus_sys {q} {ws}', setup, post, f'{SY}:_spec_plus_sys')


def mk_copy(ctx):
    for own in (True, False):
        I = ctx.new()
        st = {}

        def setup(I):
            o = {k: I.sym(k) for k in ('moore', 'plus_one', 'qinit')}
            p = {k: I.sym(f'{k} of the transition system') for k in o}
            st['want'] = p if own else o
            st['s'] = new_spec(I, 'made', SE, SS, moore=True, plus_one=True, qinit='x')
            return lambda: I.call(ctx.resolve(f'{SY}:_copy_options_from_ts'), [st['s'], Ts('ts', **(p if own else {})), new_spec(I, 'given', SE, SS, **o)], {})

        def post(I, out):
            nm = f'_copy_options_from_ts (own: {own})'
            if ctx.no_raise(I, out, nm):
                for k, v in st['want'].items():
                    I.prove(opt(I, st['s'].get(k)) == v.t, f'{nm}: {k}')
                same_init(I, st['s'], SE, SS, nm)
        ctx.verify(f'_copy_options_from_ts (own: {own})', setup, post, f'{SY}:_copy_options_from_ts')


TSN, OWN_, IGN = F('is_transition_system', V, B), F('owned_by_system', V, B), F('ignored', V, B)


def mk_many(ctx):
    for q in QS:
        for given in (True, False):
            I = ctx.new()
            st = {}

            class Some(Val):
                """The transition system with a name."""

                def __init__(self, k):
                    self.k = k

                def subst(self, pairs):
                    return Some(z3.substitute(self.k, *pairs))

                def isinstance_(self, I, name):
                    return TRUE if name in ('FiniteTransitionSystem', 'FTS') else FALSE

                def getattr_(self, I, name):
                    if name == 'owner':
                        return 'sys' if I.branch(OWN_(self.k)) else 'env'
                    if name in st['own']:
                        return st['own'][name]
                    raise PyExc(AttributeError, (name,))

            def rule(I, fr, node, it):
                ps = I.iter_parts(it) if isinstance(it, Container) else it.iter_(I) if hasattr(it, 'iter_') else []
                if len(ps) != 1 or not (isinstance(ps[0].val, tuple) and any(isinstance(x, Some) for x in ps[0].val)):
                    return False
                cur = [n for n, v in fr.f.items() if isinstance(v, Spec) and not n.startswith('%')]
                if len(cur) != 1:
                    return False
                n, = cur
                if I.choose([TRUE, TRUE]) == 1:
                    st['all'] = Spec(parts=('all',), **st['sofar'])
                    I.set_field(fr, n, st['all'])
                    I.exec_block(node.orelse, fr)
                    return True
                e, y = F('env_init_so_far', V, B), F('sys_init_so_far', V, B)
                first = fr.f[n]
                I.prove(z3.BoolVal(first is st['spec']), 'the loop starts from the given specification')
                st['calls'] = []
                acc = new_spec(I, 'so far', e, y, **st['o'])
                p = I.inst(ps[0])
                I.assume(p.cond)
                k = p.vars[0]
                I.iteration(fr, node, p, [], {n: acc})
                out = fr.f[n]
                nm = f'synthesize_many {q}'
                ok = isinstance(out, Spec) and len(st['calls']) == 1
                I.prove(z3.BoolVal(ok), f'{nm}: each transition system is translated once')
                if ok:
                    w, t, ig, name = st['calls'][0]
                    I.prove(z3.BoolVal(sorted(out.get('parts')) == sorted(('so far', w))), f'{nm}: a transition system is added')
                    I.prove(OWN_(k) == z3.BoolVal(w == 'sys'), f'{nm}: the owner of the variable')
                    I.prove(t.k == k if isinstance(t, Some) else FALSE, f'{nm}: the transition system')
                    I.prove(tt(I, ig) == (IGN(k) if given else FALSE), f'{nm}: the option about initial states')
                    I.prove(I.enc_.enc(name) == k, f'{nm}: the name of the variable')
                    if q == r'\A \A':
                        same_init(I, out, lambda x: Or_(e(x), TE[w](x), TS[w](x)), y, nm)
                    else:
                        same_init(I, out, lambda x: Or_(e(x), TE[w](x)), lambda x: Or_(y(x), TS[w](x)), nm)
                raise Infeasible()
            I.for_rules.append(rule)

            def setup(I):
                st['calls'] = []
                translations(ctx, I, st)
                st['own'] = {}
                o = st['o'] = dict(moore=I.sym('moore'), plus_one=I.sym('plus_one'), qinit=q)
                st['sofar'] = dict(env_init=PList([fam(I, SE)]), sys_init=PList([fam(I, SS)]), **o)
                st['spec'] = new_spec(I, 'given', SE, SS, **o)
                st['solver'], st['m'], st['all'] = A('solver'), A('machine'), None

                def synth(I, f, args, kw):
                    b = I.bind(f, args, kw)
                    I.prove(z3.BoolVal(b['specs'] is st['all'] and b['solver'] is st['solver'] and b['rm_deadends'] is True), 'the specification with all transition systems is solved')
                    return st['m']
                I.contracts[f'{SY}:_synthesize'] = synth
                ts = PDict([fam(I, TSN, Some)])
                ig = dict(ignore_init=PSet([fam(I, IGN)])) if given else {}
                return lambda: I.call(ctx.resolve(f'{SY}:synthesize_many'), [st['spec'], ts], dict(solver=st['solver'], **ig))

            def post(I, out):
                if ctx.no_raise(I, out, f'synthesize_many {q}'):
                    I.prove(z3.BoolVal(out is st['m']), f'synthesize_many {q}: the machine')
            ctx.verify(f'synthesize_many {q} (ignore_init given: {given})', setup, post, f'{SY}:synthesize_many')


GROUPS = [Group('omega: conjunction', mk_conj), Group('omega: implication', mk_implies), Group('omega: bounds', mk_bounds), Group('omega: automaton', mk_automaton),
          Group('omega: strategy', mk_annotated), Group('omega: solver', mk_omega), Group('gr1c: options', mk_options), Group('gr1py', mk_gr1py),
          Group('synth: solvers', mk_dispatch), Group('synth: machine', mk_trim), Group('synth: transition systems', mk_plus), Group('synth: options', mk_copy),
          Group('synth: many transition systems', mk_many)]
ASSUMED = ["omega.games.gr1.solve_streett_game, is_realizable and make_streett_transducer solve the game of the automaton, as documented",
           'omega.games.enumeration.action_to_steps enumerates the steps of the strategy from the initial states that the quantification selects',
           'omega.symbolic.temporal.Automaton: fields and declarations as documented; its parser reads formulas with the precedence that it declares',
           'gr1py.solve and gr1py.cli solve the game that they load; the executables gr1c and slugs', 'the environment and the system have no variable in common',
           'str_to_int gives each condition with integers for strings and translations keep the meaning (C13); transition systems as formulas (C11), answers of solvers (C18) and strategies as machines (C17) have their own contracts']
BOUNDED = ['realizability against an explicit game and the plays of the machines (bounded executable contract of the solvers)']
