"""Contracts for the export of controllers (tulip/dumpsmach.py).

`python_case` is executed on an arbitrary machine: the result is a text with
holes (names, values, numbers of states) and with families of lines, one line
for each transition, etc.  The text is read as Python code by `ast.parse`, with
placeholders at holes, and each branch of the code is compared with the machine.
"""
import ast
import re
import z3
from vf.contract import *
from vf import lib
from vf.core import _MISSING, Ite, Join
from vf.digraph import A, F, B, Z
from contracts.C10 import fam, z3b

M = 'tulip.dumpsmach'
ND, IDX = F('is_state', V, B), F('number_of_state', V, Z)
ED, EIX = F('is_transition', V, V, Z, B), F('position_of_transition', V, V, Z, Z)
INP, OUTP = F('is_input', V, B), F('is_output', V, B)
HAS, LV = F('label_has', V, V, Z, V, B), F('label_value', V, V, Z, V, V)
ISTR = F('is_string', V, B)
GIVEN = F('given_input', V, V)
START = z3.Const('start_state', V)
CLS = 'Controller'


class Seq(Val):
    """Elements in an unspecified order, with their positions."""

    def __init__(self, parts, pos):
        self.parts, self.pos = parts, pos

    def subst(self, pairs):
        return Seq([subst_part(p, pairs) for p in self.parts], lambda v: subst(self.pos(v), pairs))

    def iter_(self, I):
        return [I.inst(p) for p in self.parts]

    def truth_(self, I):
        return Or_(*[Exists_(list(p.vars), p.cond) for p in map(I.inst, self.parts)])


class Rest(Val):
    """The items first, and then the same item forever."""

    def __init__(self, first, rest):
        self.first, self.rest = tuple(first), rest

    def at(self, i):
        v = self.rest
        for k in range(len(self.first) - 1, -1, -1):
            v = Ite(i == k, self.first[k], v)
        return v


class Value(Val):
    """The value of a variable: a Boolean value, a number, or a string."""

    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return Value(z3.substitute(self.t, *pairs))

    def isinstance_(self, I, name):
        return ISTR(self.t) if name == 'str' else FALSE if name in ('list', 'tuple', 'dict', 'set') else I.const('isinstance', B)


class Label(Val):
    def __init__(self, e):
        self.e = e

    def subst(self, pairs):
        return Label(tuple(z3.substitute(x, *pairs) for x in self.e))

    def iter_(self, I):
        return [fam(I, lambda k: HAS(*self.e, k))]

    def contains_(self, I, k):
        return HAS(*self.e, I.enc_.enc(k))

    def getitem_(self, I, k):
        t = I.enc_.enc(k)
        if not I.branch(HAS(*self.e, t)):
            raise PyExc(KeyError, (k,))
        return Value(LV(*self.e, t))

    def getattr_(self, I, name):
        if name == 'items':
            return Builtin('items', lambda I: PList([fam(I, lambda k: HAS(*self.e, k), lambda k: Value(LV(*self.e, k)))]))
        if name == 'keys':
            return Builtin('keys', lambda I: self)
        if name == 'get':
            return Builtin('get', lambda I, k, d=None: self.getitem_(I, k) if I.branch(HAS(*self.e, I.enc_.enc(k))) else d)
        raise Unsupported(f'label: {name}')


class Names(Val):
    """The inputs or outputs of the machine: names with their domains."""

    def __init__(self, f, some):
        self.f, self.some = f, some

    def subst(self, pairs):
        return self

    def iter_(self, I):
        return [fam(I, self.f)]

    def contains_(self, I, k):
        return self.f(I.enc_.enc(k))

    def truth_(self, I):
        return TRUE if self.some else FALSE

    def getattr_(self, I, name):
        if name == 'keys':
            return Builtin('keys', lambda I: self)
        raise Unsupported(f'names: {name}')


class Hole:
    """A value in the text; fams: the elements that it depends on."""

    def __init__(self, v, kind, fams):
        self.v, self.kind, self.fams = v, kind, fams


class Bad(Exception):
    pass


class Reader:
    """Text of a controller -> Python code with placeholders.

    A family of branches is represented by one arbitrary element, written as
    the first branch and as a later branch (`sel`: which part of the family).
    """

    def __init__(self, I, sel):
        self.I, self.sel = I, sel
        self.h, self.joins = {}, {}
        self.count = {}
        self.families = []

    def new(self, kind, table, x):
        n = f'vf{kind}{len(table)}_'
        table[n] = x
        return n

    def text(self, s, fams=(), first=None):
        out = []
        for p in lib.str_pieces(self.I, s):
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, Join):
                out.append(self.join(p, fams))
            elif isinstance(p, lib.StrHole) and isinstance(p.v, Ite):
                v = p.v
                if first is None or not isinstance(v.a, str) or not isinstance(v.b, str) or not v.c.eq(position(fams) == 0):
                    raise Bad('text that depends on the position')
                out.append(v.a if first else v.b)
            else:
                kind = 'repr' if isinstance(p, lib.ReprHole) else 'str'
                out.append(self.new('h', self.h, Hole(p if isinstance(p, (Sym, SN)) else p.v, kind, fams)))
        return ''.join(out)

    def join(self, j, fams):
        ps = [self.I.inst(p) for p in j.parts]
        ps = [p for p in ps if self.I.feasible(And_(*conds(fams), p.cond))]
        if j.sep.strip() in ('and', ','):
            return self.new('j', self.joins, (j.sep.strip(), fams, ps))
        if j.sep.strip() != '':
            raise Bad(f'separator {j.sep!r}')
        out = []
        depth = len(fams)
        chained = [p for p in ps if p.vars and any(isinstance(x, lib.StrHole) and isinstance(x.v, Ite) for x in lib.str_pieces(self.I, p.val))]
        if chained:
            self.count[depth] = max(len(chained), self.count.get(depth, 0))
            self.families.append((tuple(fams), chained))
        for p in ps:
            f = tuple(fams) + (p,)
            if not any(p is q for q in chained):
                out.append(self.text(p.val, f))
            elif p is chained[min(self.sel[depth], len(chained) - 1)]:
                out += [self.text(p.val, f, True), self.text(p.val, f, False)]
        return j.sep.join(out)


def position(fams):
    vs = [v for p in fams for v in p.vars]
    return IDX(*vs) if len(vs) == 1 else EIX(*vs) if len(vs) == 3 else z3.IntVal(-1)


def conds(fams):
    return [p.cond for p in fams]


class Code:
    """The meaning of the code that was read."""

    def __init__(self, I, r, tree, nm):
        self.I, self.r, self.nm = I, r, nm
        c, = [n for n in tree.body if isinstance(n, ast.ClassDef)]
        if c.name != CLS or len(tree.body) != 1:
            raise Bad('the class')
        self.m = {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}

    def say(self, fams, goal, what):
        vs = [v for p in fams for v in p.vars]
        self.I.prove(ForAll_(vs, Implies_(And_(*conds(fams)), goal)), f'{self.nm}: {what}')

    def ok(self, goal, what):
        self.I.prove(z3.BoolVal(bool(goal)), f'{self.nm}: {what}')

    # names
    def names(self, e, f, kind, what):
        """e is the join over all names for which f holds."""
        j = self.r.joins.get(e)
        if j is None or j[0] != ',':
            raise Bad(what)
        x = self.I.const('x', V)
        some = []
        for p in j[2]:
            ps = lib.str_pieces(self.I, p.val)
            h = ps[0] if len(ps) == 1 else None
            v = h.v if isinstance(h, lib.ReprHole) else h
            if not isinstance(v, Sym) or isinstance(h, lib.ReprHole) != (kind == 'repr'):
                raise Bad(what)
            some.append(Exists_(list(p.vars), And_(p.cond, v.t == x)))
        self.I.prove(ForAll_([x], Or_(*some) == f(x)), f'{self.nm}: {what}')

    def hole(self, n, kinds=('str', 'repr')):
        h = self.r.h.get(n.id) if isinstance(n, ast.Name) else None
        if h is None or h.kind not in kinds:
            raise Bad(f'code: {ast.dump(n)}')
        return h

    def number(self, n):
        if isinstance(n, ast.Constant) and type(n.value) is int:
            return z3.IntVal(n.value)
        h = self.hole(n)
        if not isinstance(h.v, SN):
            raise Bad('number')
        return h.v.t

    def value(self, n):
        """Term of a value that is written in the code."""
        h = self.hole(n)
        if not isinstance(h.v, Value):
            raise Bad('value')
        if h.kind == 'str':
            self.say(h.fams, Not_(ISTR(h.v.t)), 'strings are quoted')
        return h.v.t

    # guards
    def guard(self, n, fams, given):
        if isinstance(n, ast.Constant) and n.value is True:
            return TRUE
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
            return And_(*[self.guard(x, fams, given) for x in n.values])
        if isinstance(n, ast.Name) and n.id in self.r.joins:
            sep, f, ps = self.r.joins[n.id]
            if sep != 'and':
                raise Bad('guard')
            out = []
            for p in ps:
                r = Reader(self.I, (0,) * 9)
                t = r.text(p.val, tuple(f) + (p,))
                e = ast.parse(t.strip(), mode='eval').body
                if isinstance(e, (ast.BoolOp, ast.IfExp, ast.Lambda, ast.NamedExpr)) and not t.strip().startswith('('):
                    raise Bad('guard')
                old, self.r = self.r, Both(self.r, r)
                try:
                    out.append(ForAll_(list(p.vars), Implies_(p.cond, self.guard(e, tuple(f) + (p,), given))))
                finally:
                    self.r = old
            self.say(f, Or_(*[Exists_(list(p.vars), p.cond) for p in ps]), 'a guard is not empty')
            return And_(*out)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq):
            a, b = n.left, n.comparators[0]
            if not self.is_input(a, given):
                a, b = b, a
            if not self.is_input(a, given):
                raise Bad('guard')
            h = self.hole(a, ('str',))
            return GIVEN(h.v.t) == self.value(b)
        raise Bad(f'guard {ast.dump(n)}')

    def is_input(self, n, assigned):
        h = self.r.h.get(n.id) if isinstance(n, ast.Name) else None
        if h is None or h.kind != 'str' or not isinstance(h.v, Sym):
            return False
        self.say(h.fams, INP(h.v.t), 'guards read the inputs')
        for a in assigned:
            self.say(h.fams, h.v.t != self.I.enc_.enc(a), f'the local {a} hides no input')
        return True

    # branches
    def chain(self, s):
        out = []
        while True:
            out.append((s.test, s.body))
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                s = s.orelse[0]
                continue
            return out, s.orelse

    def simple(self, s):
        """(name, value) of an assignment to a local or to the state."""
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            return s.targets[0], s.value
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return s.target, s.value
        return None, None

    def is_state(self, t):
        return isinstance(t, ast.Attribute) and t.attr == 'state' and isinstance(t.value, ast.Name) and t.value.id == 'self'

    def run(self, body, env):
        """Statements without branches: dict with state, outputs, result."""
        for s in body:
            if isinstance(s, ast.Raise):
                env['end'] = ('raise', s.exc.func.id if isinstance(s.exc, ast.Call) else s.exc.id)
                return env
            if isinstance(s, ast.Return):
                if not isinstance(s.value, ast.Name) or s.value.id not in env['dicts']:
                    raise Bad('result')
                env['end'] = ('return', env['dicts'][s.value.id])
                return env
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in self.m:
                for a in env['dicts']:
                    x = self.I.const('x', V)
                    self.I.prove(ForAll_([x], Implies_(INP(x), x != self.I.enc_.enc(a))), f'{self.nm}: the local {a} hides no input')
                self.arguments(s.value)
                env['end'] = ('error', s.value.func.attr)
                return env
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
                continue
            t, v = self.simple(s)
            if t is None:
                raise Bad(f'statement {ast.dump(s)[:80]}')
            if self.is_state(t):
                env['state'] = self.number(v)
            elif isinstance(t, ast.Name) and (isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                                              and v.func.id == 'dict' and not v.args and not v.keywords):
                env['dicts'][t.id] = []
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in env['dicts']:
                k = t.slice
                key = None
                if isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value in self.r.h and self.r.h[k.value].kind == 'str':
                    key = self.r.h[k.value]
                elif isinstance(k, ast.Name) and k.id in self.r.h and self.r.h[k.id].kind == 'repr':
                    key = self.r.h[k.id]
                if key is None or not isinstance(key.v, Sym):
                    raise Bad('name of an output')
                env['dicts'][t.value.id].append((key.fams, key.v.t, self.value(v)))
            else:
                raise Bad(f'assignment {ast.dump(s)[:80]}')
        return env

    def arguments(self, c):
        if c.keywords or len(c.args) > 1:
            raise Bad('arguments of the error')
        if c.args:
            if not isinstance(c.args[0], ast.Name):
                raise Bad('arguments of the error')
            self.names(c.args[0].id, INP, 'str', 'the inputs are given to the error')


class Both:
    def __init__(self, a, b):
        self.h, self.joins = {**a.h, **b.h}, {**a.joins, **b.joins}


def seq_zip(I, *its, **kw):
    seqs = [s for s in its if isinstance(s, Seq)]
    if len(seqs) == 1 and all(isinstance(s, (Seq, Rest)) for s in its):
        q, = seqs
        return Seq([Part(p.vars, p.cond, tuple(p.val if s is q else s.at(q.pos(p.vars)) for s in its)) for p in map(I.inst, q.parts)], q.pos)
    return lib.b_zip(I, *its, **kw)


def seq_enumerate(I, it, start=0):
    if isinstance(it, Seq):
        return Seq([Part(p.vars, p.cond, (SN(it.pos(p.vars) + start), p.val)) for p in map(I.inst, it.parts)], it.pos)
    return lib.b_enumerate(I, it, start)


def chain(I, *its):
    if its and isinstance(its[-1], Rest):
        first = []
        for it in its[:-1]:
            ps = I.iter_parts(it)
            if any(p.vars or not z3.is_true(p.cond) for p in ps):
                raise Unsupported('chain of a family')
            first += [p.val for p in ps]
        return Rest(first + list(its[-1].first), its[-1].rest)
    return lib.it_chain(I, *its)


def mk_case(ctx):
    for some in (True, False):
        I = ctx.new()
        I.only_facts = True
        nm = f'python_case({"inputs" if some else "no inputs"})'
        I.overrides[f'{M}:zip'] = Builtin('zip', seq_zip)
        I.overrides[f'{M}:enumerate'] = Builtin('enumerate', seq_enumerate)
        I.overrides['itertools:chain'] = Builtin('chain', chain)
        I.overrides['itertools:repeat'] = Builtin('repeat', lambda I, x, n=None: Rest((), x) if n is None else lib.it_repeat(I, x, n))
        I.overrides[f'{M}:repr'] = Builtin('repr', lambda I, x: repr(x) if isinstance(x, (str, int, bool)) else SStr([lib.ReprHole(x)]))
        I.overrides['time:strftime'] = Builtin('strftime', lambda I, *a: 'date')
        I.overrides['time:gmtime'] = Builtin('gmtime', lambda I, *a: None)

        def setup(I):
            u, v, k, x, y = I.const('u', V), I.const('v', V), I.const('k', Z), I.const('x', V), I.const('y', V)
            I.assume(ND(START))
            I.assume(ForAll_([u, v], Implies_(And_(ND(u), ND(v), IDX(u) == IDX(v)), u == v)))
            I.assume(ForAll_([u], Implies_(ND(u), IDX(u) >= 0)))
            I.assume(ForAll_([u, v, k], Implies_(ED(u, v, k), And_(ND(u), ND(v)))))
            I.assume(ForAll_([u, v, k, x], Implies_(And_(ED(u, v, k), Or_(INP(x), OUTP(x))), HAS(u, v, k, x))))
            I.assume(Exists_([x], INP(x)) if some else ForAll_([x], Not_(INP(x))))
            nodes = Seq([fam(I, ND)], lambda vs: IDX(*vs))
            ins, outs = Names(INP, some), symdict_names(I)

            def edges(I, nb=None, data=False, keys=False):
                if nb is None or keys or not data:
                    raise Unsupported('edges')
                s = nb.t if isinstance(nb, Sym) else None
                if s is None:
                    raise Unsupported('edges')
                v, k = I.const('v', V), I.const('k', Z)
                return Seq([Part((v, k), ED(s, v, k), (Sym(s), Sym(v), Label((s, v, k))))], lambda vs: EIX(s, *vs))
            m = A('machine', inputs=ins, outputs=outs, edges=Builtin('edges', edges), out_edges=Builtin('edges', edges),
                  nodes=nodes, **{'%iter': lambda I: nodes.iter_(I)})
            m = Machine(m, nodes)
            return lambda: I.call(ctx.resolve(f'{M}:python_case'), [m], dict(classname=CLS, start=Sym(START)))

        def post(I, out):
            if not ctx.no_raise(I, out, nm):
                return
            if not isinstance(out, (str, SStr)):
                I.prove(FALSE, f'{nm}: a text')
                return
            n1 = n2 = 1
            k1 = 0
            while k1 < n1:
                k2 = 0
                while k2 < n2:
                    r = Reader(I, (k1, k2, 0, 0))
                    try:
                        t = r.text(out)
                        n1, n2 = r.count.get(0, 1), r.count.get(1, 1)
                        try:
                            tree = ast.parse(t)
                        except SyntaxError as e:
                            raise Bad(f'syntax error: {e}')
                        c = Code(I, r, tree, nm)
                        read(I, c, some)
                        for fams, ps in r.families:
                            w = [I.const('w', x.sort()) for x in ps[0].vars]
                            all_ = ND(*w) if not fams else ED(*fams[0].vars, *w) if len(fams) == 1 and len(w) == 2 else _bad('families')
                            some_ = [Exists_(list(p.vars), And_(p.cond, *[a == b for a, b in zip(p.vars, w)])) for p in ps]
                            c.say(fams, ForAll_(w, Implies_(all_, Or_(*some_))), 'a branch for each transition' if fams else 'a branch for each state')
                    except Bad as e:
                        I.prove(FALSE, f'{nm}: the text is read as the code of a controller ({e})')
                        return
                    k2 += 1
                k1 += 1
        ctx.verify(nm, setup, post, f'{M}:python_case')


def read(I, c, some):
    init, move = c.m.get('__init__'), c.m.get('move')
    if init is None or move is None:
        raise Bad('methods')
    nm = c.nm
    # the constructor
    done = set()
    for s in init.body:
        t, v = c.simple(s)
        if t is None:
            raise Bad('constructor')
        if c.is_state(t):
            I.prove(c.number(v) == IDX(START), f'{nm}: the initial state')
            done.add('state')
        elif isinstance(t, ast.Attribute) and t.attr == 'input_vars':
            if not isinstance(v, ast.List) or len(v.elts) > 1:
                raise Bad('input_vars')
            if v.elts:
                c.names(v.elts[0].id if isinstance(v.elts[0], ast.Name) else None, INP, 'repr', 'the names of inputs')
            else:
                c.ok(not some, 'the names of inputs')
            done.add('input_vars')
        else:
            raise Bad('constructor')
    c.ok(len(done) == 2, 'the constructor initializes the state and the names')
    # parameters of `move`
    a = move.args
    if a.vararg or a.kwarg or a.kwonlyargs or len(a.args) > 2 or a.args[0].arg != 'self' or a.defaults:
        raise Bad('parameters')
    if len(a.args) == 2:
        c.names(a.args[1].arg, INP, 'str', 'the inputs are the parameters')
    else:
        c.ok(not some, 'the inputs are the parameters')
    body = [s for s in move.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    n, = [i for i, s in enumerate(body) if isinstance(s, ast.If)] or [None]
    if n is None:
        raise Bad('branches')
    pre = c.run(body[:n], dict(state=None, dicts={}, end=None))
    if pre['end'] or pre['state'] is not None or any(pre['dicts'].values()):
        raise Bad('statements before the branches')
    copy = lambda e: dict(state=e['state'], dicts={k: list(v) for k, v in e['dicts'].items()}, end=e['end'])
    branches, _ = c.chain(body[n])
    for test, block in branches:
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq) and c.is_state(test.left)):
            raise Bad('test of the state')
        h = c.hole(test.comparators[0])
        p, = h.fams
        u, = p.vars
        c.say(h.fams, c.number(test.comparators[0]) == IDX(u), 'the number of the state')
        j = [x for x in c.r.h.values() if x.fams]
        inner = [i for i, s in enumerate(block) if isinstance(s, ast.If)]
        v, k = I.const('v', V), I.const('k', Z)
        if not inner:
            e = c.run(block, copy(pre))
            c.ok(e['end'] == ('raise', 'RuntimeError'), 'a dead end raises RuntimeError')
            c.say(h.fams, ForAll_([v, k], Not_(ED(u, v, k))), 'RuntimeError only in states without transitions')
            continue
        if len(inner) != 1:
            raise Bad('branches of a state')
        c.say(h.fams, Exists_([v, k], ED(u, v, k)), 'transitions exist')
        before = c.run(block[:inner[0]], copy(pre))
        bs, other = c.chain(block[inner[0]])
        for g, stmts in bs:
            hs = [c.r.h[x.id] for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in c.r.h and len(c.r.h[x.id].fams) >= 2]
            fams = hs[0].fams[:2] if hs else _bad('a transition')
            q = fams[1]
            if len(q.vars) != 2:
                raise Bad('a transition')
            e_ = (u,) + tuple(q.vars)
            c.say(fams, ED(*e_), 'a transition of the machine')
            x = I.const('x', V)
            G = c.guard(g, fams, list(before['dicts']))
            c.say(fams, G == ForAll_([x], Implies_(INP(x), GIVEN(x) == LV(*e_, x))), 'the guard of a transition is its input')
            e = c.run(stmts, copy(before))
            if e['end'] is None:
                e = c.run(block[inner[0] + 1:], e)
            if e['end'] is None:
                e = c.run(body[n + 1:], e)
            c.ok(e['end'] is not None and e['end'][0] == 'return', 'a transition returns the outputs')
            if e['end'] is None or e['end'][0] != 'return':
                continue
            c.say(fams, e['state'] == IDX(q.vars[0]) if e['state'] is not None else FALSE, 'a transition moves to its target')
            some_out = []
            for f, key, val in e['end'][1]:
                inner_f = f[2:]
                vs = [w for p in inner_f for w in p.vars]
                some_out.append(Exists_(vs, And_(*conds(inner_f), key == x)))
                c.say(f, And_(val == LV(*e_, key)), 'the values of the outputs')
            c.say(fams, ForAll_([x], Or_(*some_out) == OUTP(x)), 'the names of the outputs')
        # all transitions have a branch
        v, k = I.const('v', V), I.const('k', Z)
        if other:
            e = c.run(other, copy(before))
            c.ok(e['end'] is not None and (e['end'] == ('raise', 'ValueError') or e['end'][0] == 'error'), 'other inputs raise an error')
            if e['end'] and e['end'][0] == 'error':
                error(I, c, e['end'][1], some)
            c.ok(e['state'] is None, 'the error does not change the state')
        else:
            c.ok(not some, 'other inputs raise an error')


def error(I, c, name, some):
    """The method of errors raises ValueError, tried with two inputs."""
    m = c.m[name]
    if len(m.body) != 1 or not isinstance(m.body[0], ast.Raise) or not isinstance(m.body[0].exc, ast.Call) \
            or not isinstance(m.body[0].exc.func, ast.Name):
        raise Bad('the method of errors')
    c.ok(m.body[0].exc.func.id == 'ValueError', 'other inputs raise ValueError')
    if len(m.args.args) == 2:
        c.names(m.args.args[1].arg, INP, 'str', 'the error takes the inputs')


def _bad(x):
    raise Bad(x)


class Machine(Seq):
    def __init__(self, a, nodes):
        super().__init__(nodes.parts, nodes.pos)
        self.a = a

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        return self.a.getattr_(I, name)


def symdict_names(I):
    return Names(OUTP, True)


GROUPS = [Group('python_case', mk_case)]
ASSUMED = ['the order in which a machine enumerates its states does not change between two enumerations', 'repr of Boolean values, numbers and strings, read as Python code, is the value',
           'the text of the error message raises nothing', 'names of variables are identifiers, other than keywords, self and names of builtins',
           'ast.parse reads a sequence of branches as it reads two of them']
BOUNDED = []
