"""Contracts for the decoding of answers of solvers (tulip/interfaces)."""
import z3
from vf.contract import *
from vf import lib
from vf.core import _MISSING, Ite, Join
from vf.digraph import A, F, B, Z
from contracts.C10 import symdict, same_dict, fam, mem, z3b, St

S = 'tulip.interfaces.slugs'
G = 'tulip.interfaces.gr1c'
P = 'tulip.interfaces.gr1py'
VAR, BOOLV = F('variable', V, B), F('is_boolean', V, B)
LO, HI = F('first', V, Z), F('last', V, Z)
BITLEN = F('number_of_bits', Z, Z)
BIT, FLAG = F('bit', V, Z, Z), F('value_of_boolean', V, Z)
NUM = F('number_of_the_bits', V, Z)      # sum of 2^i * bit(x, i), i < number_of_bits(last(x))


def bit_length(I, o, name):
    if name == 'bit_length' and isinstance(o, SN):
        return Builtin('bit_length', lambda I: SN(BITLEN(o.t)))
    return _MISSING


class Dom(Val):
    """'boolean' or (first, last)."""

    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Dom(z3.substitute(self.k, *pairs))

    def eq_(self, I, a, b):
        o = b if a is self else a
        return BOOLV(self.k) if o == 'boolean' else FALSE

    def isinstance_(self, I, name):
        return Not_(BOOLV(self.k)) if name == 'tuple' else BOOLV(self.k) if name == 'str' else FALSE

    def getitem_(self, I, i):
        I.prove(Not_(BOOLV(self.k)), 'only integer domains have bounds')
        return SN([LO, HI][i](self.k)) if i in (0, 1, -1, -2) else SN(None)

    def unpack_(self, I, n):
        return [self.getitem_(I, 0), self.getitem_(I, 1)]


def same(a, b):
    return a is b or isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)


class Bits(Val):
    """The values that slugs reports, by names of bits."""

    def subst(self, pairs):
        return self

    def getitem_(self, I, b):
        if isinstance(b, Ite):
            x, y = self.getitem_(I, b.a), self.getitem_(I, b.b)
            # the name that is read depends on the position
            return SN(z3.If(b.c, x.t, y.t))
        return SN(self.lookup(I, b))

    def lookup(self, I, b):
        if isinstance(b, Sym) and not isinstance(b, SStr):
            I.prove(BOOLV(b.t), 'the name of an integer variable is not reported, only its bits')
            return FLAG(b.t)
        if isinstance(b, SStr):
            p = list(b.pieces)
            if len(p) == 1 and isinstance(p[0], Sym):
                return self.lookup(I, p[0])
            if isinstance(p[0], Sym) and len(p) == 3 and p[1] == '@' and isinstance(p[2], SN):
                return BIT(p[0].t, z3.If(p[2].t >= 1, p[2].t, z3.IntVal(-1)))     # bit 0 has another name
            if isinstance(p[0], Sym) and len(p) == 5 and p[1] == '@0.' and p[3] == '.' and isinstance(p[2], SN) and isinstance(p[4], SN):
                k = p[0].t
                return z3.If(And_(p[2].t == LO(k), p[4].t == HI(k)), BIT(k, 0), BIT(k, -1))
        raise Unsupported(f'name of a bit {b!r}')


def number(I, x, base=10):
    """int(text, 2) of a sequence of digits."""
    if base != 2:
        raise Unsupported('int in another base')
    ps = x.pieces if isinstance(x, SStr) else None
    if not ps or len(ps) != 1 or not isinstance(ps[0], Join) or ps[0].sep != '' or len(ps[0].parts) != 1:
        raise Unsupported('digits')
    p = I.inst(ps[0].parts[0])
    v = p.val
    if isinstance(v, SStr) and len(v.pieces) == 1:
        v = v.pieces[0]
    if p.ordered is None or not isinstance(v, SN):
        raise Unsupported('digits')
    n, i = p.ordered, p.vars[0]
    if not I.branch(n > 0):
        raise PyExc(ValueError, ('no digits',))
    c, k, j = I.const('number', Z), I.const('k', V), I.const('j', Z)
    # the text has the digits of k, the last digit first
    digit = lambda j: z3.substitute(v.t, (i, j))
    I.assume(ForAll_([k], Implies_(And_(VAR(k), n == BITLEN(HI(k)), ForAll_([j], Implies_(And_(0 <= j, j < n), digit(j) == BIT(k, n - 1 - j)))), c == NUM(k))))
    return SN(c)


def mk_bits(ctx):
    I = ctx.new()
    I.attr_hooks.append(bit_length)
    I.overrides[f'{S}:int'] = Builtin('int', number)
    k, n = z3.Const('k', V), z3.Int('n')

    def setup(I):
        I.assume(ForAll_([k], Implies_(And_(VAR(k), Not_(BOOLV(k))), And_(0 <= LO(k), LO(k) <= HI(k)))))
        I.assume(ForAll_([n], Implies_(n >= 0, And_(BITLEN(n) >= 0, (BITLEN(n) == 0) == (n == 0)))))
        # the number without bits
        I.assume(ForAll_([k], Implies_(BITLEN(HI(k)) == 0, NUM(k) == 0)))
        return lambda: I.call(ctx.resolve(f'{S}:_bitfields_to_ints'), [Bits(), PDict([fam(I, VAR, Dom)])], {})

    def post(I, out):
        nm = '_bitfields_to_ints'
        if ctx.no_raise(I, out, nm):
            same_dict(I, out, VAR, lambda k: I.enc_.enc(SN(z3.If(BOOLV(k), FLAG(k), NUM(k)))), nm)
    ctx.verify('_bitfields_to_ints', setup, post, f'{S}:_bitfields_to_ints')


# ------------------------------------------------------------------ graphs
class Gr:
    """Recorder of a networkx.DiGraph."""

    def __init__(self, I):
        self.N, self.E = PList(), PList()       # (node, attributes), (node, node)
        o = self.o = Obj(None, {})

        def add_node(I, u, **attrs):
            I.add_parts(self.N, [single((u, PDict([single(kv) for kv in attrs.items()])))])

        def nodes(I, data=False):
            I.note_read(self.N)
            return PList([Part(p.vars, p.cond, p.val if data else p.val[0]) for p in self.N.parts])

        def edges(I, data=False):
            I.note_read(self.E)
            return PList([Part(p.vars, p.cond, p.val) for p in self.E.parts])
        it = lambda f: A('view', **{'%call': f, '%iter': lambda I: f(I).parts})
        self.v = Graph(self, o, add_node=Builtin('add_node', add_node), add_edge=Builtin('add_edge', lambda I, u, v: I.add_parts(self.E, [single((u, v))])),
                       nodes=it(nodes), edges=it(edges))


class Graph(A):
    def __init__(self, g, o, **at):
        super().__init__('graph', **at)
        self.g, self.o = g, o

    def setattr_(self, I, name, v):
        if name not in ('env_vars', 'sys_vars', 'initial_nodes'):
            raise Unsupported(f'graph.{name} is set')
        I.set_field(self.o, name, v)

    def getattr_(self, I, name):
        if name in self.o.f:
            return self.o.f[name]
        return super().getattr_(I, name)


def digraphs(I, st):
    def new(I):
        g = Gr(I)
        st['graphs'].append(g)
        return g.v
    I.overrides['networkx:DiGraph'] = Builtin('DiGraph', new)


LISTED, NODE, SUCC = F('listed', V, B), F('number_of_text', V, V), F('successor', V, V, B)
NV = z3.Int('number_of_reported_names')
NAME, VALUE = F('reported_name', Z, V), F('reported_value', V, Z, V)
DEC = F('decoded', V, V)
HASN = F('graph_has', V, B)


def eachnode(I, g, want, what):
    """The nodes are {NODE(s): s listed}, each with exactly the attributes that `what` accepts."""
    x, s = I.const('x', V), I.const('s', V)
    nodes = PList([Part(p.vars, p.cond, p.val[0]) for p in g.N.parts])
    I.prove(mem(I, Sym(x), nodes) == want(x), 'exactly the listed nodes')
    for p in map(I.inst, g.N.parts):
        what(p)


def mk_slugs(ctx):
    for real in (True, False):
        I = ctx.new()
        I.feas_ground = True
        st = {}
        u, v, w = z3.Const('u', V), z3.Const('v', V), z3.Const('w', V)

        def setup(I):
            st.clear()
            st['graphs'] = []
            st['calls'] = []
            digraphs(I, st)
            I.assume(NV >= 0)
            I.assume(ForAll_([u, v], Implies_(And_(LISTED(u), LISTED(v), NODE(u) == NODE(v)), u == v)))
            # successors are nodes of the answer
            I.assume(ForAll_([u, v], Implies_(And_(LISTED(u), SUCC(u, v)), Exists_([w], And_(LISTED(w), NODE(w) == v)))))
            i = z3.Int('i')

            class Entry(Val):
                def __init__(self, s):
                    self.s = s

                def subst(self, pairs):
                    return Entry(z3.substitute(self.s, *pairs))

                def getitem_(self, I, k):
                    if k == 'state':
                        return PList([Part((i,), And_(i >= 0, i < NV), Sym(VALUE(self.s, i)), NV)])
                    if k == 'trans':
                        return PList([Part((v,), SUCC(self.s, v), Sym(v))])
                    raise Unsupported(f'answer of slugs: {k}')
            nodes = PDict([Part((u,), LISTED(u), (Sym(u), Entry(u)))])
            names = PList([Part((i,), And_(i >= 0, i < NV), Sym(NAME(i)), NV)])
            doc = A('answer', **{'%item': lambda I, k: names if k == 'variables' else nodes if k == 'nodes' else _bad(k)})
            OUT = st['out'] = A('text of the answer')

            def loads(I, x):
                I.prove(z3.BoolVal(x is OUT), 'the answer of the solver is read')
                return doc
            I.overrides['json:loads'] = Builtin('loads', loads)
            I.overrides[f'{S}:int'] = Builtin('int', lambda I, x: Sym(NODE(I.enc_.enc(x))))
            fin = A('file', name='FILE', write=Builtin('write', lambda I, b: st['calls'].append(('write', b))))
            I.overrides['tempfile:NamedTemporaryFile'] = Builtin('NamedTemporaryFile', lambda I, **kw: fin)
            I.overrides['os:unlink'] = Builtin('unlink', lambda I, n: st['calls'].append(('unlink', n)))
            I.overrides[f'{S}:bytes'] = Builtin('bytes', lambda I, s, enc=None: s)
            I.overrides['tulip.spec:translate'] = Builtin('translate', lambda I, s, lang: st['text'] if s is st['spec'] and lang == 'slugs' else _bad(lang))
            I.overrides[f'{S}:map'] = Builtin('map', lambda I, f, c: _Text())
            env, sys_ = fam(I, F('env_var', V, B), Dom), fam(I, F('sys_var', V, B), Dom)
            st['text'] = A('text of the specification')
            st['spec'] = A('specification', moore=False, plus_one=False, env_vars=PDict([env]), sys_vars=PDict([sys_]))
            st['truth'] = {}
            return lambda: I.call(ctx.resolve(f'{S}:synthesize'), [st['spec']], {})

        def call(I, f, args, kw):
            b = I.bind(f, args, kw)
            I.prove(z3.BoolVal(b['filename'] == 'FILE' and ('write', st['text']) in st['calls']), 'the translated specification is given to slugs')
            I.prove(z3.BoolVal(b['synth'] is True and b['symbolic'] is False), 'a strategy is asked for')
            return (real, st['out'])
        I.contracts[f'{S}:_call_slugs'] = call

        def decode(I, f, args, kw):
            b = I.bind(f, args, kw)
            d, vrs = b['bit_state'], b['vrs']
            k = I.const('k', V)
            has = lambda d: Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == k)) for p in map(I.inst, d.parts)])
            I.prove(has(vrs) == Or_(F('env_var', V, B)(k), F('sys_var', V, B)(k)), 'all variables are decoded')
            for p in map(I.inst, vrs.parts):
                I.prove(z3.BoolVal(isinstance(p.val[1], Dom)) if not isinstance(p.val[1], Dom) else Implies_(p.cond, p.val[1].k == I.enc_.enc(p.val[0])), 'the domain of each variable')
            return Decoded(d)
        I.contracts[f'{S}:_bitfields_to_ints'] = decode

        def post(I, out):
            nm = f'synthesize(realizable: {real})'
            if not ctx.no_raise(I, out, nm):
                return
            if not real:
                I.prove(z3.BoolVal(out is None), f'{nm}: no strategy')
                return
            gs = [g for g in st['graphs'] if g.v is out]
            I.prove(z3.BoolVal(len(gs) == 1), f'{nm}: a graph')
            if not gs:
                return
            g, = gs
            x, y = I.const('x', V), I.const('y', V)

            def what(p):
                n, d = p.val
                ok = isinstance(d, PDict) and len(d.parts) == 1 and d.parts[0].val[0] == 'state' and isinstance(d.parts[0].val[1], Decoded)
                I.prove(z3.BoolVal(ok), f'{nm}: a node has the decoded values')
                if not ok:
                    return
                b = d.parts[0].val[1].d
                q, = map(I.inst, b.parts)
                j, k = I.const('j', Z), I.const('k', V)
                # the reported value of each name, for the node of this text
                key, val = q.val
                I.prove(ForAll_(list(p.vars) + [x], Implies_(And_(p.cond, LISTED(x), NODE(x) == I.enc_.enc(n)), And_(
                    ForAll_(list(q.vars), Implies_(q.cond, Exists_([j], And_(0 <= j, j < NV, I.enc_.enc(key) == NAME(j), I.enc_.enc(val) == VALUE(x, j))))),
                    ForAll_([j], Implies_(And_(0 <= j, j < NV), Exists_(list(q.vars), And_(q.cond, I.enc_.enc(key) == NAME(j), I.enc_.enc(val) == VALUE(x, j)))))))),
                    f'{nm}: each name has the value at its position')
            eachnode(I, g, lambda x: Exists_([u], And_(LISTED(u), NODE(u) == x)), what)
            I.prove(mem(I, (Sym(x), Sym(y)), g.E) == Exists_([u], And_(LISTED(u), NODE(u) == x, SUCC(u, y))), f'{nm}: exactly the listed edges')
        ctx.verify(f'slugs.synthesize({real})', setup, post, f'{S}:synthesize')


class _Text(Val):
    def subst(self, pairs):
        return self

    def iter_(self, I):
        return [single('text')]


class Decoded(Val):
    def __init__(self, d):
        self.d = d

    def subst(self, pairs):
        return Decoded(subst(self.d, pairs))


def _bad(k):
    raise Unsupported(f'item {k}')


# ------------------------------------------------------------------ JSON
NE, NS = z3.Int('environment_variables'), z3.Int('system_variables')
SYM, DOMJ = F('symbol', Z, V), F('declared_domain', Z, V)
MODE, RGRAD, INITIAL = F('mode', V, V), F('rgrad', V, V), F('is_initial', V, B)
SVAL = F('state_value', V, Z, V)


class Decl(Val):
    """{name: domain} at position i."""

    def __init__(self, i):
        self.i = i

    def subst(self, pairs):
        return Decl(z3.substitute(self.i, *pairs))

    def iter_(self, I):
        return [single(Sym(SYM(self.i)))]

    def getattr_(self, I, name):
        k, v = Sym(SYM(self.i)), Sym(DOMJ(self.i))
        r = dict(keys=[single(k)], values=[single(v)], items=[single((k, v))]).get(name)
        if r is None:
            raise Unsupported(f'declaration: {name}')
        return Builtin(name, lambda I: PList(r))

    def getitem_(self, I, k):
        I.prove(I.enc_.enc(k) == SYM(self.i), 'declaration of another variable')
        return Sym(DOMJ(self.i))

    def len_(self, I):
        return 1


class Table(Val):
    """Declarations at positions lo <= i < hi."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def subst(self, pairs):
        return Table(z3.substitute(self.lo, *pairs), z3.substitute(self.hi, *pairs))

    def iter_(self, I):
        i = I.const('i', Z)
        n = z3.simplify(self.hi - self.lo)
        return [Part((i,), And_(i >= 0, i < n), Decl(z3.simplify(self.lo + i)), n)]

    def len_(self, I):
        return SN(z3.simplify(self.hi - self.lo))

    def getitem_(self, I, i):
        t = lib.to_num(I, i)
        if t is None:
            raise Unsupported('position of a declaration')
        I.prove(And_(0 <= t, t < self.hi - self.lo), 'a position of the table')
        return Decl(z3.simplify(self.lo + t))

    def binop_(self, I, op, a, b):
        if isinstance(a, Table) and isinstance(b, Table) and type(op).__name__ in ('Add', 'str') and a.hi.eq(b.lo):
            return Table(a.lo, b.hi)
        raise Unsupported('declarations in another order')


def sym_table(I, d, lo, hi, name):
    """d is {symbol(i): domain(i) | lo <= i < hi}."""
    if not isinstance(d, PDict):
        I.prove(FALSE, f'{name}: a dictionary')
        return
    i, k = I.const('i', Z), I.const('k', V)
    some = lambda k, v: Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == k, *([I.enc_.enc(p.val[1]) == v] if v is not None else []))) for p in map(I.inst, d.parts)])
    I.prove(some(k, None) == Exists_([i], And_(lo <= i, i < hi, SYM(i) == k)), f'{name}: exactly the declared variables')
    I.prove(Implies_(And_(lo <= i, i < hi), some(SYM(i), DOMJ(i))), f'{name}: with their domains')


def mk_json(ctx):
    for text in (True, False):
        I = ctx.new()
        I.feas_ground = True
        st = {}
        u, v, j = z3.Const('u', V), z3.Const('v', V), z3.Int('j')

        class Entry(Val):
            def __init__(self, s):
                self.s = s

            def subst(self, pairs):
                return Entry(z3.substitute(self.s, *pairs))

            def getitem_(self, I, k):
                if k == 'state':
                    return StateList(self.s)
                if k == 'trans':
                    return PList([Part((v,), SUCC(self.s, v), Sym(v))])
                if k == 'initial':
                    return SB(INITIAL(self.s))
                if k in ('mode', 'rgrad'):
                    return Sym(dict(mode=MODE, rgrad=RGRAD)[k](self.s))
                raise Unsupported(f'answer of gr1c: {k}')

            def iter_(self, I):
                return [single(k) for k in ('state', 'mode', 'rgrad', 'initial', 'trans')]

            def getattr_(self, I, name):
                if name == 'items':
                    return Builtin('items', lambda I: PList([single((p.val, self.getitem_(I, p.val))) for p in self.iter_(I)]))
                if name == 'get':
                    return Builtin('get', lambda I, k, d=None: self.getitem_(I, k))
                raise Unsupported(f'node of the answer: {name}')

        class StateList(Val):
            def __init__(self, s):
                self.s = s

            def subst(self, pairs):
                return StateList(z3.substitute(self.s, *pairs))

            def getitem_(self, I, i):
                t = lib.to_num(I, i)
                I.prove(And_(0 <= t, t < NE + NS), 'a position of the state')
                return Sym(SVAL(self.s, t))

            def iter_(self, I):
                return [Part((j,), And_(j >= 0, j < NE + NS), Sym(SVAL(self.s, j)), NE + NS)]

            def len_(self, I):
                return SN(NE + NS)

        def setup(I):
            st.clear()
            st['graphs'] = []
            digraphs(I, st)
            I.assume(And_(NE >= 0, NS >= 0))
            a, b = z3.Int('a'), z3.Int('b')
            I.assume(ForAll_([a, b], Implies_(And_(0 <= a, a < NE + NS, 0 <= b, b < NE + NS, SYM(a) == SYM(b)), a == b)))
            I.assume(ForAll_([u, v], Implies_(And_(LISTED(u), SUCC(u, v)), LISTED(v))))
            nodes = PDict([Part((u,), LISTED(u), (Sym(u), Entry(u)))])
            env, sys_ = Table(z3.IntVal(0), NE), Table(NE, NE + NS)
            doc = A('answer', **{'%item': lambda I, k: dict(version=st['version'], nodes=nodes, ENV=env, SYS=sys_).get(k) or _bad(k)})
            st['version'] = SN(z3.Int('version'))
            x = st['x'] = A('text' if text else 'file')

            def loads(I, y):
                if y is not x or not text:
                    raise PyExc(TypeError, ('the JSON object must be str',))
                return doc

            def load(I, y):
                if y is not x or text:
                    raise PyExc(AttributeError, ('read',))
                return doc
            I.overrides['json:loads'] = Builtin('loads', loads)
            I.overrides['json:load'] = Builtin('load', load)
            return lambda: I.call(ctx.resolve(f'{G}:load_aut_json'), [x], {})

        def post(I, out):
            nm = f'load_aut_json(text: {text})'
            v1 = z3.Int('version') == 1
            if isinstance(out, Raised):
                I.prove(And_(z3.BoolVal(out.name == 'ValueError'), Not_(v1)), f'{nm}: raises only for another version of the format ({out.e})')
                return
            I.prove(v1, f'{nm}: another version is rejected')
            gs = [g for g in st['graphs'] if g.v is out]
            I.prove(z3.BoolVal(len(gs) == 1), f'{nm}: a graph')
            if not gs:
                return
            g, = gs
            x, y = I.const('x', V), I.const('y', V)

            def what(p):
                n, d = p.val
                t = I.enc_.enc(n)
                at = {q.val[0]: q.val[1] for q in d.parts if not q.vars and z3.is_true(q.cond)}
                ok = set(at) == {'state', 'mode', 'rgrad', 'initial'} and len(d.parts) == 4 and isinstance(at['state'], PDict)
                I.prove(z3.BoolVal(ok), f'{nm}: attributes of a node')
                if not ok:
                    return
                s = at['state']
                i, k = I.const('i', Z), I.const('k', V)
                some = lambda k, v: Or_(*[Exists_(list(q.vars), And_(q.cond, I.enc_.enc(q.val[0]) == k, *([I.enc_.enc(q.val[1]) == v] if v is not None else []))) for q in map(I.inst, s.parts)])
                I.prove(ForAll_(list(p.vars) + [k], Implies_(p.cond, some(k, None) == Exists_([i], And_(0 <= i, i < NE + NS, SYM(i) == k)))), f'{nm}: exactly the variables')
                I.prove(ForAll_(list(p.vars) + [i], Implies_(And_(p.cond, 0 <= i, i < NE + NS), some(SYM(i), SVAL(t, i)))), f'{nm}: each variable has the value at its position')
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, And_(I.enc_.enc(at['mode']) == MODE(t), I.enc_.enc(at['rgrad']) == RGRAD(t), z3b(I.truth_term(at['initial'])) == INITIAL(t)))), f'{nm}: other attributes')
            eachnode(I, g, lambda x: LISTED(x), what)
            I.prove(mem(I, (Sym(x), Sym(y)), g.E) == And_(LISTED(x), SUCC(x, y)), f'{nm}: exactly the listed edges')
            init = g.o.f.get('initial_nodes')
            I.prove(mem(I, Sym(x), init) == And_(LISTED(x), INITIAL(x)) if isinstance(init, PSet) else FALSE, f'{nm}: the initial nodes')
            sym_table(I, g.o.f.get('env_vars'), z3.IntVal(0), NE, f'{nm}: variables of the environment')
            sym_table(I, g.o.f.get('sys_vars'), NE, NE + NS, f'{nm}: variables of the system')
        ctx.verify(f'load_aut_json({text})', setup, post, f'{G}:load_aut_json')


# ------------------------------------------------------------------ XML
END = F('length_of_interval_text', V, Z)


class DomText(Val):
    """'boolean', or '[first, last]'."""

    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return DomText(z3.substitute(self.k, *pairs))

    def eq_(self, I, a, b):
        o = b if a is self else a
        if isinstance(o, str):
            return BOOLV(self.k) if o == 'boolean' else FALSE if not o.startswith('[') else _bad(o)
        raise Unsupported('comparison of a domain')

    def interval(self, I):
        if not I.branch(Not_(BOOLV(self.k))):
            raise Unsupported('text of a Boolean domain')

    def getitem_(self, I, i):
        if isinstance(i, int) and i == 0:
            return '[' if I.branch(Not_(BOOLV(self.k))) else 'b'
        if isinstance(i, slice) and i.step is None:
            self.interval(I)
            I.prove(i.start == 1, 'the text after the first bracket')
            if i.stop != -1:
                t = lib.to_num(I, i.stop) if i.stop is not None else None
                I.prove(t == END(self.k) if t is not None else FALSE, 'the text up to the last bracket')
            return Inner(self.k)
        raise Unsupported('part of a domain')

    def getattr_(self, I, name):
        if name == 'find' or name == 'index':
            def find(I, c):
                self.interval(I)
                if c == ']':
                    return SN(END(self.k))
                if c == '[':
                    return 0
                raise Unsupported('position in a domain')
            return Builtin(name, find)
        if name == 'startswith':
            return Builtin(name, lambda I, c: SB(Not_(BOOLV(self.k))) if c == '[' else _bad(c))
        if name == 'endswith':
            return Builtin(name, lambda I, c: SB(Not_(BOOLV(self.k))) if c == ']' else _bad(c))
        if name == 'strip':
            def strip(I, c=None):
                self.interval(I)
                return Inner(self.k) if c == '[]' else _bad(c)
            return Builtin(name, strip)
        raise Unsupported(f'domain: {name}')


class Inner(Val):
    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Inner(z3.substitute(self.k, *pairs))

    def getattr_(self, I, name):
        if name == 'split':
            return Builtin(name, lambda I, c: PList([single(NumText(self.k, 0)), single(NumText(self.k, 1))]) if c == ',' else _bad(c))
        raise Unsupported(f'domain: {name}')


class NumText(Val):
    """A number with blanks around it."""

    def __init__(self, k, i):
        self.k, self.i = k, i

    def subst(self, pairs):
        return NumText(z3.substitute(self.k, *pairs), self.i)

    def getattr_(self, I, name):
        if name == 'strip':
            return Builtin(name, lambda I: self)
        raise Unsupported(f'number: {name}')


def xint(I, x):
    if isinstance(x, NumText):
        return SN([LO, HI][x.i](x.k))
    raise Unsupported('int of another value')


DT = F('domain_value', V, V)


def mk_vars(ctx):
    I = ctx.new()
    I.ordered_ite = True
    I.overrides[f'{G}:int'] = Builtin('int', xint)
    n, NM = z3.Int('number_of_variables'), F('name', Z, V)

    def setup(I):
        I.assume(n >= 0)
        i, j = z3.Int('i'), z3.Int('j')
        I.assume(ForAll_([i, j], Implies_(And_(0 <= i, i < n, 0 <= j, j < n, NM(i) == NM(j)), i == j)))
        k = z3.Const('k', V)
        I.assume(ForAll_([k], END(k) >= 1))
        vs = PList([Part((i,), And_(i >= 0, i < n), Sym(NM(i)), n)])
        has = lambda k: Exists_([i], And_(0 <= i, i < n, NM(i) == k))
        return lambda: I.call(ctx.resolve(f'{G}:_parse_vars'), [vs, PDict([fam(I, has, DomText)])], {})

    def post(I, out):
        nm = '_parse_vars'
        if not ctx.no_raise(I, out, nm):
            return
        if not isinstance(out, PDict):
            I.prove(FALSE, f'{nm}: a dictionary')
            return
        k, i = I.const('k', V), I.const('i', Z)
        parts = [I.inst(p) for p in out.parts]
        I.prove(Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == k)) for p in parts]) == Exists_([i], And_(0 <= i, i < n, NM(i) == k)), f'{nm}: exactly the variables')
        def cases(p, d):
            if isinstance(d, Ite):
                return cases(Part(p.vars, And_(p.cond, d.c), p.val), d.a) + cases(Part(p.vars, And_(p.cond, Not_(d.c)), p.val), d.b)
            return [(p, d)]
        for p, d in [x for p in parts for x in cases(p, p.val[1])]:
            t = I.enc_.enc(p.val[0])
            if isinstance(d, str):
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, BOOLV(t))) if d == 'boolean' else FALSE, f'{nm}: Boolean variables')
            elif isinstance(d, tuple) and len(d) == 2:
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, And_(Not_(BOOLV(t)), lib.to_num(I, d[0]) == LO(t), lib.to_num(I, d[1]) == HI(t)))), f'{nm}: integer variables')
            else:
                dom = I.enc_.enc(d)
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, dom == z3.If(BOOLV(t), I.enc_.enc('boolean'), I.enc_.enc((SN(LO(t)), SN(HI(t))))))), f'{nm}: domains')
    ctx.verify('_parse_vars', setup, post, f'{G}:_parse_vars')


# ------------------------------------------------------------------ gr1py
def mk_gr1py(ctx):
    for real in (True, False):
        I = ctx.new()
        st = {}

        def setup(I):
            spec, tsys, tab, strat, text = A('spec'), A('tsys', symtab=A('symtab')), A('expressions'), A('strategy'), A('text')
            st['graph'] = A('graph')

            def check(c, what):
                I.prove(z3.BoolVal(c), what)
            def select(I, f, args, kw):
                check(I.bind(f, args, kw)['spec'] is spec, 'options of the specification')
                return 'OPTION'
            def to(I, f, args, kw):
                check(I.bind(f, args, kw)['spec'] is spec, 'the specification is given to gr1py')
                return (tsys, tab)
            def load(I, f, args, kw):
                check(I.bind(f, args, kw)['x'] is text, 'the answer is loaded')
                return st['graph']
            I.contracts[f'{G}:select_options'], I.contracts[f'{P}:_spec_to_gr1py'], I.contracts[f'{G}:load_aut_json'] = select, to, load

            def synth(I, a, b, init_flags=None):
                check(a is tsys and b is tab and init_flags == 'OPTION', 'arguments of the solver')
                return strat if real else None

            def dumps(I, a, b):
                check(a is tsys.at['symtab'] and b is strat, 'the strategy is written with its variables')
                return text
            I.overrides[f'{P}:gr1py'] = A('gr1py', solve=A('solve', synthesize=Builtin('synthesize', synth)), output=A('output', dumps_json=Builtin('dumps_json', dumps)))
            return lambda: I.call(ctx.resolve(f'{P}:synthesize'), [spec], {})

        def post(I, out):
            if ctx.no_raise(I, out, 'gr1py.synthesize'):
                I.prove(z3.BoolVal(out is (st['graph'] if real else None)), f'gr1py.synthesize: the loaded strategy, none if unrealizable ({real})')
        ctx.verify(f'gr1py.synthesize({real})', setup, post, f'{P}:synthesize')


GROUPS = [Group('bits', mk_bits), Group('slugs', mk_slugs), Group('json', mk_json), Group('variables', mk_vars), Group('gr1py', mk_gr1py)]
ASSUMED = ['json.loads and json.load (the parsed document)', 'int(text, 2): the number depends only on the digits', 'networkx.DiGraph: adding nodes and edges',
           'slugs names the bits of x in first..last: x@0.first.last, x@1, ...', 'names of variables in an answer are distinct', 'gr1py.output.dumps_json']
BOUNDED = ['load_aut_xml, _untaglist, _untagdict, load_mealy: xml.etree documents (bounded executable contract)']
