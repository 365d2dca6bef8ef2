"""Contracts for tulip/transys/products.py.

A transition system: states, transitions k with source, target and attributes,
labels; a Buechi automaton: transitions e with source, target and a letter or no
label.  A product graph is a set of pairs and a set of transitions between
pairs (graph contract of C06, queries by contract of C07).  Reach is the least
relation containing the initial pairs and closed under one-step successors.
"""
import ast
import z3
from vf.contract import *
from vf.interp import ExtClass
from vf import graphs

MOD = 'tulip.transys.products'
B = z3.BoolSort()
F = z3.Function
TE, TSRC, TDST, ATTR = F('ts_trans', V, B), F('ts_src', V, V), F('ts_dst', V, V), F('ts_attr', V, V)
TS_, TINIT, LAB = F('ts_state', V, B), F('ts_init', V, B), F('ts_label', V, V)
POST, POSTW = F('ts_post', V, V, B), F('ts_post_witness', V, V, V)
BQ, BINIT, ACC = F('ba_state', V, B), F('ba_init', V, B), F('ba_accepting', V, B)
BE, BSRC, BDST, BLAB, UNL = F('ba_trans', V, B), F('ba_src', V, V), F('ba_dst', V, V), F('ba_letter', V, V), F('ba_unlabeled', V, B)
TRUEL = z3.Const('letter_True', V)
EN, ENW = F('enabled', V, V, V, B), F('enabled_witness', V, V, V, V)
LET = F('letter_attr', V, V)
NOATTR = z3.Const('no_attr', V)


def ene(q, l, e):
    return And_(BE(e), BSRC(e) == q, Or_(UNL(e), BLAB(e) == l, BLAB(e) == TRUEL))


def axioms():
    e, l, q, r, k, s, t = z3.Consts('ae al aq ar ak as at', V)
    Q = z3.ForAll
    return [
        Q([e, l], z3.Implies(ene(BSRC(e), l, e), EN(BSRC(e), l, BDST(e)))),
        Q([q, l, r], z3.Implies(EN(q, l, r), z3.And(ene(q, l, ENW(q, l, r)), BDST(ENW(q, l, r)) == r)), patterns=[EN(q, l, r)]),
        Q([k], z3.Implies(TE(k), z3.And(TS_(TSRC(k)), TS_(TDST(k)), POST(TSRC(k), TDST(k)))), patterns=[TE(k)]),
        Q([s, t], z3.Implies(POST(s, t), z3.And(TE(POSTW(s, t)), TSRC(POSTW(s, t)) == s, TDST(POSTW(s, t)) == t)), patterns=[POST(s, t)]),
        Q([s], z3.Implies(TINIT(s), TS_(s))),
    ]


class A(Val):
    """A value with attributes given by functions."""

    def __init__(self, name_, **attrs):
        self.name, self.attrs = name_, attrs

    def subst(self, pairs):
        return self

    def __repr__(self):
        return self.name

    def getattr_(self, I, name):
        v = self.attrs.get(name)
        if v is None:
            raise PyExc(AttributeError, (name,)) if self.attrs.get('%closed') else Unsupported(f'{self.name}.{name}')
        return v() if callable(v) and not isinstance(v, Val) else v

    def contains_(self, I, v):
        f = self.attrs.get('%in')
        if f is None:
            raise Unsupported(f'in {self.name}')
        return f(I, v)

    def getitem_(self, I, k):
        f = self.attrs.get('%item')
        if f is None:
            raise Unsupported(f'{self.name}[]')
        return f(I, k)

    def iter_(self, I):
        f = self.attrs.get('%iter')
        if f is None:
            raise Unsupported(f'iteration over {self.name}')
        return f(I)

    def call_(self, I, args, kw):
        f = self.attrs.get('%call')
        if f is None:
            raise Unsupported(f'{self.name}()')
        return f(I, *args, **kw)

    def isinstance_(self, I, name):
        return name in self.attrs.get('%types', ())

    def truth_(self, I):
        f = self.attrs.get('%truth')
        if f is None:
            raise Unsupported(f'truth of {self.name}')
        return f(I)


def pred_set(I, f):
    x = I.const('x', V)
    return PSet([Part((x,), f(x), Sym(x))])


def one(I, lst, what):
    """The term of the only element of a list of query arguments."""
    if isinstance(lst, (PList, PSet)) and len(lst.parts) == 1 and not lst.parts[0].vars and z3.is_true(lst.parts[0].cond):
        return I.enc_.enc(lst.parts[0].val)
    if isinstance(lst, tuple) and len(lst) == 1:
        return I.enc_.enc(lst[0])
    raise Unsupported(f'{what}: query of several states')


def system(I):
    def label(I, s):
        t = I.enc_.enc(s)
        I.prove(TS_(t), 'the label of a state of the system is read')

        def item(I, k):
            if k != 'ap':
                raise PyExc(KeyError, (k,))
            return Sym(LAB(t), 'label')
        return A('attributes', **{'%item': item})

    def post(I, ss=None):
        s = one(I, ss, 'post')
        x = I.const('t', V)
        return PSet([Part((x,), POST(s, x), Sym(x))])

    def find(I, from_states=None, to_states=None, with_attr_dict=None, **kw):
        if kw or with_attr_dict is not None or from_states is None or to_states is None:
            raise Unsupported('other query of the transitions of the system')
        s, t = one(I, from_states, 'find'), one(I, to_states, 'find')
        k = I.const('k', V)
        return PList([Part((k,), And_(TE(k), TSRC(k) == s, TDST(k) == t), (Sym(s), Sym(t), Sym(ATTR(k), 'attrs')))])

    def sfind(I, states=None, with_attr_dict=None, **kw):
        if kw or with_attr_dict is not None:
            raise Unsupported('query of the states of the system')
        if not isinstance(states, (PList, PSet, tuple)):
            I.prove(FALSE, 'the states of a query are given as a collection of states')
            raise Infeasible()
        t = one(I, states, 'find')
        I.prove(TS_(t), 'the queried state is a state of the system')
        return PList([single((Sym(t), PDict([single(('ap', Sym(LAB(t), 'label')))])))])
    states = A('states', initial=lambda: pred_set(I, TINIT), post=Builtin('post', post), find=Builtin('find', sfind),
               **{'%item': label})
    return A('system', states=states, nodes=states, name=I.sym('name'), atomic_propositions=A('propositions'),
             transitions=A('transitions', find=Builtin('find', find)), actions=PDict(), **{'%types': ('FiniteTransitionSystem',)})


def letter(I, v):
    if isinstance(v, Sym) and v.kind == 'label':
        return v.t
    if isinstance(v, (PSet, PList)) and len(v.parts) == 1 and v.parts[0].val is True and isinstance(v, PSet):
        return TRUEL
    raise Unsupported('letter of a query')


def automaton(I):
    def find(I, from_states=None, to_states=None, with_attr_dict=None, **kw):
        if to_states is not None or from_states is None:
            raise Unsupported('other query of the transitions of the automaton')
        q = one(I, from_states, 'find')
        e = I.const('e', V)
        d = dict(kw)
        if with_attr_dict is not None:
            for p in with_attr_dict.parts:
                d.setdefault(p.val[0], p.val[1])
        if set(d) != {'letter'}:
            raise Unsupported('other query of the transitions of the automaton')
        c = Or_(UNL(e), BLAB(e) == letter(I, d['letter']))
        return PList([Part((e,), And_(BE(e), BSRC(e) == q, c), (Sym(q), Sym(BDST(e)), Sym(F('ba_attr', V, V)(e), 'attrs')))])
    states = A('states', initial=lambda: pred_set(I, BINIT), **{'%call': lambda I: pred_set(I, BQ)})
    return A('automaton', states=states, accepting=A('accepting', **{'%in': lambda I, q: ACC(I.enc_.enc(q))}),
             name=I.sym('name'), alphabet=A('alphabet', math_set=A('propositions')), atomic_proposition_based=True,
             transitions=A('transitions', find=Builtin('find', find)), **{'%types': ('BuchiAutomaton',)})


class Product:
    """Ghost state of a product graph."""

    def __init__(self, I, kind, arbitrary=False):
        self.I, self.kind = I, kind
        self.nodes, self.edges, self.init, self.acc = PSet(), PSet(), PSet(), PSet()
        self.strict = False
        if arbitrary:
            N, E, C = I.func('N', V, V, B), I.func('E', V, V, V, V, V, B), I.func('C', V, V, B)
            self.havoc(N, E, C)
        noop = Builtin('add', lambda I, *a, **k: None)
        sets = A('propositions', add_from=noop, update=noop, add=noop)
        self.fixed = dict(states=A('states', add=Builtin('add', self.add), add_from=Builtin('add_from', self.add_from),
                                   initial=self.init, **{'%call': lambda I: PSet(self.nodes.parts), '%item': self.item,
                                                         '%iter': lambda I: self.nodes.parts}),
                          transitions=A('transitions', add=Builtin('add', self.trans), **{'%call': self.pairs}),
                          accepting=self.acc, atomic_propositions=sets, sys_actions=sets, env_actions=sets)
        if kind == 'ts':
            self.fixed.update(actions=PDict(), add_label_types=noop)
        else:
            self.fixed.update(alphabet=A('alphabet', math_set=sets))

    def havoc(self, N, E, C=None):
        I = self.I
        s, q, t, r, a = (I.const(n, V) for n in 'sqtra')
        I.set_parts(self.nodes, [Part((s, q), N(s, q), (Sym(s), Sym(q)))])
        I.set_parts(self.edges, [Part((s, q, t, r, a), E(s, q, t, r, a), tuple(Sym(x) for x in (s, q, t, r, a)))])
        if C is not None:
            I.set_parts(self.acc, [Part((s, q), C(s, q), (Sym(s), Sym(q)))])

    def obj(self):
        return GraphVal(self)

    def pair(self, v):
        if not (isinstance(v, tuple) and len(v) == 2):
            raise Unsupported('state of the product that is not a pair')
        return tuple(self.I.enc_.enc(x) for x in v)

    def add(self, I, v, *a, **k):
        self.pair(v)
        I.add_parts(self.nodes, [single(v)])

    def add_from(self, I, vs):
        I.add_parts(self.nodes, I.iter_parts(vs))

    def item(self, I, v):
        s, q = self.pair(v)
        I.prove(mem(I, self.nodes, s, q), 'attributes of a state of the product')
        me = self

        class Attrs(Val):
            def subst(self, pairs):
                return self

            def setitem_(self, I, k, w):
                ok = k == 'ap' and isinstance(w, PSet)
                I.prove(z3.BoolVal(ok), 'only the label of a product state is set')
                x = I.const('x', V)
                if ok:
                    I.prove(ForAll_([x], (tt(I, SB(I.contains(w, Sym(x)))) if False else z3b(I.contains(w, Sym(x)))) == (x == q)),
                            'the label of a product state is its automaton state')
        return Attrs()

    def trans(self, I, u, v, attr_dict=None, **kw):
        (s, q), (t, r) = self.pair(u), self.pair(v)
        if attr_dict is None and not kw:
            a = NOATTR
        elif attr_dict is None and set(kw) == {'letter'} and isinstance(kw['letter'], Sym) and kw['letter'].kind == 'label':
            a = LET(kw['letter'].t)
        elif not kw and isinstance(attr_dict, Sym) and attr_dict.kind == 'attrs':
            a = attr_dict.t
        else:
            raise Unsupported('attributes of a product transition')
        I.add_parts(self.edges, [single(tuple(Sym(x) for x in (s, q, t, r, a)))])

    def pairs(self, I, **kw):
        if kw:
            raise Unsupported('query of product transitions')
        return PList([Part(p.vars, p.cond, ((p.val[0], p.val[1]), (p.val[2], p.val[3]))) for p in map(I.inst, self.edges.parts)])


class GraphVal(Heap):
    __slots__ = ('p', 'extra')

    def __init__(self, p):
        super().__init__()
        self.p = p

    def getattr_(self, I, name):
        if name in self.p.fixed:
            return self.p.fixed[name]
        if name in ('alphabet', 'actions'):
            raise PyExc(AttributeError, (name,))
        raise Unsupported(f'attribute {name} of a product')

    def setattr_(self, I, name, v):
        if name != 'name':
            raise Unsupported(f'attribute {name} of a product')

    def contains_(self, I, v):
        s, q = self.p.pair(v)
        I.note_read(self.p.nodes)
        return mem(I, self.p.nodes, s, q)

    def isinstance_(self, I, name):
        return name in ('LabeledDiGraph', 'MultiDiGraph')


def z3b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def mem(I, c, *ts):
    v = tuple(Sym(t) for t in ts) if len(ts) > 1 else Sym(ts[0])
    return z3b(I.member_parts(v, c.parts))


def V_(I, names):
    return [I.const(n, V) for n in names.split()]


def attr_of(kind, k):
    return LET(LAB(TDST(k))) if kind == 'ba' else ATTR(k)


def some_edge(I, kind, s, t, a):
    """a system transition s -> t with the product attributes a"""
    if kind == 'ba':
        return And_(POST(s, t), a == LET(LAB(t)))
    k = I.const('k', V)
    return Exists_([k], And_(TE(k), TSRC(k) == s, TDST(k) == t, a == ATTR(k)))


def ghost(v):
    return v.p if isinstance(v, GraphVal) else None


# ------------------------------------------------------------ find_ba_succ
def g_enabled(ctx):
    I = ctx.new()
    I.axioms += axioms()
    st = {}

    def setup(I):
        q, s = V_(I, 'q s')
        I.assume(TS_(s))
        st.update(q=q, s=s)
        return lambda: I.call(ctx.resolve(f'{MOD}:find_ba_succ'), [Sym(q), Sym(s), system(I), automaton(I)], {})

    def post(I, out):
        nm = 'find_ba_succ'
        if not ctx.no_raise(I, out, nm):
            return
        if not isinstance(out, PList):
            I.prove(FALSE, f'{nm}: a list')
            return
        q, s = st['q'], st['s']
        r = I.const('r', V)
        got = []
        for p in map(I.inst, out.parts):
            a, b = I.enc_.enc(p.val[0]), I.enc_.enc(p.val[1])
            I.prove(ForAll_(p.vars, Implies_(p.cond, And_(a == q, EN(q, LAB(s), b)))), f'{nm}: only enabled transitions')
            got.append(Exists_(p.vars, And_(p.cond, b == r)))
        I.prove(ForAll_([r], Implies_(EN(q, LAB(s), r), Or_(*got))), f'{nm}: every enabled transition')
    ctx.verify('find_ba_succ', setup, post, f'{MOD}:find_ba_succ')


def enabled_contract(I, sys, aut):
    def fn(I, f, args, kw):
        q, s, ts, ba = I.bind(f, args, kw).values()
        if ts is not sys or ba is not aut:
            I.prove(FALSE, 'enabled transitions of the given automaton and system')
            raise Infeasible()
        q, s = I.enc_.enc(q), I.enc_.enc(s)
        I.prove(TS_(s), 'enabled transitions at a state of the system')
        return enabled_list(I, q, s)
    return fn


def enabled_list(I, q, s):
    e = I.const('e', V)
    return PList([Part((e,), ene(q, LAB(s), e), (Sym(q), Sym(BDST(e)), Sym(F('ba_attr', V, V)(e), 'attrs')))])


# ------------------------------------------------------------ find_prod_succ
def g_succ_ts(ctx):
    succ_case(ctx, 'ts')


def g_succ_ba(ctx):
    succ_case(ctx, 'ba')


def succ_case(ctx, kind):
    I = ctx.new(timeout_ms=20000)
    I.axioms += axioms()
    st = {}

    def setup(I):
        q, s, t = V_(I, 'q s t')
        I.assume(And_(TS_(s), TS_(t)))
        P = Product(I, kind, arbitrary=True)
        lst = enabled_list(I, q, t)
        st.clear()
        st.update(q=q, s=s, t=t, P=P, n0=PSet(P.nodes.parts), e0=PSet(P.edges.parts), a0=P.acc.parts, lst=lst)
        I.assume(mem(I, P.nodes, s, q))
        x, a = V_(I, 'x a')
        if kind == 'ts':
            I.assume(ForAll_([x, a], Not_(mem(I, P.edges, s, q, t, x, a))))
        return lambda: I.call(ctx.resolve(f'{MOD}:find_prod_succ'), [(Sym(s), Sym(q)), Sym(t), lst, P.obj(), automaton(I), system(I)], {})

    def rule(I, fr, node, it):
        if it is not st.get('lst') or not fr.func.endswith('find_prod_succ'):
            if kind == 'ts' and fr.func.endswith('find_prod_succ') and 'head' in st:
                # transitions are added at most once between two product states
                pairs = [v for v in fr.f.values() if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Sym)
                         and v[0].t.eq(st['t'])]
                a = I.const('a', V)
                for v in pairs[:1]:
                    I.prove(ForAll_([a], Not_(mem(I, st['P'].edges, st['s'], st['q'], st['t'], v[1].t, a))),
                            'the transitions between two product states are added once')
            return False
        loc = {k: v for k, v in fr.f.items() if isinstance(v, PSet) and k in ('next_sqs', 'new_accepting', 'next_qs')}
        if not {'next_sqs', 'new_accepting'} <= set(loc):
            raise Unsupported('local sets of the successor construction')
        P, s, q, t = st['P'], st['s'], st['q'], st['t']

        def seen(p, done):
            """r is the target of a visited transition"""
            e = I.const('e', V)
            return lambda r: Exists_([e], And_(done([e]), BDST(e) == r))

        def inv(p, done):
            D = seen(p, done)
            x, r, u, v, a = V_(I, 'x r u v a')
            fs = [('states', ForAll_([x, r], mem(I, P.nodes, x, r) == Or_(mem(I, st['n0'], x, r), And_(x == t, D(r))))),
                  ('new states', ForAll_([x, r], mem(I, loc['next_sqs'], x, r) == And_(x == t, D(r), Not_(mem(I, st['n0'], x, r))))),
                  ('accepting states', ForAll_([x, r], mem(I, loc['new_accepting'], x, r) == And_(x == t, D(r), ACC(r)))),
                  ('transitions', ForAll_([u, v, x, r, a], mem(I, P.edges, u, v, x, r, a) == Or_(
                      mem(I, st['e0'], u, v, x, r, a),
                      And_(u == s, v == q, x == t, D(r), some_edge(I, kind, s, t, a)))))]
            if 'next_qs' in loc:
                fs.append(('visited targets', ForAll_([r], mem(I, loc['next_qs'], r) == D(r))))
            return fs

        def havoc():
            st['head'] = True
            P.havoc(I.func('N', V, V, B), I.func('E', V, V, V, V, V, B))
            s_, q_ = V_(I, 's q')
            for k, c in loc.items():
                if k == 'next_qs':
                    g = I.func(k, V, B)
                    I.set_parts(c, [Part((s_,), g(s_), Sym(s_))])
                else:
                    g = I.func(k, V, V, B)
                    I.set_parts(c, [Part((s_, q_), g(s_, q_), (Sym(s_), Sym(q_)))])
            return [P.nodes, P.edges] + list(loc.values())
        I.inv_for(fr, node, it, havoc, inv, 'enabled transitions')
        return True
    I.for_rules.append(rule)

    def post(I, out):
        nm = f'find_prod_succ ({kind})'
        if not ctx.no_raise(I, out, nm):
            return
        if not (isinstance(out, tuple) and len(out) == 2 and all(isinstance(x, PSet) for x in out)):
            I.prove(FALSE, f'{nm}: two sets')
            return
        P, s, q, t = st['P'], st['s'], st['q'], st['t']
        D = lambda r: EN(q, LAB(t), r)
        x, r, u, v, a = V_(I, 'x r u v a')
        I.prove(mem(I, P.nodes, x, r) == Or_(mem(I, st['n0'], x, r), And_(x == t, D(r))), f'{nm}: states of the product')
        I.prove(mem(I, out[0], x, r) == And_(x == t, D(r), Not_(mem(I, st['n0'], x, r))), f'{nm}: returned new states')
        I.prove(mem(I, out[1], x, r) == And_(x == t, D(r), ACC(r)), f'{nm}: returned accepting states')
        I.prove(mem(I, P.edges, u, v, x, r, a) == Or_(mem(I, st['e0'], u, v, x, r, a), And_(
            u == s, v == q, x == t, D(r), some_edge(I, kind, s, t, a))), f'{nm}: transitions of the product')
        I.prove(z3.BoolVal(P.acc.parts is st['a0']), f'{nm}: accepting states of the product are left to the caller')
    ctx.verify(f'find_prod_succ {kind}', setup, post, f'{MOD}:find_prod_succ')


def succ_contract(I, P, sys, aut):
    def fn(I, f, args, kw):
        prev, t, en, prod, ba, ts = I.bind(f, args, kw).values()
        if ghost(prod) is not P or ts is not sys or ba is not aut:
            I.prove(FALSE, 'successors in the product of the given automaton and system')
            raise Infeasible()
        s, q = P.pair(prev)
        t = I.enc_.enc(t)
        # the list is the one of find_ba_succ(q, t)
        x, a, r = V_(I, 'x a r')
        want = enabled_list(I, q, t)
        ok = isinstance(en, PList)
        I.prove(z3.BoolVal(ok), 'list of enabled transitions')
        have = Or_(*[Exists_(p.vars, And_(p.cond, I.enc_.enc(p.val[1]) == r)) for p in map(I.inst, en.parts)])
        I.prove(ForAll_([r], have == EN(q, LAB(t), r)), 'the enabled transitions of the automaton state at the next label')
        for p in map(I.inst, en.parts):
            I.prove(ForAll_(p.vars, Implies_(p.cond, I.enc_.enc(p.val[0]) == q)), 'transitions of the automaton state')
        I.prove(And_(TS_(t), mem(I, P.nodes, s, q)), 'successors of a state of the product')
        if P.kind == 'ts':
            I.prove(ForAll_([x, a], Not_(mem(I, P.edges, s, q, t, x, a))), 'the transitions between two product states are added once')
        n0 = PSet(P.nodes.parts)
        I.note_read(P.nodes)
        D = lambda r: EN(q, LAB(t), r)
        I.add_parts(P.nodes, [Part((r,), D(r), (Sym(t), Sym(r)))])
        if P.kind == 'ts':
            k = I.const('k', V)
            I.add_parts(P.edges, [Part((r, k), And_(D(r), TE(k), TSRC(k) == s, TDST(k) == t),
                                       (Sym(s), Sym(q), Sym(t), Sym(r), Sym(ATTR(k))))])
        else:
            I.add_parts(P.edges, [Part((r,), And_(D(r), POST(s, t)), (Sym(s), Sym(q), Sym(t), Sym(r), Sym(LET(LAB(t)))))])
        return (PSet([Part((r,), And_(D(r), Not_(mem(I, n0, t, r))), (Sym(t), Sym(r)))]),
                PSet([Part((r,), And_(D(r), ACC(r)), (Sym(t), Sym(r)))]))
    return fn


# ------------------------------------------------------------ the products
def init_pair(I, s, q):
    p = I.const('p', V)
    return And_(TINIT(s), Exists_([p], And_(BINIT(p), EN(p, LAB(s), q))))


def step(s, q, t, r):
    return And_(POST(s, t), EN(q, LAB(t), r))


def expansion_rule(ctx, I, st, P, fname):
    """Loop over the successors in the system of one product state."""
    def rule(I, fr, node, it):
        if not fr.func.endswith(fname) or not isinstance(it, PSet) or len(it.parts) != 1:
            return False
        c = it.parts[0].cond
        if not (z3.is_app(c) and c.decl().name() == 'ts_post'):
            return False
        s = c.arg(0)
        pair = [v for v in fr.f.values() if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Sym) and v[0].t.eq(s)]
        if not pair or 'next_sqs' not in fr.f or not isinstance(fr.f['next_sqs'], PSet):
            raise Unsupported('current state of the product')
        q = pair[0][1].t
        acc = st['acc'](fr)
        nxt = fr.f['next_sqs']
        n0, e0, a0, x0 = (PSet(z.parts) for z in (P.nodes, P.edges, acc, nxt))
        st['cur'] = (s, q)

        def inv(p, done):
            x, r, u, v, a = V_(I, 'x r u v a')
            new = lambda x, r: And_(done([x]), EN(q, LAB(x), r))
            # the returned set of new states depends on the order of the visits:
            # it contains each state that was added by the loop
            fs = [('states', ForAll_([x, r], mem(I, P.nodes, x, r) == Or_(mem(I, n0, x, r), new(x, r)))),
                  ('next states', ForAll_([x, r], mem(I, nxt, x, r) == Or_(mem(I, x0, x, r), And_(new(x, r), Not_(mem(I, n0, x, r)))))),
                  ('accepting states', ForAll_([x, r], mem(I, acc, x, r) == Or_(mem(I, a0, x, r), And_(new(x, r), ACC(r))))),
                  ('transitions', ForAll_([u, v, x, r, a], mem(I, P.edges, u, v, x, r, a) == Or_(
                      mem(I, e0, u, v, x, r, a), And_(u == s, v == q, new(x, r), some_edge(I, P.kind, s, x, a)))))]
            return fs

        def havoc():
            P.havoc(I.func('N', V, V, B), I.func('E', V, V, V, V, V, B))
            s_, q_ = V_(I, 's q')
            for c in (acc, nxt):
                g = I.func('set', V, V, B)
                I.set_parts(c, [Part((s_, q_), g(s_, q_), (Sym(s_), Sym(q_)))])
            return [P.nodes, P.edges, acc, nxt]
        I.inv_for(fr, node, it, havoc, inv, 'successor states')
        return True
    rule.optional = fname == 'ts_ba_sync_prod'
    return rule


def reach(I):
    R = I.func('Reach', V, V, B)
    s, q, t, r = V_(I, 's q t r')
    I.assume(ForAll_([s, q], Implies_(init_pair(I, s, q), R(s, q))))
    I.assume(ForAll_([s, q, t, r], Implies_(And_(R(s, q), step(s, q, t, r)), R(t, r))))
    return R


def g_ts(ctx):
    I = ctx.new(timeout_ms=20000)
    I.axioms += axioms()
    st = {}
    NAME = f'{MOD}:ts_ba_sync_prod'

    def new_product(I, *a, **k):
        if 'P' in st:
            I.prove(FALSE, 'one product system')
        st['P'] = Product(I, 'ts')
        I.contracts[f'{MOD}:find_prod_succ'] = succ_contract(I, st['P'], st['sys'], st['aut'])
        I.for_rules[:] = [expansion_rule(ctx, I, st, st['P'], 'ts_ba_sync_prod')]
        return st['P'].obj()
    I.overrides['tulip.transys.transys:FiniteTransitionSystem'] = Builtin('FiniteTransitionSystem', new_product)

    def setup(I):
        acc = st['acc']
        st.clear()
        I.for_rules[:] = []
        st.update(sys=system(I), aut=automaton(I), acc=acc, R=reach(I))
        I.contracts[f'{MOD}:find_ba_succ'] = enabled_contract(I, st['sys'], st['aut'])
        return lambda: I.call(ctx.resolve(NAME), [st['sys'], st['aut']], {})

    def facts(I, final=False):
        P, R, fr = st['P'], st['R'], st['fr']
        x, r, u, v, a, s, q = V_(I, 'x r u v a s q')
        N = lambda x, r: mem(I, P.nodes, x, r)
        Vis = lambda x, r: mem(I, st['visited'], x, r)
        Q = lambda x, r: mem(I, st['queue'], x, r)
        return [('states are reachable', ForAll_([x, r], Implies_(N(x, r), R(x, r)))),
                ('states of the product are states of the system', ForAll_([x, r], Implies_(N(x, r), TS_(x)))),
                ('initial states', ForAll_([x, r], mem(I, P.init, x, r) == init_pair(I, x, r))),
                ('initial states are states', ForAll_([x, r], Implies_(init_pair(I, x, r), N(x, r)))),
                ('states are visited or queued', ForAll_([x, r], N(x, r) == Or_(Vis(x, r), Q(x, r)))),
                ('visited states are not queued', ForAll_([x, r], Not_(And_(Vis(x, r), Q(x, r))))),
                ('successors of visited states', ForAll_([s, q, x, r], Implies_(And_(Vis(s, q), step(s, q, x, r)), N(x, r)))),
                ('accepting states', ForAll_([x, r], mem(I, st['accset'], x, r) == And_(N(x, r), ACC(r)))),
                ('transitions', ForAll_([u, v, x, r, a], mem(I, P.edges, u, v, x, r, a) == And_(
                    Vis(u, v), EN(v, LAB(x), r), some_edge(I, 'ts', u, x, a))))]

    def while_rule(I, fr, node):
        if not fr.func.endswith('ts_ba_sync_prod'):
            return False
        names = ('queue', 'visited', 'accepting_states_preimage')
        if not all(isinstance(fr.f.get(n), PSet) for n in names):
            raise Unsupported('sets of the search')
        P = st['P']
        st.update(fr=fr, queue=fr.f['queue'], visited=fr.f['visited'], accset=fr.f['accepting_states_preimage'])

        def havoc():
            P.havoc(I.func('N', V, V, B), I.func('E', V, V, V, V, V, B))
            s_, q_ = V_(I, 's q')
            cs = [st['queue'], st['visited'], st['accset'], P.init]
            for c in cs:
                g = I.func('set', V, V, B)
                I.set_parts(c, [Part((s_, q_), g(s_, q_), (Sym(s_), Sym(q_)))])
            return [P.nodes, P.edges] + cs
        I.inv_while(fr, node, havoc, lambda: facts(I), 'search')
        return True
    I.while_rules[:] = [while_rule]
    st['acc'] = lambda fr: fr.f['accepting_states_preimage']

    def post(I, out):
        nm = 'ts_ba_sync_prod'
        if not ctx.no_raise(I, out, nm):
            return
        if not (isinstance(out, tuple) and len(out) == 2 and ghost(out[0]) is st.get('P') and isinstance(out[1], PSet) and 'fr' in st):
            I.prove(FALSE, f'{nm}: the product and its accepting states')
            return
        product_post(I, st, st['P'], out[1], nm)

    ctx.verify('ts_ba_sync_prod', setup, post, NAME)


def product_post(I, st, P, acc, nm):
    R = st['R']
    x, r, u, v, a, s, q = V_(I, 'x r u v a s q')
    N = lambda x, r: mem(I, P.nodes, x, r)
    # rule induction for the least relation Reach
    I.prove(ForAll_([x, r], Implies_(init_pair(I, x, r), N(x, r))), f'{nm}: minimality of Reach: base')
    I.prove(ForAll_([s, q, x, r], Implies_(And_(N(s, q), step(s, q, x, r)), N(x, r))), f'{nm}: minimality of Reach: step')
    I.assume(ForAll_([x, r], Implies_(R(x, r), N(x, r))))
    I.prove(N(x, r) == R(x, r), f'{nm}: states are exactly the reachable pairs')
    I.prove(mem(I, P.init, x, r) == init_pair(I, x, r), f'{nm}: initial states')
    I.prove(mem(I, acc, x, r) == And_(R(x, r), ACC(r)), f'{nm}: accepting states')
    I.prove(mem(I, P.edges, u, v, x, r, a) == And_(R(u, v), EN(v, LAB(x), r), some_edge(I, P.kind, u, x, a)),
            f'{nm}: transitions are exactly the joint transitions')


# ------------------------------------------------------------ automaton form
def g_ba(ctx):
    I = ctx.new(timeout_ms=20000)
    I.axioms += axioms()
    st = {}
    NAME = f'{MOD}:ba_ts_sync_prod'

    def ts_product(I, f, args, kw):
        ts, ba = I.bind(f, args, kw).values()
        if ts is not st['sys'] or ba is not st['aut']:
            I.prove(FALSE, 'product of the given system and automaton')
            raise Infeasible()
        P = Product(I, 'ts')
        R = st['R']
        x, r, u, v, k, i, j = V_(I, 'x r u v k i j')
        I.set_parts(P.nodes, [Part((x, r), R(x, r), (Sym(x), Sym(r)))])
        I.set_parts(P.init, [Part((x, r), init_pair(I, x, r), (Sym(x), Sym(r)))])
        I.set_parts(P.edges, [Part((u, v, k, r), And_(R(u, v), TE(k), TSRC(k) == u, EN(v, LAB(TDST(k)), r)),
                                   tuple(Sym(z) for z in (u, v, TDST(k), r, ATTR(k))))])
        acc = PSet([Part((i, j), And_(R(i, j), ACC(j)), (Sym(i), Sym(j)))])
        I.assume(ForAll_([x, r], Implies_(R(x, r), TS_(x))))
        return (P.obj(), acc)
    I.contracts[f'{MOD}:ts_ba_sync_prod'] = ts_product

    def new_product(I, *a, **k):
        if 'P' in st:
            I.prove(FALSE, 'one product automaton')
        st['P'] = Product(I, 'ba')
        return st['P'].obj()
    I.overrides['tulip.transys.automata:BuchiAutomaton'] = Builtin('BuchiAutomaton', new_product)

    def setup(I):
        st.clear()
        st.update(sys=system(I), aut=automaton(I), R=reach(I))
        return lambda: I.call(ctx.resolve(NAME), [st['aut'], st['sys']], {})

    def post(I, out):
        nm = 'ba_ts_sync_prod'
        if not ctx.no_raise(I, out, nm):
            return
        if ghost(out) is not st.get('P'):
            I.prove(FALSE, f'{nm}: the product')
            return
        P, R = st['P'], st['R']
        x, r, u, v, a = V_(I, 'x r u v a')
        I.prove(mem(I, P.nodes, x, r) == R(x, r), f'{nm}: states are exactly the reachable pairs')
        I.prove(mem(I, P.init, x, r) == init_pair(I, x, r), f'{nm}: initial states')
        I.prove(mem(I, P.acc, x, r) == And_(R(x, r), ACC(r)), f'{nm}: accepting states')
        I.prove(mem(I, P.edges, u, v, x, r, a) == And_(R(u, v), EN(v, LAB(x), r), some_edge(I, 'ba', u, x, a)),
                f'{nm}: transitions are exactly the joint transitions')
    ctx.verify('ba_ts_sync_prod', setup, post, NAME)


# ------------------------------------------------------------ on the fly
CLS = f'{MOD}:OnTheFlyProductAutomaton'


def fly(I, ctx, st, arbitrary):
    """self of an on-the-fly product"""
    st.clear()
    st.update(sys=system(I), aut=automaton(I))
    P = Product(I, 'ba', arbitrary=arbitrary)
    st['P'] = P
    obj = P.obj()
    P.fixed.update(ts=st['sys'], ba=st['aut'])
    for m in ('_add_initial', 'add_successors', 'add_all_states'):
        P.fixed[m] = Bound(obj, ctx.resolve(f'{CLS}.{m}'))
    I.contracts[f'{MOD}:find_ba_succ'] = enabled_contract(I, st['sys'], st['aut'])
    I.contracts[f'{MOD}:find_prod_succ'] = succ_contract(I, P, st['sys'], st['aut'])
    return obj


def g_fly_initial(ctx):
    I = ctx.new(timeout_ms=20000)
    I.axioms += axioms()
    st = {}
    NAME = f'{CLS}._add_initial'

    def setup(I):
        obj = fly(I, ctx, st, False)
        return lambda: I.call(ctx.resolve(NAME), [obj], {})

    def post(I, out):
        nm = '_add_initial'
        if not ctx.no_raise(I, out, nm):
            return
        P = st['P']
        x, r, u, v, a = V_(I, 'x r u v a')
        I.prove(mem(I, P.nodes, x, r) == init_pair(I, x, r), f'{nm}: states')
        I.prove(mem(I, P.init, x, r) == init_pair(I, x, r), f'{nm}: initial states')
        I.prove(mem(I, P.acc, x, r) == And_(init_pair(I, x, r), ACC(r)), f'{nm}: accepting states')
        I.prove(Not_(mem(I, P.edges, u, v, x, r, a)), f'{nm}: no transition')
    ctx.verify('_add_initial', setup, post, NAME)


def g_fly_succ(ctx):
    I = ctx.new(timeout_ms=20000)
    I.axioms += axioms()
    st = {}
    NAME = f'{CLS}.add_successors'

    def setup(I):
        obj = fly(I, ctx, st, True)
        P = st['P']
        st['acc'] = lambda fr: P.acc
        I.for_rules[:] = [expansion_rule(ctx, I, st, P, 'add_successors')]
        s, q = V_(I, 's q')
        I.assume(And_(TS_(s), mem(I, P.nodes, s, q)))
        st.update(s=s, q=q, old=tuple(PSet(z.parts) for z in (P.nodes, P.edges, P.acc)), init=P.init.parts)
        return lambda: I.call(ctx.resolve(NAME), [obj, Sym(s), Sym(q)], {})

    def post(I, out):
        nm = 'add_successors'
        if not ctx.no_raise(I, out, nm):
            return
        if not isinstance(out, PSet):
            I.prove(FALSE, f'{nm}: a set')
            return
        P, s, q = st['P'], st['s'], st['q']
        n0, e0, a0 = st['old']
        x, r, u, v, a = V_(I, 'x r u v a')
        new = step(s, q, x, r)
        I.prove(mem(I, P.nodes, x, r) == Or_(mem(I, n0, x, r), new), f'{nm}: states')
        I.prove(mem(I, out, x, r) == And_(new, Not_(mem(I, n0, x, r))), f'{nm}: returned new states')
        I.prove(mem(I, P.acc, x, r) == Or_(mem(I, a0, x, r), And_(new, ACC(r))), f'{nm}: accepting states')
        I.prove(mem(I, P.edges, u, v, x, r, a) == Or_(mem(I, e0, u, v, x, r, a), And_(
            u == s, v == q, new, some_edge(I, 'ba', s, x, a))), f'{nm}: transitions')
        I.prove(z3.BoolVal(P.init.parts is st['init']), f'{nm}: initial states unchanged')
    ctx.verify('add_successors', setup, post, NAME)


def fly_succ_contract(P):
    def fn(I, f, args, kw):
        b = I.bind(f, args, kw)
        me, s, q = b.values()
        if ghost(me) is not P:
            I.prove(FALSE, 'successors in this product')
            raise Infeasible()
        s, q = I.enc_.enc(s), I.enc_.enc(q)
        I.prove(And_(TS_(s), mem(I, P.nodes, s, q)), 'successors of a state of the product')
        n0 = PSet(P.nodes.parts)
        I.note_read(P.nodes)
        x, r = V_(I, 'x r')
        new = step(s, q, x, r)
        I.add_parts(P.nodes, [Part((x, r), new, (Sym(x), Sym(r)))])
        I.add_parts(P.acc, [Part((x, r), And_(new, ACC(r)), (Sym(x), Sym(r)))])
        I.add_parts(P.edges, [Part((x, r), new, tuple(Sym(z) for z in (s, q, x, r, LET(LAB(x)))))])
        return PSet([Part((x, r), And_(new, Not_(mem(I, n0, x, r))), (Sym(x), Sym(r)))])
    return fn


def g_fly_all(ctx):
    I = ctx.new(timeout_ms=20000)
    I.axioms += axioms()
    st = {}
    NAME = f'{CLS}.add_all_states'

    def setup(I):
        obj = fly(I, ctx, st, False)
        P = st['P']
        R = st['R'] = reach(I)
        I.contracts[f'{CLS}.add_successors'] = fly_succ_contract(P)
        x, r, i, j, u, v = V_(I, 'x r i j u v')
        # the state after the constructor
        I.set_parts(P.nodes, [Part((x, r), init_pair(I, x, r), (Sym(x), Sym(r)))])
        I.set_parts(P.init, [Part((u, v), init_pair(I, u, v), (Sym(u), Sym(v)))])
        I.set_parts(P.acc, [Part((i, j), And_(init_pair(I, i, j), ACC(j)), (Sym(i), Sym(j)))])
        return lambda: I.call(ctx.resolve(NAME), [obj], {})

    def edges_of(u, v, x, r, a):
        return And_(EN(v, LAB(x), r), POST(u, x), a == LET(LAB(x)))

    def havoc_graph(I):
        P = st['P']
        P.havoc(I.func('N', V, V, B), I.func('E', V, V, V, V, V, B), I.func('C', V, V, B))
        return [P.nodes, P.edges, P.acc]

    def fresh_set(I):
        g = I.func('set', V, V, B)
        x, r = V_(I, 'x r')
        return PSet([Part((x, r), g(x, r), (Sym(x), Sym(r)))])

    def while_rule(I, fr, node):
        if not fr.func.endswith('add_all_states'):
            return False
        if not isinstance(fr.f.get('Q'), PSet):
            raise Unsupported('queue of the search')
        P, R = st['P'], st['R']

        def inv():
            x, r, u, v, a, s, q = V_(I, 'x r u v a s q')
            N = lambda x, r: mem(I, P.nodes, x, r)
            Q = lambda x, r: mem(I, fr.f['Q'], x, r)
            D = lambda x, r: And_(N(x, r), Not_(Q(x, r)))
            return [('states are reachable', ForAll_([x, r], Implies_(N(x, r), R(x, r)))),
                    ('states of the product are states of the system', ForAll_([x, r], Implies_(N(x, r), TS_(x)))),
                    ('queued states are states', ForAll_([x, r], Implies_(Q(x, r), N(x, r)))),
                    ('initial states are states', ForAll_([x, r], Implies_(init_pair(I, x, r), N(x, r)))),
                    ('initial states', ForAll_([x, r], mem(I, P.init, x, r) == init_pair(I, x, r))),
                    ('successors of expanded states', ForAll_([s, q, x, r], Implies_(And_(D(s, q), step(s, q, x, r)), N(x, r)))),
                    ('accepting states', ForAll_([x, r], mem(I, P.acc, x, r) == And_(N(x, r), ACC(r)))),
                    ('transitions', ForAll_([u, v, x, r, a], mem(I, P.edges, u, v, x, r, a) == And_(
                        D(u, v), edges_of(u, v, x, r, a))))]

        def rebind():
            fr.f['Q'] = fresh_set(I)
            return [fr.f['Q']]
        I.inv_while(fr, node, lambda: havoc_graph(I), inv, 'search', rebind=rebind)
        return True

    def for_rule(I, fr, node, it):
        if not fr.func.endswith('add_all_states') or not isinstance(it, PSet) or len(it.parts) != 1:
            return False
        new = fr.f.get('Qnew')
        if not isinstance(new, PSet) or len(it.parts[0].vars) != 2:
            raise Unsupported('set of new states')
        P = st['P']
        n0, e0, a0 = (PSet(z.parts) for z in (P.nodes, P.edges, P.acc))

        def inv(p, done):
            x, r, u, v, a, s, q = V_(I, 'x r u v a s q')
            D = done_of(I, p, done)
            suc = lambda x, r: Exists_([s, q], And_(D(s, q), step(s, q, x, r)))
            N = lambda x, r: mem(I, P.nodes, x, r)
            return [('states', ForAll_([x, r], N(x, r) == Or_(mem(I, n0, x, r), suc(x, r)))),
                    ('new states', ForAll_([x, r], mem(I, new, x, r) == And_(N(x, r), Not_(mem(I, n0, x, r))))),
                    ('accepting states', ForAll_([x, r], mem(I, P.acc, x, r) == Or_(mem(I, a0, x, r), And_(suc(x, r), ACC(r))))),
                    ('transitions', ForAll_([u, v, x, r, a], mem(I, P.edges, u, v, x, r, a) == Or_(
                        mem(I, e0, u, v, x, r, a), And_(D(u, v), edges_of(u, v, x, r, a)))))]

        def havoc():
            f = fresh_set(I)
            I.set_parts(new, f.parts)
            return havoc_graph(I) + [new]
        I.inv_for(fr, node, it, havoc, inv, 'queued states')
        return True
    I.while_rules[:] = [while_rule]
    I.for_rules.append(for_rule)

    def post(I, out):
        nm = 'add_all_states'
        if not ctx.no_raise(I, out, nm):
            return
        P, R = st['P'], st['R']
        x, r, u, v, a, s, q = V_(I, 'x r u v a s q')
        N = lambda x, r: mem(I, P.nodes, x, r)
        I.prove(ForAll_([x, r], Implies_(init_pair(I, x, r), N(x, r))), f'{nm}: minimality of Reach: base')
        I.prove(ForAll_([s, q, x, r], Implies_(And_(N(s, q), step(s, q, x, r)), N(x, r))), f'{nm}: minimality of Reach: step')
        I.assume(ForAll_([x, r], Implies_(R(x, r), N(x, r))))
        I.prove(N(x, r) == R(x, r), f'{nm}: states are exactly the reachable pairs')
        I.prove(mem(I, P.init, x, r) == init_pair(I, x, r), f'{nm}: initial states')
        I.prove(mem(I, P.acc, x, r) == And_(R(x, r), ACC(r)), f'{nm}: accepting states')
        I.prove(mem(I, P.edges, u, v, x, r, a) == And_(R(u, v), edges_of(u, v, x, r, a)),
                f'{nm}: transitions are exactly the joint transitions')
    ctx.verify('add_all_states', setup, post, NAME)


def done_of(I, p, done):
    """Membership of a pair in the visited elements of a family of pairs."""
    a, b = (I.enc_.enc(z) for z in p.val)
    if a.eq(p.vars[0]) and b.eq(p.vars[1]):
        return lambda s, q: done([s, q])
    raise Unsupported('family of pairs')


GROUPS = [Group('enabled transitions', g_enabled), Group('successors (system form)', g_succ_ts),
          Group('successors (automaton form)', g_succ_ba), Group('system form', g_ts), Group('automaton form', g_ba),
          Group('on the fly: initial states', g_fly_initial), Group('on the fly: successors', g_fly_succ),
          Group('on the fly: all states', g_fly_all)]
ASSUMED = ['queries and edits of graphs through contracts (C06, C07): transitions.find, states.find, states.post, states.add, transitions.add',
           'rule induction for the least relation Reach',
           'labels of the system are allowed letters of the automaton (propositions of the system are propositions of the automaton)']
BOUNDED = ['termination: bounded executions only', 'the constructor of the on-the-fly product (calls _add_initial on an empty automaton): bounded executions']
