"""Contracts for the queries of tulip/transys/labeled_graphs.py.

Graphs are arbitrary labeled multigraphs over the assumed contract of
networkx.MultiDiGraph (vf/digraph.py).
"""
import z3
from vf.contract import *
from vf.digraph import *
from vf.digraph import over, install as install_nx, A
from vf.core import _MISSING

LG = 'tulip.transys.labeled_graphs'
MATCH = F('label_is_desired', V, V, V, B)
WANT, KWANT = z3.Consts('with_attr_dict with_attr', V)


def new(ctx):
    I = ctx.new()
    install_nx(I)

    def desired(I, f, args, kw):
        b = I.bind(f, args, kw)
        a = b['attr_dict']
        if not isinstance(a, Lab) or a.types is None:
            raise PyExc(TypeError, ('attr_dict must be TypedDict',))
        return SB(MATCH(a.types.t, a.t, term(I, b['desired_dict'])))
    I.contracts[f'{LG}:label_is_desired'] = desired
    return I


def argument(I, G, kind, name):
    """An argument that selects states, and the predicate that it means."""
    f = F(name, V, B)
    x = I.const('x', V)
    if kind == 'none':
        return None, lambda n: TRUE
    if kind == 'one':
        s = I.sym(name)
        I.assume(G.Nf(s.t))
        return s, lambda n: n == s.t
    if kind == 'States':
        return G.o.f['states'], G.Nf
    p = Part((x,), f(x), Sym(x))
    return dict(list=PList, set=PSet, iterator=It)[kind]([p]), f


def labels(k):
    if k == 'none':
        return None, {}, EMPTY
    if k == 'dict':
        return Lab(WANT, ('x', WANT)), {}, WANT
    if k == 'keywords':
        return None, {'**': Lab(KWANT)}, KWANT
    return Lab(WANT, ('x', WANT)), {'**': Lab(KWANT)}, OVER(WANT, KWANT)


def entries(I, out, kind, name):
    """Result tuples as identified elements of the graph; labels must be copies."""
    if not isinstance(out, PList):
        I.prove(FALSE, f'{name}: returns a list')
        return None
    I.note_read(out)
    res = []
    n = 3 if kind == 'e' else 2
    for p in map(I.inst, out.parts):
        v = p.val
        ok = isinstance(v, tuple) and len(v) == n and isinstance(v[-1], Lab) and v[-1].ref is None and v[-1].org is not None and v[-1].org[0] == kind
        I.prove(z3.BoolVal(ok), f'{name}: elements of the graph with a copy of their label')
        if not ok:
            return None
        res.append(Part(p.vars, p.cond, tuple(v[:-1]) + (v[-1].t,) + v[-1].org[1:]))
    return res


def exact(I, res, want, kind, name):
    """The identified elements are exactly those with want, each once."""
    xs = [I.const('n', V)] if kind == 'n' else [I.const('u', V), I.const('v', V), I.const('k', Z)]
    k = len(xs)
    inst = []
    for p in res:
        q = p
        ids = q.val[-k:]
        inst.append(Exists_(list(q.vars), And_(q.cond, *[a == b for a, b in zip(xs, ids)])))
        I.prove(ForAll_(list(q.vars), Implies_(q.cond, And_(*[I.enc_.enc(a) == b for a, b in zip(q.val[:len(q.val) - k - 1], ids)]))), f'{name}: the states of the element')
    I.prove(Or_(*inst) == want(*xs), f'{name}: exactly the matching elements')
    for i, p in enumerate(res):
        for j, q in enumerate(res[:i + 1]):
            zs = [I.const('z', x.sort()) for x in q.vars]
            sub = lambda t: z3.substitute(t, *zip(q.vars, zs)) if zs else t
            same = And_(p.cond, sub(q.cond), *[x == sub(y) for x, y in zip(p.val[-k:], q.val[-k:])])
            if i == j and not p.vars:
                continue
            diff = Or_(*[x != y for x, y in zip(p.vars, zs)]) if i == j else TRUE
            I.prove(Not_(And_(same, diff)), f'{name}: each element once')


def mk_find_states(kinds):
    def g(ctx):
        for s in kinds:
            for l in ('none', 'dict', 'keywords', 'both'):
                I = new(ctx)
                st = {}

                def setup(I):
                    G = Graph(ctx)
                    a, f = argument(I, G, s, 'wanted')
                    d, kw, w = labels(l)
                    st.update(G=G, f=f, d=d, w=w)
                    return lambda: I.call(ctx.resolve(f'{LG}:States.find'), [G.o.f['states'], a, d], kw)

                def post(I, out):
                    G, f, w = st['G'], st['f'], st['w']
                    name = f'States.find({s}, {l})'
                    if not ctx.no_raise(I, out, name):
                        return
                    res = entries(I, out, 'n', name)
                    if res is None:
                        return
                    exact(I, res, lambda n: And_(G.Nf(n), f(n), Or_(w == EMPTY, MATCH(NT, G.NLf(n), w))), 'n', name)
                    for p in res:
                        I.prove(ForAll_(list(p.vars), Implies_(p.cond, p.val[1] == G.NLf(p.val[2]))), f'{name}: the label of the state')
                    G.unchanged(f'{name} does not change the graph')
                    if st['d'] is not None:
                        I.prove(st['d'].t == WANT, f'{name}: the requested label is not changed')
                ctx.verify(f'States.find({s}, {l})', setup, post, f'{LG}:States.find')
    return g


def mk_find_trans(s):
    def g(ctx):
        for t in ('none', 'one', 'list', 'iterator', 'States'):
            for l in ('none', 'dict', 'keywords', 'both'):
                I = new(ctx)
                st = {}

                def setup(I):
                    G = Graph(ctx)
                    a, f = argument(I, G, s, 'from')
                    b, h = argument(I, G, t, 'to')
                    d, kw, w = labels(l)
                    st.update(G=G, f=f, h=h, d=d, w=w)
                    return lambda: I.call(ctx.resolve(f'{LG}:Transitions.find'), [G.o.f['transitions'], a, b, d], kw)

                def post(I, out):
                    G, f, h, w = st['G'], st['f'], st['h'], st['w']
                    name = f'Transitions.find({s}, {t}, {l})'
                    if not ctx.no_raise(I, out, name):
                        return
                    res = entries(I, out, 'e', name)
                    if res is None:
                        return
                    lab = G.ELf
                    exact(I, res, lambda u, v, k: And_(G.Ef(u, v, k), f(u), h(v), Or_(w == EMPTY, lab(u, v, k) == EMPTY, MATCH(ET, lab(u, v, k), w))), 'e', name)
                    for p in res:
                        I.prove(ForAll_(list(p.vars), Implies_(p.cond, p.val[2] == lab(*p.val[3:]))), f'{name}: the label of the transition')
                    G.unchanged(f'{name} does not change the graph')
                    if st['d'] is not None:
                        I.prove(st['d'].t == WANT, f'{name}: the requested label is not changed')
                ctx.verify(f'Transitions.find({s}, {t}, {l})', setup, post, f'{LG}:Transitions.find')
    return g


def mk_steps(ctx):
    for meth in ('post', 'pre'):
        for s in (('none',) if meth == 'post' else ()) + ('list', 'set', 'iterator'):
            I = new(ctx)
            st = {}

            def setup(I):
                G = Graph(ctx)
                a, f = argument(I, G, s, 'given')
                if s != 'none':
                    x = I.const('x', V)
                    I.assume(ForAll_([x], Implies_(f(x), G.Nf(x))))
                st.update(G=G, f=f)
                return lambda: I.call(ctx.resolve(f'{LG}:States.{meth}'), [G.o.f['states']] + ([a] if s != 'none' else []), {})

            def post(I, out):
                G, f = st['G'], st['f']
                name = f'{meth}({s})'
                if not ctx.no_raise(I, out, name):
                    return
                I.prove(z3.BoolVal(isinstance(out, PSet)), f'{name}: a set')
                if not isinstance(out, PSet):
                    return
                x, u, k = I.const('x', V), I.const('u', V), I.const('k', Z)
                want = G.INITf(x) if s == 'none' else Exists_([u, k], And_(f(u), G.Ef(u, x, k) if meth == 'post' else G.Ef(x, u, k)))
                I.prove(z3b_(I.member_parts(Sym(x), out.parts)) == want, f'{name}: exactly the one-step {"successors" if meth == "post" else "predecessors"}')
                G.unchanged(f'{name} does not change the graph')
            ctx.verify(f'States.{meth}({s})', setup, post, f'{LG}:States.{meth}')
    for qual in ('States.is_terminal', 'LabeledDiGraph.has_deadends'):
        I = new(ctx)
        st = {}

        def setup(I):
            G = Graph(ctx)
            st.update(G=G, x=I.sym('state'))
            I.assume(G.Nf(st['x'].t))
            a = [G.o] if qual.startswith('L') else [G.o.f['states'], st['x']]
            return lambda: I.call(ctx.resolve(f'{LG}:{qual}'), a, {})

        def post(I, out):
            G = st['G']
            if not ctx.no_raise(I, out, qual):
                return
            n, v, k = I.const('n', V), I.const('v', V), I.const('k', Z)
            dead = lambda x: Not_(Exists_([v, k], G.Ef(x, v, k)))
            want = dead(st['x'].t) if qual.startswith('S') else Exists_([n], And_(G.Nf(n), dead(n)))
            I.prove(z3b_(I.truth_term(out)) == want, f'{qual}: exactly the states without outgoing transition')
            G.unchanged(f'{qual} does not change the graph')
        ctx.verify(qual, setup, post, f'{LG}:{qual}')


def mk_desired(ctx):
    """label_is_desired: the same keys and the same values, or values related by the type."""
    HA, VA, HD, VD = F('has', V, B), F('val', V, V), F('hasd', V, B), F('vald', V, V)
    DECL, SEM, SEMF = F('declared', V, B), F('function', V, B), F('related', V, V, V, B)
    BUG = F('set_against_list', V, V, B)
    I = ctx.new()
    st = {}

    def bug(I, f, args, kw):
        b = I.bind(f, args, kw)
        if I.branch(BUG(I.enc_.enc(b['value']), I.enc_.enc(b['desired_value']))):
            raise PyExc(AssertionError, ('set compared with list',))
    I.contracts[f'{LG}:test_common_bug'] = bug

    class TypeDef(Val):
        def __init__(self, k):
            self.k = k

        def subst(self, pairs):
            return TypeDef(z3.substitute(self.k, *pairs))

        def call_(self, I, args, kw):
            I.prove(SEM(self.k), 'only a type that is a function is called')
            return SB(SEMF(self.k, I.enc_.enc(args[0]), I.enc_.enc(args[1])))
    I.overrides[f'{LG}:callable'] = Builtin('callable', lambda I, v: SB(SEM(v.k)) if isinstance(v, TypeDef) else v is not None and False)

    def get(I, k, d=None):
        t = I.enc_.enc(k)
        return TypeDef(t) if I.branch(DECL(t)) else d

    def item(I, k):
        r = get(I, k, _MISSING)
        if r is _MISSING:
            raise PyExc(KeyError, (k,))
        return r
    types = A('types', get=Builtin('get', get), **{'%item': item, '%in': lambda I, k: DECL(I.enc_.enc(k))})

    def good(k):
        return z3.If(And_(DECL(k), SEM(k)), SEMF(k, VA(k), VD(k)), VA(k) == VD(k))

    def rule(I, fr, node, it):
        if not str(fr.func).endswith('label_is_desired'):
            return False

        def inv(p, done):
            x = I.const('x', V)
            return [('visited values agree', ForAll_([x], Implies_(done([x]), good(x))))]
        I.inv_for(fr, node, it, lambda: [], inv, 'comparison of the values')
        return True
    I.for_rules.append(rule)

    def setup(I):
        k = I.const('k', V)
        st['a'] = PDict([Part((k,), HA(k), (Sym(k), Sym(VA(k))))])
        st['d'] = PDict([Part((k,), HD(k), (Sym(k), Sym(VD(k))))])
        a = Obj(ctx.resolve('tulip.transys.mathset:TypedDict'), {'%dict': st['a'], 'allowed_values': types})
        return lambda: I.call(ctx.resolve(f'{LG}:label_is_desired'), [a, st['d']], {})

    def post(I, out):
        k = I.const('k', V)
        same = ForAll_([k], And_(HA(k) == HD(k), Implies_(HA(k), VA(k) == VD(k))))
        if isinstance(out, Raised):
            I.prove(And_(z3.BoolVal(out.cls is AssertionError), Exists_([k], And_(HA(k), VA(k) != VD(k), BUG(VA(k), VD(k))))),
                    'raises only for a set compared with a list')
            return
        want = Or_(same, And_(ForAll_([k], HA(k) == HD(k)), ForAll_([k], Implies_(HA(k), good(k)))))
        I.prove(z3b_(I.truth_term(out)) == want, 'desired iff the labels are equal, or have the same keys and related values')
    ctx.verify('label_is_desired', setup, post, f'{LG}:label_is_desired')


GROUPS = [Group('label_is_desired', mk_desired), Group('steps', mk_steps), Group('find states', mk_find_states(('none', 'list', 'set', 'iterator'))),
          Group('find states (one)', mk_find_states(('one', 'States')))]
GROUPS += [Group(f'find transitions ({s})', mk_find_trans(s)) for s in ('none', 'list', 'set', 'one', 'iterator', 'States')]
ASSUMED = ['networkx.MultiDiGraph: nodes, edges by key, degrees, adjacency (vf/digraph.py)',
           'typed dictionaries keep allowed values (C09); labels stored in the graph are allowed (C06)',
           'values of labels are compared by equality of values']
