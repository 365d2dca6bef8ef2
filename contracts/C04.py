"""Contracts for tulip/transys/compositions.py.

Component i: states S(i, s), initial states, propositions and labels, and
transitions k with source, target and the attributes that its kind declares.
The composite is built through the edits states.add, transitions.add (C06);
components are read through transitions.find (C07).  The number of components
is fixed per group (1, 2, 3); everything else about them is arbitrary.
"""
import itertools
import z3
from vf.contract import *
from contracts.C03 import A, z3b, mem

MOD = 'tulip.transys.compositions'
TR = 'tulip.transys.transys'
B, R = z3.BoolSort(), z3.RealSort()
KINDS = dict(KS='KripkeStructure', WKS='WeightedKripkeStructure', MC='MarkovChain', MDP='MarkovDecisionProcess')
F = z3.Function


class Comp:
    """An arbitrary component."""

    def __init__(self, I, i, kind):
        self.I, self.kind = I, kind
        f = lambda n, *s: F(f'{n}{i}', *s)
        self.S, self.INIT, self.AP, self.LAB = f('S', V, B), f('Init', V, B), f('AP', V, B), f('Lab', V, V, B)
        self.T, self.SRC, self.DST = f('T', V, B), f('Src', V, V), f('Dst', V, V)
        self.COST, self.PROB, self.ACT, self.ACTS = f('Cost', V, R), f('Prob', V, R), f('Act', V, V), f('Acts', V, B)
        k, s = z3.Consts('ck cs', V)
        self.axioms = [z3.ForAll([k], z3.Implies(self.T(k), z3.And(self.S(self.SRC(k)), self.S(self.DST(k))))),
                       z3.ForAll([s], z3.Implies(self.INIT(s), self.S(s)))]

    def fam(self, f):
        x = self.I.const('x', V)
        return PSet([Part((x,), f(x), Sym(x))])

    def attrs(self, k):
        d = []
        if self.kind == 'WKS':
            d.append(('cost', SN(self.COST(k))))
        if self.kind in ('MC', 'MDP'):
            d.append(('probability', SN(self.PROB(k))))
        if self.kind == 'MDP':
            d.append(('action', Sym(self.ACT(k))))
        return PDict([single(x) for x in d])

    def obj(self, ctx):
        I = self.I

        def label(I, s):
            t = I.enc_.enc(s)
            I.prove(self.S(t), 'the label of a state of the component is read')

            def item(I, k):
                if k != 'ap':
                    raise PyExc(KeyError, (k,))
                return self.fam(lambda p: self.LAB(t, p))
            return A('attributes', **{'%item': item})

        def find(I, from_states=None, *a, **kw):
            if a or kw or from_states is None:
                raise Unsupported('other query of the transitions of a component')
            s = I.the_single(from_states) if isinstance(from_states, Container) else from_states
            t = I.enc_.enc(s)
            k = I.const('k', V)
            return PList([Part((k,), And_(self.T(k), self.SRC(k) == t), (Sym(t), Sym(self.DST(k)), self.attrs(k)))])
        states = A('states', initial=lambda: self.fam(self.INIT),
                   **{'%item': label, '%iter': lambda I: self.fam(self.S).parts, '%call': lambda I: self.fam(self.S)})
        f = dict(states=states, transitions=A('transitions', find=Builtin('find', find)),
                 atomic_propositions=self.fam(self.AP))
        if self.kind == 'MDP':
            f['actions'] = self.fam(self.ACTS)
        return Obj(ctx.resolve(f'{TR}:{KINDS[self.kind]}'), f)


class Composite:
    """Ghost state of the model that is built."""

    def __init__(self, I, o, kind):
        self.o, self.kind = o, kind
        self.nodes, self.init, self.trans, self.props, self.labels, self.acts = (PSet() for _ in range(6))
        addf = lambda c: Builtin('add_from', lambda I, it: I.add_parts(c, I.iter_parts(it)))
        add = lambda c: Builtin('add', lambda I, v, *a, **k: I.add_parts(c, [single(v)]))

        def item(I, s):
            I.prove(z3b(I.member_parts(s, self.nodes.parts)), 'attributes of a state of the composition')
            me = self

            class Attrs(Val):
                def subst(self, pairs):
                    return self

                def setitem_(self, I, k, w):
                    if k != 'ap' or not isinstance(w, PSet):
                        raise Unsupported('attribute of a state of the composition')
                    I.note_read(w)
                    I.add_parts(me.labels, [Part(p.vars, p.cond, (s, p.val)) for p in map(I.inst, w.parts)])
            return Attrs()

        def trans(I, u, v, attr_dict=None, **kw):
            if kw or not isinstance(attr_dict, PDict):
                raise Unsupported('attributes of a transition of the composition')
            d = {}
            for p in attr_dict.parts:
                if p.vars or not z3.is_true(p.cond) or not isinstance(p.val[0], str):
                    raise Unsupported('attributes of a transition of the composition')
                d[p.val[0]] = p.val[1]
            I.prove(z3.BoolVal(set(d) == self.want), f'the transition carries exactly the attributes {sorted(self.want)}')
            I.add_parts(self.trans, [single((u, v) + tuple(d.get(k) for k in ('cost', 'probability', 'action')))])
        initial = A('initial', add=add(self.init), add_from=addf(self.init), update=addf(self.init),
                    **{'%iter': lambda I: self.init.parts})
        self.fields = dict(
            states=A('states', add=add(self.nodes), add_from=addf(self.nodes), initial=initial,
                     **{'%item': item, '%iter': lambda I: self.nodes.parts, '%call': lambda I: PSet(self.nodes.parts)}),
            transitions=A('transitions', add=Builtin('add', trans)),
            atomic_propositions=A('propositions', add_from=addf(self.props), update=addf(self.props)))
        if kind == KINDS['MDP']:
            self.fields['actions'] = A('actions', add_from=addf(self.acts), update=addf(self.acts))
        o.f.update(self.fields)


def constructors(I, st, want):
    for k, c in KINDS.items():
        def init(I, f, args, kw, k=k):
            o = args[0]
            if st.get('out') is not None:
                I.prove(FALSE, 'one composite is made')
            st['out'] = Composite(I, o, o.cls.name)
            st['out'].want = want
        I.contracts[f'{TR}:{c}.__init__'] = init
    I.ext['operator']['or_'] = Builtin('or_', lambda I, a, b: lib.binop(I, 'BitOr', a, b))


def kind_of(kinds):
    if 'WKS' in kinds and ('MC' in kinds or 'MDP' in kinds):
        return None
    return next((k for k in ('MDP', 'MC', 'WKS') if k in kinds), 'KS')


def mk_sync(n, combos):
    def g(ctx):
        for kinds in combos:
            sync_case(ctx, kinds)
    return g


def sync_case(ctx, kinds):
    I = ctx.new(timeout_ms=20000)
    want = kind_of(kinds)
    cs = [Comp(I, i, k) for i, k in enumerate(kinds)]
    for c in cs:
        I.axioms += c.axioms
    keys = set()
    for k in kinds:
        keys |= {'WKS': {'cost'}, 'MC': {'probability'}, 'MDP': {'probability', 'action'}}.get(k, set())
    st = {}
    constructors(I, st, keys)
    NAME = f'{MOD}:synchronous_parallel'
    nm = f'synchronous_parallel({", ".join(kinds)})'

    def setup(I):
        st['out'] = None
        for c in cs:
            k = I.const('k', V)
            I.assume(ForAll_([k], c.ACT(k) != I.enc_.enc(None)))
        return lambda: I.call(ctx.resolve(NAME), [PList([single(c.obj(ctx)) for c in cs])], {})

    def post(I, out):
        if want is None:
            I.prove(z3.BoolVal(isinstance(out, Raised) and out.cls is TypeError), f'{nm}: rejected with TypeError')
            return
        if not ctx.no_raise(I, out, nm):
            return
        g = st['out']
        ok = g is not None and out is g.o
        I.prove(z3.BoolVal(ok and out.cls.name == KINDS[want]), f'{nm}: a {want}')
        if not ok:
            return
        s = [I.const('s', V) for _ in cs]
        t = [I.const('t', V) for _ in cs]
        tup = lambda xs: tuple(Sym(x) for x in xs)
        isin = lambda c, v: z3b(I.member_parts(v, c.parts))
        I.prove(isin(g.nodes, tup(s)) == And_(*[c.S(x) for c, x in zip(cs, s)]), f'{nm}: states')
        I.prove(isin(g.init, tup(s)) == And_(*[c.INIT(x) for c, x in zip(cs, s)]), f'{nm}: initial states')
        p, a = I.const('p', V), I.const('a', V)
        I.prove(isin(g.props, Sym(p)) == Or_(*[c.AP(p) for c in cs]), f'{nm}: propositions')
        I.prove(isin(g.labels, (tup(s), Sym(p))) == And_(*[c.S(x) for c, x in zip(cs, s)], Or_(
            *[c.LAB(x, p) for c, x in zip(cs, s)])), f'{nm}: labels')
        acting = [c for c in cs if c.kind == 'MDP']
        if len(acting) == 1:
            I.prove(isin(g.acts, Sym(a)) == acting[0].ACTS(a), f'{nm}: actions')
        elif acting:
            xs = [I.const('a', V) for _ in acting]
            I.prove(isin(g.acts, tup(xs)) == And_(*[c.ACTS(x) for c, x in zip(acting, xs)]), f'{nm}: actions')
        # transitions: each choice yields one, and each one comes from a choice
        ks = [I.const('k', V) for _ in cs]

        def val(ks):
            cost = [c.COST(k) for c, k in zip(cs, ks) if c.kind == 'WKS']
            prob = [c.PROB(k) for c, k in zip(cs, ks) if c.kind in ('MC', 'MDP')]
            act = [Sym(c.ACT(k)) for c, k in zip(cs, ks) if c.kind == 'MDP']
            pr = prob[0] if prob else None
            for x in prob[1:]:
                pr = pr * x
            return (SN(sum(cost[1:], cost[0])) if cost else None, SN(pr) if prob else None,
                    (act[0] if len(act) == 1 else tuple(act)) if act else None)
        pre = And_(*[c.T(k) for c, k in zip(cs, ks)])
        row = (tup([c.SRC(k) for c, k in zip(cs, ks)]), tup([c.DST(k) for c, k in zip(cs, ks)])) + val(ks)
        I.prove(Implies_(pre, isin(g.trans, row)), f'{nm}: a transition for each choice')
        spec = PSet([Part(tuple(ks), pre, row)])
        for part in map(I.inst, g.trans.parts):
            I.prove(Implies_(part.cond, isin(spec, part.val)), f'{nm}: no other transition')
    ctx.verify(nm, setup, post, NAME)


# ------------------------------------------------------------ policies
def g_policy(ctx):
    I = ctx.new(timeout_ms=20000)
    c = Comp(I, 0, 'MDP')
    I.axioms += c.axioms
    st = {}
    constructors(I, st, {'probability'})
    POL = F('policy', V, V)
    NAME = f'{MOD}:apply_policy'

    def setup(I):
        st['out'] = None
        I.ext['copy']['deepcopy'] = Builtin('deepcopy', lib.copy_deep)
        pol = A('policy', **{'%item': lambda I, s: Sym(POL(I.enc_.enc(s)))})
        return lambda: I.call(ctx.resolve(NAME), [c.obj(ctx), pol], {})

    def post(I, out):
        nm = 'apply_policy'
        if not ctx.no_raise(I, out, nm):
            return
        g = st['out']
        ok = g is not None and out is g.o
        I.prove(z3.BoolVal(ok and out.cls.name == 'MarkovChain'), f'{nm}: a Markov chain')
        if not ok:
            return
        s, p, k = I.const('s', V), I.const('p', V), I.const('k', V)
        isin = lambda c, v: z3b(I.member_parts(v, c.parts))
        I.prove(isin(g.nodes, Sym(s)) == c.S(s), f'{nm}: states')
        I.prove(isin(g.init, Sym(s)) == c.INIT(s), f'{nm}: initial states')
        I.prove(isin(g.props, Sym(p)) == c.AP(p), f'{nm}: propositions')
        I.prove(isin(g.labels, (Sym(s), Sym(p))) == And_(c.S(s), c.LAB(s, p)), f'{nm}: labels')
        pre = And_(c.T(k), c.ACT(k) == POL(c.SRC(k)))
        row = (Sym(c.SRC(k)), Sym(c.DST(k)), None, SN(c.PROB(k)), None)
        I.prove(Implies_(pre, isin(g.trans, row)), f'{nm}: the transitions of the chosen action are kept')
        spec = PSet([Part((k,), pre, row)])
        for part in map(I.inst, g.trans.parts):
            I.prove(Implies_(part.cond, isin(spec, part.val)), f'{nm}: no other transition')
    ctx.verify('apply_policy', setup, post, NAME)
    for k in ('KS', 'WKS', 'MC', 'FiniteTransitionSystem'):
        def setup2(I):
            o = Comp(I, 1, k).obj(ctx) if k in KINDS else Obj(ctx.resolve(f'{TR}:{k}'), {})
            return lambda: I.call(ctx.resolve(NAME), [o, A('policy')], {})
        ctx.verify(f'apply_policy({k})', setup2, lambda I, out: I.prove(z3.BoolVal(
            isinstance(out, Raised) and out.cls is TypeError), f'apply_policy({k}): rejected with TypeError'), NAME)


# ------------------------------------------------------------ kind of the composition, for any list of models
def g_kind(ctx):
    I = ctx.new(timeout_ms=20000)
    KIND = F('kind', V, z3.IntSort())
    M = F('model', V, B)
    names = list(KINDS) + ['other']
    st = {}

    NAME = f'{MOD}:_get_composed_model_type'

    class Any(Val):
        """a model of unknown kind"""

        def __init__(self, t):
            self.t = t

        def subst(self, pairs):
            return Any(z3.substitute(self.t, *pairs))

        def isinstance_(self, I, name):
            ok = dict(KripkeStructure=[0, 1, 2, 3], WeightedKripkeStructure=[1], MarkovChain=[2, 3], MarkovDecisionProcess=[3],
                      LabeledDiGraph=[0, 1, 2, 3])
            if name not in ok:
                raise Unsupported(f'isinstance {name}')
            return SB(Or_(*[KIND(self.t) == i for i in ok[name]]))

    def setup(I):
        x = I.const('x', V)
        return lambda: I.call(ctx.resolve(NAME), [PList([Part((x,), M(x), Any(x))])], {})

    def post(I, out):
        nm = '_get_composed_model_type'
        if not ctx.no_raise(I, out, nm):
            return
        x = I.const('x', V)
        some = lambda *ks: Exists_([x], And_(M(x), Or_(*[KIND(x) == names.index(k) for k in ks])))
        bad = Or_(Exists_([x], And_(M(x), Or_(KIND(x) < 0, KIND(x) > 3))), And_(some('WKS'), some('MC', 'MDP')))
        got = 'none' if out is None else getattr(out, 'name', '?')
        if out is None:
            I.prove(bad, f'{nm}: only incompatible components are rejected')
            return
        I.prove(Not_(bad), f'{nm}: incompatible components are rejected')
        want = dict(MarkovDecisionProcess=some('MDP'), MarkovChain=And_(some('MC'), Not_(some('MDP'))),
                    WeightedKripkeStructure=And_(some('WKS'), Not_(some('MC', 'MDP'))),
                    KripkeStructure=Not_(some('WKS', 'MC', 'MDP')))
        I.prove(want.get(got, FALSE), f'{nm}: the most specific kind ({got})')
    ctx.verify('_get_composed_model_type', setup, post, NAME)


def combos(n):
    return [k for k in itertools.combinations_with_replacement(KINDS, n)]


TWO = [k for k in itertools.product(KINDS, repeat=2)]
THREE = [k for k in itertools.combinations_with_replacement(KINDS, 3)]
GROUPS = [Group('kind of the composition', g_kind), Group('policy', g_policy),
          Group('one component', mk_sync(1, [(k,) for k in KINDS])), Group('two components, first half', mk_sync(2, TWO[:8])),
          Group('two components, second half', mk_sync(2, TWO[8:])),
          Group('three components, first half', mk_sync(3, THREE[:10])), Group('three components, second half', mk_sync(3, THREE[10:]))]
ASSUMED = ['queries and edits of graphs through contracts (C06, C07): transitions.find, states.add, transitions.add, label assignment',
           'each transition carries exactly the attributes its kind declares; costs and probabilities are real numbers (vector costs: C01)']
BOUNDED = ['compositions of more than 3 components: bounded executions only; the proof is for 1, 2 and 3 components of arbitrary size',
           'composites with user-given attribute operations: bounded executions']
