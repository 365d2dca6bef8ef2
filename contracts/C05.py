"""Contracts for minimum-violation planning (tulip/mvp.py, tulip/spec/prioritized_safety.py)."""
import ast
import z3
from vf.contract import *
from vf import lib
from vf.core import _MISSING
from vf.digraph import A, F, B, Z
from contracts.C10 import St, fam, mem, z3b

M = 'tulip.mvp'
PS = 'tulip.spec.prioritized_safety'
R = z3.RealSort()
NR, NL = z3.Ints('number_of_rules number_of_levels')
LVL, PRIO = F('level', Z, Z), F('priority', Z, R)
COMP = F('component', V, Z, V)                        # of a tuple of states of the automata
DELTA = F('automaton_transition', Z, V, V, V, B)      # rule, state, state, letter
EXACT = lambda i, q, q2, a: DELTA(i, COMP(q, i), COMP(q2, i), a)
AP = F('propositions_of', V, V)
TOTAL = F('sum_of_violated_priorities', V, V, V, Z, R)    # q, q2, letter, level
K, KINIT = F('state_of_the_system', V, B), F('initial_state', V, B)
KE, HASW, W = F('transition', V, V, V, B), F('has_cost', V, V, V, B), F('cost', V, V, V, R)
Q, QINIT, QACC = F('states_of_rules', V, B), F('initial_of_rules', V, B), F('accepting_of_rules', V, B)


class T(Sym):
    """A tuple of states of the automata."""
    __slots__ = ()

    def subst(self, pairs):
        return T(z3.substitute(self.t, *pairs))

    def getitem_(self, I, i):
        t = lib.to_num(I, i)
        if t is None:
            raise Unsupported('component of a state')
        I.prove(And_(0 <= t, t < NR), 'a component of the state for each rule')
        return Sym(COMP(self.t, t))

    def len_(self, I):
        return SN(NR)


class Rule(Val):
    def __init__(self, i):
        self.i = i

    def subst(self, pairs):
        return Rule(z3.substitute(self.i, *pairs))

    def getattr_(self, I, name):
        r = dict(level=SN(LVL(self.i)), priority=SN(PRIO(self.i)))
        if name in r:
            return Builtin(name, lambda I: r[name])
        if name == 'automaton':
            i = self.i

            def find(I, u=None, v=None, with_attr_dict=None, **kw):
                a, k = I.const('letter', V), I.const('k', V)
                if with_attr_dict is not None:
                    raise Unsupported('query of the transitions of a rule')
                x, y = I.const('q', V), I.const('q2', V)
                c, vs = TRUE, []
                ends = []
                for w, s in ((u, x), (v, y)):
                    if w is None:
                        vs.append(s)
                        ends.append(Sym(s))
                    else:
                        w = I.the_single(w) if isinstance(w, Container) else w
                        ends.append(w)
                ut, vt = I.enc_.enc(ends[0]), I.enc_.enc(ends[1])
                c = DELTA(i, ut, vt, a)
                for key, val in kw.items():
                    if key != 'letter':
                        raise Unsupported('query of the transitions of a rule')
                    c = And_(c, a == I.enc_.enc(val))
                return PList([Part(tuple(vs) + (a,), c, (ends[0], ends[1], PDict([single(('letter', Sym(a)))])))])
            return Builtin(name, lambda I: A('automaton', transitions=A('transitions', find=Builtin('find', find))))
        raise Unsupported(f'rule.{name}')


class Spec(A):
    """A specification, by the contract of PrioritizedSpecification."""

    def isinstance_(self, I, name):
        return name in ('PrioritizedSpecification', 'Iterable')


def rules(I):
    i = I.const('i', Z)
    return [Part((i,), And_(0 <= i, i < NR), Rule(i), NR)]


def nth(I, k):
    t = lib.to_num(I, k)
    I.prove(And_(0 <= t, t < NR), 'a rule of the specification')
    return Rule(t)


def states(f):
    def get(I):
        q = I.const('q', V)
        return It([Part((q,), f(q), T(q))])
    return Builtin('states', get)


def spec(I):
    return Spec('specification', **{'%iter': rules, '%item': nth, '%len': lambda I: SN(NR)},
                get_num_levels=Builtin('get_num_levels', lambda I: SN(NL)), get_rules=Builtin('get_rules', lambda I: PList(rules(I))),
                get_states=states(Q), get_initial_states=states(QINIT), get_accepting_states=states(QACC), atomic_propositions=Sym(z3.Const('propositions_of_rules', V)))


def base(I):
    i, u = z3.Int('i'), z3.Const('u', V)
    I.assume(And_(NR >= 0, NL >= 0))
    I.assume(ForAll_([i], Implies_(And_(0 <= i, i < NR), And_(0 <= LVL(i), LVL(i) < NL, PRIO(i) > 0))))
    I.assume(ForAll_([u], Implies_(Or_(QINIT(u), QACC(u)), Q(u))))
    I.assume(ForAll_([u], Implies_(KINIT(u), K(u))))


def letters(I):
    """Equality of sets of propositions is equality of their terms."""
    def mkset(I, a=None):
        return a if type(a) is Sym else lib.BUILTINS['set'].fn(I, *([] if a is None else [a]))
    I.overrides[f'{M}:set'] = Builtin('set', mkset)


# ------------------------------------------------------------------ cost of a transition
def mk_cost(ctx):
    I = ctx.new()
    letters(I)
    st = {}

    def rule(I, fr, node, it):
        ps = I.iter_parts(it) if isinstance(it, Container) else it.iter_(I) if hasattr(it, 'iter_') else []
        if len(ps) != 1 or not (isinstance(ps[0].val, Rule) or isinstance(ps[0].val, tuple) and any(isinstance(x, Rule) for x in ps[0].val)):
            return False
        targets = {t.value.id for s in node.body for t in ast.walk(s) if isinstance(t, ast.Subscript) and isinstance(t.ctx, ast.Store) and isinstance(t.value, ast.Name)}
        targets = targets or {t.id for s in node.body for t in ast.walk(s) if isinstance(t, ast.Name)}
        lists = [fr.f[n] for n in sorted(targets) if isinstance(fr.f.get(n), PList)]
        if len(lists) != 1:
            return False
        c, = lists
        l = I.const('l', Z)
        shape(I, c, NL, 'one cost for each level')
        if c.parts[0].ordered is not None:
            p = I.inst(c.parts[0])
            I.prove(Implies_(p.cond, lib.to_num(I, p.val) == 0), 'all costs are initially zero')
        if I.choose([TRUE, TRUE]) == 1:
            j = I.const('j', Z)
            I.set_parts(c, [Part((j,), And_(0 <= j, j < NL), SN(TOTAL(st['q'], st['q2'], st['a'], j)), NL)])
            I.exec_block(node.orelse, fr)
            return True
        f = I.func('cost_so_far', Z, R)
        j = I.const('j', Z)
        I.set_parts(c, [Part((j,), And_(0 <= j, j < NL), SN(f(j)), NL)])
        p = I.inst(ps[0])
        I.assume(p.cond)
        I.iteration(fr, node, p, [c])
        shape(I, c, NL, 'one cost for each level after a rule')
        i = p.vars[0]
        add = z3.If(And_(LVL(i) == l, Not_(EXACT(i, st['q'], st['q2'], st['a']))), PRIO(i), z3.RealVal(0))
        q = I.inst(c.parts[0])
        I.prove(Implies_(And_(0 <= l, l < NL), z3.substitute(lib.to_num(I, q.val), (q.vars[0], l)) == f(l) + add),
                'a rule adds its priority to its level exactly if it is violated')
        raise Infeasible()
    I.for_rules.append(rule)

    def setup(I):
        base(I)
        st['q'], st['q2'] = I.const('q', V), I.const('q2', V)
        x, y = I.sym('x'), I.sym('y')
        st['a'] = AP(y.t)
        I.assume(ForAll_([z3.Int('l')], Implies_(NR == 0, TOTAL(st['q'], st['q2'], st['a'], z3.Int('l')) == 0)))
        return lambda: I.call(ctx.resolve(f'{M}:_get_rule_violation_cost'), [(x, T(st['q'])), (y, T(st['q2'])), spec(I), Sym(st['a'])], {})

    def post(I, out):
        nm = '_get_rule_violation_cost'
        if ctx.no_raise(I, out, nm):
            total(I, out, st['q'], st['q2'], st['a'], nm)
    ctx.verify('_get_rule_violation_cost', setup, post, f'{M}:_get_rule_violation_cost')


def shape(I, c, n, what):
    ok = isinstance(c, PList) and len(c.parts) == 1 and c.parts[0].ordered is not None
    I.prove(Implies_(n >= 0, c.parts[0].ordered == n) if ok else FALSE, what)
    if not ok:
        raise Infeasible()


def total(I, out, q, q2, a, nm):
    shape(I, out, NL, f'{nm}: one cost for each level')
    p = I.inst(out.parts[0])
    I.prove(Implies_(p.cond, lib.to_num(I, p.val) == TOTAL(q, q2, a, p.vars[0])), f'{nm}: the cost of a level is the sum of the priorities of its violated rules')


# ------------------------------------------------------------------ one transition
def mk_edge(ctx):
    I = ctx.new()
    st = {}

    def cost(I, f, args, kw):
        b = I.bind(f, args, kw)
        ok = b['spec'] is st['spec'] and b['from_prod_state'] is st['from'] and b['to_prod_state'] is st['to'] and type(b['to_ap']) is Sym
        I.prove(z3.BoolVal(ok), 'the cost of this transition')
        I.prove(b['to_ap'].t == AP(st['to'][0].t), 'the propositions of the entered state')
        j = I.const('j', Z)
        return PList([Part((j,), And_(0 <= j, j < NL), SN(TOTAL(st['q'], st['q2'], b['to_ap'].t, j)), NL)])
    I.contracts[f'{M}:_get_rule_violation_cost'] = cost

    def setup(I):
        base(I)
        st['q'], st['q2'] = I.const('q', V), I.const('q2', V)
        x, y = I.sym('x'), I.sym('y')
        I.assume(K(y.t))
        st['from'], st['to'] = (x, T(st['q'])), (y, T(st['q2']))
        st['spec'] = spec(I)
        st['added'] = PList()
        w = st['w'] = I.const('cost_of_transition', R)

        def item(I, s):
            I.prove(K(I.enc_.enc(s)), 'a state of the system')
            return A('attributes', **{'%item': lambda I, k: Sym(AP(I.enc_.enc(s))) if k == 'ap' else bad(k)})

        def add(I, u, v, attr_dict=None, **kw):
            if kw or attr_dict is None:
                attr_dict = PDict([single(x) for x in kw.items()])
            I.add_parts(st['added'], [single((u, v, attr_dict))])
        ks = A('system', states=A('states', **{'%item': item}))
        fa = A('product', transitions=A('transitions', add=Builtin('add', add)))
        return lambda: I.call(ctx.resolve(f'{M}:_add_transition_edge'), [st['from'], st['to'], ks, st['spec'], SN(w), fa], {})

    def post(I, out):
        nm = '_add_transition_edge'
        if not ctx.no_raise(I, out, nm):
            return
        ps = st['added'].parts
        ok = len(ps) == 1 and not ps[0].vars and z3.is_true(ps[0].cond)
        I.prove(z3.BoolVal(ok), f'{nm}: one transition')
        if not ok:
            return
        u, v, d = ps[0].val
        I.prove(z3.BoolVal(u is st['from'] and v is st['to']), f'{nm}: from and to the given states')
        ok = isinstance(d, PDict) and len(d.parts) == 1 and d.parts[0].val[0] == 'cost'
        I.prove(z3.BoolVal(ok), f'{nm}: labeled with a cost')
        if not ok:
            return
        c = d.parts[0].val[1]
        ok = isinstance(c, Obj) and getattr(c.cls, 'name', '') == 'VectorCost'
        I.prove(z3.BoolVal(ok), f'{nm}: a vector')
        if not ok:
            return
        ls = [x for x in c.f.values() if isinstance(x, (Container, tuple))]
        ps = ls[0].parts if len(ls) == 1 and isinstance(ls[0], Container) else ()
        ok = len(ps) == 2 and ps[0].ordered is not None and not ps[1].vars and z3.is_true(ps[1].cond)
        if not ok:
            raise Unsupported('components of the cost')
        total(I, PList([ps[0]]), st['q'], st['q2'], AP(st['to'][0].t), nm)
        I.prove(lib.to_num(I, ps[1].val) == st['w'], f'{nm}: the cost of the transition of the system is last')
    ctx.verify('_add_transition_edge', setup, post, f'{M}:_add_transition_edge')


def bad(k):
    raise Unsupported(f'item {k}')


# ------------------------------------------------------------------ transitions
def mk_add(ctx):
    for once in (True, False):
        I = ctx.new()
        st = {}

        def edge(I, f, args, kw):
            b = I.bind(f, args, kw)
            I.prove(z3.BoolVal(b['ks'] is st['ks'] and b['spec'] is st['spec'] and b['fa'] is st['fa']), 'system, rules and product are passed on')
            I.add_parts(st['added'], [single((b['from_prod_state'], b['to_prod_state'], b['trans_ks_cost']))])
        I.contracts[f'{M}:_add_transition_edge'] = edge
        P, P2 = F('source', V, V, B), F('target', V, V, B)

        def setup(I):
            base(I)
            st.update(ks=A('system'), spec=spec(I), fa=A('product'), added=PList(), w=I.const('cost_of_transition', R))
            x, q, y, q2 = (I.const(n, V) for n in ('x', 'q', 'y', 'q2'))
            a, b = Part((x, q), P(x, q), (Sym(x), T(q))), Part((y, q2), P2(y, q2), (Sym(y), T(q2)))
            mk = It if once else PList
            return lambda: I.call(ctx.resolve(f'{M}:_add_transition'), [mk([a]), It([b]), st['ks'], st['spec'], SN(st['w']), st['fa']], {})

        def post(I, out):
            nm = f'_add_transition({"iterator" if once else "collection"} of sources)'
            if not ctx.no_raise(I, out, nm):
                return
            x, q, y, q2 = (I.const(n, V) for n in ('x', 'q', 'y', 'q2'))
            w = I.const('w', R)
            I.prove(edges(I, st['added'], x, q, y, q2, w) == And_(P(x, q), P2(y, q2), w == st['w']), f'{nm}: one transition for each pair of states')
        ctx.verify(f'_add_transition({once})', setup, post, f'{M}:_add_transition')


def edges(I, c, x, q, y, q2, w):
    fs = []
    for p in map(I.inst, c.parts):
        (a, b), (d, e), t = p.val
        t = lib.to_num(I, t)
        t = z3.ToReal(t) if z3.is_int(t) else t
        fs.append(Exists_(list(p.vars), And_(p.cond, I.enc_.enc(a) == x, I.enc_.enc(b) == q, I.enc_.enc(d) == y, I.enc_.enc(e) == q2, t == w)))
    return Or_(*fs)


# ------------------------------------------------------------------ product
def system(I, st):
    x = I.const('x', V)

    def item(I, s):
        I.prove(K(I.enc_.enc(s)), 'a state of the system')
        return A('attributes', **{'%item': lambda I, k: PropsOf(I.enc_.enc(s)) if k == 'ap' else bad(k)})
    u, v, k = (I.const(n, V) for n in 'uvk')

    class Attr(Val):
        def __init__(self, u, v, k):
            self.a = (u, v, k)

        def subst(self, pairs):
            return Attr(*[z3.substitute(t, *pairs) for t in self.a])

        def getattr_(self, I, name):
            if name == 'get':
                return Builtin('get', lambda I, key, d=None: SN(z3.If(HASW(*self.a), W(*self.a), num(I, d))) if key == 'cost' else bad(key))
            raise Unsupported(name)

        def contains_(self, I, key):
            return HASW(*self.a) if key == 'cost' else bad(key)

        def getitem_(self, I, key):
            if key != 'cost':
                bad(key)
            I.prove(HASW(*self.a), 'the transition has a cost')
            return SN(W(*self.a))

    def find(I, *a, **kw):
        if a or kw:
            raise Unsupported('query of the system')
        return PList([Part((u, v, k), KE(u, v, k), (Sym(u), Sym(v), Attr(u, v, k)))])
    I.assume(ForAll_([u, v, k], Implies_(KE(u, v, k), And_(K(u), K(v)))))
    st['kprops'] = Sym(z3.Const('propositions_of_system', V))
    return Kripke('system', states=A('states', **{'%item': item, '%iter': lambda I: [fam(I, K)], '%in': lambda I, s: K(I.enc_.enc(s))},
                                     initial=A('initial', **{'%iter': lambda I: [fam(I, KINIT)], '%in': lambda I, s: KINIT(I.enc_.enc(s))})),
                  transitions=A('transitions', find=Builtin('find', find)), atomic_propositions=st['kprops'])


def num(I, d):
    t = lib.to_num(I, d)
    return z3.ToReal(t) if z3.is_int(t) else t


class Kripke(A):
    def isinstance_(self, I, name):
        return name == 'KripkeStructure'


GOAL = F('proposition_holds', V, V, B)


class PropsOf(Val):
    def __init__(self, s):
        self.s = s

    def subst(self, pairs):
        return PropsOf(z3.substitute(self.s, *pairs))

    def contains_(self, I, p):
        return GOAL(self.s, I.enc_.enc(p))


def pairs_of(I, ps, x, q):
    return Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == x, I.enc_.enc(p.val[1]) == q)) for p in map(I.inst, ps)])


def subset(I, ps, ok, what):
    for p in map(I.inst, ps):
        if not (isinstance(p.val, tuple) and len(p.val) == 2):
            I.prove(FALSE, f'{what}: pairs of states')
            continue
        I.prove(ForAll_(list(p.vars), Implies_(p.cond, ok(I.enc_.enc(p.val[0]), I.enc_.enc(p.val[1])))), what)


def mk_product(ctx):
    I = ctx.new()
    I.feas_ground = True
    st = {}

    def new(I):
        g = {k: PList() for k in ('states', 'initial', 'accepting', 'edges')}
        within = lambda key: lambda x, q: pairs_of(I, g[key].parts, x, q)

        def adder(key, sup=None):
            def add_from(I, c):
                ps = I.iter_parts(c)
                if sup:
                    subset(I, ps, within(sup), f'{key} states are states')
                I.add_parts(g[key], ps)
            return Builtin('add_from', add_from)

        def view(key):
            def it(I):
                I.note_read(g[key])
                return list(g[key].parts)
            return it
        initial = A('initial', add_from=adder('initial', 'states'), **{'%iter': view('initial')})
        g['aps'] = []
        fa = A('product', states=A('states', add_from=adder('states'), initial=initial, **{'%iter': view('states')}),
               accepting=A('accepting', add_from=adder('accepting', 'states')),
               atomic_propositions=A('propositions', add_from=Builtin('add_from', lambda I, c: g['aps'].append(c))))
        g['fa'] = fa
        st['made'].append(g)
        return fa
    I.overrides[f'{M}:WFA'] = Builtin('WFA', new)

    def add(I, f, args, kw):
        b = I.bind(f, args, kw)
        gs = [g for g in st['made'] if g['fa'] is b['fa']]
        I.prove(z3.BoolVal(b['ks'] is st['ks'] and b['spec'] is st['spec'] and len(gs) == 1), 'system, rules and product are passed on')
        if len(gs) != 1:
            raise Infeasible()
        g = gs[0]
        fs, ts = I.iter_parts(b['from_prod_states']), I.iter_parts(b['to_prod_states'])
        ok = lambda x, q: pairs_of(I, g['states'].parts, x, q)
        subset(I, fs, ok, 'transitions leave states of the product')
        subset(I, ts, lambda x, q: And_(ok(x, q), K(x)), 'transitions enter states of the product with propositions')
        out = []
        for a in fs:
            for c in ts:
                a1, c1 = I.inst(a), I.inst(c)
                out.append(Part(tuple(a1.vars) + tuple(c1.vars), And_(a1.cond, c1.cond), (a1.val, c1.val, b['trans_ks_cost'])))
        I.add_parts(g['edges'], out)
    I.contracts[f'{M}:_add_transition'] = add

    def wrule(I, fr, node):
        names = [n for n in lib_names(node) if isinstance(fr.f.get(n), (str, SStr, Sym))]
        if len(names) != 1:
            return False
        I.inv_while(fr, node, lambda: I.set_field(fr, names[0], I.sym('marker')) or [], lambda: [], 'name of the marker', keep=names)
        return True
    I.while_rules[:] = [wrule]

    def setup(I):
        st.clear()
        st['made'] = []
        base(I)
        st['ks'], st['spec'] = system(I, st), spec(I)
        return lambda: I.call(ctx.resolve(f'{M}:_construct_weighted_product_automaton'), [st['ks'], st['spec']], {})

    def post(I, out):
        nm = 'product'
        if not ctx.no_raise(I, out, nm):
            return
        gs = [g for g in st['made'] if isinstance(out, tuple) and len(out) == 2 and g['fa'] is out[0]]
        I.prove(z3.BoolVal(len(gs) == 1), f'{nm}: an automaton and the marker')
        if not gs:
            return
        g, = gs
        n = I.enc_.enc(out[1])
        x, q, y, q2, k = (I.const(s, V) for s in ('x', 'q', 'y', 'q2', 'k'))
        w = I.const('w', R)
        I.prove(Not_(K(n)), f'{nm}: the marker is no state of the system')
        in_ = lambda key: pairs_of(I, g[key].parts, x, q)
        I.prove(in_('states') == And_(Or_(K(x), x == n), Q(q)), f'{nm}: states')
        I.prove(in_('initial') == And_(x == n, QINIT(q)), f'{nm}: initial states')
        I.prove(in_('accepting') == And_(K(x), QACC(q)), f'{nm}: accepting states')
        want = Or_(Exists_([k], And_(KE(x, y, k), Q(q), Q(q2), w == z3.If(HASW(x, y, k), W(x, y, k), z3.RealVal(0)))),
                   And_(x == n, QINIT(q), KINIT(y), Q(q2), w == 0))
        I.prove(edges(I, g['edges'], x, q, y, q2, w) == want, f'{nm}: a transition for each transition of the system and each pair of states of the rules')
        I.prove(z3.BoolVal(len(g['aps']) == 1 and g['aps'][0] is st['kprops']), f'{nm}: atomic propositions')
    ctx.verify('_construct_weighted_product_automaton', setup, post, f'{M}:_construct_weighted_product_automaton')


def lib_names(node):
    from vf.interp import assigned_names
    return assigned_names(node.body)


# ------------------------------------------------------------------ solve
def mk_solve(ctx):
    I = ctx.new()
    st = {}
    PX, PQ, LEN = F('path_state', Z, V), F('path_rules', Z, V), z3.Int('length_of_path')
    OKT = z3.Bools('system_is_a_kripke_structure rules_are_a_specification')

    def construct(I, f, args, kw):
        b = I.bind(f, args, kw)
        I.prove(z3.BoolVal(b['ks'] is st['ks'] and b['spec'] is st['spec']), 'the product of the given system and rules')
        return (st['wpa'], Sym(st['null']))
    I.contracts[f'{M}:_construct_weighted_product_automaton'] = construct

    def search(I, f, args, kw):
        b = list(I.bind(f, args, kw).values())
        I.prove(z3.BoolVal(b[0] is st['wpa'] and b[1] is st['init'] and b[3] == 'cost'), 'the search starts at the initial states of the product, by cost')
        x, q = I.const('x', V), I.const('q', V)
        ps = b[2].f['%set'].parts if isinstance(b[2], Obj) and '%set' in b[2].f else I.iter_parts(b[2])
        I.prove(pairs_of(I, ps, x, q) == And_(K(x), QACC(q), GOAL(x, st['goal'].t)), 'the search ends at the accepting states at the goal')
        j = I.const('j', Z)
        I.assume(LEN >= 0)
        st['path'] = PList([Part((j,), And_(0 <= j, j < LEN), (Sym(PX(j)), T(PQ(j))), LEN)])
        return (st['cost'], st['path'])
    I.contracts['tulip.transys.graph_algorithms:dijkstra_multiple_sources_multiple_targets'] = search

    def sub(I, sup):
        I.prove(z3.BoolVal(sup is st['acc']), 'targets are accepting states')
        o = Obj(None, {'%set': PSet()})

        class Sub(A):
            def __init__(self):
                super().__init__('targets', **{'%iter': lambda I: list(o.f['%set'].parts)})

        def add_from(I, c):
            ps = I.iter_parts(c)
            subset(I, ps, lambda x, q: And_(K(x), QACC(q)), 'targets are accepting states')
            I.add_parts(o.f['%set'], ps)
        s = A('targets', add_from=Builtin('add_from', add_from), **{'%iter': lambda I: list(o.f['%set'].parts)})
        return s
    I.overrides['tulip.transys:SubSet'] = Builtin('SubSet', sub)
    I.overrides['tulip.transys.mathset:SubSet'] = Builtin('SubSet', sub)

    class MaybeK(Kripke):
        def isinstance_(self, I, name):
            return OKT[0] if name == 'KripkeStructure' else FALSE

    class MaybeS(Spec):
        def isinstance_(self, I, name):
            return OKT[1] if name == 'PrioritizedSpecification' else FALSE

    def setup(I):
        st.clear()
        base(I)
        ks, sp = system(I, st), spec(I)
        ks.__class__, sp.__class__ = MaybeK, MaybeS
        st.update(ks=ks, spec=sp, goal=I.sym('goal'), null=I.const('marker', V), cost=A('cost'))
        I.assume(Not_(K(st['null'])))
        acc, init = st['acc'], st['init'] = A('accepting'), A('initial')
        st['wpa'] = A('product', accepting=acc, states=A('states', initial=init))
        return lambda: I.call(ctx.resolve(f'{M}:solve'), [ks, st['goal'], sp], {})

    def post(I, out):
        nm = 'solve'
        same = st['kprops'].t == z3.Const('propositions_of_rules', V)
        if isinstance(out, Raised):
            if out.cls is TypeError:
                I.prove(Not_(And_(*OKT)), f'{nm}: refuses only other kinds of arguments')
            else:
                I.prove(z3.BoolVal(out.cls is ValueError), f'{nm}: raises only TypeError or ValueError')
                I.prove(Not_(same), f'{nm}: refuses only rules over other propositions')
            return
        I.prove(And_(*OKT, same), f'{nm}: arguments')
        ok = isinstance(out, tuple) and len(out) == 4 and out[0] is st['cost'] and out[2] is st['path'] and out[3] is st['wpa']
        I.prove(z3.BoolVal(ok), f'{nm}: the cost, the path and the product of the search')
        if not ok:
            return
        ps = out[1].parts if isinstance(out[1], PList) else ()
        ok = len(ps) == 1 and len(ps[0].vars) == 1
        I.prove(z3.BoolVal(ok), f'{nm}: the states of the path')
        if not ok:
            return
        p = I.inst(ps[0])
        j = p.vars[0]
        I.prove(p.cond == And_(0 <= j, j < LEN, PX(j) != st['null']), f'{nm}: the states of the path without the marker')
        I.prove(Implies_(p.cond, I.enc_.enc(p.val) == PX(j)), f'{nm}: the states of the path in their order')
    ctx.verify('solve', setup, post, f'{M}:solve')


# ------------------------------------------------------------------ prioritized specifications
CNT, PRE = F('rules_at_level', Z, Z), F('rules_before_level', Z, Z)
FAL, PRL = F('automaton_at', Z, Z, V), F('priority_at', Z, Z, Z)


class RL(Val):
    """Rule i of level l."""

    def __init__(self, l, i):
        self.l, self.i = l, i

    def subst(self, pairs):
        return RL(z3.substitute(self.l, *pairs), z3.substitute(self.i, *pairs))

    def getattr_(self, I, name):
        if name == 'automaton':
            return Builtin(name, lambda I: Auto(self.l, self.i))
        raise Unsupported(f'rule.{name}')


class Auto(Val):
    def __init__(self, l, i):
        self.l, self.i = l, i

    def subst(self, pairs):
        return Auto(z3.substitute(self.l, *pairs), z3.substitute(self.i, *pairs))

    def getattr_(self, I, name):
        if name == 'states':
            return StatesOf(self.l, self.i, 'states')
        if name == 'accepting':
            return StatesOf(self.l, self.i, 'accepting')
        raise Unsupported(f'automaton.{name}')


class StatesOf(Val):
    def __init__(self, l, i, what):
        self.l, self.i, self.what = l, i, what

    def subst(self, pairs):
        return StatesOf(z3.substitute(self.l, *pairs), z3.substitute(self.i, *pairs), self.what)

    def getattr_(self, I, name):
        if name == 'initial' and self.what == 'states':
            return StatesOf(self.l, self.i, 'initial')
        raise Unsupported(f'states.{name}')


class Level(Val):
    """The list of the rules of a level."""

    def __init__(self, l, st=None):
        self.l, self.st = l, st

    def subst(self, pairs):
        return Level(z3.substitute(self.l, *pairs), self.st)

    def len_(self, I):
        return SN(CNT(self.l))

    def iter_(self, I):
        i = I.const('i', Z)
        return [Part((i,), And_(0 <= i, i < CNT(self.l)), RL(self.l, i), CNT(self.l))]

    def getitem_(self, I, i):
        t = lib.to_num(I, i)
        I.prove(And_(0 <= t, t < CNT(self.l)), 'a rule of the level')
        return RL(self.l, t)

    def getattr_(self, I, name):
        if name == 'append' and self.st is not None:
            return Builtin('append', lambda I, r: I.add_parts(self.st['added'], [single((SN(self.l), r))]))
        raise Unsupported(f'level.{name}')


class Psi(St):
    """The list of the levels; its length is `n`."""

    def len_(self, I):
        return SN(self.get('n'))

    def truth_(self, I):
        return self.get('n') > 0

    def iter_(self, I):
        l = I.const('l', Z)
        n = self.get('n')
        return [Part((l,), And_(0 <= l, l < n), Level(l, self.get('st')), n)]

    def getitem_(self, I, l):
        t = lib.to_num(I, l)
        I.prove(And_(0 <= t, t < self.get('n')), 'a level of the specification')
        return Level(t, self.get('st'))

    def getattr_(self, I, name):
        if name == 'append':
            def append(I, x):
                I.prove(z3.BoolVal(isinstance(x, PList) and not x.parts), 'new levels have no rules')
                self.put(I, 'n', z3.simplify(self.get('n') + 1))
            return Builtin('append', append)
        raise Unsupported(f'levels.{name}')


def levels(I):
    l, m = z3.Int('l'), z3.Int('m')
    I.assume(And_(NL >= 0, PRE(0) == 0))
    I.assume(ForAll_([l], Implies_(And_(0 <= l, l < NL), And_(CNT(l) >= 0, PRE(l + 1) == PRE(l) + CNT(l)))))
    # sums of natural numbers grow (induction on the number of levels)
    I.assume(ForAll_([l], Implies_(And_(0 <= l, l <= NL), And_(PRE(l) <= PRE(NL), PRE(l) >= 0))))


def self_(ctx, I, st=None, **fields):
    psi = Psi(n=NL, st=st)
    return Obj(ctx.resolve(f'{PS}:PrioritizedSpecification'), dict(_Psi=psi, **fields)), psi


def mk_prio(ctx):
    C = f'{PS}:PrioritizedSpecification'
    # indexing
    I = ctx.new()
    st = {}

    def ints(fr, node):
        return [n for n in lib_names(node) if isinstance(fr.f.get(n), (int, SN)) and not isinstance(fr.f.get(n), bool)]

    def wrule(I, fr, node):
        ns = ints(fr, node)
        params = [n for n in ns if n in ('key',) or fr.f[n] is st['key']]
        others = [n for n in ns if n not in params]
        if len(params) != 1 or len(others) != 1:
            return False
        k, l = params[0], others[0]

        def havoc():
            I.set_field(fr, k, SN(I.const('key', Z)))
            I.set_field(fr, l, SN(I.const('level', Z)))
            return []

        def inv():
            kt, lt = num_i(I, fr.f[k]), num_i(I, fr.f[l])
            return [('position', And_(0 <= lt, lt <= NL, kt >= 0, kt + PRE(lt) == st['key'].t))]
        I.inv_while(fr, node, havoc, inv, 'search of the level', keep=[k, l])
        return True
    I.while_rules[:] = [wrule]

    def setup(I):
        levels(I)
        o, _ = self_(ctx, I)
        st['key'] = SN(I.const('index', Z))
        I.assume(st['key'].t >= 0)
        return lambda: I.call(ctx.resolve(f'{C}.__getitem__'), [o, st['key']], {})

    def post(I, out):
        nm = '__getitem__'
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.cls is IndexError), f'{nm}: raises only IndexError')
            I.prove(st['key'].t >= PRE(NL), f'{nm}: raises only outside of the rules')
            return
        at(I, out, st['key'].t, nm)
    ctx.verify('__getitem__', setup, post, f'{C}.__getitem__')

    # enumeration
    I = ctx.new()
    st2 = {}

    def wrule2(I, fr, node):
        o = fr.f.get('self')
        if o is not st2['o']:
            return False
        fs = [k for k, v in o.f.items() if isinstance(v, (int, SN)) and not isinstance(v, bool)]
        # which of the two is the level is known from the state after __iter__ only by the invariant
        if set(fs) != {'_iter_level', '_iter_index'}:
            return False

        def havoc():
            for f in fs:
                I.set_field(o, f, SN(I.const(f, Z)))
            return [o]
        I.inv_while(fr, node, havoc, lambda: [('position', position(I, o, st2['pos']))], 'search of the level')
        return True
    I.while_rules[:] = [wrule2]

    def setup2(I):
        levels(I)
        o, _ = self_(ctx, I, _iter_level=SN(I.const('level', Z)), _iter_index=SN(I.const('place', Z)))
        st2['o'], st2['pos'] = o, I.const('position', Z)
        I.assume(position(I, o, st2['pos']))
        return lambda: I.call(ctx.resolve(f'{C}.__next__'), [o], {})

    def post2(I, out):
        nm = '__next__'
        o = st2['o']
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.name == 'StopIteration'), f'{nm}: raises only StopIteration')
            I.prove(st2['pos'] >= PRE(NL), f'{nm}: stops only after the rules')
            return
        at(I, out, st2['pos'], nm)
        I.prove(position(I, o, st2['pos'] + 1), f'{nm}: moves to the next rule')
    ctx.verify('__next__', setup2, post2, f'{C}.__next__')

    I = ctx.new()
    st3 = {}

    def setup3(I):
        levels(I)
        o, _ = self_(ctx, I)
        st3['o'] = o
        return lambda: I.call(ctx.resolve(f'{C}.__iter__'), [o], {})

    def post3(I, out):
        if not ctx.no_raise(I, out, '__iter__'):
            return
        if not isinstance(out, Obj) or not {'_iter_level', '_iter_index'} <= set(out.f):
            raise Unsupported('another enumeration')
        I.prove(z3.BoolVal(out is st3['o']), '__iter__: enumerates the specification')
        I.prove(position(I, out, z3.IntVal(0)), '__iter__: starts at the first rule')
    ctx.verify('__iter__', setup3, post3, f'{C}.__iter__')

    # counting
    I = ctx.new()

    def summed(I, it, start=0):
        ps = I.iter_parts(it)
        ok = len(ps) == 1 and ps[0].ordered is not None and start == 0
        if not ok:
            raise Unsupported('sum')
        p = I.inst(ps[0])
        t = lib.to_num(I, p.val)
        I.prove(And_(p.ordered == NL, p.cond == And_(0 <= p.vars[0], p.vars[0] < NL), Implies_(p.cond, t == CNT(p.vars[0]))), 'the sum of the numbers of rules of the levels')
        return SN(PRE(NL))
    I.overrides[f'{PS}:sum'] = Builtin('sum', summed)
    for fn, want in (('__len__', PRE(NL)), ('get_num_levels', NL)):
        def setup4(I):
            levels(I)
            o, _ = self_(ctx, I)
            return lambda: I.call(ctx.resolve(f'{C}.{fn}'), [o], {})

        def post4(I, out):
            if ctx.no_raise(I, out, fn):
                I.prove(lib.to_num(I, out) == want, f'{fn}: counts')
        ctx.verify(fn, setup4, post4, f'{C}.{fn}')

    # all rules, and those of a level
    I = ctx.new()

    def setup5(I):
        levels(I)
        o, _ = self_(ctx, I)
        return lambda: I.call(ctx.resolve(f'{C}.get_rules'), [o], {})

    def post5(I, out):
        nm = 'get_rules'
        if not ctx.no_raise(I, out, nm):
            return
        ok = isinstance(out, PList) and all(isinstance(p.val, RL) for p in out.parts)
        I.prove(z3.BoolVal(ok), f'{nm}: a list of rules')
        if ok:
            l, i = I.const('l', Z), I.const('i', Z)
            some = Or_(*[Exists_(list(p.vars), And_(p.cond, p.val.l == l, p.val.i == i)) for p in map(I.inst, out.parts)])
            I.prove(some == And_(0 <= l, l < NL, 0 <= i, i < CNT(l)), f'{nm}: all rules')
    ctx.verify('get_rules', setup5, post5, f'{C}.get_rules')
    I = ctx.new()
    st6 = {}

    def setup6(I):
        levels(I)
        o, _ = self_(ctx, I)
        st6['l'] = I.const('l', Z)
        I.assume(st6['l'] >= 0)
        return lambda: I.call(ctx.resolve(f'{C}.get_rules_at'), [o, SN(st6['l'])], {})

    def post6(I, out):
        nm = 'get_rules_at'
        if not ctx.no_raise(I, out, nm):
            return
        if isinstance(out, Level):
            I.prove(out.l == st6['l'], f'{nm}: the rules of the level')
        else:
            I.prove(z3.BoolVal(isinstance(out, PList) and not out.parts), f'{nm}: a list')
            I.prove(st6['l'] >= NL, f'{nm}: no rules only beyond the levels')
    ctx.verify('get_rules_at', setup6, post6, f'{C}.get_rules_at')

    # states of the rules
    I = ctx.new()
    st7 = {}

    def prod(I, *a, **kw):
        if kw or len(a) != 1 or not isinstance(a[0], lib.StarArgs):
            raise Unsupported('product')
        return A('product', parts=list(a[0].parts))
    I.overrides['itertools:product'] = Builtin('product', prod)

    def enum(I, f, args, kw):
        l, i = I.const('l', Z), I.const('i', Z)
        return PList([Part((l, i), And_(0 <= l, l < NL, 0 <= i, i < CNT(l)), RL(l, i))])
    I.contracts[f'{C}.__iter__'] = enum
    for fn, what in (('get_states', 'states'), ('get_initial_states', 'initial'), ('get_accepting_states', 'accepting')):
        def setup7(I):
            levels(I)
            o, _ = self_(ctx, I)
            return lambda: I.call(ctx.resolve(f'{C}.{fn}'), [o], {})

        def post7(I, out):
            if not ctx.no_raise(I, out, fn):
                return
            if not isinstance(out, A):
                raise Unsupported('product of the states')
            ps = out.getattr_(I, 'parts')
            ok = len(ps) == 1 and isinstance(ps[0].val, StatesOf)
            I.prove(z3.BoolVal(ok), f'{fn}: a product with a factor for each rule')
            if not ok:
                return
            p = I.inst(ps[0])
            l, i = I.const('l', Z), I.const('i', Z)
            I.prove(z3.BoolVal(p.val.what == what), f'{fn}: of the {what} states')
            I.prove(Exists_(list(p.vars), And_(p.cond, p.val.l == l, p.val.i == i)) == And_(0 <= l, l < NL, 0 <= i, i < CNT(l)), f'{fn}: of all rules')
        ctx.verify(fn, setup7, post7, f'{C}.{fn}')


def num_i(I, v):
    return lib.to_num(I, v)


def at(I, out, k, nm):
    I.prove(z3.BoolVal(isinstance(out, RL)), f'{nm}: a rule')
    if isinstance(out, RL):
        I.prove(And_(0 <= out.l, out.l < NL, 0 <= out.i, out.i < CNT(out.l), PRE(out.l) + out.i == k), f'{nm}: the rule at this position, by level and then by place')


def position(I, o, k):
    l, i = num_i(I, o.f['_iter_level']), num_i(I, o.f['_iter_index'])
    return And_(0 <= l, l <= NL, 0 <= i, Implies_(l < NL, i <= CNT(l)), Implies_(l == NL, i == 0), PRE(l) + i == k)


def mk_rule(ctx):
    C = f'{PS}:PrioritizedSpecification'
    for empty in (True, False):
        I = ctx.new()
        st = {}
        P, L = z3.Int('priority'), z3.Int('level')
        KIND = z3.Bools('is_automaton is_number is_integer is_level')

        class Fa(A):
            def isinstance_(self, I, name):
                return KIND[0] if name == 'FiniteStateAutomaton' else FALSE

        class Num(SN):
            __slots__ = ('k',)

        def rule(I, fr, node, it):
            """Levels are added until the level exists."""
            psi = st['psi']
            ps = I.iter_parts(it)
            if len(ps) != 1 or len(ps[0].vars) != 1:
                return False
            n0 = psi.get('n')
            p = I.inst(ps[0])
            l = lib.to_num(I, p.val)
            m = I.const('m', Z)
            some = Exists_(list(p.vars), And_(p.cond, l == m))
            I.prove(some == And_(n0 <= m, m <= L), 'one level is added for each missing one')
            if I.choose([TRUE, TRUE]) == 1:
                psi.put(I, 'n', z3.If(n0 <= L, L + 1, n0))
                return True
            I.assume(p.cond)
            n = I.const('levels_so_far', Z)
            I.assume(n >= 0)
            psi.put(I, 'n', n)
            I.iteration(fr, node, p, [psi.o])
            I.prove(psi.get('n') == n + 1, 'each missing level is added once')
            raise Infeasible()
        I.for_rules.append(rule)

        def setup(I):
            st.clear()
            levels(I)
            I.assume(NL == 0 if empty else NL > 0)
            st['added'] = PList()
            o, psi = self_(ctx, I, st, atomic_propositions=Sym(z3.Const('propositions', V)))
            fa = Fa('automaton', atomic_propositions=Sym(z3.Const('propositions_of_automaton', V)))
            I.assume(And_(*KIND))
            st.update(o=o, psi=psi, fa=fa)
            return lambda: I.call(ctx.resolve(f'{C}.add_rule'), [o, fa, SN(P), SN(L)], {})

        def post(I, out):
            nm = f'add_rule({"first" if empty else "another"})'
            same = z3.Const('propositions', V) == z3.Const('propositions_of_automaton', V)
            if isinstance(out, Raised):
                I.prove(z3.BoolVal(out.cls in (ValueError, AssertionError)), f'{nm}: raises only for its arguments')
                I.prove(Or_(P <= 0, L < 0) if out.cls is ValueError else And_(Not_(same), not empty), f'{nm}: refuses only priorities that are not positive, negative levels, other propositions')
                return
            I.prove(And_(P > 0, L >= 0, Or_(same, z3.BoolVal(empty))), f'{nm}: arguments')
            psi = st['psi']
            I.prove(z3.BoolVal(st['o'].f['_Psi'] is psi), f'{nm}: rules are kept')
            I.prove(psi.get('n') == z3.If(NL <= L, L + 1, NL), f'{nm}: levels up to the level of the rule')
            I.prove(I.enc_.enc(st['o'].f['atomic_propositions']) == z3.Const('propositions_of_automaton', V), f'{nm}: propositions of the rules')
            ps = st['added'].parts
            ok = len(ps) == 1 and not ps[0].vars and z3.is_true(ps[0].cond) and isinstance(ps[0].val[1], Obj)
            I.prove(z3.BoolVal(ok), f'{nm}: one rule is added at the end of a level')
            if not ok:
                return
            l, r = ps[0].val
            I.prove(l.t == L, f'{nm}: at its level')
            for m, want in (('priority', P), ('level', L)):
                v = I.call(I.getattr_(r, m), [], {})
                I.prove(lib.to_num(I, v) == want, f'{nm}: {m} of the rule')
            v = I.call(I.getattr_(r, 'automaton'), [], {})
            I.prove(z3.BoolVal(v is st['fa']), f'{nm}: automaton of the rule')
        ctx.verify(f'add_rule({empty})', setup, post, f'{C}.add_rule')


GROUPS = [Group('cost', mk_cost), Group('edge', mk_edge), Group('transitions', mk_add), Group('product', mk_product), Group('solve', mk_solve),
          Group('specification', mk_prio), Group('add_rule', mk_rule)]
ASSUMED = ['labels of transitions of rules are sets of propositions, equal as sets or not at all; transitions.find and states of labeled graphs by their contracts (C06, C07)',
           'the search returns a run of minimal cost (C02), over vectors of costs (C01); itertools.product enumerates all tuples once',
           'the sum of the priorities of the violated rules is what the loop over the rules accumulates from zero by adding the proved amount once for each rule',
           'costs and priorities are mathematical numbers; priorities are integers (a known finding records that floats are refused)']
BOUNDED = ['the identification of a run of the product with rule violations on the whole trajectory, and the optimum over all runs: executions only beyond the contracts above']
