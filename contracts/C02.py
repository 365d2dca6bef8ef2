"""Contracts for tulip/transys/graph_algorithms.py.

Costs are elements of a totally ordered commutative monoid with monotone
addition (the laws proved for VectorCost in C01; numbers satisfy them).
Walk(p, v, c): p followed by v is a path from a source along transitions, of
total cost c.  The relation is the least one closed under the two introduction
rules; only the rules (to build walks) and rule induction (for minimality) are
used.
"""
import z3
from vf.contract import *
from vf.graphs import *
from vf import graphs

MOD = 'tulip.transys.graph_algorithms'
SINGLE = f'{MOD}:dijkstra_single_source_multiple_targets'
MULTI = f'{MOD}:dijkstra_multiple_sources_multiple_targets'
B = z3.BoolSort()
EDGE = z3.Function('edge', V, V, V, B)            # u, v, parallel-edge id
W = z3.Function('weight', V, V, V, COST)
TGT = z3.Function('target', V, B)
WALK = z3.Function('Walk', V, V, V, COST, B)      # source, path before v, v, cost
BEST = None


def walk_rules():
    s, p, u, v, k = z3.Consts('ws wp wu wv wk', V)
    c = z3.Const('wc', COST)
    return [
        z3.ForAll([s], WALK(s, NIL, s, CZERO)),
        z3.ForAll([s, p, u, v, k, c], z3.Implies(
            z3.And(WALK(s, p, u, c), EDGE(u, v, k)),
            WALK(s, SNOC(p, u), v, CADD(W(u, v, k), c))),
            patterns=[z3.MultiPattern(WALK(s, p, u, c), EDGE(u, v, k))]),
    ]


def nonneg():
    u, v, k = z3.Consts('nu nv nk', V)
    return z3.ForAll([u, v, k], z3.Implies(EDGE(u, v, k), CLE(CZERO, W(u, v, k))))


def graph_obj(I, cost_key):
    """A graph whose transitions.find obeys the contract proved in C07:
    find(u) lists (u, v, attributes) for exactly the transitions leaving u."""
    def find(I, t, from_states=None, to_states=None, with_attr_dict=None, **kw):
        if from_states is None or to_states is not None or with_attr_dict is not None or kw:
            raise Unsupported('unexpected query of the graph')
        if isinstance(from_states, (PList, PSet, tuple)) and not isinstance(from_states, Sym):
            u = I.the_single(from_states) if isinstance(from_states, Container) else from_states[0]
        else:
            u = from_states
        ut = I.enc_.enc(u)
        v, k = I.const('v', V), I.const('k', V)
        at = PDict([single((cost_key, CostVal(W(ut, v, k))))])
        return PList([Part((v, k), EDGE(ut, v, k), (u, Sym(v), at))])
    tr = ExtClass('Transitions', dict(find=find))
    g = ExtClass('LabeledDiGraph', {})
    return Obj(g, dict(transitions=Obj(tr)))


class TargetSet(Val):
    def contains_(self, I, v):
        return TGT(I.enc_.enc(v))

    def subst(self, p):
        return self


def elem_fields(I, val):
    """(cost term, node term, path term) of a heap element."""
    if not isinstance(val, tuple):
        raise Unsupported('heap element is not a tuple')
    cost = path = None
    nodes = []
    for x in val:
        if isinstance(x, CostVal) or (isinstance(x, (int, float)) and cost is None):
            cost = CostVal.of(I, x) if cost is None else cost
        elif isinstance(x, (PSeq, PList)):
            path = seq_term(I, x)
        elif isinstance(x, Sym):
            nodes.append(x.t)
    if cost is None or path is None or len(nodes) != 1:
        raise Unsupported('heap element does not have the shape (cost, ..., node, path)')
    return cost, nodes[0], path


class Roles:
    """Locals recognized by role: heap, visited set, distance map."""

    def __init__(self, fr):
        heaps = [(n, v) for n, v in fr.f.items() if isinstance(v, PList)]
        sets = [(n, v) for n, v in fr.f.items() if isinstance(v, PSet)]
        dicts = [(n, v) for n, v in fr.f.items() if isinstance(v, PDict)]
        heaps = [(n, v) for n, v in heaps if v.parts and isinstance(v.parts[0].val, tuple)]
        if len(heaps) != 1 or len(sets) != 1 or len(dicts) > 1:
            raise Unsupported('search state (heap, visited set, distance map) not recognized')
        self.Q, self.S = heaps[0][1], sets[0][1]
        self.D = dicts[0][1] if dicts else PDict()


def install_rules(I, src, st):
    s = src.t
    I.axioms += cost_axioms()
    I.explore(lambda: None, lambda o, m: prove_cost_lemma(I))
    I.axioms += walk_rules() + [nonneg(), cost_lemma()]
    best0 = I.const('best0', z3.ArraySort(V, COST))
    st['best'] = best0
    st['expanding'] = None

    def q_some(I, R, pred):
        """exists queue element with pred(cost, node, path)"""
        fs = []
        for p in R.Q.parts:
            p = I.inst(p)
            fs.append(Exists_(p.vars, And_(p.cond, pred(*elem_fields(I, p.val)))))
        return Or_(*fs)

    def q_all(I, R, pred):
        fs = []
        for p in R.Q.parts:
            p = I.inst(p)
            fs.append(ForAll_(p.vars, Implies_(p.cond, pred(*elem_fields(I, p.val)))))
        return And_(*fs)

    def covered(I, R, v, c):
        """v settled at cost <= c, or queued with cost <= c"""
        b = st['best']
        return Or_(And_(I.member_parts(Sym(v), R.S.parts), CLE(z3.Select(b, v), c)),
                   q_some(I, R, lambda qc, qv, qp: And_(qv == v, CLE(qc, c))))

    def inv(I, R, exp=None, done=None):
        """exp: node being expanded; done(v,k): its edges already handled"""
        b = st['best']
        u, v, k = (I.const(n, V) for n in 'uvk')
        inS = lambda x: I.member_parts(Sym(x), R.S.parts)
        handled = TRUE if exp is None else Or_(u != exp, done([v, k]))
        fs = [('every queued entry is a walk', q_all(I, R, lambda c, x, p: WALK(s, p, x, c))),
              ('settled nodes are not targets', ForAll_([v], Implies_(inS(v), Not_(TGT(v))))),
              ('the source is settled or queued at zero cost', covered(I, R, s, CZERO)),
              ('successors of settled nodes are settled or queued', ForAll_([u, v, k], Implies_(
                  And_(inS(u), EDGE(u, v, k), handled), covered(I, R, v, CADD(W(u, v, k), z3.Select(b, u))))))]
        fs.append(('settled costs are at most the queued ones', ForAll_([u], Implies_(inS(u), q_all(
            I, R, lambda c, x, p: CLE(z3.Select(b, u), c))))))
        if exp is not None:
            fs.append(('the expanded node is the last settled', ForAll_([u], Implies_(
                inS(u), CLE(z3.Select(b, u), z3.Select(b, exp))))))
        ds = []
        for p in R.D.parts:
            p = I.inst(p)
            key, val = p.val
            x = I.enc_.enc(key)
            ds.append(ForAll_(p.vars, Implies_(p.cond, Or_(inS(x), q_some(
                I, R, lambda qc, qv, qp: And_(qv == x, CLE(qc, CostVal.of(I, val))))))))
        fs.append(('recorded distances are settled or queued', And_(*ds)))
        return fs

    def havoc_heap(I, R):
        f = I.func('inQ', COST, V, V, B)
        c, x, p = I.const('qc', COST), I.const('qx', V), I.const('qp', V)
        shape = st['shape']
        sub = dict(cost=CostVal(c), node=Sym(x), path=PSeq(p))
        extra = []
        val = []
        for r in shape:
            if r in sub:
                val.append(sub[r])
            else:
                t = I.const('qn', z3.IntSort())
                extra.append(t)
                val.append(SN(t))
        if extra:
            f = I.func('inQ', COST, V, V, *[z3.IntSort()] * len(extra), B)
        vs = [c, x, p] + extra
        I.set_parts(R.Q, [Part(vs, f(*vs), tuple(val))])

    def havoc_set(I, S, name):
        f = I.func(name, V, B)
        x = I.const('x', V)
        I.set_parts(S, [Part((x,), f(x), Sym(x))])

    def havoc_dict(I, D):
        if not D.parts:
            return
        f, g = I.func('hasdist', V, B), I.func('dist', V, COST)
        x = I.const('x', V)
        I.set_parts(D, [Part((x,), f(x), (Sym(x), CostVal(g(x))))])

    def shape_of(I, R):
        val = R.Q.parts[0].val
        out = []
        for x in val:
            if isinstance(x, CostVal) or isinstance(x, (int, float)) and 'cost' not in out:
                out.append('cost')
            elif isinstance(x, (PSeq, PList)):
                out.append('path')
            elif isinstance(x, Sym):
                out.append('node')
            else:
                out.append('other')
        return out

    def while_rule(I, fr, node):
        R = Roles(fr)
        st['R'] = R
        st['shape'] = shape_of(I, R)

        def havoc():
            havoc_heap(I, R)
            havoc_set(I, R.S, 'visited')
            havoc_dict(I, R.D)
            st['best'] = I.const('best', z3.ArraySort(V, COST))
            return [R.Q, R.S, R.D]

        def head():
            st['pre_S'] = R.S.parts
            st['atS'] = R.S.parts
            st['preQ'] = R.Q.parts
        I.inv_while(fr, node, havoc, lambda: settle(I, R) + inv(I, R), 'search loop', on_head=head)
        return True

    def settle(I, R):
        """ghost update: a node that entered the visited set in this iteration
        gets its best cost = the cost of the entry just popped"""
        if st.get('popped') is not None:
            c, x, p = st['popped']
            st['popped'] = None
            st['best'] = z3.Store(st['best'], x, z3.If(
                I.member_parts(Sym(x), st['atS']), z3.Select(st['best'], x), c))
        return []

    def for_rule(I, fr, node, it):
        if not isinstance(it, PList) or st.get('popped') is None or len(it.parts) != 1 \
                or len(it.parts[0].vars) != 2:
            return False
        R = st['R']
        c, x, p = st['popped']
        settle(I, R)
        st['popped_done'] = True

        def havoc():
            havoc_heap(I, R)
            havoc_dict(I, R.D)
            return [R.Q, R.D]

        def finv(part, done):
            return inv(I, R, x, done)
        I.inv_for(fr, node, it, havoc, finv, 'expansion loop')
        return True

    def pop(I, h):
        v = heap_pop(I, h)
        st['popped'] = elem_fields(I, v)
        st['minQ'] = st['popped'][0]
        return v
    I.ext['heapq'] = dict(heappush=Builtin('heappush', heap_push), heappop=Builtin('heappop', pop),
                          heapify=Builtin('heapify', lambda I, h: None))
    I.while_rules.append(while_rule)
    I.for_rules.append(for_rule)

    st['induction'] = lambda I, phi, name: rule_induction(I, s, phi, name)
    st['q_some'] = q_some


def rule_induction(I, s, phi, name):
    """forall p v c. Walk(s,p,v,c) -> phi(v,c), by rule induction."""
    I.prove(phi(s, CZERO), f'{name}: induction base')
    u, v, k = (I.const(n, V) for n in ('iu', 'iv', 'ik'))
    c = I.const('ic', COST)
    I.prove(Implies_(And_(phi(u, c), EDGE(u, v, k)), phi(v, CADD(W(u, v, k), c))), f'{name}: induction step')
    p, x = I.const('p', V), I.const('x', V)
    d = I.const('d', COST)
    I.assume(ForAll_([p, x, d], Implies_(WALK(s, p, x, d), phi(x, d))))


def g_single(ctx):
    I = ctx.new(timeout_ms=20000)
    graphs.install(I)
    src = I.sym('source')
    st = {}
    install_rules(I, src, st)

    def setup(I):
        st['popped'] = None
        st.pop('minQ', None)
        key = 'weight_key'
        g = graph_obj(I, key)
        return lambda: I.call(ctx.resolve(SINGLE), [g, src, TargetSet(), key], {})

    def post(I, out):
        nm = 'dijkstra_single'
        if not ctx.no_raise(I, out, nm):
            return
        if not (isinstance(out, tuple) and len(out) == 2):
            I.prove(FALSE, f'{nm}: returns a pair')
            return
        cost, path = out
        R = st['R']
        b = st['best']
        s = src.t
        inS = lambda x: I.member_parts(Sym(x), st['atS'])
        Qp = st['preQ']

        def phi(v, c):
            fs = [And_(inS(v), CLE(z3.Select(b, v), c))]
            for p in Qp:
                p = I.inst(p)
                qc, qv, qp = elem_fields(I, p.val)
                fs.append(Exists_(p.vars, And_(p.cond, CLE(qc, c))))
            return Or_(*fs)
        if isinstance(cost, float) and cost == float('inf'):
            I.prove(z3.BoolVal(isinstance(path, PList) and path.parts == ()), f'{nm}: empty path if unreachable')
            rule_induction(I, s, phi, f'{nm}: nothing reachable')
            p, x = I.const('p', V), I.const('x', V)
            d = I.const('d', COST)
            I.prove(ForAll_([p, x, d], Implies_(WALK(s, p, x, d), Not_(TGT(x)))),
                    f'{nm}: infinity only if no target is reachable')
            return
        c = CostVal.of(I, cost)
        t = seq_term(I, path)
        p0, v0 = I.const('p0', V), I.const('v0', V)
        I.prove(z3.Exists([p0, v0], z3.And(t == SNOC(p0, v0), WALK(s, p0, v0, c), TGT(v0))),
                f'{nm}: the path is a walk from the source to a target with the returned cost')
        b = st['best']
        rule_induction(I, s, phi, f'{nm}: minimality')
        p, x = I.const('p', V), I.const('x', V)
        d = I.const('d', COST)
        I.prove(ForAll_([p, x, d], Implies_(And_(WALK(s, p, x, d), TGT(x)), CLE(c, d))),
                f'{nm}: the cost is minimal among all walks to targets')
    ctx.verify('single source', setup, post, SINGLE)


def g_multi(ctx):
    """The multi-source search, against the contract of the single-source one."""
    I = ctx.new(timeout_ms=20000)
    graphs.install(I)
    st = {}
    SRC = z3.Function('source', V, B)
    FOUND = z3.Function('found', V, B)
    OPT = z3.Function('optcost', V, COST)
    OPATH = z3.Function('optpath', V, V)
    x = z3.Const('mx', V)
    I.axioms += cost_axioms() + [
        z3.ForAll([x], z3.And(CLE(x0 := OPT(x), CINF), x0 != CINF)),
        z3.ForAll([z3.Const('ci', COST)], CLE(z3.Const('ci', COST), CINF)),
        z3.ForAll([x], OPATH(x) != NIL)]
    g = Obj(ExtClass('LabeledDiGraph', {}))
    tg = TargetSet()

    def single_contract(I, f, args, kw):
        env = I.bind(f, args, kw)
        vals = list(env.values())
        if vals[0] is not g or vals[2] is not tg or vals[3] != 'weight_key':
            I.prove(FALSE, 'call of the single-source search with other graph, targets or key')
        s = vals[1].t
        if I.branch(FOUND(s)):
            return (CostVal(OPT(s)), PSeq(OPATH(s)))
        return (float('inf'), PList())
    I.contracts[SINGLE] = single_contract

    def inv_rule(I, fr, node, it):
        names = [n for n in fr.f if n in assigned(node)]
        bc = [n for n in names if isinstance(fr.f[n], (CostVal, float))]
        bp = [n for n in names if isinstance(fr.f[n], (PSeq, PList))]
        if len(bc) != 1 or len(bp) != 1:
            return False
        bc, bp = bc[0], bp[0]

        def inv(part, done):
            c, pth = CostVal.of(I, fr.f[bc]), seq_term(I, fr.f[bp])
            y = I.const('y', V)
            return [('best so far', Or_(
                And_(c == CINF, pth == NIL, ForAll_([y], Implies_(done([y]), Not_(FOUND(y))))),
                Exists_([y], And_(done([y]), FOUND(y), c == OPT(y), pth == OPATH(y))))),
                ('no better source', ForAll_([y], Implies_(And_(done([y]), FOUND(y)), CLE(c, OPT(y)))))]

        def havoc():
            I.set_field(fr, bc, CostVal(I.const('bestc', COST)))
            I.set_field(fr, bp, PSeq(I.const('bestp', V)))
            st['names'] = (bc, bp)
            return []
        keep = _Keep([bc, bp])
        I.inv_for(fr, node, it, havoc, inv, 'source loop', keep=keep)
        return True
    I.for_rules.append(inv_rule)
    y = I.const('y', V)
    srcs = PSet([Part((y,), SRC(y), Sym(y))])

    def setup(I):
        return lambda: I.call(ctx.resolve(MULTI), [g, srcs, tg, 'weight_key'], {})

    def post(I, out):
        nm = 'dijkstra_multiple'
        if not ctx.no_raise(I, out, nm):
            return
        c, p = CostVal.of(I, out[0]), seq_term(I, out[1])
        z = I.const('z', V)
        I.prove(Or_(And_(c == CINF, p == NIL, ForAll_([z], Implies_(SRC(z), Not_(FOUND(z))))),
                    Exists_([z], And_(SRC(z), FOUND(z), c == OPT(z), p == OPATH(z)))),
                f'{nm}: result of one of the sources, or (infinity, empty)')
        I.prove(ForAll_([z], Implies_(And_(SRC(z), FOUND(z)), CLE(c, OPT(z)))), f'{nm}: minimal over all sources')
    ctx.verify('multiple sources', setup, post, MULTI)


class _Keep(list):
    pass


def assigned(node):
    from vf.interp import assigned_names
    return assigned_names(node.body)


GROUPS = [Group('single source', g_single), Group('multiple sources', g_multi)]
ASSUMED = ['costs form a totally ordered commutative monoid with monotone addition (C01); transition costs are non-negative',
           'heapq.heappop returns an element whose cost is minimal; heappush adds the element (heapq contract); '
           'ties are broken by the remaining components, which must be comparable',
           'transitions.find(u) lists exactly the transitions leaving u (contract of C07)',
           'rule induction for the least relation Walk']
BOUNDED = ['termination of the searches: bounded executions only']
