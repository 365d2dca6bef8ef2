"""Contracts for the edits of tulip/transys/labeled_graphs.py and automata.py.

Graphs are arbitrary well-formed labeled multigraphs over the assumed contract
of networkx.MultiDiGraph (vf/digraph.py); typed dictionaries act by the
contract of C09; labels are terms.
"""
import z3
from vf.contract import *
from vf.digraph import *
from vf.digraph import over, edges as edges_of, install as install_nx
from vf.core import _MISSING
import ast

LG = 'tulip.transys.labeled_graphs'
AU = 'tulip.transys.automata'
AD, AT = z3.Consts('attr_dict attr', V)
CHECK = z3.Const('check', B)


def new(ctx, **kw):
    I = ctx.new(**kw)
    install_nx(I)

    def untyped(I, f, args, kw):
        b = I.bind(f, args, kw)
        t, ty = term(I, b['typed_attr']), b['type_defs']
        if not isinstance(ty, Types):
            raise Unsupported('types')
        if I.branch(UNT(ty.t, t)) and I.truth(b['check']):
            raise PyExc(AttributeError, ('untyped keys',))
    I.contracts[f'{LG}:LabeledDiGraph._check_for_untyped_keys'] = untyped
    return I


GIVEN = [('both', True, True), ('attr_dict', True, False), ('keywords', False, True), ('none', False, False)]


def given(a, k):
    """attr_dict, keyword arguments and the label that they mean"""
    d = Lab(AD, org=('x', AD)) if a else None
    kw = {'**': Lab(AT)} if k else {}
    return d, kw, over(AD if a else EMPTY, AT if k else EMPTY)


def mk_add_node(ctx):
    for via in ('LabeledDiGraph.add_node', 'States.add'):
        for nm, a, k in GIVEN:
            I = new(ctx)
            st = {}

            def setup(I):
                G = Graph(ctx)
                d, kw, g = given(a, k)
                st.update(G=G, d=d, g=g, x=I.sym('x'))
                o = G.o if via.startswith('L') else G.o.f['states']
                return lambda: I.call(ctx.resolve(f'{LG}:{via}'), [o, st['x'], d, SB(CHECK)], kw)

            def post(I, out):
                G, g, x = st['G'], st['g'], st['x'].t
                w = over(NDEF, g)
                name = f'{via} ({nm})'
                if isinstance(out, Raised):
                    if out.cls is ValueError:
                        I.prove(Not_(And_(OK(NT, NDEF), OK(NT, g))), f'{name}: ValueError only for values that are not allowed')
                    else:
                        I.prove(And_(z3.BoolVal(out.cls is AttributeError), UNT(NT, w), CHECK), f'{name}: AttributeError only for untyped keys')
                    return G.unchanged(f'{name} raises')
                I.prove(Not_(And_(UNT(NT, w), CHECK)), f'{name}: untyped keys are refused')
                new_l = z3.If(G.Nf(x), OVER(G.NLf(x), w), w)
                G.same_nodes(lambda n, l: z3.If(n == x, l == new_l, G.nodes0(n, l)), name)
                G.unchanged(name, nodes=False)
                if st['d'] is not None:
                    I.prove(st['d'].t == AD, f'{name}: the given dictionary is not changed')
            ctx.verify(f'{via} ({nm})', setup, post, f'{LG}:{via}')


def mk_add_edge(ctx):
    for via in ('LabeledDiGraph.add_edge', 'Transitions.add'):
        for nm, a, k in GIVEN:
            I = new(ctx)
            st = {}

            def setup(I):
                G = Graph(ctx)
                d, kw, g = given(a, k)
                u, v = I.sym('from'), I.sym('to')
                st.update(G=G, d=d, g=g, u=u, v=v)
                I.assume(Not_(F('label_has', V, V, B)(AT, I.enc_.enc('check_states'))))
                o = G.o if via.startswith('L') else G.o.f['transitions']
                kw.update(attr_dict=d, check=SB(CHECK))
                return lambda: I.call(ctx.resolve(f'{LG}:{via}'), [o, u, v], kw)

            def post(I, out):
                G, g, u, v = st['G'], st['g'], st['u'].t, st['v'].t
                w = over(EDEF, g)
                name = f'{via} ({nm})'
                q = I.const('q', Z)
                plain = Exists_([q], And_(G.Ef(u, v, q), G.ELf(u, v, q) == EMPTY))
                there = Exists_([q], And_(G.Ef(u, v, q), G.ELf(u, v, q) == w))
                if isinstance(out, Raised):
                    if out.cls is ValueError:
                        I.prove(Not_(And_(G.Nf(u), G.Nf(v), OK(ET, EDEF), OK(ET, g))), f'{name}: ValueError only for missing states and values that are not allowed')
                    elif out.cls is AttributeError:
                        I.prove(And_(UNT(ET, w), CHECK), f'{name}: AttributeError only for untyped keys')
                    else:
                        I.prove(And_(z3.BoolVal(out.cls is Exception), plain), f'{name}: raises only besides an unlabeled transition')
                    return G.unchanged(f'{name} raises')
                I.prove(And_(G.Nf(u), G.Nf(v)), f'{name}: joins two states of the graph')
                I.prove(Or_(there, Not_(And_(UNT(ET, w), CHECK))), f'{name}: untyped keys are refused')
                G.unchanged(name, edges=False)
                if st['d'] is not None:
                    I.prove(st['d'].t == AD, f'{name}: the given dictionary is not changed')
                # the keys of added transitions
                added = [p for p in G.o.f['%E'].parts if not p.vars]
                I.prove(z3.BoolVal(len(added) <= 1), f'{name}: at most one transition is added')
                if len(added) == 1:
                    key = keyterm(I, added[0].val[2])
                    I.prove(Not_(there), f'{name}: no second transition with the same label')
                    I.prove(Not_(G.Ef(u, v, key)), f'{name}: no other transition is replaced')
                    G.same_edges(lambda a, b, k, l: Or_(G.edges0(a, b, k, l), And_(a == u, b == v, k == key, l == w)), name)
                else:
                    I.prove(there, f'{name}: the transition is in the graph')
                    G.same_edges(G.edges0, name)
            ctx.verify(f'{via} ({nm})', setup, post, f'{LG}:{via}')


def each(I, st, funcs):
    """Loops of `funcs` over arbitrary elements: one iteration, then what it called."""
    def rule(I, fr, node, it):
        if not any(str(fr.func).endswith(f) for f in funcs):
            return False
        parts = I.iter_parts(it)
        if not any(p.vars for p in parts):
            return False
        for part in parts:
            p = I.inst(part)
            if I.choose([TRUE, TRUE]) == 1:
                continue
            I.assume(p.cond)
            n0 = len(st['calls'])
            I.iteration(fr, node, p)
            st['check'](p.val, st['calls'][n0:])
            raise Infeasible()
        return True
    I.for_rules.append(rule)


def record(I, st, qual):
    def c(I, f, args, kw):
        st['calls'].append(I.bind(f, args, kw))
        if I.choose([TRUE, TRUE]) == 1:
            raise PyExc(ValueError, ('refused',))
    I.contracts[f'{LG}:{qual}'] = c


def pair_rule(I, st):
    """Pairs without labels: one iteration erases the transitions of one pair."""
    def rule(I, fr, node, it):
        if not str(fr.func).endswith('remove_labeled_edges_from') or not isinstance(it, PList):
            return False
        p = I.inst(it.parts[0])
        if st.get('in'):
            # the keys of one pair, removed one by one
            G, (a, b) = st['G'], st['in']
            if len(it.parts) != 1 or not isinstance(p.val, SN):
                return False
            if I.choose([TRUE, TRUE]) == 0:
                I.assume(p.cond)
                I.iteration(fr, node, p, [G.o.f['%E']])
                G.same_edges(lambda u, v, k, l: And_(G.edges0(u, v, k, l), Not_(And_(u == a, v == b, k == p.val.t))), 'the transition with the key is removed')
                raise Infeasible()
            E = G.o.f['%E']
            I.set_parts(E, I.filter_parts(E.parts, lambda e: Not_(And_(I._eqf(e[0], Sym(a)), I._eqf(e[1], Sym(b)), Exists_(
                list(p.vars), And_(p.cond, I._eqf(e[2], p.val)))))))
            return True
        if I.choose([TRUE, TRUE]) == 0:
            I.assume(p.cond)
            st['in'] = p.vars
            try:
                I.iteration(fr, node, p, [st['G'].o.f['%E']])
            finally:
                st['in'] = ()
            G = st['G']
            a, b = p.vars
            G.same_edges(lambda u, v, k, l: And_(G.edges0(u, v, k, l), Not_(And_(u == a, v == b))), 'all transitions of the pair are removed')
            raise Infeasible()
        return True
    I.for_rules.append(rule)


def lab_is(I, v, t, name):
    try:
        I.prove(term(I, v) == t, name)
    except Unsupported:
        I.prove(FALSE, name)


def mk_bulk(ctx):
    # add_nodes_from: each element once, with its own label over the common one
    for form in ('states', 'pairs'):
        I = new(ctx)
        st = {}
        each(I, st, ('add_nodes_from', 'add_edges_from', 'add_comb', 'remove_labeled_edges_from'))
        record(I, st, 'LabeledDiGraph.add_node')
        ND = F('ndict', V, V)

        def check(val, calls):
            I = ctx.I
            I.prove(z3.BoolVal(len(calls) == 1), 'one state is added for each element')
            for b in calls:
                n = val if form == 'states' else val[0]
                want = AT if form == 'states' else OVER(AT, ND(n.t))
                I.prove(z3b_(I._eqf(b['n'], n)), 'the state of the element')
                lab_is(I, b['attr_dict'] if not (isinstance(b['attr'], Lab)) else Lab(over(term(I, b['attr_dict']), b['attr'].t)), want, 'with its label')
                I.prove(z3b_(I.truth_term(b['check'])) == CHECK, 'checked as requested')

        def setup(I):
            G = Graph(ctx)
            st.update(calls=[], check=check)
            x = I.const('x', V)
            p = Part((x,), F('given', V, B)(x), Sym(x) if form == 'states' else (Sym(x), Lab(ND(x))))
            return lambda: I.call(ctx.resolve(f'{LG}:States.add_from'), [G.o.f['states'], PList([p]), SB(CHECK)], {'**': Lab(AT)})

        def post(I, out):
            I.prove(z3.BoolVal(not isinstance(out, Raised) or out.cls is ValueError), 'only refused states raise')
        ctx.verify(f'add_nodes_from ({form})', setup, post, f'{LG}:LabeledDiGraph.add_nodes_from')
    # add_edges_from
    for size in (2, 3, 4):
        I = new(ctx)
        st = {}
        each(I, st, ('add_edges_from',))
        record(I, st, 'LabeledDiGraph.add_edge')
        ED = F('edict', V, V, V)

        def check(val, calls):
            I = ctx.I
            I.prove(z3.BoolVal(len(calls) == 1), 'one transition is added for each element')
            for b in calls:
                u, v = val[:2]
                want = over(AD, AT) if size == 2 else OVER(over(AD, AT), ED(u.t, v.t))
                I.prove(z3b_(And_(I._eqf(b['u'], u), I._eqf(b['v'], v))), 'between the states of the element')
                if size < 4:
                    I.prove(z3.BoolVal(b['key'] is None), 'with a new key')
                lab_is(I, b['attr_dict'], want, 'with its label over the common one')
                I.prove(z3b_(I.truth_term(b['check'])) == CHECK, 'checked as requested')

        def setup(I):
            G = Graph(ctx)
            st.update(calls=[], check=check)
            u, v = I.const('u', V), I.const('v', V)
            e = (Sym(u), Sym(v)) + {2: (), 3: (Lab(ED(u, v)),), 4: (SN(F('k', V, V, Z)(u, v)), Lab(ED(u, v)))}[size]
            p = Part((u, v), F('given', V, V, B)(u, v), e)
            return lambda: I.call(ctx.resolve(f'{LG}:Transitions.add_from'), [G.o.f['transitions'], PList([p]), Lab(AD, org=('x', AD)), SB(CHECK)], {'**': Lab(AT)})

        def post(I, out):
            I.prove(z3.BoolVal(not isinstance(out, Raised) or out.cls is ValueError), 'only refused transitions raise')
        ctx.verify(f'add_edges_from ({size})', setup, post, f'{LG}:LabeledDiGraph.add_edges_from')
    # remove_labeled_edges_from
    for size in (2, 3, 'all'):
        I = new(ctx)
        st = {}
        if size != 'all':
            each(I, st, ('remove_labeled_edges_from',))
        else:
            pair_rule(I, st)

        def rm(I, f, args, kw):
            b = I.bind(f, args, kw)
            st['calls'].append((b['u'], b['v'], over(term(I, b['attr_dict']), term(I, b['attr']))))
        I.contracts[f'{LG}:LabeledDiGraph.remove_labeled_edge'] = rm

        def check(val, calls):
            I = ctx.I
            I.prove(z3.BoolVal(len(calls) == 1), 'one removal for each element')
            for u, v, l in calls:
                I.prove(z3b_(And_(I._eqf(u, val[0]), I._eqf(v, val[1]))), 'between the states of the element')
                I.prove(l == (over(AD, AT) if size == 2 else OVER(over(AD, AT), val[2].t)), 'transitions with the given label')

        def setup(I):
            G = Graph(ctx)
            st.update(calls=[], check=check)
            u, v = I.const('u', V), I.const('v', V)
            p = Part((u, v), F('given', V, V, B)(u, v), (Sym(u), Sym(v)) + ((Lab(F('edict', V, V, V)(u, v)),) if size == 3 else ()))
            if size == 2:
                I.assume(OVER(AD, AT) != EMPTY)
            if size == 'all':
                st['G'] = G
                return lambda: I.call(ctx.resolve(f'{LG}:LabeledDiGraph.remove_labeled_edges_from'), [G.o, PList([p])], {})
            return lambda: I.call(ctx.resolve(f'{LG}:LabeledDiGraph.remove_labeled_edges_from'), [G.o, PList([p]), Lab(AD, org=('x', AD))], {'**': Lab(AT)})

        def post(I, out):
            ctx.no_raise(I, out, 'remove_labeled_edges_from')
        ctx.verify(f'remove_labeled_edges_from ({size})', setup, post, f'{LG}:LabeledDiGraph.remove_labeled_edges_from')
    # add_comb
    I = new(ctx)
    st = {}
    record(I, st, 'LabeledDiGraph.add_edge')
    each(I, st, ('add_comb',))

    def check(val, calls):
        pass

    def setup(I):
        G = Graph(ctx)
        st.update(calls=[], check=check, u=I.const('cu', V), v=I.const('cv', V))
        P, Q = F('from', V, B), F('to', V, B)
        a, b = I.const('a', V), I.const('b', V)

        def c(val, calls):
            if not calls:
                return
            I.prove(z3.BoolVal(len(calls) == 1), 'one transition for each pair')
            for x in calls:
                I.prove(And_(P(I.enc_.enc(x['u'])), Q(I.enc_.enc(x['v']))), 'from the first to the second states')
                lab_is(I, Lab(over(term(I, x['attr_dict']), term(I, x['attr']))), over(AD, AT), 'with the given label')
                st['seen'] = True
        st['check'] = c
        return lambda: I.call(ctx.resolve(f'{LG}:Transitions.add_comb'), [
            G.o.f['transitions'], PList([Part((a,), P(a), Sym(a))]), PList([Part((b,), Q(b), Sym(b))]), Lab(AD, org=('x', AD)), SB(CHECK)], {'**': Lab(AT)})

    def post(I, out):
        I.prove(z3.BoolVal(not isinstance(out, Raised) or out.cls is ValueError), 'only refused transitions raise')
    ctx.verify('add_comb', setup, post, f'{LG}:Transitions.add_comb')
    ctx.I.prove(z3.BoolVal(bool(st.get('seen'))), 'add_comb: adds a transition for each pair')


def mk_remove_edge(ctx):
    for via in ('LabeledDiGraph.remove_labeled_edge', 'Transitions.remove'):
        for nm, a, k in GIVEN:
            I = new(ctx)
            st = {}

            def rule(I, fr, node, it):
                """removal of keys: the transitions that are left lack the visited keys"""
                if not str(fr.func).endswith('remove_labeled_edge'):
                    return False
                o, G = st['G'].o, st['G']
                u, v = st['u'].t, st['v'].t

                def inv(p, done):
                    r = I.inst(p)
                    y = list(r.vars)
                    kk, l = I.const('k', Z), I.const('l', V)
                    a, b = I.const('a', V), I.const('b', V)
                    try:
                        vis = Exists_(y, And_(r.cond, done(y), keyterm(I, r.val) == kk))
                    except Exception:
                        raise Unsupported('keys')
                    want = And_(G.edges0(a, b, kk, l), Not_(And_(a == u, b == v, vis)))
                    got = z3b_(I.member_parts((Sym(a), Sym(b), SN(kk), Sym(l, 'lab')), o.f['%E'].parts))
                    return [('transitions left', ForAll_([a, b, kk, l], got == want))]

                def havoc():
                    R = I.func('left', V, V, Z, B)
                    a, b, kk = I.const('a', V), I.const('b', V), I.const('k', Z)
                    I.set_parts(o.f['%E'], [Part((a, b, kk), And_(G.Ef(a, b, kk), R(a, b, kk)), (Sym(a), Sym(b), SN(kk), Sym(G.ELf(a, b, kk), 'lab')))])
                    return [o.f['%E']]
                I.inv_for(fr, node, it, havoc, inv, 'removal of the keys')
                return True
            I.for_rules.append(rule)

            def setup(I):
                G = Graph(ctx)
                d, kw, g = given(a, k)
                st.update(G=G, d=d, g=g, u=I.sym('from'), v=I.sym('to'))
                o = G.o if via.startswith('L') else G.o.f['transitions']
                return lambda: I.call(ctx.resolve(f'{LG}:{via}'), [o, st['u'], st['v'], d], kw)

            def post(I, out):
                G, g, u, v = st['G'], st['g'], st['u'].t, st['v'].t
                name = f'{via} ({nm})'
                if not ctx.no_raise(I, out, name):
                    return
                G.same_edges(lambda a, b, k, l: And_(G.edges0(a, b, k, l), Not_(And_(a == u, b == v, l == g))), name)
                G.unchanged(name, edges=False)
                if st['d'] is not None:
                    I.prove(st['d'].t == AD, f'{name}: the given dictionary is not changed')
            ctx.verify(f'{via} ({nm})', setup, post, f'{LG}:{via}')


def mk_remove_node(ctx):
    RAB = f'{AU}:RabinAutomaton'
    for cls in (f'{LG}:LabeledDiGraph', f'{AU}:FiniteStateAutomaton', RAB):
        for via in ('remove_node', 'States.remove'):
            I = new(ctx)
            st = {}

            def setup(I):
                G = Graph(ctx, cls)
                ACC, BAD = F('Acc', V, B), F('Bad', V, B)
                x = I.const('x', V)
                I.assume(ForAll_([x], Implies_(Or_(ACC(x), BAD(x)), G.Nf(x))))
                S = G.o.f['states']
                acc = []
                if cls == RAB:
                    # one arbitrary pair among arbitrary others
                    i = I.const('i', Z)
                    P = lambda n: PSet([Part((x,), F(n, Z, V, B)(i, x), Sym(x))])
                    g, b = G.subset(ctx, S, ACC), G.subset(ctx, S, BAD)
                    acc = [(g, ACC), (b, BAD)]
                    G.o.f['accepting'] = Obj(ctx.resolve(f'{AU}:RabinPairs'), dict(_states=S, _pairs=PList([single((g, b))])))
                elif 'Finite' in cls:
                    G.o.f['accepting'] = G.subset(ctx, S, ACC)
                    acc = [(G.o.f['accepting'], ACC)]
                st.update(G=G, x=I.sym('state'), acc=acc)
                if via == 'remove_node':
                    return lambda: I.call(I.getattr_(G.o, 'remove_node'), [st['x']], {})
                return lambda: I.call(ctx.resolve(f'{LG}:States.remove'), [S, st['x']], {})

            def post(I, out):
                G, x = st['G'], st['x'].t
                name = f'{cls.split(":")[1]}: {via}'
                if isinstance(out, Raised):
                    I.prove(Not_(G.Nf(x)), f'{name}: raises only for an unknown state')
                    G.unchanged(f'{name} of an unknown state')
                    rest = lambda f: f
                else:
                    I.prove(G.Nf(x), f'{name}: a state')
                    G.same_nodes(lambda n, l: And_(G.nodes0(n, l), n != x), name)
                    G.same_edges(lambda u, v, k, l: And_(G.edges0(u, v, k, l), u != x, v != x), name)
                    rest = lambda f: lambda y: And_(f(y), y != x)
                    G.same_initial(rest(G.INITf), name)
                y = I.const('y', V)
                for s, f in st['acc']:
                    I.prove(z3b_(I.member_parts(Sym(y), s.f['_set'].parts + s.f['_list'].parts)) == rest(f)(y), f'{name}: accepting states')
            ctx.verify(f'{cls.split(":")[1]}: {via}', setup, post, f'{cls}.remove_node' if via == 'remove_node' else f'{LG}:States.remove')


def mk_deadends(ctx):
    """remove_deadends leaves the greatest set of states without dead-ends."""
    I = new(ctx)
    INF = F('infinite_path', V, B)
    st = {}

    def remove_from(I, f, args, kw):
        """States.remove_from: removes each given state (remove_node above)."""
        b = I.bind(f, args, kw)
        G = st['G']
        gone = I.iter_parts(b['states'])
        x = I.const('x', V)
        I.prove(ForAll_([x], Implies_(z3b_(I.member_parts(Sym(x), gone)), z3b_(node_in(I, G.o, Sym(x))))), 'only states are removed')
        for o, keep in ((G.o.f['%N'], lambda e: Not_(I.member_parts(e[0], gone))),
                        (G.o.f['%E'], lambda e: Not_(Or_(I.member_parts(e[0], gone), I.member_parts(e[1], gone))))):
            I.set_parts(o, I.filter_parts(o.parts, keep))
    I.contracts[f'{LG}:States.remove_from'] = remove_from

    def left(R):
        """the graph restricted to the states with R"""
        G = st['G']
        n, u, v, k = I.const('n', V), I.const('u', V), I.const('v', V), I.const('k', Z)
        return ([Part((n,), And_(G.Nf(n), R(n)), (Sym(n), Sym(G.NLf(n), 'lab')))],
                [Part((u, v, k), And_(G.Ef(u, v, k), R(u), R(v)), (Sym(u), Sym(v), SN(k), Sym(G.ELf(u, v, k), 'lab')))])

    def rule(I, fr, node):
        if not str(fr.func).endswith('remove_deadends'):
            return False
        G = st['G']
        sets = [k for k, v in fr.f.items() if isinstance(v, PSet)]
        if len(sets) != 1:
            return False
        nm = sets[0]

        def inv():
            n, l = I.const('n', V), I.const('l', V)
            u, v, k = I.const('u', V), I.const('v', V), I.const('k', Z)
            inn = lambda x: z3b_(node_in(I, G.o, Sym(x)))
            s = fr.f[nm].parts
            m = I.const('m', V)
            return [('states keep their labels', ForAll_([n, l], Implies_(z3b_(I.member_parts((Sym(n), Sym(l, 'lab')), G.o.f['%N'].parts)), G.nodes0(n, l)))),
                    ('transitions among the states left', ForAll_([u, v, k, l], z3b_(I.member_parts((Sym(u), Sym(v), SN(k), Sym(l, 'lab')), G.o.f['%E'].parts)) ==
                                                         And_(G.edges0(u, v, k, l), inn(u), inn(v)))),
                    ('states with an infinite path are left', ForAll_([n], Implies_(INF(n), inn(n)))),
                    ('no state without successor is left, if none was removed last', Or_(
                        I.parts_nonempty(s), ForAll_([n], Implies_(inn(n), Exists_([m, k], And_(G.Ef(n, m, k), inn(m)))))))]

        def havoc():
            R = I.func('left', V, B)
            ns, es = left(R)
            I.set_parts(G.o.f['%N'], ns)
            I.set_parts(G.o.f['%E'], es)
            q = I.const('q', V)
            I.set_field(fr, nm, PSet([Part((q,), I.func('last', V, B)(q), Sym(q))]))
            return [G.o.f['%N'], G.o.f['%E']]

        def rebind(fr):
            pass
        I.inv_while(fr, node, havoc, inv, 'removal of dead-ends', keep=(nm,), rebind=None)
        return True

    def setup(I):
        I.while_rules[:] = [rule]
        st['G'] = G = Graph(ctx)
        n, m, k = I.const('n', V), I.const('m', V), I.const('k', Z)
        # INF is the greatest set of states each of which has a successor in it
        I.assume(ForAll_([n], Implies_(INF(n), And_(G.Nf(n), Exists_([m, k], And_(G.Ef(n, m, k), INF(m)))))))
        return lambda: I.call(ctx.resolve(f'{LG}:LabeledDiGraph.remove_deadends'), [G.o], {})

    def post(I, out):
        G = st['G']
        n, m, k, l = I.const('n', V), I.const('m', V), I.const('k', Z), I.const('l', V)
        inn = lambda x: z3b_(node_in(I, G.o, Sym(x)))
        closed = ForAll_([n], Implies_(inn(n), And_(G.Nf(n), Exists_([m, k], And_(G.Ef(n, m, k), inn(m))))))
        I.prove(closed, 'every state that is left has a successor that is left')
        # coinduction: the states left are included in the greatest such set
        I.assume(Implies_(closed, ForAll_([n], Implies_(inn(n), INF(n)))))
        if isinstance(out, Raised):
            I.prove(And_(z3.BoolVal(out.cls is AssertionError), ForAll_([n], Not_(INF(n))), Exists_([n], G.Nf(n))), 'raises only if no state has an infinite path')
            return
        G.same_nodes(lambda n, l: And_(G.nodes0(n, l), INF(n)), 'exactly the states with an infinite path')
        G.same_edges(lambda u, v, k, l: And_(G.edges0(u, v, k, l), INF(u), INF(v)), 'exactly the transitions between them')
    ctx.verify('remove_deadends', setup, post, f'{LG}:LabeledDiGraph.remove_deadends')


def mk_untyped(ctx):
    """_check_for_untyped_keys raises iff checked and some key is not declared."""
    I = ctx.new()
    install_nx(I)
    st = {}
    HAS, DEC = F('has', V, B), F('declared', V, B)

    def setup(I):
        k = I.const('k', V)
        d = PDict([Part((k,), HAS(k), (Sym(k), Sym(F('val', V, V)(k))))])
        t = PDict([Part((k,), DEC(k), (Sym(k), Sym(F('type', V, V)(k))))])
        G = Graph(ctx)
        return lambda: I.call(ctx.resolve(f'{LG}:LabeledDiGraph._check_for_untyped_keys'), [G.o, d, t, SB(CHECK)], {})

    def post(I, out):
        k = I.const('k', V)
        bad = Exists_([k], And_(HAS(k), Not_(DEC(k))))
        if isinstance(out, Raised):
            I.prove(And_(z3.BoolVal(out.cls is AttributeError), CHECK, bad), 'raises only for a key that is not declared')
        else:
            I.prove(Not_(And_(CHECK, bad)), 'keys that are not declared are refused')
    ctx.verify('_check_for_untyped_keys', setup, post, f'{LG}:LabeledDiGraph._check_for_untyped_keys')
    I = ctx.new()
    install_nx(I)

    def setup2(I):
        st['G'] = Graph(ctx)
        st['x'] = I.sym('x')
        return lambda: SB(I.contains(st['G'].o.f['states'], st['x']))

    def post2(I, out):
        if ctx.no_raise(I, out, 'membership'):
            I.prove(out.t == st['G'].Nf(st['x'].t), 'the states are the nodes of the graph')
    ctx.verify('States.__contains__', setup2, post2, f'{LG}:States.__contains__')


GROUPS = [Group('add state', mk_add_node), Group('add transition', mk_add_edge), Group('bulk edits', mk_bulk), Group('remove transition', mk_remove_edge),
          Group('remove state', mk_remove_node), Group('dead-ends', mk_deadends), Group('untyped keys', mk_untyped)]
ASSUMED = ['networkx.MultiDiGraph: nodes, edges by key, labels merged by add_node and add_edge, fresh keys (vf/digraph.py)',
           'typed dictionaries refuse values that are not allowed (C09)', 'edits of initial and accepting states are edits of subsets (C09)',
           'labels are values: laying one over another is a function of both']
BOUNDED = ['States.remove_from, several accepting pairs: bounded executable contract']
