"""Contracts for tulip/spec/transformation.py and the substitutions of tulip/spec/form.py.

Nodes of trees: opaque, with type, text and operator; a tree (networkx.MultiDiGraph) is the set of its nodes with
edges numbered by operand.  Functions on trees recurse through their own contract (induction on the tree).
"""
import itertools
import z3
from vf.contract import *
from vf.interp import Builtin
from vf.digraph import A
from vf.core import _MISSING
from contracts.C10 import fam, mem, z3b

MOD, AST, FORM = 'tulip.spec.transformation', 'tulip.spec.ast', 'tulip.spec.form'
B, Z = z3.BoolSort(), z3.IntSort()
TYPE, NAME, OPR = (z3.Function(n, V, V) for n in ('node_type', 'node_text', 'node_operator'))
NODE = z3.Function('node_of_tree', V, B)
ISOP = z3.Function('is_operator', V, B)
CHILD = z3.Function('child_of', V, V, B)
PAIRV = z3.Function('variable_compared_with', V, V)      # for a constant: variable on the other side
KINDS = [('Unary', '!', 1), ('Unary', 'X', 1), ('Binary', '&', 2), ('Comparator', '=', 2), ('Arithmetic', '+', 2), ('Operator', 'ite', 3)]


def eqv(I, a, b):
    try:
        return z3b(lib._bb(I.eq(a, b)))
    except Unsupported:
        return FALSE


def typ(I, u, s):
    return TYPE(u) == I.enc_.enc(s)


class Leaf(Val):
    """A new terminal node of class cls."""

    def __init__(self, cls, value):
        self.cls, self.value = cls, value

    def subst(self, pairs):
        return Leaf(self.cls, subst(self.value, pairs))

    def getattr_(self, I, name):
        if name == 'value':
            return self.value
        raise Unsupported(f'leaf.{name}')


def attr(I, o, name):
    if not (isinstance(o, Sym) and o.kind == 'node'):
        return _MISSING
    if name == 'type':
        return Sym(TYPE(o.t))
    if name in ('operator', 'operands'):
        if not I.branch(ISOP(o.t)):
            raise PyExc(AttributeError, (name,))
        if name == 'operator':
            return Sym(OPR(o.t))
    if name == 'value':
        if I.branch(ISOP(o.t)):
            raise PyExc(AttributeError, (name,))
        return Sym(NAME(o.t), 'name')
    raise Unsupported(f'node.{name}')


def install(I, nodes=True):
    I.attr_hooks.append(attr)
    I.kind_isinstance['node'] = ()
    I.kind_isinstance['name'] = ('str', 'Hashable')
    I.str_kinds['node'] = lambda u: Sym(NAME(u.t), 'name')
    x = z3.Const('nx_', V)
    I.axiom(z3.ForAll([x], ISOP(x) == typ(I, x, 'operator')))
    if nodes:
        def mk(cls):
            def make(I, v):
                I.prove(z3.BoolVal(isinstance(v, (str, SStr)) or isinstance(v, Sym) and v.kind == 'name'), f'{cls}: the value is text')
                return Leaf(cls, v)
            return Builtin(cls, make)
        I.overrides[f'{AST}:nodes'] = A('nodes', **{c: mk(c) for c in ('Var', 'Num', 'Str', 'Bool')})


class G(Val):
    """Tree with nodes {u | NODE(u)}."""

    def __init__(self, st, root=None):
        self.st, self.root = st, root

    def subst(self, pairs):
        return self

    def nodes(self, I):
        x = I.const('u', V)
        return PList([Part((x,), NODE(x), Sym(x, 'node'))])

    def iter_(self, I):
        return self.nodes(I).parts

    def getattr_(self, I, name):
        if name == 'nodes':
            # may be called or iterated
            return A('nodes', **{'%call': lambda I, *a, **k: self.nodes(I), '%iter': lambda I: self.nodes(I).parts})
        if name == 'to_recursive_ast':
            def conv(I, *a):
                I.prove(z3.BoolVal(not a or a == (None,)), 'conversion of the whole tree')
                return self.st['result']() if 'result' in self.st else Sym(I.const('tree', V), 'opaque')
            return Builtin(name, conv)
        if name == 'root':
            return self.root
        if name == 'successors':
            def succ(I, u):
                v = I.const('s', V)
                return PList([Part((v,), CHILD(I.enc_.enc(u), v), Sym(v, 'node'))])
            return Builtin(name, succ)
        if name == 'variables':
            return self.variables(I)
        h = self.st.get(name)
        if h is not None:
            return h
        raise Unsupported(f'tree.{name}')

    def variables(self, I):
        x = I.const('u', V)
        return PSet([Part((x,), And_(NODE(x), typ(I, x, 'var')), Sym(x, 'node'))])


def relabel(st):
    def f(I, g, m, copy=True):
        I.prove(z3.BoolVal(g is st['g'] and copy is False), 'the tree itself is changed')
        I.prove(z3.BoolVal('map' not in st and isinstance(m, PDict)), 'one renaming of nodes')
        if isinstance(m, PDict):
            st['map'] = PDict(m.parts)
            I.note_read(m)
    return Builtin('relabel_nodes', f)


def mapping(I, st, want, cls, value, name):
    """Exactly the nodes `want` become terminals of class cls with value(u)."""
    m = st.get('map')
    if not isinstance(m, PDict):
        I.prove(FALSE, f'{name}: nodes are replaced')
        return
    k = I.const('k', V)
    has = Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == k)) for p in map(I.inst, m.parts)])
    I.prove(And_(NODE(k), z3b(has)) == want(k), f'{name}: exactly the right nodes are replaced')
    for p in map(I.inst, m.parts):
        u, v = I.enc_.enc(p.val[0]), p.val[1]
        ok = isinstance(v, Leaf) and v.cls == cls
        I.prove(z3.BoolVal(True) if ok else Not_(p.cond), f'{name}: replaced by {cls}')
        if ok:
            I.push() if False else None
            w = value(u)
            I.prove(ForAll_(list(p.vars), Implies_(p.cond, eqv(I, v.value, w))), f'{name}: the value that replaces a node')


# ------------------------------------------------------------------ graph of a formula
class Rec(Val):
    """An empty MultiDiGraph that records edits."""

    def __init__(self):
        self.nodes, self.edges, self.rec, self.at = [], [], [], {}

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        def add_node(I, u, **k):
            self.nodes.append(u)

        def add_edge(I, u, v, key=None, **k):
            self.edges.append((u, v, key))

        def add_nodes(I, us, **k):
            for p in I.iter_parts(us):
                self.nodes.append(I.single_val(p) if hasattr(I, 'single_val') else p.val)

        def rec(I, u):
            self.rec.append(u)
            return u
        fs = dict(add_node=add_node, add_edge=add_edge, add_nodes_from=add_nodes, _recurse=rec)
        if name in fs:
            return Builtin(name, fs[name])
        if name in self.at:
            return self.at[name]
        raise Unsupported(f'graph.{name}')

    def setattr_(self, I, name, v):
        self.at[name] = v


class Opaque_(Val):
    """A node about which nothing is known."""

    def __init__(self, name):
        self.name = name

    def subst(self, pairs):
        return self

    def __repr__(self):
        return self.name


def build(ctx, I, cn, op, n):
    nodes = I.mod_get(I.load(AST), 'nodes')
    cls = I.getattr_(nodes, cn)
    xs = [Opaque_(f'operand{i}') for i in range(n)]
    return I.call(cls, [op] + xs, {}), cls, xs


def leaves(I):
    nodes = I.mod_get(I.load(AST), 'nodes')
    for cn, v in (('Var', Sym(I.const('name', V), 'str')), ('Num', '3'), ('Str', Sym(I.const('s', V), 'str')), ('Bool', 'True')):
        yield cn, I.getattr_(nodes, cn), I.call(I.getattr_(nodes, cn), [v], {}), v


def func(I, v):
    return getattr(v, 'fn', v)


def mk_graph(ctx):
    I = ctx.new()
    I.mod_get(I.load(AST), 'nodes')
    st = {}

    def setup(I):
        def go():
            f = func(I, ctx.resolve(f'{MOD}:Tree._recurse'))
            for cn, op, n in KINDS:
                u, cls, xs = build(ctx, I, cn, op, n)
                g = Rec()
                I.call(f, [g, u], {})
                name = f'{cn} {op}'
                want = [(u, x, i) for i, x in enumerate(xs)]
                same = lambda a, b: a[0] is b[0] and a[1] is b[1] and type(a[2]) is int and a[2] == b[2]
                I.prove(z3.BoolVal(len(g.edges) == n and all(any(same(e, w) for e in g.edges) for w in want)),
                        f'graph of {name}: an edge to every operand, numbered by its place')
                I.prove(z3.BoolVal(all(x is u or any(x is y for y in xs) for x in g.nodes)), f'graph of {name}: no other node')
                I.prove(z3.BoolVal(len(g.rec) >= n and all(any(r is x for r in g.rec) for x in xs) and all(
                    any(r is x for x in xs) for r in g.rec)), f'graph of {name}: the graphs of all operands')
                same_node(I, u, cls, op, xs, f'graph of {name}: the formula is unchanged')
            for cn, cls, u, v in leaves(I):
                g = Rec()
                I.call(f, [g, u], {})
                I.prove(z3.BoolVal(g.edges == [] and g.rec == [] and len(g.nodes) >= 1 and all(x is u for x in g.nodes)),
                        f'graph of {cn}: the node itself')
            # from_recursive_ast
            g, u = Rec(), Opaque_('root')
            f = func(I, ctx.resolve(f'{MOD}:Tree.from_recursive_ast'))
            r = I.call(f, [Builtin('Tree', lambda I: g), u], {})
            I.prove(z3.BoolVal(r is g and g.at.get('root') is u and len(g.rec) >= 1 and all(x is u for x in g.rec)
                               and g.edges == [] and g.nodes == []), 'graph of a formula: root and graph')
        return go

    def post(I, out):
        ctx.no_raise(I, out, 'graph of a formula')
    ctx.under_contract += [f'{MOD}:Tree._recurse', f'{MOD}:Tree.from_recursive_ast']
    ctx.verify('graph', setup, post)


def same_node(I, u, cls, op, xs, name):
    ok = isinstance(u, Obj) and u.cls is cls
    I.prove(z3.BoolVal(ok), f'{name}: class')
    if not ok:
        return
    I.prove(eqv(I, I.getattr_(u, 'operator'), op), f'{name}: operator')
    I.prove(eqv(I, I.getattr_(u, 'type'), 'operator'), f'{name}: type')
    ys = I.concrete_elems(I.getattr_(u, 'operands'))
    I.prove(z3.BoolVal(ys is not None and len(ys) == len(xs) and all(a is b for a, b in zip(ys, xs))), f'{name}: operands in order')


def mk_back(ctx):
    I = ctx.new()
    I.mod_get(I.load(AST), 'nodes')

    class Graph(Val):
        def __init__(self, u, edges, root=None):
            self.u, self.es, self.root = u, edges, root

        def subst(self, pairs):
            return self

        def getattr_(self, I, name):
            if name == 'root':
                return self.root
            if name == 'succ':
                def get(I, x, d=None):
                    I.prove(z3.BoolVal(x is self.u), 'successors of the node')
                    return PList([single(v) for _, v, _ in self.es]) if self.es else d
                return A('succ', get=Builtin('get', get))
            if name in ('edges', 'out_edges'):
                def edges(I, x, keys=False):
                    I.prove(z3.BoolVal(x is self.u and keys is True), 'edges of the node')
                    return PList([single(e) for e in self.es])
                return Builtin('edges', edges)
            if name == 'to_recursive_ast':
                def conv(I, v):
                    if not hasattr(v, 'conv'):
                        v.conv = Opaque_(f'formula of {v!r}')
                    return v.conv
                return Builtin(name, conv)
            raise Unsupported(f'graph.{name}')

    def setup(I):
        def go():
            f = func(I, ctx.resolve(f'{MOD}:Tree.to_recursive_ast'))
            for at_root in (False, True):
                for cn, op, n in KINDS:
                    for perm in itertools.permutations(range(n)):
                        u, cls, xs = build(ctx, I, cn, op, n)
                        # operands of the tree may differ from those of the node (after replacements)
                        ys = [Opaque_(f'successor{i}') for i in range(n)]
                        g = Graph(u, [(u, ys[i], i) for i in perm], u)
                        r = I.call(f, [g] + ([] if at_root else [u]), {})
                        name = f'formula of {cn} {op}'
                        I.prove(z3.BoolVal(r is not u), f'{name}: a new node')
                        same_node(I, r, cls, op, [y.conv if hasattr(y, 'conv') else None for y in ys], name)
                        same_node(I, u, cls, op, xs, f'{name}: the node is unchanged')
                for cn, cls, u, v in leaves(I):
                    r = I.call(f, [Graph(u, [], u)] + ([] if at_root else [u]), {})
                    I.prove(z3.BoolVal(isinstance(r, Obj) and r.cls is cls and r is not u), f'formula of {cn}: class')
                    if isinstance(r, Obj):
                        I.prove(And_(eqv(I, I.getattr_(r, 'value'), v), eqv(I, I.getattr_(r, 'type'), I.getattr_(u, 'type'))),
                                f'formula of {cn}: value')
            # two operands that are the same node
            u, cls, xs = build(ctx, I, 'Binary', '&', 2)
            y = Opaque_('successor')
            r = I.call(f, [Graph(u, [(u, y, 0), (u, y, 1)]), u], {})
            same_node(I, r, cls, '&', [y.conv, y.conv], 'formula with a shared operand')
        return go

    def post(I, out):
        ctx.no_raise(I, out, 'formula of a graph')
    ctx.under_contract += [f'{MOD}:Tree.to_recursive_ast']
    ctx.verify('formula', setup, post)


# ------------------------------------------------------------------ replacing terminals
def mk_values(ctx):
    I = ctx.new()
    st = {}
    install(I)
    VAL, HAS = z3.Function('value_of', V, V), z3.Function('has_value', V, B)

    def setup(I):
        st.clear()
        st['g'] = G(st, Sym(I.const('root', V), 'node'))
        I.ext.setdefault('networkx', {})['relabel_nodes'] = relabel(st)
        d = PDict([fam(I, HAS, lambda k: Sym(VAL(k), 'name'))])
        return lambda: I.call(ctx.resolve(f'{MOD}:sub_values'), [st['g'], d], {})

    def post(I, out):
        name = 'sub_values'
        u = I.const('u', V)
        free = And_(NODE(u), typ(I, u, 'var'), Not_(HAS(NAME(u))))
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.cls is KeyError), f'{name}: no {out.name}')
            I.prove(Exists_([u], free), f'{name}: refused only for a variable without value')
            return
        I.prove(Not_(free), f'{name}: refused for variables without value')
        mapping(I, st, lambda k: And_(NODE(k), typ(I, k, 'var')), 'Str', lambda k: Sym(VAL(NAME(k)), 'name'), name)
    ctx.verify('sub_values', setup, post, f'{MOD}:sub_values')


INDOM = z3.Function('in_domain', V, V, B)        # domain of variable, value
POS = z3.Function('position', V, V, Z)
ISLIST = z3.Function('is_finite_domain', V, B)


class Dom(Val):
    """Domain of the variable named k."""

    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Dom(z3.substitute(self.k, pairs))

    def isinstance_(self, I, name):
        if name == 'list':
            return ISLIST(self.k)
        raise Unsupported(f'isinstance of a domain: {name}')

    def contains_(self, I, v):
        return INDOM(self.k, I.enc_.enc(v))

    def getattr_(self, I, name):
        if name == 'index':
            def index(I, v):
                t = I.enc_.enc(v)
                if not I.branch(INDOM(self.k, t)):
                    raise PyExc(ValueError, ('not in list',))
                return SN(POS(self.k, t))
            return Builtin('index', index)
        raise Unsupported(f'domain.{name}')

    def copy_deep_(self, I):
        return self

    def copy_(self, I):
        return self


def c_pair(I, f, a, kw):
    env = I.bind(f, a, kw)
    c = env['c']
    x = PAIRV(c.t)
    y = z3.Function('operator_above', V, V)(c.t)
    I.assume(And_(typ(I, x, 'var'), typ(I, y, 'operator')))
    return (Sym(x, 'node'), Sym(y, 'node'))


def mk_constants(ctx):
    I = ctx.new()
    st = {}
    install(I)
    HAS = z3.Function('has_domain', V, B)
    I.contracts[f'{MOD}:pair_node_to_var'] = c_pair

    def setup(I):
        st.clear()
        st['g'] = G(st, Sym(I.const('root', V), 'node'))
        I.ext.setdefault('networkx', {})['relabel_nodes'] = relabel(st)
        d = PDict([fam(I, HAS, Dom)])
        return lambda: I.call(ctx.resolve(f'{MOD}:sub_constants'), [st['g'], d], {})

    def post(I, out):
        name = 'sub_constants'
        u = I.const('u', V)
        s = lambda k: And_(NODE(k), typ(I, k, 'str'))
        nodom = And_(s(u), Not_(HAS(NAME(PAIRV(u)))))
        noval = And_(s(u), HAS(NAME(PAIRV(u))), Not_(INDOM(NAME(PAIRV(u)), NAME(u))))
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.cls in (KeyError, ValueError)), f'{name}: no {out.name}')
            I.prove(Exists_([u], nodom if out.cls is KeyError else noval), f'{name}: refused only for values outside of the domain')
            return
        I.prove(Not_(Or_(nodom, noval)), f'{name}: values outside of the domain are refused')
        mapping(I, st, s, 'Num', lambda k: lib.mkstr([SN(POS(NAME(PAIRV(k)), NAME(k)))]), name)
    ctx.verify('sub_constants', setup, post, f'{MOD}:sub_constants')



# ------------------------------------------------------------------ names that occur
def mk_variables(ctx):
    I = ctx.new()
    st = {}
    install(I)

    def setup(I):
        st.clear()
        st['g'] = G(st)
        p = I.mod_get(I.load(MOD), 'Tree').ns['variables']
        return lambda: I.call(p.fget, [st['g']], {})

    def post(I, out):
        if not ctx.no_raise(I, out, 'variables'):
            return
        u = I.const('u', V)
        I.prove(z3b(lib._bb(I.contains(out, Sym(u, 'node')))) == And_(NODE(u), typ(I, u, 'var')), 'the nodes that are variables')
    ctx.under_contract.append(f'{MOD}:Tree.variables')
    ctx.verify('variables', setup, post)

    I = ctx.new()
    install(I)
    ROOT, PARSE = z3.Const('root_', V), z3.Function('parsed', V, V)
    I.contracts['tulip.spec.parser:parse'] = lambda I, f, a, kw: Sym(PARSE(I.enc_.enc(I.bind(f, a, kw)['formula'])), 'node')
    OF = z3.Function('node_of', V, V, B)

    class T(G):
        def __init__(self, r):
            self.r = r

        def nodes(self, I):
            x = I.const('u', V)
            return PList([Part((x,), OF(self.r, x), Sym(x, 'node'))])

        def variables(self, I):
            x = I.const('u', V)
            return PSet([Part((x,), And_(OF(self.r, x), typ(I, x, 'var')), Sym(x, 'node'))])
    I.contracts[f'{MOD}:Tree.from_recursive_ast'] = lambda I, f, a, kw: T(I.enc_.enc(I.bind(f, a, kw)['u']))

    def setup2(I):
        st.update(f=Sym(I.const('f', V), 'formula'), n=Sym(I.const('n', V), 'name'))
        return lambda: I.call(ctx.resolve(f'{MOD}:check_var_name_conflict'), [st['f'], st['n']], {})

    def post2(I, out):
        name = 'check_var_name_conflict'
        r = PARSE(st['f'].t)
        u, k = I.const('u', V), I.const('k', V)
        occ = lambda k: Exists_([u], And_(OF(r, u), typ(I, u, 'var'), NAME(u) == k))
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.cls is ValueError), f'{name}: no {out.name}')
            I.prove(occ(st['n'].t), f'{name}: refused only if the name occurs')
            return
        I.prove(Not_(occ(st['n'].t)), f'{name}: a name that occurs is refused')
        I.prove(z3b(lib._bb(I.contains(out, Sym(k, 'name')))) == occ(k), f'{name}: the names that occur')
    ctx.verify('name conflict', setup2, post2, f'{MOD}:check_var_name_conflict')


def mk_primed(ctx):
    """Worklist of (node, under a next operator): exactly what is reachable."""
    I = ctx.new(timeout_ms=20000)
    st = {}
    install(I)
    OCC = z3.Function('occurs_under', V, B, B)
    I.contracts[f'{MOD}:Tree.from_recursive_ast'] = lambda I, f, a, kw: (
        I.prove(z3.BoolVal(I.bind(f, a, kw)['u'] is st['t']), 'collect_primed_vars: the tree of the formula'), G(st))[1]
    isx = lambda u: And_(ISOP(u), OPR(u) == I.enc_.enc('X'))

    def rules(R, t):
        u, v, c = z3.Const('ru_', V), z3.Const('rv_', V), z3.Const('rc_', B)
        return [R(t, z3.BoolVal(False)), z3.ForAll([u, v, c], z3.Implies(z3.And(R(u, c), CHILD(u, v)), R(v, z3.Or(c, isx(u)))))]

    def inq(Q, u, c):
        return mem(I, (Sym(u, 'node'), SB(c)), Q)

    def rule(I, fr, node):
        import ast
        if not isinstance(node.test, ast.Name):
            return False
        Q = fr.f.get(node.test.id)
        ss = [v for v in fr.f.values() if isinstance(v, PSet)]
        if not isinstance(Q, PList) or len(ss) != 1:
            raise Unsupported('worklist')
        S = ss[0]
        g = dict(done=lambda u, c: FALSE, head=None)

        def havoc():
            q, s, d = I.func('q', V, B, B), I.func('primed', V, B), I.func('done', V, B, B)
            u, c = I.const('u', V), I.const('c', B)
            I.set_parts(Q, [Part((u, c), q(u, c), (Sym(u, 'node'), SB(c)))])
            I.set_parts(S, [fam(I, s, None)])
            g.update(done=d, head=q)
            return [Q, S]

        def inv():
            if g['head'] is None:
                done = g['done']
            else:
                d, h = g['done'], g['head']
                Qn = PList(Q.parts)
                done = lambda u, c: Or_(d(u, c), And_(h(u, c), Not_(inq(Qn, u, c))))
            u, v, c, k = I.const('u', V), I.const('v', V), I.const('c', B), I.const('k', V)
            isv = lambda u: typ(I, u, 'var')
            x = z3.Const('x!p', V)
            return [('waiting pairs occur', ForAll_([u, c], Implies_(inq(Q, u, c), OCC(u, c)))),
                    ('collected names occur under a next operator', ForAll_([k], Implies_(
                        mem(I, Sym(k, 'name'), S), Exists_([x], And_(OCC(x, z3.BoolVal(True)), isv(x), NAME(x) == k))))),
                    ('the formula itself', Or_(done(st['t'].t, z3.BoolVal(False)), inq(Q, st['t'].t, z3.BoolVal(False)))),
                    ('operands of processed nodes', ForAll_([u, v, c], Implies_(And_(done(u, c), CHILD(u, v)), Or_(
                        done(v, Or_(c, isx(u))), inq(Q, v, Or_(c, isx(u))))))),
                    ('variables of processed nodes', ForAll_([u], Implies_(And_(done(u, z3.BoolVal(True)), isv(u)),
                                                                         mem(I, Sym(NAME(u), 'name'), S))))]
        I.inv_while(fr, node, havoc, inv, 'worklist')
        # rule induction: what occurs is in every closed relation
        d = g['done']
        done = (lambda u, c: Or_(d(u, c), g['head'](u, c))) if g['head'] is not None else d
        u, c = z3.Const('iu_', V), z3.Const('ic_', B)
        I.assume(z3.Implies(z3.And(*rules(done, st['t'].t)), z3.ForAll([u, c], z3.Implies(OCC(u, c), done(u, c)))))
        return True
    I.while_rules[:] = [rule]

    def setup(I):
        t = st['t'] = Sym(I.const('t', V), 'node')
        for f in rules(OCC, t.t):
            I.assume(f)
        # a variable is not an operator, an operator has no text
        return lambda: I.call(ctx.resolve(f'{MOD}:collect_primed_vars'), [t], {})

    def post(I, out):
        name = 'collect_primed_vars'
        if not ctx.no_raise(I, out, name):
            return
        k, x = I.const('k', V), z3.Const('x!q', V)
        occ = Exists_([x], And_(OCC(x, z3.BoolVal(True)), typ(I, x, 'var'), NAME(x) == k))
        got = z3b(lib._bb(I.contains(out, Sym(k, 'name'))))
        I.prove(Implies_(got, occ), f'{name}: only variables under a next operator')
        I.prove(Implies_(occ, got), f'{name}: all variables under a next operator')
    ctx.verify('collect_primed_vars', setup, post, f'{MOD}:collect_primed_vars')


def mk_idents(ctx):
    I = ctx.new()
    st = {}
    install(I)
    HAS = z3.Function('declared', V, B)
    I.contracts[f'{MOD}:pair_node_to_var'] = c_pair

    def setup(I):
        st.clear()
        st['g'] = G(st)
        d = PDict([fam(I, HAS, Dom)])
        return lambda: I.call(ctx.resolve(f'{MOD}:check_for_undefined_identifiers'), [st['g'], d], {})

    def post(I, out):
        name = 'check_for_undefined_identifiers'
        u = I.const('u', V)
        bad = And_(NODE(u), typ(I, u, 'var'), Not_(HAS(NAME(u))))
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.cls is ValueError), f'{name}: no {out.name}')
            I.prove(Exists_([u], bad), f'{name}: refused only for undeclared variables')
            return
        I.prove(Not_(bad), f'{name}: undeclared variables are refused')
    ctx.verify('undefined identifiers', setup, post, f'{MOD}:check_for_undefined_identifiers')


# ------------------------------------------------------------------ quoting of names
def mk_infer(ctx):
    DECL = z3.Function('declared', V, B)
    I = ctx.new()
    install(I)
    st = {}

    def conflict(x):
        k = z3.Const('ck_', V)
        return lambda names: z3.Or(names(x), z3.Exists([k], z3.And(names(k), ISLIST(k), INDOM(k, x))))

    def setup0(I):
        S = I.func('given', V, B)
        st['S'] = S
        s = PSet([Part((x,), S(x), Sym(x, 'name')) for x in [I.const('x', V)]])
        return lambda: I.call(ctx.resolve(f'{MOD}:_check_var_conflicts'), [s, PDict([fam(I, DECL, Dom)])], {})

    def post0(I, out):
        name = '_check_var_conflicts'
        x = I.const('x', V)
        bad = And_(st['S'](x), conflict(x)(DECL))
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.cls is Exception), f'{name}: no {out.name}')
            I.prove(Exists_([x], bad), f'{name}: refused only for ambiguous names')
            return
        I.prove(Not_(bad), f'{name}: ambiguous names are refused')
    ctx.verify('conflicts', setup0, post0, f'{MOD}:_check_var_conflicts')

    for kind in ('domains', 'names'):
        I = ctx.new()
        install(I)
        PARSE = z3.Function('parsed', V, V)
        I.contracts['tulip.spec.parser:parse'] = lambda I, f, a, kw: Sym(PARSE(I.enc_.enc(I.bind(f, a, kw)['formula'])), 'node')

        def tree(I, f, a, kw):
            u = I.bind(f, a, kw)['u']
            I.prove(I.enc_.enc(u) == PARSE(st['f'].t), 'infer_constants: the tree of the formula')
            return st['g']
        I.contracts[f'{MOD}:Tree.from_recursive_ast'] = tree

        def c_conf(I, f, a, kw):
            env = I.bind(f, a, kw)
            s, d = env['s'], env['variables']
            x, k = z3.Const('cx_', V), z3.Const('cd_', V)
            names = lambda k: z3b(I.parts_nonempty(I.filter_parts(d.parts, lambda e: I._eqf(e[0], Sym(k, 'name')))))
            for p in map(I.inst, d.parts):
                I.prove(And_(I.enc_.enc(p.val[0]) == p.val[1].k) if not p.vars else ForAll_(list(p.vars), Implies_(
                    p.cond, I.enc_.enc(p.val[0]) == p.val[1].k)), 'domains of their variables')
            if I.branch(z3.Exists([x], And_(mem(I, Sym(x, 'name'), s), Or_(names(x), z3.Exists([k], And_(names(k), ISLIST(k), INDOM(k, x))))))):
                raise PyExc(Exception, ('ambiguous',))
        I.contracts[f'{MOD}:_check_var_conflicts'] = c_conf

        def setup(I):
            st.clear()
            st['f'] = Sym(I.const('f', V), 'formula')
            res = Sym(I.const('flat', V), 'formula')
            st['res'] = res
            st['g'] = G(st)

            def result():
                I.prove(z3.BoolVal('map' in st), 'infer_constants: names are replaced before the formula is printed')
                return A('formula', flatten=Builtin('flatten', lambda I: res))
            st['result'] = result
            I.ext.setdefault('networkx', {})['relabel_nodes'] = relabel(st)
            d = PDict([fam(I, DECL, Dom)]) if kind == 'domains' else PSet([Part((x,), DECL(x), Sym(x, 'name')) for x in [I.const('x', V)]])
            return lambda: I.call(ctx.resolve(f'{MOD}:infer_constants'), [st['f'], d], {})

        def post(I, out):
            name = f'infer_constants {kind}'
            x, k = I.const('x', V), z3.Const('ck_', V)
            bad = And_(DECL(x), Exists_([k], And_(DECL(k), k != x, ISLIST(k), INDOM(k, x)))) if kind == 'domains' else FALSE
            if isinstance(out, Raised):
                I.prove(z3.BoolVal(out.cls is Exception), f'{name}: no {out.name} ({out.e})'[:150])
                I.prove(Exists_([x], bad), f'{name}: refused only for ambiguous names')
                return
            I.prove(Not_(bad), f'{name}: ambiguous names are refused')
            mapping(I, st, lambda k: And_(NODE(k), typ(I, k, 'var'), Not_(DECL(NAME(k)))), 'Str',
                    lambda k: lib.mkstr(['"', Sym(NAME(k), 'name'), '"']), name)
            I.prove(eqv(I, out, st['res']), f'{name}: the text of the result')
        ctx.verify(f'infer_constants {kind}', setup, post, f'{MOD}:infer_constants')



# ------------------------------------------------------------------ the variable compared with a constant
class PN(Val):
    """Node number i above the constant ('up') or below the other operand of the operator ('down')."""

    def __init__(self, w, side, i):
        self.w, self.side, self.i = w, side, i

    def subst(self, pairs):
        return PN(self.w, self.side, z3.substitute(self.i, pairs))

    def eq_(self, I, a, b):
        o = b if a is self else a
        if not isinstance(o, PN):
            return False
        # a constant and a variable are of different classes, so equal nodes are the same node
        return FALSE if o.side != self.side else self.i == o.i

    def getattr_(self, I, name):
        n, m = self.w['n'], self.w['m']
        leaf = self.i == (0 if self.side == 'up' else m)
        if name == 'type':
            return ('str' if self.side == 'up' else 'var') if I.branch(leaf) else 'operator'
        if name == 'operands':
            if I.branch(leaf):
                raise PyExc(AttributeError, (name,))
            return A('operands', **{'%len': lambda I: SN(self.w['len'](self.i) if self.side == 'up' else z3.IntVal(1))})
        if name == 'operator':
            if I.branch(leaf):
                raise PyExc(AttributeError, (name,))
            return Sym(I.const('op', V))
        if name == 'value':
            if not I.branch(leaf):
                raise PyExc(AttributeError, (name,))
            return Sym(I.const('value', V), 'name')
        raise Unsupported(f'node.{name}')


def mk_pair(ctx):
    I = ctx.new()
    st = {}

    def rule(I, fr, node):
        from vf.interp import assigned_names
        import ast
        names = assigned_names(node.body + [ast.Expr(node.test)])
        ns = sorted(k for k, v in fr.f.items() if isinstance(v, PN) and k in names)
        if not ns:
            return False
        w = st['w']
        cur = {k: fr.f[k] for k in ns}
        facts = []
        ents = lambda f: not I.feasible(Not_(f))

        def rng(v):
            return And_(v.i >= 0, v.i <= (w['n'] if v.side == 'up' else w['m']))
        for k in ns:
            facts.append((f'{cur[k].side} node', lambda k=k: rng(fr.f[k]) if isinstance(fr.f[k], PN) and fr.f[k].side == cur[k].side else FALSE))
            if cur[k].side == 'up' and ents(cur[k].i < w['n']):
                facts.append(('below the operator', lambda k=k: fr.f[k].i < w['n'] if isinstance(fr.f[k], PN) else FALSE))
        for a in ns:
            for b in ns:
                if a < b and cur[a].side == cur[b].side:
                    for d in (-1, 0, 1):
                        if ents(cur[a].i == cur[b].i + d):
                            facts.append(('consecutive nodes', lambda a=a, b=b, d=d: fr.f[a].i == fr.f[b].i + d))

        def havoc():
            for k in ns:
                I.set_field(fr, k, PN(w, cur[k].side, I.const('i', Z)))
            return []
        I.inv_while(fr, node, havoc, lambda: [(n, f()) for n, f in facts], 'walk', keep=ns)
        return True
    I.while_rules[:] = [rule]

    class Walk(Val):
        def __init__(self, w):
            self.w = w

        def subst(self, pairs):
            return self

        def getattr_(self, I, name):
            w = self.w

            def preds(I, c):
                I.prove(And_(c.i < w['n']) if c.side == 'up' else FALSE, 'only nodes below the operator have their operand followed up')
                return PList([single(PN(w, 'up', z3.simplify(c.i + 1)))])

            def succs(I, c):
                if c.side == 'down':
                    return PList([single(PN(w, 'down', z3.simplify(c.i + 1)))]) if I.branch(c.i < w['m']) else PList([])
                if I.branch(c.i == w['n']):
                    two = [PN(w, 'up', z3.simplify(w['n'] - 1)), PN(w, 'down', z3.IntVal(0))]
                    return PList([single(x) for x in (two if w['first'] else two[::-1])])
                return PList([single(PN(w, 'up', z3.simplify(c.i - 1)))]) if I.branch(c.i > 0) else PList([])
            if name in ('predecessors', 'successors'):
                return Builtin(name, preds if name == 'predecessors' else succs)
            if name in ('succ', 'pred'):
                f = succs if name == 'succ' else preds
                return A(name, get=Builtin('get', lambda I, x, d=None: f(I, x)), **{'%item': f})
            raise Unsupported(f'tree.{name}')

    def setup(I):
        n, m = I.const('n', Z), I.const('m', Z)
        ln = z3.Function('number_of_operands', Z, Z)
        i = z3.Int('li_')
        I.assume(And_(n >= 1, m >= 0, ln(n) == 2))
        I.assume(z3.ForAll([i], z3.Implies(And_(i > 0, i < n), And_(ln(i) >= 1, ln(i) != 2))))
        w = st['w'] = dict(n=n, m=m, len=ln, first=I.choose([TRUE, TRUE]) == 0)
        return lambda: I.call(ctx.resolve(f'{MOD}:pair_node_to_var'), [Walk(w), PN(w, 'up', z3.IntVal(0))], {})

    def post(I, out):
        name = 'pair_node_to_var'
        if not ctx.no_raise(I, out, name):
            return
        w = st['w']
        r = I.unpack(out, 2) if hasattr(I, 'unpack') else out
        v, op = r
        I.prove(v.i == w['m'] if isinstance(v, PN) and v.side == 'down' else FALSE, f'{name}: the variable on the other side')
        I.prove(op.i == w['n'] if isinstance(op, PN) and op.side == 'up' else FALSE, f'{name}: the operator of two operands above')
    ctx.verify('pair_node_to_var', setup, post, f'{MOD}:pair_node_to_var')


# ------------------------------------------------------------------ subtrees
def mk_subtree(ctx):
    I = ctx.new()
    st = {}
    install(I)
    E0, TE = z3.Function('edge', V, V, Z, B), z3.Function('edge_of_subtree', V, V, Z, B)

    class Edit(Val):
        def __init__(self, I, leaf):
            u, v, k = I.const('u', V), I.const('v', V), I.const('k', Z)
            self.E = PList([Part((u, v, k), E0(u, v, k), (Sym(u, 'node'), Sym(v, 'node'), SN(k)))])
            self.o = Obj(None, dict(root=st['root'], gone=False))
            self.leaf = leaf

        def subst(self, pairs):
            return self

        def setattr_(self, I, name, v):
            if name != 'root':
                raise Unsupported(f'tree.{name} is set')
            I.set_field(self.o, 'root', v)

        def getattr_(self, I, name):
            if name == 'root':
                return self.o.f['root']
            if name in ('succ', 'successors'):
                get = lambda I, x, d=None: (I.prove(eqv(I, x, self.leaf), 'successors of the leaf'), PList([]))[1]
                return A(name, get=Builtin('get', get), **{'%item': get, '%call': get})
            if name == 'add_edge':
                def add(I, u, v, key=None):
                    I.add_parts(self.E, [single((u, v, key))])
                return Builtin(name, add)
            if name == 'in_edges':
                def ine(I, x, keys=False):
                    I.prove(And_(eqv(I, x, self.leaf), z3.BoolVal(not self.o.f['gone'] and keys is True)), 'edges into the leaf')
                    return PList([single((st['parent'], self.leaf, SN(st['k'])))]) if st['parent'] is not None else PList([])
                return Builtin(name, ine)
            if name == 'predecessors':
                return Builtin(name, lambda I, x: PList([single(st['parent'])] if st['parent'] is not None else []))
            if name == 'remove_node':
                def rm(I, x):
                    I.prove(And_(eqv(I, x, self.leaf), z3.BoolVal(not self.o.f['gone'])), 'the leaf is removed')
                    I.set_field(self.o, 'gone', True)
                    l = self.leaf.t
                    ps = []
                    for p in map(I.inst, self.E.parts):
                        a, b = I.enc_.enc(p.val[0]), I.enc_.enc(p.val[1])
                        ps.append(Part(p.vars, And_(p.cond, a != l, b != l), p.val))
                    I.set_parts(self.E, ps)
                return Builtin(name, rm)
            raise Unsupported(f'tree.{name}')

    def setup(I):
        st.clear()
        leaf = st['leaf'] = Sym(I.const('leaf', V), 'node')
        st['troot'] = Sym(I.const('subroot', V), 'node')
        st['root'] = Sym(I.const('root', V), 'node')
        u, v, k = z3.Const('su_', V), z3.Const('sv_', V), z3.Int('sk_')
        I.assume(z3.ForAll([u, k], z3.Not(E0(leaf.t, u, k))))
        I.assume(z3.ForAll([u, v, k], z3.Implies(TE(u, v, k), And_(u != leaf.t, v != leaf.t))))
        I.assume(st['troot'].t != leaf.t)
        if I.choose([TRUE, TRUE]):
            st['parent'], st['k'] = Sym(I.const('parent', V), 'node'), I.const('place', Z)
            I.assume(And_(st['parent'].t != leaf.t, st['root'].t != leaf.t))
            I.assume(z3.ForAll([u, k], E0(u, leaf.t, k) == And_(u == st['parent'].t, k == st['k'])))
        else:
            st['parent'] = None
            I.assume(st['root'].t == leaf.t)
            I.assume(z3.ForAll([u, k], z3.Not(E0(u, leaf.t, k))))
        g = st['edit'] = Edit(I, leaf)

        def edges(I, keys=False):
            a, b, c = I.const('u', V), I.const('v', V), I.const('k', Z)
            I.prove(z3.BoolVal(keys is True), 'edges with their places')
            return PList([Part((a, b, c), TE(a, b, c), (Sym(a, 'node'), Sym(b, 'node'), SN(c)))])
        sub = A('subtree', root=st['troot'], edges=Builtin('edges', edges))
        f = func(I, ctx.resolve(f'{MOD}:Tree.add_subtree'))
        return lambda: I.call(f, [g, leaf, sub], {})

    def post(I, out):
        name = 'add_subtree'
        if not ctx.no_raise(I, out, name):
            return
        g, l = st['edit'], st['leaf'].t
        u, v, k = I.const('u', V), I.const('v', V), I.const('k', Z)
        got = mem(I, (Sym(u, 'node'), Sym(v, 'node'), SN(k)), g.E)
        link = And_(u == st['parent'].t, v == st['troot'].t, k == st['k']) if st['parent'] is not None else FALSE
        I.prove(got == Or_(And_(E0(u, v, k), v != l), TE(u, v, k), link), f'{name}: the edges')
        I.prove(I.enc_.enc(g.o.f['root']) == (st['root'] if st['parent'] is not None else st['troot']).t, f'{name}: the root')
        I.prove(z3.BoolVal(g.o.f['gone'] is True), f'{name}: the leaf is removed')
    ctx.under_contract.append(f'{MOD}:Tree.add_subtree')
    ctx.verify('add_subtree', setup, post)

    I = ctx.new()
    install(I)
    HAS, ST = z3.Function('has_subtree', V, B), z3.Function('subtree_for', V, V)

    def setup2(I):
        st.clear()
        st['calls'] = PList([])

        def add(I, leaf, tree):
            I.add_parts(st['calls'], [single((leaf, tree))])
        st['g'] = G(st)
        st['add_subtree'] = Builtin('add_subtree', add)
        d = PDict([fam(I, HAS, lambda k: Sym(ST(k), 'tree'))])
        return lambda: I.call(ctx.resolve(f'{MOD}:sub_bool_with_subtree'), [st['g'], d], {})

    def post2(I, out):
        name = 'sub_bool_with_subtree'
        if not ctx.no_raise(I, out, name):
            return
        u, t = I.const('u', V), I.const('t', V)
        I.prove(mem(I, (Sym(u, 'node'), Sym(t, 'tree')), st['calls']) == And_(
            NODE(u), typ(I, u, 'var'), HAS(NAME(u)), t == ST(NAME(u))), f'{name}: the listed variables, by their subtrees')
    ctx.verify('sub_bool_with_subtree', setup2, post2, f'{MOD}:sub_bool_with_subtree')


# ------------------------------------------------------------------ specifications
ASTF = z3.Function('formula_tree', V, V)          # text -> tree
INT, FLAT, SUBV, SUBB, PARSE = (z3.Function(n, V, V) for n in ('integer_form', 'text_of_tree', 'values_substituted', 'subtrees_substituted', 'parsed'))
PARTS = [f'{p}_{q}' for p in ('env', 'sys') for q in ('init', 'safety', 'prog')]
INP = {p: z3.Function(f'clause_of_{p}', V, B) for p in PARTS}
HE, HS = z3.Function('env_var', V, B), z3.Function('sys_var', V, B)


class TG(Val):
    """Tree graph of node t, possibly after a substitution."""

    def __init__(self, t, o=None):
        self.t, self.o = t, o or Obj(None, dict(sub=None))

    def subst(self, pairs):
        return TG(z3.substitute(self.t, pairs), self.o)

    def getattr_(self, I, name):
        if name == 'to_recursive_ast':
            def conv(I):
                f = self.o.f['sub']
                return Sym(f(self.t) if f is not None else self.t, 'ast')
            return Builtin(name, conv)
        raise Unsupported(f'tree.{name}')


class Spec(Val):
    def __init__(self, I, st):
        self.o = Obj(None, {})
        self.st = st
        x = I.const('x', V)
        f = self.o.f
        for p in PARTS:
            f[p] = PList([Part((y,), INP[p](y), Sym(y, 'name')) for y in [I.const('y', V)]])
        f['env_vars'], f['sys_vars'] = (PDict([fam(I, h, Dom)]) for h in (HE, HS))
        f['_parts'] = PSet([single(p) for p in PARTS])

    def subst(self, pairs):
        return self

    def isinstance_(self, I, name):
        return name in ('GRSpec', 'LTL')

    def getattr_(self, I, name):
        if name in self.o.f:
            return self.o.f[name]
        raise Unsupported(f'spec.{name}')

    def setattr_(self, I, name, v):
        if name not in PARTS:
            raise Unsupported(f'spec.{name} is set')
        I.set_field(self.o, name, v)


def ast_attr(I, o, name):
    if isinstance(o, Sym) and o.kind == 'ast':
        if name == 'flatten':
            return Builtin(name, lambda I: Sym(FLAT(o.t), 'name'))
        raise Unsupported(f'ast.{name}')
    return _MISSING


def install_spec(I):
    install(I)
    I.attr_hooks.insert(0, ast_attr)
    I.kind_isinstance['ast'] = ()
    I.contracts[f'{MOD}:Tree.from_recursive_ast'] = lambda I, f, a, kw: TG(I.enc_.enc(I.bind(f, a, kw)['u']))


def mk_str_to_int(ctx):
    I = ctx.new(timeout_ms=20000)
    st = {}
    install_spec(I)
    a_ = z3.Const('a_', V)
    I.axiom(z3.ForAll([a_], ASTF(FLAT(INT(a_))) == INT(a_)))           # the text of a tree is read as that tree (C14)
    I.axiom(z3.ForAll([a_], FLAT(a_) != I.enc_.enc(None)))
    FL = lambda x: FLAT(INT(ASTF(x)))
    live = lambda x: Or_(*[INP[p](x) for p in PARTS])

    def get(I, d, k):
        """(has, value) of key term k."""
        has = z3b(I.parts_nonempty(I.filter_parts(d.parts, lambda e: I._eqf(e[0], Sym(k, 'name')))))
        return has

    def val_ok(I, d, f):
        return And_(*[ForAll_(list(p.vars), Implies_(p.cond, I.enc_.enc(p.val[1]) == f(I.enc_.enc(p.val[0])))) for p in map(I.inst, d.parts)])

    def c_sub(I, f, a, kw):
        env = I.bind(f, a, kw)
        g, d = env['tree'], env['var_str2int']
        k = I.const('k', V)
        want = And_(Or_(HE(k), HS(k)), ISLIST(k))
        I.prove(z3b(I.parts_nonempty(I.filter_parts(d.parts, lambda e: I._eqf(e[0], Sym(k, 'name'))))) == want, 'str_to_int: variables of finite domains')
        for p in map(I.inst, d.parts):
            I.prove(ForAll_(list(p.vars), Implies_(p.cond, p.val[1].k == I.enc_.enc(p.val[0]))) if isinstance(p.val[1], Dom) else Not_(p.cond),
                    'str_to_int: their domains')
        I.prove(z3.BoolVal(g.o.f['sub'] is None), 'str_to_int: one substitution')
        I.set_field(g.o, 'sub', INT)
    I.contracts[f'{MOD}:sub_constants'] = c_sub

    def arbitrary(I, s, facts):
        hb, ha, fi, ta = I.func('in_bool_int', V, B), I.func('in_ast', V, B), I.func('bool_int', V, V), I.func('ast', V, V)
        I.set_parts(s['_bool_int'], [fam(I, hb, lambda k: Sym(fi(k), 'name'))])
        I.set_parts(s['_ast'], [fam(I, ha, lambda k: Sym(ta(k), 'ast'))])

    def cons(I, s):
        return [('stored texts are integer forms', val_ok(I, s['_bool_int'], FL)), ('stored trees are those of their texts', val_ok(I, s['_ast'], ASTF)),
                ('formulas are texts', And_(*[ForAll_(list(p.vars), Implies_(p.cond, I.enc_.enc(p.val[0]) != I.enc_.enc(None))) for p in map(I.inst, s['_ast'].parts)]))]

    def rule(I, fr, node, it):
        if not isinstance(it, PList) or len(it.parts) != 1 or len(it.parts[0].vars) != 1:
            return False
        s = st['s'].o.f
        b0, a0 = PDict(s['_bool_int'].parts), PDict(s['_ast'].parts)
        for w in (b0, a0):
            w.frozen = True

        def inv(p, done):
            x = z3.Const('x!d', V)
            ok = lambda d: ForAll_([x], Implies_(d(x), And_(get(I, s['_bool_int'], x), get(I, s['_ast'], FL(x)))))
            return cons(I, s) + [
                ('clauses already done', ok(lambda x: done([x]))),
                ('clauses done before', ok(lambda x: And_(live(x), get(I, b0, x), get(I, a0, FL(x)))))]
        I.inv_for(fr, node, it, lambda: (arbitrary(I, s, None), [s['_bool_int'], s['_ast']])[1], inv, 'clauses')
        return True
    I.for_rules.append(rule)

    def setup(I):
        st.clear()
        s = st['s'] = Spec(I, st)
        s.o.f['_bool_int'], s.o.f['_ast'] = PDict([]), PDict([])
        arbitrary(I, s.o.f, None)
        for _, f in cons(I, s.o.f):
            I.assume(f)
        I.assume(Not_(live(I.enc_.enc(None))))

        def c_ast(I, x):
            # other entries may be read or dropped; those of clauses and of their integer forms stay
            f = s.o.f
            b, a = f['_bool_int'], PDict(f['_ast'].parts)
            t = I.enc_.enc(x)
            I.prove(live(t), 'str_to_int: a clause')
            ha, ta = I.func('in_ast', V, B), I.func('ast', V, V)
            I.set_parts(f['_ast'], [fam(I, ha, lambda k: Sym(ta(k), 'ast'))])
            y = I.const('y', V)
            I.assume(And_(val_ok(I, f['_ast'], ASTF), ha(t), Not_(ha(I.enc_.enc(None)))))
            I.assume(ForAll_([y], Implies_(And_(live(y), get(I, b, y), get(I, a, FL(y))), ha(FL(y)))))
            return Sym(ASTF(t), 'ast')
        s.o.f['ast'] = Builtin('ast', c_ast)
        return lambda: I.call(func(I, ctx.resolve(f'{FORM}:GRSpec.str_to_int')), [s], {})

    def post(I, out):
        name = 'str_to_int'
        if not ctx.no_raise(I, out, name):
            return
        s = st['s'].o.f
        x = I.const('x', V)
        for n, f in cons(I, s):
            I.prove(f, f'{name}: {n}')
        I.prove(Implies_(live(x), And_(get(I, s['_bool_int'], x), get(I, s['_ast'], FL(x)))), f'{name}: every clause has an integer form')
    ctx.under_contract.append(f'{FORM}:GRSpec.str_to_int')
    ctx.verify('str_to_int', setup, post)


def mk_spec_values(ctx):
    I = ctx.new()
    st = {}
    install_spec(I)
    HA = z3.Function('in_ast', V, B)

    def c_sub(I, f, a, kw):
        env = I.bind(f, a, kw)
        I.prove(z3.BoolVal(env['var_values'] is st['d']), 'sub_values: the given values')
        I.prove(z3.BoolVal(env['tree'].o.f['sub'] is None), 'sub_values: one substitution')
        I.set_field(env['tree'].o, 'sub', SUBV)
    I.contracts[f'{MOD}:sub_values'] = c_sub

    def rule(I, fr, node, it):
        import ast
        ws = {t.value.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Assign) for t in n.targets
              if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)}
        read = {n.id for n in ast.walk(node.iter) if isinstance(n, ast.Name)} & ws
        if len(read) != 1 or not isinstance(fr.f.get(*read), PDict):
            return False
        d = fr.f[read.pop()]
        d0 = PDict(d.parts)
        d0.frozen = True

        def inv(p, done):
            x, y = z3.Const('x!v', V), z3.Const('y!v', V)
            item = lambda x, y, c: mem(I, (Sym(x, 'name'), Sym(y, 'ast')), PList(c.parts))
            return [('values are substituted in the formulas already done', ForAll_([x, y], item(x, y, d) == Or_(
                And_(Not_(done([x])), item(x, y, d0)), And_(done([x]), HA(x), y == SUBV(ASTF(x))))))]

        def havoc():
            h, f = I.func('in_copy', V, B), I.func('copy', V, V)
            I.set_parts(d, [fam(I, h, lambda k: Sym(f(k), 'ast'))])
            return [d]
        I.inv_for(fr, node, it, havoc, inv, 'formulas')
        return True
    I.for_rules.append(rule)

    def setup(I):
        st.clear()
        s = st['s'] = Spec(I, st)
        st['d'] = PDict([fam(I, z3.Function('given', V, B), lambda k: Sym(k, 'name'))])
        s.o.f['_ast'] = PDict([fam(I, HA, lambda k: Sym(ASTF(k), 'ast'))])
        return lambda: I.call(func(I, ctx.resolve(f'{FORM}:GRSpec.sub_values')), [s, st['d']], {})

    def post(I, out):
        name = 'GRSpec.sub_values'
        if not ctx.no_raise(I, out, name):
            return
        I.prove(z3.BoolVal(isinstance(out, PDict)), f'{name}: a dictionary')
        k = I.const('k', V)
        for d, f, n in ((out, lambda k: SUBV(ASTF(k)), 'the trees with values'), (st['s'].o.f['_ast'], ASTF, 'the specification is unchanged')):
            has = z3b(I.parts_nonempty(I.filter_parts(d.parts, lambda e: I._eqf(e[0], Sym(k, 'name')))))
            I.prove(has == HA(k), f'{name}: {n}: formulas')
            for p in map(I.inst, d.parts):
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, I.enc_.enc(p.val[1]) == f(I.enc_.enc(p.val[0])))), f'{name}: {n}')
    ctx.under_contract.append(f'{FORM}:GRSpec.sub_values')
    ctx.verify('GRSpec.sub_values', setup, post)


def mk_dependent(ctx):
    I = ctx.new()
    st = {}
    install_spec(I)
    HAS, FM = z3.Function('dependent', V, B), z3.Function('formula_of', V, V)
    I.contracts['tulip.spec.parser:parse'] = lambda I, f, a, kw: Sym(PARSE(I.enc_.enc(I.bind(f, a, kw)['formula'])), 'ast')

    def c_sub(I, f, a, kw):
        env = I.bind(f, a, kw)
        g, d = env['tree'], env['bool2subtree']
        k = I.const('k', V)
        I.prove(z3b(I.parts_nonempty(I.filter_parts(d.parts, lambda e: I._eqf(e[0], Sym(k, 'name'))))) == HAS(k), 'replace_dependent_vars: the given variables')
        for p in map(I.inst, d.parts):
            ok = isinstance(p.val[1], TG) and p.val[1].o.f['sub'] is None
            I.prove(ForAll_(list(p.vars), Implies_(p.cond, p.val[1].t == PARSE(FM(I.enc_.enc(p.val[0]))))) if ok else Not_(p.cond),
                    'replace_dependent_vars: their formulas')
        I.prove(z3.BoolVal(g.o.f['sub'] is None), 'replace_dependent_vars: one substitution')
        I.set_field(g.o, 'sub', SUBB)
    I.contracts[f'{MOD}:sub_bool_with_subtree'] = c_sub

    class D(Dom):
        def subst(self, pairs):
            return D(z3.substitute(self.k, pairs))

        def eq_(self, I, a, b):
            o = b if a is self else a
            return st['bool'](self.k) if o == 'boolean' else False

    def setup(I):
        st.clear()
        st['bool'] = z3.Function('is_Boolean', V, B)
        k = z3.Const('bk_', V)
        I.assume(z3.ForAll([k], z3.Implies(HAS(k), st['bool'](k))))
        s = st['s'] = Spec(I, st)
        s.o.f['env_vars'], s.o.f['sys_vars'] = (PDict([fam(I, h, D)]) for h in (HE, HS))
        s.o.f['ast'] = Builtin('ast', lambda I, x: Sym(ASTF(I.enc_.enc(x)), 'ast'))
        d = PDict([fam(I, HAS, lambda k: Sym(FM(k), 'name'))])
        return lambda: I.call(ctx.resolve(f'{FORM}:replace_dependent_vars'), [s, d], {})

    def post(I, out):
        name = 'replace_dependent_vars'
        if not ctx.no_raise(I, out, name):
            return
        x, y = I.const('x', V), I.const('y', V)
        for p in PARTS:
            l = st['s'].o.f[p]
            if not isinstance(l, PList):
                I.prove(FALSE, f'{name}: {p} is a list')
                continue
            I.prove(mem(I, Sym(x, 'name'), l) == Exists_([y], And_(INP[p](y), x == FLAT(SUBB(ASTF(y))))), f'{name}: conditions of {p}')
    ctx.verify('replace_dependent_vars', setup, post, f'{FORM}:replace_dependent_vars')



def mk_parse(ctx):
    """GRSpec.ast, parse and the removal of what is no longer used (contract of `ast` in str_to_int)."""
    I = ctx.new(timeout_ms=20000)
    st = {}
    install_spec(I)
    HA, HB, FI = z3.Function('in_ast', V, B), z3.Function('in_bool_int', V, B), z3.Function('bool_int', V, V)
    live = lambda x: Or_(*[INP[p](x) for p in PARTS])
    BADV = z3.Function('has_undeclared_variable', V, B)
    none = lambda: I.enc_.enc(None)

    def parse(I, x):
        return Sym(ASTF(I.enc_.enc(x)), 'ast')

    def c_check(I, f, a, kw):
        env = I.bind(f, a, kw)
        g, d = env['tree'], env['domains']
        k = I.const('k', V)
        I.prove(z3b(I.parts_nonempty(I.filter_parts(d.parts, lambda e: I._eqf(e[0], Sym(k, 'name'))))) == Or_(HE(k), HS(k)),
                'parse: all variables are declared')
        if I.branch(BADV(g.t)):
            raise PyExc(ValueError, ('undeclared',))
    I.contracts[f'{MOD}:check_for_undefined_identifiers'] = c_check

    def spec(I):
        s = st['s'] = Spec(I, st)
        f = s.o.f
        f['_bool_int'] = PDict([fam(I, HB, lambda k: Sym(FI(k), 'name'))])
        f['_ast'] = PDict([fam(I, HA, lambda k: Sym(ASTF(k), 'ast'))])
        f['parser'] = A('parser', parse=Builtin('parse', parse))
        I.assume(And_(Not_(live(none())), Not_(HA(none()))))
        x = z3.Const('sx_', V)
        I.assume(z3.ForAll([x], FI(x) != none()))
        return s

    def has(I, d, k):
        return z3b(I.parts_nonempty(I.filter_parts(d.parts, lambda e: I._eqf(e[0], Sym(k, 'name')))))

    def used(k):
        y = z3.Const('uy_', V)
        return z3.Or(live(k), z3.Exists([y], And_(live(y), HB(y), FI(y) == k)))

    def state(I, name, want):
        d = st['s'].o.f['_ast']
        k = I.const('k', V)
        I.prove(Implies_(has(I, d, k), want(k)), f'{name}: no other formulas are kept')
        I.prove(Implies_(want(k), has(I, d, k)), f'{name}: the formulas in use are there')
        for p in map(I.inst, d.parts):
            I.prove(ForAll_(list(p.vars), Implies_(p.cond, I.enc_.enc(p.val[1]) == ASTF(I.enc_.enc(p.val[0])))), f'{name}: trees of their texts')

    def rule(I, fr, node, it):
        cache = st['s'].o.f['_ast']
        ps = I.iter_parts(it) if isinstance(it, PSet) else []
        if not ps or not any(v is cache for v in fr.f.values()) or st.get('fn') != 'garbage':
            return False
        if len(ps) != 1 or len(ps[0].vars) != 1:
            if all(not p.vars for p in ps):
                return False
            raise Unsupported('removal of several families')
        c0 = PDict(cache.parts)
        c0.frozen = True

        def inv(p, done):
            k = z3.Const('k!g', V)
            return [('removed formulas', ForAll_([k], has(I, cache, k) == And_(has(I, c0, k), Not_(done([k]))))),
                    ('trees of their texts', And_(*[ForAll_(list(q.vars), Implies_(q.cond, I.enc_.enc(q.val[1]) == ASTF(I.enc_.enc(q.val[0]))))
                                                    for q in map(I.inst, cache.parts)]))]

        def havoc():
            h, f = I.func('in_cache', V, B), I.func('cached', V, V)
            I.set_parts(cache, [fam(I, h, lambda k: Sym(f(k), 'ast'))])
            return [cache]
        I.inv_for(fr, node, it, havoc, inv, 'removal')
        return True
    I.for_rules.append(rule)
    log = A('logger', getEffectiveLevel=Builtin('getEffectiveLevel', lambda I: 30),
            **{k: Builtin(k, lambda I, *a, **k: None) for k in ('debug', 'info', 'warning', 'error')})
    I.overrides[f'{FORM}:_logger'] = log
    I.ext.setdefault('logging', {})['DEBUG'] = 10

    def setup0(I):
        st.clear()
        st['fn'] = 'garbage'
        s = spec(I)
        return lambda: I.call(func(I, ctx.resolve(f'{FORM}:GRSpec._collect_cache_garbage')), [s, s.o.f['_ast']], {})

    def post0(I, out):
        name = '_collect_cache_garbage'
        if ctx.no_raise(I, out, name):
            state(I, name, lambda k: And_(HA(k), used(k)))
    ctx.under_contract.append(f'{FORM}:GRSpec._collect_cache_garbage')
    ctx.verify('garbage', setup0, post0)

    def c_collect(I, cache):
        I.prove(z3.BoolVal(cache is st['s'].o.f['_ast']), 'parse: formulas that are not used are dropped from the trees')
        I.set_parts(cache, I.filter_parts(cache.parts, lambda e: used(I.enc_.enc(e[0]))))

    def setup1(I):
        st.clear()
        s = spec(I)
        s.o.f['_collect_cache_garbage'] = Builtin('_collect_cache_garbage', c_collect)
        return lambda: I.call(func(I, ctx.resolve(f'{FORM}:GRSpec.parse')), [s], {})

    def post1(I, out):
        name = 'parse'
        x = I.const('x', V)
        bad = And_(live(x), Not_(HA(x)), BADV(ASTF(x)))
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.cls is ValueError), f'{name}: no {out.name} ({out.e})'[:120])
            I.prove(Exists_([x], bad), f'{name}: refused only for undeclared variables')
            return
        I.prove(Not_(bad), f'{name}: undeclared variables are refused')
        state(I, name, lambda k: And_(Or_(HA(k), live(k)), used(k)))
    ctx.under_contract.append(f'{FORM}:GRSpec.parse')
    ctx.verify('parse', setup1, post1)

    def setup2(I):
        st.clear()
        s = spec(I)
        st['parsed'] = False

        def do(I):
            ha = z3.Function('in_ast_after', V, B)
            I.assume(st['fact'] if 'fact' in st else TRUE)
            k = z3.Const('pk_', V)
            I.assume(z3.ForAll([k], ha(k) == And_(Or_(HA(k), live(k)), used(k))))
            I.set_parts(s.o.f['_ast'], [fam(I, ha, lambda k: Sym(ASTF(k), 'ast'))])
        s.o.f['parse'] = Builtin('parse', do)
        x = st['x'] = Sym(I.const('x', V), 'name')
        I.assume(live(x.t))
        return lambda: I.call(func(I, ctx.resolve(f'{FORM}:GRSpec.ast')), [s, x], {})

    def post2(I, out):
        name = 'ast'
        if not ctx.no_raise(I, out, name):
            return
        I.prove(I.enc_.enc(out) == ASTF(st['x'].t), f'{name}: the tree of the text')
        k = I.const('k', V)
        d = st['s'].o.f['_ast']
        I.prove(Implies_(And_(used(k), HA(k)), has(I, d, k)), f'{name}: formulas in use stay')
        I.prove(has(I, d, st['x'].t), f'{name}: the tree is stored')
        for p in map(I.inst, d.parts):
            I.prove(ForAll_(list(p.vars), Implies_(p.cond, I.enc_.enc(p.val[1]) == ASTF(I.enc_.enc(p.val[0])))), f'{name}: trees of their texts')
    ctx.under_contract.append(f'{FORM}:GRSpec.ast')
    ctx.verify('ast', setup2, post2)


GROUPS = [Group('graph of a formula', mk_graph), Group('formula of a graph', mk_back), Group('sub_values', mk_values),
          Group('sub_constants', mk_constants), Group('variables', mk_variables), Group('primed variables', mk_primed),
          Group('undefined identifiers', mk_idents), Group('compared variable', mk_pair), Group('subtrees', mk_subtree),
          Group('str_to_int', mk_str_to_int), Group('trees of a specification', mk_parse), Group('values in a specification', mk_spec_values), Group('dependent variables', mk_dependent),
          Group('infer constants', mk_infer)]
ASSUMED = ['networkx.MultiDiGraph: nodes and edges with keys; relabel_nodes replaces exactly the nodes of the mapping, with their edges',
           'parser.parse returns the tree of the text, reading back a printed tree gives that tree (C14)',
           'operands are nodes of their own (the parser shares none); pair_node_to_var: a constant is below an operator of two operands',
           'rule induction for what occurs in a formula',
           'sub_values is given texts (known finding sub-values-type)', 'list.index, logging']
BOUNDED = []
