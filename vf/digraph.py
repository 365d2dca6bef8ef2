"""Labeled multigraphs: the assumed contract of networkx.MultiDiGraph.

A label (attribute dictionary) is a term with OVER(a, b) (b laid over a), EMPTY
and the predicates of its type: allowed values and untyped keys.  Typed
dictionaries act on labels by their contract (C09).
"""
import z3
from .core import *
from .core import _MISSING
from .contract import *
from .interp import ExtClass
from . import lib

B, Z = z3.BoolSort(), z3.IntSort()
F = z3.Function
OVER = F('over', V, V, V)
EMPTY = z3.Const('empty_label', V)
OK = F('label_allowed', V, V, B)          # types, label
UNT = F('label_untyped', V, V, B)         # types, label
la, lb, lt = z3.Consts('la lb lt', V)
LAB_AX = [z3.ForAll([la], OVER(la, la) == la, patterns=[OVER(la, la)]),
          z3.ForAll([la], OVER(EMPTY, la) == la, patterns=[OVER(EMPTY, la)]),
          z3.ForAll([la], OVER(la, EMPTY) == la, patterns=[OVER(la, EMPTY)]),
          z3.ForAll([lt, la, lb], z3.Implies(z3.And(OK(lt, la), OK(lt, lb)), OK(lt, OVER(la, lb))), patterns=[OK(lt, OVER(la, lb))]),
          z3.ForAll([lt], OK(lt, EMPTY)), z3.ForAll([lt], z3.Not(UNT(lt, EMPTY)))]


def over(a, b):
    return b if a.eq(EMPTY) else a if b.eq(EMPTY) else OVER(a, b)


def term(I, v):
    if isinstance(v, Lab):
        return v.t
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, PDict) and not v.parts:
        return EMPTY
    raise Unsupported(f'{v!r} as a label')


class Types(Val):
    """Declared label types (name -> values)."""

    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return self


class Lab(Heap):
    """An attribute dictionary; `ref` tells which element of a graph stores it."""
    __slots__ = ('parts', 'ref', 'types', 'org')

    def __init__(self, t, ref=None, types=None, org=None):
        super().__init__()
        self.parts = t if isinstance(t, tuple) else (single(Sym(t, 'lab')),)
        self.ref, self.types, self.org = ref, types, org

    @property
    def t(self):
        return self.parts[0].val.t

    def __repr__(self):
        return f'Lab({self.t})'

    def subst(self, pairs):
        g = lambda r: None if r is None else (r[0],) + tuple(z3.substitute(x, *pairs) for x in r[1:])
        w = Lab(z3.substitute(self.t, *pairs), g(self.ref), self.types, g(self.org))
        w.frozen = True
        w.id = self.id
        return w

    def kwargs_(self, I, named):
        return Lab(over(self.t, term(I, named)))

    def asdict_(self, I):
        return Lab(self.t, None, None, self.ref or self.org)

    def copy_deep_(self, I):
        return Lab(self.t)

    def copy_(self, I):
        return self.asdict_(I)

    def truth_(self, I):
        return self.t != EMPTY

    def eq_(self, I, a, b):
        try:
            return term(I, a) == term(I, b)
        except Unsupported:
            return FALSE

    def contains_(self, I, k):
        return F('label_has', V, V, B)(self.t, I.enc_.enc(k))

    def update(self, I, d=None, **kw):
        if kw:
            if set(kw) != {'**'} or d is not None:
                raise Unsupported('update with keywords')
            d = kw['**']
        x = term(I, d)
        if self.ref is not None:
            I.prove(FALSE, 'no label stored in the graph is edited')
        if self.types is not None and not x.eq(EMPTY):
            if not I.branch(OK(self.types.t, x)):
                raise PyExc(ValueError, ('value that is not allowed',))
        I.set_parts(self, (single(Sym(over(self.t, x), 'lab')),))

    def getattr_(self, I, name):
        if name == 'update':
            return Builtin('update', self.update)
        if name == 'copy':
            return Builtin('copy', lambda I: self.asdict_(I))
        if name == 'set_types':
            def st(I, t):
                if not isinstance(t, Types):
                    raise Unsupported('types of a label')
                self.types = t
            return Builtin('set_types', st)
        raise Unsupported(f'label method {name}')

    def isinstance_(self, I, name):
        return name in ('dict', 'TypedDict', 'Mapping', 'Iterable', 'Collection', 'Container')

    def iter_(self, I):
        raise Unsupported('iteration over a label')


class A(Val):
    """Object given by its attributes and the keys %in %item %iter %call %len."""

    def __init__(self, name, /, **at):
        self.name, self.at = name, at

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        v = self.at.get(name)
        if v is None:
            raise Unsupported(f'{self.name}.{name}')
        return v

    def _op(self, k):
        f = self.at.get(k)
        if f is None:
            raise Unsupported(f'{k[1:]} of {self.name}')
        return f

    def contains_(self, I, v):
        return self._op('%in')(I, v)

    def getitem_(self, I, k):
        return self._op('%item')(I, k)

    def iter_(self, I):
        return self._op('%iter')(I)

    def call_(self, I, args, kw):
        return self._op('%call')(I, *args, **kw)

    def len_(self, I):
        return self._op('%len')(I)


def hashable(v):
    return not (isinstance(v, (Lab, PDict, PList)) or isinstance(v, tuple) and not all(map(hashable, v)))


def nodes_of(o):
    return o.f['%N'].parts


def node_in(I, o, n):
    if not hashable(n):
        raise PyExc(TypeError, ('unhashable',))
    if isinstance(n, tuple) or isinstance(n, Container) or isinstance(n, Obj) and n.cls.name == 'States':
        return False
    I.note_read(o.f['%N'])
    return I.member_parts(n, [Part(p.vars, p.cond, p.val[0]) for p in nodes_of(o)])


def edges(I, o, u=None, v=None, k=None):
    """Parts of the edges (u, v, key, label)."""
    I.note_read(o.f['%E'])
    ps = o.f['%E'].parts
    for i, x in ((0, u), (1, v), (2, k)):
        if x is not None:
            ps = I.filter_parts(ps, lambda e: I._eqf(e[i], x))
    return ps


def keyterm(I, k):
    return k.t if isinstance(k, (SN, Sym)) else I.enc_.enc(k)


def lab_of(I, e):
    ref = ('e', I.enc_.enc(e[0]), I.enc_.enc(e[1]), keyterm(I, e[2]))
    w = Lab(e[3].t, ref)
    return w


class Stored(Val):
    """The label that the graph stores for an edge."""

    def __init__(self, o, u, v, k):
        self.o, self.u, self.v, self.k = o, u, v, k

    def subst(self, pairs):
        return Stored(self.o, *(subst(x, pairs) for x in (self.u, self.v, self.k)))

    def getattr_(self, I, name):
        if name == 'update':
            return Builtin('update', self.update)
        raise Unsupported(f'stored label: {name}')

    def update(self, I, d):
        nx_add_edge(I, self.o, self.u, self.v, self.k, **{'**': d})


def keydict(I, o, u, v):
    ps = edges(I, o, u, v)
    val = PList([Part(p.vars, p.cond, lab_of(I, p.val)) for p in ps])
    its = PList([Part(p.vars, p.cond, (p.val[2], lab_of(I, p.val))) for p in ps])
    keys = PList([Part(p.vars, p.cond, p.val[2]) for p in ps])

    def get(I, k, d=None):
        if isinstance(k, SN) and getattr(k, 'fresh', None):
            return d
        if I.branch_b(I.member_parts(k, keys.parts)):
            raise Unsupported('label of a given key')
        return d

    def item(I, k):
        if I.branch(I.parts_nonempty(edges(I, o, u, v, k))):
            return Stored(o, u, v, k)
        raise PyExc(KeyError, (k,))
    return A('keydict', values=Builtin('values', lambda I: val), items=Builtin('items', lambda I: its), keys=Builtin('keys', lambda I: keys),
             get=Builtin('get', get), **{'%in': lambda I, k: I.member_parts(k, keys.parts), '%item': item, '%iter': lambda I: keys.parts})


def succ(I, o, u, swap=False):
    i, j = (1, 0) if swap else (0, 1)
    ps = edges(I, o, **({'v': u} if swap else {'u': u}))
    vs = [Part(p.vars, p.cond, p.val[j]) for p in ps]
    return A('adjacency', **{'%in': lambda I, v: I.member_parts(v, vs), '%iter': lambda I: PSet(vs).parts,
                             '%item': lambda I, v: keydict(I, o, *((v, u) if swap else (u, v)))})


def has_node(I, o, n):
    return node_in(I, o, n)


def adj(I, o, swap=False):
    return A('adjacencies', **{'%in': lambda I, n: node_in(I, o, n), '%item': lambda I, n: succ(I, o, n, swap)})


def nbunch(I, o, nb):
    """Predicate of the nodes that an nbunch argument means."""
    if nb is None:
        return lambda n: TRUE
    if hashable(nb) and not isinstance(nb, (Container, tuple)) and not hasattr(nb, 'iter_') and not isinstance(nb, Obj):
        if I.branch_b(node_in(I, o, nb)):
            return lambda n: I._eqf(n, nb)
        raise Unsupported('nbunch that is one missing node')
    ps = I.iter_parts(nb)
    return lambda n: I.member_parts(n, ps)


def edge_view(I, o, nb=None, data=False, keys=False, **kw):
    if 'nbunch' in kw:
        nb = kw.pop('nbunch')
    if kw:
        raise Unsupported('edge view')
    f = nbunch(I, o, nb)
    return PList([Part(p.vars, p.cond, (p.val[0], p.val[1]) + ((p.val[2],) if keys else ()) + ((lab_of(I, p.val),) if data else ()))
                  for p in I.filter_parts(edges(I, o), lambda e: f(e[0]))])


def node_lab(I, o, n, t):
    return Lab(t, ('n', I.enc_.enc(n)))


def node_view(I, o, data=False, **kw):
    if kw:
        raise Unsupported('node view')
    I.note_read(o.f['%N'])
    return PList([Part(p.vars, p.cond, (p.val[0], node_lab(I, o, p.val[0], p.val[1].t)) if data is True else p.val[0]) for p in nodes_of(o)])


def node_item(I, o, n):
    v = I.dict_get(o.f['%N'], n)
    if v is _MISSING:
        raise PyExc(KeyError, (n,))
    return node_lab(I, o, n, v.t)


def nx_add_node(I, o, n, **kw):
    d = Lab(EMPTY)
    w = kw.pop('**', None)
    if kw:
        raise Unsupported('named attributes')
    t = EMPTY if w is None else term(I, w)
    old = I.dict_get(o.f['%N'], n)
    I.dict_set(o.f['%N'], n, Sym(t if old is _MISSING else over(old.t, t), 'lab'))


def nx_add_edge(I, o, u, v, key=None, **kw):
    w = kw.pop('**', None)
    if kw:
        raise Unsupported('named attributes')
    t = EMPTY if w is None else term(I, w)
    for n in (u, v):
        I.prove(z3b_(node_in(I, o, n)), 'a transition joins states of the graph')
    if key is None:
        key = new_key(I, o, u, v)
    elif I.branch(I.parts_nonempty(edges(I, o, u, v, key))):
        E = o.f['%E']
        keep = I.filter_parts(E.parts, lambda e: Not_(And_(I._eqf(e[0], u), I._eqf(e[1], v), I._eqf(e[2], key))))
        old = [Part(p.vars, p.cond, (p.val[0], p.val[1], p.val[2], Sym(over(p.val[3].t, t), 'lab'))) for p in edges(I, o, u, v, key)]
        I.set_parts(E, keep + old)
        return key
    I.add_parts(o.f['%E'], [single((u, v, key, Sym(t, 'lab')))])
    return key


def new_key(I, o, u, v):
    k = SN(I.const('key', Z))
    for p in edges(I, o, u, v):
        q = I.inst(p)
        I.assume(ForAll_(list(q.vars), Implies_(q.cond, keyterm(I, q.val[2]) != k.t)))
    return k


def nx_remove_edge(I, o, u, v, key=None):
    if key is None:
        raise Unsupported('removal of some edge')
    if not I.branch(I.parts_nonempty(edges(I, o, u, v, key))):
        raise PyExc('NetworkXError', ())
    I.set_parts(o.f['%E'], I.filter_parts(o.f['%E'].parts, lambda e: Not_(And_(I._eqf(e[0], u), I._eqf(e[1], v), I._eqf(e[2], key)))))


def nx_remove_node(I, o, n):
    if not I.branch_b(node_in(I, o, n)):
        raise PyExc(KeyError, ('NetworkXError',))
    I.set_parts(o.f['%N'], I.filter_parts(nodes_of(o), lambda e: Not_(I._eqf(e[0], n))))
    I.set_parts(o.f['%E'], I.filter_parts(o.f['%E'].parts, lambda e: Not_(Or_(I._eqf(e[0], n), I._eqf(e[1], n)))))


def degree(I, o, n, i=0):
    """Number of edges from (to) n: zero iff there is none."""
    ps = edges(I, o, **({'u': n} if i == 0 else {'v': n}))
    d = I.func('degree', V, Z)(I.enc_.enc(n))
    I.assume(And_(d >= 0, (d == 0) == Not_(I.parts_nonempty(ps))))
    return SN(d)


def degree_view(I, o, n=_MISSING, i=0):
    if n is not _MISSING and n is not None:
        return degree(I, o, n, i)
    out = []
    dg = I.func('degree', V, Z)
    for p in nodes_of(o):
        q = I.inst(p)
        t = I.enc_.enc(q.val[0])
        ps = edges(I, o, **({'u': q.val[0]} if i == 0 else {'v': q.val[0]}))
        I.assume(ForAll_(list(q.vars), Implies_(q.cond, And_(dg(t) >= 0, (dg(t) == 0) == Not_(I.parts_nonempty(ps))))))
        out.append(Part(q.vars, q.cond, (q.val[0], SN(dg(t)))))
    return PList(out)


def z3b_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def getattr_(I, o, name):
    if '%N' not in o.f:
        return _MISSING
    if name in ('_succ', '_adj', 'adj', 'succ'):
        return adj(I, o)
    if name in ('_pred', 'pred'):
        return adj(I, o, True)
    if name == 'nodes':
        return A('nodes', **{'%call': lambda I, *a, **k: node_view(I, o, *a, **k), '%item': lambda I, n: node_item(I, o, n),
                             '%in': lambda I, n: node_in(I, o, n), '%iter': lambda I: node_view(I, o).parts})
    if name == 'edges':
        return A('edges', **{'%call': lambda I, *a, **k: edge_view(I, o, *a, **k), '%iter': lambda I: edge_view(I, o).parts})
    if name in ('out_degree', 'in_degree'):
        i = int(name == 'in_degree')
        return A(name, **{'%call': lambda I, *a: degree_view(I, o, *a, i=i), '%iter': lambda I: degree_view(I, o, i=i).parts,
                          '%item': lambda I, n: degree(I, o, n, i)})
    return _MISSING


def check_node(I, o, n):
    if not I.branch_b(node_in(I, o, n)):
        raise PyExc(KeyError, ('NetworkXError',))


def neighbors(I, o, n, swap):
    check_node(I, o, n)
    return It(PSet(succ(I, o, n, swap).iter_(I)).parts)


def contains(I, o, n):
    try:
        return node_in(I, o, n)
    except PyExc:
        return False


def edge_data(I, o, u, v, key=None, default=None):
    if key is not None:
        raise Unsupported('label of a key')
    if I.branch(I.parts_nonempty(edges(I, o, u, v))):
        return keydict(I, o, u, v)
    return default


def install(I):
    m = dict(add_node=nx_add_node, add_edge=nx_add_edge, remove_edge=nx_remove_edge, remove_node=nx_remove_node,
             new_edge_key=new_key, get_edge_data=edge_data,
             has_edge=lambda I, o, u, v, key=None: SB(I.parts_nonempty(edges(I, o, u, v, key))),
             has_node=lambda I, o, n: SB(z3b_(contains(I, o, n))),
             successors=lambda I, o, n: neighbors(I, o, n, False), predecessors=lambda I, o, n: neighbors(I, o, n, True),
             neighbors=lambda I, o, n: neighbors(I, o, n, False),
             number_of_nodes=lambda I, o: lib.b_len(I, node_view(I, o)), number_of_edges=lambda I, o: lib.b_len(I, edge_view(I, o)),
             __contains__=lambda I, o, n: SB(z3b_(contains(I, o, n))), __iter__=lambda I, o: It(node_view(I, o).parts),
             __len__=lambda I, o: lib.b_len(I, node_view(I, o)),
             __getitem__=lambda I, o, n: succ(I, o, n))
    c = ExtClass('MultiDiGraph', m, getattr_=getattr_)
    nx = I.ext.setdefault('networkx', {})
    nx['MultiDiGraph'] = c
    nx['NetworkXError'] = ValueError
    I.axioms += LAB_AX
    I.overrides['tulip.transys.mathset:TypedDict'] = Builtin('TypedDict', lambda I, *a: Lab(EMPTY if not a else term(I, a[0])))
    return c


NT, ET = z3.Consts('node_types edge_types', V)
NDEF, EDEF = z3.Consts('node_defaults edge_defaults', V)


class Graph:
    """An arbitrary well-formed labeled graph, an instance of a class of /repo."""

    def __init__(self, ctx, cls='tulip.transys.labeled_graphs:LabeledDiGraph', name=''):
        I = self.I = ctx.I
        self.Nf, self.NLf = F(f'N{name}', V, B), F(f'NLab{name}', V, V)
        self.Ef, self.ELf = F(f'E{name}', V, V, Z, B), F(f'ELab{name}', V, V, Z, V)
        self.INITf = F(f'Init{name}', V, B)
        n = I.const('n', V)
        I.assume(Not_(self.Nf(I.enc_.enc(None))))
        u, v, k = I.const('u', V), I.const('v', V), I.const('k', Z)
        o = self.o = Obj(ctx.resolve(cls), {
            '%N': PDict([Part((n,), self.Nf(n), (Sym(n), Sym(self.NLf(n), 'lab')))]),
            '%E': PList([Part((u, v, k), self.Ef(u, v, k), (Sym(u), Sym(v), SN(k), Sym(self.ELf(u, v, k), 'lab')))])})
        I.assume(ForAll_([u, v, k], Implies_(self.Ef(u, v, k), And_(self.Nf(u), self.Nf(v), OK(ET, self.ELf(u, v, k))))))
        I.assume(ForAll_([n], Implies_(self.Nf(n), OK(NT, self.NLf(n)))))
        I.assume(ForAll_([n], Implies_(self.INITf(n), self.Nf(n))))
        nt, et = Types(NT), Types(ET)
        o.f.update(_node_label_types=nt, _edge_label_types=et, _state_label_def=nt, _transition_label_def=et,
                   _node_label_defaults=Lab(NDEF, ('d', NDEF)), _edge_label_defaults=Lab(EDEF, ('d', EDEF)))
        st = Obj(ctx.resolve('tulip.transys.labeled_graphs:States'), dict(graph=o))
        self.initial = st.f['initial'] = self.subset(ctx, st, self.INITf)
        o.f['states'] = st
        o.f['transitions'] = Obj(ctx.resolve('tulip.transys.labeled_graphs:Transitions'), dict(graph=o, _deterministic=False))

    def subset(self, ctx, sup, f):
        x = ctx.I.const('x', V)
        return Obj(ctx.resolve('tulip.transys.mathset:SubSet'), dict(_superset=sup, _set=PSet([Part((x,), f(x), Sym(x))]), _list=PList()))

    def same_nodes(self, want, name):
        """want(n, l): n is a node with label l."""
        I = self.I
        n, l = I.const('n', V), I.const('l', V)
        I.prove(z3b_(I.member_parts((Sym(n), Sym(l, 'lab')), self.o.f['%N'].parts)) == want(n, l), f'{name}: states and their labels')
        I.prove(Implies_(want(n, l), OK(NT, l)), f'{name}: states have allowed labels')

    def same_edges(self, want, name):
        """want(u, v, k, l): edge with key k and label l."""
        I = self.I
        u, v, k, l = I.const('u', V), I.const('v', V), I.const('k', Z), I.const('l', V)
        g = z3b_(I.member_parts((Sym(u), Sym(v), SN(k), Sym(l, 'lab')), self.o.f['%E'].parts))
        I.prove(g == want(u, v, k, l), f'{name}: transitions and their labels')
        I.prove(Implies_(g, And_(OK(ET, l), z3b_(node_in(I, self.o, Sym(u))), z3b_(node_in(I, self.o, Sym(v))))),
                f'{name}: transitions join states and have allowed labels')

    def same_initial(self, want, name, which='initial'):
        I = self.I
        s = self.initial if which == 'initial' else self.o.f[which]
        x = I.const('x', V)
        g = z3b_(I.member_parts(Sym(x), s.f['_set'].parts + s.f['_list'].parts))
        I.prove(g == want(x), f'{name}: {which} states')
        I.prove(Implies_(g, z3b_(node_in(I, self.o, Sym(x)))), f'{name}: {which} states are states')

    def nodes0(self, n, l):
        return And_(self.Nf(n), l == self.NLf(n))

    def edges0(self, u, v, k, l):
        return And_(self.Ef(u, v, k), l == self.ELf(u, v, k))

    def unchanged(self, name, nodes=True, edges=True, initial=True):
        if nodes:
            self.same_nodes(self.nodes0, name)
        if edges:
            self.same_edges(self.edges0, name)
        if initial:
            self.same_initial(self.INITf, name)
