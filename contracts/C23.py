"""Contracts of tulip/abstract/prop2partition.py.

Geometry is ideal: a polytope or region is a set of points up to sets without volume.  `intersect`, `diff`,
`union`, `reduce`, `is_fulldim`, ... of the package polytope are assumed contracts over these sets.  Lists of
regions have symbolic length n: C(i, x) - point x in region i, P(i, p) - proposition p in its label.
"""
import ast
import itertools
import z3
from vf.contract import *
from vf import lib
from vf.interp import ExtClass, ContinueEx, BreakEx
from vf.core import Poison
from vf.core import _MISSING
from vf.digraph import A
from contracts.C08 import St, num, z3b
from contracts.C10 import fam

MOD = 'tulip.abstract.prop2partition'
B, Z = z3.BoolSort(), z3.IntSort()
F = z3.Function
DOM, PROP, HOLDS = F('domain', V, B), F('proposition', V, B), F('holds', V, V, B)
CONVEX, REGION = 'polytope', 'region'


# ------------------------------------------------------------------ regions
class Reg(St):
    """A polytope (kind CONVEX), a region, or a result of an operation: a polytope iff its length is 0."""

    def __init__(self, I, pts, props=None, kind=REGION, n=None):
        super().__init__(pts=pts, props=props)
        self.kind = kind
        self.n = n if n is not None else z3.IntVal(0) if kind == CONVEX else I.const('pieces', Z)
        if n is None and kind != CONVEX:
            I.assume(self.n >= 0)

    def pts(self, x):
        return self.get('pts')(x)

    def is_poly(self, I):
        """Decide (by cases) whether this is a polytope."""
        if self.kind in (CONVEX, REGION):
            return self.kind == CONVEX
        return I.branch(self.n == 0)

    frozen = False      # a region of the given partition: must not be changed
    given = None        # labels of regions of the given partition
    tag = None          # index of a region of the new partition

    def subst(self, pairs):
        f, lab = self.get('pts'), self.get('props')
        r = Reg.__new__(type(self))
        St.__init__(r, pts=lambda x: z3.substitute(f(x), *pairs), props=None if lab is None else subst(lab, pairs))
        r.kind, r.n = self.kind, z3.substitute(self.n, *pairs)
        if self.given is not None:
            lab = r.get('props')
            self.given.append((lab, lab.parts))
            r.given = self.given
        r.frozen, r.tag = self.frozen, None if self.tag is None else z3.substitute(self.tag, *pairs)
        return r

    def len_(self, I):
        return SN(self.n)

    def getattr_(self, I, name):
        if name == 'props':
            p = self.get('props')
            if p is None:
                raise PyExc(AttributeError, ('props',))
            return p
        if name == 'copy':
            def copy(I):
                if self.is_poly(I):
                    return Reg(I, self.get('pts'), None, CONVEX)
                return Reg(I, self.get('pts'), as_set(I, self.get('props')), REGION, self.n)
            return Builtin('copy', copy)
        if name == 'intersect':
            def intersect(I, o, *tol, **kw):
                a, b = self.get('pts'), reg(o).get('pts')
                return result(I, lambda x: And_(a(x), b(x)))
            return Builtin('intersect', intersect)
        if name == 'diff':
            def diff(I, o):
                a, b = self.get('pts'), reg(o).get('pts')
                return result(I, lambda x: And_(a(x), Not_(b(x))))
            return Builtin('diff', diff)
        if name == 'volume':
            return Volume(full(I, self))
        raise Unsupported(f'region.{name}')

    def compare_(self, I, op, a, b):
        if op == 'GtE':
            a, b = b, a
        elif op != 'LtE':
            raise Unsupported(f'regions {op}')
        x = I.const('x', V)
        return SB(ForAll_([x], Implies_(reg(a).pts(x), reg(b).pts(x))))

    def setattr_(self, I, name, v):
        if name != 'props':
            raise Unsupported(f'region.{name} = ...')
        if self.frozen:
            I.prove(FALSE, 'regions of the given partition are not changed')
        self.put(I, 'props', v)

    def copy_deep_(self, I):
        return Reg(I, self.get('pts'), self.get('props') and as_set(I, self.get('props')), self.kind, self.n)


class Volume(Val):
    """Compared with the tolerance only: whether it is positive."""

    def __init__(self, pos):
        self.pos = pos

    def subst(self, pairs):
        return Volume(z3.substitute(self.pos, *pairs))

    def compare_(self, I, op, a, b):
        if isinstance(a, Tol):
            a, b, op = b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        if a is self and op == 'Gt' and isinstance(b, Tol):
            return SB(self.pos)
        if a is self and op == 'LtE' and isinstance(b, Tol):
            return SB(Not_(self.pos))
        raise Unsupported('comparison of a volume')


class Tol(Val):
    def subst(self, pairs):
        return self


def as_set(I, v):
    return I.call(set, [v], {})


def reg(v):
    if not isinstance(v, Reg):
        raise Unsupported(f'{v!r} as a region')
    return v


def result(I, pts):
    """Polytope or region; a region made by an operation has no label."""
    return Reg(I, pts, PSet(), 'result')


def label(I, r, p):
    s = r.get('props')
    if not isinstance(s, PSet):
        return None
    return z3b(I.member_parts(Sym(p), s.parts))


def full(I, r):
    x = I.const('x', V)
    return Exists_([x], reg(r).pts(x))


def polytope(I, st):
    def region(I, list_poly=None, props=None):
        ps = [reg(p.val) for p in (list_poly.parts if isinstance(list_poly, Container) else [])]
        if list_poly is not None and not (isinstance(list_poly, PList) and all(not p.vars and z3.is_true(p.cond) for p in list_poly.parts)):
            raise Unsupported('region of a list')
        pts = [p.get('pts') for p in ps]
        return Reg(I, lambda x: Or_(*[f(x) for f in pts]), PSet() if props is None else as_set(I, props))
    e = I.ext.setdefault('polytope', {})
    e.update(Region=Builtin('Region', region), is_fulldim=Builtin('is_fulldim', lambda I, r: SB(full(I, r))),
             reduce=Builtin('reduce', lambda I, r: Reg(I, reg(r).get('pts'), reg(r).get('props'), r.kind, r.n)))

    def adjacent(I, part):
        st['adjacency'] = part
        return Adj(part, part.o.f.get('regions') if isinstance(part, Part_) else None)
    e['find_adjacent_regions'] = Builtin('find_adjacent_regions', adjacent)
    e['polytope'] = A('polytope', ABS_TOL=Tol())


class Adj(Val):
    def __init__(self, of, regions=None):
        self.of, self.regions = of, regions

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        if name == 'copy':
            return Builtin('copy', lambda I: Adj(self.of, self.regions))
        raise Unsupported(f'adjacency.{name}')


class Props(A):
    """The dictionary of propositions."""

    def copy_deep_(self, I):
        return self

    def isinstance_(self, I, name):
        return name == 'dict'


def propositions(I):
    def item(I, k):
        t = I.enc_.enc(k)
        if I.feasible(Not_(PROP(t))):
            raise Unsupported('key of the propositions')
        return Reg(I, lambda x: HOLDS(t, x), None, CONVEX)

    def keys(I):
        k = I.const('p', V)
        return [Part((k,), PROP(k), Sym(k))]

    def items(I):
        k = I.const('p', V)
        return PList([Part((k,), PROP(k), (Sym(k), Pre(k)))])
    d = Props('propositions', **{'%iter': keys, '%item': item, '%in': lambda I, k: PROP(I.enc_.enc(k))}, keys=Builtin('keys', lambda I: PList(keys(I))), items=Builtin('items', items))
    return d


class Pre(Val):
    """The set of a bound proposition; becomes a region when it is used."""

    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Pre(z3.substitute(self.k, *pairs))


# ------------------------------------------------------------------ lists of regions
class Regs(St):
    """C(i, x), P(i, p) for i < n, seen through the index map ix; `ov` are the regions that were read or stored."""

    def __init__(self, n, C, P, ix=lambda j: j):
        super().__init__(n=n, C=C, P=P, ix=ix, ov=())

    def at(self, I, k):
        n = self.get('n')
        i = num(I, k)
        if z3.is_int_value(i) and i.as_long() < 0:
            i = n + i
        I.prove(And_(0 <= i, i < n), 'the index of a region is in range')
        return z3.simplify(i)

    def find(self, I, i):
        for j, r in reversed(self.get('ov')):
            if j.eq(i) or not I.feasible(j != i):
                return r
            if I.feasible(j == i):
                if I.branch(j == i):
                    return r
        return None

    def getitem_(self, I, k):
        i = self.at(I, k)
        r = self.find(I, i)
        if r is None:
            C, P, a = self.get('C'), self.get('P'), self.get('ix')(i)
            q = I.const('p', V)
            r = Reg(I, lambda x: C(a, x), PSet([Part((q,), P(a, q), Sym(q))]))
            self.put(I, 'ov', self.get('ov') + ((i, r),))
        return r

    def setitem_(self, I, k, v):
        i = self.at(I, k)
        self.put(I, 'ov', self.get('ov') + ((i, reg(v)),))

    def len_(self, I):
        return SN(self.get('n'))

    def iter_(self, I):
        raise Unsupported('iteration over regions that change')

    def getattr_(self, I, name):
        if name == 'append':
            def append(I, v):
                n = self.get('n')
                self.put(I, 'ov', self.get('ov') + ((n, reg(v)),))
                self.put(I, 'n', z3.simplify(n + 1))
            return Builtin('append', append)
        if name == 'pop':
            def pop(I, k=None):
                n = self.get('n')
                I.prove(n > 0, 'a region to remove')
                if k is None:
                    last = z3.simplify(n - 1)
                    r = self.getitem_(I, SN(last))
                    self.put(I, 'ov', tuple((j, x) for j, x in self.get('ov') if I.feasible(j != last)))
                    self.put(I, 'n', last)
                    return r
                i = self.at(I, k)
                if self.get('ov'):
                    raise Unsupported('removal of a region after changes')
                ix = self.get('ix')
                C, P, a = self.get('C'), self.get('P'), ix(i)
                self.put(I, 'ix', lambda j: ix(z3.If(j < i, j, j + 1)))
                self.put(I, 'n', z3.simplify(n - 1))
                q = I.const('p', V)
                return Reg(I, lambda x: C(a, x), PSet([Part((q,), P(a, q), Sym(q))]))
            return Builtin('pop', pop)
        raise Unsupported(f'regions.{name}')

    def view(self, I):
        """C, P as they are now."""
        C0, P0, ix, ov = self.get('C'), self.get('P'), self.get('ix'), self.get('ov')
        for j, r in ov:
            I.prove(z3.BoolVal(not r.kind == CONVEX and isinstance(r.get('props'), PSet)), 'a labeled region is stored')
            if r.kind == 'result':
                I.prove(r.n != 0, 'a labeled region is stored, not a polytope')

        def C(i, x):
            e = C0(ix(i), x)
            for j, r in ov:
                e = z3.If(i == j, r.pts(x), e)
            return e

        def P(i, p):
            e = P0(ix(i), p)
            for j, r in ov:
                e = z3.If(i == j, label(I, r, p), e)
            return e
        return C, P


class Ints(St):
    """List of numbers."""

    def __init__(self, n, f):
        super().__init__(n=n, f=f)

    def at(self, I, k):
        n, i = self.get('n'), num(I, k)
        if z3.is_int_value(i) and i.as_long() < 0:
            i = n + i
        I.prove(And_(0 <= i, i < n), 'the index of a mark is in range')
        return z3.simplify(i)

    def getitem_(self, I, k):
        return SN(self.get('f')(self.at(I, k)))

    def setitem_(self, I, k, v):
        i, f, t = self.at(I, k), self.get('f'), num(I, v)
        self.put(I, 'f', lambda j: z3.If(j == i, t, f(j)))

    def len_(self, I):
        return SN(self.get('n'))

    def getattr_(self, I, name):
        if name == 'append':
            def append(I, v):
                n, f, t = self.get('n'), self.get('f'), num(I, v)
                self.put(I, 'f', lambda j: z3.If(j == n, t, f(j)))
                self.put(I, 'n', z3.simplify(n + 1))
            return Builtin('append', append)
        raise Unsupported(f'marks.{name}')


def rng(n, *ii):
    return And_(*[And_(0 <= i, i < n) for i in ii])


def names_of(fr, node, test):
    used = {s.id for b in node.body for s in ast.walk(b) if isinstance(s, ast.Name)}
    return [k for k in sorted(used) if k in fr.f and test(fr.f[k])]


# ------------------------------------------------------------------ prop2part
def partition(I, n, C, P, D, W=None):
    """(name, variables, formula) of the invariant for the propositions in D."""
    i, j, x, p = z3.Int('i'), z3.Int('j'), z3.Const('x', V), z3.Const('p', V)
    r = [('the number of regions', [], n >= 0),
         ('regions are inside of the domain', [i, x], Implies_(And_(rng(n, i), C(i, x)), DOM(x))),
         ('regions do not overlap', [i, j, x], Implies_(And_(rng(n, i, j), C(i, x), C(j, x)), i == j)),
         ('labels have visited propositions', [i, p], Implies_(And_(rng(n, i), P(i, p)), D(p))),
         ('a region is inside of the propositions of its label and outside of the others', [i, p, x], Implies_(And_(rng(n, i), D(p), C(i, x)), P(i, p) == HOLDS(p, x))),
         ('the regions cover the domain', [x], Implies_(DOM(x), Or_(*[And_(rng(n, w), C(w, x)) for w in W(x)]) if W else Exists_([i], And_(rng(n, i), C(i, x)))))]
    return r


def nonempty(n, C, N):
    i, x = z3.Int('i'), z3.Const('x', V)
    return [('a region is not empty', [i], Implies_(rng(n, i), C(i, N(i)) if N is not None else Exists_([x], C(i, x))))]


def assume_all(I, fs):
    for _, vs, f in fs:
        I.assume(ForAll_(vs, f) if vs else f)


def prove_all(I, fs, name, what, assumed=()):
    """`assumed` facts are also given to the solver for the constants of the goal."""
    for lb, vs, f in fs:
        ks = [I.const(str(v), v.sort()) for v in vs]
        g = z3.substitute(f, *zip(vs, ks)) if vs else f
        I.prove(Implies_(And_(*instances(assumed, ks)), g) if assumed else g, f'{name}: {lb} {what}')


def instances(fs, ks):
    out = []
    for _, vs, f in fs:
        for c in itertools.product(*[[k for k in ks if k.sort() == v.sort()] for v in vs]):
            out.append(z3.substitute(f, *zip(vs, c)) if vs else f)
    return out


def mk_prop2part(ctx):
    I = ctx.new(timeout_ms=20000)
    st = {}
    polytope(I, st)
    name = 'prop2part'

    def is_list(v):
        """The list of regions: a list of exactly one region."""
        return isinstance(v, PList) and len(v.parts) == 1 and not v.parts[0].vars and isinstance(v.parts[0].val, Reg) and v.parts[0].val.kind == REGION

    def fresh(n):
        C, P = I.func('in_region', Z, V, B), I.func('has_label', Z, V, B)
        return Regs(n, lambda i, x: C(i, x), lambda i, p: P(i, p))

    def outer(I, fr, node, it):
        if not isinstance(it, Props) and not (isinstance(it, Container) and any(isinstance(p.val, tuple) and isinstance(p.val[-1], Pre) for p in it.parts)):
            return False
        ns = names_of(fr, node, lambda v: is_list(v) or isinstance(v, Regs))
        if len(ns) != 1:
            raise Unsupported('the list of regions')
        R, = ns
        v = fr.f[R]
        if not isinstance(v, Regs):
            r = v.parts[0].val
            lab = r.get('props')
            I.prove(z3.BoolVal(isinstance(lab, PSet) and not lab.parts), f'{name}: the first region has an empty label')
            v = Regs(z3.IntVal(1), lambda i, x, r=r: r.pts(x), lambda i, p: FALSE)
        x = z3.Const('x', V)
        prove_all(I, partition(I, v.get('n'), *v.view(I), lambda p: FALSE, lambda x: [z3.IntVal(0)]) + nonempty(v.get('n'), v.view(I)[0], lambda i: z3.Const('inner_point', V)), name, 'holds on entry')
        n = I.const('n', Z)
        D, W, N = I.func('visited', V, B), I.func('region_of', V, Z), I.func('point_of', Z, V)
        last = I.choose([TRUE, TRUE]) == 1
        L = fresh(n)
        Ds = PROP if last else D
        assume_all(I, partition(I, n, L.get('C'), L.get('P'), Ds, lambda x: [W(x)]) + nonempty(n, L.get('C'), N))
        I.set_field(fr, R, L)
        if last:
            st['final'] = (n, L.get('C'), L.get('P'))
            I.exec_block(node.orelse, fr)
            return True
        p, = I.iter_parts(it)
        p = I.inst(p)
        I.assume(p.cond)
        k = p.vars[0]
        if isinstance(p.val, tuple):
            p = Part(p.vars, p.cond, (p.val[0], Reg(I, lambda x: HOLDS(k, x), None, CONVEX)))
        I.assume(ForAll_([x], Implies_(D(x), PROP(x))))
        I.assume(Not_(D(k)))
        st.update(p=k, R=R, base=(n, L.get('C'), L.get('P'), N), W=W, stage=0)
        I.iteration(fr, node, p, [L.o], {R: L})
        M = fr.f[R]
        if not isinstance(M, Regs) or st['stage'] != 2:
            raise Unsupported('the refinement by a proposition')
        C, P = M.view(I)
        tl, inv = st['tl'], st['inv']
        w2 = lambda x: [inv(W(x)), st['move'](tl(W(x)))]
        prove_all(I, partition(I, M.get('n'), C, P, lambda q: Or_(D(q), q == k), w2) + nonempty(M.get('n'), C, None), name, 'is preserved')
        raise Infeasible()

    def split(I, fr, node, it):
        """Each region is split by the proposition; parts outside of it are appended."""
        if not isinstance(it, lib.Range) or st.get('stage') != 0 or not isinstance(fr.f.get(st['R']), Regs):
            return False
        ns = names_of(fr, node, lambda v: isinstance(v, PList) and not v.parts)
        if len(ns) != 1:
            raise Unsupported('the marks of the regions')
        H, R, p = ns[0], st['R'], st['p']
        n0, C0, P0, N = st['base']
        I.prove(And_(it.lo == 0, it.hi == n0), f'{name}: every region is visited')
        I.prove(z3.BoolVal(not fr.f[R].get('ov') and fr.f[R].get('C') is C0), f'{name}: regions are unchanged before they are split')
        h, src, tl = I.func('mark', Z, Z), I.func('part_of', Z, Z), I.func('outside', Z, Z)

        def J(c, n, C, P, h, src, tl):
            i, t, u, x, q = z3.Int('i'), z3.Int('t'), z3.Int('u'), z3.Const('x', V), z3.Const('q', V)
            old, tail = And_(0 <= i, i < c), lambda t: And_(n0 <= t, t < n)
            return [('the number of regions', [], n >= n0),
                    ('marks are 0 or 1', [i], Implies_(old, Or_(h(i) == 0, h(i) == 1))),
                    ('a region with mark 1 is cut', [i, x], Implies_(And_(old, h(i) == 1), C(i, x) == And_(C0(i, x), HOLDS(p, x)))),
                    ('a region that is cut is not empty', [i], Implies_(And_(old, h(i) == 1), Exists_([x], C(i, x)))),
                    ('the label of a region that is cut', [i, q], Implies_(And_(old, h(i) == 1), P(i, q) == Or_(P0(i, q), q == p))),
                    ('a region with mark 0 is outside', [i, x], Implies_(And_(old, h(i) == 0), Not_(And_(C0(i, x), HOLDS(p, x))))),
                    ('regions not visited yet are unchanged', [i, x], Implies_(And_(c <= i, i < n0), C(i, x) == C0(i, x))),
                    ('labels not visited yet are unchanged', [i, q], Implies_(And_(c <= i, i < n0), P(i, q) == P0(i, q))),
                    ('appended regions are parts of visited ones', [t], Implies_(tail(t), And_(0 <= src(t), src(t) < c))),
                    ('appended regions are outside of the proposition', [t, x], Implies_(tail(t), C(t, x) == And_(C0(src(t), x), Not_(HOLDS(p, x))))),
                    ('appended regions are not empty', [t], Implies_(tail(t), Exists_([x], C(t, x)))),
                    ('appended regions keep their label', [t, q], Implies_(tail(t), P(t, q) == P0(src(t), q))),
                    ('one appended region for a region', [t, u], Implies_(And_(tail(t), tail(u), src(t) == src(u)), t == u)),
                    ('what is outside of the proposition is appended', [i, x], Implies_(And_(old, C0(i, x), Not_(HOLDS(p, x))), And_(tail(tl(i)), src(tl(i)) == i)))]
        prove_all(I, J(z3.IntVal(0), n0, C0, P0, h, src, tl), f'{name}: split', 'holds on entry')
        last = I.choose([TRUE, TRUE]) == 1
        n1 = I.const('n', Z)
        L = fresh(n1)
        pt, = it.iter_(I)
        pt = I.inst(pt)
        c = n0 if last else pt.vars[0]
        marks = Ints(c, lambda j: h(j))
        if not last:
            I.assume(pt.cond)
        assume_all(I, J(c, n1, L.get('C'), L.get('P'), h, src, tl))
        I.set_field(fr, R, L)
        I.set_field(fr, H, marks)
        if last:
            st.update(stage=1, tl=tl, src=src, h=h, H=H, marks=marks, mid=(n1, L.get('C'), L.get('P')))
            I.exec_block(node.orelse, fr)
            return True
        I.iteration(fr, node, pt, [L.o, marks.o], {R: L, H: marks})
        M, m = fr.f[R], fr.f[H]
        if M is not L or m is not marks:
            raise Unsupported('the lists of the loop')
        I.prove(m.get('n') == c + 1, f'{name}: one mark for each region')
        C, P = M.view(I)
        src2 = lambda t: z3.If(t == n1, c, src(t))
        tl2 = lambda i: z3.If(i == c, n1, tl(i))
        prove_all(I, J(c + 1, M.get('n'), C, P, m.get('f'), src2, tl2), f'{name}: split', 'is preserved')
        raise Infeasible()

    def clean(I, fr, node, it):
        """Regions with mark 0 are removed."""
        if not isinstance(it, lib.Range) or st.get('stage') != 1 or not isinstance(fr.f.get(st['R']), Regs):
            return False
        R, h, marks = st['R'], st['h'], st['marks']
        n0 = st['base'][0]
        nb, C0, P0 = st['mid']
        L0 = fr.f[R]
        ns = names_of(fr, node, lambda v: isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SN))
        ns = [k for k in ns if any(isinstance(s, (ast.AugAssign, ast.Assign)) and any(isinstance(t, ast.Name) and t.id == k and isinstance(t.ctx, ast.Store) for t in ast.walk(s)) for b in node.body for s in ast.walk(b))]
        if len(ns) != 1:
            raise Unsupported('the number of removed regions')
        K, = ns
        I.prove(And_(it.lo == 0, it.hi == n0), f'{name}: every mark is visited')
        I.prove(z3.BoolVal(not L0.get('ov') and L0.get('C') is C0), f'{name}: regions are unchanged before they are removed')
        mm, inv, cnt = I.func('old_index', Z, Z), I.func('new_index', Z, Z), I.const('removed', Z)

        def G(c, n, cnt, mm, inv):
            i, j = z3.Int('i'), z3.Int('j')
            kept = lambda i: And_(0 <= i, i < c - cnt)
            return [('the number of regions', [], And_(0 <= cnt, cnt <= c, n == nb - cnt)),
                    ('kept regions have mark 1', [i], Implies_(kept(i), And_(0 <= mm(i), mm(i) < c, h(mm(i)) != 0))),
                    ('kept regions are distinct', [i, j], Implies_(And_(kept(i), kept(j), mm(i) == mm(j)), i == j)),
                    ('regions with mark 1 are kept', [i], Implies_(And_(0 <= i, i < c, h(i) != 0), And_(kept(inv(i)), mm(inv(i)) == i))),
                    ('other regions follow', [i], Implies_(And_(c - cnt <= i, i < n), mm(i) == i + cnt))]
        v = fr.f[K]
        prove_all(I, G(z3.IntVal(0), L0.get('n'), num(I, v), lambda j: L0.get('ix')(j), lambda j: j), f'{name}: removal', 'holds on entry')
        last = I.choose([TRUE, TRUE]) == 1
        pt, = it.iter_(I)
        pt = I.inst(pt)
        c = n0 if last else pt.vars[0]
        n = I.const('n', Z)
        L = Regs(n, C0, P0, lambda j: mm(j))
        if not last:
            I.assume(pt.cond)
        assume_all(I, G(c, n, cnt, mm, inv))
        I.set_field(fr, R, L)
        I.set_field(fr, K, SN(cnt))
        if last:
            st.update(stage=2, inv=lambda i: inv(i), move=lambda t: t - cnt)
            I.exec_block(node.orelse, fr)
            return True
        I.iteration(fr, node, pt, [L.o], {R: L, K: SN(cnt)})
        M = fr.f[R]
        if M is not L or L.get('ov') or L.get('C') is not C0:
            raise Unsupported('the list of the loop')
        cn = num(I, fr.f[K])
        prove_all(I, G(c + 1, M.get('n'), cn, M.get('ix'), lambda i: z3.If(i == c, c - cnt, inv(i))), f'{name}: removal', 'is preserved')
        raise Infeasible()
    I.for_rules += [outer, split, clean]

    def new(I, domain=None, regions=None, adj=None, prop_regions=None, check=True):
        st['made'] = (domain, regions, adj, prop_regions, check)
        o = Part_()
        st['part'] = o
        return o
    I.overrides[f'{MOD}:PropPreservingPartition'] = Builtin('PropPreservingPartition', new)

    def setup(I):
        for k in ('final', 'made', 'part', 'adjacency'):
            st.pop(k, None)
        st['stage'] = None
        st['space'], st['props'] = Reg(I, lambda x: DOM(x), None, CONVEX), propositions(I)
        I.assume(DOM(z3.Const('inner_point', V)))
        return lambda: I.call(ctx.resolve(f'{MOD}:{name}'), [st['space'], st['props']], {})

    def post(I, out):
        if not ctx.no_raise(I, out, name):
            return
        made, part = st.get('made'), st.get('part')
        I.prove(z3.BoolVal(made is not None and out is part), f'{name}: returns the partition')
        if made is None or out is not part:
            return
        domain, regions, adj, props, check = made
        ok = isinstance(domain, Reg) and isinstance(regions, Regs) and props is st['props']
        I.prove(z3.BoolVal(ok), f'{name}: domain, regions and propositions of the partition')
        if ok:
            x = I.const('x', V)
            I.prove(domain.pts(x) == DOM(x), f'{name}: the domain')
            n, C, P = regions.get('n'), *regions.view(I)
            i = z3.Int('i')
            for lb, vs, f in partition(I, n, C, P, PROP, lambda x: [F('cover', V, Z)(x)])[1:5] + nonempty(n, C, None):
                prove_all(I, [(lb, vs, f)], name, '')
            I.prove(Implies_(DOM(x), Exists_([i], And_(rng(n, i), C(i, x)))), f'{name}: the regions cover the domain')
        a = part.o.f.get('adj')
        I.prove(z3.BoolVal(isinstance(a, Adj) and a.of is part and st.get('adjacency') is part), f'{name}: the adjacency of the partition')
    ctx.verify(name, setup, post, f'{MOD}:{name}')


class Part_(St):
    """A new partition."""

    def getattr_(self, I, name):
        if name not in self.o.f:
            raise Unsupported(f'partition.{name}')
        return self.o.f[name]

    def setattr_(self, I, name, v):
        self.put(I, name, v)


# ------------------------------------------------------------------ given partitions
OLD, LAB, SUB = F('old_region', Z, V, B), F('old_label', Z, V, B), F('subsystem_domain', Z, V, B)
ADJ, NEWADJ = F('adjacent', Z, Z, B), F('new_adjacent', Z, Z, B)


class Seq(Val):
    """List of symbolic length."""

    def __init__(self, n, at, role=None):
        self.n, self.at, self.role = n, at, role

    def subst(self, pairs):
        return self

    def iter_(self, I):
        k = I.const('k', Z)
        return [Part((k,), And_(0 <= k, k < self.n), self.at(I, k), self.n)]

    def len_(self, I):
        return SN(self.n)

    def getitem_(self, I, k):
        if isinstance(k, slice):
            if k.step is not None or not (k.start is None or k.start == 0):
                raise Unsupported('part of a list')
            h = self.n if k.stop is None else num(I, k.stop)
            I.prove(And_(0 <= h, h <= self.n), 'the part of a list is in range')
            return Seq(h, self.at, self.role)
        i = num(I, k)
        I.prove(And_(0 <= i, i < self.n), 'the index is in range')
        return self.at(I, z3.simplify(i))

    def isinstance_(self, I, name):
        return name == 'list'


class OldAdj(Val):
    def subst(self, pairs):
        return self

    def getitem_(self, I, k):
        a, b = (num(I, x) for x in k)
        return SN(z3.If(ADJ(a, b), z3.IntVal(1), z3.IntVal(0)))


class Rec(St):
    """A list that grows by at most one element in each iteration."""

    def __init__(self):
        super().__init__(log=())

    def getattr_(self, I, name):
        if name == 'append':
            return Builtin('append', lambda I, v: self.put(I, 'log', self.get('log') + (v,)))
        if name == 'extend':
            return Builtin('extend', lambda I, v: self.ext(I, v))
        raise Unsupported(f'list.{name} in a loop')

    def ext(self, I, v):
        if not isinstance(v, PList) or not all(not p.vars and z3.is_true(p.cond) for p in v.parts):
            raise Unsupported('extension of a list')
        self.put(I, 'log', self.get('log') + tuple(p.val for p in v.parts))

    def binop_(self, I, op, a, b):
        if op == 'Add' and a is self:
            self.ext(I, b)
            return self
        raise Unsupported(op)


class NewAdj(St):
    """A matrix of zeros; entries written in the current iteration."""

    def __init__(self, n):
        super().__init__(n=n, log=())

    def setitem_(self, I, k, v):
        n = self.get('n')
        a, b = (num(I, x) for x in k)
        I.prove(And_(0 <= a, a < n, 0 <= b, b < n), 'the entry of the adjacency matrix is in range')
        self.put(I, 'log', self.get('log') + ((a, b, num(I, v)),))

    def getattr_(self, I, name):
        if name == 'copy':
            return Builtin('copy', lambda I: self)
        if name == 'shape':
            return SN(self.get('n')), SN(self.get('n'))
        raise Unsupported(f'adjacency.{name}')


def geometry(I, st):
    """Axioms of the given partition (n regions) and of adjacency of new regions."""
    n = I.const('n', Z)
    i, j, x, p = z3.Int('i'), z3.Int('j'), z3.Const('x', V), z3.Const('p', V)
    W = F('old_region_of', V, Z)
    I.assume(n >= 0)
    I.assume(ForAll_([i], ADJ(i, i)))
    st['n'] = n
    st['given'] = []
    assume_all(I, partition(I, n, lambda i, x: OLD(i, x), lambda i, p: LAB(i, p), PROP, lambda x: [W(x)]))

    def old(I, k):
        q = I.const('p', V)
        lab = PSet([Part((q,), LAB(k, q), Sym(q))])
        st['given'].append((lab, lab.parts))
        r = Reg(I, lambda x: OLD(k, x), lab)
        r.frozen, r.old, r.given = True, k, st['given']
        return r
    st['space'], st['props'] = Reg(I, lambda x: DOM(x), None, CONVEX), propositions(I)
    st['space'].frozen = True
    return A('partition', domain=st['space'], prop_regions=st['props'], regions=Seq(n, old, 'old'), adj=OldAdj())


def unchanged(I, st, name):
    I.prove(z3.BoolVal(all(lab.parts is ps for lab, ps in st['given'])), f'{name}: labels of the given partition are not changed')


def lists(I, fr, node):
    """Empty lists of the loop: [(set, name)]."""
    out = []
    used = {s.id for b in node.body for s in ast.walk(b) if isinstance(s, ast.Name)}
    for k in sorted(used):
        v = fr.f.get(k)
        if isinstance(v, PList) and not v.parts and any(
                isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Name) and s.func.value.id == k
                or isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == k for b in node.body for s in ast.walk(b)):
            out.append((lambda w, k=k: I.set_field(fr, k, w), k))
        if isinstance(v, Part_) and 'regions' in v.o.f and isinstance(v.o.f['regions'], PList) and not v.o.f['regions'].parts:
            out.append((lambda w, v=v: v.put(I, 'regions', w), f'{k}.regions'))
    return out


class Refine:
    """Rules for nested loops that append records, one for each pair (outer, inner) with `wanted`."""

    def __init__(self, I, st, name, new, wanted, values, facts):
        self.I, self.st, self.name = I, st, name
        self.new, self.wanted, self.values, self.facts = new, wanted, values, facts
        self.roles = {}
        I.for_rules += [self.outer, self.inner]

    def index(self, part):
        """Number of the iteration."""
        return part.vars[0]

    def outer(self, I, fr, node, it):
        st = self.st
        if st['level'] != 0:
            return False
        ls = lists(I, fr, node)
        if not ls or not any(isinstance(s, ast.For) for b in node.body for s in ast.walk(b)):
            return False
        ps = I.iter_parts(it)
        if len(ps) != 1 or ps[0].ordered is None:
            raise Unsupported('loop over regions')
        p = I.inst(ps[0])
        recs = {k: Rec() for _, k in ls}
        for f, k in ls:
            f(recs[k])
        last = I.choose([TRUE, TRUE]) == 1
        st['outer_n'] = p.ordered
        if last:
            N = I.const('records', Z)
            for f, k in ls:
                if k not in self.roles:
                    raise Unsupported(f'list {k} of the loop')
                f(self.seq(N, self.roles[k]))
            st['N'] = N
            st['level'] = 3
            self.facts(N)
            I.exec_block(node.orelse, fr)
            return True
        I.assume(p.cond)
        st.update(level=1, a=p.vars[0], recs=recs, visited=False)
        names = {k: r for k, r in recs.items() if k in fr.f}
        I.iteration(fr, node, p, [r.o for r in recs.values()], names)
        if not all(fr.f[k] is r for k, r in names.items()):
            raise Unsupported('lists that are replaced in a loop')
        I.prove(z3.BoolVal(st['visited'] and all(not r.get('log') for r in recs.values())), f'{self.name}: each pair is recorded once')
        raise Infeasible()

    def seq(self, N, role):
        return Seq(N, lambda I, k: self.new(k) if role == 'region' else SN(self.values[role](k)), role)

    def inner(self, I, fr, node, it):
        st = self.st
        if st['level'] != 1:
            return False
        ps = I.iter_parts(it)
        if not any(isinstance(s, ast.Name) and isinstance(fr.f.get(s.id), (Rec, Part_)) for b in node.body for s in ast.walk(b)):
            return False
        if len(ps) != 1 or ps[0].ordered is None:
            raise Unsupported('loop over regions')
        p = I.inst(ps[0])
        st['visited'] = True
        if I.choose([TRUE, TRUE]) == 1:
            st['level'] = 2
            I.exec_block(node.orelse, fr)
            return True
        I.assume(p.cond)
        a, b, recs = st['a'], p.vars[0], st['recs']
        st['level'] = 2
        st['inner_n'] = p.ordered
        names = {k: r for k, r in recs.items() if k in fr.f}
        I.iteration(fr, node, p, [r.o for r in recs.values()], names)
        if not all(fr.f[k] is r for k, r in names.items()):
            raise Unsupported('lists that are replaced in a loop')
        logs = {k: r.get('log') for k, r in recs.items()}
        size = {len(g) for g in logs.values()}
        name = self.name
        I.prove(z3.BoolVal(len(size) == 1 and size <= {0, 1}), f'{name}: the lists have the same length')
        want = self.wanted(a, b)
        if size == {1}:
            I.prove(want, f'{name}: only nonempty regions are recorded')
            for k, (v,) in logs.items():
                self.record(I, k, v, a, b)
        elif size == {0}:
            I.prove(Not_(want), f'{name}: no region is omitted')
        unchanged(I, st, name)
        raise Infeasible()

    def record(self, I, k, v, a, b):
        name = self.name
        if isinstance(v, Reg):
            self.roles[k] = 'region'
            pts, par = self.st['spec'](a, b)
            x, q = I.const('x', V), I.const('p', V)
            I.prove(v.pts(x) == pts(x), f'{name}: points of the new region')
            lab = v.get('props')
            I.prove(z3.BoolVal(isinstance(lab, PSet) and not any(lab is g for g, _ in self.st['given'])), f'{name}: the new region has its own label')
            if isinstance(lab, PSet):
                I.prove(label(I, v, q) == LAB(par, q), f'{name}: the label of the new region')
            I.prove(z3.BoolVal(v.kind == REGION) if v.kind != 'result' else v.n != 0, f'{name}: the new region is not a polytope')
            return
        t = num(I, v)
        for role, f in self.st['index'](a, b).items():
            if not I.feasible(t != f):
                self.roles[k] = role
                return
        I.prove(FALSE, f'{name}: the recorded number is the number of the region or subsystem')


class Adjacency:
    """Rules for the nested loops that fill the adjacency matrix."""

    def __init__(self, I, st, name):
        self.I, self.st, self.name = I, st, name
        I.for_rules += [self.outer, self.inner]
        I.ext.setdefault('scipy', {})

    def zeros(self, I, shape, dtype=None):
        a, b = shape
        a, b = num(I, a), num(I, b)
        I.prove(a == b, 'square matrix')
        m = NewAdj(a)
        self.st['adj'] = m
        return m

    def writes(self, I, node, m, what):
        for r, c, v in m.get('log'):
            I.prove(And_(v == 1, Or_(r == c, NEWADJ(r, c))), f'{self.name}: only adjacent regions are marked {what}')

    def outer(self, I, fr, node, it):
        st = self.st
        if st['level'] != 3:
            return False
        ms = [fr.f[k] for k in names_of(fr, node, lambda v: isinstance(v, NewAdj))]
        if len(ms) != 1:
            return False
        m, = ms
        p, = I.iter_parts(it)
        p = I.inst(p)
        N = st['N']
        I.prove(And_(p.ordered == N, m.get('n') == N) if p.ordered is not None else FALSE, f'{self.name}: every region is visited')
        if I.choose([TRUE, TRUE]) == 1:
            st['level'] = 6
            st['filled'] = m
            I.exec_block(node.orelse, fr)
            return True
        I.assume(p.cond)
        st.update(level=4, a=p.vars[0], m=m)
        I.iteration(fr, node, p, [m.o], {})
        a = p.vars[0]
        self.writes(I, node, m, '(diagonal)')
        I.prove(Or_(*[And_(r == a, c == a) for r, c, v in m.get('log')]), f'{self.name}: a region is adjacent to itself')
        I.prove(z3.BoolVal(st['level'] == 5), f'{self.name}: pairs of regions are visited')
        raise Infeasible()

    def inner(self, I, fr, node, it):
        st = self.st
        if st['level'] != 4:
            return False
        m, a, N = st['m'], st['a'], st['N']
        p, = I.iter_parts(it)
        p = I.inst(p)
        t = p.vars[0]
        v = p.val[0] if isinstance(p.val, tuple) else p.val
        b = num(I, v)
        u, w = I.const('u', Z), I.const('w', Z)
        S = lambda f, pairs: z3.substitute(f, *pairs)

        def visits(u, w):
            # the iteration that visits w
            n = w - S(S(b, [(t, z3.IntVal(0))]), [(a, u)])
            return And_(S(S(p.cond, [(a, u)]), [(t, n)]), S(S(b, [(a, u)]), [(t, n)]) == w)
        I.prove(Implies_(And_(rng(N, u, w), u != w), Or_(visits(u, w), visits(w, u))), f'{self.name}: every pair of regions is visited')
        if I.choose([TRUE, TRUE]) == 1:
            st['level'] = 5
            I.exec_block(node.orelse, fr)
            return True
        I.assume(p.cond)
        k0 = len(m.get('log'))
        I.iteration(fr, node, p, [m.o], {})
        log = m.get('log')[k0:]
        self.writes(I, node, m, '(pairs)')
        for r, c in ((a, b), (b, a)):
            I.prove(Implies_(NEWADJ(a, b), Or_(*[And_(x == r, y == c) for x, y, _ in log])), f'{self.name}: adjacent regions are marked')
        raise Infeasible()


def mk_pwa(ctx):
    I = ctx.new(timeout_ms=15000)
    st = {}
    polytope(I, st)
    name = 'pwa_partition'
    par, sub, num_ = F('parent', Z, Z), F('subsystem', Z, Z), F('record', Z, Z, Z)
    Q = F('new_region', Z, V, B)
    i, j, k, x, p = z3.Int('i'), z3.Int('j'), z3.Int('k'), z3.Const('x', V), z3.Const('p', V)
    full2 = F('nonempty_part', Z, Z, B)

    def new(t):
        q = I.const('p', V)
        r = Reg(I, lambda x: Q(t, x), PSet([Part((q,), LAB(par(t), q), Sym(q))]))
        r.tag = t
        return r

    def facts(N):
        n, m = st['n'], st['m']
        ok = rng(N, k)
        I.assume(N >= 0)
        for f in [ForAll_([k], Implies_(ok, And_(rng(n, par(k)), rng(m, sub(k)), full2(sub(k), par(k)), num_(sub(k), par(k)) == k))),
                  ForAll_([k, x], Implies_(ok, Q(k, x) == And_(OLD(par(k), x), SUB(sub(k), x)))),
                  ForAll_([i, j], Implies_(And_(rng(m, i), rng(n, j), full2(i, j)), And_(rng(N, num_(i, j)), par(num_(i, j)) == j, sub(num_(i, j)) == i))),
                  ForAll_([i, j], Implies_(NEWADJ(i, j), Or_(par(i) == par(j), ADJ(par(i), par(j))))),
                  ForAll_([i, j], NEWADJ(i, j) == NEWADJ(j, i))]:
            I.assume(f)
    Refine(I, st, name, new, lambda a, b: full2(a, b), {'parent': lambda t: par(t), 'subsystem': lambda t: sub(t)}, facts)
    adj = Adjacency(I, st, name)

    def is_adjacent(I, a, b, *r, **kw):
        if reg(a).tag is None or reg(b).tag is None:
            raise Unsupported('adjacency of regions')
        return SB(NEWADJ(a.tag, b.tag))
    I.ext['polytope'].update(is_adjacent=Builtin('is_adjacent', is_adjacent), cheby_ball=Builtin('cheby_ball', lambda I, r, *a: (SN(I.const('radius', z3.RealSort())), Sym(I.const('center', V)))))
    I.ext.setdefault('scipy.sparse', {})['lil_array'] = Builtin('lil_array', adj.zeros)
    I.ext.setdefault('warnings', {})['warn'] = Builtin('warn', lambda I, *a, **k: None)

    def made(I, domain=None, regions=None, adj=None, prop_regions=None, check=True):
        o = Part_()
        st['made'] = (o, domain, regions, adj, prop_regions)
        return o
    I.overrides[f'{MOD}:PropPreservingPartition'] = Builtin('PropPreservingPartition', made)

    def setup(I):
        st.update(level=0, made=None, filled=None, adj=None)
        ppp = geometry(I, st)
        st['ppp'] = ppp
        m = I.const('m', Z)
        st['m'] = m
        PW = F('subsystem_of', V, Z)
        I.assume(m >= 0)
        I.assume(ForAll_([x, i, j], Implies_(And_(rng(m, i, j), SUB(i, x), SUB(j, x)), i == j)))
        y = F('part_point', Z, Z, V)
        both = lambda i, j, x: And_(OLD(j, x), SUB(i, x))
        I.assume(ForAll_([i, j, x], Implies_(both(i, j, x), full2(i, j))))
        I.assume(ForAll_([i, j], Implies_(full2(i, j), both(i, j, y(i, j)))))
        PD = F('system_domain', V, B)
        I.assume(ForAll_([x], PD(x) == And_(rng(m, PW(x)), SUB(PW(x), x))))
        I.assume(ForAll_([x, i], Implies_(And_(rng(m, i), SUB(i, x)), PD(x))))

        def sys_(I, k):
            d = Reg(I, lambda x: SUB(k, x), None, CONVEX)
            d.frozen = True
            return A('subsystem', domain=d)
        d = Reg(I, lambda x: PD(x), None, REGION)
        d.frozen = True
        st['PD'] = PD
        pwa = A('pwa', domain=d, list_subsys=Seq(m, lambda I, k: Sub(k), 'subsystems'))
        st['spec'] = lambda a, b: (lambda x: both(a, b, x), b)
        st['index'] = lambda a, b: {'parent': b, 'subsystem': a}
        return lambda: I.call(ctx.resolve(f'{MOD}:{name}'), [pwa, ppp], {})

    class Sub(Val):
        def __init__(self, k):
            self.k = k

        def subst(self, pairs):
            return Sub(z3.substitute(self.k, *pairs))

        def getattr_(self, I, nm):
            if nm != 'domain':
                raise Unsupported(f'subsystem.{nm}')
            k = self.k
            d = Reg(I, lambda x: SUB(k, x), None, CONVEX)
            d.frozen = True
            return d

    def post(I, out):
        PD = st['PD']
        if isinstance(out, Raised):
            I.prove(Exists_([x], And_(DOM(x), Not_(PD(x)))), f'{name}: {out.name} only if the system is not defined on the domain')
            return
        ok = isinstance(out, tuple) and len(out) == 3 and st['made'] and out[0] is st['made'][0]
        I.prove(z3.BoolVal(bool(ok)), f'{name}: returns the partition and its maps')
        if not ok:
            return
        _, domain, regions, adj, props = st['made']
        ppp = st['ppp']
        I.prove(z3.BoolVal(domain is st['space'] and props is st['props']), f'{name}: domain and propositions')
        I.prove(z3.BoolVal(adj is not None and adj is st['filled']), f'{name}: the adjacency of the new regions')
        ok = all(isinstance(v, Seq) for v in (regions, out[1], out[2]))
        I.prove(z3.BoolVal(ok and (regions.role, out[1].role, out[2].role) == ('region', 'subsystem', 'parent')), f'{name}: regions, their subsystems, and their parents')
        if not ok:
            return
        N = regions.n
        W, PW = F('old_region_of', V, Z), F('subsystem_of', V, Z)
        refinement(I, name, N, lambda t, x: Q(t, x), lambda t: par(t), lambda x: num_(PW(x), W(x)))
        I.prove(Implies_(And_(rng(N, k), Q(k, x)), SUB(sub(k), x)), f'{name}: one subsystem is active in a region')
        unchanged(I, st, name)
    ctx.verify(name, setup, post, f'{MOD}:{name}')


def refinement(I, name, N, Q, par, w):
    """The new regions are a partition that preserves propositions, and refine their parents."""
    k, l, x, p = (I.const(v, s) for v, s in zip('klxp', (Z, Z, V, V)))
    I.prove(Implies_(And_(rng(N, k), Q(k, x)), And_(OLD(par(k), x), DOM(x))), f'{name}: a region is inside of its parent and of the domain')
    I.prove(Implies_(And_(rng(N, k, l), Q(k, x), Q(l, x)), k == l), f'{name}: regions do not overlap')
    I.prove(Implies_(DOM(x), And_(rng(N, w(x)), Q(w(x), x))), f'{name}: the regions cover the domain')
    I.prove(Implies_(And_(rng(N, k), Q(k, x), PROP(p)), LAB(par(k), p) == HOLDS(p, x)), f'{name}: propositions are preserved')


# ------------------------------------------------------------------ part2convex
def mk_part2convex(ctx):
    I = ctx.new(timeout_ms=15000)
    st = {}
    polytope(I, st)
    name = 'part2convex'
    par, pos, num_ = F('parent', Z, Z), F('piece', Z, Z), F('record', Z, Z, Z)
    Q, U, pieces, UW = F('new_region', Z, V, B), F('convex_piece', Z, Z, V, B), F('pieces', Z, Z), F('piece_of', Z, V, Z)
    i, j, k, l, x = z3.Int('i'), z3.Int('j'), z3.Int('k'), z3.Int('l'), z3.Const('x', V)

    def new(t):
        q = I.const('p', V)
        r = Reg(I, lambda x: Q(t, x), PSet([Part((q,), LAB(par(t), q), Sym(q))]))
        r.tag = t
        return r

    def facts(N):
        n, ok = st['n'], rng(N, k)
        I.assume(N >= 0)
        for f in [ForAll_([k], Implies_(ok, And_(rng(n, par(k)), rng(pieces(par(k)), pos(k)), num_(par(k), pos(k)) == k))),
                  ForAll_([k, x], Implies_(ok, Q(k, x) == U(par(k), pos(k), x))),
                  ForAll_([i, j], Implies_(And_(rng(n, i), rng(pieces(i), j)), And_(rng(N, num_(i, j)), par(num_(i, j)) == i, pos(num_(i, j)) == j)))]:
            I.assume(f)
    Refine(I, st, name, new, lambda a, b: TRUE, {'parent': lambda t: par(t)}, facts)

    def union(I, a, b, check_convex=False):
        a, b = reg(a), reg(b)
        ka, kb = getattr(a, 'old', None), getattr(b, 'old', None)
        if ka is None or kb is None or not check_convex is True:
            raise Unsupported('union of regions')
        if I.feasible(ka != kb):
            raise Unsupported('union of different regions')

        def at(I, t):
            r = Reg(I, lambda x: U(ka, t, x), None, CONVEX)
            r.frozen = True
            return r
        return Seq(pieces(ka), at, 'pieces')
    I.ext['polytope'].update(union=Builtin('union', union))

    def made(I, domain=None, regions=None, adj=None, prop_regions=None, check=True):
        o = Part_()
        for f, v in (('regions', regions if regions is not None else PList()), ('domain', domain), ('prop_regions', prop_regions), ('adj', adj)):
            o.put(I, f, v)
        st['made'] = o
        return o
    I.overrides[f'{MOD}:PropPreservingPartition'] = Builtin('PropPreservingPartition', made)

    def setup(I):
        st.update(level=0, made=None, adjacency=None)
        ppp = st['ppp'] = geometry(I, st)
        n = st['n']
        # union(r, r, check_convex=True): convex pieces of r, which do not overlap
        I.assume(ForAll_([i, x], Implies_(And_(rng(n, i), OLD(i, x)), And_(rng(pieces(i), UW(i, x)), U(i, UW(i, x), x)))))
        I.assume(ForAll_([i, j, x], Implies_(And_(rng(n, i), rng(pieces(i), j), U(i, j, x)), And_(OLD(i, x), UW(i, x) == j))))
        st['spec'] = lambda a, b: (lambda x: U(a, b, x), a)
        st['index'] = lambda a, b: {'parent': a}
        return lambda: I.call(ctx.resolve(f'{MOD}:{name}'), [ppp], {})

    def post(I, out):
        if not ctx.no_raise(I, out, name):
            return
        o = st['made']
        ok = isinstance(out, tuple) and len(out) == 2 and o is not None and out[0] is o
        I.prove(z3.BoolVal(bool(ok)), f'{name}: returns the partition and its map')
        if not ok:
            return
        f = o.o.f
        d = f['domain']
        I.prove(d.pts(x) == DOM(x) if isinstance(d, Reg) else FALSE, f'{name}: the domain')
        I.prove(z3.BoolVal(f['prop_regions'] is st['props']), f'{name}: the propositions')
        R, m = f['regions'], out[1]
        ok = isinstance(R, Seq) and isinstance(m, Seq) and (R.role, m.role) == ('region', 'parent')
        I.prove(z3.BoolVal(ok), f'{name}: regions and their parents')
        I.prove(z3.BoolVal(isinstance(f['adj'], Adj) and f['adj'].of is o and f['adj'].regions is R), f'{name}: the adjacency of the new regions')
        if ok:
            W = F('old_region_of', V, Z)
            refinement(I, name, R.n, lambda t, x: Q(t, x), lambda t: par(t), lambda x: num_(W(x), UW(W(x), x)))
        unchanged(I, st, name)
    ctx.verify(name, setup, post, f'{MOD}:{name}')


# ------------------------------------------------------------------ the class
def mk_class(ctx):
    I = ctx.new(timeout_ms=15000)
    I.prefix_facts = True
    st = {}
    polytope(I, st)
    CLS = f'{MOD}:PropPreservingPartition'
    k, x, p = z3.Int('k'), z3.Const('x', V), z3.Const('p', V)
    C, P = F('region', Z, V, B), F('label', Z, V, B)

    def self_(I):
        n = st['n'] = I.const('n', Z)
        I.assume(n >= 0)

        def at(I, t):
            q = I.const('p', V)
            r = Reg(I, lambda x: C(t, x), PSet([Part((q,), P(t, q), Sym(q))]))
            r.frozen = True
            return r
        st['regions'] = Seq(n, at, 'regions')
        st['props'] = propositions(I)
        return A('self', regions=st['regions'], prop_regions=st['props'])

    def call(meth, a):
        return I.call((lambda v: getattr(v, 'fn', v))(ctx.resolve(f'{CLS}.{meth}')), a, {})

    def setup(I):
        s = self_(I)
        # is_symbolic
        I.assume(ForAll_([k, p], Implies_(And_(rng(st['n'], k), P(k, p)), PROP(p))))
        return lambda: call('preserves_predicates', [s])

    def post(I, out):
        nm = 'preserves_predicates'
        n = st['n']
        if not ctx.no_raise(I, out, nm):
            return
        r = I.truth_term(out)
        r = z3.BoolVal(r) if isinstance(r, bool) else r
        spec = ForAll_([k, p, x], Implies_(And_(rng(n, k), PROP(p), C(k, x)), P(k, p) == HOLDS(p, x)))
        I.prove(Implies_(r, spec), f'{nm}: True only if propositions are preserved')
        I.prove(Implies_(spec, r), f'{nm}: True if propositions are preserved')
    ctx.verify('preserves_predicates', setup, post, f'{CLS}.preserves_predicates')

    def setup2(I):
        return lambda: call('is_symbolic', [self_(I)])

    def post2(I, out):
        nm = 'is_symbolic'
        bad = Exists_([k, p], And_(rng(st['n'], k), P(k, p), Not_(PROP(p))))
        I.prove(bad if isinstance(out, Raised) else Not_(bad), f'{nm}: raises exactly for labels that are not propositions')
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.name == 'ValueError'), f'{nm}: ValueError')
    ctx.verify('is_symbolic', setup2, post2, f'{CLS}.is_symbolic')


# ------------------------------------------------------------------ constructor
def mk_init(ctx):
    I = ctx.new(timeout_ms=15000)
    I.prefix_facts = True
    st = {}
    polytope(I, st)
    name = '__init__'
    CLS = f'{MOD}:PropPreservingPartition'
    k, x, p = z3.Int('k'), z3.Const('x', V), z3.Const('p', V)
    C, P = F('region', Z, V, B), F('label', Z, V, B)
    INSIDE = F('region_is_inside', Z, B)

    def base(I, self, domain=None):
        I.setattr_(self, 'set', domain)
    I.ext['polytope']['MetricPartition'] = ExtClass('MetricPartition', {'__init__': Builtin('__init__', base)})
    I.ext['logging'] = dict(warning=Builtin('warning', lambda I, *a, **k: None), getLogger=Builtin('getLogger', lambda I, *a: None))

    class Shape(Val):
        def subst(self, pairs):
            return self

        def getattr_(self, I, nm):
            if nm != 'shape':
                raise PyExc(AttributeError, (nm,))
            return SN(st['rows']), SN(st['cols'])

    def setup(I):
        n = st['n'] = I.const('n', Z)
        I.assume(n >= 0)
        st['rows'], st['cols'] = I.const('rows', Z), I.const('cols', Z)

        def at(I, t):
            q = I.const('p', V)
            r = Reg(I, lambda x: C(t, x), PSet([Part((q,), P(t, q), Sym(q))]))
            r.frozen = True
            return r
        st['regions'] = Seq(n, at, 'regions')
        st['props'] = propositions(I) if I.choose([TRUE, TRUE]) == 0 else None
        st['adj'] = Shape() if I.choose([TRUE, TRUE]) == 0 else None
        st['check'] = I.choose([TRUE, TRUE]) == 0
        st['domain'] = Reg(I, lambda x: DOM(x), None, CONVEX)
        st['domain'].frozen = True
        kw = dict(domain=st['domain'], regions=st['regions'], adj=st['adj'], prop_regions=st['props'])
        if not st['check']:
            kw['check'] = False
        return lambda: I.call(ctx.resolve(CLS), [], kw)

    def post(I, out):
        n = st['n']
        shape = FALSE if st['adj'] is None else Or_(st['rows'] != st['cols'], st['rows'] != n)
        outside = Exists_([k, x], And_(rng(n, k), C(k, x), Not_(DOM(x)))) if st['check'] else FALSE
        lab = Exists_([k, p], And_(rng(n, k), P(k, p), Not_(PROP(p)))) if st['check'] and st['props'] is not None else FALSE
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.name == 'ValueError'), f'{name}: ValueError')
            I.prove(Or_(shape, outside, lab), f'{name}: raises only for a wrong shape, a region outside of the domain, or an unknown label')
            return
        I.prove(Not_(shape), f'{name}: the adjacency matrix has a row and a column for each region')
        I.prove(Not_(outside), f'{name}: regions are inside of the domain')
        I.prove(Not_(lab), f'{name}: labels are propositions')
        f = out.f if isinstance(out, Obj) else {}
        R = f.get('regions')
        I.prove(z3.BoolVal(isinstance(R, Seq) and R.at is st['regions'].at) if isinstance(R, Seq) else FALSE, f'{name}: keeps the regions')
        if isinstance(R, Seq):
            I.prove(R.n == n, f'{name}: keeps all of the regions')
            I.prove(z3.BoolVal(R is not st['regions']), f'{name}: keeps its own list of regions')
        I.prove(z3.BoolVal(f.get('domain') is st['domain'] and f.get('adj') is st['adj'] and f.get('prop_regions') is st['props']), f'{name}: keeps domain, adjacency, and propositions')
    ctx.verify(name, setup, post, f'{CLS}.__init__')


# ------------------------------------------------------------------ ppp2ts
def mk_ppp2ts(ctx):
    I = ctx.new(timeout_ms=15000)
    st = {}
    polytope(I, st)
    name = 'ppp2ts'
    STATE = F('state', Z, V)
    k, l, p = z3.Int('k'), z3.Int('l'), z3.Const('p', V)

    def state(I, t):
        return Sym(STATE(t), 'str')

    def prepend(I, states, prefix):
        """prepend_with of transys: str of prefix and number, in order."""
        I.prove(z3.BoolVal(isinstance(states, lib.Range) and prefix == 's'), f'{name}: names of states')
        I.prove(And_(states.lo == 0), f'{name}: states are numbered from 0')
        return Seq(states.hi, state, 'states')
    I.contracts['tulip.transys.transys:prepend_with'] = lambda I, f, a, kw: prepend(I, *I.bind(f, a, kw))

    def log(what):
        def f(I, *a, **kw):
            st['log'].append((what, a, kw))
        return Builtin(what, f)

    def fts(I, *a, **kw):
        I.prove(z3.BoolVal(not a and not kw), f'{name}: a new transition system')
        st['ts'] = A('ts', states=A('states', add_from=log('states'), add=log('state')),
                     transitions=A('transitions', add_adj=log('adj'), add=log('transition')),
                     atomic_propositions=A('aps', add_from=log('aps'), add=log('ap')))
        return st['ts']
    trs = A('transys', FTS=Builtin('FTS', fts), FiniteTransitionSystem=Builtin('FTS', fts), prepend_with=Builtin('prepend_with', prepend))
    I.overrides[f'{MOD}:trs'] = trs

    def each(I, fr, node, it):
        """Labels of states: one call for each region."""
        if st['each'] or not any(isinstance(s, ast.Call) for b in node.body for s in ast.walk(b)):
            return False
        q, = I.iter_parts(it)
        q = I.inst(q)
        if q.ordered is None:
            return False
        I.prove(q.ordered == st['n'], f'{name}: every region is visited')
        st['each'] = True
        before = list(st['log'])
        st['before'] = before
        if I.choose([TRUE, TRUE]) == 1:
            I.exec_block(node.orelse, fr)
            return True
        I.assume(q.cond)
        I.iteration(fr, node, q, [], {})
        new = st['log'][len(before):]
        ok = len(new) == 1 and new[0][0] == 'state' and len(new[0][1]) == 1 and set(new[0][2]) == {'ap'}
        I.prove(z3.BoolVal(ok), f'{name}: each state is labeled once')
        if ok:
            (s,), lab = new[0][1], new[0][2]['ap']
            I.prove(I.enc_.enc(s) == STATE(q.vars[0]), f'{name}: the state of the region is labeled')
            if isinstance(lab, PSet):
                z = I.const('p', V)
                I.prove(z3b(I.member_parts(Sym(z), lab.parts)) == LAB(q.vars[0], z), f'{name}: the label of the region')
                I.prove(z3.BoolVal(not any(lab is g for g, _ in st['given'])), f'{name}: the state has its own label')
            else:
                I.prove(FALSE, f'{name}: the label of the region')
        unchanged(I, st, name)
        raise Infeasible()
    I.for_rules.append(each)

    def setup(I):
        st.update(log=[], ts=None, each=False)
        ppp = geometry(I, st)
        adj = A('adj', shape=(SN(st['n']), SN(st['n'])))
        st['adj'] = adj
        part = A('part', adj=adj, regions=ppp.f['regions'] if hasattr(ppp, 'f') else I.getattr_(ppp, 'regions'), prop_regions=I.getattr_(ppp, 'prop_regions'))
        return lambda: I.call(ctx.resolve(f'{MOD}:{name}'), [part], {})

    def post(I, out):
        if not ctx.no_raise(I, out, name):
            return
        ok = isinstance(out, tuple) and len(out) == 2 and out[0] is st['ts'] and isinstance(out[1], Seq)
        I.prove(z3.BoolVal(bool(ok)), f'{name}: returns the transition system and its states')
        if not ok:
            return
        S = out[1]
        n = st['n']
        I.prove(S.n == n if S.role == 'states' else FALSE, f'{name}: one state for each region')
        log = st['log']
        names = [g[0] for g in log]
        I.prove(z3.BoolVal(sorted(names) == ['adj', 'aps', 'states'] and names.index('states') < names.index('adj') and st['each']
                           and (st['before'].index([g for g in log if g[0] == 'aps'][0]) >= 0 if [g for g in log if g[0] == 'aps'][0] in st['before'] else False)),
                f'{name}: states, then transitions; propositions, then labels')
        for what, a, kw in log:
            if what == 'states':
                I.prove(z3.BoolVal(len(a) == 1 and a[0] is S and not kw), f'{name}: all of the states are added')
            if what == 'adj':
                I.prove(z3.BoolVal(len(a) == 2 and a[0] is st['adj'] and a[1] is S and not kw), f'{name}: transitions of the adjacency matrix, in the order of the regions')
            if what == 'aps':
                z = I.const('p', V)
                m = I.member_parts(Sym(z), I.iter_parts(a[0]))
                I.prove(z3b(m) == PROP(z), f'{name}: atomic propositions')
    ctx.verify(name, setup, post, f'{MOD}:{name}')


# ------------------------------------------------------------------ grids
R_ = z3.RealSort()


def real(I, v):
    n = lib.to_num(I, v)
    if n is None:
        raise Unsupported(f'{v!r} as a number')
    if isinstance(n, (int, float)):
        n = z3.RealVal(str(n))
    return z3.ToReal(n) if z3.is_int(n) else n


def pair(I, v):
    """[low, high]"""
    if not isinstance(v, PList) or len(v.parts) != 2 or any(p.vars or not z3.is_true(p.cond) for p in v.parts):
        raise Unsupported('interval that is not a list of two numbers')
    return tuple(real(I, p.val) for p in v.parts)


class Intervals(St):
    """List of intervals lo(k), hi(k)."""

    def __init__(self, n, lo, hi):
        super().__init__(n=n, lo=lo, hi=hi)

    def getattr_(self, I, name):
        if name != 'append':
            raise Unsupported(f'intervals.{name}')

        def append(I, v):
            a, b = pair(I, v)
            n, lo, hi = self.get('n'), self.get('lo'), self.get('hi')
            self.put(I, 'lo', lambda k: z3.If(k == n, a, lo(k)))
            self.put(I, 'hi', lambda k: z3.If(k == n, b, hi(k)))
            self.put(I, 'n', z3.simplify(n + 1))
        return Builtin('append', append)

    def len_(self, I):
        return SN(self.get('n'))


def mk_interval(ctx):
    """Intervals partition [low, high), none is longer than size + tolerance."""
    I = ctx.new(timeout_ms=15000)
    st = {}
    name = 'compute_interval'
    k, l, t = z3.Int('k'), z3.Int('l'), z3.Real('t')

    def inv(n, lo, hi, w, cur):
        low, high, size, tol = st['args']
        ok = rng(n, k)
        return [('the number of intervals', [], n >= 0),
                ('the next interval starts inside of the domain', [], And_(low <= cur, cur < high)),
                ('intervals are inside of the domain', [k], Implies_(ok, And_(low <= lo(k), lo(k) < hi(k), hi(k) <= cur))),
                ('intervals are as long as the grid size', [k], Implies_(ok, hi(k) - lo(k) <= size + tol)),
                ('intervals do not overlap', [k, l, t], Implies_(And_(rng(n, k, l), lo(k) <= t, t < hi(k), lo(l) <= t, t < hi(l)), k == l)),
                ('intervals cover the domain so far', [t], Implies_(And_(low <= t, t < cur), And_(rng(n, w(t)), lo(w(t)) <= t, t < hi(w(t)))))]

    def loop(I, fr, node):
        if st['loop']:
            return False
        used = {s.id for b in node.body for s in ast.walk(b) if isinstance(s, ast.Name)}
        stored = {s.id for b in node.body for s in ast.walk(b) if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store)}
        ls = [x for x in sorted(used) if isinstance(fr.f.get(x), PList) and not fr.f[x].parts]
        ns = [x for x in sorted(stored) if x in fr.f and lib.to_num(I, fr.f[x]) is not None]
        if len(ls) != 1 or len(ns) != 1:
            raise Unsupported('the list of intervals and the start of the next')
        st['loop'] = True
        L, c = ls[0], ns[0]
        z = lambda k: z3.RealVal(0)
        prove_all(I, inv(z3.IntVal(0), z, z, lambda t: z3.IntVal(0), real(I, fr.f[c])), name, 'holds on entry')
        n, cur = I.const('n', Z), I.const('start', R_)
        lo, hi, w = I.func('low', Z, R_), I.func('high', Z, R_), I.func('interval_of', R_, Z)
        v = Intervals(n, lambda k: lo(k), lambda k: hi(k))
        for x in stored:
            if x in fr.f or x in fr.locals_:
                I.set_field(fr, x, Poison(x))
        I.set_field(fr, L, v)
        I.set_field(fr, c, SN(cur))
        st['hyp'] = hyp = inv(n, lambda k: lo(k), lambda k: hi(k), lambda t: w(t), cur)
        assume_all(I, hyp)
        st['w'] = lambda t: z3.If(t < cur, w(t), n)
        try:
            if I.truth(I.eval(node.test, fr)):
                I.exec_block(node.body, fr)
            else:
                return True
        except ContinueEx:
            pass
        except BreakEx:
            return True
        M = fr.f[L]
        if M is not v:
            raise Unsupported('the list of intervals')
        prove_all(I, inv(v.get('n'), v.get('lo'), v.get('hi'), st['w'], real(I, fr.f[c])), name, 'is preserved', hyp)
        raise Infeasible()
    I.while_rules.append(loop)

    def setup(I):
        a = [I.const(x, R_) for x in ('low_domain', 'high_domain', 'size', 'abs_tol')]
        st['args'], st['loop'] = a, False
        I.assume(And_(a[0] < a[1], a[2] > 0, a[3] >= 0))
        return lambda: I.call(ctx.resolve(f'{MOD}:{name}'), [SN(x) for x in a], {})

    def post(I, out):
        if not ctx.no_raise(I, out, name):
            return
        I.prove(z3.BoolVal(isinstance(out, Intervals)), f'{name}: returns the intervals')
        if isinstance(out, Intervals):
            prove_all(I, inv2(out.get('n'), out.get('lo'), out.get('hi'), st['w']), name, 'on exit', st['hyp'])

    def inv2(n, lo, hi, w):
        low, high, size, tol = st['args']
        r = inv(n, lo, hi, w, high)
        return r[:1] + r[2:]
    ctx.verify(name, setup, post, f'{MOD}:{name}')


def mk_product(ctx):
    """Each pair of items is concatenated once, in this order."""
    I = ctx.new(timeout_ms=15000)
    st = {}
    name = 'product_interval'
    first, second, num_ = F('first_item', Z, Z), F('second_item', Z, Z), F('record', Z, Z, Z)
    i, j, k = z3.Int('i'), z3.Int('j'), z3.Int('k')

    class Item(Val):
        def __init__(self, of, k):
            self.of, self.k = of, k

        def subst(self, pairs):
            return Item(self.of, z3.substitute(self.k, *pairs))

        def binop_(self, I, op, a, b):
            if op != 'Add' or not (isinstance(a, Item) and isinstance(b, Item)):
                raise Unsupported('items of the product')
            return Cat(a, b)

    class Cat(Val):
        def __init__(self, a, b):
            self.a, self.b = a, b

        def subst(self, pairs):
            return Cat(self.a.subst(pairs), self.b.subst(pairs))

    def facts(N):
        n, m, ok = st['n'], st['m'], rng(N, k)
        I.assume(N >= 0)
        I.assume(ForAll_([k], Implies_(ok, And_(rng(n, first(k)), rng(m, second(k)), num_(first(k), second(k)) == k))))
        I.assume(ForAll_([i, j], Implies_(And_(rng(n, i), rng(m, j)), And_(rng(N, num_(i, j)), first(num_(i, j)) == i, second(num_(i, j)) == j))))

    class Products(Refine):
        def record(self, I, k, v, a, b):
            self.roles[k] = 'region'
            ok = isinstance(v, Cat) and v.a.of == 1 and v.b.of == 2
            I.prove(And_(v.a.k == a, v.b.k == b) if ok else FALSE, f'{name}: an item of the first list is followed by an item of the second')
            I.prove(And_(st['outer_n'] == st['n'], st['inner_n'] == st['m']), f'{name}: every pair is visited')
    Products(I, st, name, lambda t: Cat(Item(1, first(t)), Item(2, second(t))), lambda a, b: TRUE, {}, facts)

    def setup(I):
        st.update(level=0, given=[])
        n, m = st['n'], st['m'] = I.const('n', Z), I.const('m', Z)
        I.assume(And_(n >= 0, m >= 0))
        a = Seq(n, lambda I, k: Item(1, k))
        b = Seq(m, lambda I, k: Item(2, k))
        return lambda: I.call(ctx.resolve(f'{MOD}:{name}'), [a, b], {})

    def post(I, out):
        if not ctx.no_raise(I, out, name):
            return
        I.prove(z3.BoolVal(isinstance(out, Seq) and out.role == 'region'), f'{name}: returns the list of all pairs')

    ctx.verify(name, setup, post, f'{MOD}:{name}')

    # products of partitions are partitions
    def lemma(I):
        lo, hi = [I.func(f'lo{q}', Z, R_) for q in (1, 2)], [I.func(f'hi{q}', Z, R_) for q in (1, 2)]
        n, m, N = I.const('n', Z), I.const('m', Z), I.const('N', Z)
        st.update(n=n, m=m)
        u, v, l = z3.Real('u'), z3.Real('v'), z3.Int('l')
        w = [I.func(f'w{q}', R_, Z) for q in (1, 2)]
        a, b = [I.const(f'a{q}', R_) for q in (1, 2)], [I.const(f'b{q}', R_) for q in (1, 2)]
        for q, c in ((0, n), (1, m)):
            I.assume(ForAll_([u], Implies_(And_(a[q] <= u, u < b[q]), And_(rng(c, w[q](u)), lo[q](w[q](u)) <= u, u < hi[q](w[q](u))))))
            I.assume(ForAll_([i, j, u], Implies_(And_(rng(c, i, j), lo[q](i) <= u, u < hi[q](i), lo[q](j) <= u, u < hi[q](j)), i == j)))
        facts_(I, N)
        U, W, K, L = I.const('u', R_), I.const('v', R_), I.const('k', Z), I.const('l', Z)
        inb = lambda k: And_(lo[0](first(k)) <= U, U < hi[0](first(k)), lo[1](second(k)) <= W, W < hi[1](second(k)))
        g = num_(w[0](U), w[1](W))
        I.prove(Implies_(And_(a[0] <= U, U < b[0], a[1] <= W, W < b[1]), And_(rng(N, g), inb(g))), 'the product of two coverings is a covering')
        hyp = And_(rng(N, K, L), inb(K), inb(L))
        for x in (K, L):
            g = Implies_(rng(N, x), And_(rng(n, first(x)), rng(m, second(x)), num_(first(x), second(x)) == x))
            I.prove(g, 'items of the product')
            I.assume(g)
        for q, f, what, c, y in ((0, first, 'first', n, U), (1, second, 'second', m, W)):
            a, b = f(K), f(L)
            inst = Implies_(And_(rng(c, a, b), lo[q](a) <= y, y < hi[q](a), lo[q](b) <= y, y < hi[q](b)), a == b)
            I.prove(inst, f'intervals of the {what} list do not overlap')
            g = Implies_(And_(inst, hyp), f(K) == f(L))
            I.prove(g, f'items of the product that overlap have the same {what} item')
            I.assume(inst)
            I.assume(g)
        I.prove(Implies_(hyp, num_(first(K), second(K)) == num_(first(L), second(L))), 'items of the product that overlap have the same number')
        I.assume(Implies_(hyp, num_(first(K), second(K)) == num_(first(L), second(L))))
        I.prove(Implies_(hyp, K == L), 'items of the product do not overlap')

    def facts_(I, N):
        facts(N)
    ctx.verify('lemma product', lambda I: (lambda: lemma(I)), lambda I, out: ctx.no_raise(I, out, 'lemma product'), None)


def mk_grid(ctx):
    I = ctx.new(timeout_ms=20000)
    st = {}
    polytope(I, st)
    name = 'add_grid'
    par, cell, num_ = F('parent', Z, Z), F('cell', Z, Z), F('record', Z, Z, Z)
    Q, full2 = F('new_region', Z, V, B), F('nonempty_part', Z, Z, B)
    i, j, k, x = z3.Int('i'), z3.Int('j'), z3.Int('k'), z3.Const('x', V)
    X = [F(f'coordinate{q}', V, R_) for q in range(3)]
    LO, HI = [z3.Real(f'low{q}') for q in range(3)], [z3.Real(f'high{q}') for q in range(3)]
    CLO, CHI, CELL = [F(f'cell_low{q}', Z, R_) for q in range(3)], [F(f'cell_high{q}', Z, R_) for q in range(3)], F('cell_of', V, Z)

    class Cells(Val):
        """Boxes of the grid: axes in the order of their coordinates."""

        def __init__(self, axes):
            self.axes = axes

        def subst(self, pairs):
            return self

        def len_(self, I):
            return SN(st['cells'])

        def iter_(self, I):
            t = I.const('k', Z)
            return [Part((t,), rng(st['cells'], t), Box(t, len(self.axes)), st['cells'])]

        def getitem_(self, I, key):
            t = num(I, key)
            I.prove(rng(st['cells'], t), f'{name}: the index of a cell is in range')
            I.prove(z3.BoolVal(self.axes == tuple(range(st['d']))), f'{name}: coordinates of cells are in the order of the axes')
            return Box(t, len(self.axes))

    class Box(Val):
        def __init__(self, k, d):
            self.k, self.d = k, d

        def subst(self, pairs):
            return Box(z3.substitute(self.k, *pairs), self.d)

        def len_(self, I):
            return 2 * self.d

        def getitem_(self, I, q):
            if not isinstance(q, int):
                raise Unsupported('coordinate of a cell')
            if not 0 <= q < 2 * self.d:
                raise PyExc(IndexError, ('list index out of range',))
            return SN((CHI if q % 2 else CLO)[q // 2](self.k))

    class Corner(Val):
        def __init__(self, t):
            self.t = t

        def subst(self, pairs):
            return self

        def getitem_(self, I, q):
            if not isinstance(q, int) or not 0 <= q < st['d']:
                raise Unsupported('coordinate of a corner')
            return A('coordinate', item=Builtin('item', lambda I: SN(self.t[q])))

    def interval(I, low, high, size, tol=None):
        low, high, size = (real(I, v) for v in (low, high, size))
        q = len(st['axes'])
        I.prove(And_(low == LO[q], high == HI[q]) if q < st['d'] else FALSE, f'{name}: each axis is divided once, from its lowest to its highest value')
        I.prove(size > 0, f'{name}: the size of the grid is positive')
        if q < st['d']:
            kind, g = st['grid']
            want = g[q] if isinstance(g, list) else g
            I.prove(size == want if kind == 'size' else size * z3.ToReal(want) == HI[q] - LO[q], f'{name}: the size of the grid')
        st['axes'].append(q)
        return Cells((q,))

    def product(I, a, b):
        if not isinstance(a, Cells) or not isinstance(b, Cells):
            raise Unsupported('product of intervals')
        return Cells(a.axes + b.axes)
    I.overrides[f'{MOD}:compute_interval'] = Builtin('compute_interval', interval)
    I.overrides[f'{MOD}:product_interval'] = Builtin('product_interval', product)

    def box2poly(I, b):
        ps = [pair(I, p.val) for p in b.parts]
        I.prove(z3.BoolVal(len(ps) == st['d'] and all(not p.vars for p in b.parts)), f'{name}: a cell has an interval for each axis')
        return Reg(I, lambda x: And_(*[And_(lo <= c(x), c(x) < hi) for c, (lo, hi) in zip(X, ps)]), None, CONVEX)

    def cheby(I, r, *a):
        c = I.const('radius', R_)
        I.assume(And_(c >= 0, (c > 0) == full(I, r)))
        return SN(c), Sym(I.const('center', V))

    def new(t):
        q = I.const('p', V)
        r = Reg(I, lambda x: Q(t, x), PSet([Part((q,), LAB(par(t), q), Sym(q))]))
        r.tag = t
        return r
    inbox = lambda a, x: And_(*[And_(CLO[q](a) <= X[q](x), X[q](x) < CHI[q](a)) for q in range(st['d'])])
    both = lambda a, b, x: And_(OLD(b, x), inbox(a, x))

    def facts(N):
        n, m, ok = st['n'], st['cells'], rng(N, k)
        I.assume(N >= 0)
        for f in [ForAll_([k], Implies_(ok, And_(rng(n, par(k)), rng(m, cell(k)), full2(cell(k), par(k)), num_(cell(k), par(k)) == k))),
                  ForAll_([k, x], Implies_(ok, Q(k, x) == both(cell(k), par(k), x))),
                  ForAll_([i, j], Implies_(And_(rng(m, i), rng(n, j), full2(i, j)), And_(rng(N, num_(i, j)), par(num_(i, j)) == j, cell(num_(i, j)) == i))),
                  ForAll_([i, j], Implies_(NEWADJ(i, j), Or_(par(i) == par(j), ADJ(par(i), par(j))))),
                  ForAll_([i, j], NEWADJ(i, j) == NEWADJ(j, i))]:
            I.assume(f)
    Refine(I, st, name, new, lambda a, b: full2(a, b), {'parent': lambda t: par(t), 'cell': lambda t: cell(t)}, facts)
    adj = Adjacency(I, st, name)

    def is_adjacent(I, a, b, *r, **kw):
        if reg(a).tag is None or reg(b).tag is None:
            raise Unsupported('adjacency of regions')
        return SB(NEWADJ(a.tag, b.tag))
    I.ext['polytope'].update(is_adjacent=Builtin('is_adjacent', is_adjacent), cheby_ball=Builtin('cheby_ball', cheby), box2poly=Builtin('box2poly', box2poly))
    I.ext.setdefault('scipy.sparse', {})['lil_array'] = Builtin('lil_array', adj.zeros)

    def made(I, domain=None, regions=None, adj=None, prop_regions=None, check=True):
        o = Part_()
        st['made'] = (o, domain, regions, adj, prop_regions)
        return o
    I.overrides[f'{MOD}:PropPreservingPartition'] = Builtin('PropPreservingPartition', made)

    def setup(I):
        st.update(level=0, made=None, filled=None, adj=None, axes=[])
        d = st['d'] = I.choose([TRUE] * 3) + 1
        ppp = st['ppp'] = geometry(I, st)
        m = st['cells'] = I.const('cells', Z)
        I.assume(m >= 0)
        for q in range(d):
            I.assume(LO[q] < HI[q])
        I.assume(ForAll_([x], Implies_(DOM(x), And_(*[And_(LO[q] <= X[q](x), X[q](x) < HI[q]) for q in range(d)]))))
        # contracts of compute_interval and product_interval: cells partition the box around the domain
        I.assume(ForAll_([x], Implies_(And_(*[And_(LO[q] <= X[q](x), X[q](x) < HI[q]) for q in range(d)]), And_(rng(m, CELL(x)), inbox(CELL(x), x)))))
        I.assume(ForAll_([i, x], Implies_(And_(rng(m, i), inbox(i, x)), CELL(x) == i)))
        y = F('part_point', Z, Z, V)
        I.assume(ForAll_([i, j, x], Implies_(both(i, j, x), full2(i, j))))
        I.assume(ForAll_([i, j], Implies_(full2(i, j), both(i, j, y(i, j)))))
        dom = A('domain', A=Seq(z3.IntVal(1), lambda I, k: Row()), bounding_box=(Corner(LO), Corner(HI)))
        st['dom'] = dom
        st['spec'] = lambda a, b: (lambda x: both(a, b, x), b)
        st['index'] = lambda a, b: {'parent': b, 'cell': a}
        part = A('partition', domain=dom, prop_regions=st['props'], regions=I.getattr_(ppp, 'regions'), adj=I.getattr_(ppp, 'adj'))
        w = I.choose([TRUE] * 4)
        kind = 'size' if w < 2 else 'num'
        mk = lambda: I.const('grid', R_ if w < 2 else Z)
        if w % 2:
            g = [mk() for _ in range(d)]
            v = PList([single(SN(t)) for t in g])
            for t in g:
                I.assume(t > 0)
        else:
            g = mk()
            I.assume(g > 0)
            v = SN(g)
        st['grid'] = (kind, g)
        return lambda: I.call(ctx.resolve(f'{MOD}:{name}'), [part], {'grid_size' if w < 2 else 'num_grid_pnts': v, 'abs_tol': 0})

    class Row(Val):
        def subst(self, pairs):
            return self

        def len_(self, I):
            return st['d']

    def post(I, out):
        if not ctx.no_raise(I, out, name):
            return
        I.prove(z3.BoolVal(bool(st['made']) and out is st['made'][0]), f'{name}: returns the partition')
        if not st['made']:
            return
        _, domain, regions, adj, props = st['made']
        I.prove(z3.BoolVal(domain is st['dom'] and props is st['props']), f'{name}: domain and propositions')
        I.prove(z3.BoolVal(adj is not None and adj is st['filled']), f'{name}: the adjacency of the new regions')
        I.prove(z3.BoolVal(st['axes'] == list(range(st['d']))), f'{name}: every axis is divided')
        ok = isinstance(regions, Seq) and regions.role == 'region'
        I.prove(z3.BoolVal(ok), f'{name}: regions')
        if not ok:
            return
        N = regions.n
        W = F('old_region_of', V, Z)
        refinement(I, name, N, lambda t, x: Q(t, x), lambda t: par(t), lambda x: num_(CELL(x), W(x)))
        I.prove(Implies_(And_(rng(N, k), Q(k, x)), inbox(cell(k), x)), f'{name}: a region is inside of a cell')
        unchanged(I, st, name)
    ctx.verify(name, setup, post, f'{MOD}:{name}')


# ------------------------------------------------------------------ Transitions.add_adj
def mk_add_adj(ctx):
    I = ctx.new(timeout_ms=15000)
    I.prefix_facts = True
    st = {}
    name = 'add_adj'
    STATE, IN, EDGE = F('state', Z, V), F('in_graph', V, B), F('entry', Z, Z, B)
    k = z3.Int('k')
    LG = 'tulip.transys.labeled_graphs'

    class States(Seq):
        def getattr_(self, I, nm):
            if nm != '__getitem__':
                raise Unsupported(f'list.{nm}')
            return Builtin('__getitem__', lambda I, k: self.getitem_(I, k))

    def graph(I, adj, create_using=None, **kw):
        I.prove(z3.BoolVal(adj is st['adj'] and create_using == 'directed'), f'{name}: the directed graph of the matrix')

        def edges(I):
            i, j = I.const('i', Z), I.const('j', Z)
            return PList([Part((i, j), And_(rng(st['n'], i, j), EDGE(i, j)), (SN(i), SN(j)))])
        return A('graph', edges=Builtin('edges', edges))
    I.ext.setdefault('networkx', {}).update(from_scipy_sparse_array=Builtin('from_scipy_sparse_array', graph), DiGraph=Builtin('DiGraph', lambda I: 'directed'))

    def each(I, fr, node, it):
        ps = I.iter_parts(it)
        if len(ps) != 1 or len(ps[0].vars) != 2:
            return False
        q = I.inst(ps[0])
        st['each'] = True
        if I.choose([TRUE, TRUE]) == 1:
            I.exec_block(node.orelse, fr)
            return True
        I.assume(q.cond)
        I.iteration(fr, node, q, [], {})
        I.prove(z3.BoolVal(len(st['log']) == 1), f'{name}: one transition for each entry')
        if len(st['log']) == 1:
            a, kw = st['log'][0]
            bound = dict(zip(('from', 'to', 'attr_dict', 'check'), a))
            bound.update({{'from_state': 'from', 'to_state': 'to'}.get(x, x): y for x, y in kw.items()})
            ok = {'from', 'to', 'attr_dict', 'check', 'label'} == set(bound)
            I.prove(z3.BoolVal(ok), f'{name}: arguments of the transition')
            if ok:
                i, j = q.vars
                I.prove(And_(I.enc_.enc(bound['from']) == STATE(i), I.enc_.enc(bound['to']) == STATE(j)), f'{name}: the transition of the entry')
                I.prove(z3.BoolVal(bound['attr_dict'] is st['attr'] and bound['check'] is st['check'] and bound['label'] is st['label']), f'{name}: the label of the transition')
        raise Infeasible()
    I.for_rules.append(each)

    def setup(I):
        rows, cols, n = (I.const(x, Z) for x in ('rows', 'cols', 'n'))
        I.assume(And_(rows >= 0, cols >= 0, n == rows))
        st.update(rows=rows, cols=cols, n=n, log=[], each=False)
        st['adj'] = A('adj', shape=(SN(rows), SN(cols)))
        st['attr'], st['label'] = A('attr_dict'), A('label')
        st['check'] = I.choose([TRUE, TRUE]) == 0

        def add(I, *a, **kw):
            st['log'].append((a, kw))
        g = A('graph', **{'%in': lambda I, v: IN(I.enc_.enc(v))})
        self = A('transitions', graph=g, add=Builtin('add', add))
        f = ctx.resolve(f'{LG}:Transitions.add_adj')
        return lambda: I.call(getattr(f, 'fn', f), [self, st['adj'], States(n, lambda I, k: Sym(STATE(k), 'str')), st['attr'], st['check']], {'label': st['label']})

    def post(I, out):
        bad = Or_(st['rows'] != st['cols'], Exists_([k], And_(rng(st['n'], k), Not_(IN(STATE(k))))))
        if isinstance(out, Raised):
            I.prove(z3.BoolVal(out.name == 'ValueError'), f'{name}: ValueError')
            I.prove(bad, f'{name}: raises only for a matrix that is not square or a state that is missing')
            I.prove(z3.BoolVal(not st['each'] and not st['log']), f'{name}: no transition is added then')
            return
        I.prove(Not_(bad), f'{name}: the matrix is square and all states are there')
        I.prove(z3.BoolVal(st['each']), f'{name}: transitions are added')
    ctx.verify(name, setup, post, f'{LG}:Transitions.add_adj')


GROUPS = [Group('prop2part', mk_prop2part), Group('pwa_partition', mk_pwa), Group('part2convex', mk_part2convex), Group('class', mk_class),
          Group('init', mk_init), Group('ppp2ts', mk_ppp2ts),
          Group('add_adj', mk_add_adj), Group('interval', mk_interval), Group('product', mk_product), Group('grid', mk_grid)]
ASSUMED = ['polytope: regions are sets of points up to sets without volume; intersect, diff, reduce, is_fulldim, find_adjacent_regions are exact (no rounding)',
           'add_grid: verified with tolerance 0 and for 1, 2 and 3 dimensions (the number of dimensions is a bound); cells partition the box around the domain by the contracts of compute_interval and product_interval',
           'numbers of the grid are mathematical reals']
BOUNDED = ['refused arguments of add_grid: executable contract', 'add_grid in more than 3 dimensions: not covered']
