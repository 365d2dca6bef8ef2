"""Contracts for simulation-based abstraction in tulip/transys/transys.py.

States V with labels LABEL; edge relation E.  A partition or cover is a list of
n cells: C(i, x).  0/1 matrices are predicates of row and column (assumed
contract of numpy).
"""
import ast
import z3
from vf.contract import *
from vf import lib
from vf.core import _MISSING
from vf.digraph import A, Graph, install as install_nx

MOD = 'tulip.transys.transys'
B, Z = z3.BoolSort(), z3.IntSort()
F = z3.Function
N, E, LABEL, REPR, INIT = F('state', V, B), F('edge', V, V, B), F('label', V, V), F('repr', V, V), F('initial', V, B)


def z3b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def num(I, v):
    n = lib.to_num(I, v)
    if n is None or isinstance(n, (int, float)) and not isinstance(n, int):
        raise Unsupported(f'{v!r} as an index')
    return z3.IntVal(n) if isinstance(n, int) else n


class St(Val):
    """Object with a state that is replaced as a whole."""

    def __init__(self, **st):
        self.o = Obj(None, dict(st))

    def subst(self, pairs):
        return self

    def get(self, k):
        return self.o.f[k]

    def put(self, I, k, v):
        I.set_field(self.o, k, v)


def index(I, k, n, what):
    i = num(I, k)
    I.prove(And_(i >= 0, i < n), f'{what}: the index is in range')
    return i


class Mat(St):
    """Square 0/1 matrix."""

    def __init__(self, n, f):
        super().__init__(n=n, f=f)

    def axis(self, I, k):
        if isinstance(k, slice):
            if k != slice(None, None, None):
                raise Unsupported('part of a matrix')
            return None
        return index(I, k, self.get('n'), 'matrix')

    def getitem_(self, I, k):
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported('row of a matrix')
        a, b = (self.axis(I, x) for x in k)
        f = self.get('f')
        if a is not None and b is not None:
            return SN(z3.If(f(a, b), z3.IntVal(1), z3.IntVal(0)))
        if a is None and b is None:
            return Mat(self.get('n'), f)
        return Line(self.get('n'), (lambda i: f(i, b)) if a is None else lambda i: f(a, i))

    def setitem_(self, I, k, v):
        a, b = (self.axis(I, x) for x in k)
        f, n = self.get('f'), self.get('n')
        if isinstance(v, Line):
            if (a is None) == (b is None):
                raise Unsupported('assignment of a row')
            I.prove(v.n == n, 'rows of the same length')
            new = (lambda i, j: v.f(i)) if a is None else lambda i, j: v.f(j)
        else:
            t = z3.simplify(num(I, v) == 1)
            I.prove(Or_(num(I, v) == 1, num(I, v) == 0), 'entries are 0 or 1')
            new = lambda i, j: t
        hit = lambda i, j: And_(*([i == a] if a is not None else []), *([j == b] if b is not None else []))
        self.put(I, 'f', lambda i, j: z3.If(hit(i, j), new(i, j), f(i, j)))

    def binop_(self, I, op, a, b):
        if op == 'Sub' and isinstance(a, Mat) and isinstance(b, Mat):
            I.prove(a.get('n') == b.get('n'), 'matrices of the same size')
            return Diff(a, b)
        raise Unsupported(f'{op} of matrices')

    def getattr_(self, I, name):
        if name == 'astype':
            return Builtin('astype', lambda I, t: Mat(self.get('n'), self.get('f')))
        if name == 'copy':
            return Builtin('copy', lambda I: Mat(self.get('n'), self.get('f')))
        if name == 'any':
            return Builtin('any', lambda I: SB(some(I, self)))
        if name == 'sum':
            return Builtin('sum', lambda I: total(I, self))
        raise Unsupported(f'matrix.{name}')


class Line(Val):
    def __init__(self, n, f):
        self.n, self.f = n, f

    def subst(self, pairs):
        return self


class Diff(Val):
    """a - b of 0/1 matrices, compared with 0."""

    def __init__(self, a, b):
        self.n, self.a, self.b = a.get('n'), a.get('f'), b.get('f')

    def subst(self, pairs):
        return self

    def compare_(self, I, op, x, y):
        if x is self and op == 'Gt' and y == 0:
            return Mat(self.n, lambda i, j: And_(self.a(i, j), Not_(self.b(i, j))))
        raise Unsupported('comparison of matrices')


def some(I, m):
    i, j = I.const('i', Z), I.const('j', Z)
    n = m.get('n')
    return Exists_([i, j], And_(0 <= i, i < n, 0 <= j, j < n, m.get('f')(i, j)))


def total(I, m):
    c = I.const('sum', Z)
    I.assume(And_(c >= 0, (c > 0) == some(I, m)))
    return SN(c)


def numpy():
    def make(v):
        def f(I, shape):
            ps = I.concrete_elems(shape)
            n, k = num(I, ps[0]), num(I, ps[1])
            I.prove(n == k, 'square matrix')
            return Mat(n, lambda i, j: z3.BoolVal(v))
        return f

    def nonzero(I, m):
        i, j = I.const('row', Z), I.const('col', Z)
        n = m.get('n')
        I.prove(some(I, m), 'a matrix without nonzero entry has no first one')
        I.assume(And_(0 <= i, i < n, 0 <= j, j < n, m.get('f')(i, j)))
        first = lambda t: A('index', **{'%item': lambda I, k: SN(t) if k == 0 else unsupported()})
        return (first(i), first(j))

    def unsupported():
        raise Unsupported('other than the first nonzero entry')

    def pad(I, m, width, mode='constant', constant_values=0):
        if width != (0, 1) or mode != 'constant' or constant_values not in (0, 1):
            raise Unsupported('padding of a matrix')
        n, f, v = m.get('n'), m.get('f'), z3.BoolVal(constant_values == 1)
        return Mat(n + 1, lambda i, j: z3.If(And_(i < n, j < n), f(i, j), v))
    return A('numpy', ones=Builtin('ones', make(True)), zeros=Builtin('zeros', make(False)), sum=Builtin('sum', total), nonzero=Builtin('nonzero', nonzero),
             any=Builtin('any', lambda I, m: SB(some(I, m))), pad=Builtin('pad', pad))


class Cells(St):
    """List of n sets of states: C(i, x)."""

    def __init__(self, n, C):
        super().__init__(n=n, C=C)

    def len_(self, I):
        return SN(self.get('n'))

    def getitem_(self, I, k):
        i = index(I, k, self.get('n'), 'cells')
        x = I.const('x', V)
        w = PSet([Part((x,), self.get('C')(i, x), Sym(x))])
        w.frozen = True
        return w

    def setitem_(self, I, k, v):
        i = index(I, k, self.get('n'), 'cells')
        ps = I.iter_parts(v)
        C = self.get('C')
        self.put(I, 'C', lambda a, x: z3.If(a == i, z3b(I.member_parts(Sym(x), ps)), C(a, x)))

    def append(self, I, v):
        ps = I.iter_parts(v)
        n, C = self.get('n'), self.get('C')
        self.put(I, 'C', lambda a, x: z3.If(a == n, z3b(I.member_parts(Sym(x), ps)), C(a, x)))
        self.put(I, 'n', n + 1)

    def getattr_(self, I, name):
        if name == 'append':
            return Builtin('append', self.append)
        raise Unsupported(f'list.{name}')

    def iter_(self, I):
        raise Unsupported('iteration over the cells')


class ByLabel(St):
    """Dictionary from n keys, in order KEY, to sets of states."""

    def __init__(self, n, key, has, memb):
        super().__init__(n=n, key=key, has=has, memb=memb)

    def contains_(self, I, k):
        return self.get('has')(I.enc_.enc(k))

    def setitem_(self, I, k, v):
        t = I.enc_.enc(k)
        if I.branch(self.get('has')(t)):
            raise Unsupported('replacement of a cell')
        if not (isinstance(v, PSet) and not v.parts):
            raise Unsupported('new cell with elements')
        n, key, has, memb = map(self.get, ('n', 'key', 'has', 'memb'))
        self.put(I, 'key', lambda i: z3.If(i == n, t, key(i)))
        self.put(I, 'has', lambda a: Or_(a == t, has(a)))
        self.put(I, 'memb', lambda a, x: And_(a != t, memb(a, x)))
        self.put(I, 'n', n + 1)

    def getitem_(self, I, k):
        t = I.enc_.enc(k)
        if not I.branch(self.get('has')(t)):
            raise PyExc(KeyError, (k,))
        return Cell(self, t)

    def len_(self, I):
        return SN(self.get('n'))


class Cell(Val):
    def __init__(self, d, t):
        self.d, self.t = d, t

    def subst(self, pairs):
        return Cell(self.d, z3.substitute(self.t, *pairs))

    def getattr_(self, I, name):
        if name != 'add':
            raise Unsupported(f'set.{name}')

        def add(I, v):
            x0, memb = I.enc_.enc(v), self.d.get('memb')
            self.d.put(I, 'memb', lambda a, x: Or_(And_(a == self.t, x == x0), memb(a, x)))
        return Builtin('add', add)


def mk_pre(ctx):
    for form in ('set', 'list'):
        I = ctx.new()
        install_nx(I)
        st = {}

        def setup(I):
            G = Graph(ctx)
            x = I.const('x', V)
            f = F('given', V, B)
            I.assume(ForAll_([x], Implies_(f(x), G.Nf(x))))
            st.update(G=G, f=f)
            return lambda: I.call(ctx.resolve(f'{MOD}:_pre'), [G.o, dict(set=PSet, list=PList)[form]([Part((x,), f(x), Sym(x))])], {})

        def post(I, out):
            if not ctx.no_raise(I, out, '_pre'):
                return
            G, f = st['G'], st['f']
            I.prove(z3.BoolVal(isinstance(out, PSet)), '_pre: a set')
            if isinstance(out, PSet):
                x, u, k = I.const('x', V), I.const('u', V), I.const('k', Z)
                I.prove(z3b(I.member_parts(Sym(x), out.parts)) == Exists_([u, k], And_(f(u), G.Ef(x, u, k))), '_pre: exactly the predecessors')
            G.unchanged('_pre does not change the graph')
        ctx.verify(f'_pre ({form})', setup, post, f'{MOD}:_pre')


def system(ctx):
    node = A('node', **{'%item': lambda I, k: k})
    ts = A('ts')
    nodes = A('nodes', **{'%item': lambda I, n: A('attr', **{'%item': lambda I, k: Sym(LABEL(I.enc_.enc(n)), 'label') if k == 'ap' else _bad(k)})})

    def all_nodes(I):
        x = I.const('x', V)
        return [Part((x,), N(x), Sym(x))]
    return ts, A('graph', nodes=nodes, **{'%iter': all_nodes, '%in': lambda I, v: N(I.enc_.enc(v))})


def _bad(k):
    raise Unsupported(f'attribute {k!r} of a state')


class Opq(Val):
    """Data that does not influence the result."""

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        if name not in ('add_node', 'add_edge', 'add', 'append'):
            raise Unsupported(f'{name} of bookkeeping data')
        return Builtin(name, lambda I, *a, **k: None)

    def setitem_(self, I, k, v):
        pass


def mk_abstract(kind):
    def g(ctx):
        I = ctx.new(timeout_ms=30000)
        a, b = z3.Consts('sa sb', V)
        I.axioms += [z3.ForAll([a, b], z3.Implies(REPR(a) == REPR(b), a == b), patterns=[z3.MultiPattern(REPR(a), REPR(b))]),
                     z3.ForAll([a, b], z3.Implies(E(a, b), z3.And(N(a), N(b))), patterns=[E(a, b)])]
        ts, G = system(ctx)
        st = {}

        def graph(I, *args, **kw):
            if kw:
                raise Unsupported('graph with attributes')
            if not args:
                return Opq()
            if args[0] is not ts:
                raise Unsupported('copy of another graph')
            return G
        I.overrides[f'{MOD}:_nx'] = A('networkx', MultiDiGraph=Builtin('MultiDiGraph', graph))
        I.overrides[f'{MOD}:np'] = numpy()
        I.overrides[f'{MOD}:repr'] = Builtin('repr', lambda I, v: Sym(REPR(I.enc_.enc(v)), 'key'))

        def pre(I, f, args, kw):
            gr, l = I.bind(f, args, kw).values()
            I.prove(z3.BoolVal(gr is G), 'predecessors in the given system')
            ps = I.iter_parts(l)
            P = I.func('pre', V, B)
            x, y = I.const('x', V), I.const('y', V)
            W = I.func('prew', V, V)
            mem = lambda t: z3b(I.member_parts(Sym(t), ps))
            I.assume(ForAll_([x], Implies_(P(x), And_(mem(W(x)), E(x, W(x))))))
            I.assume(z3.ForAll([x, y], z3.Implies(z3.And(mem(y), E(x, y)), P(x)), patterns=[E(x, y)]))
            return PSet([Part((x,), P(x), Sym(x))])
        I.contracts[f'{MOD}:_pre'] = pre

        def output(I, f, args, kw):
            st['out'] = list(I.bind(f, args, kw).values())
            return (Sym(z3.Const('abstraction', V)), Sym(z3.Const('maps', V)))
        I.contracts[f'{MOD}:_output_fts'] = output
        rng = lambda n, *xs: And_(*[And_(0 <= x, x < n) for x in xs])

        def partition(I, n, C, what):
            i, j, x, y = I.const('i', Z), I.const('j', Z), I.const('x', V), I.const('y', V)
            fs = [('cells are not empty', ForAll_([i], Implies_(rng(n, i), Exists_([x], C(i, x))))),
                  ('cells have states', ForAll_([i, x], Implies_(And_(rng(n, i), C(i, x)), N(x)))),
                  ('cells have equally labeled states', ForAll_([i, x, y], Implies_(And_(rng(n, i), C(i, x), C(i, y)), LABEL(x) == LABEL(y)))),
                  ('each state is in a cell', ForAll_([x], Implies_(N(x), Exists_([i], And_(rng(n, i), C(i, x))))))]
            if kind == 'bi':
                fs.append(('cells are disjoint', ForAll_([i, j, x], Implies_(And_(rng(n, i, j), C(i, x), C(j, x)), i == j))))
            return fs

        def moves(I, n, C, T, pending):
            i, j, k, x, y = I.const('i', Z), I.const('j', Z), I.const('k', Z), I.const('x', V), I.const('y', V)
            fs = [('transitions are realizable from each state of the source cell', ForAll_([i, j, x], Implies_(
                And_(rng(n, i, j), T(j, i), C(i, x)), Exists_([y], And_(C(j, y), E(x, y))))))]
            done = lambda i, j: And_(rng(n, i, j), Not_(pending(j, i)))
            if kind == 'bi':
                fs.append(('cells without transition have no state with a successor', ForAll_([i, j, x, y], Implies_(
                    And_(done(i, j), C(i, x), C(j, y), E(x, y)), T(j, i)))))
            else:
                fs.append(('a transition leaves each cell, or its part that has successors', ForAll_([i, j, x, y], Implies_(
                    And_(done(i, j), C(i, x), C(j, y), E(x, y)), Exists_([k], And_(rng(n, k), C(k, x), T(j, k)))))))
            return fs

        def loop_nodes(I, fr, node, it):
            if not fr.func.endswith('simu_abstract') or it is not G:
                return False
            d0 = next((k for k, v in fr.f.items() if isinstance(v, PDict) and k not in ('hash_ap',) and any(
                isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'add' and isinstance(s.func.value, ast.Subscript) and
                isinstance(s.func.value.value, ast.Name) and s.func.value.value.id == k for s in ast.walk(node))), None)
            cnt = next((s.target.id for s in ast.walk(node) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)), None)
            if d0 is None or cnt is None:
                raise Unsupported('grouping of the states by label')
            ok = [k for k, v in fr.f.items() if isinstance(v, PDict) and k != d0 and not v.parts]

            def havoc():
                key, has, memb = I.func('KEY', Z, V), I.func('has', V, B), I.func('memb', V, V, B)
                n = I.const('n', Z)
                w = ByLabel(n, key, has, memb)
                st['groups'] = w
                I.set_field(fr, d0, w)
                I.set_field(fr, cnt, SN(I.const('count', Z)))
                for k in ok:
                    I.set_field(fr, k, Opq())
                return [w.o]

            def inv(p, done):
                w = fr.f[d0]
                x, k, i, j = I.const('x', V), I.const('k', V), I.const('i', Z), I.const('j', Z)
                c = num(I, fr.f[cnt])
                if isinstance(w, PDict):
                    return [('no cells', And_(z3.BoolVal(not w.parts), c == 0))]
                n, key, has, memb = map(w.get, ('n', 'key', 'has', 'memb'))
                return [('number of cells', And_(n >= 0, c == n)),
                        ('cells are the visited states with their label', ForAll_([k, x], memb(k, x) == And_(done([x]), REPR(LABEL(x)) == k))),
                        ('labels of visited states', ForAll_([k], has(k) == Exists_([x], And_(done([x]), REPR(LABEL(x)) == k)))),
                        ('keys in order', ForAll_([i], Implies_(rng(n, i), has(key(i))))),
                        ('keys in order, all', ForAll_([k], Implies_(has(k), Exists_([i], And_(rng(n, i), key(i) == k))))),
                        ('keys differ', ForAll_([i, j], Implies_(And_(rng(n, i, j), key(i) == key(j)), i == j)))]
            I.inv_for(fr, node, it, havoc, inv, 'grouping by label', keep=(d0, cnt) + tuple(ok))
            return True

        def loop_cells(I, fr, node, it):
            if not isinstance(it, ByLabel):
                return False
            w = it
            n, key, has, memb = map(w.get, ('n', 'key', 'has', 'memb'))
            lists = [k for k, v in fr.f.items() if isinstance(v, PList) and not v.parts and any(
                isinstance(s, ast.Name) and s.id == k for b in node.body for s in ast.walk(b))]
            if len(lists) != 1:
                raise Unsupported('list of the cells')
            nm, = lists
            if I.choose([TRUE, TRUE]) == 0:
                got = []
                I.set_field(fr, nm, A('cells', append=Builtin('append', lambda I, v: got.append(v))))
                i = I.const('i', Z)
                I.assume(rng(n, i))
                I.iteration(fr, node, Part((), TRUE, Sym(key(i), 'key')))
                I.prove(z3.BoolVal(len(got) == 1 and isinstance(got[0], Cell)), 'one cell for each label')
                for c in got:
                    I.prove(c.t == key(i), 'the cell of the label')
                raise Infeasible()
            I.set_field(fr, nm, Cells(n, lambda i, x: memb(key(i), x)))
            return True

        def loop_search(I, fr, node, it):
            if not fr.func.endswith('simu_abstract') or not isinstance(it, lib.Range):
                return False
            flag = [k for k, v in fr.f.items() if v is False and any(isinstance(s, ast.Name) and s.id == k and isinstance(s.ctx, ast.Store) for s in ast.walk(node))]
            if len(flag) != 1:
                raise Unsupported('search of a cell')
            fl, = flag
            si, isect = fr.f['sol'], fr.f['isect']
            x = I.const('x', V)
            Cn = si.get('C')
            m = lambda x: z3b(I.member_parts(Sym(x), isect.parts))

            def inv(p, done):
                i = I.const('i', Z)
                v = fr.f[fl]
                return [('not found', z3.BoolVal(v is False)), ('visited cells differ', ForAll_([i], Implies_(
                    done([i]), Exists_([x], Cn(i, x) != m(x)))))]
            I.inv_for(fr, node, it, lambda: [], inv, 'search of the cell', keep=(fl,))
            return True
        loop_search.optional = kind != 'dual'
        I.for_rules += [loop_nodes, loop_cells, loop_search]

        def loop_main(I, fr, node):
            if not fr.func.endswith('simu_abstract'):
                return False
            names = {}
            test = {s.id for s in ast.walk(node.test) if isinstance(s, ast.Name)}
            mats = [k for k, v in fr.f.items() if isinstance(v, Mat)]
            J = [k for k in mats if k in test]
            T = [k for k in mats if k not in test]
            S = [k for k, v in fr.f.items() if isinstance(v, Cells)]
            cnt = [k for k, v in fr.f.items() if isinstance(v, SN) and k not in ('i', 'j')]
            if not (len(J) == len(T) == len(S) == len(cnt) == 1):
                raise Unsupported('refinement loop')
            (J,), (T,), (S,), (cnt,) = J, T, S, cnt

            def inv():
                n, C = fr.f[S].get('n'), fr.f[S].get('C')
                t, p = fr.f[T], fr.f[J]
                fs = [('size', And_(n >= 0, num(I, fr.f[cnt]) == n, t.get('n') == n, p.get('n') == n))]
                fs += partition(I, n, C, '')
                fs += moves(I, n, C, t.get('f'), p.get('f'))
                return fs

            def havoc():
                n = I.const('n', Z)
                s, t, p = Cells(n, I.func('C', Z, V, B)), Mat(n, I.func('T', Z, Z, B)), Mat(n, I.func('IJ', Z, Z, B))
                I.set_field(fr, S, s)
                I.set_field(fr, T, t)
                I.set_field(fr, J, p)
                I.set_field(fr, cnt, SN(I.const('n_cells', Z)))
                return [s.o, t.o, p.o]
            I.inv_while(fr, node, havoc, inv, 'refinement', keep=(S, T, J, cnt))
            return True
        I.while_rules[:] = [loop_main]

        def setup(I):
            st.pop('out', None)
            return lambda: I.call(ctx.resolve(f'{MOD}:simu_abstract'), [ts, kind], {})

        def post(I, out):
            nm = f'simu_abstract({kind})'
            if not ctx.no_raise(I, out, nm):
                return
            o = st.get('out')
            I.prove(z3.BoolVal(o is not None and o[0] is ts and isinstance(o[1], Mat) and isinstance(o[2], Cells)), f'{nm}: output of the cells')
            if o is None:
                return
            I.prove(z3.BoolVal(isinstance(out, tuple) and len(out) == 2 and all(isinstance(x, Sym) for x in out)) if not isinstance(out, tuple) or len(out) != 2
                    or not all(isinstance(x, Sym) for x in out) else And_(out[0].t == z3.Const('abstraction', V), out[1].t == z3.Const('maps', V)), f'{nm}: returns the abstraction and its maps')
            n, C, T = o[2].get('n'), o[2].get('C'), o[1].get('f')
            I.prove(o[1].get('n') == n, f'{nm}: size of the matrix')
            for lb, f in partition(I, n, C, '') + moves(I, n, C, T, lambda j, i: FALSE):
                I.prove(f, f'{nm}: {lb}')
            if kind == 'dual':
                j, k, x, y = I.const('j', Z), I.const('k', Z), I.const('x', V), I.const('y', V)
                I.prove(ForAll_([x, y, j], Implies_(And_(E(x, y), rng(n, j), C(j, y)), Exists_([k], And_(rng(n, k), C(k, x), T(j, k))))),
                        f'{nm}: each step has an abstract transition to each cell of its target')
        ctx.verify(f'simu_abstract ({kind})', setup, post, f'{MOD}:simu_abstract')
    return g


class Owners(Val):
    """The list of cells of one state, in the map from states to cells."""

    def __init__(self, g, j):
        self.g, self.j = g, j

    def subst(self, pairs):
        return Owners(self.g, z3.substitute(self.j, *pairs))

    def getattr_(self, I, name):
        if name != 'append':
            raise Unsupported(f'list.{name}')

        def append(I, v):
            R, t = self.g.get('R'), num(I, v)
            I.prove(Not_(R(self.j, t)), 'each cell is listed once')
            j0 = self.j
            self.g.put(I, 'R', lambda j, i: Or_(And_(j == j0, i == t), R(j, i)))
        return Builtin('append', append)

    def iter_(self, I):
        i = I.const('i', Z)
        return [Part((i,), self.g.get('R')(self.j, i), SN(i))]


def mk_output(ctx):
    I = ctx.new(timeout_ms=20000)
    C, T, n = F('C', Z, V, B), F('T', Z, Z, B), z3.Const('n', Z)
    st = {}

    def rel(I, d, j, i):
        """State j is mapped to a list with cell i."""
        out = []
        for p in map(I.inst, d.parts):
            k, v = p.val
            if isinstance(v, Owners):
                g = v.g.get('R')(v.j, i)
            elif isinstance(v, PList):
                g = z3b(I.member_parts(SN(i), v.parts))
            else:
                raise Unsupported('map of the states')
            out.append(Exists_(list(p.vars), And_(p.cond, z3b(I._eqf(k, Sym(j))), g)))
        return Or_(*out)

    def has(I, d, j):
        return z3b(I.member_parts(Sym(j), [Part(p.vars, p.cond, p.val[0]) for p in d.parts]))

    def dicts(fr, node):
        ds = [v for k, v in fr.f.items() if isinstance(v, PDict) and any(isinstance(s, ast.Name) and s.id == k for b in node.body for s in ast.walk(b))]
        if len(ds) == 1:
            return None, ds[0]
        if len(ds) != 2:
            raise Unsupported('maps of the states')
        a, b = ds
        inner = [s for s in ast.walk(node) if isinstance(s, ast.For) and s is not node]
        if len(inner) != 1:
            raise Unsupported('maps of the states')
        names = {s.id for s in ast.walk(inner[0]) if isinstance(s, ast.Name)}
        ins = [v for k, v in fr.f.items() if v in (a, b) and k in names]
        if len(ins) != 1:
            raise Unsupported('maps of the states')
        return (a if ins[0] is b else b), ins[0]

    def havoc_up(I, up):
        j = I.const('j', V)
        g = St(R=I.func('R', V, Z, B))
        I.set_parts(up, [Part((j,), I.func('mapped', V, B)(j), (Sym(j), Owners(g, j)))])
        st['g'] = g
        return [up, g.o]

    def inv_up(I, up, R):
        j, i = I.const('j', V), I.const('i', Z)
        return [('the map of states lists the cells', ForAll_([j, i], rel(I, up, j, i) == R(j, i))),
                ('mapped states are in a cell', ForAll_([j], has(I, up, j) == Exists_([i], R(j, i))))]

    def loop(I, fr, node, it):
        if not fr.func.endswith('_output_fts'):
            return False
        if isinstance(it, lib.Range) and any(isinstance(s, ast.For) and s is not node for s in ast.walk(node)) and \
                any(isinstance(v, PDict) and any(isinstance(s, ast.Name) and s.id == k for b in node.body for s in ast.walk(b)) for k, v in fr.f.items()):
            down, up = dicts(fr, node)
            st['up'] = up

            def havoc():
                i = I.const('i', Z)
                x = I.const('x', V)
                out = havoc_up(I, up)
                if down is not None:
                    D = I.func('down', Z, B)
                    I.set_parts(down, [Part((i,), D(i), (SN(i), PSet([Part((x,), C(i, x), Sym(x))])))])
                    out.append(down)
                return out

            def inv(p, done):
                fs = inv_up(I, up, lambda j, i: And_(done([i]), C(i, j)))
                if down is not None:
                    fs.append(('the map of cells has their states', down_ok(I, down, done)))
                return fs
            I.inv_for(fr, node, it, havoc, inv, 'maps')
            return True
        if isinstance(it, PSet) and st.get('up') is not None and any(isinstance(s, ast.Attribute) and s.attr == 'append' for s in ast.walk(node)):
            _, up = dicts(fr, node)
            if up is not st['up']:
                raise Unsupported('maps of the states')
            old = PDict(list(up.parts))
            old.frozen = True
            R0 = lambda j, i: rel(I, old, j, i)
            cur = next((v for k, v in fr.f.items() if isinstance(v, SN) and k == st.get('idx', 'i')), None)
            if cur is None:
                raise Unsupported('index of the cell')
            c = cur.t
            I.inv_for(fr, node, it, lambda: havoc_up(I, up), lambda p, done: inv_up(I, up, lambda j, i: Or_(R0(j, i), And_(i == c, done([j])))), 'map of a cell')
            return True
        return False
    I.for_rules.append(loop)

    def down_ok(I, down, done):
        i, x = I.const('i', Z), I.const('x', V)
        fs = []
        ex = []
        for p in map(I.inst, down.parts):
            k, v = p.val
            if not isinstance(v, Container):
                raise Unsupported('map of the cells')
            fs.append(ForAll_(list(p.vars), Implies_(p.cond, And_(done([num(I, k)]), ForAll_([x], z3b(I.member_parts(Sym(x), v.parts)) == C(num(I, k), x))))))
            ex.append(Exists_(list(p.vars), And_(p.cond, num(I, k) == i)))
        return And_(*fs, ForAll_([i], Implies_(done([i]), Or_(*ex))))

    def setup(I):
        i, x = I.const('i', Z), I.const('x', V)
        I.assume(n >= 0)
        I.assume(ForAll_([i], Implies_(And_(0 <= i, i < n), Exists_([x], C(i, x)))))
        I.assume(ForAll_([i, x], Implies_(And_(0 <= i, i < n, C(i, x)), N(x))))
        I.assume(ForAll_([x], Implies_(N(x), Exists_([i], And_(0 <= i, i < n, C(i, x))))))
        I.assume(ForAll_([x], Implies_(INIT(x), N(x))))
        y = I.const('y', V)
        I.assume(ForAll_([i, x, y], Implies_(And_(0 <= i, i < n, C(i, x), C(i, y)), LABEL(x) == LABEL(y))))
        aps, env, sys_ = A('aps'), A('env_actions'), A('sys_actions')
        nodes = A('nodes', **{'%item': lambda I, k: A('attr', **{'%item': lambda I, a: Sym(LABEL(I.enc_.enc(k)), 'label') if a == 'ap' else _bad(a)})})
        init = PSet([Part((x,), INIT(x), Sym(x))])
        ts = A('ts', nodes=nodes, env_actions=env, sys_actions=sys_, aps=aps, atomic_propositions=aps, states=A('states', initial=init))
        S, S0, L, TR, AP = PSet(), PSet(), PSet(), PList(), PSet()
        st.update(S=S, S0=S0, L=L, TR=TR, AP=AP, up=None)

        def add_state(I, s, ap=None):
            I.add_parts(S, [single(s)])
            if ap is not None:
                I.add_parts(L, [single((s, ap))])

        def add_ap(I, v):
            I.prove(z3.BoolVal(v is aps), 'the propositions of the system')
            I.add_parts(AP, [single('all')])

        def add_init(I, v, one=False):
            ps = [single(v)] if one else I.iter_parts(v)
            for p in map(I.inst, ps):
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, z3b(I.member_parts(p.val, S.parts)))), 'initial states were added as states')
            I.add_parts(S0, ps)

        def fts(I, e, s):
            ok = True
            for v, nm, a in ((e, 'env_actions', env), (s, 'sys_actions', sys_)):
                ps = I.concrete_elems(v)
                d = ps[0] if len(ps) == 1 else None
                ok = ok and isinstance(d, PDict) and I.dict_get(d, 'name') == nm and I.dict_get(d, 'values') is a
            I.prove(z3.BoolVal(ok), 'the actions of the system')
            w = A('abstraction', states=A('states', add_from=Builtin('add_from', lambda I, v: I.add_parts(S, I.iter_parts(v))), add=Builtin('add', add_state),
                                         initial=A('initial', add_from=Builtin('add_from', add_init), add=Builtin('add', lambda I, v: add_init(I, v, True)))),
                  atomic_propositions=A('propositions', add_from=Builtin('add_from', add_ap)),
                  transitions=A('transitions', add=Builtin('add', lambda I, a, b: I.add_parts(TR, [single((a, b))]))))
            st['fts'] = w
            return w
        I.overrides[f'{MOD}:FTS'] = Builtin('FTS', fts)
        m = Mat(n, lambda j, i: T(j, i))
        return lambda: I.call(ctx.resolve(f'{MOD}:_output_fts'), [ts, m, Cells(n, lambda i, x: C(i, x))], {})

    def post(I, out):
        nm = '_output_fts'
        if not ctx.no_raise(I, out, nm):
            return
        ok = isinstance(out, tuple) and len(out) == 2 and out[0] is st['fts'] and isinstance(out[1], PDict)
        I.prove(z3.BoolVal(ok), f'{nm}: returns the system and the maps')
        if not ok:
            return
        up, down = I.dict_get(out[1], 'ts2simu'), I.dict_get(out[1], 'simu2ts')
        if not (isinstance(up, PDict) and isinstance(down, PDict)):
            I.prove(FALSE, f'{nm}: returns the maps')
            return
        i, j, x = I.const('i', Z), I.const('j', Z), I.const('x', V)
        l = I.const('l', V)
        cell = lambda i: And_(0 <= i, i < n)
        for lb, f in inv_up(I, up, lambda x, i: And_(cell(i), C(i, x))):
            I.prove(f, f'{nm}: {lb}')
        I.prove(down_ok(I, down, lambda v: cell(v[0])), f'{nm}: the map of cells')
        I.prove(z3b(I.member_parts(SN(i), st['S'].parts)) == cell(i), f'{nm}: one state for each cell')
        I.prove(z3b(I.member_parts(SN(i), st['S0'].parts)) == And_(cell(i), Exists_([x], And_(INIT(x), C(i, x)))), f'{nm}: initial cells')
        I.prove(z3b(I.member_parts((SN(i), SN(j)), st['TR'].parts)) == And_(cell(i), cell(j), T(j, i)), f'{nm}: transitions')
        for p in map(I.inst, st['L'].parts):
            s, a = p.val
            t = num(I, s)
            I.prove(ForAll_(list(p.vars), Implies_(p.cond, And_(cell(t), ForAll_([x], Implies_(C(t, x), I.enc_.enc(a) == LABEL(x)))))), f'{nm}: the label of the states of the cell')
        I.prove(Implies_(cell(i), z3b(I.parts_nonempty(I.filter_parts(st['L'].parts, lambda v: num(I, v[0]) == i)))), f'{nm}: each cell has a label')
        I.prove(z3.BoolVal(bool(st['AP'].parts)), f'{nm}: the propositions of the system')
    ctx.verify('_output_fts', setup, post, f'{MOD}:_output_fts')


GROUPS = [Group('output', mk_output), Group('predecessors', mk_pre), Group('bisimulation', mk_abstract('bi')), Group('dual simulation', mk_abstract('dual'))]
ASSUMED = ['numpy: 0/1 matrices (ones, zeros, pad, nonzero, sum, rows and columns)',
           'repr of labels is injective', 'networkx.MultiDiGraph(ts) has the states, attributes and transitions of ts; bookkeeping graph Part does not influence the result']
BOUNDED = []
