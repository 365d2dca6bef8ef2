"""Contracts for tulip/gridworld.py.

A gridworld array is a symbolic H x W table of zeros and ones (numpy model:
`Grid`); the names, formulas and searches are verified for every size, every
table, every key and offset.
"""
import ast
import z3
from vf.contract import *
from vf import tmpl
from vf.core import _MISSING

MOD = 'tulip.gridworld'
INT = z3.IntSort()
B = z3.BoolSort()


class Grid(Heap):
    """numpy.ndarray with two axes of integers (assumed contract of numpy)."""
    __slots__ = ('h', 'w', 'd')

    def __init__(self, h, w, d):
        super().__init__()
        self.h, self.w, self.d = h, w, d

    def getattr_(self, I, name):
        if name == 'shape':
            return (SN(self.h), SN(self.w))
        if name == 'ndim':
            return 2
        if name == 'copy':
            return Builtin('copy', lambda I: Grid(self.h, self.w, PDict(self.d.parts)))
        raise Unsupported(f'array attribute {name}')

    def index(self, I, k, n):
        t = lib.to_num(I, k)
        if t is None:
            raise Unsupported('array index')
        if isinstance(k, int) and k >= 0:
            neg = False
        else:
            neg = I.branch(t < 0)
        if neg:
            t = t + n
        if not I.branch(And_(t >= 0, t < n)):
            raise PyExc(IndexError, ('array',))
        return z3.simplify(t)

    def getitem_(self, I, k):
        if isinstance(k, tuple) and len(k) == 2:
            return Row(self, self.index(I, k[0], self.h)).getitem_(I, k[1])
        if isinstance(k, (int, SN)):
            return Row(self, self.index(I, k, self.h))
        raise Unsupported('array index')

    def setitem_(self, I, k, v):
        if isinstance(k, tuple) and len(k) == 2:
            return Row(self, self.index(I, k[0], self.h)).setitem_(I, k[1], v)
        raise Unsupported('array assignment')

    def compare_(self, I, op, a, b):
        raise Unsupported('array order')

    def eqop_(self, I, op, a, b):
        f = getattr(I, 'array_cmp', None)
        if f is None:
            raise Unsupported('comparison of arrays')
        return f(I, a, b, op)

    def len_(self, I):
        return SN(self.h)

    def truth_(self, I):
        raise Unsupported('array as a truth value')


class Row(Val):
    def __init__(self, g, i):
        self.g, self.i = g, i

    def subst(self, pairs):
        return Row(self.g, z3.substitute(self.i, *pairs))

    def key(self, I, k):
        return (SN(self.i), SN(self.g.index(I, k, self.g.w)))

    def getitem_(self, I, k):
        v = I.dict_get(self.g.d, self.key(I, k))
        if v is _MISSING:
            raise Unsupported('array without the entry')
        return v

    def setitem_(self, I, k, v):
        I.dict_set(self.g.d, self.key(I, k), v)

    def len_(self, I):
        return SN(self.g.w)


def new_grid(I, name='W', h=None, w=None):
    """An arbitrary array of zeros and ones."""
    f = I.func(name, INT, INT, INT)
    h = I.const('H', INT) if h is None else h
    w = I.const('Wd', INT) if w is None else w
    i, j = I.const('i', INT), I.const('j', INT)
    I.assume(And_(h >= 1, w >= 1))
    I.assume(ForAll_([i, j], Or_(f(i, j) == 0, f(i, j) == 1)))
    d = PDict([Part((i, j), And_(i >= 0, i < h, j >= 0, j < w), ((SN(i), SN(j)), SN(f(i, j))))])
    return Grid(h, w, d), f


def cells(I, name):
    f = I.func(name, INT, INT, B)
    i, j = I.const('i', INT), I.const('j', INT)
    return PList([Part((i, j), f(i, j), (SN(i), SN(j)))]), f


def world(I, ctx, W, init=None, goal=None, prefix=None, offset=(0, 0)):
    cls = I.mod_get(I.load(MOD), 'GridWorld')
    o = Obj(cls)
    o.f['W'] = W
    o.f['init_list'] = PList() if init is None else init
    o.f['goal_list'] = PList() if goal is None else goal
    o.f['prefix'] = Sym(I.const('prefix', V), 'name') if prefix is None else prefix
    o.f['offset'] = offset
    return o


CELL = z3.Function('cell_name', INT, INT, V)
NEXT = z3.Function('next_cell_name', INT, INT, V)
CELL_R = z3.Function('cell_row', V, INT)
CELL_C = z3.Function('cell_col', V, INT)


class Names:
    """Reading of the names of cells: row r_k, column c_k, or Boolean b_k(i,j)."""

    def __init__(self, I, prefix, nonbool=None):
        self.prefix, self.nonbool = prefix, nonbool
        self.r = [I.const(f'r{k}', INT) for k in range(2)]
        self.c = [I.const(f'c{k}', INT) for k in range(2)]
        self.b = [I.func(f'b{k}', INT, INT, B) for k in range(2)]
        self.I = I

    def num(self, e):
        if e.op == 'num':
            return z3.IntVal(e.data)
        if e.op == 'neg':
            return -self.num(e.args[0])
        if e.op == 'hole' and isinstance(e.data, SN):
            return e.data.t
        raise Unsupported(f'number {e!r}')

    def atom(self, e, k=0):
        if k > 1:
            raise Unsupported('two steps ahead')
        if e.op == '=':
            a, b = e.args
            if a.op == 'var' and len(a.data) >= 2 and is_(a.data[0], self.prefix):
                s = ''.join(x if isinstance(x, str) else '?' for x in a.data[1:])
                if s in ('_r', '_c'):
                    return (self.r if s == '_r' else self.c)[k] == self.num(b)
        if e.op == 'hole' and isinstance(e.data, Sym) and e.data.t.decl().name() in ('cell_name', 'next_cell_name'):
            # contract of __getitem__
            if e.data.t.decl().name() == 'next_cell_name':
                k += 1
            if k > 1:
                raise Unsupported('two steps ahead')
            i, j = e.data.t.children()
            return And_(self.r[k] == i, self.c[k] == j) if self.nonbool else self.b[k](i, j)
        if e.op == 'var':
            ij = cell_name(self.prefix, e.data)
            if ij:
                return self.b[k](*ij)
        raise Unsupported(f'leaf {e!r}')

    def formula(self, s, name, top=True):
        return tmpl.formula(self.I, s, tmpl.Sem(self.atom), name, top)


def is_(a, b):
    return a is b or isinstance(a, Sym) and isinstance(b, Sym) and a.t.eq(b.t)


def cell_name(prefix, pieces):
    """(row, column) if the pieces are prefix_row_col"""
    ps = list(pieces)
    if len(ps) == 1 and isinstance(ps[0], Sym) and ps[0].t.decl().name() == 'cell_name':
        return tuple(ps[0].t.children())
    if len(ps) < 4 or not is_(ps[0], prefix):
        return None
    out, want = [], '_'
    for p in ps[1:]:
        if isinstance(p, str):
            q = p.split('_')
            if q[0] != '' or len(q) > 3:
                return None
            for n, x in enumerate(q[1:]):
                if x == '':
                    out.append(None)
                elif x.lstrip('-').isdigit():
                    out.append(z3.IntVal(int(x)))
                else:
                    return None
        elif isinstance(p, SN):
            if not out or out[-1] is not None:
                return None
            out[-1] = p.t
        elif isinstance(p, int):
            if not out or out[-1] is not None:
                return None
            out[-1] = z3.IntVal(p)
        else:
            return None
    return tuple(out) if len(out) == 2 and None not in out else None


def norm(k, n):
    return z3.If(k < 0, k + n, k)


def inrange(I, g, k):
    return And_(k[0].t >= -g.h, k[0].t < g.h, k[1].t >= -g.w, k[1].t < g.w)


def key(I, name='key'):
    return (SN(I.const(name + '0', INT)), SN(I.const(name + '1', INT)))


def out_of_range(ctx, I, out, g, k, name):
    """Raises ValueError exactly for keys out of range; True if it returned."""
    if isinstance(out, Raised):
        if out.name == 'ValueError':
            I.prove(Not_(inrange(I, g, k)), f'{name}: only keys out of range are rejected')
        else:
            ctx.no_raise(I, out, name)
        return False
    I.prove(inrange(I, g, k), f'{name}: keys out of range are rejected')
    return True


def g_names(ctx):
    for nonbool in (True, False):
        for nxt in (False, True):
            I = ctx.new()
            st = {}

            def setup(I):
                g, f = new_grid(I)
                k = key(I)
                off = key(I, 'off')
                o = world(I, ctx, g, offset=off)
                st.update(g=g, k=k, off=off, n=Names(I, o.f['prefix']))
                return lambda: I.call(ctx.resolve(f'{MOD}:GridWorld.__getitem__'), [o, k],
                                      dict(use_next=nxt, nonbool=nonbool))

            def post(I, out):
                g, k, n, off = st['g'], st['k'], st['n'], st['off']
                nm = f'cell name (next={nxt}, integers={nonbool})'
                if not out_of_range(ctx, I, out, g, k, nm):
                    return
                t = n.formula(out, nm, False)
                if t is None:
                    return
                i, j = norm(k[0].t, g.h) + off[0].t, norm(k[1].t, g.w) + off[1].t
                s = 1 if nxt else 0
                want = And_(n.r[s] == i, n.c[s] == j) if nonbool else n.b[s](i, j)
                I.prove(t == want, f'{nm}: true exactly at the cell')
            ctx.verify(f'__getitem__ {nonbool} {nxt}', setup, post, f'{MOD}:GridWorld.__getitem__')


def witness(vs, body, x, y):
    """Exists vs. body, with the instance (x, y) as a hint for the solver"""
    hint = z3.substitute(body, *zip(vs, (x, y))) if len(vs) == 2 else FALSE
    return Or_(hint, Exists_(vs, body))


def pieces_of(v):
    return v.pieces if isinstance(v, SStr) else (v,)


def g_state(ctx):
    for nonbool in (True, False):
        I = ctx.new()
        st = {}

        def setup(I):
            g, f = new_grid(I)
            k = key(I)
            off = key(I, 'off')
            o = world(I, ctx, g)
            st.update(g=g, k=k, off=off, p=o.f['prefix'])
            return lambda: I.call(ctx.resolve(f'{MOD}:GridWorld.state'), [o, k],
                                  dict(offset=off, nonbool=nonbool))

        def post(I, out):
            g, k, off, pre = st['g'], st['k'], st['off'], st['p']
            nm = f'state (integers={nonbool})'
            if not out_of_range(ctx, I, out, g, k, nm):
                return
            ci, cj = norm(k[0].t, g.h) + off[0].t, norm(k[1].t, g.w) + off[1].t
            if not isinstance(out, PDict):
                I.prove(FALSE, f'{nm}: a dictionary')
                return
            if nonbool:
                seen = set()
                for p in out.parts:
                    ps = pieces_of(p.val[0])
                    if p.vars or not is_(ps[0], pre) or len(ps) != 2 or ps[1] not in ('_r', '_c'):
                        I.prove(FALSE, f'{nm}: variables of the row and column')
                        return
                    seen.add(ps[1])
                    I.prove(lib.to_num(I, p.val[1]) == (ci if ps[1] == '_r' else cj), f'{nm}: value of {ps[1]}')
                I.prove(z3.BoolVal(seen == {'_r', '_c'}), f'{nm}: both variables')
                return
            x, y = I.const('x', INT), I.const('y', INT)
            got = []
            for p in out.parts:
                p = I.inst(p)
                ij = cell_name(pre, pieces_of(p.val[0]))
                if ij is None:
                    I.prove(FALSE, f'{nm}: variables are named by cells')
                    return
                v = lib.to_num(I, p.val[1])
                I.prove(ForAll_(p.vars, Implies_(p.cond, And_(
                    ij[0] - off[0].t >= 0, ij[0] - off[0].t < g.h, ij[1] - off[1].t >= 0, ij[1] - off[1].t < g.w,
                    v == z3.If(And_(ij[0] == ci, ij[1] == cj), z3.IntVal(1), z3.IntVal(0))))),
                    f'{nm}: value of the variable of each cell')
                got.append(witness(p.vars, And_(p.cond, ij[0] - off[0].t == x, ij[1] - off[1].t == y), x, y))
            I.prove(ForAll_([x, y], Implies_(And_(x >= 0, x < g.h, y >= 0, y < g.w), Or_(*got))),
                    f'{nm}: every cell has its variable')
        ctx.verify(f'state {nonbool}', setup, post, f'{MOD}:GridWorld.state')


def g_cells(ctx):
    """is_empty, mark_occupied, mark_empty, size."""
    I = ctx.new()
    st = {}
    for ext in (False, True):
        def setup(I):
            g, f = new_grid(I)
            k = key(I)
            o = world(I, ctx, g)
            st.update(g=g, k=k, f=f)
            return lambda: I.call(ctx.resolve(f'{MOD}:GridWorld.is_empty'), [o, k], dict(extend=ext))

        def post(I, out):
            g, k, f = st['g'], st['k'], st['f']
            nn = And_(k[0].t >= 0, k[1].t >= 0)
            if isinstance(out, Raised):
                I.prove(z3.BoolVal(out.name in ('IndexError', 'ValueError') and not ext), 'only a key out of range raises')
                I.prove(Not_(inrange(I, g, k)), 'only a key out of range raises')
                return
            t = tt(I, out)
            at = f(norm(k[0].t, g.h), norm(k[1].t, g.w)) == 0
            if ext:
                I.prove(t == And_(nn, k[0].t < g.h, k[1].t < g.w, at), 'empty exactly if inside and free')
            else:
                I.prove(And_(inrange(I, g, k), t == at), 'empty exactly if free')
        ctx.verify(f'is_empty {ext}', setup, post, f'{MOD}:GridWorld.is_empty')
    for nm, val in (('mark_occupied', 1), ('mark_empty', 0)):
        def setup(I):
            g, f = new_grid(I)
            k = key(I)
            I.assume(inrange(I, g, k))
            o = world(I, ctx, g)
            st.update(g=g, k=k, f=f)
            return lambda: I.call(ctx.resolve(f'{MOD}:GridWorld.{nm}'), [o, k], {})

        def post(I, out):
            g, k, f = st['g'], st['k'], st['f']
            if not ctx.no_raise(I, out, nm):
                return
            q = key(I, 'q')
            I.assume(And_(q[0].t >= 0, q[0].t < g.h, q[1].t >= 0, q[1].t < g.w))
            v = lib.to_num(I, g.getitem_(I, q))
            I.prove(v == z3.If(And_(q[0].t == norm(k[0].t, g.h), q[1].t == norm(k[1].t, g.w)),
                               z3.IntVal(val), f(q[0].t, q[1].t)), f'{nm} changes exactly the given cell')
        ctx.verify(nm, setup, post, f'{MOD}:GridWorld.{nm}')


# ---------------------------------------------------------------- equality
class GridCmp(Val):
    """Elementwise comparison of two arrays of the same shape."""

    def __init__(self, vs, dom, t):
        self.vs, self.dom, self.t = vs, dom, t

    def subst(self, pairs):
        return GridCmp(self.vs, z3.substitute(self.dom, *pairs), z3.substitute(self.t, *pairs))

    def getattr_(self, I, name):
        if name in ('any', 'all'):
            return Builtin(name, lambda I: (np_any if name == 'any' else np_all)(I, self))
        raise Unsupported('comparison of arrays')

    def truth_(self, I):
        raise Unsupported('array as truth value')


def np_any(I, c):
    return SB(Exists_(c.vs, And_(c.dom, c.t)))


def np_all(I, c):
    return SB(ForAll_(c.vs, Implies_(c.dom, c.t)))


def g_equality(ctx):
    I = ctx.new()
    st = {}

    def array_equal(I, a, b):
        return SB(And_(a.h == b.h, a.w == b.w, cmp(I, a, b, 'Eq').forall()))

    def cmp(I, a, b, op):
        if not (isinstance(a, Grid) and isinstance(b, Grid)):
            raise Unsupported('comparison of an array with another object')
        i, j = I.const('i', INT), I.const('j', INT)
        fa, fb = st['F'][id(a)], st['F'][id(b)]
        I.prove(And_(a.h == b.h, a.w == b.w), 'elementwise comparison of arrays of equal shape')
        t = fa(i, j) == fb(i, j)
        return GridCmp([i, j], And_(i >= 0, i < a.h, j >= 0, j < a.w), t if op == 'Eq' else Not_(t))
    I.ext['numpy'] = dict(any=Builtin('any', np_any), all=Builtin('all', np_all))
    I.array_cmp = cmp
    order = z3.Function('cells_at', V, INT, V)

    def setup(I):
        kind = I.choose([TRUE] * 4)
        gs = []
        st['F'] = {}
        for n in range(2):
            g, f = new_grid(I, f'W{n}')
            st['F'][id(g)] = f
            gs.append(g)
        # lists of cells, as sequences
        L = [seq(I, f'list{n}', I.const(f'n{n}', INT), V)[0] for n in range(4)]
        for p in L:
            I.assume(p.parts[0].ordered >= 0)
        a = world(I, ctx, gs[0] if kind in (0, 1) else None, L[0], L[1], Sym(I.const('pa', V), 'name'))
        b = world(I, ctx, gs[1] if kind in (0, 2) else None, L[2], L[3], Sym(I.const('pb', V), 'name'))
        st.update(kind=kind, a=a, b=b, gs=gs, L=L)
        fn = '__eq__' if I.choose([TRUE, TRUE]) == 0 else '__ne__'
        st['fn'] = fn
        return lambda: I.call(ctx.resolve(f'{MOD}:GridWorld.{fn}'), [a, b], {})

    def post(I, out):
        if not ctx.no_raise(I, out, 'equality'):
            return
        t = tt(I, out)
        if st['fn'] == '__ne__':
            t = Not_(t)
        k = st['kind']
        if k != 0:
            I.prove(t == z3.BoolVal(k == 3), 'worlds without cells are equal only to each other')
            return
        a, b = st['gs']
        L = st['L']

        def same(p, q):
            p, q = I.inst(p.parts[0]), I.inst(q.parts[0])
            i = p.vars[0]
            qv = z3.substitute(q.val.t, (q.vars[0], i))
            return And_(p.ordered == q.ordered, ForAll_([i], Implies_(And_(i >= 0, i < p.ordered), p.val.t == qv)))
        fa, fb = st['F'][id(a)], st['F'][id(b)]
        i, j = I.const('i', INT), I.const('j', INT)
        shape = And_(a.h == b.h, a.w == b.w)
        obst = ForAll_([i, j], Implies_(And_(i >= 0, i < a.h, j >= 0, j < a.w), fa(i, j) == fb(i, j)))
        I.prove(Implies_(t, shape), 'equal worlds have the same size')
        I.prove(Implies_(t, obst), 'equal worlds have the same obstacles')
        I.prove(Implies_(t, same(L[0], L[2])), 'equal worlds have the same initial cells')
        I.prove(Implies_(t, same(L[1], L[3])), 'equal worlds have the same goal cells')
        I.prove(Implies_(And_(shape, obst, same(L[0], L[2]), same(L[1], L[3])), t),
                'worlds with the same size, obstacles, initial and goal cells are equal')
    ctx.verify('equality', setup, post, f'{MOD}:GridWorld.__eq__')


# ---------------------------------------------------------------- reachability
def g_reach(ctx):
    reach_case(ctx, False)


def g_reach_keys(ctx):
    reach_case(ctx, True)


def reach_case(ctx, general):
    I = ctx.new(timeout_ms=20000)
    st = {}
    DIRS = [(1, 0), (-1, 0), (0, 1), (0, -1)]

    def free(x, y):
        g, f = st['g'], st['f']
        return And_(x >= 0, x < g.h, y >= 0, y < g.w, f(x, y) == 0)

    def adj(x, y, u, v):
        return Or_(*[And_(u == x + a, v == y + b) for a, b in DIRS])

    def mem(c, x, y):
        return I.member_parts((SN(x), SN(y)), c.parts)

    def distinct(c):
        fs = []
        ps = c.parts
        for i, p in enumerate(ps):
            for q in ps[i + 1:]:
                a, b = I.inst(p), I.inst(q)
                fs.append(ForAll_(list(a.vars) + list(b.vars), Not_(And_(a.cond, b.cond, I._eqf(a.val, b.val)))))
        return And_(*fs)

    def roles(fr, node):
        tested = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)}
        op = [k for k, v in fr.f.items() if isinstance(v, Container) and k in tested]
        cl = [k for k, v in fr.f.items() if isinstance(v, (PList, PSet)) and k not in tested and v.id > st['id0']]
        if len(op) != 1 or len(cl) != 1:
            raise Unsupported('work list and visited list of the search')
        return fr.f[op[0]], fr.f[cl[0]]

    def inv(cur=None, handled=()):
        O, C = st['O'], st['C']
        x, y, u, v = (I.const(n, INT) for n in ('x', 'y', 'u', 'v'))
        sx, sy = st['start']
        tx, ty = st['stop']
        isc = (lambda a, b: And_(a == cur[0], b == cur[1])) if cur else (lambda a, b: FALSE)
        known = lambda a, b: Or_(mem(O, a, b), mem(C, a, b), isc(a, b))
        R = st['R']
        fs = [('queued and visited cells are reachable free cells', ForAll_([x, y], Implies_(
            Or_(mem(O, x, y), mem(C, x, y)), And_(R(x, y), free(x, y))))),
            ('the start is queued or visited', known(sx, sy)),
            ('the target was not visited', Not_(mem(C, tx, ty))),
            ('free neighbors of visited cells are queued or visited', ForAll_([x, y, u, v], Implies_(
                And_(mem(C, x, y), adj(x, y, u, v), free(u, v)), known(u, v)))),
            ('queued cells are not visited (so the search ends)', ForAll_([x, y], Not_(And_(mem(O, x, y), mem(C, x, y))))),
            ('no cell is queued twice', distinct(O))]
        if cur:
            fs.append(('the current cell is neither queued nor visited',
                       And_(Not_(mem(O, *cur)), Not_(mem(C, *cur)))))
            for a, b in handled:
                fs.append((f'neighbor ({a}, {b}) of the current cell is handled', Implies_(
                    free(cur[0] + a, cur[1] + b), known(cur[0] + a, cur[1] + b))))
        return fs

    def havoc_cells(c, name):
        f = I.func(name, INT, INT, B)
        i, j = I.const('i', INT), I.const('j', INT)
        I.set_parts(c, [Part((i, j), f(i, j), (SN(i), SN(j)))])

    def while_rule(I, fr, node):
        if not fr.func.endswith('is_reachable'):
            return False
        st['O'], st['C'] = roles(fr, node)
        if general:
            # the keys were normalized: the rest is verified for normalized keys
            for lb, f in inv():
                I.prove(f, f'search: {lb} holds on entry')
            ps = list(ctx.resolve(f'{MOD}:GridWorld.is_reachable').node.args.args)
            for a, want in zip(ps[1:], (st['start'], st['stop'])):
                v = fr.f.get(a.arg)
                ok = isinstance(v, tuple) and len(v) == 2
                I.prove(And_(*[lib.to_num(I, z) == w for z, w in zip(v, want)]) if ok else FALSE,
                        f'search: the key {a.arg} is normalized')
            raise Infeasible()

        def havoc():
            havoc_cells(st['O'], 'open')
            havoc_cells(st['C'], 'closed')
            return [st['O'], st['C']]
        I.inv_while(fr, node, havoc, inv, 'search')
        return True

    def for_rule(I, fr, node, it):
        if not fr.func.endswith('is_reachable') or 'O' not in st or not isinstance(it, (PList, tuple)):
            return False
        vals = [p.val for p in it.parts] if isinstance(it, PList) else list(it)
        if not all(isinstance(v, tuple) and len(v) == 2 and all(isinstance(z, int) for z in v) for v in vals):
            raise Unsupported('neighbors of a cell')
        # the current cell: the tuple of numbers taken from the work list
        cs = [v for k, v in fr.f.items() if isinstance(v, tuple) and len(v) == 2 and v is st.get('popped')]
        if not cs:
            raise Unsupported('current cell of the search')
        cur = tuple(z.t for z in cs[0])

        def havoc():
            havoc_cells(st['O'], 'open')
            return [st['O']]

        def finv(p, done):
            k = vals.index(p.val)
            h = vals[:k] + ([p.val] if z3.is_true(done([])) else [])
            return inv(cur, h) + [('the current cell is a reachable free cell', And_(st['R'](*cur), free(*cur)))]
        I.inv_for(fr, node, it, havoc, finv, 'neighbors')
        return True

    orig_take = lib.take_any

    def setup(I):
        g, f = new_grid(I)
        s, t = key(I, 'start'), key(I, 'stop')
        o = world(I, ctx, g)
        if not general:
            I.assume(And_(*[And_(z[0].t >= 0, z[0].t < g.h, z[1].t >= 0, z[1].t < g.w) for z in (s, t)]))
        R = I.func('Reach', INT, INT, B)
        st.clear()
        st.update(g=g, f=f, s=s, t=t, R=R, o=o, d0=g.d.parts)
        st['start'] = (norm(s[0].t, g.h), norm(s[1].t, g.w)) if general else (s[0].t, s[1].t)
        st['stop'] = (norm(t[0].t, g.h), norm(t[1].t, g.w)) if general else (t[0].t, t[1].t)
        x, y, u, v = (I.const(n, INT) for n in ('x', 'y', 'u', 'v'))
        I.assume(Implies_(free(*st['start']), R(*st['start'])))
        I.assume(ForAll_([x, y, u, v], Implies_(And_(R(x, y), adj(x, y, u, v), free(u, v)), R(u, v))))
        st['id0'] = next(Heap._ids)
        return lambda: I.call(ctx.resolve(f'{MOD}:GridWorld.is_reachable'), [o, s, t], {})

    def post(I, out):
        g, R = st['g'], st['R']
        both = And_(inrange(I, g, st['s']), inrange(I, g, st['t']))
        if isinstance(out, Raised):
            if out.name == 'ValueError':
                I.prove(Not_(both), 'only keys out of range are rejected')
            else:
                ctx.no_raise(I, out, 'is_reachable')
            return
        I.prove(both, 'keys out of range are rejected')
        I.prove(z3.BoolVal(g.d.parts is st['d0']), 'the cells are unchanged')
        t = tt(I, out)
        tx, ty = st['stop']
        # rule induction for the least relation Reach (false if the start is occupied)
        x, y, u, v = (I.const(n, INT) for n in ('x', 'y', 'u', 'v'))
        if 'C' in st:
            C = st['C']
            phi = lambda a, b: Or_(t, mem(C, a, b))
        else:
            phi = lambda a, b: Or_(t, And_(free(*st['start']), Not_(free(*st['stop'])), free(a, b)))
        I.prove(Implies_(free(*st['start']), phi(*st['start'])), 'minimality of Reach: base')
        I.prove(ForAll_([x, y, u, v], Implies_(And_(phi(x, y), adj(x, y, u, v), free(u, v)), phi(u, v))),
                'minimality of Reach: step')
        I.assume(ForAll_([x, y], Implies_(R(x, y), phi(x, y))))
        I.prove(Implies_(t, R(tx, ty)), 'reachable only if a path of free cells exists')
        I.prove(Implies_(R(tx, ty), t), 'reachable if a path of free cells exists')

    def take(I, c):
        v = orig_take(I, c)
        if c is st.get('O'):
            st['popped'] = v
        return v
    lib.take_any = take
    I.while_rules[:] = [while_rule]
    for_rule.optional = True
    I.for_rules.append(for_rule)
    try:
        ctx.verify('is_reachable', setup, post, f'{MOD}:GridWorld.is_reachable')
    finally:
        lib.take_any = orig_take


# ---------------------------------------------------------------- GR(1) encoding
def g_spec(ctx):
    for nonbool in (True, False):
        for controlled in (True, False):
            spec_case(ctx, nonbool, controlled)


def spec_case(ctx, nonbool, controlled):
    I = ctx.new(timeout_ms=20000)
    I.feas_ground = True
    st = {}
    rec = []

    def make(I, *a, **kw):
        rec.append((a, kw))
        return Obj(ExtClass('GRSpec', {}))
    I.overrides['tulip.spec.form:GRSpec'] = Builtin('GRSpec', make)

    def name_contract(I, fn, args, kw):
        env = list(I.bind(fn, args, kw).values())
        o, k, nxt, nb = env
        if o is not st['o'] or nb is not nonbool or not isinstance(nxt, bool):
            raise Unsupported('name of a cell of another gridworld')
        g = st['g']
        t = [lib.to_num(I, z) for z in k]
        I.prove(And_(t[0] >= 0, t[0] < g.h, t[1] >= 0, t[1] < g.w), f'{nm}: names of cells inside the gridworld')
        off = [lib.to_num(I, z) for z in o.f['offset']]
        return Sym((NEXT if nxt else CELL)(t[0] + off[0], t[1] + off[1]), 'atom')
    I.contracts[f'{MOD}:GridWorld.__getitem__'] = name_contract
    a_, b_ = z3.Ints('na nb')
    I.axioms.append(z3.ForAll([a_, b_], z3.And(CELL_R(CELL(a_, b_)) == a_, CELL_C(CELL(a_, b_)) == b_),
                              patterns=[CELL(a_, b_)]))
    nm = f'spec(integers={nonbool}, controlled={controlled})'

    def setup(I):
        rec.clear()
        g, f = new_grid(I)
        init, fi = cells(I, 'init')
        goal, fg = cells(I, 'goal')
        i, j = I.const('i', INT), I.const('j', INT)
        inside = And_(i >= 0, i < g.h, j >= 0, j < g.w)
        I.assume(ForAll_([i, j], Implies_(Or_(fi(i, j), fg(i, j)), inside)))
        I.assume(Exists_([i, j], fi(i, j)))
        I.assume(Exists_([i, j], And_(inside, f(i, j) == 0)))
        off = key(I, 'off')
        off0 = key(I, 'own')
        o = world(I, ctx, g, init, goal, offset=off0)
        st.update(g=g, f=f, fi=fi, fg=fg, off=off, o=o, off0=off0, d0=g.d.parts, i0=init.parts, g0=goal.parts,
                  init=init, goal=goal)
        return lambda: I.call(ctx.resolve(f'{MOD}:GridWorld.spec'), [o],
                              dict(offset=off, controlled_dyn=controlled, nonbool=nonbool))

    def post(I, out):
        if not ctx.no_raise(I, out, nm):
            return
        g, f, o = st['g'], st['f'], st['o']
        if len(rec) != 1 or not isinstance(out, Obj) or out.cls.name != 'GRSpec':
            I.prove(FALSE, f'{nm}: one specification')
            return
        I.prove(z3.BoolVal(g.d.parts is st['d0'] and st['init'].parts is st['i0'] and st['goal'].parts is st['g0']
                           and o.f['offset'] == st['off0']), f'{nm}: the gridworld is unchanged')
        a, kw = rec[0]
        who = 'sys' if controlled else 'env'
        if a or set(kw) != {f'{who}_vars', f'{who}_init', f'{who}_safety', f'{who}_prog'}:
            I.prove(FALSE, f'{nm}: conditions of the player {who} only')
            return
        n = Names(I, o.f['prefix'], nonbool)
        oi, oj = (z3.IntVal(0), z3.IntVal(0)) if nonbool else (st['off'][0].t, st['off'][1].t)
        inside = lambda x, y: And_(x >= 0, x < g.h, y >= 0, y < g.w)
        free = lambda x, y: And_(inside(x, y), f(x, y) == 0)

        # variables
        vs = kw[f'{who}_vars']
        if nonbool:
            ok = isinstance(vs, PDict) and len(vs.parts) == 2
            for p in vs.parts if ok else ():
                ps = pieces_of(p.val[0])
                if p.vars or not is_(ps[0], n.prefix) or ps[1:] not in (('_r',), ('_c',)) or len(p.val[1]) != 2:
                    ok = False
                    break
                lo, hi = (lib.to_num(I, z) for z in p.val[1])
                I.prove(And_(lo == 0, hi == (g.h if ps[1] == '_r' else g.w) - 1), f'{nm}: domain of {ps[1]}')
            I.prove(z3.BoolVal(ok), f'{nm}: variables of row and column')
        else:
            if not isinstance(vs, PSet):
                I.prove(FALSE, f'{nm}: set of variables')
                return
            x, y = I.const('x', INT), I.const('y', INT)
            got = []
            for p in map(I.inst, vs.parts):
                ij = cell_name(n.prefix, pieces_of(p.val))
                if ij is None:
                    I.prove(FALSE, f'{nm}: variables named by cells')
                    return
                I.prove(ForAll_(p.vars, Implies_(p.cond, inside(ij[0] - oi, ij[1] - oj))), f'{nm}: variables of cells')
                got.append(Exists_(p.vars, And_(p.cond, ij[0] - oi == x, ij[1] - oj == y)))
            I.prove(ForAll_([x, y], Implies_(inside(x, y), Or_(*got))), f'{nm}: every cell has a variable')

        # transitions
        fs = conds(I, n, kw[f'{who}_safety'], f'{nm}: safety')
        if fs is None:
            return
        T = And_(*fs)
        r, c = (I.const('cur_r', INT), I.const('cur_c', INT))
        u, v = (I.const('nxt_r', INT), I.const('nxt_c', INT))
        hyp = And_(free(r, c), at(n, 0, r, c, oi, oj, inside, nonbool))
        near = Or_(And_(u == r, v == c), *[And_(u == r + a, v == c + b) for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1))])
        if nonbool:
            nxt = at(n, 1, u, v, oi, oj, inside, nonbool)
            I.prove(Implies_(And_(hyp, inside(u, v), nxt, T), And_(free(u, v), near)),
                    f'{nm}: only moves to the same or an adjacent free cell')
            I.prove(Implies_(And_(hyp, free(u, v), near, nxt), T), f'{nm}: every move to the same or an adjacent free cell')
            I.prove(Implies_(And_(T, inside(u, v), nxt), free(u, v)), f'{nm}: no occupied cell is entered')
        else:
            x, y = I.const('x', INT), I.const('y', INT)
            nxt = at(n, 1, u, v, oi, oj, inside, nonbool)
            I.prove(Implies_(And_(hyp, free(u, v), near, nxt), T), f'{nm}: every move to the same or an adjacent free cell')
            b1 = n.b[1]
            w = lambda x, y: b1(x + oi, y + oj)
            I.prove(Implies_(T, Exists_([x, y], And_(free(x, y), w(x, y)))), f'{nm}: some free cell is entered')
            I.prove(Implies_(And_(T, inside(u, v), w(u, v)), free(u, v)), f'{nm}: no occupied cell is entered')
            I.prove(Implies_(And_(T, free(u, v), w(u, v), free(x, y), w(x, y)), And_(x == u, y == v)),
                    f'{nm}: no two cells are entered')
            I.assume(And_(free(u, v), w(u, v)))
            I.assume(ForAll_([x, y], Implies_(And_(inside(x, y), w(x, y)), And_(x == u, y == v))))
            I.prove(Implies_(And_(hyp, T), near), f'{nm}: only moves to the same or an adjacent cell')

        # initial condition
        t = conds(I, n, kw[f'{who}_init'], f'{nm}: initial condition')
        if t is None:
            return
        t = And_(*t)
        cur = at(n, 0, r, c, oi, oj, inside, nonbool)
        I.prove(Implies_(And_(st['fi'](r, c), cur), t), f'{nm}: every initial cell is allowed initially')
        if nonbool:
            I.prove(Implies_(And_(cur, t), st['fi'](r, c)), f'{nm}: only initial cells are allowed initially')
        else:
            x, y = I.const('x', INT), I.const('y', INT)
            w0 = lambda x, y: n.b[0](x + oi, y + oj)
            I.prove(Implies_(t, Exists_([x, y], And_(st['fi'](x, y), w0(x, y), ForAll_([u, v], Implies_(
                And_(inside(u, v), w0(u, v)), And_(u == x, v == y)))))), f'{nm}: only initial cells are allowed initially')

        # progress: one condition for each goal
        pr = kw[f'{who}_prog']
        if not isinstance(pr, PList):
            I.prove(FALSE, f'{nm}: list of progress conditions')
            return
        if nonbool:
            val = lambda x, y: And_(n.r[0] == x, n.c[0] == y)
        else:
            val = lambda x, y: n.b[0](x + oi, y + oj)
        x, y = I.const('gx', INT), I.const('gy', INT)
        some = []
        for p in map(I.inst, pr.parts):
            t = n.formula(p.val, f'{nm}: progress', False)
            if t is None:
                return
            q = lambda a, b: And_(st['fg'](a, b), t == val(a, b))
            names = [z for z in p.vars]
            I.prove(ForAll_(p.vars, Implies_(p.cond, Or_(q(*names) if len(names) == 2 else FALSE, Exists_([x, y], q(x, y))))),
                    f'{nm}: each progress condition is a goal cell')
            body = And_(p.cond, t == val(x, y))
            hint = z3.substitute(body, *zip(names, (x, y))) if len(names) == 2 else FALSE
            some.append(Or_(hint, Exists_(p.vars, body)))
        I.prove(ForAll_([x, y], Implies_(st['fg'](x, y), Or_(*some))), f'{nm}: each goal cell has a progress condition')
    ctx.verify(f'spec {nonbool} {controlled}', setup, post, f'{MOD}:GridWorld.spec')


def at(n, k, r, c, oi, oj, inside, nonbool):
    """the valuation at step k is at cell (r, c)"""
    if nonbool:
        return And_(n.r[k] == r, n.c[k] == c)
    x, y = z3.Ints('at_x at_y')
    return ForAll_([x, y], Implies_(inside(x, y), n.b[k](x + oi, y + oj) == And_(x == r, y == c)))


def conds(I, n, v, name):
    if isinstance(v, (SStr, str, Sym)):
        t = n.formula(v, name)
        return None if t is None else [t]
    out = []
    for p in map(I.inst, v.parts):
        t = n.formula(p.val, name)
        if t is None:
            return None
        out.append(ForAll_(p.vars, Implies_(p.cond, t)))
    return out


# ---------------------------------------------------------------- coordinates from names
class CellText(Val):
    """Text prefix_row_col (or prefix_n_n); the prefix is arbitrary text."""

    def __init__(self, prefix, r, c):
        self.prefix, self.r, self.c = prefix, r, c

    def subst(self, pairs):
        return self

    def truth_(self, I):
        return TRUE

    def isinstance_(self, I, name):
        return name == 'str'

    def getattr_(self, I, name):
        if name in ('split', 'rsplit'):
            def split(I, sep=None, maxsplit=-1):
                if sep != '_':
                    raise Unsupported('split of a cell name')
                if name == 'rsplit' and maxsplit == 2:
                    return PList([single(self.prefix), single(self.r), single(self.c)])
                if maxsplit == -1:
                    return Frags(self)
                raise Unsupported('split of a cell name')
            return Builtin(name, split)
        raise Unsupported(f'text method {name}')


class Digits(Val):
    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return Digits(z3.substitute(self.t, *pairs))

    def eq_(self, I, a, b):
        o = b if a is self else a
        if isinstance(o, Digits):
            return o.t == self.t
        if isinstance(o, str) and not o.lstrip('-').isdigit():
            return FALSE
        raise Unsupported('comparison of digits')

    def int_(self, I):
        return SN(self.t)


class Frags(Val):
    def __init__(self, s):
        self.s = s

    def len_(self, I):
        n = I.const('nfrags', INT)
        I.assume(n >= 3)
        return SN(n)

    def getitem_(self, I, k):
        if k == -1:
            return self.s.c
        if k == -2:
            return self.s.r
        if isinstance(k, slice) and k.step is None and k.start in (None, 0) and k.stop == -2:
            return FragsPrefix(self.s)
        raise Unsupported('fragments of a cell name')


class FragsPrefix(Val):
    def __init__(self, s):
        self.s = s

    def join_(self, I, sep):
        if sep != '_':
            raise Unsupported('join of fragments')
        return self.s.prefix


def g_coord(ctx):
    I = ctx.new()
    st = {}

    def setup(I):
        pre = I.sym('prefix')
        r, c = I.const('row', INT), I.const('col', INT)
        st.update(pre=pre, r=r, c=c)
        return lambda: I.call(ctx.resolve(f'{MOD}:extract_coord'), [CellText(pre, Digits(r), Digits(c))], {})

    def post(I, out):
        if not ctx.no_raise(I, out, 'extract_coord'):
            return
        if not (isinstance(out, tuple) and len(out) == 3):
            I.prove(FALSE, 'prefix, row and column are returned')
            return
        a, b = lib.to_num(I, out[1]), lib.to_num(I, out[2])
        I.prove(z3.BoolVal(out[0] is st['pre']), 'the prefix of the name')
        I.prove(And_(a == st['r'], b == st['c']), 'the coordinates of the name')
    ctx.verify('extract_coord', setup, post, f'{MOD}:extract_coord')

    def setup2(I):
        return lambda: I.call(ctx.resolve(f'{MOD}:extract_coord'), [CellText(I.sym('prefix'), 'n', 'n')], {})

    def post2(I, out):
        if ctx.no_raise(I, out, 'extract_coord'):
            I.prove(z3.BoolVal(isinstance(out, tuple) and out[1:] == (-1, -1)), 'the special cell n_n')
    ctx.verify('extract_coord n_n', setup2, post2, f'{MOD}:extract_coord')


GROUPS = [Group('names', g_names), Group('state', g_state), Group('cells', g_cells), Group('equality', g_equality),
          Group('reachability', g_reach), Group('reachability keys', g_reach_keys), Group('coordinates', g_coord)]
ASSUMED = ['numpy arrays of integers: shape, indexing, item assignment, elementwise comparison, any, all, copy',
           'cell entries are 0 or 1 (other entries are rejected by dumps)',
           'rule induction for the least relation Reach',
           'GRSpec stores its arguments as its variables and conditions (C12)']
BOUNDED = ['GridWorld.spec (contract written, deductive run exceeds the time budget): bounded executions',
           'textual form (loads, dumps, copy) and add_trolls, scale: bounded executions']
