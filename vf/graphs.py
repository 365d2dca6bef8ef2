"""Models of external objects: sequences, costs, heapq and networkx graphs.

These are assumed contracts on dependencies (heapq, networkx.MultiDiGraph).
"""
import z3
from .core import *
from .core import _MISSING
from .interp import ExtClass, Builtin, PropVal, Bound
from . import lib

NIL = z3.Const('nil', V)
SNOC = z3.Function('snoc', V, V, V)


class PSeq(Heap):
    """A list known only as a mathematical sequence (term of sort V)."""
    __slots__ = ('parts',)

    def __init__(self, t):
        super().__init__()
        self.parts = t if isinstance(t, tuple) else (single(Sym(t, 'seq')),)

    @property
    def t(self):
        return self.parts[0].val.t

    def subst(self, pairs):
        t = z3.substitute(self.t, *pairs)
        if t.eq(self.t):
            return self
        w = PSeq(t)
        w.frozen = True
        return w

    def copy_(self, I):
        return PSeq(self.t)

    def truth_(self, I):
        return self.t != NIL

    def eq_(self, I, a, b):
        return seq_term(I, a) == seq_term(I, b)

    def getattr_(self, I, name):
        if name == 'append':
            return Builtin('append', lambda I, v: I.set_parts(
                self, (single(Sym(SNOC(self.t, I.enc_.enc(v)), 'seq')),)))
        if name == 'copy':
            return Builtin('copy', lambda I: PSeq(self.t))
        raise Unsupported(f'sequence method {name}')

    def binop_(self, I, op, a, b):
        if op == 'Add' and a is self and isinstance(b, PList) and lib.is_plain(b):
            t = self.t
            for p in b.parts:
                t = SNOC(t, I.enc_.enc(p.val))
            return PSeq(t)
        raise Unsupported('sequence operation')

    def iter_(self, I):
        raise Unsupported('iteration over a sequence')


def seq_term(I, l):
    """Term of a list value."""
    if isinstance(l, PSeq):
        return l.t
    if isinstance(l, (PList, tuple)):
        t = NIL
        for p in (l.parts if isinstance(l, PList) else [single(x) for x in l]):
            if p.vars or not z3.is_true(p.cond):
                raise Unsupported('sequence of symbolic length')
            t = SNOC(t, I.enc_.enc(p.val))
        return t
    raise Unsupported('not a sequence')


# ------------------------------------------------------------ costs
COST = z3.DeclareSort('Cost')
CLE = z3.Function('cle', COST, COST, z3.BoolSort())
CADD = z3.Function('cadd', COST, COST, COST)
CZERO = z3.Const('czero', COST)
CINF = z3.Const('cinf', COST)
CTRUTH = z3.Function('ctruth', COST, z3.BoolSort())


def cost_axioms():
    a, b, c = z3.Consts('ca cb cc', COST)
    Q = z3.ForAll
    return [
        Q([a], CLE(a, a)),
        Q([a, b], z3.Implies(z3.And(CLE(a, b), CLE(b, a)), a == b)),
        Q([a, b, c], z3.Implies(z3.And(CLE(a, b), CLE(b, c)), CLE(a, c))),
        Q([a, b], z3.Or(CLE(a, b), CLE(b, a))),
        Q([a, b, c], z3.Implies(CLE(a, b), CLE(CADD(a, c), CADD(b, c)))),
        Q([a, b], CADD(a, b) == CADD(b, a)),
        Q([a], CADD(a, CZERO) == a),
    ]


def cost_lemma():
    """Derived: adding a non-negative cost does not decrease (proved below)."""
    a, b = z3.Consts('cla clb', COST)
    return z3.ForAll([a, b], z3.Implies(CLE(CZERO, a), CLE(b, CADD(a, b))), patterns=[CADD(a, b)])


def prove_cost_lemma(I):
    a, b = z3.Consts('pla plb', COST)
    mono = CLE(CADD(CZERO, b), CADD(a, b))
    I.prove(z3.Implies(CLE(CZERO, a), mono), 'cost lemma: monotone instance')
    I.prove(z3.Implies(mono, CLE(b, CADD(a, b))), 'cost lemma: zero')


class CostVal(Val):
    """A cost in a totally ordered commutative monoid (C01: numbers, vectors)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'Cost({self.t})'

    def subst(self, pairs):
        return CostVal(z3.substitute(self.t, *pairs))

    @staticmethod
    def of(I, v):
        if isinstance(v, CostVal):
            return v.t
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v == 0:
            return CZERO
        if isinstance(v, float) and v == float('inf'):
            return CINF
        raise Unsupported(f'{v!r} as a cost')

    def binop_(self, I, op, a, b):
        if op == 'Add':
            return CostVal(CADD(CostVal.of(I, a), CostVal.of(I, b)))
        raise Unsupported('cost operation')

    def compare_(self, I, op, a, b):
        x, y = CostVal.of(I, a), CostVal.of(I, b)
        return SB({'Lt': z3.Not(CLE(y, x)), 'LtE': CLE(x, y), 'Gt': z3.Not(CLE(x, y)),
                   'GtE': CLE(y, x)}[op])

    def truth_(self, I):
        return CTRUTH(self.t)

    def eq_(self, I, a, b):
        try:
            return CostVal.of(I, a) == CostVal.of(I, b)
        except Unsupported:
            return FALSE


# ------------------------------------------------------------ heapq
def heap_push(I, h, item):
    I.add_parts(h, [single(item)])


def heap_le(I, a, b):
    """a <= b is implied for a popped minimum, on the first components only."""
    x, y = a[0] if isinstance(a, tuple) else a, b[0] if isinstance(b, tuple) else b
    if any(isinstance(v, CostVal) for v in (x, y)):
        return CLE(CostVal.of(I, x), CostVal.of(I, y))
    p, q = lib.to_num(I, x), lib.to_num(I, y)
    if p is None or q is None:
        raise Unsupported('heap order')
    return p <= q


def heap_pop(I, h):
    I.note_read(h)
    if not I.branch(I.parts_nonempty(h.parts)):
        raise PyExc(IndexError, ('heappop',))
    old = h.parts
    v = lib.take_any(I, h)
    for p in old:
        q = I.inst(p)
        I.assume(ForAll_(q.vars, Implies_(q.cond, heap_le(I, v, q.val))))
    return v


def install(I):
    I.ext['heapq'] = dict(heappush=Builtin('heappush', heap_push), heappop=Builtin('heappop', heap_pop),
                          heapify=Builtin('heapify', lambda I, h: None))
