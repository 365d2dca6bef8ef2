"""Semantics of Python builtins and of the few external functions /repo uses.

These are assumed contracts (trusted base): each models the documented
behaviour of the builtin on finite collections.
"""
import itertools
import z3
from .core import *
from .core import _MISSING, Join
from . import core


class ReprHole(Val):
    """repr(v) inside a string template."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def subst(self, pairs):
        return ReprHole(subst(self.v, pairs))

    def __repr__(self):
        return f'repr({self.v!r})'


class StrHole(Val):
    """str(v) of a structured value inside a string template."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def subst(self, pairs):
        return StrHole(subst(self.v, pairs))

    def __repr__(self):
        return f'str({self.v!r})'


class StarArgs(Val):
    """`*family` of symbolic length in a call."""
    def __init__(self, parts, once=False):
        self.parts = parts
        self.once = once        # the elements are used only in this call

    def read(self, I, v):
        if self.once and isinstance(v, It):
            return v.parts
        return I.iter_parts(v)


class PTup(Container):
    """Tuple of symbolic length."""
    __slots__ = ()


class Range(Val):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def subst(self, pairs):
        f = lambda t: z3.substitute(t, *pairs)
        return Range(f(self.lo), f(self.hi))

    def iter_(self, I):
        i = I.const('i', z3.IntSort())
        n = z3.If(self.hi > self.lo, self.hi - self.lo, z3.IntVal(0))
        lo0 = z3.is_int_value(self.lo) and self.lo.as_long() == 0
        val = SN(i) if lo0 else SN(self.lo + i)
        # cond uses hi directly when lo == 0: 0 <= i < hi
        c = And_(i >= 0, i < (self.hi if lo0 else self.hi - self.lo))
        return [Part((i,), c, val, n)]

    def contains_(self, I, v):
        n = I.num(v)
        if n is None:
            return FALSE
        return And_(self.lo <= n, n < self.hi)


def str_pieces(I, x):
    if isinstance(x, str):
        return [x]
    if isinstance(x, SStr):
        return list(x.pieces)
    if isinstance(x, Sym) and x.kind in I.str_kinds:
        return str_pieces(I, I.str_kinds[x.kind](x))
    if isinstance(x, (Sym, SN)):
        return [x]
    if isinstance(x, (bool, int, float)) or x is None:
        return [str(x)]
    if isinstance(x, SB):
        return ['True' if I.branch(x.t) else 'False']
    if isinstance(x, Obj):
        m = I.class_lookup(x.cls, '__str__')
        if m is not _MISSING:
            return str_pieces(I, I.call(m, [x], {}))
        m = I.class_lookup(x.cls, '__repr__')
        if m is not _MISSING:
            return str_pieces(I, I.call(m, [x], {}))
    return [StrHole(x)]


def mkstr(pieces):
    s = SStr(pieces)
    if all(isinstance(p, str) for p in s.pieces):
        return ''.join(s.pieces)
    return s


def is_plain(c):
    return all(not p.vars and z3.is_true(p.cond) for p in c.parts)


# ------------------------------------------------------------ numbers
def to_num(I, v):
    n = I.num(v)
    if n is None and isinstance(v, bool):
        return z3.IntVal(int(v))
    if n is None and isinstance(v, SB):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if n is None and isinstance(v, Sym) and v.kind == 'int':
        return I.enc_.int_proj()(v.t)
    return n


def _conc_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def binop(I, op, a, b):
    for o in (a, b):
        if hasattr(o, 'binop_'):
            return o.binop_(I, op, a, b)
    if is_conc(a) and is_conc(b) and a is not None and b is not None:
        try:
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b,
                    'Div': lambda: a / b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b,
                    'Pow': lambda: a ** b}[op]()
        except KeyError:
            pass
        except (TypeError, ZeroDivisionError, ValueError) as e:
            from .interp import PyExc as PE
            raise PyExc(type(e), ())
    x, y = to_num(I, a), to_num(I, b)
    if x is not None and y is not None and op in ('Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'Mod'):
        if op == 'Add':
            return SN(x + y)
        if op == 'Sub':
            return SN(x - y)
        if op == 'Mult':
            return SN(x * y)
        if op == 'Div':
            if I.branch(y == 0):
                raise PyExc(ZeroDivisionError, ())
            return SN(z3.ToReal(x) / y if z3.is_int(x) else x / y)
        if op == 'FloorDiv' and z3.is_int(x) and z3.is_int_value(y) and y.as_long() > 0:
            return SN(x / y)
        if op == 'Mod' and z3.is_int(x) and z3.is_int_value(y) and y.as_long() > 0:
            return SN(x % y)
    r = dunder(I, op, a, b)
    if r is not _MISSING:
        return r
    if op == 'Add':
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return mkstr(str_pieces(I, a) + str_pieces(I, b))
        if isinstance(a, (str, SStr)) and isinstance(b, Sym) or isinstance(a, Sym) and isinstance(b, (str, SStr)):
            return mkstr(str_pieces(I, a) + str_pieces(I, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (tuple, PTup)) and isinstance(b, (tuple, PTup)):
            return PTup(tuple(I.iter_parts(a)) + tuple(I.iter_parts(b)))
        if isinstance(a, PList) and isinstance(b, PList):
            I.note_read(a)
            I.note_read(b)
            return PList(a.parts + b.parts)
    if op == 'Mult':
        if isinstance(b, (PList, tuple, str)) and isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and isinstance(a, PList) and is_plain(a):
            return PList(a.parts * b)
        if isinstance(b, int) and isinstance(a, tuple):
            return a * b
        if isinstance(b, SN) and isinstance(a, PList) and is_plain(a) and len(a.parts) == 1:
            i = I.const('i', z3.IntSort())
            return PList([Part((i,), And_(i >= 0, i < b.t), a.parts[0].val,
                               z3.If(b.t > 0, b.t, z3.IntVal(0)))])
    if isinstance(a, PSet) and isinstance(b, PSet):
        I.note_read(a)
        I.note_read(b)
        if op == 'BitOr':
            return PSet(a.parts + b.parts)
        if op == 'BitAnd':
            return PSet(I.filter_parts(a.parts, lambda v: I.member_parts(v, b.parts)))
        if op == 'Sub':
            return PSet(I.filter_parts(a.parts, lambda v: Not_(I.member_parts(v, b.parts))))
        if op == 'BitXor':
            return PSet(I.filter_parts(a.parts, lambda v: Not_(I.member_parts(v, b.parts)))
                        + I.filter_parts(b.parts, lambda v: Not_(I.member_parts(v, a.parts))))
    if op == 'BitOr' and (isinstance(a, (type,)) or hasattr(a, 'mro') or hasattr(a, 'ts')):
        from .interp import UnionT
        ts = []
        for x in (a, b):
            ts += x.ts if isinstance(x, UnionT) else [x]
        return UnionT(ts)
    if op == 'BitOr' and isinstance(a, PDict) and isinstance(b, PDict):
        d = PDict(a.parts)
        I.dict_update(d, b.parts)
        return d
    if op == 'Mod' and isinstance(a, str):
        return percent(I, a, b)
    if a is None or b is None:
        raise PyExc(TypeError, ('unsupported operand',))
    if (x is not None) != (y is not None):
        o = b if x is not None else a
        if isinstance(o, (str, SStr, tuple, Container, Obj)):
            raise PyExc(TypeError, ('unsupported operand',))
    raise Unsupported(f'binary {op} on {a!r} and {b!r}')


def percent(I, fmt, b):
    args = list(b) if isinstance(b, tuple) else [b]
    out = []
    i = 0
    while i < len(fmt):
        if fmt[i] == '%':
            c = fmt[i + 1]
            if c == 's':
                out += str_pieces(I, args.pop(0))
            elif c == 'd':
                out += str_pieces(I, args.pop(0))
            elif c == '%':
                out.append('%')
            else:
                raise Unsupported('% format')
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return mkstr(out)


_DUNDER = dict(Add='add', Sub='sub', Mult='mul', Div='truediv', BitOr='or', BitAnd='and',
               BitXor='xor', Mod='mod', FloorDiv='floordiv')


def dunder(I, op, a, b):
    nm = _DUNDER.get(op)
    if nm is None:
        return _MISSING
    if isinstance(a, Obj):
        m = I.class_lookup(a.cls, f'__{nm}__')
        if m is not _MISSING:
            r = I.call(m, [a, b], {})
            if r is not NotImplemented:
                return r
    if isinstance(b, Obj):
        m = I.class_lookup(b.cls, f'__r{nm}__')
        if m is not _MISSING:
            r = I.call(m, [b, a], {})
            if r is not NotImplemented:
                return r
    if isinstance(a, Obj) or isinstance(b, Obj):
        for x in (a, b):
            if isinstance(x, Obj) and '%dict' in x.f:
                return _MISSING
        raise PyExc(TypeError, ('unsupported operand',))
    return _MISSING


def augop(I, op, a, b):
    if isinstance(a, PList) and op == 'Add':
        I.add_parts(a, I.iter_parts(b))
        return a
    if isinstance(a, PSet) and isinstance(b, PSet):
        if op == 'BitOr':
            I.note_read(b)
            I.add_parts(a, b.parts)
            return a
        r = binop(I, op, a, b)
        I.set_parts(a, r.parts)
        return a
    if isinstance(a, Obj):
        m = I.class_lookup(a.cls, f'__i{_DUNDER.get(op, "?")}__')
        if m is not _MISSING:
            return I.call(m, [a, b], {})
    return binop(I, op, a, b)


def compare(I, op, a, b):
    if op == 'Is' or op == 'IsNot':
        r = is_(I, a, b)
        if op == 'IsNot':
            r = (not r) if isinstance(r, bool) else Not_(r)
        return r if isinstance(r, bool) else SB(r)
    if op in ('Eq', 'NotEq'):
        for o in (a, b):
            if hasattr(o, 'eqop_'):
                return o.eqop_(I, op, a, b)
        r = I.eq(a, b)
        if isinstance(r, bool):
            return r if op == 'Eq' else not r
        r = z3.simplify(r) if z3.is_true(r) or z3.is_false(r) else r
        if op == 'NotEq':
            r = Not_(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SB(r)
    if op in ('In', 'NotIn'):
        r = I.contains(b, a)
        if isinstance(r, bool):
            return r if op == 'In' else not r
        return SB(r if op == 'In' else Not_(r))
    for o in (a, b):
        if hasattr(o, 'compare_'):
            return o.compare_(I, op, a, b)
    if is_conc(a) and is_conc(b):
        try:
            return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b,
                    'GtE': lambda: a >= b}[op]()
        except TypeError:
            raise PyExc(TypeError, ())
    x, y = to_num(I, a), to_num(I, b)
    if x is not None and y is not None:
        return SB({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if isinstance(a, PSet) and isinstance(b, PSet):
        I.note_read(a)
        I.note_read(b)
        f, g = I.subset_formula(a.parts, b.parts), I.subset_formula(b.parts, a.parts)
        return SB({'LtE': f, 'GtE': g, 'Lt': And_(f, Not_(g)), 'Gt': And_(g, Not_(f))}[op])
    if isinstance(a, Obj) or isinstance(b, Obj):
        r = rich(I, op, a, b)
        if r is not _MISSING:
            return r
        raise PyExc(TypeError, ('unorderable',))
    if a is None or b is None or (x is None) != (y is None) and not isinstance(a, Sym) and not isinstance(b, Sym):
        raise PyExc(TypeError, ('unorderable',))
    raise Unsupported(f'compare {op} {a!r} {b!r}')


_CMP = dict(Lt='__lt__', LtE='__le__', Gt='__gt__', GtE='__ge__')
_REFL = dict(Lt='__gt__', LtE='__ge__', Gt='__lt__', GtE='__le__')


def rich(I, op, a, b):
    if isinstance(a, Obj):
        m = I.class_lookup(a.cls, _CMP[op])
        if m is not _MISSING:
            r = I.call(m, [a, b], {})
            if r is not NotImplemented:
                return r
    if isinstance(b, Obj):
        m = I.class_lookup(b.cls, _REFL[op])
        if m is not _MISSING:
            r = I.call(m, [b, a], {})
            if r is not NotImplemented:
                return r
    return _MISSING


def total_ordering(I, cls):
    """functools.total_ordering: documented derivation from the defined root."""
    ops = [o for o in ('__lt__', '__le__', '__gt__', '__ge__') if o in cls.ns]
    if not ops:
        raise PyExc(ValueError, ())
    root = max(o for o in ops) if False else next(
        o for o in ('__lt__', '__le__', '__gt__', '__ge__') if o in cls.ns)

    def call_root(I, a, b):
        return I.call(cls.ns[root], [a, b], {})

    def tt(I, v):
        t = I.truth_term(v)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def eq(I, a, b):
        t = I.eq(a, b)
        return z3.BoolVal(t) if isinstance(t, bool) else t
    conv = {
        '__lt__': {'__gt__': lambda r, e: And_(Not_(r), Not_(e)),
                   '__le__': lambda r, e: Or_(r, e),
                   '__ge__': lambda r, e: Not_(r)},
        '__le__': {'__ge__': lambda r, e: Or_(Not_(r), e),
                   '__lt__': lambda r, e: And_(r, Not_(e)),
                   '__gt__': lambda r, e: Not_(r)},
        '__gt__': {'__lt__': lambda r, e: And_(Not_(r), Not_(e)),
                   '__ge__': lambda r, e: Or_(r, e),
                   '__le__': lambda r, e: Not_(r)},
        '__ge__': {'__le__': lambda r, e: Or_(Not_(r), e),
                   '__gt__': lambda r, e: And_(r, Not_(e)),
                   '__lt__': lambda r, e: Not_(r)}}[root]
    for nm, f in conv.items():
        if nm in cls.ns:
            continue

        def mk(f):
            def g(I, a, b):
                r = call_root(I, a, b)
                if r is NotImplemented:
                    return r
                return SB(f(tt(I, r), eq(I, a, b)))
            return g
        from .interp import Builtin
        cls.ns[nm] = Builtin(f'{cls.name}.{nm}', mk(f))
    return None


def is_(I, a, b):
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
            return I._eqf(a, b)
        if isinstance(a, SB) or isinstance(b, SB):
            return I._eqf(a, b)
        return a is b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return I._eqf(a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        raise Unsupported('identity of opaque value')
    if isinstance(a, tuple) and isinstance(b, tuple):
        return I._eqf(a, b)
    return a is b


# ------------------------------------------------------------ isinstance
_ABC = {'Iterable': (Container, tuple, str, SStr), 'Container': (Container, tuple, str, SStr),
        'Sized': (Container, tuple, str, SStr), 'Collection': (Container, tuple, str, SStr),
        'Sequence': (PList, PTup, tuple, str, SStr), 'Mapping': (PDict,), 'Set': (PSet,),
        'Hashable': (tuple, str, SStr, int, float, type(None), Sym, SN, SB),
        'Callable': (), 'Iterator': (It,), 'MutableMapping': (PDict,), 'Generator': (It,)}


def isinstance_(I, v, T):
    from .interp import UnionT, ClassVal, ExtClass, Opaque, FuncVal, Builtin, Bound
    if isinstance(T, (tuple,)):
        return _or(I, [isinstance_(I, v, t) for t in T])
    if isinstance(T, UnionT):
        return _or(I, [isinstance_(I, v, t) for t in T.ts])
    if T is None:
        return v is None
    if isinstance(T, Opaque):
        nm = T.name.split('.')[-1]
        if nm in _ABC:
            if isinstance(v, It) and nm in ('Container', 'Sized', 'Collection'):
                return False
            if isinstance(v, Sym) and v.kind in I.hash_kinds:
                return sym_isinstance(I, v, nm)
            if isinstance(v, _ABC[nm]):
                return True
            if isinstance(v, Sym):
                return sym_isinstance(I, v, nm)
            if isinstance(v, Obj):
                need = {'Iterable': '__iter__', 'Container': '__contains__', 'Sized': '__len__',
                        'Hashable': '__hash__', 'Callable': '__call__'}.get(nm)
                if nm in ('Mapping', 'MutableMapping') and '%dict' in v.f:
                    return True
                if need and I.class_lookup(v.cls, need) is not _MISSING:
                    return True
                if '%dict' in v.f and nm in ('Iterable', 'Container', 'Sized', 'Collection'):
                    return True
                if nm == 'Hashable':
                    return True
                if nm == 'Collection':
                    return all(I.class_lookup(v.cls, x) is not _MISSING
                               for x in ('__iter__', '__contains__', '__len__'))
                return False
            if hasattr(v, 'iter_') and nm in ('Iterable', 'Collection', 'Sized', 'Container'):
                return True
            if nm == 'Callable':
                return isinstance(v, (FuncVal, Builtin, Bound, ClassVal))
            return False
        raise Unsupported(f'isinstance of {T.name}')
    if isinstance(T, (ClassVal, ExtClass)):
        if isinstance(v, Obj):
            return any(c is T for c in I.mro(v.cls))
        if isinstance(v, Sym):
            return sym_isinstance(I, v, T.name)
        if hasattr(v, 'isinstance_'):
            return v.isinstance_(I, T.name)
        return False
    if isinstance(T, type) and hasattr(v, 'isinstance_'):
        return v.isinstance_(I, T.__name__)
    if isinstance(T, type):
        if isinstance(v, Sym):
            return sym_isinstance(I, v, T.__name__)
        if isinstance(v, Obj):
            return any(isinstance(c, type) and issubclass(c, T) for c in I.mro(v.cls)) or T is object
        k = pytype(v)
        if k is None:
            if isinstance(v, (ClassVal,)) and T is type:
                return True
            return T is object
        return issubclass(k, T)
    if type(T).__name__ == 'UnionType':
        return _or(I, [isinstance_(I, v, t) for t in T.__args__])
    raise Unsupported(f'isinstance {T!r}')


def sym_isinstance(I, v, name):
    ks = I.kind_isinstance.get(v.kind)
    if ks is not None:
        return name in ks
    f = z3.Function('isinst_' + name, V, z3.BoolSort())
    return SB(f(v.t))


def _or(I, xs):
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    return SB(Or_(*[x.t for x in xs]))


def pytype(v):
    if is_conc(v):
        return type(v)
    if isinstance(v, SB):
        return bool
    if isinstance(v, SN):
        return int if z3.is_int(v.t) else float
    if isinstance(v, SStr):
        return str
    if isinstance(v, (tuple, PTup)):
        return tuple
    if isinstance(v, PList):
        return list
    if isinstance(v, PSet):
        return frozenset if v.frozen and False else set
    if isinstance(v, PDict):
        return dict
    if isinstance(v, slice):
        return slice
    return None


# ------------------------------------------------------------ builtin functions
def b_len(I, c):
    if isinstance(c, (tuple, str)):
        return len(c)
    if isinstance(c, Range):
        return SN(z3.If(c.hi > c.lo, c.hi - c.lo, z3.IntVal(0)))
    if isinstance(c, Obj):
        m = I.class_lookup(c.cls, '__len__')
        if m is not _MISSING:
            return I.call(m, [c], {})
        if '%dict' in c.f:
            c = c.f['%dict']
    if isinstance(c, Container):
        I.note_read(c)
        if isinstance(c, It):
            raise PyExc(TypeError, ('no len',))
        ps = c.parts
        if isinstance(c, (PList, PTup)):
            if is_plain(c):
                return len(ps)
            tot = []
            for p in ps:
                if not p.vars:
                    tot.append(z3.If(p.cond, z3.IntVal(1), z3.IntVal(0)))
                elif p.ordered is not None:
                    tot.append(p.ordered)
                else:
                    tot = None
                    break
            if tot is not None:
                return SN(tot[0] if len(tot) == 1 else z3.Sum(tot))
        else:
            if not ps:
                return 0
            if is_plain(c):
                if len(ps) == 1:
                    return 1
                vals = [p.val for p in ps]
                if isinstance(c, PDict):
                    return len(ps)
                if all(is_conc(v) for v in vals):
                    return len(set(vals))
        n = I.const('len', z3.IntSort())
        I.assume(n >= 0)
        I.assume((n == 0) == Not_(I.parts_nonempty(ps)))
        if isinstance(c, (PList, PTup)):
            two = []
            for i, p in enumerate(ps):
                for q in ps[i:]:
                    a, b = I.inst(p), I.inst(q)
                    if p is q and not a.vars:
                        continue
                    neq = Or_(*[x != y for x, y in zip(a.vars, b.vars)]) if p is q else TRUE
                    two.append(Exists_(list(a.vars) + list(b.vars), And_(a.cond, b.cond, neq)))
            I.assume((n >= 2) == Or_(*two))
        if isinstance(c, (PSet, PDict)):
            key = (lambda v: v[0]) if isinstance(c, PDict) else (lambda v: v)
            two = []
            for i, p in enumerate(ps):
                for q in ps[i:]:
                    a, b = I.inst(p), I.inst(q)
                    if not a.vars and not b.vars and p is q:
                        continue
                    two.append(Exists_(list(a.vars) + list(b.vars),
                                       And_(a.cond, b.cond, Not_(I._eqf(key(a.val), key(b.val))))))
            I.assume((n >= 2) == Or_(*two))
        return SN(n)
    if isinstance(c, SStr):
        n = I.const('len', z3.IntSort())
        I.assume(n >= 0)
        t = I.str_nonempty(c)
        I.assume((n == 0) == Not_(t if not isinstance(t, bool) else z3.BoolVal(t)))
        return SN(n)
    if is_conc(c) or isinstance(c, SN):
        raise PyExc(TypeError, ('no len',))
    if hasattr(c, 'len_'):
        return c.len_(I)
    raise Unsupported(f'len of {c!r}')


def b_range(I, *a):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        if all(isinstance(x, int) for x in a):
            return PList([single(i) for i in range(*a)])
        raise Unsupported('range step')
    if isinstance(lo, int) and isinstance(hi, int):
        return PList([single(i) for i in range(lo, hi)])
    x, y = to_num(I, lo), to_num(I, hi)
    if x is None or y is None:
        raise PyExc(TypeError, ())
    return Range(x, y)


def b_zip(I, *its, **kw):
    partss = [I.iter_parts(i) for i in its]
    if all(all(not p.vars and z3.is_true(p.cond) for p in ps) for ps in partss):
        return It([single(tuple(x)) for x in zip(*[[p.val for p in ps] for ps in partss])])
    # all ordered single families (or repeat)
    norm = []
    for ps in partss:
        if len(ps) == 1 and ps[0].ordered is not None:
            norm.append(I.inst(ps[0]))
        else:
            raise Unsupported('zip of unordered collections')
    i = I.const('i', z3.IntSort())
    vals = tuple(subst(p.val, [(p.vars[0], i)]) for p in norm)
    lens = [p.ordered for p in norm]
    n = lens[0]
    for m in lens[1:]:
        if not m.eq(n):
            n = z3.If(m < n, m, n)
    conds = [z3.substitute(p.cond, (p.vars[0], i)) for p in norm]
    cond = And_(*_dedup(conds))
    return It([Part((i,), cond, vals, n)])


def _dedup(fs):
    out = []
    for f in fs:
        if not any(f.eq(g) for g in out):
            out.append(f)
    return out


def b_enumerate(I, it, start=0):
    ps = I.iter_parts(it)
    if all(not p.vars and z3.is_true(p.cond) for p in ps):
        return It([single((k + start, p.val)) for k, p in enumerate(ps)])
    if len(ps) == 1 and ps[0].ordered is not None:
        p = I.inst(ps[0])
        return It([Part(p.vars, p.cond, (SN(p.vars[0] + start) if start else SN(p.vars[0]), p.val), p.ordered)])
    # unknown order: an enumeration is an injective numbering
    out = []
    idx = z3.Function(f'enum!{next(I.n)}', z3.IntSort(), *[], z3.IntSort())
    if len(ps) == 1:
        p = I.inst(ps[0])
        f = I.func('enumidx', *[v.sort() for v in p.vars], z3.IntSort())
        q = I.inst(p)
        t1, t2 = f(*p.vars), f(*q.vars)
        I.assume(ForAll_(list(p.vars), Implies_(p.cond, t1 >= 0)))
        I.assume(ForAll_(list(p.vars) + list(q.vars), Implies_(
            And_(p.cond, q.cond, t1 == t2), And_(*[a == b for a, b in zip(p.vars, q.vars)]))))
        return It([Part(p.vars, p.cond, (SN(t1 + start) if start else SN(t1), p.val))])
    raise Unsupported('enumerate')


def b_any(I, it):
    fs = []
    for p in I.iter_parts(it):
        p = I.inst(p)
        t = I.truth_term(p.val)
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        fs.append(Exists_(p.vars, And_(p.cond, t)))
    return _mkbool(Or_(*fs))


def b_all(I, it):
    fs = []
    for p in I.iter_parts(it):
        p = I.inst(p)
        t = I.truth_term(p.val)
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        fs.append(ForAll_(p.vars, Implies_(p.cond, t)))
    return _mkbool(And_(*fs))


def _mkbool(f):
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SB(f)


def b_map(I, f, *its):
    if len(its) == 1:
        ps = I.iter_parts(its[0])
        wrap = lambda v: [v]
    else:
        z = b_zip(I, *its)
        ps = z.parts
        wrap = lambda v: list(v)
    return map_parts(I, ps, lambda v: I.call(f, wrap(v), {}), 'map')


def map_parts(I, ps, fn, label):
    out = PList()

    class _N:
        pass
    from .interp import Frame
    fr = Frame(I.load('builtins'))
    I.loop_over(PList(ps), lambda v: I.add_parts(out, [single(fn(v))]), fr, set(), [], label)
    # keep order when the body is unconditional
    return It(out.parts)


def b_filter(I, f, it):
    out = PList()
    from .interp import Frame
    fr = Frame(I.load('builtins'))

    def body(v):
        if I.truth(v if f is None else I.call(f, [v], {})):
            I.add_parts(out, [single(v)])
    I.loop_over(PList(I.iter_parts(it)), body, fr, set(), [], 'filter')
    return It(out.parts)


def b_sum(I, it, start=0):
    ps = I.iter_parts(it)
    acc = start
    for p in ps:
        if p.vars or not z3.is_true(p.cond):
            return sum_family(I, ps, start)
        acc = binop(I, 'Add', acc, p.val)
    return acc


class FamSum(Val):
    """Sum over a symbolic family (kept symbolic)."""
    def __init__(self, start, parts):
        self.start, self.parts = start, parts

    def subst(self, pairs):
        return FamSum(subst(self.start, pairs), tuple(subst_part(p, pairs) for p in self.parts))


def sum_family(I, ps, start):
    return FamSum(start, tuple(ps))


def b_sorted(I, it, key=None, reverse=False):
    ps = I.iter_parts(it)
    if all(not p.vars and z3.is_true(p.cond) and is_conc(p.val) for p in ps) and key is None:
        return PList([single(x) for x in sorted((p.val for p in ps), reverse=bool(reverse))])
    if all(not p.vars and z3.is_true(p.cond) for p in ps) and key is not None:
        ks = [I.call(key, [p.val], {}) for p in ps]
        if all(isinstance(k, (int, str)) for k in ks):
            o = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(reverse))
            return PList([single(ps[i].val) for i in o])
        if len(ps) > 1:
            raise Unsupported('sorted by symbolic keys')
    return PList([Part(p.vars, p.cond, p.val) for p in ps])


def b_reversed(I, c):
    ps = I.iter_parts(c)
    if all(not p.vars and z3.is_true(p.cond) for p in ps):
        return It(list(reversed(ps)))
    out = []
    for p in reversed(ps):
        if p.vars and p.ordered is not None:
            p = I.inst(p)
            i = p.vars[0]
            r = p.ordered - 1 - i
            p = Part((i,), z3.substitute(p.cond, (i, r)), subst(p.val, [(i, r)]), p.ordered)
        out.append(p)       # the order of other families is unspecified
    return It(out)


def _minmax(lt):
    def f(I, *args, **kw):
        it = args[0] if len(args) == 1 else tuple(args)
        key = kw.get('key')
        ps = I.iter_parts(it)
        if not ps:
            if 'default' in kw:
                return kw['default']
            raise PyExc(ValueError, ())
        if all(not p.vars and z3.is_true(p.cond) for p in ps):
            best = ps[0].val
            for p in ps[1:]:
                a = I.call(key, [p.val], {}) if key else p.val
                b = I.call(key, [best], {}) if key else best
                if I.truth(compare(I, lt, a, b)):
                    best = p.val
            return best
        if not I.branch(I.parts_nonempty(ps)):
            if 'default' in kw:
                return kw['default']
            raise PyExc(ValueError, ())
        k = I.pick([Exists_(p.vars, p.cond) for p in ps]) if len(ps) > 1 else 0
        b = I.inst(ps[k])
        I.assume(b.cond)
        kb = I.call(key, [b.val], {}) if key else b.val
        nb = to_num(I, kb)
        if nb is None:
            raise Unsupported('min/max of non-numbers')
        for p in ps:
            q = I.inst(p)
            kq = I.call(key, [q.val], {}) if key else q.val
            nq = to_num(I, kq)
            if nq is None:
                raise Unsupported('min/max of non-numbers')
            I.assume(ForAll_(q.vars, Implies_(q.cond, nb <= nq if lt == 'Lt' else nb >= nq)))
        return b.val
    return f


def b_isinstance(I, v, T):
    return isinstance_(I, v, T)


def b_hasattr(I, o, name):
    try:
        return I._getattr(o, name) is not _MISSING
    except PyExc as e:
        if e.cls is AttributeError:
            return False
        raise


def b_getattr(I, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported('getattr with symbolic name')
    return I.getattr_(o, name, d[0] if d else _MISSING)


def b_setattr(I, o, name, v):
    I.setattr_(o, name, v)


def b_iter(I, it):
    if isinstance(it, It):
        return it
    return It(I.iter_parts(it))


class Count(Val):
    """itertools.count: an unspecified integer per call of next (over-approximation)."""
    def next_(self, I):
        return SN(I.const('count', z3.IntSort()))

    def subst(self, pairs):
        return self


def b_next(I, it, *d):
    if hasattr(it, 'next_'):
        return it.next_(I)
    if not isinstance(it, It):
        raise PyExc(TypeError, ('not an iterator',))
    I.note_read(it)
    ps = list(it.parts)
    if not ps:
        if d:
            return d[0]
        raise PyExc(StopIteration, ())
    p = ps[0]
    if not p.vars and z3.is_true(p.cond):
        I.set_parts(it, ps[1:])
        return p.val
    if not I.branch(I.parts_nonempty(ps)):
        if d:
            return d[0]
        raise PyExc(StopIteration, ())
    if len(ps) == 1 and p.ordered is not None:
        q = I.inst(p)
        i = q.vars[0]
        first = subst(q.val, [(i, z3.IntVal(0))])
        I.assume(z3.substitute(q.cond, (i, z3.IntVal(0))))
        I.set_parts(it, [Part((i,), And_(i >= 0, z3.substitute(q.cond, (i, i + 1))),
                              subst(q.val, [(i, i + 1)]), q.ordered - 1)])
        return first
    # arbitrary element; the rest is everything else
    k = I.pick([Exists_(q.vars, q.cond) for q in ps]) if len(ps) > 1 else 0
    q = I.inst(ps[k])
    I.assume(q.cond)
    rest = []
    for j, r in enumerate(ps):
        r = I.inst(r)
        if j == k:
            c = And_(r.cond, Not_(And_(*[a == b for a, b in zip(r.vars, q.vars)])))
            if not r.vars:
                continue
            rest.append(Part(r.vars, c, r.val))
        else:
            rest.append(r)
    I.set_parts(it, rest)
    return q.val


def b_abs(I, x):
    if _conc_num(x):
        return abs(x)
    n = to_num(I, x)
    return SN(z3.If(n >= 0, n, -n))


def b_repr(I, x):
    if is_conc(x):
        return repr(x)
    return SStr([ReprHole(x)])


def b_callable(I, x):
    from .interp import FuncVal, Builtin, Bound, ClassVal
    return isinstance(x, (FuncVal, Builtin, Bound, ClassVal))


def b_id(I, x):
    raise Unsupported('id')


def b_hash(I, x):
    I.check_hashable(x)
    if isinstance(x, PDict) or isinstance(x, PList):
        raise PyExc(TypeError, ())
    return SN(I.const('hash', z3.IntSort()))


def b_print(I, *a, **k):
    return None


def b_iskind(I, *a):
    raise Unsupported('builtin')


def _B():
    from .interp import Builtin
    d = dict(len=b_len, range=b_range, zip=b_zip, enumerate=b_enumerate, any=b_any, all=b_all,
             map=b_map, filter=b_filter, sum=b_sum, sorted=b_sorted, reversed=b_reversed,
             min=_minmax('Lt'), max=_minmax('Gt'), isinstance=b_isinstance, hasattr=b_hasattr,
             getattr=b_getattr, setattr=b_setattr, iter=b_iter, next=b_next, abs=b_abs,
             repr=b_repr, callable=b_callable, id=b_id, hash=b_hash, print=b_print)
    return {k: Builtin(k, f) for k, f in d.items()}


# ------------------------------------------------------------ type constructors
def call_type(I, T, args, kw):
    if T is list:
        return PList(I.iter_parts(args[0])) if args else PList()
    if T is tuple:
        if not args:
            return ()
        ps = I.iter_parts(args[0])
        if all(not p.vars and z3.is_true(p.cond) for p in ps):
            return tuple(p.val for p in ps)
        return PTup(ps)
    if T in (set, frozenset):
        if not args:
            return PSet()
        ps = I.iter_parts(args[0])
        for p in ps:
            I.check_hashable_part(p)
        return PSet([Part(p.vars, p.cond, p.val) for p in ps])
    if T is dict:
        d = PDict()
        if args:
            a = args[0]
            if hasattr(a, 'asdict_') and not kw:
                return a.asdict_(I)
            if isinstance(a, Obj) and '%dict' in a.f:
                a = a.f['%dict']
            if isinstance(a, PDict):
                I.note_read(a)
                d.parts = a.parts
            else:
                fill_dict(I, d, I.iter_parts(a))
        for k, v in kw.items():
            if k == '**':
                I.dict_update(d, v.parts)
            else:
                I.dict_set(d, k, v)
        return d
    if T is bool:
        t = I.truth_term(args[0]) if args else False
        return t if isinstance(t, bool) else SB(t)
    if T is str:
        if not args:
            return ''
        return mkstr(str_pieces(I, args[0]))
    if T is int:
        a = args[0] if args else 0
        if isinstance(a, (int, float, str)):
            try:
                return int(a)
            except ValueError:
                raise PyExc(ValueError, ())
        if hasattr(a, 'int_'):
            return a.int_(I)
        n = to_num(I, a)
        if n is not None and z3.is_int(n):
            return SN(n)
        if isinstance(a, Sym):
            f = z3.Function('intof', V, z3.IntSort())
            g = z3.Function('isint', V, z3.BoolSort())
            if not I.branch(g(a.t)):
                raise PyExc(ValueError, ('int',))
            return SN(f(a.t))
        raise Unsupported(f'int({a!r})')
    if T is float:
        a = args[0]
        if isinstance(a, (int, float, str)):
            return float(a)
        n = to_num(I, a)
        if n is not None:
            return SN(z3.ToReal(n) if z3.is_int(n) else n)
        raise Unsupported('float()')
    if T is type and len(args) == 1:
        a = args[0]
        if isinstance(a, Obj):
            return a.cls
        k = pytype(a)
        if k is not None:
            return k
        raise Unsupported('type()')
    if T is object:
        return Obj(object)
    if T in (map, filter, zip, enumerate, reversed, range):
        return BUILTINS[T.__name__].fn(I, *args, **kw)
    if T is property:
        from .interp import PropVal
        return PropVal(args[0])
    if issubclass(T, BaseException):
        return Obj(T)
    raise Unsupported(f'call of type {T}')


def fill_dict(I, d, ps):
    """dict(iterable of pairs); later pairs override."""
    for p in ps:
        if not p.vars and z3.is_true(p.cond):
            k, v = I.unpack(p.val, 2)
            I.dict_set(d, k, v)
        else:
            q = I.inst(p)
            k, v = I.unpack(q.val, 2)
            # keys of a family must determine the value
            r = I.inst(q)
            k2, v2 = I.unpack(r.val, 2)
            I.dict_update(d, [Part(q.vars, q.cond, (k, v))])


# ------------------------------------------------------------ methods
def type_method(I, c, name):
    """Methods of builtin types reached through a class MRO (dict subclasses)."""
    from .interp import Builtin
    if c is dict:
        f = DICT_METHODS.get(name)
        if f is not None:
            return Builtin('dict.' + name, lambda I, o, *a, _f=f, **k: _f(
                I, o.f['%dict'] if isinstance(o, Obj) else o, *a, **k))
        if name == '__init__':
            def ini(I, o, *a, **k):
                d = call_type(I, dict, a, k)
                I.dict_update(o.f['%dict'], d.parts)
            return Builtin('dict.__init__', ini)
        if name in ('__setitem__', '__getitem__', '__delitem__', '__contains__', '__iter__', '__len__',
                    '__eq__'):
            tbl = {
                '__setitem__': lambda I, o, k, v: I.setitem(_d(o), k, v),
                '__getitem__': lambda I, o, k: I.getitem(_d(o), k),
                '__delitem__': lambda I, o, k: I.delitem(_d(o), k),
                '__contains__': lambda I, o, k: SB(_bb(I.contains(_d(o), k))),
                '__iter__': lambda I, o: It(I.iter_parts(_d(o))),
                '__len__': lambda I, o: b_len(I, _d(o)),
                '__eq__': lambda I, o, p: _mkbool(_bb(I._eqf(_d(o), _d(p)))),
            }
            return Builtin('dict.' + name, tbl[name])
        return _MISSING
    if c is object:
        if name == '__init__':
            return _MISSING
        if name == '__setattr__':
            return _MISSING
    return _MISSING


def _d(o):
    return o.f['%dict'] if isinstance(o, Obj) and '%dict' in o.f else o


def _bb(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def attr(I, o, name):
    from .interp import Builtin, Bound
    tbl = None
    if isinstance(o, PList):
        tbl = LIST_METHODS
    elif isinstance(o, PSet):
        tbl = SET_METHODS
    elif isinstance(o, PDict):
        tbl = DICT_METHODS
    elif isinstance(o, (str, SStr)) or isinstance(o, Sym) and o.kind in ('str', 'formula', 'strlit', 'accstr'):
        tbl = STR_METHODS
    elif isinstance(o, (tuple, PTup)):
        tbl = TUPLE_METHODS
    elif isinstance(o, type):
        if o is dict and name == 'fromkeys':
            return Builtin('fromkeys', dict_fromkeys)
        if o is set and name == 'union':
            return Builtin('set.union', lambda I, *ss: _union_star(I, ss))
        if o is object and name == '__setattr__':
            return Builtin('object.__setattr__', lambda I, ob, n, v: I.set_field(ob, n, v))
        v = type_method(I, o, name)
        if v is not _MISSING:
            return v
        tt = {list: LIST_METHODS, set: SET_METHODS, str: STR_METHODS, dict: DICT_METHODS}.get(o)
        if tt and name in tt:
            return Builtin(name, tt[name])
        if name == '__name__':
            return o.__name__
        if name == '__init__' and o is object:
            return Builtin('object.__init__', lambda I, *a, **k: None)
        raise Unsupported(f'attribute {name} of {o}')
    elif isinstance(o, Sym):
        raise Unsupported(f'attribute {name} of opaque value of kind {o.kind}')
    if tbl is not None and name in tbl:
        return Bound(o, Builtin(name, tbl[name]))
    if tbl is not None:
        real = {id(LIST_METHODS): list, id(SET_METHODS): set, id(DICT_METHODS): dict,
                id(STR_METHODS): str, id(TUPLE_METHODS): tuple}[id(tbl)]
        if hasattr(real, name):
            raise Unsupported(f'method {real.__name__}.{name}')
    return _MISSING


def _union_star(I, ss):
    out = []
    for s in ss:
        if isinstance(s, StarArgs):
            for p in s.parts:
                q = I.inst(p)
                for r in s.read(I, q.val):
                    r = I.inst(r)
                    out.append(Part(tuple(q.vars) + tuple(r.vars), And_(q.cond, r.cond), r.val))
        else:
            out += I.iter_parts(s)
    return PSet(out)


def dict_fromkeys(I, it, v=None):
    d = PDict()
    ps = I.iter_parts(it)
    d.parts = tuple(Part(p.vars, p.cond, (p.val, v)) for p in ps)
    return d


# lists
def l_append(I, l, v):
    I.add_parts(l, [single(v)])


def l_extend(I, l, it):
    I.add_parts(l, I.iter_parts(it))


def l_remove(I, l, v):
    c = I.contains(l, v)
    if not I.branch_b(c):
        raise PyExc(ValueError, ('list.remove',))
    # removes the first equal item; sound only if at most one equal item
    eqs = I.filter_parts(l.parts, lambda x: I._eqf(x, v))
    two = []
    for i, p in enumerate(eqs):
        if p.vars:
            a, b = I.inst(p), I.inst(p)
            two.append(Exists_(list(a.vars) + list(b.vars), And_(
                a.cond, b.cond, Or_(*[x != y for x, y in zip(a.vars, b.vars)]))))
        for q in eqs[i + 1:]:
            a, b = I.inst(p), I.inst(q)
            two.append(Exists_(list(a.vars) + list(b.vars), And_(a.cond, b.cond)))
    if two and I.branch(Or_(*two)):
        raise Unsupported('list.remove with duplicates')
    I.set_parts(l, I.filter_parts(l.parts, lambda x: Not_(I._eqf(x, v))))


def l_pop(I, l, i=-1):
    I.note_read(l)
    ps = list(l.parts)
    if is_plain(l):
        if isinstance(i, int):
            try:
                v = ps.pop(i).val
            except IndexError:
                raise PyExc(IndexError, ())
            I.set_parts(l, ps)
            return v
        raise Unsupported('pop index')
    if ps and not ps[-1].vars and z3.is_true(ps[-1].cond) and i == -1:
        v = ps.pop().val
        I.set_parts(l, ps)
        return v
    if not I.branch(I.parts_nonempty(ps)):
        raise PyExc(IndexError, ())
    return take_any(I, l)


def take_any(I, c):
    """Remove and return an arbitrary element (sound for any order)."""
    ps = list(c.parts)
    k = I.pick([Exists_(q.vars, q.cond) for q in ps]) if len(ps) > 1 else 0
    q = I.inst(ps[k])
    I.assume(q.cond)
    if isinstance(c, PSet):
        I.set_parts(c, I.filter_parts(ps, lambda x: Not_(I._eqf(x, q.val))))
    else:
        rest = []
        for j, r in enumerate(ps):
            r = I.inst(r)
            if j == k:
                if not r.vars:
                    continue
                rest.append(Part(r.vars, And_(r.cond, Not_(And_(*[a == b for a, b in zip(r.vars, q.vars)]))), r.val))
            else:
                rest.append(r)
        I.set_parts(c, rest)
    return q.val


def l_index(I, l, v):
    I.note_read(l)
    if is_plain(l) and is_conc(v) and all(is_conc(p.val) for p in l.parts):
        xs = [p.val for p in l.parts]
        if v in xs:
            return xs.index(v)
        raise PyExc(ValueError, ())
    ps = l.parts
    if is_plain(l):
        for k, p in enumerate(ps):
            if I.branch(I._eqf(p.val, v)):
                return k
        raise PyExc(ValueError, ())
    if len(ps) == 1 and ps[0].ordered is not None:
        p = I.inst(ps[0])
        i = p.vars[0]
        e = And_(p.cond, I._eqf(p.val, v))
        if not I.branch(Exists_([i], e)):
            raise PyExc(ValueError, ())
        I.assume(e)
        j = I.const('j', z3.IntSort())
        I.assume(ForAll_([j], Implies_(And_(0 <= j, j < i), Not_(z3.substitute(e, (i, j))))))
        return SN(i)
    raise Unsupported('list.index')


def l_insert(I, l, i, v):
    ps = list(l.parts)
    if i == 0 or is_plain(l) and isinstance(i, int):
        ps.insert(i, single(v))
        I.set_parts(l, ps)
        return
    raise Unsupported('list.insert')


def l_copy(I, l):
    I.note_read(l)
    return PList(l.parts)


def l_clear(I, l):
    I.set_parts(l, ())


def l_count(I, l, v):
    I.note_read(l)
    return b_len(I, PList(I.filter_parts(l.parts, lambda x: I._eqf(x, v))))


def l_sort(I, l, key=None, reverse=False):
    r = b_sorted(I, l, key=key, reverse=reverse)
    I.set_parts(l, r.parts)


def l_reverse(I, l):
    I.set_parts(l, list(b_reversed(I, PList(l.parts)).parts))


LIST_METHODS = dict(append=l_append, extend=l_extend, remove=l_remove, pop=l_pop, index=l_index,
                    insert=l_insert, copy=l_copy, clear=l_clear, count=l_count, sort=l_sort,
                    reverse=l_reverse)


# sets
def s_add(I, s, v):
    I.set_add(s, v)


def s_update(I, s, *its):
    for it in its:
        ps = I.iter_parts(it)
        for p in ps:
            I.check_hashable_part(p)
        I.add_parts(s, [Part(p.vars, p.cond, p.val) for p in ps])


def s_discard(I, s, v):
    I.set_parts(s, I.filter_parts(s.parts, lambda x: Not_(I._eqf(x, v))))


def s_remove(I, s, v):
    if not I.branch_b(I.contains(s, v)):
        raise PyExc(KeyError, ())
    s_discard(I, s, v)


def s_pop(I, s):
    I.note_read(s)
    if not I.branch(I.parts_nonempty(s.parts)):
        raise PyExc(KeyError, ())
    return take_any(I, s)


def _setof(I, it):
    return PSet([Part(p.vars, p.cond, p.val) for p in I.iter_parts(it)])


def s_union(I, s, *its):
    I.note_read(s)
    if any(isinstance(x, StarArgs) for x in its):
        return _union_star(I, (s,) + its)
    ps = list(s.parts)
    for it in its:
        ps += _setof(I, it).parts
    return PSet(ps)


def s_inter(I, s, *its):
    r = s
    for it in its:
        r = binop(I, 'BitAnd', r, _setof(I, it))
    return PSet(r.parts)


def s_diff(I, s, *its):
    r = s
    for it in its:
        r = binop(I, 'Sub', r, _setof(I, it))
    return PSet(r.parts)


def s_diff_update(I, s, *its):
    I.set_parts(s, s_diff(I, s, *its).parts)


def s_inter_update(I, s, *its):
    I.set_parts(s, s_inter(I, s, *its).parts)


SET_METHODS = dict(add=s_add, update=s_update, discard=s_discard, remove=s_remove, pop=s_pop,
                   union=s_union, intersection=s_inter, difference=s_diff, copy=lambda I, s: PSet(s.parts),
                   difference_update=s_diff_update, intersection_update=s_inter_update,
                   symmetric_difference=lambda I, s, t: binop(I, 'BitXor', s, _setof(I, t)),
                   issubset=lambda I, s, t: compare(I, 'LtE', s, _setof(I, t)),
                   issuperset=lambda I, s, t: compare(I, 'GtE', s, _setof(I, t)),
                   isdisjoint=lambda I, s, t: _mkbool(Not_(I.parts_nonempty(s_inter(I, s, t).parts))),
                   clear=lambda I, s: I.set_parts(s, ()))


# dicts
def d_get(I, d, k, default=None):
    v = I.dict_get(d, k)
    return default if v is _MISSING else v


def d_items(I, d):
    I.note_read(d)
    return PList(d.parts)


def d_keys(I, d):
    I.note_read(d)
    return PSet([Part(p.vars, p.cond, p.val[0]) for p in d.parts])


def d_values(I, d):
    I.note_read(d)
    return PList([Part(p.vars, p.cond, p.val[1], p.ordered) for p in d.parts])


def d_update(I, d, other=None, **kw):
    if other is not None:
        o = _d(other)
        if isinstance(o, PDict):
            I.note_read(o)
            I.dict_update(d, o.parts)
        else:
            fill_dict(I, d, I.iter_parts(o))
    for k, v in kw.items():
        if k == '**':
            I.dict_update(d, v.parts)
        else:
            I.dict_set(d, k, v)


def d_pop(I, d, k, *default):
    v = I.dict_get(d, k)
    if v is _MISSING:
        if default:
            return default[0]
        raise PyExc(KeyError, ())
    I.dict_del(d, k)
    return v


def d_setdefault(I, d, k, default=None):
    v = I.dict_get(d, k)
    if v is _MISSING:
        I.dict_set(d, k, default)
        return default
    return v


DICT_METHODS = dict(get=d_get, items=d_items, keys=d_keys, values=d_values, update=d_update, pop=d_pop,
                    setdefault=d_setdefault, copy=lambda I, d: PDict(d.parts),
                    clear=lambda I, d: I.set_parts(d, ()))


# strings
def st_join(I, s, it):
    if hasattr(it, 'join_'):
        return it.join_(I, s)
    ps = I.iter_parts(it)
    if all(not p.vars and z3.is_true(p.cond) for p in ps):
        out = []
        for k, p in enumerate(ps):
            if k:
                out += str_pieces(I, s)
            if not isinstance(p.val, (str, SStr, Sym)):
                raise PyExc(TypeError, ('join of non-string',))
            out += str_pieces(I, p.val)
        return mkstr(out)
    if not isinstance(s, str):
        raise Unsupported('join with symbolic separator')
    for p in ps:
        if not isinstance(p.val, (str, SStr, Sym)):
            raise PyExc(TypeError, ('join of non-string',))
    return SStr([Join(s, tuple(ps))])


def _conc_str(name):
    def f(I, s, *a):
        if isinstance(s, str) and all(isinstance(x, (str, int)) or x is None for x in a):
            r = getattr(s, name)(*a)
            if isinstance(r, list):
                return PList([single(x) for x in r])
            return r
        if isinstance(a and a[0], tuple) and isinstance(s, str):
            return getattr(s, name)(*a)
        raise Unsupported(f'str.{name} on symbolic string')
    return f


def st_format(I, s, *a, **k):
    import string
    if not isinstance(s, str):
        raise Unsupported('format')
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if spec or conv:
            raise Unsupported('format spec')
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            if field not in k:
                raise Unsupported('format field')
            v = k[field]
        out += str_pieces(I, v)
    return mkstr(out)


def st_startswith(I, s, p):
    if isinstance(s, str):
        return s.startswith(p)
    if isinstance(s, SStr) and s.pieces and isinstance(s.pieces[0], str) and len(s.pieces[0]) >= len(p):
        return s.pieces[0].startswith(p)
    raise Unsupported('startswith on symbolic string')


def st_endswith(I, s, p):
    if isinstance(s, str):
        return s.endswith(p)
    if isinstance(s, SStr) and s.pieces and isinstance(s.pieces[-1], str) and len(s.pieces[-1]) >= len(p):
        return s.pieces[-1].endswith(p)
    raise Unsupported('endswith on symbolic string')


STR_METHODS = dict(join=st_join, format=st_format, startswith=st_startswith, endswith=st_endswith)
for _n in ('replace', 'strip', 'lstrip', 'rstrip', 'split', 'upper', 'lower', 'isdigit', 'isspace',
           'splitlines', 'find', 'index', 'count', 'isalpha', 'isalnum', 'isidentifier', 'title',
           'ljust', 'rjust', 'zfill', 'partition', 'rsplit', 'removeprefix', 'removesuffix'):
    STR_METHODS[_n] = _conc_str(_n)


def t_index(I, t, v):
    return l_index(I, PList([single(x) for x in t]), v)


TUPLE_METHODS = dict(index=t_index, count=lambda I, t, v: l_count(I, PList([single(x) for x in t]), v))
for _t in (LIST_METHODS, SET_METHODS, DICT_METHODS, TUPLE_METHODS, STR_METHODS):
    _t['__contains__'] = lambda I, c, v: _mkbool(_bb(I.contains(c, v)))
    _t['__len__'] = lambda I, c: b_len(I, c)
for _t in (LIST_METHODS, DICT_METHODS, TUPLE_METHODS):
    _t['__getitem__'] = lambda I, c, k: I.getitem(c, k)
for _t in (LIST_METHODS, DICT_METHODS):
    _t['__setitem__'] = lambda I, c, k, v: I.setitem(c, k, v)
    _t['__delitem__'] = lambda I, c, k: I.delitem(c, k)


# ------------------------------------------------------------ getitem
def getitem(I, o, k):
    if isinstance(o, (tuple, str)) and isinstance(k, (int, slice)):
        if isinstance(k, slice) and not all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            raise Unsupported('symbolic slice')
        try:
            return o[k]
        except IndexError:
            raise PyExc(IndexError, ())
    if isinstance(o, Sym) and o.kind.startswith('tup') and isinstance(k, int):
        n = int(o.kind[3:])
        if not -n <= k < n:
            raise PyExc(IndexError, ())
        return Sym(I.enc_.tup_projs(n)[k](o.t))
    if isinstance(o, (PList, PTup)):
        I.note_read(o)
        ps = o.parts
        if is_plain(o):
            if isinstance(k, int):
                try:
                    return ps[k].val
                except IndexError:
                    raise PyExc(IndexError, ())
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return type(o)(ps[k])
            if isinstance(k, SN):
                for j in range(len(ps)):
                    if I.branch(Or_(k.t == j, k.t == j - len(ps))):
                        return ps[j].val
                raise PyExc(IndexError, ())
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
            return type(o)(ps)
        if len(ps) == 1 and ps[0].ordered is not None:
            p = I.inst(ps[0])
            i = p.vars[0]
            n = p.ordered
            if isinstance(k, slice):
                if k.step is not None:
                    raise Unsupported('slice step')
                a = to_num(I, k.start) if k.start is not None else z3.IntVal(0)
                b = to_num(I, k.stop) if k.stop is not None else n
                if isinstance(k.start, int) and k.start < 0:
                    a = n + k.start
                if isinstance(k.stop, int) and k.stop < 0:
                    b = n + k.stop
                return type(o)([Part((i,), And_(i >= 0, i < b - a, z3.substitute(p.cond, (i, i + a))),
                                     subst(p.val, [(i, i + a)]),
                                     z3.If(b < n, z3.If(b > a, b - a, z3.IntVal(0)), z3.If(n > a, n - a, z3.IntVal(0))))])
            t = to_num(I, k)
            if t is None:
                raise PyExc(TypeError, ())
            if isinstance(k, int) and k < 0:
                t = n + k
            elif not isinstance(k, int) and I.branch(t < 0):
                t = n + t
            if not I.branch(And_(t >= 0, t < n)):
                raise PyExc(IndexError, ())
            return subst(p.val, [(i, t)])
        if isinstance(k, int) and k >= 0 and all(not p.vars and z3.is_true(p.cond) for p in ps[:k + 1]) and len(ps) > k:
            return ps[k].val
        if isinstance(k, int) and k == -1 and ps and not ps[-1].vars and z3.is_true(ps[-1].cond):
            return ps[-1].val
        if k in (0, -1) and not isinstance(k, bool):
            # some element, whichever comes first (last) in the order
            if not I.branch(I.parts_nonempty(ps)):
                raise PyExc(IndexError, ())
            j = I.pick([Exists_(p.vars, p.cond) for p in ps]) if len(ps) > 1 else 0
            p = I.inst(ps[j])
            I.assume(p.cond)
            return p.val
        raise Unsupported('index into an unordered family')
    if isinstance(o, Sym) and o.kind in ('map',):
        f = z3.Function('mapget', V, V, V)
        return Sym(f(o.t, I.enc_.enc(k)))
    if hasattr(o, 'getitem_'):
        return o.getitem_(I, k)
    if o is None or isinstance(o, (int, float, PSet)):
        raise PyExc(TypeError, ('not subscriptable',))
    raise Unsupported(f'getitem on {o!r}')


# ------------------------------------------------------------ external modules
def it_repeat(I, x, n=None):
    if n is None:
        i = I.const('i', z3.IntSort())
        raise Unsupported('infinite repeat')
    if isinstance(n, int):
        return It([single(x)] * n)
    i = I.const('i', z3.IntSort())
    return It([Part((i,), And_(i >= 0, i < n.t), x, z3.If(n.t > 0, n.t, z3.IntVal(0)))])


def it_starmap(I, f, it):
    ps = I.iter_parts(it)
    return map_parts(I, ps, lambda v: I.call(f, I.unpack_any(v), {}), 'starmap')


def it_chain(I, *its):
    ps = []
    for it in its:
        if isinstance(it, StarArgs):
            for p in it.parts:
                q = I.inst(p)
                for r in it.read(I, q.val):
                    r = I.inst(r)
                    ps.append(Part(tuple(q.vars) + tuple(r.vars), And_(q.cond, r.cond), r.val))
        else:
            ps += I.iter_parts(it)
    return It(ps)


def it_from_iterable(I, it):
    return it_chain(I, StarArgs(I.iter_parts(it)))


def it_product(I, *its, **kw):
    if kw:
        raise Unsupported('product(repeat)')
    out = [Part((), TRUE, ())]
    for it in its:
        if isinstance(it, StarArgs):
            raise Unsupported('product of a symbolic number of factors')
        ps = I.iter_parts(it)
        new = []
        for p in out:
            for q in ps:
                q = I.inst(q)
                new.append(Part(tuple(p.vars) + tuple(q.vars), And_(p.cond, q.cond), p.val + (q.val,)))
        out = new
    return It(out)


def it_combinations(I, it, n):
    ps = I.iter_parts(it)
    if all(not p.vars and z3.is_true(p.cond) for p in ps) and isinstance(n, int):
        return It([single(tuple(p.val for p in c)) for c in itertools.combinations(ps, n)])
    raise Unsupported('combinations of a symbolic family')


def ft_reduce(I, f, it, *init):
    ps = I.iter_parts(it)
    if any(p.vars or not z3.is_true(p.cond) for p in ps):
        raise Unsupported('reduce over a symbolic family')
    vals = list(init) + [p.val for p in ps]
    if not vals:
        raise PyExc(TypeError, ())
    acc = vals[0]
    for v in vals[1:]:
        acc = I.call(f, [acc, v], {})
    return acc


def _op2(nm):
    return lambda I, a, b: binop(I, nm, a, b)


def _cmp2(nm):
    return lambda I, a, b: compare(I, nm, a, b)


def copy_copy(I, x):
    if isinstance(x, Container):
        I.note_read(x)
        return type(x)(x.parts)
    if hasattr(x, 'copy_'):
        return x.copy_(I)
    if isinstance(x, Obj):
        m = I.class_lookup(x.cls, '__copy__')
        if m is not _MISSING:
            return I.call(m, [x], {})
        f = {k: v for k, v in x.f.items()}
        if '%dict' in f:
            f['%dict'] = PDict(f['%dict'].parts)
        return Obj(x.cls, f)
    return x


def copy_deep(I, x, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, Heap) and x.id in memo:
        return memo[x.id]
    if hasattr(x, 'copy_deep_'):
        return x.copy_deep_(I)
    if isinstance(x, tuple):
        return tuple(copy_deep(I, y, memo) for y in x)
    if isinstance(x, Container):
        I.note_read(x)
        y = type(x)()
        memo[x.id] = y
        y.parts = tuple(Part(p.vars, p.cond, copy_deep(I, p.val, memo), p.ordered) for p in x.parts)
        return y
    if isinstance(x, Obj):
        m = I.class_lookup(x.cls, '__deepcopy__')
        if m is not _MISSING:
            return I.call(m, [x, PDict()], {})
        y = Obj(x.cls)
        memo[x.id] = y
        y.f = {k: copy_deep(I, v, memo) for k, v in x.f.items()}
        return y
    return x


BUILTINS = {}


def install(I):
    from .interp import Builtin, NullObj, Opaque
    BUILTINS.update(_B())
    B = lambda n, f: Builtin(n, f)
    I.ext['itertools'] = dict(
        repeat=B('repeat', it_repeat), count=B('count', lambda I, *a: Count()), starmap=B('starmap', it_starmap),
        product=B('product', it_product), combinations=B('combinations', it_combinations))

    class Chain(Val):
        def call_(self, I, a, k):
            return it_chain(I, *a)

        def getattr_(self, I, n):
            return B('from_iterable', it_from_iterable) if n == 'from_iterable' else _MISSING

        def subst(self, p):
            return self
    I.ext['itertools']['chain'] = Chain()
    I.ext['functools'] = dict(total_ordering=B('total_ordering', total_ordering),
                              reduce=B('reduce', ft_reduce))
    I.ext['operator'] = dict(add=B('add', _op2('Add')), mul=B('mul', _op2('Mult')),
                             eq=B('eq', _cmp2('Eq')), lt=B('lt', _cmp2('Lt')), gt=B('gt', _cmp2('Gt')),
                             sub=B('sub', _op2('Sub')), ne=B('ne', _cmp2('NotEq')),
                             le=B('le', _cmp2('LtE')), ge=B('ge', _cmp2('GtE')))
    I.ext['copy'] = dict(copy=B('copy', copy_copy), deepcopy=B('deepcopy', copy_deep))
    I.ext['logging'] = dict(getLogger=B('getLogger', lambda I, *a: NullObj('logger')))
    I.ext['warnings'] = dict(warn=NullObj('warn'))
    I.ext['pprint'] = dict(pformat=B('pformat', lambda I, x, **k: SStr([ReprHole(x)])))
    I.ext['math'] = {}
    I.ext['builtins'] = {}
    I.ext['textwrap'] = {}
    I.ext['typing'] = {}
    I.ext['collections.abc'] = {}
