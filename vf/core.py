"""Symbolic values, path exploration and obligations for the deductive verifier.

Everything the verifier believes about Python values is in this file and in
`interp.py` / `lib.py`; the trusted base is listed in DESIGN.md.
"""
import time
import itertools
import z3

V = z3.DeclareSort('V')          # opaque Python objects with an equality
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Unsupported(Exception):
    """The function leaves the subset the verifier understands."""


class Infeasible(Exception):
    """The current path condition is unsatisfiable."""


class PyExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, cls, args=(), where=''):
        super().__init__(f'{getattr(cls, "__name__", cls)}{args!r} {where}')
        self.cls = cls
        self.args_ = args
        self.where = where


# ---------------------------------------------------------------- values

class Val:
    __slots__ = ()


class Sym(Val):
    """Opaque symbolic value (z3 term of sort V)."""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind='v'):
        self.t = t
        self.kind = kind

    def __repr__(self):
        return f'Sym({self.t})'


class SB(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SB({self.t})'


class SN(Val):
    """Symbolic number (z3 Int or Real term)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SN({self.t})'


class SStr(Val):
    """String with holes: pieces are str, Sym/SN (str of value) or Join."""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def __repr__(self):
        return 'SStr(' + ' '.join(map(repr, self.pieces)) + ')'


class Join:
    """sep.join over a list of parts whose values are strings."""
    __slots__ = ('sep', 'parts')

    def __init__(self, sep, parts):
        self.sep = sep
        self.parts = parts

    def __repr__(self):
        return f'Join({self.sep!r}, {self.parts!r})'


class Part:
    """A family of elements { val | vars, cond } (vars bound), or a single one.

    ordered: the family is the sequence val(0), val(1), ..., val(n-1), where
    `vars` is one Int constant and `n` its length.
    """
    __slots__ = ('vars', 'cond', 'val', 'ordered')

    def __init__(self, vars, cond, val, ordered=None):
        self.vars = tuple(vars)
        self.cond = cond
        self.val = val
        self.ordered = ordered      # None or z3 Int term: the length

    def __repr__(self):
        if not self.vars and z3.is_true(self.cond):
            return f'<{self.val!r}>'
        return f'<{self.val!r} | {self.vars} : {self.cond}>'


class Heap(Val):
    """Mutable object; `reads`/`writes` go through the machine's journal."""
    __slots__ = ('id', 'frozen')
    _ids = itertools.count()

    def __init__(self):
        self.id = next(Heap._ids)
        self.frozen = False


class Container(Heap):
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        super().__init__()
        self.parts = tuple(parts)

    def __repr__(self):
        return f'{type(self).__name__}{list(self.parts)!r}'


class PList(Container):
    __slots__ = ()


class PSet(Container):
    __slots__ = ()


class PDict(Container):
    """parts have val = (key, value); keys of distinct parts are disjoint."""
    __slots__ = ()


class It(Container):
    """One-shot iterator."""
    __slots__ = ()


class Obj(Heap):
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f=None):
        super().__init__()
        self.cls = cls
        self.f = f if f is not None else {}

    def __repr__(self):
        return f'<{getattr(self.cls, "name", self.cls)} #{self.id}>'


class Ite(Val):
    """Element of a sequence with one replaced item; contracts interpret it."""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def subst(self, pairs):
        return Ite(z3.substitute(self.c, *pairs), subst(self.a, pairs), subst(self.b, pairs))


class Poison(Val):
    """Value of a local that may have been changed by other iterations."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def is_conc(v):
    return v is None or isinstance(v, (bool, int, float, str))


def single(val):
    return Part((), TRUE, val)


def And_(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or_(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not_(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies_(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


_dummies = {}


def _occurs(vs, t):
    out = []
    for v in vs:
        d = _dummies.get(v.sort())
        if d is None:
            d = _dummies[v.sort()] = z3.Const(f'occurs_dummy_{v.sort()}', v.sort())
        if not z3.substitute(t, (v, d)).eq(t):
            out.append(v)
    return out


def Exists_(vs, body):
    vs = _occurs(vs, body) if vs else []
    return z3.Exists(list(vs), body) if vs else body


def ForAll_(vs, body):
    vs = _occurs(vs, body) if vs else []
    return z3.ForAll(list(vs), body) if vs else body


# ---------------------------------------------------------------- V encoding

class Enc:
    """Encoding of structured values into sort V, with axioms on demand."""

    def __init__(self):
        self.axioms = []
        self.strs = {}
        self.ctors = {}
        self.tag = z3.Function('tag', V, z3.IntSort())
        self.mkint = None
        self.mkreal = None

    def _ctor(self, name, sorts, tag):
        if name in self.ctors:
            return self.ctors[name]
        f = z3.Function(name, *sorts, V)
        xs = [z3.Const(f'{name}_x{i}', s) for i, s in enumerate(sorts)]
        app = f(*xs)
        body = [self.tag(app) == tag]
        projs = []
        for i, (x, s) in enumerate(zip(xs, sorts)):
            p = z3.Function(f'{name}_p{i}', V, s)
            projs.append(p)
            body.append(p(app) == x)
        self.axioms.append(z3.ForAll(xs, z3.And(*body), patterns=[app]))
        self.ctors[name] = (f, projs)
        return self.ctors[name]

    def int_(self, t):
        return self._ctor('mkint', [z3.IntSort()], 1)[0](t)

    def int_proj(self):
        return self._ctor('mkint', [z3.IntSort()], 1)[1][0]

    def real_(self, t):
        return self._ctor('mkreal', [z3.RealSort()], 2)[0](t)

    def tup(self, ts):
        n = len(ts)
        if n == 0:
            return self.atom('()', 9)
        return self._ctor(f'tup{n}', [V] * n, 10 + n)[0](*ts)

    def tup_projs(self, n):
        return self._ctor(f'tup{n}', [V] * n, 10 + n)[1]

    def set1(self, t):
        return self._ctor('set1', [V], 5)[0](t)

    def atom(self, name, tag):
        key = (name, tag)
        if key not in self.strs:
            c = z3.Const(f'atom_{tag}_{name}', V)
            idx = len(self.strs)
            rank = self.rank
            self.axioms.append(z3.And(self.tag(c) == tag, rank(c) == idx))
            self.strs[key] = c
        return self.strs[key]

    rank = z3.Function('atomrank', V, z3.IntSort())

    formats = False         # encode strings with holes (loses their structure)

    def enc(self, v):
        if isinstance(v, Sym):
            return v.t
        if v is None:
            return self.atom('None', 3)
        if isinstance(v, bool):
            return self.atom(str(v), 4)
        if isinstance(v, int):
            return self.int_(z3.IntVal(v))
        if isinstance(v, float):
            return self.real_(z3.RealVal(v))
        if isinstance(v, str):
            return self.atom(v, 6)
        if isinstance(v, SN):
            if z3.is_int(v.t):
                return self.int_(v.t)
            return self.real_(v.t)
        if isinstance(v, SB):
            return z3.If(v.t, self.atom('True', 4), self.atom('False', 4))
        if isinstance(v, tuple):
            return self.tup([self.enc(x) for x in v])
        if isinstance(v, PSet):
            ps = v.parts
            if len(ps) == 0:
                return self.atom('set()', 5)
            if len(ps) == 1 and not ps[0].vars and z3.is_true(ps[0].cond):
                return self.set1(self.enc(ps[0].val))
        if isinstance(v, Obj):
            return self.atom(f'obj{v.id}', 7)
        if isinstance(v, SStr):
            if len(v.pieces) == 1 and isinstance(v.pieces[0], Sym):
                return v.pieces[0].t
            if len(v.pieces) == 0:
                return self.atom('', 6)
            if self.formats and not any(isinstance(x, Join) for x in v.pieces):
                # a function of its holes; nothing else is assumed of it
                args = [self.enc(x) for x in v.pieces if not isinstance(x, str)]
                form = '{}'.join(x if isinstance(x, str) else '' for x in v.pieces) + f'/{len(v.pieces)}/{"".join("s" if isinstance(x, str) else "h" for x in v.pieces)}'
                return z3.Function(f'format {form}', *[V] * (len(args) + 1))(*args)
        raise Unsupported('cannot encode ' + (type(v).__name__ if isinstance(v, (SStr, Container)) else repr(v)))


# ---------------------------------------------------------------- substitution

_active = set()


def subst(v, pairs):
    """Substitute z3 constants in a value (heap objects are snapshotted)."""
    if not pairs:
        return v
    if isinstance(v, Sym):
        return Sym(z3.substitute(v.t, *pairs), v.kind)
    if isinstance(v, SB):
        return SB(z3.substitute(v.t, *pairs))
    if isinstance(v, SN):
        return SN(z3.substitute(v.t, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else subst(p, pairs)
                     for p in v.pieces])
    if isinstance(v, Join):
        return Join(v.sep, tuple(subst_part(p, pairs) for p in v.parts))
    if isinstance(v, Container):
        parts = tuple(subst_part(p, pairs) for p in v.parts)
        if all(a is b for a, b in zip(parts, v.parts)) and (_snap[0] is None or v.id <= _snap[0] or v.frozen):
            return v
        w = type(v)(parts)
        w.frozen = True
        return w
    if isinstance(v, Val) and hasattr(v, 'subst'):
        return v.subst(pairs)
    if isinstance(v, Obj):
        if v.id in _active:
            return v
        _active.add(v.id)
        try:
            f = {k: subst(x, pairs) for k, x in v.f.items()}
        finally:
            _active.discard(v.id)
        if all(f[k] is v.f[k] for k in f) and (_snap[0] is None or v.id <= _snap[0] or v.frozen):
            return v
        o = Obj(v.cls, f)
        o.frozen = True
        return o
    return v


_snap = [None]


def snapshot(v, start):
    """Copy of v with the present content of the mutable objects created after `start`."""
    old, _snap[0] = _snap[0], start
    try:
        return subst(v, _DUMMY)
    finally:
        _snap[0] = old


def subst_part(p, pairs):
    if p.vars:
        ids = {v.get_id() for v in p.vars}
        if any(a.get_id() in ids for a, _ in pairs):
            pairs = [(a, b) for a, b in pairs if a.get_id() not in ids]
    val = subst(p.val, pairs)
    cond = z3.substitute(p.cond, *pairs) if pairs else p.cond
    ordd = z3.substitute(p.ordered, *pairs) if p.ordered is not None else None
    if val is p.val and cond.eq(p.cond):
        return p
    return Part(p.vars, cond, val, ordd)


_DUMMY = [(z3.Const('%dummy', V), z3.Const('%dummy', V))]


# ---------------------------------------------------------------- machine

class Obligation:
    __slots__ = ('name', 'status', 'time', 'backend', 'detail', 'size')

    def __init__(self, name, status, time_, backend, detail='', size=0):
        self.name = name
        self.status = status        # 'discharged' | 'refuted' | 'unknown' | 'unsupported'
        self.time = time_
        self.backend = backend
        self.detail = detail
        self.size = size


class Trace:
    __slots__ = ('prefix', 'pos', 'taken', 'alts')

    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []


_QUANT = {}


def has_quantifier(f):
    k = f.get_id()
    if k not in _QUANT:
        todo, seen, found = [f], set(), False
        while todo and not found:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                found = True
            else:
                todo += t.children()
        _QUANT[k] = (f, found)      # keep f alive: ids are reused
    return _QUANT[k][1]


class Machine:
    """Path exploration state: journal, path condition, obligations."""

    def __init__(self, timeout_ms=10000, feas_ms=300):
        self.journal = []           # (obj, kind, key, old)
        self.reads = []             # containers read (ids)
        self.pc = []                # (kind, formula)   kind: 'dec' | 'fact'
        self.axioms = []            # global facts (closed)
        self.fresh_log = []         # fresh constants created
        self.enc_ = Enc()
        self.fmts = set()
        self.trace = None
        self.obligations = []
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.ordered_ite = False    # a list that gets one item per iteration, on any path, stays ordered
        self.only_facts = False     # decisions with a single feasible alternative are facts
        self.feas_ground = False    # decide feasibility from quantifier-free facts only
        self.n = itertools.count()
        self.solver_time = 0.0
        self.deadline = None
        self.failures = 0
        self.feas_cache = {}
        self.paths = 0

    # -- fresh names
    def const(self, name, sort):
        c = z3.Const(f'{name}!{next(self.n)}', sort)
        self.fresh_log.append(c)
        return c

    def func(self, name, *sorts):
        return z3.Function(f'{name}!{next(self.n)}', *sorts)

    def sym(self, name='v'):
        return Sym(self.const(name, V))

    # -- journaled mutation
    def set_parts(self, c, parts):
        if c.frozen:
            raise Unsupported('mutation of an object created in another iteration')
        self.journal.append((c, 'parts', None, c.parts))
        c.parts = tuple(parts)

    def set_field(self, d, key, val):
        """Mutate dict `d` (Obj.f or frame locals)."""
        self.journal.append((d, 'item', key, d.get(key, _MISSING)))
        d[key] = val

    def del_field(self, d, key):
        self.journal.append((d, 'item', key, d.get(key, _MISSING)))
        d.pop(key, None)

    def mark(self):
        return len(self.journal), len(self.pc), len(self.reads)

    def rollback(self, mark):
        j, p, r = mark
        while len(self.journal) > j:
            o, kind, key, old = self.journal.pop()
            if kind == 'parts':
                o.parts = old
            else:
                if old is _MISSING:
                    o.pop(key, None)
                else:
                    o[key] = old
        del self.pc[p:]

    # -- path condition
    def assume(self, f):
        if z3.is_true(f):
            return
        self.pc.append(('fact', f))

    def axiom(self, f):
        self.axioms.append(f)

    def context(self):
        return (self.axioms + self.enc_.axioms
                + [f for _, f in self.pc])

    def _check(self, fs, ms):
        s = z3.Solver()
        s.set('timeout', int(ms))
        s.set('random_seed', 0)
        for f in fs:
            s.add(f)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r, s

    def feasible(self, cond):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the deductive stage exhausted')
        fs = self.context() + [cond]
        if self.feas_ground:
            fs = [f for f in fs if not has_quantifier(f)]
        r, _ = self._check(fs, self.feas_ms)
        return r != z3.unsat

    def branch(self, cond):
        """Decide a symbolic condition on the current path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self._decide([cond, Not_(cond)])
        return k == 0

    def choose(self, conds):
        """Decide among alternatives (need not be exclusive)."""
        return self._decide(list(conds))

    def pick(self, conds):
        """Some alternative that holds, chosen arbitrarily: the choice is recorded."""
        if len(conds) == 1:
            return self._decide(list(conds))
        sel = self.const('choice', z3.IntSort())
        return self._decide([And_(sel == i, c) for i, c in enumerate(conds)])

    def _decide(self, conds):
        tr = self.trace
        if tr is None:
            raise Unsupported('branch outside exploration')
        only = False        # the other alternatives were infeasible: an implied fact
        if tr.pos < len(tr.prefix):
            k = tr.prefix[tr.pos]
            if k < 0:
                only, k = True, ~k
        else:
            k, many = None, False
            for i, c in enumerate(conds):
                if z3.is_false(c):
                    continue
                if z3.is_true(c) or self.feasible(c):
                    if k is None:
                        k = i
                    else:
                        many = True
                        tr.alts.append(tr.taken + [i])
            if k is None:
                raise Infeasible()
            only = not many and self.only_facts
        tr.pos += 1
        tr.taken = tr.taken + [~k if only else k]
        if not z3.is_true(conds[k]):
            self.pc.append(('fact' if only else 'dec', conds[k]))
        return k

    def explore(self, thunk, on_path):
        """Run `thunk` along every feasible path; state is rolled back each time."""
        outer = self.trace
        results = []
        stack = [[]]
        try:
            while stack:
                prefix = stack.pop()
                self.trace = Trace(prefix)
                m = self.mark()
                try:
                    out = thunk()
                    results.append(on_path(out, m))
                    self.paths += 1
                except Infeasible:
                    pass
                finally:
                    alts = self.trace.alts
                    self.rollback(m)
                stack.extend(alts)
                if len(results) > 4000:
                    raise Unsupported('too many paths')
        finally:
            self.trace = outer
        return results

    # -- obligations
    def prove(self, goal, name, record=True, timeout=None):
        """Discharge `goal` under the current context."""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        t0 = time.time()
        if z3.is_true(z3.simplify(goal)):
            status, backend, detail = 'discharged', 'simplify', ''
        else:
            status, backend, detail = self._prove(goal, timeout or self.timeout_ms)
        ob = Obligation(name, status, time.time() - t0, backend, detail)
        if record:
            self.obligations.append(ob)
            if status != 'discharged':
                self.failures += 1
        return status == 'discharged'

    def _prove(self, goal, ms):
        neg = Not_(goal)
        if self.failures >= 3:
            # the function is already rejected: only collect names of obligations
            ms = min(ms, 1500)
        fs = self.context() + [neg]
        # short attempts first: default, pure E-matching, other seed; then cvc5
        for lim in sorted({min(ms, 2000), ms}):
            r, s = self._check(fs, lim)
            if r == z3.unsat:
                return 'discharged', 'z3', ''
            if r == z3.sat:
                return 'refuted', 'z3', self._model(s)
            if self.failures >= 3:
                return 'unknown', 'z3', s.reason_unknown()
            for conf in (dict(mbqi=False), dict(seed=7)):
                s2 = z3.Solver()
                s2.set('timeout', int(lim))
                if 'mbqi' in conf:
                    s2.set('smt.mbqi', False)
                    s2.set('smt.auto_config', False)
                if 'seed' in conf:
                    s2.set('random_seed', conf['seed'])
                    s2.set('smt.qi.eager_threshold', 100.0)
                for f in fs:
                    s2.add(f)
                t = time.time()
                r2 = s2.check()
                self.solver_time += time.time() - t
                if r2 == z3.unsat:
                    return 'discharged', 'z3', ''
                if r2 == z3.sat and 'mbqi' not in conf:
                    return 'refuted', 'z3', self._model(s2)
            if lim < ms and self._cvc5(fs, lim) == 'unsat':
                return 'discharged', 'cvc5', ''
        st = self._cvc5(fs, ms)
        if st == 'unsat':
            return 'discharged', 'cvc5', ''
        return 'unknown', 'z3+cvc5', s.reason_unknown()

    def _cvc5(self, fs, ms):
        import subprocess
        import tempfile
        import os
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t = time.time()
        fd, path = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as fh:
                fh.write(txt)
            p = subprocess.run(
                ['cvc5', '--quiet', f'--tlimit={int(ms)}', path],
                capture_output=True, text=True, timeout=ms / 1000 + 10)
            out = p.stdout.strip().split('\n')[0]
        except Exception:
            out = 'error'
        finally:
            os.unlink(path)
            self.solver_time += time.time() - t
        return out

    @staticmethod
    def _model(s):
        try:
            m = s.model()
            txt = str(m)
            return txt[:4000]
        except Exception as e:      # model may be unavailable
            return f'no model: {e}'

    def fail(self, name, status, detail):
        self.obligations.append(Obligation(name, status, 0.0, '-', detail))


_MISSING = object()
