"""Verification of one function of /repo against its contract."""
import os
import time
import traceback
import z3
from .core import *
from .core import _MISSING, Join
from . import core
from .interp import Interp, FuncVal, ClassVal, Bound, PropVal, Builtin, Frame, PoisonRead
from . import lib


class Raised:
    def __init__(self, e):
        self.cls = e.cls
        self.e = e

    @property
    def name(self):
        return getattr(self.cls, '__name__', getattr(self.cls, 'name', str(self.cls)))

    def __repr__(self):
        return f'Raised({self.name}: {self.e})'


class Group:
    """A set of obligations about some functions; runs in its own process."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class Ctx:
    """Passed to a group: builds interpreters and records obligations."""

    def __init__(self, root='/repo', tier='quick', budget=240):
        self.root = root
        self.tier = tier
        self.I = None
        self.deadline = time.time() + budget
        self.obligations = []
        self.funcs = set()
        self.under_contract = []
        self.contract_uses = {}
        self.solver_time = 0.0
        self.paths = 0
        self.assumed = set()

    def new(self, **kw):
        self.flush()
        kw.setdefault('timeout_ms', 10000 if self.tier == 'quick' else 60000)
        I = Interp(root=self.root, **kw)
        I.deadline = self.deadline
        self.I = I
        return I

    def flush(self):
        I = self.I
        if I is None:
            return
        lost = [r for r in I.for_rules + I.while_rules if id(r) not in I.fired_rules and not getattr(r, 'optional', False)]
        if lost:
            # an invariant found no loop: refutations of what depends on it are not believed
            for ob in I.obligations:
                if ob.status in ('refuted', 'unknown'):
                    ob.status = 'unsupported'
                    ob.detail = f'no loop for {len(lost)} invariant(s); ' + ob.detail
            I.lost_rules = lost
            if os.environ.get('VF_LOST'):
                print('LOST', [(r.__qualname__, r.__code__.co_firstlineno) for r in lost])
        self.obligations += I.obligations
        self.funcs |= I.visited_funcs
        for k, n in I.contract_uses.items():
            self.contract_uses[k] = self.contract_uses.get(k, 0) + n
        self.solver_time += I.solver_time
        self.paths += I.paths
        self.I = None

    def resolve(self, qual):
        """'tulip.transys.cost:VectorCost.__add__' -> FuncVal"""
        mod, q = qual.split(':')
        m = self.I.load(mod)
        parts = q.split('.')
        v = self.I.mod_get(m, parts[0])
        if v is _MISSING:
            raise Unsupported(f'{qual} not found')
        for p in parts[1:]:
            if not isinstance(v, ClassVal) or p not in v.ns:
                raise Unsupported(f'{qual} not found')
            v = v.ns[p]
        return v

    def verify(self, name, setup, post, target=None):
        """Explore all paths of the thunk returned by `setup`.

        setup(I) -> thunk; thunk() runs the real code; post(I, out) proves
        goals about `out` (a value or Raised) in the state at the end.
        """
        I = self.I
        if target:
            self.under_contract.append(target)
        n0 = len(I.obligations)
        p0 = I.paths

        def run():
            thunk = setup(I)
            # the precondition must be satisfiable (vacuity check)
            try:
                return thunk()
            except PyExc as e:
                return Raised(e)

        def on_path(out, m):
            try:
                post(I, out)
            except PyExc as e:
                I.prove(FALSE, f'the state at the end has the expected content (raises {e})'[:160])
            return True
        try:
            I.explore(run, on_path)
            if I.paths == p0:
                I.fail(f'{name}: vacuous', 'refuted', 'no feasible path through the contract precondition')
            elif len(I.obligations) == n0:
                I.fail(f'{name}: vacuous', 'refuted', 'no obligation was generated')
        except Unsupported as e:
            I.fail(f'{name}: verification condition generation', 'unsupported', str(e))
        except PoisonRead as e:
            I.fail(f'{name}: verification condition generation', 'unsupported', f'loop-carried {e.name}')
        except (RecursionError, z3.Z3Exception, AttributeError, KeyError, TypeError, IndexError,
                AssertionError, ValueError, NameError, Infeasible) as e:
            I.fail(f'{name}: verification condition generation', 'unsupported',
                   f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')
        for ob in I.obligations[n0:]:
            if not ob.name.startswith(name):
                ob.name = f'{name}: {ob.name}'

    def no_raise(self, I, out, name):
        """Prove that this path does not raise."""
        if isinstance(out, Raised):
            I.prove(FALSE, f'{name}: no {out.name}' + f' ({out.e})'[:120])
            return False
        return True


def seq(I, name, n, sort=None, kind='v', ctor=PList):
    """A list of symbolic length n: elements f(i), 0 <= i < n."""
    sort = V if sort is None else sort
    f = I.func(name, z3.IntSort(), sort)
    i = I.const('i', z3.IntSort())
    val = SN(f(i)) if sort in (z3.IntSort(), z3.RealSort()) else Sym(f(i), kind)
    return ctor([Part((i,), And_(i >= 0, i < n), val, n)]), f


def symset(I, name, kind='v'):
    """An arbitrary set of opaque values, given by a predicate."""
    f = I.func(name, V, z3.BoolSort())
    x = I.const('x', V)
    return PSet([Part((x,), f(x), Sym(x, kind))]), f


def tt(I, v):
    t = I.truth_term(v)
    return z3.BoolVal(t) if isinstance(t, bool) else t
