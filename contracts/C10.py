"""Contracts for finite-state machines (tulip/transys/machines.py)."""
import ast
import z3
from vf.contract import *
from vf import lib
from vf.core import _MISSING
from vf.digraph import A, Graph, Lab, EMPTY, F, B, Z, install as install_nx

MOD = 'tulip.transys.machines'
IN, OUT, RM = F('input', V, B), F('output', V, B), F('removed', V, B)


def z3b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def mem(I, v, c):
    return z3b(I.member_parts(v, c.parts))


def fam(I, f, g=None, sort=V):
    """Family {k | f(k)}, or items (k, g(k))."""
    k = I.const('k', sort)
    w = Sym(k) if sort == V else SN(k)
    return Part((k,), f(k), w if g is None else (w, g(k)))


def symdict(I, f, g):
    return PDict([fam(I, f, lambda k: Sym(g(k)))])


def same_dict(I, d, has, val, name):
    """d is exactly {k: val(k) | has(k)}."""
    if not isinstance(d, PDict):
        I.prove(FALSE, f'{name}: a dictionary')
        return
    k = I.const('k', V)
    some = Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == k)) for p in map(I.inst, d.parts)])
    I.prove(some == has(k), f'{name}: exactly the keys')
    for p in map(I.inst, d.parts):
        I.prove(ForAll_(list(p.vars), Implies_(p.cond, I.enc_.enc(p.val[1]) == val(I.enc_.enc(p.val[0])))), f'{name}: the values')


# ------------------------------------------------------------------ dictionaries
def mk_dicts(ctx):
    HX, VX, HY = F('has', V, B), F('value', V, V), F('in_ports', V, B)
    for fn, keep in (('project_dict', lambda k: HY(k)), ('trim_dict', lambda k: Not_(HY(k)))):
        for cont in ('set', 'dict', 'list', 'object'):
            I = ctx.new()

            def setup(I):
                y = dict(set=lambda: PSet([fam(I, HY)]), dict=lambda: symdict(I, HY, F('port_type', V, V)), list=lambda: PList([fam(I, HY)]),
                         object=lambda: A('ports', **{'%in': lambda I, v: HY(I.enc_.enc(v))}))[cont]()
                x = symdict(I, HX, VX)
                return lambda: I.call(ctx.resolve(f'{MOD}:{fn}'), [x, y], {})

            def post(I, out):
                if ctx.no_raise(I, out, f'{fn}({cont})'):
                    same_dict(I, out, lambda k: And_(HX(k), keep(k)), VX, f'{fn}({cont})')
            ctx.verify(f'{fn}({cont})', setup, post, f'{MOD}:{fn}')
    I = ctx.new()

    def setup(I):
        x = symdict(I, HX, VX)
        m = A('machine', inputs=symdict(I, IN, F('port_type', V, V)), outputs=symdict(I, OUT, F('port_type', V, V)))
        return lambda: I.call(ctx.resolve(f'{MOD}:_split_io'), [x, m], {})

    def post(I, out):
        if not ctx.no_raise(I, out, '_split_io'):
            return
        ok = isinstance(out, tuple) and len(out) == 2
        I.prove(z3.BoolVal(ok), '_split_io: two dictionaries')
        if ok:
            same_dict(I, out[0], lambda k: And_(HX(k), IN(k)), VX, '_split_io: inputs')
            same_dict(I, out[1], lambda k: And_(HX(k), OUT(k)), VX, '_split_io: outputs')
    ctx.verify('_split_io', setup, post, f'{MOD}:_split_io')


# ------------------------------------------------------------------ reaction
PROJ = F('part', V, V, V)               # part of a label over some ports
P_IN, P_OUT, P_SOME = z3.Consts('input_ports output_ports given_input_ports', V)
X = z3.Const('given_inputs', V)


class Ports(Val):
    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return self

    def isinstance_(self, I, name):
        return name in ('dict', 'set', 'Container', 'Iterable', 'Mapping')

    def iter_(self, I):
        return [Part((), TRUE, self)]

    def getattr_(self, I, name):
        if name == 'intersection':
            def inter(I, o):
                I.prove(z3.BoolVal(self.t is P_IN and o is GIVEN), 'the given input ports')
                return Ports(P_SOME)
            return Builtin('intersection', inter)
        if name in ('keys', '__iter__'):
            return Builtin(name, lambda I: self)
        raise Unsupported(f'ports.{name}')

    def binop_(self, I, op, o, swap=False):
        if isinstance(op, ast.BitAnd):
            return self.getattr_(I, 'intersection').fn(I, o) if not swap else o.getattr_(I, 'intersection').fn(I, self)
        raise Unsupported('ports')


GIVEN = Ports(z3.Const('given_ports', V))


class Inputs(Lab):
    def getattr_(self, I, name):
        if name == 'keys':
            return Builtin('keys', lambda I: GIVEN)
        return super().getattr_(I, name)

    def iter_(self, I):
        return GIVEN.iter_(I)


def mk_reaction(ctx):
    for lazy in (False, True, 'part'):
        I = ctx.new()
        install_nx(I)
        st = {}

        def project(I, f, args, kw):
            b = I.bind(f, args, kw)
            x, y = b['x'], b['y']
            if isinstance(y, PSet) and len(y.parts) == 1 and isinstance(y.parts[0].val, Ports):
                y = y.parts[0].val
            if not isinstance(x, Lab) or not isinstance(y, Ports):
                raise Unsupported('projection')
            return Lab(PROJ(x.t, y.t))
        I.contracts[f'{MOD}:project_dict'] = project

        def mkset(I, a=None):
            return a if isinstance(a, Ports) else lib.b_set(I, a) if hasattr(lib, 'b_set') else _unsup()
        I.overrides[f'{MOD}:set'] = Builtin('set', mkset)

        def rule(I, fr, node, it):
            """The loop that collects suggestions for the message of the error."""
            lists = {k: v for k, v in fr.f.items() if isinstance(v, PList) and any(
                isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and
                isinstance(c.func.value, ast.Name) and c.func.value.id == k for s in node.body for c in ast.walk(s))}
            if len(lists) != 1:
                return False
            (nm, w), = lists.items()
            if sum(isinstance(c, ast.Name) and c.id == nm for b in node.body for c in ast.walk(b)) < 2:
                return False
            s = F(f'suggestion', Z, V)

            def havoc():
                i, n = I.const('i', Z), I.const('n', Z)
                I.set_parts(w, [Part((i,), And_(0 <= i, i < n), Lab(s(i)))])
                return [w]
            I.inv_for(fr, node, it, havoc, lambda p, done: [], 'suggestions')
            return True
        I.for_rules.append(rule)

        def setup(I):
            G = Graph(ctx, f'{MOD}:MealyMachine')
            G.o.f.update(inputs=Ports(P_IN), outputs=Ports(P_OUT))
            s = I.sym('state')
            I.assume(G.Nf(s.t))
            x = Inputs(X)
            st.update(G=G, s=s, x=x)
            a = [G.o, s, x]
            if lazy == 'part':
                return lambda: I.call(ctx.resolve(f'{MOD}:MealyMachine.reactionpart'), a, {})
            return lambda: I.call(ctx.resolve(f'{MOD}:MealyMachine.reaction'), a, dict(lazy=True) if lazy else {})

        def post(I, out):
            G, s = st['G'], st['s'].t
            name = f'reaction(lazy={lazy})'
            ports = P_SOME if lazy else P_IN
            v, w, k, l = I.const('v', V), I.const('w', V), I.const('k', Z), I.const('l', Z)
            en = lambda v, k: And_(G.Ef(s, v, k), PROJ(G.ELf(s, v, k), ports) == X)
            none = ForAll_([v, k], Not_(en(v, k)))
            many = Exists_([v, k, w, l], And_(en(v, k), en(w, l), Or_(v != w, k != l)))
            G.unchanged(f'{name} does not change the machine')
            I.prove(st['x'].t == X, f'{name} does not change the inputs')
            if isinstance(out, Raised):
                I.prove(z3.BoolVal(out.cls is ValueError), f'{name}: raises only ValueError')
                I.prove(Or_(none, many), f'{name}: raises only without a unique transition')
                return
            ok = isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], Lab)
            I.prove(z3.BoolVal(ok), f'{name}: returns state and outputs')
            if not ok:
                return
            nxt, y = I.enc_.enc(out[0]), out[1]
            I.prove(Not_(Or_(none, many)), f'{name}: one transition is enabled')
            I.prove(ForAll_([v, k], Implies_(en(v, k), And_(nxt == v, y.t == PROJ(G.ELf(s, v, k), P_OUT)))), f'{name}: the next state and the outputs of the transition')
            I.prove(z3.BoolVal(y.ref is None), f'{name}: the outputs are a copy')
        ctx.verify(f'reaction(lazy={lazy})', setup, post, f'{MOD}:MealyMachine.reaction' + ('part' if lazy == 'part' else ''))


def _unsup():
    raise Unsupported('set of ports')


# ------------------------------------------------------------------ guided runs
class St(Val):
    def __init__(self, **st):
        self.o = Obj(None, dict(st))

    def subst(self, pairs):
        return self

    def get(self, k):
        return self.o.f[k]

    def put(self, I, k, v):
        I.set_field(self.o, k, v)


class Seq(Val):
    """The input sequence of port k."""

    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Seq(z3.substitute(self.k, *pairs))

    def isinstance_(self, I, name):
        if name == 'list':
            return ISLIST(self.k)
        raise Unsupported('kind of a sequence')

    def len_(self, I):
        return SN(LEN(self.k))

    def getitem_(self, I, i):
        t = lib.to_num(I, i)
        t = z3.IntVal(t) if isinstance(t, int) else t
        I.prove(And_(t >= 0, t < LEN(self.k)), 'a position of the sequence')
        return Sym(SV(self.k, t))


ISLIST, LEN, SV = F('is_list', V, B), F('length', V, Z), F('input_at', V, Z, V)
GIV = F('given_port', V, B)
RUN, EN, OV = F('run', Z, V), F('enabled', Z, B), F('output_at', V, Z, V)


class OutSeqs(St):
    """Output sequences: port k has n(k) values f(k, i)."""

    def iter_(self, I):
        return [fam(I, OUT)]

    def contains_(self, I, k):
        return OUT(I.enc_.enc(k))

    def getitem_(self, I, k):
        t = I.enc_.enc(k)
        if not I.branch(OUT(t)):
            raise PyExc(KeyError, (k,))

        def append(I, v):
            self.put(I, 'log', self.get('log') + ((t, v),))
        return A('sequence', append=Builtin('append', append))

    def getattr_(self, I, name):
        if name == 'items':
            return Builtin('items', lambda I: PList([Part(p.vars, p.cond, (p.val, self.getitem_(I, p.val))) for p in self.iter_(I)]))
        if name == 'keys':
            return Builtin('keys', lambda I: PList(self.iter_(I)))
        raise Unsupported(f'output sequences: {name}')


class States(St):
    """List of n values f(i)."""

    def getattr_(self, I, name):
        if name != 'append':
            raise Unsupported(f'list of states: {name}')

        def append(I, v):
            n, f, t = self.get('n'), self.get('f'), I.enc_.enc(v)
            self.put(I, 'f', lambda i: z3.If(i == n, t, f(i)))
            self.put(I, 'n', n + 1)
        return Builtin('append', append)

    def len_(self, I):
        return SN(self.get('n'))


def mk_run(ctx):
    for start in (False, True):
        I = ctx.new()
        st = {}
        n = z3.Int('steps')

        def reaction(I, s, inputs, *a, **kw):
            if a or kw:
                raise Unsupported('reaction with more arguments')
            c = st['c'].f['c']
            I.prove(I.enc_.enc(s) == RUN(c), 'the reaction is from the current state')
            same_dict(I, inputs, GIV, lambda k: SV(k, c), 'the inputs of the current step')
            if not I.branch(EN(c)):
                raise PyExc(ValueError, ('no reaction',))
            I.set_field(st['c'], 'c', c + 1)
            return (Sym(RUN(c + 1)), PDict([fam(I, OUT, lambda k: Sym(OV(k, c)))]))

        def loop(I, fr, node, it):
            if isinstance(it, lib.Range) or (isinstance(it, PList) and len(it.parts) == 1 and it.parts[0].ordered is not None):
                steps(I, fr, node, it)
                return True
            w = next((v for v in fr.f.values() if isinstance(v, OutSeqs)), None)
            if w is None:
                return False
            if isinstance(it, PList) and len(it.parts) == 1 or it is w:
                parts = I.iter_parts(it)
                if len(parts) != 1:
                    return False
                outputs(I, fr, node, parts[0], w)
                return True
            return False

        def outputs(I, fr, node, part, w):
            p = I.inst(part)
            k = I.enc_.enc(p.val[0] if isinstance(p.val, tuple) else p.val)
            q = I.const('q', V)
            I.prove(ForAll_([q], OUT(q) == Exists_(list(p.vars), And_(p.cond, k == q))), 'output sequences: the loop visits exactly the output ports')
            if I.choose([TRUE, TRUE]) == 0:
                w.put(I, 'log', ())
                I.assume(p.cond)
                iter_keep(I, fr, node, p, w)
                log = w.get('log')
                I.prove(z3.BoolVal(len(log) == 1), 'output sequences: one value is added for each port')
                c = st['c'].f['c']
                for t, v in log:
                    I.prove(And_(t == k, I.enc_.enc(v) == OV(k, c - 1)), 'output sequences: the output of the step')
                raise Infeasible()
            m, f, c = w.get('n'), w.get('f'), st['c'].f['c']
            w.put(I, 'f', lambda k, i: z3.If(i == m, OV(k, c - 1), f(k, i)))
            w.put(I, 'n', m + 1)

        def iter_keep(I, fr, node, p, w):
            I.assign(node.target, p.val, fr)
            I.exec_block(node.body, fr)

        def steps(I, fr, node, it):
            """for i in range(hi): cut by an invariant at i."""
            if isinstance(it, lib.Range):
                I.prove(And_(z3b(it.lo == 0), z3b(it.hi == n)), 'the run visits all positions')
                val = lambda i: SN(i)
            else:
                p0 = I.inst(it.parts[0])
                i0 = p0.vars[0]
                I.prove(ForAll_([i0], p0.cond == And_(0 <= i0, i0 < n)), 'the run visits all positions')
                val = lambda i: subst(p0.val, [(i0, i)])
            names = {k: v for k, v in fr.f.items()}
            sl = [k for k, v in names.items() if isinstance(v, PList) and not v.parts]
            dl = [k for k, v in names.items() if isinstance(v, PDict) and len(v.parts) == 1 and isinstance(v.parts[0].val[1], PList)
                  and not v.parts[0].val[1].parts]
            ss = [k for k in sl]
            if len(ss) != 1 or len(dl) != 1:
                raise Unsupported('results of the run')
            p = I.inst(names[dl[0]].parts[0])
            q = I.const('q', V)
            I.prove(ForAll_([q], OUT(q) == Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == q))), 'one sequence for each output port')
            cand = [k for k, v in names.items() if isinstance(v, Sym) and any(
                isinstance(t, ast.Name) and t.id == k and isinstance(t.ctx, ast.Store) for s in node.body for t in ast.walk(s))]
            if len(cand) != 1:
                raise Unsupported('state of the run')
            I.prove(names[cand[0]].t == RUN(0), 'the run starts at the given state')
            assigned = {t.id for s in [node] for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
            i = I.const('step', Z)
            I.assume(And_(0 <= i, i <= n))
            j = I.const('j', Z)
            I.assume(ForAll_([j], Implies_(And_(0 <= j, j < i), EN(j))))
            SF, OF = I.func('states', Z, V), I.func('outs', V, Z, V)
            S, O = States(n=i, f=lambda j: SF(j)), OutSeqs(n=i, f=lambda k, j: OF(k, j), log=())

            def inv(i):
                j, k = I.const('j', Z), I.const('k', V)
                return And_(S.get('n') == i, O.get('n') == i, st['c'].f['c'] == i, ForAll_([j], Implies_(And_(0 <= j, j < i), And_(
                    S.get('f')(j) == RUN(j + 1), ForAll_([k], Implies_(OUT(k), O.get('f')(k, j) == OV(k, j)))))))
            for nm in assigned:
                if nm in fr.f:
                    I.set_field(fr, nm, lib_poison(nm))
            I.set_field(fr, ss[0], S)
            I.set_field(fr, dl[0], O)
            I.set_field(fr, cand[0], Sym(RUN(i)))
            I.set_field(st['c'], 'c', i)
            I.assume(inv(i))
            if I.branch(i == n):
                I.exec_block(node.orelse, fr)
                return
            I.assign(node.target, val(i), fr)
            try:
                I.exec_block(node.body, fr)
            except lib_continue():
                pass
            I.prove(inv(i + 1), 'the run so far is the run of the machine')
            I.prove(z3.BoolVal(fr.f[ss[0]] is S and fr.f[dl[0]] is O), 'the results are extended')
            I.prove(I.enc_.enc(fr.f[cand[0]]) == RUN(i + 1), 'the current state is the last state')
            raise Infeasible()
        I.for_rules.append(loop)

        def setup(I):
            k, l = I.const('k', V), I.const('l', V)
            st['c'] = Obj(None, dict(c=z3.IntVal(0)))
            I.assume(Exists_([k], GIV(k)))
            I.assume(n >= 0)
            I.assume(ForAll_([k], Implies_(GIV(k), LEN(k) >= 0)))
            s = I.sym('start')
            I.assume(Not_(s.t == I.enc_.enc(None)))
            m = A('mealy', inputs=symdict(I, IN, F('port_type', V, V)), outputs=symdict(I, OUT, F('port_type', V, V)), reaction=Builtin('reaction', reaction))
            if start:
                I.assume(RUN(0) == s.t)
            else:
                x = I.const('x', V)
                m.at['states'] = A('states', initial=PSet([Part((x,), x == RUN(0), Sym(x))]))
            seqs = PDict([fam(I, GIV, lambda k: Seq(k))])
            same = ForAll_([k], Implies_(GIV(k), LEN(k) == n))
            I.assume(Implies_(ForAll_([k, l], Implies_(And_(GIV(k), GIV(l)), LEN(k) == LEN(l))), same))
            st['good'] = And_(ForAll_([k], Implies_(IN(k), GIV(k))), ForAll_([k], Implies_(GIV(k), ISLIST(k))),
                              ForAll_([k, l], Implies_(And_(GIV(k), GIV(l)), LEN(k) == LEN(l))))
            return lambda: I.call(ctx.resolve(f'{MOD}:guided_run'), [m, s if start else None, seqs], {})

        def post(I, out):
            name = f'guided_run({"state" if start else "initial"})'
            j, k = I.const('j', Z), I.const('k', V)
            fails = Exists_([j], And_(0 <= j, j < n, Not_(EN(j))))
            if isinstance(out, Raised):
                I.prove(z3.BoolVal(out.cls in (ValueError, TypeError)), f'{name}: raises only ValueError or TypeError')
                I.prove(Or_(Not_(st['good']), fails), f'{name}: raises only for bad sequences, or without a reaction')
                return
            I.prove(And_(st['good'], Not_(fails)), f'{name}: sequences for all inputs, of equal length, with a reaction at each step')
            ok = isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], States) and isinstance(out[1], OutSeqs)
            I.prove(z3.BoolVal(ok), f'{name}: returns states and outputs')
            if not ok:
                return
            S, O = out
            I.prove(And_(S.get('n') == n, O.get('n') == n), f'{name}: one state and one value of each output for each step')
            I.prove(ForAll_([j], Implies_(And_(0 <= j, j < n), S.get('f')(j) == RUN(j + 1))), f'{name}: the states of the run')
            I.prove(ForAll_([j, k], Implies_(And_(0 <= j, j < n, OUT(k)), O.get('f')(k, j) == OV(k, j))), f'{name}: the outputs of the run')
        ctx.verify(f'guided_run({start})', setup, post, f'{MOD}:guided_run')


def lib_poison(nm):
    from vf.interp import Poison
    return Poison(nm)


def lib_continue():
    from vf.interp import ContinueEx
    return ContinueEx


# ------------------------------------------------------------------ conversions
NODE, NH, NV = F('state', V, B), F('state_has', V, V, B), F('state_value', V, V, V)
E, EL = F('edge', V, V, Z, B), F('edge_label', V, V, Z, V)
INIT = F('initial', V, B)
PT = F('port_type', V, V)


class Attr(St):
    """Copy of the label of a transition, with keys laid over it."""

    def __init__(self, t, upd=(), own=True):
        super().__init__(upd=upd)
        self.t, self.own = t, own

    def subst(self, pairs):
        return Attr(z3.substitute(self.t, *pairs), tuple(self.get('upd')), self.own)

    def copy_deep_(self, I):
        return Attr(self.t, self.get('upd'))

    copy_ = copy_deep_

    def asdict_(self, I):
        return Attr(self.t, self.get('upd'))

    def kwargs_(self, I, named):
        w = Attr(self.t, self.get('upd'))
        if isinstance(named, PDict) and not named.parts:
            return w
        raise Unsupported('keywords')

    def getattr_(self, I, name):
        if name == 'update':
            def up(I, d):
                if not self.own:
                    I.prove(FALSE, 'no label of the given machine is edited')
                if not isinstance(d, PDict):
                    raise Unsupported('update of a label')
                self.put(I, 'upd', self.get('upd') + (tuple(d.parts),))
            return Builtin('update', up)
        if name == 'copy':
            return Builtin('copy', lambda I: self.asdict_(I))
        raise Unsupported(f'label.{name}')

    def binop_(self, I, op, o, swap=False):
        if isinstance(op, ast.BitOr) and not swap and isinstance(o, PDict):
            return Attr(self.t, self.get('upd') + (tuple(o.parts),))
        raise Unsupported('label')


def machine(I, kind):
    """An arbitrary machine, given by its states, transitions and labels."""
    u, v, k = I.const('u', V), I.const('v', V), I.const('k', Z)
    x = I.const('x', V)
    I.assume(ForAll_([u, v, k], Implies_(E(u, v, k), And_(NODE(u), NODE(v)))))
    I.assume(ForAll_([x], Implies_(INIT(x), NODE(x))))
    I.assume(ForAll_([x], Not_(And_(IN(x), OUT(x)))))

    def find(I, s=None, *a, **kw):
        if a or kw:
            raise Unsupported('find')
        if s is None:
            return PList([Part((u, v, k), E(u, v, k), (Sym(u), Sym(v), Attr(EL(u, v, k), own=True)))])
        t = I.enc_.enc(s)
        return PList([Part((v, k), E(t, v, k), (s, Sym(v), Attr(EL(t, v, k), own=True)))])

    def edges(I, s=None, data=False, **kw):
        if kw or data is not True:
            raise Unsupported('edges')
        if s is None:
            return PList([Part((u, v, k), E(u, v, k), (Sym(u), Sym(v), Attr(EL(u, v, k), own=False)))])
        s, = I.concrete_elems(s)
        t = I.enc_.enc(s)
        return PList([Part((v, k), E(t, v, k), (s, Sym(v), Attr(EL(t, v, k), own=False)))])

    def label(I, s):
        t = I.enc_.enc(s)
        I.prove(NODE(t), 'the label of a state')
        return PDict([fam(I, lambda k: NH(t, k), lambda k: Sym(NV(t, k)))])
    nodes = PSet([Part((x,), NODE(x), Sym(x))])
    states = A('states', initial=PSet([Part((x,), INIT(x), Sym(x))]), find=Builtin('states.find', lambda I: _unsup()),
               **{'%call': lambda I: nodes, '%item': label, '%iter': lambda I: nodes.parts, '%in': lambda I, s: NODE(I.enc_.enc(s))})
    return A(kind, inputs=symdict(I, IN, PT), outputs=symdict(I, OUT, PT), states=states, transitions=A('transitions', find=Builtin('find', find), **{'%call': edges}),
             edges=Builtin('edges', edges), nodes=A('nodes', **{'%item': label, '%iter': lambda I: nodes.parts, '%call': lambda I: nodes}),
             _transition_dot_mask=A('masks', get=Builtin('get', lambda I, k, d=None: mask(I, k, d))),
             _state_dot_mask=A('masks', get=Builtin('get', lambda I, k, d=None: mask(I, k, d))),
             **{'%iter': lambda I: nodes.parts, '%in': lambda I, s: NODE(I.enc_.enc(s)), '%len': lambda I: lib.b_len(I, nodes)})


MASKED = F('masked', V, B)


def mask(I, k, d):
    t = I.enc_.enc(k)
    return Sym(F('mask', V, V)(t)) if I.branch(MASKED(t)) else d


class NewMachine:
    """Recorder of a machine under construction."""

    def __init__(self, I, kind, label):
        self.ins, self.outs, self.S, self.S0, self.T = PDict(), PDict(), PSet(), PSet(), PList()
        self.label = label

        def ports(to):
            def add(I, d, masks=None):
                if not isinstance(d, PDict):
                    raise Unsupported('ports')
                I.add_parts(to, d.parts)
            return add

        def trans(I, u, v, attr_dict=None, **kw):
            if set(kw) - {'**', 'check'}:
                raise Unsupported('keywords of a transition')
            if '**' in kw:
                I.prove(FALSE, 'labels with any names of ports are passed as a dictionary')
            I.add_parts(self.T, [single((u, v, self.label(I, u, v, attr_dict)))])
        adds = lambda I, c: I.add_parts(self.S, I.iter_parts(c))
        def initial(I, ps):
            for p in map(I.inst, ps):
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, mem(I, p.val, self.S))), 'initial states were added as states')
            I.add_parts(self.S0, ps)
        self.states = A('states', add_from=Builtin('add_from', adds), add=Builtin('add', lambda I, s: I.add_parts(self.S, [single(s)])),
                        initial=A('initial', add_from=Builtin('add_from', lambda I, c: initial(I, I.iter_parts(c))),
                                  add=Builtin('add', lambda I, s: initial(I, [single(s)]))))
        edge = lambda I, u, v, key=None, attr_dict=None, **kw: trans(I, u, v, attr_dict, **kw)
        self.m = A(kind, add_inputs=Builtin('add_inputs', ports(self.ins)), add_outputs=Builtin('add_outputs', ports(self.outs)), states=self.states,
                   add_nodes_from=Builtin('add_nodes_from', adds), transitions=A('transitions', add=Builtin('add', trans)), add_edge=Builtin('add_edge', edge))
        self.m.rec = self

    def same(self, I, name, keep=lambda k: TRUE):
        same_dict(I, self.ins, lambda k: And_(IN(k), keep(k)), PT, f'{name}: inputs')
        same_dict(I, self.outs, lambda k: And_(OUT(k), keep(k)), PT, f'{name}: outputs')
        x = I.const('x', V)
        I.prove(mem(I, Sym(x), self.S) == NODE(x), f'{name}: states')
        I.prove(mem(I, Sym(x), self.S0) == INIT(x), f'{name}: initial states')

    def returned(self, I, out, name):
        ok = out is self.m
        I.prove(z3.BoolVal(ok), f'{name}: returns the new machine')
        return ok


def mk_moore2mealy(ctx):
    I = ctx.new()
    I.feas_ground = True
    st = {}
    q = F('added', V, V, V, V)

    def label(I, u, v, d):
        """The label must be that of a transition with the outputs of its source."""
        if not isinstance(d, Attr):
            I.prove(FALSE, 'moore2mealy: the label is a copy of a label')
            raise Unsupported('label of a transition')
        upd = d.get('upd')
        t = I.enc_.enc(u)
        key = I.const('key', V)
        has = val = None
        I.prove(z3.BoolVal(len(upd) == 1), 'moore2mealy: outputs are added to the label')
        if len(upd) == 1:
            same_dict(I, PDict(list(upd[0])), lambda k: And_(NH(t, k), OUT(k)), lambda k: NV(t, k), 'moore2mealy: the outputs of the source state')
        return Sym(d.t, 'label')

    def setup(I):
        w = machine(I, 'MooreMachine')
        w.isinstance_ = lambda I, name: name == 'MooreMachine'
        new = st['new'] = NewMachine(I, 'MealyMachine', label)
        I.overrides[f'{MOD}:MealyMachine'] = Builtin('MealyMachine', lambda I: new.m)
        return lambda: I.call(ctx.resolve(f'{MOD}:moore2mealy'), [w], {})

    def post(I, out):
        name = 'moore2mealy'
        if not ctx.no_raise(I, out, name) or not st['new'].returned(I, out, name):
            return
        new = st['new']
        new.same(I, name)
        u, v, k = I.const('u', V), I.const('v', V), I.const('k', Z)
        l = I.const('l', V)
        I.prove(mem(I, (Sym(u), Sym(v), Sym(l, 'label')), new.T) == Exists_([k], And_(E(u, v, k), l == EL(u, v, k))), f'{name}: exactly the transitions with their labels')
    ctx.verify('moore2mealy', setup, post, f'{MOD}:moore2mealy')


TRIM = F('without_ports', V, V)


def mk_strip(ctx):
    for kind in ('set', 'list', 'iterator', 'dict'):
        I = ctx.new()
        I.feas_ground = True
        st = {}
        used = {}

        def names_ok(I, y):
            """y must have exactly the names to remove."""
            if not isinstance(y, Container):
                raise Unsupported('names')
            I.note_read(y)
            k = I.const('k', V)
            I.prove(mem(I, Sym(k), PSet([Part(p.vars, p.cond, p.val[0]) for p in y.parts]) if isinstance(y, PDict) else y) == RM(k), 'strip_ports: the names to remove')
            I.prove(z3.BoolVal(not isinstance(y, It)), 'strip_ports: an iterator is not used for several questions')

        def trim(I, f, args, kw):
            b = I.bind(f, args, kw)
            x, y = b['x'], b['y']
            names_ok(I, y)
            if isinstance(x, Attr):
                return Trimmed(TRIM(x.t))
            if not isinstance(x, PDict):
                raise Unsupported('ports')
            return PDict([Part(p.vars, And_(p.cond, Not_(RM(I.enc_.enc(p.val[0])))), p.val) for p in x.parts])
        I.contracts[f'{MOD}:trim_dict'] = trim

        def label(I, u, v, d):
            if not isinstance(d, Trimmed):
                I.prove(FALSE, 'strip_ports: the label without the removed ports')
                raise Unsupported('label')
            T = st['new'].T
            none = Not_(mem(I, (u, v, Sym(EMPTY, 'label')), T))
            I.prove(none, 'strip_ports: no transition is added beside an unlabeled one')
            return Sym(d.t, 'label')

        def rule(I, fr, node, it):
            new = st.get('new')
            if not isinstance(it, PList) or len(it.parts) != 1 or len(it.parts[0].vars) != 3:
                return False
            T = new.T
            TF = I.func('added', V, V, V, B)

            def havoc():
                a, b, l = I.const('a', V), I.const('b', V), I.const('l', V)
                I.set_parts(T, [Part((a, b, l), TF(a, b, l), (Sym(a), Sym(b), Sym(l, 'label')))])
                return [T]

            def inv(p, done):
                a, b, l, k = I.const('a', V), I.const('b', V), I.const('l', V), I.const('k', Z)
                return [('exactly the visited transitions', ForAll_([a, b, l], mem(I, (Sym(a), Sym(b), Sym(l, 'label')), T) == Exists_([k], And_(
                    done([a, b, k]), l == TRIM(EL(a, b, k))))))]
            I.inv_for(fr, node, it, havoc, inv, 'strip_ports')
            return True
        I.for_rules.append(rule)

        def setup(I):
            w = machine(I, 'MealyMachine')
            a, b, k = I.const('a', V), I.const('b', V), I.const('k', Z)
            c, d, l = I.const('c', V), I.const('d', V), I.const('l', Z)
            # all labels have all ports: either all become empty, or none
            I.assume(ForAll_([a, b, k, c, d, l], Implies_(And_(E(a, b, k), E(c, d, l), TRIM(EL(a, b, k)) == EMPTY), TRIM(EL(c, d, l)) == EMPTY)))
            new = st['new'] = NewMachine(I, 'MealyMachine', label)
            new.m.at['has_edge'] = Builtin('has_edge', lambda I, u, v: SB(I.parts_nonempty(I.filter_parts(new.T.parts, lambda e: And_(I._eqf(e[0], u), I._eqf(e[1], v))))))
            I.overrides[f'{MOD}:MealyMachine'] = Builtin('MealyMachine', lambda I: new.m)
            rm = dict(set=PSet, list=PList, iterator=It, dict=lambda ps: symdict(I, RM, PT))[kind]([fam(I, RM)])
            return lambda: I.call(ctx.resolve(f'{MOD}:strip_ports'), [w, rm], {})

        def post(I, out):
            name = f'strip_ports({kind})'
            new = st['new']
            if not ctx.no_raise(I, out, name) or not new.returned(I, out, name):
                return
            new.same(I, name, lambda k: Not_(RM(k)))
            u, v, k, l = I.const('u', V), I.const('v', V), I.const('k', Z), I.const('l', V)
            I.prove(mem(I, (Sym(u), Sym(v), Sym(l, 'label')), new.T) == Exists_([k], And_(E(u, v, k), l == TRIM(EL(u, v, k)))),
                    f'{name}: exactly the transitions, without the removed ports')
        ctx.verify(f'strip_ports({kind})', setup, post, f'{MOD}:strip_ports')


class Trimmed(Val):
    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return Trimmed(z3.substitute(self.t, *pairs))

    def truth_(self, I):
        return self.t != EMPTY

    def len_(self, I):
        return SN(z3.If(self.t == EMPTY, z3.IntVal(0), z3.IntVal(1)))

    def eq_(self, I, a, b):
        o = b if a is self else a
        if isinstance(o, PDict) and not o.parts:
            return self.t == EMPTY
        raise Unsupported('label')

    def kwargs_(self, I, named):
        return Attr(self.t)

# ------------------------------------------------------------------ Mealy to Moore
MS, ML, ST = F('mealy_state', V, V), F('moore_label', V, V), F('moore_state', V, V, V)
FIRST, DOMAIN = F('first_value', V, V), F('domain', V, Z, V, B)
O0 = z3.Const('initial_outputs', V)


class Rel(St):
    """Dictionary of sets: key t (has(t)) to the set {q | f(t, q)}."""

    def view(self, I, t):
        def add(I, q):
            x, f = I.enc_.enc(q), self.get('f')
            self.put(I, 'f', lambda a, b: Or_(And_(a == t, b == x), f(a, b)))
        w = A('set of states', add=Builtin('add', add), **{'%iter': lambda I: [fam(I, lambda q: self.get('f')(t, q))], '%in': lambda I, q: self.get('f')(t, I.enc_.enc(q))})
        return w

    def contains_(self, I, k):
        return self.get('has')(I.enc_.enc(k))

    def getitem_(self, I, k):
        t = I.enc_.enc(k)
        if not I.branch(self.get('has')(t)):
            raise PyExc(KeyError, (k,))
        return self.view(I, t)

    def setitem_(self, I, k, v):
        t = I.enc_.enc(k)
        if not isinstance(v, PSet):
            raise Unsupported('set of states')
        h, f = self.get('has'), self.get('f')
        ps = PSet(v.parts)
        self.put(I, 'has', lambda a: Or_(a == t, h(a)))
        self.put(I, 'f', lambda a, b: z3.If(a == t, mem(I, Sym(b), ps), f(a, b)))

    def getattr_(self, I, name):
        if name == 'setdefault':
            def sd(I, k, d):
                if not I.branch(self.get('has')(I.enc_.enc(k))):
                    self.setitem_(I, k, d)
                return self.view(I, I.enc_.enc(k))
            return Builtin('setdefault', sd)
        if name == 'get':
            def get(I, k, d=None):
                return self.view(I, I.enc_.enc(k)) if I.branch(self.get('has')(I.enc_.enc(k))) else d
            return Builtin('get', get)
        raise Unsupported(f'map of states: {name}')


def mk_create(ctx):
    K, HAS = F('known', V, B), F('has_states', V, B)
    I = ctx.new()
    I.enc_.formats = True
    st = {}

    def setup(I):
        q, t = I.const('q', V), I.const('t', V)
        n = z3.Int('count')
        I.assume(n >= 0)
        name = I.enc_.enc(SStr(['s', SN(n)]))
        I.assume(ForAll_([q], Implies_(K(q), q != name)))
        I.assume(ForAll_([q], Implies_(K(q), HAS(MS(q)))))
        NL = st['NL'] = PDict([fam(I, K, lambda q: Sym(ML(q), 'label'))])
        m1 = st['m1'] = PDict([fam(I, K, lambda q: Sym(MS(q)))])
        m2 = st['m2'] = Rel(has=lambda t: HAS(t), f=lambda t, q: And_(K(q), MS(q) == t))

        def add(I, s, label=None):
            I.prove(Not_(z3b(I.member_parts(s, [Part(p.vars, p.cond, p.val[0]) for p in NL.parts]))), '_create_state_str: a new state')
            if not isinstance(label, Lab):
                raise Unsupported('label of a state')
            I.dict_set(NL, s, Sym(label.t, 'label'))

        def item(I, s):
            v = I.dict_get(NL, s)
            if v is _MISSING:
                raise PyExc(KeyError, (s,))
            return Lab(v.t, ('n', I.enc_.enc(s)))
        states = A('states', add=Builtin('add', add), **{'%item': item})
        moore = A('moore', states=states, nodes=states, **{'%len': lambda I: SN(n)})
        s, o = I.sym('state'), z3.Const('outputs', V)
        st.update(s=s, o=o, name=name)
        return lambda: I.call(ctx.resolve(f'{MOD}:_create_state_str'), [s, Lab(o), moore, m1, m2], {})

    def post(I, out):
        nm = '_create_state_str'
        if not ctx.no_raise(I, out, nm):
            return
        r, s, o = I.enc_.enc(out), st['s'].t, st['o']
        q, t, l = I.const('q', V), I.const('t', V), I.const('l', V)
        old = lambda q: And_(K(q), MS(q) == s, ML(q) == o)
        I.prove(Implies_(K(r), old(r)), f'{nm}: a known state has the given state and outputs')
        I.prove(Implies_(Exists_([q], old(q)), K(r)), f'{nm}: a known state is used if there is one')
        new = lambda q: And_(q == r, Not_(K(r)))
        has = lambda q: Or_(K(q), new(q))
        I.prove(mem(I, (Sym(q), Sym(l, 'label')), st['NL']) == Or_(And_(K(q), l == ML(q)), And_(new(q), l == o)), f'{nm}: the states and their outputs')
        same_dict(I, st['m1'], has, lambda q: z3.If(K(q), MS(q), s), f'{nm}: the given states')
        f = st['m2'].get('f')
        I.prove(f(t, q) == And_(has(q), t == z3.If(K(q), MS(q), s)), f'{nm}: the states of each given state')
        I.prove(st['m2'].get('has')(t) == Or_(HAS(t), t == s), f'{nm}: the given states that are known')
    ctx.verify('_create_state_str', setup, post, f'{MOD}:_create_state_str')


class Domain(Val):
    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Domain(z3.substitute(self.k, *pairs))

    def iter_(self, I):
        i, v = I.const('i', Z), I.const('v', V)
        return [single(Sym(FIRST(self.k))), Part((i, v), DOMAIN(self.k, i, v), Sym(v))]


def mk_mealy2moore(ctx):
    I = ctx.new()
    I.feas_ground = True
    st = {}
    SF, QF = F('S', V, B), F('Q', V, B)
    OUTV = lambda u, v, k: PROJ(EL(u, v, k), P_OUT)
    INV = lambda u, v, k: PROJ(EL(u, v, k), P_IN)

    def split(I, f, args, kw):
        b = I.bind(f, args, kw)
        if not isinstance(b['attr_dict'], Attr) or b['attr_dict'].get('upd') or b['machine'] is not st['w']:
            raise Unsupported('label')
        t = b['attr_dict'].t
        return (Lab(PROJ(t, P_IN)), Lab(PROJ(t, P_OUT)))
    I.contracts[f'{MOD}:_split_io'] = split

    def oterm(I, o):
        if isinstance(o, PDict):
            same_dict(I, o, OUT, FIRST, 'initial outputs')
            return O0
        if isinstance(o, Lab):
            return o.t
        raise Unsupported('outputs')

    def create(I, f, args, kw):
        b = I.bind(f, args, kw)
        I.prove(z3.BoolVal(b['moore'] is st['new'].m), 'mealy2moore: states are added to the new machine')
        for k in ('moore2mealy_states', 'mealy2moore_states'):
            I.prove(z3.BoolVal(st.setdefault(k, b[k]) is b[k]), 'mealy2moore: the same map at each call')
        I.prove(z3.BoolVal(b['moore2mealy_states'] is not b['mealy2moore_states']), 'mealy2moore: two maps')
        t, o = I.enc_.enc(b['mealy_state']), oterm(I, b['output'])
        q = ST(t, o)
        I.assume(And_(MS(q) == t, ML(q) == o))
        I.add_parts(st['new'].S, [single(Sym(q))])
        I.dict_set(b['moore2mealy_states'], Sym(q), Sym(t))
        return Sym(q)
    I.contracts[f'{MOD}:_create_state_str'] = create

    def label(I, u, v, d):
        if not isinstance(d, Lab):
            raise Unsupported('label of a transition')
        for s in (u, v):
            I.prove(mem(I, s, st['new'].S), 'mealy2moore: transitions join states')
        return Sym(d.t, 'label')

    def frame(fr, node):
        Q = fr.f.get(node.test.id) if isinstance(node.test, ast.Name) else None
        if not isinstance(Q, PSet):
            raise Unsupported('worklist')
        ss = [v for k, v in fr.f.items() if isinstance(v, PSet) and v is not Q and v is not st['new'].S and v is not st.get('mealy2moore_states')]
        if len(ss) != 1:
            raise Unsupported('visited states')
        return Q, ss[0]

    def put(I, c, f):
        I.set_parts(c, [fam(I, f)])

    def put3(I, f):
        a, b, l = I.const('a', V), I.const('b', V), I.const('l', V)
        I.set_parts(st['new'].T, [Part((a, b, l), f(a, b, l), (Sym(a), Sym(b), Sym(l, 'label')))])

    def T(I, a, b, l):
        return mem(I, (Sym(a), Sym(b), Sym(l, 'label')), st['new'].T)

    def havoc(I, Q, S):
        q, s, t = I.func('q', V, B), I.func('s', V, B), I.func('t', V, V, V, B)
        put(I, Q, q)
        put(I, S, s)
        put(I, st['new'].S, s)
        put3(I, t)
        I.set_parts(st['moore2mealy_states'], [fam(I, s, lambda q: Sym(MS(q)))])
        return [Q, S, st['new'].S, st['new'].T, st['moore2mealy_states']]

    def maps(I, S):
        q = I.const('q', V)
        x = I.const('x', V)
        return [('states are those visited', ForAll_([q], mem(I, Sym(q), st['new'].S) == mem(I, Sym(q), S))),
                ('the map of states', ForAll_([q, x], mem(I, (Sym(q), Sym(x)), st['moore2mealy_states']) == And_(mem(I, Sym(q), S), x == MS(q))))]

    def succ(q, r, l):
        v, k = z3.Const('v!s', V), z3.Const('k!s', Z)
        return Exists_([v, k], And_(E(MS(q), v, k), r == ST(v, OUTV(MS(q), v, k)), l == INV(MS(q), v, k)))

    def outer(I, fr, node):
        Q, S = frame(fr, node)
        st.update(Q=Q, S=S)

        def inv():
            q, r, l, v, k = I.const('q', V), I.const('r', V), I.const('l', V), I.const('v', V), I.const('k', Z)
            iS, iQ = (lambda x: mem(I, Sym(x), S)), (lambda x: mem(I, Sym(x), Q))
            return maps(I, S) + [
                ('waiting states are visited', ForAll_([q], Implies_(iQ(q), iS(q)))),
                ('states of the given machine', ForAll_([q], Implies_(iS(q), And_(q == ST(MS(q), ML(q)), NODE(MS(q)))))),
                ('the initial state', iS(st['q0'])),
                ('only transitions of the machine', ForAll_([q, r, l], Implies_(T(I, q, r, l), And_(iS(q), Not_(iQ(q)), iS(r), succ(q, r, l))))),
                ('all transitions of processed states', ForAll_([q, v, k], Implies_(And_(iS(q), Not_(iQ(q)), E(MS(q), v, k)),
                                                                                   T(I, q, ST(v, OUTV(MS(q), v, k)), INV(MS(q), v, k)))))]
        I.inv_while(fr, node, lambda: havoc(I, Q, S), inv, 'worklist')
        return True
    I.while_rules[:] = [outer]

    def inner(I, fr, node, it):
        if not isinstance(it, PList) or len(it.parts) != 1 or len(it.parts[0].vars) != 2 or 'Q' not in st:
            return False
        Q, S = st['Q'], st['S']
        cur = [v for v in fr.f.values() if isinstance(v, Sym)]
        p0 = it.parts[0]
        s = I.enc_.enc(p0.val[0])
        q0s = [v.t for v in cur if I.entails(And_(MS(v.t) == s, mem(I, v, S)))] if hasattr(I, 'entails') else [v.t for k, v in fr.f.items() if isinstance(v, Sym) and k == 'new_si']
        if len(q0s) != 1:
            raise Unsupported('current state')
        c = q0s[0]
        S0, Q0, T0 = PSet(S.parts), PSet(Q.parts), PList(st['new'].T.parts)
        for w in (S0, Q0, T0):
            w.frozen = True

        def inv(p, done):
            x, r, l, v, k = I.const('x', V), I.const('r', V), I.const('l', V), I.const('v', V), I.const('k', Z)
            new = lambda x: Exists_([v, k], And_(done([v, k]), x == ST(v, OUTV(s, v, k))))
            return maps(I, S) + [
                ('visited states', ForAll_([x], mem(I, Sym(x), S) == Or_(mem(I, Sym(x), S0), new(x)))),
                ('waiting states', ForAll_([x], mem(I, Sym(x), Q) == Or_(mem(I, Sym(x), Q0), And_(new(x), Not_(mem(I, Sym(x), S0)))))),
                ('new states', ForAll_([v, k], Implies_(done([v, k]), And_(MS(ST(v, OUTV(s, v, k))) == v, ML(ST(v, OUTV(s, v, k))) == OUTV(s, v, k))))),
                ('added transitions', ForAll_([x, r, l], T(I, x, r, l) == Or_(mem(I, (Sym(x), Sym(r), Sym(l, 'label')), T0), Exists_([v, k], And_(
                    done([v, k]), x == c, r == ST(v, OUTV(s, v, k)), l == INV(s, v, k))))))]
        I.inv_for(fr, node, it, lambda: havoc(I, Q, S), inv, 'transitions')
        return True
    I.for_rules.append(inner)

    def setup(I):
        x = I.const('x', V)
        I.assume(Exists_([x], INIT(x)))
        w = st['w'] = machine(I, 'MealyMachine')
        w.at['outputs'] = PDict([fam(I, OUT, Domain)])
        w.isinstance_ = lambda I, name: name == 'MealyMachine'
        for k in ('Q', 'S', 'moore2mealy_states', 'mealy2moore_states', 'q0'):
            st.pop(k, None)
        new = st['new'] = NewMachine(I, 'MooreMachine', label)

        def add(I, s, d=None):
            t = I.enc_.enc(s)
            I.prove(mem(I, s, new.S), 'mealy2moore: the initial state')
            if d is not None:
                I.prove(ML(t) == oterm(I, d), 'mealy2moore: the outputs of the initial state')

        def init(I, s):
            t = I.enc_.enc(s)
            st['q0'] = t
            I.prove(mem(I, s, new.S), 'mealy2moore: the initial state was added as a state')
            I.add_parts(new.S0, [single(s)])
        new.m.at['states'] = A('states', add=Builtin('add', add), initial=A('initial', add=Builtin('add', init)))
        I.overrides[f'{MOD}:MooreMachine'] = Builtin('MooreMachine', lambda I: new.m)
        return lambda: I.call(ctx.resolve(f'{MOD}:mealy2moore'), [w], {})

    def post(I, out):
        name = 'mealy2moore'
        new = st['new']
        if not ctx.no_raise(I, out, name) or not new.returned(I, out, name):
            return
        same_dict(I, new.ins, IN, PT, f'{name}: inputs')
        k = I.const('k', V)
        I.prove(z3b(I.parts_nonempty(I.filter_parts(new.outs.parts, lambda e: I._eqf(e[0], Sym(k))))) == OUT(k), f'{name}: outputs')
        for p in map(I.inst, new.outs.parts):
            ok = isinstance(p.val[1], Domain)
            I.prove(z3.BoolVal(ok) if not ok else ForAll_(list(p.vars), Implies_(p.cond, p.val[1].k == I.enc_.enc(p.val[0]))), f'{name}: types of the outputs')
        x, q, r, l = I.const('x', V), I.const('q', V), I.const('r', V), I.const('l', V)
        q0 = st['q0']
        I.prove(mem(I, Sym(x), new.S0) == (x == q0), f'{name}: one initial state')
        I.prove(And_(INIT(MS(q0)), ML(q0) == O0), f'{name}: the initial state is that of the given machine')
        I.prove(mem(I, Sym(q0), new.S), f'{name}: the initial state is a state')
        I.prove(T(I, q, r, l) == And_(mem(I, Sym(q), new.S), succ(q, r, l)), f'{name}: a state has exactly the transitions of the given state, to states with their outputs')
        I.prove(Implies_(And_(mem(I, Sym(q), new.S), succ(q, r, l)), mem(I, Sym(r), new.S)), f'{name}: closed under reactions')
    ctx.verify('mealy2moore', setup, post, f'{MOD}:mealy2moore')



GROUPS = [Group('dictionaries', mk_dicts), Group('reaction', mk_reaction), Group('guided run', mk_run),
          Group('moore2mealy', mk_moore2mealy), Group('strip_ports', mk_strip),
          Group('states of a Moore machine', mk_create), Group('mealy2moore', mk_mealy2moore)]
ASSUMED = ['networkx.MultiDiGraph (vf/digraph.py)', 'labels are values with projections on sets of ports; labels of a machine have all its ports',
           'adding ports, states and transitions to a machine (C06, C09)']
BOUNDED = []
