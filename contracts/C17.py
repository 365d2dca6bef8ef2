"""Contracts for the machines built from strategies (tulip/synth.py)."""
import ast
import z3
from vf.contract import *
from vf import lib
from vf.core import _MISSING
from vf.digraph import A, F, B, Z
from contracts.C10 import St, symdict, same_dict, fam, mem, z3b

MOD = 'tulip.synth'
MA = 'tulip.transys.machines'
ENV, SYS, STR = F('env_var', V, B), F('sys_var', V, B), F('is_string_var', V, B)
TYPE = F('var_type', V, V)
NODE, E, HAS, VAL = F('node', V, B), F('edge', V, V, B), F('node_has', V, V, B), F('node_value', V, V, V)
CONV = F('string_value', V, V, V)       # variable, number
VALN = F('valuation', V, V)             # the values of all variables at a node
ALL = lambda k: Or_(ENV(k), SYS(k))
LABEL = lambda u, k: z3.If(STR(k), CONV(k, VAL(u, k)), VAL(u, k))
KEYS = z3.Const('all_variables_in_order', V)
SINIT = 'Sinit'


# ------------------------------------------------------------------ values and domains
class Strings(Val):
    """The list of strings of a variable."""

    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return Strings(z3.substitute(self.k, *pairs))

    def getitem_(self, I, i):
        if not isinstance(i, Number):
            raise Unsupported('position of a string')
        return Sym(CONV(self.k, i.t))


class Number(Val):
    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return Number(z3.substitute(self.t, *pairs))


def install(I):
    """int() of an answer of a solver, which may be text."""
    def toint(I, v):
        if isinstance(v, Sym):
            return Number(v.t)
        raise Unsupported('int of another value')
    I.overrides[f'{MOD}:int'] = Builtin('int', toint)


def mk_int2str(ctx):
    I = ctx.new()
    install(I)
    HX, VX = F('has', V, B), F('value', V, V)
    st = {}

    def setup(I):
        st['x'] = symdict(I, HX, VX)
        return lambda: I.call(ctx.resolve(f'{MOD}:_int2str'), [st['x'], PDict([fam(I, STR, Strings)])], {})

    def post(I, out):
        if ctx.no_raise(I, out, '_int2str'):
            same_dict(I, out, HX, lambda k: z3.If(STR(k), CONV(k, VX(k)), VX(k)), '_int2str')
            same_dict(I, st['x'], HX, VX, '_int2str: does not change the given values')
            I.prove(z3.BoolVal(out is not st['x']), '_int2str: a copy')
    ctx.verify('_int2str', setup, post, f'{MOD}:_int2str')


def mk_ports(ctx):
    I = ctx.new()
    I.feas_ground = True
    VAR, BOOLV, TUP = F('variable', V, B), F('is_boolean', V, B), F('is_range', V, B)
    LO, HI, DOM = F('first', V, Z), F('last', V, Z), F('domain', V, V, B)

    class Type(Val):
        def __init__(self, k):
            self.k = k

        def subst(self, pairs):
            return Type(z3.substitute(self.k, *pairs))

        def eq_(self, I, a, b):
            o = b if a is self else a
            return BOOLV(self.k) if o == 'boolean' else FALSE

        def isinstance_(self, I, name):
            b, t = BOOLV(self.k), TUP(self.k)
            return And_(Not_(b), t) if name == 'tuple' else And_(Not_(b), Not_(t)) if name == 'list' else b if name == 'str' else FALSE

        def unpack_(self, I, n):
            if not I.branch(And_(Not_(BOOLV(self.k)), TUP(self.k))):
                raise Unsupported('first and last value of another type')
            return [SN(LO(self.k)), SN(HI(self.k))]

        def getitem_(self, I, i):
            return self.unpack_(I, 2)[i]

        def iter_(self, I):
            I.prove(And_(Not_(BOOLV(self.k)), Not_(TUP(self.k))), 'only lists of values are enumerated')
            return [fam(I, lambda x: DOM(self.k, x))]

    def setup(I):
        return lambda: I.call(ctx.resolve(f'{MA}:create_machine_ports'), [PDict([fam(I, VAR, Type)])], {})

    def post(I, out):
        nm = 'create_machine_ports'
        if not ctx.no_raise(I, out, nm):
            return
        if not isinstance(out, PDict):
            I.prove(FALSE, f'{nm}: a dictionary')
            return
        k, x = I.const('k', V), I.const('x', V)
        I.prove(Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == k)) for p in map(I.inst, out.parts)]) == VAR(k), f'{nm}: one domain for each variable')
        i = I.const('i', Z)
        for p in map(I.inst, out.parts):
            v, d = p.val
            t = I.enc_.enc(v)
            if not isinstance(d, PSet):
                I.prove(FALSE, f'{nm}: domains are sets')
                continue
            has = lambda y: mem(I, y, d)
            I.prove(ForAll_(list(p.vars) + [i], Implies_(p.cond, z3.If(BOOLV(t), has(SN(i)) == Or_(i == 0, i == 1), Implies_(
                TUP(t), has(SN(i)) == And_(LO(t) <= i, i <= HI(t)))))), f'{nm}: Boolean and integer domains')
            I.prove(ForAll_(list(p.vars) + [x], Implies_(And_(p.cond, Not_(BOOLV(t)), Not_(TUP(t))), has(Sym(x)) == DOM(t, x))), f'{nm}: listed values')
    ctx.verify('create_machine_ports', setup, post, f'{MA}:create_machine_ports')


# ------------------------------------------------------------------ strategy to machine
class Mach:
    """Recorder of the machine."""

    def __init__(self, I):
        self.S, self.S0, self.T, self.ports = PSet(), PSet(), PList(), {}
        I_ = I

        def add(I, u, v, attr_dict=None, check=True, **kw):
            if kw:
                I.prove(FALSE, 'labels with any names of variables are passed as a dictionary')
                raise Unsupported('keywords of a transition')
            # the label must be that of a node
            if not isinstance(attr_dict, PDict):
                raise Unsupported('label of a transition')
            t = I.enc_.enc(v)
            same_dict(I, attr_dict, lambda k: ALL(k), lambda k: LABEL(t, k), 'the label of a transition has the values of the target node')
            I.add_parts(self.T, [single((u, v))])
        adds = lambda I, c: I.add_parts(self.S, I.iter_parts(c))

        def initial(I, ps):
            for p in map(I.inst, ps):
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, mem(I, p.val, self.S))), 'initial states were added as states')
            I.add_parts(self.S0, ps)

        def ports(k):
            def f(I, d):
                I.prove(z3.BoolVal(k not in self.ports), 'ports are added once')
                self.ports[k] = d
            return f
        self.m = A('machine', add_inputs=Builtin('add_inputs', ports('in')), add_outputs=Builtin('add_outputs', ports('out')),
                   states=A('states', add_from=Builtin('add_from', adds), add=Builtin('add', lambda I, s: I.add_parts(self.S, [single(s)])),
                            initial=A('initial', add=Builtin('add', lambda I, s: initial(I, [single(s)])),
                                      add_from=Builtin('add_from', lambda I, c: initial(I, I.iter_parts(c))))),
                   transitions=A('transitions', add=Builtin('add', add)), add_edge=Builtin('add_edge', lambda I, u, v, key=None, **kw: add(I, u, v, **kw)),
                   add_nodes_from=Builtin('add_nodes_from', adds),
                   successors=Builtin('successors', lambda I, s: A('successors', **{'%iter': lambda I: [
                           Part(p.vars, p.cond, p.val[1]) for p in I.filter_parts(self.T.parts, lambda e: I._eqf(e[0], s))]})),    # an iterator
                   **{'%len': lambda I: COUNT})


class _Count(Val):
    """Number of states; compared with the number of nodes of the strategy."""

    def __init__(self, m):
        self.m = m

    def subst(self, pairs):
        return self


NN = z3.Int('number_of_nodes')
COUNT = SN(NN + 1)      # proved: the states are the nodes and one new state


class NodeState(Val):
    """Values of the variables at node u; at KEYS, the tuple of all of them."""

    def __init__(self, u):
        self.u = u

    def subst(self, pairs):
        return NodeState(z3.substitute(self.u, *pairs))

    def getitem_(self, I, k):
        if isinstance(k, Sym) and k.t.eq(KEYS):
            return Sym(VALN(self.u))
        t = I.enc_.enc(k)
        if not I.branch(HAS(self.u, t)):
            raise PyExc(KeyError, (k,))
        return Sym(VAL(self.u, t))

    def items(self):
        k = z3.FreshConst(V, 'k')
        return [Part((k,), HAS(self.u, k), (Sym(k), Sym(VAL(self.u, k))))]

    def getattr_(self, I, name):
        if name == 'items':
            return Builtin('items', lambda I: PList(self.items()))
        if name == 'keys':
            return Builtin('keys', lambda I: PSet([Part(p.vars, p.cond, p.val[0]) for p in self.items()]))
        raise Unsupported(f'values of a node: {name}')

    def iter_(self, I):
        return [Part(p.vars, p.cond, p.val[0]) for p in self.items()]

    def contains_(self, I, k):
        return HAS(self.u, I.enc_.enc(k))

    def isinstance_(self, I, name):
        return name in ('dict', 'Mapping')


def strategy(I, initial):
    u, v, k = I.const('u', V), I.const('v', V), I.const('k', V)
    I.assume(ForAll_([u, v], Implies_(E(u, v), And_(NODE(u), NODE(v)))))
    I.assume(Exists_([u], NODE(u)))
    I.assume(ForAll_([u, k], Implies_(And_(NODE(u), ALL(k)), HAS(u, k))))
    # equal valuations are equal values of all variables
    I.assume(ForAll_([u, v], Implies_(VALN(u) == VALN(v), ForAll_([k], Implies_(ALL(k), VAL(u, k) == VAL(v, k))))))
    I.assume(ForAll_([k], Not_(And_(ENV(k), SYS(k)))))
    I.assume(Not_(NODE(I.enc_.enc(SINIT))))

    def attr(I, n):
        t = I.enc_.enc(n)
        I.prove(NODE(t), 'values of a node of the strategy')
        return A('attributes', **{'%item': lambda I, a: NodeState(t) if a == 'state' else _bad(a)})

    def view(I, data=False):
        return PList([Part((u,), NODE(u), (Sym(u), attr(I, Sym(u)) if False else A_(u)) if data else Sym(u))])
    nodes = A('nodes', **{'%item': attr, '%call': view, '%iter': lambda I: [Part((u,), NODE(u), Sym(u))]})
    at = dict(nodes=nodes, successors=Builtin('successors', lambda I, s: It([Part((v,), E(I.enc_.enc(s), v), Sym(v))])),
              edges=Builtin('edges', lambda I: PList([Part((u, v), E(u, v), (Sym(u), Sym(v)))])))
    w = A('strategy', **at, **{'%iter': lambda I: [Part((u,), NODE(u), Sym(u))], '%len': lambda I: SN(NN), '%in': lambda I, n: NODE(I.enc_.enc(n))})
    w.truth_ = lambda I: TRUE
    if initial is not None:
        w.at['initial_nodes'] = initial
    return w


class A_(Val):
    def __init__(self, u):
        self.u = u

    def subst(self, pairs):
        return A_(z3.substitute(self.u, *pairs))

    def getitem_(self, I, a):
        return NodeState(self.u) if a == 'state' else _bad(a)


def _bad(a):
    raise Unsupported(f'attribute {a}')


def int2str(I, f, args, kw):
    b = I.bind(f, args, kw)
    d, s = b['label'], b['str_vars']
    I.prove(str_ok(I, s), 'the string variables')
    ps = d.items() if isinstance(d, NodeState) else d.parts if isinstance(d, PDict) else _bad(d)

    def val(p):
        k, v = p.val
        t, x = I.enc_.enc(k), I.enc_.enc(v)
        return Part(p.vars, p.cond, (k, Sym(z3.If(STR(t), CONV(t, x), x))))
    return PDict(list(map(val, ps)))


def str_ok(I, s):
    if s is STRVARS:
        return TRUE
    if not isinstance(s, PDict):
        raise Unsupported('string variables')
    k = I.const('k', V)
    fs = [Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0]) == k)) for p in map(I.inst, s.parts)]) == And_(ALL(k), STR(k))]
    for p in map(I.inst, s.parts):
        if not isinstance(p.val[1], VarType):
            raise Unsupported('string variables')
        fs.append(ForAll_(list(p.vars), Implies_(p.cond, p.val[1].k == I.enc_.enc(p.val[0]))))
    return And_(*fs)


STRVARS = A('string variables')


class VarType(Val):
    def __init__(self, k):
        self.k = k

    def subst(self, pairs):
        return VarType(z3.substitute(self.k, *pairs))

    def isinstance_(self, I, name):
        if name == 'list':
            return STR(self.k)
        raise Unsupported(f'type of a variable: {name}')


def vars_ok(I, d):
    """d has exactly all variables."""
    if not isinstance(d, Container):
        raise Unsupported('variables')
    k = I.const('k', V)
    return Or_(*[Exists_(list(p.vars), And_(p.cond, I.enc_.enc(p.val[0] if isinstance(d, PDict) else p.val) == k)) for p in map(I.inst, d.parts)]) == ALL(k)


def mk_strategy(ctx):
    for given in (True, False):
        I = ctx.new()
        I.feas_ground = True
        I.contracts[f'{MOD}:_int2str'] = int2str
        st = {}

        def ports(I, f, args, kw):
            d, = I.bind(f, args, kw).values()
            return A('ports', d=d)
        I.contracts[f'{MA}:create_machine_ports'] = ports

        def first(kind):
            def f(I, f_, args, kw):
                b = I.bind(f_, args, kw)
                I.prove(z3.BoolVal(kind == given and st['init'] == 0), 'initial transitions are added once, from the given nodes if there are any')
                st['init'] += 1
                I.prove(z3.BoolVal(b['A'] is st['A'] and b['mach'] is st['m'].m), 'initial transitions of the machine')
                I.prove(vars_ok(I, b['keys']), 'the order has all variables')
                I.prove(vars_ok(I, b['all_vars']), 'all variables')
                I.prove(str_ok(I, b['str_vars']), 'the string variables')
                I.prove(mem(I, b['initial_state'], st['m'].S), 'the start state is a state')
                I.prove(mem(I, b['initial_state'], st['m'].S0), 'the start state is initial')
                if 'spec' in b:
                    I.prove(z3.BoolVal(b['spec'] is st['spec']), 'the specification')
            return f
        I.contracts[f'{MOD}:_init_edges_using_initial_nodes'] = first(True)
        I.contracts[f'{MOD}:_init_edges_using_compile_init'] = first(False)

        def setup(I):
            st['init'] = 0
            st['m'] = Mach(I)
            st['A'] = strategy(I, A('initial nodes') if given else None)
            st['env'], st['sys'] = PDict([fam(I, ENV, VarType)]), PDict([fam(I, SYS, VarType)])
            st['spec'] = A('spec', env_vars=st['env'], sys_vars=st['sys'])
            I.overrides['tulip.transys:MealyMachine'] = Builtin('MealyMachine', lambda I: st['m'].m)
            I.overrides['tulip.transys.machines:MealyMachine'] = I.overrides['tulip.transys:MealyMachine']
            I.overrides[f'{MOD}:hasattr'] = Builtin('hasattr', lambda I, o, n: n in o.at)
            return lambda: I.call(ctx.resolve(f'{MOD}:strategy2mealy'), [st['A'], st['spec']], {})

        def post(I, out):
            nm = f'strategy2mealy(initial nodes: {given})'
            if not ctx.no_raise(I, out, nm):
                return
            m = st['m']
            I.prove(z3.BoolVal(out is m.m), f'{nm}: returns the machine')
            ok = {k: isinstance(v, A) and v.name == 'ports' and v.at['d'] for k, v in m.ports.items()}
            I.prove(z3.BoolVal(ok.get('in') is st['env'] and ok.get('out') is st['sys']), f'{nm}: inputs are the variables of the environment, outputs those of the system')
            I.prove(z3.BoolVal(st['init'] == 1), f'{nm}: initial transitions are added')
            u, v = I.const('u', V), I.const('v', V)
            I.prove(mem(I, (Sym(u), Sym(v)), m.T) == E(u, v), f'{nm}: exactly the transitions of the strategy')
            s = I.enc_.enc(SINIT)
            I.prove(mem(I, Sym(u), m.S) == Or_(NODE(u), u == s), f'{nm}: a state for each node, and the start state')
            I.prove(mem(I, Sym(u), m.S0) == (u == s), f'{nm}: the start state is initial')
        ctx.verify(f'strategy2mealy({given})', setup, post, f'{MOD}:strategy2mealy')


def mk_initial(ctx):
    INI, GOOD = F('initial_node', V, B), F('initial_condition', V, B)
    for fn in ('_init_edges_using_initial_nodes', '_init_edges_using_compile_init'):
        I = ctx.new()
        I.feas_ground = True
        I.contracts[f'{MOD}:_int2str'] = int2str
        st = {}
        comp = fn.endswith('compile_init')
        adm = (lambda u: And_(NODE(u), GOOD(VALN(u)))) if comp else INI

        def ev(I, code, env):
            I.prove(z3.BoolVal(code is st['code']), 'the initial condition of the specification')
            w = env if isinstance(env, NodeState) else getattr(env, 'cur', None) and env.cur.f['u']
            if not isinstance(w, NodeState):
                raise Unsupported('evaluation of the initial condition')
            return SB(GOOD(VALN(w.u)))
        I.overrides[f'{MOD}:eval'] = Builtin('eval', ev)

        def mkdict(I, *a):
            """dict() that only collects the values of a node for eval."""
            if a:
                if isinstance(a[0], NodeState):
                    return a[0]
                return PDict(a[0].parts)
            w = Env()
            st.setdefault('env', []).append(w)
            return w
        if comp:
            I.overrides[f'{MOD}:dict'] = Builtin('dict', mkdict)

        class Env(Val):
            def __init__(self):
                self.cur = Obj(None, dict(u=None))

            def subst(self, pairs):
                return self

            def getattr_(self, I, name):
                if name != 'update':
                    raise Unsupported(f'values for the initial condition: {name}')

                def up(I, d):
                    if not isinstance(d, NodeState):
                        raise Unsupported('values for the initial condition')
                    I.set_field(self.cur, 'u', d)
                return Builtin('update', up)

        def rule(I, fr, node, it):
            # the set of valuations that is extended in the loop
            seen = [v for k, v in fr.f.items() if isinstance(v, PSet) and k not in ('keys',) and any(
                isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'add' and isinstance(c.func.value, ast.Name) and c.func.value.id == k
                for s in node.body for c in ast.walk(s))]
            if len(seen) != 1:
                return False
            S, T = seen[0], st['m'].T
            ini = I.enc_.enc(st['s'])

            def havoc():
                x, v = I.const('x', V), I.const('v', V)
                SF, TF = I.func('seen', V, B), I.func('initial_edge', V, B)
                I.set_parts(S, [Part((x,), SF(x), (Sym(x),))])
                I.set_parts(T, [Part((v,), TF(v), (st['s'], Sym(v)))])
                out = [S, T]
                for w in st.get('env', []):
                    I.set_field(w.cur, 'u', None)
                    out.append(w.cur)
                return out

            def inv(p, done):
                x, v, u, w = I.const('x', V), I.const('v', V), I.const('u', V), I.const('w', V)
                to = lambda v: mem(I, (st['s'], Sym(v)), T)
                return [('valuations that have a transition', ForAll_([x], mem(I, (Sym(x),), S) == Exists_([v], And_(to(v), VALN(v) == x)))),
                        ('transitions to admissible nodes', ForAll_([v], Implies_(to(v), And_(adm(v), done([v]))))),
                        ('each admissible valuation', ForAll_([u], Implies_(And_(done([u]), adm(u)), Exists_([v], And_(to(v), VALN(v) == VALN(u)))))),
                        ('one transition for each valuation', ForAll_([v, w], Implies_(And_(to(v), to(w), VALN(v) == VALN(w)), v == w))),
                        ('no other transitions', ForAll_([u, v], Implies_(mem(I, (Sym(u), Sym(v)), T), u == ini)))]
            I.inv_for(fr, node, it, havoc, inv, 'initial transitions')
            return True
        I.for_rules.append(rule)

        def setup(I):
            u = I.const('u', V)
            st.clear()
            st['m'] = Mach(I)
            st['s'] = I.sym('start')
            ini = None
            if not comp:
                I.assume(ForAll_([u], Implies_(INI(u), NODE(u))))
                I.assume(Exists_([u], INI(u)))
                ini = PSet([fam(I, INI)])
            g = strategy(I, ini)
            keys = A('keys', **{'%iter': lambda I: [single(Sym(KEYS))]})
            allv = symdict(I, ALL, TYPE)
            a = [g, st['m'].m, keys, allv, STRVARS, st['s']]
            if comp:
                st['code'] = A('code')

                def compile_init(I, no_str=None):
                    I.prove(z3.BoolVal(no_str is True), 'the initial condition is over numbers')
                    return st['code']
                a = [A('spec', compile_init=Builtin('compile_init', compile_init))] + a
            return lambda: I.call(ctx.resolve(f'{MOD}:{fn}'), a, {})

        def post(I, out):
            if not ctx.no_raise(I, out, fn):
                return
            T, s = st['m'].T, st['s'].t
            u, v, w = I.const('u', V), I.const('v', V), I.const('w', V)
            to = lambda v: mem(I, (st['s'], Sym(v)), T)
            I.prove(Implies_(mem(I, (Sym(u), Sym(v)), T), And_(u == s, adm(v))), f'{fn}: transitions from the start state to admissible nodes')
            I.prove(Implies_(adm(u), Exists_([v], And_(to(v), VALN(v) == VALN(u)))), f'{fn}: each admissible valuation has a transition')
            I.prove(Implies_(And_(to(v), to(w), VALN(v) == VALN(w)), v == w), f'{fn}: one transition for each valuation')
            I.prove(z3.BoolVal(not st['m'].S.parts and not st['m'].S0.parts), f'{fn}: adds no states')
        ctx.verify(fn, setup, post, f'{MOD}:{fn}')


# ------------------------------------------------------------------ deterministic initialization, masks
INP, OUTP, GIVEN, WANTED = F('input', V, B), F('output', V, B), F('given', V, B), F('wanted', V, V)
ME, MV = F('transition', V, V, Z, B), F('label_value', V, V, Z, V, V)
INV = F('input_valuation', V, V, Z, V)
IKEYS = z3.Const('inputs_in_order', V)


class EdgeLab(Val):
    def __init__(self, e):
        self.e = e

    def subst(self, pairs):
        return EdgeLab(tuple(z3.substitute(x, *pairs) for x in self.e))

    def getitem_(self, I, k):
        if isinstance(k, Sym) and k.t.eq(IKEYS):
            return Sym(INV(*self.e))
        t = I.enc_.enc(k)
        I.prove(Or_(INP(t), OUTP(t)), 'a port of the machine')
        return Sym(MV(*self.e, t))

    def getattr_(self, I, name):
        if name == 'get':
            return Builtin('get', lambda I, k, d=None: self.getitem_(I, k))
        if name == 'items':
            k = z3.FreshConst(V, 'k')
            return Builtin('items', lambda I: PList([Part((k,), Or_(INP(k), OUTP(k)), (Sym(k), Sym(MV(*self.e, k))))]))
        raise Unsupported(f'label: {name}')


class DetMach(Val):
    def __init__(self, I, copied=False, T=None):
        self.copied = copied
        u, v, k = I.const('u', V), I.const('v', V), I.const('k', Z)
        self.T = PList(T or [Part((u, v, k), ME(u, v, k), (Sym(u), Sym(v), SN(k)))])

    def subst(self, pairs):
        return self

    def copy_deep_(self, I):
        w = DetMach(I, True, list(self.T.parts))
        return w

    def getattr_(self, I, name):
        if name == 'inputs':
            return A('inputs', **{'%iter': lambda I: [single(Sym(IKEYS))], '%in': lambda I, k: INP(I.enc_.enc(k))})
        if name == 'outputs':
            return symdict(I, OUTP, TYPE)
        if name == 'edges':
            def edges(I, nb=None, data=False, keys=False):
                I.note_read(self.T)
                ps = self.T.parts
                if nb is not None:
                    s, = I.concrete_elems(nb)
                    ps = I.filter_parts(ps, lambda e: I._eqf(e[0], s))

                def val(p):
                    e = p.val
                    t = (I.enc_.enc(e[0]), I.enc_.enc(e[1]), e[2].t)
                    return Part(p.vars, p.cond, (e[0], e[1]) + ((e[2],) if keys else ()) + ((EdgeLab(t),) if data else ()))
                return PList([val(p) for p in ps])
            return Builtin('edges', edges)
        if name in ('remove_edges_from', 'remove_edge'):
            def rm(I, es):
                I.prove(z3.BoolVal(self.copied), 'only the copy is edited')
                ps = list(es.parts) if isinstance(es, Container) else _bad('edges')
                I.set_parts(self.T, I.filter_parts(self.T.parts, lambda e: Not_(z3b(I.member_parts(e, ps)))))
            if name == 'remove_edges_from':
                return Builtin(name, rm)
        raise Unsupported(f'machine: {name}')


def mk_det(ctx):
    for given in (True, False):
        I = ctx.new()
        I.only_facts = True
        I.feas_ground = True
        st = {}
        SI = I.enc_.enc(SINIT)
        ok = (lambda u, v, k: ForAll_([z3.Const('o', V)], Implies_(And_(OUTP(z3.Const('o', V)), GIVEN(z3.Const('o', V))), MV(u, v, k, z3.Const('o', V)) == WANTED(z3.Const('o', V))))) \
            if given else (lambda u, v, k: TRUE)

        def rule(I, fr, node, it):
            add = {c.func.value.id for s in node.body for c in ast.walk(s) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                   and c.func.attr == 'add' and isinstance(c.func.value, ast.Name)}
            sets = {k: v for k, v in fr.f.items() if isinstance(v, PSet) and k in add}
            if len(sets) != 2 or not isinstance(it, PList):
                return False
            used = [k for k in sets if any(isinstance(c, ast.Compare) and any(isinstance(x, ast.Name) and x.id == k for x in c.comparators) for s in node.body for c in ast.walk(s))]
            if len(used) != 1:
                return False
            S = sets[used[0]]
            R, = [v for k, v in sets.items() if k != used[0]]

            def havoc():
                x, u, v, k = I.const('x', V), I.const('u', V), I.const('v', V), I.const('k', Z)
                SF, RF = I.func('seen', V, B), I.func('removed', V, V, Z, B)
                I.set_parts(S, [Part((x,), SF(x), (Sym(x),))])
                I.set_parts(R, [Part((u, v, k), RF(u, v, k), (Sym(u), Sym(v), SN(k)))])
                return [S, R]

            def inv(p, done):
                x, u, v, k = I.const('x', V), I.const('u', V), I.const('v', V), I.const('k', Z)
                a, b, l = I.const('a', V), I.const('b', V), I.const('l', Z)
                rm = lambda u, v, k: mem(I, (Sym(u), Sym(v), SN(k)), R)
                kept = lambda u, v, k: And_(done([u, v, k]), Not_(rm(u, v, k)))
                return [('removed transitions were visited', ForAll_([u, v, k], Implies_(rm(u, v, k), done([u, v, k])))),
                        ('seen inputs', ForAll_([x], mem(I, (Sym(x),), S) == Exists_([u, v, k], And_(done([u, v, k]), INV(u, v, k) == x)))),
                        ('a transition is kept for seen inputs', ForAll_([u, v, k], Implies_(done([u, v, k]), Exists_([a, b, l], And_(
                            kept(a, b, l), INV(a, b, l) == INV(u, v, k)))))),
                        ('one transition is kept', ForAll_([u, v, k, a, b, l], Implies_(And_(kept(u, v, k), kept(a, b, l), INV(u, v, k) == INV(a, b, l)),
                                                                                       And_(u == a, v == b, k == l))))]
            I.inv_for(fr, node, it, havoc, inv, 'one transition for each input')
            return True
        I.for_rules.append(rule)

        def setup(I):
            m = st['m'] = DetMach(I)
            d = symdict(I, GIVEN, WANTED) if given else None
            return lambda: I.call(ctx.resolve(f'{MOD}:determinize_machine_init'), [m, d], {})

        def post(I, out):
            nm = f'determinize_machine_init({"outputs" if given else "none"})'
            if not ctx.no_raise(I, out, nm):
                return
            good = isinstance(out, DetMach) and out.copied
            I.prove(z3.BoolVal(good), f'{nm}: returns a copy')
            if not good:
                return
            u, v, k = I.const('u', V), I.const('v', V), I.const('k', Z)
            a, b, l = I.const('a', V), I.const('b', V), I.const('l', Z)
            T = lambda u, v, k: mem(I, (Sym(u), Sym(v), SN(k)), out.T)
            I.prove(Implies_(T(u, v, k), ME(u, v, k)), f'{nm}: no transition is added')
            I.prove(Implies_(And_(ME(u, v, k), u != SI), T(u, v, k)), f'{nm}: no other transition is removed')
            I.prove(Implies_(And_(T(SI, v, k)), ok(SI, v, k)), f'{nm}: initial transitions have the given outputs')
            I.prove(Implies_(And_(T(SI, v, k), T(SI, b, l), INV(SI, v, k) == INV(SI, b, l)), And_(v == b, k == l)), f'{nm}: at most one transition for each input')
            I.prove(Implies_(And_(ME(SI, v, k), ok(SI, v, k)), Exists_([b, l], And_(T(SI, b, l), INV(SI, b, l) == INV(SI, v, k)))), f'{nm}: a transition for each input')
            I.prove(mem(I, (Sym(u), Sym(v), SN(k)), st['m'].T) == ME(u, v, k), f'{nm}: the machine is not changed')
        ctx.verify(f'determinize_machine_init({given})', setup, post, f'{MOD}:determinize_machine_init')


def mk_mask(ctx):
    I = ctx.new()
    st = {}
    HK = F('label_has', V, V, Z, V, B)

    class Stored(St):
        """The label stored for a transition."""

        def __init__(self, e):
            super().__init__(gone=lambda k: FALSE, looping=0)
            self.e = e

        def has(self, k):
            return And_(HK(*self.e, k), Not_(self.get('gone')(k)))

        def iter_(self, I):
            return It_live(self, I)

        def getitem_(self, I, k):
            t = I.enc_.enc(k)
            if not I.branch(self.has(t)):
                raise PyExc(KeyError, (k,))
            return Sym(MV(*self.e, t))

        def contains_(self, I, k):
            return self.has(I.enc_.enc(k))

        def setitem_(self, I, k, v):
            I.prove(FALSE, 'mask_outputs: labels are only reduced')

        def getattr_(self, I, name):
            if name in ('pop', '__delitem__'):
                def pop(I, k, *d):
                    t = I.enc_.enc(k)
                    I.prove(z3.BoolVal(not st['live']), 'mask_outputs: a label is not reduced while it is enumerated')
                    if not I.branch(self.has(t)):
                        if d:
                            return d[0]
                        raise PyExc(KeyError, (k,))
                    st['popped'].append((self, t))
                    return Sym(MV(*self.e, t))
                return Builtin(name, pop)
            if name in ('items', 'keys'):
                return Builtin(name, lambda I: A('view', **{'%iter': lambda I: It_live(self, I, name == 'items')}))
            raise Unsupported(f'label: {name}')

    def It_live(d, I, items=False):
        k = I.const('k', V)
        st['view'] = True
        return [Part((k,), d.has(k), (Sym(k), Sym(MV(*d.e, k))) if items else Sym(k))]

    def rule(I, fr, node, it):
        if isinstance(it, PList) and len(it.parts) == 1 and len(it.parts[0].vars) == 3:
            # one arbitrary transition
            p = I.inst(it.parts[0])
            u, v, k = p.vars
            I.prove(p.cond == ME(u, v, k), 'mask_outputs: all transitions are visited')
            if I.choose([TRUE, TRUE]) == 0:
                I.assume(p.cond)
                d = Stored((u, v, k))
                st['d'] = d
                val = tuple(d if isinstance(x, EdgeLab) else x for x in p.val)
                st['loops'] = 0
                I.iteration(fr, node, Part((), TRUE, val), [d.o])
                x = I.const('x', V)
                want = And_(HK(u, v, k, x), Not_(And_(OUTP(x), MV(u, v, k, x) == I.enc_.enc(0))))
                I.prove(d.has(x) == want, 'mask_outputs: exactly the outputs that are zero are erased')
                raise Infeasible()
            return True
        d = st.get('d')
        if d is None:
            return False
        live = it is d or isinstance(it, A) and it.name == 'view'
        parts = I.iter_parts(it)
        if len(parts) != 1:
            return False
        p = I.inst(parts[0])
        t = I.enc_.enc(p.val[0] if isinstance(p.val, tuple) else p.val)
        x = I.const('x', V)
        I.prove(ForAll_([x], d.has(x) == Exists_(list(p.vars), And_(p.cond, t == x))), 'mask_outputs: all names of the label are visited')
        # effect of one iteration on its own name
        if I.choose([TRUE, TRUE]) == 0:
            I.assume(p.cond)
            st['popped'], st['live'] = [], live
            I.iteration(fr, node, Part((), TRUE, p.val))
            gone = [y for w, y in st['popped']]
            for y in gone:
                I.prove(y == t, 'mask_outputs: only the visited name is erased')
            zero = And_(OUTP(t), MV(*d.e, t) == I.enc_.enc(0))
            I.prove(zero if gone else Not_(zero), 'mask_outputs: an output is erased if and only if it is zero')
            raise Infeasible()
        g = d.get('gone')
        d.put(I, 'gone', lambda k: Or_(g(k), And_(OUTP(k), MV(*d.e, k) == I.enc_.enc(0))))
        return True
    I.for_rules.append(rule)

    def setup(I):
        st.clear()
        m = DetMach(I)
        return lambda: I.call(ctx.resolve(f'{MOD}:mask_outputs'), [m], {})

    def post(I, out):
        ctx.no_raise(I, out, 'mask_outputs')
    ctx.verify('mask_outputs', setup, post, f'{MOD}:mask_outputs')


GROUPS = [Group('values', mk_int2str), Group('ports', mk_ports), Group('strategy', mk_strategy), Group('initial transitions', mk_initial),
          Group('deterministic initialization', mk_det), Group('mask', mk_mask)]
ASSUMED = ['adding ports, states and transitions to a machine (C06, C09)', 'the tuple of the values of all variables in a fixed order is equal iff the values are',
           'deep copy of a machine is equal to it and independent', 'eval of the compiled initial condition (C15) reads the given values']
BOUNDED = []
