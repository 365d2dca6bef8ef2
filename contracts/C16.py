"""Contracts for the exclusion constraints of tulip/synth.py.

Formulas are opaque strings; HOLDS(x) is the truth of formula x in an arbitrary
valuation, so a statement proved for HOLDS is proved for every valuation.
"""
import z3
from vf.contract import *
from vf import tmpl

MOD = 'tulip.synth'
HOLDS = z3.Function('HOLDS', V, z3.BoolSort())
VALUE = z3.Function('VALUE', V, V)              # value of a named variable
truthy = z3.Function('truthy', V, z3.BoolSort())


def atom(e, k=0):
    """Leaves at the current step."""
    if e.op == 'hole' and isinstance(e.data, Sym):
        return HOLDS(e.data.t)
    if e.op == '=':
        a, b = e.args
        return _term(a) == _term(b)
    raise Unsupported(f'leaf {e!r}')


def _term(e):
    enc = _enc
    if e.op == 'hole':
        d = e.data
        if isinstance(d, Sym) and d.kind == 'name':
            return VALUE(d.t)
        return enc.enc(d)
    if e.op == 'str' and len(e.data) == 1 and isinstance(e.data[0], Sym):
        return e.data[0].t
    if e.op == 'num':
        return enc.enc(e.data)
    raise Unsupported(f'term {e!r}')


_enc = None


def forms(I, name='P', empties=True):
    """A list of distinct formulas {x | P(x)}."""
    f = I.func(name, V, z3.BoolSort())
    x = I.const('x', V)
    return PList([Part((x,), f(x), Sym(x, 'str'))]), f


def nonempty_pred(f, nonempty):
    return (lambda x: f(x)) if nonempty else (lambda x: z3.And(f(x), truthy(x)))


def two(P):
    x, y = z3.Consts('tx ty', V)
    return z3.Exists([x, y], z3.And(P(x), P(y), x != y))


def atmost(P):
    x, y = z3.Consts('ax ay', V)
    return z3.ForAll([x, y], z3.Implies(z3.And(P(x), P(y), HOLDS(x), HOLDS(y)), x == y))


def some(P):
    x = z3.Const('sx', V)
    return z3.Exists([x], z3.And(P(x), HOLDS(x)))


def the_string(ctx, I, out, name):
    """out is a list with one string."""
    if not isinstance(out, PList) or len(out.parts) != 1 or out.parts[0].vars \
            or not z3.is_true(out.parts[0].cond):
        I.prove(FALSE, f'{name}: a list with one constraint')
        return None
    return out.parts[0].val


def g_mutex(ctx):
    I = ctx.new()
    global _enc
    _enc = I.enc_
    st = {}

    def setup(I):
        l, f = forms(I)
        st['P'] = nonempty_pred(f, False)
        st['l'], st['l0'] = l, l.parts
        return lambda: I.call(I.mod_get(I.load(MOD), 'mutex'), [l], {})

    def post(I, out):
        if not ctx.no_raise(I, out, 'mutex'):
            return
        P = st['P']
        I.prove(z3.BoolVal(st['l'].parts is st['l0']), 'argument unchanged')
        if isinstance(out, PList) and not out.parts:
            I.prove(z3.Not(two(P)), 'no constraint only for fewer than two formulas')
            return
        I.prove(two(P), 'constraint only for two or more formulas')
        s = the_string(ctx, I, out, 'mutex')
        if s is None:
            return
        t = tmpl.formula(I, s, tmpl.Sem(atom), 'mutex')
        if t is not None:
            I.prove(z3.Implies(t, atmost(P)), 'constraint excludes two formulas at once')
            I.prove(z3.Implies(atmost(P), t), 'constraint allows at most one formula')
    ctx.verify('mutex', setup, post, f'{MOD}:mutex')


def g_exactly(ctx):
    I = ctx.new()
    global _enc
    _enc = I.enc_
    st = {}

    def setup(I):
        l, f = forms(I)
        st['P'] = f
        x = z3.Const('nx', V)
        I.assume(z3.ForAll([x], z3.Implies(f(x), truthy(x))))
        I.assume(z3.Exists([x], f(x)))
        st['l'], st['l0'] = l, l.parts
        return lambda: I.call(I.mod_get(I.load(MOD), 'exactly_one'), [l], {})

    def post(I, out):
        if not ctx.no_raise(I, out, 'exactly_one'):
            return
        P = st['P']
        I.prove(z3.BoolVal(st['l'].parts is st['l0']), 'argument unchanged')
        want = z3.And(some(P), atmost(P))
        ps = out.parts if isinstance(out, PList) else None
        if ps is None:
            I.prove(FALSE, 'a list of constraints')
            return
        fs = []
        for p in ps:
            p = I.inst(p)
            t = tmpl.formula(I, p.val, tmpl.Sem(atom), 'exactly_one')
            if t is None:
                return
            fs.append(ForAll_(p.vars, Implies_(p.cond, t)))
        I.prove(I.parts_nonempty(ps), 'a constraint is emitted')
        I.prove(z3.Implies(And_(*fs), some(P)), 'constraint requires one formula')
        I.prove(z3.Implies(And_(*fs), atmost(P)), 'constraint excludes two formulas')
        I.prove(z3.Implies(want, And_(*fs)), 'constraint allows exactly one formula')
    ctx.verify('exactly_one', setup, post, f'{MOD}:exactly_one')


def _variables(I):
    """An arbitrary dictionary of declared variables."""
    D = I.func('D', V, z3.BoolSort())
    dv = I.func('dom', V, V)
    k = I.const('k', V)
    return PDict([Part((k,), D(k), (Sym(k, 'name'), Sym(dv(k))))]), D, dv


def mk_iter2var(kind, must, booleans):
    nm = f'iter2var {kind} must={must} bool={booleans}'

    def g(ctx):
        I = ctx.new()
        global _enc
        _enc = I.enc_
        st = {}

        def setup(I):
            f = I.func('P', V, z3.BoolSort())
            if kind == 'str':
                x = I.const('x', V)
                I.kind_isinstance['str'] = ('str', 'Hashable')
                l = PSet([Part((x,), f(x), Sym(x, 'str'))])
                P = f
                # element names are not empty
                z = z3.Const('nx', V)
                I.assume(z3.ForAll([z], z3.Implies(f(z), truthy(z))))
            else:
                g_ = I.func('Pi', z3.IntSort(), z3.BoolSort())
                x = I.const('i', z3.IntSort())
                l = PSet([Part((x,), g_(x), SN(x))])
                P = g_
                lo, hi = I.const('lo', z3.IntSort()), I.const('hi', z3.IntSort())
                z = z3.Int('bz')
                # a finite set of integers is bounded
                I.assume(z3.ForAll([z], z3.Implies(g_(z), z3.And(lo <= z, z <= hi))))
            d, D, dv = _variables(I)
            sv = Sym(I.const('sv', V), 'name')
            st.update(P=P, l=l, l0=l.parts, d=d, D=D, dv=dv, sv=sv)
            return lambda: I.call(I.mod_get(I.load(MOD), 'iter2var'), [l, d, sv, booleans, must], {})

        def post(I, out):
            P, d, D, dv, sv = (st[k] for k in ('P', 'd', 'D', 'dv', 'sv'))
            as_bool = booleans or must is None
            if isinstance(out, Raised):
                if as_bool:
                    if kind == 'int':
                        I.prove(z3.BoolVal(out.cls is TypeError), 'Booleans of integers: TypeError')
                    else:
                        ctx.no_raise(I, out, nm)
                else:
                    I.prove(z3.BoolVal(out.cls is ValueError), 'existing variable: ValueError')
                    I.prove(D(sv.t), 'ValueError only if the variable exists')
                return
            I.prove(z3.BoolVal(st['l'].parts is st['l0']), 'argument unchanged')
            if not isinstance(out, tuple) or len(out) != 2 or not isinstance(out[0], PDict):
                I.prove(FALSE, 'returns (expressions, constraint)')
                return
            ids, con = out
            sort = V if kind == 'str' else z3.IntSort()
            some_el = z3.Exists([z3.Const('ee', sort)], P(z3.Const('ee', sort)))
            e = I.const('e', sort)
            ev = Sym(e, 'str') if kind == 'str' else SN(e)
            # the keys are the elements
            key = lambda p: PSet([Part(q.vars, q.cond, q.val[0]) for q in map(I.inst, p.parts)])
            I.prove(lib._bb(I.contains(key(ids), ev)) == P(e), 'an expression for each element and nothing else')
            if I.branch(Not_(some_el)):
                I.prove(z3.BoolVal(con is None and d.parts is not None), 'no constraint for no element')
                k = I.const('k2', V)
                I.prove(lib._bb(I.contains(d, Sym(k, 'name'))) == D(k), 'no variable declared')
                return
            I.assume(P(e))
            got = I.getitem(ids, ev)
            # declared variables
            k = I.const('k2', V)
            kk = Sym(k, 'name')
            has = lib._bb(I.contains(d, kk))
            if as_bool:
                I.prove(has == z3.Or(D(k), P(k)), 'declares one Boolean per element')
                sem = tmpl.formula(I, got, tmpl.Sem(atom), 'expression')
                I.prove(sem == HOLDS(e), 'the expression of a value is its Boolean')
                if I.branch(P(k)):
                    v = I.getitem(d, kk)
                    I.prove(lib._bb(I.eq(v, 'boolean')), 'the variable is Boolean')
                elif I.branch(D(k)):
                    v = I.getitem(d, kk)
                    I.prove(lib._bb(I.eq(v, Sym(dv(k)))), 'other variables keep their domain')
                want = {'mutex': atmost(P), 'xor': z3.And(some(P), atmost(P)), None: TRUE}[must]
                if con is None:
                    I.prove(want, 'no constraint only if it would be true')
                    return
                s = the_string(ctx, I, con, 'constraint')
                if s is None:
                    return
                t = tmpl.formula(I, s, tmpl.Sem(atom), 'constraint')
                if t is not None:
                    I.prove(z3.Implies(t, want), 'the constraint is strong enough')
                    I.prove(z3.Implies(want, t), 'the constraint is weak enough')
                return
            I.prove(Not_(D(sv.t)), 'the variable is new')
            I.prove(has == z3.Or(D(k), k == sv.t), 'declares the variable')
            if I.branch(D(k)):
                I.prove(lib._bb(I.eq(I.getitem(d, kk), Sym(dv(k)))), 'other variables keep their domain')
            dom = I.getitem(d, sv)
            I.prove(z3.BoolVal(con is None), 'no further constraint')
            sem = tmpl.formula(I, got, tmpl.Sem(atom), 'expression')
            if sem is not None:
                I.prove(sem == (VALUE(sv.t) == _enc.enc(ev)), 'the expression says that the variable has the value')
            if kind == 'str':
                I.prove(lib._bb(I.contains(dom, ev)), 'the domain contains each element')
                if must == 'xor':
                    y = Sym(I.const('y', V), 'str')
                    I.prove(Implies_(lib._bb(I.contains(dom, y)), P(y.t)), 'the domain has only the elements')
            else:
                lo, hi = I.unpack(dom, 2)
                lo, hi = lib.to_num(I, lo), lib.to_num(I, hi)
                I.prove(z3.And(lo <= e, e <= hi), 'the domain contains each element')
                z = z3.Int('mz')
                I.prove(P(lo), 'the domain starts at an element')
                if must == 'xor':
                    I.prove(P(hi), 'the domain ends at an element')
                else:
                    I.prove(z3.And(Not_(P(hi)), P(hi - 1)), 'one additional value')
        ctx.verify(nm, setup, post, f'{MOD}:iter2var')
    return g


def g_add(ctx):
    I = ctx.new()
    global _enc
    _enc = I.enc_
    st = {}
    for kind in ('none', 'one'):
        def setup(I):
            ini, f0 = forms(I, 'I0')
            tr, f1 = forms(I, 'T0')
            c = None if kind == 'none' else PList([single(Sym(I.const('c', V), 'formula'))])
            st.update(ini=ini, tr=tr, f0=f0, f1=f1, c=c, i0=ini.parts, t0=tr.parts)
            return lambda: I.call(I.mod_get(I.load(MOD), '_add_actions'), [c, ini, tr], {})

        def post(I, out):
            if not ctx.no_raise(I, out, '_add_actions'):
                return
            ini, tr = st['ini'], st['tr']
            if kind == 'none':
                I.prove(z3.BoolVal(ini.parts == st['i0'] and tr.parts == st['t0']), 'nothing added')
                return
            c = st['c'].parts[0].val.t
            HX = z3.Function('HOLDS1', V, z3.BoolSort())
            step = lambda e, k: (HOLDS if k == 0 else HX)(e.data.t)
            for l, f, want, what in ((ini, st['f0'], HOLDS(c), 'initially'), (tr, st['f1'], HX(c), 'at the next step')):
                new = [p for p in l.parts if not p.vars]
                I.prove(z3.BoolVal(len(new) == 1 and len(l.parts) == 2), f'one condition added, {what}')
                for p in new:
                    t = tmpl.formula(I, p.val, tmpl.Sem(step), what)
                    if t is not None:
                        I.prove(t == want, f'the constraint holds {what}')
        ctx.verify(f'_add_actions {kind}', setup, post, f'{MOD}:_add_actions')


GROUPS = [
    Group('mutex', g_mutex),
    Group('exactly_one', g_exactly),
] + [Group(f'iter2var {k} {m} {b}', mk_iter2var(k, m, b))
     for k in ('str', 'int') for m in ('mutex', 'xor', None) for b in (True, False)] + [
    Group('_add_actions', g_add),
]
ASSUMED = [
    'reading of strings as formulas by vf/tmpl.py, with the operator precedences of tulip/spec/lexyacc.py',
    'element names contain no quotation mark, and formulas given as elements are well formed',
]
