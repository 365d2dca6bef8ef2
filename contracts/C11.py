"""Contracts for the GR(1) encoding of transition systems in tulip/synth.py.

A transition system is: states S with labels, transitions e with source, target
and attributes (an arbitrary finite map from keys to values).  Formulas are read
back from the emitted text; H0/H1 is the truth of an expression now/next.
"""
import z3
from vf.contract import *
from vf import tmpl
from vf.core import _MISSING

MOD = 'tulip.synth'
H = [z3.Function('HOLDS0', V, z3.BoolSort()), z3.Function('HOLDS1', V, z3.BoolSort())]
B = z3.BoolSort()
S = z3.Function('is_state', V, B)
SID = z3.Function('state_id', V, V)
E = z3.Function('is_trans', V, B)
SRC, DST = z3.Function('src', V, V), z3.Function('dst', V, V)
KEY = z3.Function('has_attr', V, V, B)
VAL = z3.Function('attr', V, V, V)
ATYPE = z3.Function('is_action_type', V, V, B)       # owner, action type
AVAL = z3.Function('is_action_value', V, V, B)
AID = z3.Function('action_id', V, V, V)
CONT = z3.Function('contains_str', V, V, B)          # text inclusion
INPREV = z3.Function('contains_val', V, V, B)        # membership in an attribute value
AP = z3.Function('is_ap', V, B)
LAB = z3.Function('labels', V, V, B)                 # state, proposition
HASAP = z3.Function('has_ap', V, B)


def atom(e, k=0):
    if e.op == 'hole' and isinstance(e.data, Sym) and k in (0, 1):
        return H[k](e.data.t)
    raise Unsupported(f'leaf {e!r} at step {k}')


class States(Val):
    """Contract of the states container: iteration, labels, initial states."""

    def __init__(self, init):
        self.init = init

    def subst(self, pairs):
        return self

    def iter_(self, I):
        s = I.const('s', V)
        return [Part((s,), S(s), Sym(s))]

    def contains_(self, I, v):
        return S(I.enc_.enc(v))

    def truth_(self, I):
        s = z3.Const('s_', V)
        return z3.Exists([s], S(s))

    def getattr_(self, I, name):
        if name == 'initial':
            return self.init
        raise Unsupported(f'states.{name}')

    def getitem_(self, I, s):
        t = I.enc_.enc(s)
        if not I.branch(S(t)):
            raise PyExc(KeyError, ())
        return label(I, t)


def label(I, s):
    """Attributes of a state: a set of propositions under 'ap', if any."""
    p = I.const('p', V)
    return PDict([Part((), HASAP(s), ('ap', PSet([Part((p,), LAB(s, p), Sym(p, 'name'))])))])


class Trans(Val):
    """Contract of `Transitions.find([s])`: every transition from s, once."""

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        from vf.interp import Builtin
        if name == 'find':
            return Builtin('find', find)
        raise Unsupported(f'transitions.{name}')


def find(I, from_states=None, to_states=None, with_attr_dict=None, **kw):
    if kw or to_states is not None or with_attr_dict is not None or from_states is None:
        raise Unsupported('other query')
    e = I.const('e', V)
    k = I.const('k', V)
    c = I.contains(from_states, Sym(SRC(e)))
    c = z3.BoolVal(c) if isinstance(c, bool) else c
    attrs = PDict([Part((k,), KEY(e, k), (Sym(k, 'str'), Sym(VAL(e, k), 'val')))])
    return PList([Part((e,), z3.And(E(e), c), (Sym(SRC(e)), Sym(DST(e)), attrs))])


def ids(I, owner):
    """{type: {value: expression}} of the given owner ('env' | 'sys')."""
    o = I.enc_.enc(owner)
    a, v = I.const('a', V), I.const('v', V)
    return PDict([Part((a,), ATYPE(o, a), (Sym(a, 'str'), PDict([Part(
        (v,), AVAL(a, v), (Sym(v, 'val'), Sym(AID(a, v), 'formula')))])))])


def state_ids(I):
    s = I.const('s', V)
    return PDict([Part((s,), S(s), (Sym(s), Sym(SID(s), 'formula')))])


def typing(I):
    """Class invariant of a typed graph: attributes of action types have allowed values."""
    enc = I.enc_.enc
    e, k, k2 = z3.Consts('te tk tk2', V)
    for o in ('env', 'sys'):
        I.assume(z3.ForAll([e, k], z3.Implies(z3.And(E(e), KEY(e, k), CONT(enc(o), k)),
                                              z3.And(ATYPE(enc(o), k), AVAL(k, VAL(e, k))))))
    I.assume(z3.ForAll([k], z3.Not(z3.And(CONT(enc('env'), k), CONT(enc('sys'), k)))))
    for w in ('previous', 'actions', 'ap'):
        for o in ('env', 'sys'):
            I.assume(z3.Not(CONT(enc(o), enc(w))))
    I.assume(z3.ForAll([e], z3.Implies(E(e), z3.And(S(SRC(e)), S(DST(e))))))


def call(I, name, args, kw=()):
    return I.call(I.mod_get(I.load(MOD), name), list(args), dict(kw))


def conj_of(I, lst, name):
    """Meaning of a list of formulas: their conjunction."""
    if not isinstance(lst, PList):
        I.prove(FALSE, f'{name}: a list of formulas')
        return None
    fs = []
    for p in lst.parts:
        p = I.inst(p)
        t = tmpl.formula(I, p.val, tmpl.Sem(atom), name) if not p.vars and z3.is_true(p.cond) else \
            fam_formula(I, p, name)
        if t is None:
            return None
        fs.append(ForAll_(p.vars, Implies_(p.cond, t)))
    return And_(*fs)


def fam_formula(I, p, name):
    try:
        e = tmpl.parse(tmpl.inst_parts(I, p.val))
        if e is None:
            raise tmpl.TemplateError('empty formula')
        I.prove(ForAll_(p.vars, Implies_(p.cond, tmpl.wf(e))), f'{name}: well-formed formula')
        return tmpl.Sem(atom)(e)
    except tmpl.TemplateError as x:
        I.prove(FALSE, f'{name}: readable formula ({x})'[:160])
        return None


def iff(I, got, want, name):
    I.prove(z3.Implies(got, want), f'{name}: nothing else is allowed')
    I.prove(z3.Implies(want, got), f'{name}: nothing more is required')


def agree(I, e, prev=True, cur=()):
    """The step carries the action labels of transition e."""
    enc = I.enc_.enc
    k = z3.Const('ak', V)
    isprev = lambda k: z3.And(KEY(e, enc('previous')), INPREV(k, VAL(e, enc('previous'))))
    fs = []
    for o in ('env', 'sys'):
        lit = AID(k, VAL(e, k))
        if o in cur:
            h = H[0](lit)
        elif prev:
            h = z3.If(isprev(k), H[0](lit), H[1](lit))
        else:
            h = H[1](lit)
        fs.append(z3.ForAll([k], z3.Implies(z3.And(KEY(e, k), CONT(enc(o), k)), h)))
    return z3.And(*fs)


def g_init(ctx):
    I = ctx.new()
    for ign in (False, True):
        def setup(I):
            f = I.func('INIT', V, B)
            s = I.const('s', V)
            x = z3.Const('x', V)
            I.assume(z3.ForAll([x], z3.Implies(f(x), S(x))))
            st = States(PSet([Part((s,), f(s), Sym(s))]))
            aps = PSet([Part((s,), AP(s), Sym(s, 'name'))])
            ctx.f = f
            return lambda: call(I, '_sys_init_from_ts', [st, state_ids(I), aps, ign])

        def post(I, out):
            x = z3.Const('x', V)
            f = ctx.f
            if isinstance(out, Raised):
                I.prove(z3.BoolVal(not ign and out.cls is Exception), 'raises only without ignore_initial')
                I.prove(z3.Not(z3.Exists([x], f(x))), 'raises only without initial states')
                return
            got = conj_of(I, out, 'init')
            if got is None:
                return
            want = TRUE if ign else z3.Exists([x], z3.And(f(x), H[0](SID(x))))
            iff(I, got, want, 'initial condition')
            if not ign:
                I.prove(z3.Exists([x], f(x)), 'there is an initial state')
        ctx.verify(f'_sys_init_from_ts ignore={ign}', setup, post, f'{MOD}:_sys_init_from_ts')


def g_sys_trans(closed):
    def g(ctx):
        I = ctx.new()

        def setup(I):
            typing(I)
            enc = I.enc_.enc
            e = z3.Const('te', V)
            kw = dict(sys_action_ids=ids(I, 'sys'), env_action_ids=ids(I, 'env'))
            if closed:
                a = I.const('a', V)
                kw['action_ids'] = PDict([Part((a,), AVAL(enc('actions'), a),
                                               (Sym(a, 'val'), Sym(AID(enc('actions'), a), 'formula')))])
                k = z3.Const('tk', V)
                # a closed system has no action types of either player
                I.assume(z3.ForAll([e, k], z3.Implies(z3.And(E(e), KEY(e, k)), z3.Not(z3.Or(
                    CONT(enc('sys'), k), CONT(enc('env'), k))))))
                I.assume(z3.ForAll([e], z3.Implies(z3.And(E(e), KEY(e, enc('actions'))),
                                                   AVAL(enc('actions'), VAL(e, enc('actions'))))))
            else:
                I.assume(z3.ForAll([e], z3.Implies(E(e), z3.Not(KEY(e, enc('actions'))))))
            return lambda: call(I, '_sys_trans_from_ts', [States(None), state_ids(I), Trans()], kw)

        def post(I, out):
            if not ctx.no_raise(I, out, '_sys_trans_from_ts'):
                return
            got = conj_of(I, out, 'trans')
            if got is None:
                return
            enc = I.enc_.enc
            s, e = z3.Consts('ps pe', V)
            act = TRUE
            if closed:
                pr = z3.And(KEY(e, enc('previous')), INPREV(enc('actions'), VAL(e, enc('previous'))))
                lit = AID(enc('actions'), VAL(e, enc('actions')))
                act = z3.Implies(KEY(e, enc('actions')), z3.If(pr, H[0](lit), H[1](lit)))
            want = z3.ForAll([s], z3.Implies(z3.And(S(s), H[0](SID(s))), z3.Exists([e], z3.And(
                E(e), SRC(e) == s, H[1](SID(DST(e))), agree(I, e), act))))
            iff(I, got, want, 'steps')
        ctx.verify(f'_sys_trans_from_ts closed={closed}', setup, post, f'{MOD}:_sys_trans_from_ts')
    return g


def g_env_of_sys(ctx):
    I = ctx.new()

    def setup(I):
        typing(I)
        return lambda: call(I, '_env_trans_from_sys_ts', [States(None), state_ids(I), Trans(), ids(I, 'env')])

    def post(I, out):
        if not ctx.no_raise(I, out, '_env_trans_from_sys_ts'):
            return
        got = conj_of(I, out, 'env trans')
        if got is None:
            return
        enc = I.enc_.enc
        s, e, k = z3.Consts('ps pe pk', V)
        has = z3.Exists([k], z3.And(KEY(e, k), CONT(enc('env'), k)))
        lab = z3.And(E(e), SRC(e) == s, has)
        carried = z3.ForAll([k], z3.Implies(z3.And(KEY(e, k), CONT(enc('env'), k)), H[1](AID(k, VAL(e, k)))))
        want = z3.ForAll([s], z3.Implies(z3.And(S(s), H[0](SID(s)), z3.Exists([e], lab)),
                                         z3.Exists([e], z3.And(lab, carried))))
        iff(I, got, want, 'environment actions')
    ctx.verify('_env_trans_from_sys_ts', setup, post, f'{MOD}:_env_trans_from_sys_ts')


def g_env_trans(ctx):
    I = ctx.new()

    def setup(I):
        typing(I)
        enc = I.enc_.enc
        e, k = z3.Consts('te tk', V)
        I.assume(z3.ForAll([e], z3.Implies(E(e), z3.Not(KEY(e, enc('actions'))))))
        # declared action types have values
        v = z3.Const('tv', V)
        I.assume(z3.ForAll([k], z3.Implies(ATYPE(enc('sys'), k), z3.Exists([v], AVAL(k, v)))))
        return lambda: call(I, '_env_trans_from_env_ts', [States(None), state_ids(I), Trans()],
                            dict(sys_action_ids=ids(I, 'sys'), env_action_ids=ids(I, 'env')))

    def post(I, out):
        if not ctx.no_raise(I, out, '_env_trans_from_env_ts'):
            return
        got = conj_of(I, out, 'env trans')
        if got is None:
            return
        enc = I.enc_.enc
        s, e, k, a, v = z3.Consts('ps pe pk pa pv', V)
        move = z3.Exists([e], z3.And(E(e), SRC(e) == s, H[1](SID(DST(e))), agree(I, e, prev=False, cur=('sys',))))
        some = z3.Exists([e], z3.And(E(e), SRC(e) == s))
        unconditional = z3.Exists([e], z3.And(E(e), SRC(e) == s, z3.Not(z3.Exists([k], z3.And(
            KEY(e, k), CONT(enc('sys'), k))))))
        disabled = z3.Exists([a], z3.And(ATYPE(enc('sys'), a), z3.ForAll([v], z3.Implies(
            AVAL(a, v), z3.Not(H[0](AID(a, v)))))))
        want = z3.ForAll([s], z3.Implies(z3.And(S(s), H[0](SID(s))), z3.Or(
            move, z3.And(some, z3.Not(unconditional), disabled))))
        iff(I, got, want, 'environment steps')
    ctx.verify('_env_trans_from_env_ts', setup, post, f'{MOD}:_env_trans_from_env_ts')


def g_ap(ctx):
    I = ctx.new()

    def setup(I):
        p = I.const('p', V)
        aps = PSet([Part((p,), AP(p), Sym(p, 'name'))])
        return lambda: call(I, '_ap_trans_from_ts', [States(None), state_ids(I), aps])

    def post(I, out):
        if not ctx.no_raise(I, out, '_ap_trans_from_ts'):
            return
        if not isinstance(out, tuple) or len(out) != 2:
            I.prove(FALSE, 'returns initial and transition conditions')
            return
        s, p = z3.Consts('ps pp', V)
        for k, l, what in ((0, out[0], 'now'), (1, out[1], 'next')):
            got = conj_of(I, l, what)
            if got is None:
                continue
            want = z3.ForAll([s, p], z3.Implies(z3.And(S(s), H[k](SID(s)), AP(p)),
                                                H[k](p) == z3.And(HASAP(s), LAB(s, p))))
            iff(I, got, want, f'propositions {what}')
    ctx.verify('_ap_trans_from_ts', setup, post, f'{MOD}:_ap_trans_from_ts')


ACT = z3.Function('is_declared_action_type', V, B)
CON = z3.Function('constraint', V, V)               # constraint of a set of Booleans
HASCON = z3.Function('has_constraint', V, B)
DOM = z3.Function('domain', V, V)


def mk_spec(owner, bs, ba, ign):
    other = 'env' if owner == 'sys' else 'sys'
    fname = f'{owner}_to_spec'
    nm = f'{fname} bool_states={bs} bool_actions={ba}'

    def g(ctx):
        I = ctx.new()
        enc = I.enc_.enc
        st = {}

        def is_owner(o, a):
            return CONT(enc('sys'), a) if o == 'sys' else z3.And(z3.Not(CONT(enc('sys'), a)), CONT(enc('env'), a))

        def iter2var(I, f, args, kw):
            env = I.bind(f, args, kw)
            codomain, variables, var, booleans, must = (env[k] for k in (
                'states', 'variables', 'statevar', 'bool_states', 'must'))
            if codomain is st['states']:
                I.prove(lib._bb(I.eq(var, st['sv'])), 'states: name of the state variable')
                I.prove(z3.BoolVal(booleans is bs and must == 'xor'), 'states: exactly one state')
                if bs:
                    s = I.const('s', V)
                    I.dict_update(variables, [Part((s,), S(s), (Sym(s), 'boolean'))])
                    return (state_ids(I), PList([single(Sym(CON(enc('states')), 'formula'))]))
                I.dict_set(variables, var, Sym(DOM(enc(var)), 'dom'))
                return (state_ids(I), None)
            a = enc(var)
            v = I.const('v', V)
            I.prove(lib._bb(I.contains(codomain, Sym(v))) == AVAL(a, v), 'actions: the values of the type')
            o = 'sys' if variables is st['vars'].get('sys') else 'env'
            st['vars'].setdefault(o, variables)
            I.prove(z3.Implies(ACT(a), z3.BoolVal(booleans is ba)), 'actions: requested encoding')
            want = z3.If(is_owner('sys', a), st['must']['sys'].t, st['must']['env'].t)
            I.prove(z3.Implies(ACT(a), enc(must) == want), 'actions: requested exclusion')
            v = I.const('v', V)
            out = PDict([Part((v,), AVAL(a, v), (Sym(v, 'val'), Sym(AID(a, v), 'formula')))])
            if ba:
                I.dict_update(variables, [Part((v,), AVAL(a, v), (Sym(v, 'val'), 'boolean'))])
                return (out, PList([single(Sym(CON(a), 'formula'))]) if I.branch(HASCON(a)) else None)
            I.dict_set(variables, var, Sym(DOM(a), 'dom'))
            return (out, None)

        def check_ids(d, o, what):
            if not isinstance(d, PDict):
                I.prove(FALSE, f'{what}: action expressions are passed')
                return
            a, v = I.const('qa', V), I.const('qv', V)
            k = lib._bb(I.contains(d, Sym(a, 'str')))
            cond = z3.And(ACT(a), is_owner(o, a))
            I.prove(k == cond, f'{what}: the {o} action types')
            for p in d.parts:
                p = I.inst(p)
                kk, inner = p.val
                w = I.const('qw', V)
                if not isinstance(inner, PDict):
                    I.prove(FALSE, f'{what}: expressions of {o} actions')
                    continue
                for q in inner.parts:
                    q = I.inst(q)
                    I.prove(ForAll_(list(p.vars) + list(q.vars), Implies_(And_(p.cond, q.cond), z3.And(
                        AVAL(enc(kk), enc(q.val[0])), AID(enc(kk), enc(q.val[0])) == enc(q.val[1])))),
                        f'{what}: expressions of {o} actions')

        def check_common(env, what):
            I.prove(z3.BoolVal(env['states'] is st['states']), f'{what}: states of the system')
            d = env['state_ids']
            s = I.const('qs', V)
            I.prove(lib._bb(I.contains(d, Sym(s))) == S(s), f'{what}: expressions of all states')

        def stub(name, results, extra):
            def c(I, f, args, kw):
                env = I.bind(f, args, kw)
                check_common(env, name)
                extra(env, name)
                out = tuple(PList([single(Sym(I.enc_.enc(r), 'formula'))]) for r in results)
                return out if len(out) > 1 else out[0]
            I.contracts[f'{MOD}:{name}'] = c

        def x_trans(env, what):
            I.prove(z3.BoolVal(env['trans'] is st['trans']), f'{what}: transitions of the system')
            for o in ('sys', 'env'):
                if f'{o}_action_ids' in env:
                    check_ids(env[f'{o}_action_ids'], o, what)

        def x_init(env, what):
            I.prove(z3.BoolVal(env['ignore_initial'] is ign), f'{what}: initial states as requested')

        def x_ap(env, what):
            I.prove(z3.BoolVal(env['aps'] is st['aps']), f'{what}: propositions of the system')
        I.contracts[f'{MOD}:iter2var'] = iter2var
        stub('_sys_init_from_ts', ['INIT'], x_init)
        stub('_sys_trans_from_ts', ['SYSTRANS'], x_trans)
        stub('_env_trans_from_env_ts', ['ENVTRANS'], x_trans)
        stub('_env_trans_from_sys_ts', ['ENVOFSYS'], x_trans)
        stub('_ap_trans_from_ts', ['APINIT', 'APTRANS'], x_ap)
        I.contracts['tulip.spec.form:GRSpec.__init__'] = lambda I, f, args, kw: st.update(spec=I.bind(f, args, kw)) or None

        def setup(I):
            x, y = z3.Consts('sx sy', V)
            I.assume(z3.ForAll([x], z3.Not(z3.And(AP(x), S(x)))))
            I.assume(z3.ForAll([x, y], z3.Implies(z3.And(ACT(x), AVAL(x, y)), z3.Not(z3.Or(AP(y), S(y))))))
            I.assume(z3.ForAll([x], z3.Implies(ACT(x), z3.Not(z3.Or(AP(x), S(x))))))
            # values of Boolean action types are distinct names
            I.assume(z3.ForAll([x, y], z3.Implies(z3.And(ACT(x), ACT(y), x != y), z3.And(
                z3.Not(z3.Exists([z3.Const('sz', V)], z3.And(AVAL(x, z3.Const('sz', V)), AVAL(y, z3.Const('sz', V)))))))))
            p, a, v = I.const('p', V), I.const('a', V), I.const('v', V)
            sv = I.const('sv', V)
            I.assume(z3.Not(z3.Or(AP(sv), S(sv), ACT(sv))))
            I.assume(z3.ForAll([x], z3.Not(z3.And(ACT(x), AVAL(x, sv)))))
            cls = I.mod_get(I.load('tulip.transys.transys'), 'FiniteTransitionSystem')
            st.update(states=States(None), trans=Trans(), aps=PSet([Part((p,), AP(p), Sym(p, 'name'))]),
                      sv=Sym(sv, 'name'), vars={}, must=dict(sys=Sym(I.const('sysmust', V)), env=Sym(I.const('envmust', V))),
                      spec=None)
            acts = PDict([Part((a,), ACT(a), (Sym(a, 'str'), PSet([Part((v,), AVAL(a, v), Sym(v, 'val'))])))])
            o = Obj(cls)
            fields = dict(owner=owner, aps=st['aps'], states=st['states'], transitions=st['trans'], actions=acts,
                          sys_actions_must=st['must']['sys'], env_actions_must=st['must']['env'])
            I.attr_hooks[:] = [lambda I, ob, name: fields.get(name, _MISSING) if ob is o else _MISSING]
            return lambda: call(I, fname, [o, ign, st['sv'], bs, ba])

        def post(I, out):
            if not ctx.no_raise(I, out, fname):
                return
            sp = st['spec']
            if sp is None:
                I.prove(FALSE, 'builds a specification')
                return
            x, a = z3.Consts('px pa', V)

            def acts(o, k):
                if not ba:
                    return TRUE
                return z3.ForAll([a], z3.Implies(z3.And(ACT(a), is_owner(o, a), HASCON(a)), H[k](CON(a))))
            hs = lambda n, k=0: H[k](enc(n))
            step = 'SYSTRANS' if owner == 'sys' else 'ENVTRANS'
            own = {'init': And_(acts(owner, 0), hs('INIT'), hs('APINIT')),
                   'safety': And_(acts(owner, 1), H[0](CON(enc('states'))) if bs else TRUE, hs(step), hs('APTRANS'))}
            oth = {'init': acts(other, 0),
                   'safety': And_(acts(other, 1), hs('ENVOFSYS') if owner == 'sys' else TRUE)}
            for o, w in ((owner, own), (other, oth)):
                for sec in ('init', 'safety'):
                    lst = sp[f'{o}_{sec}']
                    got = conj_of(I, lst, f'{o}_{sec}')
                    if got is not None:
                        iff(I, got, w[sec], f'{o}_{sec}')
                d = sp[f'{o}_vars']
                if not isinstance(d, PDict):
                    I.prove(FALSE, f'{o} variables')
                    continue
                n = I.const('qn', V)
                if ba:
                    mine = z3.Exists([a], z3.And(ACT(a), is_owner(o, a), AVAL(a, n)))
                else:
                    mine = z3.And(ACT(n), is_owner(o, n))
                if o == owner:
                    mine = z3.Or(mine, AP(n), S(n) if bs else n == st['sv'].t)
                I.prove(lib._bb(I.contains(d, Sym(n))) == mine, f'{o} variables are exactly the declared ones')
                for q in d.parts:
                    q = I.inst(q)
                    if isinstance(q.val[1], str):
                        I.prove(z3.BoolVal(q.val[1] == 'boolean'), f'{o} Boolean variables')
                    else:
                        I.prove(ForAll_(q.vars, Implies_(q.cond, enc(q.val[1]) == DOM(enc(q.val[0])))), f'{o} variable domains')
            for sec in ('env_prog', 'sys_prog'):
                v = sp.get(sec)
                I.prove(z3.BoolVal(v is None or v == '' or (isinstance(v, Container) and not v.parts)), f'no {sec}')
        ctx.verify(nm, setup, post, f'{MOD}:{fname}')
    return g


GROUPS = [
    Group('initial states', g_init),
    Group('system steps', g_sys_trans(False)),
    Group('system steps, closed system', g_sys_trans(True)),
    Group('environment of a system', g_env_of_sys),
    Group('environment steps', g_env_trans),
    Group('propositions', g_ap),
] + [Group(f'{o}_to_spec {bs} {ba} {ign}', mk_spec(o, bs, ba, ign)) for o in ('sys', 'env')
     for bs, ba, ign in ((False, False, False), (True, False, True), (False, True, True), (True, True, False))]
ASSUMED = [
    'reading of strings as formulas by vf/tmpl.py, with the operator precedences of tulip/spec/lexyacc.py',
    'contract of Transitions.find with a list of source states (C07): every transition from them, once each',
]
