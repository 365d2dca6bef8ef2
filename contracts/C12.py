"""Contracts for GR(1) specifications, tulip/spec/form.py.

Conditions are opaque formulas; HOLDS, ALWAYS, INF_OFTEN give the truth of x, []x
and []<>x at the first step of an arbitrary infinite word.  Text that the code emits is read back with the operator
precedences of the LTL syntax (or of Python for the compiled initial condition)
and evaluated at step 0.
"""
import z3
from vf.contract import *
from vf import tmpl

MOD = 'tulip.spec.form'
Z, B = z3.IntSort(), z3.BoolSort()
HOLDS = z3.Function('HOLDS', V, B)                 # holds at the first step
PARTS = [f'{p}_{q}' for p in ('env', 'sys') for q in ('init', 'safety', 'prog')]


ALW = z3.Function('ALWAYS', V, B)                  # holds at every step
IO = z3.Function('INF_OFTEN', V, B)                # holds infinitely often


def sem(I):
    """Meaning at step 0.  [] distributes over conjunctions; what is left is opaque."""
    def under(e, f, name):
        if e.op == 'paren':
            return under(e.args[0], f, name)
        if e.op == 'hole' and isinstance(e.data, Sym):
            return f(e.data.t)
        if name == '[]':
            if e.op == '[]':
                return under(e.args[0], f, name)
            if e.op == '<>':
                return under(e.args[0], IO, '[]<>')
            if e.op == '&&':
                return And_(*[under(x, f, name) for x in e.args])
            if e.op == 'join' and e.data == '&&':
                return And_(*[ForAll_(vs, Implies_(c, under(x, f, name))) for vs, c, x in e.args])
        raise Unsupported(f'{name} of {e!r}')

    def atom(e, k=0):
        if e.op == 'hole' and isinstance(e.data, Sym) and k == 0:
            return HOLDS(e.data.t)
        if e.op == '[]':
            return under(e.args[0], ALW, '[]')
        raise Unsupported(f'leaf {e!r}')
    return tmpl.Sem(atom)


def at(q, x):
    """Meaning of condition x in a part of kind q."""
    return {'init': HOLDS, 'safety': ALW, 'prog': IO}[q](x)


def allof(q, P):
    x = z3.Const('x_', V)
    return z3.ForAll([x], z3.Implies(P(x), at(q, x)))


def cond_list(I, name):
    f = I.func(name, V, B)
    x = I.const('x', V)
    return PList([Part((x,), f(x), Sym(x, 'formula'))]), f


def var_dict(I, name):
    D = I.func(f'{name}_var', V, B)
    dv = I.func(f'{name}_dom', V, V)
    k = I.const('k', V)
    return PDict([Part((k,), D(k), (Sym(k, 'name'), Sym(dv(k))))]), D, dv


class Spec:
    """An arbitrary specification, made by the real constructor."""

    def __init__(self, I, tag, flags):
        self.I = I
        self.D, self.dv, self.F = {}, {}, {}
        kw = {}
        for s in ('env', 'sys'):
            kw[f'{s}_vars'], self.D[s], self.dv[s] = var_dict(I, tag + s)
        # the variables of a specification are disjoint (check_vars)
        k = z3.Const('dk', V)
        I.assume(z3.ForAll([k], Not_(And_(self.D['env'](k), self.D['sys'](k)))))
        for p in PARTS:
            kw[p], self.F[p] = cond_list(I, tag + p)
        kw.update(flags)
        self.flags = flags
        self.kw = kw
        self.obj = I.call(I.mod_get(I.load(MOD), 'GRSpec'), [], kw)
        self.snap = self.state()

    def state(self):
        f = self.obj.f
        d = {}
        for p in PARTS + ['env_vars', 'sys_vars']:
            c = f.get(p)
            d[p] = (c, c.parts if isinstance(c, Container) else None)
        for k in ('moore', 'plus_one', 'qinit', 'input_variables', 'output_variables', 'parser'):
            d[k] = (f.get(k), None)
        return d

    def unchanged(self, name):
        s = self.state()
        for k, (c, ps) in self.snap.items():
            self.I.prove(z3.BoolVal(s[k][0] is c and s[k][1] is ps), f'{name} unchanged: {k}')


def flags(I, tag=''):
    return dict(moore=SB(I.const(f'moore{tag}', B)), plus_one=SB(I.const(f'plus_one{tag}', B)),
                qinit=Sym(I.const(f'qinit{tag}', V), 'formula'))


def member(I, c, x):
    return lib._bb(I.contains(c, Sym(x, 'formula')))


def check_parts(ctx, I, obj, want, name):
    """obj's conditions are exactly those of the predicates `want[p]`, in own lists."""
    x = I.const('cx', V)
    lists = []
    for p in PARTS:
        c = I.getattr_(obj, p)
        if not isinstance(c, PList):
            I.prove(FALSE, f'{name}: {p} is a list')
            continue
        lists.append(c)
        I.prove(member(I, c, x) == want[p](x), f'{name}: conditions of {p}')
    I.prove(z3.BoolVal(len({id(c) for c in lists}) == len(lists)), f'{name}: separate lists')
    return lists


def check_vars(ctx, I, obj, want, name):
    """want: side -> (declared predicate, domain function)."""
    k = I.const('ck', V)
    kk = Sym(k, 'name')
    for s, alias in (('env', 'input_variables'), ('sys', 'output_variables')):
        D, dom = want[s]
        for a in (f'{s}_vars', alias):
            c = I.getattr_(obj, a)
            if not isinstance(c, PDict):
                I.prove(FALSE, f'{name}: {a} is a dictionary')
                continue
            I.prove(lib._bb(I.contains(c, kk)) == D(k), f'{name}: {a} declares exactly the variables')
            if I.branch(D(k)):
                I.prove(lib._bb(I.eq(I.getitem(c, kk), dom(k))), f'{name}: domains of {a}')


def check_flags(I, obj, fl, name):
    for a, v in fl.items():
        I.prove(lib._bb(I.eq(I.getattr_(obj, a), v)), f'{name}: {a}')


def opaque_canon(I):
    I.contracts[f'{MOD}:GRSpec.to_canon'] = lambda I, f, a, kw: Sym(I.const('canon', V), 'formula')


def g_init(kind):
    def g(ctx):
        I = ctx.new()
        opaque_canon(I)
        I.kind_isinstance['formula'] = ('str', 'Iterable', 'Hashable')
        st = {}

        def setup(I):
            kw, st['F'], st['raw'] = {}, {}, {}
            D = {}
            for s in ('env', 'sys'):
                if kind == 'lists':
                    kw[f'{s}_vars'], d, dv = var_dict(I, s)
                    D[s] = (d, lambda k, dv=dv: Sym(dv(k)))
                elif kind == 'text':
                    d = I.func(s, V, B)
                    x = I.const('x', V)
                    kw[f'{s}_vars'] = PList([Part((x,), d(x), Sym(x, 'name'))])
                    D[s] = (d, lambda k: 'boolean')
                else:
                    D[s] = (lambda k: FALSE, lambda k: None)
            for p in PARTS:
                if kind == 'lists':
                    kw[p], st['F'][p] = cond_list(I, p)
                elif kind == 'text':
                    kw[p] = Sym(I.const(p, V), 'formula')
                    st['F'][p] = lambda x, t=kw[p].t: x == t
                else:
                    if p.startswith('env'):
                        kw[p] = ''
                    st['F'][p] = lambda x: FALSE
            st['fl'] = flags(I)
            if kind != 'none':
                kw.update(st['fl'])
            else:
                st['fl'] = dict(moore=True, plus_one=True, qinit=r'\A \A')
            st.update(kw=kw, D=D, raw={k: (v, getattr(v, 'parts', None)) for k, v in kw.items()})
            return lambda: I.call(I.mod_get(I.load(MOD), 'GRSpec'), [], dict(kw))

        def post(I, out):
            k = I.const('dk', V)
            clash = And_(st['D']['env'][0](k), st['D']['sys'][0](k))
            if isinstance(out, Raised):
                kk = z3.Const('dk2', V)
                I.prove(z3.Exists([kk], And_(st['D']['env'][0](kk), st['D']['sys'][0](kk))) if kind != 'none' else FALSE,
                        'rejected only if a variable is declared on both sides')
                return
            I.prove(Not_(clash), 'a variable on both sides is rejected')
            ls = check_parts(ctx, I, out, st['F'], 'GRSpec')
            check_vars(ctx, I, out, st['D'], 'GRSpec')
            check_flags(I, out, st['fl'], 'GRSpec')
            for n, (v, ps) in st['raw'].items():
                I.prove(z3.BoolVal(getattr(v, 'parts', None) is ps), f'argument {n} unchanged')
                if isinstance(v, Container):
                    I.prove(z3.BoolVal(I.getattr_(out, n) is not v), f'{n} does not share the argument')
        ctx.verify(f'GRSpec {kind}', setup, post, f'{MOD}:GRSpec.__init__')
    return g


def g_copy(ctx):
    I = ctx.new()
    opaque_canon(I)
    st = {}

    def setup(I):
        s = st['s'] = Spec(I, 'a', flags(I))
        return lambda: I.call(I.getattr_(s.obj, 'copy'), [], {})

    def post(I, out):
        if not ctx.no_raise(I, out, 'copy'):
            return
        s = st['s']
        I.prove(z3.BoolVal(isinstance(out, Obj) and out is not s.obj and out.cls is s.obj.cls), 'a new specification')
        if not isinstance(out, Obj):
            return
        s.unchanged('original')
        check_parts(ctx, I, out, s.F, 'copy')
        check_vars(ctx, I, out, {k: (s.D[k], lambda x, k=k: Sym(s.dv[k](x))) for k in s.D}, 'copy')
        check_flags(I, out, s.flags, 'copy')
        for a in PARTS + ['env_vars', 'sys_vars', '_ast', '_bool_int']:
            I.prove(z3.BoolVal(I.getattr_(out, a) is not I.getattr_(s.obj, a)), f'copy does not share {a}')
    ctx.verify('copy', setup, post, f'{MOD}:GRSpec.copy')


def g_or(ctx):
    I = ctx.new()
    opaque_canon(I)
    st = {}

    def setup(I):
        st['fa'], st['fb'] = flags(I, 'a'), flags(I, 'b')
        a = st['a'] = Spec(I, 'a', st['fa'])
        b = st['b'] = Spec(I, 'b', st['fb'])
        # known finding or-input-output: a variable that is input in one and
        # output in the other is not rejected
        k = z3.Const('kf_', V)
        I.assume(z3.ForAll([k], Not_(And_(a.D['env'](k), b.D['sys'](k)))))
        I.assume(z3.ForAll([k], Not_(And_(a.D['sys'](k), b.D['env'](k)))))
        return lambda: lib.binop(I, 'BitOr', a.obj, b.obj)

    def post(I, out):
        a, b = st['a'], st['b']
        same = And_(*[lib._bb(I.eq(a.flags[k], b.flags[k])) for k in a.flags])
        k = z3.Const('k_', V)
        dom = Or_(*[z3.Exists([k], And_(a.D[s](k), b.D[s](k), a.dv[s](k) != b.dv[s](k))) for s in ('env', 'sys')])
        side = Or_(z3.Exists([k], And_(a.D['env'](k), b.D['sys'](k))), z3.Exists([k], And_(a.D['sys'](k), b.D['env'](k))))
        a.unchanged('left operand')
        b.unchanged('right operand')
        if isinstance(out, Raised):
            I.prove(Or_(Not_(same), dom, side), 'rejected only for conflicting declarations or flags')
            return
        I.prove(same, 'different flags are rejected')
        I.prove(Not_(dom), 'different domains of a variable are rejected')
        I.prove(Not_(side), 'an input declared as output is rejected')
        I.prove(z3.BoolVal(isinstance(out, Obj) and out is not a.obj and out is not b.obj), 'a new specification')
        if not isinstance(out, Obj):
            return
        check_parts(ctx, I, out, {p: (lambda x, p=p: Or_(a.F[p](x), b.F[p](x))) for p in PARTS}, 'conjunction')
        check_vars(ctx, I, out, {s: (lambda x, s=s: Or_(a.D[s](x), b.D[s](x)),
                                     lambda x, s=s: Sym(z3.If(a.D[s](x), a.dv[s](x), b.dv[s](x))))
                                 for s in ('env', 'sys')}, 'conjunction')
        check_flags(I, out, a.flags, 'conjunction')
    ctx.verify('__or__', setup, post, f'{MOD}:GRSpec.__or__')


def g_canon(ctx):
    for fn in ('to_canon', '__str__'):
        I = ctx.new()
        st = {}

        def setup(I):
            opaque_canon(I)
            s = st['s'] = Spec(I, 'a', flags(I))
            I.contracts.pop(f'{MOD}:GRSpec.to_canon')
            return lambda: I.call(I.getattr_(s.obj, fn), [], {})

        def post(I, out):
            if not ctx.no_raise(I, out, fn):
                return
            s = st['s']
            s.unchanged('specification')
            got = tmpl.formula(I, out, sem(I), fn, top=False)
            if got is None:
                return
            I.prove(z3.BoolVal(out != ''), 'a formula')
            asm = And_(*[allof(p[4:], s.F[p]) for p in PARTS if p.startswith('env')])
            gua = And_(*[allof(p[4:], s.F[p]) for p in PARTS if p.startswith('sys')])
            I.prove(z3.Implies(And_(got, asm), gua), 'assumptions imply guarantees')
            I.prove(z3.Implies(z3.Implies(asm, gua), got), 'nothing else is required')
        ctx.verify(fn, setup, post, f'{MOD}:GRSpec.{fn}')


def g_compile(no_str):
    def g(ctx):
        I = ctx.new()
        st = {}
        INT = z3.Function('as_int', V, V)           # formula with values replaced by positions
        TREE, PY, TXT = (z3.Function(n, V, V) for n in ('tree', 'pytree', 'flat'))
        x_ = z3.Const('x_', V)
        I.axiom(z3.ForAll([x_], HOLDS(INT(x_)) == HOLDS(x_)))
        I.axiom(z3.ForAll([x_], HOLDS(TXT(PY(TREE(x_)))) == HOLDS(x_)))

        class Tree(Val):
            def __init__(self, t):
                self.t = t

            def subst(self, pairs):
                return Tree(z3.substitute(self.t, *pairs))

            def getattr_(self, I, name):
                if name == 'flatten':
                    from vf.interp import Builtin
                    return Builtin('flatten', lambda I, *a, **k: Sym(TXT(self.t), 'pyformula'))
                raise Unsupported(f'tree.{name}')

        def c_str_to_int(I, f, args, kw):
            o = args[0]
            d = I.getattr_(o, '_bool_int')
            s = st['s']
            x = I.const('x', V)
            I.set_parts(d, [Part((x,), Or_(*[s.F[p](x) for p in PARTS]), (Sym(x, 'formula'), Sym(INT(x), 'formula')))])
            return None

        def c_ast(I, f, args, kw):
            env = I.bind(f, args, kw)
            x, s = env['x'], st['s']
            y = z3.Const('y_', V)
            anyp = lambda z: Or_(*[s.F[p](z) for p in PARTS])
            # a condition of the specification, or its integer form
            I.prove(Or_(anyp(x.t), z3.Exists([y], And_(anyp(y), x.t == INT(y)))), 'ast: a condition of the specification')
            return Tree(TREE(x.t))

        def c_translate(I, f, args, kw):
            env = I.bind(f, args, kw)
            I.prove(z3.BoolVal(env.get('lang') == 'python'), 'translated to Python')
            return Tree(PY(env['tree'].t))

        def c_compile(I, s, *a, **kw):
            I.prove(z3.BoolVal(a == ('<string>', 'eval') or (len(a) == 2 and a[1] == 'eval')), 'compiled as an expression')
            st['text'] = s
            return Sym(I.const('code', V))

        def setup(I):
            opaque_canon(I)
            from vf.interp import Builtin
            s = st['s'] = Spec(I, 'a', flags(I))
            st.pop('text', None)
            I.contracts[f'{MOD}:GRSpec.str_to_int'] = c_str_to_int
            I.contracts[f'{MOD}:GRSpec.ast'] = c_ast
            I.contracts['tulip.spec.translation:translate_ast'] = c_translate
            I.overrides[f'{MOD}:compile'] = Builtin('compile', c_compile)
            return lambda: I.call(I.getattr_(s.obj, 'compile_init'), [no_str], {})

        def post(I, out):
            if not ctx.no_raise(I, out, 'compile_init'):
                return
            s = st['s']
            s.unchanged('specification')
            I.prove(z3.BoolVal('text' in st and isinstance(out, Sym)), 'returns compiled code')
            got = tmpl.formula(I, st.get('text', ''), sem(I), 'compile_init', top=False, dialect='python')
            if got is None:
                return
            asm, gua = allof('init', s.F['env_init']), allof('init', s.F['sys_init'])
            I.prove(z3.Implies(And_(got, asm), gua), 'initial assumptions imply initial guarantees')
            I.prove(z3.Implies(z3.Implies(asm, gua), got), 'nothing else is required')
        ctx.verify(f'compile_init no_str={no_str}', setup, post, f'{MOD}:GRSpec.compile_init')
    return g


GROUPS = [Group(f'GRSpec {k}', g_init(k)) for k in ('lists', 'text', 'none')] + [
    Group('copy', g_copy), Group('__or__', g_or), Group('to_canon', g_canon),
    Group('compile_init True', g_compile(True)), Group('compile_init False', g_compile(False))]
ASSUMED = [
    'reading of strings as formulas by vf/tmpl.py, with the operator precedences of tulip/spec/lexyacc.py (and of Python)',
    'conditions given to a specification are well-formed non-empty formulas',
    'GRSpec.str_to_int and GRSpec.ast (C19), translate_ast to Python (C13) preserve the meaning of a condition',
    'conjunction: no variable is input of one and output of the other operand (known finding or-input-output)',
    'compiled initial condition without positions: no string constants (known finding compile-init-strings)',
    'copy.deepcopy returns an equal, disjoint object',
]
