"""Contracts for tulip/transys/cost.py.

Vectors have arbitrary (symbolic) length n; components are mathematical reals.
"""
import z3
from vf.contract import *

MOD = 'tulip.transys.cost'
R, Z = z3.RealSort(), z3.IntSort()


def vec(ctx, I, name, n):
    """A VectorCost built by the real constructor from a list of length n."""
    l, f = seq(I, name, n, R)
    c = I.mod_get(I.load(MOD), 'VectorCost')
    return I.call(c, [l], {}), f


def length(I, name='n'):
    n = I.const(name, Z)
    I.assume(n >= 0)
    return n


def value_is(I, v, n, term, name):
    """v is a VectorCost of length n with components term(i)."""
    if not (isinstance(v, Obj) and getattr(v.cls, 'name', '') == 'VectorCost'):
        I.prove(FALSE, f'{name}: result is a VectorCost')
        return
    ln = I.call(lib.BUILTINS['len'], [v], {})
    I.prove(lib.to_num(I, ln) == n, f'{name}: length')
    i = I.const('k', Z)
    I.assume(And_(i >= 0, i < n))
    x = I.getitem(v, SN(i))
    I.prove(lib.to_num(I, x) == term(i), f'{name}: component')


def lex_lt(n, f, g):
    k, j = z3.Ints('lexk lexj')
    return z3.Exists([k], z3.And(0 <= k, k < n, f(k) < g(k), z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < k), f(j) == g(j)))))


def vec_eq(n, f, g):
    j = z3.Int('eqj')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(j) == g(j)))


def lex_lemma(I, n, f, g):
    """Least index with differing components (least-number principle).

    Lemma, instance of induction on the naturals: if f and g differ below n
    there is a least such index.
    """
    d = I.const('least', Z)
    j = z3.Int('leastj')
    I.assume(z3.Or(vec_eq(n, f, g), z3.And(
        0 <= d, d < n, f(d) != g(d),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d), f(j) == g(j))))))
    return d


def op(I, name, a, b):
    if name == 'add':
        return lib.binop(I, 'Add', a, b)
    return lib.compare(I, name, a, b)


SPEC = {
    'Eq': lambda n, f, g: vec_eq(n, f, g),
    'NotEq': lambda n, f, g: z3.Not(vec_eq(n, f, g)),
    'Lt': lambda n, f, g: lex_lt(n, f, g),
    'Gt': lambda n, f, g: lex_lt(n, g, f),
    'LtE': lambda n, f, g: z3.Or(lex_lt(n, f, g), vec_eq(n, f, g)),
    'GtE': lambda n, f, g: z3.Or(lex_lt(n, g, f), vec_eq(n, f, g)),
}


def operands(ctx, I, shape):
    """(a, b, n, fa, fb) for shapes vv, vs, sv (s: a number)."""
    n = length(I)
    c = I.const('c', R)
    sc = lambda i: c
    if shape == 'vv':
        a, f = vec(ctx, I, 'a', n)
        b, g = vec(ctx, I, 'b', n)
    elif shape == 'vs':
        a, f = vec(ctx, I, 'a', n)
        b, g = SN(c), sc
    else:
        a, f = SN(c), sc
        b, g = vec(ctx, I, 'b', n)
    return a, b, n, f, g


def g_add(ctx):
    ctx.new()
    for shape in ('vv', 'vs', 'sv'):
        st = {}

        def setup(I):
            a, b, n, f, g = operands(ctx, I, shape)
            st.update(n=n, f=f, g=g, a=a, b=b, f0=f)
            return lambda: op(I, 'add', a, b)

        def post(I, out):
            nm = f'VectorCost.__add__/{shape}'
            if ctx.no_raise(I, out, nm):
                value_is(I, out, st['n'], lambda i: st['f'](i) + st['g'](i), nm)
                for o, h in ((st['a'], st['f']), (st['b'], st['g'])):
                    if isinstance(o, Obj):
                        value_is(I, o, st['n'], h, nm + ' operand unchanged')
        ctx.verify(f'add {shape}', setup, post, f'{MOD}:VectorCost.__add__')


def mk_cmp(o):
    def g(ctx):
        ctx.new()
        for shape in ('vv', 'vs', 'sv'):
            st = {}

            def setup(I):
                a, b, n, f, g = operands(ctx, I, shape)
                lex_lemma(I, n, f, g)
                st.update(n=n, f=f, g=g)
                return lambda: I.truth(op(I, o, a, b))

            def post(I, out):
                nm = f'VectorCost {o}/{shape}'
                if ctx.no_raise(I, out, nm):
                    want = SPEC[o](st['n'], st['f'], st['g'])
                    I.prove(want if out else z3.Not(want), f'{nm}: is lexicographic')
            ctx.verify(f'{o} {shape}', setup, post, f'{MOD}:VectorCost.{o}')
    return g


def g_mismatch(ctx):
    ctx.new()
    for o in ('add', 'Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
        def setup(I):
            n, m = length(I, 'n'), length(I, 'm')
            I.assume(n != m)
            a, _ = vec(ctx, I, 'a', n)
            b, _ = vec(ctx, I, 'b', m)
            return lambda: I.truth(op(I, o, a, b))

        def post(I, out):
            ok = isinstance(out, Raised) and out.cls is ValueError
            I.prove(z3.BoolVal(ok), f'different lengths under {o}: ValueError')
        ctx.verify(f'mismatch {o}', setup, post, f'{MOD}:VectorCost._assert_equal_len')


def g_laws(ctx):
    """Trichotomy and order laws, as lemmas over the contracts above."""
    I = ctx.new()
    n = z3.Int('n')
    f, g, h = (z3.Function(x, Z, R) for x in 'fgh')
    j = z3.Int('lj')

    def run():
        I.assume(n >= 0)
        d = lex_lemma(I, n, f, g)
        lt, gt, eq = lex_lt(n, f, g), lex_lt(n, g, f), vec_eq(n, f, g)
        I.prove(z3.Or(lt, gt, eq), 'trichotomy: at least one')
        I.prove(z3.Not(z3.And(lt, gt)), 'trichotomy: not a<b and b<a')
        I.prove(z3.Not(z3.And(lt, eq)), 'trichotomy: not a<b and a==b')
        I.prove(z3.Not(lex_lt(n, f, f)), 'irreflexive')
        I.prove(z3.Implies(z3.And(lt, lex_lt(n, g, h)), lex_lt(n, f, h)), 'transitive')
        a = lambda x: (lambda i: x(i) + h(i))
        I.prove(z3.Implies(lt, lex_lt(n, a(f), a(g))), 'addition is monotone')
    I.explore(lambda: None, lambda o, m: run())


def g_valid(ctx):
    I = ctx.new()
    st = {}

    def mk(kind):
        def setup(I):
            c = I.call(I.mod_get(I.load(MOD), 'ValidTransitionCost'), [], {})
            if kind == 'number':
                x = I.const('x', R)
                st['want'] = x >= 0
                v = SN(x)
            elif kind == 'int':
                x = I.const('x', Z)
                st['want'] = x >= 0
                v = SN(x)
            elif kind == 'vector':
                n = length(I)
                v, f = vec(ctx, I, 'v', n)
                lex_lemma(I, n, f, lambda i: z3.RealVal(0))
                z = lambda i: z3.RealVal(0)
                st['want'] = z3.Or(lex_lt(n, z, f), vec_eq(n, z, f))
            elif kind == 'none':
                v, st['want'] = None, FALSE
            elif kind == 'string':
                v, st['want'] = 'abc', FALSE
            elif kind == 'list':
                v, st['want'] = PList([single(1)]), FALSE
            elif kind == 'set':
                v, st['want'] = PSet([single(1)]), FALSE
            elif kind == 'object':
                v, st['want'] = Obj(object), FALSE
            return lambda: I.truth(SB(lib._bb(I.contains(c, v))))

        def post(I, out):
            nm = f'ValidTransitionCost.__contains__/{kind}'
            if ctx.no_raise(I, out, nm):
                I.prove(st['want'] if out else z3.Not(st['want']), f'{nm}: membership')
        ctx.verify(f'valid {kind}', setup, post, f'{MOD}:ValidTransitionCost.__contains__')
    for k in ('number', 'int', 'vector', 'none', 'string', 'list', 'set', 'object'):
        mk(k)


def g_ctor(ctx):
    I = ctx.new()
    st = {}

    def setup(I):
        x = I.const('x', R)
        st['x'] = x
        c = I.mod_get(I.load(MOD), 'VectorCost')
        return lambda: I.call(c, [SN(x)], {})

    def post(I, out):
        if ctx.no_raise(I, out, 'VectorCost(number)'):
            value_is(I, out, z3.IntVal(1), lambda i: st['x'], 'VectorCost(number)')
    ctx.verify('ctor number', setup, post, f'{MOD}:VectorCost.__init__')

    def setup2(I):
        c = I.mod_get(I.load(MOD), 'VectorCost')
        return lambda: I.call(c, [None], {})
    ctx.verify('ctor non-iterable', setup2, lambda I, out: I.prove(
        z3.BoolVal(isinstance(out, Raised) and out.cls is TypeError), 'TypeError'),
        f'{MOD}:VectorCost.__init__')

    def setup3(I):
        n = length(I)
        st['n'] = n
        l, f = seq(I, 'a', n, R)
        st['f'] = f
        c = I.mod_get(I.load(MOD), 'VectorCost')

        def t():
            v = I.call(c, [l], {})
            # the vector owns its components: changing the argument has no effect
            I.lib.l_append(I, l, 7)
            return v
        return t

    def post3(I, out):
        if ctx.no_raise(I, out, 'VectorCost(list)'):
            value_is(I, out, st['n'], st['f'], 'VectorCost(list) independent of its argument')
    ctx.verify('ctor owns', setup3, post3, f'{MOD}:VectorCost.__init__')


GROUPS = [Group('add', g_add)] + [Group(o, mk_cmp(o)) for o in SPEC] + [
    Group('length mismatch', g_mismatch), Group('order laws', g_laws),
    Group('valid costs', g_valid), Group('constructor', g_ctor)]
ASSUMED = ['float components are mathematical reals (NaN, infinities and rounding excluded)',
           'semantics of list, zip, all, itertools.repeat/starmap, operator.add/eq, '
           'functools.total_ordering as documented (vf/lib.py)',
           'least-number principle for the first differing index']
