"""Contracts for tulip/transys/mathset.py.

Items are arbitrary values: H(x) says that hash(x) returns, isinst_Hashable(x)
that the type of x has a hash function (H(x) implies it; a tuple that contains
a list is Hashable by type and still has no hash value).  Equality of items is
equality of values, and equal items are hashable together.

Representation invariant of a set M: `_set` holds items with H, `_list` holds
items without H, without duplicates.  Abstraction: x in M iff x in _set or x
in _list.
"""
import z3
from vf.core import _MISSING
from vf.contract import *
from contracts.C03 import A, z3b, mem

MOD = 'tulip.transys.mathset'
B = z3.BoolSort()
H = z3.Function('H', V, B)
TYPE = z3.Function('isinst_Hashable', V, B)
x_ = z3.Const('hx', V)
AX = [z3.ForAll([x_], z3.Implies(H(x_), TYPE(x_)), patterns=[H(x_)])]


def item(I):
    return Sym(I.const('item', V), 'item')


def fam(I, f):
    x = I.const('x', V)
    return Part((x,), f(x), Sym(x, 'item'))


def new(ctx, **kw):
    I = ctx.new(**kw)
    I.hash_kinds['item'] = H
    I.axioms += AX
    I.feas_ground = False
    I.ext['random'] = dict(randint=Builtin('randint', lambda I, a, b: I.pick([TRUE] * (b - a + 1)) + a),
                           choice=Builtin('choice', lambda I, s: (_ for _ in ()).throw(Unsupported('choice'))))
    return I


def mathset(ctx, name, cls='MathSet', **f):
    """An arbitrary set that satisfies the representation invariant."""
    I = ctx.I
    p = I.func(name, V, B)
    o = Obj(ctx.resolve(f'{MOD}:{cls}'), dict(
        _set=PSet([fam(I, lambda x: And_(p(x), H(x)))]), _list=PList([fam(I, lambda x: And_(p(x), Not_(H(x))))]), **f))
    return o, p


def members(I, o):
    I.note_read(o.f['_set'])
    I.note_read(o.f['_list'])
    return tuple(o.f['_set'].parts) + tuple(o.f['_list'].parts)


def is_set(I, o):
    return isinstance(o, Obj) and isinstance(o.f.get('_set'), PSet) and isinstance(o.f.get('_list'), PList)


def nodup(I, parts):
    two = []
    for i, p in enumerate(parts):
        if p.vars:
            a, b = I.inst(p), I.inst(p)
            two.append(Exists_(list(a.vars) + list(b.vars), And_(
                a.cond, b.cond, I._eqf(a.val, b.val), Or_(*[x != y for x, y in zip(a.vars, b.vars)]))))
        for q in parts[i + 1:]:
            a, b = I.inst(p), I.inst(q)
            two.append(Exists_(list(a.vars) + list(b.vars), And_(a.cond, b.cond, I._eqf(a.val, b.val))))
    return Not_(Or_(*two)) if two else TRUE


def check_set(I, o, want, name):
    """The invariant of o, and x in o iff want(x) for every x."""
    if not is_set(I, o):
        I.prove(FALSE, f'{name}: a set with its two parts')
        return
    x = I.const('m', V)
    s = Sym(x, 'item')
    for k, f in (('_set', H(x)), ('_list', Not_(H(x)))):
        I.prove(Implies_(z3b(I.member_parts(s, o.f[k].parts)), f), f'{name}: {k} holds items that are{" not" if k == "_list" else ""} hashable')
    I.prove(nodup(I, o.f['_list'].parts), f'{name}: no duplicates among unhashable items')
    I.prove(z3b(I.member_parts(s, members(I, o))) == z3b(want(x)), f'{name}: members')


def set_inv(I, o, want):
    x = I.const('m', V)
    s = Sym(x, 'item')
    f = lambda k, g: ForAll_([x], Implies_(z3b(I.member_parts(s, o.f[k].parts)), g))
    return [('hashable items', f('_set', H(x))), ('unhashable items', f('_list', Not_(H(x)))),
            ('no duplicates', nodup(I, o.f['_list'].parts)),
            ('members', ForAll_([x], z3b(I.member_parts(s, members(I, o))) == z3b(want(x))))]


def c_unique(I, f, args, kw):
    """unique: a set if every item has a hash, otherwise a list without duplicates."""
    b = I.bind(f, args, kw)
    parts = I.iter_parts(b['iterable'])
    allh = And_(*[ForAll_(list(q.vars), Implies_(q.cond, I.hash_cond(q.val))) for q in map(I.inst, parts)])
    if I.branch(allh):
        return PSet([Part(p.vars, p.cond, p.val) for p in parts])
    x = I.const('u', V)
    return PList([Part((x,), z3b(I.member_parts(Sym(x, 'item'), parts)), Sym(x, 'item'))])


def item_loops(I, st):
    """for-loops over an operand that edit a set: the set is the result of the
    edits for the items visited so far."""
    def rule(I, fr, node, it):
        if not fr.func or not str(fr.func).startswith(MOD + ':'):
            return False
        op = st.get('op')
        if op is None or fr.func in st.get('skip', ()):
            return False
        edited = [v for k, v in fr.f.items() if is_set(I, v) and not any(v is z for z in st.get('frozen', ()))]
        if len({o.id for o in edited}) != 1:
            return False
        o = edited[0]
        parts = I.iter_parts(it)
        if not any(p.vars for p in parts):
            return False
        for p in parts:
            m0 = members(I, o)

            def cur(x):
                return z3b(I.member_parts(Sym(x, 'item'), m0))

            def inv(p, done):
                q = I.inst(p)
                y = list(q.vars)

                def vis(x):
                    c = done(y)
                    return Exists_(y, And_(q.cond, c, I._eqf(q.val, Sym(x, 'item'))))
                return set_inv(I, o, lambda x: op(cur(x), vis(x), x))

            def havoc():
                f = I.func('M', V, B)
                I.set_parts(o.f['_set'], [fam(I, lambda x: And_(f(x), H(x)))])
                I.set_parts(o.f['_list'], [fam(I, lambda x: And_(f(x), Not_(H(x))))])
                return [o, o.f['_set'], o.f['_list']]
            I.inv_for(fr, node, PList([p]), havoc, inv, 'loop over the operand')
        return True
    rule.optional = True
    I.for_rules.append(rule)


OPERANDS = ['MathSet', 'list', 'iterator', 'set']


def operand(ctx, kind):
    I = ctx.I
    if kind == 'MathSet':
        return mathset(ctx, 'Q')
    q = I.func('Q', V, B)
    p = fam(I, lambda x: And_(q(x), H(x)) if kind == 'set' else q(x))
    f = (lambda x: And_(q(x), H(x))) if kind == 'set' else q
    return dict(list=PList, iterator=It, set=PSet)[kind]([p]), f


def mk_unique(ctx):
    I = new(ctx)
    q = I.func('q', V, B)

    def rule(I, fr, node, it):
        if not fr.func or not str(fr.func).endswith('unique'):
            return False
        lists = [v for k, v in fr.f.items() if isinstance(v, PList) and not v.parts]
        if len(lists) != 1:
            return False
        o = lists[0]

        def inv(p, done):
            r = I.inst(p)
            x = I.const('m', V)
            vis = lambda x: Exists_(list(r.vars), And_(r.cond, done(list(r.vars)), I._eqf(r.val, Sym(x, 'item'))))
            return [('items visited', ForAll_([x], z3b(I.member_parts(Sym(x, 'item'), o.parts)) == vis(x))),
                    ('no duplicates', nodup(I, o.parts))]

        def havoc():
            f = I.func('U', V, B)
            I.set_parts(o, [fam(I, lambda x: f(x))])
            return [o]
        I.inv_for(fr, node, it, havoc, inv, 'unique items')
        return True
    I.for_rules.append(rule)
    # a list that may repeat items
    occ = I.func('occ', z3.IntSort(), V)
    n = I.const('n', z3.IntSort())

    for kind in (PList, It):
        def setup(I):
            i = I.const('i', z3.IntSort())
            p = Part((i,), And_(i >= 0, i < n), Sym(occ(i), 'item'), n)
            return lambda: I.call(ctx.resolve(f'{MOD}:unique'), [kind([p])], {})

        def post(I, out):
            if not ctx.no_raise(I, out, 'unique'):
                return
            i = I.const('i', z3.IntSort())
            p = Part((i,), And_(i >= 0, i < n), Sym(occ(i), 'item'), n)
            x = I.const('m', V)
            ok = isinstance(out, (PSet, PList))
            I.prove(z3.BoolVal(ok), 'unique: a set or a list')
            if ok:
                I.prove(z3b(I.member_parts(Sym(x, 'item'), out.parts)) == z3b(I.member_parts(Sym(x, 'item'), [p])), 'unique: the same items')
                if isinstance(out, PList):
                    I.prove(nodup(I, out.parts), 'unique: no item twice')
        ctx.verify(f'unique({kind.__name__})', setup, post, f'{MOD}:unique')


def mk_item(ctx):
    """contains, add, remove of one item."""
    for meth in ('__contains__', 'add', 'remove'):
        I = new(ctx)
        st = {}

        def setup(I):
            st['o'], st['p'] = mathset(ctx, 'P')
            st['x'] = item(I)
            return lambda: I.call(ctx.resolve(f'{MOD}:MathSet.{meth}'), [st['o'], st['x']], {})

        def post(I, out):
            o, p, x = st['o'], st['p'], st['x'].t
            if meth == 'remove' and isinstance(out, Raised):
                I.prove(And_(Not_(p(x)), z3.BoolVal(out.cls in (KeyError, ValueError))), 'remove: raises only for an item that is not in the set')
                return check_set(I, o, p, 'remove of another item')
            if not ctx.no_raise(I, out, meth):
                return
            if meth == '__contains__':
                I.prove(z3b(I.truth_term(out)) == p(x), 'contains: membership')
                return check_set(I, o, p, 'contains does not change the set')
            if meth == 'remove':
                I.prove(p(x), 'remove: an item of the set')
            check_set(I, o, lambda y: (Or_(p(y), y == x) if meth == 'add' else And_(p(y), y != x)), meth)
        ctx.verify(f'MathSet.{meth}', setup, post, f'{MOD}:MathSet.{meth}')


BULK = {
    'add_from': (lambda p, q: Or_(p, q), 'self'), 'update': (lambda p, q: Or_(p, q), 'self'), '__ior__': (lambda p, q: Or_(p, q), 'self'),
    '__or__': (lambda p, q: Or_(p, q), 'new'), '__sub__': (lambda p, q: And_(p, Not_(q)), 'new'),
    '__isub__': (lambda p, q: And_(p, Not_(q)), 'self'), 'intersection': (lambda p, q: And_(p, q), 'new'),
    '__init__': (lambda p, q: q, 'init'), 'intersects': (None, 'bool')}


def mk_bulk(meth, kind):
    def g(ctx):
        I = new(ctx)
        I.contracts[f'{MOD}:unique'] = c_unique
        st = {}
        fn, where = BULK[meth]
        if meth in ('__sub__', '__isub__'):
            st['op'] = lambda cur, vis, x: And_(cur, Not_(vis))
        elif meth == 'intersection':
            st['op'] = lambda cur, vis, x: Or_(cur, And_(vis, st['p'](x)))
        else:
            st['op'] = lambda cur, vis, x: Or_(cur, vis)
        item_loops(I, st)

        def setup(I):
            o, p = mathset(ctx, 'P')
            if where == 'init':
                o = Obj(o.cls, {})
            q, qf = operand(ctx, kind)
            st.update(o=o, p=p, q=q, qf=qf, frozen=[q])
            f = ctx.resolve(f'{MOD}:MathSet.{meth}')
            if where == 'new':
                st['frozen'] = [o, q]
            return lambda: I.call(f, [o, q], {})

        def post(I, out):
            o, p, q, qf = st['o'], st['p'], st['q'], st['qf']
            nm = f'{meth}({kind})'
            if not ctx.no_raise(I, out, nm):
                return
            if where == 'bool':
                x = I.const('x', V)
                I.prove(z3b(I.truth_term(out)) == Exists_([x], And_(p(x), qf(x))), f'{nm}: whether there is a common item')
                check_set(I, o, p, f'{nm} does not change the set')
            elif where == 'new':
                I.prove(z3.BoolVal(is_set(I, out) and out is not o and out is not q), f'{nm}: a new set')
                check_set(I, out, lambda x: fn(p(x), qf(x)), nm)
                check_set(I, o, p, f'{nm} does not change the set')
                if is_set(I, out):
                    I.prove(z3.BoolVal(all(out.f[k] is not z.f[k] for k in ('_set', '_list') for z in (o, q) if is_set(I, z))),
                            f'{nm}: shares nothing with the operands')
            else:
                check_set(I, o, lambda x: fn(p(x), qf(x)), nm)
                if meth in ('__ior__', '__isub__'):
                    I.prove(z3.BoolVal(out is o), f'{nm}: the same set')
                if kind == 'MathSet':
                    I.prove(z3.BoolVal(all(o.f[k] is not q.f[k] for k in ('_set', '_list'))), f'{nm}: shares nothing with the operand')
            if kind == 'MathSet':
                check_set(I, q, qf, f'{nm} does not change the operand')
        ctx.verify(f'MathSet.{meth}({kind})', setup, post, f'{MOD}:MathSet.{meth}')
    return g


def mk_lists(ctx):
    """compare_lists of lists without duplicates: the same items."""
    I = new(ctx)
    st = {}

    def rule(I, fr, node, it):
        if not fr.func or not str(fr.func).endswith('compare_lists'):
            return False
        own = [v for k, v in fr.f.items() if isinstance(v, PList) and v is not st['a'] and v is not st['b']]
        flags = [k for k, v in fr.f.items() if v is True]
        if len(own) != 1 or len(flags) != 1:
            return False
        o = own[0]

        def inv(p, done):
            x = I.const('m', V)
            d = lambda x: done([x])
            return [('remaining items', ForAll_([x], z3b(I.member_parts(Sym(x, 'item'), o.parts)) == And_(st['P'](x), Not_(d(x))))),
                    ('visited items are items', ForAll_([x], Implies_(d(x), st['P'](x)))), ('no duplicates', nodup(I, o.parts))]

        def havoc():
            f = I.func('U', V, B)
            I.set_parts(o, [fam(I, lambda x: f(x))])
            return [o]
        I.inv_for(fr, node, it, havoc, inv, 'removal of the items', keep=(flags[0],))
        return True
    I.for_rules.append(rule)

    def setup(I):
        P, Q = I.func('P', V, B), I.func('Q', V, B)
        st.update(P=P, Q=Q, a=PList([fam(I, P)]), b=PList([fam(I, Q)]))
        return lambda: I.call(ctx.resolve(f'{MOD}:compare_lists'), [st['a'], st['b']], {})

    def post(I, out):
        if not ctx.no_raise(I, out, 'compare_lists'):
            return
        x = I.const('x', V)
        I.prove(z3b(I.truth_term(out)) == ForAll_([x], st['P'](x) == st['Q'](x)), 'the same items')
        for k, f in (('a', 'P'), ('b', 'Q')):
            I.prove(ForAll_([x], z3b(I.member_parts(Sym(x, 'item'), st[k].parts)) == st[f](x)), 'the lists are not changed')
    ctx.verify('compare_lists', setup, post, f'{MOD}:compare_lists')


def mk_eq(ctx):
    """== of sets: the same members; pop removes the member that it returns."""
    I = new(ctx)
    st = {}

    def same(I, f, args, kw):
        b = I.bind(f, args, kw)
        for l in (b['list1'], b['list2']):
            I.prove(z3.BoolVal(isinstance(l, PList)), 'compare_lists compares lists')
            I.prove(nodup(I, l.parts), 'compare_lists compares lists without duplicates')
        return SB(I.same_elements(b['list1'].parts, b['list2'].parts))
    I.contracts[f'{MOD}:compare_lists'] = same

    def setup(I):
        st['o'], st['p'] = mathset(ctx, 'P')
        st['q'], st['qf'] = mathset(ctx, 'Q')
        return lambda: I.call(ctx.resolve(f'{MOD}:MathSet.__eq__'), [st['o'], st['q']], {})

    def post(I, out):
        if not ctx.no_raise(I, out, '=='):
            return
        x = I.const('x', V)
        I.prove(z3b(I.truth_term(out)) == ForAll_([x], st['p'](x) == st['qf'](x)), '== iff the same members')
        check_set(I, st['o'], st['p'], '== does not change the set')
        check_set(I, st['q'], st['qf'], '== does not change the other set')
    ctx.verify('MathSet.__eq__', setup, post, f'{MOD}:MathSet.__eq__')
    I = new(ctx)

    def setup2(I):
        st['o'], st['p'] = mathset(ctx, 'P')
        return lambda: I.call(ctx.resolve(f'{MOD}:MathSet.pop'), [st['o']], {})

    def post2(I, out):
        o, p = st['o'], st['p']
        x = I.const('x', V)
        if isinstance(out, Raised):
            I.prove(And_(z3.BoolVal(out.cls is KeyError), ForAll_([x], Not_(p(x)))), 'pop: raises only for the empty set')
            return check_set(I, o, p, 'pop of the empty set')
        t = I.enc_.enc(out)
        I.prove(p(t), 'pop: returns a member')
        check_set(I, o, lambda y: And_(p(y), y != t), 'pop: removes what it returns')
    ctx.verify('MathSet.pop', setup2, post2, f'{MOD}:MathSet.pop')
    I = new(ctx)

    def setup3(I):
        st['o'], st['p'] = mathset(ctx, 'P')
        return lambda: PList(I.iter_parts(st['o']))

    def post3(I, out):
        if ctx.no_raise(I, out, 'iteration'):
            x = I.const('x', V)
            I.prove(z3b(I.member_parts(Sym(x, 'item'), out.parts)) == st['p'](x), 'iteration: the members')
            I.prove(nodup(I, out.parts), 'iteration: no member twice')
            check_set(I, st['o'], st['p'], 'iteration does not change the set')
    ctx.verify('MathSet.__iter__', setup3, post3, f'{MOD}:MathSet.__iter__')


def mk_sub(ctx):
    """SubSet: edits keep it a subset of its superset."""
    for sup in ('MathSet', 'list', 'set'):
        for meth in ('add', 'add_from'):
            I = new(ctx)
            I.contracts[f'{MOD}:unique'] = c_unique
            st = {'op': lambda cur, vis, x: Or_(cur, vis)}
            item_loops(I, st)

            def setup(I):
                if sup == 'MathSet':
                    S, s = mathset(ctx, 'S')
                else:
                    sf = I.func('S', V, B)
                    s = (lambda x: And_(sf(x), H(x))) if sup == 'set' else sf
                    S = (PSet if sup == 'set' else PList)([fam(I, s)])
                o, p = mathset(ctx, 'P', 'SubSet', _superset=S)
                x = I.const('x', V)
                I.assume(ForAll_([x], Implies_(p(x), s(x))))
                st.update(o=o, p=p, s=s, S=S, frozen=[S])
                if meth == 'add':
                    st['x'] = item(I)
                    st['q'] = lambda y: y == st['x'].t
                    a = st['x']
                else:
                    a, st['q'] = operand(ctx, 'iterator')
                return lambda: I.call(ctx.resolve(f'{MOD}:SubSet.{meth}'), [o, a], {})

            def post(I, out):
                o, p, s, q = st['o'], st['p'], st['s'], st['q']
                nm = f'SubSet.{meth} ({sup})'
                x = I.const('x', V)
                if isinstance(out, Raised):
                    ok = out.cls is ValueError or out.cls is TypeError and sup == 'set'
                    I.prove(And_(z3.BoolVal(ok), Exists_([x], And_(q(x), Not_(s(x))))), f'{nm}: raises only for an item outside the superset')
                    return check_set(I, o, p, f'{nm}: unchanged when it raises')
                I.prove(Implies_(q(x), s(x)), f'{nm}: accepts only items of the superset')
                check_set(I, o, lambda y: Or_(p(y), q(y)), nm)
                I.prove(z3.BoolVal(o.f['_superset'] is st['S']), f'{nm}: the same superset')
            ctx.verify(f'SubSet.{meth}({sup})', setup, post, f'{MOD}:SubSet.{meth}')


def mk_power(ctx):
    for kind in ('list', 'iterator', 'MathSet'):
        I = new(ctx)
        st = {}

        def setup(I):
            m, p = mathset(ctx, 'P')
            o = Obj(ctx.resolve(f'{MOD}:PowerSet'), dict(math_set=m))
            q, qf = operand(ctx, kind)
            st.update(o=o, m=m, p=p, qf=qf)
            return lambda: I.call(ctx.resolve(f'{MOD}:PowerSet.__contains__'), [o, q], {})

        def post(I, out):
            if not ctx.no_raise(I, out, 'power set'):
                return
            x = I.const('x', V)
            I.prove(z3b(I.truth_term(out)) == ForAll_([x], Implies_(st['qf'](x), st['p'](x))), 'in the power set iff every item is in the set')
            check_set(I, st['m'], st['p'], 'membership does not change the set')
        ctx.verify(f'PowerSet.__contains__({kind})', setup, post, f'{MOD}:PowerSet.__contains__')


def mk_typed(ctx):
    """TypedDict: no edit stores a value outside the values allowed for its key."""
    OK = z3.Function('ok', V, V, B)        # value allowed for key
    TYPED, FREE, BAD = (z3.Function(n, V, B) for n in ('typed', 'free', 'bad'))
    HAS = z3.Function('has', V, B)
    VAL = z3.Function('val', V, V)

    def allowed(I):
        def get(I, k):
            t = I.enc_.enc(k)
            I.prove(TYPED(t), 'types are read for a key that has one')
            if I.branch(FREE(t)):
                return None

            def isin(I, v):
                y = I.enc_.enc(v)
                if I.branch(z3.Function('raises', V, V, B)(t, y)):
                    raise PyExc(TypeError, ('membership cannot be decided',))
                return And_(OK(t, y), Not_(z3.Function('raises', V, V, B)(t, y)))
            return A('values', **{'%in': isin})
        return A('allowed', get=Builtin('get', lambda I, k, d=None: get(I, k) if I.branch(TYPED(I.enc_.enc(k))) else d),
                 **{'%in': lambda I, k: TYPED(I.enc_.enc(k)), '%item': get})

    def admitted(k, y):
        r = z3.Function('raises', V, V, B)
        return Or_(Not_(TYPED(k)), FREE(k), And_(OK(k, y), Not_(r(k, y))))

    def content(I, o):
        return o.f['%dict'].parts

    for meth in ('__setitem__', 'setdefault', 'update', '__ior__', 'update(keyword)', 'update(two)', 'update(two keywords)'):
        I = new(ctx)
        I.hash_kinds.clear()
        st = {}

        def setup(I):
            k0 = I.const('k', V)
            d = PDict([Part((k0,), HAS(k0), (Sym(k0), Sym(VAL(k0))))])
            o = Obj(ctx.resolve(f'{MOD}:TypedDict'), {'%dict': d, 'allowed_values': allowed(I)})
            I.assume(ForAll_([k0], Implies_(HAS(k0), admitted(k0, VAL(k0)))))
            k, y = I.sym('key'), I.sym('value')
            st.update(o=o, k=k, y=y)
            f = ctx.resolve(f'{MOD}:TypedDict.' + meth.split('(')[0])
            if meth in ('__setitem__', 'setdefault'):
                return lambda: I.call(f, [o, k, y], {})
            if meth.startswith('update(two'):
                k2, y2 = ('key_2' if 'key' in meth else I.sym('key_2')), I.sym('value_2')
                if 'key' in meth:
                    k = st['k'] = 'key_1'
                k_, k2_ = I.enc_.enc(k), I.enc_.enc(k2)
                I.assume(k_ != k2_)
                I.assume(And_(admitted(k_, y.t), admitted(k2_, y2.t)))
                st.update(k2=k2, y2=y2)
                return lambda: I.call(f, [o], {k: y, k2: y2}) if 'key' in meth else I.call(f, [o, PDict([single((k, y)), single((k2, y2))])], {})
            if meth == 'update(keyword)':
                st['k'] = 'key'
                return lambda: I.call(f, [o], {'key': y})
            return lambda: I.call(f, [o, PDict([single((k, y))])], {})

        def post(I, out):
            k, y = I.enc_.enc(st['k']), st['y'].t
            o = st['o']
            z = I.const('z', V)
            if isinstance(out, Raised):
                I.prove(And_(z3.BoolVal(out.cls is ValueError), Not_(admitted(k, y))), f'{meth}: raises ValueError only for values outside the allowed')
            got = content(I, o)
            for p in map(I.inst, got):
                I.prove(ForAll_(list(p.vars), Implies_(p.cond, admitted(I.enc_.enc(p.val[0]), I.enc_.enc(p.val[1])))),
                        f'{meth}: every value is allowed for its key')
            stored = lambda key: I.dict_get(o.f['%dict'], key)
            other = Sym(I.const('other', V))
            I.assume(other.t != k)
            if 'two' in meth:
                I.assume(other.t != I.enc_.enc(st['k2']))
                g = stored(st['k2'])
                I.prove(z3.BoolVal(g is not _MISSING), f'{meth}: the second key is present')
                if g is not _MISSING:
                    I.prove(z3b(I._eqf(g, st['y2'])), f'{meth}: the second value is stored')
            g = stored(other)
            I.prove(HAS(other.t) if g is not _MISSING else Not_(HAS(other.t)), f'{meth}: the other keys')
            if g is not _MISSING:
                I.prove(z3b(I._eqf(g, Sym(VAL(other.t)))), f'{meth}: the values of other keys')
            g = stored(st['k'])
            if isinstance(out, Raised):
                I.prove(HAS(k) if g is not _MISSING else Not_(HAS(k)), f'{meth}: a refused value changes no key')
                if g is not _MISSING:
                    I.prove(z3b(I._eqf(g, Sym(VAL(k)))), f'{meth}: a refused value is not stored')
                return
            I.prove(z3.BoolVal(g is not _MISSING), f'{meth}: the key is present')
            if g is _MISSING:
                return
            if meth == 'setdefault':
                I.prove(z3b(I._eqf(g, Sym(z3.If(HAS(k), VAL(k), y)))), 'setdefault: keeps the value that is present')
                I.prove(z3b(I._eqf(out, g)), 'setdefault: returns the value')
            else:
                I.prove(z3b(I._eqf(g, st['y'])), f'{meth}: the given value is stored')
            if meth == '__ior__':
                I.prove(z3.BoolVal(out is o), '__ior__: the same dictionary')
        ctx.verify(f'TypedDict.{meth}', setup, post, f'{MOD}:TypedDict.{meth.split("(")[0]}')


GROUPS = [Group('unique', mk_unique), Group('item', mk_item), Group('subset', mk_sub), Group('compare_lists', mk_lists), Group('eq, pop, iter', mk_eq), Group('power', mk_power), Group('typed', mk_typed)]
GROUPS += [Group(f'{m}({k})', mk_bulk(m, k)) for m in BULK for k in OPERANDS]
ASSUMED = ['equality of items is equality of values: equal items are hashable together (a frozenset equals the set of its items in Python)',
           'hash and equality of items terminate and depend only on the item',
           'random.randint returns any integer of its range']
