"""Contracts for tulip/spec/gr1_fragment.py.

Conversions: P(x, k) is the truth of the (propositional) formula x at step k of an
arbitrary infinite word, a(k) the value of the auxiliary variable.
Splitting: formula trees are opaque nodes with operator and operands; MEAN, ALW, IO
give the truth of u, []u, []<>u at the first step.
"""
import z3
from vf.contract import *
from vf.interp import Builtin
from vf import tmpl
from vf.core import _MISSING

MOD = 'tulip.spec.gr1_fragment'
Z, B = z3.IntSort(), z3.BoolSort()
PV = z3.Function('P', V, Z, B)
OCC = z3.Function('occurs', V, V, B)               # formula, variable
PARTS = [f'{p}_{q}' for p in ('env', 'sys') for q in ('init', 'safety', 'prog')]


def holes(s):
    """Formula holes of a text."""
    if isinstance(s, Sym):
        return [s]
    if not isinstance(s, SStr):
        return []
    return [p for p in s.pieces if isinstance(p, Sym)]


def c_name_conflict(I, f, args, kw):
    env = I.bind(f, args, kw)
    s, name = env['f'], env['varname']
    I.prove(z3.BoolVal(tmpl.parse(s) is not None), 'check_var_name_conflict: a formula')
    occ = lambda v: Or_(*[OCC(h.t, v) for h in holes(s)])
    n = I.enc_.enc(name)
    if I.branch(occ(n)):
        raise PyExc(ValueError, ('already used',))
    v = I.const('v', V)
    return PSet([Part((v,), occ(v), Sym(v, 'name'))])


def induct(I, phi, name):
    t = I.const('t', Z)
    I.prove(phi(z3.IntVal(0)), f'{name}: base')
    I.prove(z3.Implies(z3.And(t >= 0, phi(t)), phi(t + 1)), f'{name}: step')
    x = z3.Int('it_')
    I.assume(z3.ForAll([x], z3.Implies(x >= 0, phi(x))))


def all_(f, lo=0):
    t = z3.FreshConst(Z, 't')
    return z3.ForAll([t], z3.Implies(t >= lo, f(t)))


def some_(f, lo=0):
    t = z3.FreshConst(Z, 't')
    return z3.Exists([t], z3.And(t >= lo, f(t)))


def pattern(kind, p, q):
    if kind == 'stability':
        return some_(lambda t: all_(p, t))
    if kind == 'response':
        return all_(lambda t: z3.Implies(p(t), some_(q, t)))
    if kind == 'eventually':
        return some_(p)
    u = z3.FreshConst(Z, 'u')
    return some_(lambda t: z3.And(q(t), z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < t), p(u)))))


def witness(kind, p, q):
    """A valuation of the auxiliary variable for words that satisfy the pattern."""
    s, u = z3.Ints('s_ u_')
    if kind == 'stability':
        return lambda t: z3.And(t >= 1, all_(p, t))
    if kind == 'response':
        # nothing pending
        return lambda t: z3.Not(z3.Exists([s], z3.And(0 <= s, s < t, p(s), z3.ForAll(
            [u], z3.Implies(z3.And(s <= u, u < t), z3.Not(q(u)))))))
    if kind == 'eventually':
        return lambda t: z3.Exists([s], z3.And(0 <= s, s < t, p(s)))
    return lambda t: z3.Exists([s], z3.And(0 <= s, s <= t, q(s)))


def mk_conv(kind):
    fn = f'{kind}_to_gr1'
    two = kind in ('response', 'until')

    def g(ctx):
        I = ctx.new(timeout_ms=20000)
        I.contracts['tulip.spec.transformation:check_var_name_conflict'] = c_name_conflict
        I.contracts['tulip.spec.form:GRSpec.to_canon'] = lambda I, f, a, kw: Sym(I.const('canon', V), 'formula')
        I.ext['logging'] = dict(warning=Builtin('warning', lambda I, *a, **k: None))
        I.kind_isinstance['name'] = ('str', 'Iterable', 'Hashable')
        st = {}

        def setup(I):
            p, q = Sym(I.const('p', V), 'formula'), Sym(I.const('q', V), 'formula')
            a = Sym(I.const('aux', V), 'name')
            st.update(p=p, q=q, a=a)
            return lambda: I.call(ctx.resolve(f'{MOD}:{fn}'), [p, q, a] if two else [p, a], {})

        def post(I, out):
            p, q, a = st['p'], st['q'], st['a']
            clash = Or_(OCC(p.t, a.t), OCC(q.t, a.t) if two else FALSE)
            if isinstance(out, Raised):
                I.prove(z3.BoolVal(out.cls is ValueError), 'raises ValueError')
                I.prove(clash, 'only if the auxiliary name is in use')
                return
            I.prove(Not_(clash), 'an auxiliary name in use is rejected')
            k = I.const('k', V)
            sv = I.getattr_(out, 'sys_vars')
            I.prove(lib._bb(I.contains(sv, Sym(k, 'name'))) == Or_(
                OCC(p.t, k), OCC(q.t, k) if two else FALSE, k == a.t), 'declares the variables of the formulas and the auxiliary')
            if I.branch(lib._bb(I.contains(sv, Sym(k, 'name')))):
                I.prove(lib._bb(I.eq(I.getitem(sv, Sym(k, 'name')), 'boolean')), 'Boolean variables')
            ev = I.getattr_(out, 'env_vars')
            I.prove(z3.BoolVal(ev.parts == ()), 'no environment variable')
            conds = {}
            for n in PARTS:
                l = I.getattr_(out, n)
                conds[n] = [x.val for x in l.parts]
                if any(x.vars or not z3.is_true(x.cond) for x in l.parts):
                    raise Unsupported('conditions of symbolic number')
            I.prove(z3.BoolVal(not any(conds[n] for n in PARTS if n.startswith('env'))), 'no assumption')

            def reader(av):
                def atom(e, t):
                    if e.op == 'hole' and isinstance(e.data, Sym):
                        return av(t) if e.data.kind == 'name' else PV(e.data.t, t)
                    raise Unsupported(f'leaf {e!r}')
                S = tmpl.Sem(atom)

                def read(s, t):
                    r = tmpl.formula(I, s, lambda e: S(e, t), fn, top=False)
                    return r if r is not None else z3.FreshConst(B, 'bad')
                return read
            P_, Q_ = (lambda t: PV(p.t, t)), (lambda t: PV(q.t, t))
            want = pattern(kind, P_, Q_)
            direction = I.choose([TRUE, TRUE])
            if direction == 0:
                A = I.func('a', Z, B)
                read = reader(A)
                t = z3.Int('ht')
                for s in conds['sys_init']:
                    I.assume(read(s, z3.IntVal(0)))
                for s in conds['sys_safety']:
                    I.assume(z3.ForAll([t], z3.Implies(t >= 0, read(s, t))))
                for s in conds['sys_prog']:
                    I.assume(all_(lambda x: some_(lambda y: read(s, y), x)))
                forward(I, kind, A, P_, Q_, want)
                return
            I.assume(want)
            W = witness(kind, P_, Q_)
            A = I.func('aw', Z, B)
            t = z3.Int('wt')
            I.assume(z3.ForAll([t], A(t) == W(t), patterns=[A(t)]))
            read = reader(A)
            t = I.const('t', Z)
            I.assume(t >= 0)
            hint = backward(I, kind, A, P_, Q_, t)
            for i, s in enumerate(conds['sys_init']):
                I.prove(read(s, z3.IntVal(0)), f'completeness: initial condition {i}')
            for i, s in enumerate(conds['sys_safety']):
                I.prove(read(s, t), f'completeness: safety condition {i}')
            for i, s in enumerate(conds['sys_prog']):
                if hint is None:
                    I.prove(some_(lambda y: read(s, y), t), f'completeness: progress condition {i}')
                else:
                    I.prove(hint >= t, f'completeness: progress condition {i}: a later step')
                    I.prove(z3.Implies(hint >= t, read(s, hint)), f'completeness: progress condition {i}')
        ctx.verify(fn, setup, post, f'{MOD}:{fn}')
    return g


def forward(I, kind, A, p, q, want):
    if kind == 'stability':
        w = I.const('w', Z)
        I.assume(z3.And(w >= 0, A(w)))          # from progress at step 0
        induct(I, lambda t: z3.Implies(t >= w, A(t)), 'soundness: the auxiliary stays true')
    elif kind == 'response':
        r = I.const('r', Z)
        # a request never answered keeps the auxiliary false
        if I.branch(z3.And(r >= 0, p(r), all_(lambda t: z3.Not(q(t)), r))):
            induct(I, lambda t: z3.Implies(t > r, z3.Not(A(t))), 'soundness: the auxiliary stays false while pending')
            I.prove(FALSE, 'soundness: every request is answered')
            return
        I.prove(z3.Implies(z3.And(r >= 0, p(r)), some_(q, r)), 'soundness: every request is answered')
        return
    elif kind == 'eventually':
        if I.branch(all_(lambda t: z3.Not(p(t)))):
            induct(I, lambda t: z3.Not(A(t)), 'soundness: the auxiliary stays false')
            I.prove(FALSE, 'soundness: the formula holds eventually')
            return
    else:
        s, u = z3.Ints('ls lu')
        least = lambda f: z3.Implies(some_(f), z3.Exists([s], z3.And(s >= 0, f(s), z3.ForAll(
            [u], z3.Implies(z3.And(0 <= u, u < s), z3.Not(f(u)))))))
        I.assume(least(q))                      # least number principle
        induct(I, lambda t: z3.Implies(A(t), z3.Exists([s], z3.And(0 <= s, s <= t, q(s)))),
               'soundness: the auxiliary is true only after the goal')
    I.prove(want, 'soundness: the pattern holds')


def backward(I, kind, A, p, q, t0):
    """Lemmas about the witness; a step at or after t0 where the auxiliary is true."""
    if kind in ('stability', 'eventually'):
        w = I.const('w', Z)
        I.assume(z3.And(w >= 0, all_(p, w) if kind == 'stability' else p(w)))      # from the pattern
        return z3.If(t0 > w, t0, w + 1)
    if kind == 'response':
        t, w = z3.Ints('bt bw')
        I.prove(z3.ForAll([w], z3.Implies(z3.And(w >= 0, q(w)), A(w + 1))), 'completeness: an answer resets the auxiliary')
        I.assume(z3.ForAll([w], z3.Implies(z3.And(w >= 0, q(w)), A(w + 1))))
        x = I.const('x', Z)
        I.prove(z3.Implies(z3.And(x >= 0, z3.Not(A(x))), z3.Exists([w], z3.And(w >= x, q(w)))),
                'completeness: a pending request is answered')
        I.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, z3.Not(A(t))), z3.Exists([w], z3.And(w >= t, q(w))))))


# ---------------------------------------------------------------- splitting

OP = z3.Function('operator', V, V)
LEAF = z3.Function('is_leaf', V, B)
ARG = [z3.Function(f'arg{i}', V, V) for i in range(2)]
MEAN, ALW, IO = (z3.Function(n, V, B) for n in ('MEAN', 'ALWAYS', 'INF_OFTEN'))
SUB = z3.Function('subtree', V, V, B)              # v is a node of the tree at u
CONJ = z3.Function('conjunct', V, B)
CHILD = z3.Function('child', V, V, B)
FLAT = z3.Function('flat', V, V)
BADINIT, BADG = ('G', 'F', 'U', 'V', 'R', 'W', 'X'), ('G', 'F', 'U', 'V', 'R', 'W')


def theory(I):
    u, v = z3.Consts('u_ v_', V)
    e = lambda s: I.enc_.enc(s)
    op = lambda x, s: z3.And(z3.Not(LEAF(x)), OP(x) == e(s))
    fs = [z3.Implies(op(u, '&'), MEAN(u) == z3.And(MEAN(ARG[0](u)), MEAN(ARG[1](u)))),
          z3.Implies(op(u, 'G'), MEAN(u) == ALW(ARG[0](u))),
          z3.Implies(op(u, 'F'), ALW(u) == IO(ARG[0](u))),
          z3.And(MEAN(FLAT(u)) == MEAN(u), ALW(FLAT(u)) == ALW(u), IO(FLAT(u)) == IO(u)),
          SUB(u, u), z3.Implies(LEAF(u), z3.ForAll([v], z3.Implies(SUB(u, v), v == u)))]
    for f in fs:
        I.axiom(z3.ForAll([u], f))
    return op


def bad(I, u, ops):
    v = z3.FreshConst(V, 'v')
    return z3.Exists([v], z3.And(SUB(u, v), z3.Not(LEAF(v)), Or_(*[OP(v) == I.enc_.enc(o) for o in ops])))


def node_attr(I, ob, name):
    if not (isinstance(ob, Sym) and ob.kind == 'node'):
        return _MISSING
    if name in ('operator', 'operands'):
        if I.branch(LEAF(ob.t)):
            raise PyExc(AttributeError, (name,))
        if name == 'operator':
            return Sym(OP(ob.t))
        unary = Or_(*[OP(ob.t) == I.enc_.enc(o) for o in ('G', 'F', 'X', '!')])
        n = 1 if I.branch(unary) else 2
        return PList([single(Sym(ARG[i](ob.t), 'node')) for i in range(n)])
    if name == 'flatten':
        return Builtin('flatten', lambda I, *a, **k: Sym(FLAT(ob.t), 'atom'))
    raise Unsupported(f'node.{name}')


class Succ(Val):
    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        if name == 'get':
            return Builtin('get', lambda I, u, d=None: SB(Not_(LEAF(I.enc_.enc(u)))))
        raise Unsupported(f'succ.{name}')


class TreeV(Val):
    """tulip.spec.transformation.Tree of a formula: a node has successors iff it is an operator."""

    def __init__(self, root):
        self.root = root

    def subst(self, pairs):
        return self

    def getattr_(self, I, name):
        if name == 'root':
            return self.root
        if name == 'succ':
            return Succ()
        if name in ('successors', 'neighbors'):
            def succ(I, u):
                v = I.const('s', V)
                return PList([Part((v,), CHILD(u.t, v), Sym(v, 'node'))])
            return Builtin(name, succ)
        raise Unsupported(f'tree.{name}')


def install_tree(I, st):
    if node_attr not in I.attr_hooks:
        I.attr_hooks.append(node_attr)
    I.kind_isinstance['node'] = ()
    I.contracts['tulip.spec.parser:parse'] = lambda I, f, a, kw: Sym(st['root'].t, 'node')

    def from_ast(I, f, a, kw):
        env = I.bind(f, a, kw)
        u = env['u']
        I.prove(z3.BoolVal(isinstance(u, Sym) and u.t.eq(st['root'].t)), 'tree of the formula')
        return TreeV(u)
    I.contracts['tulip.spec.transformation:Tree.from_recursive_ast'] = from_ast


def g_split(ctx, t):
    I = ctx.new(timeout_ms=20000)
    st = {}
    op = theory(I)

    def c_has(I, f, a, kw):
        env = I.bind(f, a, kw)
        u, ops = env['u'], env['operators']
        v = I.const('v', V)
        hit = z3.Exists([v], z3.And(SUB(u.t, v), z3.Not(LEAF(v)), lib._bb(I.contains(ops, Sym(OP(v))))))
        return SStr(('operator ', Sym(I.const('w', V), 'name'))) if I.branch(hit) else None

    def adm(u):
        """conjunct u is admissible"""
        a, aa = ARG[0](u), ARG[0](ARG[0](u))
        return z3.If(op(u, 'G'), z3.If(op(a, 'F'), z3.Not(bad(I, aa, BADINIT)), z3.Not(bad(I, a, BADG))),
                     z3.Not(bad(I, u, BADINIT)))

    def rule(I, fr, node):
        import ast
        if not isinstance(node.test, ast.Name):
            return False
        Q = fr.f.get(node.test.id)
        others = [v for k, v in fr.f.items() if isinstance(v, PList) and v is not Q and v.parts == ()]
        if not isinstance(Q, PList) or len(others) != 1:
            return False
        b = others[0]
        r = st['root'].t

        def mean(l):
            return And_(*[ForAll_(p.vars, Implies_(p.cond, MEAN(p.val.t))) for p in map(I.inst, l.parts)])

        def each(l, f):
            return And_(*[ForAll_(p.vars, Implies_(p.cond, f(p.val.t))) for p in map(I.inst, l.parts)])

        def inv():
            return [('the pieces are equivalent to the formula', And_(mean(Q), mean(b)) == MEAN(r)),
                    ('the pieces are conjuncts', And_(each(Q, CONJ), each(b, CONJ))),
                    ('collected pieces are not conjunctions', each(b, lambda x: z3.Not(op(x, '&'))))]

        def havoc():
            for l, n in ((Q, 'inQ'), (b, 'inb')):
                f = I.func(n, V, B)
                x = I.const('x', V)
                I.set_parts(l, [Part((x,), f(x), Sym(x, 'node'))])
            return [Q, b]
        I.inv_while(fr, node, havoc, inv, 'collecting conjuncts')
        return True

    def mk(as_tree):
        def setup(I):
            st['root'] = Sym(I.const('root', V), 'node')
            install_tree(I, st)
            I.contracts[f'{MOD}:has_operator'] = c_has
            I.while_rules[:] = [rule]
            r = st['root'].t
            u = z3.Const('cu_', V)
            I.assume(CONJ(r))
            I.assume(z3.ForAll([u], z3.Implies(z3.And(CONJ(u), op(u, '&')), z3.And(CONJ(ARG[0](u)), CONJ(ARG[1](u))))))
            arg = st['root'] if as_tree else Sym(I.const('text', V), 'formula')
            return lambda: I.call(ctx.resolve(f'{MOD}:split_gr1'), [arg], {})

        def post(I, out):
            u = z3.Const('pu_', V)
            r = st['root'].t
            if isinstance(out, Raised):
                I.prove(z3.BoolVal(out.cls is AssertionError), f'raises AssertionError ({out})'[:100])
                I.prove(z3.Exists([u], z3.And(CONJ(u), z3.Not(op(u, '&')), z3.Not(adm(u)))),
                        'rejected only for an inadmissible conjunct')
                return
            I.prove(z3.BoolVal(isinstance(out, PDict)), 'returns a dictionary')
            fs = []

            def lists(key):
                l = I.getitem(out, key)
                return [I.inst(p) for p in l.parts]
            for key, F_ in (('init', MEAN), ('G', ALW), ('GF', IO)):
                for p in lists(key):
                    def atom(e, k=0, F_=F_):
                        if e.op == 'hole' and isinstance(e.data, Sym):
                            return F_(e.data.t)
                        raise Unsupported(f'leaf {e!r}')
                    e = tmpl.parse(tmpl.inst_parts(I, p.val)) if not isinstance(p.val, Sym) else tmpl.parse(p.val)
                    if e is None:
                        continue
                    if e.op not in ('join', 'hole', 'adj', '&&') or (e.op == 'join' and e.data != '&&'):
                        I.prove(FALSE, f'{key}: a conjunction of pieces')
                        continue
                    if key == 'GF' and e.op != 'hole':
                        I.prove(FALSE, 'progress parts are separate')
                        continue
                    fs.append(ForAll_(p.vars, Implies_(p.cond, tmpl.Sem(atom)(e))))
            I.prove(z3.Implies(And_(*fs), MEAN(r)), 'the parts together imply the formula')
            I.prove(z3.Implies(MEAN(r), And_(*fs)), 'the formula implies the parts')
        return setup, post
    s, p = mk(t)
    ctx.verify(f'split_gr1 {"tree" if t else "text"}', s, p, f'{MOD}:split_gr1')


def g_split_rejects(ctx):
    """has_operator is asked for every part with the inadmissible operators of that part."""
    I = ctx.new(timeout_ms=20000)
    st = {}
    op = theory(I)

    def c_has(I, f, a, kw):
        env = I.bind(f, a, kw)
        u, ops = env['u'], env['operators']
        v = I.const('v', V)
        hit = z3.Exists([v], z3.And(SUB(u.t, v), z3.Not(LEAF(v)), lib._bb(I.contains(ops, Sym(OP(v))))))
        return SStr(('operator ', Sym(I.const('w', V), 'name'))) if I.branch(hit) else None

    # known finding split-weak-until: W is not rejected
    badinit, badg = (tuple(o for o in b if o != 'W') for b in (BADINIT, BADG))
    forms = {'init': (lambda x: z3.And(z3.Not(op(x, '&')), z3.Not(op(x, 'G'))), badinit, lambda x: x),
             'G': (lambda x: z3.And(op(x, 'G'), z3.Not(op(ARG[0](x), 'F'))), badg, lambda x: ARG[0](x)),
             'GF': (lambda x: z3.And(op(x, 'G'), op(ARG[0](x), 'F')), badinit, lambda x: ARG[0](ARG[0](x)))}
    for key, (shape, ops, sub) in forms.items():
        def setup(I):
            st['root'] = Sym(I.const('root', V), 'node')
            install_tree(I, st)
            I.contracts[f'{MOD}:has_operator'] = c_has
            r = st['root'].t
            I.assume(shape(r))
            I.assume(bad(I, sub(r), ops))
            # the only piece of a formula that is not a conjunction is the formula
            def rule(I, fr, node):
                import ast
                Q = fr.f.get(node.test.id) if isinstance(node.test, ast.Name) else None
                if not isinstance(Q, PList):
                    return False
                while True:
                    if not I.truth(I.eval(node.test, fr)):
                        return True
                    from vf.interp import ContinueEx
                    try:
                        I.exec_block(node.body, fr)
                    except ContinueEx:
                        pass
            I.while_rules[:] = [rule]
            return lambda: I.call(ctx.resolve(f'{MOD}:split_gr1'), [Sym(I.const('text', V), 'formula')], {})

        def post(I, out):
            I.prove(z3.BoolVal(isinstance(out, Raised) and out.cls is AssertionError), 'an inadmissible operator is rejected')
        ctx.verify(f'split_gr1 rejects {key}', setup, post)


def g_has(ctx):
    I = ctx.new()
    st = {}
    DESC = z3.Function('descendant', V, V, B)
    u_, v_ = z3.Consts('u_ v_', V)
    I.axiom(z3.ForAll([u_, v_], SUB(u_, v_) == z3.Or(u_ == v_, DESC(u_, v_))))
    I.axiom(z3.ForAll([u_, v_], z3.Implies(CHILD(u_, v_), DESC(u_, v_))))

    def desc(I, g, u):
        v = I.const('d', V)
        return PSet([Part((v,), DESC(u.t, v), Sym(v, 'node'))])
    I.ext.setdefault('networkx', {})['descendants'] = Builtin('descendants', desc)

    def setup(I):
        st['root'] = Sym(I.const('root', V), 'node')
        install_tree(I, st)
        st['u'] = Sym(I.const('u', V), 'node')
        f = st['f'] = I.func('op', V, B)
        x = I.const('x', V)
        ops = PSet([Part((x,), f(x), Sym(x))])
        return lambda: I.call(ctx.resolve(f'{MOD}:has_operator'), [st['u'], TreeV(st['root']), ops], {})

    def post(I, out):
        if not ctx.no_raise(I, out, 'has_operator'):
            return
        u, f = st['u'], st['f']
        v = z3.Const('hv_', V)
        has = z3.Exists([v], z3.And(SUB(u.t, v), z3.Not(LEAF(v)), f(OP(v))))
        if out is None:
            I.prove(z3.Not(has), 'None only if no operator occurs')
        else:
            I.prove(z3.Exists([v], z3.And(SUB(u.t, v), z3.Not(LEAF(v)), f(OP(v)), OP(v) == I.enc_.enc(out))),
                    'the result is an operator that occurs')
    ctx.verify('has_operator', setup, post, f'{MOD}:has_operator')


def g_str(ctx):
    I = ctx.new()
    st = {}
    PARTF = z3.Function('split_part', V, z3.IntSort(), V, B)     # tree, part number, text
    KEYS = ['init', 'G', 'GF']

    def c_split(I, f, a, kw):
        env = I.bind(f, a, kw)
        u = env['f']
        d = PDict([])
        for i, k in enumerate(KEYS):
            x = I.const('x', V)
            l = PList([Part((x,), PARTF(u.t, i, x), Sym(x, 'str'))])
            I.dict_set(d, k, l)
        return d
    truthy = z3.Function('truthy', V, B)

    def setup(I):
        st['root'] = Sym(I.const('root', V), 'node')
        install_tree(I, st)
        I.assume(Not_(LEAF(st['root'].t)))
        I.contracts[f'{MOD}:split_gr1'] = c_split
        I.contracts['tulip.spec.form:GRSpec.to_canon'] = lambda I, f, a, kw: Sym(I.const('canon', V), 'formula')
        return lambda: I.call(ctx.resolve(f'{MOD}:str_to_grspec'), [Sym(I.const('text', V), 'formula')], {})

    def post(I, out):
        r = st['root'].t
        impl = OP(r) == I.enc_.enc('->')
        if isinstance(out, Raised):
            I.prove(Not_(impl), 'rejected only if not an implication')
            return
        I.prove(impl, 'only an implication is accepted')
        x = I.const('cx', V)
        for j, side in enumerate(('env', 'sys')):
            for i, n in enumerate(('init', 'safety', 'prog')):
                l = I.getattr_(out, f'{side}_{n}')
                # known finding grspec-empty-parts: empty parts are not omitted
                y = z3.Const('ne_', V)
                I.assume(z3.ForAll([y], z3.Implies(PARTF(ARG[j](r), i, y), truthy(y))))
                I.prove(lib._bb(I.contains(l, Sym(x, 'str'))) == And_(PARTF(ARG[j](r), i, x), truthy(x)),
                        f'{side}_{n}: the non-empty parts')
    ctx.verify('str_to_grspec', setup, post, f'{MOD}:str_to_grspec')


GROUPS = [Group(f'{k}_to_gr1', mk_conv(k)) for k in ('stability', 'response', 'eventually', 'until')] + [
    Group('split_gr1 text', lambda ctx: g_split(ctx, False)), Group('split_gr1 tree', lambda ctx: g_split(ctx, True)), Group('split_gr1 rejects', g_split_rejects),
    Group('has_operator', g_has), Group('str_to_grspec', g_str)]
ASSUMED = [
    'reading of strings as formulas by vf/tmpl.py, with the operator precedences of tulip/spec/lexyacc.py',
    'parser.parse and Tree.from_recursive_ast represent the formula (C14, bounded); nx.descendants',
    'check_var_name_conflict returns the variables of its argument (C19)',
    'flatten of a tree is text that reads as the tree (C14)',
    'str_to_grspec: no part of the split formula is empty (known finding grspec-empty-parts)',
    'split_gr1 is not given a weak until inside a part (known finding split-weak-until)',
    'least number principle for natural numbers',
]
