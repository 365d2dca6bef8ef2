"""Symbolic interpreter for the Python of /repo, working on the real AST.

Extraction drops: docstrings, annotations, logging / warnings / print calls
(their arguments are not evaluated), and nothing else of an interpreted body.
"""
import ast
import os
import builtins as _b
import z3
from .core import *
from .core import _MISSING, Join
from . import core

NORMAL, BREAK, CONT = 'normal', 'break', 'continue'


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PoisonRead(Exception):
    def __init__(self, name, frame):
        self.name = name
        self.frame = frame


class Frame(Heap):
    __slots__ = ('f', 'mod', 'parent', 'func', 'yields', 'locals_', 'cls')

    def __init__(self, mod, parent=None, func=None, locals_=()):
        super().__init__()
        self.f = {}
        self.mod = mod
        self.parent = parent
        self.func = func
        self.yields = None
        self.locals_ = locals_
        self.cls = None


class FuncVal(Val):
    __slots__ = ('node', 'mod', 'parent', 'qual', 'cls', 'defaults')

    def __init__(self, node, mod, parent, qual, cls=None):
        self.node = node
        self.mod = mod
        self.parent = parent
        self.qual = qual
        self.cls = cls
        self.defaults = {}

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def __repr__(self):
        return f'<func {self.mod.name}:{self.qual}>'

    def subst(self, pairs):
        return self


class Bound(Val):
    __slots__ = ('self_', 'fn')

    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn

    def subst(self, pairs):
        return Bound(subst(self.self_, pairs), self.fn)


class Builtin(Val):
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<builtin {self.name}>'

    def subst(self, pairs):
        return self


class PropVal(Val):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticVal(Val):
    __slots__ = ('fn', 'kind')

    def __init__(self, fn, kind):
        self.fn = fn
        self.kind = kind


class ClassVal(Val):
    __slots__ = ('name', 'bases', 'ns', 'mod', 'mro', 'node', 'decos')

    def __init__(self, name, bases, mod, node):
        self.name = name
        self.bases = bases
        self.ns = {}
        self.mod = mod
        self.node = node
        self.mro = None
        self.decos = []

    def __repr__(self):
        return f'<class {self.name}>'

    def subst(self, pairs):
        return self


class ExtClass(Val):
    """External class described by engine-level methods (assumed contracts)."""
    __slots__ = ('name', 'methods', 'bases', 'mro', 'getattr_', 'new')

    def __init__(self, name, methods=None, bases=(), getattr_=None, new=None):
        self.name = name
        self.methods = methods or {}
        self.bases = list(bases)
        self.mro = None
        self.getattr_ = getattr_
        self.new = new

    def __repr__(self):
        return f'<extclass {self.name}>'

    def subst(self, pairs):
        return self


class ModuleVal(Val):
    def __init__(self, name, tree, path):
        self.name = name
        self.path = path
        self.index = {}
        self.values = {}
        self.tree = tree
        if tree is not None:
            self._index(tree.body)

    def _index(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.index[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.index[t.id] = n
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.index[n.target.id] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.index[a.asname or a.name.split('.')[0]] = (n, a)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.index[a.asname or a.name] = (n, a)
            elif isinstance(n, ast.Try):
                self._index(n.body)
            elif isinstance(n, ast.If):
                self._index(n.body)

    def subst(self, pairs):
        return self


class NullObj(Val):
    """Logger, warnings, print target: calls are dropped."""
    def __init__(self, name='null'):
        self.name = name

    def subst(self, pairs):
        return self


class Opaque(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<opaque {self.name}>'

    def subst(self, pairs):
        return self


class UnionT(Val):
    def __init__(self, ts):
        self.ts = ts

    def subst(self, pairs):
        return self


class SuperVal(Val):
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


def assigned_names(nodes):
    """Names bound by statements (this scope only)."""
    out = set()

    class A(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            self.visit(n.generators[0].iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    v = A()
    for n in nodes:
        v.visit(n)
    return out


def aug_only(nodes, name):
    """True if `name` is only changed by augmented assignment in nodes."""
    ok = True
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store):
                            ok = False
            elif isinstance(x, (ast.For, ast.comprehension)):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name) and y.id == name:
                        ok = False
            elif isinstance(x, ast.NamedExpr) and x.target.id == name:
                ok = False
    return ok


class Interp(Machine):
    def __init__(self, root='/repo', **kw):
        super().__init__(**kw)
        self.root = root
        self.modules = {}
        self.contracts = {}         # 'mod:qual' -> fn(I, func, args, kwargs) -> value
        self.fired_rules = set()
        self.while_rules = []       # fn(I, frame, node) -> bool handled
        self.for_rules = []         # fn(I, frame, node, iterable) -> bool handled
        self.depth = 0
        self.visited_funcs = set()
        self.contract_uses = {}
        self.ext = {}
        self.overrides = {}         # 'mod:name' -> value
        self.hash_kinds = {}        # kind -> predicate of hashable values
        self.kind_isinstance = {}   # kind -> set of type names
        self.str_kinds = {}         # kind -> text of a value
        self.attr_hooks = []        # fn(I, obj, name) -> value or _MISSING
        from . import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if name.split('.')[0] == 'tulip' and os.path.exists(path):
            with open(path) as f:
                tree = ast.parse(f.read(), path)
            m = ModuleVal(name, tree, path)
        else:
            m = ModuleVal(name, None, None)
            m.values = self.ext.get(name, {})
        self.modules[name] = m
        return m

    def import_name(self, m, n):
        if not n.level:
            return n.module
        base = m.name.split('.')
        if not (m.path or '').endswith('__init__.py'):
            base = base[:-1]
        base = base[:len(base) - n.level + 1]
        return '.'.join(base + ([n.module] if n.module else []))

    def mod_get(self, m, name):
        key = f'{m.name}:{name}'
        if key in self.overrides:
            return self.overrides[key]
        if name in m.values:
            return m.values[name]
        if m.tree is None:
            sub = f'{m.name}.{name}'
            if sub in self.ext or any(k.startswith(sub + '.') for k in self.ext):
                return self.load(sub)
            return Opaque(sub)
        ent = m.index.get(name)
        if ent is None:
            sub = f'{m.name}.{name}'
            p = os.path.join(self.root, *sub.split('.'))
            if os.path.exists(p + '.py') or os.path.isdir(p):
                return self.load(sub)
            # star imports
            for n in m.tree.body:
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    tgt = self.load(self.import_name(m, n))
                    if name in tgt.index:
                        return self.mod_get(tgt, name)
            return _MISSING
        if isinstance(ent, tuple):
            n, a = ent
            if isinstance(n, ast.Import):
                v = self.load(a.name) if a.asname else self.load(a.name.split('.')[0])
            else:
                src = self.import_name(m, n)
                tgt = self.load(src)
                v = self.load(f'{src}.{a.name}') if tgt is m else self.mod_get(tgt, a.name)
                if v is _MISSING:
                    v = Opaque(f'{src}.{a.name}')
        elif isinstance(ent, ast.FunctionDef):
            v = FuncVal(ent, m, None, ent.name)
            v = self.decorate(ent, v, Frame(m))
        elif isinstance(ent, ast.ClassDef):
            v = self.make_class(ent, m, None, ent.name)
        else:
            fr = Frame(m)
            try:
                v = self.eval(ent.value, fr) if ent.value is not None else None
            except (Unsupported, PyExc):
                v = Opaque(key)
            if isinstance(ent, ast.Assign) and not isinstance(ent.targets[0], ast.Name):
                v = Opaque(key)
        m.values[name] = v
        return v

    def make_class(self, node, mod, frame, qual):
        bases = []
        fr = frame or Frame(mod)
        for b in node.bases:
            v = self.eval(b, fr)
            bases.append(v)
        c = ClassVal(node.name, bases, mod, node)
        cf = Frame(mod, frame)
        cf.func = qual
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                f = FuncVal(n, mod, frame, f'{qual}.{n.name}', c)
                v = f
                for d in reversed(n.decorator_list):
                    if isinstance(d, ast.Name) and d.id == 'property':
                        v = PropVal(f)
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        old = c.ns.get(n.name)
                        v = PropVal(old.fget, f)
                    elif isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'):
                        v = StaticVal(f, d.id)
                    else:
                        v = self.call(self.eval(d, fr), [v], {})
                c.ns[n.name] = v
                cf.f[n.name] = v
            elif isinstance(n, ast.Assign):
                try:
                    v = self.eval(n.value, cf)
                except (Unsupported, PyExc):
                    v = Opaque(f'{qual}.{ast.unparse(n.targets[0])}')
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.ns[t.id] = v
                        cf.f[t.id] = v
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                v = self.eval(n.value, cf)
                c.ns[n.target.id] = v
                cf.f[n.target.id] = v
            elif isinstance(n, ast.ClassDef):
                v = self.make_class(n, mod, cf, f'{qual}.{n.name}')
                c.ns[n.name] = v
                cf.f[n.name] = v
            elif isinstance(n, (ast.Expr, ast.Pass, ast.AnnAssign)):
                pass
            else:
                raise Unsupported(f'class body statement {ast.dump(n)[:60]}')
        c.mro = self.c3(c)
        for d in node.decorator_list:
            dv = self.eval(d, fr)
            c.decos.append(dv)
            r = self.call(dv, [c], {})
            if r is not None:
                c = r
        return c

    def c3(self, c):
        def mro(x):
            if isinstance(x, type):
                return [x]
            if getattr(x, 'mro', None):
                return x.mro
            return [x] + [y for b in getattr(x, 'bases', []) for y in mro(b)]
        seqs = [list(mro(b)) for b in c.bases] + [list(c.bases)]
        res = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                h = s[0]
                if not any(h is y for t in seqs for y in t[1:]):
                    break
            else:
                raise Unsupported('mro')
            res.append(h)
            seqs = [[y for y in s if y is not h] for s in seqs]

    def decorate(self, node, v, frame):
        for d in reversed(node.decorator_list):
            v = self.call(self.eval(d, frame), [v], {})
        return v

    # ------------------------------------------------------------ names
    def lookup(self, name, frame):
        fr = frame
        while fr is not None:
            if name in fr.f:
                v = fr.f[name]
                if isinstance(v, Poison):
                    raise PoisonRead(name, fr)
                return v
            if fr is frame and name in fr.locals_:
                raise PyExc(UnboundLocalError, (name,))
            fr = fr.parent
        v = self.mod_get(frame.mod, name)
        if v is not _MISSING:
            return v
        if name in self.lib.BUILTINS:
            return self.lib.BUILTINS[name]
        if hasattr(_b, name):
            o = getattr(_b, name)
            if isinstance(o, type):
                return o
            if name in ('Ellipsis', 'NotImplemented', '__debug__'):
                return o
        if name == '__name__':
            return frame.mod.name
        raise PyExc(NameError, (name,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), dict(kwargs))
        if isinstance(f, Builtin):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, (ClassVal, ExtClass)):
            return self.instantiate(f, list(args), dict(kwargs))
        if isinstance(f, type):
            return self.lib.call_type(self, f, args, kwargs)
        if isinstance(f, NullObj):
            return None
        if isinstance(f, StaticVal):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, Obj):
            m = self.class_lookup(f.cls, '__call__')
            if m is not _MISSING:
                return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, Val) and hasattr(f, 'call_'):
            return f.call_(self, args, kwargs)
        raise Unsupported(f'call of {f!r}')

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        for i, n in enumerate(pos):
            if i < len(args):
                if n in kwargs and n not in [x.arg for x in a.posonlyargs]:
                    raise PyExc(TypeError, (f'multiple values for {n}',))
                env[n] = args[i]
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            else:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyExc(TypeError, (f'missing argument {n} of {f.qual}',))
                env[n] = self.default(f, ('p', j), a.defaults[j])
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif len(args) > len(pos):
            raise PyExc(TypeError, (f'too many arguments for {f.qual}',))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            else:
                if a.kw_defaults[i] is None:
                    raise PyExc(TypeError, (f'missing argument {x.arg}',))
                env[x.arg] = self.default(f, ('k', i), a.kw_defaults[i])
        if a.kwarg:
            d = kwargs.pop('**', None)
            ent = [single((k, v)) for k, v in kwargs.items()]
            pd = PDict(ent)
            if hasattr(d, 'kwargs_'):
                pd = d.kwargs_(self, pd)
            elif d is not None:
                pd.parts = pd.parts + d.parts
            env[a.kwarg.arg] = pd
        elif kwargs:
            if set(kwargs) == {'**'} and isinstance(kwargs['**'], PDict):
                if not kwargs['**'].parts:
                    return env
                raise Unsupported('symbolic ** into named parameters')
            raise PyExc(TypeError, (f'unexpected keyword {sorted(kwargs)} for {f.qual}',))
        return env

    def default(self, f, key, node):
        if key not in f.defaults:
            fr = Frame(f.mod, f.parent)
            f.defaults[key] = self.eval(node, fr)
        return f.defaults[key]

    def call_func(self, f, args, kwargs):
        key = f'{f.mod.name}:{f.qual}'
        c = self.contracts.get(key)
        if c is not None:
            self.contract_uses[key] = self.contract_uses.get(key, 0) + 1
            return c(self, f, args, kwargs)
        env = self.bind(f, args, kwargs)
        return self.run_body(f, env)

    def run_body(self, f, env):
        key = f'{f.mod.name}:{f.qual}'
        self.visited_funcs.add(key)
        if isinstance(f.node, ast.Lambda):
            fr = Frame(f.mod, f.parent, key)
            fr.f.update(env)
            return self.eval(f.node.body, fr)
        fr = Frame(f.mod, f.parent, key)
        fr.locals_ = self.func_locals(f.node) | set(env)
        fr.cls = f.cls
        fr.f.update(env)
        if f.cls is not None and f.node.args.args:
            fr.f['%self'] = env.get(f.node.args.args[0].arg)
        is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own_walk(f.node))
        if is_gen:
            fr.yields = PList()
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Unsupported('recursion depth')
        try:
            self.exec_block(f.node.body, fr)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.depth -= 1
        if is_gen:
            return It(fr.yields.parts)
        return r

    _locals_cache = {}

    def func_locals(self, node):
        k = id(node)
        if k not in self._locals_cache:
            s = assigned_names(node.body)
            for x in self.own_walk(node):
                if isinstance(x, (ast.Nonlocal, ast.Global)):
                    s -= set(x.names)
            self._locals_cache[k] = (s, node)
        return self._locals_cache[k][0]

    @staticmethod
    def own_walk(fn):
        st = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
        while st:
            x = st.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(x))

    def instantiate(self, cls, args, kwargs):
        key = None
        if isinstance(cls, ClassVal):
            key = f'{cls.mod.name}:{cls.name}'
            c = self.contracts.get(key)
            if c is not None:
                self.contract_uses[key] = self.contract_uses.get(key, 0) + 1
                return c(self, cls, args, kwargs)
        if isinstance(cls, ExtClass) and cls.new:
            return cls.new(self, args, kwargs)
        o = Obj(cls)
        for c in self.mro(cls):
            if isinstance(c, ExtClass) and 'init_fields' in c.methods:
                c.methods['init_fields'](self, o)
            if c is dict:
                o.f['%dict'] = PDict()
        if self.is_exc_class(cls):
            return o
        m = self.class_lookup(cls, '__init__')
        if m is not _MISSING:
            self.call(m, [o] + args, kwargs)
        elif args or kwargs:
            if not self.is_exc_class(cls):
                raise PyExc(TypeError, ('constructor takes no arguments',))
        return o

    def mro(self, cls):
        if isinstance(cls, ClassVal):
            return cls.mro
        if isinstance(cls, ExtClass):
            return [cls] + [x for b in cls.bases for x in self.mro(b)]
        return [cls]

    def is_exc_class(self, c):
        if isinstance(c, type):
            return issubclass(c, BaseException)
        if isinstance(c, ClassVal):
            return any(isinstance(x, type) and issubclass(x, BaseException) for x in c.mro)
        return False

    def class_lookup(self, cls, name, after=None):
        seen = after is None
        for c in self.mro(cls):
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassVal):
                if name in c.ns:
                    return c.ns[name]
            elif isinstance(c, ExtClass):
                if name in c.methods:
                    m = c.methods[name]
                    return m if isinstance(m, (PropVal, Builtin)) else Builtin(f'{c.name}.{name}', m)
            elif isinstance(c, type):
                v = self.lib.type_method(self, c, name)
                if v is not _MISSING:
                    return v
        return _MISSING

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name, default=_MISSING):
        v = self._getattr(o, name)
        if v is _MISSING:
            if default is not _MISSING:
                return default
            raise PyExc(AttributeError, (name, repr(o)[:80]))
        return v

    def _getattr(self, o, name):
        for h in self.attr_hooks:
            v = h(self, o, name)
            if v is not _MISSING:
                return v
        if isinstance(o, Obj):
            cv = self.class_lookup(o.cls, name)
            if isinstance(cv, PropVal):
                return self.call(cv.fget, [o], {})
            if name in o.f:
                v = o.f[name]
                if isinstance(v, Poison):
                    raise Unsupported(f'attribute {name} depends on iteration order')
                return v
            if name == '__class__':
                return o.cls
            if cv is _MISSING:
                for c in self.mro(o.cls):
                    if isinstance(c, ExtClass) and c.getattr_:
                        v = c.getattr_(self, o, name)
                        if v is not _MISSING:
                            return v
                return _MISSING
            return self.bind_attr(cv, o, o.cls)
        if isinstance(o, SuperVal):
            cv = self.class_lookup(o.self_.cls, name, after=o.cls)
            if cv is _MISSING:
                if name == '__init__':
                    return Builtin('object.__init__', lambda I, *a, **k: None)
                return _MISSING
            if isinstance(cv, PropVal):
                return self.call(cv.fget, [o.self_], {})
            return self.bind_attr(cv, o.self_, o.self_.cls)
        if isinstance(o, ModuleVal):
            return self.mod_get(o, name)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            v = self.class_lookup(o, name)
            if isinstance(v, StaticVal):
                return Bound(o, v.fn) if v.kind == 'classmethod' else v.fn
            return v
        if isinstance(o, ExtClass):
            v = self.class_lookup(o, name)
            return v
        if isinstance(o, NullObj):
            return NullObj(name)
        if isinstance(o, Opaque):
            return Opaque(f'{o.name}.{name}')
        if isinstance(o, Val) and hasattr(o, 'getattr_'):
            return o.getattr_(self, name)
        return self.lib.attr(self, o, name)

    def bind_attr(self, cv, o, cls):
        if isinstance(cv, StaticVal):
            return Bound(cls, cv.fn) if cv.kind == 'classmethod' else cv.fn
        if isinstance(cv, (FuncVal, Builtin)):
            return Bound(o, cv)
        return cv

    def setattr_(self, o, name, v):
        if isinstance(o, Obj):
            if o.frozen:
                raise Unsupported('mutation of object of another iteration')
            cv = self.class_lookup(o.cls, name)
            if isinstance(cv, PropVal):
                if cv.fset is None:
                    raise PyExc(AttributeError, (name,))
                self.call(cv.fset, [o, v], {})
                return
            sa = self.class_lookup(o.cls, '__setattr__')
            if isinstance(sa, FuncVal):
                self.call(sa, [o, name, v], {})
                return
            self.set_field(o, name, v)
            return
        if isinstance(o, (NullObj,)):
            return
        if isinstance(o, Val) and hasattr(o, 'setattr_'):
            o.setattr_(self, name, v)
            return
        raise Unsupported(f'setattr on {o!r}')

    def set_field(self, o, key, val):
        self.journal.append((o.f, 'item', key, o.f.get(key, _MISSING), o))
        o.f[key] = val

    def del_field_(self, o, key):
        self.journal.append((o.f, 'item', key, o.f.get(key, _MISSING), o))
        o.f.pop(key, None)

    def set_parts(self, c, parts):
        if c.frozen:
            raise Unsupported('mutation of an object created in another iteration')
        self.journal.append((c, 'parts', None, c.parts, c))
        c.parts = tuple(parts)

    def rollback(self, mark):
        j, p, r = mark
        while len(self.journal) > j:
            o, kind, key, old, _ = self.journal.pop()
            if kind == 'parts':
                o.parts = old
            elif old is _MISSING:
                o.pop(key, None)
            else:
                o[key] = old
        del self.pc[p:]

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for n in body:
            self.exec(n, fr)

    def exec(self, n, fr):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(n).__name__}')
        return m(n, fr)

    def x_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, fr)

    def x_Pass(self, n, fr):
        pass

    def x_Return(self, n, fr):
        raise ReturnEx(self.eval(n.value, fr) if n.value is not None else None)

    def x_Break(self, n, fr):
        raise BreakEx()

    def x_Continue(self, n, fr):
        raise ContinueEx()

    def x_Import(self, n, fr):
        for a in n.names:
            self.set_field(fr, (a.asname or a.name).split('.')[0],
                           self.load(a.name if a.asname else a.name.split('.')[0]))

    def x_ImportFrom(self, n, fr):
        for a in n.names:
            self.set_field(fr, a.asname or a.name, self.mod_get(self.load(n.module), a.name))

    def x_Nonlocal(self, n, fr):
        pass

    def x_Global(self, n, fr):
        raise Unsupported('global')

    def x_FunctionDef(self, n, fr):
        v = FuncVal(n, fr.mod, fr, f'{(fr.func or ":").split(":")[1]}.{n.name}')
        self.set_field(fr, n.name, self.decorate(n, v, fr))

    def x_ClassDef(self, n, fr):
        self.set_field(fr, n.name, self.make_class(n, fr.mod, fr, n.name))

    def x_Assign(self, n, fr):
        v = self.eval(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, fr), fr)

    def x_AugAssign(self, n, fr):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            new = self.augop(n.op, old, self.eval(n.value, fr))
            self.assign_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr_(o, t.attr)
            new = self.augop(n.op, old, self.eval(n.value, fr))
            if new is not old:
                self.setattr_(o, t.attr, new)
            else:
                # still an assignment in Python; same object
                if isinstance(o, Obj) and isinstance(self.class_lookup(o.cls, t.attr), PropVal):
                    self.setattr_(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            old = self.getitem(o, k)
            new = self.augop(n.op, old, self.eval(n.value, fr))
            self.setitem(o, k, new)
        else:
            raise Unsupported('augassign target')

    def assign_name(self, name, v, fr):
        if name not in fr.locals_ and fr.func and fr.parent is not None:
            p = fr.parent
            while p is not None:
                if name in p.f and name not in fr.f:
                    if name in p.locals_ or name in p.f:
                        # nonlocal
                        if self._declared_nonlocal(fr, name):
                            self.set_field(p, name, v)
                            return
                p = p.parent
        self.set_field(fr, name, v)

    def _declared_nonlocal(self, fr, name):
        return fr.locals_ and name not in fr.locals_

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported('starred assignment')
            vs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc(ValueError, ('unpack',))
            return list(v)
        if hasattr(v, 'unpack_'):
            return v.unpack_(self, n)
        if isinstance(v, Sym):
            if v.kind == f'tup{n}':
                out = []
                for p in self.enc_.tup_projs(n):
                    out.append(Sym(p(v.t)))
                return out
            raise Unsupported(f'unpacking opaque value of kind {v.kind} into {n}')
        if isinstance(v, (PList, It, PSet)):
            ps = list(v.parts)
            if all(not p.vars and z3.is_true(p.cond) for p in ps):
                if len(ps) != n and not isinstance(v, PSet):
                    raise PyExc(ValueError, ('unpack',))
                if len(ps) == n and (n == 1 or not isinstance(v, PSet)):
                    return [p.val for p in ps]
            if n == 1:
                return [self.the_single(v)]
        if isinstance(v, str) and len(v) == n:
            return list(v)
        raise Unsupported(f'unpack {v!r} into {n}')

    def unpack_any(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Sym) and v.kind.startswith('tup'):
            return self.unpack(v, int(v.kind[3:]))
        return self.concrete_elems(v)

    def the_single(self, c):
        """Value of `(x,) = c`: ValueError unless exactly one element."""
        parts = c.parts
        some = self.nonempty(c)
        # exactly one: exists, and any two instances coincide (positions)
        insts = []
        for p in parts:
            insts.append(self.inst(p))
        if not self.branch(some):
            raise PyExc(ValueError, ('not enough values',))
        # two different positions
        two = []
        for i, p in enumerate(parts):
            if p.vars:
                a, b = self.inst(p), self.inst(p)
                vs = list(a.vars) + list(b.vars)
                neq = Or_(*[x != y for x, y in zip(a.vars, b.vars)])
                two.append(Exists_(vs, And_(a.cond, b.cond, neq)))
            for q in parts[i + 1:]:
                a, b = self.inst(p), self.inst(q)
                two.append(Exists_(list(a.vars) + list(b.vars), And_(a.cond, b.cond)))
        if self.branch(Or_(*two)):
            raise PyExc(ValueError, ('too many values',))
        k = self.pick([Exists_(p.vars, p.cond) for p in parts]) if len(parts) > 1 else 0
        p = self.inst(parts[k])
        self.assume(p.cond)
        return p.val

    def x_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval_index(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Name):
                self.del_field_(fr, t.id)
            else:
                raise Unsupported('del')

    def x_If(self, n, fr):
        if self.truth(self.eval(n.test, fr)):
            self.exec_block(n.body, fr)
        else:
            self.exec_block(n.orelse, fr)

    def x_Assert(self, n, fr):
        if not self.truth(self.eval(n.test, fr)):
            raise PyExc(AssertionError, (ast.unparse(n.test),), f'line {n.lineno}')

    def x_Raise(self, n, fr):
        if n.exc is None:
            cur = fr.f.get('%exc')
            if cur is None:
                raise Unsupported('bare raise')
            raise cur
        e = n.exc
        if isinstance(e, ast.Call):
            c = self.eval(e.func, fr)
            if self.is_exc_class(c):
                raise PyExc(c, (ast.unparse(e)[:100],), f'{fr.func} line {n.lineno}')
            v = self.call(c, *self.eval_args(e, fr))
        else:
            v = self.eval(e, fr)
        if self.is_exc_class(v):
            raise PyExc(v, (), f'{fr.func} line {n.lineno}')
        if isinstance(v, Obj) and self.is_exc_class(v.cls):
            raise PyExc(v.cls, (), f'{fr.func} line {n.lineno}')
        raise Unsupported('raise of a value')

    def exc_matches(self, cls, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(cls, s) for s in spec)
        if isinstance(cls, type) and isinstance(spec, type):
            return issubclass(cls, spec)
        if isinstance(cls, ClassVal):
            return any(c is spec or (isinstance(c, type) and isinstance(spec, type) and issubclass(c, spec))
                       for c in cls.mro)
        if isinstance(spec, Opaque):
            return False
        return cls is spec

    def x_Try(self, n, fr):
        try:
            try:
                self.exec_block(n.body, fr)
            except PyExc as e:
                for h in n.handlers:
                    if h.type is None or self.exc_matches(e.cls, self.eval(h.type, fr)):
                        if h.name:
                            self.set_field(fr, h.name, Opaque('exc'))
                        self.set_field(fr, '%exc', e)
                        self.exec_block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, fr)
        finally:
            if n.finalbody:
                self.exec_block(n.finalbody, fr)

    def x_With(self, n, fr):
        for it in n.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(n.body, fr)

    def x_Match(self, n, fr):
        v = self.eval(n.subject, fr)
        for c in n.cases:
            ok = self.match_pat(c.pattern, v, fr)
            if ok and c.guard is not None:
                ok = self.truth(self.eval(c.guard, fr))
            if ok:
                self.exec_block(c.body, fr)
                return

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.branch_b(self.eq(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.branch_b(self.eq(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr):
                return False
            if p.name:
                self.assign_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.lib.isinstance_(self, v, self.eval(p.cls, fr)))
        if isinstance(p, ast.MatchSequence) and isinstance(v, tuple):
            if len(v) != len(p.patterns):
                return False
            return all(self.match_pat(q, x, fr) for q, x in zip(p.patterns, v))
        raise Unsupported('match pattern')

    # ------------------------------------------------------------ loops
    def fired(self, rule, *a):
        """Apply an invariant; remember the invariants that found their loop."""
        before = [(x, x.parts) for x in a if type(x) is It]  # looking at an iterator consumes it
        try:
            r = rule(self, *a)
        except BaseException:
            self.fired_rules.add(id(rule))
            raise
        if r:
            self.fired_rules.add(id(rule))
        else:
            for it, ps in before:
                if len(it.parts) != len(ps):
                    self.set_parts(it, ps)
        return r

    def x_For(self, n, fr):
        it = self.eval(n.iter, fr)
        for rule in self.for_rules:
            if self.fired(rule, fr, n, it):
                return

        def body(val):
            self.assign(n.target, val, fr)
            self.exec_block(n.body, fr)
        names = assigned_names(n.body + [ast.Assign(targets=[n.target], value=ast.Constant(0))])
        nodes = n.body
        try:
            self.loop_over(it, body, fr, names, nodes, f'{fr.func}:{n.lineno}')
        except BreakEx:
            return
        self.exec_block(n.orelse, fr)

    def loop_over(self, it, body, fr, names, nodes, label):
        parts = self.iter_parts(it)
        for p in parts:
            if not p.vars:
                if not z3.is_true(p.cond) and not self.branch(p.cond):
                    continue
                try:
                    body(p.val)
                except ContinueEx:
                    pass
            else:
                self.family_loop(p, body, fr, names, nodes, label)

    def x_While(self, n, fr):
        for rule in self.while_rules:
            if self.fired(rule, fr, n):
                return
        # bounded concrete unrolling only when the condition is concrete
        count = 0
        while True:
            t = self.truth_term(self.eval(n.test, fr))
            if not isinstance(t, bool):
                t = z3.simplify(t)
                if z3.is_true(t):
                    t = True
                elif z3.is_false(t):
                    t = False
                else:
                    raise Unsupported(f'while loop without invariant in {fr.func}')
            if not t:
                break
            count += 1
            if count > 300:
                raise Unsupported('while loop: too many iterations')
            try:
                self.exec_block(n.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(n.orelse, fr)

    # loops with supplied invariants -----------------------------
    def _havoc_locals(self, fr, names, keep):
        for nm in names:
            if nm in keep:
                continue
            v = fr.f.get(nm)
            if nm in fr.f or nm in fr.locals_:
                self.set_field(fr, nm, Poison(nm))

    def _check_frame(self, j0, start_id, allowed, fr, names, keep):
        """Only havocked objects may have been changed by the body."""
        ok_ids = {o.id for o in allowed}
        for o, kind, key, old, owner in self.journal[j0:]:
            if owner.id > start_id or owner.id in ok_ids:
                continue
            if owner is fr and (key == '%exc' or key in names and key not in keep):
                continue
            if owner is fr and kind == 'item' and key in keep and (
                    keep[key][0] is not keep[key][1] or fr.f.get(key) is keep[key][0]):
                continue        # managed by the invariant: havocked, or unchanged
            raise Unsupported(f'loop invariant: {owner!r}.{key} is changed by the loop')

    def inv_while(self, fr, node, havoc, inv, name, keep=(), on_head=None, rebind=None):
        """while loop cut by an invariant.

        havoc(): replaces the state changed by the loop by an arbitrary one and
        returns the heap objects it havocked; inv(): list of (label, formula)
        read from the current state.
        """
        names = assigned_names(node.body + [ast.Expr(node.test)])
        keepv = {k: fr.f.get(k) for k in keep}
        for lb, f in inv():
            self.prove(f, f'{name}: {lb} holds on entry')
        objs = list(havoc())
        self._havoc_locals(fr, names, keepv)
        keepv = {k: (v, fr.f.get(k)) for k, v in keepv.items()}
        if rebind:
            objs += rebind()        # locals that the loop assigns to new objects
        for lb, f in inv():
            self.assume(f)
        if on_head:
            on_head()
        start_id = next(Heap._ids)
        j0 = len(self.journal)
        if self.truth(self.eval(node.test, fr)):
            try:
                self.exec_block(node.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                self._check_frame(j0, start_id, objs, fr, names, keepv)
                return
            self._check_frame(j0, start_id, objs, fr, names, keepv)
            for lb, f in inv():
                self.prove(f, f'{name}: {lb} is preserved')
            raise Infeasible()
        self.exec_block(node.orelse, fr)

    def inv_for(self, fr, node, it, havoc, inv, name, keep=()):
        """for loop over one family, cut by an invariant inv(done) where
        `done(vars)` tells which elements were already visited."""
        parts = self.iter_parts(it)
        names = assigned_names(node.body + [ast.Assign(targets=[node.target], value=ast.Constant(0))])
        for part in parts:
            p = self.inst(part)
            xs = list(p.vars)
            for lb, f in inv(p, lambda vs: FALSE):
                self.prove(f, f'{name}: {lb} holds on entry')
            keep0 = {k: fr.f.get(k) for k in keep}
            objs = list(havoc())
            self._havoc_locals(fr, names, keep0)
            keepv = {k: (v, fr.f.get(k)) for k, v in keep0.items()}
            full = lambda vs: (z3.substitute(p.cond, *zip(xs, vs)) if xs else p.cond)
            k = self.choose([TRUE, TRUE])
            if k == 1:
                for lb, f in inv(p, full):
                    self.assume(f)
                continue
            D = self.func('done', *[x.sort() for x in xs], z3.BoolSort()) if xs else None
            done = (lambda vs: D(*vs)) if xs else (lambda vs: FALSE)
            if xs:
                self.assume(ForAll_(xs, Implies_(D(*xs), p.cond)))
            for lb, f in inv(p, done):
                self.assume(f)
            self.assume(p.cond)
            if xs:
                self.assume(Not_(D(*xs)))
            start_id = next(Heap._ids)
            j0 = len(self.journal)
            try:
                self.assign(node.target, p.val, fr)
                self.exec_block(node.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return      # what the last iteration changed is the state after the loop
            self._check_frame(j0, start_id, objs, fr, names, keepv)
            new = (lambda vs: Or_(D(*vs), And_(*[a == b for a, b in zip(vs, xs)]))) if xs else (lambda vs: TRUE)
            for lb, f in inv(p, new):
                self.prove(f, f'{name}: {lb} is preserved')
            raise Infeasible()
        self.exec_block(node.orelse, fr)

    def iteration(self, fr, node, p, allowed=(), carried={}):
        """One arbitrary iteration, which may depend on other iterations
        only through `carried`: names with arbitrary values (of the rule)."""
        names = assigned_names(node.body + [ast.Assign(targets=[node.target], value=ast.Constant(0))])
        self._havoc_locals(fr, names, {})
        for nm, v in carried.items():
            self.set_field(fr, nm, v)
        start_id = next(Heap._ids)
        j0 = len(self.journal)
        try:
            self.assign(node.target, p.val, fr)
            self.exec_block(node.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported('loop that is left early')
        except PoisonRead as e:
            raise Unsupported(f'loop-carried variable {e.name}')
        self._check_frame(j0, start_id, allowed, fr, set(names) | set(carried), {})

    # family loop ------------------------------------------------
    def family_loop(self, part, body, fr, names, nodes, label):
        acc = {}
        for attempt in range(4):
            try:
                return self._family_loop(part, body, fr, names, nodes, label, acc)
            except PoisonRead as e:
                if e.frame is not fr or e.name not in names or e.name in acc:
                    raise Unsupported(f'loop-carried variable {e.name} in {label}')
                old = self._entry_val(fr, e.name)
                if isinstance(old, (str, SStr)) or isinstance(old, Container) \
                        or isinstance(old, (bool, SB)):
                    acc[e.name] = old
                else:
                    raise Unsupported(f'loop-carried variable {e.name} in {label}')
        raise Unsupported('loop-carried variables')

    def _entry_val(self, fr, name):
        return self._loop_entry.get((fr.id, name), _MISSING)

    _loop_entry = {}
    prefix_facts = False

    def _family_loop(self, part, body, fr, names, nodes, label, acc):
        entry = {}
        p = self.inst(part)
        xs = list(p.vars)
        start_id = next(Heap._ids)
        acc_consts = {}
        m0 = self.mark()
        trace0 = self.trace
        taken0 = list(trace0.taken) if trace0 else None
        keep = set()
        for nm in names:
            if nm in fr.f:
                v = fr.f[nm]
                entry[nm] = v
                self._loop_entry = dict(self._loop_entry)
                self._loop_entry[(fr.id, nm)] = v
                if isinstance(v, Container) and aug_only(nodes, nm):
                    keep.add(nm)
                    continue
                if nm in acc:
                    if isinstance(v, (str, SStr)):
                        c = self.const('acc_' + nm, V)
                        acc_consts[nm] = c
                        self.set_field(fr, nm, SStr([Sym(c, 'accstr')]))
                    elif isinstance(v, Container):
                        pass
                    else:
                        c = self.const('acc_' + nm, z3.BoolSort())
                        acc_consts[nm] = c
                        self.set_field(fr, nm, SB(c))
                    continue
            self.set_field(fr, nm, Poison(nm))
        fresh0 = len(self.fresh_log)
        reads0 = len(self.reads)

        def run_body():
            self.assume(p.cond)
            try:
                body(p.val)
                return (NORMAL, None)
            except ContinueEx:
                return (NORMAL, None)
            except BreakEx:
                return (BREAK, None)
            except ReturnEx as e:
                return ('return', e.v)
            except PyExc as e:
                return ('raise', e)

        bases = {}
        mods_all = {}

        def collect(out, m):
            j, pcm, _ = m
            mods = {}
            for ent in self.journal[j:]:
                o, kind, key, old, owner = ent
                if owner.id > start_id:
                    continue
                if kind == 'parts':
                    k = ('parts', o.id)
                    if k not in mods:
                        mods[k] = (o, old)
                else:
                    k = ('item', owner.id, key)
                    if k not in mods:
                        mods[k] = (owner, key, old)
            path = self.pc[pcm:]
            # skolemize fresh constants created on this path
            fresh = self.fresh_log[fresh0:]
            terms = [f for _, f in path]
            deltas = {}
            locals_new = {}
            for k, ent in mods.items():
                if k[0] == 'parts':
                    o, base = ent
                    n = len(base)
                    same = len(o.parts) >= n and all(a is b for a, b in zip(base, o.parts))
                    deltas[k] = (o, base, tuple(o.parts[:n]) + tuple(
                        Part(q.vars, q.cond, core.snapshot(q.val, start_id), q.ordered) for q in o.parts[n:]) if same else o.parts)
                    mods_all[k] = o
                else:
                    owner, key, old = ent
                    new = owner.f.get(key, _MISSING)
                    if new is not _MISSING:
                        new = core.snapshot(new, start_id)
                    locals_new[k] = (owner, key, old, new)
            decs = And_(*[f for kd, f in path if kd == 'dec'])
            facts = [f for kd, f in path if kd == 'fact' and not f.eq(p.cond)]
            if self.prefix_facts:       # a fact holds whenever the decisions before it do
                facts = [Implies_(And_(*[g for kg, g in path[:i] if kg == 'dec']), f)
                         for i, (kd, f) in enumerate(path) if kd == 'fact' and not f.eq(p.cond)]
            return dict(out=out, deltas=deltas, locs=locals_new, decs=decs,
                        facts=facts, fresh=list(fresh))

        try:
            paths = self.explore(run_body, collect)
        finally:
            self.rollback(m0)
            self.trace = trace0
        # closing over fresh constants: skolem functions of xs
        reads = {r for r in self.reads[reads0:]}
        for pt in paths:
            sub = []
            fresh_ids = set()
            for c in pt['fresh']:
                if c.get_id() in fresh_ids:
                    continue
                fresh_ids.add(c.get_id())
                if any(c.eq(x) for x in xs) or any(c.eq(a) for a in acc_consts.values()):
                    continue
                f = self.func('sk', *[x.sort() for x in xs], c.sort())
                sub.append((c, f(*xs)))
            # keep only constants that are free (not bound vars of parts)
            pt['sub'] = sub
            if sub:
                pt['decs'] = z3.substitute(pt['decs'], *sub)
                pt['facts'] = [z3.substitute(f, *sub) for f in pt['facts']]
        # global facts
        for pt in paths:
            for f in pt['facts']:
                self.assume(ForAll_(xs, Implies_(p.cond if self.prefix_facts else And_(p.cond, pt['decs']), f)))
        normal = [pt for pt in paths if pt['out'][0] == NORMAL]
        exits = [pt for pt in paths if pt['out'][0] != NORMAL]
        # deltas of normal paths
        delta = {}          # key -> (obj, list of Part)
        removed = {}
        for pt in normal:
            for k, (o, base, new) in pt['deltas'].items():
                nb = len(base)
                ok = len(new) >= nb and all(a is b for a, b in zip(base, new))
                if not ok:
                    if isinstance(o, PDict) and self._dict_override(base, new, pt, delta, removed, k, o, xs, p):
                        continue
                    raise Unsupported(f'loop {label}: non-monotone update of a container')
                for q in new[nb:]:
                    q2 = subst_part(q, pt['sub'])
                    delta.setdefault(k, (o, []))[1].append(
                        Part(tuple(xs) + q2.vars, And_(p.cond, pt['decs'], q2.cond), q2.val,
                             part.ordered if (part.ordered is not None and not q2.vars
                                              and z3.is_true(z3.simplify(pt['decs']))
                                              and z3.is_true(q2.cond)) else None))
        # order: a list filled by exactly one unconditional append per iteration
        for k, (o, ps) in delta.items():
            if self.ordered_ite and type(o) is PList and part.ordered is not None and len(ps) == len(normal) > 1 and not exits and all(
                    len(q.vars) == 1 for q in ps) and all(len(pt['deltas'].get(k, (0, (), ()))[2]) == len(pt['deltas'].get(k, (0, (), ()))[1]) + 1 for pt in normal):
                # each path appends one item
                v = ps[-1].val
                for q in ps[-2::-1]:
                    v = Ite(q.cond, q.val, v)
                delta[k] = (o, [Part(tuple(xs), p.cond, v, part.ordered)])
                continue
            if len(ps) > 1:
                delta[k] = (o, merge_parts([Part(q.vars, q.cond, q.val) for q in ps]))
        # local / field changes
        loc_final = {}
        for pt in normal:
            for k, (owner, key, old, new) in pt['locs'].items():
                loc_final.setdefault(k, (owner, key, []))[2].append((pt, old, new))
        conds_exit = Or_(*[pt['decs'] for pt in exits])
        mod_ids = {k[1] for k in delta}
        if any(r in mod_ids for r in reads):
            self._independence(p, xs, body, fr, names, entry, keep, delta, normal, exits,
                               label, start_id, acc)
        # choose exit or not
        if exits:
            opts = [ForAll_(xs, Implies_(p.cond, Not_(conds_exit)))]
            insts = []
            for pt in exits:
                opts.append(Exists_(xs, And_(p.cond, pt['decs'])))
            k = self.choose(opts) if len(opts) == 2 else self.pick(opts)
        else:
            k = 0
        if k == 0:
            self._apply(delta, removed, None, xs)
            self._finish_locals(fr, names, entry, keep, loc_final, normal, xs, p, acc, acc_consts, label)
            return
        # an exit at x*: everything done before it satisfied no exit
        pt = exits[k - 1]
        star = [self.const('exit_' + str(x), x.sort()) for x in xs]
        ren = list(zip(xs, star))
        self.assume(z3.substitute(And_(p.cond, pt['decs']), *ren))
        if part.ordered is not None:
            i = xs[0]
            j = self.const('j', z3.IntSort())
            self.assume(ForAll_([j], Implies_(
                And_(j >= 0, j < star[0]),
                Not_(z3.substitute(conds_exit, (i, j))))))
            done = lambda vs: vs[0] < star[0]
        elif delta or loc_final:
            D = self.func('done', *[x.sort() for x in xs], z3.BoolSort())
            self.assume(ForAll_(xs, Implies_(D(*xs), And_(p.cond, Not_(conds_exit)))))
            self.assume(Not_(D(*star)))
            done = lambda vs: D(*vs)
        else:
            done = lambda vs: FALSE
        self._apply(delta, removed, done, xs)
        for nm in names:
            if nm in keep:
                continue
            self.set_field(fr, nm, Poison(nm))
        # rerun the exiting iteration concretely along that path
        val = subst(p.val, ren)
        try:
            body(val)
        except ContinueEx:
            raise Infeasible()
        raise Infeasible()      # normal completion contradicts the exit condition

    def _dict_override(self, base, new, pt, delta, removed, k, o, xs, p):
        return False

    def _apply(self, delta, removed, done, xs):
        for k, (o, ps) in delta.items():
            qs = []
            for q in ps:
                if done is not None:
                    q = Part(q.vars, And_(q.cond, done(list(q.vars[:len(xs)]))), q.val)
                qs.append(q)
            self.set_parts(o, o.parts + tuple(qs))

    def _finish_locals(self, fr, names, entry, keep, loc_final, normal, xs, p, acc, acc_consts, label):
        for k, (owner, key, lst) in loc_final.items():
            if owner is fr and key in names:
                continue
            if all(new is old for _, old, new in lst):
                continue
            # field of an outer object changed by the loop
            self.set_field(owner, key, Poison(key))
        for nm in names:
            if nm in keep:
                continue
            k = ('item', fr.id, nm)
            ent = loc_final.get(k)
            old = entry.get(nm, _MISSING)
            if nm in acc:
                if isinstance(old, (str, SStr)):
                    c = acc_consts[nm]
                    ps = []
                    for pt in normal:
                        new = pt['locs'].get(k)
                        if new is None:
                            continue
                        v = new[3]
                        if not (isinstance(v, SStr) and v.pieces and isinstance(v.pieces[0], Sym)
                                and v.pieces[0].t.eq(c)):
                            raise Unsupported(f'string accumulator {nm} in {label}')
                        rest = subst(SStr(v.pieces[1:]), pt['sub'])
                        ps.append(Part(xs, And_(p.cond, pt['decs']), rest))
                    base = old if isinstance(old, SStr) else SStr([old])
                    self.set_field(fr, nm, SStr(base.pieces + ((Join('', tuple(ps)),) if ps else ())))
                    continue
                if isinstance(old, Container):
                    ps = []
                    for pt in normal:
                        new = pt['locs'].get(k)
                        if new is None:
                            continue
                        v = new[3]
                        nb = len(old.parts)
                        if not (type(v) is type(old) and len(v.parts) >= nb
                                and all(a is b for a, b in zip(old.parts, v.parts))):
                            raise Unsupported(f'accumulator {nm} in {label}')
                        for q in v.parts[nb:]:
                            q = subst_part(q, pt['sub'])
                            ps.append(Part(tuple(xs) + q.vars, And_(p.cond, pt['decs'], q.cond), q.val))
                    self.set_field(fr, nm, type(old)(old.parts + tuple(ps)))
                    continue
            # flags
            if ent is not None and isinstance(old, (bool,)):
                vals = []
                conds = []
                good = True
                for pt, o_, new in ent[2]:
                    if isinstance(new, SB) and nm in acc_consts and new.t.eq(acc_consts[nm]):
                        continue
                    if isinstance(new, bool):
                        vals.append(new)
                        conds.append(pt['decs'])
                    else:
                        good = False
                if good and vals and len(set(vals)) == 1 and not (nm in acc_consts and any(
                        _occurs_const(acc_consts[nm], pt['decs']) for pt in normal)):
                    ex = Exists_(xs, And_(p.cond, Or_(*conds)))
                    if vals[0] == old:
                        self.set_field(fr, nm, old)
                    else:
                        self.set_field(fr, nm, SB(ex if vals[0] else Not_(ex)))
                    continue
            self.set_field(fr, nm, Poison(nm))

    def _independence(self, p, xs, body, fr, names, entry, keep, delta, normal, exits, label, start_id, acc):
        """The effect of an iteration computed at loop entry is its effect after
        any set of other iterations (inductive step of the loop summary)."""
        D = self.func('doneI', *[x.sort() for x in xs], z3.BoolSort())
        m = self.mark()
        E = Or_(*[pt['decs'] for pt in exits])
        base = {k: o.parts for k, (o, ps) in delta.items()}

        def restricted(k, done):
            o, ps = delta[k]
            out = list(base[k])
            for q in ps:
                q2 = self.inst(q)
                out.append(Part(q2.vars, And_(q2.cond, done(q2.vars[:len(xs)])), q2.val))
            return tuple(out)
        try:
            self.assume(ForAll_(xs, Implies_(D(*xs), And_(p.cond, Not_(E)))))
            self.assume(Not_(D(*xs)))
            for k, (o, ps) in delta.items():
                self.set_parts(o, restricted(k, lambda vs: D(*vs)))
            for nm in names:
                if nm not in keep:
                    self.set_field(fr, nm, Poison(nm))

            def run():
                self.assume(p.cond)
                try:
                    body(p.val)
                    return NORMAL
                except ContinueEx:
                    return NORMAL
                except (BreakEx, ReturnEx, PyExc):
                    return 'exit'

            def chk(out, mm):
                if out == 'exit':
                    self.need(E, f'loop {label}: exit condition independent of other iterations')
                    return
                if exits:
                    self.need(Not_(E), f'loop {label}: exit condition independent of other iterations')
                for k, (o, ps) in delta.items():
                    want = restricted(k, lambda vs: Or_(D(*vs), And_(*[a == b for a, b in zip(vs, xs)])))
                    f1 = self.subset_formula(o.parts, want)
                    f2 = self.subset_formula(want, o.parts)
                    self.need(f1, f'loop {label}: iteration effect within summary')
                    self.need(f2, f'loop {label}: summary within iteration effect')
            trace0 = self.trace
            try:
                self.explore(run, chk)
            finally:
                self.trace = trace0
        finally:
            self.rollback(m)

    def need(self, goal, name):
        n, nf = len(self.obligations), self.failures
        if not self.prove(goal, name):
            del self.obligations[n:]
            self.failures = nf
            raise Unsupported(f'undischarged side condition: {name}')

    # ------------------------------------------------------------ containers
    def inst(self, p):
        """Fresh copy of the bound variables of a part."""
        if not p.vars:
            return p
        vs = [self.const(str(v).split('!')[0], v.sort()) for v in p.vars]
        pairs = list(zip(p.vars, vs))
        return Part(vs, z3.substitute(p.cond, *pairs), subst(p.val, pairs), p.ordered)

    def note_read(self, c):
        self.reads.append(c.id)

    def iter_parts(self, it):
        if isinstance(it, Container):
            self.note_read(it)
            if isinstance(it, PDict):
                return [Part(p.vars, p.cond, p.val[0], p.ordered) for p in it.parts]
            if isinstance(it, It):
                ps = list(it.parts)
                self.set_parts(it, ())
                return ps
            return list(it.parts)
        if isinstance(it, tuple):
            return [single(x) for x in it]
        if isinstance(it, str):
            return [single(x) for x in it]
        if isinstance(it, Obj):
            m = self.class_lookup(it.cls, '__iter__')
            if m is not _MISSING:
                return self.iter_parts(self.call(m, [it], {}))
            if '%dict' in it.f:
                return self.iter_parts(it.f['%dict'])
        if isinstance(it, Val) and hasattr(it, 'iter_'):
            return it.iter_(self)
        if is_conc(it):
            raise PyExc(TypeError, ('not iterable',))
        raise Unsupported(f'iteration over {it!r}')

    def parts_nonempty(self, parts):
        return Or_(*[Exists_(p.vars, p.cond) for p in parts])

    def nonempty(self, c):
        self.note_read(c)
        return self.parts_nonempty(c.parts)

    def unify(self, pat, vs, v):
        """Match element pattern (bound vars vs) with value v.
        Returns (substitution pairs, residual condition) or None."""
        sub = {}
        resid = []

        def go(a, b):
            if isinstance(a, Sym) and any(a.t.eq(x) for x in vs):
                i = a.t.get_id()
                try:
                    e = self.enc_.enc(b)
                except Unsupported:
                    resid.append(self._eqf(a, b))
                    return
                if i in sub:
                    resid.append(sub[i][1] == e)
                else:
                    sub[i] = (a.t, e)
                return
            if isinstance(a, SN) and any(a.t.eq(x) for x in vs) and isinstance(b, (SN, int)) \
                    and not isinstance(b, bool):
                bt = b.t if isinstance(b, SN) else z3.IntVal(b)
                if bt.sort() == a.t.sort():
                    i = a.t.get_id()
                    if i in sub:
                        resid.append(sub[i][1] == bt)
                    else:
                        sub[i] = (a.t, bt)
                    return
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                for x, y in zip(a, b):
                    go(x, y)
                return
            if isinstance(a, tuple) and isinstance(b, Sym):
                n = len(a)
                if n:
                    projs = self.enc_.tup_projs(n) if False else None
            resid.append(self._eqf(a, b))
        go(pat, v)
        pairs = list(sub.values())
        if pairs:
            resid = [z3.substitute(r, *pairs) for r in resid]
        return pairs, And_(*resid)

    def member_parts(self, v, parts):
        fs = []
        for p in parts:
            if not p.vars:
                fs.append(And_(p.cond, self._eqf(p.val, v)))
                continue
            p = self.inst(p)
            pairs, resid = self.unify(p.val, p.vars, v)
            cond = z3.substitute(p.cond, *pairs) if pairs else p.cond
            bound = {a.get_id() for a, _ in pairs}
            rest = [x for x in p.vars if x.get_id() not in bound]
            fs.append(Exists_(rest, And_(cond, resid)))
        return Or_(*fs)

    def subset_formula(self, a, b):
        """Every element of parts a is an element of parts b."""
        fs = []
        for p in a:
            q = self.inst(p)
            fs.append(ForAll_(q.vars, Implies_(q.cond, self.member_parts(q.val, b))))
        return And_(*fs)

    def same_elements(self, a, b):
        return And_(self.subset_formula(a, b), self.subset_formula(b, a))

    # prove versions: skolemize by hand to keep goals small
    def prove_subset(self, a, b, name):
        ok = True
        for i, p in enumerate(a):
            q = self.inst(p)
            goal = Implies_(q.cond, self.member_parts(q.val, b))
            ok &= self.prove(goal, f'{name}' + (f' [{i}]' if len(a) > 1 else ''))
        if not a:
            ok &= self.prove(TRUE, name)
        return ok

    def prove_same(self, a, b, name):
        x = self.prove_subset(a, b, f'{name}: sound')
        y = self.prove_subset(b, a, f'{name}: complete')
        return x and y

    def contains(self, c, v):
        """z3/py bool: v in c"""
        if isinstance(c, (PSet, PList, It)):
            self.note_read(c)
            if isinstance(c, PSet):
                self.check_hashable(v)
            return self.member_parts(v, c.parts)
        if isinstance(c, PDict):
            self.note_read(c)
            return self.member_parts(v, [Part(p.vars, p.cond, p.val[0]) for p in c.parts])
        if isinstance(c, tuple):
            return Or_(*[self._eqf(x, v) for x in c])
        if isinstance(c, str):
            if isinstance(v, str):
                return v in c
            if isinstance(v, Sym):
                f = z3.Function('instr', V, V, z3.BoolSort())
                return f(v.t, self.enc_.enc(c))
            raise Unsupported('in on str')
        if isinstance(c, Sym):
            if isinstance(v, str):
                f = z3.Function('contains_' + c.kind, V, V, z3.BoolSort())
                return f(self.enc_.enc(v), c.t)
            f = z3.Function('contains_' + c.kind, V, V, z3.BoolSort())
            return f(self.enc_.enc(v), c.t)
        if isinstance(c, Obj):
            m = self.class_lookup(c.cls, '__contains__')
            if m is not _MISSING:
                return self.truth_term(self.call(m, [c, v], {}))
            if '%dict' in c.f:
                return self.contains(c.f['%dict'], v)
            m = self.class_lookup(c.cls, '__iter__')
            if m is not _MISSING:
                return self.member_parts(v, self.iter_parts(c))
        if isinstance(c, Val) and hasattr(c, 'contains_'):
            return c.contains_(self, v)
        if is_conc(c):
            raise PyExc(TypeError, ('argument is not iterable',))
        raise Unsupported(f'contains on {c!r}')

    def check_hashable(self, v):
        if isinstance(v, (PList, PDict)) or (isinstance(v, PSet) and not getattr(v, 'frozen', False)):
            raise PyExc(TypeError, ('unhashable',))
        if isinstance(v, tuple):
            for x in v:
                self.check_hashable(x)
        elif isinstance(v, Sym) and v.kind in self.hash_kinds:
            if not self.branch_b(self.hash_kinds[v.kind](v.t)):
                raise PyExc(TypeError, ('unhashable',))

    def hash_cond(self, v):
        if isinstance(v, tuple):
            return And_(*[self.hash_cond(x) for x in v])
        if isinstance(v, Sym) and v.kind in self.hash_kinds:
            return self.hash_kinds[v.kind](v.t)
        self.check_hashable(v)
        return TRUE

    def check_hashable_part(self, p):
        """Every element of the part is hashable, or TypeError."""
        p = self.inst(p)
        if not self.hash_kinds:
            return self.check_hashable(p.val)
        c = ForAll_(list(p.vars), Implies_(p.cond, self.hash_cond(p.val)))
        if not z3.is_true(c) and not self.branch(c):
            raise PyExc(TypeError, ('unhashable',))

    def set_add(self, s, v):
        if s.frozen:
            raise Unsupported('mutation of object of another iteration')
        self.check_hashable(v)
        self.set_parts(s, s.parts + (single(v),))

    def add_parts(self, c, parts):
        if parts:
            self.set_parts(c, c.parts + tuple(parts))

    def filter_parts(self, parts, pred):
        """parts restricted to elements with pred(val) (z3 Bool)."""
        out = []
        for p in parts:
            q = self.inst(p)
            c = pred(q.val)
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            c = z3.simplify(And_(q.cond, c)) if False else And_(q.cond, c)
            if z3.is_false(c):
                continue
            out.append(Part(q.vars, c, q.val, q.ordered if c.eq(q.cond) else None))
        return out

    # dicts
    def dict_get(self, d, k):
        """Value for key k or _MISSING; forks."""
        self.note_read(d)
        self.check_hashable(k)
        for p in reversed(d.parts):
            if not p.vars:
                c = And_(p.cond, self._eqf(p.val[0], k))
                if self.branch(c):
                    return p.val[1]
                continue
            q = self.inst(p)
            pairs, resid = self.unify(q.val[0], q.vars, k)
            bound = {a.get_id() for a, _ in pairs}
            rest = [x for x in q.vars if x.get_id() not in bound]
            cond = And_(z3.substitute(q.cond, *pairs) if pairs else q.cond, resid)
            if self.branch(Exists_(rest, cond)):
                if rest:
                    self.assume(cond)
                return subst(q.val[1], pairs)
        return _MISSING

    def dict_set(self, d, k, v):
        self.check_hashable(k)
        # replace a syntactically identical key in place
        parts = []
        for p in d.parts:
            if not p.vars:
                e = self._eqf(p.val[0], k)
                e = z3.simplify(e)
                if z3.is_true(e) and z3.is_true(p.cond):
                    continue
                if z3.is_false(e):
                    parts.append(p)
                    continue
                parts.append(Part((), And_(p.cond, Not_(e)), p.val))
            else:
                q = self.inst(p)
                e = self._eqf(q.val[0], k)
                if z3.is_false(z3.simplify(e)) or not self.feasible(And_(q.cond, e)):
                    parts.append(p)
                else:
                    parts.append(Part(q.vars, And_(q.cond, Not_(e)), q.val))
        parts.append(single((k, v)))
        self.set_parts(d, parts)

    def dict_del(self, d, k):
        parts = []
        for p in d.parts:
            q = self.inst(p)
            e = z3.simplify(self._eqf(q.val[0], k))
            if z3.is_true(e) and z3.is_true(q.cond) and not q.vars:
                continue
            if z3.is_false(e):
                parts.append(p)
            else:
                parts.append(Part(q.vars, And_(q.cond, Not_(e)), q.val))
        self.set_parts(d, parts)

    def dict_update(self, d, other_parts):
        """d.update(other): other overrides."""
        other_parts = list(other_parts)
        if all(not p.vars and z3.is_true(p.cond) for p in other_parts):
            for p in other_parts:
                self.dict_set(d, p.val[0], p.val[1])
            return
        keys = [Part(p.vars, p.cond, p.val[0]) for p in other_parts]
        kept = []
        for p in d.parts:
            q = self.inst(p)
            e = self.member_parts(q.val[0], keys)
            if z3.is_false(z3.simplify(e)) or not self.feasible(And_(q.cond, e)):
                kept.append(p)
            else:
                kept.append(Part(q.vars, And_(q.cond, Not_(e)), q.val))
        self.set_parts(d, tuple(kept) + tuple(other_parts))

    # ------------------------------------------------------------ equality etc.
    def eq(self, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if a is b and isinstance(a, Obj) and self.class_lookup(a.cls, '__eq__') is _MISSING:
                return TRUE
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    m = self.class_lookup(x.cls, '__eq__')
                    if m is not _MISSING:
                        r = self.call(m, [x, y], {})
                        if r is not NotImplemented:
                            return self.truth_term(r)
                    elif '%dict' in x.f:
                        return self.eq(x.f['%dict'], y)
        return self._eqf(a, b)

    def _eqf(self, a, b):
        """Equality formula without interpreted calls."""
        if a is b:
            return TRUE
        for o in (a, b):
            if hasattr(o, 'eq_'):
                return o.eq_(self, a, b)
        if isinstance(a, SStr) and len(a.pieces) == 0:
            a = ''
        if isinstance(b, SStr) and len(b.pieces) == 0:
            b = ''
        if is_conc(a) and is_conc(b):
            return z3.BoolVal(a == b)
        if isinstance(a, SB) or isinstance(b, SB):
            x = a.t if isinstance(a, SB) else (z3.BoolVal(a) if isinstance(a, bool) else None)
            y = b.t if isinstance(b, SB) else (z3.BoolVal(b) if isinstance(b, bool) else None)
            if x is not None and y is not None:
                return x == y
        if isinstance(a, SN) or isinstance(b, SN):
            x, y = self.num(a), self.num(b)
            if x is not None and y is not None:
                return x == y
            if isinstance(a, (SN,)) and (b is None or isinstance(b, (str, tuple, Container))):
                return FALSE
            if isinstance(b, (SN,)) and (a is None or isinstance(a, (str, tuple, Container))):
                return FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return And_(*[self._eqf(x, y) for x, y in zip(a, b)])
        if isinstance(a, PSet) and isinstance(b, PSet):
            self.note_read(a)
            self.note_read(b)
            return self.same_elements(a.parts, b.parts)
        if isinstance(a, PDict) and isinstance(b, PDict):
            self.note_read(a)
            self.note_read(b)
            return self.same_elements(a.parts, b.parts)
        if isinstance(a, PDict) and isinstance(b, Obj) and '%dict' in b.f:
            return self._eqf(a, b.f['%dict'])
        if isinstance(b, PDict) and isinstance(a, Obj) and '%dict' in a.f:
            return self._eqf(a.f['%dict'], b)
        if isinstance(a, PList) and isinstance(b, PList):
            return self.list_eq(a, b)
        if isinstance(a, (FuncVal, ClassVal, ExtClass, Builtin, type)) or \
                isinstance(b, (FuncVal, ClassVal, ExtClass, Builtin, type)):
            return z3.BoolVal(a is b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj) and '%dict' in a.f and '%dict' in b.f:
                return self._eqf(a.f['%dict'], b.f['%dict'])
            return z3.BoolVal(a is b)
        if (isinstance(a, SStr) or isinstance(b, SStr)):
            return self.str_eq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.kind in ('formula', 'name') and y == '':
                return FALSE
        if isinstance(a, Container) and isinstance(b, Container) and type(a) is not type(b):
            return FALSE
        if isinstance(a, Container) and is_conc(b) or isinstance(b, Container) and is_conc(a):
            return FALSE
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, v = (a, b) if isinstance(a, Obj) else (b, a)
            if is_conc(v) or isinstance(v, (tuple, Container)):
                return FALSE
        if isinstance(a, (tuple,)) and is_conc(b) or isinstance(b, tuple) and is_conc(a):
            return FALSE
        if isinstance(a, tuple) and isinstance(b, Container) or isinstance(b, tuple) and isinstance(a, Container):
            return FALSE
        return self.enc_.enc(a) == self.enc_.enc(b)

    def str_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr) and y == '':
                t = self.truth_term(x)
                return Not_(z3.BoolVal(t) if isinstance(t, bool) else t)
            if isinstance(x, Sym) and x.kind in ('formula', 'name') and y == '':
                return FALSE
        pa = a.pieces if isinstance(a, SStr) else (a,)
        pb = b.pieces if isinstance(b, SStr) else (b,)
        if len(pa) == len(pb) and all(
                (x == y if isinstance(x, str) and isinstance(y, str) else x is y
                 or (isinstance(x, Sym) and isinstance(y, Sym) and x.t.eq(y.t)))
                for x, y in zip(pa, pb)):
            return TRUE
        if b is None or a is None:
            return FALSE
        try:
            return self.enc_.enc(a) == self.enc_.enc(b)
        except Unsupported:
            pass
        ea, eb = self.enc_str(a), self.enc_str(b)
        return ea == eb

    def enc_str(self, a):
        """Strings with holes as an uninterpreted injective-by-template term."""
        if isinstance(a, str):
            return self.enc_.enc(a)
        if isinstance(a, Sym):
            return a.t
        tpl = []
        args = []
        for p in a.pieces:
            if isinstance(p, str):
                tpl.append(p)
            else:
                tpl.append('\0')
                args.append(self.enc_.enc(p))
        f = z3.Function('fmt_' + repr(''.join(tpl)), *[V] * len(args), V)
        self.fmt_axiom(f, tpl, a.pieces)
        return f(*args)

    def fmt_axiom(self, f, tpl, pieces):
        """prefix_<int>_<int>...: the numbers are determined by the prefix and the text
        (digits and signs are separated by text without digits and signs)."""
        k = [x for x in pieces if not isinstance(x, str)]
        if f.name() in self.fmts or len(k) < 2 or not isinstance(k[0], Sym) or tpl[-1] != '\0' \
                or not all(isinstance(x, SN) and x.t.sort() == z3.IntSort() for x in k[1:]) or tpl[0] != '\0' \
                or tpl[1::2] != ['_'] * (len(tpl) // 2) or tpl[0::2] != ['\0'] * len(k):
            return
        self.fmts.add(f.name())
        p = z3.Const('fmt_p', V)
        ns = [z3.Int(f'fmt_n{i}') for i in range(len(k) - 1)]
        t = f(p, *[self.enc_.enc(SN(n)) for n in ns])
        inv = [z3.Function(f'{f.name()}_inv{i}', V, V, z3.IntSort()) for i in range(len(ns))]
        self.enc_.axioms.append(z3.ForAll([p] + ns, z3.And(*[g(p, t) == n for g, n in zip(inv, ns)]), patterns=[t]))

    def list_eq(self, a, b):
        self.note_read(a)
        self.note_read(b)
        pa, pb = a.parts, b.parts
        if all(not p.vars and z3.is_true(p.cond) for p in pa + pb):
            if len(pa) != len(pb):
                return FALSE
            return And_(*[self._eqf(p.val, q.val) for p, q in zip(pa, pb)])
        if len(pa) == 1 and len(pb) == 1 and pa[0].ordered is not None and pb[0].ordered is not None:
            i = self.const('i', z3.IntSort())
            u = subst(pa[0].val, [(pa[0].vars[0], i)])
            w = subst(pb[0].val, [(pb[0].vars[0], i)])
            return And_(pa[0].ordered == pb[0].ordered,
                        ForAll_([i], Implies_(And_(i >= 0, i < pa[0].ordered), self._eqf(u, w))))
        raise Unsupported('list equality')

    def num(self, v):
        if isinstance(v, SN):
            return v.t
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return z3.RealVal(v)
        return None

    def branch_b(self, f):
        if isinstance(f, bool):
            return f
        return self.branch(f)

    def truth(self, v):
        return self.branch_b(self.truth_term(v))

    def truth_term(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, SB):
            return v.t
        if isinstance(v, SN):
            return v.t != 0
        if isinstance(v, Container):
            return self.nonempty(v)
        if isinstance(v, SStr):
            return self.str_nonempty(v)
        if isinstance(v, Sym):
            if v.kind in ('formula', 'name'):
                return True         # text that is not empty
            f = z3.Function('truthy', V, z3.BoolSort())
            return f(v.t)
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                m = self.class_lookup(v.cls, nm)
                if m is not _MISSING:
                    return self.truth_term(self.call(m, [v], {}))
            if '%dict' in v.f:
                return self.nonempty(v.f['%dict'])
            return True
        if isinstance(v, Val) and hasattr(v, 'truth_'):
            return v.truth_(self)
        return True

    def str_nonempty(self, s):
        fs = []
        for p in s.pieces:
            if isinstance(p, str):
                return True
            if isinstance(p, Join):
                # nonempty iff some element nonempty, or two elements and a sep
                for q in p.parts:
                    q = self.inst(q)
                    t = self.truth_term(q.val)
                    t = z3.BoolVal(t) if isinstance(t, bool) else t
                    fs.append(Exists_(q.vars, And_(q.cond, t)))
            elif isinstance(p, Sym):
                if p.kind == 'formula':
                    return True
                fs.append(self.truth_term(p))
            else:
                return True
        return Or_(*fs)

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        if isinstance(o, PDict):
            v = self.dict_get(o, k)
            if v is _MISSING:
                raise PyExc(KeyError, (repr(k)[:60],))
            return v
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, '__getitem__')
            if m is not _MISSING:
                return self.call(m, [o, k], {})
            if '%dict' in o.f:
                return self.getitem(o.f['%dict'], k)
        return self.lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        if isinstance(o, PDict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, '__setitem__')
            if m is not _MISSING:
                self.call(m, [o, k, v], {})
                return
            if '%dict' in o.f:
                self.dict_set(o.f['%dict'], k, v)
                return
        if isinstance(o, Val) and hasattr(o, 'setitem_'):
            o.setitem_(self, k, v)
            return
        if isinstance(o, PList) and isinstance(k, int) and not isinstance(k, bool):
            ps = list(o.parts)
            if all(not p.vars and z3.is_true(p.cond) for p in ps):
                try:
                    ps[k] = single(v)
                except IndexError:
                    raise PyExc(IndexError, ())
                self.set_parts(o, ps)
                return
            if k == -1 and not ps[-1].vars and z3.is_true(ps[-1].cond):
                ps[-1] = single(v)
                self.set_parts(o, ps)
                return
            if len(ps) == 1 and ps[0].ordered is not None and k >= 0:
                if not self.branch(ps[0].ordered > k):
                    raise PyExc(IndexError, ())
                p = self.inst(ps[0])
                self.set_parts(o, [Part(p.vars, p.cond, Ite(p.vars[0] == k, v, p.val), p.ordered)])
                return
        if isinstance(o, PList) and isinstance(k, SN) and len(o.parts) == 1 and o.parts[0].ordered is not None:
            n = o.parts[0].ordered
            if not self.branch(k.t >= 0):
                raise Unsupported('negative position')
            if not self.branch(k.t < n):
                raise PyExc(IndexError, ())
            p = self.inst(o.parts[0])
            i = p.vars[0]
            a, b = self.lib.to_num(self, v), self.lib.to_num(self, p.val)
            w = Ite(i == k.t, v, p.val) if a is None or b is None else SN(z3.If(i == k.t, a, b))
            self.set_parts(o, [Part(p.vars, p.cond, w, p.ordered)])
            return
        raise Unsupported(f'setitem on {o!r}')

    def delitem(self, o, k):
        if isinstance(o, PDict):
            if not self.branch_b(self.contains(o, k)):
                raise PyExc(KeyError, ())
            self.dict_del(o, k)
            return
        if isinstance(o, Obj) and '%dict' in o.f and self.class_lookup(o.cls, '__delitem__') is _MISSING:
            return self.delitem(o.f['%dict'], k)
        if isinstance(o, Val) and hasattr(o, 'delitem_'):
            return o.delitem_(self, k)
        raise Unsupported('del item')

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}')
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign_name(n.target.id, v, fr)
        return v

    def e_Slice(self, n, fr):
        return self.eval_index(n, fr)

    def e_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.concrete_elems(self.eval(e.value, fr)))
            else:
                out.append(self.eval(e, fr))
        return tuple(out)

    def concrete_elems(self, v):
        ps = self.iter_parts(v)
        if any(p.vars or not z3.is_true(p.cond) for p in ps):
            raise Unsupported('star of a symbolic family')
        return [p.val for p in ps]

    def _elems(self, elts, fr):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.extend(self.iter_parts(self.eval(e.value, fr)))
            else:
                parts.append(single(self.eval(e, fr)))
        return parts

    def e_List(self, n, fr):
        return PList(self._elems(n.elts, fr))

    def e_Set(self, n, fr):
        ps = self._elems(n.elts, fr)
        for p in ps:
            self.check_hashable_part(p)
        return PSet(ps)

    def e_Dict(self, n, fr):
        d = PDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, fr)
                if isinstance(o, Obj) and '%dict' in o.f:
                    o = o.f['%dict']
                if not isinstance(o, PDict):
                    raise Unsupported('** of non-dict')
                self.dict_update(d, o.parts)
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_Attribute(self, n, fr):
        return self.getattr_(self.eval(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        if isinstance(o, (type, ClassVal, ExtClass, Opaque)) and not (
                isinstance(o, ClassVal) and False):
            return o
        k = self.eval_index(n.slice, fr)
        return self.getitem(o, k)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: self.eval(x, fr) if x is not None else None
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, fr)

    def e_JoinedStr(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.conversion == ord('r') or v.format_spec is not None:
                    if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                        out.append(repr(x))
                    else:
                        out.append(self.lib.ReprHole(x))
                else:
                    out.extend(self.lib.str_pieces(self, x))
        s = SStr(out)
        if all(isinstance(p, str) for p in s.pieces):
            return ''.join(s.pieces)
        return s

    def e_FormattedValue(self, n, fr):
        return self.eval(n.value, fr)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (SB, z3.BoolRef)) else False
            if not isand and t:
                return v if not isinstance(v, (SB, z3.BoolRef)) else True
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            if isinstance(t, bool):
                return not t
            return SB(Not_(t))
        if isinstance(n.op, ast.USub):
            if isinstance(v, SN):
                return SN(-v.t)
            return -v
        raise Unsupported('unary op')

    def e_BinOp(self, n, fr):
        return self.binop(n.op, self.eval(n.left, fr), self.eval(n.right, fr))

    def binop(self, op, a, b):
        return self.lib.binop(self, type(op).__name__, a, b)

    def augop(self, op, a, b):
        return self.lib.augop(self, type(op).__name__, a, b)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fr)
            t = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return t
            if not self.truth(t):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def e_IfExp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return FuncVal(n, fr.mod, fr, f'{(fr.func or ":").split(":")[1]}.<lambda>')

    def is_null_call(self, n, fr):
        f = n.func
        base = f
        while isinstance(base, ast.Attribute):
            base = base.value
        if isinstance(base, ast.Name):
            if isinstance(f, ast.Name) and f.id == 'print':
                return True
            if isinstance(f, ast.Attribute):
                try:
                    v = self.lookup(base.id, fr)
                except (PyExc, PoisonRead, Unsupported):
                    return False
                return isinstance(v, NullObj)
        return False

    def names_bound(self, n, fr):
        """Names in an ignored call (logging, printing) that are always evaluated have values."""
        if isinstance(n, ast.Name):
            try:
                self.lookup(n.id, fr)
            except (PoisonRead, Unsupported):
                pass
        elif not isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)):
            for c in ast.iter_child_nodes(n):
                self.names_bound(c, fr)

    def eval_args(self, n, fr):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                once = isinstance(v, It)
                if once:
                    v = PList(self.iter_parts(v))
                try:
                    args.extend(self.concrete_elems(v))
                except Unsupported:
                    args.append(self.lib.StarArgs(self.iter_parts(v), once))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, Obj) and '%dict' in d.f:
                    d = d.f['%dict']
                if hasattr(d, 'kwargs_'):
                    kw['**'] = d
                    continue
                if not isinstance(d, PDict):
                    raise Unsupported('** of non dict')
                if all(not p.vars and z3.is_true(p.cond) and isinstance(p.val[0], str) for p in d.parts):
                    for p in d.parts:
                        kw[p.val[0]] = p.val[1]
                else:
                    kw['**'] = PDict(d.parts)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return args, kw

    def e_Call(self, n, fr):
        if self.is_null_call(n, fr):
            for a in n.args + [k.value for k in n.keywords]:
                self.names_bound(a, fr)
            return None
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            if not n.args:
                f = fr
                while f is not None and f.cls is None:
                    f = f.parent
                return SuperVal(f.cls, f.f['%self'])
            a, _ = self.eval_args(n, fr)
            return SuperVal(a[0], a[1])
        f = self.eval(n.func, fr)
        args, kw = self.eval_args(n, fr)
        return self.call(f, args, kw)

    def e_Starred(self, n, fr):
        raise Unsupported('starred')

    def e_Yield(self, n, fr):
        v = self.eval(n.value, fr) if n.value is not None else None
        f = fr
        while f.yields is None:
            f = f.parent
        self.add_parts(f.yields, [single(v)])
        return None

    def e_YieldFrom(self, n, fr):
        f = fr
        ps = self.iter_parts(self.eval(n.value, fr))
        self.add_parts(f.yields, ps)
        return None

    # comprehensions
    def comp(self, n, fr, emit, container):
        inner = Frame(fr.mod, fr, fr.func)
        inner.cls = fr.cls
        if fr.cls is not None and '%self' in fr.f:
            inner.f['%self'] = fr.f['%self']

        def level(i, f):
            if i == len(n.generators):
                emit(f)
                return
            g = n.generators[i]
            it = self.eval(g.iter, fr if i == 0 else f)
            names = assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])

            def body(val):
                self.assign(g.target, val, f)
                for c in g.ifs:
                    if not self.truth(self.eval(c, f)):
                        return
                level(i + 1, f)
            self.loop_over(it, body, f, names, [], f'{fr.func}:{n.lineno}')
        level(0, inner)
        return container

    def e_ListComp(self, n, fr):
        c = PList()
        return self.comp(n, fr, lambda f: self.add_parts(c, [single(self.eval(n.elt, f))]), c)

    def e_GeneratorExp(self, n, fr):
        c = PList()
        self.comp(n, fr, lambda f: self.add_parts(c, [single(self.eval(n.elt, f))]), c)
        return It(c.parts)

    def e_SetComp(self, n, fr):
        c = PSet()
        return self.comp(n, fr, lambda f: self.set_add(c, self.eval(n.elt, f)), c)

    def e_DictComp(self, n, fr):
        c = PDict()

        def emit(f):
            k = self.eval(n.key, f)
            v = self.eval(n.value, f)
            self.check_hashable(k)
            self.add_parts(c, [single((k, v))])
        return self.comp(n, fr, emit, c)


def vkey(v):
    """Structural key of a value: equal keys mean equal values."""
    if isinstance(v, (Sym, SN, SB)):
        return (type(v).__name__, getattr(v, 'kind', ''), v.t.get_id())
    if isinstance(v, (str, int, float, bool)) or v is None:
        return (type(v).__name__, v)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(map(vkey, v))
    if isinstance(v, SStr):
        return ('SStr',) + tuple(map(vkey, v.pieces))
    return ('id', id(v))


def merge_parts(ps):
    """Parts with the same element (on different paths of one iteration)."""
    out = {}
    for p in ps:
        k = (tuple(x.get_id() for x in p.vars), vkey(p.val))
        if k in out and p.vars:
            out[k] = Part(p.vars, Or_(out[k].cond, p.cond), p.val)
        else:
            out[k if k not in out else ('dup', id(p), k)] = p
    return list(out.values())


def _occurs_const(c, t):
    return bool(core._occurs([c], t))
