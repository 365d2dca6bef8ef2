"""Reading string templates as formulas.

A string built by the verified code is a sequence of text, holes and joins over
families.  `parse` reads it with the operator precedences of the LTL grammar of
/repo (tulip/spec/lexyacc.py) and returns a tree; a `Join` becomes an n-ary
conjunction or disjunction over its family.  A template that would be read
differently for some value of a hole (missing parentheses, empty join next to an
operator) is rejected or yields a well-formedness condition to prove.
"""
import re
import z3
from .core import *
from .core import Join, _MISSING

PREC = {'<->': 1, '->': 2, '^': 3, '||': 4, '&&': 5, 'U': 7, 'W': 7, 'V': 7, 'R': 7,
        '=': 8, '!=': 8, '<': 9, '<=': 9, '>': 9, '>=': 9, '+': 10, '-': 10, '*': 11, '/': 11}
PREFIX = {'[]': 6, '<>': 6, '!': 12, 'X': 13, 'not': 7.5}
PYOPS = {'and': '&&', 'or': '||', 'not': 'not'}
PYTOK = {'=', '==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', '(', ')', ','}
NAMES = {'next': 'X', 'G': '[]', 'F': '<>'}
CANON = {'&': '&&', '|': '||', '=>': '->', '<=>': '<->', '~': '!', '==': '=', '/\\': '&&', '\\/': '||',
         '/=': '!=', '=<': '<='}
TOK = re.compile(r'''\s+|<->|<=>|->|=>|\[\]|<>|<=|>=|!=|/=|==|/\\|\\/|&&|\|\||[&|^!~=<>+\-*/()',"]|[A-Za-z_][A-Za-z0-9_.:]*|\d+''')


class TemplateError(Exception):
    pass


class F:
    """op: operator | var | num | str | hole | join | true | false"""
    __slots__ = ('op', 'args', 'prec', 'data')

    def __init__(self, op, args=(), prec=20, data=None):
        self.op, self.args, self.prec, self.data = op, tuple(args), prec, data

    def __repr__(self):
        if self.op in ('var', 'num', 'str', 'hole'):
            return f'{self.op}{self.data}'
        return f'{self.op}({", ".join(map(repr, self.args))}{self.data if self.op == "join" else ""})'


def tokens(s, dialect='ltl'):
    """List of (kind, data): op, id (pieces), num, str, hole, join."""
    pieces = s.pieces if isinstance(s, SStr) else ((s,) if s != '' else ())
    out = []
    glue = False            # last token may continue with adjacent characters
    quoted = None
    for p in pieces:
        if quoted is not None:
            if isinstance(p, str):
                k = p.find('"')
                if k < 0:
                    quoted.append(p)
                    continue
                quoted.append(p[:k])
                out.append(('str', tuple(x for x in quoted if x != '')))
                quoted = None
                p = p[k + 1:]
                glue = False
            else:
                quoted.append(p)
                continue
        if isinstance(p, str):
            pos = 0
            while pos < len(p):
                if p[pos] == '"':
                    k = p.find('"', pos + 1)
                    if k < 0:
                        quoted = [p[pos + 1:]]
                        pos = len(p)
                        break
                    out.append(('str', (p[pos + 1:k],)))
                    pos = k + 1
                    glue = False
                    continue
                m = TOK.match(p, pos)
                if m is None:
                    raise Unsupported(f'unreadable text {p[pos:pos + 10]!r}')
                t = m.group()
                wordy = t[0].isalnum() or t[0] == '_'
                if t.isspace():
                    glue = False
                elif wordy:
                    if glue and pos == 0:
                        k, d = out.pop()
                        out.append(('id', _pieces(k, d) + (t,)))
                    elif t[0].isdigit():
                        out.append(('num', int(t)))
                    elif dialect == 'python':
                        out.append(('op', PYOPS[t]) if t in PYOPS else ('id', (t,)))
                    elif t in NAMES:
                        out.append(('op', NAMES[t]))
                    elif t != 'not' and (t in PREFIX or t in PREC):
                        out.append(('op', t))
                    else:
                        out.append(('id', (t,)))
                    glue = m.end() == len(p)
                else:
                    if dialect == 'python' and (t not in PYTOK or t == '='):
                        raise TemplateError(f'{t} is not an operator of Python conditions')
                    out.append(('op', CANON.get(t, t)))
                    glue = False
                pos = m.end()
        elif isinstance(p, Join):
            if glue:
                raise Unsupported('join adjacent to a name')
            out.append(('join', p))
            glue = False
        else:
            if glue:
                k, d = out.pop()
                out.append(('id', _pieces(k, d) + (p,)))
            else:
                out.append(('hole', p))
            glue = True
    if quoted is not None:
        raise TemplateError('unterminated string')
    return out


def _pieces(k, d):
    if k == 'id':
        return tuple(d)
    if k == 'num':
        return (str(d),)
    if k == 'op':
        return (d,)
    return (d,)


class P:
    def __init__(self, toks, dialect='ltl'):
        self.t = toks
        self.dialect = dialect
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end', None)

    def isolated(self):
        """current token is alone between delimiters"""
        prev = self.t[self.i - 1] if self.i else ('end', None)
        nxt = self.t[self.i + 1] if self.i + 1 < len(self.t) else ('end', None)
        return prev in (('end', None), ('op', '('), ('op', ',')) and \
            nxt in (('end', None), ('op', ')'), ('op', ','))

    def expr(self, lo):
        """operators with precedence > lo bind inside"""
        e = self.unary(lo)
        while True:
            k, d = self.peek()
            if k == 'op' and d == "'":
                self.i += 1
                if e.prec < 14:
                    raise TemplateError('prime applied to an unparenthesized expression')
                e = F('X', [e], 14)
                continue
            if k != 'op' or d not in PREC:
                return e
            q = PREC[d]
            if q <= lo:
                return e
            if e.prec < q or (e.prec == q and e.op in ('join', 'adj') and e.data != d):
                raise TemplateError(f'operand of {d} needs parentheses')
            self.i += 1
            r = self.expr(q)
            if r.op in ('join', 'adj') and (r.prec < q or (r.prec == q and r.data != d)):
                raise TemplateError(f'operand of {d} needs parentheses')
            e = F(d, [e, r], q)

    def unary(self, lo):
        k, d = self.peek()
        if k == 'op' and d in PREFIX:
            self.i += 1
            q = PREFIX[d]
            # right-associative prefix: an operand is a higher operator or another prefix
            e = self.expr(q)
            if e.prec < q and e.op not in PREFIX:
                raise TemplateError(f'operand of {d} needs parentheses')
            return F('!' if d == 'not' else d, [e], q)
        if k == 'op' and d == '-':
            self.i += 1
            e = self.expr(12)
            return F('neg', [e], 12)
        if k == 'op' and d == '(':
            self.i += 1
            e = self.expr(0)
            if self.peek() != ('op', ')'):
                raise TemplateError(f'expected ) at {self.t[self.i:][:4]}')
            self.i += 1
            return F(e.op, e.args, 20, e.data) if e.op not in ('join', 'adj', 'hole') else F('paren', [e], 20)
        if k == 'hole':
            kind = d.kind if isinstance(d, Sym) else ('int' if isinstance(d, SN) else '')
            if kind not in ('name', 'int', 'atom') and not self.isolated():
                raise TemplateError('formula inserted without parentheses')
            self.i += 1
            return F('hole', (), 20, d)
        if k == 'join':
            self.i += 1
            sep = d.sep.strip()
            sep = PYOPS.get(sep, '?') if self.dialect == 'python' else CANON.get(sep, sep)
            if sep not in ('&&', '||'):
                raise Unsupported(f'join with {d.sep!r}')
            q = PREC[sep]
            items = []
            for p in d.parts:
                e = parse(p.val, self.dialect)
                if e is None:
                    items.append((p.vars, p.cond, None))
                    continue
                if e.prec < q or (e.prec == q and e.op != sep and not (e.op in ('join', 'adj') and e.data == sep)):
                    raise TemplateError(f'element of join with {sep} needs parentheses')
                if e.op == 'hole' and isinstance(e.data, Sym) and e.data.kind not in ('name', 'int', 'atom'):
                    raise TemplateError('formula joined without parentheses')
                items.append((p.vars, p.cond, e))
            f = F('join', items, q, sep)
            if self.peek()[0] == 'join':
                # juxtaposed joins: all but one must be empty
                g = self.unary(lo)
                if g.data != sep:
                    raise Unsupported('juxtaposed joins')
                return F('adj', [f, g], q, sep)
            return f
        self.i += 1
        if k == 'num':
            return F('num', (), 20, d)
        if k == 'str':
            return F('str', (), 20, d)
        if k == 'id':
            if len(d) == 1 and isinstance(d[0], str) and d[0].lower() in ('true', 'false'):
                return F(d[0].lower(), (), 20)
            return F('var', (), 20, d)
        raise TemplateError(f'unexpected {k} {d}')


def parse(s, dialect='ltl'):
    """Tree of the formula, or None for the empty string."""
    if isinstance(s, Sym):
        return F('hole', (), 20, s)
    ts = tokens(s, dialect)
    if not ts:
        return None
    p = P(ts, dialect)
    e = p.expr(0)
    if p.i != len(ts):
        raise TemplateError(f'trailing text at {ts[p.i:][:4]}')
    return e


def wf(e, top=True):
    """Condition under which the text is a formula for every choice of elements."""
    if e is None:
        return FALSE
    if e.op == 'join':
        fs = []
        for vs, c, sub in e.args:
            fs.append(ForAll_(vs, Implies_(c, wf(sub, False))))
        if not top:
            fs.append(Or_(*[Exists_(vs, c) for vs, c, _ in e.args]))
        return And_(*fs)
    if e.op == 'adj':
        ne = [_nonempty(a) for a in e.args]
        return And_(Not_(And_(*ne)), *[wf(a, True) for a in e.args], *([] if top else [Or_(*ne)]))
    return And_(*[wf(a, False) for a in e.args])


def _nonempty(e):
    if e.op == 'adj':
        return Or_(*[_nonempty(a) for a in e.args])
    if e.op == 'join':
        return Or_(*[Exists_(vs, c) for vs, c, _ in e.args])
    return TRUE


class Sem:
    """Evaluation of a tree; `atom(node, k)` interprets leaves at time k."""

    def __init__(self, atom):
        self.atom = atom

    def __call__(self, e, k=0):
        o = e.op
        if o == 'true':
            return TRUE
        if o == 'false':
            return FALSE
        if o == 'paren':
            return self(e.args[0], k)
        if o == '!':
            return Not_(self(e.args[0], k))
        if o == '&&':
            return And_(self(e.args[0], k), self(e.args[1], k))
        if o == '||':
            return Or_(self(e.args[0], k), self(e.args[1], k))
        if o == '->':
            return Implies_(self(e.args[0], k), self(e.args[1], k))
        if o == '<->':
            return self(e.args[0], k) == self(e.args[1], k)
        if o == '^':
            return self(e.args[0], k) != self(e.args[1], k)
        if o == 'X':
            return self(e.args[0], k + 1)
        if o == 'adj':
            return (And_ if e.data == '&&' else Or_)(*[self(a, k) for a in e.args])
        if o == 'join':
            fs = []
            for vs, c, sub in e.args:
                if sub is None:
                    raise TemplateError('empty element')
                t = self(sub, k)
                fs.append(ForAll_(vs, Implies_(c, t)) if e.data == '&&' else Exists_(vs, And_(c, t)))
            return And_(*fs) if e.data == '&&' else Or_(*fs)
        return self.atom(e, k)


def inst_parts(I, s):
    """Fresh copies of the bound variables of joins (capture avoidance)."""
    if isinstance(s, SStr):
        return SStr([Join(p.sep, tuple(Part(q.vars, q.cond, inst_parts(I, q.val), q.ordered)
                                       for q in map(I.inst, p.parts))) if isinstance(p, Join) else p
                     for p in s.pieces])
    return s


def formula(I, s, sem, name, top=True, dialect='ltl'):
    """Parse string value `s`; prove it is well formed; return its meaning."""
    try:
        e = parse(inst_parts(I, s), dialect)
        if e is None:
            return TRUE
        I.prove(wf(e, top), f'{name}: well-formed formula')
        return sem(e)
    except TemplateError as x:
        I.prove(FALSE, f'{name}: readable formula ({x})'[:160])
        return None
