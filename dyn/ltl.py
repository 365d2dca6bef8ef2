"""A small reader and evaluator of LTL formulas, independent of tulip.

Precedence, loosest first: <->  ->  ^  ||  &&  ([] <>)  (U W V)  (= !=)
(< <= > >=)  (+ -)  (* /)  !  X  postfix '.  Binary operators associate to the
left, prefix operators to the right.
"""
import re

TOK = re.compile(r'''\s*(?:(<<>>|<->|<=>|->|=>|\[\]|<>|<=|=<|>=|!=|/=|==|/\\|\\/|&&|\|\||[&|^!~=<>+\-*/()',])|"([^"]*)"|([A-Za-z_][A-Za-z0-9_.:]*)|(\d+))''')
CANON = {'&': '&&', '|': '||', '=>': '->', '<=>': '<->', '~': '!', '==': '=', '/\\': '&&', '\\/': '||', '/=': '!=',
         '=<': '<=', 'R': 'V'}
PREC = {'<<>>': .5, '<->': 1, '->': 2, '^': 3, '||': 4, '&&': 5, 'U': 7, 'W': 7, 'V': 7, '=': 8, '!=': 8, '<': 9, '<=': 9,
        '>': 9, '>=': 9, '+': 10, '-': 10, '*': 11, '/': 11}
PREFIX = {'[]': 6, '<>': 6, '!': 12, 'X': 13}
WORDS = {'G': '[]', 'F': '<>', 'X': 'X', 'next': 'X', 'U': 'U', 'W': 'W', 'V': 'V', 'R': 'V'}


class Bad(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad(f'cannot read {s[i:i + 20]!r} in {s!r}')
        i = m.end()
        op, st, name, num = m.groups()
        if op is not None:
            out.append(('op', CANON.get(op, op)))
        elif st is not None:
            out.append(('str', st))
        elif name is not None:
            out.append(('op', WORDS[name]) if name in WORDS else ('name', name))
        else:
            out.append(('num', int(num)))
    return out


def parse(s):
    """Nested tuples: (op, args...), ('var', name), ('num', n), ('str', s), ('bool', b)."""
    t = tokens(s)
    pos = [0]

    def peek():
        return t[pos[0]] if pos[0] < len(t) else ('end', None)

    def expr(lo):
        e = prefix()
        while True:
            k, d = peek()
            if k == 'op' and d == "'":
                pos[0] += 1
                e = ('X', e)
                continue
            if k != 'op' or d not in PREC or PREC[d] <= lo:
                return e
            pos[0] += 1
            e = (d, e, expr(PREC[d]))

    def prefix():
        k, d = peek()
        pos[0] += 1
        if k == 'op' and d in PREFIX:
            # operators binding looser than d end its operand
            return (d, expr(PREFIX[d]))
        if k == 'op' and d == '-' and peek()[0] == 'num':
            n = peek()[1]
            pos[0] += 1
            return ('neg', ('num', n))
        if k == 'op' and d == '-':
            return ('neg', expr(12))
        if k == 'op' and d == '(' and peek() == ('name', 'ite'):
            pos[0] += 1
            es = [expr(0)]
            while peek() == ('op', ','):
                pos[0] += 1
                es.append(expr(0))
            if len(es) != 3 or peek() != ('op', ')'):
                raise Bad(f'malformed ite in {s!r}')
            pos[0] += 1
            return ('ite', *es)
        if k == 'op' and d == '(':
            e = expr(0)
            if peek() != ('op', ')'):
                raise Bad(f'missing ) in {s!r}')
            pos[0] += 1
            return e
        if k == 'name':
            if d.lower() in ('true', 'false'):
                return ('bool', d.lower() == 'true')
            return ('var', d)
        if k in ('num', 'str'):
            return (k, d)
        raise Bad(f'unexpected {d!r} in {s!r}')
    e = expr(0)
    if pos[0] != len(t):
        raise Bad(f'trailing text {t[pos[0]:]} in {s!r}')
    return e


_cache = {}


def P(s):
    if s not in _cache:
        if len(_cache) > 50000:
            _cache.clear()
        _cache[s] = parse(s)
    return _cache[s]


def ev(e, word, k=0):
    """Value of tree `e` (no U, W, V, [], <>) at position k of a list of valuations."""
    o = e[0]
    if o == 'var':
        return word[k][e[1]]
    if o in ('num', 'str', 'bool'):
        return e[1]
    if o == 'X':
        return ev(e[1], word, k + 1)
    if o == '!':
        return not ev(e[1], word, k)
    if o == 'neg':
        return -ev(e[1], word, k)
    a = ev(e[1], word, k)
    if o == '&&':
        return bool(a) and bool(ev(e[2], word, k))
    if o == '||':
        return bool(a) or bool(ev(e[2], word, k))
    if o == '->':
        return not a or bool(ev(e[2], word, k))
    b = ev(e[2], word, k)
    if o == '<->':
        return bool(a) == bool(b)
    if o == '^':
        return bool(a) != bool(b)
    if o == '=':
        return a == b and type(a) is type(b)
    if o == '!=':
        return not (a == b and type(a) is type(b))
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
            '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[o]()


def lasso(e, stem, loop):
    """List of values of tree `e` at each position of stem + loop (omega-word stem loop^w)."""
    word = stem + loop
    n, m = len(word), len(stem)
    nxt = lambda i: i + 1 if i + 1 < n else m
    o = e[0]
    if o in ('num', 'str', 'bool'):
        return [e[1]] * n
    if o == 'var':
        return [w[e[1]] for w in word]
    a = lasso(e[1], stem, loop)
    if o == 'X':
        return [a[nxt(i)] for i in range(n)]
    if o == '!':
        return [not x for x in a]
    if o == 'neg':
        return [-x for x in a]

    def fix(f, start):
        r = [start] * n
        while True:
            q = [f(i, r[nxt(i)]) for i in range(n)]
            if q == r:
                return r
            r = q
    if o == '[]':
        return fix(lambda i, x: bool(a[i]) and x, True)
    if o == '<>':
        return fix(lambda i, x: bool(a[i]) or x, False)
    b = lasso(e[2], stem, loop)
    if o == 'U':
        return fix(lambda i, x: bool(b[i]) or (bool(a[i]) and x), False)
    if o == 'W':
        return fix(lambda i, x: bool(b[i]) or (bool(a[i]) and x), True)
    if o == 'V':
        return fix(lambda i, x: bool(b[i]) and (bool(a[i]) or x), True)
    f = {'&&': lambda x, y: bool(x) and bool(y), '||': lambda x, y: bool(x) or bool(y),
         '->': lambda x, y: not x or bool(y), '<->': lambda x, y: bool(x) == bool(y),
         '^': lambda x, y: bool(x) != bool(y), '=': lambda x, y: x == y and type(x) is type(y),
         '!=': lambda x, y: not (x == y and type(x) is type(y)),
         '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
         '+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[o]
    return [f(x, y) for x, y in zip(a, b)]


def names(e, primed=False):
    """Set of (variable, under next operator)."""
    if e[0] == 'var':
        return {(e[1], primed)}
    if e[0] in ('num', 'str', 'bool'):
        return set()
    return set().union(*(names(x, primed or e[0] == 'X') for x in e[1:]))


def mentioned(s):
    return {v for v, _ in names(P(s))}
