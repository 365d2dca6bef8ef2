"""Executable contract of the LTL parser and printer (tulip.spec.parser, lexyacc, ast)."""
import random
import re
from dyn.base import finding, expect, raises, Violation
from dyn import ltl
from tulip.spec import parser, ast

RULE = ('random trees over every operator, depth up to 5 (operands of every kind); printed and parsed again; texts with '
        'random spellings of operators, random parentheses, blanks, line breaks and comments read by an independent reader '
        'of the documented precedence and associativity; full operator names in any case; malformed texts in between')
N = ast.nodes
BIN = ['&', '|', '^', '->', '<->', 'U', 'W', 'V']
CMP = ['<', '<=', '=', '>=', '>', '!=']
ARI = ['+', '-', '*', '/']
UN = ['!', 'X', 'G', 'F']
SPELL = {'&': ['&', '&&', '/\\'], '|': ['|', '||', '\\/'], '^': ['^'], '->': ['->', '=>'], '<->': ['<->', '<=>'],
         'U': ['U'], 'W': ['W'], 'V': ['V', 'R'], '<': ['<'], '<=': ['<=', '=<'], '=': ['='], '>=': ['>='], '>': ['>'],
         '!=': ['!=', '/='], '!': ['!', '~'], 'X': ['X', 'next', "'"], 'G': ['G', '[]'], 'F': ['F', '<>']}
# spellings that the parser keeps (known), or does not read
RAW = {'=>': '->', '<=>': '<->', '=<': '<=', '/=': '!=', '~': '!'}
FULL = {'X': ['next'], 'G': ['always'], 'F': ['eventually'], 'U': ['until', 'stronguntil'], 'W': ['weakuntil', 'unless'],
        'V': ['release'], '->': ['implies'], '<->': ['equivalent'], '!': ['not'], '&': ['and'], '|': ['or']}
NAMES = ['a', 'b', 'p1', 'x_y', 'Xp', 'Gq', 'U1', 'nextval', 'room.door', 'v:w', '_z', 'FF', 'ite1', 'W_', 'Vx', 'R1', 'Truex']
OPS = {'&&': '&', '||': '|', '[]': 'G', '<>': 'F'}


def tree(rng, d):
    """Random tree as nested lists."""
    k = rng.random()
    if d == 0 or k < .12:
        k = rng.random()
        if k < .62:
            return ['var', rng.choice(NAMES)]
        if k < .78:
            return ['num', rng.choice(['0', '1', '7', '12', '-3', '-10', '007'])]
        if k < .9:
            return ['bool', rng.choice(['True', 'False'])]
        return ['str', rng.choice(['go', 'p1', 'a.b', 'X1'])]
    k = rng.random()
    if k < .28:
        return ['un', rng.choice(UN), tree(rng, d - 1)]
    if k < .68:
        return ['bin', rng.choice(BIN), tree(rng, d - 1), tree(rng, d - 1)]
    if k < .8:
        return ['cmp', rng.choice(CMP), tree(rng, d - 1), tree(rng, d - 1)]
    if k < .9:
        return ['ari', rng.choice(ARI), tree(rng, d - 1), tree(rng, d - 1)]
    if k < .95:
        return ['ite', 'ite', tree(rng, d - 1), tree(rng, d - 1), tree(rng, d - 1)]
    return ['ari', '<<>>', tree(rng, d - 1), ['num', rng.choice(['1', '8'])]]


def node(t):
    k = t[0]
    if k in ('var', 'num', 'bool', 'str'):
        return {'var': N.Var, 'num': N.Num, 'bool': N.Bool, 'str': N.Str}[k](t[1])
    cls = {'un': N.Unary, 'bin': N.Binary, 'cmp': N.Comparator, 'ari': N.Arithmetic, 'ite': N.Operator}[k]
    return cls(t[1], *[node(x) for x in t[2:]])


def back(u):
    """Tree of nested lists of an AST."""
    k = {N.Var: 'var', N.Num: 'num', N.Bool: 'bool', N.Str: 'str', N.Unary: 'un', N.Binary: 'bin', N.Comparator: 'cmp',
         N.Arithmetic: 'ari', N.Operator: 'ite'}[type(u)]
    if k in ('var', 'num', 'bool', 'str'):
        expect(u.type == k, f'type {u.type} of a node of class {type(u).__name__}')
        return [k, u.value]
    expect(u.type == 'operator', f'type {u.type} of an operator')
    return [k, u.operator] + [back(x) for x in u.operands]


def size(t):
    return 1 + sum(size(x) for x in t[2:]) if t[0] not in ('var', 'num', 'bool', 'str') else 1


def swap(t, m):
    """Replace operators."""
    if t[0] in ('var', 'num', 'bool', 'str'):
        return list(t)
    return [t[0], m.get(t[1], t[1])] + [swap(x, m) for x in t[2:]]


def strs(t, f=None):
    """Replace strings by variables."""
    if t[0] == 'str':
        return ['var', t[1]]
    if t[0] in ('var', 'num', 'bool'):
        return t
    return t[:2] + [strs(x) for x in t[2:]]


def toks(t, rng, full=False):
    """Tokens of a text; parentheses at random."""
    k = t[0]
    if k == 'num':
        return ['-', t[1][1:]] if t[1].startswith('-') else [t[1]]
    if k == 'bool':
        return [rng.choice([t[1], t[1].upper(), t[1].lower()])]
    if k == 'str':
        return ['"', t[1], '"']
    if k == 'var':
        return [t[1]]
    ws = [toks(x, rng, full) for x in t[2:]]
    if k == 'ite':
        return ['(', 'ite', *ws[0], ',', *ws[1], ',', *ws[2], ')']
    if t[1] == '<<>>':
        return ['(', '(', *ws[0], ')', '<<>>', *ws[1], ')']
    op = rng.choice(SPELL[t[1]]) if t[1] in SPELL else t[1]
    if full and t[1] in FULL and rng.random() < .7:
        op = rng.choice(FULL[t[1]])
        op = rng.choice([op, op.upper(), op.title()])
    if k == 'un':
        r = ws[0] + [op] if op == "'" else [op] + ws[0]
    else:
        r = ws[0] + [op] + ws[1]
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
        r = ['(', *r, ')']
    return r


def text(ts, rng):
    out = ''
    for i, w in enumerate(ts):
        if i:
            p = ts[i - 1]
            word = lambda x: bool(re.match(r'[\w.:]', x[-1])) 
            free = (word(p) != bool(re.match(r'[\w.:]', w[0]))) or p in '()",' or w in '()",'
            if p == '"' or w == '"':
                sep = rng.choice(['', '', ' '])
            elif free:
                sep = rng.choice(['', ' ', '  '])
            else:
                sep = rng.choice([' ', '  ', '\t', '\n', ' # note [] a -> (\n'])
            out += sep
        out += w
    return out


def of_ltl(e):
    """Nested lists of a tree of the independent reader."""
    o = e[0]
    if o == 'var':
        return ['var', e[1]]
    if o == 'num':
        return ['num', str(e[1])]
    if o == 'bool':
        return ['bool', str(e[1])]
    if o == 'str':
        return ['str', e[1].strip()]
    if o == 'neg':
        assert e[1][0] == 'num', e
        return ['num', f'-{e[1][1]}']
    op = OPS.get(o, o)
    k = ('ite' if op == 'ite' else 'un' if op in UN else 'bin' if op in BIN else 'cmp' if op in CMP else 'ari')
    return [k, op] + [of_ltl(x) for x in e[1:]]


def cases(tier, rng):
    n = 2500 if tier == 'quick' else 30000
    for i in range(n):
        t = tree(rng, rng.choice([1, 2, 2, 3, 3, 4, 5]))
        yield dict(f='print', t=t)
        ts = toks(t, rng)
        yield dict(f='read', s=text(ts, rng))
        if i % 3 == 0:
            yield dict(f='full', s=text(toks(t, rng, True), rng))
        if i % 20 == 0:
            k = rng.randrange(len(ts) + 1)
            bad = ts[:k] + [rng.choice([')', '&&', 'U', '(', ','])] + ts[k:]
            yield dict(f='bad', s=text(bad, rng), then=text(ts, rng))


def strip0(t):
    if t[0] == 'num':
        return ['num', str(int(t[1]))]
    if t[0] in ('var', 'bool', 'str'):
        return t
    return t[:2] + [strip0(x) for x in t[2:]]


def rparse(s, **kw):
    """Parse s; known differences of spellings are recorded."""
    want = strip0(of_ltl(ltl.parse(re.sub(r'#.*', '', s) if 'full' not in kw else kw['full'])))
    fo = 'full' in kw
    code = re.sub(r'#.*', '', s)
    if re.search(r'(?<![\w.:])R(?![\w.:])', code):
        try:
            parser.parse(s, full_operators=fo)
        except Exception as e:
            finding('spelling-R', 'the documented operator R (release) is not read: syntax error; only V is '
                    '(tulip/spec/lexyacc.py Lexer.reserved)')
        s = re.sub(r'(?<![\w.:])R(?![\w.:])', 'V', s)
        code = re.sub(r'#.*', '', s)
    if re.search(r'[A-Za-z_][A-Za-z0-9_.:]*[\[\]\\^`]', code):
        fixed = re.sub(r'([A-Za-z_][A-Za-z0-9_.:]*)([\[\]\\^`])', r'\1 \2', s)
        try:
            same = back(parser.parse(s, full_operators=fo)) == back(parser.parse(fixed, full_operators=fo))
        except Exception:
            same = False
        if not same:
            finding('name-range', 'names swallow a following ^, \\, [ or ]: `a^b` and `a\\/b` are read as one name '
                    '(tulip/spec/lexyacc.py t_NAME, character range A-z)')
        s = fixed
    try:
        u = parser.parse(s, full_operators=fo)
    except Exception as e:
        raise Violation(f'well-formed text is not read: {type(e).__name__}: {str(e)[:300]}\n{s!r}')
    got = strip0(back(u))
    if got != want:
        g2 = swap(got, RAW)
        if g2 == want:
            try:
                u.flatten()
                printed = True
            except KeyError:
                printed = False
            finding('spelling-raw', 'the spellings =>, <=>, /=, =<, ~ of operators are kept in the tree, so it differs from '
                    'the tree of ->, <->, !=, <=, ! and printing it raises KeyError (tulip/spec/lexyacc.py)')
            return None
    expect(got == want, f'text {s!r} is read as\n{got}, not\n{want}')
    return u


def check(c):
    f = c['f']
    if f == 'print':
        t = c['t']
        u = node(t)
        expect(back(u) == t, 'constructors')
        s = u.flatten()
        expect(len(u) == size(t), f'{len(u)} nodes, not {size(t)}')
        try:
            v = back(parser.parse(s))
        except Exception as e:
            raise Violation(f'{s!r} printed for {t} is not read: {e}')
        if v != t:
            if v == strs(t):
                finding('string-quotes', 'printing a tree drops the quotes of string constants, so they are read back as '
                        'variables (tulip/spec/ast.py StrSpec.flatten)')
                return
        expect(v == t, f'{s!r} printed for\n{t}\nis read as\n{v}')
        # the independent reader agrees on what was printed
        expect(strip0(of_ltl(ltl.parse(s))) == strip0(strs(t)), f'{s!r} printed for {t} means {of_ltl(ltl.parse(s))}')
    elif f == 'read':
        rparse(c['s'])
    elif f == 'full':
        s = c['s']
        plain = s
        for k, v in sorted(((w, op) for op, ws in FULL.items() for w in ws), key=lambda x: -len(x[0])):
            plain = re.sub(rf'(?i)(?<![\w]){k}(?![\w])', lambda m: ' ' + {'G': '[]', 'F': '<>'}.get(v, v) + ' ', plain)
        rparse(s, full=re.sub(r'#.*', '', plain))
    else:
        want = None
        try:
            ltl.parse(re.sub(r'#.*', '', c['s']))
            ok = True
        except ltl.Bad:
            ok = False
        except IndexError:
            ok = False
        if not ok:
            try:
                r = parser.parse(c['s'])
            except Exception:
                r = None
            if r is not None and not re.search(r'<<>>|-', c['s']) and not re.search(r'[A-Za-z_][A-Za-z0-9_.:]*[\[\]\\^`]', c['s']):
                raise Violation(f'malformed text {c["s"]!r} is read as {r.flatten()}')
        rparse(c['then'])
