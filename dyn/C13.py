"""Executable contract of translations (tulip.spec.translation)."""
import re
from dyn.base import finding, expect, Violation
from dyn import ltl
from tulip.spec import translation as ts, parser, GRSpec
from tulip.spec import ast as sast

RULE = ('random formulas over the operators of every target language (depth up to 4), as trees and as text, read back by a '
        'reader of that language and compared as trees (Python: evaluated in every valuation); operators outside a language '
        'must be refused; random GR(1) specifications over Boolean, integer and string variables: every section, domain and '
        'condition of the emitted text')
N = sast.nodes
BOOLV = ['p', 'q', 'r', 'Xa', 'e1']
INTV = ['x', 'y', 'n_1']
CMP = ['<', '<=', '=', '>=', '>', '!=']
# operators of the target, as (binary, unary, comparators, arithmetic)
LANGS = dict(
    jtlv=(['&', '|', '->', '<->', 'U'], ['!', 'G', 'F', 'X'], CMP, []),
    gr1c=(['&', '|', '->', '<->'], ['!', 'G', 'F', 'X'], CMP, []),
    slugs=(['&', '|', '->', '<->'], ['!', 'G', 'F', 'X'], CMP, ['+', '-']),
    promela=(['&', '|', '->', '<->', 'U', 'W', 'V', '^'], ['!', 'G', 'F', 'X'], CMP, ['+', '-', '*', '/']),
    smv=(['U'], ['G', 'F', 'X'], [], []),
    python=(['&', '|', '->', '<->', '^'], ['!'], CMP, ['+', '-']),
    wring=(['&', '|', '->', '<->', 'U', 'V'], ['!', 'G', 'F', 'X'], [], []))
ALLBIN = ['&', '|', '->', '<->', '^', 'U', 'W', 'V']
CANON = {'&': '&&', '|': '||', 'G': '[]', 'F': '<>'}


def term(rng, ar, d, lang):
    if ar and d > 0 and rng.random() < .4:
        return ['ari', rng.choice(ar), term(rng, ar, d - 1, lang), term(rng, ar, d - 1, lang)]
    if lang in ('gr1c', 'slugs') and rng.random() < .2:
        return ['un', 'X', ['var', rng.choice(INTV)]]
    if lang not in ('python',) and rng.random() < .05:
        return ['un', 'X', ['var', rng.choice(INTV)]]
    return rng.choice([['var', rng.choice(INTV)], ['num', rng.choice(['0', '1', '3', '12', '-2'])]])


def form(rng, lang, d, extra=()):
    b, u, c, ar = LANGS[lang]
    b, u = list(b) + [x for x in extra if x in ALLBIN], list(u)
    if d == 0 or rng.random() < .1:
        k = rng.random()
        if c and k < .35:
            return ['cmp', rng.choice(c), term(rng, ar, 1, lang), term(rng, ar, 1, lang)]
        if k < .9 or lang == 'smv':
            return ['var', rng.choice(BOOLV)]
        return ['bool', rng.choice(['True', 'False'])]
    if not b or rng.random() < .3:
        return ['un', rng.choice(u), form(rng, lang, d - 1, extra)]
    return ['bin', rng.choice(b), form(rng, lang, d - 1, extra), form(rng, lang, d - 1, extra)]


def node(t):
    k = t[0]
    if k in ('var', 'num', 'bool', 'str'):
        return {'var': N.Var, 'num': N.Num, 'bool': N.Bool, 'str': N.Str}[k](t[1])
    cls = {'un': N.Unary, 'bin': N.Binary, 'cmp': N.Comparator, 'ari': N.Arithmetic, 'ite': N.Operator}[k]
    return cls(t[1], *[node(x) for x in t[2:]])


def tup(t):
    """Tuples as of the independent reader."""
    k = t[0]
    if k == 'var':
        return ('var', t[1])
    if k == 'num':
        n = int(t[1])
        return ('num', n) if n >= 0 else ('neg', ('num', -n))
    if k == 'bool':
        return ('bool', t[1] == 'True')
    if k == 'str':
        return ('str', t[1])
    return (CANON.get(t[1], t[1]),) + tuple(tup(x) for x in t[2:])


def push(e, x=False):
    """Next moved to the variables; None if nested, or outside of the fragment (temporal operators under next)."""
    o = e[0]
    if o == 'var':
        return ('X', e) if x else e
    if o in ('num', 'bool', 'str', 'neg'):
        return e
    if o == 'X':
        return None if x else push(e[1], True)
    if o in ('[]', '<>') and x:
        return None
    r = [push(y, x) for y in e[1:]]
    return None if None in r else (o, *r)


def words(s, m):
    return re.sub(r"[A-Za-z_][\w.]*|\d+", lambda k: m.get(k.group(), k.group()), s)


def read(lang, s):
    """Tree of a text in the target language."""
    if lang == 'jtlv':
        bad = [v for v in re.findall(r'(?<![\w.])([A-Za-z_]\w*)(?![\w.])', s) if v not in ('TRUE', 'FALSE', 'next', 'U')]
        expect(not bad, f'{s!r}: names without player: {bad}')
        s = re.sub(r'\(([es])\.(\w+)\)', lambda m: f' {m.group(1)}.{m.group(2)} ', s)
        s = words(s, {'next': 'X', 'TRUE': 'True', 'FALSE': 'False', 'G': 'G_', 'F': 'F_', 'V': 'V_', 'W': 'W_'})
    elif lang in ('gr1c', 'slugs'):
        w = {'G': 'G_', 'F': 'F_', 'X': 'X_', 'U': 'U_', 'W': 'W_', 'V': 'V_', 'next': 'next_'}
        if lang == 'slugs':
            w.update({'TRUE': 'True', 'FALSE': 'False', 'True': 'True_', 'False': 'False_'})
        s = words(s, w)
    elif lang == 'promela':
        expect(not re.search(r'(?<![=<>!])=(?!=)', s), f'{s!r}: assignment instead of comparison')
        s = words(s.replace('==', '='), {'true': 'True', 'false': 'False', 'G': 'G_', 'F': 'F_', 'True': 'True_', 'False': 'False_'})
    elif lang == 'smv':
        expect('[]' not in s and '<>' not in s, f'{s!r}: operators of another language')
        s = words(s, {'W': 'W_'})
    elif lang == 'wring':
        s = re.sub(r'\((\w+)=1\)', lambda m: f'@{m.group(1)}@', s)
        expect(not re.search(r'[=&|<>\[\]](?!->|>)', s.replace('<->', '').replace('->', '')), f'{s!r}: foreign operators')
        bare = [v for v in re.findall(r'(?<!@)\b([A-Za-z_]\w*)\b(?!@)', s) if v not in 'GFXURV']
        expect(not bare, f'{s!r}: variables without value {bare}')
        s = s.replace('@', ' ').replace('+', '||').replace('*', '&&')
        s = re.sub(r'(?<![\w])([01])(?![\w])', lambda m: {'0': 'False', '1': 'True'}[m.group(1)], s)
        s = words(s, {'R': 'V'})
    return ltl.parse(s)


def valuations():
    import itertools
    for bs in itertools.product([False, True], repeat=3):
        for xs in itertools.product([-2, 0, 1, 3], repeat=2):
            v = dict(zip(BOOLV, bs + (bs[0] ^ bs[2], not bs[1])))
            v.update(zip(INTV, xs + (xs[0] + 1,)))
            yield v


def spec_case(rng, lang):
    doms = ['boolean', 'boolean', (0, 3), (-1, 2), ['a', 'b', 'c'], ['go', 'park']]
    if lang == 'wring':
        doms = ['boolean']
    elif lang == 'slugs':
        doms = ['boolean', (0, 3), (2, 5)]
    names = ['v0', 'v1', 'v2', 'v3', 'w_4']
    rng.shuffle(names)
    n = rng.randint(1, 5)
    vs = {v: rng.choice(doms) for v in names[:n]}
    env = {v: d for v, d in vs.items() if rng.random() < .4}
    sys_ = {v: d for v, d in vs.items() if v not in env}
    d = dict(env_vars=env, sys_vars=sys_)

    def atom(nxt):
        only = nxt is None
        v = rng.choice(sorted(cur[0]) if only else sorted(vs))
        nxt = nxt or ()
        D = vs[v]
        w = ['un', 'X', ['var', v]] if v in nxt and rng.random() < .5 else ['var', v]
        if D == 'boolean':
            return w
        op = rng.choice(CMP if isinstance(D, tuple) else ['=', '!='])
        val = ['num', str(rng.randint(D[0], D[1]))] if isinstance(D, tuple) else ['str', rng.choice(D)]
        return ['cmp', op, w, val]

    def f(nxt, dep):
        if dep == 0 or rng.random() < .2:
            return atom(nxt)
        if rng.random() < .25:
            x = f(nxt, dep - 1)
            return ['un', '!', x]
        if nxt and rng.random() < .2:
            cur[0] = nxt
            return ['un', 'X', f(None, dep - 1)]
        return ['bin', rng.choice(['&', '|', '->', '<->']), f(nxt, dep - 1), f(nxt, dep - 1)]
    conds = {}
    cur = [()]
    for p in ('env', 'sys'):
        for q in ('init', 'safety', 'prog'):
            conds[f'{p}_{q}'] = [f((sorted(env) if p == 'env' else sorted(vs)) if q == 'safety' else (), rng.choice([0, 1, 2])) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    return d, conds


def cases(tier, rng):
    n = 250 if tier == 'quick' else 3000
    for i in range(n):
        for lang in LANGS:
            yield dict(f='form', lang=lang, t=form(rng, lang, rng.choice([1, 2, 3, 4])), text=rng.random() < .5)
            if i % 6 == 0:
                yield dict(f='refuse', lang=lang, t=form(rng, 'promela', 3), seed=rng.randrange(1 << 30))
        for lang in ('gr1c', 'slugs', 'jtlv', 'wring'):
            d, c = spec_case(rng, lang)
            yield dict(f='spec', lang=lang, env=d['env_vars'], sys=d['sys_vars'], conds=c)
    for lang in LANGS:
        for op in ALLBIN:
            yield dict(f='op', lang=lang, t=['bin', op, ['var', 'p'], ['var', 'q']])
        for op in ['+', '-', '*', '/']:
            yield dict(f='op', lang=lang, t=['cmp', '=', ['ari', op, ['var', 'x'], ['num', '2']], ['var', 'y']])
        yield dict(f='op', lang=lang, t=['bool', 'True'])
        yield dict(f='op', lang=lang, t=['ite', 'ite', ['var', 'p'], ['var', 'q'], ['var', 'r']])
        for op in ['!', 'X', 'G', 'F']:
            yield dict(f='op', lang=lang, t=['un', op, ['var', 'p']])


class Kw:
    """Variables of the environment: p, x, Xa."""
    env = dict(p='boolean', x=(0, 3), Xa='boolean')
    sys = dict(q='boolean', r='boolean', e1='boolean', y=(0, 3), n_1=(0, 3))


def players(e):
    if e[0] == 'var':
        return ('var', ('e.' if e[1] in Kw.env else 's.') + e[1])
    return (e[0],) + tuple(players(x) if isinstance(x, tuple) else x for x in e[1:])


def emit(lang, u):
    return ts.translate_ast(u, lang).flatten(env_vars=Kw.env, sys_vars=Kw.sys)


def text_of(t):
    """Fully parenthesized text."""
    k = t[0]
    if k in ('var', 'num', 'bool'):
        return t[1]
    if k == 'str':
        return f'"{t[1]}"'
    if k == 'un':
        return f'({t[1]} {text_of(t[2])})'
    return f'({text_of(t[2])} {t[1]} {text_of(t[3])})'


def same(lang, t, s):
    want = tup(t)
    if lang == 'python':
        code = compile(s.strip(), 'text', 'eval')
        for v in valuations():
            a, b = bool(eval(code, {}, dict(v))), bool(pyev(want, v))
            expect(a == b, f'{s!r} is {a}, the formula {want} is {b} for {v}')
        return
    if lang in ('gr1c', 'slugs'):
        want = push(want)
        if want is None:
            return
    if lang == 'jtlv':
        want = players(want)
    try:
        got = read(lang, s)
    except ltl.Bad as e:
        raise Violation(f'{lang} text {s!r} of {want} is malformed: {e}')
    expect(got == want, f'{lang}: {want}\nis printed as {s!r}, which reads\n{got}')


def pyev(e, v):
    o = e[0]
    if o == 'var':
        return v[e[1]]
    if o in ('num', 'bool', 'str'):
        return e[1]
    if o == 'neg':
        return -e[1][1]
    a = [pyev(x, v) for x in e[1:]]
    if o == '!':
        return not a[0]
    x, y = a
    return {'&&': lambda: bool(x) and bool(y), '||': lambda: bool(x) or bool(y), '->': lambda: not x or bool(y),
            '<->': lambda: bool(x) == bool(y), '^': lambda: bool(x) != bool(y), '=': lambda: x == y, '!=': lambda: x != y,
            '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '+': lambda: x + y,
            '-': lambda: x - y, '*': lambda: x * y}[o]()


def ops_of(t):
    if t[0] in ('var', 'num', 'bool', 'str'):
        return {'bool'} if t[0] == 'bool' else set()
    return {t[1]}.union(*[ops_of(x) for x in t[2:]])


MISSING = {('smv', o): 'smv-boolean' for o in ('bool', '!', '&', '|', '->', '<->', '^', '=', 'V', '+', '-', '*', '/')}
MISSING.update({('python', '*'): 'python-times', ('python', '/'): 'python-times', ('wring', '^'): 'wring-xor'})
MSG = {'smv-boolean': 'translation to SMV refuses (KeyError) every formula with Boolean constants or connectives, comparisons or release '
       '(tulip/spec/translation.py make_smv_nodes)',
       'python-times': 'translation to Python accepts * and / and then raises KeyError (make_python_nodes)',
       'wring-xor': 'exclusive or is declared for WRING under the key xor, so ^ raises KeyError (make_wring_nodes)'}


def check(c):
    f, lang, t = c['f'], c['lang'], c.get('t')
    if f == 'form':
        u = parser.parse(text_of(t)) if c['text'] else node(t)
        same(lang, t, emit(lang, u))
    elif f in ('refuse', 'op'):
        b, un, cm, ar = LANGS[lang]
        known = set(b) | set(un) | set(cm) | set(ar)
        ops = ops_of(t)
        if lang != 'smv':
            known.add('bool')
        try:
            s = emit(lang, node(t))
        except (KeyError, AssertionError, ValueError, TypeError, AttributeError) as e:
            if ops <= known:
                raise Violation(f'{lang} refuses {t}: {type(e).__name__}: {e}')
            if f == 'op':
                for o in sorted(ops - known):
                    if (lang, o) in MISSING:
                        k = MISSING[lang, o]
                        finding(k, MSG[k])
            return
        # accepted: then it must be right
        if lang == 'promela':
            if 'ite' in ops:
                finding('promela-ite', 'ternary conditionals are emitted as `( ite a, b, c )`, which is not SPIN syntax '
                        '(tulip/spec/translation.py make_promela_nodes)')
                return
            if ops & {'&', '|'} and re.search(r'(?<!&)&(?!&)|(?<![|])[|](?![|])', s):
                finding('promela-bitwise', 'conjunction and disjunction are emitted as & and |, which SPIN 6.5 reads as bitwise '
                        'operators over the operands: `([] p) & (<> q)` is not the conjunction (make_promela_nodes)')
        if lang == 'python' and '/' in ops:
            return
        expect(lang != 'python' or not ops & {'X', 'G', 'F', 'U', 'V', 'W'}, f'temporal operators in Python: {s!r}')
        same(lang, t, s)
    else:
        spec(c, lang)


def spec(c, lang):
    dom = lambda d: tuple(d) if isinstance(d, list) and all(isinstance(x, int) for x in d) else d
    env = {k: dom(v) for k, v in c['env'].items()}
    sys_ = {k: dom(v) for k, v in c['sys'].items()}
    s = GRSpec(env_vars=dict(env), sys_vars=dict(sys_), moore=False, plus_one=False, qinit='\\A \\A',
               **{k: [text_of(x) for x in v] for k, v in c['conds'].items()})
    out = ts.translate(s, lang)
    doms = {**env, **sys_}
    want = {}
    for k, v in c['conds'].items():
        want[k] = [ints(tup(x), doms) for x in v]
        if lang in ('gr1c', 'slugs'):
            want[k] = [push(x) for x in want[k]]
            if None in want[k]:
                return
        if lang == 'jtlv':
            want[k] = [jt(x, env) for x in want[k]]
    if lang == 'gr1c':
        gr1c(out, env, sys_, want)
    elif lang == 'slugs':
        slugs(out, env, sys_, want)
    elif lang == 'jtlv':
        jtlv(out, want)
    else:
        wring(out, want)


def jt(e, env):
    if e[0] == 'var':
        return ('var', ('e.' if e[1] in env else 's.') + e[1])
    return (e[0],) + tuple(jt(x, env) if isinstance(x, tuple) else x for x in e[1:])


def var_in(e):
    return e[1] if e[0] == 'var' else var_in(e[1])


def ints(e, doms):
    """String constants by their positions."""
    if e[0] in ('=', '!=') and e[2][0] == 'str':
        return (e[0], e[1], ('num', doms[var_in(e[1])].index(e[2][1])))
    return (e[0],) + tuple(ints(x, doms) if isinstance(x, tuple) else x for x in e[1:])


def bounds(d):
    return d if d == 'boolean' else tuple(d) if isinstance(d, tuple) else (0, len(d) - 1)


def split_top(s, sep):
    out, dep, cur, i = [], 0, '', 0
    while i < len(s):
        ch = s[i]
        dep += (ch == '(') - (ch == ')')
        if dep == 0 and s.startswith(sep, i) and s[i - 1:i + 2] != '<->':
            out.append(cur)
            cur = ''
            i += len(sep)
            continue
        cur += ch
        i += 1
    return out + [cur]


def gr1c(out, env, sys_, want):
    secs = re.findall(r'([A-Z]+)\s*:([^;]*);', out)
    rest = re.sub(r'([A-Z]+)\s*:([^;]*);', '', out).strip()
    expect(not rest, f'text outside sections: {rest!r}')
    names = [n for n, _ in secs]
    order = ['ENV', 'SYS', 'ENVINIT', 'ENVTRANS', 'ENVGOAL', 'SYSINIT', 'SYSTRANS', 'SYSGOAL']
    expect(sorted(names) == sorted(order), f'sections {names}')
    d = dict(secs)
    for n, vs in (('ENV', env), ('SYS', sys_)):
        got = {}
        left = re.sub(r'([A-Za-z_]\w*)(\s*\[\s*(-?\d+)\s*,\s*(-?\d+)\s*\])?', lambda m: got.__setitem__(
            m.group(1), 'boolean' if m.group(2) is None else (int(m.group(3)), int(m.group(4)))) or '', d[n]).strip()
        expect(not left, f'variables {d[n]!r}')
        expect(got == {k: bounds(v) for k, v in vs.items()}, f'{n}: {got} for {vs}')
    for n, k, pre in (('ENVINIT', 'env_init', ''), ('ENVTRANS', 'env_safety', '[]'), ('ENVGOAL', 'env_prog', '[]<>'),
                      ('SYSINIT', 'sys_init', ''), ('SYSTRANS', 'sys_safety', '[]'), ('SYSGOAL', 'sys_prog', '[]<>')):
        ps = [x.strip() for x in split_top(d[n], '&')] if d[n].strip() else []
        got = []
        for x in ps:
            expect(x.startswith(pre + '(') , f'{n}: {x!r} does not start with {pre}(')
            got.append(read('gr1c', x[len(pre):]))
        expect(got == want[k], f'{n}: conditions\n{got}\nfor\n{want[k]}')


def slugs(out, env, sys_, want):
    secs = re.split(r'^\[([A-Z_]+)\]$', out, flags=re.M)
    expect(not secs[0].strip(), f'text before the first section {secs[0]!r}')
    names = secs[1::2]
    expect(sorted(names) == sorted(['INPUT', 'OUTPUT', 'ENV_TRANS', 'ENV_LIVENESS', 'ENV_INIT', 'SYS_TRANS', 'SYS_LIVENESS',
                                    'SYS_INIT']), f'sections {names}')
    d = dict(zip(names, secs[2::2]))
    for n, vs in (('INPUT', env), ('OUTPUT', sys_)):
        got = {}
        for line in d[n].split('\n'):
            if not line.strip():
                continue
            m = re.fullmatch(r'\s*([A-Za-z_]\w*)(\s*:\s*(-?\d+)\s*\.\.\.\s*(-?\d+))?\s*', line)
            expect(m, f'{n}: {line!r}')
            expect(m.group(1) not in got, f'{n}: {m.group(1)} twice')
            got[m.group(1)] = 'boolean' if m.group(2) is None else (int(m.group(3)), int(m.group(4)))
        expect(got == {k: bounds(v) for k, v in vs.items()}, f'{n}: {got} for {vs}')
    for n, k in (('ENV_TRANS', 'env_safety'), ('ENV_LIVENESS', 'env_prog'), ('SYS_TRANS', 'sys_safety'),
                 ('SYS_LIVENESS', 'sys_prog')):
        got = [read('slugs', x) for x in d[n].split('\n') if x.strip()]
        expect(got == want[k], f'{n}: conditions\n{got}\nfor\n{want[k]}')
    for n, k in (('ENV_INIT', 'env_init'), ('SYS_INIT', 'sys_init')):
        ls = [x for x in d[n].split('\n') if x.strip()]
        expect(len(ls) <= 1, f'{n}: {ls}')
        got = [read('slugs', x) for x in split_top(ls[0].strip(), '&')] if ls else []
        expect(got == want[k], f'{n}: conditions\n{got}\nfor\n{want[k]}')


def parts_of(s, prefixes, lang, sep):
    """Conditions of a conjunction by prefix."""
    out = {p: [] for p in prefixes}
    for x in split_top(s, sep):
        x = x.strip()
        if not x:
            continue
        p = max((p for p in prefixes if re.sub(r'\s', '', x).startswith(p + '(')), key=len)
        x = x[len(p):]
        n = p.count('(')
        if n:
            x = x[:-n]
        out[p].append(read(lang, x))
    return out


def jtlv(out, want):
    expect(isinstance(out, tuple) and len(out) == 2, f'a pair, not {out!r}')
    for side, s in zip(('env', 'sys'), out):
        s = re.sub(r'--.*', '', s)
        parts = [x.strip() for x in split_top(s, '&')]
        expect(all(parts) or not s.strip(), f'{side}: an empty conjunct in {s!r}')
        got = parts_of(s, ['', '[]', '[]<>'], 'jtlv', '&')
        for p, q in (('', 'init'), ('[]', 'safety'), ('[]<>', 'prog')):
            expect(got[p] == want[f'{side}_{q}'], f'{side}_{q}: {got[p]} for {want[f"{side}_{q}"]}')
        expect(not re.search(r'next\s+\(', ''.join(x for x in parts if x.startswith('[](')) ), 'next is followed by (')


def wring(out, want):
    s = out.strip()
    env = any(want[f'env_{q}'] for q in ('init', 'safety', 'prog'))
    sys_ = any(want[f'sys_{q}'] for q in ('init', 'safety', 'prog'))
    e = read('wring', s)
    G = lambda x: ('[]', x)
    F = lambda x: ('<>', x)

    def side(p):
        return want[f'{p}_init'] + [G(x) for x in want[f'{p}_safety']] + [G(F(x)) for x in want[f'{p}_prog']]
    if not sys_:
        expect(e == ('[]', ('bool', True)), f'no guarantee, but {s!r}')
        return
    if env:
        expect(e[0] == '->', f'{s!r} is not an implication')
        a, g = e[1], e[2]
        flat(a, side('env'), s)
    else:
        g = e
    flat(g, side('sys'), s)


def flat(e, want, s):
    """e is the conjunction of `want` (associated to the left)."""
    r = want[0]
    for x in want[1:]:
        r = ('&&', r, x)
    expect(e == r, f'{s!r}: {e} for {want}')
