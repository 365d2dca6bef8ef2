"""Executable contract of tulip.spec.form: GRSpec, LTL."""
import copy
import itertools
import os
import re
import tempfile
from dyn.base import finding, expect, raises, Violation
from dyn import ltl
from tulip.spec import form

RULE = ('random specifications over 2 Boolean, 1 integer and 1 string-valued variable per side, 0-3 conditions per part, '
        'given as text, list, tuple, set or generator; the printed formula is evaluated on random ultimately periodic words; '
        'the compiled initial condition in all valuations (including after edits); conjunctions with and without conflicts; '
        'files of LTL formulas with every kind of domain')
PARTS = [f'{p}_{q}' for p in ('env', 'sys') for q in ('init', 'safety', 'prog')]
DOM = {'a': 'boolean', 'b': 'boolean', 'n': (0, 2), 's': ['park', 'go', 'stop'],
       'x': 'boolean', 'y': 'boolean', 'm': (-1, 1), 'u': ['park', 'lot']}
ENV, SYS = 'abns', 'xymu'
INIT = ['a', 'b', '! a', 'a && b', 'a || x', 'x -> y', 'x <-> a', 'n = 1', 'n < 2', 'm = 0', 's = "go"', 'u = "lot"',
        's = "park" || x', 'u != "park" -> a', 'True', 'False', 'a ^ x', 'n + m = 1', '!(x && y)', '"stop" = s']
STEP = INIT + ["x' -> a", "X (y)", 'x -> X(!y)', "a' = x", "n' = n", 'X X x']


def pick(rng, pool, n):
    return [rng.choice(pool) for _ in range(n)]


def rspec(rng, dup=True):
    d = {}
    for p in PARTS:
        n = rng.choice([0, 0, 1, 1, 2, 3])
        pool = INIT if p.endswith('init') else STEP
        d[p] = list(dict.fromkeys(pick(rng, pool, n)))
    return d


def cases(tier, rng):
    N = 1500 if tier == 'quick' else 20000
    for i in range(N):
        yield dict(f='spec', parts=rspec(rng), how=[rng.choice(['list', 'str', 'tuple', 'set', 'gen', 'dict']) for _ in PARTS],
                   vars=rng.choice(['dict', 'dict', 'set']), seed=rng.randrange(1 << 30),
                   fl=[rng.random() < .5, rng.random() < .5, rng.choice([r'\A \A', r'\A \E', r'\E \A', r'\E \E'])])
        yield dict(f='or', a=rspec(rng), b=rspec(rng), va=[rng.sample('abns', rng.randint(0, 4)), rng.sample('xymu', rng.randint(0, 4))],
                   vb=[rng.sample('abns', rng.randint(0, 4)), rng.sample('xymu', rng.randint(0, 4))],
                   fl=[rng.random() < .5, rng.random() < .5, rng.choice([r'\A \A', r'\E \A'])],
                   conflict=rng.choice([None, None, None, 'envdom', 'sysdom', 'side', 'side2', 'moore', 'plus', 'qinit']))
        yield dict(f='init', parts=rspec(rng), no_str=rng.random() < .5, edit=rng.choice([0, 1, 2]), new=rng.choice(INIT),
                   again=rng.random() < .5)
        yield dict(f='ltl', formula=rng.choice(STEP) + rng.choice(['', ' && [](a)', ' -> []<>(x)', ' U x']),
                   inp=[rng.randrange(7) for _ in range(rng.randint(0, 3))],
                   out=[rng.randrange(7) for _ in range(rng.randint(0, 3))],
                   ts=rng.random() < .3, via=rng.choice(['loads', 'path', 'file']))
        if i % 3 == 0:
            yield dict(f='grsave', parts=rspec(rng), via=rng.choice(['loads', 'path', 'file']))


def wrap(how, l):
    return {'list': list, 'tuple': tuple, 'set': set, 'gen': iter, 'dict': dict.fromkeys,
            'str': lambda x: x[0] if len(x) == 1 else ('' if not x else list(x))}[how](l)


def word(rng, n):
    out = []
    for _ in range(n):
        d = {}
        for k, v in DOM.items():
            d[k] = rng.random() < .5 if v == 'boolean' else rng.choice(v) if isinstance(v, list) else rng.randint(*v)
        out.append(d)
    return out


def meaning(parts, stem, loop):
    def val(p):
        r = True
        for x in parts[p]:
            v = ltl.lasso(ltl.P(x), stem, loop)
            r = r and bool(v[0] if p.endswith('init') else all(v) if p.endswith('safety') else any(v[len(stem):]))
        return r
    return (not (val('env_init') and val('env_safety') and val('env_prog'))
            or (val('sys_init') and val('sys_safety') and val('sys_prog')))


def same(s, parts, ev, sv, fl, what):
    for p in PARTS:
        v = getattr(s, p)
        expect(isinstance(v, list) and sorted(v) == sorted(parts[p]), lambda: f'{what}: {p} = {v}, not {parts[p]}')
    expect(s.env_vars == ev and s.input_variables == ev, lambda: f'{what}: inputs {s.env_vars} / {s.input_variables}, not {ev}')
    expect(s.sys_vars == sv and s.output_variables == sv, lambda: f'{what}: outputs {s.sys_vars} / {s.output_variables}, not {sv}')
    expect([s.moore, s.plus_one, s.qinit] == fl, lambda: f'{what}: flags {[s.moore, s.plus_one, s.qinit]}, not {fl}')


def mk(parts, ev, sv, fl=(True, True, r'\A \A')):
    return form.GRSpec(env_vars=ev, sys_vars=sv, moore=fl[0], plus_one=fl[1], qinit=fl[2], **copy.deepcopy(parts))


def sub(ks):
    return {k: copy.deepcopy(DOM[k]) for k in ks}


def check(c):
    {'spec': c_spec, 'or': c_or, 'init': c_init, 'ltl': c_ltl, 'grsave': c_grsave}[c['f']](c)


def c_spec(c):
    import random
    rng = random.Random(c['seed'])
    parts = c['parts']
    raw = {p: wrap(h, parts[p]) for p, h in zip(PARTS, c['how'])}
    if c['vars'] == 'dict':
        ev, sv = sub(ENV), sub(SYS)
        gev, gsv = ev, sv
    else:
        ev, sv = dict.fromkeys('abns', 'boolean'), dict.fromkeys('xymu', 'boolean')
        gev, gsv = set(ev), list(sv)
    before = {p: copy.copy(v) if not hasattr(v, '__next__') else None for p, v in raw.items()}
    s = form.GRSpec(env_vars=gev, sys_vars=gsv, moore=c['fl'][0], plus_one=c['fl'][1], qinit=c['fl'][2], **raw)
    same(s, parts, ev, sv, c['fl'], 'GRSpec')
    t = s.copy()
    same(t, parts, ev, sv, c['fl'], 'copy')
    txt = str(s)
    expect(txt == s.to_canon() == str(t), 'textual and canonical form agree')
    for _ in range(4):
        stem, loop = word(rng, rng.randint(0, 2)), word(rng, rng.randint(1, 3))
        got = bool(ltl.lasso(ltl.P(txt), stem, loop)[0])
        expect(got == meaning(parts, stem, loop), lambda: f'{txt} is {got} on {stem} {loop}')
    # independence
    for p in PARTS:
        getattr(t, p).append('a')
    t.env_vars['new'] = 'boolean'
    t.sys_vars['new2'] = (0, 1)
    if isinstance(t.sys_vars.get('u'), list):
        t.sys_vars['u'].append('new')
    same(s, parts, ev, sv, c['fl'], 'original after editing the copy')
    for p, v in raw.items():
        expect(before[p] is None or v == before[p], f'argument {p} changed')
    if c['vars'] == 'dict':
        expect(ev == sub(ENV) and sv == sub(SYS), 'arguments changed')


def c_or(c):
    conf, fl = c['conflict'], c['fl']
    fb = list(fl)
    ea, sa, eb, sb = sub(c['va'][0]), sub(c['va'][1]), sub(c['vb'][0]), sub(c['vb'][1])
    if conf == 'envdom':
        ea['n'], eb['n'] = (0, 2), (0, 3)
    elif conf == 'sysdom':
        sa['u'], sb['u'] = ['park', 'lot'], ['park']
    elif conf == 'side':
        ea['w'] = sb['w'] = 'boolean'
    elif conf == 'side2':
        sa['w'] = eb['w'] = 'boolean'
    elif conf is not None:
        i = ['moore', 'plus', 'qinit'].index(conf)
        fb[i] = not fb[i] if i < 2 else r'\A \E'
    A, B = mk(c['a'], ea, sa, fl), mk(c['b'], eb, sb, fb)
    if conf is not None:
        if conf in ('side', 'side2'):
            try:
                A | B
                finding('or-input-output', f'w is input and output of the operands: {conf}')
            except Exception as e:
                if isinstance(e, Violation):
                    raise
        else:
            raises(Exception, lambda: A | B, f'conflict: {conf}')
    else:
        s = A | B
        same(s, {p: c['a'][p] + c['b'][p] for p in PARTS}, {**ea, **eb}, {**sa, **sb}, fl, 'conjunction')
        for p in PARTS:
            getattr(s, p).append('a')
        s.env_vars['new'] = s.sys_vars['new2'] = 'boolean'
    same(A, c['a'], ea, sa, fl, 'left operand')
    same(B, c['b'], eb, sb, fb, 'right operand')


def c_init(c):
    parts = copy.deepcopy(c['parts'])
    s = mk(parts, sub(ENV), sub(SYS))

    def test():
        code = s.compile_init(c['no_str'])
        used = sorted(set().union(set(), *(ltl.mentioned(x) for p in ('env_init', 'sys_init') for x in parts[p])))
        doms = [[False, True] if DOM[k] == 'boolean' else DOM[k] if isinstance(DOM[k], list)
                else range(DOM[k][0], DOM[k][1] + 1) for k in used]
        for vs in itertools.islice(itertools.product(*doms), 80):
            v = dict(zip(used, vs))
            want = not all(ltl.ev(ltl.P(x), [v]) for x in parts['env_init']) \
                or all(ltl.ev(ltl.P(x), [v]) for x in parts['sys_init'])
            env = {k: DOM[k].index(x) if c['no_str'] and isinstance(DOM[k], list) else x for k, x in v.items()}
            try:
                got = eval(code, dict(env))
            except NameError as e:
                names = {x for p in ('env_init', 'sys_init') for f in parts[p] for x in re.findall(r'"(\w+)"', f)}
                if c['no_str'] or e.name not in names:
                    raise
                finding('compile-init-strings', f'{e}: {parts["env_init"]} -> {parts["sys_init"]}')
                return
            expect(bool(got) == bool(want), lambda: f'initial condition is {got} in {v}; {parts["env_init"]} -> {parts["sys_init"]}')
    test()
    if c['edit']:
        p = ['env_init', 'sys_init'][c['edit'] - 1]
        if c['again'] and parts[p]:
            parts[p].pop(0)
            getattr(s, p).pop(0)
        parts[p].append(c['new'])
        getattr(s, p).append(c['new'])
        test()
    same(s, parts, sub(ENV), sub(SYS), [True, True, r'\A \A'], 'specification after compiling')


DOMS = ['boolean', (0, 5), (-3, 2), {1, 3, 5}, {'park', 'go', 'stop'}, {7}, {-1, 2}]


def save_load(o, via, ts=False):
    txt = o.dumps(timestamp=ts)
    if via == 'loads':
        return form.LTL.loads(txt)
    fd, path = tempfile.mkstemp()
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        if via == 'path':
            try:
                return form.LTL.load(path)
            except ValueError as e:
                if 'invalid mode' not in str(e):
                    raise
                finding('ltl-load-mode', f'LTL.load(path): {e}')
        with open(path) as f:
            return form.LTL.load(f)
    finally:
        os.unlink(path)


def blanks(b):
    for d in (b.input_variables, b.output_variables):
        for k, v in d.items():
            if isinstance(v, set) and any(isinstance(x, str) and x != x.strip() for x in v):
                finding('ltl-loads-blank', f'domain of {k} is read as {v}')
                d[k] = {x.strip() if isinstance(x, str) else x for x in v}


def c_ltl(c):
    i = {f'in{k}': DOMS[d] for k, d in enumerate(c['inp'])}
    o = {f'out{k}': DOMS[d] for k, d in enumerate(c['out'])}
    a = form.LTL(c['formula'], i, o)
    b = save_load(a, c['via'], c['ts'])
    expect(b.formula == c['formula'], lambda: f'formula {b.formula!r}')
    blanks(b)
    expect(b.input_variables == i and b.output_variables == o, lambda: f'read {b!r}, saved {a!r}')


def c_grsave(c):
    s = mk(c['parts'], sub(ENV), sub(SYS))
    b = save_load(s, c['via'])
    expect(b.formula == s.to_canon(), lambda: f'formula {b.formula!r}')
    blanks(b)
    st = lambda d: {k: set(v) if isinstance(v, list) else v for k, v in d.items()}
    expect(b.input_variables == st(sub(ENV)) and b.output_variables == st(sub(SYS)), lambda: f'read {b!r}')
