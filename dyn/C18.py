"""Executable contract of the decoding of answers of solvers (tulip/interfaces)."""
from dyn.base import expect, raises, Violation
from tulip.interfaces import slugs, gr1c
from tulip.spec import form
import io
import json
import os
import shutil
import tempfile
import networkx as nx

RULE = ('random answers with up to 6 nodes over up to 4 Boolean and integer variables (domains up to 300, also of one value) and any order of '
        'variables: slugs JSON (solver call replaced by a recorder), gr1c JSON from text and files, tulipcon XML with three namespaces, compact or indented, '
        'with or without a strategy')
DOM = ['boolean', (0, 1), (0, 2), (0, 3), (0, 4), (1, 7), (2, 8), (0, 15), (3, 16), (0, 300), (0, 0), (5, 5)]


def cases(tier, rng):
    n = 1500 if tier == 'quick' else 20000
    names = ['x', 'y', 'loc', 'state', 'x0', 'initial', 'a_b']
    for _ in range(n):
        k = rng.randrange(1, 5)
        nn = rng.randrange(0, 7)
        yield dict(f=rng.choice('sbjjxx'), vars=[[v, rng.randrange(len(DOM)), rng.randrange(2)] for v in rng.sample(names, k)],
                   val=[[rng.randrange(301) for _ in range(k)] for _ in range(nn)], ids=rng.sample(range(40), nn),
                   e=[[rng.randrange(nn), rng.randrange(nn)] for _ in range(rng.randrange(3 * nn + 1))] if nn else [],
                   init=[rng.randrange(2) for _ in range(nn)], order=rng.randrange(10**6), how=rng.randrange(4), ns=rng.randrange(3),
                   io=rng.randrange(3), extra=rng.randrange(4), real=rng.random() < .8)


def value(d, i):
    if DOM[d] == 'boolean':
        return i % 2
    a, b = DOM[d]
    return a + i % (b - a + 1)


def nodes(c):
    return {u: {v: value(d, i) for (v, d, _), i in zip(c['vars'], row)} for u, row in zip(c['ids'], c['val'])}


def edges(c):
    return {(c['ids'][a], c['ids'][b]) for a, b in c['e']}


def bits(v, d, x):
    if DOM[d] == 'boolean':
        return {v: x}
    a, b = DOM[d]
    out, i = {}, 0
    while 2**i <= b:
        out[f'{v}@{i}' if i else f'{v}@0.{a}.{b}'] = (x >> i) & 1
        i += 1
    return out


def shuffle(xs, seed):
    import random
    xs = list(xs)
    random.Random(seed).shuffle(xs)
    return xs


def declared(c):
    env = {v: DOM[d] for v, d, e in c['vars'] if e}
    return env, {v: DOM[d] for v, d, e in c['vars'] if not e}


def check(c):
    dict(s=check_slugs, b=check_bits, j=check_json, x=check_xml)[c['f']](c)


def check_bits(c):
    env, sys_ = declared(c)
    for u, st in nodes(c).items():
        b = {}
        for v, d, _ in c['vars']:
            b.update(bits(v, d, st[v]))
        b = dict(shuffle(b.items(), c['order']))
        keep = dict(b)
        r = slugs._bitfields_to_ints(b, {**env, **sys_})
        expect(r == st, lambda: f'_bitfields_to_ints({keep}): {r}, expected {st}')
        expect(b == keep, 'the given bits are changed')


def check_slugs(c):
    env, sys_ = declared(c)
    spec = form.GRSpec(env_vars=env, sys_vars=sys_)
    spec.moore = spec.plus_one = False
    want, es = nodes(c), edges(c)
    allbits = []
    for v, d, _ in c['vars']:
        allbits += list(bits(v, d, DOM[d][0] if DOM[d] != 'boolean' else 0))
    allbits = shuffle(allbits, c['order'])
    ans = {}
    for u, st in want.items():
        b = {}
        for v, d, _ in c['vars']:
            b.update(bits(v, d, st[v]))
        ans[str(u)] = dict(rank=0, state=[b[k] for k in allbits], trans=[w for a, w in shuffle(sorted(es), c['order']) if a == u])
    out = json.dumps(dict(version=0, slugs='0.0.1', variables=allbits, nodes=ans))
    calls = []

    def call(filename, synth=True, symbolic=True, slugs_compiler_path=None):
        calls.append((open(filename).read(), synth, symbolic))
        return c['real'], out if c['real'] else ''
    old, tmp, olddir = slugs._call_slugs, tempfile.mkdtemp(prefix='verif-c18-'), tempfile.tempdir
    slugs._call_slugs, tempfile.tempdir = call, tmp
    try:
        g = slugs.synthesize(spec)
        ok = slugs.check_realizable(spec)
    finally:
        slugs._call_slugs, tempfile.tempdir = old, olddir
        shutil.rmtree(tmp)
    expect(len(calls) == 2 and calls[0][1] is True and calls[0][2] is False and calls[1][1] is False, lambda: f'calls of the solver {calls}')
    expect(ok is c['real'], 'check_realizable')
    if not c['real']:
        expect(g is None, 'an unrealizable specification has no strategy')
        return
    got = {u: d.get('state') for u, d in g.nodes(data=True)}
    expect(got == want, lambda: f'nodes {got}, expected {want}')
    expect(set(g.edges()) == es, lambda: f'edges {set(g.edges())}, expected {es}')


def check_json(c):
    env, sys_ = declared(c)
    want, es = nodes(c), edges(c)
    dom = lambda d: d if d == 'boolean' else list(d)
    E = shuffle([v for v, d, e in c['vars'] if e], c['order'])
    S = shuffle([v for v, d, e in c['vars'] if not e], c['order'] + 1)
    ans = {str(u): dict(state=[st[v] for v in E + S], mode=i % 3, rgrad=i, initial=bool(c['init'][i]),
                        trans=[str(w) for a, w in shuffle(sorted(es), c['order']) if a == u])
           for i, (u, st) in enumerate(want.items())}
    doc = dict(version=1 if c['extra'] else 2, gr1c='0.10.2', date='', extra='', ENV=[{v: dom(env[v])} for v in E], SYS=[{v: dom(sys_[v])} for v in S], nodes=ans)
    text = json.dumps(doc)
    tmp = tempfile.mkdtemp(prefix='verif-c18-')
    try:
        p = os.path.join(tmp, 'aut.json')
        with open(p, 'w') as f:
            f.write(text)

        def load():
            if c['io'] == 0:
                return gr1c.load_aut_json(text)
            if c['io'] == 1:
                with open(p) as f:
                    return gr1c.load_aut_json(f)
            return gr1c.load_mealy(p, fformat='json')
        if not c['extra']:
            raises(ValueError, load, 'another version of the format')
            return
        g = load()
    finally:
        shutil.rmtree(tmp)
    got = {u: d for u, d in g.nodes(data=True)}
    exp = {u: dict(state={v: want[int(u)][v] for v in E + S}, mode=d['mode'], rgrad=d['rgrad'], initial=d['initial']) for u, d in ans.items()}
    expect(got == exp, lambda: f'nodes {got}, expected {exp}')
    expect(set(g.edges()) == {(str(a), str(b)) for a, b in es}, lambda: f'edges {set(g.edges())}, expected {es}')
    expect(set(g.initial_nodes) == {u for u, d in ans.items() if d['initial']}, lambda: f'initial nodes {g.initial_nodes}')
    expect({v: tuple(d) if isinstance(d, (list, tuple)) else d for v, d in g.env_vars.items()} == env, lambda: f'env_vars {g.env_vars}')
    expect({v: tuple(d) if isinstance(d, (list, tuple)) else d for v, d in g.sys_vars.items()} == sys_, lambda: f'sys_vars {g.sys_vars}')


def check_xml(c):
    import xml.etree.ElementTree as ET
    env, sys_ = declared(c)
    want, es = nodes(c), edges(c)
    ns = [gr1c.DEFAULT_NAMESPACE, '', 'urn:other'][c['ns']]
    root = ET.Element('tulipcon', version='1')
    dom = lambda d: d if d == 'boolean' else f'[{d[0]}, {d[1]}]' if c['order'] % 2 else f'[{d[0]},{d[1]}]'
    for tag, vs in (('env_vars', env), ('sys_vars', sys_)):
        e = ET.SubElement(root, tag)
        for v in shuffle(vs, c['order']):
            ET.SubElement(e, 'item', key=v, value=dom(vs[v]))
    s = ET.SubElement(root, 'spec')
    parts = {}
    for i, p in enumerate(('env_init', 'env_safety', 'env_prog', 'sys_init', 'sys_safety', 'sys_prog')):
        e = ET.SubElement(s, p)
        parts[p] = [f'({v} < 2) & (z{i} -> {v})' for v, _, _ in c['vars']][:(c['order'] >> i) % 3]
        for f in parts[p]:
            ET.SubElement(e, 'litem', value=f)
    aut = c['how']
    if aut:
        a = ET.SubElement(root, 'aut', type='basic')
        if aut > 1:
            for i, (u, st) in enumerate(want.items()):
                n = ET.SubElement(a, 'node')
                ET.SubElement(n, 'id').text = str(u)
                ET.SubElement(n, 'anno').text = f'{i % 3} {i}' if i % 2 else None
                ch = ET.SubElement(n, 'child_list')
                ws = [w for x, w in shuffle(sorted(es), c['order']) if x == u]
                if i % 2:
                    ch.text = ' '.join(map(str, ws))
                else:
                    for w in ws:
                        ET.SubElement(ch, 'litem', value=str(w))
                q = ET.SubElement(n, 'state')
                for v in shuffle(st, c['order'] + i):
                    ET.SubElement(q, 'item', key=v, value=str(st[v]))
    if ns:
        root.set('xmlns', ns)
    if c['extra'] == 0:
        root.set('version', '2')
    if c['order'] % 3:
        ET.indent(root)
    text = ET.tostring(root, encoding='unicode')
    tmp = tempfile.mkdtemp(prefix='verif-c18-')
    try:
        def load():
            if c['io'] == 0 and not c['ns']:
                p = os.path.join(tmp, 'aut.xml')
                with open(p, 'w') as f:
                    f.write(text)
                return gr1c.load_aut_xml(ET.parse(p).getroot())
            return gr1c.load_aut_xml(text, namespace=ns) if c['ns'] else gr1c.load_aut_xml(text)
        if c['extra'] == 0:
            raises(ValueError, load, 'another version of the format')
            return
        g = load()
    finally:
        shutil.rmtree(tmp)
    if aut < 2 or not want:
        if aut < 2 or not isinstance(g, nx.DiGraph):
            spec, none = g
            expect(none is None, 'no strategy')
            expect(spec.env_vars == env and spec.sys_vars == sys_, lambda: f'variables {spec.env_vars} {spec.sys_vars}')
            for p, fs in parts.items():
                expect(list(getattr(spec, p)) == fs, lambda: f'{p}: {getattr(spec, p)}, expected {fs}')
            return
    expect(isinstance(g, nx.DiGraph), lambda: f'a strategy is given, the result is {g!r}')
    got = {u: d for u, d in g.nodes(data=True)}
    exp = {u: dict(state=st, mode=i % 3 if i % 2 else -1, rgrad=i if i % 2 else -1) for i, (u, st) in enumerate(want.items())}
    expect(got == exp, lambda: f'nodes {got}, expected {exp}')
    expect(set(g.edges()) == es, lambda: f'edges {set(g.edges())}, expected {es}')
    expect(g.env_vars == env and g.sys_vars == sys_, lambda: f'variables {g.env_vars} {g.sys_vars}')
