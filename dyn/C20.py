"""Executable contract of tulip.gridworld."""
import itertools
import numpy as np
from dyn.base import expect, raises, Violation
from dyn import ltl
from tulip import gridworld as gw

RULE = ('gridworlds from 1 x 1 to 4 x 4 (every table up to 2 x 3, random ones above) with random initial and goal cells: '
        'text, copies, equality, names, states, keys in and around the range with offsets and prefixes with digits and '
        'underscores; reachability of every pair of cells against breadth-first search; the GR(1) encoding under all '
        'options, evaluated at every pair of cells and, for Boolean variables, at random sets of cells; trolls; scaling')
PREFIXES = ['Y', 'X_0', 'robot_1_2', 'n_n']


def world(rng, h, w, bits=None, overlap=False):
    bits = bits if bits is not None else [int(rng.random() < .35) for _ in range(h * w)]
    free = [(k // w, k % w) for k in range(h * w) if not bits[k]]
    rng.shuffle(free)
    ni = rng.randrange(0, min(3, len(free)) + 1)
    ng = rng.randrange(0, min(3, len(free) - ni) + 1)
    init, goal = free[:ni], free[ni:ni + ng]
    if overlap and free:
        goal = goal + [rng.choice(free)]
    return dict(h=h, w=w, bits=bits, init=init, goal=goal, prefix=rng.choice(PREFIXES))


def cases(tier, rng):
    big = tier != 'quick'
    small = [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2)] + ([(2, 3), (3, 2)] if big else [])
    for h, w in small:
        for bits in itertools.product([0, 1], repeat=h * w):
            for f in ('text', 'names', 'reach', 'spec'):
                yield dict(f=f, g=world(rng, h, w, list(bits)), seed=rng.randrange(10**6))
    yield dict(f='bad')
    for _ in range(4000 if tier == 'quick' else 12000):
        f = rng.choice(['text', 'names', 'reach', 'spec', 'spec', 'spec', 'eq', 'trolls', 'scale', 'sub', 'bad'])
        h, w = rng.randrange(1, 5), rng.randrange(1, 5)
        if f == 'spec' and h * w > 9:
            h = w = 3
        if f == 'reach' and rng.random() < .2:
            h, w = rng.randrange(3, 7), rng.randrange(3, 7)
        yield dict(f=f, g=world(rng, h, w, overlap=f in ('eq',) or (f == 'spec' and rng.random() < .3)),
                   seed=rng.randrange(10**6))


def make(g):
    o = gw.GridWorld(prefix=g['prefix'])
    o.W = np.array(g['bits'], dtype=np.int32).reshape(g['h'], g['w'])
    o.init_list = [tuple(x) for x in g['init']]
    o.goal_list = [tuple(x) for x in g['goal']]
    return o


def snap(o):
    return (o.W.shape, o.W.tolist(), list(o.init_list), list(o.goal_list), o.prefix, o.offset)


def check(c):
    import random
    rng = random.Random(c.get('seed'))
    if c['f'] == 'bad':
        return bad()
    g = c['g']
    o = make(g)
    before = snap(o)
    globals()['f_' + c['f']](o, g, rng)
    expect(snap(o) == before, lambda: f'the gridworld changed: {before} -> {snap(o)}')


def bad():
    e = gw.GridWorld()
    for f in (lambda: e[0, 0], lambda: e.state((0, 0)), lambda: e.is_empty((0, 0)), lambda: e.mark_occupied((0, 0)),
              lambda: e.mark_empty((0, 0)), lambda: e.is_reachable((0, 0), (0, 0)), e.dumps, e.spec,
              lambda: gw.GridWorld.loads(''), lambda: gw.GridWorld.loads('# only a comment\n\n'),
              lambda: gw.GridWorld.loads('1 2\n x')):
        raises(ValueError, f, 'empty or malformed gridworld')
    expect(e == gw.GridWorld() and e != gw.unoccupied((1, 1)) and gw.unoccupied((1, 1)) != e, 'equality with the empty gridworld')
    expect(e.size() == (0, 0), 'size of the empty gridworld')


def f_text(o, g, rng):
    init, goal = set(o.init_list), set(o.goal_list)
    for pre in ('', '# '):
        t = o.dumps()
        if pre:
            t = '# comment\n\n  # another\n' + t
        r = gw.GridWorld.loads(t)
        expect(r.size() == o.size() and r.W.tolist() == o.W.tolist(), lambda: f'cells after reading {t!r}')
        expect(sorted(r.init_list) == sorted(init), lambda: f'initial cells {r.init_list} after reading {t!r}')
        expect(sorted(r.goal_list) == sorted(goal), lambda: f'goal cells {r.goal_list} after reading {t!r}')
    # lines may be cut short or missing: unoccupied cells
    ls = o.dumps().split('\n')
    r = gw.GridWorld.loads('\n'.join(x.rstrip() for x in ls).rstrip())
    expect(r.W.tolist() == o.W.tolist(), 'cells after reading shortened text')
    r = gw.GridWorld(o.dumps(), prefix='Q')
    expect(r.prefix == 'Q' and r.W.tolist() == o.W.tolist(), 'constructor')
    for cp in (o.copy(), o.__copy__()):
        expect(cp == o and o == cp and not cp != o, 'copy is equal')
        expect(snap(cp) == snap(o), lambda: f'copy {snap(cp)} of {snap(o)}')
        expect(cp.W is not o.W and cp.init_list is not o.init_list, 'copy shares cells')
        i, j = rng.randrange(g['h']), rng.randrange(g['w'])
        cp.W[i][j] = 1 - cp.W[i][j]
        expect(cp != o and not cp == o, lambda: f'cell {i, j} differs, but the gridworlds are equal')
    u = gw.unoccupied((g['h'], g['w']), g['prefix'])
    expect(not u.W.any() and u.size() == (g['h'], g['w']) and not u.init_list and not u.goal_list
           and u.prefix == g['prefix'], 'unoccupied gridworld')


def f_eq(o, g, rng):
    p = make(g)
    expect(o == p and not o != p, 'equal gridworlds')
    k = rng.randrange(5)
    if k == 0:
        p.W = np.zeros((g['h'] + 1, g['w']), dtype=np.int32)
    elif k == 1:
        p.W = np.zeros((g['w'], g['h']), dtype=np.int32)
        if g['w'] == g['h']:
            p.W = 1 - o.W
    elif k == 2:
        p.init_list = p.init_list + [(0, 0)]
    elif k == 3:
        p.goal_list = p.goal_list + [(0, 0)]
    else:
        i, j = rng.randrange(g['h']), rng.randrange(g['w'])
        p.W[i][j] = 1 - p.W[i][j]
    expect(o != p and p != o and not o == p, lambda: f'different gridworlds are equal: {snap(o)} {snap(p)}')


def cellval(prefix, nonbool, cell, h, w, off=(0, 0)):
    if nonbool:
        return {f'{prefix}_r': cell[0] + off[0], f'{prefix}_c': cell[1] + off[1]}
    return {f'{prefix}_{i + off[0]}_{j + off[1]}': (i, j) == cell for i in range(h) for j in range(w)}


def f_names(o, g, rng):
    h, w = g['h'], g['w']
    off = (rng.randrange(0, 4), rng.randrange(0, 12))
    for i in range(-h - 2, h + 2):
        for j in range(-w - 2, w + 2):
            ok = -h <= i < h and -w <= j < w
            if not ok:
                raises(ValueError, lambda: o[i, j], f'name of {i, j} in {h, w}')
                raises(ValueError, lambda: o.state((i, j)), f'state of {i, j} in {h, w}')
                raises(ValueError, lambda: o.is_reachable((i, j), (0, 0)), f'reachability of {i, j} in {h, w}')
                raises(ValueError, lambda: o.is_reachable((0, 0), (i, j)), f'reachability of {i, j} in {h, w}')
                expect(o.is_empty((i, j), extend=True) is False, 'cells outside are not empty')
                continue
            cell = (i % h, j % w)
            expect(o.is_empty((i, j)) == (o.W[cell] == 0), 'is_empty')
            expect(o.is_empty((i, j), extend=True) == (i >= 0 and j >= 0 and o.W[cell] == 0), 'is_empty with extension')
            for nb in (True, False):
                s = o.state((i, j), offset=off, nonbool=nb)
                want = cellval(o.prefix, nb, cell, h, w, off)
                expect(s == want, lambda: f'state of {i, j} with offset {off}: {s}')
                old = o.offset
                o.offset = off
                for nx in (False, True):
                    t = o.__getitem__((i, j), use_next=nx, nonbool=nb)
                    e = ltl.P(t)
                    for x in range(h):
                        for y in range(w):
                            v = cellval(o.prefix, nb, (x, y), h, w, off)
                            tr = [{k: None for k in v}, v] if nx else [v, {k: None for k in v}]
                            expect(bool(ltl.ev(e, tr)) == ((x, y) == cell), lambda: f'{t} at cell {x, y}')
                o.offset = old
                if not nb:
                    nm = [k for k, v in s.items() if v]
                    expect(len(nm) == 1 and gw.extract_coord(nm[0]) == (o.prefix, cell[0] + off[0], cell[1] + off[1]),
                           lambda: f'coordinates of {nm}: {gw.extract_coord(nm[0])}')
                    for k in s:
                        p, a, b = gw.extract_coord(k)
                        expect(p == o.prefix and f'{p}_{a}_{b}' == k, lambda: f'coordinates of {k}')
    expect(gw.extract_coord(f'{o.prefix}_n_n') == (o.prefix, -1, -1), 'nowhere')
    expect(gw.extract_coord('Y_1') is None and gw.extract_coord('Y_a_b') is None, 'not a cell name')
    raises(TypeError, lambda: gw.extract_coord(3), 'not text')
    k = (rng.randrange(-h, h), rng.randrange(-w, w))
    for f, val in (('mark_occupied', 1), ('mark_empty', 0)):
        p = make(g)
        getattr(p, f)(k)
        want = o.W.copy()
        want[k] = val
        expect(p.W.tolist() == want.tolist(), f)


def near(c):
    i, j = c
    return [(i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)]


def f_reach(o, g, rng):
    h, w = g['h'], g['w']
    free = {(i, j) for i in range(h) for j in range(w) if o.W[i, j] == 0}
    for s in itertools.product(range(h), range(w)):
        seen, todo = set(), [s] if s in free else []
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += [y for y in near(x) if y in free]
        for t in itertools.product(range(h), range(w)):
            s2 = (s[0] - h if rng.random() < .3 else s[0], s[1] - w if rng.random() < .3 else s[1])
            t2 = (t[0] - h if rng.random() < .3 else t[0], t[1] - w if rng.random() < .3 else t[1])
            r = o.is_reachable(s2, t2)
            expect(bool(r) == (t in seen), lambda: f'is_reachable({s2}, {t2}) is {r} in {o.W.tolist()}')


def holds(conds, trace):
    conds = [conds] if isinstance(conds, str) else conds
    return all(ltl.ev(ltl.P(x), trace) for x in conds)


def f_spec(o, g, rng):
    h, w = g['h'], g['w']
    cells = list(itertools.product(range(h), range(w)))
    free = {c for c in cells if o.W[c] == 0}
    init = set(o.init_list)
    for nb in (True, False):
        for own in (True, False):
            off = (rng.randrange(0, 3), rng.randrange(0, 3))
            check_spec(o, o.spec(offset=off, controlled_dyn=own, nonbool=nb), 'sys' if own else 'env', nb,
                       (0, 0) if nb else off, h, w, cells, free, init, rng)
    s = o.spec()
    t = o.spec((0, 0), True, True)
    expect((s.sys_init, s.sys_safety, s.sys_prog, s.sys_vars) == (t.sys_init, t.sys_safety, t.sys_prog, t.sys_vars), 'default options')


def check_spec(o, s, who, nb, off, h, w, cells, free, init, rng):
    other = 'env' if who == 'sys' else 'sys'
    expect(not any(getattr(s, f'{other}_{x}') for x in ('vars', 'init', 'safety', 'prog')), 'conditions of the other player')
    P = o.prefix
    v = getattr(s, f'{who}_vars')
    if nb:
        expect(v == {f'{P}_r': (0, h - 1), f'{P}_c': (0, w - 1)}, lambda: f'variables {v}')
    else:
        expect(v == {f'{P}_{i + off[0]}_{j + off[1]}': 'boolean' for i, j in cells}, lambda: f'variables {v}')
    safety = [ltl.P(x) for x in getattr(s, f'{who}_safety') if x.strip()]
    ini = [ltl.P(x) for x in getattr(s, f'{who}_init') if x.strip()]
    V = {c: cellval(P, nb, c, h, w, off) for c in cells}
    for a in free:
        for b in cells:
            got = all(ltl.ev(e, [V[a], V[b]]) for e in safety)
            want = b in free and (b == a or b in near(a))
            expect(got == want, lambda: f'move {a} -> {b} is {"allowed" if got else "excluded"} (walls {o.W.tolist()}, integers {nb})')
    for b in set(cells) - free:
        for a in cells:
            expect(not all(ltl.ev(e, [V[a], V[b]]) for e in safety), lambda: f'occupied cell {b} is entered')
    if not nb and free:
        for _ in range(30):
            k = rng.choice([0, 2, 2, 3])
            S = set(rng.sample(cells, min(k, len(cells))))
            if len(S) == 1:
                continue
            val = {f'{P}_{i + off[0]}_{j + off[1]}': (i, j) in S for i, j in cells}
            a = rng.choice(sorted(free))
            expect(not all(ltl.ev(e, [V[a], val]) for e in safety), lambda: f'the cells {S} are entered together')
            if init:
                expect(not all(ltl.ev(e, [val, V[a]]) for e in ini), lambda: f'the cells {S} are initial together')
    if init:
        for a in cells:
            got = all(ltl.ev(e, [V[a], V[a]]) for e in ini)
            expect(got == (a in init), lambda: f'initially at {a}: {got}, initial cells {init}')
    goal = set(o.goal_list)
    vec = sorted(tuple(bool(ltl.ev(ltl.P(x), [V[a], V[a]])) for a in cells) for x in getattr(s, f'{who}_prog') if x.strip() not in ('', 'True'))
    want = sorted(tuple(a == q for a in cells) for q in o.goal_list)
    expect(set(vec) == set(want), lambda: f'progress conditions {getattr(s, who + "_prog")} for goals {goal}')


def f_trolls(o, g, rng):
    h, w = g['h'], g['w']
    if h * w > 12 or not o.init_list:
        return
    cells = list(itertools.product(range(h), range(w)))
    free = {c for c in cells if o.W[c] == 0}
    trolls = [(rng.choice(cells), rng.randrange(0, 2)) for _ in range(rng.choice([1, 1, 2]))]
    for nb in (True, False):
        anywhere = rng.random() < .5
        spec, moves = gw.add_trolls(o, trolls, prefix='T', start_anywhere=anywhere, nonbool=nb)
        own = o.spec(nonbool=nb)
        expect(spec.sys_vars == own.sys_vars and spec.sys_prog == own.sys_prog and spec.sys_init == own.sys_init,
               'conditions of the gridworld itself')
        expect(set(own.sys_safety) <= set(spec.sys_safety), 'conditions of the gridworld itself')
        env, prog = {}, []
        safety = [ltl.P(x) for x in spec.env_safety if x.strip()]
        ini = [ltl.P(x) for x in spec.env_init if x.strip()]
        areas = []
        for k, ((ci, cj), r) in enumerate(trolls):
            rows = [i for i in range(h) if abs(i - ci) <= r]
            cols = [j for j in range(w) if abs(j - cj) <= r]
            lo = (rows[0], cols[0])
            areas.append((k, rows, cols, lo))
            if nb:
                env.update({f'T_{k}_r': (0, len(rows) - 1), f'T_{k}_c': (0, len(cols) - 1)})
            else:
                env.update({f'T_{k}_{i}_{j}': 'boolean' for i in rows for j in cols})
            expect(len(moves[k]) == len(rows) * len(cols), 'a state for each cell of the troll')
            if not nb:
                got = sorted(sorted(n for n, z in m.items() if z) for m in moves[k])
                expect(got == sorted([f'T_{k}_{i}_{j}'] for i in rows for j in cols), lambda: f'states of the troll {got}')
        expect(spec.env_vars == env, lambda: f'variables of trolls {spec.env_vars}, expected {env}')

        def tval(k, c):
            _, rows, cols, lo = areas[k]
            if nb:
                return {f'T_{k}_r': c[0] - lo[0], f'T_{k}_c': c[1] - lo[1]}
            return {f'T_{k}_{i}_{j}': (i, j) == c for i in rows for j in cols}
        for _ in range(25):
            cur = [rng.choice([(i, j) for i in a[1] for j in a[2]]) for a in areas]
            nxt = [rng.choice([c for c in [x] + near(x) if c[0] in a[1] and c[1] in a[2]]) if rng.random() < .7 else
                   rng.choice([(i, j) for i in a[1] for j in a[2]]) for x, a in zip(cur, areas)]
            if not all(c in free for c in cur):
                continue
            va, vb = {}, {}
            for k in range(len(areas)):
                va.update(tval(k, cur[k]))
                vb.update(tval(k, nxt[k]))
            want = all(b in free and (b == a or b in near(a)) for a, b in zip(cur, nxt))
            got = all(ltl.ev(e, [va, vb]) for e in safety)
            expect(got == want, lambda: f'trolls {trolls} move {cur} -> {nxt}: {got}')
            at0 = all(ltl.ev(e, [va, vb]) for e in ini)
            want0 = all(c in free if anywhere else c == tuple(t[0]) for c, t in zip(cur, trolls))
            if all(tuple(t[0]) in free for t in trolls):
                expect(at0 == want0, lambda: f'trolls {trolls} initially at {cur}: {at0}')
            # exclusion between the gridworld and each troll
            a = rng.choice(sorted(free))
            b = rng.choice([c for c in [a] + near(a) if c in free])
            va.update(cellval(o.prefix, nb, a, h, w))
            vb.update(cellval(o.prefix, nb, b, h, w))
            got = all(ltl.ev(ltl.P(e), [va, vb]) for e in spec.sys_safety if e.strip())
            expect(got == (b not in nxt), lambda: f'at {b} with trolls at {nxt}: {got}')
    raises(ValueError, lambda: gw.add_trolls(o, [((h, 0), 1)]), 'troll outside')
    raises(ValueError, lambda: gw.add_trolls(o, [((0, -1), 1)]), 'troll outside')


def f_scale(o, g, rng):
    xf, yf = rng.randrange(1, 4), rng.randrange(1, 4)
    r = o.scale(xf, yf)
    h, w = g['h'], g['w']
    expect(r.size() == (h * yf, w * xf), lambda: f'size {r.size()} after scaling by {xf, yf}')
    for i in range(h * yf):
        for j in range(w * xf):
            expect(r.W[i, j] == o.W[i // yf, j // xf], lambda: f'cell {i, j} after scaling by {xf, yf}')
    expect(sorted(set(r.init_list)) == sorted({(i * yf, j * xf) for i, j in o.init_list}), 'initial cells after scaling')
    expect(sorted(set(r.goal_list)) == sorted({(i * yf, j * xf) for i, j in o.goal_list}), 'goal cells after scaling')
    expect(r.prefix == o.prefix, 'prefix after scaling')


def f_sub(o, g, rng):
    h, w = g['h'], g['w']
    size = (rng.randrange(0, h + 2), rng.randrange(0, w + 2))
    off = (rng.randrange(-1, h + 1), rng.randrange(-1, w + 1))
    ok = 0 <= off[0] < h and 0 <= off[1] < w and size[0] >= 1 and size[1] >= 1 and off[0] + size[0] <= h and off[1] + size[1] <= w
    if not ok:
        raises(ValueError, lambda: o.dump_subworld(size, offset=off), f'subworld {size} at {off} of {h, w}')
    else:
        r = o.dump_subworld(size, offset=off, prefix='S')
        expect(r.prefix == 'S' and r.W.tolist() == [[int(o.W[i + off[0], j + off[1]]) for j in range(size[1])] for i in range(size[0])],
               lambda: f'subworld {size} at {off}')
        r.W[0][0] = 1 - r.W[0][0]
        expect(r.W is not o.W, 'subworld shares cells')
