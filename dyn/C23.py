"""Executable contract of tulip/abstract/prop2partition.py.

Regions are unions of boxes with small integer bounds, so that rounding plays no role; a partition is
compared with the definition at sample points in every unit cell (two points off every grid line used).
"""
import copy
import itertools

import numpy as np
import polytope as pc
from dyn.base import expect, raises, Violation
from tulip import hybrid
from tulip.abstract import prop2partition as pp

RULE = ('random box domains of dimension 1 to 3 with up to 3 propositions (boxes and unions of boxes: nested, equal, touching, overlapping, outside of the domain), '
        'some with more than ten regions, partitioned, refined into convex cells, by subsystems and by grids of sizes and numbers that do and do not divide the domain; membership compared at sample points of every unit cell')
OFF = (.3719, .6131)


def cases(tier, rng):
    n = 600 if tier == 'quick' else 3000
    for k in range(n):
        if k % 150 == 3:        # more than ten regions
            m = rng.randrange(11, 14)
            yield dict(dom=[[0, m]], props=[[[[i, i + 1]]] for i in range(m - 1)], axis=0, cuts=[3], g='size', grid=1.5, order=rng.random() < .5)
            continue
        dim = rng.choice([1, 2, 2, 2, 3])
        m = {1: 5, 2: 4, 3: 2}[dim]
        lo = [rng.choice([0, 0, -1]) for _ in range(dim)]
        dom = [[a, a + rng.randrange(1 if dim < 3 else 2, m + 1)] for a in lo]

        def box():
            b = []
            for (x, y) in dom:
                a = rng.randrange(x - 1, y)
                b.append([a, rng.randrange(a + 1, y + 2)])
            return b
        props = []
        for i in range(rng.randrange(0, 3 if dim == 3 else 4)):
            q = rng.random()
            if props and q < .1:
                props.append(copy.deepcopy(rng.choice(props)))
            elif q < .2:
                props.append([copy.deepcopy(dom)])
            elif q < .35:
                props.append([box(), box()])
            else:
                props.append([box()])
        axis = rng.randrange(dim)
        a, b = dom[axis]
        cuts = sorted({rng.randrange(a, b + 1) for _ in range(rng.randrange(0, 3))} - {a, b})
        sizes = [.5, 1., 1.5, 2., .8, 3.] if dim < 3 else [1., 1.5, 2.]
        g = rng.choice(['size', 'sizes', 'num', 'nums'])
        grid = {'size': rng.choice(sizes), 'sizes': [rng.choice(sizes) for _ in dom], 'num': rng.randrange(1, 4), 'nums': [rng.randrange(1, 4) for _ in dom]}[g]
        yield dict(dom=dom, props=props, axis=axis, cuts=cuts, g=g, grid=grid, order=rng.random() < .3)


def box(b):
    return pc.box2poly(b)


def inside(b, x):
    return all(l < v < h for (l, h), v in zip(b, x))


def points(dom, pad=1):
    for c in itertools.product(*[range(l - pad, h + pad) for l, h in dom]):
        for o in OFF:
            yield tuple(v + o for v in c)


def holding(regs, x):
    return [i for i, r in enumerate(regs) if x in r]


def adjacency(part, pairs=None):
    n = len(part.regions)
    adj = part.adj.toarray()
    expect(adj.shape == (n, n), lambda: f'adjacency of {n} regions: {adj.shape}')
    for i in range(n):
        for j in range(n):
            w = i == j or (pairs is None or pairs(i, j)) and bool(pc.is_adjacent(part.regions[i], part.regions[j]))
            expect(adj[i, j] == w, lambda: f'adjacency of regions {i}, {j}: {adj[i, j]}, {w} by definition')


def check(c):
    dom, names = c['dom'], [f'p{i}' for i in range(len(c['props']))]
    boxes = dict(zip(names, c['props']))
    if c['order']:
        boxes = dict(reversed(boxes.items()))
    props = {k: box(b[0]) if len(b) == 1 else pc.Region([box(x) for x in b]) for k, b in boxes.items()}
    domain = box(dom)
    holds = lambda x: {k for k, b in boxes.items() if any(inside(y, x) for y in b)}
    before = copy.deepcopy(props)
    part = pp.prop2part(domain, props)
    expect(props.keys() == before.keys() and all(props[k] == before[k] for k in props), 'the propositions are changed')
    whole(c, part, holds, 'prop2part')
    expect(part.domain == domain and set(part.prop_regions) == set(props) and all(part.prop_regions[k] == props[k] for k in props), 'domain and propositions of the partition')
    labels = [frozenset(r.props) for r in part.regions]
    expect(len(set(labels)) == len(labels), lambda: f'two regions with the label of one: {labels}')
    adjacency(part)
    for i, r in enumerate(part.regions):
        s = part.reg2props(i)
        expect(s == r.props and s is not r.props, 'reg2props: a copy of the label')
    expect(part.preserves_predicates() is True, 'preserves_predicates of a partition')
    if names and part.regions:
        q = copy.deepcopy(part)
        q.regions[-1].props = set(q.regions[-1].props) ^ {names[0]}
        expect(q.preserves_predicates() is False, 'preserves_predicates of a wrong label')
        q.regions[0].props = {'undefined'}
        raises(ValueError, q.is_symbolic, 'undefined proposition')
        raises(ValueError, lambda: pp.PropPreservingPartition(domain, q.regions, prop_regions=props), 'undefined proposition of a new partition')
    # a label that holds in a part of a region only
    for lab in (set(), set(names), set(names[:1])):
        whole_ = pp.PropPreservingPartition(domain, [pc.Region([domain], lab)], prop_regions=props)
        want = all(holds(x) == lab for x in points(dom, 0))
        expect(whole_.preserves_predicates() is want, lambda: f'preserves_predicates of the domain labeled {lab}: expected {want}')
    far = pc.Region([box([[h - 1, h + 2] for _, h in dom])])
    raises(ValueError, lambda: pp.PropPreservingPartition(domain, part.regions + [far], prop_regions=props), 'region outside of the domain')
    raises(ValueError, lambda: pp.PropPreservingPartition(domain, part.regions, adj=np.ones((len(part.regions) + 1,) * 2), prop_regions=props), 'size of adjacency')
    raises(ValueError, lambda: pp.PropPreservingPartition(domain, part.regions, adj=np.ones((len(part.regions), len(part.regions) + 1)), prop_regions=props), 'square adjacency')
    raises(TypeError, lambda: pp.PropPreservingPartition(domain, part.regions, prop_regions=[domain]), 'propositions that are not a dictionary')
    # transition system
    ts, states = pp.ppp2ts(part)
    n = len(part.regions)
    adj = part.adj.toarray()
    expect(list(states) == [f's{i}' for i in range(n)] and set(ts.states()) == set(states), lambda: f'states {list(states)}, {ts.states()}')
    expect(set(ts.atomic_propositions) == set(names), 'propositions of the transition system')
    for i, r in enumerate(part.regions):
        expect(ts.nodes[f's{i}']['ap'] == r.props, lambda: f'label of s{i}: {ts.nodes[f"s{i}"]}, region {r.props}')
        ts.nodes[f's{i}']['ap'].add('changed')
        expect('changed' not in r.props, 'the label of a state is a copy')
    want = sorted((f's{i}', f's{j}') for i in range(n) for j in range(n) if adj[i, j])
    expect(sorted(ts.edges()) == want, lambda: f'transitions {sorted(ts.edges())}, expected {want}')
    # convex cells
    cv, old = pp.part2convex(part)
    expect(len(old) == len(cv.regions), 'map to the old regions')
    whole(c, cv, holds, 'part2convex')
    adjacency(cv)
    for r, o in zip(cv.regions, old):
        expect(len(r) == 1, 'convex region')
        sub(c, r, part.regions[o], 'part2convex')
    # subsystems
    d = len(dom)
    l, h = dom[c['axis']]
    cuts = [l, *c['cuts'], h]
    doms = [[list(x) if k != c['axis'] else [a, b] for k, x in enumerate(dom)] for a, b in zip(cuts, cuts[1:])]
    mk = lambda b: hybrid.LtiSysDyn(np.eye(d), np.eye(d), domain=box(b), Uset=box([[-1, 1]] * d))
    sys = hybrid.PwaSysDyn([mk(b) for b in doms], domain)
    new, subs, par = pp.pwa_partition(sys, part)
    expect(len(new.regions) == len(subs) == len(par), 'maps to subsystems and regions')
    whole(c, new, holds, 'pwa_partition')
    adjacency(new, lambda i, j: par[i] == par[j] or adj[par[i], par[j]] == 1)
    for r, s, o in zip(new.regions, subs, par):
        sub(c, r, part.regions[o], 'pwa_partition')
        for x in points(dom):
            expect(x not in r or inside(doms[s], x), lambda: f'pwa_partition: a region of subsystem {s} has a point outside of its domain')
    if len(doms) > 1:
        less = hybrid.PwaSysDyn([mk(b) for b in doms[1:]], box([list(x) if k != c['axis'] else [cuts[1], h] for k, x in enumerate(dom)]))
        raises(Exception, lambda: pp.pwa_partition(less, part), 'system that is not defined everywhere')
    # grid
    kw = {'grid_size' if 'size' in c['g'] else 'num_grid_pnts': c['grid']}
    gr = pp.add_grid(part, **kw)
    whole(c, gr, holds, 'add_grid')
    size = [c['grid'][k] if isinstance(c['grid'], list) else c['grid'] for k in range(d)]
    if 'num' in c['g']:
        size = [(h - l) / s for (l, h), s in zip(dom, size)]
    for r in gr.regions:
        lo, hi = r.bounding_box
        for k in range(d):
            cell = (lo[k, 0] - dom[k][0] + 1e-6) // size[k]
            expect(hi[k, 0] <= dom[k][0] + (cell + 1) * size[k] + 1e-6, lambda: f'add_grid: a region crosses a grid line of axis {k}: {lo[k, 0]} to {hi[k, 0]}')
    parent = [holding(part.regions, next(x for x in points(dom) if x in r)) if any(x in r for x in points(dom)) else None for r in gr.regions]
    if all(parent):
        adjacency(gr, lambda i, j: parent[i] == parent[j] or adj[parent[i][0], parent[j][0]] == 1)
    raises(Exception, lambda: pp.add_grid(part), 'no grid')
    raises(Exception, lambda: pp.add_grid(part, grid_size=1., num_grid_pnts=2), 'two grids')
    raises(Exception, lambda: pp.add_grid(part, grid_size=[1.] * (d + 1)), 'dimension of the grid')
    raises(Exception, lambda: pp.add_grid(part, num_grid_pnts=[1] * (d + 1)), 'dimension of the grid')
    raises(Exception, lambda: pp.add_grid(part, num_grid_pnts=[1.5] * d), 'number of grid points')


def sub(c, r, old, what):
    expect(r.props == old.props, lambda: f'{what}: label {r.props} of a part of a region with {old.props}')
    expect(r.props is not old.props, f'{what}: a region shares its label with the old one')
    for x in points(c['dom']):
        expect(x not in r or x in old, lambda: f'{what}: {x} is not in the old region')


def whole(c, part, holds, what):
    dom = c['dom']
    for x in points(dom):
        h = holding(part.regions, x)
        if not inside(dom, x):
            expect(not h, lambda: f'{what}: {x} outside of the domain is in regions {h}')
            continue
        expect(len(h) == 1, lambda: f'{what}: {x} is in regions {h}')
        expect(set(part.regions[h[0]].props) == holds(x), lambda: f'{what}: {x}: label {part.regions[h[0]].props}, propositions {holds(x)}')
    for i, r in enumerate(part.regions):
        expect(pc.is_fulldim(r), lambda: f'{what}: region {i} is empty')
        expect(isinstance(r, pc.Region), lambda: f'{what}: region {i} is {type(r)}')
