import sys
from tulip.spec.gr1_fragment import eventually_to_gr1
from tulip.spec import parser
for p in ('p', 'p || q', '!p && q', 'p -> q'):
    s = eventually_to_gr1(p, aux='a')
    # the step p && !a must leave the auxiliary free: the premise is false
    prem = [parser.parse(x) for x in s.sys_safety]
    prem = [t.operands[0] for t in prem if t.operator == '->' and len(t.operands[0]) > 1]
    assert len(prem) == 1, s.sys_safety
    def ev(t, w):
        if not hasattr(t, 'operands'):
            return w[t.value]
        o, x = t.operator, [ev(y, w) for y in t.operands]
        return {'!': lambda: not x[0], '&': lambda: x[0] and x[1], '|': lambda: x[0] or x[1],
                '->': lambda: not x[0] or x[1]}[o]()
    for vp in (False, True):
        for vq in (False, True):
            w = dict(p=vp, q=vq, a=False)
            assert ev(prem[0], w) == (not ev(parser.parse(p), w)), (p, w)
