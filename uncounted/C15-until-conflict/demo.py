from tulip.spec.gr1_fragment import until_to_gr1
s = until_to_gr1('p', 'q || r', aux='a')
assert set(s.sys_vars) == {'p', 'q', 'r', 'a'}, s.sys_vars
for p, q, a in (('p', 'q', 'p'), ('p', 'x && q', 'q'), ('p', 'aux', 'aux')):
    try:
        until_to_gr1(p, q, aux=a)
    except ValueError:
        continue
    raise AssertionError((p, q, a))
