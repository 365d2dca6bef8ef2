from tulip.spec.form import GRSpec
import itertools
s = GRSpec(env_vars=['a', 'b'], sys_vars=['x', 'y'], env_init=['a', 'b'], sys_init=['x', 'y'])
code = s.compile_init(no_str=True)
for a, b, x, y in itertools.product([False, True], repeat=4):
    got = bool(eval(code, dict(a=a, b=b, x=x, y=y)))
    assert got == (not (a and b) or (x and y)), (a, b, x, y, got)
