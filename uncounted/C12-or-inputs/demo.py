from tulip.spec.form import GRSpec
a = GRSpec(env_vars={'a': 'boolean'}, sys_vars={'x': 'boolean'}, env_init=['a'])
b = GRSpec(env_vars={'b': (0, 3)}, sys_vars={'x': 'boolean'}, sys_safety=['b = 1 -> x'])
s = a | b
assert s.env_vars == {'a': 'boolean', 'b': (0, 3)}
assert s.input_variables == {'a': 'boolean', 'b': (0, 3)}, s.input_variables
assert 'b : [0, 3]' in s.dumps()
