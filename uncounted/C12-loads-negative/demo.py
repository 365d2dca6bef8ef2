from tulip.spec.form import LTL
for dom in ({1, 3}, {0, 12, 7}, {-1, 2}, {-5}):
    f = LTL('n = 1', {'n': dom}, {'m': 'boolean'})
    g = LTL.loads(f.dumps())
    assert g.input_variables == f.input_variables, (dom, g.input_variables)
