from tulip.spec.gr1_fragment import split_gr1
split_gr1('(a && (b || c)) && [](a -> X (b && c)) && []<>(a || !b)')
for f in ('[](a -> (b || <> c))', '[]<>(a && (b || X c))', 'a || (b && (c || !([] d)))'):
    try:
        d = split_gr1(f)
    except AssertionError:
        continue
    raise AssertionError((f, d))
