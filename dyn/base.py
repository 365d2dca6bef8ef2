"""Executable contracts evaluated on the real code (runs under /opt/venv).

usage: base.py ID TIER SEED SHARD NSHARDS BUDGET OUT    |    base.py ID --replay FILE
"""
import importlib
import json
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.modules.setdefault('dyn.base', sys.modules['__main__'] if __name__ == '__main__' else sys.modules[__name__])


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


FOUND = {}
KEYS = set()


def finding(key, msg):
    """A defect that known_findings.txt lists under `key` (a violation if it does not)."""
    msg = msg() if callable(msg) else msg
    if key not in KEYS:
        raise Violation(msg, key)
    FOUND.setdefault(key, msg[:300])


def raises(exc, fn, msg):
    """fn must raise `exc`."""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f'{msg}: expected {exc}, raised {type(e).__name__}: {e}')
    raise Violation(f'{msg}: expected {exc}, returned {r!r}')


def known_keys(pid):
    out = set()
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f'known: property={pid} '):
                out.add(line.split(' ', 3)[2].removeprefix('key='))
    return out


def one(mod, case):
    """None, or (message, key)."""
    import io
    import contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mod.check(case)
        return None
    except Violation as e:
        return str(e), e.key
    except Exception as e:
        return (f'{type(e).__name__}: {e}\n' + ''.join(traceback.format_exc()[-2500:])), None


def main():
    pid = sys.argv[1]
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    mod = importlib.import_module(f'dyn.{pid}')
    if sys.argv[2] == '--replay':
        with open(sys.argv[3]) as f:
            v = json.load(f)
        KEYS.update(known_keys(pid))
        r = one(mod, v['case'])
        print('case:', json.dumps(v['case']))
        print('VIOLATED: ' + r[0] if r else 'holds')
        sys.exit(1 if r else 0)
    tier, seed, shard, nsh, budget, out = sys.argv[2:8]
    seed, shard, nsh, budget = int(seed), int(shard), int(nsh), float(budget)
    rng = random.Random(seed)
    keys = known_keys(pid)
    t0 = time.time()
    n = 0
    seen = set()
    samples = []
    KEYS.update(keys)
    known = FOUND
    viol = None
    for i, case in enumerate(mod.cases(tier, rng)):
        if i % nsh != shard:
            continue
        if time.time() - t0 > budget:
            break
        s = json.dumps(case, sort_keys=True)
        n += 1
        if hash(s) not in seen:
            seen.add(hash(s))
            if len(samples) < 3 and n % 7 == 1:
                samples.append(case)
        r = one(mod, case)
        if r is None:
            continue
        if r[1] is not None and r[1] in keys:
            known.setdefault(r[1], r[0][:300])
            continue
        viol = dict(case=case, message=f'{r[0]}\ninput: {s[:1500]}', key=r[1], hashseed=os.environ.get('PYTHONHASHSEED'))
        break
    with open(out, 'w') as f:
        json.dump(dict(evaluations=n, distinct=len(seen), samples=samples, violation=viol,
                       known=known, rule=getattr(mod, 'RULE', ''), wall=time.time() - t0), f)


if __name__ == '__main__':
    main()
