#!/usr/bin/env python3
"""Decide one property: deductive stage, then the executable contract on the
real code (bounded stand-in for functions out of reach, and replay source).

usage: python3-vt /verif/vf/check.py <ID> [--thorough]
exit 0: held;  exit 1: VIOLATION line printed;  other: error of the check.
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')


def run_group(args):
    pid, idx, tier, budget = args
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        from vf.contract import Ctx
        m = importlib.import_module(f'contracts.{pid}')
        g = m.GROUPS[idx]
        c = Ctx(REPO, tier, budget)
        t = time.time()
        err = None
        try:
            g.fn(c)
        except BaseException as e:
            err = f'{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}'
        c.flush()
        obs = [dict(name=f'{g.name} / {o.name}', status=o.status, time=round(o.time, 3),
                    backend=o.backend, detail=o.detail) for o in c.obligations]
        if err:
            obs.append(dict(name=f'{g.name} / verification condition generation',
                            status='unsupported', time=0, backend='-', detail=err))
        if not obs:
            obs.append(dict(name=f'{g.name} / vacuous', status='refuted', time=0,
                            backend='-', detail='no obligation generated'))
        return dict(group=g.name, obligations=obs, funcs=sorted(c.funcs), paths=c.paths,
                    under_contract=sorted(set(c.under_contract)), uses=c.contract_uses,
                    solver_time=c.solver_time, wall=time.time() - t)
    except BaseException as e:
        return dict(group=f'#{idx}', obligations=[dict(
            name=f'group {idx} / verifier', status='unsupported', time=0, backend='-',
            detail=f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')],
            funcs=[], paths=0, under_contract=[], uses={}, solver_time=0, wall=0)


def deductive(pid, tier, budget):
    path = os.path.join(ROOT, 'contracts', f'{pid}.py')
    if not os.path.exists(path):
        return None
    m = importlib.import_module(f'contracts.{pid}')
    n = len(m.GROUPS)
    jobs = [(pid, i, tier, budget) for i in range(n)]
    ctx = mp.get_context('fork')
    out = []
    with ctx.Pool(min(4, n), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(run_group, (j,)) for j in jobs]
        end = time.time() + budget * 1.5 + 30
        for j, r in zip(jobs, rs):
            try:
                out.append(r.get(timeout=max(1, end - time.time())))
            except BaseException as e:
                out.append(dict(group=m.GROUPS[j[1]].name, obligations=[dict(
                    name=f'{m.GROUPS[j[1]].name} / time budget', status='unsupported', time=0,
                    backend='-', detail=f'{type(e).__name__}')],
                    funcs=[], paths=0, under_contract=[], uses={}, solver_time=0, wall=0))
        pool.terminate()
    return dict(groups=out, assumed=getattr(m, 'ASSUMED', []), bounded=getattr(m, 'BOUNDED', []))


def start_dyn(pid, tier, seed, budget, nshards=4):
    path = os.path.join(ROOT, 'dyn', f'{pid}.py')
    if not os.path.exists(path):
        return None
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', HOME=env.get('HOME', '/root'),
               PYTHONPATH=REPO, MPLCONFIGDIR=os.path.join(ROOT, '.cache', 'mpl'))
    os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
    procs = []
    for k in range(nshards):
        env['PYTHONHASHSEED'] = str((seed * 16 + k) % 4294967295)
        outp = os.path.join(ROOT, '.cache', f'{pid}-{os.getpid()}-{k}.json')
        p = subprocess.Popen(
            ['/opt/venv/bin/python', os.path.join(ROOT, 'dyn', 'base.py'), pid, tier, str(seed),
             str(k), str(nshards), str(budget), outp],
            env=dict(env), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=ROOT)
        procs.append((p, outp))
    return procs


def wait_dyn(procs, budget):
    res = []
    end = time.time() + budget + 60
    for p, outp in procs:
        try:
            _, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            err = b'timeout'
        try:
            with open(outp) as f:
                res.append(json.load(f))
        except Exception:
            res.append(dict(error=(err or b'').decode(errors='replace')[-3000:]))
        try:
            os.unlink(outp)
        except OSError:
            pass
    return res


def known(pid):
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f'known: property={pid} '):
                rest = line.split(' ', 2)[2].strip()
                key, _, txt = rest.partition(' ')
                out[key.removeprefix('key=')] = txt
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ded_budget = 240 if tier == 'quick' else 1500
    dyn_budget = 75 if tier == 'quick' else 900
    procs = start_dyn(pid, tier, seed, dyn_budget)
    ded = deductive(pid, tier, ded_budget)
    dyn = wait_dyn(procs, dyn_budget) if procs else []
    obs = [o for g in (ded['groups'] if ded else []) for o in g['obligations']]
    failed = [o for o in obs if o['status'] in ('refuted', 'unknown')]
    unsup = [o for o in obs if o['status'] == 'unsupported']
    errors = [d['error'] for d in dyn if 'error' in d]
    viols = [d['violation'] for d in dyn if d.get('violation')]
    if unsup and not failed and not viols and procs:
        # functions out of the verifier's reach: the bounded stand-in decides,
        # with a different seed and a larger budget
        procs2 = start_dyn(pid, 'deep', seed + 1000, 2 * dyn_budget)
        d2 = wait_dyn(procs2, 2 * dyn_budget)
        dyn += d2
        errors += [d['error'] for d in d2 if 'error' in d]
        viols += [d['violation'] for d in d2 if d.get('violation')]
    kn = known(pid)
    hit = {}
    for d in dyn:
        for k, ex in d.get('known', {}).items():
            hit.setdefault(k, ex)
    rdir = os.path.join(ROOT, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rc, lines = 0, []
    if viols:
        v = viols[0]
        rp = os.path.join(rdir, f'{pid}.json')
        v = dict(v, property=pid, how=f'/opt/venv/bin/python {ROOT}/dyn/base.py {pid} --replay {rp}',
                 failed_obligations=[o['name'] for o in failed][:20])
        with open(rp, 'w') as f:
            json.dump(v, f, indent=1)
        print(v.get('message', '')[:2000])
        lines.append(f'VIOLATION property={pid} replay={rp}')
        rc = 1
    elif failed:
        rp = os.path.join(rdir, f'{pid}.obligations.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, failed=failed,
                           how=f'python3-vt {ROOT}/vf/check.py {pid}'), f, indent=1)
        for o in failed[:10]:
            print(f'undischarged obligation: {o["name"]} [{o["status"]}, {o["backend"]}]')
        lines.append(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        rc = 1
    elif errors:
        print('check error:', errors[0])
        rc = 3
    else:
        if not obs and not any(d.get('evaluations') for d in dyn):
            print('check error: nothing was checked')
            rc = 3
    for k in kn:
        if k in hit:
            print(f'KNOWN-FINDING: property={pid} {kn[k]}')
    if unsup:
        for o in unsup[:10]:
            print(f'outside the verifier\'s reach (bounded stand-in used): {o["name"]}: '
                  f'{o["detail"].splitlines()[0] if o["detail"] else ""}')
    # evidence
    done = [o for o in obs if o['status'] == 'discharged']
    backends = {}
    for o in done:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    ev = sum(d.get('evaluations', 0) for d in dyn)
    dn = sum(d.get('distinct', 0) for d in dyn)
    samples = [s for d in dyn for s in d.get('samples', [])][:3]
    funcs = sorted({f for g in (ded['groups'] if ded else []) for f in g['funcs']})
    bounded = list(ded['bounded']) if ded else []
    level = 'proof' if ded and done and not unsup else 'exploration'
    cov = dict(
        obligations=len(obs), discharged=len(done),
        checker_cmd=f'python3-vt vf/check.py {pid}',
        trusted_base=(ded['assumed'] if ded else []) + [
            'vf/core.py, vf/interp.py, vf/lib.py (VC generator and builtin semantics)', 'z3 (python3-vt z3-solver)', 'cvc5'],
        discharged_by=backends,
        solver_seconds=round(sum(g['solver_time'] for g in (ded['groups'] if ded else [])), 2),
        paths=sum(g['paths'] for g in (ded['groups'] if ded else [])),
        functions_under_contract=sorted({u for g in (ded['groups'] if ded else []) for u in g['under_contract']}),
        functions_verified_inline=funcs,
        callee_contracts_used={k: n for g in (ded['groups'] if ded else []) for k, n in g['uses'].items()},
        undischarged=[o['name'] for o in failed + unsup],
        bounded_stand_ins=bounded,
        evaluations=ev, distinct_nontrivial=dn,
        rule=next((d['rule'] for d in dyn if d.get('rule')), ''),
        samples=samples,
        groups=[dict(group=g['group'], obligations=len(g['obligations']), wall=round(g['wall'], 1))
                for g in (ded['groups'] if ded else [])])
    e = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level,
             coverage=cov, assumptions=(ded['assumed'] if ded else []) + [
                 'each path of a verified function terminates (partial correctness)'],
             wall_s=round(time.time() - t0, 2), violations=len(lines))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(e, f, indent=1)
    print(f'{pid}: {len(done)}/{len(obs)} obligations discharged, {len(unsup)} out of reach; '
          f'{ev} executions of the executable contract ({dn} distinct); {time.time() - t0:.1f} s')
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
