"""Runner: seeds -> plans -> executions -> oracles; minimisation, replay files, evidence."""
import copy
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('DST_WORKERS', '8'))

CHECKS = {
    'R01': 'p_physics', 'R02': 'p_physics', 'R03': 'p_physics', 'R04': 'p_physics', 'J01': 'p_jax',
    'L01': 'p_limits', 'L02': 'p_limits', 'L03': 'p_limits',
    'T01': 'p_time', 'T02': 'p_time', 'T03': 'p_time',
    'I01': 'p_iso', 'I02': 'p_iso', 'A01': 'p_fault', 'A02': 'p_fault', 'D01': 'p_restart', 'D02': 'p_restart',
    'V01': 'p_views', 'V02': 'p_views', 'Q01': 'p_views', 'U01': 'p_spawn',
    'R05': 'p_f16', 'F01': 'p_f16', 'E01': 'p_f16', 'S01': 'p_record', 'S02': 'p_record', 'R06': 'p_physics', 'P01': 'p_plan', 'X01': 'p_ext', 'N01': 'p_trim', 'G01': 'p_host', 'M01': 'p_host',
}


class Violation(Exception):
    """the property does not hold on this run"""

    def __init__(self, kind, detail, **sig):
        super().__init__(detail)
        self.kind, self.detail, self.sig = kind, detail, sig


class Run:
    """what one execution reports besides a violation"""

    def __init__(self):
        self.dig = hashlib.sha256()
        self.n = {}
        self.sim = 0.0
        self.cover = set()
        self.sample = None

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def fault(self, kind, n=1):
        self.count('fault:' + kind, n)

    def see(self, *key):
        if len(self.cover) < 4000:
            self.cover.add(hash_small(key))


def hash_small(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=6).digest(), 'big')


def load(cid):
    mod = importlib.import_module('dst.' + CHECKS[cid])
    return mod.CHECKS[cid]


def seed_rng(cid, base, i):
    return random.Random(f'{cid}/{base}/{i}')


RUN_LIMIT = 150


def _no_progress(_sig, _frm):
    raise Violation('no-progress', f'a run of a few seconds did not finish within {RUN_LIMIT} s')


def execute(check, plan):
    """run one plan; returns (violation dict or None, Run)"""
    import signal
    signal.signal(signal.SIGALRM, _no_progress)
    signal.alarm(RUN_LIMIT)
    try:
        return _execute(check, plan)
    finally:
        signal.alarm(0)


def _execute(check, plan):
    run = Run()
    from . import world
    world.POOL.own.clear()
    np.random.seed(12345)
    random.seed(12345)
    v = None
    old = np.seterr(all='warn')
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            check.run(json.loads(json.dumps(plan)), run)
    except Violation as e:
        v = {'kind': e.kind, 'detail': e.detail, 'sig': e.sig}
    except Exception as e:  # noqa: BLE001
        # the code under test (or a client using it as documented) failed where nothing was supposed to fail
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb) if 'safe_autonomy_dynamics' in f.filename), None)
        if isinstance(e, (MemoryError, OSError)):
            raise
        if where is None:
            last = tb[-1]
            where = f'harness {os.path.basename(last.filename)}:{last.name}:{last.lineno}'
        v = {'kind': 'unexpected-exception', 'detail': f'{type(e).__name__}: {e} in {where}', 'sig': {}}
        run.tb = traceback.format_exc()
    finally:
        np.seterr(**old)
    if v is not None:
        run.dig.update(('V' + v['kind'] + v['detail']).encode())
    return v, run


# -- minimisation -----------------------------------------------------------------------------------------------------


def sort_of(v):
    """what must stay the same while a failing plan is minimised"""
    if v['kind'] == 'unexpected-exception' and ' in ' in v['detail']:
        return v['kind'], v['detail'].split(':')[0], v['detail'].rsplit(' in ', 1)[1]
    return (v['kind'], )


def shrink(check, plan, first, budget=60.0):
    t0 = time.time()
    tried = [0]

    def fails(p):
        if time.time() - t0 > budget:
            return False
        tried[0] += 1
        try:
            v, _ = execute(check, p)
        except Exception:  # noqa: BLE001
            return False
        return v is not None and sort_of(v) == sort_of(first)

    best = copy.deepcopy(plan)
    keys = [k for k in getattr(check, 'shrink_keys', ['ops', 'faults']) if isinstance(best.get(k), list)]
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for key in keys:
            n = max(len(best[key]) // 2, 1)
            while n >= 1 and best[key]:
                i = 0
                while i < len(best[key]):
                    cand = dict(best)
                    cand[key] = best[key][:i] + best[key][i + n:]
                    if fails(cand):
                        best = cand
                        progress = True
                    else:
                        i += n
                    if time.time() - t0 > budget:
                        break
                if n == 1 or time.time() - t0 > budget:
                    break
                n //= 2
    for cand in getattr(check, 'simplify', lambda p: [])(best):
        if fails(cand):
            best = cand
    return best, tried[0]


# -- workers ----------------------------------------------------------------------------------------------------------


def worker(cid, tier, base, start, stride, count, deadline, min_count):
    """run seeds start, start+stride, ...; one JSON line per run on stdout"""
    check = load(cid)
    out = sys.stdout
    sys.stdout = sys.stderr
    t_end = time.time() + deadline
    for k in range(count):
        if k >= min_count and time.time() > t_end:
            break
        i = start + k * stride
        rng = seed_rng(cid, base, i)
        plan = check.gen(rng, i, tier)
        plan['_id'] = [cid, base, i]
        t0 = time.time()
        v, run = execute(check, plan)
        rec = {'i': i, 'd': run.dig.hexdigest(), 'n': run.n, 'sim': run.sim, 'c': sorted(run.cover), 'w': time.time() - t0}
        if v is not None:
            rec['v'] = v
            rec['plan'] = plan
        if run.sample is not None and k < 2:
            rec['s'] = run.sample
        out.write(json.dumps(rec) + '\n')
        out.flush()
        if v is not None and not os.environ.get('DST_ALL'):
            break
    out.write(json.dumps({'done': True}) + '\n')
    out.flush()


def spawn(cid, tier, base, start, stride, count, deadline, min_count, hashseed='0', other=None):
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    if other is not None:  # a process in a different environment
        env.update({'TZ': ('Asia/Tokyo', 'America/New_York', 'UTC', 'Asia/Kolkata')[other % 4], 'LANG': ('C', 'C.UTF-8')[other % 2], 'HOME': '/nonexistent', 'COLUMNS': str(40 + other)})
    return subprocess.Popen(
        [sys.executable, '-m', 'dst', 'worker', cid, tier, str(base), str(start), str(stride), str(count), str(deadline), str(min_count)],
        cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def known():
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                head, _, what = line[7:].partition(' | ')
                f = dict(x.split('=', 1) for x in head.split())
                out.append((f['property'], f['signature'], what))
    return out


def check_main(cid, tier, base):
    t0 = time.time()
    check = load(cid)
    runs = check.runs[tier]
    deadline = check.deadline.get(tier, 30.0) if hasattr(check, 'deadline') else {'quick': 30.0, 'thorough': 600.0}[tier]
    nw = min(WORKERS, runs)
    per = (runs + nw - 1) // nw
    minper = max(1, int(per * 0.1))
    procs = [spawn(cid, tier, base, w, nw, per, deadline, minper) for w in range(nw)]
    dr = getattr(check, 'det_runs', {'quick': 1, 'thorough': 8})[tier]
    det = [spawn(cid, tier, base, w, nw, min(dr, per), deadline, 1, hashseed=str(1000 + w), other=w) for w in range(min(getattr(check, 'det_procs', 2), nw))]
    results = []
    errors = []
    import threading

    def drain(p, sink):
        so, se = p.communicate()
        sink.append((p.returncode, so, se))

    sinks = [[] for _ in procs + det]
    ths = [threading.Thread(target=drain, args=(p, s)) for p, s in zip(procs + det, sinks)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    detres = {}
    for k, s in enumerate(sinks):
        rc, so, se = s[0]
        lines = [json.loads(x) for x in so.splitlines() if x.startswith('{')]
        if rc != 0 or not lines or not lines[-1].get('done'):
            errors.append(se[-3000:])
        for x in lines:
            if 'i' in x:
                if k < len(procs):
                    results.append(x)
                else:
                    detres[x['i']] = x['d']
    viol = [r for r in results if 'v' in r]
    agg, cover, sim = {}, set(), 0.0
    for r in results:
        for k, v in r['n'].items():
            agg[k] = agg.get(k, 0) + v
        cover.update(r['c'])
        sim += r['sim']
    mism = [r['i'] for r in results if r['i'] in detres and detres[r['i']] != r['d']]
    wall = time.time() - t0
    code = 0
    finding_lines = []
    report = []
    # known findings are probed explicitly, each by its own fixed scenario
    for prop, sig, what in known():
        if prop == cid:
            if check.known_probe(sig):
                print(f'KNOWN-FINDING: property={cid} {what}')
                finding_lines.append(what)
    if errors and not viol:
        print('harness error:\n' + '\n'.join(errors), file=sys.stderr)
        write_evidence(check, cid, tier, base, results, agg, cover, sim, wall, mism, detres, finding_lines, 0, ['harness error'])
        return 2
    if mism and not viol:
        if getattr(check, 'digest_is_property', False):
            i = mism[0]
            plan = check.gen(seed_rng(cid, base, i), i, tier)
            plan['_id'] = [cid, base, i]
            path = save_replay(cid, plan, {'kind': 'digest-differs', 'detail': f'run {i} produced different histories in two processes', 'sig': {}}, None, 0, plan)
            print(f'VIOLATION property={cid} replay={path}')
            code = 1
            report.append('digest differs between processes')
        else:
            print(f'note: {len(mism)} run(s) were not repeatable across processes', file=sys.stderr)
    if viol:
        r = min(viol, key=lambda x: (len(json.dumps(x['plan'])), x['i']))
        v0 = r['v']
        small, tried = (r['plan'], 0) if v0['kind'] == 'no-progress' else shrink(check, r['plan'], v0, budget=40.0 if tier == 'quick' else 180.0)
        v1, run1 = (v0, None) if v0['kind'] == 'no-progress' else execute(check, small)
        if v1 is None:
            small, v1, run1 = r['plan'], v0, None
        path = save_replay(cid, small, v1, run1.dig.hexdigest() if run1 else r['d'], tried, r['plan'])
        print(f'violation: {v1["kind"]}: {v1["detail"]}')
        print(f'{len(viol)} of {len(results)} runs violated; seed {r["i"]} minimised with {tried} executions')
        print(f'VIOLATION property={cid} replay={path}')
        report.append(v1['kind'] + ': ' + v1['detail'])
        code = 1
    write_evidence(check, cid, tier, base, results, agg, cover, sim, time.time() - t0, mism, detres, finding_lines, len(viol) + (1 if code and not viol else 0), report)
    if code == 0:
        print(f'{cid}: {len(results)} simulated runs, {sim:.0f} s simulated, held ({wall:.1f} s)')
    return code


def save_replay(cid, plan, v, digest, tried, orig):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{cid}-{plan["_id"][1]}-{plan["_id"][2]}.json')
    with open(path, 'w') as f:
        json.dump({'property': cid, 'seed': plan['_id'], 'violation': v, 'digest': digest, 'shrink_executions': tried, 'plan': plan}, f, indent=1)
    return path


def replay_main(path):
    rec = json.load(open(path))
    cid = rec['property']
    check = load(cid)
    if rec['violation']['kind'] == 'digest-differs':
        ds = []
        for hs in ('0', '1001'):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            ds.append(subprocess.run([sys.executable, '-m', 'dst', 'digest', path], cwd=VERIF, env=env, stdout=subprocess.PIPE, text=True).stdout.strip())
        print('\n'.join(ds))
        if ds[0] != ds[1]:
            print(f'VIOLATION property={cid} replay={path}')
            return 1
        print('not reproduced')
        return 0
    v, run = execute(check, rec['plan'])
    if v is None:
        print('not reproduced: the property holds on this plan')
        return 0
    same = v['kind'] == rec['violation']['kind'] and (rec['digest'] is None or run.dig.hexdigest() == rec['digest'])
    print(f'{v["kind"]}: {v["detail"]}')
    if hasattr(run, 'tb'):
        print(run.tb)
    print('identical to the recorded violation (same digest)' if same else f'differs from the recorded violation {rec["violation"]}')
    print(f'VIOLATION property={cid} replay={path}')
    return 1


def write_evidence(check, cid, tier, base, results, agg, cover, sim, wall, mism, detres, findings, nviol, report):
    nontriv = len({r['d'] for r in results if any(k.startswith('fault:') or k in check.nontrivial for k in r['n'])})
    faults = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith('fault:')}
    other = {k: v for k, v in sorted(agg.items()) if not k.startswith('fault:')}
    ids = sorted(r['i'] for r in results)
    cpu = sum(r['w'] for r in results)
    cov = {
        'evaluations': len(results),
        'distinct_nontrivial': nontriv,
        'rule': check.rule + ' Distinct: different SHA-256 digest over all observations of the run.',
        'samples': [r['s'] for r in results if 's' in r][:3],
        'seeds': f'{cid}/{base}/{ids[0]}..{ids[-1]}' if ids else '',
        'runs_per_hour': int(len(results) / wall * 3600) if wall else 0,
        'run_cpu_s': round(cpu, 2),
        'simulated_seconds': round(sim, 3),
        'faults_injected': faults,
        'counts': other,
        'distinct_states_or_interleavings': len(cover),
        'state_measure': check.measure,
        'repeatability': {'re-executed in another process with another hash seed': len(detres), 'digest_mismatches': len(mism)},
        'real_components': check.real,
        'stub_components': check.stubs,
        'known_findings_seen': findings,
        'report': report,
    }
    ev = {'property': cid, 'tier': tier, 'seed': base if isinstance(base, int) else 0, 'level': 'exploration', 'coverage': cov,
          'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(strict(ev), f, indent=1, default=str, allow_nan=False)


def strict(x):
    """the same value without the numbers JSON cannot express"""
    if isinstance(x, dict):
        return {str(k): strict(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [strict(v) for v in x]
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return repr(x)
    return x


class Base:
    """defaults for checks"""
    runs = {'quick': 1200, 'thorough': 4000}
    deadline = {'quick': 90.0, 'thorough': 600.0}
    shrink_keys = ['ops', 'faults']
    nontrivial = ('ticks', )
    real = 'the whole safe_autonomy_dynamics package (imported afresh from /repo for every simulated process), numpy, scipy, pint, pydantic'
    stubs = 'tick scheduler, command channel, clients and user models are simulated'
    assumptions = ['numpy, scipy, pint and pydantic behave as documented', 'single-precision and solver tolerances as stated in DESIGN.md']
    measure = 'distinct (body kind, method, operation, saturation/fault signature) tuples reached'
    rule = ''

    def known_probe(self, sig):
        return False
