"""S01-S02: recorded flights: safety verification and per-aircraft extraction."""
import copy
import json
import math
import random

import numpy as np

from . import lib, world
from .core import Base, Violation
from .p_f16 import TRIM, gen_uref, jump, sane
from .p_fault import EXC, Bomb

ALPHA, BETA, ALT = 1, 2, 11
EXTENDED = ('xd_list', 'ps_list', 'Nz_list', 'Ny_r_list', 'u_list')


class Stub:
    """a low-level controller of another size"""

    def __init__(self, n):
        self.n = n

    def get_num_integrators(self):
        return self.n


def fly(ns, plan, run):
    """closed-loop flights of several aircraft in a seeded interleaving, recorded tick by tick the way the F-16 simulators do"""
    rng = random.Random(plan['sched'])
    n, dt = plan['n'], plan['dt']
    llcs = [ns.llc.LowLevelController() for _ in range(n)]
    xs = [np.array(s if s is not None else TRIM) for s in plan['start']]
    urefs = [list(u) for u in plan['urefs']]
    times, modes, rows = [0.0], [], []
    ext = {k: [] for k in EXTENDED}

    def sample():
        order = list(range(n))
        rng.shuffle(order)
        out = {}
        for b in order:
            out[b] = ns.cf.controlled_f16(xs[b], np.array(urefs[b], dtype=float), llcs[b], plan['model'], plan['v2'])
        rows.append(np.concatenate(xs))
        modes.append(tuple(rng.choice(['GCAS', 'cruise', 'roll', 'pull']) for _ in range(n)) if n > 1 else 'cruise')
        for k, key in enumerate(('xd_list', 'u_list', 'Nz_list', 'ps_list', 'Ny_r_list')):
            vals = [out[b][k] for b in range(n)]
            ext[key].append(tuple(vals) if n > 1 else vals[0])

    sample()
    for k in range(plan['ticks']):
        order = list(range(n))
        rng.shuffle(order)
        for b in order:
            if rng.random() < 0.1:
                run.fault('lost-command')
            elif rng.random() < 0.3:
                urefs[b][rng.randrange(4)] *= rng.uniform(0.5, 1.5)
            if rng.random() < plan['gusts']:
                xs[b] = np.array(jump(rng))
                run.fault('gust')
            it = ns.util.Euler(lambda t, y, b=b: np.asarray(ns.cf.controlled_f16(y, np.array(urefs[b], dtype=float), llcs[b], plan['model'], plan['v2'])[0], float),
                               times[-1], xs[b], times[-1] + dt, dt / plan['sub'])
            while it.status == 'running':
                it.step()
                if not sane(it.y):
                    break
            xs[b] = np.array(it.y) if sane(it.y) else np.array(TRIM)
        times.append((k + 1) * dt)
        sample()
        run.sim += dt
    run.count('recorded_ticks', len(times))
    res = {'status': rng.choice(['finished', 'autopilot finished', 'running']), 'times': times, 'modes': modes, 'states': np.array(rows)}
    res.update(ext)
    return res


def frozen(v):
    """value with types, bit for bit (NaN safe)"""
    if isinstance(v, np.ndarray):
        return ('array', v.shape, str(v.dtype), v.tobytes() if v.dtype != object else tuple(frozen(x) for x in v.ravel()))
    if isinstance(v, dict):
        return ('dict', tuple((k, frozen(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(frozen(x) for x in v))
    if isinstance(v, float):
        return ('float', float(v).hex())
    return (type(v).__name__, repr(v))


def plain(v):
    """value without container types, bit for bit"""
    if isinstance(v, dict):
        return tuple(sorted((k, plain(x)) for k, x in v.items()))
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, (float, np.floating)):
        return 'nan' if v != v else float(v).hex()
    if isinstance(v, (int, np.integer)):
        return float(v).hex()
    return repr(v)


def gen_flight(rng, n, tier):
    return {'n': n, 'ticks': world.pick(rng, 0, rng.randrange(1, 8), rng.randrange(4, 20)), 'dt': world.pick(rng, 1 / 30, 0.1, 0.25), 'sub': rng.randrange(1, 4),
            'model': world.pick(rng, 'stevens', 'stevens', 'morelli'), 'v2': rng.random() < 0.3, 'gusts': world.pick(rng, 0.0, 0.1, 0.5), 'sched': rng.randrange(1 << 30),
            'start': [None if rng.random() < 0.3 else jump(rng) for _ in range(n)], 'urefs': [gen_uref(rng) for _ in range(n)]}


class Verifier(Base):
    """S01"""
    rule = ('Runs: closed-loop F-16 flights simulated with gusts and lost commands and recorded; the recording (of a single aircraft, or split out of a '
            'multi-aircraft recording) is then verified under seeded limits placed loosely, exactly at or one rounding step inside the recorded extremes, '
            'with single ticks corrupted, the recording truncated, torn or of the wrong shape, limits changed between verifications and verifications '
            'aborted and repeated; the verdict is compared with a tick-by-tick evaluation of the limits; non-trivial: at least one verification. ')
    measure = 'distinct (limited quantities, placement, corrupted quantity and tick position, columns, shape fault, verdict) tuples'
    nontrivial = ('verifications', )
    runs = {'quick': 8000, 'thorough': 30000}
    shrink_keys = ['trials']
    real = 'aerobench SafetyLimits, SafetyLimitsVerifier, extract_single_result, controlled_f16, Euler integrator (imported afresh from /repo per simulated process), numpy'
    stubs = 'command channel, gusts, recorder and its faults are simulated'
    assumptions = ['altitude, Nz and alpha limits are (low, high) pairs in the units of the recording',
                   'psMaxAccelDeg and betaMaxDeg are judged only by values on the same side of the bound whether read in degrees or radians; v is not verified by the library and is not judged']

    def gen(self, rng, i, tier):
        p = gen_flight(rng, world.pick(rng, 1, 1, rng.randrange(2, 4)), tier)
        p['who'] = rng.randrange(p['n'])
        trials = []
        for _ in range(rng.randrange(6, 24)):
            lim = {}
            for q in ('altitude', 'Nz', 'alpha'):
                r = rng.random()
                if r < 0.2:
                    continue
                if r < 0.3:
                    lim[q] = None
                    continue
                lim[q] = [world.pick(rng, 'loose', 'exact', 'exact', 'loose', 'inf', 'tight', 'between', 'zero'), world.pick(rng, 'loose', 'exact', 'exact', 'loose', 'inf', 'tight', 'between', 'zero'),
                          world.pick(rng, 'tuple', 'list', 'array'), rng.random(), rng.random()]
            if rng.random() < 0.5:  # clean limits: let the corruption decide
                for q in lim:
                    if lim[q]:
                        lim[q][0] = world.pick(rng, 'loose', 'exact', 'inf')
                        lim[q][1] = world.pick(rng, 'loose', 'exact', 'inf')
            if rng.random() < 0.25:
                lim['v'] = world.pick(rng, None, [0.0, 1e6])
            if rng.random() < 0.25:
                lim['psMaxAccelDeg'] = world.pick(rng, None, rng.uniform(500, 5000))
            if rng.random() < 0.25:
                lim['betaMaxDeg'] = world.pick(rng, None, rng.uniform(90, 500))
            cor = []
            for _k in range(world.pick(rng, 0, 0, 1, 1, 1, 2)):
                cor.append([world.pick(rng, 'alt', 'Nz', 'alpha', 'alt', 'Nz', 'alpha', 'ps', 'beta', 'other'), world.pick(rng, 'first', 'last', 'any', 'any', 'any'), rng.random(),
                            world.pick(rng, 'ulp-above', 'ulp-below', 'at-high', 'at-low', 'far-above', 'far-below', 'nan', 'inf', '-inf')])
            trials.append({'lim': lim, 'cor': cor, 'llc': rng.random() < 0.5, 'shape': world.pick(rng, *(['ok'] * 9), 'torn', 'extra-col', 'missing-col', 'flat', 'swap', 'lost-nz', 'lost-ps', 'transposed'),
                           'cut': rng.random(), 'abort': world.pick(rng, 0, 0, 0, rng.randrange(1, 60)), 'exc': rng.choice(sorted(EXC)), 'reuse': rng.random() < 0.4, 'lists': world.pick(rng, 'list', 'array', 'tuple'),
                           'order': world.pick(rng, 'C', 'C', 'F', 'view')})
        p['trials'] = trials
        return p

    def run(self, plan, run):
        ns = lib.fresh(f16=True, spacecraft=False)
        full = fly(ns, plan, run)
        who, n = plan['who'], plan['n']
        llc = ns.llc.LowLevelController()
        base = ns.util.extract_single_result(full, who, llc) if n > 1 else full
        st0 = np.array(full['states'][:, 16 * who:16 * who + 16])
        nz0 = [float(v[who] if n > 1 else v) for v in full['Nz_list']]
        ps0 = [float(v[who] if n > 1 else v) for v in full['ps_list']]
        if plain(base['states']) != plain(st0) or plain(base['Nz_list']) != plain(nz0):
            raise Violation('extraction', f'aircraft {who} of {n}: extracted recording is not its own')
        held = None
        for tr in plan['trials']:
            st, nz, ps = st0.copy(), list(nz0), list(ps0)
            cut = 1 + int(tr['cut'] * (len(st) - 1) + 0.5) if tr['shape'] != 'ok' or tr['cut'] < 0.3 else len(st)
            if cut < len(st):
                run.fault('truncated-recording')
            st, nz, ps = st[:cut], nz[:cut], ps[:cut]
            m = len(st)
            col = {'altitude': st[:, ALT], 'alpha': st[:, ALPHA], 'Nz': np.array(nz)}
            kw, bounds = {}, {}
            for q, sp in tr['lim'].items():
                if sp is None:
                    kw[q] = None
                elif q not in col:
                    kw[q] = tuple(sp) if q == 'v' else sp
                else:
                    lo, hi = float(min(col[q])), float(max(col[q]))
                    d = abs(lo) * 0.5 + abs(hi) * 0.5 + 1
                    b = [{'loose': lo - d, 'exact': lo, 'inf': -math.inf, 'zero': 0.0, 'tight': float(np.nextafter(lo, math.inf)), 'between': lo + (hi - lo) * sp[3]}[sp[0]],
                         {'loose': hi + d, 'exact': hi, 'inf': math.inf, 'zero': 0.0, 'tight': float(np.nextafter(hi, -math.inf)), 'between': hi - (hi - lo) * sp[4]}[sp[1]]]
                    bounds[q] = tuple(b)
                    kw[q] = {'tuple': tuple, 'list': list, 'array': np.array}[sp[2]](b)
            where = []
            for what, pos, frac, how in tr['cor']:
                k = {'first': 0, 'last': m - 1, 'any': int(frac * m)}[pos]
                q = {'alt': 'altitude', 'alpha': 'alpha', 'Nz': 'Nz'}.get(what)
                if q:
                    lo, hi = bounds.get(q, (-5.0, 5.0))
                    flo, fhi = (lo if math.isfinite(lo) else -1e6), (hi if math.isfinite(hi) else 1e6)
                    v = {'ulp-above': np.nextafter(fhi, math.inf), 'ulp-below': np.nextafter(flo, -math.inf), 'at-high': fhi, 'at-low': flo, 'far-above': fhi + 1e5,
                         'far-below': flo - 1e5, 'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}[how]
                elif what == 'ps':
                    v = {'far-above': 1e6, 'inf': math.inf}.get(how, 1.0)
                elif what == 'beta':
                    v = {'far-above': 1e6, 'inf': math.inf}.get(how, 0.2)
                else:
                    v = {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}.get(how, 1e7)
                if what == 'Nz':
                    nz[k] = float(v)
                elif what == 'ps':
                    ps[k] = float(v)
                elif what == 'other':
                    st[k, [0, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15][int(frac * 12)]] = v
                else:
                    st[k, {'alt': ALT, 'alpha': ALPHA, 'beta': BETA}[what]] = v
                run.fault('corrupt-tick')
                where.append((what, 'first' if k == 0 else 'last' if k == m - 1 else 'mid', how))
            # what a tick-by-tick reading of the limits says
            bad = None
            for k in range(m):
                for q, v in (('altitude', st[k, ALT]), ('Nz', nz[k]), ('alpha', st[k, ALPHA])):
                    if q in bounds and not (bounds[q][0] <= v <= bounds[q][1]):
                        bad = bad or (k, q, float(v), bounds[q])
                if kw.get('psMaxAccelDeg') is not None and ps[k] > kw['psMaxAccelDeg']:
                    bad = bad or (k, 'ps', ps[k], kw['psMaxAccelDeg'])
                if kw.get('betaMaxDeg') is not None and st[k, BETA] > kw['betaMaxDeg']:
                    bad = bad or (k, 'beta', float(st[k, BETA]), kw['betaMaxDeg'])
            cols = 16 if tr['llc'] else 13
            if not tr['llc']:
                st = st[:, :13].copy()
            wrong = True
            shape = tr['shape']
            if shape == 'torn':
                k = int(tr['cut'] * m)
                nz, ps = nz[:k], ps[:k]
                wrong = len(nz) < m
            elif shape == 'extra-col':
                st = np.hstack([st, np.zeros((m, 1 + int(tr['cut'] * 5)))])
            elif shape == 'missing-col':
                st = st[:, :cols - 1 - int(tr['cut'] * 3)]
            elif shape == 'swap':  # recorded with the other kind of controller
                st = st0[:cut, :13].copy() if tr['llc'] else st0[:cut].copy()
            elif shape == 'flat':
                st = st.ravel()
            elif shape == 'transposed':
                wrong = m != cols
                if wrong:
                    st = st.T.copy()
            elif shape == 'lost-nz':
                nz = None
            elif shape == 'lost-ps':
                ps = None
            else:
                wrong = False
            if wrong:
                run.fault('malformed-recording')
            if tr['order'] == 'F':
                st = np.asfortranarray(st)
            elif tr['order'] == 'view' and st.ndim == 2:
                wide = np.full((st.shape[0] * 2, st.shape[1] + 3), np.nan)
                wide[::2, 1:1 + st.shape[1]] = st
                st = wide[::2, 1:1 + st.shape[1]]
            mk = {'list': list, 'array': np.array, 'tuple': tuple}[tr['lists']]
            res = {'status': 'finished', 'times': list(range(m)), 'modes': ['x'] * m, 'states': st}
            if nz is not None:
                res['Nz_list'] = mk(nz)
            if ps is not None:
                res['ps_list'] = mk(ps)
            if tr['reuse'] and held is not None and (held[1].llc is not None) == tr['llc']:
                lims, ver = held
                for q in ('altitude', 'Nz', 'v', 'alpha', 'psMaxAccelDeg', 'betaMaxDeg'):
                    setattr(lims, q, kw.get(q))
                run.count('limits_changed')
            else:
                lims = ns.util.SafetyLimits(**kw)
                ver = ns.util.SafetyLimitsVerifier(lims, llc if tr['llc'] else None) if tr['llc'] or tr['cut'] < 0.5 else ns.util.SafetyLimitsVerifier(safety_limits=lims)
            held = (lims, ver)
            if tr['abort']:
                with Bomb(tr['abort'], EXC[tr['exc']]) as b:
                    try:
                        ver.verify(res)
                    except BaseException:  # noqa: BLE001
                        pass
                if b.fired:
                    run.fault('aborted-verification')
            fr, fl = frozen(res), frozen(dict(vars(lims)))
            verdicts = []
            for _ in range(2):
                try:
                    r = ver.verify(res)
                    verdicts.append('pass')
                    if r not in (None, True):
                        raise Violation('verdict', f'verify returned {r!r} instead of returning normally')
                except AssertionError:
                    verdicts.append('refused')
                except (IndexError, ValueError, TypeError, KeyError) as e:
                    verdicts.append('error ' + type(e).__name__)
                run.count('verifications')
            if frozen(res) != fr:
                raise Violation('recording-modified', f'verification changed the recording ({m} ticks, {tr})')
            if frozen(dict(vars(lims))) != fl:
                raise Violation('limits-modified', f'verification changed the limits {kw} into {vars(lims)}')
            if verdicts[0] != verdicts[1]:
                raise Violation('verdict-changes', f'the same recording and limits were first {verdicts[0]}, then {verdicts[1]}')
            v = verdicts[0]
            run.count('verdict_' + v.split()[0])
            run.dig.update(v.encode())
            run.see(tuple(sorted((q, tuple(s[:2]) if isinstance(s, list) and q in col else s is None) for q, s in tr['lim'].items())), tuple(where[:1]), cols, tr['shape'], v.split()[0])
            what = f'{m} ticks x {cols} columns, limits {bounds} {[q for q in kw if q not in bounds]}, corrupted {where}'
            if wrong:
                if v == 'pass':
                    raise Violation('malformed-recording-accepted', f'{shape} recording passed verification: states of shape {np.shape(st)}, {what}')
            elif bad is not None:
                if v != 'refused':
                    raise Violation('unsafe-flight-accepted', f'tick {bad[0]} of {m} has {bad[1]} {bad[2]!r} outside {bad[3]} but verification said {v}: {what}')
            elif v != 'pass':
                raise Violation('safe-flight-refused', f'every tick satisfies the limits but verification said {v}: {what}')
            if not wrong and v in ('pass', 'refused'):
                self.again(run, lims, ver, res, v, tr, what)
            for name in ('Altitude', 'altitud', 'nz'):
                try:
                    setattr(lims, name, (0, 1))
                except TypeError:
                    continue
                raise Violation('misspelled-limit', f'setting the non-existent limit {name} was silently accepted')
        run.sample = {'aircraft': n, 'ticks': plan['ticks'], 'trials': len(plan['trials'])}


    @staticmethod
    def again(run, lims, ver, res, v, tr, what):
        """the same verifier and the same objects, edited in place between verifications"""

        def ask(want, when):
            run.count('verifications')
            try:
                ver.verify(res)
                got = 'pass'
            except AssertionError:
                got = 'refused'
            if got != want:
                raise Violation('stale-verdict', f'{when} verification said {got} instead of {want}: {what}')

        st = res['states']
        keep = {q: getattr(lims, q) for q in ('altitude', 'Nz', 'v', 'alpha', 'psMaxAccelDeg', 'betaMaxDeg')}

        def restore():
            for q, x in keep.items():
                setattr(lims, q, x)

        if v == 'refused':
            for q in keep:
                setattr(lims, q, None)
            ask('pass', 'after all limits were removed,')
            restore()
            ask('refused', 'after the limits were put back,')
            run.fault('limits-edited-in-place')
            return
        top = float(np.max(st[:, ALT]))
        if tr['cut'] < 0.5 and math.isfinite(top):
            lims.altitude = (top + 1, top + 2)
            ask('refused', 'after the altitude limits were raised above the flight,')
            restore()
            ask('pass', 'after the limits were put back,')
            run.fault('limits-edited-in-place')
        elif st.flags.writeable and math.isfinite(top) and keep['altitude'] is not None:
            k = int(tr['cut'] * 997) % len(st)
            was = st[k, ALT]
            st[k, ALT] = math.nan
            ask('refused', f'after tick {k} of the recording was overwritten,')
            st[k, ALT] = was
            ask('pass', 'after the recording was put back,')
            run.fault('recording-edited-in-place')


class Extract(Base):
    """S02"""
    rule = ('Runs: one to four F-16s simulated closed-loop in a seeded interleaving with gusts and lost commands into one recording (with or without '
            'extended states, truncated at a seeded tick, sometimes of another controller size), split per aircraft in a seeded order with aborted '
            'and repeated extractions; every extraction is compared value for value with the aircraft\'s own history; non-trivial: at least one extraction. ')
    measure = 'distinct (aircraft, recorded ticks, integrators, extended, container, index, abort point) tuples'
    nontrivial = ('extractions', )
    runs = {'quick': 8000, 'thorough': 30000}
    shrink_keys = ['ops']
    real = 'aerobench extract_single_result, controlled_f16, low-level controller, Euler integrator (imported afresh from /repo per simulated process), numpy'
    stubs = 'command channel, gusts and recorder are simulated; controllers of other sizes are stubs'

    def gen(self, rng, i, tier):
        p = gen_flight(rng, world.pick(rng, 1, 2, 2, 3, 4), tier)
        p['nint'] = world.pick(rng, 3, 3, 3, 0, 1, 5)
        p['extended'] = rng.random() < 0.75
        p['container'] = world.pick(rng, 'tuple', 'list', 'array')
        p['cut'] = world.pick(rng, 1.0, 1.0, rng.random())
        p['ops'] = [[world.pick(rng, 'get', 'get', 'get', 'abort', 'scribble'), rng.randrange(p['n']), rng.randrange(1, 30), rng.choice(sorted(EXC))] for _ in range(rng.randrange(2, 14))]
        return p

    def run(self, plan, run):
        ns = lib.fresh(f16=True, spacecraft=False)
        res = fly(ns, plan, run)
        n, ni = plan['n'], plan['nint']
        nv = 13 + ni
        m = max(1, int(len(res['times']) * plan['cut']))
        if m < len(res['times']):
            run.fault('truncated-recording')
        if ni == 3:
            llc = ns.llc.LowLevelController()
        else:  # another controller: other integrator states were recorded
            llc = Stub(ni)
            src = res['states']
            pad = [np.hstack([src[:, 16 * b:16 * b + 13], 1e3 * b + src[:, 16 * b:16 * b + ni] * 0 + np.arange(ni)]) for b in range(n)]
            res['states'] = np.hstack(pad)
        for k in ('times', 'modes', 'states') + EXTENDED:
            res[k] = res[k][:m]
        if not plan['extended']:
            for k in EXTENDED:
                del res[k]
        elif n > 1 and plan['container'] != 'tuple':
            for k in EXTENDED:
                res[k] = [list(v) if plan['container'] == 'list' else np.array(v) for v in res[k]]
        own = copy.deepcopy(res)
        fr = frozen(res)
        expect = []
        for b in range(n):
            e = {k: own[k] for k in ('status', 'times', 'modes')}
            e['states'] = own['states'][:, nv * b:nv * b + nv]
            if plan['extended']:
                for k in EXTENDED:
                    e[k] = [v[b] if n > 1 else v for v in own[k]]
            expect.append(plain(e))
        tag = f'{m} ticks of {n} aircraft with {nv} variables, extended={plan["extended"]}'
        total = [None] * n

        def judge(b):
            got = ns.util.extract_single_result(res, b, llc)
            run.count('extractions')
            if plain(got) != expect[b]:
                diff = [k for k in dict(expect[b]) if plain(got.get(k, 'missing')) != dict(expect[b])[k]] + [k for k in got if k not in dict(expect[b])]
                raise Violation('wrong-extraction', f'aircraft {b} from {tag}: {diff} differ from its own history')
            total[b] = got
            return got

        def same():
            if frozen(res) != fr:
                raise Violation('recording-modified', f'extraction changed the recording of {tag}')

        for op, b, k, exc in plan['ops']:
            if op == 'abort':
                with Bomb(k, EXC[exc]) as bomb:
                    try:
                        ns.util.extract_single_result(res, b, llc)
                    except BaseException:  # noqa: BLE001
                        pass
                if bomb.fired:
                    run.fault('aborted-extraction')
                same()
                judge(b)
            elif op == 'scribble' and n > 1:  # the caller drops and renames parts of what it got
                got = judge(b)
                got['status'] = 'mine'
                got.pop('times')
                if plan['extended']:
                    got['Nz_list'].append(0.0)
                    got['xd_list'].clear()
                run.fault('caller-edits-result')
            else:
                judge(b)
            same()
            run.see(n, m, ni, plan['extended'], plan['container'], b, op, k if op == 'abort' else 0)
        for b in range(n):
            judge(b)
        same()
        joined = np.hstack([g['states'] for g in total])
        if plain(joined) != plain(own['states']):
            raise Violation('values-lost', f'the {n} extractions together do not account for the recorded states ({tag})')
        for bad in (n, n + 1, n + 6):  # never recorded: refused, or nothing at all
            try:
                got = ns.util.extract_single_result(res, bad, llc)
            except (AssertionError, IndexError, ValueError, KeyError):
                continue
            if n == 1 or np.size(got['states']):
                raise Violation('wrong-aircraft', f'aircraft {bad} of a recording of {n} was extracted ({tag})')
        same()
        run.dig.update(json.dumps([list(map(str, e)) for e in expect], default=str).encode())
        run.sample = {'aircraft': n, 'ticks': m, 'ops': plan['ops'][:3]}


CHECKS = {'S01': Verifier(), 'S02': Extract()}
