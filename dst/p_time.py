"""T01-T03: simulated time - slicing, sampling, and ticks that fail partway."""
import math

import numpy as np
import scipy.integrate

from . import lib, world
from .core import Base, Violation


def autonomous(rng, kinds, name, samples=0.0):
    """a body whose motion does not depend on the time within a tick"""
    s = world.gen_spec(rng, world.pick(rng, *kinds), name, ('RK45', ), samples=samples)
    if s['kind'] == 'user' and s['params']['model'] == 'ode':
        s['params']['k'][1] = 0.0
    return s


class Slicing(Base):
    """T01"""
    rule = ('Runs: command segments executed by several copies of a body whose tick sources slice the same simulated time differently '
            '(one long tick, jitter, bursts, zero-length ticks, geometric and integer slices); non-trivial: at least one tick executed. ')
    shrink_keys = ['ops']
    kinds = world.ALL_KINDS + ['user', 'user', 'dub3', 'sixdof', 'cust', 'cust']

    def gen(self, rng, i, tier):
        spec = autonomous(rng, self.kinds, 'a', 0.2)
        ref = world.ref_of(spec)
        ops = []
        for _ in range(rng.randrange(2, 7)):
            if spec['kind'] == 'user':
                total = world.logu(rng, 0.05, 5.0)
            elif spec['kind'] in world.CRAFT:
                total = world.logu(rng, 0.1, 120.0)
            else:
                total = world.logu(rng, 0.1, 30.0)
            if world.drifts(spec) and rng.random() < 0.2:
                total = world.logu(rng, 120.0, 2e4)
            if rng.random() < 0.3:
                total = float(max(1, round(total)))
            cmd = world.gen_cmd(rng, ref, 0.15, ('none', 'dict', 'f64', 'list'))
            ops.append(['segment', total, cmd, [slices(rng, total) for _ in range(rng.randrange(2, 4))]])
        return {'body': spec, 'ops': ops}

    def run(self, plan, run):
        ns = lib.fresh()
        spec = plan['body']
        ref = world.ref_of(spec)
        nb = max(len(o[3]) for o in plan['ops'])
        ents = [world.build(ns, spec) for _ in range(nb)]
        state = np.array(ents[0].state, float)
        for _, total, cmd, parts in plan['ops']:
            u, _w = ref.command(cmd)
            start = state
            truth = ref.truth(total, start, u)
            ends = []
            for e, p in zip(ents, parts):
                e.state = start
                want = start.copy()
                tol = np.zeros(ref.nx)
                for dt in p['dts']:
                    d = int(dt) if p['int'] else dt
                    o = world.tick(e, d, world.real_cmd(cmd))
                    run.count('ticks')
                    run.sim += dt
                    if o.exc is not None:
                        raise Violation('step-raised', f'{spec["kind"]}: {type(o.exc).__name__}: {o.exc} after {dt!r} s')
                    if want is not None:
                        w1 = ref.rk(dt, want, u)
                        if w1 is None:
                            want = None
                        else:
                            w1 = ref.clip(w1)
                            tol = tol * 1.01 + 2 * ref.tight(dt, want, w1, u, False)
                            want = ref.wrapped(w1)
                run.fault(p['kind'])
                world.absorb(run.dig, o)
                ends.append(o.s1)
                if want is None:
                    continue
                d = np.abs(ref.diff(o.s1, want))
                run.see(spec['kind'], p['kind'], len(p['dts']) > 3, bool(truth is None))
                if np.all(d <= tol) or truth is None:
                    continue
                sc = 1e-6 + 1e-3 * np.maximum(np.abs(start), np.abs(truth))
                err = float(np.max(np.abs(ref.diff(want, truth)) / sc))
                allowed = 20 * tol + (4 * err + 1e-6) * sc
                d2 = np.abs(ref.diff(o.s1, truth))
                if np.all((d2 <= allowed) | (d <= tol)):
                    run.count('accepted_within_solver_error_only')
                    continue
                spread = np.zeros(ref.nx)
                for a, dt in chain(ref, start, p['dts'], u):
                    b = ref.rk(dt, a, u)
                    if b is not None:
                        spread += ref.scatter(dt, a, u, ref.clip(b), 1e-7)
                bad = np.nonzero((d2 > allowed + 4 * spread) & (d > tol + 4 * spread))[0]
                if bad.size:
                    k = bad[0]
                    raise Violation('slicing', f'{spec["kind"]} {spec["params"]}: {total!r} s from {start.tolist()} with control {u.tolist()} in {len(p["dts"])} '
                                    f'ticks ({p["kind"]}) puts element {k} at {o.s1[k]!r}, expected {truth[k]!r} (off {d2[k]:.3e}, allowed {allowed[k]:.1e})')
            state = ends[0]
            if not np.all(np.isfinite(state)) or np.max(np.abs(state)) > 1e7:
                break
        run.sample = {'body': [spec['kind'], spec['params']], 'first_segment': plan['ops'][0][:3]}


def chain(ref, s, dts, u):
    for dt in dts:
        yield s, dt
        n = ref.rk(dt, s, u)
        if n is None:
            return
        s = ref.wrapped(ref.clip(n))


def slices(rng, total):
    kind = world.pick(rng, 'single-tick', 'uniform', 'jitter', 'burst', 'zero-ticks', 'geometric', 'tiny')
    if total == int(total) and rng.random() < 0.4:
        n = int(total)
        dts = []
        while n > 0:
            k = rng.randrange(1, n + 1)
            dts.append(float(k))
            n -= k
            if len(dts) > 20:
                dts.append(float(n)) if n else None
                break
        return {'kind': 'integer', 'int': True, 'dts': dts}
    if kind == 'single-tick':
        dts = [total]
    elif kind == 'uniform':
        n = rng.randrange(2, 25)
        dts = [total / n] * n
    else:
        n = rng.randrange(2, 10)
        if kind == 'geometric':
            w = [2.0**-k for k in range(n)]
        elif kind == 'burst':
            w = [1.0] + [0.01] * n
        elif kind == 'tiny':
            w = [1.0] + [1e-7, 1e-5, 1e-9, 1e-3][:n] + [0.5]
        else:
            w = [rng.uniform(0.05, 1) for _ in range(n)]
        tot = math.fsum(w)
        dts = [total * x / tot for x in w]
        if kind == 'zero-ticks':
            for _ in range(rng.randrange(1, 4)):
                dts.insert(rng.randrange(len(dts) + 1), 0.0)
        elif kind != 'geometric':
            rng.shuffle(dts)
    return {'kind': kind, 'int': False, 'dts': dts}


class Sampling(Base):
    """T02"""
    rule = ('Runs: bodies that request trajectory samples beside twins that do not, through the same faulty history, with clients reading the '
            'samples at random moments; non-trivial: at least one tick executed. ')
    shrink_keys = ['ops']
    kinds = ['cwh', 'rot2d', 'sixdof', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user', 'user', 'user', 'cust']

    def gen(self, rng, i, tier):
        spec = world.gen_spec(rng, world.pick(rng, *self.kinds), 'a', ('RK45', ), samples=0.0)
        spec['samples'] = world.pick(rng, 1, 1, 2, 3, 4, 5, 7, 10, 11, 33)
        if spec['kind'] in ('cwh', 'dub2', 'dub3', 'int1', 'int2', 'int3') and rng.random() < 0.08:  # a few huge strides, densely sampled
            spec['samples'] = world.pick(rng, 60, 400, 1500, 2600)
            ops = world.gen_history(rng, [spec], 5, over=0.25, dt_scale=world.pick(rng, 120.0, 700.0, 1500.0, 4000.0))
        else:
            ops = world.gen_history(rng, [spec], 25, over=0.25, endure=0.04)
        ref = world.ref_of(spec)
        for op in ops:
            if op[0] == 'assign' and rng.random() < 0.7:
                world.push_out(rng, ref, op, (0.0, 0.01, 0.1, 0.5))
        return {'body': spec, 'ops': ops, 'reads': [rng.randrange(3) for _ in range(7)]}

    def run(self, plan, run):
        ns = lib.fresh()
        spec = plan['body']
        ref = world.ref_of(spec)
        n = spec['samples']
        e = world.build(ns, spec)
        plain = world.build(ns, {k: v for k, v in spec.items() if k != 'samples'})
        kept = []
        for k, op in enumerate(plan['ops']):
            if op[0] == 'assign':
                world.assign(e, op[2])
                world.assign(plain, op[2])
                run.fault('state-reassignment')
                continue
            _, _, dt, cmd, tags = op
            for t in tags:
                run.fault(t)
            u, _w = ref.command(cmd)
            plain.state = e.state
            o = world.tick(e, dt, world.real_cmd(cmd))
            o2 = world.tick(plain, dt, world.real_cmd(cmd))
            run.count('ticks')
            run.sim += dt
            name = f'{spec["kind"]} with {n} samples, tick of {dt!r} s from {o.s0.tolist()}'
            if o.exc is not None or o2.exc is not None:
                raise Violation('step-raised', f'{name}: {o.exc!r} / {o2.exc!r}')
            tol = 1e-9 * (np.abs(o.s0) + np.abs(o.s1)) + 1e-12
            if ref.f32 or o.f32:
                tol = tol + 1e-12
            d = np.abs(ref.diff(o.s1, o2.s1))
            dd = np.abs(o.dot - o2.dot)
            if np.any(d > tol):
                raise Violation('not-passive', f'{name}: end state {o.s1.tolist()} differs from {o2.s1.tolist()} without samples')
            near = np.any((np.abs(o.s1 - ref.smax) <= 1e-9 * (1 + np.abs(o.s1))) | (np.abs(o.s1 - ref.smin) <= 1e-9 * (1 + np.abs(o.s1))))
            if not near and np.any(dd > 1e-6 * (np.abs(o.dot) + 1e-6) + 1e-6 * (np.max(np.abs(o.dot)))):
                raise Violation('not-passive', f'{name}: derivative {o.dot.tolist()} differs from {o2.dot.tolist()} without samples')
            if dt == 0:
                run.count('zero_length_ticks')
                world.absorb(run.dig, o)
                continue
            if o.traj is None or o.traj_t is None or o.traj.shape != (n, ref.nx) or o.traj_t.shape != (n, ):
                raise Violation('sample-count', f'{name}: samples of shape {None if o.traj is None else o.traj.shape} at times {None if o.traj_t is None else o.traj_t.shape}')
            times = np.array([dt * (j + 1) / n for j in range(n - 1)] + [dt])
            if np.any(np.abs(o.traj_t - times) > 1e-12 * dt):
                raise Violation('sample-times', f'{name}: sampled at {o.traj_t.tolist()} instead of {times.tolist()}')
            last = ref.clip(o.traj[-1])
            if np.any(np.abs(ref.diff(last, o.s1)) > 1e-9 * (np.abs(last) + np.abs(o.s1)) + 1e-12):
                raise Violation('last-sample', f'{name}: last sample {o.traj[-1].tolist()}, end state {o.s1.tolist()}')
            self.on_motion(run, ref, dt, o, u, times, name)
            for old, was in kept:
                if np.asarray(old, float).tobytes() != was:
                    raise Violation('sample-changed', f'{name}: the samples of an earlier tick now read {np.asarray(old).tolist()}')
            if k % 3 == 0:
                kept = kept[-3:] + [(a, np.array(a, float).tobytes()) for a in (e.dynamics.trajectory, e.dynamics.trajectory_t)]
            for _ in range(plan['reads'][k % 7]):
                _r = np.array(e.dynamics.trajectory).sum() + np.array(e.dynamics.trajectory_t).sum()
                run.count('reads')
            world.absorb(run.dig, o)
            run.see(spec['kind'], n, int(np.log10(dt + 1e-9)), near, tuple(tags)[:1])
        run.sample = {'body': [spec['kind'], spec['params'], n], 'first_ops': plan['ops'][:2]}

    @staticmethod
    def on_motion(run, ref, dt, o, u, times, name):

        def dense(s, dot=None, c=u):
            sol = scipy.integrate.solve_ivp(dot or ref.dot, (0, dt), s, args=(c, ), t_eval=times)
            return sol.y.T if sol.success else None

        want = dense(o.s0)
        if want is None:
            return
        held = ((o.s0 > ref.smax) | (o.s0 < ref.smin)) & np.all(want == o.s0, axis=0)
        if held.any():  # an element beyond its limit that the motion leaves where it is
            run.count('held_beyond_limit')
            bad = np.nonzero(held & np.any(np.abs(o.traj - o.s0) > 1e-6 * np.abs(o.s0), axis=0) & ~np.array([c is not None for c in ref.wrap]))[0]
            if bad.size:
                i = bad[0]
                raise Violation('sample-off-motion', f'{name}: element {i} stays at {o.s0[i]!r} during the tick, samples say {o.traj[:, i].tolist()}')
        tol = 4 * ref.tight(dt, o.s0, np.max(np.abs(np.vstack([want, [o.s0]])), axis=0), u, False)
        d = np.abs(o.traj - want)
        if np.all(d <= tol):
            run.count('samples_exact', len(times))
            return
        # solver scatter under rounding-size perturbations, as in Ref.scatter
        rng = np.random.RandomState(11)
        spread = np.zeros(want.shape)
        keep = ref.smin, ref.smax, ref.dmin, ref.dmax
        size = 1e-7
        try:
            for k in range(24):
                h = size * (1e-8, 1e-3, 1.0)[k % 3]
                e = lambda m: 1 + h * rng.uniform(-1, 1, m)  # noqa: E731
                ref.smin, ref.smax, ref.dmin, ref.dmax = [v * e(ref.nx) for v in keep]
                c = dense(np.clip(o.s0 * e(ref.nx), ref.smin, ref.smax), lambda t, x, v: ref.dot(t, x, v) * e(ref.nx), u * e(ref.nu))
                if c is not None:
                    spread = np.maximum(spread, np.abs(c - want))
        finally:
            ref.smin, ref.smax, ref.dmin, ref.dmax = keep
        # within the dense output's own error (steps straddle limits): compare with the truth at the sample times
        suspect = np.nonzero(np.any(d > tol + 4 * spread, axis=1))[0]
        for j in suspect[::max(1, len(suspect) // 40)]:
            b = ref.truth(times[j], o.s0, u)
            if b is None:
                return
            sc = 1e-6 + 1e-3 * np.maximum(np.abs(o.s0), np.abs(b))
            err = np.max(np.abs(ref.diff(ref.clip(want[j]), b)) / sc)
            extra = 4 * err * sc + np.abs(want[j] - ref.clip(want[j]))
            dj = np.abs(ref.diff(ref.clip(o.traj[j]), b))
            bad = np.nonzero((dj > tol + extra + 4 * spread[j]) & (d[j] > tol + 4 * spread[j]))[0]
            if bad.size:
                i = bad[0]
                raise Violation('sample-off-motion', f'{name}: sample {j} element {i} is {o.traj[j, i]!r}, motion there is {b[i]!r} (reference sample {want[j, i]!r})')
        run.count('samples_within_solver_error_only', len(times))


class ModelFault(Exception):
    pass


FAULTS = {c.__name__: c for c in (ModelFault, ArithmeticError, ValueError, FloatingPointError, ZeroDivisionError, OverflowError, KeyError, IndexError, AttributeError, TypeError,
                                 RuntimeError, NotImplementedError, StopIteration, AssertionError, MemoryError, OSError, np.linalg.LinAlgError)}


class Stuck(BaseException):
    pass


class Failing(Base):
    """T03"""
    rule = ('Runs: user models on either solver that raise, or on the adaptive solver return NaN or infinity, or blow up at a chosen time or evaluation within a '
            'tick, then recover; a fault-free twin gives the expected result; non-trivial: at least one injected fault. ')
    shrink_keys = ['ops']
    nontrivial = ('ticks', )

    def gen(self, rng, i, tier):
        methods = ('RK45', 'RK45', 'RK45', 'Euler')
        spec = world.gen_spec(rng, 'user', 'a', methods, samples=0.3)
        while spec['params']['model'] not in ('lin', 'ode') or spec['params']['nx'] < 2 or (spec['params']['model'] == 'lin' and rng.random() < 0.5):
            spec = world.gen_spec(rng, 'user', 'a', methods, samples=0.3)
        ops = world.gen_history(rng, [spec], 30, over=0.2, zero=False)
        out = []
        for op in ops:
            if op[0] == 'tick' and rng.random() < 0.5:
                kind = world.pick(rng, 'raise-at-time', 'raise-at-eval', 'nan-from-time', 'inf-from-time', 'nan-window', 'nan-from-start', 'nan-at-end')
                el = rng.randrange(1, max(2, spec['params']['nx']))
                euler = spec['method'] == 'Euler'
                if euler:  # one evaluation per tick; only a model that raises is a failure there
                    kind = 'raise-at-eval'
                out.append(['fault', {'kind': kind, 'frac': rng.randrange(1000000) / 1000000, 'eval': 1 if euler else world.pick(rng, 1, rng.randrange(1, 10), rng.randrange(1, 40)), 'el': el,
                                      'width': world.logu(rng, 1e-4, 0.3), 'exc': rng.choice(sorted(FAULTS))}])
            out.append(op)
            if rng.random() < 0.08:
                out.append(['escape', world.logu(rng, 1e-2, 1e3), world.pick(rng, 2, 3), rng.uniform(0.5, 5)])
        return {'body': spec, 'ops': out}

    def run(self, plan, run):
        ns = lib.fresh()
        spec = plan['body']
        ref = world.ref_of(spec)
        lin = spec['params']['model'] == 'lin'
        fault = [None]
        st = {'n': 0, 'dt': 1.0, 'hit': False}

        def hook(t):
            st['n'] += 1
            if st['n'] > 200000:
                raise Stuck
            f = fault[0]
            if f is None:
                return None
            k = f['kind']
            exc = FAULTS[f['exc']]
            at = f['frac'] * st['dt']
            if k == 'raise-at-time' and t >= at or k == 'raise-at-eval' and st['n'] >= f['eval']:
                st['hit'] = True
                raise exc('injected')
            bad = None
            if k == 'nan-from-time' and t >= at or k == 'nan-from-start':
                bad = math.nan
            elif k == 'inf-from-time' and t >= at:
                bad = math.inf
            elif k == 'nan-window' and at <= t <= at + f['width'] * st['dt']:
                bad = math.nan
            elif k == 'nan-at-end' and t >= st['dt'] * (1 - 1e-9):
                bad = math.nan
            if bad is None:
                return None
            st['hit'] = True
            if lin:
                raise exc('injected')
            return (f['el'], bad)

        e = world.build(ns, spec, hook=hook)
        twin = world.build(ns, spec)
        armed = None
        for op in plan['ops']:
            if op[0] == 'fault':
                armed = op[1]
                continue
            if op[0] == 'escape':
                self.escape(ns, op, run)
                continue
            if op[0] == 'assign':
                world.assign(e, op[2])
                world.assign(twin, op[2])
                continue
            _, _, dt, cmd, tags = op
            u, _w = ref.command(cmd)
            name = f'{spec["params"]["model"]} model, tick of {dt!r} s'
            if armed is not None:
                st.update(n=0, dt=dt, hit=False)
                fault[0] = armed
                s0, d0 = e.state.tobytes(), np.array(e.state_dot).tobytes()
                t0 = getattr(e.dynamics, 'trajectory', None)
                try:
                    o = world.tick(e, dt, world.real_cmd(cmd))
                except Stuck:
                    raise Violation('no-progress', f'{name}: the step did not return after {st["n"]} model evaluations with fault {armed}') from None
                fault[0] = None
                run.fault(armed['kind'])
                run.count('ticks')
                fired = st['hit']
                if o.exc is None:
                    persistent = armed['kind'] in ('nan-from-time', 'inf-from-time', 'nan-from-start', 'nan-at-end') and not masked(ref, armed)
                    if fired and (armed['kind'].startswith('raise') or lin):
                        raise Violation('swallowed', f'{name}: the model failed ({armed}) and step() returned normally')
                    if fired and persistent and (armed['kind'] != 'inf-from-time'):
                        raise Violation('silent-failure', f'{name}: the model was undefined to the end ({armed}) and step() returned normally with {o.s1.tolist()}')
                    if not np.all(np.isfinite(o.s1)):
                        raise Violation('silent-failure', f'{name}: step() returned a non-finite state under {armed}')
                    if abs(o.s1[0] - o.s0[0] - dt) > 1e-9 * (1 + abs(o.s1[0])) and not lin:
                        raise Violation('short-tick', f'{name}: step() returned after advancing the clock by {o.s1[0] - o.s0[0]!r} under {armed}')
                    run.count('ticks_completed_despite_fault')
                    # go on from the same state as the twin
                    e.state = twin.state
                    e.state_dot = np.array(twin.state_dot)
                else:
                    run.count('ticks_failed')
                    if not fired:
                        raise Violation('step-raised', f'{name}: {type(o.exc).__name__}: {o.exc} without a fault')
                    if e.state.tobytes() != s0 or np.array(e.state_dot).tobytes() != d0:
                        raise Violation('state-changed', f'{name}: a failed step left state {e.state.tolist()} derivative {np.array(e.state_dot).tolist()} '
                                        f'(was {o.s0.tolist()}) under {armed}')
                    if armed['kind'].startswith('raise') and type(o.exc).__name__ != armed['exc']:
                        run.count('failures_reported_as_other_exception')
                    del t0
                armed = None
                world.absorb(run.dig, o)
                run.see(spec['params']['model'], 'fault', o.exc is None, type(o.exc).__name__)
            st.update(n=0, dt=dt, hit=False)
            try:
                o = world.tick(e, dt, world.real_cmd(cmd))
            except Stuck:
                raise Violation('no-progress', f'{name}: the step did not return') from None
            w = world.tick(twin, dt, world.real_cmd(cmd))
            run.count('ticks')
            run.sim += dt
            if o.exc is not None or w.exc is not None:
                raise Violation('step-raised', f'{name}: {o.exc!r} / {w.exc!r}')
            if not np.array_equal(o.s1, w.s1) or not np.array_equal(o.dot, w.dot):
                raise Violation('not-recovered', f'{name}: after a failed tick the same tick gives {o.s1.tolist()}, fault-free {w.s1.tolist()}')
            if not lin and abs(o.s1[0] - o.s0[0] - dt) > 1e-9 * (1 + abs(o.s1[0])):
                raise Violation('short-tick', f'{name}: step() returned after advancing the clock by {o.s1[0] - o.s0[0]!r}')
            msg = ref.check(dt, o.s0, u, o.s1, spec['method'], None, o.f32)
            if msg:
                raise Violation('motion', msg)
            world.absorb(run.dig, o)
            run.see(spec['params']['model'], 'ok', int(np.log10(dt)), tuple(tags)[:1])
        run.sample = {'body': [spec['kind'], spec['params']], 'first_ops': plan['ops'][:3]}

    @staticmethod
    def escape(ns, op, run):
        """a model with finite escape time: a tick past it cannot be completed, one before it can"""
        _, x0, power, frac = op
        count = [0]

        class Dyn(ns.base.BaseODESolverDynamics):

            def _compute_state_dot(self, t, state, control):
                count[0] += 1
                if count[0] > 200000:
                    raise Stuck
                return np.array([state[0]**power, 1.0])

        blow = 1.0 / ((power - 1) * x0**(power - 1))
        dt = blow * frac
        s0 = np.array([x0, 0.0])
        run.fault('finite-escape')
        try:
            s1, _d = Dyn().step(dt, s0, np.zeros(1))
        except Stuck:
            raise Violation('no-progress', f'x\'=x^{power} from {x0!r}: step of {dt!r} s does not return') from None
        except Exception as ex:  # noqa: BLE001
            if frac < 0.99:
                raise Violation('step-raised', f'x\'=x^{power} from {x0!r} for {dt!r} s (escape at {blow!r}): {ex!r}') from None
            return
        if frac > 1.05:
            raise Violation('silent-failure', f'x\'=x^{power} from {x0!r}: a tick of {dt!r} s past the escape time {blow!r} returned {s1.tolist()}')
        if abs(s1[1] - dt) > 1e-9 * dt:
            raise Violation('short-tick', f'x\'=x^{power}: clock advanced by {s1[1]!r} instead of {dt!r}')


def masked(ref, f):
    """derivative limits turn an infinite derivative into a finite one"""
    i = f['el']
    return f['kind'] == 'inf-from-time' and math.isfinite(ref.dmax[i])


CHECKS = {'T01': Slicing(), 'T02': Sampling(), 'T03': Failing()}
