"""R05, F01, E01: the F-16 airframe, its controller and the fixed-step simulator integrator."""
import math
import random

import numpy as np
import scipy.integrate

from . import f16ref, lib, sched, world
from .core import Base, Violation

NAMES = [('VT', 0), ('VEL', 0), ('ALPHA', 1), ('BETA', 2), ('PHI', 3), ('THETA', 4), ('PSI', 5), ('P', 6), ('Q', 7), ('R', 8), ('POSN', 9), ('POS_N', 9),
         ('POSE', 10), ('POS_E', 10), ('ALT', 11), ('H', 11), ('POW', 12)]
TRIM = [502.0, 0.03887505597600522, 0.0, 0.0, 0.03887505597600522, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1000.0, 9.05666543872074, 0.0, 0.0, 0.0]


def deg(v):
    return v / f16ref.RTOD


def spot(rng, lo, hi, step):
    """a coordinate in [lo, hi]: anywhere, exactly on a table line, at the edge or a hair off"""
    r = rng.random()
    k = rng.randrange(int(round((hi - lo) / step)) + 1) * step + lo
    if r < 0.7:
        c = rng.randrange(int(round((hi - lo) / step)))
        return lo + (c + rng.random()) * step
    if r < 0.8:
        return k
    if r < 0.9:
        return k + world.pick(rng, -1, 1) * world.logu(rng, 1e-12, 1e-2)
    return world.pick(rng, lo, hi)


def integrators(x, el, ail, rdr):
    """controller integrator states for which the controller asks for these deflections"""
    e = f16ref.control(list(x[:13]) + [0.0, 0.0, 0.0], [0, 0, 0, 0])[0]
    k = f16ref.K_LONG
    x13 = (f16ref.UEQ[1] - el - k[0] * e[0] - k[1] * e[1]) / k[2]
    K = np.array(f16ref.K_LAT)
    rhs = np.array([-ail, -rdr]) - K[:, :3] @ np.array(e[3:6])
    x14, x15 = np.linalg.solve(K[:, 3:], rhs)
    return [x13, float(x14), float(x15)]


def jump(rng):
    """any state inside, at the edge of or slightly beyond the aerodynamic tables"""
    wide = rng.random() < 0.12
    al = spot(rng, -10, 45, 5) if not wide else rng.uniform(-17, 55)
    be = spot(rng, -30, 30, world.pick(rng, 5, 10)) if not wide else rng.uniform(-36, 36)
    calm = rng.random() < 0.3
    w = 0.05 if calm else 1.0
    x = [world.pick(rng, rng.uniform(150, 1150), rng.uniform(300, 700)), deg(al), deg(be), rng.uniform(-math.pi, math.pi) * (0.2 if calm else 1),
         rng.uniform(-1.2, 1.2), rng.uniform(-4, 4), rng.gauss(0, w), rng.gauss(0, w), rng.gauss(0, w), rng.uniform(-1e4, 1e4), rng.uniform(-1e4, 1e4),
         world.pick(rng, rng.uniform(0, 50000), rng.uniform(0, 50000), rng.uniform(30000, 40000), rng.uniform(50000, 60000), 50000.0, rng.uniform(-300, 300), 0.0, 35000.0, 10000.0,
                    np.nextafter(35000.0, 0)),
         world.pick(rng, rng.uniform(0, 100), rng.uniform(0, 100), 0.0, 50.0, 100.0, np.nextafter(50.0, 0))]
    if rng.random() < 0.15:
        x[rng.choice([2, 3, 4, 5, 6, 7, 8])] = 0.0
    if rng.random() < 0.75:
        x += integrators(x, spot(rng, -24, 24, 12) if rng.random() < 0.9 else rng.choice([-25.0, 25.0]), rng.uniform(-22, 22), rng.uniform(-31, 31))
    else:
        x += [rng.gauss(0, 1) for _ in range(3)]
    return [float(v) for v in x]


def gen_uref(rng):
    return [rng.uniform(-1, 6), rng.uniform(-1, 1) * world.pick(rng, 0.1, 5.0), world.pick(rng, 0.0, rng.uniform(-1, 1)),
            world.pick(rng, rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(-0.4, 1.4), 0.0, 1.0, 0.77 - 0.1395)]


def sane(x):
    return (np.all(np.isfinite(x)) and 100 < x[0] < 2000 and -0.35 < x[1] < 1.0 and abs(x[2]) < 0.65 and abs(x[4]) < 1.45 and -1000 < x[11] < 60000
            and np.max(np.abs(x[6:9])) < 12 and -5 < x[12] < 120)


class Airframe(Base):
    """R05"""
    rule = ('Runs: closed-loop F-16 flights (fixed-step or adaptive) through seeded reference-command schedules with lost/held/late commands, gusts that '
            'throw the aircraft to any point of the aerodynamic tables, and switches of aerodynamic model and integrator definition; every derivative '
            'evaluation of every flight is compared; non-trivial: at least one evaluation. ')
    measure = 'distinct (model, alpha cell, beta cell, elevator cell, Mach cell, altitude cell, power regime) tuples evaluated'
    nontrivial = ('evaluations', )
    runs = {'quick': 8000, 'thorough': 30000}
    real = 'aerobench controlled_f16, low-level controller, airframe, tables, Euler integrator (imported afresh from /repo per simulated process), numpy, scipy RK45'
    stubs = 'command channel, gusts and sensors are simulated'
    assumptions = ['tables, polynomials, gains and constants of the pinned commit are the documented data (transcribed into dst/f16ref.py)',
                   'derivatives compared to 1e-9 of the magnitude of the terms they are summed from']

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randrange(10, 22)):
            r = rng.random()
            if r < 0.5:
                ops.append(['gust', jump(rng)])
                if rng.random() < 0.6:
                    ops.append(['fly', rng.randrange(1, 4), gen_uref(rng), 'Euler'])
            elif r < 0.65:
                ops.append(['model', world.pick(rng, 'stevens', 'stevens', 'morelli'), rng.random() < 0.3])
            elif r < 0.85:
                ops.append(['fly', rng.randrange(2, 14), gen_uref(rng), world.pick(rng, 'Euler', 'Euler', 'RK45')])
            else:
                ops.append(['direct', jump(rng), [world.pick(rng, rng.random(), 0.77), spot(rng, -25, 25, 10), rng.uniform(-21.5, 21.5), rng.uniform(-30, 30)],
                            rng.random() < 0.5, world.pick(rng, 'list', 'array', 'array')])
        return {'ops': ops, 'dt': world.pick(rng, 1 / 30, 1 / 60, 0.01), 'model': world.pick(rng, 'stevens', 'stevens', 'morelli'), 'v2': rng.random() < 0.3}

    def run(self, plan, run):
        ns = lib.fresh(f16=True, spacecraft=False)
        llc = ns.llc.LowLevelController()
        model, v2, dt = plan['model'], plan['v2'], plan['dt']
        index = getattr(ns.util, 'StateIndex', None)
        x = np.array(TRIM)
        seen = set()
        calls = [0]

        def judge(got, want, mag, what, xs, rel=1e-9):
            for j, (g, w, m) in enumerate(zip(got, want, mag)):
                if not abs(g - w) <= rel * (abs(w) + m):
                    raise Violation('airframe', f'{model} v2={v2}: {what}[{j}] is {float(g)!r}, the equations give {w!r} (scale {m:.3g}) at state {np.asarray(xs).tolist()}')

        def cellsof(xs, u):
            al, be = xs[1] * f16ref.RTOD, xs[2] * f16ref.RTOD
            key = (model, int(math.floor(al / 5)), int(math.floor(be / 5)), int(math.floor(u[1] / 12)), int(f16ref.air(xs[0], xs[11])[0] * 5), int(xs[11] // 10000), xs[12] >= 50)
            if key not in seen:
                seen.add(key)
                run.see(*key)

        def checked(xs, uref):
            r = np.array(uref, dtype=float)
            calls[0] += 1
            if not v2 and model == 'morelli' and calls[0] % 3 == 0:
                xd, urad, nz, ps, nyr = ns.cf.controlled_f16(xs, r, llc)
            elif not v2 and calls[0] % 2:
                xd, urad, nz, ps, nyr = ns.cf.controlled_f16(xs, r, llc, f16_model=model)
            elif calls[0] % 5 == 0:
                xd, urad, nz, ps, nyr = ns.cf.controlled_f16(xs, r, llc, v2_integrators=v2, f16_model=model)
            else:
                xd, urad, nz, ps, nyr = ns.cf.controlled_f16(xs, r, llc, model, v2)
            run.count('evaluations')
            urad = np.asarray(urad, float)
            e, u, um = f16ref.control(xs, uref)
            uc = [urad[0]] + [math.degrees(v) for v in urad[1:4]]
            judge(uc, u, um, 'throttle/elevator/aileron/rudder', xs, 1e-11)
            judge(urad[4:7], uref[:3], [0, 0, 0], 'reference', xs, 1e-12)
            full, _, rnz, rps, rnyr, mag, _ = f16ref.closed_loop(xs, uref, model, v2, uc)
            if len(xd) != len(xs):
                raise Violation('airframe', f'derivative of {len(xd)} elements for a state of {len(xs)}')
            rel = 1e-6 if xs[11] < 0 else 1e-9
            cpow = f16ref.gear(uc[0])
            if abs(cpow - 50) < 1e-9 or (xs[12] != 50 and abs(xs[12] - 50) < 1e-9) or abs(uc[0] - 0.77) < 1e-12:
                mag[12] = math.inf  # on the edge of the engine's regime switch
            judge(xd, full, mag, 'derivative', xs, rel)
            for name, k in NAMES:
                at = getattr(index, name, None)
                if at is not None and at != k:
                    raise Violation('state-index', f'StateIndex.{name} is {at!r}, that component is number {k} of the state')
            judge([nz, ps, nyr], [rnz, rps, rnyr], mag[13:16], 'load factor, stability roll rate, side load', xs, rel)
            run.dig.update(np.asarray(xd, float).tobytes())
            cellsof(xs, uc)
            return np.asarray(xd, float)

        for op in plan['ops']:
            if op[0] == 'gust':
                x = np.array(op[1])
                run.fault('gust')
                checked(x.copy(), gen_fixed(op[1]))
            elif op[0] == 'model':
                model, v2 = op[1], op[2]
            elif op[0] == 'direct':
                xs, u, adj, form = op[1], op[2], op[3], op[4]
                xs13 = np.array(xs[:13])
                xd, nz, ny, az, ay = ns.sub.subf16_model(xs13, np.array(u) if form == 'array' else list(u), model, *([] if adj and xs[0] < 500 else [adj]))
                run.count('evaluations')
                rxd, rnz, rny, raz, ray, mag, am = f16ref.airframe(xs[:13], u, model, adj)
                cpow = f16ref.gear(u[0])
                if abs(cpow - 50) < 1e-9 or (xs[12] != 50 and abs(xs[12] - 50) < 1e-9):
                    mag[12] = math.inf
                rel = 1e-6 if xs[11] < 0 else 1e-9
                judge(xd, rxd, mag, 'airframe derivative', xs, rel)
                judge([nz, ny, az, ay], [rnz, rny, raz, ray], [am, am, am, am], 'nz, ny, az, ay', xs, rel)
                run.dig.update(np.asarray(xd, float).tobytes())
                cellsof(np.array(xs), u)
            else:
                _, n, uref, how = op
                if how == 'Euler':
                    it = ns.util.Euler(lambda t, y: checked(y, uref), 0.0, x, n * dt, dt)
                else:
                    it = scipy.integrate.RK45(lambda t, y: checked(y, uref), 0.0, x, n * dt)
                while it.status == 'running':
                    it.step()
                    if not sane(it.y):
                        run.count('departures')
                        break
                x = np.array(it.y) if sane(it.y) else np.array(TRIM)
                run.sim += n * dt
                run.count('flights')
        run.sample = {'model': plan['model'], 'v2': plan['v2'], 'first_ops': plan['ops'][:2]}


def gen_fixed(x):
    return [math.cos(x[0]) * 3, math.sin(x[0]), 0.25 * math.sin(3 * x[0]), 0.5 + 0.6 * math.sin(7 * x[0])]


class Controller(Base):
    """F01"""
    rule = ('Runs: several controllers and aircraft served in a seeded interleaving (also from concurrent threads switched inside the package), fed '
            'ordinary, corrupted and extreme finite sensor values; each answer is compared bit for bit with the answer of a process that never did '
            'anything else; non-trivial: at least one controller call. ')
    measure = 'distinct (call kind, model, saturation pattern, extreme, threaded) tuples'
    nontrivial = ('calls', )
    runs = {'quick': 4000, 'thorough': 6000}
    real = Airframe.real
    stubs = 'aircraft, sensors and the thread scheduler are simulated'

    def gen(self, rng, i, tier):
        ops = []
        nl = rng.randrange(1, 4)
        recent = []
        for _ in range(rng.randrange(10, 40)):
            if recent and rng.random() < 0.3:
                x, ur = rng.choice(recent)
            else:
                x, ur = jump(rng), gen_uref(rng)
                recent.append((x, ur))
            kind = world.pick(rng, 'u', 'u', 'u', 'f16', 'int', 'new', 'scribble', 'tune', 'typo')
            if kind == 'u':
                x = list(x)
                if rng.random() < 0.5:
                    for _k in range(rng.randrange(1, 5)):
                        x[rng.randrange(16)] = world.pick(rng, -1, 1) * world.logu(rng, 1e-3, 1e290)
                ur = list(ur)
                if rng.random() < 0.2:
                    ur[rng.randrange(4)] = world.pick(rng, -1, 1) * world.logu(rng, 1, 1e290)
                if rng.random() < 0.1:
                    x = x + [rng.gauss(0, 1)]
            ops.append([kind, rng.randrange(nl), x, ur, world.pick(rng, 'stevens', 'morelli'), rng.random() < 0.4, rng.randrange(1000)])
        return {'ops': ops, 'n': nl, 'threads': rng.random() < 0.25, 'sched': rng.randrange(1 << 30), 'p': world.logu(rng, 0.01, 0.2), 'opcodes': rng.random() < 0.3}

    def run(self, plan, run):
        ns = lib.fresh(f16=True, spacecraft=False)
        LL = ns.llc.LowLevelController
        ctrls = [LL() for _ in range(plan['n'])]
        shared = {k: getattr(LL, k).tobytes() for k in ('old_k_long', 'old_k_lat', 'old_xequil', 'old_uequil') if hasattr(LL, k)}
        answers = [None] * len(plan['ops'])
        rets = []
        scribbles = []
        tuned = {}  # adjusted controllers: gain, limits

        def call(n, llcs, op):
            kind, b, x, ur, model, v2, _s = op
            xa, ua = np.array(x), np.array(ur)
            bx, bu = xa.tobytes(), ua.tobytes()
            llc = llcs[b % len(llcs)]
            if kind == 'u':
                r = llc_u(llc, ua, xa)
            elif kind == 'f16':
                if not v2 and model == 'morelli':
                    r = n.cf.controlled_f16(xa, ua, llc)
                else:
                    r = n.cf.controlled_f16(xa, ua, llc, model, v2)
            else:
                r = llc.get_integrator_derivatives(ua, x[0], x[1], x[2])
            if xa.tobytes() != bx or ua.tobytes() != bu:
                raise Violation('arguments-modified', f'{kind}: state {x} reference {ur} became {xa.tolist()} {ua.tolist()}')
            return r

        def one(k):
            op = plan['ops'][k]
            if op[0] == 'new':
                ctrls[op[1]] = LL()
                tuned.pop(op[1], None)
                return
            if op[0] == 'tune':  # this controller becomes another one; all others stay what they are
                c = ctrls[op[1]]
                t = tuned.setdefault(op[1], [1.0, list(f16ref.UMIN), list(f16ref.UMAX)])
                if op[6] % 2:
                    c.K_lqr *= 0.5
                    t[0] *= 0.5
                if op[6] % 3:
                    lim = c.ctrlLimits
                    w = 1 + op[6] % 7 / 4
                    if op[6] % 3 == 1:
                        lim.ThrottleMax, lim.ElevatorMaxDeg, lim.AileronMinDeg, lim.RudderMaxDeg = 0.1 * w, 0.5 * w, -0.5 * w, 0.25 * w
                        t[1][2], t[2] = -0.5 * w, [0.1 * w, 0.5 * w, t[2][2], 0.25 * w]
                    else:
                        lim.ThrottleMin, lim.ElevatorMinDeg, lim.AileronMaxDeg, lim.RudderMinDeg = 0.01 * w, -40.0 * w, 45.0 * w, -0.25 * w
                        t[2][2], t[1] = 45.0 * w, [0.01 * w, -40.0 * w, t[1][2], -0.25 * w]
                run.fault('controller-tuned')
                return
            if op[0] == 'typo':  # a client misspells an attribute
                c = ctrls[op[1]]
                o = [c, c.ctrlLimits, ns.util.Euler(lambda t, y: -y, 0.0, np.array([1.0]), 1.0, 0.1), ns.util.SafetyLimits(altitude=[0, 100])][op[6] % 4]
                names = sorted(vars(o))
                name = names[op[6] // 4 % len(names)] + ('x', '_', 's', '2')[op[6] // 100 % 4]
                before = {k: repr(v) for k, v in vars(o).items()}
                try:
                    setattr(o, name, 1.0)
                except (TypeError, AttributeError):
                    pass
                else:
                    raise Violation('typo-accepted', f'{type(o).__name__} took attribute {name}, which it does not have')
                if hasattr(o, name) or {k: repr(v) for k, v in vars(o).items()} != before:
                    raise Violation('partial-effect', f'{type(o).__name__} refused attribute {name} and changed from {before} to {vars(o)}')
                run.fault('misspelt-attribute')
                return
            if op[0] == 'scribble':
                for r in rets[-3:]:
                    for a in r:
                        if isinstance(a, np.ndarray) and a.flags.writeable:
                            a[...] = 1e9
                run.fault('scribble-result')
                scribbles.append(k)
                return
            r = call(ns, ctrls, op)
            if op[1] in tuned:
                if op[0] == 'u':
                    gain, lows, highs = tuned[op[1]]
                    want, mag = f16ref.control(op[2][:16], op[3], gain, lows, highs)[1:]
                    u = np.asarray(r[1], float)
                    for j in range(4):
                        if not lows[j] <= u[j] <= highs[j]:
                            raise Violation('outside-actuator-limits', f'channel {j} commanded {u[j]!r} outside the limits [{lows[j]}, {highs[j]}] this controller was given, for state {op[2]} reference {op[3]}')
                        if not abs(u[j] - want[j]) <= 1e-10 * mag[j]:
                            raise Violation('wrong-command', f'adjusted controller (gain {gain}): channel {j} commanded {u[j]!r} instead of {want[j]!r} for state {op[2]} reference {op[3]}')
                    run.count('adjusted_calls')
                return
            answers[k] = frozen(r)
            rets.append(r if isinstance(r, tuple) else (r, ))
            run.count('calls')
            if op[0] in ('u', 'f16'):
                u = list(np.asarray(r[1], float)[:4])
                if op[0] == 'f16':
                    u = [u[0]] + [math.degrees(v) for v in u[1:]]
                eps = 0.0 if op[0] == 'u' else 1e-12
                for j, (v, lo, hi) in enumerate(zip(u, f16ref.UMIN, f16ref.UMAX)):
                    if not lo - eps <= v <= hi + eps:
                        raise Violation('outside-actuator-limits', f'{op[0]}: channel {j} commanded {v!r} outside [{lo}, {hi}] for state {op[2]} reference {op[3]}')
                want, mag = f16ref.control(op[2][:16], op[3])[1:]
                for j in range(4):
                    if not abs(u[j] - want[j]) <= 1e-10 * mag[j]:
                        raise Violation('wrong-command', f'{op[0]}: channel {j} commanded {u[j]!r} instead of {want[j]!r} for state {op[2]} reference {op[3]}')
                sat = tuple(-1 if v <= lo else 1 if v >= hi else 0 for v, lo, hi in zip(u, f16ref.UMIN, f16ref.UMAX))
                big = max(abs(v) for v in op[2]) > 1e6
                if big:
                    run.fault('corrupt-sensor')
                run.see(op[0], op[4] if op[0] == 'f16' else '', sat, big, bool(plan['threads']))

        idx = list(range(len(plan['ops'])))
        if plan['threads']:
            bat = sched.Baton(random.Random(plan['sched']), plan['p'], plan['opcodes'])
            h = [k for k in idx if plan['ops'][k][6] % 2]
            g = [k for k in idx if not plan['ops'][k][6] % 2]

            def drive(ks):
                return lambda: [one(k) for k in ks if plan['ops'][k][0] not in ('scribble', 'new', 'tune', 'typo')]

            bat.run([drive(q) for q in (h, g) if q])
            run.fault('thread-preemption', bat.switches)
            run.dig.update(str(bat.trace_hash).encode())
        else:
            for k in idx:
                one(k)
        for k, v in shared.items():
            if getattr(LL, k).tobytes() != v:
                raise Violation('shared-data-modified', f'{k} became {getattr(LL, k).tolist()}')
        # the same calls, each in a process that did nothing else (sampled: a fresh import per call is slow)
        rng = random.Random(plan['sched'])
        todo = [k for k in idx if answers[k] is not None]
        rng.shuffle(todo)
        fresh = lib.fresh(f16=True, spacecraft=False)
        for pos, k in enumerate(todo):
            if pos < 3:
                fresh = lib.fresh(f16=True, spacecraft=False)
            r = frozen(call(fresh, [fresh.llc.LowLevelController()], plan['ops'][k]))
            if r != answers[k]:
                raise Violation('depends-on-history', f'{plan["ops"][k][0]} {plan["ops"][k][2:6]} answered {show(answers[k])} in this history, {show(r)} in another')
        for k in idx:
            run.dig.update(repr(answers[k]).encode())
        run.sample = {'controllers': plan['n'], 'threads': plan['threads'], 'first_ops': plan['ops'][:1]}


def llc_u(llc, u, x):
    return llc.get_u_deg(u, x)


def frozen(r):
    if isinstance(r, (tuple, list)):
        return tuple(frozen(a) for a in r)
    return np.asarray(r, dtype=float).tobytes()


def show(r):
    return [show(a) for a in r] if isinstance(r, tuple) else np.frombuffer(r).tolist()


class EvalFault(Exception):
    pass


class FixedStep(Base):
    """E01"""
    rule = ('Runs: fixed-step integrations of F-16 flights and of generic derivative functions whose evaluation fails at seeded points, with retries, steps '
            'after the end, dense-output queries and several integrators interleaved; compared with an explicit forward-Euler model; non-trivial: at least one step. ')
    measure = 'distinct (problem, number of steps bucket, end alignment, failure, tolerance) tuples'
    nontrivial = ('steps', )
    runs = {'quick': 8000, 'thorough': 30000}
    real = Airframe.real
    stubs = 'derivative functions other than the F-16 are simulated; failures are injected by the simulator'

    def gen(self, rng, i, tier):
        its = []
        for _ in range(rng.randrange(1, 4)):
            step = world.pick(rng, 1 / 30, 0.1, 0.25, 0.01, 1.0, world.logu(rng, 1e-3, 3))
            n = rng.randrange(1, 60)
            end = world.pick(rng, n * step, n * step, n * step + step * rng.random(), (n - 1) * step + step * rng.random(), step * rng.random() * 0.9)
            t0 = world.pick(rng, 0.0, 0.0, rng.uniform(-50, 50), 100.0)
            tol = world.pick(rng, None, None, 1e-9, 1e-6, 1e-12, 0.4 * step)
            if tol is not None and rng.random() < 0.3:
                end = n * step + world.pick(rng, -1, 1) * tol * rng.uniform(0.1, 0.6)
            prob = world.pick(rng, 'osc', 'time', 'cubic', 'const', 'f16')
            nx = 16 if prob == 'f16' else rng.randrange(1, 5)
            y0 = jump(rng) if prob == 'f16' and rng.random() < 0.4 else TRIM if prob == 'f16' else [rng.gauss(0, 2) for _ in range(nx)]
            its.append({'prob': prob, 'step': step if prob != 'f16' else min(step, 0.1), 't0': t0, 'tend': t0 + max(end if prob != 'f16' else min(end, 2.0), 1e-3), 'tol': tol,
                        'y0': [float(v) for v in y0], 'k': [rng.uniform(0.1, 2) for _ in range(3)], 'uref': gen_uref(rng), 'keep': rng.random() < 0.4})
        ops = []
        for _ in range(rng.randrange(20, 120)):
            r = rng.random()
            b = rng.randrange(len(its))
            if r < 0.12:
                ops.append(['fail', b, rng.choice(['EvalFault', 'ValueError', 'KeyboardInterrupt', 'FloatingPointError']), rng.randrange(1, 4)])
            elif r < 0.3:
                ops.append(['dense', b, [rng.uniform(-0.2, 1.2) for _ in range(3)], rng.randrange(2)])
            elif r < 0.36:
                ops.append(['scribble', b])
            elif r < 0.37:
                ops.append(['refuse', b, world.pick(rng, 0, 0.0, -0.1, -1, -1e-9, -1e6), world.pick(rng, 1, 1, 1, 0, -1)])
            elif r < 0.41:
                ops.append(['correct', b, rng.uniform(-1.5, 1.5), rng.random() < 0.5, rng.random() < 0.5])
            else:
                ops.append(['step', b, world.pick(rng, 1, 1, 3, 20)])
        return {'its': its, 'ops': ops}

    def run(self, plan, run):
        ns = lib.fresh(f16=True, spacecraft=False)
        llc = ns.llc.LowLevelController()
        live = []

        for p in plan['its']:
            live.append(Stepper(ns, p, llc))
        for op in plan['ops']:
            s = live[op[1]]
            if op[0] == 'step':
                for _ in range(op[2]):
                    s.step(run)
            elif op[0] == 'fail':
                s.fail(run, op[2], op[3])
            elif op[0] == 'refuse':
                run.fault('invalid-step')
                try:
                    ns.util.Euler(lambda t, y: y, 0.0, np.zeros(2), float(op[3]), step=op[2] if op[3] > 0 else 0.1)
                except Exception:  # noqa: BLE001
                    continue
                raise Violation('step-accepted', f'an integrator over [0, {op[3]}] with step {op[2] if op[3] > 0 else 0.1} was built')
            elif op[0] == 'correct':
                s.correct(run, *op[2:])
            elif op[0] == 'dense':
                s.dense(run, op[2], op[3])
            else:
                s.y0[...] = np.nan  # the caller reuses its buffer
                run.fault('scribble-initial-state')
        for s in live:
            for _ in range(2000):
                if s.it.status != 'running':
                    break
                s.step(run)
            s.finish(run)
        run.sample = {'integrators': plan['its'][:1], 'first_ops': plan['ops'][:3]}


class Stepper:

    def __init__(self, ns, p, llc):
        self.p = p
        self.y0 = np.array(p['y0'])
        self.armed = None
        k = p['k']
        ur = np.array(p['uref'])
        base = {
            'osc': lambda t, y: np.concatenate([y[1:], -k[0] * y[:1]]),
            'time': lambda t, y: np.full(len(y), math.sin(k[0] * t)) + 0.1 * y,
            'cubic': lambda t, y: k[0] * np.tanh(y) - k[1],
            'const': lambda t, y: np.full(len(y), k[0]),
            'f16': lambda t, y: ns.cf.controlled_f16(y, ur, llc, 'morelli')[0],
        }[p['prob']]
        self.f = base
        self.calls = 0

        def der(t, y):
            self.calls += 1
            self.seen = t
            if self.armed is not None:
                exc, self.armed = self.armed, None
                raise exc('injected')
            out = base(t, np.array(y))
            if not p['keep']:
                return out
            if self.own is None:  # a model that computes into an array of its own
                self.own = np.array(out, float)
            self.own[...] = out
            self.own_was = self.own.tobytes()
            return self.own

        self.own = None
        kw = {} if p['tol'] is None else {'time_tol': p['tol']}
        before = self.y0.tobytes()
        self.it = ns.util.Euler(der, p['t0'], self.y0, p['tend'], p['step'], **kw)
        if self.y0.tobytes() != before:
            raise Violation('initial-state-modified', f'{p["prob"]}: constructing the integrator changed the initial state')
        self.t, self.y, self.k = p['t0'], np.array(p['y0']), 0
        self.tol = 1e-9 if p['tol'] is None else p['tol']
        self.prev = None
        self.before = before
        self.check('construction')

    def check(self, when):
        it, p = self.it, self.p
        name = f'{p["prob"]} step {p["step"]!r} from {p["t0"]!r} to {p["tend"]!r} after {when}'
        eps = 1e-12 * (1 + abs(p['t0']) + abs(p['tend'])) * (1 + self.k)
        if abs(it.t - self.t) > eps:
            raise Violation('time', f'{name}: time is {it.t!r} instead of {self.t!r}')
        if it.t > p['tend']:
            raise Violation('overshoot', f'{name}: time {it.t!r} is past the end')
        d = np.abs(it.y - self.y)
        if not np.all(d <= 1e-9 * (1e-3 + np.abs(self.y)) + self.slack()):
            raise Violation('state', f'{name} (step {self.k}): state {it.y.tolist()} instead of {self.y.tolist()}')
        self.y = np.array(it.y)
        self.t = float(it.t)
        want = 'finished' if self.t == p['tend'] else 'running'
        if it.status != want:
            raise Violation('status', f'{name}: status {it.status} at {it.t!r}')

    def slack(self):
        # the grid time may differ from ours by rounding
        try:
            f = np.abs(self.f(self.t, np.array(self.y)))
        except Exception:  # noqa: BLE001
            return 1e-9
        return 1e-11 * (1 + self.k) * (1 + abs(self.p['tend'])) * (f + 1) if np.all(np.isfinite(f)) else np.inf

    def step(self, run):
        it, p = self.it, self.p
        if p['prob'] == 'f16' and not sane(it.y):
            it.status = 'finished'  # out of the airframe model's domain: this flight is over
            self.gone = True
            return
        run.count('steps')
        if it.status == 'finished':
            n = self.calls
            s = it.y.tobytes()
            it.step()
            run.fault('step-after-end')
            if it.t != p['tend'] or it.y.tobytes() != s or self.calls != n:
                raise Violation('stepped-past-end', f'{p["prob"]}: a step after the end changed the integrator (t={it.t!r}, {self.calls - n} evaluations)')
            return
        yd = self.f(self.t, np.array(self.y))
        n = self.calls
        it.step()
        if self.calls != n + 1:
            raise Violation('evaluations', f'{p["prob"]}: {self.calls - n} derivative evaluations in one step')
        if self.own is not None and self.own.tobytes() != self.own_was:
            raise Violation('derivative-modified', f'{p["prob"]}: the derivative array returned by the model became {self.own.tolist()}')
        if self.seen != self.t:
            raise Violation('time', f'{p["prob"]}: derivative evaluated at {self.seen!r} instead of {self.t!r}')
        self.prev = (self.t, self.y)
        t1 = p['t0'] + (self.k + 1) * p['step']
        m = 1e-12 * (1 + abs(p['t0']) + abs(p['tend'])) * (1 + self.k)
        if t1 + self.tol >= p['tend'] + m:
            t1 = p['tend']
        elif t1 + self.tol >= p['tend'] - m:
            t1 = float(it.t)  # rounding decides
            if not (abs(t1 - p['tend']) <= 2 * self.tol + 2 * m):
                raise Violation('time', f'{p["prob"]}: time is {t1!r} near the end {p["tend"]!r}')
        self.y = self.y + (t1 - self.t) * np.asarray(yd)
        run.sim += t1 - self.t
        self.t = t1
        self.k += 1
        self.check('a step')
        run.dig.update(np.asarray(it.y, float).tobytes())
        run.see(p['prob'], min(self.k, 5), it.status, round((p['tend'] - p['t0']) / p['step'] % 1, 1), p['tol'] is None)

    def fail(self, run, exc, times, retry=True):
        it = self.it
        if it.status != 'running' or (self.p['prob'] == 'f16' and not sane(it.y)):
            return
        E = {'EvalFault': EvalFault, 'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'FloatingPointError': FloatingPointError}[exc]
        for _ in range(times):
            self.armed = E
            t, y, st = it.t, it.y.tobytes(), it.status
            try:
                it.step()
            except E:
                pass
            else:
                raise Violation('swallowed', f'{self.p["prob"]}: a failing evaluation ({exc}) was swallowed')
            run.fault('failing-evaluation')
            if it.t != t or it.y.tobytes() != y or it.status != st:
                raise Violation('failed-step-changed', f'{self.p["prob"]}: after a failing evaluation t={it.t!r} (was {t!r}), status {it.status}, state {it.y.tolist()}')
        # a retry must give the fault-free step
        if retry:
            self.step(run)

    def correct(self, run, factor, failed, inplace):
        """the caller corrects the state between two steps, perhaps after a failed one"""
        it = self.it
        if it.status != 'running' or self.p['prob'] == 'f16':
            return
        if failed:
            self.fail(run, 'EvalFault', 1, retry=False)
        new = np.array(it.y) * factor + 0.25
        if inplace:
            it.y[...] = new
        else:
            it.y = new.copy()
        run.fault('state-corrected-between-steps')
        self.y = new
        self.step(run)
        self.dense(run, [0.5], 0)

    def dense(self, run, fr, where):
        if self.prev is None or getattr(self, 'gone', False):
            return
        f = self.it.dense_output()
        t0, y0 = self.prev
        h = self.t - t0
        snap = self.it.y.tobytes()
        for a in [0.0, 1.0] + list(fr):
            got = f(t0 + a * h)
            want = y0 + a * (self.y - y0)
            tol = 1e-9 * (np.abs(y0) + np.abs(self.y)) + 1e-9 * np.abs(self.y - y0) * (1 + abs(t0) / h * 1e-5)
            if not np.all(np.abs(got - want) <= tol + 1e-12):
                raise Violation('dense-output', f'{self.p["prob"]}: dense output at fraction {a} is {got.tolist()} instead of {want.tolist()}')
            if where and isinstance(got, np.ndarray):
                got[...] = np.nan
        run.count('dense_queries', 2 + len(fr))
        if self.it.y.tobytes() != snap:
            raise Violation('dense-output-changed-state', f'{self.p["prob"]}: asking for dense output changed the state')

    def finish(self, run):
        if not getattr(self, 'gone', False) and self.it.status != 'finished':
            raise Violation('no-end', f'{self.p["prob"]}: still {self.it.status} at {self.it.t!r} of {self.p["tend"]!r}')
        if not np.all(np.isnan(self.y0)) and self.y0.tobytes() != self.before:
            raise Violation('initial-state-modified', f'{self.p["prob"]}: the caller\'s initial state became {self.y0.tolist()}')


CHECKS = {'R05': Airframe(), 'F01': Controller(), 'E01': FixedStep()}
