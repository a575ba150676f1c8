"""N01: clients searching F-16 trim points with the trim cost and constraint helpers."""
import math
import random

import numpy as np
import scipy.optimize

from . import f16ref, lib, sched, world
from .core import Base, Violation
from .p_f16 import jump, spot
from .p_fault import EXC, Bomb

OWNED = {1: (3, 4, 6, 7, 8), 2: (3, 4, 6, 7, 8), 3: (6, 7, 8), 4: (3, 4, 6, 7, 8)}
# weights of the derivative's components in the cost and the value each should have
COST = {1: {0: 100, 1: 100, 2: 100, 6: 100, 7: 100, 8: 100},
        2: {11: 500, 0: 1, 1: 100, 2: 100, 6: 10, 7: 10, 8: 10},
        3: {0: 1, 1: 100, 2: 100, 11: 100, 6: 10, 7: 10, 8: 10, 5: 500},
        4: {4: 500, 0: 1, 1: 100, 2: 100, 6: 10, 7: 10, 8: 10}}


def constrain(x, u, c):
    """the state under the requested condition"""
    radgam, _sg, rr, pr, tr, phi, _c, _s, thetadot, _co, _st, orient = c
    if orient == 3:
        st, ct, sp, cp = math.sin(x[4]), math.cos(x[4]), math.sin(x[3]), math.cos(x[3])
        x[6], x[7], x[8] = -tr * st, tr * ct * sp, tr * ct * cp
    else:
        x[3], x[4] = phi, x[1] + (radgam if orient == 2 else 0.0)
        x[6], x[7], x[8] = rr, thetadot if orient == 4 else pr, 0.0
    x[12] = f16ref.gear(u[0])


def place(x, u, s):
    """the guess goes where it belongs"""
    if len(s) == 3:
        u[0], u[1], x[1] = s
    else:
        u[0], u[1], u[2], u[3], x[1], x[3], x[4] = s


def cost(x, u, c, model, adj):
    """(sum of weighted squares, rounding allowance)"""
    xd, _nz, _ny, _az, _ay, mag, _am = f16ref.airframe(x, u, model, adj)
    orient = c[11]
    want = {11: x[0] * c[1]} if orient == 2 else {5: c[4]} if orient == 3 else {4: c[8]} if orient == 4 else {}
    rel = 1e-6 if x[11] < 0 else 1e-9
    r = tol = 0.0
    for k, w in COST[orient].items():
        d = xd[k] - want.get(k, 0.0)
        e = rel * (abs(xd[k]) + abs(want.get(k, 0.0)) + mag[k])
        r += w * d * d
        tol += w * (2 * abs(d) * e + e * e)
    return r, tol + 1e-12 * r


def gen_cond(rng):
    gam = world.pick(rng, 0.0, rng.uniform(-1.2, 1.2), rng.uniform(-0.2, 0.2))
    phi = world.pick(rng, 0.0, rng.uniform(-3.1, 3.1), rng.uniform(-0.5, 0.5))
    w = lambda: world.pick(rng, 0.0, 0.0, rng.uniform(-0.5, 0.5))  # noqa: E731
    return [gam, math.sin(gam), w(), w(), w(), phi, math.cos(phi), math.sin(phi), w(), rng.random() < 0.5, rng.random() < 0.5, world.pick(rng, 1, 2, 3, 3, 4)]


def gen_guess(rng, n):
    x = jump(rng)
    u = [world.pick(rng, rng.random(), 0.77, 0.0, 1.0, rng.uniform(-0.2, 1.3)), spot(rng, -25, 25, 10), rng.uniform(-21.5, 21.5), rng.uniform(-30, 30)]
    if rng.random() < 0.3:
        u = [float(round(v)) for v in u]
    return u[:2] + [x[1]] if n == 3 else u + [x[1], x[3], x[4]]


class Trim(Base):
    """N01"""
    rule = ('Runs: several trim searches (every flight condition, both guess layouts, both aerodynamic models) run by clients in one process, interleaved or in '
            'threads switched inside the package: guesses, repeats, Nelder-Mead runs, resets, changed conditions, evaluations aborted at any line and repeated; '
            'every cost and working vector is compared with its own value and with the answer of a process that never evaluated anything else; non-trivial: at least one evaluation. ')
    measure = 'distinct (flight condition, guess layout, model, container, alpha cell, abort point) tuples'
    nontrivial = ('evaluations', )
    shrink_keys = ['ops']
    runs = {'quick': 3000, 'thorough': 12000}
    real = 'aerobench clf16, conf16, airframe and tables (imported afresh from /repo per simulated process), numpy, scipy Nelder-Mead'
    stubs = 'trim-search clients and the thread scheduler are simulated'
    assumptions = ['weights, constraints and tables of the pinned commit are the documented ones (transcribed into dst/p_trim.py and dst/f16ref.py)',
                   'costs compared to the rounding that 1e-9 of the magnitude of the terms of each derivative causes']

    def gen(self, rng, i, tier):
        ss = []
        for _ in range(rng.randrange(1, 4)):
            n = world.pick(rng, 3, 7)
            s = {'n': n, 'cond': gen_cond(rng), 'model': world.pick(rng, 'stevens', 'stevens', 'morelli', None), 'adj': world.pick(rng, None, True, False),
                 'x': jump(rng)[:13], 'u': gen_guess(rng, 7)[:4], 'form': world.pick(rng, 'list', 'array', 'array', 'view'), 'sform': world.pick(rng, 'list', 'array', 'tuple'),
                 'cform': world.pick(rng, 'list', 'tuple', 'array')}
            ss.append(s)
        ops = []
        threads = rng.random() < 0.25
        for _ in range(rng.randrange(8, 30)):
            k = rng.randrange(len(ss))
            r = rng.random()
            n = ss[k]['n']
            if r < 0.4:
                ops.append(['eval', k, gen_guess(rng, n)])
            elif r < 0.55:
                ops.append(['repeat', k, rng.randrange(100)])
            elif r < 0.65:
                ops.append(['reset', k, jump(rng)[:13], gen_guess(rng, 7)[:4]])
            elif r < 0.75:
                ops.append(['cond', k, gen_cond(rng)])
            elif r < 0.85:
                ops.append(['conf', k])
            elif r < 0.93:
                if not threads:
                    ops.append(['abort', k, gen_guess(rng, n), rng.randrange(1000000) / 1000000, rng.choice(sorted(EXC)), rng.random() < 0.3, world.pick(rng, 'any', 'late')])
                    ops.append(['eval', k, ops[-1][2]])
            else:
                ops.append(['search', k, gen_guess(rng, n), rng.randrange(8, 40)])
        return {'searches': ss, 'ops': ops, 'threads': threads, 'sched': rng.randrange(1 << 30), 'p': world.logu(rng, 0.01, 0.2), 'opcodes': rng.random() < 0.2}

    def run(self, plan, run):
        ns = lib.fresh(f16=True, spacecraft=False)
        S = []
        hist = []
        for s in plan['searches']:
            back = np.array([9.0] * 3 + s['x'] + s['u'] + [9.0] * 3)
            x, u = {'list': (list(s['x']), list(s['u'])), 'array': (np.array(s['x']), np.array(s['u'])), 'view': (back[3:16], back[16:20])}[s['form']]
            S.append({'x': x, 'u': u, 'cond': list(s['cond']), 'seen': [], 'back': back, **{k: s[k] for k in ('n', 'model', 'adj', 'sform', 'cform', 'form')}})

        def const(q):
            return {'list': list, 'tuple': tuple, 'array': np.array}[q['cform']](q['cond'])

        def args(q):
            return ([q['model']] if q['model'] or q['adj'] is not None else []) + ([q['adj']] if q['adj'] is not None else [])

        def call(n, q, s, x, u):
            sv = {'list': list, 'array': np.array, 'tuple': tuple}[q['sform']](s)
            cv = const(q)
            a = args(q)
            if a and a[0] is None:
                a[0] = 'stevens'
            got = n.clf.clf16(sv, x, u, cv, *a)
            if list(sv) != list(s) or [float(v) for v in cv] != [float(v) for v in q['cond']]:
                raise Violation('arguments-modified', f'guess {s} / condition {q["cond"]} became {list(sv)} / {list(cv)}')
            return got

        def expect(q, s, bx, bu):
            x, u = [float(v) for v in bx], [float(v) for v in bu]
            if s is not None:
                place(x, u, s)
            constrain(x, u, q['cond'])
            return x, u

        def same(q, what, bx, bu, wx, wu, s):
            x, u = [float(v) for v in q['x']], [float(v) for v in q['u']]
            for j in range(13):
                exact = wx[j] == bx[j] or (j in (1, 3, 6, 7, 8) and q['cond'][11] != 3)
                ok = x[j] == wx[j] if exact else abs(x[j] - wx[j]) <= 1e-12 * (1 + abs(wx[j]))
                if not ok:
                    raise Violation('wrong-state', f'{what} (condition {q["cond"]}, guess {s}): state element {j} is {x[j]!r} instead of {wx[j]!r}; the state was {bx}')
            if u != wu:
                raise Violation('wrong-controls', f'{what} (condition {q["cond"]}, guess {s}): controls are {u} instead of {wu}')
            if q['form'] == 'view' and not (np.all(q['back'][:3] == 9) and np.all(q['back'][20:] == 9)):
                raise Violation('wrong-state', f'{what}: memory beside the vectors changed: {q["back"].tolist()}')

        def evaluate(q, s, record=True):
            s = [float(v) for v in s]
            bx, bu = [float(v) for v in q['x']], [float(v) for v in q['u']]
            got = float(call(ns, q, s, q['x'], q['u']))
            run.count('evaluations')
            wx, wu = expect(q, s, bx, bu)
            same(q, 'cost evaluation', bx, bu, wx, wu, s)
            x, u = [float(v) for v in q['x']], [float(v) for v in q['u']]
            model, adj = q['model'] or 'stevens', q['adj'] is not False
            r, tol = cost(x, u, q['cond'], model, adj)
            g = got if got >= 1 else got * abs(got)
            if not abs(g - r) <= tol:
                raise Violation('wrong-cost', f'{model} condition {q["cond"]} guess {s}: cost {got!r}, the weighted residual is {r if r >= 1 else math.sqrt(r)!r} at state {x} controls {u}')
            run.see(q['cond'][11], q['n'], model, q['form'], int(x[1] * f16ref.RTOD // 5))
            if record:
                hist.append((dict(q, cond=list(q['cond'])), s, bx, bu, got, x, u))
                run.dig.update(repr(got).encode())
            return got

        def one(op):
            q = S[op[1]]
            kind = op[0]
            if kind == 'eval':
                q['seen'].append((evaluate(q, op[2]), list(op[2])))
            elif kind == 'repeat':
                if q['seen']:  # the best guess so far, the last, or any other
                    evaluate(q, (min(q['seen']) if op[2] % 2 else q['seen'][op[2] % len(q['seen'])])[1])
                    run.fault('repeat')
            elif kind == 'reset':
                for j, v in enumerate(op[2]):
                    q['x'][j] = v
                for j, v in enumerate(op[3]):
                    q['u'][j] = v
                run.fault('reset')
            elif kind == 'cond':
                q['cond'] = list(op[2])
                run.fault('changed-condition')
            elif kind == 'conf':
                bx, bu = [float(v) for v in q['x']], [float(v) for v in q['u']]
                rx, ru = ns.conf.conf16(q['x'], q['u'], const(q))
                wx, wu = expect(q, None, bx, bu)
                same(q, 'constraint', bx, bu, wx, wu, None)
                if [float(v) for v in rx] != [float(v) for v in q['x']] or [float(v) for v in ru] != wu:
                    raise Violation('wrong-state', f'constraint returned {list(rx)} {list(ru)} and left {list(q["x"])} {wu}')
                run.count('constraints')
            elif kind == 'search':
                f = lambda s: evaluate(q, s, record=False)  # noqa: E731
                res = scipy.optimize.minimize(f, op[2], method='Nelder-Mead', options={'maxfev': op[3]})
                q['seen'].append((float(res.fun), [float(v) for v in res.x]))
                again = evaluate(q, res.x)
                if again != float(res.fun):
                    raise Violation('not-repeatable', f'condition {q["cond"]}: the search found cost {float(res.fun)!r} at {res.x.tolist()}, evaluated again it is {again!r}')
                run.count('searches')
            elif kind == 'abort':
                bx, bu = [float(v) for v in q['x']], [float(v) for v in q['u']]
                cx, cu = list(bx), list(bu)
                with Bomb(opcodes=op[5]) as c:
                    call(ns, q, op[2], cx, cu)
                k = max(1, c.n - int(op[3] * min(c.n, 60))) if op[6] == 'late' else 1 + int(op[3] * c.n)
                b = Bomb(min(k, c.n), EXC[op[4]], op[5])
                exc = None
                try:
                    with b:
                        call(ns, q, op[2], q['x'], q['u'])
                except BaseException as ex:  # noqa: BLE001
                    exc = ex
                if b.fired and exc is None:
                    run.count('aborts_swallowed')
                run.fault('abort')
                run.see('abort', b.fired)
                own = OWNED[q['cond'][11]] + (1, 12) + ((3, 4) if q['n'] == 7 else ())
                for j in range(13):
                    v = float(q['x'][j])
                    if j not in own and v != bx[j]:
                        raise Violation('wrong-state', f'evaluation aborted at {b.fired}: state element {j}, which it does not own, is {v!r} instead of {bx[j]!r}')
                if [float(v) for v, w in zip(q['u'], bu)][2:] != bu[2:] and q['n'] == 3:
                    raise Violation('wrong-controls', f'evaluation aborted at {b.fired}: controls {list(q["u"])} from {bu}')

        if plan['threads']:
            bat = sched.Baton(random.Random(plan['sched']), plan['p'], plan['opcodes'])
            bat.run([(lambda k=k: [one(op) for op in plan['ops'] if op[1] == k]) for k in range(len(S))])
            run.fault('thread-preemption', bat.switches)
            run.see('threads', bat.trace_hash)
        else:
            for op in plan['ops']:
                one(op)
        solo = lib.fresh(f16=True, spacecraft=False)
        for q, s, bx, bu, got, x, u in reversed(hist):
            nx, nu = (list(bx), list(bu)) if q['form'] == 'list' else (np.array(bx), np.array(bu))
            w = float(call(solo, q, s, nx, nu))
            if w != got or [float(v) for v in nx] != x or [float(v) for v in nu] != u:
                raise Violation('depends-on-history', f'condition {q["cond"]} guess {s}: cost {got!r} state {x} within its history, {w!r} {list(nx)} in a process of its own')
        run.sample = {'searches': plan['searches'][:1], 'first_ops': plan['ops'][:3]}


CHECKS = {'N01': Trim()}
