"""P01: a planner looks ahead with a body's own dynamics."""
import random
import warnings

import numpy as np

from . import lib, sched, world
from .core import Base, Violation


def affine(d):
    return hasattr(d, 'state_transition_system') and hasattr(d, 'state_transition_input')


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * (1.0 + np.abs(b))) or np.array_equal(a, b, equal_nan=True)


class Plan(Base):
    """P01"""
    rule = ('Runs: a world of 1-3 bodies (some on a shared dynamics object) whose planner, between ticks or in a thread of its own, steps the bodies\' dynamics objects from the '
            'current and from other states, evaluates derivatives and their system and input parts, fails now and then, and overwrites what it passed and got; '
            'predictions are compared with bodies that really fly them, and every body with one nobody plans with; non-trivial: at least one tick executed. ')
    shrink_keys = ['ops', 'looks']
    kinds = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user', 'user', 'user', 'cust', 'cust', 'cust']

    def gen(self, rng, i, tier):
        nb = rng.randrange(1, 4)
        specs = []
        for k in range(nb):
            s = world.gen_spec(rng, world.pick(rng, *self.kinds), f'b{k}', ('RK45', 'RK45', 'RK45', 'Euler'))
            if specs and specs[0]['kind'] in ('user', 'cust') and rng.random() < 0.6:  # two bodies on one dynamics object
                s = dict(specs[0], name=f'b{k}', shares=0)
                s['init'] = world.gen_init(rng, s['kind'], s['params'])
            specs.append(s)
        threads = rng.random() < 0.35
        ops = world.gen_history(rng, specs, 10 if threads else 30, over=0.2, forms=('none', 'dict', 'f64', 'list'))
        looks = []
        for _ in range(rng.randrange(3, 9) if threads else rng.randrange(5, 25)):
            b = rng.randrange(nb)
            ref = world.ref_of(specs[b])
            what = world.pick(rng, 'step', 'step', 'rollout', 'rollout', 'dot', 'dot', 'bad')
            frm = world.pick(rng, 'now', 'now', 'other')
            a = None
            if frm == 'other':
                a = world.gen_assign(rng, specs[b], ref)
                if rng.random() < 0.25:
                    op = ['assign', b, a]
                    world.push_out(rng, ref, op, (0.0, 0.01, 0.2))
            n = rng.randrange(2, 5) if what == 'rollout' else 1
            legs = []
            for _ in range(n):
                u, _w = ref.command(world.gen_cmd(rng, ref, 0.0, ('f64', ))) if ref.nu else (np.zeros(0), False)
                legs.append([world.pick(rng, 0.0, 0.1, 0.5, 1.0, 1.0, 2.5) if rng.random() < 0.8 else world.logu(rng, 1e-3, 5.0), [float(x) for x in u]])
            looks.append([rng.randrange(len(ops)), b, what, a, legs, rng.random() < 0.5])
        return {'bodies': specs, 'ops': ops, 'looks': looks, 'threads': threads, 'p': world.logu(rng, 0.01, 0.3), 'opcodes': rng.random() < 0.2, 'sched': rng.randrange(1 << 30)}

    def run(self, plan, run):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self._run(plan, run)

    def _run(self, plan, run):
        specs = plan['bodies']
        ns = lib.fresh()
        ents = []
        for s in specs:
            if 'shares' in s:
                ents.append(world.make_user(ns, s, dyn=ents[s['shares']].dynamics))
            else:
                ents.append(world.build(ns, s))
        refs = [world.ref_of(s) for s in specs]
        log = [[] for _ in specs]
        done = []

        def fly(op):
            e = ents[op[1]]
            if op[0] == 'assign':
                world.assign(e, op[2])
            else:
                e.step(op[2], world.real_cmd(op[3], own=True))
            log[op[1]].append((np.array(e.state), np.array(e.state_dot)))

        def look(lk):
            done.append(self.look(lk, ents[lk[1]], specs[lk[1]], refs[lk[1]]))

        if plan['threads']:
            bat = sched.Baton(random.Random(plan['sched']), plan['p'], plan['opcodes'])
            bat.run([lambda: [fly(op) for op in plan['ops']], lambda: [look(lk) for lk in plan['looks']]])
            run.fault('thread-preemption', bat.switches)
            run.see('threads', bat.trace_hash)
        else:
            for k, op in enumerate(plan['ops']):
                for lk in plan['looks']:
                    if lk[0] == k:
                        look(lk)
                fly(op)
        # nobody plans in the twin world
        solo = lib.fresh()
        for b, s in enumerate(specs):
            e = world.build(solo, {k: v for k, v in s.items() if k != 'shares'})
            k = 0
            for op in plan['ops']:
                if op[1] != b:
                    continue
                if op[0] == 'assign':
                    world.assign(e, op[2])
                else:
                    e.step(op[2], world.real_cmd(op[3], own=True))
                    run.count('ticks')
                    run.sim += op[2]
                got = log[b][k]
                k += 1
                if not np.array_equal(got[0], e.state) or not np.array_equal(got[1], e.state_dot):
                    raise Violation('planning-disturbs', f'body {b} ({s["kind"]} {s["method"]} {s["params"]}): after {op} it is at {got[0].tolist()} with rate {got[1].tolist()}; '
                                    f'without look-ahead at {np.array(e.state).tolist()} with rate {np.array(e.state_dot).tolist()}')
                run.dig.update(np.array(got[0], float).tobytes())
        # every prediction is what a body really does
        for rec in done:
            b, what = rec['b'], rec['what']
            s, r = specs[b], refs[b]
            run.fault('look-ahead-' + what)
            run.see(s['kind'], s['method'], what, rec['frm'], plan['threads'], 'shares' in s)
            if what == 'bad':
                continue
            if what in ('step', 'rollout'):
                e = world.build(solo, {k: v for k, v in s.items() if k != 'shares'})
                e.state = rec['start']
                for (dt, u), (nx, dot) in zip(rec['legs'], rec['out']):
                    e.step(dt, np.array(u) if r.nu else None)
                    if not near(nx, e.state) or not near(dot, e.state_dot):
                        raise Violation('prediction', f'{s["kind"]} {s["method"]} {s["params"]}: looking ahead from {rec["start"].tolist()} over {rec["legs"]} gives {nx.tolist()} '
                                        f'with rate {np.asarray(dot).tolist()} after {dt!r} s under {u}; a body gets to {np.array(e.state).tolist()} with rate {np.array(e.state_dot).tolist()}')
                    run.dig.update(np.asarray(nx, float).tobytes())
            else:
                (t, u), (dot, parts) = rec['legs'][0], rec['out'][0]
                start = np.array(rec['start'], float)
                if rec['start'].dtype != np.float32:
                    msg = r.check_dot(t, start, np.array(u), np.asarray(dot, float))
                    if msg:
                        raise Violation('derivative', f'{s["kind"]} {s["params"]}: {msg}')
                if parts is not None:
                    f, g = parts
                    raw = np.asarray(f, float) + np.asarray(g, float) @ np.array(u) if r.nu else np.asarray(f, float)
                    lim = np.clip(raw, r.dmin, r.dmax)
                    lim = np.where(start <= r.smin, np.maximum(lim, 0), lim)
                    lim = np.where(start >= r.smax, np.minimum(lim, 0), lim)
                    tol = 1e-5 if rec['start'].dtype == np.float32 else 1e-6
                    size = np.abs(np.asarray(f, float)) + (np.abs(np.asarray(g, float)) @ np.abs(np.array(u)) if r.nu else 0)
                    ok = np.abs(lim - dot) <= tol * (size + np.abs(lim)) + 1e-12
                    if rec['start'].dtype == np.float32:
                        # a single-precision state within rounding of a limit counts as at it or not, depending on how the limit was written down
                        for edge, at in ((r.smin, np.maximum), (r.smax, np.minimum)):
                            for free in (np.clip(raw, r.dmin, r.dmax), at(np.clip(raw, r.dmin, r.dmax), 0)):
                                ok |= (np.abs(start - edge) <= 1.2e-7 * np.abs(edge)) & (np.abs(free - dot) <= tol * (size + np.abs(free)) + 1e-12)
                    if not np.all(ok):
                        raise Violation('decomposition', f'{s["kind"]} {s["params"]} at {start.tolist()} under {u}: the system part plus the input part times the control is {raw.tolist()}, '
                                        f'limited {lim.tolist()}, but the derivative is {np.asarray(dot).tolist()}')
                run.dig.update(np.asarray(dot, float).tobytes())
        run.sample = {'bodies': [(s['kind'], s['method']) for s in specs], 'first_looks': [lk[:3] for lk in plan['looks'][:3]]}

    def look(self, lk, e, s, r):
        _, b, what, a, legs, spoil = lk
        d = e.dynamics
        x = e.state if a is None else np.array(a['s'], dtype=np.float32 if a['dtype'] == 'f32' else np.float64)
        rec = {'b': b, 'what': what, 'frm': 'now' if a is None else 'other', 'start': x.copy(), 'legs': legs, 'out': []}
        if what == 'bad':
            for args in ((1.0, np.zeros(17), np.zeros(9)), (1.0, x, None), (None, x, np.zeros(max(r.nu, 1))), (1.0, x * np.nan, np.zeros(r.nu))):
                try:
                    d.step(*args)
                except Exception:  # noqa: BLE001
                    pass
            return rec
        for dt, u in legs:
            u = np.array(u) if r.nu else e.control_default.copy()
            bx, bu = x.tobytes(), u.tobytes()
            parts = None
            if what == 'dot':
                out = dot = d.compute_state_dot(dt, x, u)
                if affine(d):
                    parts = (np.array(d.state_transition_system(x)), np.array(d.state_transition_input(x)))
                rec['out'].append((np.array(dot), parts))
            else:
                out, dot = d.step(dt, x, u)
                rec['out'].append((np.array(out), np.array(dot)))
            if x.tobytes() != bx or u.tobytes() != bu:
                raise Violation('argument-modified', f'{s["kind"]} {s["method"]}: looking ahead ({what}) over {dt!r} s changed the state or control array it was given: now {x.tolist()}, {u.tolist()}')
            if spoil:
                keep = np.array(out)
                x[...] = 1e9
                u[...] = -1e9
                if out.tobytes() != keep.tobytes():
                    raise Violation('aliased', f'{s["kind"]} {s["method"]}: overwriting the arguments of a look-ahead ({what}, {dt!r} s) changed its result from {keep.tolist()} to {out.tolist()}')
                for arr in (out, dot):
                    if isinstance(arr, np.ndarray) and arr.flags.writeable:
                        arr[...] = 7.5
                x = keep
            else:
                x = np.asarray(out)
        return rec


CHECKS = {'P01': Plan()}
