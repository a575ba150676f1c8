"""J01: the JAX backend and solver move bodies like the reference equations."""
import warnings

import jax
import jax.numpy as jnp
import numpy as np

from . import lib, p_fault, p_views, world
from .core import Base, Violation


class Jax(Base):
    """J01"""
    rule = ('Runs: worlds of 1-2 bodies on the JAX backend (adaptive, JAX adaptive and Euler solvers; shipped and user models with every kind of limit) under seeded tick schedules, a faulty command channel, '
            'zero-length ticks, ticks of the JIT-compiled dynamics beside the plain ones, state reassignment, ticks aborted while JAX traces or runs the model and repeated, and unsupported combinations in between; every tick is compared with the reference equations in single precision; '
            'non-trivial: at least one tick checked. ')
    measure = 'distinct (body kind, method, command form, saturated elements, tick length decade) tuples'
    real = Base.real + ', jax on CPU'
    runs = {'quick': 256, 'thorough': 2400}
    deadline = {'quick': 110.0, 'thorough': 700.0}

    def gen(self, rng, i, tier):
        specs = []
        for k in range(world.pick(rng, 1, 1, 2)):
            kind = ('rot2d', 'user', 'rot2d', 'sun', 'user')[(i + k) % 5]
            method = world.pick(rng, 'RK45_JAX', 'RK45_JAX', 'RK45', 'Euler')
            s = world.gen_spec(rng, kind, f'b{k}', (method, ), samples=0.3)
            s['use_jax'] = True
            if kind == 'user' and s['params']['model'] != 'ode' and rng.random() < 0.3:
                # a stiffer version, saturating within a tick
                p = s['params']
                p['dmin'], p['dmax'] = -0.5, 0.5
            specs.append(s)
        ops = world.gen_history(rng, specs, 16, over=0.3, dt_scale=world.pick(rng, None, 0.1, 1.0, 1.0, 1.0, 1e-3, 1e-4), forms=('none', 'dict', 'list', 'f64', 'f32', 'int', 'jnp', 'jnp'), assign=0.08)
        out = []
        for op in ops:
            r = rng.random()
            if r < 0.08 and op[0] == 'tick':
                out.append(['abort', op[1], op[2], op[3], rng.randrange(1000000) / 1000000, world.pick(rng, 'KeyboardInterrupt', 'MemoryError')])
            elif r < 0.16:
                out.append(['refuse', rng.randrange(6), world.pick(rng, 0.1, 1.0), world.pick(rng, 1, 1, 2, 3, 10)])
            elif r < 0.3:
                out.append(['read', op[1]])
            out.append(op)
        for s in specs:
            s['jit'] = s['method'] != 'RK45' and rng.random() < 0.3
        return {'bodies': specs, 'ops': out}

    def run(self, plan, run):
        specs = plan['bodies']
        ns = lib.fresh()
        ents = [world.build(ns, s) for s in specs]
        jits = [jax.jit(e.dynamics.step) if s.get('jit') else None for e, s in zip(ents, specs)]
        refs = [world.ref_of(s) for s in specs]
        for r in refs:
            r.f32 = True
        for op in plan['ops']:
            if op[0] == 'refuse':
                self.refuse(run, ns, op)
                continue
            b = op[1]
            e, r, s = ents[b], refs[b], specs[b]
            if op[0] == 'assign':
                world.assign(e, op[2])
                run.fault('state-reassignment')
            elif op[0] == 'read':
                self.read(run, s, e)
            elif op[0] == 'abort':
                self.abort(run, s, e, op)
            else:
                self.tick(run, s, e, r, op, jits[b])

    def compiled(self, run, s, r, o, dt, u, fn):
        """the same tick of the dynamics, JIT-compiled"""
        name = f'{s["kind"]} {s["method"]} {s["params"]}'
        try:
            j, d = fn(dt, jnp.asarray(o.s0, dtype=jnp.float32), jnp.asarray(u, dtype=jnp.float32))
        except Exception as ex:  # noqa: BLE001
            raise Violation('compiled-raised', f'{name}: {type(ex).__name__}: {ex}') from None
        j, d = np.asarray(j, float), np.asarray(d, float)
        run.count('ticks_compiled')
        tol = self.tol(s, r, dt, o.s0, o.s1, u)
        off = np.abs(r.diff(j, o.s1))
        if not np.all(off <= 2 * tol):
            spread = r.scatter(dt, o.s0, u, o.s1, 1e-6)
            if not np.all(off <= 2 * tol + 3 * spread):
                raise Violation('compiled', f'{name}: {j.tolist()} compiled, {o.s1.tolist()} not compiled, after {dt!r} s from {o.s0.tolist()} with control {u.tolist()}')
        if not np.all(np.isfinite(d)):
            raise Violation('compiled', f'{name}: derivative {d.tolist()} compiled, {o.dot} not compiled')

    def tick(self, run, s, e, r, op, fn=None):
        _, _, dt, cmd, tags = op
        for t in tags:
            run.fault(t)
        u, _ = r.command(cmd)
        r.usingle = True
        o = world.tick(e, dt, world.real_cmd(cmd))
        run.count('ticks')
        run.count('ticks_' + s['method'])
        run.sim += dt
        name = f'{s["kind"]} {s["method"]} {s["params"]}'
        if o.exc is not None:
            raise Violation('step-raised', f'{name}: {type(o.exc).__name__}: {o.exc} from {o.s0.tolist()} dt={dt!r} command {cmd}')
        world.absorb(run.dig, o)
        s0, s1 = o.s0, o.s1
        if s1.shape != s0.shape or not np.all(np.isfinite(s1)):
            raise Violation('motion', f'{name}: state {s1.tolist()} after {s0.tolist()}')
        if s['method'] == 'Euler':
            wants = [r.clip(r.euler(dt, s0, u))]
        else:
            wants = [r.truth(dt, s0, u)]
            if s['method'] == 'RK45':
                a = r.rk(dt, s0, u)
                wants = [None if a is None else r.clip(a)] + wants
        wants = [w for w in wants if w is not None]
        if not wants:
            return
        # single precision, through the whole tick
        best = None
        for w in wants:
            tol = self.tol(s, r, dt, s0, w, u)
            d = np.abs(r.diff(s1, w))
            bad = [i for i in range(r.nx) if not d[i] <= tol[i]]
            if not bad:
                best = None
                break
            if best is None:
                best = (bad[0], w, d, tol)
        if best is not None and s['method'] == 'RK45':
            # the adaptive solver's own accuracy where limits switch
            err = np.abs(r.diff(wants[0], wants[-1]))
            spread = r.scatter(dt, s0, u, wants[0], 1e-6)
            d = best[2]
            if all(d[i] <= best[3][i] + 3 * spread[i] or np.abs(r.diff(s1, wants[-1]))[i] <= best[3][i] + 4 * err[i] + 3 * spread[i] for i in range(r.nx)):
                run.count('ticks_accepted_within_solver_error_only')
                best = None
        if best is not None:
            i, w, d, tol = best
            raise Violation('motion', f'{name}: element {i}: {s1[i]!r} expected {w[i]!r} (off by {d[i]:.3e}, allowed {tol[i]:.1e}) after {dt!r} s from {s0.tolist()} with control {u.tolist()}')
        if np.any(s1 < r.smin - 1e-6 * np.abs(r.smin)) or np.any(s1 > r.smax + 1e-6 * np.abs(r.smax)):
            raise Violation('limit', f'{name}: {s1.tolist()} outside its limits')
        for i, c in enumerate(r.wrap):
            if c is not None and abs(s1[i] - c) > np.pi * (1 + 1e-6) + 2e-6 * abs(c):
                raise Violation('wrap', f'{name}: element {i} is {s1[i]}')
        if fn is not None:
            self.compiled(run, s, r, o, dt, u, fn)
        near = (s1 <= r.smin + 1e-5 * (1 + np.abs(r.smin))) | (s1 >= r.smax - 1e-5 * (1 + np.abs(r.smax)))
        if s['method'] != 'Euler' and not near.any():  # at a limit the derivative may be that of the end state before clipping
            c = r.dot(dt, s1, u)
            sc = self.scale(s, r, s1, u)
            turn = 0.0  # rounding of a wrapped angle that turned far within the tick
            if s['kind'] == 'user' and any(w is not None for w in r.wrap):
                turn = 2.4e-7 * (4 + max(np.max(sc), np.max(self.scale(s, r, s0, u))) * dt)
            for i in range(r.nx):
                if abs(o.dot[i] - c[i]) > (3e-6 + turn) * sc[i] + 1e-7:
                    raise Violation('derivative', f'{name}: element {i} reported {o.dot[i]!r}, expected {c[i]!r} at {s1.tolist()} with control {u.tolist()}')
            run.count('derivatives_checked')
        sat = tuple((s1 <= r.smin).nonzero()[0]) + tuple((s1 >= r.smax).nonzero()[0] + 100)
        run.see(s['kind'], s['method'], cmd['form'], sat, int(np.log10(dt)) if dt else None)
        if sat:
            run.count('saturated_ticks')

    def scale(self, s, r, at, u):
        """size of the terms each derivative element is computed from"""
        p = s['params']
        if s['kind'] == 'user':
            if p['model'] == 'lin':
                A, B = np.abs(np.array(p['A'])), np.abs(np.array(p['B']))
                return A @ np.abs(at) + B @ np.abs(u) + 1e-3
            k = max(abs(x) for x in p['k'])
            return np.full(r.nx, 1 + k * (2 + np.max(np.abs(at)) + np.max(np.abs(u))))
        return np.abs(r.free(0.0, at, u)) + r._couple(at, at) + np.abs(r.raw(0.0, at, u)) + (np.max(np.abs(u)) / p.get('m', 12.0) if s['kind'] == 'rot2d' else 0.0)

    def tol(self, s, r, dt, s0, w, u):
        mag = np.maximum(np.abs(s0), np.abs(w))
        sc = np.maximum(self.scale(s, r, s0, u), self.scale(s, r, w, u))
        sc = np.minimum(sc, np.where(np.isfinite(r.dmax), np.maximum(np.abs(r.dmax), np.abs(r.dmin)), np.inf) + 1e-6 * sc)
        if s['kind'] == 'user':
            mag = np.full(r.nx, np.max(mag))
            sc = np.full(r.nx, np.max(sc))
        t = (6e-5 if s['kind'] == 'user' else 1e-5) * (mag + sc * dt) + 1e-6 * (1 if s['kind'] == 'user' else 0) + 1e-9
        return t + [0.0 if c is None else 1e-6 * (4 + abs(c)) for c in r.wrap]

    def read(self, run, s, e):
        if s['kind'] == 'user':
            return
        run.count('reads')
        f = p_views.facts(s['kind'], np.asarray(e.state, float), np.asarray(e.state_dot, float))
        before = np.asarray(e.state).tobytes()
        for n, (want, q) in f.items():
            if q == 'rot':
                got = e.orientation.as_matrix()
                ok = np.all(np.abs(got - want) <= 3e-6)
            elif q == 'quat':
                continue
            else:
                got = np.asarray(getattr(e, n), float)
                ok = np.all(np.abs(np.ravel(got) - np.ravel(want)) <= 1e-6 * np.max(np.abs(want)) + 1e-30)
            if not ok:
                raise Violation('accessor', f'{s["kind"]}.{n} is {got} on the JAX backend, the state says {want}')
        if np.asarray(e.state).tobytes() != before:
            raise Violation('read-changed-state', f'{s["kind"]}')

    def abort(self, run, s, e, op):
        _, _, dt, cmd, frac, exc = op
        s0, d0 = np.asarray(e.state).copy(), np.asarray(e.state_dot).copy()
        c = world.real_cmd(cmd)
        keep = e._state, e.state_dot
        with p_fault.Bomb() as b:
            e.step(dt, c)
        after = np.asarray(e.state).copy()
        e.state, e.state_dot = keep
        try:
            with p_fault.Bomb(1 + int(frac * b.n), p_fault.EXC[exc]):
                e.step(dt, c)
        except (KeyboardInterrupt, MemoryError):
            run.fault('abort-' + exc)
        now = np.asarray(e.state)
        if now.tobytes() not in (np.asarray(s0).tobytes(), after.tobytes()):
            raise Violation('abort', f'{s["kind"]} {s["method"]}: an aborted tick left {now}, neither {s0} nor {after}')
        e.state, e.state_dot = keep
        e.step(dt, c)
        again = np.asarray(e.state)
        if again.tobytes() != after.tobytes():
            raise Violation('retry', f'{s["kind"]} {s["method"]}: after an aborted tick the repeated one gives {again} instead of {after}')
        e.state, e.state_dot = keep

    def refuse(self, run, ns, op):
        _, which, dt, n = op
        run.fault('unsupported-combination')
        kw = dict(name='r', x=10.0, theta=0.3, wz=0.01, x_dot=0.1)
        e = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if which == 0:
                    e = ns.rot.CWHRotation2dSpacecraft(integration_method='RK45_JAX', **kw)
                elif which == 1:
                    e = ns.rot.CWHRotation2dSpacecraft(integration_method='RK45_JAX', use_jax=True, trajectory_samples=n, **kw)
                elif which == 2:
                    e = ns.rot.CWHRotation2dSpacecraft(integration_method='Euler', use_jax=True, trajectory_samples=n, **kw)
                elif which == 3:
                    e = ns.point.CWHSpacecraft(name='r', x=10.0, integration_method='RK45_JAX')
                elif which == 4:
                    e = ns.sun.SunEntity(name='r', theta=0.5, integration_method='RK45_JAX')
                else:
                    e = ns.rot.CWHRotation2dSpacecraft(integration_method='rk45_jax', use_jax=True, **kw)
                s0, d0 = np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes()
                e.step(dt)
        except Exception as ex:  # noqa: BLE001
            if isinstance(ex, (AttributeError, NameError)):
                raise
            if e is not None and (np.asarray(e.state).tobytes() != s0 or np.asarray(e.state_dot).tobytes() != d0):
                raise Violation('refusal-effect', f'combination {which}: a refused step changed the body') from None
            return
        raise Violation('combination-accepted', f'unsupported combination {which} took a step to {e.state}')


CHECKS = {'J01': Jax()}
