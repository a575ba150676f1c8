"""L01-L03: saturation of states, rates and commands; angle wrapping."""
import math

import numpy as np

from . import world
from .core import Violation
from .p_physics import Physics


class Limits(Physics):
    """L01"""

    def __init__(self):
        super().__init__(['rot2d', 'sixdof', 'dub2', 'dub3', 'user', 'user', 'cust'], None,
                         'Runs: worlds of limited bodies driven hard into and out of their limits, spawned and reassigned at, near and '
                         'beyond limits; non-trivial: at least one tick checked. ')

    def gen(self, rng, i, tier):
        specs = []
        while len(specs) < world.pick(rng, 1, 2, 3):
            s = world.gen_spec(rng, world.pick(rng, *self.kinds), f'b{len(specs)}', ('RK45', 'RK45', 'RK45', 'Euler'))
            if s['kind'] in ('user', 'cust') and not {'smin', 'smax', 'dmin', 'dmax'} & set(s['params']):
                continue
            if s['kind'] == 'user':
                one_sided(rng, s['params'])
                s['init'] = world.gen_init(rng, 'user', s['params'])
            specs.append(s)
        ops = world.gen_history(rng, specs, 60, over=world.pick(rng, 0.2, 0.5, 0.8), assign=0.12, endure=0.03)
        refs = [world.ref_of(s) for s in specs]
        for op in ops:
            if op[0] == 'assign' and rng.random() < 0.6:
                world.push_out(rng, refs[op[1]], op, (0.0, 0.0, 1e-7, -1e-7, 0.01, 0.5))
        # limit dance: hold a saturating command, then reverse it
        for b, r in enumerate(refs):
            if r.nu and rng.random() < 0.7 and (np.all(np.isfinite(r.cmin)) and np.all(np.isfinite(r.cmax))):
                at = rng.randrange(len(ops))
                dt = world.pick(rng, 0.1, 1.0, 2.5)
                seq = []
                for sign in (1, -1, 1):
                    vals = [float(r.cmax[c] if sign * rng.choice((1, 1, 1, -1)) > 0 else r.cmin[c]) for c in range(r.nu)]
                    seq += [['tick', b, dt, {'form': 'f64', 'v': vals}, ['limit-dance']] for _ in range(rng.randrange(2, 7))]
                ops[at:at] = seq
        return {'bodies': specs, 'ops': ops}

    def judge(self, run, e, r, s, dt, cmd, u, warn, o):
        name = f'{s["kind"]} {s["method"]} {s["params"]}'
        eps = 1e-12 * (1e-3 + np.abs(np.where(np.isfinite(r.smax), r.smax, 0.0)) + np.abs(np.where(np.isfinite(r.smin), r.smin, 0.0)))
        bad = np.nonzero((o.s1 > r.smax + eps) | (o.s1 < r.smin - eps))[0]
        if bad.size:
            i = bad[0]
            raise Violation('state-limit', f'{name}: element {i} is {o.s1[i]!r}, limits [{r.smin[i]!r}, {r.smax[i]!r}]')
        beyond = bool(np.any((o.s0 > r.smax + eps) | (o.s0 < r.smin - eps)))
        # reported derivative
        deps = 1e-6 * (1e-6 + np.where(np.isfinite(r.dmax), np.abs(r.dmax), 0) + np.where(np.isfinite(r.dmin), np.abs(r.dmin), 0))
        bad = np.nonzero((o.dot > r.dmax + deps) | (o.dot < r.dmin - deps))[0]
        if bad.size:
            i = bad[0]
            raise Violation('rate-limit', f'{name}: derivative {i} is {o.dot[i]!r}, limits [{r.dmin[i]!r}, {r.dmax[i]!r}]')
        if s['method'] == 'RK45':
            nw = np.array([c is None for c in r.wrap])  # wrapping may round a state just inside a limit onto it
            out = np.nonzero(nw & (((o.s1 >= r.smax) & (o.dot > 1e-9)) | ((o.s1 <= r.smin) & (o.dot < -1e-9))))[0]
            if out.size:
                i = out[0]
                raise Violation('outward-rate', f'{name}: element {i} at {o.s1[i]!r} reports outward rate {o.dot[i]!r} (limits [{r.smin[i]!r}, {r.smax[i]!r}])')
        # motion during the tick
        if beyond:
            run.fault('start-beyond-limit')
        else:
            d = r.diff(o.s1, o.s0)
            tol = 5e-3 * (np.abs(o.s0) + np.abs(o.s1)) + 1e-5 if s['method'] == 'RK45' else 1e-6 * (1 + np.abs(o.s0) + np.abs(o.s1))
            w = np.array([c is not None for c in r.wrap])
            with np.errstate(invalid='ignore'):
                hi, lo = r.dmax * dt, r.dmin * dt
            hi, lo = np.where(np.isnan(hi), 0.0, hi), np.where(np.isnan(lo), 0.0, lo)
            if s['method'] == 'RK45':  # a solver step across a switching rate limit is only accurate to its tolerance
                hi, lo = hi + 0.2 * np.abs(hi), lo - 0.2 * np.abs(lo)
            bad = np.nonzero(~w & ((d > hi + tol) | (d < lo - tol)))[0]
            if bad.size and s['method'] == 'RK45':  # as far as any adaptive solver of this kind strays (some of its weights are negative)
                a = r.rk(dt, o.s0, u)
                if a is not None:
                    a = r.clip(a)
                    stray = r.scatter(dt, o.s0, u, a, 1e-9)
                    off = r.diff(a, o.s0)
                    hi, lo = np.maximum(hi, off + 3 * stray), np.minimum(lo, off - 3 * stray)
                    bad = np.nonzero(~w & ((d > hi + tol) | (d < lo - tol)))[0]
            if bad.size:
                i = bad[0]
                raise Violation('rate-limit', f'{name}: element {i} moved by {d[i]!r} in {dt!r} s, rate limits [{r.dmin[i]!r}, {r.dmax[i]!r}]')
            at = (o.s0 <= r.smin) | (o.s0 >= r.smax)
            if at.any():
                run.count('ticks_starting_at_a_limit')
                if np.any(at & (o.s1 > r.smin) & (o.s1 < r.smax)):
                    run.count('releases_from_a_limit')
            super().judge(run, e, r, s, dt, cmd, u, warn, o)


def one_sided(rng, p):
    """sometimes drop one of the two limits of an element"""
    for a, b, big in (('smin', 'smax', math.inf), ('dmin', 'dmax', math.inf)):
        if isinstance(p.get(a), list):
            for i in range(len(p[a])):
                if rng.random() < 0.2:
                    if rng.random() < 0.5:
                        p[a][i] = -big
                    else:
                        p[b][i] = big


def spy(e):
    """record the control vectors the dynamics receive (the dynamics object is an injected collaborator)"""
    seen = []
    inner = e.dynamics.step

    def step(*a, **k):
        c = k.get('control', a[2] if len(a) > 2 else None)
        if c is not None:
            seen.append(np.array(c, float))
        return inner(*a, **k)

    e.dynamics.step = step
    return seen


class Commands(Physics):
    """L02: every body has twins that receive the same commands in other forms"""

    def __init__(self):
        super().__init__(world.ALL_KINDS[:3] + world.ALL_KINDS[4:] + ['user', 'dub3', 'sixdof', 'cust'], None,
                         'Runs: worlds whose clients send partial, full, repeated and out-of-range commands in every accepted form through the '
                         'faulty channel; every body has a twin receiving an equivalent command in another form; non-trivial: at least one '
                         'tick checked. ')

    def gen(self, rng, i, tier):
        specs = [world.gen_spec(rng, world.pick(rng, *self.kinds), f'b{k}', ('RK45', 'RK45', 'Euler'), samples=0.1) for k in range(world.pick(rng, 1, 2, 3))]
        forms = ('none', 'dict', 'dict', 'dict', 'list', 'f64', 'f32', 'int') + (('jnp', ) if i % 16 == 0 else ())
        ops = world.gen_history(rng, specs, 50, over=world.pick(rng, 0.1, 0.4, 0.7), forms=forms, long_ok=False, endure=0.04)
        refs = [world.ref_of(s) for s in specs]
        for op in ops:
            if op[0] == 'tick':
                op.append(alternative(rng, op[3], refs[op[1]], i % 16 == 0))
                if rng.random() < 0.25:  # the twin lives in a process that ignores warnings
                    op[5]['quiet'] = True
        return {'bodies': specs, 'ops': [o if o[0] == 'assign' else o[:5] + [o[5]] for o in ops]}

    def run(self, plan, run):
        from . import lib
        ns = lib.fresh()
        bodies = plan['bodies']
        ents = [world.build(ns, s) for s in bodies]
        twins = [world.build(ns, s) for s in bodies]
        refs = [world.ref_of(s) for s in bodies]
        seen = [spy(e) for e in ents]
        seen2 = [spy(e) for e in twins]
        for op in plan['ops']:
            b = op[1]
            s, r = bodies[b], refs[b]
            if op[0] == 'assign':
                world.assign(ents[b], op[2])
                run.fault('state-reassignment')
                continue
            _, _, dt, cmd, tags, alt = op
            for t in tags:
                run.fault(t)
            twins[b].state = ents[b].state
            single = 0.0
            obs = []
            for e, c, sn in ((ents[b], cmd, seen[b]), (twins[b], alt, seen2[b])):
                u, w = r.command(c)
                single = max(single, 1.0 if r.usingle else 0.0)
                obj = world.real_cmd(c)
                sn.clear()
                quiet = bool(c.get('quiet'))
                o = world.tick(e, dt, obj, 'ignore' if quiet else 'always')
                if quiet:
                    run.fault('warnings-ignored')
                obs.append((o, u, r.usingle))
                run.count('ticks')
                run.sim += dt
                name = f'{s["kind"]} {s["method"]} command {c}'
                if o.exc is not None:
                    raise Violation('step-raised', f'{name}: {type(o.exc).__name__}: {o.exc}')
                if w is not None and not quiet and o.warn != w:
                    raise Violation('warning', f'{name}: {"no " if not o.warn else ""}warning although the command is {"" if w else "not "}out of range '
                                    f'[{r.cmin.tolist()}, {r.cmax.tolist()}]')
                if w:
                    run.count('clipped_commands')
                if sn:
                    got = sn[-1]
                    if got.shape != u.shape or not np.all(np.abs(got - u) <= 1e-6 * (np.abs(u) + 1e-9)):
                        raise Violation('control', f'{name}: dynamics received {got.tolist()} instead of {u.tolist()}')
                    run.count('control_vectors_observed')
                if type(obj) is dict and obj != c['v'] or type(obj) is list and obj != c['v']:
                    raise Violation('command-modified', f'{name}: command object became {obj}')
                if not np.array_equal(np.array(e.control_default, float), r.cdef):
                    raise Violation('default-worn', f'{name}: default command is now {np.array(e.control_default).tolist()}')
                world.absorb(run.dig, o)
                msg = r.check(dt, o.s0, u, o.s1, s['method'], None, o.f32 or c['form'] == 'jnp')
                if msg:
                    raise Violation('motion', f'{name}: {msg}')
            (oa, ua, _), (ob, ub, _) = obs
            sens = 4 * abs(dt) * refs_sens(r, oa.s0, ua, ub)
            if s['method'] == 'Euler':
                d = np.abs(r.diff(oa.s1, ob.s1))
                r.usingle = True
                tol = 2 * r.tight(dt, oa.s0, oa.s1, ua, oa.f32 or 'jnp' in (cmd['form'], alt['form'])) + sens
                if np.any(d > tol):
                    i = int(np.argmax(d - tol))
                    raise Violation('form', f'{s["kind"]}: {cmd} and {alt} move element {i} apart by {d[i]:.3e} in {dt!r} s')
            run.see(s['kind'], cmd['form'], alt['form'], len(cmd.get('v') or ()), bool(obs[0][0].warn), tuple(tags)[:1])
        run.sample = {'bodies': [(s['kind'], s['method']) for s in bodies], 'first_ops': plan['ops'][:3]}


def refs_sens(r, s, ua, ub):
    return np.abs(r.raw(0.0, s, ua) - r.raw(0.0, s, ub))


def alternative(rng, cmd, ref, jnp_ok):
    """an equivalent command in another form"""
    if ref.nu == 0:
        return {'form': 'none'}
    full = ref.cdef.tolist()
    if cmd['form'] == 'dict':
        for k, v in cmd['v'].items():
            full[ref.cnames.index(k)] = v
        if not cmd['v'] and rng.random() < 0.3:
            return {'form': 'none'}
    elif cmd['form'] != 'none':
        full = list(cmd['v'])
    forms = ['f64', 'f32', 'list', 'f64'] + (['dict'] * 2 if ref.cnames else []) + (['jnp'] if jnp_ok else [])
    if cmd['form'] == 'none':
        forms += ['none']
        if ref.cnames:
            return {'form': 'dict', 'v': {}} if rng.random() < 0.5 else {'form': 'dict', 'v': {ref.cnames[0]: full[0]}}
    f = rng.choice(forms)
    if f == 'none':
        return {'form': 'none'}
    if f == 'dict':
        items = [(ref.cnames[i], full[i]) for i in range(ref.nu)]
        rng.shuffle(items)
        return {'form': 'dict', 'v': dict(items)}
    return {'form': f, 'v': full}


class Wrap(Physics):
    """L03"""

    def __init__(self):
        super().__init__(['dub2', 'dub3', 'rot2d', 'user', 'user', 'cust'], None,
                         'Runs: bodies with wrapped angles at any centre, turning through many half turns within and between ticks, reassigned '
                         'to states many turns away; non-trivial: at least one tick checked. ')

    def gen(self, rng, i, tier):
        specs = []
        while len(specs) < world.pick(rng, 1, 2, 3):
            s = world.gen_spec(rng, world.pick(rng, *self.kinds), f'b{len(specs)}', ('RK45', 'RK45', 'RK45', 'Euler'))
            if s['kind'] in ('user', 'cust') and not any(c is not None for c in world.ref_of(s).wrap):
                continue
            specs.append(s)
        ops = world.gen_history(rng, specs, 60, over=0.3, assign=0.1, dt_scale=world.pick(rng, None, None, 2.0, 6.0), endure=0.03)
        refs = [world.ref_of(s) for s in specs]
        for op in ops:
            if op[0] == 'assign':
                for k, c in enumerate(refs[op[1]].wrap):
                    if c is not None and rng.random() < 0.6 and not np.isfinite(refs[op[1]].smin[k]):
                        op[2]['s'][k] += 2 * math.pi * rng.randrange(-3, 4)
                        op[2]['dtype'] = 'f64'
                        if rng.random() < 0.2:
                            op[2]['s'][k] = c + world.pick(rng, -1, 1) * math.pi
        return {'bodies': specs, 'ops': ops}

    def judge(self, run, e, r, s, dt, cmd, u, warn, o):
        for i, c in enumerate(r.wrap):
            if c is None:
                continue
            lim = np.isfinite(r.smin[i]) or np.isfinite(r.smax[i])
            tol = 1e-6 * (1 + abs(c))
            if not lim and not c - math.pi - tol <= o.s1[i] <= c + math.pi + tol:
                raise Violation('wrap-interval', f'{s["kind"]} {s["params"]}: wrapped element {i} is {o.s1[i]!r}, centre {c!r}')
            if abs(o.s1[i] - o.s0[i]) > math.pi:
                run.count('crossings')
            if abs(o.s0[i] - c) > math.pi + 1e-6:
                run.fault('angle-assigned-outside-interval')
        super().judge(run, e, r, s, dt, cmd, u, warn, o)


CHECKS = {'L01': Limits(), 'L02': Commands(), 'L03': Wrap()}
