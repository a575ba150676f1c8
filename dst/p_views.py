"""V01 accessors, V02 relative queries, Q01 equality: what observers see of bodies while worlds run."""
import math
import random

import numpy as np

from . import lib, world
from .core import Base, Violation
from .p_iso import bad_command, link

# ---------------------------------------------------------------------------------------------------------------------
# own description of what a state vector means

LEN, VEL, ANG, ANGV, ACC = 'len', 'vel', 'ang', 'angv', 'acc'
FT = 0.3048
# factor from SI (radian) to the unit
UNITS = {
    LEN: {'meter': 1.0, 'foot': 1 / FT, 'kilometer': 1e-3, 'nautical_mile': 1 / 1852.0, 'mile': 1 / 1609.344, 'inch': 1 / 0.0254, 'centimeter': 100.0},
    VEL: {'meter/second': 1.0, 'foot/second': 1 / FT, 'knot': 3600 / 1852.0, 'kilometer/hour': 3.6, 'mile/hour': 3600 / 1609.344, 'foot/minute': 60 / FT},
    ANG: {'radian': 1.0, 'degree': 180 / math.pi, 'turn': 0.5 / math.pi, 'arcminute': 180 * 60 / math.pi, 'milliradian': 1000.0},
    ANGV: {'radian/second': 1.0, 'degree/second': 180 / math.pi, 'degree/hour': 180 * 3600 / math.pi, 'revolutions_per_minute': 30 / math.pi,
           'radian/minute': 60.0},
    ACC: {'meter/second**2': 1.0, 'foot/second**2': 1 / FT, 'knot/second': 3600 / 1852.0, 'kilometer/hour/second': 3.6},
}
SI_OF_BASE = {'m': {LEN: 1.0, VEL: 1.0, ANG: 1.0, ANGV: 1.0, ACC: 1.0}, 'ft': {LEN: FT, VEL: FT, ANG: 1.0, ANGV: 1.0, ACC: FT}}
SYSTEM = {'cwh': 'm', 'rot2d': 'm', 'sixdof': 'm', 'int1': 'm', 'int2': 'm', 'int3': 'm', 'sun': 'm', 'dub2': 'ft', 'dub3': 'ft', 'user': 'm'}


def vec3(*v):
    return np.array(v, float)


def rot_zyx(yaw, pitch, roll):
    cy, sy, cp, sp, cr, sr = math.cos(yaw), math.sin(yaw), math.cos(pitch), math.sin(pitch), math.cos(roll), math.sin(roll)
    return np.array([[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr], [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr], [-sp, cp * sr, cp * cr]])


def rot_quat(q):
    x, y, z, w = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def facts(kind, s, sdot):
    """name -> (value, quantity kind or None, tolerance relative to the largest magnitude involved)"""
    s = np.asarray(s, float)
    sdot = np.asarray(sdot, float)
    f = {}

    def put(pos, vel):
        for n, v in zip('xyz', pos):
            f[n] = (v, LEN)
        f['position'] = (vec3(*pos), LEN)
        f['velocity'] = (vec3(*vel), VEL)

    if kind in ('cwh', 'rot2d', 'sixdof'):
        if kind == 'cwh':
            pos, vel, w = s[0:3], s[3:6], None
        elif kind == 'rot2d':
            pos, vel, w = [s[0], s[1], 0.0], [s[3], s[4], 0.0], [0.0, 0.0, s[5]]
        else:
            pos, vel, w = s[0:3], s[7:10], s[10:13]
        put(pos, vel)
        for n, v in zip(('x_dot', 'y_dot', 'z_dot'), vel):
            f[n] = (v, VEL)
        if w is not None:
            for n, v in zip(('wx', 'wy', 'wz'), w):
                f[n] = (v, ANGV)
            f['angular_velocity'] = (vec3(*w), ANGV)
        if kind == 'cwh':
            f['orientation'] = (np.eye(3), 'rot')
        elif kind == 'rot2d':
            f['theta'] = (s[2], None)
            f['orientation'] = (rot_zyx(s[2], 0, 0), 'rot')
            q = vec3(0, 0, math.sin(s[2] / 2), math.cos(s[2] / 2))
            f['quaternion'] = (q, 'quat')
            f['q1q2q3q4'] = (q, 'quat')
        else:
            f['orientation'] = (rot_quat(s[3:7]), 'rot')
            f['quaternion'] = (s[3:7] / np.linalg.norm(s[3:7]), 'quat')
            for k in range(4):
                f[f'q{k + 1}'] = (s[3 + k], None)
    elif kind in ('dub2', 'dub3'):
        if kind == 'dub2':
            x, y, h, v = s
            z, g, r = 0.0, 0.0, 0.0
        else:
            x, y, z, h, g, r, v = s
        unit = vec3(math.cos(h) * math.cos(g), math.sin(h) * math.cos(g), -math.sin(g))
        put([x, y, z], v * unit)
        f['v'] = (v, VEL)
        for n, a in (('heading', h), ('yaw', h), ('gamma', g), ('pitch', g), ('roll', r)):
            f[n] = (a, ANG)
        f['acceleration'] = (sdot[-1] * unit, ACC)
        f['orientation'] = (rot_zyx(h, g, r), 'rot')
    elif kind in ('int1', 'int2', 'int3'):
        n = {'int1': 1, 'int2': 2, 'int3': 3}[kind]
        pos, vel = list(s[:n]) + [0.0] * (3 - n), list(s[n:]) + [0.0] * (3 - n)
        put(pos, vel)
        for nm, v in zip(('x_dot', 'y_dot', 'z_dot'), vel):
            f[nm] = (v, None)
        f['orientation'] = (np.eye(3), 'rot')
    elif kind == 'sun':
        f['theta'] = (s[0], None)
    elif kind == 'user':
        put([s[0], 0, 0], [s[-1], 0, 0])
        del f['y'], f['z']
    return f


def with_units_name(n):
    return n + ('_with_unit' if n in ('wx', 'wy', 'wz') else '_with_units')


def same_vec(a, want, rtol, scale):
    """scalars and vectors; a body with fewer dimensions may report only those it has"""
    a = np.ravel(np.asarray(a, float))
    w = np.ravel(np.asarray(want, float))
    if a.size > w.size:
        return False
    if a.size < w.size and np.any(w[a.size:] != 0):
        return False
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - w[:a.size]) <= rtol * scale + 1e-30))


class Views(Base):
    """V01"""
    rule = ('Runs: worlds of 1-3 bodies; at seeded instants (right after spawning, between ticks, after assignments, rejected and failed steps) a seeded subset '
            'of accessors is read in seeded order and compared with an independent reading of the state vector and with independent unit factors; a twin world is never read; '
            'non-trivial: at least one accessor read. ')
    measure = 'distinct (body kind, accessor, unit, preceding operation) tuples read'
    shrink_keys = ['ops']
    nontrivial = ('reads', )
    runs = {'quick': 1000, 'thorough': 6000}

    def gen(self, rng, i, tier):
        kinds = ['cwh', 'rot2d', 'sixdof', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'sun', 'user', 'sixdof', 'dub3', 'rot2d']
        specs = [world.gen_spec(rng, kinds[(i + 5 * k) % len(kinds)] if k == 0 else rng.choice(kinds), f'b{k}', ('RK45', 'RK45', 'Euler')) for k in range(world.pick(rng, 1, 2, 3))]
        hist = world.gen_history(rng, specs, 30, over=0.3, assign=0.15, endure=0.05)
        ops = []

        def read(b):
            ops.append(['read', b, rng.randrange(1 << 30), world.pick(rng, 'few', 'few', 'all')])

        for b in range(len(specs)):
            read(b)
        for op in hist:
            ops.append(op)
            r = rng.random()
            b = rng.randrange(len(specs))
            if r < 0.08:
                ops.append(['bad', b, world.pick(rng, 'name', 'type', 'size', 'value')])
            elif r < 0.12:
                ops.append(['respawn', b])
            elif r < 0.25 and specs[b]['kind'] in ('dub2', 'dub3'):
                ops.append(['set', b, rng.randrange(8), rng.random()])
            if rng.random() < 0.5:
                read(world.pick(rng, b, op[1]))
            if rng.random() < 0.15:  # change a single element between two complete readings
                ops.append(['read', b, rng.randrange(1 << 30), 'all'])
                ops.append(['nudge', b, rng.randrange(13), world.pick(rng, 'negate', 'negate', 'add', 'add', 'small'), rng.uniform(-1, 1)])
                ops.append(['read', b, rng.randrange(1 << 30), 'all'])
        return {'bodies': specs, 'ops': ops}

    def run(self, plan, run):
        specs = plan['bodies']
        ns = lib.fresh()
        es = [world.build(ns, s) for s in specs]
        ns2 = lib.fresh()
        twins = [world.build(ns2, s) for s in specs]
        prev = ['spawn'] * len(specs)
        for op in plan['ops']:
            b = op[1]
            if op[0] == 'read':
                self.read(run, specs[b], es[b], random.Random(op[2]), op[3], prev[b])
                continue
            if op[0] == 'tick':
                run.sim += op[2]
                run.count('ticks')
                for t in op[4]:
                    run.fault(t)
            else:
                run.fault(op[0]) if op[0] in ('bad', 'respawn') else run.count(op[0])
            self.apply(ns, specs, es, op)
            self.apply(ns2, specs, twins, op)
            prev[b] = op[0]
            s1, s2 = es[b].state, twins[b].state
            run.dig.update(np.asarray(s1).tobytes())
            if np.asarray(s1).tobytes() != np.asarray(s2).tobytes() or np.asarray(es[b].state_dot).tobytes() != np.asarray(twins[b].state_dot).tobytes():
                raise Violation('read-changed-motion', f'{specs[b]["kind"]}: after {op[0]} a body whose accessors were read has state {s1}, an unread one {s2}')

    def apply(self, ns, specs, es, op):
        b, e = op[1], es[op[1]]
        if op[0] == 'tick':
            e.step(op[2], world.real_cmd(op[3]))
        elif op[0] == 'assign':
            world.assign(e, op[2])
        elif op[0] == 'respawn':
            es[b] = world.build(ns, specs[b])
        elif op[0] == 'nudge':
            s = e.state
            k = op[2] % len(s)
            airspeed = specs[b]['kind'] in ('dub2', 'dub3') and k == len(s) - 1
            if op[3] == 'negate' and not airspeed:
                s[k] = -s[k]
            elif op[3] == 'small':
                s[k] *= 1 + 1e-3 * op[4]
            else:
                s[k] += (0.3 if specs[b]['kind'] == 'sixdof' and 3 <= k < 7 else 1.0) * op[4]
            e.state = s
        elif op[0] == 'bad':
            try:
                e.step(1.0, bad_command(op[2]))
            except Exception:  # noqa: BLE001
                pass
        elif op[0] == 'set':
            names = {'dub2': ['x', 'y', 'heading', 'v'], 'dub3': ['x', 'y', 'z', 'heading', 'gamma', 'roll', 'v']}[specs[b]['kind']]
            k = op[2] % len(names)
            lo, hi = {'x': (-1e4, 1e4), 'y': (-1e4, 1e4), 'z': (-1e4, 1e4), 'heading': (-3.1, 3.1), 'gamma': (-0.3, 0.3), 'roll': (-1, 1), 'v': (210, 390)}[names[k]]
            ref = world.ref_of(specs[b])
            val = world.f32(min(max(lo + (hi - lo) * op[3], ref.smin[k] + 0.0), ref.smax[k]))
            before = np.array(e.state, float)
            setattr(e, names[k], val)
            after = np.array(e.state, float)
            want = before.copy()
            want[k] = val
            if not np.array_equal(after, want):
                raise Violation('setter', f'{specs[b]["kind"]}.{names[k]} = {val}: state went from {before} to {after}')

    def read(self, run, spec, e, rng, how, prev):
        kind = spec['kind']
        before = np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes()
        f = facts(kind, e.state, e.state_dot)
        si = SI_OF_BASE[SYSTEM[kind]]
        todo = []
        for n, (v, q) in f.items():
            todo.append((n, v, q, None))
            if q in si and not (kind.startswith('int') and n.endswith('_dot')):
                todo.append((n, v, q, rng.choice(list(UNITS[q]))))
        rng.shuffle(todo)
        if how == 'few':
            todo = todo[:rng.randrange(1, 5)]
        for n, want, q, unit in todo:
            run.count('reads')
            scale = float(np.max(np.abs(want))) if np.size(want) else 0.0
            if n in ('velocity', 'acceleration') and kind in ('dub2', 'dub3'):
                tol = 2e-6
                if n == 'acceleration':
                    scale = float(np.linalg.norm(want))
            else:
                tol = 1e-6 if unit else 3e-7
            run.see(kind, n, unit, prev)
            try:
                if unit is not None:
                    got = getattr(e, with_units_name(n))
                    conv = got.to(unit)
                    factor = si[q] * UNITS[q][unit]
                    if not same_vec(conv.magnitude, np.asarray(want) * factor, tol, scale * factor):
                        raise Violation('unit-accessor', f'{kind}.{with_units_name(n)} converted to {unit} is {conv}, the state says {np.asarray(want) * factor} {unit}')
                    run.dig.update(np.asarray(conv.magnitude, float).tobytes())
                    continue
                if q == 'rot':
                    got = e.orientation.as_matrix()
                    if got.shape != (3, 3) or not np.all(np.abs(got - want) <= 2e-6):
                        raise Violation('orientation', f'{kind}.orientation is {got.tolist()}, the state says {want.tolist()}')
                    ax = e.orientation.apply([1.0, 0.0, 0.0])
                    if not np.allclose(ax, want[:, 0], atol=2e-6):
                        raise Violation('orientation', f'{kind}: local x axis maps to {ax}, the state says {want[:, 0]}')
                elif q == 'quat':
                    got = np.array([getattr(e, f'q{k}') for k in (1, 2, 3, 4)], float) if n != 'quaternion' else np.array(e.quaternion, float)
                    if got.shape != (4, ) or min(np.max(np.abs(got - want)), np.max(np.abs(got + want))) > 2e-6:
                        raise Violation('quaternion', f'{kind}.{n} is {got}, the state says {want}')
                else:
                    got = getattr(e, n)
                    if not same_vec(got, want, tol, scale):
                        raise Violation('accessor', f'{kind}.{n} is {got!r}, the state says {want}')
                run.dig.update(np.asarray(got, float).tobytes())
            except AttributeError as ex:
                raise Violation('accessor-missing', f'{kind}.{n}: {ex}') from ex
        after = np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes()
        if before != after:
            raise Violation('read-changed-state', f'{kind}: reading {[t[0] for t in todo]} changed the state')
        # reading twice gives the same
        n = rng.choice([k for k in f if f[k][1] not in ('rot', ) and k != 'q1q2q3q4'])
        if np.asarray(getattr(e, n)).tobytes() != np.asarray(getattr(e, n)).tobytes():
            raise Violation('read-unstable', f'{kind}.{n} differs between two reads')


# ---------------------------------------------------------------------------------------------------------------------


class Registry:
    """the simulation object spacecraft refer to"""

    def __init__(self):
        self.sim_entities = {}


class Relative(Base):
    """V02"""
    rule = ('Runs: 2-5 spacecraft of mixed kinds in one or two registries; ticks, relative queries, registrations, replacements, swaps, removals, respawns, registry changes and lead registrations in seeded '
            'order; every answer compared with own bookkeeping of who is registered where and the state vectors at that instant; a twin world is never queried; non-trivial: at least one query. ')
    measure = 'distinct (kind of asker, kind of asked or absent, query, last registry operation) tuples'
    nontrivial = ('queries', )
    runs = {'quick': 1000, 'thorough': 6000}

    def gen(self, rng, i, tier):
        nb = rng.randrange(2, 6)
        specs = [world.gen_spec(rng, rng.choice(world.CRAFT), f'b{k}', ('RK45', 'RK45', 'Euler')) for k in range(nb)]
        hist = world.gen_history(rng, specs, 30, over=0.3, assign=0.1, endure=0.05)
        names = [f'b{k}' for k in range(nb)] + ['lead', 'ghost']
        ops = []
        for op in hist:
            ops.append(op)
            for _ in range(rng.randrange(0, 3)):
                r = rng.random()
                b = rng.randrange(nb)
                if r < 0.5:
                    ops.append(['ask', b, rng.choice(names), world.pick(rng, 'position', 'velocity')])
                elif r < 0.6:
                    ops.append(['chain', b, rng.randrange(nb), rng.randrange(nb), world.pick(rng, 'position', 'velocity')])
                elif r < 0.7:
                    ops.append(['register', rng.randrange(2), rng.choice(names), b])
                elif r < 0.77:
                    ops.append(['remove', rng.randrange(2), rng.choice(names)])
                elif r < 0.84:
                    ops.append(['swap', rng.randrange(2), rng.choice(names), rng.choice(names)])
                elif r < 0.9:
                    ops.append(['respawn', b])
                elif r < 0.93:
                    ops.append(['move', b, rng.randrange(2)])
                elif r < 0.97:
                    ops.append(['link', b, rng.randrange(nb)])
                else:
                    ops.append(['newdict', rng.randrange(2)])
        return {'bodies': specs, 'ops': ops, 'late': rng.random() < 0.5}

    def run(self, plan, run):
        specs = plan['bodies']
        worlds = []
        for q in (True, False):
            ns = lib.fresh()
            regs = [Registry(), Registry()]
            es = [world.build(ns, s, sim=None if plan['late'] else regs[0]) for s in specs]
            if plan['late']:
                for e in es:
                    e.set_sim(regs[0])
            for k, e in enumerate(es):
                regs[0].sim_entities[f'b{k}'] = e
            worlds.append((ns, regs, es, q))
        books = [{f'b{k}': k for k in range(len(specs))}, {}]
        where = [0] * len(specs)
        last = 'start'
        leads = {}
        for op in plan['ops']:
            if op[0] == 'link':  # only in the world that is queried
                es = worlds[0][2]
                if link(es[op[1]], es[op[2]]):
                    leads[op[1]] = es[op[2]]
            elif op[0] == 'respawn':
                leads.pop(op[1], None)
            for ns, regs, es, q in worlds:
                if op[0] == 'tick':
                    es[op[1]].step(op[2], world.real_cmd(op[3]))
                elif op[0] == 'assign':
                    world.assign(es[op[1]], op[2])
                elif op[0] == 'register':
                    regs[op[1]].sim_entities[op[2]] = es[op[3]]
                elif op[0] == 'remove':
                    regs[op[1]].sim_entities.pop(op[2], None)
                elif op[0] == 'swap':
                    d = regs[op[1]].sim_entities
                    if op[2] in d and op[3] in d:
                        d[op[2]], d[op[3]] = d[op[3]], d[op[2]]
                elif op[0] == 'newdict':
                    regs[op[1]].sim_entities = dict(regs[op[1]].sim_entities)
                elif op[0] == 'move':
                    es[op[1]].set_sim(regs[op[2]])
                elif op[0] == 'respawn':
                    old = es[op[1]]
                    es[op[1]] = world.build(ns, specs[op[1]], sim=regs[where[op[1]]])
                    for r in regs:
                        for n in [n for n, v in r.sim_entities.items() if v is old]:
                            r.sim_entities[n] = es[op[1]]
            ns, regs, es, _ = worlds[0]
            if op[0] == 'tick':
                run.count('ticks')
                run.sim += op[2]
                for t in op[4]:
                    run.fault(t)
            elif op[0] == 'register':
                books[op[1]][op[2]] = op[3]
            elif op[0] == 'remove':
                books[op[1]].pop(op[2], None)
            elif op[0] == 'swap':
                d = books[op[1]]
                if op[2] in d and op[3] in d:
                    d[op[2]], d[op[3]] = d[op[3]], d[op[2]]
            elif op[0] == 'move':
                where[op[1]] = op[2]
            for k, e in leads.items():
                if worlds[0][2][k].lead is not e:
                    raise Violation('lead', f'body {k} ({specs[k]["kind"]}) no longer refers to the lead registered last, after {op}')
            if op[0] in ('register', 'remove', 'swap', 'respawn', 'move', 'newdict', 'link'):
                run.fault(op[0])
                last = op[0]
            if op[0] == 'ask':
                self.ask(run, specs, es, books[where[op[1]]], op[1], op[2], op[3], last)
            if op[0] == 'chain':
                a, b, c, what = op[1:]
                bk = books[where[a]]
                rev = {}
                for n, k in bk.items():
                    rev.setdefault(k, n)
                if b in rev and c in rev and where[b] == where[a]:
                    run.count('chains')
                    ab = self.ask(run, specs, es, bk, a, rev[b], what, last)
                    bc = self.ask(run, specs, es, bk, b, rev[c], what, last)
                    ac = self.ask(run, specs, es, bk, a, rev[c], what, last)
                    m = max(np.max(np.abs(facts(specs[k]['kind'], es[k].state, es[k].state_dot)[what][0])) for k in (a, b, c))
                    if not np.all(np.abs(ab + bc - ac) <= 1e-6 * m + 1e-30):
                        raise Violation('not-additive', f'{what}: {ab} + {bc} != {ac}')
                    if a in rev and where[b] == where[a]:
                        ba = self.ask(run, specs, es, bk, b, rev[a], what, last)
                        if not np.all(np.abs(ab + ba) <= 1e-6 * m + 1e-30):
                            raise Violation('not-antisymmetric', f'{what}: {ab} and {ba}')
            for k in range(len(specs)):
                x, y = worlds[0][2][k], worlds[1][2][k]
                if np.asarray(x.state).tobytes() != np.asarray(y.state).tobytes() or np.asarray(x.state_dot).tobytes() != np.asarray(y.state_dot).tobytes():
                    raise Violation('query-changed-motion', f'{specs[k]["kind"]}: queried world has {x.state}, unqueried world {y.state} after {op}')
        for e in worlds[0][2]:
            run.dig.update(np.asarray(e.state).tobytes())

    def ask(self, run, specs, es, book, a, name, what, last):
        run.count('queries')
        before = [(np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes()) for e in es]
        keys = list(es[a]._sim.sim_entities) if getattr(es[a], '_sim', None) is not None else None
        run.see(specs[a]['kind'], specs[book[name]]['kind'] if name in book else 'absent', what, last)
        got = exc = None
        try:
            got = getattr(es[a], 'entity_relative_' + what)(name)
        except Exception as ex:  # noqa: BLE001
            exc = ex
        if [(np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes()) for e in es] != before:
            raise Violation('query-side-effect', f'asking for the relative {what} of {name!r} changed a body')
        if keys is not None and list(es[a]._sim.sim_entities) != keys:
            raise Violation('query-changed-registry', f'asking for the relative {what} of {name!r} changed the registry')
        if name not in book:
            run.fault('absent-name')
            if exc is None:
                raise Violation('absent-name-answered', f'{specs[a]["kind"]} answered {got} for the absent name {name!r}')
            return None
        if exc is not None:
            raise Violation('query-failed', f'{specs[a]["kind"]} asking for the relative {what} of {name!r} ({specs[book[name]]["kind"]}): {type(exc).__name__}: {exc}')
        o = book[name]
        mine = facts(specs[a]['kind'], es[a].state, es[a].state_dot)[what][0]
        theirs = facts(specs[o]['kind'], es[o].state, es[o].state_dot)[what][0]
        want = theirs - mine
        got = np.asarray(got, float)
        m = max(np.max(np.abs(mine)), np.max(np.abs(theirs)))
        if got.shape != (3, ) or not np.all(np.abs(got - want) <= 3e-7 * m + 1e-30):
            raise Violation('relative-' + what, f'{specs[a]["kind"]} asking about {name!r} ({specs[o]["kind"]}): got {got}, state vectors say {want}')
        run.dig.update(got.tobytes())
        return got


# ---------------------------------------------------------------------------------------------------------------------


def judge(kind, sa, da, sb, db):
    """True: must be equal; False: must differ; None: not judged"""
    sa, sb = np.asarray(sa, float), np.asarray(sb, float)
    if kind in ('dub2', 'dub3'):
        if np.array_equal(sa, sb):
            if np.array_equal(da, db):
                return True
            return None
    elif np.array_equal(sa, sb):
        return True
    d = np.abs(sa - sb)
    big = d > 2.5e-6 * np.maximum(1e-3, np.maximum(np.abs(sa), np.abs(sb)))
    if kind == 'rot2d' and big[2]:
        turns = (sa[2] - sb[2]) / (4 * math.pi)
        big[2] = abs(turns - round(turns)) * 4 * math.pi > 2.5e-6 * max(1.0, abs(sa[2])) and abs((sa[2] - sb[2]) / (2 * math.pi) - round((sa[2] - sb[2]) / (2 * math.pi))) > 1e-5
    if kind in ('dub2', 'dub3'):
        # elements that only show in the single-precision velocity need a change it can show
        h = 2 if kind == 'dub2' else 3
        if big[h]:
            big[h] = d[h] > 3e-6
    if kind == 'sixdof' and big[3:7].any():
        qa, qb = sa[3:7] / np.linalg.norm(sa[3:7]), sb[3:7] / np.linalg.norm(sb[3:7])
        big[3:7] = min(np.max(np.abs(qa - qb)), np.max(np.abs(qa + qb))) > 2e-6
    return False if big.any() else None


GROUPS = {
    'cwh': ([0, 1, 2], [3, 4, 5]), 'rot2d': ([0, 1], [3, 4]), 'sixdof': ([0, 1, 2], [3, 4, 5, 6], [7, 8, 9], [10, 11, 12]), 'sun': (), 'dub2': ([0, 1], ), 'dub3': ([0, 1, 2], ),
    'int1': (), 'int2': ([0, 1], [2, 3]), 'int3': ([0, 1, 2], [3, 4, 5])
}


def mirror(kind, e, k, how, num):
    """change a body so that sums, magnitudes or the multiset of its elements stay the same"""
    s = e.state
    k %= len(s)
    g = [x for x in GROUPS[kind] if k in x]
    if how == 'negate' or not g:
        if kind in ('dub2', 'dub3') and k == len(s) - 1:
            return 'none'  # airspeeds stay positive
        s[k] = -s[k]
        how = 'negate'
    else:
        g = g[0]
        j = g[(g.index(k) + 1 + num % (len(g) - 1)) % len(g)]
        if how == 'exchange':
            s[k], s[j] = s[j], s[k]
        elif how == 'shift2' and not (kind == 'sixdof' and k in (3, 4, 5, 6)):
            d = (num + 1) / 100.0 * max(abs(float(s[k])), 0.1)
            s[k] += d
            s[j] -= d
        else:
            s[g] = np.roll(s[g], 1 + num % (len(g) - 1))
    e.state = s
    return how + str(k)


def alike(kind, a, b):
    """a state whose named coordinates are the same for all kinds that have them"""
    val = {'x': a, 'y': a, 'z': a, 'x_dot': b, 'y_dot': b, 'z_dot': b, 'xdot': b, 'ydot': b, 'zdot': b, 'q4': 1.0, 'v': max(a, 200.0)}
    if kind in ('rot2d', 'dub2'):
        val['z'] = val['z_dot'] = 0.0
    if kind == 'dub3' or kind in ('cwh', 'sixdof') and b == 0.0:
        val['z'] = 0.0
    return np.array([val.get(f, 0.0) for f in world.FIELDS[kind]])


class Equality(Base):
    """Q01"""
    rule = ('Runs: groups of bodies of one kind (and bystanders of other kinds) fed equal or diverging histories, perturbed in single state elements, restored from snapshots; every pair compared in '
            'both directions at seeded instants against own comparison of motion states; non-trivial: at least one comparison. ')
    measure = 'distinct (kind, perturbed element or event, verdict) tuples'
    nontrivial = ('comparisons', )
    runs = {'quick': 1200, 'thorough': 8000}

    def gen(self, rng, i, tier):
        kinds = ['cwh', 'rot2d', 'sixdof', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'sun']
        kind = kinds[i % len(kinds)]
        spec = world.gen_spec(rng, kind, 'a', ('RK45', 'RK45', 'Euler'))
        n = world.pick(rng, 2, 2, 3)
        kin = [k for f in (('cwh', 'rot2d', 'sixdof'), ('dub2', 'dub3'), ('int1', 'int2', 'int3')) if kind in f for k in f if k != kind]
        others = [world.gen_spec(rng, rng.choice(kin if kin and k == 0 else [k for k in kinds if k != kind]), f'o{k}', ('RK45', )) for k in range(2)]
        hist = world.gen_history(rng, [spec], 20, over=0.3, assign=0.08)
        ops = []
        for op in hist:
            r = rng.random()
            if r < 0.6:
                ops.append(['all', op])
            elif r < 0.75:
                ops.append(['one', rng.randrange(n), op])
            else:
                ops.append(['all', op])
                if rng.random() < 0.6:
                    ops.append(['sync'])
                ops.append(['perturb', rng.randrange(n), rng.randrange(13), world.pick(rng, -1, 1) * world.logu(rng, 3e-6, 0.3)])
            if rng.random() < 0.3:  # a barely visible difference, looked at directly
                ops.append(['sync'])
                ops.append(['perturb', rng.randrange(n), rng.randrange(13), world.pick(rng, -1, 1) * world.logu(rng, 2.6e-6, 3e-5), world.pick(rng, 'rel', 'abs', 'rel')])
                ops.append(['compare', False])
            if r > 0.85:
                ops.append(['sync'])
                ops.append(['mirror', rng.randrange(n), rng.randrange(13), world.pick(rng, 'negate', 'negate', 'exchange', 'shift2', 'rotate'), rng.randrange(1000)])
                ops.append(['compare', rng.random() < 0.5])
            if rng.random() < 0.3:
                ops.append(['restore', rng.randrange(n), rng.randrange(n)])
            if rng.random() < 0.1:
                ops.append(['respawn', rng.randrange(n)])
            if rng.random() < 0.08:  # bodies of different kinds whose coordinates coincide
                ops.append(['coincide', world.pick(rng, 0.0, 1.0, 300.0, world.f32(rng.uniform(200, 300))), world.pick(rng, 0.0, 0.0, 0.5, -1.0), rng.randrange(2)])
                ops.append(['compare', True])
            ops.append(['compare', rng.random() < 0.5])
        return {'spec': spec, 'n': n, 'others': others, 'ops': ops}

    def run(self, plan, run):
        spec, kind = plan['spec'], plan['spec']['kind']
        ns = lib.fresh()
        names = ['a', 'b', 'a'] if plan['n'] == 3 else ['a', 'b']
        es = [world.build(ns, dict(spec, name=names[k])) for k in range(plan['n'])]
        others = [world.build(ns, s) for s in plan['others']]
        last = 'spawn'
        for op in plan['ops']:
            if op[0] in ('all', 'one'):
                for e in (es if op[0] == 'all' else [es[op[1]]]):
                    h = op[-1]
                    if h[0] == 'tick':
                        e.step(h[2], world.real_cmd(h[3]))
                        run.count('ticks')
                        run.sim += h[2]
                    else:
                        world.assign(e, h[2])
                last = op[0]
                if op[0] == 'one':
                    run.fault('diverging-history')
            elif op[0] == 'perturb':
                e = es[op[1]]
                s = e.state
                k = op[2] % len(s)
                base = float(s[k])
                s[k] = base + op[3] * (max(abs(base), 1.0) if len(op) < 5 or op[4] == 'abs' else max(abs(base), 2e-3))
                e.state = s
                run.fault('single-element-change')
                last = f'perturb{k}'
            elif op[0] == 'mirror':
                last = mirror(kind, es[op[1]], op[2], op[3], op[4])
                run.fault('coordinated-change')
            elif op[0] == 'coincide':
                for e, s in [(e, spec) for e in es] + list(zip(others, plan['others'])):
                    e.state = alike(s['kind'], op[1], op[2])
                    e.state_dot = np.full(len(e.state), op[2]) if op[3] else np.zeros(len(e.state))
                run.fault('coinciding-kinds')
                last = 'coincide'
            elif op[0] == 'sync':
                for e in es[1:]:
                    e.state = es[0].state
                    e.state_dot = np.array(es[0].state_dot, copy=True)
            elif op[0] == 'restore':
                es[op[1]].state = es[op[2]].state
                es[op[1]].state_dot = np.array(es[op[2]].state_dot, copy=True)
                run.fault('restore')
                last = 'restore'
            elif op[0] == 'respawn':
                es[op[1]] = world.build(ns, dict(spec, name=f'r{op[1]}'))
                run.fault('respawn')
                last = 'respawn'
            else:
                self.compare(run, kind, es, others, last, op[1])
        for e in es:
            run.dig.update(np.asarray(e.state).tobytes())

    def compare(self, run, kind, es, others, last, foreign):
        snap = [(np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes()) for e in es + others]
        for i, a in enumerate(es):
            for j, b in enumerate(es):
                run.count('comparisons')
                want = judge(kind, a.state, a.state_dot, b.state, b.state_dot)
                eq, ne = bool(a == b), bool(a != b)
                run.dig.update(bytes([eq, ne]))
                run.see(kind, last, want, eq)
                if eq == ne:
                    raise Violation('eq-ne', f'{kind}: == and != both say {eq}')
                if want is True and not eq:
                    raise Violation('equal-not-equal', f'{kind}: bodies with the same motion state {a.state} (derivatives {a.state_dot} and {b.state_dot}) compare unequal')
                if want is False and eq and kind != 'sun':
                    raise Violation('different-equal', f'{kind}: {a.state} and {b.state} compare equal')
                if eq != bool(b == a):
                    raise Violation('asymmetric', f'{kind}: a == b is {eq} but b == a is not')
        if foreign:
            run.fault('foreign-comparison')
            for a in es:
                for o in others + [None, 0, 'a', object(), a.name, {'x': 1}]:
                    if bool(a == o) or not bool(a != o) or (o in others and (bool(o == a) or not bool(o != a))):
                        raise Violation('foreign-equal', f'{kind} compares equal to {type(o).__name__}')
        if [(np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes()) for e in es + others] != snap:
            raise Violation('compare-side-effect', f'{kind}: comparing changed a body')


CHECKS = {'V01': Views(), 'V02': Relative(), 'Q01': Equality()}
