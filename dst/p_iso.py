"""I01-I02: bodies are isolated from each other and from their callers."""
import copy
import random
import warnings

import numpy as np

from . import lib, sched, world
from .core import Base, Violation


def sibling(rng, spec):
    """a body that differs from another in one detail, or in nothing but its history"""
    s = copy.deepcopy(spec)
    p = s['params']
    nums = [k for k, v in p.items() if isinstance(v, float) and not k.startswith('_') and k in ('m', 'n', 'inertia', 'damping', 'ang_acc_limit', 'ang_vel_limit',
                                                                                            'v_max', 'acceleration_control_max', 'thrust_control_limit')]
    r = rng.random()
    if s['kind'] in world.CRAFT and rng.random() < 0.3:  # mass and mean motion written out, so that they can be almost equal
        p.setdefault('m', 12.0)
        p.setdefault('n', 0.001027)
        nums = ['m', 'n']
    if r < 0.5 and nums:
        k = rng.choice(nums)
        p[k] = p[k] * world.pick(rng, 1.0 + 1e-9, 1.0 + 1e-9, 1.0 + 1e-6, 1.0 + 1e-4, 1.01, 1.1, 1.5, 2.0) if p[k] else 0.002
        if k == 'v_max':  # aircraft keep their limits in single precision
            p[k] = world.f32(p[k])
    elif r < 0.6 and s['kind'] in world.CRAFT:
        p['m'] = p.get('m', 12.0) * 1.5
    elif r < 0.7 and s['kind'] == 'user' and p['model'] == 'lin' and p['B'][0]:
        p['B'][0][0] += 0.25
    elif r < 0.85 and s['kind'] in ('cwh', 'rot2d', 'sixdof', 'int1', 'int2', 'int3'):  # some of the configuration drawn afresh, some left out
        fresh = world.gen_params(rng, s['kind'], {})
        for k in sorted({q for q in list(p) + list(fresh) if not q.endswith('_type')}):
            if rng.random() < 0.5:
                for q in (k, k + '_type'):
                    p.pop(q, None)
                    if q in fresh:
                        p[q] = fresh[q]
        s['init'] = world.gen_init(rng, s['kind'], p)
    if rng.random() < 0.4:
        s['init'] = world.gen_init(rng, s['kind'], p)
    if s['kind'] == 'user':
        ref = world.ref_of(s)
        if not np.all((world.init_state(s) >= ref.smin) & (world.init_state(s) <= ref.smax)):
            s['init'] = world.gen_init(rng, s['kind'], p)
    elif s['kind'] in ('dub2', 'dub3', 'rot2d', 'sixdof'):
        ref = world.ref_of(s)
        st = world.init_state(s)
        if not np.all((st >= ref.smin) & (st <= ref.smax)):
            s['init'] = world.gen_init(rng, s['kind'], p)
    return s


class Client:
    """drives one body through its own operation list and records everything observable about it"""

    def __init__(self, ns, spec, ops, sim=None, cache=None):
        self.ns, self.spec, self.ops = ns, spec, ops
        self.e = None
        self.pos = 0
        self.log = []
        self.sim = sim
        self.cache = cache

    def spawn(self):
        self.e = world.build(self.ns, self.spec, cache=self.cache)
        if self.sim is not None:
            self.sim.sim_entities[id(self)] = self.e
        self.log.append(('spawn', np.asarray(self.e.state).tobytes(), np.array(self.e.state_dot).tobytes()))

    def next(self):
        op = self.ops[self.pos]
        self.pos += 1
        if self.e is None:
            self.spawn()
        e = self.e
        if op[0] == 'assign':
            world.assign(e, op[2])
            self.log.append(('assign', e.state.tobytes()))
        elif op[0] == 'bad':
            try:
                e.step(1.0, bad_command(op[2]))
                self.log.append(('bad-accepted', e.state.tobytes()))
            except Exception as ex:  # noqa: BLE001
                self.log.append(('bad', type(ex).__name__, e.state.tobytes()))
        elif op[0] == 'poke':
            if not (op[2] == 'state_dot' and keeps(self.spec)):
                poke(e, op[2], op[3])
            self.log.append(('poke', e.state.tobytes(), np.array(e.state_dot).tobytes()))
        elif op[0] == 'respawn':
            self.e = None
            self.spawn()
        else:
            dt, cmd = op[2], op[3]
            exc = None
            WARN.clear()
            try:
                e.step(dt, world.real_cmd(cmd))
            except Exception as ex:  # noqa: BLE001
                exc = f'{type(ex).__name__}: {ex}'
            tr = getattr(e.dynamics, 'trajectory', None) if self.spec.get('samples') else None
            self.log.append(('tick', exc, np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes(), None if tr is None else np.array(tr).tobytes()))

    @property
    def done(self):
        return self.pos >= len(self.ops)


WARN = []
POKES = ['state_dot', 'state_dot', 'state', 'position', 'velocity', 'quaternion', 'control_default', 'control_limits', 'control_map', 'matrices', 'state_limits', 'rate_limits']


def keeps(spec):
    """user models that hand out arrays of their own: what is reported may be theirs"""
    return spec['kind'] == 'user' and spec['params']['model'] in ('drift', 'echo')


def poke(e, what, how):
    """an owner adjusts its own body in place; nobody else may notice"""
    if what == 'control_map':
        if e.control_map is not None:
            e.control_map['no_such_channel'] = 0
        return
    if what == 'control_limits':
        arrays = [e.control_min, e.control_max]
    elif what == 'matrices':
        arrays = [getattr(e.dynamics, n, None) for n in ('A', 'B')]
    elif what == 'state_limits':
        arrays = [e.dynamics.state_min, e.dynamics.state_max]
    elif what == 'rate_limits':
        arrays = [e.dynamics.state_dot_min, e.dynamics.state_dot_max]
    else:
        try:
            arrays = [getattr(e, what, None)]
        except (ValueError, NotImplementedError):
            return
    for a in arrays:
        if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable and a.dtype.kind == 'f':
            if what in ('state_dot', 'state', 'position', 'velocity', 'quaternion'):
                a[...] = 7.0 + how
            elif what == 'control_default':
                a[...] = 0.01 * how
            elif what == 'matrices':
                a *= 1.0 + 0.05 * how
            else:
                a *= 0.999 if how == 1 else 1.01




def bad_command(kind):
    return {'name': {'no_such_channel': 1.0}, 'type': 'full ahead', 'size': np.zeros(17), 'names': {f'channel_{k}': 1.0 for k in range(6)}, 'value': {'thrust_x': 'x'}}[kind]


class Isolation(Base):
    """I01"""
    rule = ('Runs: worlds of 2-5 bodies of mixed kinds, many of them near-copies of each other, stepped interleaved or from concurrent threads '
            'that a seeded scheduler switches at source-line or bytecode granularity inside the package, with bodies respawned and rejected commands in '
            'between; every body is compared bit for bit with a solo run in a fresh process image; non-trivial: at least one tick executed. ')
    measure = 'distinct interleavings: hash of the sequence of (switch point, next thread) or of the tick order'
    shrink_keys = ['ops']
    runs = {'quick': 640, 'thorough': 3000}

    def gen(self, rng, i, tier):
        kinds = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user']
        nb = rng.randrange(2, 6)
        specs = []
        crowd = world.pick(rng, 0.6, 0.6, 1.0)
        jaxy = world.pick(rng, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.6)
        if jaxy:
            kinds = ['rot2d', 'sun', 'user', 'user', 'cwh']
        if crowd == 1.0:
            kinds += ['cwh', 'sixdof'] * 3
        elif not jaxy and rng.random() < 0.25:  # one kind, configured independently
            kinds = [rng.choice(kinds)]
            crowd = 0.1
        for k in range(nb):
            if specs and rng.random() < crowd:
                s = sibling(rng, rng.choice(specs))
                if rng.random() < 0.6:
                    s['name'] = f'b{k}'
            else:
                s = world.accelerate(rng, world.gen_spec(rng, rng.choice(kinds), f'b{k}', ('RK45', 'RK45', 'RK45', 'Euler')), jaxy)
            specs.append(s)
        threads = rng.random() < 0.6
        ops = world.gen_history(rng, specs, 14 if threads or jaxy else 50, over=0.3, endure=0.0 if threads or jaxy else 0.05)
        out = []
        pokes = rng.random() < 0.3
        if pokes:
            ops[:0] = [['poke', b, 'state_dot', 1] for b in range(nb) if rng.random() < 0.5]
        for op in ops:
            out.append(op)
            r = rng.random()
            if r < 0.05:
                out.append(['respawn', op[1]])
            elif r < 0.12:
                out.append(['bad', op[1], world.pick(rng, 'name', 'type', 'size', 'value')])
            elif r < 0.2 or pokes and r < 0.5:
                out.append(['poke', op[1], rng.choice(POKES), rng.randrange(1, 3)])
        return {'bodies': specs, 'ops': out, 'threads': world.pick(rng, 2, 3, nb) if threads else 0, 'p': world.logu(rng, 0.005, 0.3),
                'opcodes': rng.random() < 0.25, 'sched': rng.randrange(1 << 30), 'share': rng.random() < 0.5, 'noise': rng.random() < 0.5,
                'late': [rng.random() < 0.4 for _ in specs]}

    def run(self, plan, run):
        specs = plan['bodies']
        mine = [[op for op in plan['ops'] if op[1] == b] for b in range(len(specs))]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            # the shared world
            ns = lib.fresh()
            cache = {} if plan['share'] else None
            clients = [Client(ns, s, o, cache=cache) for s, o in zip(specs, mine)]
            for c, late in zip(clients, plan['late']):
                if not late:
                    c.spawn()
            if plan['threads']:
                rng = random.Random(plan['sched'])
                groups = [clients[k::plan['threads']] for k in range(plan['threads'])]

                def drive(group, seed):
                    r = random.Random(seed)

                    def fn():
                        todo = [c for c in group if not c.done]
                        while todo:
                            c = r.choice(todo)
                            c.next()
                            if plan['noise'] and r.random() < 0.3:
                                noise(r, clients)
                            if c.done:
                                todo.remove(c)

                    return fn

                bat = sched.Baton(rng, plan['p'], plan['opcodes'])
                bat.run([drive(g, plan['sched'] + k) for k, g in enumerate(groups) if g])
                run.count('preemption_points', bat.points)
                run.fault('thread-preemption', bat.switches)
                run.see('threads', bat.trace_hash)
                run.dig.update(str(bat.trace_hash).encode())
            else:
                r = random.Random(plan['sched'])
                for op in plan['ops']:
                    clients[op[1]].next()
                    if plan['noise'] and r.random() < 0.2:
                        noise(r, clients)
                run.see('order', tuple(op[1] for op in plan['ops']))
            # every body alone in a process of its own
            for b, (s, o) in enumerate(zip(specs, mine)):
                solo = Client(lib.fresh(), s, o)
                if not plan['late'][b]:
                    solo.spawn()
                while not solo.done:
                    solo.next()
                got = clients[b].log
                for k, (x, y) in enumerate(zip(got, solo.log)):
                    if x != y:
                        raise Violation('interference', f'body {b} ({s["kind"]}, {s["method"]}, {s["params"]}) among {[q["kind"] for q in specs]}: observation {k} '
                                        f'{show(x)} differs from its solo run {show(y)} (threads: {plan["threads"]})')
                if len(got) != len(solo.log):
                    raise Violation('interference', f'body {b}: {len(got)} observations, alone {len(solo.log)}')
                for x in got:
                    run.dig.update(repr(x).encode())
                    if x[0] == 'tick':
                        run.count('ticks')
                    elif x[0] == 'respawn' or x[0] == 'spawn':
                        run.count('spawns')
                    elif x[0].startswith('bad'):
                        run.fault('rejected-command')
                    elif x[0] == 'poke':
                        run.fault('own-array-overwritten')
                run.sim += sum(op[2] for op in o if op[0] == 'tick')
        run.sample = {'bodies': [(s['kind'], s['method']) for s in specs], 'threads': plan['threads'], 'first_ops': plan['ops'][:2]}


def show(x):
    return [np.frombuffer(v, dtype=float).tolist() if isinstance(v, bytes) and len(v) % 8 == 0 else v for v in x]


def link(a, b):
    """a remembers b as its lead or partner, where its kind has one"""
    for n in ('lead', 'partner'):
        if hasattr(a, 'register_' + n):
            getattr(a, 'register_' + n)(b)
            return n
    return None


def noise(r, clients):
    """reads that must not influence anybody"""
    es = [c.e for c in clients if c.e is not None]
    if not es:
        return
    a, b = r.choice(es), r.choice(es)
    for f in (lambda: a == b, lambda: a.position_with_units.to('kilometer'), lambda: a.velocity, lambda: a.orientation, lambda: a.state * 2, lambda: link(a, b)):
        try:
            f()
        except (ValueError, NotImplementedError):  # a zero quaternion has no orientation; the sun has no position
            pass


class Aliasing(Base):
    """I02"""
    rule = ('Runs: a body whose callers overwrite every array they ever passed in or got back, at random moments, beside an undisturbed twin '
            'in another process image; arrays obtained earlier are compared with their bytes at that time; non-trivial: at least one scribble. ')
    shrink_keys = ['ops']
    kinds = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user', 'user', 'rot2d', 'sixdof', 'cust']

    def gen(self, rng, i, tier):
        spec = world.gen_spec(rng, rng.choice(self.kinds), 'a', ('RK45', 'RK45', 'Euler'), samples=0.5)
        if spec['kind'] == 'user' and rng.random() < 0.5:
            while spec['params']['model'] != 'lin':
                spec = world.gen_spec(rng, 'user', 'a', ('RK45', 'Euler'), samples=0.5)
        world.accelerate(rng, spec, 0.15)
        ops = world.gen_history(rng, [spec], 10 if spec.get('use_jax') else 30, over=0.3, assign=0.15, forms=('dict', 'list', 'f64', 'f64', 'f32', 'int', 'none'))
        out = []
        for op in ops:
            out.append(op)
            for _ in range(rng.randrange(0, 3)):
                out.append(['scribble', world.pick(rng, 'state', 'position', 'velocity', 'quaternion', 'angular_velocity', 'assigned', 'command', 'matrices',
                                                   'position_with_units', 'velocity_with_units', 'state_dot', 'trajectory', 'acceleration'),
                            world.pick(rng, 'nan', 'big', 'negate', 'zero'), rng.random() < 0.5])
        return {'body': spec, 'ops': out}

    def run(self, plan, run):
        spec = plan['body']
        ns, ns2 = lib.fresh(), lib.fresh()
        e, twin = world.build(ns, spec), world.build(ns2, spec)
        snaps = []
        keep = {'assigned': [], 'command': []}
        mats = mats_of(e, spec)
        for op in plan['ops']:
            if op[0] == 'assign':
                v = world.assign(e, op[2])
                world.assign(twin, op[2])
                keep['assigned'].append(v)
                run.fault('state-reassignment')
            elif op[0] == 'tick':
                _, _, dt, cmd, tags = op
                obj = world.real_cmd(cmd, own=True)
                before = blob(obj)
                o = world.tick(e, dt, obj)
                w = world.tick(twin, dt, world.real_cmd(cmd))
                run.count('ticks')
                run.sim += dt
                if o.exc is not None or w.exc is not None:
                    raise Violation('step-raised', f'{spec["kind"]}: {o.exc!r} / {w.exc!r}')
                if blob(obj) != before:
                    raise Violation('argument-modified', f'{spec["kind"]}: command {cmd} became {obj}')
                if obj is not None:
                    keep['command'].append(obj)
                world.absorb(run.dig, o)
                if not np.array_equal(o.s1, w.s1) or not np.array_equal(o.dot, w.dot):
                    raise Violation('aliased', f'{spec["kind"]} {spec["method"]} {spec["params"]}: after scribbling, a tick of {dt!r} s gives {o.s1.tolist()} instead of {w.s1.tolist()}')
                for nm in ('state', 'position', 'velocity', 'quaternion', 'angular_velocity', 'state_dot', 'acceleration'):
                    try:
                        a = getattr(e, nm, None)
                    except (ValueError, NotImplementedError):
                        continue
                    if isinstance(a, np.ndarray):
                        snaps.append((nm, a, a.tobytes()))
                tr = getattr(e.dynamics, 'trajectory', None)
                if isinstance(tr, np.ndarray):
                    snaps.append(('trajectory', tr, tr.tobytes()))
                snaps = snaps[-60:]
            else:
                _, what, how, older = op
                for nm, a, b in snaps:
                    if a.tobytes() != b:
                        raise Violation('snapshot-changed', f'{spec["kind"]} {spec["method"]}: a {nm} array obtained earlier changed from {np.frombuffer(b, a.dtype).tolist()} to {a.tolist()}')
                target = self.target(e, what, keep, mats, older) if not (what == 'state_dot' and keeps(spec)) else []
                for t in target:
                    if scribble(t, how):
                        snaps = [x for x in snaps if not np.shares_memory(x[1], t)] if isinstance(t, np.ndarray) else snaps
                        run.fault('scribble-' + what)
                s = np.array(e.state, float)
                ref = np.array(twin.state, float)
                if not np.array_equal(s, ref):
                    raise Violation('aliased', f'{spec["kind"]} {spec["method"]}: overwriting {what} changed the state from {ref.tolist()} to {s.tolist()}')
                run.see(spec['kind'], spec['method'], what, how, older)
        run.sample = {'body': [spec['kind'], spec['params']], 'first_ops': plan['ops'][:4]}

    @staticmethod
    def target(e, what, keep, mats, older):
        if what in keep:
            got = keep[what]
            if not got:
                return []
            x = got[0] if older else got[-1]
            return [x]
        if what == 'matrices':
            return mats
        if what == 'trajectory':
            t = getattr(e.dynamics, 'trajectory', None)
            return [t] if isinstance(t, np.ndarray) else []
        try:
            a = getattr(e, what, None)
        except (ValueError, NotImplementedError):
            return []
        if what.endswith('units'):
            a = a.magnitude
        return [a] if isinstance(a, np.ndarray) else []


def mats_of(e, spec):
    """matrices a linear model copies at construction"""
    if spec['kind'] == 'user' and spec['params']['model'] == 'lin':
        return e.given_arrays[:2]
    return []


def blob(o):
    return o.tobytes() if isinstance(o, np.ndarray) else repr(o)


def scribble(t, how):
    if isinstance(t, dict):
        t.clear()
        t['junk'] = 1e9
        return True
    if isinstance(t, list):
        t[:] = [1e9] * 5
        return True
    if not isinstance(t, np.ndarray) or not t.flags.writeable:
        return False
    if t.dtype.kind != 'f':
        t[...] = 77
    elif how == 'nan':
        t[...] = np.nan
    elif how == 'big':
        t[...] = 1e30
    elif how == 'negate':
        t[...] = -t - 3
    else:
        t[...] = 0
    return True


CHECKS = {'I01': Isolation(), 'I02': Aliasing()}
