"""X01: bodies that users derive from the base classes, with unit systems and configuration fields of their own."""
import copy
import math
import random

import numpy as np

from . import lib, world
from .core import Base, Violation
from .p_views import same_vec

LENS = {'meter': 1.0, 'kilometer': 1e3, 'foot': 0.3048, 'nautical_mile': 1852.0, 'mile': 1609.344, 'centimeter': 0.01, 'm': 1.0, 'ft': 0.3048, 'km': 1e3, 'miles': 1609.344, 'meters': 1.0}
TIMES = {'second': 1.0, 'minute': 60.0, 'hour': 3600.0, 'millisecond': 1e-3, 'day': 86400.0, 's': 1.0, 'ms': 1e-3, 'min': 60.0, 'h': 3600.0, 'seconds': 1.0, 'us': 1e-6}
ANGS = {'radian': 1.0, 'degree': math.pi / 180, 'turn': 2 * math.pi, 'arcminute': math.pi / 180 / 60, 'rad': 1.0, 'deg': math.pi / 180, 'degrees': math.pi / 180}
MASSES = {'kilogram': 1.0, 'gram': 1e-3, 'pound': 0.45359237, 'metric_ton': 1e3, 'kg': 1.0, 'g': 1e-3, 'lb': 0.45359237}
QS = ('len', 'vel', 'ang', 'angv', 'mass')
FIELDS = {'x0': 'len', 'v0': 'vel', 'a0': 'ang', 'w0': 'angv', 'm0': 'mass'}

# fields that are not measurements: (type, default, values)
EXTRA = {
    'armed': (bool, True, [True, False]),
    'callsign': (str, 'none', ['ada', '3.5 km', '']),
    'rounds': (int, 3, [0, 7, 10**17]),
    'route': (list, [1, 'a'], [[], [1, 2.5, 'x'], [[0], {'k': True}]]),
    'tool': (object, None, [(1, 2), 'drill', {'a': 1}]),
}


def unit_si(q, parts):
    """SI size of a unit given by the units it is made of"""
    if q == 'len':
        return LENS[parts[0]]
    if q == 'vel':
        return LENS[parts[0]] / TIMES[parts[1]]
    if q == 'acc':
        return LENS[parts[0]] / TIMES[parts[1]]**2
    if q == 'ang':
        return ANGS[parts[0]]
    if q == 'angv':
        return ANGS[parts[0]] / TIMES[parts[1]]
    if q == 'anga':
        return ANGS[parts[0]] / TIMES[parts[1]]**2
    return MASSES[parts[0]]


def unit_str(q, parts):
    return {'len': '{0}', 'vel': '{0}/{1}', 'acc': '{0}/{1}**2', 'ang': '{0}', 'angv': '{0}/{1}', 'anga': '{0}/{1}**2', 'mass': '{0}'}[q].format(*parts)


def gen_parts(rng, q):
    if q == 'mass':
        return [rng.choice(list(MASSES))]
    first = rng.choice(list(ANGS if q in ('ang', 'angv', 'anga') else LENS))
    return [first] + ([rng.choice(list(TIMES))] if q not in ('len', 'ang') else [])


def own_parts(system, q):
    L, T, A, M = system
    return {'len': [L], 'vel': [L, T], 'acc': [L, T], 'ang': [A], 'angv': [A, T], 'anga': [A, T], 'mass': [M]}[q]


def design(ns, spec):
    """the classes a downstream project would write"""
    import pint
    import scipy.spatial
    from pydantic import AfterValidator
    from typing_extensions import Annotated
    from typing import Union
    base = ns.base
    L, T, A, M = spec['units']
    mk = (lambda u: pint.Unit(u)) if spec['unit_objects'] else (lambda u: u)
    ann = {}
    body = {}
    for f, q in FIELDS.items():
        conv = base.build_unit_conversion_validator_fn(mk(unit_str(q, own_parts(spec['units'], q))))
        ann[f] = Annotated[Union[float, pint.Quantity], AfterValidator(conv)]
        if spec['defaults'].get(f) is not None:
            body[f] = spec['defaults'][f]
    for f in spec['extra']:
        ann[f], body[f] = EXTRA[f][:2]
    Config = type('Config', (base.BaseEntityValidator, ), {'__annotations__': ann, '__module__': __name__, **body})
    parent = base.BaseRotationEntity if spec['spin'] else base.BaseEntity

    class Body(parent):
        base_units = base.BaseUnits(mk(L), mk(T), mk(A))

        def __init__(self, **kw):
            a = np.array([[0, 1.0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1.0], [0, 0, 0, 0]])
            super().__init__(base.BaseLinearODESolverDynamics(A=a, B=np.array([[0.0], [1.0], [0.0], [0.5]]), integration_method=spec['method']), np.zeros(1), **kw)

        @classmethod
        def _get_config_validator(cls):
            return Config

        def _build_state(self):
            c = self.config
            return np.array([c.x0, c.v0, c.a0, c.w0])

        x = property(lambda self: self._state[0])
        y = property(lambda self: 2 * self._state[0])
        z = property(lambda self: -self._state[0])
        position = property(lambda self: np.array([1.0, 2.0, -1.0]) * self._state[0])
        velocity = property(lambda self: np.array([1.0, 2.0, -1.0]) * self._state[1])
        orientation = property(lambda self: scipy.spatial.transform.Rotation.from_rotvec([0, 0, self._state[2]]))
        q1 = q2 = property(lambda self: 0.0)
        q3 = property(lambda self: math.sin(self._state[2] / 2))
        q4 = property(lambda self: math.cos(self._state[2] / 2))
        quaternion = property(lambda self: np.array([self.q1, self.q2, self.q3, self.q4]))
        wx = property(lambda self: 0.5 * self._state[3])
        wy = property(lambda self: -self._state[3])
        wz = property(lambda self: self._state[3])
        angular_velocity = property(lambda self: np.array([self.wx, self.wy, self.wz]))

    if spec['inherit']:  # a further refinement, without a unit system of its own
        Body = type('Refined', (Body, ), {'__module__': __name__})
    return Body


def readings(spin, s):
    k = np.array([1.0, 2.0, -1.0])
    out = {'x_with_units': ('len', s[0]), 'y_with_units': ('len', 2 * s[0]), 'z_with_units': ('len', -s[0]), 'position_with_units': ('len', k * s[0]), 'velocity_with_units': ('vel', k * s[1])}
    if spin:
        out.update({'wx_with_unit': ('angv', 0.5 * s[3]), 'wy_with_unit': ('angv', -s[3]), 'wz_with_unit': ('angv', s[3]), 'angular_velocity_with_units': ('angv', s[3] * np.array([0.5, -1, 1]))})
    return out


class Extend(Base):
    """X01"""
    rule = ('Runs: 2-4 user-written body classes, each with its own unit system, configuration fields and defaults, designed and instantiated at seeded instants of one world, '
            'some refused; ticks and readings interleaved with those of shipped bodies; every configured and reported quantity is compared with own unit arithmetic; '
            'non-trivial: at least one spawn. ')
    measure = 'distinct (unit system, field or accessor, unit) tuples'
    nontrivial = ('spawns', )
    runs = {'quick': 1200, 'thorough': 8000}
    real = Base.real
    stubs = 'the user-written classes, tick scheduler and clients are simulated'

    def gen(self, rng, i, tier):
        designs = []
        for _ in range(rng.randrange(2, 5)):
            d = {'units': [rng.choice(list(LENS)), rng.choice(list(TIMES)), rng.choice(list(ANGS)), rng.choice(list(MASSES))], 'unit_objects': rng.random() < 0.4, 'spin': rng.random() < 0.5,
                 'extra': [f for f in EXTRA if rng.random() < 0.3], 'inherit': rng.random() < 0.3, 'method': world.pick(rng, 'RK45', 'RK45', 'Euler'),
                 'defaults': {f: round(rng.uniform(-5, 5), 3) if f != 'm0' else 2.5 for f in FIELDS if rng.random() < 0.3}}
            designs.append(d)
        ops = [['design', k] for k in range(len(designs))]
        n = 0
        for _ in range(rng.randrange(10, 30)):
            d = rng.randrange(len(designs))
            r = rng.random()
            if r < 0.3:
                cfg = {f: self.value(rng, q) for f, q in FIELDS.items() if f not in designs[d]['defaults'] or rng.random() < 0.6}
                ops.append(['spawn', d, cfg, rng.randrange(1 << 30), {f: rng.randrange(3) for f in designs[d]['extra'] if rng.random() < 0.6}])
                n += 1
            elif r < 0.42:
                f = rng.choice(list(FIELDS))
                wrong = world.pick(rng, 'units', 'units', 'unknown', 'missing', 'text', 'noname', 'none')
                q = rng.choice([x for x in QS if x != FIELDS[f]])
                ops.append(['refuse', d, f, wrong, self.value(rng, q, True)])
            elif r < 0.5:
                q = rng.choice(QS)
                ops.append(['convert', q, gen_parts(rng, q), [self.value(rng, q) for _ in range(3)]])
            elif r < 0.55:
                ops.append(['system', gen_parts(rng, 'vel'), gen_parts(rng, 'ang')[0], rng.random() < 0.5])
            elif r < 0.8:
                ops.append(['tick', rng.randrange(8), world.pick(rng, 0.0, 0.25, 1.0, 3.0), rng.uniform(-1, 1)])
            else:
                ops.append(['read', rng.randrange(8), rng.randrange(1 << 30)])
        return {'designs': designs, 'ops': ops, 'others': rng.random() < 0.6}

    def value(self, rng, q, units=False):
        v = world.pick(rng, -1, 1) * world.logu(rng, 1e-3, 1e4)
        if rng.random() < 0.15:
            v = world.pick(rng, 0.0, float(rng.randrange(1, 50)))
        d = {'v': v, 'form': world.pick(rng, 'float', 'float', 'f64', 'int') if v == int(v) else world.pick(rng, 'float', 'f64'), 'u': None}
        if units or rng.random() < 0.7:
            d['u'] = gen_parts(rng, q)
            d['q'] = q
            d['reg'] = world.pick(rng, 'app', 'pint')
        return d

    @staticmethod
    def make(d):
        import pint
        m = {'float': float, 'f64': np.float64, 'int': int}[d['form']](d['v'])
        if d['u']:
            return (pint.get_application_registry() if d['reg'] == 'app' else pint).Quantity(m, unit_str(d['q'], d['u']))
        return m

    @staticmethod
    def meant(d, q, parts):
        return d['v'] if not d['u'] else d['v'] * unit_si(q, d['u']) / unit_si(q, parts)

    def run(self, plan, run):
        ns = lib.fresh()
        others = []
        if plan['others']:
            others = [ns.point.CWHSpacecraft(name='c', x=100.0, x_dot=1.0), ns.dub.Dubins3dAircraft(name='d', x=100.0), ns.six.SixDOFSpacecraft(name='s', wx=0.01)]
        classes = {}
        bodies = []
        for op in plan['ops']:
            if op[0] == 'design':
                classes[op[1]] = design(ns, plan['designs'][op[1]])
                continue
            if op[0] in ('tick', 'read'):
                if not bodies:
                    continue
                b = bodies[op[1] % len(bodies)]
                if op[0] == 'tick':
                    dt, u = op[2], op[3]
                    s = b['s']
                    b['e'].step(dt, np.array([u]))
                    run.count('ticks')
                    run.sim += dt
                    half = 0.5 * dt * dt if plan['designs'][b['d']]['method'] == 'RK45' else 0.0
                    want = np.array([s[0] + dt * s[1] + half * u, s[1] + dt * u, s[2] + dt * s[3] + half * 0.5 * u, s[3] + 0.5 * dt * u])
                    got = np.array(b['e'].state, float)
                    if not np.allclose(got, want, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(s)))):
                        raise Violation('motion', f'{plan["designs"][b["d"]]}: a tick of {dt} under {u} leads from {s.tolist()} to {got.tolist()} instead of {want.tolist()}')
                    b['s'] = got
                    for o in others:
                        o.step(dt)
                else:
                    self.read(run, plan, b, random.Random(op[2]))
                continue
            if op[0] in ('spawn', 'refuse') and op[1] not in classes:
                continue
            before = [x['e'].state.tobytes() for x in bodies]
            if op[0] == 'spawn':
                bodies.append(self.spawn(run, plan, classes, op))
            elif op[0] == 'refuse':
                self.refuse(run, plan, classes, op)
            elif op[0] == 'convert':
                fn = ns.base.build_unit_conversion_validator_fn(unit_str(op[1], op[2]))
                for d in op[3]:
                    q = self.make(d)
                    keep = repr(q)
                    v, w = fn(q), self.meant(d, op[1], op[2])
                    if repr(q) != keep:
                        raise Violation('configuration-changed', f'the caller\'s value {keep} became {q!r}')
                    if not isinstance(v, float) or abs(v - w) > 1e-11 * abs(w) + 1e-300:
                        raise Violation('conversion', f'{d} converted to {unit_str(op[1], op[2])} gives {v!r} instead of {w!r}')
                run.count('conversions')
            else:
                self.system(run, ns, op)
            if [x['e'].state.tobytes() for x in bodies][:len(before)] != before:
                raise Violation('side-effect', f'{op[0]} changed another body')
        for b in bodies:
            self.read(run, plan, b, random.Random(1))

    def spawn(self, run, plan, classes, op):
        _, d, cfg, num, extra = op
        spec = plan['designs'][d]
        items = list(cfg.items())
        random.Random(num).shuffle(items)
        kw = {f: self.make(v) for f, v in items}
        kw.update({f: copy.deepcopy(EXTRA[f][2][k % len(EXTRA[f][2])]) for f, k in extra.items()})
        keep = {k: repr(v) for k, v in kw.items()}
        e = classes[d](name='n%d' % num, **kw)
        if {k: repr(v) for k, v in kw.items()} != keep:
            raise Violation('configuration-changed', f'the caller\'s values {keep} became {kw}')
        run.count('spawns')
        want = []
        for f, q in FIELDS.items():
            parts = own_parts(spec['units'], q)
            w = self.meant(cfg[f], q, parts) if f in cfg else spec['defaults'][f]
            want.append(w)
            got = getattr(e.config, f)
            run.see(f, parts, cfg[f]['u'] if f in cfg else 'default')
            if not isinstance(got, (float, int)) or abs(got - w) > 1e-11 * abs(w) + 1e-300:
                raise Violation('configured-value', f'a body measuring in {spec["units"]} configured with {f}={cfg.get(f)} (default {spec["defaults"].get(f)}) holds {got!r} instead of {w!r}')
        held = {f: EXTRA[f][2][extra[f] % len(EXTRA[f][2])] if f in extra else EXTRA[f][1] for f in spec['extra']}
        self.fields(spec, e, held)
        if e.name != 'n%d' % num:
            raise Violation('name', f'named {e.name!r}')
        s = np.array(e.state, float)
        if not np.allclose(s, want[:4], rtol=1e-11, atol=0) or np.any(np.asarray(e.state_dot) != 0):
            raise Violation('spawn', f'spawned at {s.tolist()} with rate {np.asarray(e.state_dot).tolist()}, configured {want[:4]}')
        run.dig.update(s.tobytes())
        return {'e': e, 'd': d, 's': s, 'held': held}

    @staticmethod
    def fields(spec, e, held):
        for f, w in held.items():
            got = getattr(e.config, f)
            if repr(got) != repr(w):
                raise Violation('configured-value', f'{e.name}: the field {f} holds {got!r} instead of {w!r}')

    def refuse(self, run, plan, classes, op):
        _, d, f, wrong, val = op
        spec = plan['designs'][d]
        kw = {g: 1.0 for g in FIELDS}
        kw['name'] = 'r'
        if wrong == 'units':
            kw[f] = self.make(val)
        elif wrong == 'unknown':
            kw['colour'] = 1.0
        elif wrong == 'missing':
            req = [g for g in FIELDS if g not in spec['defaults']]
            if not req:
                return
            del kw[req[0]]
        elif wrong == 'noname':
            del kw['name']
        else:
            kw[f] = 'fast' if wrong == 'text' else None
        run.fault('refused-' + wrong)
        try:
            e = classes[d](**kw)
        except ValueError:
            return
        raise Violation('accepted', f'{kw} ({wrong}) was accepted by a body measuring in {spec["units"]}: {e.state}')

    def system(self, run, ns, op):
        import pint
        _, (L, T), A, objects = op
        mk = pint.Unit if objects else (lambda u: u)
        bu = ns.base.BaseUnits(mk(L), mk(T), mk(A))
        reg = pint.get_application_registry()
        for name, q, parts in (('length', 'len', [L]), ('angle', 'ang', [A]), ('velocity', 'vel', [L, T]), ('acceleration', 'acc', [L, T]), ('angular_velocity', 'angv', [A, T]),
                               ('angular_acceleration', 'anga', [A, T])):
            other = {'len': 'meter', 'ang': 'radian', 'vel': 'meter/second', 'acc': 'meter/second**2', 'angv': 'radian/second', 'anga': 'radian/second**2'}[q]
            v = reg.Quantity(1.0, getattr(bu, name)).to(other).magnitude
            if abs(v - unit_si(q, parts)) > 1e-11 * abs(v):
                raise Violation('unit-system', f'the {name} unit of the system {L}, {T}, {A} is {getattr(bu, name)} ({v} {other})')
        if abs(reg.Quantity(1.0, bu.time).to('second').magnitude - TIMES[T]) > 1e-11 * TIMES[T]:
            raise Violation('unit-system', f'the time unit of the system {L}, {T}, {A} is {bu.time}')
        run.count('unit_systems')

    def read(self, run, plan, b, rng):
        spec = plan['designs'][b['d']]
        e = b['e']
        items = list(readings(spec['spin'], b['s']).items())
        rng.shuffle(items)
        for name, (q, w) in items[:rng.randrange(1, len(items) + 1)]:
            parts = own_parts(spec['units'], q)
            got = getattr(e, name)
            run.count('reads')
            scale = float(np.max(np.abs(w))) + 1e-300
            if not same_vec(got.magnitude, w, 1e-11, scale):
                raise Violation('reading', f'{name} of a body measuring in {spec["units"]} at {b["s"].tolist()} is {got}')
            other = gen_parts(rng, q)
            run.see(name, parts, other)
            conv = got.to(unit_str(q, other))
            want = np.asarray(w, float) * unit_si(q, parts) / unit_si(q, other)
            if not same_vec(conv.magnitude, want, 1e-10, float(np.max(np.abs(want))) + 1e-300):
                raise Violation('reading', f'{name} of a body measuring in {spec["units"]} at {b["s"].tolist()} is {got}, or {conv} instead of {want} {unit_str(q, other)}')
        self.fields(spec, e, b['held'])
        if not np.array_equal(np.array(e.state, float), b['s']):
            raise Violation('read-changed-state', f'reading changed the state from {b["s"].tolist()} to {e.state.tolist()}')


CHECKS = {'X01': Extend()}
