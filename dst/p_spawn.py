"""U01: bodies spawned into running worlds, configured in seeded units."""
import math
import random

import numpy as np

from . import lib, p_fault, p_views, world
from .core import Base, Violation
from .p_views import ANG, ANGV, LEN, UNITS, VEL

KINDOF = {'x': LEN, 'y': LEN, 'z': LEN, 'x_dot': VEL, 'y_dot': VEL, 'z_dot': VEL, 'v': VEL, 'theta': ANG, 'heading': ANG, 'gamma': ANG, 'roll': ANG, 'wx': ANGV, 'wy': ANGV, 'wz': ANGV}
SPAWNABLE = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3']
REGS = {}


def registry(which):
    import pint
    if which == 'app':
        return pint.get_application_registry()
    if which == 'pint':
        return pint
    if 'other' not in REGS:
        REGS['other'] = pint.UnitRegistry()
    return REGS['other']


def classes(ns):
    return {'cwh': ns.point.CWHSpacecraft, 'rot2d': ns.rot.CWHRotation2dSpacecraft, 'sixdof': ns.six.SixDOFSpacecraft, 'sun': ns.sun.SunEntity,
            'dub2': ns.dub.Dubins2dAircraft, 'dub3': ns.dub.Dubins3dAircraft, 'int1': ns.integ.Integrator1d, 'int2': ns.integ.Integrator2d,
            'int3': ns.integ.Integrator3d}


def make_value(d):
    m = d['v']
    f = d['form']
    if f == 'int':
        m = int(m)
    elif f == 'f32':
        m = np.float32(m)
    elif f == 'f64':
        m = np.float64(m)
    elif f == 'neg0':
        m = -0.0
    if d.get('u'):
        return registry(d['reg']).Quantity(m, d['u'])
    return m


def meant(kind, field, d):
    """the physical value in the documented base unit of the body"""
    m = float(make_value(dict(d, u=None)))
    if not d.get('u'):
        return m
    q = KINDOF[field]
    return m / UNITS[q][d['u']] / p_views.SI_OF_BASE[p_views.SYSTEM[kind]][q]


def gen_value(rng, kind, field):
    q = KINDOF.get(field)
    d = {'form': world.pick(rng, 'float', 'float', 'int', 'f32', 'f64', 'neg0'), 'u': None}
    sign = world.pick(rng, -1, 1)
    if q is not None and not kind.startswith('int') and rng.random() < 0.65:
        d['u'] = rng.choice(list(UNITS[q]))
        d['reg'] = world.pick(rng, 'app', 'pint', 'other')
        fac = UNITS[q][d['u']]
        typical = {LEN: world.logu(rng, 1e-3, 1e7), VEL: world.logu(rng, 1e-3, 1e4), ANG: rng.uniform(1e-3, 6.5), ANGV: world.logu(rng, 1e-6, 10.0)}[q]
        d['v'] = sign * typical * fac
        if d['form'] == 'int':
            d['v'] = sign * rng.randrange(1, 1000)
    else:
        d['v'] = sign * world.logu(rng, 1e-6, 1e7)
        if d['form'] == 'int':
            d['v'] = sign * rng.randrange(0, 100000)
    return d


class Spawn(Base):
    """U01"""
    rule = ('Runs: worlds into which bodies are spawned at seeded instants between ticks, with a seeded subset of fields given as plain numbers of several types or quantities in '
            'several units from several registries; other spawns are rejected (incompatible units, unknown or missing fields) or aborted at a chosen executed line; '
            'every spawned state is compared with own unit arithmetic and documented defaults and with a spawn in a fresh process image; non-trivial: at least one spawn. ')
    measure = 'distinct (kind, field, form, unit, registry) tuples, and rejected configuration kinds'
    nontrivial = ('spawns', )
    runs = {'quick': 1600, 'thorough': 8000}

    def gen(self, rng, i, tier):
        ops = []
        for k in range(rng.randrange(8, 20)):
            kind = SPAWNABLE[(i + k) % len(SPAWNABLE)] if rng.random() < 0.7 else rng.choice(SPAWNABLE)
            fields = world.FIELDS[kind]
            r = rng.random()
            if r < 0.55:
                cfg = {f: gen_value(rng, kind, f) for f in fields if rng.random() < world.pick(rng, 0.2, 0.6, 0.95) and not f.startswith('q')}
                if kind == 'sixdof' and rng.random() < 0.7:
                    if rng.random() < 0.3:  # one element only
                        cfg[f'q{rng.randrange(1, 5)}'] = {'form': 'float', 'u': None, 'v': world.pick(rng, 1.0, -1.0)}
                    else:
                        for n, v in zip(('q1', 'q2', 'q3', 'q4'), world.rand_quat(rng)):
                            cfg[n] = {'form': 'float', 'u': None, 'v': v}
                order = list(cfg)
                rng.shuffle(order)
                ops.append(['spawn', kind, f's{k}', [[f, cfg[f]] for f in order], rng.randrange(1 << 30),
                            rng.randrange(1000000) / 1000000 if rng.random() < 0.25 else None])
            elif r < 0.8:
                f = rng.choice(fields)
                wrong = world.pick(rng, 'units', 'units', 'units', 'unknown', 'noname', 'text', 'none')
                q = KINDOF.get(f)
                if q is None and wrong == 'units':
                    wrong = 'text'
                val = None
                if wrong == 'units':
                    cands = ['kilogram', 'volt'] + [u for qq in (LEN, VEL) if qq != q for u in UNITS[qq]]
                    if kind.startswith('int'):  # integrators document plain numbers only
                        cands = ['kilogram', 'volt', 'second']
                    elif q in (LEN, VEL):
                        cands += ['radian', 'degree', 'second', 'radian/second'] + ['dimensionless']
                    if q == ANG:
                        cands += ['second', 'radian/second', 'meter**2']
                    if q == ANGV:
                        cands += ['radian', 'second', 'degree', 'radian/second**2']
                    val = {'v': world.pick(rng, 1.0, 0.0, -3.5), 'u': rng.choice(cands), 'reg': world.pick(rng, 'app', 'pint', 'other'), 'form': 'float'}
                ops.append(['reject', kind, f, wrong, val])
            else:
                ops.append(['tick', world.pick(rng, 0.1, 1.0, 3.0)])
        return {'ops': ops}

    def run(self, plan, run):
        ns = lib.fresh()
        cls = classes(ns)
        alive = []
        spawned = []
        for op in plan['ops']:
            before = [(e.state.tobytes(), np.asarray(e.state_dot).tobytes()) for e in alive]
            if op[0] == 'tick':
                run.count('ticks')
                run.sim += op[1]
                for e in alive:
                    e.step(op[1])
                continue
            if op[0] == 'spawn':
                e = self.spawn(run, ns, cls, op)
                spawned.append((op, e.state.tobytes()))
                if [(x.state.tobytes(), np.asarray(x.state_dot).tobytes()) for x in alive] != before:
                    raise Violation('spawn-side-effect', f'spawning a {op[1]} changed another body')
                st = np.asarray(e.state, float)
                # bodies configured outside the range their equations are meant for are only looked at, not ticked
                if not (op[1] in ('dub2', 'dub3') and not 50 < st[-1] < 1e4) and np.max(np.abs(st)) < 1e8 and not (op[1] in ('rot2d', 'sixdof') and np.max(np.abs(st[-3:])) > 5) and not (
                        op[1] == 'dub3' and np.max(np.abs(st[4:6])) > 1):
                    alive.append(e)
                continue
            self.reject(run, cls, op)
            if [(x.state.tobytes(), np.asarray(x.state_dot).tobytes()) for x in alive] != before:
                raise Violation('reject-side-effect', f'a refused {op[1]} changed another body')
        if spawned:
            ns = lib.fresh()
            cls = classes(ns)
            for op, s in random.Random(len(spawned)).sample(spawned, len(spawned)):
                e = cls[op[1]](name=op[2], **{f: make_value(d) for f, d in op[3]})
                if e.state.tobytes() != s:
                    raise Violation('spawn-depends-on-history', f'{op[1]} {op[3]}: {np.frombuffer(s, dtype=e.state.dtype)} in the world, {e.state} in a fresh process')

    def spawn(self, run, ns, cls, op):
        _, kind, name, cfg, num, frac = op
        run.count('spawns')
        fields = world.FIELDS[kind]
        kw = {f: make_value(d) for f, d in cfg}
        if frac is not None:  # an interrupted construction first
            with p_fault.Bomb() as b:
                cls[kind](name=name, **kw)
            try:
                with p_fault.Bomb(1 + int(frac * b.n), KeyboardInterrupt):
                    cls[kind](name=name, **kw)
            except KeyboardInterrupt:
                run.fault('aborted-spawn')
        keep = {k: repr(v) for k, v in kw.items()}
        try:
            e = cls[kind](name=name, **kw)
        except Exception as ex:  # noqa: BLE001
            raise Violation('spawn-refused', f'{kind} {kw}: {type(ex).__name__}: {ex}') from None
        if {k: repr(v) for k, v in kw.items()} != keep:
            raise Violation('spawn-changed-configuration', f'{kind}: {keep} became {kw}')
        want = list(world.DEFAULTS[kind])
        given = dict(cfg)
        if kind == 'sixdof' and any(q in given for q in ('q1', 'q2', 'q3', 'q4')):
            want[6] = 0.0
        for k, f in enumerate(fields):
            if f in given:
                want[k] = meant(kind, f, given[f])
                run.see(kind, f, given[f]['form'], given[f].get('u'), given[f].get('reg'))
            else:
                run.see(kind, f, 'default')
        got = np.asarray(e.state, float)
        if got.shape != (len(want), ):
            raise Violation('state-shape', f'{kind}: spawned with state {got}')
        for k, f in enumerate(fields):
            if not abs(got[k] - want[k]) <= 1.3e-7 * abs(want[k]) + 1e-44:
                raise Violation('spawn-value', f'{kind}.{f} configured as {given[f] if f in given else "default"} ({want[k]} in base units) spawned at {got[k]}')
        if not np.array_equal(np.asarray(e.state_dot, float), np.zeros(len(want))):
            raise Violation('spawn-derivative', f'{kind} spawned with derivative {e.state_dot}')
        if e.name != name:
            raise Violation('spawn-name', f'{kind} named {e.name!r} instead of {name!r}')
        # the configuration can be read back through the accessors as well
        if kind not in ('int1', 'int2', 'int3'):
            rng = random.Random(num)
            for f in rng.sample(fields, min(3, len(fields))):
                w = want[fields.index(f)]
                v = float(getattr(e, f))
                if abs(v - w) > 1.3e-7 * abs(w) + 1e-44:
                    raise Violation('spawn-accessor', f'{kind}.{f} reads {v}, configured {w}')
        run.dig.update(np.asarray(e.state).tobytes())
        return e

    def reject(self, run, cls, op):
        _, kind, f, wrong, val = op
        kw = {'name': 'r', f: 1.0}
        if wrong == 'units':
            kw[f] = make_value(val)
        elif wrong == 'unknown':
            kw['speed_of_light'] = 1.0
        elif wrong == 'noname':
            del kw['name']
        elif wrong == 'text':
            kw[f] = 'fast'
        else:
            kw[f] = None
        run.fault('rejected-' + wrong)
        run.see('reject', kind, f, wrong, val['u'] if val else None)
        try:
            e = cls[kind](**kw)
        except Exception as ex:  # noqa: BLE001
            if isinstance(ex, (AttributeError, NameError)):
                raise Violation('unexpected-exception', f'{kind} {kw}: {ex!r}') from None
            run.dig.update(type(ex).__name__.encode())
            return
        raise Violation('incompatible-accepted', f'{kind}.{f} = {kw.get(f)!r} ({wrong}) was accepted and spawned at {e.state}')


CHECKS = {'U01': Spawn()}
