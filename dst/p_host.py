"""G01: the process hosting the library is left as it was found.  M01: memory stays bounded and discarded bodies are released."""
import atexit
import builtins
import collections
import copy
import copyreg
import decimal
import faulthandler
import gc
import io
import json
import locale
import logging
import math
import os
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import types
import warnings
import weakref

import jax
import jax.experimental.ode
import numpy as np
import pint
import pydantic
import scipy.integrate
import scipy.linalg
import scipy.special
import scipy.spatial.transform

from . import lib, world
from .core import Base, Violation
from .p_f16 import TRIM, gen_uref, jump
from .p_fault import EXC, Bomb
from .p_iso import bad_command

JAX0 = {k: repr(v) for k, v in jax.config.values.items()}
PATCHABLE = [(np, n) for n in ('clip', 'array', 'zeros', 'where', 'copy', 'dot', 'linspace', 'interp', 'sign', 'any', 'all', 'isnan', 'linalg', 'random', 'float64', 'float32')] + \
            [(scipy.integrate, n) for n in ('solve_ivp', 'odeint')] + [(scipy.spatial.transform, 'Rotation'), (math, 'sin'), (math, 'cos'), (jax.experimental.ode, 'odeint'), (warnings, 'warn'),
             (pint, 'Quantity'), (pint, 'Unit'), (builtins, 'print'), (builtins, 'float'), (builtins, 'round')]
ORIGINAL = [getattr(m, n) for m, n in PATCHABLE]
# functions and classes of other packages: name -> object, compared by identity
SHARED = [np, np.linalg, np.random, np.ma, scipy.integrate, scipy.spatial.transform, scipy.linalg, math, pint, time, builtins, random, copy, json, types.MappingProxyType(vars(pint.Quantity)),
          types.MappingProxyType(vars(pint.Unit)), types.MappingProxyType(vars(pint.UnitRegistry)), types.MappingProxyType(vars(scipy.integrate.OdeSolution)), types.MappingProxyType(vars(scipy.integrate.RK45)),
          types.MappingProxyType(vars(jax.numpy)), types.MappingProxyType(vars(jax.experimental.ode)), types.MappingProxyType(vars(pydantic.BaseModel))]


def functions():
    out = []
    for m in SHARED:
        d = m if isinstance(m, types.MappingProxyType) else vars(m)
        out.append({k: v for k, v in d.items() if not k.startswith('_abc') and k not in ('__warningregistry__', '_') and (callable(v) or isinstance(v, (property, classmethod, staticmethod)))})
    return out


FUNCTIONS = functions()
NOWHERE = os.open(os.devnull, os.O_WRONLY)
BUILTINS0 = set(vars(builtins)) | {'_'}


def host():
    """the process-wide settings other software in the same process depends on"""
    reg = pint.get_application_registry()
    rs = np.random.get_state()
    d = {
        'numpy error state': dict(np.geterr()),
        'numpy error callback': np.geterrcall(),
        'warning filters': tuple(warnings.filters),
        'warning display': warnings.showwarning,
        'numpy print options': repr(np.get_printoptions()),
        'numpy random generator': (rs[0], rs[1].tobytes(), rs[2:]),
        'random generator': random.getstate(),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'recursion limit': sys.getrecursionlimit(),
        'thread switch interval': sys.getswitchinterval(),
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal context': (decimal.getcontext().prec, decimal.getcontext().rounding),
        'garbage collector': (gc.isenabled(), gc.get_threshold()),
        'signal handlers': tuple(repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)),
        'threads': threading.active_count(),
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions, logging.getLogger('pint').level, logging.getLogger('jax').level),
        'module search path': tuple(sys.path),
        'hooks': (sys.excepthook, sys.displayhook, threading.excepthook, sys.breakpointhook),
        'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'unit registry': (id(reg.get()), ) + tuple(repr(getattr(reg.get(), n, None)) for n in ('default_format', 'autoconvert_offset_to_baseunit', 'force_ndarray', 'force_ndarray_like', 'default_as_delta', 'case_sensitive', 'default_system')),
        'JAX configuration': {k: repr(v) for k, v in jax.config.values.items()},
        'file mode mask': mask(),
        'exit handlers': atexit._ncallbacks(),
        'collector callbacks': (tuple(map(id, gc.callbacks)), gc.get_freeze_count(), gc.get_debug()),
        'special-function error handling': dict(scipy.special.geterr()),
        'unit definitions': tuple(size(getattr(reg.get(), n)) for n in ('_units', '_prefixes', '_contexts', '_groups', '_systems') if hasattr(reg.get(), n)) + (len(getattr(reg.get(), '_active_ctx', ())), ),
        'import machinery': (tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), sys.dont_write_bytecode),
        'network timeout': socket.getdefaulttimeout(),
        'temporary directory': tempfile.tempdir,
        'time zone': time.tzname,
        'profiling': (sys.getprofile(), threading.getprofile(), threading.gettrace()),
        'process niceness': os.nice(0),
        'descriptors': len(os.listdir('/proc/self/fd')),
        'integer text limit': sys.get_int_max_str_digits(),
        'fault handler': faulthandler.is_enabled(),
        'numpy buffer size': np.getbufsize(),
        'thread stack size': threading.stack_size(),
        'processor affinity': tuple(sorted(os.sched_getaffinity(0))),
        'resource limits': tuple(resource.getrlimit(r) for r in (resource.RLIMIT_STACK, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_AS, resource.RLIMIT_CPU)),
        'pickling': len(copyreg.dispatch_table),
        'arguments': tuple(sys.argv),
        'timers': signal.getitimer(signal.ITIMER_VIRTUAL) + signal.getitimer(signal.ITIMER_PROF),
        'text encoding errors': (sys.stdout.errors if hasattr(sys.stdout, 'errors') else None, ),
    }
    for (m, n), o in zip(PATCHABLE, ORIGINAL):
        if getattr(m, n) is not o:
            d[f'{m.__name__}.{n}'] = repr(getattr(m, n))
    for m, was in zip(SHARED, FUNCTIONS):
        now = m if isinstance(m, types.MappingProxyType) else vars(m)
        if now is m:
            for k, v in m.items():
                if k not in was and callable(v) and not k.startswith('_abc'):
                    d['added function ' + k] = repr(v)[:100]
        for k, v in was.items():
            if now.get(k) is not v:
                d['replaced function ' + k] = repr(now.get(k))[:100]
    extra = set(vars(builtins)) - BUILTINS0
    if extra:
        d['builtins'] = tuple(sorted(extra))
    return d


class Captured(io.StringIO):
    """a stream that also has a descriptor"""

    def fileno(self):
        return NOWHERE


def size(d):
    return sum(map(len, d.maps)) if hasattr(d, 'maps') else len(d)


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def differing(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


class Host(Base):
    """G01"""
    rule = ('Runs: histories of every part of the library (bodies of all kinds, relative queries, F-16 evaluations, fixed-step integration, recordings and their verification), with '
            'requests rejected, models failing and interrupts, memory exhaustion and exits injected at chosen executed lines, under seeded process-wide settings; after '
            'every operation all these settings, the output streams and the working directory are compared with what they were; non-trivial: at least one tick or evaluation. ')
    measure = 'distinct (operation, outcome) tuples'
    nontrivial = ('ticks', 'evaluations')
    stubs = 'clients, faults and the embedding application\'s settings are simulated'
    runs = {'quick': 800, 'thorough': 6000}

    def gen(self, rng, i, tier):
        kinds = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user', 'user', 'cust']
        specs = [world.gen_spec(rng, rng.choice(kinds), f'b{k}', ('RK45', 'RK45', 'Euler')) for k in range(rng.randrange(1, 4))]
        jaxy = rng.random() < 0.15 and any([world.accelerate(rng, s, 1.0).get('use_jax') for s in specs])
        hist = world.gen_history(rng, specs, 8 if jaxy else 16, over=0.4, assign=0.1)
        ops = []
        for op in hist:
            ops.append(op)
            r = rng.random()
            b = rng.randrange(len(specs))
            if r < 0.1:
                ops.append(['bad', b, world.pick(rng, 'name', 'type', 'size', 'value')])
            elif r < 0.15:
                ops.append(['spawn', b])
            elif r < 0.18:
                ops.append(['badspawn', b])
            elif r < 0.3:
                ops.append(['read', b])
            elif r < 0.36:
                ops.append(['blowup', b, world.pick(rng, 'raise', 'nan', 'inf')])
            elif r < 0.42:
                ops.append(['f16', jump(rng), gen_uref(rng), world.pick(rng, 'stevens', 'morelli'), rng.random() < 0.4, rng.random() < 0.2])
            elif r < 0.47:
                ops.append(['euler', world.pick(rng, 0, 0, 3)])
            elif r < 0.52:
                ops.append(['verify', rng.randrange(4)])
            if rng.random() < 0.3 and ops[-1][0] in ('tick', 'spawn', 'read', 'f16', 'verify', 'euler', 'bad'):
                ops.append(['abort', ops[-1], rng.choice(sorted(EXC)), rng.randrange(1000000) / 1000000])
        if rng.random() < 0.15:
            ops.insert(rng.randrange(len(ops)), ['import'])
        return {'bodies': specs, 'ops': ops, 'env': {'seed': rng.randrange(1 << 30), 'err': [rng.choice(['ignore', 'warn']) for _ in range(4)], 'filter': world.pick(rng, 'ignore', 'ignore', 'default', 'once'),
                                                     'prec': rng.randrange(2, 12), 'rec': world.pick(rng, 1000, 3000), 'dec': rng.randrange(5, 40), 'gc': rng.random() < 0.8}}

    def run(self, plan, run):
        env = plan['env']
        old = np.seterr(**dict(zip(('divide', 'over', 'under', 'invalid'), env['err'])))
        po, rec, prec, cwd = np.get_printoptions(), sys.getrecursionlimit(), decimal.getcontext().prec, os.getcwd()
        tmp = tempfile.mkdtemp(prefix='dst-host-')
        streams = sys.stdout, sys.stderr
        try:
            with warnings.catch_warnings():
                warnings.simplefilter(env['filter'])
                warnings.filterwarnings('ignore', message='nothing says this')
                np.set_printoptions(precision=env['prec'], suppress=bool(env['prec'] % 2))
                sys.setrecursionlimit(env['rec'])
                decimal.getcontext().prec = env['dec']
                random.seed(env['seed'])
                np.random.seed(env['seed'] % 1000)
                if not env['gc']:
                    gc.disable()
                os.chdir(tmp)
                sys.stdout, sys.stderr = Captured(), Captured()
                self.go(plan, run, tmp)
        finally:
            sys.stdout, sys.stderr = streams
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
            gc.enable()
            decimal.getcontext().prec = prec
            sys.setrecursionlimit(rec)
            np.set_printoptions(**po)
            np.seterr(**old)

    def go(self, plan, run, tmp):
        base = host()
        base['JAX configuration'] = JAX0

        def look(what):
            now = host()
            bad = differing(base, now)
            if bad:
                k = bad[0]
                raise Violation('host-changed', f'{what}: {k} was {str(base.get(k))[:300]}, is now {str(now.get(k))[:300]}')
            out = sys.stdout.getvalue()
            if out:
                raise Violation('wrote-output', f'{what}: wrote {out[:200]!r} to standard output')
            files = os.listdir(tmp)
            if files:
                raise Violation('wrote-files', f'{what}: created {files} in the working directory')

        look('nothing yet')  # what an earlier run in this process left behind
        ns = lib.fresh()
        n16 = lib.fresh(f16=True, spacecraft=False)
        look('importing')
        faults = [{'arm': None} for _ in plan['bodies']]

        def hook(b):
            def fn(_t):
                a, faults[b]['arm'] = faults[b]['arm'], None
                if a == 'raise':
                    raise ArithmeticError('injected')
                if a:
                    return (0, float(a))
                return None
            return fn

        es = [world.build(ns, s, hook=hook(b)) for b, s in enumerate(plan['bodies'])]
        llc = n16.llc.LowLevelController()
        look('spawning')

        def do(op):
            k = op[0]
            if k == 'tick':
                es[op[1]].step(op[2], world.real_cmd(op[3], own=True))
            elif k == 'assign':
                world.assign(es[op[1]], op[2])
            elif k == 'bad':
                es[op[1]].step(1.0, bad_command(op[2]))
            elif k == 'spawn':
                es[op[1]] = world.build(ns, plan['bodies'][op[1]], hook=hook(op[1]))
            elif k == 'badspawn':
                s = plan['bodies'][op[1]]
                if s['kind'] != 'user':
                    world.build(ns, dict(s, init=dict(s['init'], no_such_field=1.0)))
            elif k == 'read':
                e = es[op[1]]
                for f in ('position_with_units', 'velocity_with_units', 'orientation', 'acceleration_with_units', 'angular_velocity_with_units', 'heading_with_units', 'quaternion', 'state'):
                    try:
                        getattr(e, f, None)
                    except (NotImplementedError, ValueError):
                        pass
                for o in es:
                    e == o  # noqa: B015
            elif k == 'blowup':
                faults[op[1]]['arm'] = op[2]
                try:
                    es[op[1]].step(1.0)
                finally:
                    faults[op[1]]['arm'] = None
            elif k == 'f16':
                run.count('evaluations')
                x = np.array(op[1])
                if op[5]:
                    x[:13] *= 1e200
                n16.cf.controlled_f16(x, np.array(op[2]), llc, op[3], op[4])
            elif k == 'euler':
                left = [op[1]]

                def f(t, y):
                    left[0] -= 1
                    if left[0] == 0:
                        raise ValueError('injected')
                    return -y

                it = n16.util.Euler(f, 0.0, np.array([1.0, 2.0]), 0.5, 0.1)
                while it.status == 'running':
                    it.step()
                it.dense_output()(0.45)
            elif k == 'verify':
                n = 3 + op[1]
                xs = np.array([TRIM] * n)
                xs[-1, 11] = -5.0 * (op[1] % 2)
                res = {'status': 'ok', 'times': list(range(n)), 'modes': ['m'] * n, 'states': xs, 'Nz_list': [1.0] * n, 'ps_list': [0.0] * n}
                lims = n16.util.SafetyLimits(altitude=(0, 45000), Nz=(-5, 18))
                n16.util.SafetyLimitsVerifier(lims, llc).verify(res)
                if op[1] == 3:
                    n16.util.extract_single_result({'states': np.hstack([xs, xs]), 'times': res['times']}, 1, llc)
            elif k == 'import':
                lib.fresh()

        for op in plan['ops']:
            real = op[1] if op[0] == 'abort' else op
            frac = None
            if op[0] == 'abort':
                keep = [e.state for e in es]
                with Bomb() as b:
                    try:
                        do(real)
                    except Exception:  # noqa: BLE001
                        pass
                for e, s in zip(es, keep):
                    e.state = s
                frac = 1 + int(op[3] * b.n)
            try:
                if frac is None:
                    do(real)
                else:
                    with Bomb(frac, EXC[op[2]]):
                        do(real)
                out = 'done'
            except Violation:
                raise
            except BaseException as ex:  # noqa: BLE001
                if frac is None and not isinstance(ex, Exception):
                    raise
                out = type(ex).__name__
            if op[0] == 'tick':
                run.count('ticks')
                run.sim += op[2]
            elif op[0] == 'abort':
                run.fault('aborted-' + real[0])
            elif op[0] in ('bad', 'badspawn', 'blowup'):
                run.fault(op[0])
            run.see(op[0], real[0], out)
            look(f'{op[0]} {real if real is not op else op[1:]} ({out})')
            run.dig.update(f'{real[0]}{out}'.encode())
            for e in es:
                run.dig.update(np.asarray(e.state).tobytes())


def footprint():
    """what the process holds: objects anything refers to, and bytes in arrays and containers"""
    gc.collect()
    size = 0
    seen = set()
    todo = gc.get_objects()
    while todo:
        o = todo.pop()
        for r in gc.get_referents(o):
            i = id(r)
            if i not in seen:
                seen.add(i)
                if not gc.is_tracked(r) and isinstance(r, (dict, tuple)):  # containers of plain values are not in gc.get_objects()
                    todo.append(r)
                if isinstance(r, (np.ndarray, list, dict, set, bytearray, str, collections.deque)):
                    size += r.nbytes if isinstance(r, np.ndarray) else sys.getsizeof(r)
    return len(seen), size


class Memory(Base):
    """M01"""
    rule = ('Runs: one long history per run (thousands of ticks with ever-changing durations, commands, assignments, rejected commands, failing models, readings, look-ahead, F-16 evaluations, '
            'integrations and verifications); after a warm-up the memory allocated since is measured at the end of further stretches; bodies discarded along the way must be released; '
            'non-trivial: at least one tick or evaluation. ')
    measure = 'distinct (workload, configuration) tuples'
    nontrivial = ('ticks', 'evaluations')
    stubs = 'clients and faults are simulated'
    runs = {'quick': 64, 'thorough': 800}
    deadline = {'quick': 110.0, 'thorough': 800.0}
    shrink_keys = []
    WARM, WINDOW = 1200, 300

    def gen(self, rng, i, tier):
        works = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int3', 'user', 'f16', 'euler', 'verify', 'spawn', 'user', 'rel', 'int2']
        work = works[i % len(works)]
        p = {'dts': ('varied', 'still', 'varied', 'constant')[i // len(works) % 4], 'work': work, 'seed': rng.randrange(1 << 30), 'read': rng.random() < 0.5, 'faults': rng.random() < 0.5, 'look': rng.random() < 0.3, 'filter': world.pick(rng, 'ignore', 'default', 'default', 'always')}
        if work in world.ALL_KINDS:
            p['body'] = world.gen_spec(rng, work, 'a', ('RK45', 'RK45', 'Euler'))
        return p

    def run(self, plan, run):
        with warnings.catch_warnings():
            warnings.simplefilter(plan['filter'])
            warnings.showwarning = lambda *a, **k: None
            self._run(plan, run)

    def _run(self, plan, run):
        ns = lib.fresh()
        rng = random.Random(plan['seed'])
        step = getattr(self, 'do_' + plan['work'], None) or self.do_body
        state = types.SimpleNamespace(ns=ns, rng=rng, run=run, plan=plan, refs=collections.deque(maxlen=100))
        self.prepare(state)
        k = 0
        for _ in range(self.WARM):
            step(state, k)
            k += 1
        sizes = []
        for w in range(4):
            for _ in range(self.WINDOW if w else 1):
                step(state, k)
                k += 1
            sizes.append(footprint())
        run.see(plan['work'], plan['read'], plan['faults'], plan['look'], plan.get('body', {}).get('method'), bool(plan.get('body', {}).get('samples')))
        run.count('memory_measurements', len(sizes))
        for what, limit, j in (('objects', 0.1, 0), ('bytes in containers', 4.0, 1)):
            grow = [b[j] - a[j] for a, b in zip(sizes, sizes[1:])]
            if min(grow) >= limit * self.WINDOW:
                raise Violation('memory-grows', f'{plan["work"]} {plan.get("body")}: after {self.WARM} steps, every further {self.WINDOW} steps retained more memory: {what} +{grow}')
        alive = [r for r in state.refs if r() is not None]
        if alive:
            raise Violation('not-released', f'{len(alive)} of {len(state.refs)} discarded objects are still alive, e.g. a {type(alive[0]()).__name__}')
        run.count('released', len(state.refs))

    def prepare(self, st):
        p, ns = st.plan, st.ns
        st.n16 = lib.fresh(f16=True, spacecraft=False)
        st.llc = st.n16.llc.LowLevelController()
        if 'body' in p:
            st.arm = [0]

            def hook(_t):
                if st.arm[0]:
                    st.arm[0] -= 1
                    if not st.arm[0]:
                        raise ArithmeticError('injected')

            st.e = world.build(ns, p['body'], hook=hook)
            st.ref = world.ref_of(p['body'])
            st.s0 = st.e.state

    def do_body(self, st, k):
        rng, e = st.rng, st.e
        st.run.count('ticks')
        dt = {'varied': rng.uniform(0.001, 0.4), 'still': 0.0, 'constant': 0.1}[st.plan.get('dts', 'varied')]
        st.run.sim += dt
        cmd = world.gen_cmd(rng, st.ref, 0.2, ('dict', 'list', 'f64', 'f32', 'none'))
        try:
            if st.plan['faults'] and k % 5 == 0:
                st.arm[0] = rng.randrange(1, 8)
                if k % 10 == 0:
                    e.step(dt, bad_command(rng.choice(['name', 'type', 'size'])))
            e.step(dt, world.real_cmd(cmd, own=True))
        except Exception:  # noqa: BLE001
            pass
        st.arm[0] = 0
        s = e.state
        if k % 7 == 0 or not np.all(np.isfinite(s)) or np.max(np.abs(s)) > 1e6:
            e.state = np.array(st.s0, float)
        if st.plan['read'] and st.plan['work'] != 'sun':
            for f in ('position', 'velocity', 'orientation', 'state'):
                try:
                    getattr(e, f)
                except ValueError:
                    pass
            e.position_with_units  # noqa: B018
            e == e  # noqa: B015,PLR0124
        if st.plan['look'] and st.ref.nu:
            e.dynamics.compute_state_dot(dt, e.state, np.zeros(st.ref.nu) + rng.random())
            if k % 3 == 0:
                e.dynamics.step(dt, e.state, np.zeros(st.ref.nu))

    def do_spawn(self, st, k):
        rng = st.rng
        st.run.count('ticks')
        kind = ['cwh', 'rot2d', 'sixdof', 'dub2', 'dub3', 'int2', 'sun', 'user'][k % 8]
        if not hasattr(st, 'specs'):
            st.specs = {}
        if kind not in st.specs:
            st.specs[kind] = world.gen_spec(rng, kind, 'x', ('Euler', ))
        if kind != 'user':
            spec = dict(st.specs[kind], name=f'n{rng.random()}')
            init = dict(spec['init'])
            if 'x' in init:
                init['x'] = rng.uniform(-1, 1)
            spec['init'] = init
            e = world.build(st.ns, spec)
            e.step(rng.random())
            if st.plan['read'] and kind != 'sun':
                e == e  # noqa: B015,PLR0124
                e.position_with_units  # noqa: B018
            st.refs.append(weakref.ref(e))
            st.refs.append(weakref.ref(e.dynamics))
            if st.plan['faults'] and k % 3 == 0:
                try:
                    world.build(st.ns, dict(spec, init=dict(init, nothing=1.0)))
                except Exception:  # noqa: BLE001
                    pass

    def do_rel(self, st, k):
        """bodies entering and leaving a world whose registry the application keeps"""
        rng = st.rng
        if not hasattr(st, 'sim'):
            st.sim = types.SimpleNamespace(sim_entities={})
            st.me = world.build(st.ns, {'kind': 'cwh', 'name': 'me', 'params': {}, 'init': {}, 'method': 'Euler'}, sim=st.sim)
            st.sim.sim_entities['me'] = st.me
        kind = ['cwh', 'sixdof', 'rot2d'][k % 3]
        name = f'o{k % 4}'
        e = world.build(st.ns, {'kind': kind, 'name': name, 'params': {}, 'init': {'x': rng.uniform(-1, 1)}, 'method': 'Euler'}, sim=st.sim)
        st.sim.sim_entities[name] = e
        st.me.step(rng.random())
        e.step(rng.random())
        st.run.count('ticks', 2)
        for f in ('entity_relative_position', 'entity_relative_velocity'):
            for a, b in ((st.me, name), (e, 'me')):
                if hasattr(a, f):
                    getattr(a, f)(b)
        if st.plan['faults']:
            try:
                st.me.entity_relative_position(f'nobody{k}')
            except Exception:  # noqa: BLE001
                pass
        st.refs.append(weakref.ref(e))
        del st.sim.sim_entities[name]

    def do_f16(self, st, k):
        rng = st.rng
        st.run.count('evaluations')
        if not hasattr(st, 'xs'):
            st.xs = np.array([jump(rng) for _ in range(50)])
        x = st.xs[k % 50] + rng.gauss(0, 1e-3)
        st.n16.cf.controlled_f16(x, np.array(gen_uref(rng)), st.llc, ('stevens', 'morelli')[k % 2], k % 3 == 0)
        if k % 8 == 0:
            llc = st.n16.llc.LowLevelController()
            st.refs.append(weakref.ref(llc))

    def do_euler(self, st, k):
        rng = st.rng
        n = [0]

        def f(t, y):
            n[0] += 1
            if st.plan['faults'] and n[0] == 4:
                raise ValueError('injected')
            return -y * rng.random()

        if not hasattr(st, 'it') or st.it.status != 'running':
            st.it = st.n16.util.Euler(f, 0.0, np.array([1.0, 2.0]), 1e5 if st.plan['read'] else 30.0 * rng.uniform(1, 2), 0.01)
        try:
            st.it.step()
            st.it.step()
            st.it.dense_output()(st.it.t)
        except ValueError:
            pass
        st.run.count('evaluations', 2)
        it = st.n16.util.Euler(lambda t, y: -y, 0.0, np.array([1.0]), 0.02, 0.01)
        it.step()
        st.refs.append(weakref.ref(it))

    def do_verify(self, st, k):
        rng = st.rng
        if not hasattr(st, 'ver'):
            st.lims = st.n16.util.SafetyLimits(altitude=(0, 45000), Nz=(-5, 18), alpha=(-10, 45))
            st.ver = st.n16.util.SafetyLimitsVerifier(st.lims, st.llc)
        n = 3
        xs = np.array([TRIM] * n) * rng.uniform(0.99, 1.01)
        xs[-1, 11] = rng.uniform(-100, 50000)
        res = {'status': 'ok', 'times': list(range(n)), 'modes': ['m'] * n, 'states': xs, 'Nz_list': [1.0] * n, 'ps_list': [0.0] * n}
        try:
            st.ver.verify(res)
        except Exception:  # noqa: BLE001
            pass
        multi = {'status': 'ok', 'times': list(range(n)), 'modes': [('m', 'm')] * n, 'states': np.hstack([xs, xs])}
        one = st.n16.util.extract_single_result(multi, k % 2, st.llc)
        st.run.count('evaluations')
        arr = one['states']
        st.refs.append(weakref.ref(arr))
        st.refs.append(weakref.ref(xs))


CHECKS = {'G01': Host(), 'M01': Memory()}
