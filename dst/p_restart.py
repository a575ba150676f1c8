"""D01-D02: restart from a saved state vector; independence from the ambient process."""
import contextlib
import datetime
import gc
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import warnings
import zlib

import numpy as np

from . import lib, p_fault, p_f16, world
from .core import Base, Violation

KINDS = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user', 'user', 'cust']


class Disk:
    """simulated append-only store: records survive a crash only when synced, the tail may be lost or torn"""

    def __init__(self):
        self.synced = []
        self.cache = []

    def append(self, rec):
        self.cache.append(rec)

    def sync(self):
        self.synced += self.cache
        self.cache = []

    def crash(self, rng, run):
        keep = rng.randrange(len(self.cache) + 1)
        if keep < len(self.cache):
            run.fault('lost-write', len(self.cache) - keep)
        tail = self.cache[:keep]
        if tail and rng.random() < 0.3:
            tail[-1] = tail[-1][:rng.randrange(len(tail[-1]))]
            run.fault('torn-write')
        self.synced += tail
        self.cache = []

    def last(self):
        for rec in reversed(self.synced):
            got = decode(rec)
            if got is not None:
                return got
        return None


def encode(pos, states):
    body = repr((pos, [(str(s.dtype), s.tobytes(), isinstance(s, np.ndarray)) for s in states])).encode()
    return zlib.crc32(body).to_bytes(4, 'big') + body


def decode(rec):
    import ast
    if len(rec) < 5 or zlib.crc32(rec[4:]) != int.from_bytes(rec[:4], 'big'):
        return None
    pos, st = ast.literal_eval(rec[4:].decode())
    return pos, [restored(np.frombuffer(b, dtype=np.dtype(d)).copy(), plain) for d, b, plain in st]


def restored(a, plain):
    """a state vector in the kind of array it was saved from"""
    if plain:
        return a
    import jax.numpy as jn
    return jn.array(a)


class Restart(Base):
    """D01"""
    rule = ('Runs: worlds whose process crashes between ticks or at a chosen executed line or bytecode inside one (anything unsynced on the simulated disk is lost or torn), and '
            'is restarted in a fresh process image from the last valid saved state vectors; the redone history is compared bit for bit with a process that '
            'never crashed; non-trivial: at least one crash. ')
    measure = 'distinct (body kinds, methods, crash point kind, function crashed in, ticks redone) tuples'
    shrink_keys = ['crashes', 'ops']

    def gen(self, rng, i, tier):
        nb = world.pick(rng, 1, 1, 2, 3)
        specs = [world.gen_spec(rng, rng.choice(KINDS), f'b{k}', ('RK45', 'RK45', 'RK45', 'Euler')) for k in range(nb)]
        jaxy = rng.random() < 0.15 and any([world.accelerate(rng, s, 1.0).get('use_jax') for s in specs])
        ops = world.gen_history(rng, specs, 10 if jaxy else 40, over=0.3, endure=0.0 if jaxy else 0.04)
        crashes = [{'at': rng.randrange(1, len(ops)), 'kind': world.pick(rng, 'between', 'inside', 'inside'), 'frac': rng.randrange(1000000) / 1000000,
                    'opcodes': rng.random() < 0.2, 'seed': rng.randrange(1 << 30)} for _ in range(rng.randrange(1, 5))]
        crashes.sort(key=lambda c: c['at'])
        return {'bodies': specs, 'ops': ops, 'crashes': crashes, 'sync': world.pick(rng, 1, 1, 3, 10), 'respawn-order': rng.random() < 0.5}

    def run(self, plan, run):
        specs, ops = plan['bodies'], plan['ops']
        # the process that never crashes
        good = []
        es = [world.build(lib_ns, s) for lib_ns in [lib.fresh()] for s in specs]
        first = [e.state for e in es]
        for op in ops:
            good.append(do(es[op[1]], op))
            run.count('ticks')
            run.sim += op[2] if op[0] == 'tick' else 0
        # the one that does
        ns = lib.fresh()
        es = [world.build(ns, s) for s in specs]
        for k, e in enumerate(es):
            if e.state.tobytes() != first[k].tobytes():
                raise Violation('spawn-differs', f'{specs[k]["kind"]}: two processes spawn it at different states')
        disk = Disk()
        disk.append(encode(0, [e.state for e in es]))
        disk.sync()
        pending = list(plan['crashes'])
        pos = 0
        since = 0
        while pos < len(ops):
            op = ops[pos]
            if pending and pending[0]['at'] <= pos:
                c = pending.pop(0)
                rng = random.Random(c['seed'])
                where = 'between'
                if c['kind'] == 'inside' and op[0] == 'tick':
                    where = self.crash_inside(c, specs[op[1]], es[op[1]], op)
                run.fault('crash-' + c['kind'])
                disk.crash(rng, run)
                got = disk.last()
                ns = lib.fresh()
                order = list(range(len(specs)))
                if plan['respawn-order']:
                    order.reverse()
                es = [None] * len(specs)
                for k in order:
                    es[k] = world.build(ns, specs[k])
                    es[k].state = got[1][k]
                run.see(tuple(s['kind'] for s in specs), tuple(s['method'] for s in specs), where, pos - got[0])
                run.count('ticks_redone', pos - got[0])
                pos = got[0]
                run.fault('restart')
                continue
            o = do(es[op[1]], op)
            run.count('ticks')
            if o != good[pos]:
                raise Violation('restart-differs', f'{specs[op[1]]["kind"]} {specs[op[1]]["method"]} {specs[op[1]]["params"]}: operation {pos} {op[:3]} gives {show(o)} after a restart, '
                                f'{show(good[pos])} without the crash')
            pos += 1
            since += 1
            disk.append(encode(pos, [e.state for e in es]))
            if since % plan['sync'] == 0:
                disk.sync()
        for g in good:
            run.dig.update(repr(g).encode())
        run.sample = {'bodies': [(s['kind'], s['method']) for s in specs], 'crashes': plan['crashes'][:2], 'first_ops': ops[:2]}

    @staticmethod
    def crash_inside(c, spec, e, op):
        """run the tick up to a chosen line and abandon the process there"""
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            twin = world.build(lib.fresh(), spec)
            twin.state = e.state
            with p_fault.Bomb(opcodes=c['opcodes']) as b:
                twin.step(op[2], world.real_cmd(op[3]))
            n = b.n
            with p_fault.Bomb(max(1, int(c['frac'] * n)), p_fault.Interrupt, c['opcodes']) as b:
                try:
                    e.step(op[2], world.real_cmd(op[3]))
                except p_fault.Interrupt:
                    pass
        return b.fired


def do(e, op):
    if op[0] == 'assign':
        world.assign(e, op[2])
        return ('assign', str(e.state.dtype), e.state.tobytes())
    o = world.tick(e, op[2], world.real_cmd(op[3]))
    return ('tick', None if o.exc is None else f'{type(o.exc).__name__}: {o.exc}', np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes(), o.warn,
            None if o.traj is None else o.traj.tobytes(), None if o.traj_t is None else o.traj_t.tobytes())


def show(x):
    return [np.frombuffer(v, dtype=float).tolist() if isinstance(v, bytes) and len(v) % 8 == 0 else v for v in x]


# ---------------------------------------------------------------------------------------------------------------------


ENVS = ['rng', 'seterr', 'filters', 'cwd', 'clock', 'print', 'gc', 'thread', 'busy', 'environ', 'recursion', 'pint', 'order', 'nojax']


class SimClock:
    """every clock of the process reads simulated time that jumps and runs backwards"""
    names = ['time', 'monotonic', 'perf_counter', 'process_time', 'time_ns', 'monotonic_ns', 'perf_counter_ns']

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.reads = 0

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in self.names}
        self.t = self.rng.uniform(-1e9, 4e9)

        def make(ns):

            def read():
                self.reads += 1
                self.t += self.rng.choice([0.0, 1e-6, 3.0, -5.0, 1e6])
                return int(self.t * 1e9) if ns else self.t

            return read

        for n in self.names:
            setattr(time, n, make(n.endswith('_ns')))
        read = make(False)
        self.dt = datetime.datetime

        class Simulated(datetime.datetime):

            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(abs(read()) % 4e9, tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(abs(read()) % 4e9)

            @classmethod
            def today(cls):
                return cls.now()

        datetime.datetime = Simulated
        self.pid = os.getpid
        os.getpid = lambda: 1 + int(abs(read())) % 30000
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(time, n, f)
        datetime.datetime = self.dt
        os.getpid = self.pid


class Ambient(Base):
    """D02"""
    digest_is_property = True
    rule = ('Runs: one history (bodies of any kind and F-16 calls, with rejected commands) executed in a plain process image and again under seeded ambient '
            'conditions: random-number state, floating-point error settings, warning filters, working directory, simulated clocks that jump backwards, print '
            'options, garbage collection, environment variables, another thread, earlier activity in the process; compared bit for bit; some runs are repeated in '
            'other operating-system processes with other hash seeds. Non-trivial: at least one perturbation. ')
    measure = 'distinct (body kind, method, perturbation set) tuples'
    runs = {'quick': 600, 'thorough': 4000}
    det_procs = 4
    det_runs = {'quick': 4, 'thorough': 40}

    def gen(self, rng, i, tier):
        specs = [world.gen_spec(rng, rng.choice(KINDS), f'b{k}', ('RK45', 'RK45', 'RK45', 'Euler')) for k in range(world.pick(rng, 1, 1, 2, 3))]
        ops = []
        jaxy = rng.random() < 0.15 and any([world.accelerate(rng, s, 1.0).get('use_jax') for s in specs])
        for op in world.gen_history(rng, specs, 8 if jaxy else 24, over=0.35):
            ops.append(op)
            r = rng.random()
            if r < 0.1:
                ops.append(['bad', op[1], world.pick(rng, 'names', 'names', 'name', 'type', 'size', 'value')])
            elif r < 0.2:
                ops.append(['f16', p_f16.jump(rng), p_f16.gen_uref(rng), world.pick(rng, 'stevens', 'morelli'), rng.random() < 0.4, rng.randrange(0, 4)])
        envs = []
        for _ in range(2):
            k = world.pick(rng, 1, 2, 4, len(ENVS))
            envs.append({'set': sorted(rng.sample(ENVS, k)), 'seed': rng.randrange(1 << 30)})
        return {'bodies': specs, 'ops': ops, 'envs': envs}

    def run(self, plan, run):
        specs = plan['bodies']
        base = self.history(plan, None, run)
        for o in base:
            run.dig.update(repr(o).encode())
        for env in plan['envs']:
            for k in env['set']:
                run.fault('ambient-' + k)
            got = self.history(plan, env, run)
            for k, (a, b) in enumerate(zip(base, got)):
                if a != b:
                    raise Violation('depends-on-environment', f'observation {k} {show(b)} with perturbed {env["set"]} differs from {show(a)} '
                                    f'({[(s["kind"], s["method"], s["params"]) for s in specs]})')
            if len(got) != len(base):
                raise Violation('depends-on-environment', f'{len(got)} observations instead of {len(base)} with perturbed {env["set"]}')
            run.see(tuple(s['kind'] for s in specs), tuple(env['set']))
        run.count('ticks', sum(op[0] == 'tick' for op in plan['ops']))
        run.sim += 3 * sum(op[2] for op in plan['ops'] if op[0] == 'tick')
        run.sample = {'bodies': [(s['kind'], s['method']) for s in specs], 'envs': plan['envs'], 'first_ops': plan['ops'][:2]}

    def history(self, plan, env, run):
        es = env['set'] if env else []
        rng = random.Random(env['seed'] if env else 0)
        need16 = any(op[0] == 'f16' for op in plan['ops'])
        log = []
        with contextlib.ExitStack() as st:
            st.enter_context(warnings.catch_warnings())
            if 'environ' in es:
                st.enter_context(Environ({'TZ': rng.choice(['Asia/Tokyo', 'UTC', 'America/New_York']), 'LANG': 'tr_TR.UTF-8', 'HOME': '/nonexistent', 'PYTHONOPTIMIZE': '2',
                                          'USER': 'nobody', 'JAX_ENABLE_X64': rng.choice(['0', '1'])}))
            if 'cwd' in es:
                st.enter_context(Cwd())
            if 'clock' in es:
                st.enter_context(SimClock(env['seed']))
            if 'rng' in es:
                np.random.seed(rng.randrange(1 << 31))
                random.seed(rng.randrange(1 << 31))
            with NoJax() if 'nojax' in es and not any(s.get('use_jax') or s['params'].get('use_jax') for s in plan['bodies']) else contextlib.nullcontext():
                ns = lib.fresh()
                n16 = lib.fresh(f16=True, spacecraft=False) if need16 else None
            if 'seterr' in es:
                old = np.seterr(**{k: rng.choice(['ignore', 'warn']) for k in ('divide', 'over', 'under', 'invalid')})
                st.callback(lambda: np.seterr(**old))
            if 'print' in es:
                po = np.get_printoptions()
                np.set_printoptions(precision=2, suppress=True, threshold=3)
                st.callback(lambda: np.set_printoptions(**po))
            if 'gc' in es:
                gc.disable()
                st.callback(gc.enable)
            if 'recursion' in es:
                lim = sys.getrecursionlimit()
                sys.setrecursionlimit(rng.choice([600, 5000]))
                st.callback(lambda: sys.setrecursionlimit(lim))
            if 'busy' in es:  # unrelated activity before and after import
                r2 = random.Random(env['seed'] + 1)
                for _ in range(r2.randrange(1, 4)):
                    sp = world.gen_spec(r2, r2.choice(KINDS), 'other', ('RK45', 'Euler'))
                    e = world.build(ns, sp)
                    for _k in range(r2.randrange(1, 6)):
                        with world.Warned():
                            try:
                                e.step(r2.choice([0.1, 1.0]), world.real_cmd(world.gen_cmd(r2, world.ref_of(sp), 0.3)))
                            except Exception:  # noqa: BLE001
                                pass
            if 'pint' in es:
                import pint
                pint.get_application_registry().Quantity(rng.random(), 'furlong').to('meter')

            def go():
                self.drive(plan, ns, n16, log, es, rng)

            if 'thread' in es:
                box = []

                def main():
                    try:
                        go()
                    except BaseException as e:  # noqa: BLE001
                        box.append(e)

                t = threading.Thread(target=main)
                t.start()
                t.join()
                if box:
                    raise box[0]
            else:
                go()
        return log

    @staticmethod
    def drive(plan, ns, n16, log, es, rng):
        bodies = [world.build(ns, s) for s in plan['bodies']]
        for e in bodies:
            log.append(('spawn', str(e.state.dtype), e.state.tobytes(), np.asarray(e.state_dot).tobytes()))
        llc = n16.llc.LowLevelController() if n16 else None
        for op in plan['ops']:
            if 'rng' in es:
                np.random.random(3)
                random.random()
            if op[0] == 'f16':
                x, u = np.array(op[1]), np.array(op[2])
                if op[5] == 0:
                    r = n16.cf.controlled_f16(x, u, llc, op[3], op[4])
                    log.append(('f16', ) + p_f16.frozen(r))
                else:
                    it = n16.util.Euler(lambda t, y: n16.cf.controlled_f16(y, u, llc, op[3], op[4])[0], 0.0, x, op[5] / 60, 1 / 60)
                    while it.status == 'running':
                        it.step()
                        log.append(('euler', it.t, it.y.tobytes()))
            elif op[0] == 'bad':
                from .p_iso import bad_command
                with world.Warned():
                    try:
                        bodies[op[1]].step(1.0, bad_command(op[2]))
                        log.append(('bad-accepted', ))
                    except Exception as ex:  # noqa: BLE001
                        log.append(('bad', type(ex).__name__, str(ex) if op[2] == 'names' else '', bodies[op[1]].state.tobytes()))
            elif 'filters' in es and op[0] == 'tick':
                # the user's own warning filters, whatever they are, must not change the motion
                with warnings.catch_warnings():
                    warnings.simplefilter(rng.choice(['ignore', 'once', 'default', 'module']))
                    save = sys.stderr
                    sys.stderr = open(os.devnull, 'w')
                    e = bodies[op[1]]
                    exc = None
                    try:
                        e.step(op[2], world.real_cmd(op[3]))
                    except Exception as ex:  # noqa: BLE001
                        exc = f'{type(ex).__name__}: {ex}'
                    finally:
                        sys.stderr.close()
                        sys.stderr = save
                tr, tt = getattr(e.dynamics, 'trajectory', None), getattr(e.dynamics, 'trajectory_t', None)
                log.append(('tick', exc, np.asarray(e.state).tobytes(), np.asarray(e.state_dot).tobytes(),
                            None if tr is None else np.array(tr, float).tobytes(), None if tt is None else np.array(tt, float).tobytes()))
            else:
                r = do(bodies[op[1]], op)
                log.append(r[:4] + r[5:] if r[0] == 'tick' else r)
        return log


class Environ:

    def __init__(self, new):
        self.new = new

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.new}
        os.environ.update(self.new)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


class NoJax:
    """an installation without the optional JAX dependency"""

    def __enter__(self):
        self.old = {k: v for k, v in sys.modules.items() if k == 'jax' or k.startswith(('jax.', 'jaxlib'))}
        for k in self.old:
            del sys.modules[k]
        sys.modules['jax'] = None

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k == 'jax' or k.startswith(('jax.', 'jaxlib'))]:
            del sys.modules[k]
        sys.modules.update(self.old)


class Cwd:

    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='dst-cwd-')
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


CHECKS = {'D01': Restart(), 'D02': Ambient()}
