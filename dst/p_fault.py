"""A01-A02: aborted ticks and rejected inputs."""
import sys
import warnings

import numpy as np

from . import lib, world
from .core import Base, Violation


class Interrupt(BaseException):
    """an asynchronous interruption by the embedding application"""


MODEL_EXC = {c.__name__: c for c in (ArithmeticError, FloatingPointError, ZeroDivisionError, OverflowError, ValueError, TypeError, RuntimeError, KeyError, IndexError,
                                    AttributeError, NotImplementedError, StopIteration, AssertionError, LookupError, RuntimeWarning)}
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'Interrupt': Interrupt, 'SystemExit': SystemExit}


class Bomb:
    """raise at the k-th executed line/bytecode of the package (or of scipy's integrator driver) inside a with block"""

    def __init__(self, k=None, exc=None, opcodes=False, scipy_too=False):
        self.k, self.exc, self.opcodes = k, exc, opcodes
        self.prefixes = (lib.REPO + '/' + lib.PKG, ) + (('/opt/venv/lib/python3', ) if scipy_too else ())
        self.scipy_too = scipy_too
        self.n = 0
        self.fired = None

    def glob(self, frame, event, _arg):
        f = frame.f_code.co_filename
        if event == 'call' and (f.startswith(self.prefixes[0]) or (self.scipy_too and '/scipy/integrate/_ivp/' in f)):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def local(self, frame, event, _arg):
        if event == 'line' or event == 'opcode':
            self.n += 1
            if self.n == self.k:
                self.fired = (frame.f_code.co_name, frame.f_lineno)
                raise self.exc('injected')
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Abort(Base):
    """A01"""
    rule = ('Runs: histories in which ticks are aborted at a chosen executed line or bytecode (interrupt, memory exhaustion, exit), by warnings or '
            'floating-point conditions raised as errors, or by the model, some several times in a row, then repeated; an undisturbed twin gives the '
            'expected history bit for bit; non-trivial: at least one abort. ')
    measure = 'distinct (body kind, method, abort kind, function and line aborted, old/new state) tuples'
    shrink_keys = ['ops']
    kinds = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user', 'user', 'cust']

    def gen(self, rng, i, tier):
        spec = world.gen_spec(rng, rng.choice(self.kinds), 'a', ('RK45', 'RK45', 'Euler'))
        world.accelerate(rng, spec, 0.12)
        jaxy = spec.get('use_jax')
        ops = world.gen_history(rng, [spec], 8 if jaxy else 25, over=0.3, endure=0.0 if jaxy else 0.02)
        out = []
        for op in ops:
            if op[0] == 'tick':
                for _ in range(world.pick(rng, 0, 1, 1, 2)):
                    kind = world.pick(rng, 'async', 'async', 'async', 'async', 'warning-error', 'fp-error', 'model-error', 'bad-command')
                    if spec['kind'] == 'user' and rng.random() < 0.3:
                        kind = 'model-error'
                    out.append(['abort', {'kind': kind, 'exc': rng.choice(sorted(EXC)), 'where': world.pick(rng, 'any', 'first', 'last', 'last'),
                                          'frac': rng.randrange(1000000) / 1000000, 'opcodes': rng.random() < 0.2, 'scipy': rng.random() < 0.3, 'eval': 1 if spec['method'] == 'Euler' else world.pick(rng, 1, rng.randrange(1, 8), rng.randrange(1, 30)),
                                          'mexc': rng.choice(sorted(MODEL_EXC))}])
            out.append(op)
        return {'body': spec, 'ops': out}

    def run(self, plan, run):
        spec = plan['body']
        ns = lib.fresh()
        ref = world.ref_of(spec)
        arm = [0, ArithmeticError]

        def hook(_t):
            if arm[0] > 0:
                arm[0] -= 1
                if arm[0] == 0:
                    raise arm[1]('injected by the model')
            return None

        e = world.build(ns, spec, hook=hook)
        twin = world.build(ns, spec)
        counter = world.build(ns, spec, hook=hook)
        pending = []
        for op in plan['ops']:
            if op[0] == 'abort':
                pending.append(op[1])
                continue
            if op[0] == 'assign':
                world.assign(e, op[2])
                world.assign(twin, op[2])
                continue
            _, _, dt, cmd, tags = op
            before = e.state
            t = world.tick(twin, dt, world.real_cmd(cmd))
            run.count('ticks')
            run.sim += dt
            if t.exc is not None:
                raise Violation('step-raised', f'{spec["kind"]}: {t.exc!r}')
            done = False
            for f in pending:
                if done:
                    break
                done = self.abort(run, ref, spec, e, counter, f, dt, cmd, before, twin.state, arm)
            pending = []
            if not done:
                o = world.tick(e, dt, world.real_cmd(cmd))
                if o.exc is not None:
                    raise Violation('step-raised', f'{spec["kind"]} after an aborted tick: {o.exc!r}')
                if not np.array_equal(o.dot, t.dot):
                    raise Violation('not-recovered', f'{spec["kind"]}: repeated tick reports derivative {o.dot.tolist()}, undisturbed {t.dot.tolist()}')
            if e.state.tobytes() != twin.state.tobytes():
                raise Violation('not-recovered', f'{spec["kind"]} {spec["method"]}: repeated tick gives {e.state.tolist()}, undisturbed history {twin.state.tolist()}')
            run.dig.update(e.state.tobytes())
        run.sample = {'body': [spec['kind'], spec['params']], 'first_ops': plan['ops'][:4]}

    def abort(self, run, ref, spec, e, counter, f, dt, cmd, before, after, arm):
        """one aborted attempt; True if the new state took effect"""
        dot0 = np.array(e.state_dot).tobytes()
        kind = f['kind']
        obj = world.real_cmd(cmd)
        sync = True
        exc = None
        where = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind == 'async':
                sync = False
                counter.state = before
                with Bomb(opcodes=f['opcodes'], scipy_too=f['scipy']) as c:
                    counter.step(dt, world.real_cmd(cmd))
                n = c.n
                k = {'any': 1 + int(f['frac'] * n), 'first': 1 + int(f['frac'] * min(n, 25)), 'last': max(1, n - int(f['frac'] * min(n, 14)))}[f['where']]
                b = Bomb(min(k, n), EXC[f['exc']], f['opcodes'], f['scipy'])
                try:
                    with b:
                        e.step(dt, obj)
                except BaseException as ex:  # noqa: BLE001
                    exc = ex
                where = b.fired
                if b.fired and exc is None:
                    run.count('aborts_swallowed')
            elif kind == 'warning-error':
                warnings.simplefilter('error')
                try:
                    e.step(dt, obj)
                except Exception as ex:  # noqa: BLE001
                    exc = ex
            elif kind == 'fp-error':
                old = np.seterr(all='raise')
                try:
                    e.step(dt, obj)
                except Exception as ex:  # noqa: BLE001
                    exc = ex
                finally:
                    np.seterr(**old)
            elif kind == 'bad-command':
                bad = {'bogus': 1.0} if ref.cnames is None or not ref.nu else {ref.cnames[0]: float(ref.cdef[0]) + 0.1, 'bogus': 1.0}
                try:
                    e.step(dt, bad)
                except Exception as ex:  # noqa: BLE001
                    exc = ex
                if exc is None:
                    raise Violation('accepted', f'{spec["kind"]}: command {bad} was accepted')
            else:
                if spec['kind'] != 'user':
                    return False
                arm[0], arm[1] = f['eval'], MODEL_EXC[f['mexc']]
                try:
                    e.step(dt, obj)
                except Exception as ex:  # noqa: BLE001
                    exc = ex
                    if arm[0] > 0:
                        raise Violation('step-raised', f'{spec["kind"]}: {exc!r} without a model error') from None
                if arm[0] == 0 and exc is None:
                    raise Violation('swallowed', f'{spec["params"]["model"]} model error was swallowed')
                arm[0] = 0
        s = e.state
        is_old = s.tobytes() == before.tobytes() and s.dtype == before.dtype
        is_new = s.tobytes() == after.tobytes()
        run.see(spec['kind'], spec['method'], kind, where, is_new and not is_old)
        if exc is None:
            run.count('aborts_that_did_not_occur')
            if not is_new and kind != 'async':
                raise Violation('wrong-state', f'{spec["kind"]} under {kind}: completed with {s.tolist()} instead of {after.tolist()}')
            if not is_new and not is_old:
                raise Violation('torn-state', f'{spec["kind"]}: {s.tolist()} is neither {before.tolist()} nor {after.tolist()}')
            return is_new
        run.fault('abort-' + kind)
        if not (is_old or is_new):
            raise Violation('torn-state', f'{spec["kind"]} {spec["method"]}: after {type(exc).__name__} at {where} the state is {s.tolist()}, neither the old '
                            f'{before.tolist()} nor the new {after.tolist()}')
        if sync and not is_old:
            raise Violation('partial-effect', f'{spec["kind"]} {spec["method"]}: a tick refused with {exc!r} changed the state to {s.tolist()} from {before.tolist()}')
        if sync and np.array(e.state_dot).tobytes() != dot0:
            raise Violation('partial-effect', f'{spec["kind"]} {spec["method"]}: a tick refused with {exc!r} changed the derivative to {np.array(e.state_dot).tolist()}')
        if is_new and not is_old:
            run.count('aborts_after_commit')
            return True
        return False


class Rejected(Base):
    """A02"""
    rule = ('Runs: bodies whose clients interleave valid traffic with malformed commands and attempts to create invalid bodies and models; a twin '
            'world that never sees the invalid ones gives the expected history bit for bit; non-trivial: at least one rejected input. ')
    shrink_keys = ['ops']
    kinds = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user', 'user', 'cust']
    BAD = ['unknown-channel', 'unknown-after-valid', 'type-str', 'type-tuple', 'type-float', 'type-set', 'value-str', 'value-list', 'size+1', 'size-0', 'no-map',
           'list-of-str', 'channel-by-index', 'shape', 'shape', 'near-name', 'near-name', 'near-after-valid', 'nested-list', 'ragged-list', 'value-none', 'value-dict',
           'type-int', 'type-bytes', 'type-object', 'type-generator', 'type-npfloat', 'maybe-bool', 'size-1']
    CONF = ['unknown-field', 'missing-name', 'text-value', 'wrong-dimension', 'list-value', 'method', 'jax-without-jax', 'samples-euler', 'samples-float', 'linear-shape',
            'linear-1d', 'none-value', 'limit-size', 'number-text']

    def gen(self, rng, i, tier):
        specs = [world.gen_spec(rng, rng.choice(self.kinds), f'b{k}', ('RK45', 'RK45', 'Euler')) for k in range(rng.randrange(1, 4))]
        jaxy = rng.random() < 0.15 and any([world.accelerate(rng, s, 1.0).get('use_jax') for s in specs])
        ops = world.gen_history(rng, specs, 10 if jaxy else 30, over=0.25)
        out = []
        for op in ops:
            for _ in range(world.pick(rng, 0, 0, 1, 1, 2)):
                if rng.random() < 0.7:
                    out.append(['bad', rng.randrange(len(specs)), rng.choice(self.BAD), rng.randrange(1000) / 1000])
                else:
                    out.append(['conf', rng.choice(self.kinds[:-3]), rng.choice(self.CONF), rng.randrange(1000)])
            out.append(op)
        return {'bodies': specs, 'ops': out}

    def run(self, plan, run):
        ns = lib.fresh()
        ns2 = lib.fresh()
        specs = plan['bodies']
        ents = [world.build(ns, s) for s in specs]
        twins = [world.build(ns2, s) for s in specs]
        refs = [world.ref_of(s) for s in specs]
        for op in plan['ops']:
            if op[0] == 'conf':
                self.config(run, ns, op, ents, twins, specs)
                continue
            b = op[1]
            e, t, s, r = ents[b], twins[b], specs[b], refs[b]
            if op[0] == 'bad':
                self.bad(run, op, e, t, s, r)
            elif op[0] == 'assign':
                world.assign(e, op[2])
                world.assign(t, op[2])
            else:
                _, _, dt, cmd, tags = op
                o = world.tick(e, dt, world.real_cmd(cmd))
                w = world.tick(t, dt, world.real_cmd(cmd))
                run.count('ticks')
                run.sim += dt
                if o.exc is not None or w.exc is not None:
                    raise Violation('step-raised', f'{s["kind"]}: {o.exc!r} / {w.exc!r}')
                if not np.array_equal(o.s1, w.s1) or not np.array_equal(o.dot, w.dot) or o.warn != w.warn:
                    raise Violation('lasting-effect', f'{s["kind"]}: after rejected inputs a tick with {cmd} gives {o.s1.tolist()} (warned {o.warn}), without them '
                                    f'{w.s1.tolist()} ({w.warn})')
                world.absorb(run.dig, o)
        # a body spawned after all that equals one spawned in an untouched process
        for s in specs:
            x, y = world.build(ns, s), world.build(lib.fresh(), s)
            o, w = world.tick(x, 1.0, None), world.tick(y, 1.0, None)
            if not np.array_equal(o.s1, w.s1) or not np.array_equal(x.state_dot, y.state_dot):
                raise Violation('lasting-effect', f'{s["kind"]} spawned after rejected inputs ends its first tick at {o.s1.tolist()} instead of {w.s1.tolist()}')
        run.sample = {'bodies': [(s['kind'], s['params']) for s in specs], 'first_ops': plan['ops'][:4]}

    def bad(self, run, op, e, t, s, r):
        kind, frac = op[2], op[3]
        if r.nu == 0 and not kind.startswith('type-'):
            kind = 'shape'
        names = r.cnames
        good = float(r.cdef[0] + 0.05) if r.nu else 0.0
        must = True
        if kind == 'unknown-channel':
            c = {'thrust_q': good}
        elif kind == 'unknown-after-valid':
            if not names:
                return
            c = {names[-1]: good, 'bogus': 1.0, names[0]: good}
        elif kind == 'channel-by-index':
            c = {0: good}
        elif kind == 'type-str':
            c = 'full ahead'
        elif kind == 'type-tuple':
            c = tuple([good] * r.nu)
        elif kind == 'type-float':
            c = good
        elif kind == 'type-set':
            c = {good}
        elif kind == 'value-str':
            if not names:
                return
            c = {names[0]: good, names[-1]: 'x'}
        elif kind == 'value-list':
            if not names:
                return
            c = {names[0]: [good, good]}
        elif kind == 'list-of-str':
            c = ['a'] * r.nu
        elif kind == 'size+1':
            n = r.nu + 1 + int(frac * 3)
            c = [good] * n if frac < 0.5 else np.full(n, good)
        elif kind == 'size-0':
            c = np.zeros(0) if frac < 0.5 else []
        elif kind == 'no-map':
            if names:
                return
            c = {'c0': good}
        elif kind == 'shape':
            n = r.nu
            shapes = [(1, n), (2, n), (n, 1), (n, n), (n, 2), (1, n, 1), (n + 1, ), (n + 1, 1), (1, n + 1), (2 * n, ), (), (1, 1), (r.nx, n), (r.nx, )]
            shapes = [x for x in shapes if x != (n, )]
            sh = shapes[int(frac * len(shapes))]
            c = np.full(sh, good, dtype=np.float64 if int(frac * 1000) % 3 else np.float32)
        elif kind in ('near-name', 'near-after-valid'):
            if not names:
                return
            v = names[int(frac * len(names))]
            forms = [v.upper(), v.title(), v.capitalize(), ' ' + v, v + ' ', v + '\n', v[:-1], v[1:], v + '_', v + '0', v.replace('_', '-'), v.replace('_', ''), v.replace('_', ' '), '',
                     v.encode(), (v, ), v + '_dot', '_' + v, v.swapcase(), v.split('_')[0], v.split('_')[-1], None, v + v]
            x = forms[int(frac * 1000) % len(forms)]
            if x in names:
                return
            c = {x: good} if kind == 'near-name' else {names[0]: good, x: good}
        elif kind == 'nested-list':
            c = [[good] * r.nu] if frac < 0.5 else [[good]] * r.nu
        elif kind == 'ragged-list':
            c = [[good, good]] + [good] * r.nu
        elif kind == 'value-none':
            if frac < 0.5 and names:
                c = {names[0]: good, names[-1]: 'none' if frac < 0.25 else object()}
            else:
                c = [object()] * r.nu
        elif kind == 'value-dict':
            if not names:
                return
            c = {names[-1]: {'value': good}}
        elif kind == 'type-int':
            c = 1
        elif kind == 'type-bytes':
            c = b'full ahead'
        elif kind == 'type-object':
            c = object()
        elif kind == 'type-generator':
            c = range(r.nu)
        elif kind == 'type-npfloat':
            c = np.float64(good)
        elif kind == 'maybe-bool':
            c, must = np.ones(r.nu, dtype=bool), False
        else:
            if r.nu == 1:
                return
            c = np.array([good]) if frac < 0.5 else [good]
        s0, d0 = e.state.tobytes(), np.array(e.state_dot).tobytes()
        exc = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                e.step(1.0, c)
            except Exception as ex:  # noqa: BLE001
                exc = ex
        run.see(s['kind'], kind, type(exc).__name__)
        if exc is None:
            if must:
                raise Violation('accepted', f'{s["kind"]}: malformed command {c!r} ({kind}) was accepted')
            e.state = t.state
            e.state_dot = np.array(t.state_dot)
            return
        run.fault('rejected-' + kind)
        if e.state.tobytes() != s0 or np.array(e.state_dot).tobytes() != d0:
            raise Violation('effect', f'{s["kind"]}: refused command {c!r} changed state to {e.state.tolist()} derivative {np.array(e.state_dot).tolist()}')

    def config(self, run, ns, op, ents, twins, specs):
        _, kind, what, num = op
        import random
        rng = random.Random(num)
        spec = world.gen_spec(rng, kind, 'late', ('RK45', ))
        fields = world.FIELDS[kind]
        f = fields[num % len(fields)]
        kw = dict(spec['init'], name='late')
        cls = {
            'cwh': ns.point.CWHSpacecraft, 'rot2d': ns.rot.CWHRotation2dSpacecraft, 'sixdof': ns.six.SixDOFSpacecraft, 'sun': ns.sun.SunEntity,
            'dub2': ns.dub.Dubins2dAircraft, 'dub3': ns.dub.Dubins3dAircraft, 'int1': ns.integ.Integrator1d, 'int2': ns.integ.Integrator2d,
            'int3': ns.integ.Integrator3d
        }[kind]
        at_step = False
        model = None
        if what == 'unknown-field':
            kw['altitude_of_the_moon'] = 1.0
        elif what == 'missing-name':
            del kw['name']
        elif what == 'text-value':
            kw[f] = 'fast'
        elif what == 'none-value':
            kw[f] = None
        elif what == 'list-value':
            kw[f] = [1.0, 2.0]
        elif what == 'wrong-dimension':
            import pint
            kw[f] = pint.get_application_registry().Quantity(1.0, 'kilogram')
        elif what == 'limit-size':  # per-axis limits for another number of axes
            kind, f, cls = 'sixdof', world.pick(rng, 'ang_acc_limit', 'ang_vel_limit'), ns.six.SixDOFSpacecraft
            v = world.pick(rng, [0.1], [0.1, 0.2], [0.1] * 4, [], [[0.1], [0.2], [0.3]], [[0.1] * 3] * 2)
            kw = {'name': 'late', f: np.array(v) if num % 2 or (v and isinstance(v[0], list)) else v}
        elif what == 'number-text':
            if kind not in world.CRAFT:
                return
            f = world.pick(rng, *{'cwh': ('m', 'n'), 'rot2d': ('m', 'n', 'inertia', 'ang_acc_limit', 'inertia_wheel', 'vel_limit_wheel'), 'sixdof': ('m', 'n', 'inertia_wheel', 'ang_vel_limit')}[kind])
            kw[f] = world.pick(rng, 'big', None, {'a': 1.0})
        elif what == 'method':
            kw['integration_method'] = world.pick(rng, 'RK4', 'euler', '', 'rk45')
            at_step = True
        elif what == 'jax-without-jax':
            kw['integration_method'] = 'RK45_JAX'
            at_step = True
        elif what == 'samples-euler':
            if kind == 'sun':
                return
            kw.update(integration_method='Euler', trajectory_samples=1 + num % 4)
            at_step = True
        elif what == 'samples-float':
            if kind == 'sun':
                return
            kw['trajectory_samples'] = 2.5
        else:
            model = (np.eye(3), np.zeros((2, 1))) if what == 'linear-shape' else (np.zeros(3), np.zeros((3, 1)))
            if num % 2 and what == 'linear-shape':
                model = (np.zeros((3, 2)), np.zeros((3, 1)))
        before = [(e.state.tobytes(), np.array(e.state_dot).tobytes()) for e in ents]
        exc = None
        e = None
        try:
            if model is not None:
                ns.base.BaseLinearODESolverDynamics(A=model[0], B=model[1])
            else:
                if kind == 'sun' and at_step:
                    kw.pop('use_jax', None)
                e = cls(**kw)
        except Exception as ex:  # noqa: BLE001
            exc = ex
            if isinstance(ex, (AttributeError, NameError)):
                raise Violation('unexpected-exception', f'{kind} {what}: {ex!r}') from None
        if at_step and exc is None:
            s0, d0 = e.state.tobytes(), np.array(e.state_dot).tobytes()
            try:
                e.step(1.0)
            except Exception as ex:  # noqa: BLE001
                exc = ex
            if e.state.tobytes() != s0 or np.array(e.state_dot).tobytes() != d0:
                raise Violation('effect', f'{kind}: a step refused for {what} changed the body')
        run.see(kind, 'conf', what, type(exc).__name__)
        if exc is None:
            raise Violation('accepted', f'{kind}: invalid configuration {what} ({f}: {kw.get(f)!r}) was accepted')
        run.fault('rejected-configuration-' + what)
        after = [(e.state.tobytes(), np.array(e.state_dot).tobytes()) for e in ents]
        if before != after:
            raise Violation('effect', f'a refused {kind} configuration ({what}) changed another body')


CHECKS = {'A01': Abort(), 'A02': Rejected()}
