"""R01-R04: every tick of every body refines its reference model."""
import numpy as np

from . import lib, world
from .core import Base, Violation
from .p_iso import sibling


class Physics(Base):
    shrink_keys = ['ops']

    def __init__(self, kinds, group, rule, ticks=60):
        self.kinds, self.group, self.ticks = kinds, group, ticks
        self.rule = rule

    def gen(self, rng, i, tier):
        nb = rng.randrange(1, 4)
        specs = []
        for k in range(nb):
            s = world.gen_spec(rng, world.pick(rng, *self.kinds), f'b{k}', ('RK45', 'RK45', 'RK45', 'RK45', 'Euler'))
            if specs and rng.random() < 0.35:  # almost the same body again
                s = dict(sibling(rng, specs[-1]), name=f'b{k}')
            specs.append(s)
        ops = world.gen_history(rng, specs, self.ticks, over=world.pick(rng, 0.0, 0.15, 0.4), endure=0.025)
        return {'bodies': specs, 'ops': ops}

    def dims(self, ref, spec):
        if self.group and self.group in ref.groups:
            return ref.groups[self.group]
        return list(range(ref.nx))

    def begin(self, plan, ents, refs):
        pass

    def run(self, plan, run):
        ns = lib.fresh()
        ents = [world.build(ns, s) for s in plan['bodies']]
        refs = [world.ref_of(s) for s in plan['bodies']]
        self.begin(plan, ents, refs)
        last = []
        for e, r, s in zip(ents, refs, plan['bodies']):
            want = world.init_state(s)
            got = np.array(e.state, float)
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-9):
                raise Violation('spawn-state', f'{s["kind"]} spawned at {got.tolist()} instead of {want.tolist()}')
            last.append(got)
        for op in plan['ops']:
            b = op[1]
            e, r, s = ents[b], refs[b], plan['bodies'][b]
            if op[0] == 'assign':
                v = world.assign(e, op[2])
                last[b] = np.array(e.state, float)
                if not np.array_equal(last[b], np.array(v, float)):
                    raise Violation('assignment', f'{s["kind"]}: assigned {v.tolist()}, body reports {last[b].tolist()}')
                run.count('assign')
                run.fault('state-reassignment')
                continue
            _, _, dt, cmd, tags = op
            for t in tags:
                run.fault(t)
            u, _w = r.command(cmd)
            o = world.tick(e, dt, world.real_cmd(cmd))
            run.count('ticks')
            run.sim += dt
            if o.exc is not None:
                raise Violation('step-raised', f'{s["kind"]} {s["method"]}: {type(o.exc).__name__}: {o.exc} from {o.s0.tolist()} dt={dt!r}')
            if not np.array_equal(o.s0, last[b]):
                raise Violation('idle-change', f'{s["kind"]} changed between ticks: {last[b].tolist()} -> {o.s0.tolist()}')
            last[b] = o.s1
            world.absorb(run.dig, o)
            self.judge(run, e, r, s, dt, cmd, u, _w, o)
            sat = tuple((o.s1 <= r.smin).nonzero()[0]) + tuple((o.s1 >= r.smax).nonzero()[0] + 100)
            run.see(s['kind'], s['params'].get('base'), s['method'], cmd['form'], sat, bool(s.get('samples')), int(np.log10(dt + 1e-9)), tuple(tags)[:2])
        for s in plan['bodies']:
            self.matrices(run, ns, s)
        run.sample = {'bodies': [(s['kind'], s['method']) for s in plan['bodies']], 'first_ops': plan['ops'][:3]}

    @staticmethod
    def matrices(run, ns, s):
        """the linear models the package publishes as functions"""
        p, kind = s['params'], s['kind']
        if kind in ('cwh', 'rot2d', 'sixdof'):
            m, n = p.get('m', 12.0), p.get('n', 0.001027)
            cases = [(f'generate_cwh_matrices({m}, {n}, {d}d)', d, ns.point.generate_cwh_matrices(m, n, f'{d}d')) for d in (2, 3)]
            full = {(0, 0): 3 * n * n, (2, 2): -n * n}, {(0, 1): 2 * n, (1, 0): -2 * n}
        elif kind in ('int1', 'int2', 'int3'):
            m, c = p.get('m', 1.0), p.get('damping', 0.0)
            cases = [(f'generate_dynamics_matrices({m}, {c}, {d}d)', d, ns.integ.generate_dynamics_matrices(m, c, f'{d}d')) for d in (1, 2, 3)]
            full = {}, {(i, i): -c for i in range(3)}
        else:
            return
        for name, d, (a, b) in cases:
            wa, wb = np.zeros((2 * d, 2 * d)), np.zeros((2 * d, d))
            for i in range(d):
                wa[i, d + i] = 1.0
                wb[d + i, i] = 1.0 / m
                for k in range(d):
                    wa[d + i, k] = full[0].get((i, k), 0.0)
                    wa[d + i, d + k] = full[1].get((i, k), 0.0)
            for what, got, want in (('A', a, wa), ('B', b, wb)):
                if np.shape(got) != want.shape or not np.allclose(np.asarray(got, float), want, rtol=1e-12, atol=0):
                    raise Violation('model-matrices', f'{name}: {what} is {np.asarray(got).tolist()} instead of {want.tolist()}')
            run.count('matrix_pairs')


    def judge(self, run, e, r, s, dt, cmd, u, warn, o):
        dims = self.dims(r, s)
        msg = r.check(dt, o.s0, u, o.s1, s['method'], dims, o.f32 or cmd['form'] == 'jnp')
        if msg:
            raise Violation('motion', f'{s["kind"]} {s["method"]} {s["params"]}: {msg}')
        if r.loose:
            run.count('ticks_accepted_within_solver_error_only')
        if s['method'] == 'RK45' and not r.loose:
            msg = r.check_dot(dt, o.s1, u, o.dot, dims)
            if msg:
                raise Violation('derivative', f'{s["kind"]} {s["params"]}: {msg}')


CH = 'Runs: seeded worlds of 1-3 bodies with random configurations, tick schedules (jitter, stalls, bursts, zero-length ticks), a lossy, duplicating, reordering, partitioned command channel and state reassignment; non-trivial: at least one tick executed and checked. '
CHECKS = {
    'R01': Physics(['cwh', 'rot2d', 'sixdof', 'sun', 'cwh', 'sixdof'], 'pos', CH),
    'R02': Physics(['rot2d', 'sixdof'], 'att', CH),
    'R03': Physics(['dub2', 'dub3'], None, CH),
    'R06': Physics(['cust'], None, CH.replace('random configurations', 'user-written bodies on the shipped dynamics classes, with parameters, limits, derivative limits, wrap centres and control limits of their own')),
    'R04': Physics(['int1', 'int2', 'int3', 'user', 'user', 'user'], None, CH),
}
