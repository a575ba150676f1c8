"""Independent reference models of the bodies, written from the documentation and the physics.

Nothing here imports the code under test.  A Ref holds the right-hand side, limits, wrap centres and command layout
that a body of a given spec must have, and can integrate one tick in two independent ways.
"""
import math

import numpy as np
import scipy.integrate

INF = math.inf


class Ref:
    """reference model: raw right-hand side plus limits"""

    def __init__(self, nx, nu, rhs, cnames=None, cmin=-INF, cmax=INF, smin=-INF, smax=INF, dmin=-INF, dmax=INF, wrap=None, f32=False,
                 groups=None, mixed=False):
        self.nx, self.nu, self.raw = nx, nu, rhs
        self.cnames = cnames
        self.cmin = np.broadcast_to(np.asarray(cmin, float), (nu, )).copy()
        self.cmax = np.broadcast_to(np.asarray(cmax, float), (nu, )).copy()
        self.smin = np.broadcast_to(np.asarray(smin, float), (nx, )).copy()
        self.smax = np.broadcast_to(np.asarray(smax, float), (nx, )).copy()
        self.dmin = np.broadcast_to(np.asarray(dmin, float), (nx, )).copy()
        self.dmax = np.broadcast_to(np.asarray(dmax, float), (nx, )).copy()
        self.wrap = wrap or [None] * nx
        self.f32 = f32
        self.groups = groups or {}
        self.mixed = mixed
        self.usingle = False
        self.positive = ()  # elements that must stay positive for the equations to make sense
        self.cdef = np.zeros(nu)

    # -- command semantics --------------------------------------------------------------------------------------
    def command(self, cmd):
        """effective (clipped) control vector of a command spec, and whether a warning is due (None: ambiguous)"""
        u = self.cdef.copy()
        form = cmd['form']
        self.usingle = form in ('list', 'f32', 'jnp')
        supplied = {}
        if form == 'dict':
            for k, v in cmd['v'].items():
                supplied[self.cnames.index(k)] = v
        elif form != 'none':
            u[:] = 0.0
            for i, v in enumerate(cmd['v']):
                supplied[i] = v
        warn = False
        for i, v in supplied.items():
            if form in ('list', 'f32', 'jnp'):
                v = float(np.float32(v))
            u[i] = v
            for lim, outside in ((self.cmin[i], v < self.cmin[i]), (self.cmax[i], v > self.cmax[i])):
                if np.isfinite(lim) and abs(v - lim) <= (3e-7 if self.usingle else 1e-12) * abs(lim) + 1e-15 and v != lim:
                    warn = None if warn is not True else True
                elif outside:
                    warn = True
                elif v == lim and form in ('list', 'f32', 'jnp') and float(np.float32(lim)) != lim:
                    warn = None if warn is not True else True
        return np.clip(u, self.cmin, self.cmax), warn

    # -- derivative ---------------------------------------------------------------------------------------------
    def free(self, t, s, u):
        """right-hand side with derivative limits but without state limits"""
        return np.clip(self.raw(t, s, u), self.dmin, self.dmax)

    def dot(self, t, s, u):
        """right-hand side with derivative limits and no outward motion at state limits"""
        d = self.free(t, s, u)
        d = np.where(s <= self.smin, np.maximum(d, 0.0), d)
        return np.where(s >= self.smax, np.minimum(d, 0.0), d)

    def clip(self, s):
        return np.clip(s, self.smin, self.smax)

    def wrapped(self, s):
        s = np.array(s, float)
        for i, c in enumerate(self.wrap):
            if c is not None:
                s[i] = math.remainder(s[i] - c, 2 * math.pi) + c
        return s

    # -- one tick -----------------------------------------------------------------------------------------------
    def rk(self, dt, s, u, dot=None):
        sol = scipy.integrate.solve_ivp(dot or self.dot, (0, dt), np.asarray(s, float), args=(u, ))
        if not sol.success:
            return None
        return sol.y[:, -1]

    def euler(self, dt, s, u):
        return s + dt * self.dot(0.0, s, u)

    def truth(self, dt, s, u):
        """event-localised high-accuracy solution (end state before wrapping, after clipping)"""
        s = np.asarray(s, float).copy()
        t = 0.0
        lim = [i for i in range(self.nx) if np.isfinite(self.smin[i]) or np.isfinite(self.smax[i])]
        delta = {i: 1e-10 * (1 + abs(self.smax[i] if np.isfinite(self.smax[i]) else self.smin[i])) for i in lim}
        mode = {i: (1 if s[i] >= self.smax[i] else -1 if s[i] <= self.smin[i] else 0) for i in lim}
        for _ in range(200):
            m = dict(mode)

            def f(tt, x):
                d = self.free(tt, x, u)
                for i in lim:
                    if m[i] > 0:
                        d[i] = min(d[i], 0.0)
                    elif m[i] < 0:
                        d[i] = max(d[i], 0.0)
                return d

            evs, what = [], []
            for i in lim:
                if m[i] == 0:
                    for bound, to, direction in ((self.smax[i], 1, 1), (self.smin[i], -1, -1)):
                        if np.isfinite(bound):
                            evs.append(_event(i, bound, direction))
                            what.append((i, to))
                elif m[i] > 0:
                    evs.append(_event(i, self.smax[i] - delta[i], -1))
                    what.append((i, 0))
                else:
                    evs.append(_event(i, self.smin[i] + delta[i], 1))
                    what.append((i, 0))
            sol = scipy.integrate.solve_ivp(f, (t, dt), s, method='DOP853', rtol=1e-10, atol=1e-11, events=evs or None)
            if not sol.success and sol.status != 1:
                return None
            s = sol.y[:, -1].copy()
            t = sol.t[-1]
            if sol.status != 1:
                break
            for k, (i, to) in enumerate(what):
                if sol.t_events[k].size:
                    mode[i] = to
                    if to:
                        s[i] = self.smax[i] if to > 0 else self.smin[i]
            if t >= dt:
                break
        else:
            return None
        return self.clip(s)

    # -- comparing ----------------------------------------------------------------------------------------------
    def diff(self, a, b):
        """componentwise difference, modulo full turns for wrapped angles"""
        d = np.asarray(a, float) - np.asarray(b, float)
        for i, c in enumerate(self.wrap):
            if c is not None and np.isfinite(d[i]):
                d[i] = math.remainder(d[i], 2 * math.pi)
        return d

    def tight(self, dt, s0, s1, u, f32state=False):
        d = np.maximum(np.abs(self.free(0.0, s0, u)), np.abs(self.free(dt, s1, u)))
        mag = np.maximum(np.abs(s0), np.abs(s1))
        if self.mixed:  # elements are of one scale and feed each other with coefficients of order one
            d = np.full(self.nx, np.max(d))
            mag = np.full(self.nx, np.max(mag))
        tol = 2e-10 * (mag + d * abs(dt)) + 1e-12
        if self.f32:
            tol = tol + 6e-7 * abs(dt) * (d + self._couple(s0, s1))
        if f32state:
            tol = tol + 4e-7 * (mag + d * abs(dt)) + [0.0 if c is None else 5e-7 * (4 + abs(c)) for c in self.wrap]
        tol = tol + abs(dt) * self.usens(s0, u)
        return tol

    def usens(self, s, u):
        """effect on the derivative of a command given in single precision"""
        sens = np.zeros(self.nx)
        if self.usingle:
            base = self.raw(0.0, s, u)
            for i in range(self.nu):
                e = np.array(u, float)
                e[i] += 2e-7 * (abs(e[i]) + 1e-3)
                sens += np.abs(self.raw(0.0, s, e) - base)
            if self.mixed:
                sens[:] = np.max(sens)
        return sens

    def _couple(self, s0, s1):
        """error scale of derivative components computed in single precision from other components"""
        return self.groups.get('scale', lambda a: 0.0)(np.maximum(np.abs(s0), np.abs(s1)))

    def check(self, dt, s0, u, s1, method='RK45', dims=None, f32state=False):
        """None if the end state s1 of a tick from s0 is acceptable, else a message"""
        dims = range(self.nx) if dims is None else dims
        s0 = np.asarray(s0, float)
        s1 = np.asarray(s1, float)
        self.last = None
        self.loose = False
        if not np.all(np.isfinite(s1)):
            return f'non-finite state {s1.tolist()} after a tick from {s0.tolist()}'
        if method == 'Euler':
            want = self.clip(self.euler(dt, s0, u))
            tol = self.tight(dt, s0, want, u, f32state)
            d = np.abs(self.diff(s1, want))
            bad = [i for i in dims if not d[i] <= tol[i]]
            if bad:
                return _msg(bad, s0, dt, u, s1, want, d, tol)
            return None
        pre = self.last = self.rk(dt, s0, u)
        if pre is None:
            return None
        a = self.clip(pre)
        if not np.array_equal(a, pre):
            self.loose = True  # the solver overshot a limit: the reported derivative may belong to the unclipped end state
        tol = self.tight(dt, s0, a, u, f32state)
        if method == 'RK45_JAX':
            tol = tol + 3e-5 * (np.maximum(np.abs(s0), np.abs(a)) + np.abs(self.free(0.0, s0, u)) * dt) + 1e-6
        d = np.abs(self.diff(s1, a))
        bad = [i for i in dims if not d[i] <= tol[i]]
        if not bad:
            return None
        self.loose = True
        b = self.truth(dt, s0, u)
        if b is None:
            return None
        sc = 1e-6 + 1e-3 * np.maximum(np.abs(s0), np.abs(b))
        err = float(np.max(np.abs(self.diff(a, b)) / sc))
        if method == 'RK45_JAX':
            err = max(err, 0.0)
        tol2 = tol + 4 * err * sc
        d2 = np.abs(self.diff(s1, b))
        bad = [i for i in dims if not (d2[i] <= tol2[i] or d[i] <= tol[i])]
        if not bad:
            return None
        # last resort before an alarm: how far does the solver itself scatter under rounding-size perturbations?
        spread = self.scatter(dt, s0, u, a, 1e-7 if self.f32 or f32state or self.usingle else 1e-9)
        bad = [i for i in bad if not (d[i] <= tol[i] + 3 * spread[i] or d2[i] <= tol2[i] + 3 * spread[i])]
        if bad:
            return _msg(bad, s0, dt, u, s1, b, d2, tol2)
        return None

    def scatter(self, dt, s0, u, a, size):
        """largest deviation of the reference solver under small perturbations of state, command and limits

        Step-size control is discontinuous where limits switch on and off, so one rounding error can move the
        result by the solver's whole tolerance; this measures by how much on this very tick.
        """
        rng = np.random.RandomState(7)
        spread = np.zeros(self.nx)
        keep = self.smin, self.smax, self.dmin, self.dmax
        try:
            for k in range(24):
                h = size * (1e-6, 1e-3, 1.0)[k % 3]
                e = lambda n: 1 + h * rng.uniform(-1, 1, n)  # noqa: E731
                self.smin, self.smax, self.dmin, self.dmax = [v * e(self.nx) for v in keep]
                noisy = lambda t, x, v: self.dot(t, x, v) * e(self.nx)  # noqa: E731
                c = self.rk(dt, np.clip(s0 * e(self.nx) + h * 1e-3 * rng.uniform(-1, 1, self.nx), self.smin, self.smax), u * e(self.nu), noisy)
                if c is not None:
                    spread = np.maximum(spread, np.abs(self.diff(self.clip(c), a)))
        finally:
            self.smin, self.smax, self.dmin, self.dmax = keep
        return spread

    def check_dot(self, dt, s1, u, dot1, dims=None):
        """None if the reported derivative is the one at the end of the tick.

        Only meaningful when the preceding check() did not set self.loose.
        """
        dims = range(self.nx) if dims is None else dims
        s1 = np.asarray(s1, float)
        places = [s1]
        first = None
        oks = set()
        for s in places:
            f = self.free(dt, s, u)
            c = self.dot(dt, s, u)
            tol = 1e-9 * (1e-3 + np.abs(f)) + (4e-7 * (np.abs(f) + self._couple(s, s)) if self.f32 else 0)
            tol = tol + self.usens(s, u)
            tol = tol + 1e-9 * self.groups.get('dotscale', lambda a: 0.0)(np.abs(s))
            for i in dims:
                near = s[i] <= self.smin[i] + 1e-6 * (1 + abs(self.smin[i])) or s[i] >= self.smax[i] - 1e-6 * (1 + abs(self.smax[i]))
                if abs(dot1[i] - c[i]) <= tol[i] or (near and (abs(dot1[i] - f[i]) <= tol[i] or dot1[i] == 0.0)):
                    oks.add(i)
                elif first is None:
                    first = (i, c[i])
        bad = [i for i in dims if i not in oks]
        if bad:
            i = bad[0]
            return f'derivative element {i} reported {float(dot1[i])!r}, expected {self.dot(dt, s1, u)[i]!r} at state {s1.tolist()} control {u.tolist()}'
        return None


def _event(i, bound, direction):

    def ev(_t, x):
        return x[i] - bound

    ev.terminal = True
    ev.direction = direction
    return ev


def _msg(bad, s0, dt, u, s1, want, d, tol):
    i = bad[0]
    return (f'element {i}: {float(s1[i])!r} expected {float(want[i])!r} (off by {float(d[i]):.3e}, allowed {float(tol[i]):.1e}) '
            f'after {dt!r} s from {np.asarray(s0).tolist()} with control {np.asarray(u).tolist()}')


# ---------------------------------------------------------------------------------------------------------------------
# Bodies


def cwh_acc(n, x, z, vx, vy):
    return 3 * n * n * x + 2 * n * vy, -2 * n * vx, -n * n * z


def ref_cwh(p):
    m, n = p.get('m', 12.0), p.get('n', 0.001027)

    def rhs(_t, s, u):
        x, _y, z, vx, vy, vz = s
        ax, ay, az = cwh_acc(n, x, z, vx, vy)
        return np.array([vx, vy, vz, ax + u[0] / m, ay + u[1] / m, az + u[2] / m])

    return Ref(6, 3, rhs, ['thrust_x', 'thrust_y', 'thrust_z'], -1, 1, groups={'pos': [0, 1, 2, 3, 4, 5]})


def ref_rot2d(p):
    m, n, inertia = p.get('m', 12.0), p.get('n', 0.001027), p.get('inertia', 0.0573)
    wheel = p.get('inertia_wheel', 4.1e-5)
    acc = min(p.get('ang_acc_limit', 0.017453), wheel * p.get('acc_limit_wheel', 181.3) / inertia)
    vel = min(p.get('ang_vel_limit', 0.034907), wheel * p.get('vel_limit_wheel', 576) / inertia)

    def rhs(_t, s, u):
        x, _y, th, vx, vy, w = s
        ax, ay, _ = cwh_acc(n, x, 0.0, vx, vy)
        c, k = math.cos(th), math.sin(th)
        return np.array([vx, vy, w, ax + (c * u[0] - k * u[1]) / m, ay + (k * u[0] + c * u[1]) / m, u[2] / inertia])

    def scale(a):  # position and velocity are rounded to single precision inside the derivative
        out = np.zeros(6)
        out[3] = 3 * n * n * a[0] + 2 * n * a[4]
        out[4] = 2 * n * a[3]
        return out

    r = Ref(6, 3, rhs, ['thrust_x', 'thrust_y', 'moment_z'], [-1, -1, -acc * inertia], [1, 1, acc * inertia],
            [-INF] * 5 + [-vel], [INF] * 5 + [vel], [-INF, -INF, -vel, -INF, -INF, -acc], [INF, INF, vel, INF, INF, acc],
            wrap=[None, None, 0.0, None, None, None], f32=True, groups={'pos': [0, 1, 3, 4], 'att': [2, 5], 'scale': scale})
    return r


def ref_sixdof(p):
    m, n = p.get('m', 12.0), p.get('n', 0.001027)
    ii = p.get('inertia', [0.0573] * 3)
    wheel = p.get('inertia_wheel', 4.1e-5)
    body = p.get('body_frame_thrust', True)
    al = np.broadcast_to(np.asarray(p.get('ang_acc_limit', 0.017453), float), (3, ))
    vl = np.broadcast_to(np.asarray(p.get('ang_vel_limit', 0.034907), float), (3, ))
    acc = np.array([min(al[i], wheel * p.get('acc_limit_wheel', 181.3) / ii[i]) for i in range(3)])
    vel = np.array([min(vl[i], wheel * p.get('vel_limit_wheel', 576) / ii[i]) for i in range(3)])
    th = p.get('thrust_control_limit', 1.0)

    def rhs(_t, s, u):
        x, _y, z, q1, q2, q3, q4, vx, vy, vz, wx, wy, wz = s
        ax, ay, az = cwh_acc(n, x, z, vx, vy)
        f = u[:3]
        if body:
            # rotate body vector to Hill frame: homogeneous (not normalised) rotation matrix of the quaternion
            r = np.array([
                [q4 * q4 + q1 * q1 - q2 * q2 - q3 * q3, 2 * (q1 * q2 - q4 * q3), 2 * (q1 * q3 + q4 * q2)],
                [2 * (q1 * q2 + q4 * q3), q4 * q4 - q1 * q1 + q2 * q2 - q3 * q3, 2 * (q2 * q3 - q4 * q1)],
                [2 * (q1 * q3 - q4 * q2), 2 * (q2 * q3 + q4 * q1), q4 * q4 - q1 * q1 - q2 * q2 + q3 * q3],
            ])
            f = r @ f
        # quaternion kinematics: qdot = q * (w, 0) / 2 (body rates)
        qd = 0.5 * np.array([
            q4 * wx + q2 * wz - q3 * wy,
            q4 * wy + q3 * wx - q1 * wz,
            q4 * wz + q1 * wy - q2 * wx,
            -(q1 * wx + q2 * wy + q3 * wz),
        ])
        w = np.array([wx, wy, wz])
        iw = np.array(ii) * w
        wd = (u[3:6] - np.cross(w, iw)) / np.array(ii)
        return np.concatenate([[vx, vy, vz], qd, [ax + f[0] / m, ay + f[1] / m, az + f[2] / m], wd])

    def scale(a):
        out = np.zeros(13)
        out[7] = 3 * n * n * a[0] + 2 * n * a[8]
        out[8] = 2 * n * a[7]
        out[9] = n * n * a[2]
        out[3:7] = 0.5 * (a[10] + a[11] + a[12])
        out[10] = abs(ii[1] - ii[2]) / ii[0] * a[11] * a[12]
        out[11] = abs(ii[2] - ii[0]) / ii[1] * a[10] * a[12]
        out[12] = abs(ii[0] - ii[1]) / ii[2] * a[10] * a[11]
        return out

    lim = np.concatenate([[th] * 3, acc * np.array(ii)])
    return Ref(13, 6, rhs, ['thrust_x', 'thrust_y', 'thrust_z', 'moment_x', 'moment_y', 'moment_z'], -lim, lim,
               np.concatenate([[-INF] * 10, -vel]), np.concatenate([[INF] * 10, vel]), f32=True,
               groups={'pos': [0, 1, 2, 7, 8, 9], 'att': [3, 4, 5, 6, 10, 11, 12], 'scale': scale})


def ref_sun(p):
    n = p.get('n', 0.001027)
    return Ref(1, 0, lambda _t, _s, _u: np.array([n]), None, groups={'pos': [0]})


def ref_dub2(p):

    def rhs(_t, s, u):
        _x, _y, h, v = s
        return np.array([v * math.cos(h), v * math.sin(h), u[0], u[1]])

    return Ref(4, 2, rhs, ['heading_rate', 'acceleration'],
               [p.get('heading_rate_control_min', -0.174533), p.get('acceleration_control_min', -96.5)],
               [p.get('heading_rate_control_max', 0.174533), p.get('acceleration_control_max', 96.5)],
               [-INF, -INF, -INF, p.get('v_min', 200)], [INF, INF, INF, p.get('v_max', 400)], wrap=[None, None, 0.0, None],
               groups={'dotscale': lambda a: np.array([a[3], a[3], 0, 0]) * (1 + a[2])})


def ref_dub3(p):
    grav = p.get('g', 32.17)

    def rhs(_t, s, u):
        _x, _y, _z, h, g, r, v = s
        return np.array([
            v * math.cos(h) * math.cos(g), v * math.sin(h) * math.cos(g), -v * math.sin(g), grav / v * math.tan(r), u[0], u[1], u[2]
        ])

    r = Ref(7, 3, rhs, ['gamma_rate', 'roll_rate', 'acceleration'],
            [p.get('gamma_rate_control_min', -0.174533), p.get('roll_rate_control_min', -0.087266), p.get('acceleration_control_min', -96.5)],
            [p.get('gamma_rate_control_max', 0.174533), p.get('roll_rate_control_max', 0.087266), p.get('acceleration_control_max', 96.5)],
            [-INF] * 4 + [p.get('gamma_min', -0.349066), p.get('roll_min', -1.047198), p.get('v_min', 200)],
            [INF] * 4 + [p.get('gamma_max', 0.349066), p.get('roll_max', 1.047198), p.get('v_max', 400)],
            wrap=[None, None, None, 0.0, 0.0, 0.0, None],
            groups={'dotscale': lambda a: np.array([a[6], a[6], a[6], 0, 0, 0, 0]) * (1 + a[3] + a[4])})
    r.positive = (6, )
    return r


def ref_integ(d):

    def make(p):
        m, c = p.get('m', 1.0), p.get('damping', 0.0)

        def rhs(_t, s, u):
            v = s[d:]
            return np.concatenate([v, u / m - c * v])

        return Ref(2 * d, d, rhs, ['thrust_x', 'thrust_y', 'thrust_z'][:d], -1, 1)

    return make

def ref_user(p):
    """user-defined models: kinds lin (A,B), aff (state-dependent input matrix), ode (time-dependent within the tick)"""
    kw = dict(cmin=p.get('cmin', -INF), cmax=p.get('cmax', INF), smin=p.get('smin', -INF), smax=p.get('smax', INF),
              dmin=p.get('dmin', -INF), dmax=p.get('dmax', INF), wrap=p.get('wrap'))
    nx, nu = p['nx'], p['nu']
    names = p['names'] if p.get('map', True) else None
    r = Ref(nx, nu, user_rhs(p), names, f32=bool(p.get('use_jax')), mixed=True, **kw)
    if 'cdef' in p:
        r.cdef = np.array(p['cdef'], float)
    return r


def ref_cust(p):
    """a user-defined body on one of the shipped dynamics classes, with limits and wrap centres of the user's own"""
    r = REFS[p['base']](dict(p['bp'], inertia_wheel=1e12))
    if p['base'] in ('dub2', 'dub3'):  # the limits of the shipped aircraft belong to the aircraft, not to its dynamics
        r.smin[:], r.smax[:], r.wrap = -INF, INF, [None] * r.nx
    for a in ('smin', 'smax', 'dmin', 'dmax'):
        if a in p:
            setattr(r, a, np.broadcast_to(np.asarray(p[a], float), (r.nx, )).copy())
    if 'wrap' in p:
        r.wrap = p['wrap']
    r.cnames = p['names'] if p.get('map', True) else None
    r.cmin = np.broadcast_to(np.asarray(p.get('cmin', -INF), float), (r.nu, )).copy()
    r.cmax = np.broadcast_to(np.asarray(p.get('cmax', INF), float), (r.nu, )).copy()
    if 'cdef' in p:
        r.cdef = np.array(p['cdef'], float)
    return r


def user_rhs(p):
    """the right-hand side of a generated user model (shared with the user-model classes the simulator hands to the library)"""
    if p['model'] == 'lin':
        a, b = np.array(p['A'], float), np.array(p['B'], float)
        return lambda _t, s, u: a @ s + b @ u
    if p['model'] == 'aff':
        f, g = aff_f(p), aff_g(p)
        return lambda _t, s, u: f(s) + g(s) @ u
    if p['model'] == 'drift':
        f, g = drift(p)
        return lambda _t, s, u: f(s) + g(s) @ u
    if p['model'] == 'echo':
        return lambda _t, s, u: np.array(u, float)
    return ode_f(p)


def drift(p):
    """a model that hands out its own stored constant arrays at every evaluation"""
    c, d = np.array(p['c']), np.array(p['D'])
    return (lambda s: c), (lambda s: d)


def echo(t, s, u):
    """velocities are the commands: the model returns the very array it was given"""
    return u


def aff_f(p):
    k = p['k']

    def f(s):
        out = np.zeros(p['nx'])
        out[0] = s[1]
        out[1] = -k[0] * np.sin(s[0]) - k[1] * s[1]
        for i in range(2, p['nx']):
            out[i] = -k[2] * s[i] + k[3] * np.cos(s[i - 1])
        return out

    return f


def aff_g(p):
    k = p['k']

    def g(s):
        out = np.zeros((p['nx'], p['nu']))
        out[1, 0] = 1 + k[4] * np.cos(s[0])
        for i in range(2, p['nx']):
            out[i, (i - 1) % p['nu']] = k[5]
        return out

    return g


def ode_f(p):
    k = p['k']

    def f(t, s, u):
        out = np.zeros(p['nx'])
        out[0] = 1.0  # a clock: any tick must advance it by exactly the tick's length
        for i in range(1, p['nx']):
            out[i] = -k[0] * s[i] + k[1] * np.sin(k[2] * t + i) + k[3] * u[(i - 1) % p['nu']] + k[4] * np.tanh(s[i - 1] if i > 1 else 0.0)
        return out

    return f


REFS = {
    'cwh': ref_cwh,
    'rot2d': ref_rot2d,
    'sixdof': ref_sixdof,
    'sun': ref_sun,
    'dub2': ref_dub2,
    'dub3': ref_dub3,
    'int1': ref_integ(1),
    'int2': ref_integ(2),
    'int3': ref_integ(3),
    'user': ref_user,
    'cust': ref_cust,
}


def ref_of(spec):
    return REFS[spec['kind']](spec['params'])
