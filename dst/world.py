"""Worlds of bodies: seeded generation of configurations and histories, and execution against the library."""
import collections
import math
import threading
import warnings

import numpy as np

from . import models

F32 = np.float32
ALL_KINDS = ['cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'user']
CRAFT = ['cwh', 'rot2d', 'sixdof']

FIELDS = {
    'cwh': ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'],
    'rot2d': ['x', 'y', 'theta', 'x_dot', 'y_dot', 'wz'],
    'sixdof': ['x', 'y', 'z', 'q1', 'q2', 'q3', 'q4', 'x_dot', 'y_dot', 'z_dot', 'wx', 'wy', 'wz'],
    'sun': ['theta'],
    'dub2': ['x', 'y', 'heading', 'v'],
    'dub3': ['x', 'y', 'z', 'heading', 'gamma', 'roll', 'v'],
    'int1': ['x', 'xdot'],
    'int2': ['x', 'y', 'xdot', 'ydot'],
    'int3': ['x', 'y', 'z', 'xdot', 'ydot', 'zdot'],
}
DEFAULTS = {k: [0.0] * len(v) for k, v in FIELDS.items()}
DEFAULTS['sixdof'][6] = 1.0  # no attitude given: no rotation
DEFAULTS['dub2'][3] = 200.0
DEFAULTS['dub3'][6] = 200.0


def f32(x):
    return float(F32(x))


def pick(rng, *opts):
    return opts[rng.randrange(len(opts))]


def logu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


# ---------------------------------------------------------------------------------------------------------------------
# configurations


def gen_params(rng, kind, profile):
    """constructor parameters (only those given explicitly) of a body of this kind"""
    p = {}
    custom = rng.random() < 0.75

    def opt(name, value, prob=0.5):
        if custom and rng.random() < prob:
            p[name] = value

    if kind in CRAFT:
        opt('m', logu(rng, 0.5, 500.0))
        opt('n', pick(rng, 0.0, logu(rng, 1e-4, 5e-3), 0.001027, logu(rng, 5e-3, 5e-2)))
    if kind == 'sun':
        opt('n', pick(rng, 0.0, logu(rng, 1e-4, 5e-2), -logu(rng, 1e-4, 5e-2)), 0.7)
    if kind == 'rot2d':
        opt('inertia', logu(rng, 1e-3, 50.0))
        opt('ang_acc_limit', logu(rng, 1e-3, 1.0))
        opt('ang_vel_limit', logu(rng, 5e-3, 1.0))
        opt('inertia_wheel', logu(rng, 1e-5, 1e-2))
        opt('acc_limit_wheel', logu(rng, 5.0, 500.0))
        opt('vel_limit_wheel', logu(rng, 20.0, 2000.0))
    if kind == 'sixdof':
        if custom and rng.random() < 0.7:
            base = logu(rng, 0.01, 10.0)
            p['inertia'] = [base * rng.uniform(0.5, 2.5) for _ in range(3)]
            p['inertia_type'] = pick(rng, 'array', 'matrix')
        for nm, lo, hi in (('ang_acc_limit', 1e-3, 1.0), ('ang_vel_limit', 5e-3, 1.0)):
            if custom and rng.random() < 0.6:
                form = rng.random()
                if form < 0.4:
                    p[nm] = logu(rng, lo, hi)
                else:
                    p[nm] = [logu(rng, lo, hi) for _ in range(3)]
                    p[nm + '_type'] = 'array' if form < 0.7 else 'list'
        opt('inertia_wheel', pick(rng, logu(rng, 1e-4, 1e-1), logu(rng, 1e-4, 1e-1), logu(rng, 1e-2, 20.0)))
        opt('acc_limit_wheel', logu(rng, 5.0, 500.0))
        opt('vel_limit_wheel', logu(rng, 20.0, 2000.0))
        opt('thrust_control_limit', logu(rng, 0.1, 20.0))
        opt('body_frame_thrust', rng.random() < 0.5)
    if kind in ('dub2', 'dub3'):
        if custom and rng.random() < 0.6:
            p['v_min'] = f32(rng.uniform(60, 300))
        if custom and rng.random() < 0.6:
            p['v_max'] = f32(p.get('v_min', 200) + rng.uniform(1, 400))
        opt('acceleration_control_min', -rng.uniform(1, 150) if rng.random() < 0.85 else -math.inf)
        opt('acceleration_control_max', rng.uniform(1, 150) if rng.random() < 0.85 else math.inf)
    if kind == 'dub2':
        opt('heading_rate_control_min', -rng.uniform(0.02, 1.5))
        opt('heading_rate_control_max', rng.uniform(0.02, 1.5))
    if kind == 'dub3':
        opt('gamma_min', f32(-rng.uniform(0.05, 1.2)))
        opt('gamma_max', f32(rng.uniform(0.05, 1.2)))
        opt('roll_min', f32(-rng.uniform(0.1, 1.35)))
        opt('roll_max', f32(rng.uniform(0.1, 1.35)))
        opt('gamma_rate_control_min', -rng.uniform(0.02, 0.6))
        opt('gamma_rate_control_max', rng.uniform(0.02, 0.6))
        opt('roll_rate_control_min', -rng.uniform(0.02, 0.6))
        opt('roll_rate_control_max', rng.uniform(0.02, 0.6))
        # float32-stored defaults
    if kind in ('int1', 'int2', 'int3'):
        opt('m', logu(rng, 0.1, 50.0), 0.7)
        opt('damping', pick(rng, 0.0, logu(rng, 1e-3, 3.0), 1, 2), 0.7)
    if kind == 'user':
        p = gen_user(rng, profile)
    if kind == 'cust':
        p = gen_cust(rng)
    if kind == 'dub3':
        # documented defaults are stored in single precision; name them so that the model uses the same numbers
        for k, d in (('gamma_min', -0.349066), ('gamma_max', 0.349066), ('roll_min', -1.047198), ('roll_max', 1.047198)):
            if k not in p:
                p['_' + k] = f32(d)
    return p


def gen_user(rng, profile=None):
    model = pick(rng, 'lin', 'aff', 'ode', 'lin', 'aff', 'ode', 'lin', 'aff', 'ode', 'drift', 'echo')
    nx = rng.randrange(2, 6)
    nu = rng.randrange(1, 4)
    r = rng.random()
    if r < 0.1:  # large models
        nx, nu = rng.randrange(6, 13), rng.randrange(1, 7)
    elif r < 0.14 and model in ('lin', 'echo'):
        nx = 1
    if model == 'echo':
        nu = nx
    p = {'model': model, 'nx': nx, 'nu': nu, 'map': rng.random() < 0.8}
    if model == 'lin':
        sc = logu(rng, 0.05, 1.5)
        p['A'] = [[round(rng.uniform(-sc, sc), 4) if rng.random() < 0.7 else 0.0 for _ in range(nx)] for _ in range(nx)]
        for i in range(nx):
            p['A'][i][i] -= sc
        p['B'] = [[round(rng.uniform(-2, 2), 4) if rng.random() < 0.7 else 0.0 for _ in range(nu)] for _ in range(nx)]
    else:
        p['k'] = [round(rng.uniform(0.05, 1.5), 4) for _ in range(6)]
        if model == 'ode':
            p['k'][2] = round(rng.uniform(0.5, 4.0), 3)
        if model == 'drift':
            num = (lambda: rng.randrange(-1, 2)) if rng.random() < 0.4 else (lambda: round(rng.uniform(-1.5, 1.5), 4))
            p['c'] = [num() for _ in range(nx)]
            p['D'] = [[num() for _ in range(nu)] for _ in range(nx)]
            p['k'].append(5.0)
    lo, hi = rng.uniform(0.2, 5), rng.uniform(0.2, 5)
    f = rng.random()
    if f < 0.6:
        p['cmin'], p['cmax'] = [-rng.uniform(0.2, 5) for _ in range(nu)], [rng.uniform(0.2, 5) for _ in range(nu)]
    elif f < 0.75:
        p['cmin'], p['cmax'] = -lo, hi
    elif f < 0.85:
        if rng.random() < 0.5:
            p['cmin'] = [-rng.uniform(0.2, 3) for _ in range(nu)]
        else:
            p['cmax'] = [rng.uniform(0.2, 3) for _ in range(nu)]
    for nm, out in (('cmin', -math.inf), ('cmax', math.inf)):  # channels without a limit beside channels with one
        if isinstance(p.get(nm), list) and rng.random() < 0.3:
            for i in range(nu):
                if rng.random() < 0.5:
                    p[nm][i] = out
    if p['map']:
        p['names'] = [f'c{i}' for i in range(nu)]
        rng.shuffle(p['names'])
    if rng.random() < 0.3:
        p['cdef'] = [round(rng.uniform(-0.19, 0.19), 3) for _ in range(nu)]
    first = 1 if model == 'ode' else 0
    if rng.random() < 0.6:  # state limits
        if rng.random() < 0.3 and model != 'ode':
            p['smin'], p['smax'] = -rng.uniform(1, 6), rng.uniform(1, 6)
        else:
            p['smin'] = [-math.inf if i < first or rng.random() < 0.4 else -rng.uniform(0.3, 4) for i in range(nx)]
            p['smax'] = [math.inf if i < first or rng.random() < 0.4 else rng.uniform(0.3, 4) for i in range(nx)]
    if rng.random() < 0.5:  # derivative limits
        if rng.random() < 0.4 and model != 'ode':
            p['dmin'], p['dmax'] = -rng.uniform(0.5, 3), rng.uniform(0.5, 3)
        else:
            p['dmin'] = [-math.inf if i < first or rng.random() < 0.5 else -rng.uniform(0.1, 2) for i in range(nx)]
            p['dmax'] = [math.inf if i < first or rng.random() < 0.5 else rng.uniform(0.1, 2) for i in range(nx)]
    if rng.random() < 0.6:
        wr = [None] * nx
        for i in range(first, nx):
            lim = 'smin' in p and (not isinstance(p['smin'], list) or math.isfinite(p['smin'][i]) or math.isfinite(p['smax'][i]))
            if rng.random() < 0.5 and not lim:
                wr[i] = pick(rng, 0.0, math.pi, math.pi / 2, -1.0, rng.uniform(-7, 7))
        if model == 'aff':  # keep the model 2pi-periodic in wrapped elements
            wr = [wr[0]] + [None] * (nx - 1)
        elif model != 'aff':
            # a wrapped element must not feed back, or wrapping would (legitimately) change the motion between ticks
            for i in range(nx):
                if wr[i] is not None:
                    if model == 'lin':
                        for r in range(nx):
                            p['A'][r][i] = 0.0
                    elif model == 'ode' and (i + 1 < nx or p['k'][0] != 0.0):
                        wr[i] = None
        if any(w is not None for w in wr):
            p['wrap'] = wr
    return p


def gen_cust(rng):
    """a user's own body on a shipped dynamics class, configured with limits the shipped body does not offer"""
    base = pick(rng, 'cwh', 'rot2d', 'sixdof', 'sun', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'rot2d', 'sixdof', 'dub3')
    full = gen_params(rng, base, {})
    own = {'cwh': ('m', 'n'), 'rot2d': ('m', 'n', 'inertia', 'ang_acc_limit', 'ang_vel_limit'), 'sun': ('n', ), 'dub2': (), 'dub3': (),
           'sixdof': ('m', 'n', 'inertia', 'inertia_type', 'ang_vel_limit', 'ang_vel_limit_type', 'ang_acc_limit', 'ang_acc_limit_type', 'body_frame_thrust')}.get(base, ('m', 'damping'))
    bp = {k: v for k, v in full.items() if k in own}
    if base == 'dub3' and rng.random() < 0.6:
        bp['g'] = pick(rng, 9.80665, logu(rng, 1.0, 60.0))
    p = {'base': base, 'bp': bp, 'map': rng.random() < 0.7}
    r = models.REFS['cust'](dict(p, names=None))
    nx, nu = r.nx, r.nu
    p['nx'], p['nu'] = nx, nu
    if p['map']:
        p['names'] = [f'c{i}' for i in range(nu)]
        rng.shuffle(p['names'])
    size = {'dub2': (0.5, 80.0), 'dub3': (0.3, 0.3, 80.0)}.get(base) or (pick(rng, 0.3, 1.0, 5.0), ) * 3 + (pick(rng, 1e-3, 0.01, 0.1), ) * 3
    if base == 'rot2d':
        size = size[:2] + (pick(rng, 1e-3, 0.01, 0.1), )
    if rng.random() < 0.8:
        p['cmin'], p['cmax'] = [-size[i] * rng.uniform(0.3, 1) for i in range(nu)], [size[i] * rng.uniform(0.3, 1) for i in range(nu)]
    else:
        p['cmin'], p['cmax'] = -min(size), min(size)
    if rng.random() < 0.3:
        p['cdef'] = [0.29 * rng.uniform(-1, 1) * min(size) for i in range(nu)]
    names = FIELDS[base]
    free = [i for i in range(nx) if names[i][0] != 'q']
    turn = [i for i in range(nx) if names[i] in ('theta', 'heading', 'gamma', 'roll')]
    box = {}
    p['_reach'] = reach = pick(rng, 10.0, 100.0, 1000.0, 3e4)
    for i in free:
        nme = names[i]
        if nme in ('x', 'y', 'z'):
            box[i] = (reach, )
        elif nme == 'v':
            box[i] = (pick(rng, 60.0, 150.0, 300.0), pick(rng, 310.0, 500.0, 900.0))
        elif nme in ('theta', 'heading'):
            box[i] = (2.0, )
        elif nme in ('gamma', 'roll'):
            box[i] = (1.2, )
        elif nme in ('wx', 'wy', 'wz'):
            box[i] = (pick(rng, 0.01, 0.1, 0.5), )
        else:
            box[i] = (reach * pick(rng, 0.003, 0.03), )
    forced = {i for i in free if (base == 'dub3' and names[i] in ('roll', 'v')) or (base == 'sixdof' and names[i][0] == 'w')}
    if base == 'sixdof' and rng.random() < 0.35:  # the limits that follow from ang_vel_limit
        forced = set()
    elif forced or rng.random() < 0.65:
        lo, hi = [-math.inf] * nx, [math.inf] * nx
        for i in free:
            if i in forced or rng.random() < 0.4:
                b = box[i]
                lo[i], hi[i] = (b[0], b[1]) if len(b) == 2 else (-b[0] * rng.uniform(0.2, 1), b[0] * rng.uniform(0.2, 1))
                lo[i], hi[i] = f32(lo[i]), f32(hi[i])
                if i not in forced and rng.random() < 0.2:
                    if rng.random() < 0.5:
                        lo[i] = -math.inf
                    else:
                        hi[i] = math.inf
        if rng.random() < 0.12 and not forced:
            lo, hi = f32(-reach * rng.uniform(0.5, 1)), f32(reach * rng.uniform(0.5, 1))
        elif rng.random() < 0.25 and base == 'sixdof':
            forced = set()
            p['_reach'] = reach = 1.0
            lo, hi = f32(-rng.uniform(1.05, 4.0)), f32(rng.uniform(1.05, 4.0))
        if forced or rng.random() < 0.8:
            p['smin'], p['smax'] = lo, hi
        elif rng.random() < 0.5:
            p['smin'] = lo
        else:
            p['smax'] = hi
    if rng.random() < 0.5:
        lo, hi = [-math.inf] * nx, [math.inf] * nx
        for i in free:
            if rng.random() < 0.5:
                s = {'dub2': 300.0, 'dub3': 300.0}.get(base, reach * 0.01) * logu(rng, 0.03, 1.0)
                if names[i] in ('heading', 'theta', 'gamma', 'roll'):
                    s = logu(rng, 0.005, 0.2)
                lo[i], hi[i] = -s * rng.uniform(0.3, 1), s * rng.uniform(0.3, 1)
        if rng.random() < 0.15:
            s = reach * 0.01
            lo, hi = -s * rng.uniform(0.3, 1), s * rng.uniform(0.3, 1)
        p['dmin'], p['dmax'] = lo, hi
        if rng.random() < 0.15:
            del p[pick(rng, 'dmin', 'dmax')]
    if turn and rng.random() < 0.6:
        r = models.REFS['cust'](p)
        wr = [None] * nx
        for i in turn:
            if not math.isfinite(r.smin[i]) and not math.isfinite(r.smax[i]) and rng.random() < 0.8:
                wr[i] = pick(rng, 0.0, 0.0, math.pi, -math.pi / 2, rng.uniform(-7, 7))
        p['wrap'] = wr
    elif base == 'rot2d' and 'smin' in p:  # keep the default wrap away from limits on the same angle
        r = models.REFS['cust'](p)
        if math.isfinite(r.smin[2]) or math.isfinite(r.smax[2]):
            p['wrap'] = [None] * nx
    if base == 'rot2d' and 'smax' in p and 'wrap' not in p and math.isfinite(models.REFS['cust'](p).smax[2]):
        p['wrap'] = [None] * nx
    return p


def gen_cust_state(rng, p, ref):
    names = FIELDS[p['base']]
    q = rand_quat(rng)
    s = []
    reach = p.get('reach', p.get('_reach', 100.0))
    for i, nme in enumerate(names):
        if nme[0] == 'q':
            s.append(q[int(nme[1]) - 1])
            continue
        w = {'x': reach, 'y': reach, 'z': reach, 'theta': 3.1, 'heading': 3.1, 'gamma': 1.0, 'roll': 1.0, 'wx': 0.05, 'wy': 0.05, 'wz': 0.05}.get(nme, 0.01 * reach)
        c = 0.0
        if nme == 'v':
            c, w = 200.0, 100.0
        if ref.wrap[i] is not None:
            c, w = ref.wrap[i], 3.13
        lo, hi = max(ref.smin[i], c - w), min(ref.smax[i], c + w)
        if lo > hi:
            lo = hi = ref.smin[i] if math.isfinite(ref.smin[i]) else ref.smax[i]
        x = rng.uniform(lo, hi)
        if rng.random() < 0.15:
            x = pick(rng, lo, hi)
        s.append(inward32(x, lo, hi))
    return {'s': s}


def gen_init(rng, kind, p):
    """initial field values (float32-representable, since bodies spawn in single precision)"""
    ref = models.REFS[kind](norm_params(kind, p))
    names = FIELDS.get(kind)
    if kind == 'user':
        return gen_user_state(rng, p, ref)
    if kind == 'cust':
        return gen_cust_state(rng, p, ref)
    v = {}
    scale = pick(rng, 1.0, 100.0, 100.0, 3000.0, 30000.0, 3e6)
    quiet = logu(rng, 1e-7, 1e-2) if rng.random() < 0.1 else None  # a body that hardly moves
    for i, nme in enumerate(names):
        if rng.random() < 0.1 and kind != 'sixdof':
            continue  # documented default
        if nme in ('x', 'y', 'z'):
            val = rng.uniform(-scale, scale) * (quiet or 1.0)
        elif nme in ('x_dot', 'y_dot', 'z_dot', 'xdot', 'ydot', 'zdot'):
            val = rng.uniform(-1, 1) * pick(rng, 0.1, 2.0, 30.0, 30.0, 5000.0) * (quiet or 1.0)
        elif nme in ('theta', 'heading'):
            val = pick(rng, rng.uniform(-3.14, 3.14), rng.uniform(-3.14, 3.14), 3.14159, -3.14159, 0.0, rng.uniform(3.0, 3.1415), -rng.uniform(3.0, 3.1415))
        elif nme in ('wx', 'wy', 'wz', 'gamma', 'roll', 'v'):
            lo, hi = ref.smin[i], ref.smax[i]
            val = pick(rng, rng.uniform(lo, hi), rng.uniform(lo, hi), lo, hi, lo + 0.01 * (hi - lo), hi - 0.01 * (hi - lo),
                       min(max(0.0, lo), hi))
            if quiet and nme != 'v':
                val = min(max(quiet * rng.uniform(-1, 1), lo), hi)
            val = inward32(val, lo, hi)
        else:
            continue
        v[nme] = f32(val)
    if kind == 'sixdof':
        q = rand_quat(rng)
        if rng.random() < 0.9:
            v.update(q1=q[0], q2=q[1], q3=q[2], q4=q[3])
    if kind in ('dub2', 'dub3') and not ref.smin[-1] <= v.get('v', 200.0) <= ref.smax[-1]:
        v['v'] = f32(inward32(ref.smin[-1], ref.smin[-1], ref.smax[-1]))
    return v


def inward32(val, lo, hi):
    x = F32(val)
    if float(x) > hi:
        x = np.nextafter(x, F32(-np.inf))
    if float(x) < lo:
        x = np.nextafter(x, F32(np.inf))
    return float(x)


def rand_quat(rng):
    c = rng.random()
    if c < 0.1:
        return [0.0, 0.0, 0.0, 1.0]
    if c < 0.2:
        return pick(rng, [1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, -1.0])
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    return [f32(a) for a in q]


def gen_user_state(rng, p, ref):
    s = []
    for i in range(p['nx']):
        lo, hi = max(ref.smin[i], -4.0), min(ref.smax[i], 4.0)
        if p.get('wrap') and p['wrap'][i] is not None:
            c = p['wrap'][i]
            lo, hi = c - 3.14, c + 3.14
        x = rng.uniform(lo, hi)
        if rng.random() < 0.15:
            x = pick(rng, lo, hi)
        s.append(inward32(x, lo, hi))
    if p['model'] == 'ode':
        s[0] = 0.0
    return {'s': s}


def norm_params(kind, p):
    q = {}
    for k, v in p.items():
        q[k.lstrip('_')] = v
    return q


def gen_spec(rng, kind, name, methods=('RK45', ), profile=None, samples=0.3):
    p = gen_params(rng, kind, profile or {})
    spec = {'kind': kind, 'name': name, 'params': p, 'init': gen_init(rng, kind, p), 'method': pick(rng, *methods)}
    if spec['method'] == 'RK45' and rng.random() < samples and kind != 'sun':
        spec['samples'] = pick(rng, 1, 2, 3, 5, 10) if rng.random() < 0.93 else pick(rng, 40, 200, 1500)
    return spec


def accelerate(rng, spec, p):
    """give a body the JAX backend (and perhaps the JAX solver), where it supports them"""
    if spec['kind'] in ('rot2d', 'sun', 'user') and rng.random() < p:
        spec['use_jax'] = True
        if spec['method'] == 'RK45' and not spec.get('samples') and rng.random() < 0.6:
            spec['method'] = 'RK45_JAX'
    return spec


def ref_of(spec):
    return models.REFS[spec['kind']](norm_params(spec['kind'], spec['params']))


def init_state(spec):
    if spec['kind'] in ('user', 'cust'):
        return np.array(spec['init']['s'], float)
    return np.array([spec['init'].get(f, d) for f, d in zip(FIELDS[spec['kind']], DEFAULTS[spec['kind']])], float)


# ---------------------------------------------------------------------------------------------------------------------
# building real bodies


def make_user(ns, spec, hook=None, dyn=None):
    """a user model built on the library's base classes, as a downstream user would write it"""
    p = norm_params('user', spec['params'])
    base = ns.base
    jaxy = bool(spec.get('use_jax'))
    eqs = models
    if jaxy:
        from . import jaxmodels as eqs
    kw = {}
    for a, b in (('smin', 'state_min'), ('smax', 'state_max'), ('dmin', 'state_dot_min'), ('dmax', 'state_dot_max')):
        if a in p:
            kw[b] = np.array(p[a], float) if isinstance(p[a], list) else float(p[a])
    if p.get('wrap'):
        kw['angle_wrap_centers'] = np.array(p['wrap'], dtype=float)
    if jaxy:
        kw['use_jax'] = True
    if spec.get('samples'):
        kw['trajectory_samples'] = spec['samples']
    kw['integration_method'] = spec['method']

    if dyn is not None:  # a body built on a dynamics object that other bodies use as well
        given = []
    elif spec['kind'] == 'cust':
        dyn = shipped(ns, p, kw, hook)
        given = []
    elif p['model'] == 'lin':
        mats = (np.array(p['A'], float), np.array(p['B'], float))

        class Dyn(base.BaseLinearODESolverDynamics):

            def _compute_state_dot(self, t, state, control):
                if hook is not None:
                    hook(t)
                return super()._compute_state_dot(t, state, control)

        if hook is None:
            Dyn = base.BaseLinearODESolverDynamics
        dyn = Dyn(A=mats[0], B=mats[1], **kw)
        given = list(mats)
    elif p['model'] in ('aff', 'drift'):
        f, g = (eqs.aff_f(p), eqs.aff_g(p)) if p['model'] == 'aff' else eqs.drift(p)

        class Dyn(base.BaseControlAffineODESolverDynamics):

            def state_transition_system(self, state):
                if hook is not None:
                    hook(None)
                return f(state)

            def state_transition_input(self, state):
                return g(state)

        dyn = Dyn(**kw)
        given = []
    else:
        f = eqs.ode_f(p) if p['model'] == 'ode' else eqs.echo

        class Dyn(base.BaseODESolverDynamics):

            def _compute_state_dot(self, t, state, control):
                out = f(t, state, control)
                if hook is not None:
                    r = hook(t)
                    if r is not None:
                        out = np.array(out)
                        out[r[0]] = r[1]
                return out

        dyn = Dyn(**kw)
        given = []

    st0 = np.array(spec['init']['s'], dtype=np.float32)
    nu = p['nu']
    cdef = np.array(p.get('cdef', [0.0] * nu), float)
    lims = {}
    for a, b in (('cmin', 'control_min'), ('cmax', 'control_max')):
        if a in p:
            lims[b] = np.array(p[a], float) if isinstance(p[a], list) else float(p[a])

    class UserBody(base.BaseEntity):

        def __init__(self, **k):
            super().__init__(dyn, control_default=cdef, control_map={nm: i for i, nm in enumerate(p['names'])} if p.get('map', True) else None,
                             **lims, **k)

        def _build_state(self):
            return st0.copy()

        x = property(lambda self: self._state[0])
        y = property(lambda self: 0)
        z = property(lambda self: 0)
        position = property(lambda self: np.array([self._state[0], 0, 0]))
        velocity = property(lambda self: np.array([self._state[-1], 0, 0]))
        orientation = property(lambda self: None)

    e = UserBody(name=spec['name'])
    e.given_arrays = given + [cdef] + [v for v in list(kw.values()) + list(lims.values()) if isinstance(v, np.ndarray)]
    return e


def shipped(ns, p, kw, hook=None):
    """a shipped dynamics object with a user's parameters and limits"""
    kw = dict(kw)
    for k, v in p['bp'].items():
        if k.endswith('_type'):
            continue
        if k == 'inertia' and p['base'] == 'sixdof':
            kw['inertia_matrix'] = np.matrix(np.diag(v)) if p['bp'].get('inertia_type') == 'matrix' else np.diag(v)
        else:
            kw[k] = np.array(v) if p['bp'].get(k + '_type') == 'array' else v
    if p['base'][:3] == 'int':
        kw['mode'] = p['base'][3] + 'd'
    cls = {
        'cwh': lambda: ns.point.CWHDynamics,
        'rot2d': lambda: ns.rot.CWHRotation2dDynamics,
        'sixdof': lambda: ns.six.SixDOFDynamics,
        'sun': lambda: ns.sun.SunDynamics,
        'dub2': lambda: ns.dub.Dubins2dDynamics,
        'dub3': lambda: ns.dub.Dubins3dDynamics,
    }.get(p['base'], lambda: ns.integ.IntegratorDynamics)()
    return cls(**kw)


def build(ns, spec, sim=None, hook=None, cache=None):
    """construct the real body of a spec in the simulated process ns"""
    kind = spec['kind']
    if kind in ('user', 'cust'):
        return make_user(ns, spec, hook)
    kw = {k: v for k, v in spec['params'].items() if not k.startswith('_') and not k.endswith('_type')}
    kw.update(spec['init'])
    kw['name'] = spec['name']
    kw['integration_method'] = spec['method']
    if spec.get('samples'):
        kw['trajectory_samples'] = spec['samples']
    if spec.get('use_jax'):
        kw['use_jax'] = True
    if kind == 'sixdof':
        if 'inertia' in kw:
            mat = np.diag(kw.pop('inertia'))
            kw['inertia_matrix'] = np.matrix(mat) if spec['params'].get('inertia_type') == 'matrix' else mat
        for nm in ('ang_acc_limit', 'ang_vel_limit'):
            if isinstance(kw.get(nm), list) and spec['params'].get(nm + '_type') == 'array':
                kw[nm] = np.array(kw[nm])
    if cache is not None:  # several bodies configured from the same objects
        import json
        for k, v in list(kw.items()):
            if isinstance(v, (np.ndarray, list)):
                kw[k] = cache.setdefault(k + type(v).__name__ + json.dumps(np.asarray(v).tolist()), v)
    if kind in CRAFT and sim is not None:
        kw['sim'] = sim
    cls = {
        'cwh': lambda: ns.point.CWHSpacecraft,
        'rot2d': lambda: ns.rot.CWHRotation2dSpacecraft,
        'sixdof': lambda: ns.six.SixDOFSpacecraft,
        'sun': lambda: ns.sun.SunEntity,
        'dub2': lambda: ns.dub.Dubins2dAircraft,
        'dub3': lambda: ns.dub.Dubins3dAircraft,
        'int1': lambda: ns.integ.Integrator1d,
        'int2': lambda: ns.integ.Integrator2d,
        'int3': lambda: ns.integ.Integrator3d,
    }[kind]()
    return cls(**kw)


# ---------------------------------------------------------------------------------------------------------------------
# commands


class Pool(threading.local):
    """command buffers a client fills anew for every tick and passes again and again"""

    def __init__(self):
        self.own = {}


POOL = Pool()


class OwnDict(dict):
    pass


class OwnList(list):
    pass


class OwnArray(np.ndarray):
    pass


def real_cmd(cmd, own=False):
    """the Python object a client would pass to step(); own: never one the client passed before"""
    f, v, how = cmd['form'], cmd.get('v'), cmd.get('as')
    if f == 'none':
        return None
    if how == 'reuse' and not own:
        buf = POOL.own.setdefault((f, len(v)), None)
        if buf is None:
            buf = POOL.own[(f, len(v))] = real_cmd({'form': f, 'v': v})
        elif f == 'dict':
            buf.clear()
            buf.update(v)
        else:
            buf[:] = v
        return buf
    if f == 'dict':
        if how == 'sub':
            return OwnDict(v)
        if how == 'ordered':
            return collections.OrderedDict(v)
        if how == 'numpy':
            return {k: np.float64(x) if i % 2 else np.array(x) for i, (k, x) in enumerate(v.items())}
        return dict(v)
    if f == 'list':
        if how == 'sub':
            return OwnList(v)
        if how == 'numpy':
            return [np.float64(x) if i % 2 else np.float32(x) for i, x in enumerate(v)]
        return list(v)
    if f in ('f64', 'f32', 'int'):
        a = np.array(v, dtype={'f64': np.float64, 'f32': np.float32, 'int': np.int64}[f])
        if how == 'frozen':
            a.flags.writeable = False
        elif how == 'strided':
            b = np.full(2 * len(v) + 1, 7, dtype=a.dtype)
            b[1::2] = a
            a = b[1::2]
        elif how == 'reversed':
            a = a[::-1].copy()[::-1]
        elif how == 'swapped':
            a = a.astype(a.dtype.newbyteorder())
        elif how == 'sub':
            a = a.view(OwnArray)
        return a
    if f == 'jnp':
        import jax.numpy as jn
        return jn.array(v)
    raise AssertionError(f)


def gen_cmd(rng, ref, over=0.2, forms=('none', 'dict', 'list', 'f64', 'f32', 'int'), big=1e3):
    form = pick(rng, *forms)
    if ref.nu == 0:
        return {'form': 'none'}
    if form == 'dict' and ref.cnames is None:
        form = 'f64'
    if form == 'none':
        return {'form': 'none'}

    def chan(i):
        lo, hi = ref.cmin[i], ref.cmax[i]
        inf = math.isfinite(lo) and math.isfinite(hi)
        if not math.isfinite(lo):
            lo = -3.0
        if not math.isfinite(hi):
            hi = 3.0
        r = rng.random()
        if r < over:
            span = max(hi - lo, 1e-9)
            if inf and rng.random() < 0.15:
                return pick(rng, math.inf, -math.inf)
            x = pick(rng, hi + span * rng.uniform(0.01, 3), lo - span * rng.uniform(0.01, 3), hi * big if hi > 0 else hi + big, lo * big if lo < 0 else lo - big)
        elif r < over + 0.12:
            x = pick(rng, lo, hi)
            if rng.random() < 0.3:  # a hair inside or outside
                x += pick(rng, -1, 1) * (abs(x) or 1.0) * logu(rng, 1e-15, 1e-3)
        elif r < over + 0.22:
            x = 0.0
        elif r < over + 0.25:  # next to nothing
            x = min(max(pick(rng, -1, 1) * (hi - lo) * logu(rng, 1e-8, 1e-2), lo), hi)
        else:
            x = rng.uniform(lo, hi)
        return x

    how = {}
    if rng.random() < 0.45:
        how['as'] = pick(rng, 'reuse', 'reuse', *{'dict': ('sub', 'ordered', 'numpy'), 'list': ('sub', 'numpy')}.get(form, ('frozen', 'strided', 'reversed', 'swapped', 'sub')))
    if form == 'jnp':
        how = {}
    if form == 'int':
        return {**how, 'form': 'int', 'v': [pick(rng, 0, 0, 1, -1, 2, -3) for _ in range(ref.nu)]}
    if form == 'dict':
        idx = list(range(ref.nu))
        rng.shuffle(idx)
        k = pick(rng, ref.nu, ref.nu, rng.randrange(0, ref.nu + 1))
        return {**how, 'form': 'dict', 'v': {ref.cnames[i]: chan(i) for i in idx[:k]}}
    vals = [chan(i) for i in range(ref.nu)]
    if form in ('f32', 'list'):
        vals = [f32(x) for x in vals]
    return {**how, 'form': form, 'v': vals}


# ---------------------------------------------------------------------------------------------------------------------
# the seeded world scheduler: tick sources with jitter/stalls/bursts, clients behind a faulty channel


def drifts(s):
    """a body slow enough for one tick to span hours"""
    p = s['params']
    if s['method'] != 'RK45':
        return False
    return s['kind'] == 'sun' or s['kind'] == 'cwh' and p.get('n', 0.001027) < 6e-3 or s['kind'] in ('int1', 'int2', 'int3') and p.get('damping', 0) < 0.05


def gen_history(rng, specs, nticks, refs=None, over=0.2, forms=None, dt_scale=None, long_ok=True, assign=0.03, zero=True, endure=0.0):
    """discrete-event simulation of tick sources, command clients and the channel between them -> operation list"""
    refs = refs or [ref_of(s) for s in specs]
    if rng.random() < endure:  # an endurance run
        nticks *= pick(rng, 5, 12)
    import heapq
    ops = []
    heap = []
    seq = 0
    net = {
        'loss': pick(rng, 0.0, 0.05, 0.3),
        'dup': pick(rng, 0.0, 0.05, 0.2),
        'delay': pick(rng, 0.0, 0.3, 2.0),
        'hold': rng.random() < 0.5,
        'part': [],
    }
    tick = {
        'jitter': pick(rng, 0.0, 0.2, 0.9),
        'stall': pick(rng, 0.0, 0.05, 0.15),
        'burst': rng.random() < 0.5,
    }
    period = []
    for b, s in enumerate(specs):
        base = dt_scale or pick(rng, 0.01, 0.1, 0.5, 1.0, 1.0, 5.0)
        if s['kind'] == 'user' or s['method'] == 'Euler':
            base = min(base, 1.0)
        elif s['kind'] in CRAFT and long_ok and rng.random() < 0.15:
            base = pick(rng, 20.0, 60.0)
        if long_ok and dt_scale is None and rng.random() < 0.08 and drifts(s):
            base = logu(rng, 100.0, 4000.0)
        period.append(base)
        heapq.heappush(heap, (base * rng.random(), seq, 'tick', b, None))
        seq += 1
        heapq.heappush(heap, (0.0, seq, 'send', b, None))
        seq += 1
    if rng.random() < 0.4:
        t0 = rng.uniform(0, nticks * min(period))
        net['part'].append((t0, t0 + rng.uniform(1, 10) * max(period)))
    last = [0.0] * len(specs)
    mbox = [None] * len(specs)
    held = [None] * len(specs)
    tags = [[] for _ in specs]
    count = 0
    while heap and count < nticks:
        t, _, what, b, data = heapq.heappop(heap)
        if what == 'send':
            cmd = gen_cmd(rng, refs[b], over, forms or ('none', 'dict', 'list', 'f64', 'f32', 'int'))
            fate = []
            if any(a <= t < z for a, z in net['part']):
                fate = ['partition']
                tags[b].append('partition')
            elif rng.random() < net['loss']:
                tags[b].append('loss')
                fate = ['loss']
            if not fate:
                n = 1
                if rng.random() < net['dup']:
                    n = 2
                for k in range(n):
                    d = rng.expovariate(1.0) * net['delay'] * period[b]
                    heapq.heappush(heap, (t + d, seq, 'recv', b, (cmd, t, k)))
                    seq += 1
            heapq.heappush(heap, (t + period[b] * rng.uniform(0.5, 1.5), seq, 'send', b, None))
            seq += 1
        elif what == 'recv':
            cmd, sent, k = data
            if k:
                tags[b].append('duplicate')
            if mbox[b] is not None and sent < mbox[b][1]:
                tags[b].append('reorder')
            mbox[b] = (cmd, sent)
        else:
            dts = [max(t - last[b], 0.0)]
            if rng.random() < tick['stall']:
                extra = period[b] * rng.uniform(1, 6)
                if tick['burst']:
                    k = rng.randrange(2, 6)
                    dts += [extra / k] * k
                    tags[b].append('burst')
                else:
                    dts[0] += extra
                    tags[b].append('stall')
            if zero and rng.random() < (0.08 if specs[b]['method'] == 'RK45_JAX' else 0.03):
                dts.append(0.0)
                tags[b].append('zero-tick')
            if rng.random() < 0.06:
                dts[0] = float(round(dts[0]))
            for dt in dts:
                if dt <= 0 and not zero:
                    continue
                if mbox[b] is not None:
                    cmd = mbox[b][0]
                    held[b] = cmd
                    mbox[b] = None
                elif held[b] is not None and net['hold']:
                    cmd = held[b]
                else:
                    cmd = {'form': 'none'}
                ops.append(['tick', b, float(dt), cmd, tags[b]])
                tags[b] = []
                count += 1
            last[b] = t + (sum(dts[1:]) if len(dts) > 1 else 0.0)
            if rng.random() < assign:
                ops.append(['assign', b, gen_assign(rng, specs[b], refs[b])])
            nxt = period[b] * (1 + tick['jitter'] * rng.uniform(-1, 1))
            heapq.heappush(heap, (max(t, last[b]) + max(nxt, 1e-6), seq, 'tick', b, None))
            seq += 1
    return ops


def gen_assign(rng, spec, ref):
    """a state vector to assign: within limits, possibly with wrapped angles outside their interval"""
    kind = spec['kind']
    if kind in ('user', 'cust'):
        s = gen_init(rng, kind, norm_params(kind, spec['params']))['s']
        return {'s': s, 'dtype': 'f64'}
    d = dict(zip(FIELDS[kind], DEFAULTS[kind]))
    d.update(gen_init(rng, kind, spec['params']))
    s = [d[f] for f in FIELDS[kind]]
    return {'s': s, 'dtype': pick(rng, 'f64', 'f32')}


def push_out(rng, r, op, by):
    """move one limited element of an assigned state to, or by a fraction of the range beyond, one of its limits"""
    lim = [k for k in range(r.nx) if np.isfinite(r.smin[k]) or np.isfinite(r.smax[k])]
    if lim:
        k = rng.choice(lim)
        side = r.smax[k] if np.isfinite(r.smax[k]) and (rng.random() < 0.5 or not np.isfinite(r.smin[k])) else r.smin[k]
        out = 1 if side == r.smax[k] else -1
        ext = r.smax[k] - r.smin[k]
        ext = ext if np.isfinite(ext) else 1.0
        val = side + out * ext * pick(rng, *by)
        op[2]['s'][k] = max(val, 0.3 * side) if k in r.positive else val
        op[2]['dtype'] = 'f64'


def assign(e, a):
    v = np.array(a['s'], dtype=np.float32 if a['dtype'] == 'f32' else np.float64)
    e.state = v
    return v


# ---------------------------------------------------------------------------------------------------------------------
# executing ticks


class Warned:
    """record warnings without touching the process-wide filters permanently"""

    def __init__(self, action='always'):
        self.action = action

    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.log = self.cm.__enter__()
        warnings.simplefilter(self.action)
        return self

    def __exit__(self, *a):
        return self.cm.__exit__(*a)

    def clip(self):
        return any(not issubclass(w.category, (DeprecationWarning, RuntimeWarning, FutureWarning, PendingDeprecationWarning)) for w in self.log)


class Obs:
    __slots__ = ('s0', 's1', 'dot', 'f32', 'warn', 'exc', 'traj', 'traj_t', 'dot0')


def real_dt(dt):
    """the number a caller passes for this duration: whole seconds often come as an int, others now and then as a numpy scalar"""
    if dt == int(dt) and int(dt) % 2:
        return int(dt)
    return np.float64(dt) if int(dt * 1e6) % 5 == 0 else dt


def tick(e, dt, cmdobj, action='always'):
    """one step() call with everything observable around it"""
    o = Obs()
    raw = e.state
    o.f32 = (np.asarray(raw).dtype == np.float32)
    o.s0 = np.array(raw, dtype=float)
    o.dot0 = np.array(e.state_dot, dtype=float)
    o.exc = None
    with Warned(action) as w:
        try:
            e.step(real_dt(dt), cmdobj)
        except Exception as ex:  # noqa: BLE001
            o.exc = ex
    o.warn = w.clip()
    o.s1 = np.array(e.state, dtype=float)
    o.dot = np.array(e.state_dot, dtype=float)
    tr = getattr(e.dynamics, 'trajectory', None)
    o.traj = None if tr is None else np.array(tr, dtype=float)
    tt = getattr(e.dynamics, 'trajectory_t', None)
    o.traj_t = None if tt is None else np.array(tt, dtype=float)
    return o


def absorb(dig, o):
    """fold an observation into the run digest"""
    dig.update(o.s1.tobytes())
    dig.update(o.dot.tobytes())
    dig.update(b'W' if o.warn else b'-')
    if o.exc is not None:
        dig.update(type(o.exc).__name__.encode())
    if o.traj is not None:
        dig.update(o.traj.tobytes())
