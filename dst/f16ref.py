"""Reference F-16: Stevens & Lewis tables, Morelli polynomials, equations of motion and the LQR law, written independently
(plain piecewise-linear tables extended linearly beyond their edge; nothing is imported from the package)."""
import math

import numpy as np

CX = [
    [-0.099, -0.081, -0.081, -0.063, -0.025, 0.044, 0.097, 0.113, 0.145, 0.167, 0.174, 0.166],
    [-0.048, -0.038, -0.04, -0.021, 0.016, 0.083, 0.127, 0.137, 0.162, 0.177, 0.179, 0.167],
    [-0.022, -0.02, -0.021, -0.004, 0.032, 0.094, 0.128, 0.13, 0.154, 0.161, 0.155, 0.138],
    [-0.04, -0.038, -0.039, -0.025, 0.006, 0.062, 0.087, 0.085, 0.1, 0.11, 0.104, 0.091],
    [-0.083, -0.073, -0.076, -0.072, -0.046, 0.012, 0.024, 0.025, 0.043, 0.053, 0.047, 0.04],
]
CZ = [
    0.77, 0.241, -0.1, -0.415, -0.731, -1.053, -1.355, -1.646, -1.917, -2.12, -2.248, -2.229
]
CL = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [-0.001, -0.004, -0.008, -0.012, -0.016, -0.022, -0.022, -0.021, -0.015, -0.008, -0.013, -0.015],
    [-0.003, -0.009, -0.017, -0.024, -0.03, -0.041, -0.045, -0.04, -0.016, -0.002, -0.01, -0.019],
    [-0.001, -0.01, -0.02, -0.03, -0.039, -0.054, -0.057, -0.054, -0.023, -0.006, -0.014, -0.027],
    [0.0, -0.01, -0.022, -0.034, -0.047, -0.06, -0.069, -0.067, -0.033, -0.036, -0.035, -0.035],
    [0.007, -0.01, -0.023, -0.034, -0.049, -0.063, -0.081, -0.079, -0.06, -0.058, -0.062, -0.059],
    [0.009, -0.011, -0.023, -0.037, -0.05, -0.068, -0.089, -0.088, -0.091, -0.076, -0.077, -0.076],
]
CM = [
    [0.205, 0.168, 0.186, 0.196, 0.213, 0.251, 0.245, 0.238, 0.252, 0.231, 0.198, 0.192],
    [0.081, 0.077, 0.107, 0.11, 0.11, 0.141, 0.127, 0.119, 0.133, 0.108, 0.081, 0.093],
    [-0.046, -0.02, -0.009, -0.005, -0.006, 0.01, 0.006, -0.001, 0.014, 0.0, -0.013, 0.032],
    [-0.174, -0.145, -0.121, -0.127, -0.129, -0.102, -0.097, -0.113, -0.087, -0.084, -0.069, -0.006],
    [-0.259, -0.202, -0.184, -0.193, -0.199, -0.15, -0.16, -0.167, -0.104, -0.076, -0.041, -0.005],
]
CN = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0.018, 0.019, 0.018, 0.019, 0.019, 0.018, 0.013, 0.007, 0.004, -0.014, -0.017, -0.033],
    [0.038, 0.042, 0.042, 0.042, 0.043, 0.039, 0.03, 0.017, 0.004, -0.035, -0.047, -0.057],
    [0.056, 0.057, 0.059, 0.058, 0.058, 0.053, 0.032, 0.012, 0.002, -0.046, -0.071, -0.073],
    [0.064, 0.077, 0.076, 0.074, 0.073, 0.057, 0.029, 0.007, 0.012, -0.034, -0.065, -0.041],
    [0.074, 0.086, 0.093, 0.089, 0.08, 0.062, 0.049, 0.022, 0.028, -0.012, -0.002, -0.013],
    [0.079, 0.09, 0.106, 0.106, 0.096, 0.08, 0.068, 0.03, 0.064, 0.015, 0.011, -0.001],
]
DAMPP = [
    [-0.267, -0.11, 0.308, 1.34, 2.08, 2.91, 2.76, 2.05, 1.5, 1.49, 1.83, 1.21],
    [0.882, 0.852, 0.876, 0.958, 0.962, 0.974, 0.819, 0.483, 0.59, 1.21, -0.493, -1.04],
    [-0.108, -0.108, -0.188, 0.11, 0.258, 0.226, 0.344, 0.362, 0.611, 0.529, 0.298, -2.27],
    [-8.8, -25.8, -28.9, -31.4, -31.2, -30.7, -27.7, -28.2, -29.0, -29.8, -38.3, -35.3],
    [-0.126, -0.026, 0.063, 0.113, 0.208, 0.23, 0.319, 0.437, 0.68, 0.1, 0.447, -0.33],
    [-0.36, -0.359, -0.443, -0.42, -0.383, -0.375, -0.329, -0.294, -0.23, -0.21, -0.12, -0.1],
    [-7.21, -0.54, -5.23, -5.26, -6.11, -6.64, -5.69, -6.0, -6.2, -6.4, -6.6, -6.0],
    [-0.38, -0.363, -0.378, -0.386, -0.37, -0.453, -0.55, -0.582, -0.595, -0.637, -1.02, -0.84],
    [0.061, 0.052, 0.052, -0.012, -0.013, -0.024, 0.05, 0.15, 0.13, 0.158, 0.24, 0.15],
]
DLDA = [
    [-0.041, -0.052, -0.053, -0.056, -0.05, -0.056, -0.082, -0.059, -0.042, -0.038, -0.027, -0.017],
    [-0.041, -0.053, -0.053, -0.053, -0.05, -0.051, -0.066, -0.043, -0.038, -0.027, -0.023, -0.016],
    [-0.042, -0.053, -0.052, -0.051, -0.049, -0.049, -0.043, -0.035, -0.026, -0.016, -0.018, -0.014],
    [-0.04, -0.052, -0.051, -0.052, -0.048, -0.048, -0.042, -0.037, -0.031, -0.026, -0.017, -0.012],
    [-0.043, -0.049, -0.048, -0.049, -0.043, -0.042, -0.042, -0.036, -0.025, -0.021, -0.016, -0.011],
    [-0.044, -0.048, -0.048, -0.047, -0.042, -0.041, -0.02, -0.028, -0.013, -0.014, -0.011, -0.01],
    [-0.043, -0.049, -0.047, -0.045, -0.042, -0.037, -0.003, -0.013, -0.01, -0.003, -0.007, -0.008],
]
DLDR = [
    [0.005, 0.017, 0.014, 0.01, -0.005, 0.009, 0.019, 0.005, -0.0, -0.005, -0.011, 0.008],
    [0.007, 0.016, 0.014, 0.014, 0.013, 0.009, 0.012, 0.005, 0.0, 0.004, 0.009, 0.007],
    [0.013, 0.013, 0.011, 0.012, 0.011, 0.009, 0.008, 0.005, -0.002, 0.005, 0.003, 0.005],
    [0.018, 0.015, 0.015, 0.014, 0.014, 0.014, 0.014, 0.015, 0.013, 0.011, 0.006, 0.001],
    [0.015, 0.014, 0.013, 0.013, 0.012, 0.011, 0.011, 0.01, 0.008, 0.008, 0.007, 0.003],
    [0.021, 0.011, 0.01, 0.011, 0.01, 0.009, 0.008, 0.01, 0.006, 0.005, 0.0, 0.001],
    [0.023, 0.01, 0.011, 0.011, 0.011, 0.01, 0.008, 0.01, 0.006, 0.014, 0.02, 0.0],
]
DNDA = [
    [0.001, -0.027, -0.017, -0.013, -0.012, -0.016, 0.001, 0.017, 0.011, 0.017, 0.008, 0.016],
    [0.002, -0.014, -0.016, -0.016, -0.014, -0.019, -0.021, 0.002, 0.012, 0.016, 0.015, 0.011],
    [-0.006, -0.008, -0.006, -0.006, -0.005, -0.008, -0.005, 0.007, 0.004, 0.007, 0.006, 0.006],
    [-0.011, -0.011, -0.01, -0.009, -0.008, -0.006, 0.0, 0.004, 0.007, 0.01, 0.004, 0.01],
    [-0.015, -0.015, -0.014, -0.012, -0.011, -0.008, -0.002, 0.002, 0.006, 0.012, 0.011, 0.011],
    [-0.024, -0.01, -0.004, -0.002, -0.001, 0.003, 0.014, 0.006, -0.001, 0.004, 0.004, 0.006],
    [-0.022, 0.002, -0.003, -0.005, -0.003, -0.001, -0.009, -0.009, -0.001, 0.003, -0.002, 0.001],
]
DNDR = [
    [-0.018, -0.052, -0.052, -0.052, -0.054, -0.049, -0.059, -0.051, -0.03, -0.037, -0.026, -0.013],
    [-0.028, -0.051, -0.043, -0.046, -0.045, -0.049, -0.057, -0.052, -0.03, -0.033, -0.03, -0.008],
    [-0.037, -0.041, -0.038, -0.04, -0.04, -0.038, -0.037, -0.03, -0.027, -0.024, -0.019, -0.013],
    [-0.048, -0.045, -0.045, -0.045, -0.044, -0.045, -0.047, -0.048, -0.049, -0.045, -0.033, -0.016],
    [-0.043, -0.044, -0.041, -0.041, -0.04, -0.038, -0.034, -0.035, -0.035, -0.029, -0.022, -0.009],
    [-0.052, -0.034, -0.036, -0.036, -0.035, -0.028, -0.024, -0.023, -0.02, -0.016, -0.01, -0.014],
    [-0.062, -0.034, -0.027, -0.028, -0.027, -0.027, -0.023, -0.023, -0.019, -0.009, -0.025, -0.01],
]
T_IDLE = [
    [1060, 670, 880, 1140, 1500, 1860],
    [635, 425, 690, 1010, 1330, 1700],
    [60, 25, 345, 755, 1130, 1525],
    [-1020, -170, -300, 350, 910, 1360],
    [-2700, -1900, -1300, -247, 600, 1100],
    [-3600, -1400, -595, -342, -200, 700],
]
T_MIL = [
    [12680, 9150, 6200, 3950, 2450, 1400],
    [12680, 9150, 6313, 4040, 2470, 1400],
    [12610, 9312, 6610, 4290, 2600, 1560],
    [12640, 9839, 7090, 4660, 2840, 1660],
    [12390, 10176, 7750, 5320, 3250, 1930],
    [11680, 9848, 8050, 6100, 3800, 2310],
]
T_MAX = [
    [20000, 15000, 10800, 7000, 4000, 2500],
    [21420, 15700, 11225, 7323, 4435, 2600],
    [22700, 16860, 12250, 8154, 5000, 2835],
    [24240, 18910, 13760, 9285, 5700, 3215],
    [26070, 21075, 15975, 11115, 6860, 3950],
    [28886, 23319, 18300, 13484, 8642, 5057],
]
MORELLI = {
    'a': [-0.01943367, 0.2136104, -0.2903457, -0.003348641, -0.2060504, 0.6988016, -0.9035381],
    'b': [0.4833383, 8.644627, 11.31098, -74.22961, 60.75776],
    'c': [-1.145916, 0.06016057, 0.1642479],
    'd': [-0.1006733, 0.8679799, 4.260586, -6.923267],
    'e': [0.8071648, 0.1189633, 4.177702, -9.162236],
    'f': [-0.1378278, -4.211369, 4.775187, -10.26225, 8.399763, -0.4354],
    'g': [-30.54956, -41.32305, 329.2788, -684.8038, 408.0244],
    'h': [-0.105853, -0.5776677, -0.01672435, 0.1357256, 0.2172952, 3.464156, -2.835451, -1.098104],
    'i': [-0.4126806, -0.1189974, 1.247721, -0.7391132],
    'j': [0.06250437, 0.6067723, -1.101964, 9.100087, -11.92672],
    'k': [-0.1463144, -0.0407391, 0.03253159, 0.4851209, 0.297885, -0.3746393, -0.3213068],
    'l': [0.02635729, -0.0219291, -0.003152901, -0.05817803, 0.4516159, -0.4928702, -0.01579864],
    'm': [-0.0202937, 0.04660702, -0.6012308, -0.08062977, 0.08320429, 0.5018538, 0.6378864, 0.4226356],
    'n': [-5.19153, -3.554716, -35.98636, 224.7355, -412.0991, 241.175],
    'o': [0.2993363, 0.06594004, -0.2003125, -0.06233977, -2.107885, 2.14142, 0.8476901],
    'p': [0.02677652, -0.3298246, 0.1926178, 4.013325, -4.404302],
    'q': [-0.3698756, -0.1167551, -0.7641297],
    'r': [-0.03348717, 0.04276655, 0.006573646, 0.3535831, -1.373308, 1.237582, 0.2302543, -0.2512876, 0.1588105, -0.5199526],
    's': [-0.08115894, -0.0115658, 0.02514167, 0.2038748, -0.3337476, 0.1004297],
}

RTOD = 57.29578
GRAV = 32.17

# gains, trim point and actuator limits of the documented LQR controller
K_LONG = [-156.8801506723475, -31.037008068526642, -38.72983346216317]
K_LAT = [[37.84483, -25.40956, -6.82876, -332.88343, -17.15997], [-23.91233, 5.69968, -21.63431, 64.49490, -88.36203]]
XEQ = [502.0, 0.0389, 0.0, 0.0, 0.0389, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1000.0, 9.0567]
UEQ = [0.1395, -0.7496, 0.0, 0.0]
UMIN = [0.0, -25.0, -21.5, -30.0]
UMAX = [1.0, 25.0, 21.5, 30.0]


def cell(s, lo, hi):
    """index of the table cell of coordinate s (clamped to the outermost cell) and the position in it"""
    k = min(max(math.floor(s), lo), hi - 1)
    return k, s - k


def table1(tab, s, first):
    k, f = cell(s, first, first + len(tab) - 1)
    i = k - first
    return tab[i] * (1 - f) + tab[i + 1] * f


def table2(tab, s, first, r, rfirst):
    """tab[row][col]: columns along s, rows along r"""
    k, _f = cell(r, rfirst, rfirst + len(tab) - 1)
    g = r - k
    i = k - rfirst
    return table1(tab[i], s, first) * (1 - g) + table1(tab[i + 1], s, first) * g


def thrust(power, alt, mach):
    h = 1e-4 * (alt if alt >= 0 else 0.01)
    i, dh = cell(h, 0, 5)
    m, dm = cell(5 * mach, 0, 5)

    def look(tab):
        at = lambda mm: tab[mm][i] * (1 - dh) + tab[mm][i + 1] * dh  # noqa: E731
        return at(m) * (1 - dm) + at(m + 1) * dm

    mil = look(T_MIL)
    if power < 50:
        idle = look(T_IDLE)
        return idle + (mil - idle) * power * 0.02
    return mil + (look(T_MAX) - mil) * (power - 50) * 0.02


def lag(dp):
    return 1.0 if dp <= 25 else 0.1 if dp >= 50 else 1.9 - 0.036 * dp


def power_rate(p, cmd):
    if cmd >= 50:
        return 5.0 * (cmd - p) if p >= 50 else lag(60 - p) * (60 - p)
    return 5.0 * (40 - p) if p >= 50 else lag(cmd - p) * (cmd - p)


def gear(thtl):
    return 64.94 * thtl if thtl <= 0.77 else 217.38 * thtl - 117.38


def air(vt, alt):
    tfac = 1 - 0.703e-5 * alt
    temp = 390.0 if alt >= 35000 else 519.0 * tfac
    return vt / math.sqrt(1.4 * 1716.3 * temp), 0.5 * 2.377e-3 * tfac**4.14 * vt * vt


def poly(c, x):
    return sum(ci * x**i for i, ci in enumerate(c))


def morelli(al, be, de, da, dr, ph, qh, rh):
    r = math.pi / 180
    clampd = lambda v, lo, hi: min(max(v, lo * r), hi * r)  # noqa: E731
    al, be, de, da, dr = clampd(al, -10, 45), clampd(be, -30, 30), clampd(de, -25, 25), clampd(da, -21.5, 21.5), clampd(dr, -30, 30)
    M = MORELLI
    a, c, f, h, k, l, m, o, R, s = (M[x] for x in 'acfhklmors')
    cx = a[0] + a[1] * al + a[2] * de**2 + a[3] * de + a[4] * al * de + a[5] * al**2 + a[6] * al**3 + poly(M['b'], al) * qh
    cy = c[0] * be + c[1] * da + c[2] * dr + poly(M['d'], al) * ph + poly(M['e'], al) * rh
    cz = poly(f[:5], al) * (1 - be**2) + f[5] * de + poly(M['g'], al) * qh
    cl0 = h[0] * be + h[1] * al * be + h[2] * al**2 * be + h[3] * be**2 + h[4] * al * be**2 + h[5] * al**3 * be + h[6] * al**4 * be + h[7] * al**2 * be**2
    clda = k[0] + k[1] * al + k[2] * be + k[3] * al**2 + k[4] * al * be + k[5] * al**2 * be + k[6] * al**3
    cldr = l[0] + l[1] * al + l[2] * be + l[3] * al * be + l[4] * al**2 * be + l[5] * al**3 * be + l[6] * be**2
    cl = cl0 + poly(M['i'], al) * ph + poly(M['j'], al) * rh + clda * da + cldr * dr
    cm0 = m[0] + m[1] * al + m[2] * de + m[3] * al * de + m[4] * de**2 + m[5] * al**2 * de + m[6] * de**3 + m[7] * al * de**2
    cm = cm0 + poly(M['n'], al) * qh
    cn0 = o[0] * be + o[1] * al * be + o[2] * be**2 + o[3] * al * be**2 + o[4] * al**2 * be + o[5] * al**2 * be**2 + o[6] * al**3 * be
    cnda = (R[0] + R[1] * al + R[2] * be + R[3] * al * be + R[4] * al**2 * be + R[5] * al**3 * be + R[6] * al**2 + R[7] * al**3 + R[8] * be**3
            + R[9] * al * be**3)
    cndr = s[0] + s[1] * al + s[2] * be + s[3] * al * be + s[4] * al**2 * be + s[5] * al**2
    cn = cn0 + poly(M['p'], al) * ph + poly(M['q'], al) * rh + cnda * da + cndr * dr
    return cx, cy, cz, cl, cm, cn


def tables(al, be, el, ail, rdr):
    """alpha, beta and deflections in degrees"""
    s = 0.2 * al
    sb = 0.2 * abs(be)
    sgn = (be > 0) - (be < 0)
    cx = table2(CX, s, -2, el / 12, -2)
    cy = -0.02 * be + 0.021 * (ail / 20) + 0.086 * (rdr / 30)
    cz = table1(CZ, s, -2) * (1 - (be / 57.3)**2) - 0.19 * (el / 25)
    cl = sgn * table2(CL, s, -2, sb, 0) + table2(DLDA, s, -2, 0.1 * be, -3) * ail / 20 + table2(DLDR, s, -2, 0.1 * be, -3) * rdr / 30
    cm = table2(CM, s, -2, el / 12, -2)
    cn = sgn * table2(CN, s, -2, sb, 0) + table2(DNDA, s, -2, 0.1 * be, -3) * ail / 20 + table2(DNDR, s, -2, 0.1 * be, -3) * rdr / 30
    return cx, cy, cz, cl, cm, cn


def airframe(x, u, model, adjust_cy=True):
    """(state derivative, nz, ny, az, ay), and the magnitudes rounding errors scale with"""
    vt, alr, ber, phi, th, psi, p, q, r, _n, _e, alt, power = [float(v) for v in x[:13]]
    thtl, el, ail, rdr = [float(v) for v in u]
    mach, qbar = air(vt, alt)
    T = thrust(power, alt, mach)
    al, be = alr * RTOD, ber * RTOD
    b, cbar, S = 30.0, 11.32, 300.0
    b2v, cq = b / (2 * vt), cbar * q / (2 * vt)
    if model == 'stevens':
        c = tables(al, be, el, ail, rdr)
    else:
        k = math.pi / 180
        c = morelli(al * k, be * k, el * k, ail * k, rdr * k, p * b2v, cq, r * b2v)
    cx, cy, cz, cl, cm, cn = c
    d = [table1(row, 0.2 * al, -2) for row in DAMPP]
    cx += cq * d[0]
    cy += b2v * (d[1] * r + d[2] * p)
    cz += cq * d[3]
    cl += b2v * (d[4] * r + d[5] * p)
    cm += cq * d[6]
    cn += b2v * (d[7] * r + d[8] * p)
    rm = 1.57e-3
    ca, sa, cb, sb = math.cos(alr), math.sin(alr), math.cos(ber), math.sin(ber)
    U, V, W = vt * ca * cb, vt * sb, vt * sa * cb
    sth, cth, sph, cph, spsi, cpsi = math.sin(th), math.cos(th), math.sin(phi), math.cos(phi), math.sin(psi), math.cos(psi)
    qS = qbar * S
    ay, az = rm * qS * cy, rm * qS * cz
    du = r * V - q * W - GRAV * sth + rm * (qS * cx + T)
    dv = p * W - r * U + GRAV * cth * sph + ay
    dw = q * U - p * V + GRAV * cth * cph + az
    xz = U * U + W * W
    dvt = (U * du + V * dv + W * dw) / vt
    dal = (U * dw - W * du) / xz
    dbe = (vt * dv - V * dvt) * cb / xz
    dphi = p + sth / cth * (q * sph + r * cph)
    dth = q * cph - r * sph
    dpsi = (q * sph + r * cph) / cth
    he = 160.0
    L, N, Mm = qS * b * cl, qS * b * cn, qS * cbar * cm
    dp = (0.02755 * p - 0.770 * r + 1.642e-6 * he) * q + 1.055e-4 * L + 1.642e-6 * N
    dq = (0.9604 * p - 1.792e-5 * he) * r + 1.759e-2 * (r * r - p * p) + 1.792e-5 * Mm
    dr = (-0.7336 * p - 0.02755 * r + 1.587e-5 * he) * q + 1.642e-6 * L + 1.587e-5 * N
    # body to north-east-down
    R = [[cth * cpsi, sph * sth * cpsi - cph * spsi, cph * sth * cpsi + sph * spsi],
         [cth * spsi, sph * sth * spsi + cph * cpsi, cph * sth * spsi - sph * cpsi]]
    dn = sum(a * v for a, v in zip(R[0], (U, V, W)))
    de = sum(a * v for a, v in zip(R[1], (U, V, W)))
    dh = U * sth - V * sph * cth - W * cph * cth
    dpow = power_rate(power, gear(thtl))
    xd = [dvt, dal, dbe, dphi, dth, dpsi, dp, dq, dr, dn, de, dh, dpow]
    azp = az - 15.0 * dq
    ayp = ay + 15.0 * dr if adjust_cy else ay
    nz, ny = -azp / GRAV - 1, ayp / GRAV
    w = abs(p) + abs(q) + abs(r)
    F = vt * w + GRAV + rm * (qS * (abs(cx) + abs(cy) + abs(cz) + 0.5) + abs(T))
    Mo = w * w + w + qS * b * 1.1e-4 * (abs(cl) + abs(cn) + abs(cm) + 0.05)
    mags = [F, F / (vt * cb), F / (vt * cb), w / abs(cth), w, w / abs(cth), Mo, Mo, Mo, vt, vt, vt, 100.0 + abs(dpow)]
    return xd, nz, ny, azp, ayp, mags, (F + 15 * Mo)


def control(x, uref, gain=1.0, lows=UMIN, highs=UMAX):
    """(control error vector, commanded throttle and deflections in degrees)"""
    d = [float(v) for v in x]
    for i in range(13):
        d[i] -= XEQ[i]
    e = [d[i] for i in (1, 7, 13, 2, 6, 8, 14, 15)]
    u = [float(uref[3]) + UEQ[0], -sum(k * v for k, v in zip(K_LONG, e[:3])) + UEQ[1],
         -sum(k * v for k, v in zip(K_LAT[0], e[3:])) + UEQ[2], -sum(k * v for k, v in zip(K_LAT[1], e[3:])) + UEQ[3]]
    u = [u[0]] + [gain * (v - q) + q for v, q in zip(u[1:], UEQ[1:])] if gain != 1.0 else u
    mag = [1 + abs(u[0]), 1 + sum(abs(k * v) for k, v in zip(K_LONG, e[:3])), 1 + sum(abs(k * v) for k, v in zip(K_LAT[0], e[3:])),
           1 + sum(abs(k * v) for k, v in zip(K_LAT[1], e[3:]))]
    return e, [min(max(v, lo), hi) for v, lo, hi in zip(u, lows, highs)], mag


def closed_loop(x, uref, model, v2, sat=None):
    e, u, umag = control(x, uref)
    if sat is not None:
        u = list(sat)
    xd, nz, ny, _az, _ay, mags, am = airframe(x, u, model)
    if v2:
        ps = xd[6] * math.cos(xd[1]) + xd[8] * math.sin(xd[1])
        nyr = ny + xd[8]
        psm = mags[6] + mags[8] + abs(ps)
        psm += (abs(xd[6]) + abs(xd[8])) * mags[1]
    else:
        ps = e[4] * math.cos(e[0]) + e[5] * math.sin(e[0])
        nyr = ny + e[5]
        psm = abs(e[4]) + abs(e[5])
    full = xd + [nz - uref[0], ps - uref[1], nyr - uref[2]]
    urad = [u[0]] + [math.radians(v) for v in u[1:]] + [float(v) for v in uref[:3]]
    mag = mags + [am / GRAV + 1 + abs(uref[0]), psm + abs(uref[1]), am / GRAV + psm + mags[8] + abs(uref[2])]
    return full, urad, nz, ps, nyr, mag, umag
