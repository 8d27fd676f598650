"""Projection between the library's objects and the specification's values.

Only public attributes are read.  Numbers become rationals <<n, d>>; pairs with
d = 0 are the non-numbers of spec/Rat.tla.
"""
import math
from fractions import Fraction
import numpy as np
import unum

CAPS = (50, 1000, 20000, 10**6, 10**7)
RTOL, ATOL = 1e-11, 1e-13
M, NAN, PINF, NINF, ODD = [0, 0], [1, 0], [2, 0], [3, 0], [4, 0]


def q(x, mag=0.):
    """float -> [n, d]; mag is the magnitude of the numbers it comes with
    (rotations, differences and the like round relatively to that)"""
    if isinstance(x, unum.Unum):
        x = x.asNumber()
    if isinstance(x, (np.ndarray, np.generic)):
        if np.ma.is_masked(x):
            return M
        x = x.item()
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Fraction):
        return [x.numerator, x.denominator]
    if isinstance(x, int):
        return [x, 1] if abs(x) < 2**31 else ODD
    if isinstance(x, complex):
        return ODD
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    if abs(x) > 2e9:
        return ODD
    if 0 < abs(x) < 1e-4 and mag < 1e-3:        # small because of a change of unit
        f = Fraction(x * 1e6).limit_denominator(64)
        if abs(float(f) - x * 1e6) <= 1e-12 * abs(x * 1e6):
            f = f / 1000000
            if f.denominator < 2**31:
                return [f.numerator, f.denominator]
    tol = max(RTOL * abs(x), ATOL, 1e-15 * mag)
    for cap in CAPS:
        f = Fraction(x).limit_denominator(cap)
        if abs(float(f) - x) <= tol and abs(f.numerator) < 2**31:
            return [f.numerator, f.denominator]
    f = Fraction(x).limit_denominator(10**9)
    if abs(float(f) - x) <= 1e-15 * max(1e-3, abs(x)) and abs(f.numerator) < 2**31:
        return [f.numerator, f.denominator]
    return ODD


def qs(seq):
    return [q(x) for x in seq]


def fl(r):
    """[n, d] -> float"""
    if r[1] == 0:
        return {1: float('nan'), 0: float('nan'), 2: float('inf'),
                3: float('-inf')}.get(r[0], float('nan'))
    return r[0] / r[1]


def fls(seq):
    return [fl(r) for r in seq]


# ------------------------------------------------------------------- units
#        p  m  s kg rad px counts
BASE = {
    'm': (0, 1, 0, 0, 0, 0, 0), 'cm': (-2, 1, 0, 0, 0, 0, 0),
    'mm': (-3, 1, 0, 0, 0, 0, 0), 'dm': (-1, 1, 0, 0, 0, 0, 0),
    'um': (-6, 1, 0, 0, 0, 0, 0), 'km': (3, 1, 0, 0, 0, 0, 0),
    's': (0, 0, 1, 0, 0, 0, 0), 'ms': (-3, 0, 1, 0, 0, 0, 0),
    'us': (-6, 0, 1, 0, 0, 0, 0), 'ns': (-9, 0, 1, 0, 0, 0, 0),
    'Hz': (0, 0, -1, 0, 0, 0, 0),
    'kg': (0, 0, 0, 1, 0, 0, 0), 'g': (-3, 0, 0, 1, 0, 0, 0),
    'N': (0, 1, -2, 1, 0, 0, 0), 'Pa': (0, -1, -2, 1, 0, 0, 0),
    'J': (0, 2, -2, 1, 0, 0, 0), 'W': (0, 2, -3, 1, 0, 0, 0),
    'rad': (0, 0, 0, 0, 1, 0, 0), 'px': (0, 0, 0, 0, 0, 1, 0),
    'counts': (0, 0, 0, 0, 0, 0, 1),
}
UNONE = [0] * 7


def usum(pairs):
    res = [0] * 7
    for b, n in pairs:
        for i in range(7):
            res[i] += n * BASE[b][i]
    return res


UNITS = {
    '': [], 'm': [('m', 1)], 'mm': [('mm', 1)], 'cm': [('cm', 1)],
    's': [('s', 1)], 'ms': [('ms', 1)], 'm/s': [('m', 1), ('s', -1)],
    'mm/s': [('mm', 1), ('s', -1)], 'cm/s': [('cm', 1), ('s', -1)],
    'm**2': [('m', 2)], '1/s': [('s', -1)],
    'kg': [('kg', 1)], 'Pa': [('Pa', 1)], 'rad': [('rad', 1)],
    'px': [('px', 1)], 'counts': [('counts', 1)], 'Hz': [('Hz', 1)],
    'm**2/s**2': [('m', 2), ('s', -2)], 'm**2/s': [('m', 2), ('s', -1)],
    'm*s': [('m', 1), ('s', 1)], 'g': [('g', 1)],
}
UVEC = {k: usum(v) for k, v in UNITS.items()}
VECU = {tuple(v): k for k, v in reversed(list(UVEC.items()))}


def uvec(u):
    """Unum -> vector"""
    if not isinstance(u, unum.Unum):
        return [97] + [0] * 6
    res = [0] * 7
    try:
        val = float(u._value)
    except Exception:
        return [97] + [0] * 6
    # 100 [cm.m] is a way unum has to write 1 [m2]
    if not val > 0 or abs(math.log10(val) - round(math.log10(val))) > 1e-9:
        return [98] + [0] * 6
    if abs(float(u.asNumber()) - 1.) > 1e-6:
        return [95] + [0] * 6
    res[0] = int(round(math.log10(val)))
    for sym, n in u._unit.items():
        if sym not in BASE:
            return [99] + [0] * 6
        if n != int(n):
            return [96] + [0] * 6
        for i in range(7):
            res[i] += int(n) * BASE[sym][i]
    return res


def uquant(x):
    """a number or a Unum quantity -> [rational, unit vector]"""
    if isinstance(x, unum.Unum):
        res = [0] * 7
        for sym, n in x._unit.items():
            if sym not in BASE or n != int(n):
                return [q(x._value), [99] + [0] * 6]
            for i in range(7):
                res[i] += int(n) * BASE[sym][i]
        return [q(x._value), res]
    return [q(x), UNONE]


# ----------------------------------------------------------------- objects
def bad(why):
    return {'k': 'BAD', 'why': str(why)[:80]}


def mags(*arrs):
    res = 0.
    for a in arrs:
        a = np.asarray(a)
        if a.dtype.kind in 'fiu' and a.size:
            a = np.abs(a[np.isfinite(a)].astype(float))
            if a.size:
                res = max(res, float(a.max()))
    return min(res, 1e6)


def cellmat(arr, mask, shape, mag=0.):
    arr = np.asarray(arr)
    mask = np.asarray(mask)
    if arr.shape != shape or mask.shape != shape:
        raise ValueError('shape {} {} {}'.format(arr.shape, mask.shape, shape))
    return [[M if mask[i, j] else q(arr[i, j], mag) for j in range(shape[1])]
            for i in range(shape[0])]


def p_field(o):
    from IMTreatment.core.scalarfield import ScalarField
    shape = (len(o.axe_x), len(o.axe_y))
    if isinstance(o, ScalarField):
        mask = np.array(o.mask)
        va = np.array(o.values)
        v = [cellmat(va, mask, shape, mags(va))]
    else:
        mask = np.array(o.mask)
        cx, cy = np.array(o.comp_x), np.array(o.comp_y)
        mag = mags(cx, cy)
        v = [cellmat(cx, mask, shape, mag), cellmat(cy, mask, shape, mag)]
    return {'k': 'F', 'nc': len(v), 'ax': qs(o.axe_x), 'ay': qs(o.axe_y),
            'v': v, 'ux': uvec(o.unit_x), 'uy': uvec(o.unit_y),
            'uv': uvec(o.unit_values)}


def p_profile(o):
    x = np.array(o.x, dtype=float)
    y = np.array(o.y, dtype=float)
    mask = np.array(o.mask)
    if not (x.shape == y.shape == mask.shape):
        raise ValueError('profile shape')
    xs = qs(x)
    ys = [M if m else q(v) for v, m in zip(y, mask)]
    i = 0
    while i < len(xs):      # points at the same x have no order
        j = i
        while j < len(xs) and xs[j] == xs[i]:
            j += 1
        ys[i:j] = sorted(ys[i:j], key=lambda v: (0, v[0] / v[1]) if v[1] else (1, v != M))
        i = j
    return {'k': 'P', 'x': xs, 'y': ys,
            'ux': uvec(o.unit_x), 'uy': uvec(o.unit_y)}


def p_points(o):
    from IMTreatment.core.orientedpoints import OrientedPoints
    xy = np.array(o.xy, dtype=float)
    v = np.array(o.v)
    mag = mags(xy)
    res = {'k': 'S', 'xy': [[q(x, mag) for x in p] for p in xy], 'v': [q(x) for x in v],
           'ux': uvec(o.unit_x), 'uy': uvec(o.unit_y),
           'uv': uvec(o.unit_v)}
    if isinstance(o, OrientedPoints):
        ori = np.array(o.orientations, dtype=float)
        mag = mags(ori)
        res['k'] = 'O'
        res['or'] = [[[q(x, mag) for x in d] for d in pt] for pt in ori]
    return res


def p_tpoints(o):
    return {'k': 'TP', 'ts': qs(o.times), 'ut': uvec(o.unit_times), 'ux': uvec(o.unit_x),
            'uy': uvec(o.unit_y), 'ps': [p_points(p) for p in o.point_sets]}


def p_temporal(o):
    fs = [p_obj(f) for f in o.fields]
    return {'k': 'T', 'nc': 1 if type(o).__name__ == 'TemporalScalarFields' else 2,
            'ts': qs(o.times), 'ut': uvec(o.unit_times),
            'ax': qs(o.axe_x), 'ay': qs(o.axe_y),
            'ux': uvec(o.unit_x), 'uy': uvec(o.unit_y), 'fs': fs}


EXTRA = []   # (predicate, projector) registered by other drivers


def p_obj(o):
    if o is None:
        return {'k': 'E'}
    from IMTreatment.core.field import Field
    from IMTreatment.core.profile import Profile
    from IMTreatment.core.points import Points
    from IMTreatment.core.temporalpoints import TemporalPoints
    from IMTreatment.core.scalarfield import ScalarField
    from IMTreatment.core.vectorfield import VectorField
    from IMTreatment.core.temporalfields import TemporalFields
    try:
        for pred, pr in EXTRA:
            if pred(o):
                return pr(o)
        if isinstance(o, (ScalarField, VectorField)):
            return p_field(o)
        if isinstance(o, TemporalFields):
            return p_temporal(o)
        if isinstance(o, Profile):
            return p_profile(o)
        if isinstance(o, Points):
            return p_points(o)
        if isinstance(o, TemporalPoints):
            return p_tpoints(o)
    except Exception as ex:
        return bad(repr(ex))
    return bad(type(o).__name__)
