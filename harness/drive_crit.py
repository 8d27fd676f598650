"""Calls on critical points and their trajectories."""
import numpy as np
import proj
from proj import qs, uvec, p_points
from drive import call, unit, number, factor, cos, fl, IP, OBJ, RET, NOTHING
from drive_points import window, scales

KINDS = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']


def _is(o):
    return type(o).__name__ == 'CritPoints'


def p_crit(o):
    trajs = [getattr(o, k + '_traj') for k in KINDS]
    if all(t is None for t in trajs):
        traj = []
    elif any(t is None for t in trajs):
        return proj.bad('some trajectories only')
    else:
        traj = [[p_points(p) for p in t] for t in trajs]
    return {'k': 'CP', 'ts': qs(o.times), 'ut': uvec(o.unit_time), 'ux': uvec(o.unit_x), 'uy': uvec(o.unit_y),
            'kinds': [[p_points(p) for p in getattr(o, k)] for k in KINDS], 'traj': traj}


proj.EXTRA.append((_is, p_crit))


@call('cp', 'new')
def cp_new(rec, e):
    from IMTreatment.vortex_detection import CritPoints
    us = e['a']['us']
    if us == 's' and e['a'].get('dflt'):
        return OBJ, CritPoints()
    return OBJ, CritPoints(unit_time=us if e['a'].get('str', True) else unit(us))


@call('cp', 'add')
def cp_add(rec, e):
    a = e['a']
    kw = {k: rec.W[s] for k, s in zip(KINDS, a['p']) if s}
    rec.W[e['s']].add_point(time=number(a['time']), **kw)
    return NOTHING, None


@call('cp', 'rm')
def cp_rm(rec, e):
    a = e['a']
    t = rec.W[e['s']]
    if a['ind']:
        t.remove_point(indice=a['i'])
    else:
        t.remove_point(time=cos([a['time']], t.times)[0])
    return NOTHING, None


@call('cp', 'cat')
def cp_cat(rec, e):
    return OBJ, rec.W[e['s']] + rec.W[e['t']]


@call('cp', 'copy')
def cp_copy(rec, e):
    return OBJ, rec.W[e['s']].copy()


@call('cp', 'eq')
def cp_eq(rec, e):
    return RET, [bool(rec.W[e['s']] == rec.W[e['t']])]


@call('cp', 'get')
def cp_get(rec, e):
    t = rec.W[e['s']]
    a = e['a']
    return OBJ, t.iter[a['c'] - 1][a['i']].copy()


@call('cp', 'gettraj')
def cp_gettraj(rec, e):
    t = rec.W[e['s']]
    a = e['a']
    return OBJ, t.iter_traj[a['c'] - 1][a['i']].copy()


@call('cp', 'traj')
def cp_traj(rec, e):
    a = e['a']
    t = rec.W[e['s']]
    if not len(a['eps']):
        t.compute_traj()
    elif a.get('us'):
        t.compute_traj(epsilon=fl(a['q'])*unit(a['us']))
    else:
        t.compute_traj(number(a['eps'][0]))
    return NOTHING, None


@call('cp', 'clean')
def cp_clean(rec, e):
    rec.W[e['s']].clean_traj(e['a']['min'])
    return NOTHING, None


@call('cp', 'smooth')
def cp_smooth(rec, e):
    if e['a']['size'] == 3 and e['a'].get('dflt'):
        rec.W[e['s']].smooth_traj()
    else:
        rec.W[e['s']].smooth_traj(tos='uniform', size=e['a']['size'])
    return NOTHING, None


@call('cp', 'crop')
def cp_crop(rec, e):
    a = e['a']
    t = rec.W[e['s']]
    xs = [x for k in t.iter for p in k for x in np.array(p.xy).reshape(-1, 2)[:, 0]]
    ys = [x for k in t.iter for p in k for x in np.array(p.xy).reshape(-1, 2)[:, 1]]
    kw = dict(intervx=window(a['wx'], xs), intervy=window(a['wy'], ys))
    if len(a['wi']):
        kw.update(intervt=list(a['wi']), ind=True)
    elif len(a['wt']):
        kw.update(intervt=window(a['wt'], t.times))
    return OBJ, t.crop(**IP(e), **kw)


@call('cp', 'scale')
def cp_scale(rec, e):
    kw = scales(e['a'], (('scalex', 'fx'), ('scaley', 'fy'), ('scalev', 'fv')))
    return OBJ, rec.W[e['s']].scale(**IP(e), **kw)


@call('cp', 'unit')
def cp_unit(rec, e):
    a = e['a']
    rec.W[e['s']].change_unit(a['axe'], a['us'] if a.get('str', True) else unit(a['us']))
    return NOTHING, None


@call('cp', 'origin')
def cp_origin(rec, e):
    a = e['a']
    kw = {}
    if a['x'] != [0, 1] or a.get('both'):
        kw['x'] = number(a['x'])
    if a['y'] != [0, 1] or a.get('both'):
        kw['y'] = number(a['y'])
    rec.W[e['s']].set_origin(**kw)
    return NOTHING, None


@call('cp', 'topo')
def cp_topo(rec, e):
    a = e['a']
    kw = {} if a['kind'] == 'replacement' and a.get('dflt') else {'kind': a['kind']}
    return OBJ, rec.W[e['s']].topo_simplify(number(a['d']), **kw)


def _residual(f, x, y, i, j):
    """the velocity at (x, y), bilinear in cell (i, j), relatively to the corners"""
    res = []
    for c in (np.array(f.comp_x), np.array(f.comp_y)):
        a = (x - f.axe_x[i])/(f.axe_x[i + 1] - f.axe_x[i])
        b = (y - f.axe_y[j])/(f.axe_y[j + 1] - f.axe_y[j])
        v = (c[i, j]*(1 - a)*(1 - b) + c[i + 1, j]*a*(1 - b) + c[i, j + 1]*(1 - a)*b + c[i + 1, j + 1]*a*b)
        res.append(abs(v)/np.max(np.abs(c[i:i + 2, j:j + 2])))
    return max(res)


def _degenerate(f, i, j):
    """the zero of the cell is not the root of a quadratic polynomial"""
    v = [np.array(c)[i:i + 2, j:j + 2] for c in (f.comp_x, f.comp_y)]
    q = [c[1, 0] - c[0, 0] for c in v]
    r = [c[0, 1] - c[0, 0] for c in v]
    s = [c[1, 1] - c[1, 0] - c[0, 1] + c[0, 0] for c in v]
    return q[0]*s[1] == q[1]*s[0] or r[0]*s[1] == r[1]*s[0]


@call('cp', 'detect')
def cp_detect(rec, e):
    from IMTreatment.vortex_detection import get_critical_points
    a = e['a']
    o = rec.W[e['s']]
    temporal = hasattr(o, 'fields')
    kw = {} if temporal else dict(time=number(a['time']), unit_time=a['us'] if a.get('str') else unit(a['us']))
    if a['kind'] != 'pbi' or not a.get('dflt'):
        kw['kind'] = a['kind']
    cp = get_critical_points(o, **kw)
    fs = list(o.fields) if temporal else [o]
    placed, res = True, []
    for n, t in enumerate(cp.times):
        f = fs[n]
        cells = []
        for k in KINDS:
            kc = []
            pts = getattr(cp, k)[n]
            if len(pts) and (uvec(pts.unit_x), uvec(pts.unit_y)) != (uvec(cp.unit_x), uvec(cp.unit_y)):
                placed = False
            for x, y in np.array(pts.xy).reshape(-1, 2):
                i = min(max(int(np.searchsorted(f.axe_x, x)) - 1, 0), len(f.axe_x) - 2)
                j = min(max(int(np.searchsorted(f.axe_y, y)) - 1, 0), len(f.axe_y) - 2)
                if not (f.axe_x[0] - 1e-9 <= x <= f.axe_x[-1] + 1e-9 and f.axe_y[0] - 1e-9 <= y <= f.axe_y[-1] + 1e-9):
                    placed = False
                mid = abs(x - (f.axe_x[i] + f.axe_x[i + 1])/2.) + abs(y - (f.axe_y[j] + f.axe_y[j + 1])/2.)
                kc.append([[i + 1, 1], [j + 1, 1],
                           bool(mid < 1e-9 if a['kind'] == 'pbi_cell' or _degenerate(f, i, j) and mid < 1e-9
                                else _residual(f, x, y, i, j) < 1e-6)])
            cells.append(kc)
        res.append([proj.q(t), cells])
    return RET, [[uvec(cp.unit_time), uvec(cp.unit_x), uvec(cp.unit_y)], placed, res]


@call('cp', 'smoothed')
def cp_smoothed(rec, e):
    from IMTreatment.vortex_detection import get_critical_points
    get_critical_points(rec.W[e['s']], kind='pbi_cell', smoothing_size=1)
    return RET, []
