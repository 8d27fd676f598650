"""Calls on sets of points."""
import math
import numpy as np
from proj import q, qs, fl, fls, uvec
from drive import call, unit, number, factor, co, cos, IP, opt, OBJ, RET, NOTHING


def window(w, ax):
    """the interval w; where a bound is the coordinate of several points, of all of them"""
    if len(w) == 0:
        return None
    ax = np.asarray(ax, dtype=float)
    return [float(pick(ax[near])) if near.any() else x for pick, x, near in
            ((f, x, np.abs(ax - x) <= 1e-9 * max(1., abs(x))) for f, x in zip((np.min, np.max), fls(w)))]


@call('s', 'mk')
def s_mk(rec, e):
    from IMTreatment import Points, OrientedPoints
    a = e['a']
    xy = [fls(p) for p in a['xy']]
    v = fls(a['v'])
    if a.get('intv') and all(x[1] == 1 for x in a['v']):
        v = [int(x) for x in v]
    if a.get('form') == 'array':
        xy, v = np.array(xy).reshape((-1, 2)), np.array(v)
    us = [a['uxs'], a['uys'], a['uvs']]
    if a.get('unitobj'):
        us = [unit(u) for u in us]
    kw = dict(v=v, unit_x=us[0], unit_y=us[1], unit_v=us[2], name='pts')
    if a['ori']:
        ori = [[fls(d) for d in p] for p in a['or']]
        res = OrientedPoints(xy, orientations=np.array(ori), **kw)
    else:
        res = Points(xy, **kw)
    if a.get('form') == 'array' and len(xy):        # the caller keeps its arrays
        xy[0] += 17.
        if len(v):
            v[0] += 17
    return OBJ, res


@call('s', 'copy')
def s_copy(rec, e):
    return OBJ, rec.W[e['s']].copy()


@call('s', 'len')
def s_len(rec, e):
    return RET, [q(len(rec.W[e['s']]))]


@call('s', 'eq')
def s_eq(rec, e):
    return RET, [bool(rec.W[e['s']] == rec.W[e['t']])]


@call('s', 'iter')
def s_iter(rec, e):
    p = rec.W[e['s']]
    ori = hasattr(p, 'orientations')
    res = []
    for it in p:
        it = list(it) if isinstance(it, tuple) else [it]
        o = [qs(d) for d in it.pop()] if ori else []
        res.append([qs(it[0]), [q(it[1])] if len(it) > 1 else [], o])
    return RET, res


@call('s', 'setxy')
def s_setxy(rec, e):
    xy = [fls(p) for p in e['a']['xy']]
    if e['a'].get('form') == 'array':
        xy = np.array(xy)
    rec.W[e['s']].xy = xy
    if isinstance(xy, np.ndarray):
        xy[0] += 5.
    return NOTHING, None


@call('s', 'setv')
def s_setv(rec, e):
    v = fls(e['a']['v'])
    if e['a'].get('form') == 'array':
        v = np.array(v)
    rec.W[e['s']].v = v
    if isinstance(v, np.ndarray) and len(v):
        v[0] += 5.
    return NOTHING, None


@call('s', 'poke')
def s_poke(rec, e):
    rec.W[e['s']].xy[e['a']['i']] = fls(e['a']['xy'])
    return NOTHING, None


@call('s', 'setunit')
def s_setunit(rec, e):
    a = e['a']
    setattr(rec.W[e['s']], 'unit_' + a['axe'], a['us'] if a.get('str') else unit(a['us']))
    return NOTHING, None


@call('s', 'cat')
def s_cat(rec, e):
    return OBJ, rec.W[e['s']] + rec.W[e['t']]


@call('s', 'addpt')
def s_addpt(rec, e):
    a = e['a']
    p = rec.W[e['s']]
    kw = {'v': number(a['v'][0])} if len(a['v']) else {}
    if hasattr(p, 'orientations'):
        kw['orientations'] = [fls(d) for d in a['or']]
    xy = fls(a['xy'])
    p.add(np.array(xy) if a.get('form') == 'array' else xy, **kw)
    return NOTHING, None


@call('s', 'rm')
def s_rm(rec, e):
    ids = e['a']['ids']
    rec.W[e['s']].remove(ids[0] if len(ids) == 1 and e['a'].get('int', True) else list(ids))
    return NOTHING, None


@call('s', 'unit')
def s_unit(rec, e):
    a = e['a']
    rec.W[e['s']].change_unit(a['axe'], a['us'] if a.get('str', True) else unit(a['us']))
    return NOTHING, None


@call('s', 'origin')
def s_origin(rec, e):
    a = e['a']
    kw = {}
    if a['x'][0]:
        kw['x'] = number(a['x'])
    if a['y'][0]:
        kw['y'] = number(a['y'])
    rec.W[e['s']].set_origin(**kw)
    return NOTHING, None


@call('s', 'crop')
def s_crop(rec, e):
    a = e['a']
    p = rec.W[e['s']]
    if a['ind']:
        kw = dict(intervv=list(a['wi']), ind=True)
    else:
        kw = dict(intervx=window(a['wx'], p.xy[:, 0]), intervy=window(a['wy'], p.xy[:, 1]),
                  intervv=window(a['wv'], p.v))
    return OBJ, p.crop(**IP(e, True), **kw)


@call('s', 'cut')
def s_cut(rec, e):
    a = e['a']
    p = rec.W[e['s']]
    return OBJ, p.cut(intervx=window(a['wx'], p.xy[:, 0]), intervy=window(a['wy'], p.xy[:, 1]))


def scales(a, names):
    kw = {}
    for n, k in names:
        v = factor(a[k])
        if v is not None:
            kw[n] = v
    return kw


@call('s', 'scale')
def s_scale(rec, e):
    kw = scales(e['a'], (('scalex', 'fx'), ('scaley', 'fy'), ('scalev', 'fv')))
    return OBJ, rec.W[e['s']].scale(**IP(e), **kw)


@call('s', 'rotate')
def s_rotate(rec, e):
    a = e['a']
    return OBJ, rec.W[e['s']].rotate(math.atan2(fl(a['s']), fl(a['c'])), **IP(e))


@call('s', 'reverse')
def s_reverse(rec, e):
    return OBJ, rec.W[e['s']].reverse()


@call('s', 'decomp')
def s_decomp(rec, e):
    parts = rec.W[e['s']].decompose()
    rec.W[e['d']] = parts[e['a']['i']]
    return RET, [q(len(parts))]


@call('s', 'sort')
def s_sort(rec, e):
    a = e['a']
    return OBJ, rec.W[e['s']].sort(ref=list(a['ids']) if a['ref'] == 'ids' else a['ref'], **IP(e))


@call('s', 'rmnan')
def s_rmnan(rec, e):
    return OBJ, rec.W[e['s']].remove_nans(**IP(e))


@call('s', 'doub')
def s_doub(rec, e):
    return OBJ, rec.W[e['s']].remove_doublons(**opt(e, {'method': e['a']['how']}, method='average'), **IP(e))


@call('s', 'augment')
def s_augment(rec, e):
    return OBJ, rec.W[e['s']].augment_resolution(**opt(e, {'fact': e['a']['fact']}, fact=2), **IP(e))


@call('s', 'smooth')
def s_smooth(rec, e):
    return OBJ, rec.W[e['s']].smooth(tos='uniform', size=e['a']['size'], **IP(e))


@call('s', 'toprof')
def s_toprof(rec, e):
    return OBJ, rec.W[e['s']].export_to_profile(axe_x=e['a']['x'], axe_y=e['a']['y'])


@call('s', 'veloc')
def s_veloc(rec, e):
    a = e['a']
    vx, vy = rec.W[e['s']].get_velocity(incr=a['incr'], xaxis=a['xaxis'])
    return OBJ, vx if a['comp'] == 'x' else vy


@call('s', 'evol')
def s_evol(rec, e):
    kw = {'axe_x': e['a']['axe']} if e['a']['axe'] else {}
    return OBJ, rec.W[e['s']].get_evolution_on_sf(rec.W[e['t']], **kw)


@call('s', 'evolt')
def s_evolt(rec, e):
    kw = {'axe_x': e['a']['axe']} if e['a']['axe'] else {}
    return OBJ, rec.W[e['s']].get_evolution_on_tsf(rec.W[e['t']], **kw)


@call('s', 'dens')
def s_dens(rec, e):
    a = e['a']
    res = a['nx'] if a['nx'] == a['ny'] and a.get('one') else [a['nx'], a['ny']]
    return OBJ, rec.W[e['s']].get_points_density2(res, ponderated=a['pond'])


@call('s', 'kde')
def s_kde(rec, e):
    sf = rec.W[e['s']].get_points_density(resolution=e['a']['res'], output_format=e['a']['fmt'])
    v = np.array(sf.values)
    tot = v.sum() * (sf.axe_x[1] - sf.axe_x[0]) * (sf.axe_y[1] - sf.axe_y[0])
    return RET, [q(round(float(tot), 7)), bool((v >= 0).all())]


# ------------------------------------------------------------ temporal sets
@call('tp', 'new')
def tp_new(rec, e):
    from IMTreatment import TemporalPoints
    return OBJ, TemporalPoints()


@call('tp', 'add')
def tp_add(rec, e):
    a = e['a']
    rec.W[e['s']].add_pts(rec.W[e['t']], time=number(a['time']),
                          unit_times=a['us'] if a.get('str', True) else unit(a['us']))
    return NOTHING, None


@call('tp', 'rm')
def tp_rm(rec, e):
    ids = e['a']['ids']
    if e['a'].get('neg'):
        ids = [i - len(rec.W[e['s']].point_sets) for i in ids]
    rec.W[e['s']].remove_pts(ids[0] if len(ids) == 1 else list(ids))
    return NOTHING, None


@call('tp', 'copy')
def tp_copy(rec, e):
    return OBJ, rec.W[e['s']].copy()


@call('tp', 'len')
def tp_len(rec, e):
    return RET, [q(len(rec.W[e['s']]))]


@call('tp', 'get')
def tp_get(rec, e):
    return OBJ, rec.W[e['s']].point_sets[e['a']['i']].copy()


@call('tp', 'iter')
def tp_iter(rec, e):
    return RET, [[q(t), [qs(x) for x in p.xy]] for t, p in rec.W[e['s']]]


@call('tp', 'settimes')
def tp_settimes(rec, e):
    ts = fls(e['a']['ts'])
    if e['a'].get('form') == 'array':
        ts = np.array(ts)
    rec.W[e['s']].times = ts
    if isinstance(ts, np.ndarray) and len(ts):
        ts[0] += 100.
    return NOTHING, None


@call('tp', 'setunit')
def tp_setunit(rec, e):
    a = e['a']
    setattr(rec.W[e['s']], {'time': 'unit_times', 'x': 'unit_x', 'y': 'unit_y'}[a['axe']], unit(a['us']))
    return NOTHING, None


@call('tp', 'crop')
def tp_crop(rec, e):
    a = e['a']
    t = rec.W[e['s']]
    xs = [x for p in t.point_sets for x in p.xy[:, 0]]
    ys = [x for p in t.point_sets for x in p.xy[:, 1]]
    vs = [x for p in t.point_sets for x in p.v]
    kw = dict(intervx=window(a['wx'], xs), intervy=window(a['wy'], ys), intervv=window(a['wv'], vs))
    if len(a['wi']):
        kw.update(intervt=list(a['wi']), ind=True)
    elif len(a['wt']):
        kw.update(intervt=window(a['wt'], t.times))
    return OBJ, t.crop(**IP(e), **kw)


@call('tp', 'scale')
def tp_scale(rec, e):
    kw = scales(e['a'], (('scalex', 'fx'), ('scaley', 'fy'), ('scalev', 'fv'), ('scalet', 'ft')))
    return OBJ, rec.W[e['s']].scale(**IP(e), **kw)


@call('tp', 'unit')
def tp_unit(rec, e):
    a = e['a']
    rec.W[e['s']].change_unit(a['axe'], a['us'] if a.get('str', True) else unit(a['us']))
    return NOTHING, None


@call('tp', 'smooth')
def tp_smooth(rec, e):
    return OBJ, rec.W[e['s']].smooth(tos='uniform', size=e['a']['size'], **IP(e))
