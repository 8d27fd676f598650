"""Calls on TemporalScalarFields and TemporalVectorFields."""
import numpy as np
from drive import (call, CALLS, frame, given, IP, opt, OBJ, RET, NOTHING, unit, number, quantity, factor, win, co)
from proj import q, qs, fl, fls, uvec, M


def cls(nc):
    from IMTreatment import TemporalScalarFields, TemporalVectorFields
    return TemporalScalarFields if nc == 1 else TemporalVectorFields


@call('t', 'new')
def t_new(rec, e):
    return OBJ, cls(e['a']['nc'])()


@call('t', 'mkt')
def t_mkt(rec, e):
    a = e['a']
    t = cls(a['nc'])()
    for f, time in zip(a['fs'], a['times']):
        obj = CALLS[('f', 'mk')](rec, {'a': f})[1]
        t.add_field(obj, time=fl(time), unit_times=a['us'])
    return OBJ, t


@call('t', 'addf')
def t_addf(rec, e):
    a = e['a']
    u = a['us'] if a.get('str', True) else unit(a['us'])
    rec.W[e['s']].add_field(rec.W[e['t']], time=number(a['time']), unit_times=u)
    return NOTHING, None


@call('t', 'rmf')
def t_rmf(rec, e):
    ids = e['a']['ids']
    if len(ids) == 1 and not e['a'].get('list'):
        ids = ids[0]
    rec.W[e['s']].remove_fields(ids)
    return NOTHING, None


@call('t', 'field')
def t_field(rec, e):
    return OBJ, rec.W[e['s']][e['a']['n']].copy()


@call('t', 'copy')
def t_copy(rec, e):
    return OBJ, rec.W[e['s']].copy()


@call('t', 'settimes')
def t_settimes(rec, e):
    ts = fls(e['a']['ts'])
    if e['a'].get('arr', True):
        ts = np.array(ts)
    rec.W[e['s']].times = ts
    if isinstance(ts, np.ndarray):
        ts[...] = -777.           # the caller goes on using its own array
    return NOTHING, None


@call('t', 'setax')
def t_setax(rec, e):
    ax = fls(e['a']['ax'])
    setattr(rec.W[e['s']], 'axe_' + e['a']['axe'], given(np.array(ax)) if e['a']['arr'] else ax)
    return NOTHING, None


@call('t', 'setunit')
def t_setunit(rec, e):
    a = e['a']
    u = a['us'] if a.get('str') else unit(a['us'])
    setattr(rec.W[e['s']], {'time': 'unit_times', 'x': 'unit_x', 'y': 'unit_y'}[a['axe']], u)
    return NOTHING, None


@call('t', 'eq')
def t_eq(rec, e):
    return RET, [bool(rec.W[e['s']] == rec.W[e['t']])]


@call('t', 'iter')
def t_iter(rec, e):
    res = []
    for time, f in rec.W[e['s']]:
        c = f.values if hasattr(f, 'values') else f.comp_x
        res.append([q(time), M if f.mask[0, 0] else q(c[0, 0])])
    return RET, res


@call('t', 'comp')
def t_comp(rec, e):
    t = rec.W[e['s']]
    return OBJ, (t.Vx_as_sf if e['a']['c'] == 1 else t.Vy_as_sf)


@call('t', 'crop')
def t_crop(rec, e):
    a = e['a']
    t = rec.W[e['s']]
    if a['mode'] == 'ind':
        w = [None if len(x) == 0 else list(x) for x in (a['wx'], a['wy'], a['wt'])]
        kw = {'ind': True}
    else:
        w = [win(a['wx'], t.axe_x), win(a['wy'], t.axe_y), win(a['wt'], t.times)]
        kw = {}
    return OBJ, t.crop(intervx=w[0], intervy=w[1], intervt=w[2], **IP(e), **kw)


@call('t', 'cropb')
def t_cropb(rec, e):
    return OBJ, rec.W[e['s']].crop_masked_border(**opt(e, {'hard': e['a']['hard']}, hard=False), **IP(e))


@call('t', 'extend')
def t_extend(rec, e):
    a = e['a']
    return OBJ, rec.W[e['s']].extend(nmb_left=a['l'], nmb_right=a['r'], nmb_up=a['u'],
                                     nmb_down=a['d'], **IP(e))


@call('t', 'rotate')
def t_rotate(rec, e):
    return OBJ, rec.W[e['s']].rotate(e['a']['angle'], **IP(e))


@call('t', 'mirror')
def t_mirror(rec, e):
    a = e['a']
    t = rec.W[e['s']]
    coef = fls(a['coef']) if len(a['coef']) == 2 else fl(a['coef'][0])
    return OBJ, t.mirroring(a['dir'], fl(a['pos']), inds_to_mirror='all' if a['n'] == 0 else a['n'],
                            mir_coef=coef, **IP(e))


@call('t', 'scale')
def t_scale(rec, e):
    a = e['a']
    kw = {}
    for n, k in (('scalex', 'fx'), ('scaley', 'fy'), ('scalev', 'fv'), ('scalet', 'ft')):
        v = factor(a[k])
        if v is not None:
            kw[n] = v
    return OBJ, rec.W[e['s']].scale(**IP(e), **kw)


@call('t', 'unit')
def t_unit(rec, e):
    a = e['a']
    rec.W[e['s']].change_unit(a['axe'], a['us'] if a.get('str', True) else unit(a['us']))
    return NOTHING, None


@call('t', 'origin')
def t_origin(rec, e):
    a = e['a']
    kw = {}
    if a.get('hx', True):
        kw['x'] = fl(a['x'])
    if a.get('hy', True):
        kw['y'] = fl(a['y'])
    rec.W[e['s']].set_origin(**kw)
    return NOTHING, None


@call('t', 'reduce')
def t_reduce(rec, e):
    return OBJ, rec.W[e['s']].reduce_spatial_resolution(e['a']['fact'], **IP(e))


@call('t', 'smooth')
def t_smooth(rec, e):
    return OBJ, rec.W[e['s']].smooth(tos='uniform', size=e['a']['size'], **IP(e))


@call('t', 'even')
def t_even(rec, e):
    rec.W[e['s']].make_evenly_spaced(interp='linear', res=number(e['a']['res']))
    return NOTHING, None


@call('t', 'fillv')
def t_fillv(rec, e):
    a = e['a']
    v = fl(a['val'][0]) if len(a['val']) == 1 else fls(a['val'])
    return OBJ, rec.W[e['s']].fill(kind='value', value=v, **opt(e, {'crop': a['crop']}, crop=False), **IP(e))


@call('t', 'fills')
def t_fills(rec, e):
    return OBJ, rec.W[e['s']].fill(**opt(e, {'kind': e['a']['kind']}, kind='linear'), **IP(e))


@call('t', 'fillt')
def t_fillt(rec, e):
    a = e['a']
    kw = {}
    if a['kind'] == 'value':
        kw['value'] = fl(a['val'][0]) if len(a['val']) == 1 else fls(a['val'])
    return OBJ, rec.W[e['s']].fill(tof='temporal', **opt(e, {'kind': a['kind']}, kind='linear'), **IP(e), **kw)


@call('t', 'addfield', 'addt')
def t_add(rec, e):
    t, g = rec.W[e['s']], rec.W[e['t']]
    return OBJ, (t - g if e['a']['sub'] else t + g)


@call('t', 'addq')
def t_addq(rec, e):
    t, x = rec.W[e['s']], quantity(e['a'])
    return OBJ, (t - (-x) if e['a'].get('how') == 'sub' else t + x)


@call('t', 'neg')
def t_neg(rec, e):
    return OBJ, -rec.W[e['s']]


@call('t', 'mulq')
def t_mulq(rec, e):
    t, x = rec.W[e['s']], quantity(e['a'])
    if e['a'].get('how') == 'l' and e['a']['kind'] == 'num':
        return OBJ, x * t
    return OBJ, t * x


@call('t', 'divq')
def t_divq(rec, e):
    return OBJ, rec.W[e['s']] / quantity(e['a'])


@call('t', 'mult')
def t_mult(rec, e):
    return OBJ, rec.W[e['s']] * rec.W[e['t']]


@call('t', 'divt', 'divfield')
def t_divt(rec, e):
    return OBJ, rec.W[e['s']] / rec.W[e['t']]


@call('t', 'pow')
def t_pow(rec, e):
    return OBJ, rec.W[e['s']] ** e['a']['n']


@call('t', 'mean')
def t_mean(rec, e):
    return OBJ, rec.W[e['s']].get_mean_field(**opt(e, {'nmb_min': e['a']['n']}, nmb_min=1))


@call('t', 'min')
def t_min(rec, e):
    return OBJ, rec.W[e['s']].get_min_field(**opt(e, {'nmb_min': e['a']['n']}, nmb_min=1))


@call('t', 'max')
def t_max(rec, e):
    return OBJ, rec.W[e['s']].get_max_field(**opt(e, {'nmb_min': e['a']['n']}, nmb_min=1))


@call('t', 'fluct')
def t_fluct(rec, e):
    return OBJ, rec.W[e['s']].get_fluctuant_fields(**opt(e, {'nmb_min_mean': e['a']['n']}, nmb_min_mean=1))


@call('t', 'mke')
def t_mke(rec, e):
    return OBJ, rec.W[e['s']].get_mean_kinetic_energy()


@call('t', 'tke')
def t_tke(rec, e):
    return OBJ, rec.W[e['s']].get_tke()


@call('t', 'meantke')
def t_meantke(rec, e):
    return OBJ, rec.W[e['s']].get_mean_tke()


@call('t', 'reynolds')
def t_reynolds(rec, e):
    a = e['a']
    return OBJ, rec.W[e['s']].get_reynolds_stress(nmb_val_min=a['n'])[
        {(1, 1): 0, (2, 2): 1, (1, 2): 2}[(a['i'], a['j'])]]


@call('t', 'cum')
def t_cum(rec, e):
    t = rec.W[e['s']]
    if e['a'].get('sf'):
        f = t.mask_cum_as_sf
        return RET, [[[bool(x) for x in row] for row in f.values], qs(f.axe_x), qs(f.axe_y), uvec(f.unit_x),
                     uvec(f.unit_y)]
    else:
        v = t.mask_cum
    return RET, [[[bool(x) for x in row] for row in v]]


@call('t', 'recmap')
def t_recmap(rec, e):
    a = e['a']
    s = rec.W[e['s']].get_recurrence_map(norm=a['p'], bandwidth=a['band'] or None)
    return RET, [[[M if s.mask[i, j] else q(float(s.values[i, j])**a['p'])
                   for j in range(s.shape[1])] for i in range(s.shape[0])]] + frame(s)


@call('t', 'tprof')
def t_tprof(rec, e):
    a = e['a']
    t = rec.W[e['s']]
    comp = a['comp']
    kw = {}
    if len(a['wt']):
        kw['wanted_times'] = win(a['wt'], t.times)
    if a['ind']:
        return OBJ, t.get_time_profile(comp, [a['x'][0], a['y'][0]], ind=True, **kw)
    return OBJ, t.get_time_profile(comp, [co(a['x'], t.axe_x), co(a['y'], t.axe_y)], **kw)


@call('t', 'tprofp')
def t_tprofp(rec, e):
    from IMTreatment import Points
    a = e['a']
    t = rec.W[e['s']]
    kw = {}
    if len(a['wt']):
        kw['wanted_times'] = win(a['wt'], t.times)
    p = Points(xy=[[co(x[0], t.axe_x), co(x[1], t.axe_y)] for x in a['pts']],
               v=[co(x[2], t.times) for x in a['pts']])
    return OBJ, t.get_time_profile(a['comp'], p, **kw)


@call('t', 'inject')
def t_inject(rec, e):
    a = e['a']
    t = rec.W[e['s']]
    if a['ind']:
        t.inject_time_profile(a['comp'], [a['x'][0], a['y'][0]], rec.W[e['t']], ind=True)
    else:
        t.inject_time_profile(a['comp'], [co(a['x'], t.axe_x), co(a['y'], t.axe_y)], rec.W[e['t']])
    return NOTHING, None


@call('t', 'interp')
def t_interp(rec, e):
    t = rec.W[e['s']]
    return OBJ, t.get_interpolated_field(co(e['a']['time'], t.times))


@call('t', 'reducet')
def t_reducet(rec, e):
    return OBJ, rec.W[e['s']].reduce_temporal_resolution(e['a']['n'], **opt(e, {'mean': e['a']['mean']}, mean=True),
                                                         **IP(e))


@call('t', 'augt')
def t_augt(rec, e):
    return OBJ, rec.W[e['s']].augment_temporal_resolution(**opt(e, {'fact': e['a']['fact']}, fact=2), **IP(e))
