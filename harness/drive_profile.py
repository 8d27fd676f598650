"""Calls on profiles."""
import numpy as np
from proj import q, qs, fl, fls, uvec, uquant, M, NAN
from drive import call, given, unit, number, quantity, factor, IP, opt, OBJ, RET, NOTHING


def vals(o):
    """any sequence of numbers, masked ones included"""
    if isinstance(o, np.ma.MaskedArray):
        o = [o[i] for i in range(len(o))]
    return [q(x) if not np.ma.is_masked(x) else M for x in o]


@call('p', 'mk')
def p_mk(rec, e):
    from IMTreatment import Profile
    a = e['a']
    x, y = fls(a['x']), fls(a['y'])
    mask = [bool(m) for m in a['mask']]
    if a.get('form', 'array') == 'array':
        x, y, mask = np.array(x), np.array(y), np.array(mask)
    if a.get('maskarg') == 'false':
        mask = False
    elif a.get('maskarg') == 'true':
        mask = True
    elif a.get('maskarg') == 'float':
        mask = np.array(mask, dtype=float)
    ux, uy = a['uxs'], a['uys']
    if a.get('unitobj'):
        ux, uy = unit(ux), unit(uy)
    res = Profile(x, y, mask=mask, unit_x=ux, unit_y=uy, name='p')
    # the caller keeps its arrays and may change them
    for arr in (x, y, mask):
        if isinstance(arr, np.ndarray) and len(arr):
            arr[0] = arr[-1] + 1 if arr.dtype != bool else not arr[0]
    return OBJ, res


@call('p', 'copy')
def p_copy(rec, e):
    return OBJ, rec.W[e['s']].copy()


@call('p', 'eq')
def p_eq(rec, e):
    return RET, [bool(rec.W[e['s']] == rec.W[e['t']])]


@call('p', 'len')
def p_len(rec, e):
    return RET, [q(len(rec.W[e['s']]))]


@call('p', 'setx')
def p_setx(rec, e):
    x = fls(e['a']['x'])
    rec.W[e['s']].x = given(np.array(x)) if e['a'].get('form') == 'array' else x
    return NOTHING, None


@call('p', 'sety')
def p_sety(rec, e):
    y = fls(e['a']['y'])
    y = np.array(y) if e['a'].get('form') == 'array' else y
    rec.W[e['s']].y = y
    if isinstance(y, np.ndarray):
        y[0] = 77.
    return NOTHING, None


@call('p', 'poke')
def p_poke(rec, e):
    rec.W[e['s']].y[e['a']['i']] = fl(e['a']['v'])
    return NOTHING, None


@call('p', 'setmask')
def p_setmask(rec, e):
    m = given(np.array([bool(x) for x in e['a']['mask']]))
    if e['a'].get('how') == 'in':
        rec.W[e['s']].mask[m] = True
    elif e['a'].get('how') == 'bool':
        rec.W[e['s']].mask = bool(m[0])
    else:
        rec.W[e['s']].mask = m
    return NOTHING, None


@call('p', 'setunit')
def p_setunit(rec, e):
    a = e['a']
    u = a['us'] if a.get('str') else unit(a['us'])
    setattr(rec.W[e['s']], 'unit_' + a['axe'], u)
    return NOTHING, None


@call('p', 'addpt')
def p_addpt(rec, e):
    rec.W[e['s']].add_point(number(e['a']['x']), fl(e['a']['y']))
    return NOTHING, None


@call('p', 'addpts')
def p_addpts(rec, e):
    rec.W[e['s']].add_points(rec.W[e['t']])
    return NOTHING, None


@call('p', 'rmpt')
def p_rmpt(rec, e):
    rec.W[e['s']].remove_point(e['a']['i'])
    return NOTHING, None


@call('p', 'crop')
def p_crop(rec, e):
    a = e['a']
    kw = {}
    if a['mode'] == 'ind':
        kw = dict(intervx=list(a['wi']), ind=True)
    elif a['mode'] == 'x':
        kw = dict(intervx=fls(a['w']))
    elif a['mode'] == 'y':
        kw = dict(intervy=fls(a['w']))
    else:
        kw = dict(intervx=fls(a['w']), intervy=fls(a['wy']))
    return OBJ, rec.W[e['s']].crop(**IP(e), **kw)


@call('p', 'cropb')
def p_cropb(rec, e):
    return OBJ, rec.W[e['s']].crop_masked_border(**IP(e))


@call('p', 'scale')
def p_scale(rec, e):
    a = e['a']
    kw = {}
    for k, f in (('scalex', a['fx']), ('scaley', a['fy'])):
        if f['kind'] != 'none':
            kw[k] = factor(f)
    return OBJ, rec.W[e['s']].scale(**IP(e), **kw)


@call('p', 'unit')
def p_unit(rec, e):
    a = e['a']
    rec.W[e['s']].change_unit(a['axe'], a['us'] if a.get('str', True) else unit(a['us']))
    return NOTHING, None


@call('p', 'rmnan')
def p_rmnan(rec, e):
    return OBJ, rec.W[e['s']].remove_nans(**IP(e))


@call('p', 'doub')
def p_doub(rec, e):
    return OBJ, rec.W[e['s']].remove_doublons(**opt(e, {'method': e['a']['how']}, method='average'), **IP(e))


@call('p', 'marg')
def p_marg(rec, e):
    return OBJ, rec.W[e['s']].remove_marginal_values(fact=fl(e['a']['f']), **IP(e))


@call('p', 'neg')
def p_neg(rec, e):
    return OBJ, -rec.W[e['s']]


@call('p', 'addq')
def p_addq(rec, e):
    x = quantity(e['a'])
    p = rec.W[e['s']]
    how = e['a']['how']
    if how == 'rsub':
        return OBJ, x - p if not hasattr(x, '_unit') else p.__rsub__(x)
    if how == 'sub':
        return OBJ, p - x
    return OBJ, p + x


@call('p', 'add')
def p_add(rec, e):
    p, r = rec.W[e['s']], rec.W[e['t']]
    return OBJ, p - r if e['a']['sub'] else p + r


@call('p', 'mulq')
def p_mulq(rec, e):
    x = quantity(e['a'])
    return OBJ, rec.W[e['s']] * x


@call('p', 'divq')
def p_divq(rec, e):
    return OBJ, rec.W[e['s']] / quantity(e['a'])


@call('p', 'mulp')
def p_mulp(rec, e):
    return OBJ, rec.W[e['s']] * rec.W[e['t']]


@call('p', 'divp')
def p_divp(rec, e):
    return OBJ, rec.W[e['s']] / rec.W[e['t']]


@call('p', 'pow')
def p_pow(rec, e):
    return OBJ, rec.W[e['s']] ** e['a']['n']


@call('p', 'stat')
def p_stat(rec, e):
    x = getattr(rec.W[e['s']], e['a']['kind'])
    return RET, [] if x is None else [q(x)]


@call('p', 'ipx')
def p_ipx(rec, e):
    a = e['a']
    x = fls(a['q']) if a['list'] else fl(a['q'][0])
    return RET, vals(rec.W[e['s']].get_interpolated_values(x=x, ind=a['ind']))


@call('p', 'ipy')
def p_ipy(rec, e):
    a = e['a']
    y = fls(a['q']) if a['list'] else fl(a['q'][0])
    return RET, vals(rec.W[e['s']].get_interpolated_values(y=y))


@call('p', 'vpos')
def p_vpos(rec, e):
    return RET, vals(rec.W[e['s']].get_value_position(fl(e['a']['v']), ind=e['a']['ind']))


@call('p', 'interp')
def p_interp(rec, e):
    a = e['a']
    f = rec.W[e['s']].get_interpolator(**opt(e, {'bounds_error': a['strict']}, bounds_error=True))
    return RET, [q(float(f(fl(a['q']))))]


@call('p', 'integ')
def p_integ(rec, e):
    x, u = rec.W[e['s']].get_integral()
    return RET, [q(x), uvec(u)]


@call('p', 'grad')
def p_grad(rec, e):
    return OBJ, rec.W[e['s']].get_gradient()


@call('p', 'gradat')
def p_gradat(rec, e):
    a = e['a']
    kw = {'wanted_dx': fl(a['dx'][0])} if a['dx'] else {}
    return RET, [q(float(rec.W[e['s']].get_gradient(position=fl(a['q']), **kw)))]


@call('p', 'fill')
def p_fill(rec, e):
    a = e['a']
    kw = {'crop': True} if a['crop'] else {}
    if a['kind'] == 'value':
        kw['fill_value'] = fl(a['v'])
    return OBJ, rec.W[e['s']].fill(**opt(e, {'kind': a['kind']}, kind='slinear'), **IP(e), **kw)


@call('p', 'smooth')
def p_smooth(rec, e):
    a = e['a']
    return OBJ, rec.W[e['s']].smooth(tos='uniform', size=a['size'], direction=a['dir'], **IP(e))


@call('p', 'even')
def p_even(rec, e):
    a = e['a']
    kw = {'dx': fl(a['dx'][0])} if a['dx'] else {}
    return OBJ, rec.W[e['s']].evenly_space(**IP(e), **kw)


@call('p', 'augment')
def p_augment(rec, e):
    return OBJ, rec.W[e['s']].augment_resolution(**opt(e, {'fact': e['a']['fact']}, fact=2), **IP(e, True))


@call('p', 'conv')
def p_conv(rec, e):
    return OBJ, rec.W[e['s']].get_convolution(rec.W[e['t']], mode=e['a']['mode'])
