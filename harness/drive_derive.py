"""Derivatives and vortex criteria of the real library."""
import numpy as np
from drive import call, OBJ, RET, fl
import proj
from proj import q, M


def _mat(a, fn=None, mask=None):
    """array -> matrix of rationals; masked entries are absent"""
    mk = np.ma.getmaskarray(a) if mask is None else mask
    a = np.ma.getdata(a)
    return [[M if mk[i, j] else q(fn(a[i, j]) if fn else a[i, j]) for j in range(a.shape[1])]
            for i in range(a.shape[0])]


def _square(sf, fn):
    """the field of fn(value)"""
    from IMTreatment import ScalarField
    res = ScalarField()
    mask = np.array(sf.mask, dtype=bool)
    vals = np.array(sf.values, dtype=float)
    vals[~mask] = fn(vals[~mask])
    vals[mask] = 0.
    res.import_from_arrays(sf.axe_x, sf.axe_y, vals, mask=mask, unit_x=sf.unit_x,
                           unit_y=sf.unit_y, unit_values=sf.unit_values)
    return res


def _arg_mask(a):
    return {} if not a['mask'] else {'mask': np.array(a['mask'], dtype=bool)}


def _ft():
    import IMTreatment.field_treatment as ft
    return ft


def _vc():
    import IMTreatment.vortex_criterions as vc
    return vc


@call('g', 'grad')
def g_grad(rec, e):
    return OBJ, _ft().get_gradients(rec.W[e['s']])[e['a']['k'] - 1]


@call('g', 'graw')
def g_graw(rec, e):
    return RET, [_mat(x) for x in _ft().get_gradients(rec.W[e['s']], raw=True)]


@call('g', 'gfield')
def g_gfield(rec, e):
    return OBJ, _ft().get_grad_field(rec.W[e['s']], direction=e['a']['dir'])


@call('g', 'shear')
def g_shear(rec, e):
    return OBJ, _ft().get_shear_stress(rec.W[e['s']])


@call('g', 'track')
def g_track(rec, e):
    return OBJ, _ft().get_track_field(rec.W[e['s']])


@call('g', 'div')
def g_div(rec, e):
    return OBJ, _ft().get_divergence(rec.W[e['s']])


@call('g', 'cdiv')
def g_cdiv(rec, e):
    return OBJ, _vc().get_divergence(rec.W[e['s']])


@call('g', 'vort')
def g_vort(rec, e):
    return OBJ, _vc().get_vorticity(rec.W[e['s']])


@call('g', 'stokes')
def g_stokes(rec, e):
    return OBJ, _vc().get_stokes_vorticity(rec.W[e['s']], window_size=e['a']['w'])


LOCAL = {'q': ('get_q_criterion', None), 'nk2': ('get_Nk_criterion', np.square),
         'delta': ('get_delta_criterion', None), 'lam2': ('get_lambda2', None),
         'sw2': ('get_swirling_strength', np.square),
         'isw2': ('get_improved_swirling_strength', lambda x: np.sign(x) * x**2)}


@call('g', 'local')
def g_local(rec, e):
    a = e['a']
    name, fn = LOCAL[a['kind']]
    res = getattr(_vc(), name)(rec.W[e['s']], **_arg_mask(a))
    return OBJ, res if fn is None else _square(res, fn)


@call('g', 'lraw')
def g_lraw(rec, e):
    a = e['a']
    name, fn = LOCAL[a['kind']]
    return RET, _mat(getattr(_vc(), name)(rec.W[e['s']], raw=True, **_arg_mask(a)), fn)


def _sign(x):
    return 0 if abs(x) < 1e-9 else int(np.sign(x))


@call('g', 'kolar')
def g_kolar(rec, e):
    o = rec.W[e['s']]
    vc = _vc()
    res, shear = vc.get_residual_vorticity(o), vc.get_shear_vorticity(o)
    if hasattr(o, 'fields'):
        pairs = list(zip(res.fields, shear.fields))
        raws = vc.get_residual_vorticity(o, raw=True)
    else:
        pairs = [(res, shear)]
        raws = [vc.get_residual_vorticity(o, raw=True)]
    out = []
    for (rr, ss), raw in zip(pairs, raws):
        if not np.allclose(raw, rr.values):
            raise AssertionError('raw')
        out.append([_mat(rr.values + ss.values, mask=np.logical_or(rr.mask, ss.mask)),
                    _mat(ss.values, np.square, mask=ss.mask), _mat(rr.values, _sign, mask=rr.mask)])
    return RET, out


def _like(f, o):
    """f is on the grid of o, without value unit"""
    return np.array_equal(f.axe_x, o.axe_x) and np.array_equal(f.axe_y, o.axe_y) and \
        [proj.uvec(u) for u in (f.unit_x, f.unit_y, f.unit_values)] == \
        [proj.uvec(u) for u in (o.unit_x, o.unit_y)] + [proj.UVEC['']]


def _eigenvectors(o, vf, lam, where):
    """J v = lam v, |v| = 1"""
    dx, dy = o.axe_x[1] - o.axe_x[0], o.axe_y[1] - o.axe_y[0]
    x, y = np.array(vf.comp_x), np.array(vf.comp_y)
    ok = np.allclose((x**2 + y**2)[where], 1.)
    for c, v in ((o.comp_x, x), (o.comp_y, y)):
        cx, cy = np.gradient(np.where(o.mask, np.nan, np.array(c, dtype=float)), dx, dy)
        ok = ok and np.allclose((cx*x + cy*y)[where], (lam*v)[where])
    return bool(ok)


def _built(f, vals, mask, unit):
    from IMTreatment import ScalarField
    res = ScalarField()
    vals = np.array(vals, dtype=float)
    vals[mask] = 0.
    res.import_from_arrays(f.axe_x, f.axe_y, vals, mask=mask, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=unit)
    return res


def _each(objs, fn):
    """fn of fields, or of the fields of each time"""
    if not hasattr(objs[0], 'fields'):
        return fn(*objs)
    from IMTreatment import TemporalScalarFields
    res = TemporalScalarFields()
    for n, fs in enumerate(zip(*[o.fields for o in objs])):
        res.add_field(fn(*fs), time=objs[0].times[n], unit_times=objs[0].unit_times)
    if any(list(o.times) != list(res.times) or proj.uvec(o.unit_times) != proj.uvec(res.unit_times) for o in objs):
        raise AssertionError('times')
    return res


@call('g', 'ksum')
def g_ksum(rec, e):
    """residual and shear vorticities together"""
    def add(rr, ss):
        if any(proj.uvec(getattr(rr, u)) != proj.uvec(getattr(ss, u)) for u in ('unit_x', 'unit_y', 'unit_values')) \
                or not np.array_equal(rr.axe_x, ss.axe_x) or not np.array_equal(rr.axe_y, ss.axe_y):
            raise AssertionError('grid')
        return _built(rr, rr.values + ss.values, np.logical_or(rr.mask, ss.mask), rr.unit_values)
    o = rec.W[e['s']]
    vc = _vc()
    return OBJ, _each([vc.get_residual_vorticity(o), vc.get_shear_vorticity(o)], add)


@call('g', 'kshear')
def g_kshear(rec, e):
    """the square of the shear vorticity"""
    return OBJ, _each([_vc().get_shear_vorticity(rec.W[e['s']])],
                      lambda f: _built(f, f.values**2, f.mask, f.unit_values**2))


@call('g', 'eigen')
def g_eigen(rec, e):
    o = rec.W[e['s']]
    if e['a']['raw']:
        r1, i1, r2, i2 = _ft().get_jacobian_eigenproperties(o, raw=True, eig_vect=False)
        mask = np.zeros(r1.shape, dtype=bool)
    else:
        fs = _ft().get_jacobian_eigenproperties(o, eig_vect=False)
        vfs = _ft().get_jacobian_eigenproperties(o)[4:] + _ft().get_jacobian_eigenproperties(o, eig_val=False)
        mask = np.logical_or.reduce([f.mask for f in fs])
        r1, i1, r2, i2 = [f.values for f in fs]
    one, two = r1 + 1j * i1, r2 + 1j * i2
    good = ~mask
    first = np.all(r1[good] >= r2[good]) and np.all(i1[good] >= 0) \
        and np.allclose(np.imag((one * two)[good]), 0) and np.allclose(i1[good], -i2[good])
    if not e['a']['raw']:
        first = first and all(_like(f, o) for f in fs + vfs) and len(vfs) == 4
        for vf, lam in zip(vfs, [r1, r2, r1, r2]):
            first = first and np.array_equal(vf.mask, mask) and _eigenvectors(o, vf, lam, good & (i1 == 0))
    return RET, [_mat(r1 + r2, mask=mask), _mat(np.real(one * two), mask=mask),
                 _mat(i1, np.square, mask=mask), bool(first)]


def _nl(rec, e, raw):
    a = e['a']
    vc = _vc()
    kw = _arg_mask(a)
    if not a.get('default'):
        kw['radius'] = fl(a['r'])
        if a['ind'] or not a.get('noind'):
            kw['ind'] = a['ind']
    if raw:
        kw['raw'] = True
    o = rec.W[e['s']]
    k = a['kind']
    if k.startswith('gamma'):
        return vc.get_gamma(o, kind=k, **kw), None
    if k.startswith('kappa'):
        return vc.get_kappa(o, kind=k, **kw), None
    if k == 'angle':
        fn = None if a['order'] == 1 else lambda x: (1. - x)**2
        return vc.get_angle_deviation(o, local_treatment=a['loc'], order=a['order'], **kw), fn
    if k == 'nlres':
        return vc.get_NL_residual_vorticity(o, **kw), None
    return vc.get_enstrophy(o, **kw), None


@call('g', 'nl')
def g_nl(rec, e):
    res, fn = _nl(rec, e, False)
    return OBJ, res if fn is None else _square(res, fn)


@call('g', 'nlraw')
def g_nlraw(rec, e):
    res, fn = _nl(rec, e, True)
    return RET, _mat(res, fn)


@call('g', 'iota')
def g_iota(rec, e):
    res = _vc().get_iota(rec.W[e['s']], **_arg_mask(e['a']))
    return OBJ, _square(res, lambda x: (2. * x / (np.pi / 4.))**2)


@call('g', 'recon')
def g_recon(rec, e):
    ft = _ft()
    return OBJ, ft.reconstruct_from_gradients(*ft.get_gradients(rec.W[e['s']]))


@call('g', 'recon2')
def g_recon2(rec, e):
    return OBJ, _ft().reconstruct_from_gradients(rec.W[e['s']], rec.W[e['t']])


@call('g', 'reconv')
def g_reconv(rec, e):
    return OBJ, _ft().reconstruct_from_gradients(rec.W[e['s']], rec.W[e['t']], rec.W[e['a']['s2']], rec.W[e['a']['t2']])
