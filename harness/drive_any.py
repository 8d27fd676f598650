"""Calls that make sense on any object: negating all values through the arrays
the library hands out, and calls whose arguments make no sense."""
import numpy as np
from drive import call, NOTHING


def _arrays(o, k):
    if k == 'F':
        return [o.values] if hasattr(o, 'values') else [o.comp_x, o.comp_y]
    if k == 'T':
        return [a for f in o.fields for a in _arrays(f, 'F')]
    if k == 'P':
        return [o.y]
    if k in ('S', 'O'):
        return [o.xy] + ([o.v] if o.v is not None and len(o.v) else [])
    if k == 'TP':
        return [a for p in o.point_sets for a in _arrays(p, 'S')]
    if k == 'CP':
        ps = [p for kind in o.iter + [t for t in o.iter_traj if t is not None] for p in kind]
        return [a for p in ps for a in _arrays(p, 'S')]
    return []


@call('x', 'flip')
def x_flip(rec, e):
    o = rec.W[e['s']]
    for a in _arrays(o, rec.last[e['s']]['k']):
        a *= -1
    return NOTHING, None


def _u(s):
    from IMTreatment.utils import make_unit
    return make_unit(s)


def _mkpts(**k):
    from IMTreatment import Points
    return Points(**k)


def _mkprof(*a):
    from IMTreatment import Profile
    return Profile(*a)


def _mkopts(*a, **k):
    from IMTreatment.core import OrientedPoints
    return OrientedPoints(*a, **k)


ANY = {
    'unit-axis': lambda o: o.change_unit('w', 'm'),
    'scale-text': lambda o: o.scale(scalex='2'),
}
FIELD = dict(ANY, **{
    'unit-dim': lambda o: o.change_unit('x', 'kg'),
    'crop-1': lambda o: o.crop(intervx=[1.]),
    'crop-3': lambda o: o.crop(intervy=[1., 2., 3.]),
    'crop-text': lambda o: o.crop(intervx='ab'),
    'rotate-45': lambda o: o.rotate(45),
    'rotate-100': lambda o: o.rotate(100, inplace=True),
    'rotate-text': lambda o: o.rotate('90'),
    'extend-half': lambda o: o.extend(nmb_left=1.5),
    'extend-down': lambda o: o.extend(nmb_up=-1, inplace=True),
    'smooth-kind': lambda o: o.smooth('soft', inplace=True),
    'mirror-3': lambda o: o.mirroring(3, 0.),
})
F = dict(FIELD, **{
    'ionaxe-3': lambda o: o.get_indice_on_axe(3, 0.),
    'ionaxe-text': lambda o: o.get_indice_on_axe(1, 'a'),
    'ionaxe-kind': lambda o: o.get_indice_on_axe(1, float(o.axe_x[0]), kind='around'),
    'value-far': lambda o: o.get_value(o.axe_x[-1] + 1., o.axe_y[0]),
    'value-low': lambda o: o.get_value(o.axe_x[0], o.axe_y[0] - 1.),
    'value-ind': lambda o: o.get_value(len(o.axe_x), 0, ind=True),
    'mask-shape': lambda o: setattr(o, 'mask', np.zeros((len(o.axe_x) + 1, len(o.axe_y)), dtype=bool)),
    'pow-text': lambda o: o ** 'a',
    'add-text': lambda o: o + 'a',
    'mul-text': lambda o: o * 'a',
    'div-text': lambda o: o / 'a',
    'reduce-0': lambda o: o.reduce_spatial_resolution(0, inplace=True),
})
T = dict({k: f for k, f in FIELD.items() if k != 'smooth-kind'}, **{
    'crop-t1': lambda o: o.crop(intervt=[1.]),
    'add-5': lambda o: o.add_field(5),
    'add-unit': lambda o: o.add_field(o.fields[0], time=9., unit_times=2*_u('s')),
    'add-time': lambda o: o.add_field(o.fields[0], time='a'),
    'add-grid': lambda o: o.add_field(_moved(o.fields[0]), time=9., unit_times=o.unit_times),
    'add-type': lambda o: o.add_field(_other(o.fields[0]), time=9., unit_times=o.unit_times),
    'rmf-far': lambda o: o.remove_fields(len(o.fields) + 3),
    'rmf-list': lambda o: o.remove_fields([0, len(o.fields) + 3]),
    'reducet-0': lambda o: o.reduce_temporal_resolution(0, inplace=True),
    'interp-late': lambda o: o.get_interpolated_field(o.times[-1] + 1.),
    'interp-early': lambda o: o.get_interpolated_field(o.times[0] - 1.),
    'tprof-x': lambda o: o.get_time_profile(_comp(o), (len(o.axe_x), 0), ind=True),
    'tprof-y': lambda o: o.get_time_profile(_comp(o), (0, len(o.axe_y)), ind=True),
    'tprof-half': lambda o: o.get_time_profile(_comp(o), (0.5, 0), ind=True),
    'tprof-half2': lambda o: o.get_time_profile(_comp(o), (0, 0.5), ind=True),
    'tprof-window': lambda o: o.get_time_profile(_comp(o), (0, 0), wanted_times=[2., 1.], ind=True),
    'times-count': lambda o: setattr(o, 'times', [1.]*(len(o.fields) + 1)),
})


def _comp(o):
    return 'values' if hasattr(o.fields[0], 'values') else 'comp_x'


def _moved(f):
    f = f.copy()
    f.set_origin(3., 5.)
    return f


def _other(f):
    return f.magnitude_as_sf if hasattr(f, 'comp_x') else 5.


P = dict(ANY, **{
    'make-length': lambda o: _mkprof([1., 2., 3.], [1., 2.]),
    'crop-1': lambda o: o.crop(intervx=[1.]),
    'crop-y1': lambda o: o.crop(intervy=[1.]),
    'crop-indy': lambda o: o.crop(intervy=[0., 1.], ind=True),
    'augment-0': lambda o: o.augment_resolution(fact=0),
    'augment-kind': lambda o: o.augment_resolution(fact=2, interp='soft'),
    'ip-none': lambda o: o.get_interpolated_values(),
    'ip-both': lambda o: o.get_interpolated_values(x=1., y=1.),
    'conv-mode': lambda o: o.get_convolution(o, mode='soft'),
    'rmpt-neg': lambda o: o.remove_point(-1),
    'smooth-kind': lambda o: o.smooth('soft', inplace=True),
    'smooth-dir': lambda o: o.smooth('uniform', direction='w', inplace=True),
    'add-longer': lambda o: o + _mkprof(list(range(len(o) + 1)), list(range(len(o) + 1))),
    'add-text': lambda o: o + 'a',
    'pow-text': lambda o: o ** 'a',
    'unit-dim': lambda o: o.change_unit('x', 'cd'),
})
S = dict(ANY, **{
    'make-3': lambda o: _mkpts(xy=[[1., 2., 3.]]),
    'make-flat': lambda o: _mkpts(xy=[1., 2.]),
    'make-v': lambda o: _mkpts(xy=[[1., 2.]], v=[1., 2.]),
    'add-3': lambda o: o.add([1., 2., 3.]),
    'toprof-x': lambda o: o.export_to_profile('w', 'y'),
    'toprof-y': lambda o: o.export_to_profile('x', 'w'),
    'sort-ref': lambda o: o.sort(ref='w'),
    'sort-length': lambda o: o.sort(ref=list(range(len(o) + 1))),
    'veloc-smooth': lambda o: o.get_velocity(smooth=-1),
    'veloc-axis': lambda o: o.get_velocity(xaxis='w'),
    'rm-far': lambda o: o.remove(len(o) + 2),
    'crop-ind': lambda o: o.crop(intervx=[0., 1.], ind=True, intervv=[0, 1]),
    'crop-indy': lambda o: o.crop(intervy=[0., 1.], ind=True, intervv=[0, 1]),
    'setv-length': lambda o: setattr(o, 'v', [1.]*(len(o) + 2)),
    'setv-2d': lambda o: setattr(o, 'v', [[1.]*max(1, len(o))]),
    'setxy-3': lambda o: setattr(o, 'xy', [[1., 2., 3.]]),
    'unit-dim': lambda o: o.change_unit('x', 'cd'),
})
O = dict(S, **{
    'omake-dim': lambda o: _mkopts([[1., 2.]], orientations=[[1., 0.]]),
    'omake-count': lambda o: _mkopts([[1., 2.]], orientations=[[[1., 0.]], [[1., 0.]]]),
    'seto-count': lambda o: setattr(o, 'orientations', [[[1., 0.]]]*(len(o) + 1)),
})
TP = dict(ANY, **{
    'add-5': lambda o: o.add_pts(5),
    'add-unit': lambda o: o.add_pts(_mkpts(xy=[[1., 2.]]), time=9., unit_times=2*_u('s')),
    'add-time': lambda o: o.add_pts(_mkpts(xy=[[1., 2.]]), time='a'),
    'crop-t1': lambda o: o.crop(intervt=[1.]),
    'rm-far': lambda o: o.remove_pts(len(o.point_sets) + 3),
})
CP = dict(ANY, **{
    'add-5': lambda o: o.add_point(foc=5, time=9.),
    'add-text': lambda o: o.add_point(foc=_mkpts(xy=[[1., 2.]], unit_x=o.unit_x, unit_y=o.unit_y), time='a'),
    'add-notime': lambda o: o.add_point(foc=_mkpts(xy=[[1., 2.]], unit_x=o.unit_x, unit_y=o.unit_y)),
    'add-units': lambda o: o.add_point(foc=_mkpts(xy=[[1., 2.]], unit_x=o.unit_x, unit_y=o.unit_y), time=77.,
                                       sadd=_mkpts(xy=[[1., 2.]], unit_x='K', unit_y='K')),
    'sum-5': lambda o: o + 5,
    'rm-none': lambda o: o.remove_point(),
    'rm-both': lambda o: o.remove_point(time=o.times[0], indice=0),
    'rm-text': lambda o: o.remove_point(time='a'),
    'traj-text': lambda o: o.compute_traj(epsilon='a'),
    'traj-kg': lambda o: o.compute_traj(epsilon=2.*_u('K')),
    'topo-kind': lambda o: o.topo_simplify(1., kind='soft'),
    'unit-dim': lambda o: o.change_unit('x', 'K'),
    'unit-time': lambda o: o.change_unit('time', 'K'),
})
BAD = {'CP': CP, 'F': F, 'T': T, 'P': P, 'S': S, 'O': O, 'TP': TP}


@call('x', 'bad')
def x_bad(rec, e):
    o = rec.W[e['s']]
    BAD[rec.last[e['s']]['k']][e['a']['what']](o)
    return NOTHING, None


def _nonempty(js):
    return js['k'] in BAD and all(len(js[n]) for n in ('fs', 'ps', 'xy', 'ts') if n in js)


def tail(g, rec):
    """every history ends with calls that must be refused, or with writing
    through one object, which must leave all the others alone"""
    if rec.broken:
        return
    live = [i for i in range(1, len(rec.last)) if rec.last[i]['k'] in BAD]
    # points of a profile at the same abscissa have no order
    live = [i for i in live if rec.last[i]['k'] != 'P'
            or len(set(map(tuple, rec.last[i]['x']))) == len(rec.last[i]['x'])]
    if not live:
        return
    for _ in range(2):
        s = g.choice(live)
        if g.random() < .3 and _nonempty(rec.last[s]):
            rec.do('x', 'bad', s=s, a={'what': g.choice(sorted(BAD[rec.last[s]['k']]))})
        else:
            rec.do('x', 'flip', s=s, ip=True)
