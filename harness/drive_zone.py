"""Zones and histograms of scalar fields."""
import numpy as np
from drive import call, OBJ, RET, NOTHING, fl, opt, given, coin
from proj import q, uvec


@call('z', 'zones')
def z_zones(rec, e):
    a = e['a']
    kw = opt(e, {'rel': a['rel'], 'kind': a['kind']}, rel=True, kind='ponderated')
    b = [fl(x) for x in a['b']]
    if b != [.75, 1] or coin(e):
        kw['bornes'] = given(np.array(b)) if e['s'] % 2 else b
    p = rec.W[e['s']].get_zones_centers(**kw)
    if p is None:
        return NOTHING, None
    return OBJ, p


@call('z', 'hist')
def z_hist(rec, e):
    a = e['a']
    kw = opt(e, {'cum': a['cum'], 'normalized': a['norm']}, cum=False, normalized=False)
    if a['bins'] != 10 or coin(e):
        kw['bins'] = a['bins']
    if a['range']:
        kw['range'] = [fl(x) for x in a['range']]
    h = rec.W[e['s']].get_histogram(**kw)
    if np.any(h.mask):
        return RET, ['masked']
    mag = float(np.max(np.abs(h.x)))
    return RET, [[q(x, mag) for x in h.x], [q(y) for y in h.y], uvec(h.unit_x)]
