"""Runs API calls on the real library and records what a user can observe."""
import copy
import json
import signal
import warnings
import zlib
import numpy as np
import unum
from proj import q, qs, fl, fls, p_obj, uvec, uquant, M, NAN, UNONE

NSLOTS = 6


class Returned(object):
    """stands for a call that returned something that is not an object"""


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


CALLS = {}      # (m, op) -> function(rec, e) -> (result, is_object)


def call(m, *ops):
    def deco(fn):
        for op in ops:
            CALLS[(m, op)] = fn
        return fn
    return deco


OBJ, RET, NOTHING = 'obj', 'ret', 'nothing'


def arrays(o, seen=None, out=None, depth=0):
    """the arrays of numbers an object is made of"""
    if out is None:
        seen, out = set(), []
    if id(o) in seen or depth > 8:
        return out
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for x in o.flat:
                arrays(x, seen, out, depth + 1)
        elif o.size:
            out.append(o)
    elif isinstance(o, (list, tuple, set)):
        for x in o:
            arrays(x, seen, out, depth + 1)
    elif isinstance(o, dict):
        for x in o.values():
            arrays(x, seen, out, depth + 1)
    elif type(o).__module__.startswith('IMTreatment'):
        arrays(o.__dict__, seen, out, depth + 1)
    return out


def overlap(a, b):
    return np.may_share_memory(a, b) and np.shares_memory(a, b)


class Recorder(object):
    def __init__(self, out):
        self.out = out
        self.n = 0
        self.events = 0
        self.timeouts = 0
        self.ops = {}
        signal.signal(signal.SIGALRM, _alarm)

    def reset(self, tid):
        self.W = [None] * (NSLOTS + 1)
        self.last = [{'k': 'E'}] * (NSLOTS + 1)
        self.tid = tid
        self.n += 1
        self.prog = []
        self.broken = False
        self.emit({'op': 'reset', 'id': tid})

    def emit(self, ev):
        self.out.write(json.dumps(ev, separators=(',', ':')) + '\n')

    def observe(self):
        ch = []
        for i in range(1, NSLOTS + 1):
            js = p_obj(copy.deepcopy(self.W[i]))    # looking changes nothing
            if js != self.last[i]:
                ch.append([i, js])
                self.last[i] = js
        return ch

    def shared(self):
        """the pairs of slots whose objects hold the same memory (0: the arrays of the caller)"""
        objs = [(i, arrays(self.W[i])) for i in range(1, NSLOTS + 1) if self.W[i] is not None]
        objs.insert(0, (0, GIVEN))
        return [[i, j] for k, (i, x) in enumerate(objs) for j, y in objs[k + 1:]
                if any(overlap(a, b) for a in x for b in y)]

    def do(self, m, op, s=0, t=0, d=0, ip=False, a=None, obs=True):
        e = {'id': self.tid, 'm': m, 'op': op, 's': s, 't': t, 'd': d, 'ip': bool(ip),
             'a': a or {'_': 0}}
        return self.run(e, obs)

    def run(self, e, obs=True):
        e = dict(e)
        e['id'] = self.tid
        self.prog.append({k: e[k] for k in ('m', 'op', 's', 't', 'd', 'ip', 'a')})
        e['ret'] = []
        e['err'] = False
        e['obs'] = obs
        e['ch'] = []
        fn = CALLS[(e['m'], e['op'])]
        del GIVEN[:]
        signal.alarm(15)
        res = None
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                kind, res = fn(self, e)
            if kind == OBJ:
                if not e['ip']:
                    self.W[e['d']] = res if res is not None else Returned()
            elif kind == RET:
                e['ret'] = res
        except Exception as ex:
            e['err'] = True
            if isinstance(ex, Timeout):
                self.timeouts += 1
            e['why'] = repr(ex)[:120]
        finally:
            signal.alarm(0)
        if obs:
            e['ch'] = self.observe()
        e['sh'] = self.shared()
        self.events += 1
        key = e['m'] + '.' + e['op']
        self.ops[key] = self.ops.get(key, 0) + 1
        self.emit(e)
        return e


# ---------------------------------------------------------------- arguments
def coin(e):
    """a choice between two ways of writing the same call"""
    return zlib.crc32(json.dumps([e['op'], e['s'], e['d'], e['a']], sort_keys=True).encode()) & 1


def opt(e, kw, **defaults):
    """half of the calls leave out the arguments that have their default value"""
    if coin(e):
        return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k])}
    return kw


def IP(e, default=False):
    return opt(e, {'inplace': e['ip']}, inplace=default)


def unit(s):
    from IMTreatment.utils import make_unit
    return make_unit(s)


def number(r):
    """ints stay ints, as a user would write them"""
    if r[1] == 1:
        return int(r[0])
    return fl(r)


def quantity(a):
    """a = {kind: num|unum, q: [r..], us: unit string}"""
    if a['kind'] == 'unum':
        return fl(a['q'][0]) * unit(a['us'])
    if a['kind'] == 'vec':
        return np.array(fls(a['q']))
    return number(a['q'][0])


GIVEN = []      # the arrays given to the current call


def given(x):
    if isinstance(x, np.ndarray):
        GIVEN.append(x)
    return x


def arr(m):
    return given(np.array([[fl(x) for x in row] for row in m]))


def factor(f):
    """f = {kind: none|num|unum, q, us}"""
    if f['kind'] == 'none':
        return None
    if f['kind'] == 'unum':
        return fl(f['q']) * unit(f['us'])
    return number(f['q'])


def win(w, ax=None):
    return None if len(w) == 0 else cos(w, ax)


def co(r, ax):
    """a coordinate; when it is one of the axis, the very number of the axis"""
    x = fl(r)
    if ax is not None:
        for v in np.asarray(ax, dtype=float):
            if abs(v - x) <= 1e-9 * max(1., abs(x)):
                return float(v)
    return x


def cos(rs, ax):
    return [co(r, ax) for r in rs]


# ------------------------------------------------------------------- fields
def _np(r, a):
    """some callers use numpy scalars"""
    return r


@call('f', 'mk')
def f_mk(rec, e):
    from IMTreatment import ScalarField, VectorField
    a = e['a']
    ax, ay = np.array(fls(a['ax'])), np.array(fls(a['ay']))
    form = a.get('form', '1d')
    if form == 'grid_xy':
        gx, gy = np.meshgrid(ax, ay)
    elif form == 'grid_ij':
        gx, gy = np.meshgrid(ax, ay, indexing='ij')
    elif form == 'list':
        gx, gy = list(ax), list(ay)
    else:
        gx, gy = ax, ay
    comps = [arr(v) for v in a['v']]
    mk = a.get('maskarg', 'array')
    if mk == 'array':
        mask = np.array(a['mask'], dtype=bool)
    elif mk == 'none':
        mask = None if a['nc'] == 1 else False
    else:
        mask = False
    obj = ScalarField() if a['nc'] == 1 else VectorField()
    keep = [gx, gy, mask] + comps
    if a.get('unitobj'):
        us = [unit(a['uxs']), unit(a['uys']), unit(a['uvs'])]
    else:
        us = [a['uxs'], a['uys'], a['uvs']]
    obj.import_from_arrays(gx, gy, *comps, mask=mask, unit_x=us[0],
                           unit_y=us[1], unit_values=us[2])
    # the caller goes on using its own arrays
    for k in keep:
        if isinstance(k, np.ndarray):
            if k.dtype == bool:
                k[...] = ~k
            else:
                k[...] = -777.
    return OBJ, obj


@call('f', 'copy')
def f_copy(rec, e):
    return OBJ, rec.W[e['s']].copy()


@call('f', 'crop')
def f_crop(rec, e):
    a = e['a']
    if a['mode'] == 'ind':
        wx = None if len(a['wx']) == 0 else list(a['wx'])
        wy = None if len(a['wy']) == 0 else list(a['wy'])
        return OBJ, rec.W[e['s']].crop(intervx=wx, intervy=wy, ind=True, **IP(e))
    return OBJ, rec.W[e['s']].crop(
        intervx=win(a['wx'], rec.W[e['s']].axe_x), intervy=win(a['wy'], rec.W[e['s']].axe_y),
        **IP(e))


@call('f', 'cropb')
def f_cropb(rec, e):
    return OBJ, rec.W[e['s']].crop_masked_border(**opt(e, {'hard': e['a']['hard']}, hard=False), **IP(e))


@call('f', 'extend')
def f_extend(rec, e):
    a = e['a']
    o = rec.W[e['s']]
    kw = dict(nmb_left=number(a['l']), nmb_right=number(a['r']),
              nmb_up=number(a['u']), nmb_down=number(a['d']), **IP(e))
    kw = opt(e, kw, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0)
    if hasattr(o, 'comp_x'):
        return OBJ, o.extend(**kw)
    if a['val'][1] != 0:
        kw['value'] = fl(a['val'])
    return OBJ, o.extend(**opt(e, {'ind': a['ind']}, ind=True), **kw)


@call('f', 'rotate')
def f_rotate(rec, e):
    return OBJ, rec.W[e['s']].rotate(e['a']['angle'], **IP(e))


@call('f', 'mirror', 'mirrorv')
def f_mirror(rec, e):
    a = e['a']
    o = rec.W[e['s']]
    kw = opt(e, dict(inds_to_mirror='all' if a['n'] == 0 else a['n']), inds_to_mirror='all')
    kw.update(IP(e))
    if e['op'] == 'mirrorv':
        kw['interp'] = 'value'
        kw['value'] = fls(a['val']) if hasattr(o, 'comp_x') else fl(a['val'][0])
    if hasattr(o, 'comp_x'):
        if 'k0' in a:
            kw['mir_coef'] = fl(a['k0'])
        elif a.get('explicit', True):
            kw['mir_coef'] = fls(a['coef'])
    else:
        kw['mir_coef'] = fl(a['coef'][0])
    return OBJ, o.mirroring(a['dir'], fl(a['pos']), **kw)


@call('f', 'scale')
def f_scale(rec, e):
    a = e['a']
    kw = {}
    for n, k in (('scalex', 'fx'), ('scaley', 'fy'), ('scalev', 'fv')):
        v = factor(a[k])
        if v is not None:
            kw[n] = v
    return OBJ, rec.W[e['s']].scale(**IP(e), **kw)


@call('f', 'unit')
def f_unit(rec, e):
    rec.W[e['s']].change_unit(e['a']['axe'], e['a']['us'])
    return NOTHING, None


@call('f', 'origin')
def f_origin(rec, e):
    a = e['a']
    kw = {}
    if a.get('hx', True):
        kw['x'] = fl(a['x'])
    if a.get('hy', True):
        kw['y'] = fl(a['y'])
    rec.W[e['s']].set_origin(**kw)
    return NOTHING, None


@call('f', 'add')
def f_add(rec, e):
    f, g = rec.W[e['s']], rec.W[e['t']]
    return OBJ, (f - g if e['a']['sub'] else f + g)


@call('f', 'addq')
def f_addq(rec, e):
    a = e['a']
    f = rec.W[e['s']]
    x = quantity(a)
    how = a.get('how', 'r')
    if how == 'l' and a['kind'] == 'num':
        return OBJ, x + f
    if how == 'sub':          # f - (-x)
        return OBJ, f - (-x)
    return OBJ, f + x


@call('f', 'rsubq')
def f_rsubq(rec, e):
    return OBJ, number(e['a']['q'][0]) - rec.W[e['s']]


@call('f', 'adda')
def f_adda(rec, e):
    return OBJ, rec.W[e['s']] + arr(e['a']['arr'])


@call('f', 'neg')
def f_neg(rec, e):
    return OBJ, -rec.W[e['s']]


@call('f', 'abs')
def f_abs(rec, e):
    return OBJ, abs(rec.W[e['s']])


@call('f', 'mulq')
def f_mulq(rec, e):
    a = e['a']
    x = quantity(a)
    if a.get('how') == 'l' and a['kind'] == 'num':
        return OBJ, x * rec.W[e['s']]
    return OBJ, rec.W[e['s']] * x


@call('f', 'divq')
def f_divq(rec, e):
    return OBJ, rec.W[e['s']] / quantity(e['a'])


@call('f', 'rdivq')
def f_rdivq(rec, e):
    return OBJ, number(e['a']['q'][0]) / rec.W[e['s']]


@call('f', 'mula')
def f_mula(rec, e):
    x = arr(e['a']['arr'])
    if coin(e):
        return OBJ, rec.W[e['s']] * x
    return OBJ, x.tolist() * rec.W[e['s']]


@call('f', 'diva')
def f_diva(rec, e):
    x = arr(e['a']['arr'])
    return OBJ, rec.W[e['s']] / (x if coin(e) else x.tolist())


@call('f', 'rdiva')
def f_rdiva(rec, e):
    return OBJ, arr(e['a']['arr']).tolist() / rec.W[e['s']]


@call('f', 'mulf')
def f_mulf(rec, e):
    return OBJ, rec.W[e['s']] * rec.W[e['t']]


@call('f', 'divf')
def f_divf(rec, e):
    return OBJ, rec.W[e['s']] / rec.W[e['t']]


@call('f', 'pow')
def f_pow(rec, e):
    return OBJ, rec.W[e['s']] ** e['a']['n']


@call('f', 'eq')
def f_eq(rec, e):
    return RET, [bool(rec.W[e['s']] == rec.W[e['t']])]


@call('f', 'setmask')
def f_setmask(rec, e):
    o = rec.W[e['s']]
    m = np.array(e['a']['mask'], dtype=bool)
    if e['a'].get('item'):
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                if m[i, j]:
                    o.mask[i, j] = True
    else:
        o.mask = np.logical_or(o.mask, m)
    return NOTHING, None


@call('f', 'setvals')
def f_setvals(rec, e):
    o = rec.W[e['s']]
    v = e['a']['v']
    if e['a'].get('item'):
        tgt = [o.values] if len(v) == 1 else [o.comp_x, o.comp_y]
        for c, t in enumerate(tgt):
            for i in range(len(v[c])):
                for j in range(len(v[c][i])):
                    if v[c][i][j][1] != 0:
                        t[i, j] = fl(v[c][i][j])
    elif len(v) == 1:
        o.values = arr(v[0])
    else:
        o.comp_x = arr(v[0])
        o.comp_y = arr(v[1])
    return NOTHING, None


@call('f', 'setax')
def f_setax(rec, e):
    ax = fls(e['a']['ax'])
    setattr(rec.W[e['s']], 'axe_' + e['a']['axe'], given(np.array(ax)) if e['a']['arr'] else ax)
    return NOTHING, None


@call('f', 'setunit')
def f_setunit(rec, e):
    o, a = rec.W[e['s']], e['a']
    u = a['us'] if a.get('str', True) else unit(a['us'])
    if a['axe'] == 'x':
        o.unit_x = u
    elif a['axe'] == 'y':
        o.unit_y = u
    else:
        o.unit_values = u
    return NOTHING, None


@call('f', 'comp')
def f_comp(rec, e):
    o = rec.W[e['s']]
    return OBJ, (o.comp_x_as_sf if e['a']['c'] == 1 else o.comp_y_as_sf)


@call('f', 'maskf')
def f_maskf(rec, e):
    return OBJ, rec.W[e['s']].mask_as_sf


def matret(a, mask):
    return [[M if mask[i, j] else q(a[i, j]) for j in range(a.shape[1])]
            for i in range(a.shape[0])]


def frame(s):
    return [qs(s.axe_x), qs(s.axe_y), uvec(s.unit_x), uvec(s.unit_y)]


@call('f', 'mag2')
def f_mag2(rec, e):
    o = rec.W[e['s']]
    if e['a'].get('sf'):
        s = o.magnitude_as_sf
        return RET, [matret(np.array(s.values) ** 2, np.array(s.mask))] + frame(s) + [uvec(s.unit_values)]
    m = np.array(o.magnitude)
    return RET, [matret(m ** 2, np.isnan(m))]


@call('f', 'theta')
def f_theta(rec, e):
    o = rec.W[e['s']]
    if e['a'].get('sf'):
        s = o.theta_as_sf
        return RET, [matret(np.array(s.values) / (np.pi / 4), np.array(s.mask))] + frame(s)
    return RET, [matret(np.array(o.theta) / (np.pi / 4), np.array(o.mask))]


@call('f', 'stat')
def f_stat(rec, e):
    o = rec.W[e['s']]
    r = getattr(o, e['a']['kind'])
    if hasattr(o, 'comp_x'):
        r = r ** 2
    return RET, [q(r)]


@call('f', 'norm')
def f_norm(rec, e):
    a = e['a']
    r = rec.W[e['s']].get_norm(norm=a['n'], normalized='perpoint' if a['perpoint'] else None)
    return RET, [q(r ** a['n'])]


@call('f', 'iter')
def f_iter(rec, e):
    o = rec.W[e['s']]
    res = []
    for ij, xy, v in o:
        v = list(v) if hasattr(o, 'comp_x') else [v]
        res.append(qs(list(ij)) + qs(list(xy)) + qs(v))
    return RET, res


@call('f', 'scatter')
def f_scatter(rec, e):
    m = e['a']['mask']
    if len(m) == 0:
        return OBJ, rec.W[e['s']].export_to_scatter()
    return OBJ, rec.W[e['s']].export_to_scatter(mask=np.array(m, dtype=bool))


@call('f', 'intline')
def f_intline(rec, e):
    a = e['a']
    o = rec.W[e['s']]
    return RET, uquant(o.integrate_over_line(
        a['dir'], cos(a['w'], o.axe_x if a['dir'] == 'x' else o.axe_y)))


@call('f', 'intsurf')
def f_intsurf(rec, e):
    a = e['a']
    return RET, uquant(rec.W[e['s']].integrate_over_surface(
        win(a['wx'], rec.W[e['s']].axe_x), win(a['wy'], rec.W[e['s']].axe_y)))


def nanq(x):
    r = q(x)
    return M if r == NAN else r


@call('f', 'getv')
def f_getv(rec, e):
    a = e['a']
    o = rec.W[e['s']]
    kw = opt(e, {'ind': a['ind'], 'unit': a.get('unit', False)}, ind=False, unit=False)
    if a['ind']:
        r = o.get_value(int(a['x'][0]), int(a['y'][0]), **kw)
    else:
        r = o.get_value(co(a['x'], o.axe_x), co(a['y'], o.axe_y), **kw)
    if a.get('unit'):
        u = o.unit_values
        num = lambda x: x.asNumber(u) if isinstance(x, unum.Unum) or not np.isnan(x) else x   # noqa: E731
        r = [num(x) for x in r] if hasattr(o, 'comp_x') else num(r)
    if hasattr(o, 'comp_x'):
        return RET, [nanq(x) for x in r]
    return RET, [nanq(r)]


@call('f', 'ionaxe')
def f_ionaxe(rec, e):
    a = e['a']
    o = rec.W[e['s']]
    r = o.get_indice_on_axe(a['axis'], co(a['q'], o.axe_x if a['axis'] == 1 else o.axe_y),
                            kind=a['kind'])
    return RET, qs(r) if isinstance(r, (list, tuple, np.ndarray)) else [q(r)]


@call('f', 'around')
def f_around(rec, e):
    a = e['a']
    o = rec.W[e['s']]
    c = [fl(a['x']), fl(a['y'])] if a['ind'] else [co(a['x'], o.axe_x), co(a['y'], o.axe_y)]
    r = o.get_points_around(c, fl(a['rad']), **opt(e, {'ind': a['ind']}, ind=False))
    return RET, [qs(p) for p in r]


@call('f', 'profile')
def f_profile(rec, e):
    a = e['a']
    o = rec.W[e['s']]
    how = a['how']
    ax = o.axe_x if a['dir'] == 'x' else o.axe_y
    kw = {}
    if how == 'all':
        pos = 'all'
        kw['interp'] = a.get('interp', 'linear')
    elif how == 'band':
        pos = cos(a['w'], ax)
        kw['interp'] = a.get('interp', 'linear')
    elif how == 'iband':
        pos = [int(x[0]) for x in a['w']]
        kw['ind'] = True
    elif how == 'ind':
        pos = int(a['w'][0][0])
        kw['ind'] = True
        kw['interp'] = a.get('interp', 'linear')
    else:
        pos = co(a['w'][0], ax)
        kw['interp'] = how
    if hasattr(o, 'comp_x'):
        return OBJ, o.get_profile('vx' if a['c'] == 1 else 'vy', a['dir'], pos, **kw)
    return OBJ, o.get_profile(a['dir'], pos, **kw)


@call('f', 'fillv', 'filln', 'filll')
def f_fill(rec, e):
    a = e['a']
    o = rec.W[e['s']]
    kind = {'fillv': 'value', 'filln': 'nearest', 'filll': 'linear'}[e['op']]
    kw = dict(kind=kind, **IP(e), crop=a['crop'], reduce_tri=a.get('tri', True))
    if kind == 'value':
        kw['value'] = fls(a['val']) if hasattr(o, 'comp_x') else fl(a['val'][0])
    return OBJ, o.fill(**opt(e, kw, kind='linear', crop=False, reduce_tri=True, value=0.))


@call('f', 'smooth')
def f_smooth(rec, e):
    a = e['a']
    return OBJ, rec.W[e['s']].smooth('uniform', size=a['size'], **IP(e))


@call('f', 'reduce')
def f_reduce(rec, e):
    return OBJ, rec.W[e['s']].reduce_spatial_resolution(e['a']['fact'], **IP(e))


@call('f', 'even')
def f_even(rec, e):
    rec.W[e['s']].make_evenly_spaced(res=number(e['a']['res']))
    return NOTHING, None
