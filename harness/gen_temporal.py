"""Random histories on sets of fields in time."""
import copy
from fractions import Fraction as Fr
from proj import M, UVEC, UNONE, VECU
from gen_fields import FieldGen, Skip, fr, r, LEN_UNITS, VAL_UNITS, FAM

TIME_UNITS = ['s', 's', 'ms', '']


class Capture(object):
    """collects the arguments of mk calls without running them"""
    def __init__(self, last):
        self.last = last
        self.got = []

    def do(self, m, op, s=0, t=0, d=0, ip=False, a=None):
        self.got.append(a)


class TempGen(FieldGen):
    def args(self, **kw):
        """the arguments of a field creation"""
        rec, self.rec = self.rec, Capture(self.rec.last)
        try:
            self.mk(d=1, **kw)
            return self.rec.got[0]
        finally:
            self.rec = rec

    def times(self, n):
        g = self.rng
        if g.random() < .5:
            d = Fr(g.choice([1, 1, 2, 3]), g.choice([1, 2, 4]))
            t0 = Fr(g.randint(-2, 3)) * d
            return [t0 + i * d for i in range(n)]
        t, out = Fr(g.randint(-3, 3)), []
        for _ in range(n):
            out.append(t)
            t += Fr(g.randint(1, 5), g.choice([1, 2]))
        return out

    def mkt(self, d=None, nc=None, n=None, like=None, mask=None, nx=None, ny=None, axk=None,
            times=None, zero=True, units=None):
        g = self.rng
        nc = nc or g.choice([1, 2])
        n = n or g.choice([1, 2, 2, 3, 3, 4, 5])
        big = n > 3
        nx = nx or g.choice([2, 2, 3] if big else [2, 2, 3, 4])
        ny = ny or g.choice([2, 2, 3] if big else [2, 2, 3, 4])
        first = self.args(nc=nc, nx=nx, ny=ny, axk=axk, mask=mask, like=like, zero=zero, units=units)
        ax = sorted(fr(x) for x in first['ax'])
        ay = sorted(fr(x) for x in first['ay'])
        fs = [first] + [self.args(nc=nc, axes=(ax, ay), mask=mask, zero=zero,
                                  units=(first['uxs'], first['uys'], first['uvs'])) for _ in range(n - 1)]
        if mask is None and like is None and g.random() < .25:      # points masked at all times
            fs = [self.args(nc=nc, axes=(ax, ay), zero=zero, plain=True, mask=g.choice(['none', 'one']),
                            units=(first['uxs'], first['uys'], first['uvs'])) for _ in range(n)]
            com = self.maskmat(len(ax), len(ay), g.choice(['one', 'some', 'border', 'blob']))
            for f in fs:
                f['mask'] = [[p or q_ for p, q_ in zip(u, w)] for u, w in zip(f['mask'], com)]
                f['maskarg'] = 'array'
        ts = times or self.times(n)
        if g.random() < .6:
            order = list(range(n))
            g.shuffle(order)
            ts = [ts[k] for k in order]
        us = g.choice(TIME_UNITS)
        if like is not None and 'ut' in like and g.random() < .8:
            us = VECU.get(tuple(like['ut']), 's')
        d = d or self.free()
        self.rec.do('t', 'mkt', d=d, a={'nc': nc, 'fs': fs, 'times': [r(x) for x in ts],
                                        'us': us, 'u': UVEC[us]})
        return d

    def pickt(self, nc=None, n=1):
        c = [i for i in self.kinds('T', nc) if self.tame(self.rec.last[i]) and
             len(self.rec.last[i]['fs']) >= n]
        if not c:
            raise Skip()
        s = self.rng.choice(c)
        t = self.rec.last[s]
        if not t['ax'] or not t['ay']:
            raise Skip()
        return s

    def tsmall(self, t, lim):
        if max([self.mag(f) for f in t['fs']] + [0]) > lim or max(abs(x) for p in t['ax'] + t['ay'] for x in p) > 4000:
            raise Skip()
        if max([abs(x) for p in t['ts'] for x in p] + [0]) > 4000:
            raise Skip()

    def tdo(self, op, s, a, t=0, ip=None, obj=True):
        return self.do(op, s, a, t=t, ip=ip, m='t', obj=obj)

    def set(self, op, s, a):
        self.rec.do('t', op, s=s, d=s, ip=True, a=a)

    # ----------------------------------------------------------- container
    def top_new(self):
        d = self.free()
        nc = self.rng.choice([1, 2])
        self.rec.do('t', 'new', d=d, a={'nc': nc})

    def top_addf(self):
        g = self.rng
        c = self.kinds('T')
        if not c:
            raise Skip()
        s = g.choice(c)
        t = self.obj(s)
        self.tsmall0(t)
        if not t['fs']:
            f = self.mk(nc=t['nc'])
        elif g.random() < .12:
            f = self.mk()                      # mostly refused
            h = self.obj(f)
            if h['nc'] == t['nc'] and h['ax'] == t['ax'] and h['ay'] == t['ay']:
                raise Skip()
        elif g.random() < .15:                 # one axis differs
            ax = [fr(x) for x in t['ax']]
            ay = [fr(x) for x in t['ay']]
            z = g.choice([ax, ay])
            if len(z) > 2 and g.random() < .5:     # inside only
                i = g.randrange(1, len(z) - 1)
                z[i] = (z[i - 1] + z[i]) / 2
            else:
                z[:] = [x + 1 for x in z]
            us = [VECU.get(tuple(t[k])) for k in ('ux', 'uy')]
            if None in us:
                raise Skip()
            f = self.mk(nc=t['nc'], axes=(ax, ay), units=us + [g.choice(VAL_UNITS)])
        else:
            if len(t['ax']) < 2 or len(t['ay']) < 2:
                raise Skip()
            # the axes have to be the same to the last bit
            if any(fr(x).denominator & (fr(x).denominator - 1) for x in t['ax'] + t['ay']):
                raise Skip()
            us = [VECU.get(tuple(x)) for x in (t['ux'], t['uy'], t['fs'][0]['uv'])]
            if None in us:
                raise Skip()
            f = self.mk(nc=t['nc'], axes=([fr(x) for x in t['ax']], [fr(x) for x in t['ay']]), units=us)
        if f == s:
            raise Skip()
        cur = VECU.get(tuple(t['ut']))
        if cur is None:
            raise Skip()
        us = g.choice(TIME_UNITS) if not t['fs'] else g.choice(FAM.get(cur, [cur]))
        k = Fr(10)**(UVEC[us][0] - t['ut'][0]) if t['fs'] else 1
        for _ in range(20):
            time = self.val()
            if us == 'ms' and g.random() < .7:
                time *= 1000
            if time * k not in [fr(x) for x in t['ts']]:
                break
        else:
            raise Skip()
        self.rec.do('t', 'addf', s=s, t=f, d=s, ip=True,
                    a={'time': r(time), 'us': us, 'u': UVEC[us], 'str': self.coin()})

    def tsmall0(self, t):
        if not self.tame(t, 200000) or len(t['fs']) > 5:
            raise Skip()

    def top_rmf(self):
        g = self.rng
        s = self.pickt(n=2)
        n = len(self.obj(s)['fs'])
        k = g.choice([1, 1, 2, 3])
        if k >= n:
            raise Skip()
        ids = g.sample(range(n), k)
        if g.random() < .15:
            ids = [ids[0] - n]
        self.set('rmf', s, {'ids': ids, 'list': self.coin()})

    def top_field(self):
        s = self.pickt()
        self.tdo('field', s, {'n': self.rng.randrange(len(self.obj(s)['fs']))}, ip=False)

    def top_copy(self):
        self.tdo('copy', self.pickt(), {'_': 0}, ip=False)

    def top_settimes(self):
        s = self.pickt()
        n = len(self.obj(s)['fs'])
        if self.coin(.08):
            n += 1
        self.set('settimes', s, {'ts': [r(x) for x in self.times(n)], 'arr': self.coin()})

    def top_setunit(self):
        s = self.pickt()
        axe = self.rng.choice(['time', 'time', 'x', 'y'])
        us = self.rng.choice(TIME_UNITS if axe == 'time' else LEN_UNITS)
        self.set('setunit', s, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()})

    def top_setax(self):
        s = self.pickt()
        t = self.obj(s)
        axe = self.rng.choice('xy')
        if not t['fs']:
            raise Skip()
        ax = self.axis(len(t['a' + axe]))
        self.set('setax', s, {'axe': axe, 'ax': [r(x) for x in ax], 'arr': self.coin()})

    def top_eq(self):
        s = self.pickt()
        t = self.pickt(nc=self.obj(s)['nc'])
        a, b = self.obj(s), self.obj(t)
        if a['ax'] != b['ax'] or a['ay'] != b['ay'] or len(a['fs']) != len(b['fs']) or \
                any(a[k] != b[k] for k in ('ux', 'uy', 'ut')) or a['fs'][0]['uv'] != b['fs'][0]['uv']:
            raise Skip()
        self.tdo('eq', s, {'_': 0}, t=t, obj=False)

    def top_eqnear(self):
        """two sets that differ by one time, one value or one masked point, or not at all"""
        g = self.rng
        s = self.mkt(n=g.choice([1, 2, 3]))
        a = copy.deepcopy(self.rec.prog[-1]['a'])
        how = g.choice(['time', 'value', 'mask', 'none'])
        f = g.choice(a['fs'])
        if how == 'time':
            k = g.randrange(len(a['times']))
            t = fr(a['times'][k]) + Fr(1, 8)
            if t in [fr(x) for x in a['times']] or sorted(a['times'], key=fr).index(a['times'][k]) != sum(
                    fr(x) < t for i, x in enumerate(a['times']) if i != k):
                raise Skip()
            a['times'][k] = r(t)
        elif how == 'value':
            row = g.choice(g.choice(f['v']))
            k = g.randrange(len(row))
            if fr(row[k]).denominator > 64:
                raise Skip()
            row[k] = r(fr(row[k]) + 1)
        elif how == 'mask' and f.get('maskarg') == 'array':
            row = g.choice(f['mask'])
            k = g.randrange(len(row))
            row[k] = not row[k]
        t = self.free()
        if t == s:
            raise Skip()
        self.rec.do('t', 'mkt', d=t, a=a)
        self.tdo('eq', s, {'_': 0}, t=t, obj=False)
        self.tdo('eq', t, {'_': 0}, t=s, obj=False)

    def top_iter(self):
        self.tdo('iter', self.pickt(), {'_': 0}, obj=False)

    def top_comp(self):
        s = self.pickt(nc=2)
        self.two(self.obj(s))
        self.tdo('comp', s, {'c': self.rng.choice([1, 2])}, ip=False)

    def top_setmaskin(self):
        """what is done to a field that was added or taken out does not show in the set"""
        s = self.pick()
        f = self.nonempty(s)
        m = self.maskmat(len(f['ax']), len(f['ay']), 'one')
        self.rec.do('f', 'setmask', s=s, d=s, ip=True, a={'mask': m, 'item': self.coin()})

    def top_setvals(self):
        self.op_setvals()

    # ------------------------------------------------------------ in space
    def top_crop(self):
        s = self.pickt()
        t = self.obj(s)
        g = self.rng
        if self.coin(.4):
            a = {'mode': 'ind', 'wx': self.iwindow(len(t['ax'])), 'wy': self.iwindow(len(t['ay'])), 'wt': []}
            if self.coin(.5):
                w = self.iwindow(len(t['fs']), fail=0)
                a['wt'] = w
        else:
            a = {'mode': 'val', 'wx': self.window(t['ax']), 'wy': self.window(t['ay']), 'wt': []}
            if self.coin(.6):
                w = self.window(t['ts'])
                if w and fr(w[0]) > fr(w[1]):
                    raise Skip()
                a['wt'] = w
        if a['mode'] == 'ind' and (a['wx'] and a['wx'][0] < 0 or a['wy'] and a['wy'][0] < 0 or
                                   a['wx'] and a['wx'][0] > a['wx'][1] or a['wy'] and a['wy'][0] > a['wy'][1]):
            a['wt'] = []
        self.tdo('crop', s, a)

    def cum(self, t):
        return [[all(f['v'][0][i][j] == M for f in t['fs']) for j in range(len(t['ay']))]
                for i in range(len(t['ax']))]

    def top_cropb(self):
        s = self.pickt()
        t = self.obj(s)
        c = self.cum(t)
        if all(all(row) for row in c):
            raise Skip()
        hard = self.coin(.4)
        if hard and not self.hard_ok({'v': [[[M if x else [1, 1] for x in row] for row in c]]}):
            hard = False
        self.tdo('cropb', s, {'hard': hard})

    def top_extend(self):
        s = self.pickt()
        t = self.obj(s)
        self.two(t)
        if len(t['ax']) > 5 or len(t['ay']) > 5:
            raise Skip()
        n = [self.rng.choice([0, 0, 1, 2]) for _ in range(4)]
        self.tdo('extend', s, {'l': n[0], 'r': n[1], 'u': n[2], 'd': n[3]})

    def top_rotate(self):
        ang = self.rng.choice([0, 90, 90, 180, 270, 360, 450, -90, -180, 45 if self.coin(.2) else 90])
        self.tdo('rotate', self.pickt(), {'angle': ang})

    def top_mirror(self):
        g = self.rng
        s = self.pickt()
        t = self.obj(s)
        self.two(t)
        self.tsmall(t, 200)
        if any(x == M for f in t['fs'] for row in f['v'][0] for x in row):
            raise Skip()
        dr = g.choice(['x', 'y'])
        ax = [fr(x) for x in (t['ax'] if dr == 'x' else t['ay'])]
        dl = ax[1] - ax[0]
        if len(ax) > 4 or any(b - a != dl for a, b in zip(ax, ax[1:])) or dl.denominator & (dl.denominator - 1):
            raise Skip()
        pos = g.choice([ax[0], ax[-1], ax[0] - dl / 2, ax[-1] + dl / 2, ax[-1] + dl])
        coef = [r(g.choice([1, -1, 2])) for _ in range(t['nc'])]
        self.tdo('mirror', s, {'dir': dr, 'pos': r(pos), 'n': g.choice([0, 0, 1]), 'coef': coef})

    def top_scale(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 300)
        self.usmall(t['ux'], t['uy'], t['ut'], t['fs'][0]['uv'])
        a = {}
        a['fx'], a['sx'] = self.fac()
        a['fy'], a['sy'] = self.fac()
        a['fv'], a['sv'] = self.fac(units=VAL_UNITS)
        a['ft'], a['st'] = self.fac(signed=False, units=['s', 'ms', '1/s'])
        self.tdo('scale', s, a)

    def top_unit(self):
        g = self.rng
        s = self.pickt()
        t = self.obj(s)
        axe = g.choice(['x', 'y', 'values', 'time', 'time'])
        cur = VECU.get(tuple({'x': t['ux'], 'y': t['uy'], 'time': t['ut'],
                              'values': t['fs'][0]['uv']}[axe]))
        if cur is None:
            raise Skip()
        self.tsmall(t, 300)
        us = g.choice(FAM.get(cur, [cur]))
        if self.coin(.08):
            us = g.choice(['m', 's', 'kg'])
        self.set('unit', s, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()})

    def top_origin(self):
        s = self.pickt()
        hx, hy = self.coin(.7), self.coin(.7)
        self.set('origin', s, {'x': r(self.val()) if hx else r(0), 'y': r(self.val()) if hy else r(0),
                               'hx': hx, 'hy': hy})

    def top_reduce(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 300)
        fact = self.rng.choice([1, 2, 2, 3, 4])
        if len(t['ax']) // fact < 2 or len(t['ay']) // fact < 2:
            raise Skip()
        self.tdo('reduce', s, {'fact': fact})

    def nomask(self, t):
        if any(x == M for f in t['fs'] for row in f['v'][0] for x in row):
            raise Skip()

    def top_smooth(self):
        s = self.pickt()
        t = self.obj(s)
        self.two(t)
        self.tsmall(t, 200)
        self.nomask(t)
        self.tdo('smooth', s, {'size': self.rng.choice([2, 3])})

    def top_even(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 100)
        self.nomask(t)
        res = Fr(self.rng.choice([1, 1, 2]), self.rng.choice([1, 1, 2]))
        for ax in (t['ax'], t['ay']):
            a = [fr(x) for x in ax]
            if len(a) < 2:
                raise Skip()
            dm = min(y - x for x, y in zip(a, a[1:]))
            n = (a[-1] - a[0]) * res / dm
            if not 2 <= int(n) <= 6:
                raise Skip()
            if n == int(n) and (dm.numerator & (dm.numerator - 1) or dm.denominator & (dm.denominator - 1)):
                raise Skip()
        self.set('even', s, {'res': r(res)})

    def top_fillv(self):
        s = self.pickt()
        t = self.obj(s)
        self.two(t)
        crop = self.coin(.3)
        if crop:
            c = self.cum(t)
            self.soft2({'v': [[[M if x else [1, 1] for x in row] for row in c]], 'ay': t['ay']})
        self.tdo('fillv', s, {'val': [r(self.val()) for _ in range(t['nc'])], 'crop': crop})

    def top_fills(self):
        s = self.pickt()
        t = self.obj(s)
        self.two(t)
        if max(abs(x) for p in t['ax'] + t['ay'] for x in p) > 100 or \
                any(x[1] & (x[1] - 1) for x in t['ax'] + t['ay']):
            raise Skip()
        if any(self.nvalid(f) == 0 for f in t['fs']):
            raise Skip()
        self.tdo('fills', s, {'kind': 'nearest'})

    # ---------------------------------------------------------- arithmetic
    def plike(self, t, nc=None):
        """a field on the grid of t"""
        us = [VECU.get(tuple(x)) for x in (t['ux'], t['uy'], t['fs'][0]['uv'])]
        if None in us:
            raise Skip()
        self.two(t)
        us[2] = self.rng.choice(FAM.get(us[2], [us[2]]))
        return self.mk(nc=nc or t['nc'], axes=([fr(x) for x in t['ax']], [fr(x) for x in t['ay']]),
                       units=us, plain=self.coin())

    def top_addfield(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 1000)
        f = self.plike(t)
        if f == s:
            raise Skip()
        self.tdo('addfield', s, {'sub': self.coin()}, t=f, ip=False)

    def tlike(self, t, same=True, nc=None):
        us = [VECU.get(tuple(x)) for x in (t['ux'], t['uy'], t['fs'][0]['uv'], t['ut'])]
        if None in us:
            raise Skip()
        self.two(t)
        g = self.rng
        uv = g.choice(FAM.get(us[2], [us[2]]))
        ax, ay = [fr(x) for x in t['ax']], [fr(x) for x in t['ay']]
        n = len(t['fs']) if same else g.randint(1, 3)
        fs = [self.args(nc=nc or t['nc'], axes=(ax, ay), units=(us[0], us[1], uv)) for _ in range(n)]
        if same:
            ts = [fr(x) for x in t['ts']]
        else:
            ts = []
            while len(ts) < n:
                x = self.val()
                if x not in ts and r(x) not in t['ts']:
                    ts.append(x)
        ut = us[3]
        if ut in ('s', 'ms') and g.random() < .4:
            ut = 'ms' if us[3] == 's' else 's'
            k = 1000 if ut == 'ms' else Fr(1, 1000)
            if not same or g.random() < .6:
                ts = [x * k for x in ts]
            elif set(r(x / k)[0] / r(x / k)[1] for x in ts) & set(x[0] / x[1] for x in t['ts']):
                raise Skip()      # the same numbers, other times
        d = self.free()
        self.rec.do('t', 'mkt', d=d, a={'nc': nc or t['nc'], 'fs': fs, 'times': [r(x) for x in ts],
                                        'us': ut, 'u': UVEC[ut]})
        return d

    def top_addt(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 1000)
        u = self.tlike(t, same=self.coin(.6))
        if u == s:
            raise Skip()
        self.tdo('addt', s, {'sub': self.coin()}, t=u, ip=False)

    def top_addq(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 1000)
        a = self.quant(t['fs'][0]['uv'])
        a['how'] = self.rng.choice(['r', 'sub'])
        self.tdo('addq', s, a, ip=False)

    def top_neg(self):
        self.tdo('neg', self.pickt(), {'_': 0}, ip=False)

    def top_mulq(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 300)
        self.usmall(t['fs'][0]['uv'])
        a = self.quant(t['fs'][0]['uv'], anyunit=True, zero=False)
        a['how'] = self.rng.choice(['l', 'r'])
        self.tdo('mulq', s, a, ip=False)

    def top_divq(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 100)
        self.usmall(t['fs'][0]['uv'])
        self.tdo('divq', s, self.quant(t['fs'][0]['uv'], anyunit=True, zero=False), ip=False)

    def top_mult(self):
        s = self.pickt(nc=1)
        t = self.obj(s)
        self.tsmall(t, 60)
        self.usmall(t['fs'][0]['uv'])
        u = self.tlike(t, same=self.coin(.9), nc=1)
        if u == s or self.obj(u)['ut'] != t['ut']:
            raise Skip()
        self.tdo(self.rng.choice(['mult', 'divt']), s, {'_': 0}, t=u, ip=False)

    def top_divfield(self):
        s = self.pickt(nc=1)
        t = self.obj(s)
        self.tsmall(t, 60)
        self.usmall(t['fs'][0]['uv'])
        f = self.plike(t)
        if f == s:
            raise Skip()
        self.tdo('divfield', s, {'_': 0}, t=f, ip=False)

    def top_pow(self):
        s = self.pickt()
        t = self.obj(s)
        self.tsmall(t, 40)
        uv = t['fs'][0]['uv']
        if any(abs(x) > 1 for x in uv[1:]) or abs(uv[0]) > 3:
            raise Skip()
        self.tdo('pow', s, {'n': self.rng.choice([1, 2, 2])}, ip=False)

    # ---------------------------------------------------------- statistics
    def statset(self, nc=None, lim=200):
        s = self.pickt(nc=nc)
        t = self.obj(s)
        self.tsmall(t, lim)
        self.usmall(t['fs'][0]['uv'])
        return s, t

    def top_mean(self):
        s, t = self.statset()
        self.tdo('mean', s, {'n': self.rng.choice([0, 1, 1, 2])}, ip=False)

    def top_min(self):
        s, t = self.statset(nc=1)
        self.tdo(self.rng.choice(['min', 'max']), s, {'n': self.rng.choice([0, 1, 1, 2])}, ip=False)

    def top_fluct(self):
        s, t = self.statset()
        self.tdo('fluct', s, {'n': self.rng.choice([0, 1, 1])}, ip=False)

    def top_tke(self):
        s, t = self.statset(nc=2, lim=20)
        if len(t['fs']) > 4 or any(abs(x) > 1 for x in t['fs'][0]['uv'][1:]) or abs(t['fs'][0]['uv'][0]) > 3:
            raise Skip()
        self.two(t)
        k = self.rng.choice(['tke', 'mke', 'meantke', 'reynolds', 'reynolds'])
        a = {'_': 0}
        if k == 'reynolds':
            i, j = self.rng.choice([(1, 1), (2, 2), (1, 2)])
            a = {'n': self.rng.choice([0, 1, 1, 2]), 'i': i, 'j': j}
        self.tdo(k, s, a, ip=False)

    def top_cum(self):
        s = self.pickt()
        self.two(self.obj(s))
        self.tdo('cum', s, {'sf': self.coin(.4)}, obj=False)

    def top_recmap(self):
        s, t = self.statset(lim=40)
        self.nomask(t)
        if len(t['fs']) < 2:
            raise Skip()
        self.tdo('recmap', s, {'p': self.rng.choice([1, 2]), 'band': self.rng.choice([0, 0, 1])}, obj=False)

    def top_tprof(self):
        g = self.rng
        s = self.pickt()
        t = self.obj(s)
        comp, c = ('values', 1) if t['nc'] == 1 else g.choice([('comp_x', 1), ('comp_y', 2)])
        a = {'comp': comp, 'c': c, 'ind': self.coin(.4), 'wt': []}
        if a['ind']:
            a['x'], a['y'] = r(g.randrange(len(t['ax']))), r(g.randrange(len(t['ay'])))
            if self.coin(.05):
                a['x'] = r(len(t['ax']))
        else:
            pos = []
            for ax in (t['ax'], t['ay']):
                ax = [fr(x) for x in ax]
                pos.append(g.choice(ax + [a_ + (b_ - a_) / 4 for a_, b_ in zip(ax, ax[1:])]
                                    + [a_ + (b_ - a_) * 3 / 4 for a_, b_ in zip(ax, ax[1:])]))
                if self.coin(.03):
                    pos[-1] = ax[-1] + 1
            a['x'], a['y'] = r(pos[0]), r(pos[1])
        if self.coin(.4) and len(t['ts']) > 1:
            w = self.window(t['ts'], fail=0)
            if w and fr(w[0]) < fr(w[1]):
                a['wt'] = w
        if self.coin(.3):
            a['pts'] = []
            ts = [fr(x) for x in t['ts']]
            for n in g.sample(range(len(ts)), g.randint(1, len(ts))):
                xy = [g.choice([fr(x) for x in ax] + [fr(p) + (fr(q_) - fr(p)) / 4 for p, q_ in zip(ax, ax[1:])])
                      for ax in (t['ax'], t['ay'])]
                a['pts'].append([r(xy[0]), r(xy[1]), r(ts[n])])
            if self.coin(.2):
                a['pts'].append([t['ax'][0], t['ay'][0], r(ts[-1] + 1)])
            return self.tdo('tprofp', s, a, ip=False)
        self.tdo('tprof', s, a, ip=False)

    def top_inject(self):
        """a profile of the set (or another) put back at a point"""
        g = self.rng
        s = self.pickt()
        t = self.obj(s)
        ps = [k for k in self.kinds('P') if M not in self.obj(k)['y'] and
              (self.obj(k)['x'] == t['ts'] or g.random() < .15 and len(self.obj(k)['x']) != len(t['ts']))]
        if not ps:
            raise Skip()
        comp, c = ('values', 1) if t['nc'] == 1 else g.choice([('comp_x', 1), ('comp_y', 2)])
        i, j = g.randrange(len(t['ax'])), g.randrange(len(t['ay']))
        if any(f['v'][0][i][j] == M for f in t['fs']):
            raise Skip()
        ind = self.coin()
        a = {'comp': comp, 'c': c, 'ind': ind, 'x': r(i) if ind else t['ax'][i], 'y': r(j) if ind else t['ay'][j]}
        self.rec.do('t', 'inject', s=s, t=g.choice(ps), d=s, ip=True, a=a)

    # ------------------------------------------------------------- in time
    def top_interp(self):
        g = self.rng
        s, t = self.statset(lim=60)
        ts = [fr(x) for x in t['ts']]
        c = ts + [a + (b - a) * Fr(g.randint(1, 3), 4) for a, b in zip(ts, ts[1:])] * 2
        x = g.choice(c)
        if self.coin(.05):
            x = ts[-1] + 1
        self.tdo('interp', s, {'time': r(x)}, ip=False)

    def top_reducet(self):
        g = self.rng
        s, t = self.statset(lim=200)
        n = g.choice([1, 2, 2, 3])
        if self.coin(.05):
            n = g.choice([0, len(t['fs']) + 1, len(t['fs'])])
        self.tdo('reducet', s, {'n': n, 'mean': self.coin(.6)})

    def top_augt(self):
        s, t = self.statset(lim=60)
        if len(t['fs']) > 4:
            raise Skip()
        self.tdo('augt', s, {'fact': self.rng.choice([1, 2, 2, 3])})

    def top_fillt(self):
        g = self.rng
        if g.random() < .8:
            s = self.mkt(n=g.choice([3, 4, 5, 6]), nx=2, ny=2, mask=g.choice(['one', 'some', 'row']))
        else:
            s = self.pickt()
        t = self.obj(s)
        if len(t['fs']) < 3:
            raise Skip()
        self.tsmall(t, 60)
        self.two(t)
        self.tdo('fillt', s, {'kind': g.choice(['linear', 'linear', 'value']),
                              'val': [r(self.val()) for _ in range(t['nc'])]})


MIXES = {
    'hold': dict(mk=(1, 1), ops={'new': 1, 'addf': 8, 'rmf': 3, 'field': 2, 'copy': 2, 'settimes': 2,
                                 'setunit': 2, 'setax': 2, 'eq': 2, 'eqnear': 3, 'iter': 2, 'comp': 1, 'setmaskin': 2, 'setvals': 2,
                                 'crop': 1, 'unit': 1}),
    'space': dict(mk=(1, 2), ops={'crop': 5, 'cropb': 4, 'extend': 3, 'rotate': 3, 'mirror': 4, 'scale': 4,
                                  'unit': 4, 'origin': 3, 'reduce': 3, 'smooth': 2, 'even': 2, 'fillv': 3,
                                  'fills': 2, 'mkt': 2, 'mktbig': 1, 'mktflat': 2}),
    'stat': dict(mk=(2, 2), ops={'mean': 5, 'min': 5, 'fluct': 3, 'tke': 5, 'cum': 2, 'recmap': 2,
                                 'tprof': 6, 'inject': 3, 'mkt': 3, 'crop': 1, 'rmf': 1, 'mktflat': 1}),
    'time': dict(mk=(1, 2), ops={'interp': 3, 'reducet': 5, 'augt': 3, 'fillt': 4, 'addfield': 2, 'addt': 4,
                                 'addq': 2, 'neg': 1, 'mulq': 2, 'divq': 2, 'mult': 3, 'divfield': 1, 'pow': 1,
                                 'crop': 1, 'mkt': 2}),
}


def temporal(mix):
    def run(rng, rec, i):
        gen = TempGen(rng, rec)
        spec = MIXES[mix]
        for _ in range(rng.randint(*spec['mk'])):
            gen.mkt()
        names = list(spec['ops'])
        weights = [spec['ops'][n] for n in names]
        done = tries = 0
        n = rng.randint(3, 6)
        while done < n and tries < 60:
            tries += 1
            op = rng.choices(names, weights)[0]
            try:
                if op == 'mkt':
                    gen.mkt()
                elif op == 'mktbig':
                    gen.mkt(n=rng.choice([1, 2]), nx=rng.randint(4, 6), ny=rng.randint(4, 6))
                elif op == 'mktflat':
                    gen.mkt(mask='none', nx=rng.randint(2, 4), ny=rng.randint(2, 4))
                else:
                    getattr(gen, 'top_' + op)()
                done += 1
            except Skip:
                continue
    return run
