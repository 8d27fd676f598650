"""Random histories on scalar and vector fields."""
from fractions import Fraction as Fr
from proj import M, NAN, fl, UVEC, UNONE, VECU, q as Q

LEN_UNITS = ['', 'm', 'mm', 'cm', 'px']
VAL_UNITS = ['', 'm/s', 'mm/s', 'Pa', 'rad', 'counts', 'kg', 'cm/s']
FAM = {'m': ['m', 'mm', 'cm'], 'mm': ['m', 'mm', 'cm'], 'cm': ['m', 'mm', 'cm'],
       'm/s': ['m/s', 'mm/s', 'cm/s'], 'mm/s': ['m/s', 'mm/s', 'cm/s'],
       'cm/s': ['m/s', 'mm/s', 'cm/s'], 's': ['s', 'ms'], 'ms': ['s', 'ms'],
       'kg': ['kg', 'g'], 'g': ['kg', 'g']}


def fr(r):
    return Fr(r[0], r[1])


def r(x):
    x = Fr(x)
    return [x.numerator, x.denominator]


class Skip(Exception):
    """this operation is not meaningful in the current state"""


class FieldGen(object):
    def __init__(self, rng, rec):
        self.rng = rng
        self.rec = rec

    # ------------------------------------------------------------- helpers
    def obj(self, s):
        return self.rec.last[s]

    def kinds(self, k, nc=None):
        return [i for i in range(1, 7) if self.rec.last[i]['k'] == k
                and (nc is None or self.rec.last[i].get('nc') == nc)]

    def pick(self, k='F', nc=None):
        c = [i for i in self.kinds(k, nc) if self.tame(self.rec.last[i])]
        if not c:
            raise Skip()
        return self.rng.choice(c)

    def tame(self, f, lim=20000):
        """the numbers of f stay far from the 32 bits of the model checker"""
        def ok(x):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int):
                    return abs(x[0]) <= lim and x[1] <= lim
                return all(ok(y) for y in x)
            if isinstance(x, dict):
                return all(ok(y) for y in x.values())
            return True
        return ok(f)

    def free(self):
        """a destination: an empty slot, or any"""
        e = self.kinds('E')
        if e and self.rng.random() < .9:
            return e[0]
        return self.rng.randint(1, 6)

    def mag(self, f):
        m = 0
        for c in f['v']:
            for row in c:
                for x in row:
                    if x[1]:
                        m = max(m, abs(x[0]), x[1])
        return m

    def axmag(self, f):
        return max([max(abs(x[0]), x[1]) for x in f['ax'] + f['ay']] + [0])

    def need_small(self, s, lim=400):
        f = self.obj(s)
        if self.mag(f) > lim or self.axmag(f) > 4000:
            raise Skip()

    def coin(self, p=.5):
        return self.rng.random() < p

    def dst(self):
        return self.coin(.3)

    # ------------------------------------------------------------ creation
    def axis(self, n, kind=None):
        g = self.rng
        kind = kind or g.choice(['uni', 'uni', 'uni', 'non', 'zero', 'neg'])
        if kind == 'non':
            x = Fr(g.randint(-4, 4), g.choice([1, 2]))
            out = [x]
            for _ in range(n - 1):
                x += Fr(g.randint(1, 5), g.choice([1, 2]))
                out.append(x)
            return out
        d = Fr(g.choice([1, 1, 2, 3]), g.choice([1, 2, 4]))
        if kind == 'zero':
            x0 = Fr(0)
        elif kind == 'neg':
            x0 = -d * g.randint(1, n + 1)
        else:
            x0 = d * g.randint(-3, 4) + Fr(g.randint(0, 1), 4)
        return [x0 + d * i for i in range(n)]

    def val(self, zero=True):
        while True:
            v = Fr(self.rng.randint(-9, 9), self.rng.choice([1, 1, 1, 2, 4]))
            if zero or v != 0:
                return v

    def maskmat(self, nx, ny, style=None):
        g = self.rng
        style = style or g.choice(['none', 'none', 'one', 'some', 'border', 'blob', 'row'])
        m = [[False] * ny for _ in range(nx)]
        if style == 'one':
            m[g.randrange(nx)][g.randrange(ny)] = True
        elif style == 'some':
            for i in range(nx):
                for j in range(ny):
                    m[i][j] = g.random() < .25
        elif style == 'border':
            for _ in range(g.randint(1, 3)):
                side = g.randrange(4)
                if side == 0:
                    m[0] = [True] * ny
                elif side == 1:
                    m[-1] = [True] * ny
                elif side == 2:
                    for i in range(nx):
                        m[i][0] = True
                else:
                    for i in range(nx):
                        m[i][-1] = True
        elif style == 'blob':
            i0, j0 = g.randrange(nx), g.randrange(ny)
            for i in range(i0, min(nx, i0 + 2)):
                for j in range(j0, min(ny, j0 + 2)):
                    m[i][j] = True
        elif style == 'row':
            if g.random() < .5:
                m[g.randrange(nx)] = [True] * ny
            else:
                j = g.randrange(ny)
                for i in range(nx):
                    m[i][j] = True
        if all(all(row) for row in m):
            m[g.randrange(nx)][g.randrange(ny)] = False
        return m

    def samefloats(self, like):
        """the axes of like are the very numbers a new field with these coordinates gets"""
        for i in range(1, 7):
            if self.rec.last[i] is like:
                o = self.rec.W[i]
                if any([fl(x) for x in like[k]] != list(v) for k, v in (('ax', o.axe_x), ('ay', o.axe_y))):
                    raise Skip()
                return
        if any(x[1] & (x[1] - 1) for x in like['ax'] + like['ay']):
            raise Skip()

    def mk(self, d=None, nc=None, like=None, mask=None, nx=None, ny=None, zero=True,
           axk=None, vals=None, units=None, plain=False, nanp=.1, axes=None):
        g = self.rng
        nc = nc or g.choice([1, 2])
        d = d or self.free()
        if like is not None:
            ax = [fr(x) for x in like['ax']]
            ay = [fr(x) for x in like['ay']]
            uxs, uys = VECU.get(tuple(like['ux'])), VECU.get(tuple(like['uy']))
            if uxs is None or uys is None:
                raise Skip()
            if len(ax) < 2 or len(ay) < 2:
                raise Skip()
            self.samefloats(like)
            uvs = None
        else:
            ax = self.axis(nx or g.choice([2, 2, 3, 3, 4, 5, 6]), axk)
            ay = self.axis(ny or g.choice([2, 2, 3, 3, 4, 5, 6]), axk)
            if nx is None and ny is None and g.random() < .12:
                ay = list(ax)
            uxs = g.choice(LEN_UNITS)
            uys = uxs if g.random() < .7 else g.choice(LEN_UNITS)
            uvs = None
        if axes is not None:
            ax, ay = axes
        if units is not None:
            uxs, uys, uvs = units
        elif uvs is None:
            if like is not None and g.random() < .8:
                u = VECU.get(tuple(like['uv']))
                if u is None:
                    raise Skip()
                uvs = g.choice(FAM.get(u, [u]))
            else:
                uvs = g.choice(VAL_UNITS)
        n, m = len(ax), len(ay)
        if callable(vals):
            v = [[[vals(c, x, y) for y in ay] for x in ax] for c in range(nc)]
        else:
            v = [[[self.val(zero) for _ in range(m)] for _ in range(n)] for _ in range(nc)]
        mm = self.maskmat(n, m, mask)
        form, maskarg = '1d', 'array'
        vv = [[[r(x) for x in row] for row in c] for c in v]
        if not plain:
            if g.random() < .25:       # some masked points are given as NaN
                for i in range(n):
                    for j in range(m):
                        if mm[i][j] and g.random() < .5:
                            vv[g.randrange(nc)][i][j] = NAN
                            mm[i][j] = False
            if not any(any(x) for x in mm) and g.random() < .5:
                maskarg = g.choice(['none', 'false'])
            # reversed axes, transposed values
            if g.random() < .25:
                ax = ax[::-1]
                vv = [c[::-1] for c in vv]
                mm = mm[::-1]
            if g.random() < .25:
                ay = ay[::-1]
                vv = [[row[::-1] for row in c] for c in vv]
                mm = [row[::-1] for row in mm]
            if n != m and g.random() < .15:
                vv = [[list(x) for x in zip(*c)] for c in vv]
                mm = [list(x) for x in zip(*mm)]
            form = g.choice(['1d', '1d', '1d', 'list', 'grid_xy', 'grid_ij'])
            if n < 2 or m < 2:
                form = '1d'
        a = {'nc': nc, 'ax': [r(x) for x in ax], 'ay': [r(x) for x in ay], 'v': vv,
             'mask': mm, 'ux': UVEC[uxs], 'uy': UVEC[uys], 'uv': UVEC[uvs],
             'uxs': uxs, 'uys': uys, 'uvs': uvs, 'form': form, 'maskarg': maskarg,
             'unitobj': g.random() < .3}
        self.rec.do('f', 'mk', d=d, a=a)
        return d

    # ------------------------------------------------------------- windows
    def window(self, ax, fail=.06):
        """an interval of coordinates holding at least one grid point, or (rarely)
        one that has to be refused"""
        g = self.rng
        ax = [fr(x) for x in ax]
        lo, hi = ax[0], ax[-1]
        if g.random() < fail:
            k = g.randrange(3)
            if k == 0:
                return [r(hi + 1), r(hi + 2)]
            if k == 1:
                return [r(lo - 2), r(lo - Fr(1, 2))]
            return [r(hi), r(lo - 1)]
        if g.random() < .1:
            return []
        cand = list(ax) + [(a + b) / 2 for a, b in zip(ax, ax[1:])] \
            + [lo - 1, hi + 1, lo - Fr(1, 4), hi + Fr(1, 4)]
        for _ in range(50):
            a, b = sorted([g.choice(cand), g.choice(cand)])
            if any(a <= x <= b for x in ax):
                return [r(a), r(b)]
        return []

    def iwindow(self, n, fail=.06):
        g = self.rng
        if g.random() < fail:
            return g.choice([[-1, 1], [1, 0], [-2, -1]])
        if g.random() < .1:
            return []
        a = g.randrange(n)
        b = g.randrange(a, n + 1)
        return [a, b]

    def nonempty(self, s):
        f = self.obj(s)
        if not f['ax'] or not f['ay']:
            raise Skip()
        return f

    def do(self, op, s, a, t=0, ip=None, m='f', obj=True):
        if obj:
            ip = self.coin(.3) if ip is None else ip
            d = s if ip else self.free()
        else:
            ip, d = False, 0
        return self.rec.do(m, op, s=s, t=t, d=d, ip=ip, a=a)

    def op_crop(self):
        s = self.pick()
        f = self.nonempty(s)
        if self.coin(.4):
            a = {'mode': 'ind', 'wx': self.iwindow(len(f['ax'])), 'wy': self.iwindow(len(f['ay']))}
        else:
            a = {'mode': 'val', 'wx': self.window(f['ax']), 'wy': self.window(f['ay'])}
        self.do('crop', s, a)

    def hard_ok(self, f):
        """the greedy border removal does not eat the whole field"""
        m = [[x == M for x in row] for row in f['v'][0]]
        if all(all(row) for row in m):
            return False
        while all(m[0]) or all(m[-1]) or all(x[0] for x in m) or all(x[-1] for x in m):
            if all(m[0]):
                m = m[1:]
            elif all(m[-1]):
                m = m[:-1]
            elif all(x[0] for x in m):
                m = [x[1:] for x in m]
            else:
                m = [x[:-1] for x in m]
        while any(any(x) for x in m):
            b = [sum(m[0]), sum(m[-1]), sum(x[0] for x in m), sum(x[-1] for x in m)]
            k = b.index(max(b))
            if k == 0:
                m = m[1:]
            elif k == 1:
                m = m[:-1]
            elif k == 2:
                m = [x[1:] for x in m]
            else:
                m = [x[:-1] for x in m]
            if not m or not m[0]:
                return False
        return True

    def op_cropb(self):
        s = self.pick()
        f = self.nonempty(s)
        hard = self.coin(.4)
        if all(x == M for row in f['v'][0] for x in row):
            raise Skip()
        if hard and not self.hard_ok(f):
            hard = False
        self.do('cropb', s, {'hard': hard})

    def op_extend(self):
        s = self.pick()
        f = self.nonempty(s)
        if len(f['ax']) < 2 or len(f['ay']) < 2 or len(f['ax']) > 7 or len(f['ay']) > 7:
            raise Skip()
        self.need_small(s, 100000)
        n = [r(self.rng.choice([0, 0, 1, 2, 3])) for _ in range(4)]
        ind, val = True, M
        if f['nc'] == 1:
            if self.coin(.3):
                val = r(self.val())
            if self.coin(.25):
                ind = False
                n = [r(Fr(self.rng.choice([0, 1, 2, 5]), 4)) for _ in range(4)]
            if self.coin(.04):
                n[self.rng.randrange(4)] = r(-1)
        self.do('extend', s, {'l': n[0], 'r': n[1], 'u': n[2], 'd': n[3], 'val': val, 'ind': ind})

    def op_rotate(self):
        s = self.pick()
        self.nonempty(s)
        ang = self.rng.choice([0, 90, 90, 180, 270, 360, 450, -90, -180, -270, 45 if self.coin(.2) else 90])
        self.do('rotate', s, {'angle': ang})

    def fac(self, signed=True, units=LEN_UNITS):
        g = self.rng
        k = g.choice(['none', 'num', 'num', 'unum'])
        x = Fr(g.choice([1, 2, 3, 1, 4]), g.choice([1, 1, 2]))
        if signed and g.random() < .4:
            x = -x
        us = g.choice(units + ['', '1/s', 's', 'm'])
        if k == 'none':
            return {'kind': k, 'q': r(1), 'us': ''}, [r(1), UNONE]
        if k == 'num':
            return {'kind': k, 'q': r(x), 'us': ''}, [r(x), UNONE]
        return {'kind': k, 'q': r(x), 'us': us}, [r(x), UVEC[us]]

    def usmall(self, *us):
        """unit exponents stay in a range where conversions stay exact"""
        for u in us:
            if abs(u[0]) > 4 or any(abs(x) > 3 for x in u[1:]):
                raise Skip()

    def op_scale(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s)
        self.usmall(f['ux'], f['uy'], f['uv'])
        a = {}
        a['fx'], a['sx'] = self.fac()
        a['fy'], a['sy'] = self.fac()
        a['fv'], a['sv'] = self.fac(units=VAL_UNITS)
        self.do('scale', s, a)

    def op_unit(self):
        s = self.pick()
        f = self.nonempty(s)
        axe = self.rng.choice(['x', 'y', 'values'])
        cur = VECU.get(tuple({'x': f['ux'], 'y': f['uy'], 'values': f['uv']}[axe]))
        if cur is None:
            raise Skip()
        self.need_small(s)
        us = self.rng.choice(FAM.get(cur, [cur]))
        if self.coin(.08):
            us = self.rng.choice(['m', 's', 'kg'])
        self.rec.do('f', 'unit', s=s, d=s, ip=True, a={'axe': axe, 'us': us, 'u': UVEC[us]})

    def op_origin(self):
        s = self.pick()
        f = self.nonempty(s)
        hx, hy = self.coin(.7), self.coin(.7)
        x = r(self.val()) if hx else r(0)
        y = r(self.val()) if hy else r(0)
        self.rec.do('f', 'origin', s=s, d=s, ip=True,
                    a={'x': x, 'y': y, 'hx': hx, 'hy': hy})

    def op_mirror(self):
        g = self.rng
        s = self.pick()
        f = self.nonempty(s)
        if any(x == M for row in f['v'][0] for x in row):
            raise Skip()
        if len(f['ax']) < 2 or len(f['ay']) < 2:
            raise Skip()
        self.need_small(s)
        dr = g.choice(['x', 'y'])
        ax = [fr(x) for x in (f['ax'] if dr == 'x' else f['ay'])]
        if len(ax) > 5:
            raise Skip()
        dl = ax[1] - ax[0]
        if any(b - a != dl for a, b in zip(ax, ax[1:])):
            raise Skip()
        if dl.denominator & (dl.denominator - 1):
            raise Skip()           # keep coordinates exact in binary
        mid = (ax[0] + ax[-1]) / 2
        gap = g.choice([0, 0, Fr(1, 4), Fr(1, 2), Fr(1, 2), 1, Fr(3, 2)])
        k = g.randrange(4)
        if k == 0:
            pos = ax[0] - gap * dl
        elif k == 1:
            pos = ax[-1] + gap * dl
        else:
            pos = g.choice([x for x in ax] + [(a + b) / 2 for a, b in zip(ax, ax[1:])])
            if pos == mid:
                raise Skip()
            keep = [x for x in ax if (x >= pos if pos < mid else x <= pos)]
            if len(keep) < 2:
                raise Skip()
        n = g.choice([0, 0, 1, 2, len(ax)])
        a = {'dir': dr, 'pos': r(pos), 'n': n}
        if f['nc'] == 1:
            a['coef'] = [r(g.choice([1, 1, -1, 2]))]
        elif g.random() < .4:
            a['coef'] = [r(g.choice([1, -1, 2])), r(g.choice([1, -1, 2]))]
        else:
            k0 = g.choice([1, 1, 2, -1])
            a['k0'] = r(k0)
            a['coef'] = [r(-k0), r(k0)] if dr == 'x' else [r(k0), r(-k0)]
        op = 'mirror'
        if g.random() < .3:
            op = 'mirrorv'
            a['val'] = [r(self.val()) for _ in range(f['nc'])]
        self.do(op, s, a)

    # ---------------------------------------------------------- arithmetic
    def op_add(self):
        g = self.rng
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 2000)
        cand = []
        for t in self.kinds('F'):
            h = self.obj(t)
            if not h['ax'] or not h['ay']:
                continue
            if h['nc'] != f['nc'] and g.random() < .8:
                continue
            okx = h['ux'] == f['ux'] or h['ux'][1:] != f['ux'][1:]
            oky = h['uy'] == f['uy'] or h['uy'][1:] != f['uy'][1:]
            if not (okx and oky):
                continue      # same dimension, other prefix: not defined
            cx = [x for x in f['ax'] if x in h['ax']]
            cy = [y for y in f['ay'] if y in h['ay']]
            same = h['ax'] == f['ax'] and h['ay'] == f['ay']
            if self.mag(h) > 2000 or abs(h['uv'][0] - f['uv'][0]) > 3:
                continue
            cand.append(t)
        if g.random() < .15:
            axs = None
            if g.random() < .3:         # apart along one axis only
                axs = [[fr(x) for x in f[k]] for k in ('ax', 'ay')]
                k = g.randrange(2)
                axs[k] = [x + axs[k][-1] - axs[k][0] + 1 for x in axs[k]]
            t = self.nudged(f, f['nc']) if axs is None else self.mk(nc=f['nc'], like=f, axes=axs)
            if self.mag(self.obj(t)) > 2000 or abs(self.obj(t)['uv'][0] - f['uv'][0]) > 3 \
                    or self.rec.last[s] != f:
                raise Skip()
            return self.do('add', s, {'sub': self.coin()}, t=t, ip=False)
        if not cand:
            raise Skip()
        self.do('add', s, {'sub': self.coin()}, t=g.choice(cand), ip=False)

    def shifted(self, ax):
        """an ascending axis sharing some of the points of ax"""
        g = self.rng
        ax = [fr(x) for x in ax]
        keep = [x for x in ax if g.random() < .7] or [g.choice(ax)]
        d = ax[1] - ax[0] if len(ax) > 1 else Fr(1)
        if g.random() < .5:
            keep = [ax[0] - d * (i + 1) for i in range(g.randint(1, 2))][::-1] + keep
        if g.random() < .5:
            keep = keep + [ax[-1] + d * (i + 1) for i in range(g.randint(1, 2))]
        if len(keep) < 2:
            keep.append(keep[-1] + d / 2)
        return keep

    def op_addpart(self):
        g = self.rng
        s = self.pick()
        f = self.nonempty(s)
        self.two(f)
        self.need_small(s, 2000)
        t = self.free()
        if t == s:
            raise Skip()
        self.mk(d=t, nc=f['nc'], like=f, axes=(self.shifted(f['ax']) if g.random() < .8 else [fr(x) for x in f['ax']],
                                               self.shifted(f['ay']) if g.random() < .8 else [fr(x) for x in f['ay']]))
        h = self.obj(t)
        if abs(h['uv'][0] - f['uv'][0]) > 3:
            raise Skip()
        if g.random() < .5:
            s, t = t, s
        self.do('add', s, {'sub': self.coin()}, t=t, ip=False)

    def quant(self, uv, zero=True, vec=False, anyunit=False, fail=.05):
        g = self.rng
        k = g.choice(['num', 'num', 'unum'] + (['vec'] if vec else []))
        if k == 'vec':
            return {'kind': k, 'q': [r(self.val()), r(self.val())], 'us': '', 'u': UNONE}
        x = self.val(zero)
        if k == 'num':
            return {'kind': k, 'q': [r(x)], 'us': '', 'u': UNONE}
        cur = VECU.get(tuple(uv))
        if anyunit:
            us = g.choice(['m', 'mm', 's', 'm/s', 'kg', '1/s', ''])
        elif cur is None:
            raise Skip()
        elif g.random() < fail:
            us = g.choice(['s', 'kg'])
        else:
            us = g.choice(FAM.get(cur, [cur]))
        return {'kind': k, 'q': [r(x)], 'us': us, 'u': UVEC[us]}

    def op_addq(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 2000)
        a = self.quant(f['uv'], vec=f['nc'] == 2)
        a['how'] = self.rng.choice(['r', 'l', 'sub']) if a['kind'] == 'num' else \
            ('r' if a['kind'] == 'vec' else self.rng.choice(['r', 'sub']))
        self.do('addq', s, a, ip=False)

    def op_rsubq(self):
        s = self.pick()
        self.need_small(s, 2000)
        self.do('rsubq', s, {'q': [r(self.val())]}, ip=False)

    def mat(self, f, zero=True):
        return [[r(self.val(zero)) for _ in f['ay']] for _ in f['ax']]

    def op_adda(self):
        s = self.pick(nc=2)
        f = self.nonempty(s)
        if (len(f['ax']), len(f['ay'])) == (2,):
            raise Skip()
        self.need_small(s, 2000)
        self.do('adda', s, {'arr': self.mat(f)}, ip=False)

    def op_neg(self):
        self.do('neg', self.pick(), {'_': 0}, ip=False)

    def op_abs(self):
        self.do('abs', self.pick(), {'_': 0}, ip=False)

    def op_mulq(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s)
        self.usmall(f['uv'])
        a = self.quant(f['uv'], anyunit=True, zero=False)
        a['how'] = self.rng.choice(['l', 'r'])
        self.do('mulq', s, a, ip=False)

    def op_divq(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 100)
        self.usmall(f['uv'])
        a = self.quant(f['uv'], anyunit=True, zero=False)
        self.do('divq', s, a, ip=False)

    def nozero(self, f):
        for c in f['v']:
            for row in c:
                for x in row:
                    if x[0] == 0 and x[1] == 1:
                        raise Skip()

    def op_rdivq(self):
        s = self.pick(nc=1)
        f = self.nonempty(s)
        self.need_small(s, 60)
        self.usmall(f['uv'])
        if self.rng.random() < 0.4:
            return self.do('rdiva', s, {'arr': self.mat(f)}, ip=False)
        self.do('rdivq', s, {'q': [r(self.val(False))]}, ip=False)

    def op_mula(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s)
        self.do('mula', s, {'arr': self.mat(f)}, ip=False)

    def op_diva(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 100)
        self.do('diva', s, {'arr': self.mat(f)}, ip=False)

    def partner(self, f, nc):
        """a scalar field on the same grid, made on the spot if need be"""
        g = self.rng
        for t in self.kinds('F', nc):
            h = self.obj(t)
            if h['ax'] == f['ax'] and h['ay'] == f['ay'] and h['ux'] == f['ux'] \
                    and h['uy'] == f['uy'] and self.mag(h) <= 60 and g.random() < .5:
                return t
        return self.mk(nc=nc, like=f)

    def nudged(self, f, nc, **kw):
        """a field on nearly the grid of f"""
        g = self.rng
        axs = [[fr(x) for x in f[k]] for k in ('ax', 'ay')]
        k = g.randrange(2)
        ax = axs[k]
        if len(ax) < 2:
            raise Skip()
        how = g.randrange(4)
        i = g.choice([0, len(ax) - 1, g.randrange(len(ax))])
        if how == 0:        # the whole axis moved, or the axes exchanged
            if len(axs[0]) == len(axs[1]) and axs[0] != axs[1]:
                axs = axs[::-1]
            else:
                axs[k] = [x + ax[1] - ax[0] for x in ax]
        elif i == 0:
            ax[0] -= ax[1] - ax[0]
        elif i == len(ax) - 1:
            ax[-1] += ax[-1] - ax[-2]
        else:
            ax[i] = (ax[i] + ax[i + 1]) / 2
        return self.mk(nc=nc, like=f, axes=axs, **kw)

    def op_mulf(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 100)
        self.usmall(f['uv'])
        if self.coin(.08):
            t = self.pick(nc=1)
        elif self.coin(.15):
            t = self.nudged(f, 1)
        else:
            t = self.partner(f, 1)
        self.need_small(t, 100)
        self.usmall(self.obj(t)['uv'])
        if s == t and False:
            raise Skip()
        if self.rec.last[s]['k'] != 'F' or self.obj(s)['nc'] != f['nc']:
            raise Skip()
        self.do('mulf', s, {'_': 0}, t=t, ip=False)

    def op_divf(self):
        s = self.pick(nc=1)
        f = self.nonempty(s)
        self.need_small(s, 60)
        self.usmall(f['uv'])
        t = self.pick(nc=1) if self.coin(.08) else \
            self.nudged(f, 1) if self.coin(.15) else self.partner(f, 1)
        self.need_small(t, 60)
        self.usmall(self.obj(t)['uv'])
        self.do('divf', s, {'_': 0}, t=t, ip=False)

    def op_pow(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 40)
        self.usmall(f['uv'])
        if any(abs(x) > 1 for x in f['uv'][1:]) or abs(f['uv'][0]) > 3:
            raise Skip()
        n = self.rng.choice([1, 2, 2, 3, -1])
        if n < 0:
            self.nozero(f)
        if f['uv'][0] and n == 3:
            n = 2
        self.do('pow', s, {'n': n}, ip=False)

    def op_eq(self):
        s = self.pick()
        f = self.nonempty(s)
        cand = [t for t in self.kinds('F') if self.obj(t)['nc'] == f['nc']
                and len(self.obj(t)['ax']) == len(f['ax'])
                and len(self.obj(t)['ay']) == len(f['ay'])
                and all(self.obj(t)[u] == f[u] for u in ('ux', 'uy', 'uv'))]
        t = self.rng.choice(cand)
        if self.coin(.3):
            self.eq_nudged(f, s)
        self.do('eq', s, {'_': 0}, t=t, obj=False)

    def eq_nudged(self, f, s):
        """the same values elsewhere, or all the same but one thing"""
        g = self.rng
        us = [VECU.get(tuple(f[u])) for u in ('ux', 'uy', 'uv')]
        if None in us:
            raise Skip()
        v = [[list(row) for row in c] for c in f['v']]
        mm = [[x == M for x in row] for row in v[0]]
        v = [[[r(7) if x == M else x for x in row] for row in c] for c in v]
        axs = [[fr(x) for x in f[k]] for k in ('ax', 'ay')]
        i, j = g.randrange(len(mm)), g.randrange(len(mm[0]))
        exact = all(not x[1] & (x[1] - 1) for c in v for row in c for x in row) \
            and all(not x.denominator & (x.denominator - 1) for ax in axs for x in ax)
        how = g.randrange(4 if exact else 3)
        if how == 0:
            k = g.randrange(2)
            axs[k][-1 if g.random() < .5 else 0] += Fr(g.choice([-1, 1]), 1)
            if axs[k] != sorted(set(axs[k])):
                raise Skip()
        elif how == 1:
            c = g.randrange(len(v))
            v[c][i][j] = r(fr(v[c][i][j]) + 1)
        elif how == 2:
            mm[i][j] = not mm[i][j]
        if len(axs[0]) < 2 or len(axs[1]) < 2:
            raise Skip()
        d = self.free()
        if d == s:
            raise Skip()
        self.rec.do('f', 'mk', d=d, a={
            'nc': f['nc'], 'ax': [r(x) for x in axs[0]], 'ay': [r(x) for x in axs[1]], 'v': v, 'mask': mm,
            'ux': f['ux'], 'uy': f['uy'], 'uv': f['uv'], 'uxs': us[0], 'uys': us[1], 'uvs': us[2],
            'form': '1d', 'maskarg': 'array', 'unitobj': False})
        self.do('eq', s, {'_': 0}, t=d, obj=False)

    # ------------------------------------------------------------- setters
    def op_setmask(self):
        s = self.pick()
        f = self.nonempty(s)
        nx, ny = len(f['ax']), len(f['ay'])
        if nx < 1 or ny < 1:
            raise Skip()
        m = self.maskmat(nx, ny, self.rng.choice(['one', 'some', 'row', 'border']))
        self.rec.do('f', 'setmask', s=s, d=s, ip=True, a={'mask': m, 'item': self.coin()})

    def op_setvals(self):
        s = self.pick()
        f = self.nonempty(s)
        item = self.coin()
        v = [[[M if x == M else r(self.val()) for x in row] for row in c] for c in f['v']]
        if not item and f['nc'] == 2 and any(x == M for row in f['v'][0] for x in row):
            item = True
        self.rec.do('f', 'setvals', s=s, d=s, ip=True, a={'v': v, 'item': item})

    def op_setunit(self):
        s = self.pick()
        axe = self.rng.choice(['x', 'y', 'values'])
        us = self.rng.choice(VAL_UNITS if axe == 'values' else LEN_UNITS)
        self.rec.do('f', 'setunit', s=s, d=s, ip=True,
                    a={'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()})

    def op_setax(self):
        s = self.pick()
        f = self.nonempty(s)
        axe = self.rng.choice('xy')
        ax = self.axis(len(f['a' + axe]))
        self.rec.do('f', 'setax', s=s, d=s, ip=True, a={'axe': axe, 'ax': [r(x) for x in ax], 'arr': self.coin()})

    def op_copy(self):
        self.do('copy', self.pick(), {'_': 0}, ip=False)

    def two(self, f):
        if len(f['ax']) < 2 or len(f['ay']) < 2:
            raise Skip()

    def op_comp(self):
        s = self.pick(nc=2)
        self.two(self.nonempty(s))
        self.do('comp', s, {'c': self.rng.choice([1, 2])}, ip=False)

    def op_maskf(self):
        s = self.pick()
        self.two(self.nonempty(s))
        self.do('maskf', s, {'_': 0}, ip=False)

    def op_mag2(self):
        s = self.pick(nc=2)
        self.two(self.nonempty(s))
        self.need_small(s)
        self.do('mag2', s, {'sf': self.coin()}, obj=False)

    def op_theta(self):
        s = self.pick(nc=2)
        f = self.nonempty(s)
        for ra, rb in zip(f['v'][0], f['v'][1]):
            for a, b in zip(ra, rb):
                if a != M and not (a[0] == 0 or b[0] == 0 or abs(fr(a)) == abs(fr(b))):
                    raise Skip()
        plain = not any(x == M for row in f['v'][0] for x in row)    # see f.known:1
        self.do('theta', s, {'sf': plain and self.coin()}, obj=False)

    # ------------------------------------------------------------- reading
    def op_stat(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s)
        if all(x == M for row in f['v'][0] for x in row):
            raise Skip()
        ks = ['min', 'max', 'mean', 'median'] if f['nc'] == 1 else ['min', 'max']
        self.do('stat', s, {'kind': self.rng.choice(ks)}, obj=False)

    def op_norm(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 60)
        if all(x == M for row in f['v'][0] for x in row):
            raise Skip()
        n = self.rng.choice([1, 2])
        self.do('norm', s, {'n': n, 'perpoint': self.coin()}, obj=False)

    def op_iter(self):
        s = self.pick()
        self.nonempty(s)
        self.do('iter', s, {'_': 0}, obj=False)

    def op_scatter(self):
        s = self.pick(nc=1)
        f = self.nonempty(s)
        m = self.maskmat(len(f['ax']), len(f['ay'])) if self.coin() else []
        left = [1 for i, row in enumerate(f['v'][0]) for j, x in enumerate(row)
                if x != M and not (m and m[i][j])]
        if not left:
            raise Skip()
        self.do('scatter', s, {'mask': m}, ip=False)

    def inwin(self, ax):
        w = self.window(ax, fail=0)
        if not w:
            w = [ax[0], ax[-1]]
        return w

    def op_intline(self):
        s = self.pick(nc=1)
        f = self.nonempty(s)
        self.need_small(s, 200)
        self.usmall(f['uv'], f['ux'], f['uy'])
        dr = self.rng.choice(['x', 'y'])
        if f['ux'] != f['uy']:
            dr = 'y'                 # see KNOWN_FINDINGS: direction x
        self.do('intline', s, {'dir': dr, 'w': self.inwin(f['ax'] if dr == 'x' else f['ay'])}, obj=False)

    def op_intsurf(self):
        s = self.pick(nc=1)
        f = self.nonempty(s)
        self.need_small(s, 200)
        self.usmall(f['uv'], f['ux'], f['uy'])
        wx = self.window(f['ax'], fail=0)
        wy = self.window(f['ay'], fail=0)
        if self.coin(.2):
            wx, wy = ([], wy) if self.coin() else (wx, [])
        self.do('intsurf', s, {'wx': wx, 'wy': wy}, obj=False)

    def coord(self, ax, fail=.06, quart=True):
        g = self.rng
        ax = [fr(x) for x in ax]
        if g.random() < fail:
            return r(g.choice([ax[0] - 1, ax[-1] + Fr(1, 2)]))
        if g.random() < .4 or len(ax) == 1:
            return r(g.choice(ax))
        i = g.randrange(len(ax) - 1)
        # a tie is only a tie when the coordinates are exact in binary
        dya = all(not x.denominator & (x.denominator - 1) for x in ax)
        return r(ax[i] + (ax[i + 1] - ax[i]) * g.choice([Fr(1, 4), Fr(3, 4)] + [Fr(1, 2)] * dya))

    def op_getv(self):
        s = self.pick()
        f = self.nonempty(s)
        if f['nc'] == 2:
            self.two(f)
        self.need_small(s)
        if self.coin(.25):
            x = self.rng.randint(0, len(f['ax']) - 1)
            y = self.rng.randint(0, len(f['ay']) - 1)
            if self.coin(.15):
                if self.coin():
                    x = self.rng.choice([-1, len(f['ax'])])
                else:
                    y = self.rng.choice([-1, len(f['ay'])])
            a = {'ind': True, 'x': r(x), 'y': r(y)}
        else:
            a = {'ind': False, 'x': self.coord(f['ax']), 'y': self.coord(f['ay'])}
        if self.coin(.2):
            a['unit'] = True
        self.do('getv', s, a, obj=False)

    def op_ionaxe(self):
        s = self.pick()
        f = self.nonempty(s)
        k = self.rng.choice([1, 2])
        self.do('ionaxe', s, {'axis': k, 'q': self.coord(f['ax'] if k == 1 else f['ay']),
                              'kind': self.rng.choice(['bounds', 'nearest', 'decimal'])}, obj=False)

    def op_around(self):
        s = self.pick()
        f = self.nonempty(s)
        self.two(f)
        g = self.rng
        if self.coin():
            a = {'ind': True, 'x': r(g.randint(0, len(f['ax']) - 1)),
                 'y': r(g.randint(0, len(f['ay']) - 1)),
                 'rad': r(Fr(g.randint(1, 10), 4))}
        else:
            dx = fr(f['ax'][1]) - fr(f['ax'][0]) + fr(f['ay'][1]) - fr(f['ay'][0])
            a = {'ind': False, 'x': self.coord(f['ax'], 0), 'y': self.coord(f['ay'], 0),
                 'rad': r(dx / 2 * Fr(g.randint(1, 10), 4))}
            if dx.numerator & (dx.numerator - 1):
                raise Skip()
        if g.random() < .03:
            a['rad'] = r(0)
        self.do('around', s, a, obj=False)

    def op_profile(self):
        g = self.rng
        s = self.pick()
        f = self.nonempty(s)
        self.two(f)
        self.need_small(s)
        dr = g.choice(['x', 'y'])
        ax = f['ax'] if dr == 'x' else f['ay']
        how = g.choice(['band', 'all', 'iband', 'ind', 'linear', 'linear', 'nearest'])
        interp = g.choice(['linear', 'nearest'])
        if how == 'band':
            w = self.inwin(ax)
        elif how == 'all':
            w = []
        elif how == 'iband':
            a = g.randrange(len(ax) - 1)
            b = g.randrange(a + 1, len(ax))
            w = [r(a), r(b)]
            if g.random() < .08:
                w[1] = r(len(ax) + g.randrange(2))
        elif how == 'ind':
            w = [r(g.randrange(len(ax)))] if g.random() < .95 else [r(g.choice([-1, len(ax)]))]
        else:
            w = [self.coord(ax)]
        self.do('profile', s, {'dir': dr, 'how': how, 'w': w, 'interp': interp,
                               'c': g.choice([1, 2]) if f['nc'] == 2 else 1}, ip=False)

    # ------------------------------------------------------ fill and smooth
    def op_fillv(self):
        s = self.pick()
        f = self.nonempty(s)
        self.two(f)
        crop = self.coin(.2)
        if crop and all(x == M for row in f['v'][0] for x in row):
            raise Skip()
        if crop:
            self.soft2(f)
        self.do('fillv', s, {'val': [r(self.val()) for _ in range(f['nc'])], 'crop': crop})

    def soft2(self, f):
        """after removal of the masked border, two lines are left each way"""
        rows = [i for i, row in enumerate(f['v'][0]) if any(x != M for x in row)]
        cols = [j for j in range(len(f['ay'])) if any(row[j] != M for row in f['v'][0])]
        if not rows or not cols or rows[-1] - rows[0] < 1 or cols[-1] - cols[0] < 1:
            raise Skip()

    def nvalid(self, f):
        return sum(1 for row in f['v'][0] for x in row if x != M)

    def op_filln(self):
        s = self.pick()
        f = self.nonempty(s)
        self.two(f)
        if self.axmag(f) > 100 or any(x[1] & (x[1] - 1) for x in f['ax'] + f['ay']):
            raise Skip()             # distances have to be exact
        if self.nvalid(f) == 0:
            raise Skip()
        crop = self.coin(.2)
        if crop:
            self.soft2(f)
        self.do('filln', s, {'crop': crop, 'tri': self.coin(.6)})

    def op_filll(self):
        """on affine fields, so that the result is determined inside"""
        g = self.rng
        nx, ny = g.randint(4, 6), g.randint(4, 6)
        nc = g.choice([1, 2])
        aff = [[Fr(g.randint(-3, 3)), Fr(g.randint(-2, 2)), Fr(g.randint(-2, 2))] for _ in range(nc)]
        d = self.mk(nc=nc, nx=nx, ny=ny, mask=g.choice(['one', 'blob', 'some', 'border', 'none']),
                    axk=g.choice(['uni', 'zero', 'neg']), nanp=0,
                    vals=lambda c, x, y: aff[c][0] + aff[c][1] * x + aff[c][2] * y)
        f = self.obj(d)
        tri = self.coin()
        # a triangulation needs points that are not all on a line
        rows = {i for i, row in enumerate(f['v'][0]) for x in row if x != M}
        cols = {j for row in f['v'][0] for j, x in enumerate(row) if x != M}
        if len(rows) < 3 or len(cols) < 3:
            raise Skip()
        if tri:
            mk = [[x == M for x in row] for row in f['v'][0]]
            n, m = len(mk), len(mk[0])
            good = {(i, j) for i in range(n) for j in range(m) if not mk[i][j]
                    and any(0 <= i + a < n and 0 <= j + b < m and mk[i + a][j + b]
                            for a in (-1, 0, 1) for b in (-1, 0, 1)
                            if (a, b) not in ((0, 0), (1, 1), (-1, -1)))}
            if len({i for i, j in good}) < 2 or len({j for i, j in good}) < 2 or len(good) < 4:
                tri = False
        self.do('filll', d, {'crop': False, 'tri': tri,
                             'aff': [[r(x) for x in c] for c in aff]})

    def op_smooth(self):
        s = self.pick()
        f = self.nonempty(s)
        self.two(f)
        self.need_small(s, 300)
        if any(x == M for row in f['v'][0] for x in row):
            raise Skip()
        self.do('smooth', s, {'size': self.rng.choice([2, 3, 3, 5])})

    def op_smoothc(self):
        """a constant field with masked points stays constant"""
        g = self.rng
        k = [self.val(), self.val()]
        nx, ny = g.randint(4, 6), g.randint(4, 6)
        d = self.mk(nx=nx, ny=ny, mask='none', vals=lambda c, x, y: k[c])
        # inside: the linear filling needs neighbours all around
        m = [[False] * ny for _ in range(nx)]
        m[g.randint(1, nx - 2)][g.randint(1, ny - 2)] = True
        self.rec.do('f', 'setmask', s=d, d=d, ip=True, a={'mask': m, 'item': self.coin()})
        self.do('smooth', d, {'size': g.choice([2, 3])})

    def op_reduce(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 300)
        fact = self.rng.choice([1, 2, 2, 3, 4, 5])
        if self.coin(.03):
            fact = 0
        if fact and (len(f['ax']) // fact < 1 or len(f['ay']) // fact < 1):
            raise Skip()
        self.do('reduce', s, {'fact': fact})

    def op_even(self):
        s = self.pick()
        f = self.nonempty(s)
        self.need_small(s, 100)
        if any(x == M for row in f['v'][0] for x in row):
            raise Skip()
        res = Fr(self.rng.choice([1, 1, 2]), self.rng.choice([1, 1, 2])) * self.rng.choice([1, 1, Fr(3, 2)])
        for ax in (f['ax'], f['ay']):
            a = [fr(x) for x in ax]
            if len(a) < 2:
                raise Skip()
            dm = min(y - x for x, y in zip(a, a[1:]))
            n = (a[-1] - a[0]) * res / dm
            if not 2 <= int(n) <= 9:
                raise Skip()
            if n == int(n) and (res.numerator % 3 == 0 or dm.numerator & (dm.numerator - 1) or dm.denominator & (dm.denominator - 1)):
                raise Skip()
        self.rec.do('f', 'even', s=s, d=s, ip=True, a={'res': r(res)})


MIXES = {
    'create': dict(mk=(2, 4), ops={'mk': 6, 'iter': 1, 'copy': 1, 'comp': 1, 'maskf': 1, 'setmask': 1,
                                   'setvals': 1, 'setunit': 1, 'setax': 1, 'mag2': 1}),
    'crop': dict(mk=(1, 2), ops={'crop': 8, 'cropb': 5, 'setmask': 1, 'rotate': 1, 'origin': 1}),
    'extend': dict(mk=(1, 2), ops={'extend': 5, 'mirror': 5, 'crop': 1, 'fillv': 1, 'setmask': 1}),
    'rotate': dict(mk=(1, 2), ops={'rotate': 8, 'crop': 1, 'setmask': 1, 'origin': 1}),
    'scale': dict(mk=(1, 2), ops={'scale': 5, 'unit': 4, 'origin': 3, 'crop': 1, 'setunit': 1, 'setmask': 2}),
    'arith': dict(mk=(2, 3), ops={'add': 6, 'addpart': 5, 'addq': 3, 'rsubq': 1, 'adda': 1, 'neg': 1, 'abs': 1, 'mulq': 2,
                                  'divq': 2, 'rdivq': 2, 'mula': 1, 'diva': 2, 'mulf': 3, 'divf': 3,
                                  'pow': 2, 'eq': 1, 'crop': 1, 'mklike': 3, 'setmask': 3}),
    'alias': dict(mk=(1, 2), ops={'crop': 3, 'cropb': 1, 'rotate': 2, 'copy': 1, 'extend': 2, 'scale': 2,
                                  'add': 1, 'addpart': 1, 'mulq': 1, 'divq': 1, 'neg': 1, 'abs': 1, 'pow': 1, 'mulf': 1,
                                  'mula': 1, 'diva': 1, 'addq': 1,
                                  'comp': 1, 'maskf': 1, 'fillv': 1, 'filln': 1, 'smooth': 1, 'reduce': 1,
                                  'mirror': 1, 'profile': 1, 'setvals': 4, 'setmask': 3, 'setax': 2, 'origin': 3,
                                  'unit': 2, 'setunit': 1, 'mklike': 1}),
    'masked': dict(mk=(1, 2), ops={'stat': 5, 'norm': 3, 'iter': 2, 'scatter': 2, 'intline': 2,
                                   'intsurf': 2, 'mag2': 2, 'theta': 1, 'setmask': 2, 'crop': 1,
                                   'setvals': 1, 'mktheta': 1}),
    'lookup': dict(mk=(1, 2), ops={'getv': 5, 'ionaxe': 4, 'around': 2, 'profile': 6, 'crop': 1,
                                   'setmask': 1}),
    'fill': dict(mk=(1, 2), ops={'fillv': 3, 'filln': 3, 'filll': 3, 'smooth': 2, 'smoothc': 1,
                                 'setmask': 4, 'crop': 1}),
    'reso': dict(mk=(1, 2), ops={'reduce': 4, 'even': 3, 'setmask': 1, 'mk': 1, 'mkbig': 2}),
}


def mixgen(gen, mix, rng, rec, length=7):
    spec = MIXES[mix]
    for _ in range(rng.randint(*spec['mk'])):
        gen.mk()
    names = list(spec['ops'])
    weights = [spec['ops'][n] for n in names]
    done = tries = 0
    n = rng.randint(3, length)
    while done < n and tries < 60:
        tries += 1
        op = rng.choices(names, weights)[0]
        try:
            if op == 'mk':
                gen.mk()
            elif op == 'mkbig':
                gen.mk(nx=rng.randint(4, 9), ny=rng.randint(4, 9))
            elif op == 'mklike':
                f = gen.obj(gen.pick())
                gen.mk(nc=f['nc'], like=f)
            elif op == 'mktheta':
                d8 = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (0, 0)]
                tab = {}

                def vals(c, x, y):
                    if (x, y) not in tab:
                        k = rng.randint(1, 3)
                        tab[x, y] = tuple(k * z for z in rng.choice(d8))
                    return Fr(tab[x, y][c])
                gen.mk(nc=2, vals=vals)
            else:
                getattr(gen, 'op_' + op)()
            done += 1
        except Skip:
            continue


def fields(mix):
    def run(rng, rec, i):
        mixgen(FieldGen(rng, rec), mix, rng, rec)
    return run


def known_intline(rng, rec, i):
    """KNOWN_FINDINGS: the unit of an integral along direction x; the angles of masked points"""
    g = FieldGen(rng, rec)
    if i == 1:
        d = g.mk(d=1, nc=2, nx=3, ny=3, mask='one', plain=True, axk='zero', units=('m', 'm', 'm/s'),
                 vals=lambda c, x, y: Fr(1))
        return g.do('theta', d, {'sf': True}, obj=False)
    d = g.mk(d=1, nc=1, nx=3, ny=3, mask='none', plain=True, axk='zero', units=('m', 's', 'kg'))
    f = g.obj(d)
    g.do('intline', d, {'dir': 'x', 'w': [f['ax'][0], f['ax'][-1]]}, obj=False)
