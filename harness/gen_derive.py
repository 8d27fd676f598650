"""Random histories on derivatives and vortex criteria."""
from fractions import Fraction as Fr
from proj import UVEC
from gen_fields import Skip, fr, r
from gen_points import PointGen, loop

DIRS8 = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]
PYTH = [(3, 4), (4, 3), (-3, 4), (3, -4), (-4, -3), (-4, 3), (4, -3), (-3, -4), (5, 0), (0, -5), (0, 2), (-1, 0),
        (0, 0), (6, 8)]
RING = [(p, q) for p in (-1, 0, 1) for q in (-1, 0, 1) if (p, q) != (0, 0)]
NINE = [(p, q) for p in (-1, 0, 1) for q in (-1, 0, 1)]


def jac(f, i, j):
    """gradients at a cell (None: masked)"""
    def d(line, k):
        n = len(line)
        a, b = (0, 1) if k == 0 else (n - 2, n - 1) if k == n - 1 else (k - 1, k + 1)
        if line[a][1] == 0 or line[b][1] == 0:
            return None, b - a
        return fr(line[b]) - fr(line[a]), b - a
    hx, hy = fr(f['ax'][1]) - fr(f['ax'][0]), fr(f['ay'][1]) - fr(f['ay'][0])
    out = []
    for c in f['v']:
        for line, k, h in (([row[j] for row in c], i, hx), (c[i], j, hy)):
            v, n = d(line, k)
            if v is None:
                return None
            out.append(v / (n * h))
    return out


def jacs(f):
    return [x for i in range(len(f['ax'])) for j in range(len(f['ay']))
            for x in [jac(f, i, j)] if x is not None]


def square(x):
    from math import isqrt
    return x >= 0 and isqrt(x.numerator)**2 == x.numerator and isqrt(x.denominator)**2 == x.denominator


class DeriveGen(PointGen):
    top = 6

    # ------------------------------------------------------------ creation
    def steps(self, n, h=None):
        g = self.rng
        h = Fr(h) if h else Fr(g.choice([1, 1, 2, 3]), g.choice([1, 1, 2]))
        x0 = h * g.randint(-3, 2)
        return [x0 + h * i for i in range(n)]

    def units(self, same=True, plain=.5):
        g = self.rng
        if self.coin(plain):
            return ('', '', '')
        ux = g.choice(['m', 'mm', 'cm'])
        return (ux, ux if same else g.choice(['m', 'mm', 'cm']), g.choice(['m/s', 'mm/s', 'cm/s', 'm', 'kg']))

    def any_axes(self, lo=2, hi=5, h=None):
        g = self.rng
        return (self.steps(g.randint(lo, hi), h), self.steps(g.randint(lo, hi), h))

    def mkg(self):
        """a field on an even grid"""
        g = self.rng
        kind = g.choice(['rand', 'rand', 'rand', 'affine', 'affine', 'thin', 'bilin', 'eight'])
        masks = g.choice(['none', 'none', 'one', 'some', 'border', 'blob', 'row'])
        nc = g.choice([1, 2, 2])
        same = self.coin(.6)
        axes = self.any_axes()
        if kind == 'thin':
            axes = (axes[0], axes[1][:1]) if self.coin() else (axes[0][:1], axes[1])
            return self.mk(nc=nc, axes=axes, units=self.units(same), mask='none', plain=True)
        if kind == 'rand':
            return self.mk(nc=nc, axes=axes, units=self.units(same), mask=masks,
                           vals=lambda c, x, y: Fr(g.randint(-3, 3), g.choice([1, 1, 2])))
        if kind == 'affine':
            k = [[g.randint(-3, 3) for _ in range(3)] for _ in range(2)]
            return self.mk(nc=2, axes=axes, units=self.units(True), mask=masks,
                           vals=lambda c, x, y: k[c][0] + k[c][1] * x + k[c][2] * y)
        if kind == 'bilin':
            k = [g.randint(-3, 3) for _ in range(4)]
            return self.mk(nc=1, axes=axes, units=self.units(True), mask='none',
                           vals=lambda c, x, y: k[0] + k[1] * x + k[2] * y + k[3] * x * y)
        dirs = {}
        for x in axes[0]:
            for y in axes[1]:
                m = g.choice([1, 1, 2])
                dirs[x, y] = [m * u for u in g.choice(DIRS8)]
        return self.mk(nc=2, axes=axes, units=self.units(True), mask=masks,
                       vals=lambda c, x, y: Fr(dirs[x, y][c]))

    def mkring(self, what):
        """a field for the criteria on neighbourhoods"""
        g = self.rng
        hx, hy = g.choice([(3, 4), (4, 3), (Fr(3, 2), 2), (1, 1), (2, 2), (3, 3), (6, 8)])
        big = self.coin(.5)
        nx, ny = (g.randint(3, 5), g.randint(3, 5)) if big else (3, 3)
        axes = (self.steps(nx, hx), self.steps(ny, hy))
        units = self.units(self.coin(.7))
        masks = g.choice(['none', 'none', 'none', 'one', 'border']) if big else 'none'
        tab = {}
        if what == 'sum0':          # eight neighbours with mean u0, and a centre
            axes = (axes[0][:3], axes[1][:3])
            masks = 'none'
            same = self.coin()
            vs = []
            pool = [(3, 4), (4, 3), (-3, 4), (4, -3), (5, 0), (0, 5)] if same else PYTH
            for _ in range(4):
                v = g.choice(pool)
                vs += [v, (-v[0], -v[1])]
            g.shuffle(vs)
            u0 = g.choice([(0, 0), (3, 4), (-6, 8), (10, 0), (0, -5), (1, 0), (-15, 20)])
            for (p, q), v in zip(RING, vs):
                tab[axes[0][1 + p], axes[1][1 + q]] = (v[0] + u0[0], v[1] + u0[1])
            tab[axes[0][1], axes[1][1]] = (g.randint(-3, 3), g.randint(-3, 3))
        elif what == 'sum0dir':     # directions around a mean velocity, which is the centre's
            axes = (axes[0][:3], axes[1][:3])
            masks = 'none'
            vs = []
            for _ in range(4):
                v = g.choice(DIRS8)
                vs += [v, (-v[0], -v[1])]
            g.shuffle(vs)
            u0 = (g.randint(-3, 3), g.randint(-3, 3))
            for (p, q), v in zip(RING, vs):
                tab[axes[0][1 + p], axes[1][1 + q]] = (v[0] + u0[0], v[1] + u0[1])
            tab[axes[0][1], axes[1][1]] = u0
        elif what == 'mirror':      # pairs (a, b), (a, -b): a mean along x
            axes = (axes[0][:3], axes[1][:3])
            masks = 'none'
            vs = []
            for _ in range(4):
                v = g.choice(PYTH)
                vs += [v, (v[0], -v[1])]
            g.shuffle(vs)
            for (p, q), v in zip(RING, vs):
                tab[axes[0][1 + p], axes[1][1 + q]] = v
            tab[axes[0][1], axes[1][1]] = (1, 0)
        elif what == 'swirl':       # around a centre, along the grid
            k = g.choice([1, -1, 2])
            x0, y0 = g.choice(axes[0]), g.choice(axes[1])
            for x in axes[0]:
                for y in axes[1]:
                    dx, dy = (x - x0) / hx, (y - y0) / hy
                    s = lambda z: (z > 0) - (z < 0)
                    tab[x, y] = (-k * hy * s(dy), k * hx * s(dx)) if self.coin(.9) else g.choice(PYTH)
            if not {hx, hy} in ({3, 4}, {Fr(3, 2), 2}, {6, 8}):
                raise Skip()
        else:
            pool = DIRS8 if what == 'dir' else PYTH
            for x in axes[0]:
                for y in axes[1]:
                    tab[x, y] = g.choice(pool)
        d = self.mk(nc=2, axes=axes, units=units, mask=masks, vals=lambda c, x, y: Fr(tab[x, y][c]))
        return d, hx, hy

    # ------------------------------------------------------------- helpers
    def field(self, nc=2, even=True, masked=True, plain=False, thin=False):
        c = []
        for i in self.kinds('F', nc):
            f = self.obj(i)
            if not self.tame(f, 100):
                continue
            if len(f['ax']) < 2 or len(f['ay']) < 2:
                if not thin:
                    continue
            elif even and not (self.iseven(f['ax']) and self.iseven(f['ay'])):
                continue
            if not masked and any(x[1] == 0 for k in f['v'] for row in k for x in row):
                continue
            if plain and (any(f['ux']) or any(f['uv'])):
                continue
            c.append(i)
        if not c:
            raise Skip()
        return self.rng.choice(c)

    def iseven(self, a):
        x = [fr(v) for v in a]
        return all(b - a == x[1] - x[0] for a, b in zip(x, x[1:]))

    def sameaxes(self, s):
        f = self.obj(s)
        if f['ux'] != f['uy']:
            raise Skip()

    def gdo(self, op, s, a=None):
        self.rec.do('g', op, s=s, d=self.free(), a=a)

    def argmask(self, s, p=.25):
        f = self.obj(s)
        if not self.coin(p):
            return []
        return self.maskmat(len(f['ax']), len(f['ay']), self.rng.choice(['one', 'some', 'border', 'none']))

    # ----------------------------------------------------------- gradients
    def gop_grad(self):
        s = self.field(nc=self.rng.choice([1, 2]), thin=True)
        self.gdo('grad', s, {'k': self.rng.randint(1, 2 * self.obj(s)['nc'])})

    def gop_graw(self):
        s = self.field(nc=self.rng.choice([1, 2]))
        self.rec.do('g', 'graw', s=s)

    def gop_gfield(self):
        self.gdo('gfield', self.field(plain=True), {'dir': self.rng.choice('xy')})

    def gop_shear(self):
        self.gdo('shear', self.field(plain=True, masked=False))

    def gop_track(self):
        self.gdo('track', self.field(thin=True, even=False))

    def gop_div(self):
        s = self.field()
        self.gdo('div', s)

    def gop_cdiv(self):
        s = self.field(masked=False)
        self.sameaxes(s)
        self.gdo(self.rng.choice(['cdiv', 'vort', 'vort']), s)

    def gop_times(self):
        g = self.rng
        hx, hy = g.choice([1, 2, Fr(1, 2)]), g.choice([1, 2])
        axes = (self.steps(g.randint(2, 4), hx), self.steps(g.randint(2, 4), hy))
        n = g.randint(1, 3)
        kind = g.choice(['div', 'cdiv', 'vort', 'kolar', 'ksum', 'kshear', 'gamma'])
        us = self.units(True, 1. if kind == 'kolar' else .5)
        if kind == 'gamma':
            axes = (self.steps(g.randint(3, 4), 3), self.steps(g.randint(3, 4), 4))
        if kind[0] == 'k' and UVEC[us[2]][0] < UVEC[us[0]][0]:
            raise Skip()
        mask = 'none' if kind in ('cdiv', 'vort', 'kolar', 'ksum', 'kshear') else None
        fs = []
        for _ in range(n):
            fs.append(self.args(nc=2, axes=axes, mask=mask, units=us, vals=lambda c, x, y: Fr(g.randint(-3, 3))))
            if kind == 'gamma':
                fs.pop()
                tab = {(x, y): g.choice(PYTH) for x in axes[0] for y in axes[1]}
                fs.append(self.args(nc=2, axes=axes, mask=mask, units=us,
                                    vals=lambda c, x, y: Fr(tab[x, y][c])))
        ut = g.choice(['', 's', 'ms'])
        ts = self.times(n)
        if self.coin():
            g.shuffle(ts)
        d = self.free()
        self.rec.do('t', 'mkt', d=d, a={'nc': 2, 'fs': fs, 'times': [r(x) for x in ts], 'us': ut, 'u': UVEC[ut]})
        if kind == 'kolar':
            self.rec.do('g', 'kolar', s=d)
        elif kind == 'gamma':
            self.gdo('nl', d, dict(self.radius(d, [(Fr(19, 10), 1), (Fr(19, 10), 1), (Fr(1), 1)], 3, 4), kind='gamma1'))
        else:
            self.gdo(kind, d)

    def gop_stokes(self):
        s = self.field()
        self.sameaxes(s)
        f = self.obj(s)
        w = self.rng.randint(2, min(len(f['ax']), len(f['ay']), 4))
        if min(len(f['ax']), len(f['ay'])) < 2:
            raise Skip()
        if all(any(f['v'][0][p][q][1] == 0 for p in range(i, i + w) for q in range(j, j + w))
               for i in range(len(f['ax']) - w + 1) for j in range(len(f['ay']) - w + 1)):
            raise Skip()
        self.gdo('stokes', s, {'w': w})

    def gop_recon(self):
        c = [i for i in self.kinds('F', 1) if self.bilinear(self.obj(i))]
        if not c:
            raise Skip()
        s = self.rng.choice(c)
        self.sameaxes(s)
        self.gdo('recon', s)

    def gop_recon2(self):
        """the gradients of polynomials of degree two"""
        g = self.rng
        axes = self.any_axes()
        us = self.units(True)
        nc = g.choice([1, 1, 2])
        slots = g.sample(range(1, 7), 2 * nc)
        for c in range(nc):
            a, b, k, d, m = [g.randint(-2, 2) for _ in range(5)]
            self.mk(d=slots[2 * c], nc=1, axes=axes, units=us, mask='none', vals=lambda _, x, y: a + 2 * k * x + m * y)
            self.mk(d=slots[2 * c + 1], nc=1, axes=axes, units=us, mask='none', vals=lambda _, x, y: b + 2 * d * y + m * x)
        a = {} if nc == 1 else {'s2': slots[2], 't2': slots[3]}
        self.rec.do('g', 'recon2' if nc == 1 else 'reconv', s=slots[0], t=slots[1], d=self.free(), a=a or {'_': 0})

    def bilinear(self, f):
        nx, ny = len(f['ax']), len(f['ay'])
        if nx < 2 or ny < 2 or not self.iseven(f['ax']) or not self.iseven(f['ay']):
            return False
        if any(x[1] == 0 for row in f['v'][0] for x in row):
            return False
        v = [[fr(x) for x in row] for row in f['v'][0]]
        return all(v[i + 2][j] - 2 * v[i + 1][j] + v[i][j] == 0 for i in range(nx - 2) for j in range(ny)) and \
            all(v[i][j + 2] - 2 * v[i][j + 1] + v[i][j] == 0 for i in range(nx) for j in range(ny - 2))

    # ---------------------------------------------------------- local ones
    def noroot(self, js, kind):
        for a, b, c, d in js:
            disc = (a + d)**2 - 4 * (a * d - b * c)
            if disc == 0 and not (b == 0 and c == 0):
                raise Skip()
            if kind == 'nk2' and a == 0 and d == 0 and b + c == 0:
                raise Skip()
            if kind == 'delta':
                k = ((b - c)**2 / 2 - a * a - d * d - (b + c)**2 / 2) / 6
                k3, e = k**3, ((a * d - b * c) / 2)**2
                if max(abs(k3.numerator) * e.denominator + abs(e.numerator) * k3.denominator,
                       k3.denominator * e.denominator) >= 2**31 or (k3 + e).denominator > 20000:
                    raise Skip()
            if kind == 'lam2' and not square(((a - d) / 2)**2 + ((b + c) / 2)**2):
                raise Skip()

    def gop_local(self):
        g = self.rng
        kind = g.choice(['q', 'q', 'nk2', 'delta', 'lam2', 'lam2', 'sw2', 'sw2', 'isw2'])
        if kind == 'lam2' and self.coin(.7):
            s = self.mklam()
        else:
            s = self.field()
        f = self.obj(s)
        if kind not in ('nk2', 'sw2', 'isw2', 'lam2') or self.coin(.6):
            self.sameaxes(s)
        if kind == 'delta' and f['uv'][0] != f['ux'][0]:
            raise Skip()
        js = jacs(f)
        if not js:
            raise Skip()
        self.noroot(js, kind)
        if kind == 'q' and f['uv'][0] < f['ux'][0]:     # too small numbers to be told apart
            raise Skip()
        if kind in ('delta', 'isw2') and all((a + d)**2 >= 4 * (a * d - b * c) for a, b, c, d in js):
            raise Skip()
        a = {'kind': kind, 'mask': self.argmask(s) if kind not in ('sw2', 'isw2') else []}
        if g.random() < .3 and kind in ('q', 'nk2', 'delta', 'lam2') and not any(f['uv']) and not any(f['ux']):
            self.rec.do('g', 'lraw', s=s, a=a)
        else:
            self.gdo('local', s, a)

    def mklam(self):
        """a shear with a rational eigenvalue of the rate of strain"""
        g = self.rng
        (p, q), w, t = g.choice([(3, 4), (4, -3), (6, 8), (5, 0), (0, 5), (-8, 6)]), g.randint(-8, 8), g.randint(-4, 4)
        k = [[Fr(t + p, 2), Fr(q - w, 2)], [Fr(q + w, 2), Fr(t - p, 2)]]
        axes = self.any_axes(2, 5)
        return self.mk(nc=2, axes=axes, units=self.units(self.coin(.6)), mask=g.choice(['none', 'none', 'one', 'border']),
                       vals=lambda c, x, y: k[c][0] * x + k[c][1] * y)

    def gop_ksum(self):
        s = self.field(masked=False)
        self.sameaxes(s)
        op = self.rng.choice(['ksum', 'kshear'])
        f = self.obj(s)
        if f['uv'][0] < f['ux'][0]:
            raise Skip()
        self.gdo(op, s)

    def gop_kolar(self):
        s = self.field(masked=False)
        if any(self.obj(s)['uv']):
            raise Skip()
        self.sameaxes(s)
        self.rec.do('g', 'kolar', s=s)

    def gop_eigen(self):
        s = self.field()
        f = self.obj(s)
        js = jacs(f)
        if not js:
            raise Skip()
        self.noroot(js, 'eigen')
        raw = self.coin(.3) and len(js) == len(f['ax']) * len(f['ay'])
        self.rec.do('g', 'eigen', s=s, a={'raw': raw})

    def gop_iota(self):
        s = self.field()
        f = self.obj(s)
        if any(x[1] and (tuple(fr(f['v'][c][i][j]) for c in (0, 1)) == (0, 0)
                         or 0 not in [f['v'][c][i][j][0] for c in (0, 1)]
                         and abs(fr(f['v'][0][i][j])) != abs(fr(f['v'][1][i][j])))
               for i, row in enumerate(f['v'][0]) for j, x in enumerate(row)):
            raise Skip()
        a = {'mask': self.argmask(s)}
        self.gdo('iota', s, a)

    # ------------------------------------------------------- neighbourhoods
    def radius(self, s, ks, hx, hy):
        g = self.rng
        r0, default = g.choice(ks)
        ind = self.coin(.6)
        rad = r0 if ind else r0 * (Fr(hx) + Fr(hy)) / 2
        default = ind and r0 == Fr(19, 10) and self.coin()
        return {'r': r(rad), 'ind': ind, 'noind': self.coin(), 'default': default, 'mask': self.argmask(s, .2 if self.obj(s)['k'] == 'F' else .5)}

    def nldo(self, s, a):
        if not any(self.obj(s)['uv']) and self.coin(.25):
            self.rec.do('g', 'nlraw', s=s, a=a)
        else:
            self.gdo('nl', s, a)

    def gop_gamma(self):
        g = self.rng
        kind = g.choice(['gamma1', 'gamma1', 'gamma2', 'gamma1b', 'gamma2b', 'kappa1', 'kappa2'])
        what = {'gamma1': g.choice(['any', 'swirl']), 'kappa1': 'any', 'gamma1b': 'mirror'}.get(kind, 'sum0')
        s, hx, hy = self.mkring(what)
        f = self.obj(s)
        if f['k'] != 'F':
            return
        if hx == hy:
            if what != 'any':
                raise Skip()
            ks = [(Fr(1), 0)]
        elif what in ('any', 'swirl') and min(len(f['ax']), len(f['ay'])) >= 5 and self.coin():
            ks = [(Fr(2), 0)]
        elif what in ('any', 'swirl'):
            ks = [(Fr(1), 0), (Fr(19, 10), 1), (Fr(3, 2), 0)]
        else:
            ks = [(Fr(19, 10), 1), (Fr(3, 2), 0)]
        if kind == 'gamma2b':
            ring = [(fr(f['v'][0][i][j]), fr(f['v'][1][i][j])) for i in range(3) for j in range(3) if (i, j) != (1, 1)]
            m = [sum(v[k] for v in ring) / 8 for k in (0, 1)]
            var = sum((v[0] - m[0])**2 + (v[1] - m[1])**2 for v in ring) / 8
            if not square(var) or not square(m[0]**2 + m[1]**2):
                raise Skip()
        a = {'kind': kind}
        a.update(self.radius(s, ks, hx, hy))
        self.nldo(s, a)

    def gop_angle(self):
        g = self.rng
        loc = g.choice(['none', 'none', 'galilean_inv', 'local'])
        s, hx, hy = self.mkring('dir' if loc == 'none' else 'sum0dir')
        if self.obj(s)['k'] != 'F':
            return
        ks = [(Fr(19, 10), 1), (Fr(3, 2), 0)] + ([(Fr(1), 0)] if loc == 'none' else [])
        a = {'kind': 'angle', 'loc': loc, 'order': g.choice([1, 1, 2])}
        a.update(self.radius(s, ks, hx, hy))
        self.nldo(s, a)

    def gop_enst(self):
        s = self.field(masked=False)
        self.sameaxes(s)
        f = self.obj(s)
        n = min(len(f['ax']), len(f['ay']))
        if n < 3 or self.mag(f) > 6 or f['uv'][0] < f['ux'][0]:
            raise Skip()
        hx, hy = fr(f['ax'][1]) - fr(f['ax'][0]), fr(f['ay'][1]) - fr(f['ay'][0])
        a = {'kind': 'enst'}
        a.update(self.radius(s, [(Fr(1), 0), (Fr(19, 10), 1)] + ([(Fr(2), 0)] if n >= 5 else []), hx, hy))
        self.nldo(s, a)

    def gop_nlres(self):
        g = self.rng
        p = g.choice([(3, 4), (4, 3), (0, 1), (2, 0), (-3, 4), (6, 8), (0, 0)])
        # 2a = p0, b + c = p1
        w = g.randint(-12, 12)
        if w * w == p[0]**2 + p[1]**2:
            w += 1
        a_, b_ = Fr(p[0], 2), Fr(p[1] + w, 2)
        c_ = Fr(p[1] - w, 2)
        d_ = g.randint(-2, 2)
        axes = (self.steps(g.randint(3, 5)), self.steps(g.randint(3, 4)))
        s = self.mk(nc=2, axes=axes, units=self.units(True), mask=g.choice(['none', 'none', 'one', 'border']),
                    vals=lambda c, x, y: (a_ * x + b_ * y + 1, c_ * x + d_ * y - 2)[c])
        f = self.obj(s)
        if f['k'] != 'F' or self.mag(f) > 200:
            return
        hx, hy = axes[0][1] - axes[0][0], axes[1][1] - axes[1][0]
        a = {'kind': 'nlres'}
        a.update(self.radius(s, [(Fr(1), 0), (Fr(19, 10), 1)], hx, hy))
        self.nldo(s, a)


MIXES = {
    'grad': {'mk': 4, 'grad': 4, 'graw': 2, 'gfield': 1, 'shear': 1, 'track': 1, 'div': 3, 'cdiv': 3, 'times': 3,
             'stokes': 2, 'recon': 1, 'recon2': 2},
    'crit': {'mk': 5, 'local': 8, 'kolar': 2, 'ksum': 2, 'times': 1, 'eigen': 2, 'iota': 2, 'gamma': 6, 'angle': 3, 'enst': 2, 'nlres': 2},
}


def derive(mix):
    def run(rng, rec, i):
        gen = DeriveGen(rng, rec)
        gen.mkg()
        gen.mkg()
        loop(gen, rng, MIXES[mix], 'gop_', gen.mkg, rng.randint(3, 6))
    return run
