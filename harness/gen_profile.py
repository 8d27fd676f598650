"""Random histories on profiles."""
from fractions import Fraction as Fr
from proj import M, NAN, UVEC, UNONE, VECU
from gen_fields import FieldGen, Skip, fr, r, LEN_UNITS, VAL_UNITS, FAM


def pow2(x):
    x = Fr(x)
    return not x.denominator & (x.denominator - 1)


class ProfGen(FieldGen):
    def __init__(self, rng, rec):
        FieldGen.__init__(self, rng, rec)
        self.made = {}

    def fresh(self, s):
        """the profile of slot s is as it was made: its floats are exactly the numbers shown"""
        return self.made.get(s) == self.obj(s)

    # ------------------------------------------------------------ creation
    def pmask(self, n, style=None):
        g = self.rng
        style = style or g.choice(['none', 'none', 'one', 'some', 'ends'])
        m = [False] * n
        if not n:
            return m
        if style == 'one':
            m[g.randrange(n)] = True
        elif style == 'some':
            m = [g.random() < .3 for _ in range(n)]
        elif style == 'ends':
            for i in range(g.randint(0, n // 2)):
                m[i] = True
            for i in range(g.randint(0, n // 2)):
                m[n - 1 - i] = True
        elif style == 'inner':
            for i in range(1, n - 1):
                m[i] = g.random() < .4
        return m

    def mkp(self, d=None, n=None, x=None, axk=None, mask=None, units=None, ties=False, lim=9, zero=True):
        g = self.rng
        n = n or g.choice([1, 2, 3, 3, 4, 4, 5, 6, 7])
        if x is None:
            x = self.axis(n, axk)
        n = len(x)
        if ties:
            x = [g.choice(x[:max(2, n // 2)]) for _ in x]
        x = list(x)
        if g.random() < .5 and not ties:
            g.shuffle(x)
        y = [Fr(g.randint(-lim, lim), g.choice([1, 1, 1, 2, 4])) for _ in x]
        if not zero:
            y = [v or Fr(1) for v in y]
        m = self.pmask(n, mask)
        a = {'x': [r(v) for v in x], 'y': [r(v) for v in y], 'mask': m}
        k = g.random()
        if k < .15 and mask is None:
            a['maskarg'], a['mask'] = 'false', [False] * n
        elif k < .2 and mask is None:
            a['maskarg'], a['mask'] = 'true', [True] * n
        elif k < .3:
            a['maskarg'] = 'float'
        elif k < .45:               # masked by a value which is not a number
            a['y'] = [NAN if v else w for v, w in zip(m, a['y'])]
            a['mask'] = [False] * n
        ux, uy = units or (g.choice(LEN_UNITS + ['s']), g.choice(VAL_UNITS))
        a.update(uxs=ux, uys=uy, ux=UVEC[ux], uy=UVEC[uy], form=g.choice(['array', 'list']),
                 unitobj=self.coin())
        if a.get('maskarg') == 'float':
            a['form'] = 'array'
        if mask is None and n > 1 and g.random() < .03 and not ties:
            a['y'] = a['y'][1:]     # refused
        d = d or self.free()
        self.rec.do('p', 'mk', d=d, a=a)
        self.made[d] = self.obj(d)
        return d

    def tied(self, p):
        return any(a == b for a, b in zip(p['x'], p['x'][1:]))

    def pp(self, n=1, tied=False, valid=0, clean=False, lim=None):
        """a profile with at least n points"""
        c = []
        for i in self.kinds('P'):
            p = self.rec.last[i]
            if not self.tame(p) or len(p['x']) < n or not tied and self.tied(p):
                continue
            if any(v[1] == 0 and v != M for v in p['x'] + p['y']) or any(v[1] == 0 for v in p['x']):
                continue
            nv = sum(v != M for v in p['y'])
            if nv < valid or clean and nv < len(p['y']):
                continue
            if lim and max([abs(v[0]) for v in p['y']] + [v[1] for v in p['y']] + [0]) > lim:
                continue
            if lim and max([abs(v[0]) for v in p['x']] + [v[1] for v in p['x']]) > 4000:
                continue
            c.append(i)
        if not c:
            raise Skip()
        return self.rng.choice(c)

    def pdo(self, op, s, a=None, t=0, ip=None, obj=True):
        return self.do(op, s, a or {'_': 0}, t=t, ip=ip, m='p', obj=obj)

    def set(self, op, s, a, t=0):
        self.rec.do('p', op, s=s, t=t, d=s, ip=True, a=a)

    # ----------------------------------------------------------- container
    def pop_copy(self):
        self.pdo('copy', self.pp(tied=True), ip=False)

    def pop_len(self):
        self.pdo('len', self.pp(n=0, tied=True), obj=False)

    def pop_eq(self):
        g = self.rng
        same = self.coin(.3)
        s = self.pp() if same else self.mkp()
        p = self.obj(s)
        if p['k'] != 'P':
            raise Skip()
        us = [VECU.get(tuple(p[k])) for k in ('ux', 'uy')]
        if None in us:
            raise Skip()
        if same:
            t = self.free()
            self.rec.do('p', 'copy', s=s, d=t, a={'_': 0})
        else:                       # the same but for one detail
            x = [fr(v) for v in p['x']]
            y = list(p['y'])
            m = [v == M for v in y]
            y = [r(1) if v == M else v for v in y]
            i = g.randrange(len(x))
            what = g.choice(['x', 'y', 'm', 'none'])
            if what == 'x' and i == len(x) - 1:
                x[i] += 1
            elif what == 'y':
                y[i] = r(fr(y[i]) + 1)
            elif what == 'm':
                m[i] = not m[i]
            t = self.free()
            self.rec.do('p', 'mk', d=t, a={'x': [r(v) for v in x], 'y': y, 'mask': m, 'ux': p['ux'], 'uy': p['uy'],
                                           'uxs': us[0], 'uys': us[1], 'form': 'array'})
        if self.obj(s)['k'] != 'P' or self.obj(t)['k'] != 'P':
            raise Skip()
        self.pdo('eq', s, t=t, obj=False)

    def pop_setx(self):
        s = self.pp()
        n = len(self.obj(s)['x'])
        if self.coin(.1):
            n += self.rng.choice([1, -1]) if n > 1 else 1
        x = self.axis(n)
        self.rng.shuffle(x)
        self.set('setx', s, {'x': [r(v) for v in x], 'form': self.rng.choice(['array', 'list'])})

    def pop_sety(self):
        s = self.pp()
        n = len(self.obj(s)['x'])
        y = [NAN if self.coin(.15) else r(self.val()) for _ in range(n)]
        self.set('sety', s, {'y': y, 'form': self.rng.choice(['array', 'list'])})

    def pop_poke(self):
        s = self.pp(valid=1)
        v = [i for i, y in enumerate(self.obj(s)['y']) if y != M]
        self.set('poke', s, {'i': self.rng.choice(v), 'v': r(self.val())})

    def pop_setmask(self):
        s = self.pp()
        y = self.obj(s)['y']
        m = [v == M or self.coin(.25) for v in y]
        how = self.rng.choice(['in', 'set', 'set'])
        if self.coin(.06):
            m, how = [True] * len(y), 'bool'
        self.set('setmask', s, {'mask': m, 'how': how})

    def pop_setunit(self):
        s = self.pp()
        axe = self.rng.choice(['x', 'y'])
        us = self.rng.choice(LEN_UNITS if axe == 'x' else VAL_UNITS)
        self.set('setunit', s, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()})

    def newx(self, p):
        for _ in range(20):
            x = Fr(self.rng.randint(-20, 20), 4)
            if r(x) not in p['x']:
                return x
        raise Skip()

    def pop_addpt(self):
        s = self.pp(n=0)
        p = self.obj(s)
        if len(p['x']) > 9:
            raise Skip()
        self.set('addpt', s, {'x': r(self.newx(p)), 'y': NAN if self.coin(.1) else r(self.val())})

    def pop_addpts(self):
        g = self.rng
        s = self.pp(n=0, tied=True)
        p = self.obj(s)
        us = [VECU.get(tuple(p[k])) for k in ('ux', 'uy')]
        if None in us or len(p['x']) > 8 or us[0] not in LEN_UNITS + ['s'] or us[1] not in VAL_UNITS:
            raise Skip()
        if not self.coin(.1):
            x = []
            for _ in range(g.randint(1, 3)):
                v = Fr(g.randint(-20, 20), 4)
                if r(v) not in p['x'] and v not in x:
                    x.append(v)
            if not x:
                raise Skip()
            if self.coin(.1):
                us[1] = g.choice(['kg', 'Pa', 'counts'])
            t = self.mkp(x=x, units=us)
        else:
            t = self.mkp(n=2, units=(us[0], 'kg'))
        if t == s or self.obj(t)['k'] != 'P':
            raise Skip()
        self.set('addpts', s, {'_': 0}, t=t)

    def pop_rmpt(self):
        s = self.pp(n=2)
        self.set('rmpt', s, {'i': self.rng.randrange(len(self.obj(s)['x']))})

    # ---------------------------------------------------------------- crop
    def xwin(self, x):
        """a window with its lower bound on a point (or before all)"""
        g = self.rng
        x = [fr(v) for v in x]
        mids = [(a + b) / 2 for a, b in zip(x, x[1:])] + [a + (b - a) / 4 for a, b in zip(x, x[1:])]
        lo = g.choice(x + x + [x[0] - 1, x[0] - 2])
        hi = g.choice(x + mids + [x[-1] + 1, x[-1] + Fr(1, 2)])
        return lo, hi

    def pop_crop(self):
        g = self.rng
        s = self.pp(lim=20000)
        p = self.obj(s)
        n = len(p['x'])
        if not all(pow2(fr(v)) for v in p['x'] + p['y'] if v != M):
            raise Skip()
        k = g.random()
        if k < .3:
            w = self.iwindow(n)
            if not w:
                w = [0, n]
            w = [w[0], w[1] + 1] if self.coin() else list(w)
            if w[0] < 0:
                raise Skip()
            a = {'mode': 'ind', 'wi': w}
        elif k < .7:
            w = self.xwin(p['x'])
            if g.random() < .05:
                w = g.choice([(fr(p['x'][-1]) + 1, fr(p['x'][-1]) + 2), (fr(p['x'][0]) - 2, fr(p['x'][0]) - 1), w[::-1]])
                if fr(p['x'][0]) <= w[0] < w[1] and r(w[0]) not in p['x']:
                    raise Skip()
            a = {'mode': 'x', 'w': [r(v) for v in w]}
        else:
            lo, hi = sorted(self.val() for _ in range(2))
            if lo == hi:
                hi += 2
            if self.coin(.6) or n == 1:
                a = {'mode': 'y', 'w': [r(lo), r(hi)]}
            else:
                w = self.xwin(p['x'])
                if not w[0] < w[1] or w[1] < fr(p['x'][0]):
                    raise Skip()
                a = {'mode': 'xy', 'w': [r(v) for v in w], 'wy': [r(lo), r(hi)]}
        self.pdo('crop', s, a)

    def pop_cropb(self):
        self.pdo('cropb', self.pp(valid=1))

    def psmall(self, p, lim=300):
        if max([abs(v[0]) for v in p['x'] + p['y']] + [v[1] for v in p['x'] + p['y']] + [0]) > lim:
            raise Skip()

    def pop_scale(self):
        s = self.pp(lim=300)
        p = self.obj(s)
        self.psmall(p)
        self.usmall(p['ux'], p['uy'])
        a = {}
        a['fx'], a['sx'] = self.fac()
        a['fy'], a['sy'] = self.fac(units=VAL_UNITS)
        self.pdo('scale', s, a)

    def pop_unit(self):
        g = self.rng
        s = self.pp(lim=300)
        p = self.obj(s)
        self.psmall(p)
        axe = g.choice(['x', 'y'])
        cur = VECU.get(tuple(p['u' + axe]))
        if cur is None:
            raise Skip()
        us = g.choice(FAM.get(cur, [cur]))
        if self.coin(.08):
            us = g.choice(['m', 's', 'kg'])
        self.set('unit', s, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()})

    def pop_rmnan(self):
        self.pdo('rmnan', self.pp())

    def pop_doub(self):
        if self.coin(.6):
            s = self.mkp(n=self.rng.randint(3, 7), ties=True, mask=self.rng.choice(['none', 'one', 'some']))
        else:
            s = self.pp(tied=True)
        p = self.obj(s)
        if p['k'] != 'P' or all(v[0] == 0 for v in p['x']):
            raise Skip()
        self.psmall(p)
        x = [abs(fr(v)) for v in p['x']]
        if max(x) < Fr(1, 100):
            raise Skip()
        # the rounding keeps six digits
        if any(v * 4096 != int(v * 4096) and v * 10000 != int(v * 10000) for v in x) or \
                any(0 < b - a < Fr(1, 100) for a, b in zip(sorted(x), sorted(x)[1:])):
            raise Skip()
        if max(x) > 50 or any(v.denominator > 4 for v in x):
            raise Skip()
        self.pdo('doub', s, {'how': self.rng.choice(['average', 'min', 'max'])})

    def pop_marg(self):
        s = self.pp(valid=1, lim=24)
        if not all(pow2(fr(v)) for v in self.obj(s)['y'] if v != M):
            raise Skip()
        self.pdo('marg', s, {'f': r(self.rng.choice([Fr(1, 2), 1, Fr(3, 2), 2]))})

    # ---------------------------------------------------------- arithmetic
    def pop_neg(self):
        self.pdo('neg', self.pp(), ip=False)

    def pop_addq(self):
        s = self.pp(lim=1000)
        a = self.quant(self.obj(s)['uy'])
        a['how'] = self.rng.choice(['add', 'sub', 'rsub'])
        self.pdo('addq', s, a, ip=False)

    def like(self, p, conv=True, zero=True):
        """a profile on the axis of p; maybe written in another unit"""
        g = self.rng
        us = [VECU.get(tuple(p[k])) for k in ('ux', 'uy')]
        if None in us:
            raise Skip()
        x = [fr(v) for v in p['x']]
        if not all(pow2(v) for v in x):
            raise Skip()            # the axes have to be the same to the last bit
        ux, uy = us[0], g.choice(FAM.get(us[1], [us[1]]))
        k = g.random()
        if conv and us[0] in FAM and k < .2:
            ux = g.choice(FAM[us[0]])
            x = [v * Fr(10)**(UVEC[us[0]][0] - UVEC[ux][0]) for v in x]
            if not all(pow2(v) for v in x):
                raise Skip()
        elif k < .24 and us[0] in FAM:
            ux = g.choice(FAM[us[0]])   # the same numbers in another unit
            if ux != us[0] and all(v == 0 for v in x):
                raise Skip()
        elif k < .3:                # one point moved, up or down
            i = g.randrange(len(x))
            x[i] += g.choice([Fr(1, 8), Fr(-1, 8)])
            if len(set(x)) < len(x) or sorted(x) != x:
                raise Skip()
        elif k < .33 and len(x) > 2:
            x = x[:-1]
        elif k < .36:
            uy = g.choice(VAL_UNITS)
        t = self.mkp(x=x, units=(ux, uy), zero=zero,
                     mask=g.choice(['none', 'none', 'one', 'some']))
        return t

    def pop_add(self):
        s = self.pp(lim=1000)
        t = self.like(self.obj(s))
        if t == s:
            raise Skip()
        self.pdo('add', s, {'sub': self.coin()}, t=t, ip=False)

    def pop_mulq(self):
        s = self.pp(lim=300)
        p = self.obj(s)
        self.usmall(p['uy'])
        a = self.quant(p['uy'], anyunit=True, zero=False)
        if abs(p['uy'][0]) + abs(a['u'][0]) > 4:
            raise Skip()
        self.pdo(self.rng.choice(['mulq', 'divq']), s, a, ip=False)

    def pop_mulp(self):
        s = self.pp(n=2, lim=60)
        p = self.obj(s)
        self.usmall(p['uy'])
        t = self.like(p, conv=False)
        if t == s or len(self.obj(t)['x']) != len(p['x']) or abs(p['uy'][0]) + abs(self.obj(t)['uy'][0]) > 4:
            raise Skip()
        self.pdo('mulp', s, t=t, ip=False)

    def pop_divp(self):
        s = self.pp(lim=60)
        p = self.obj(s)
        self.usmall(p['uy'])
        t = self.like(p)
        if t == s or len(self.obj(t)['x']) != len(p['x']) or abs(p['uy'][0]) + abs(self.obj(t)['uy'][0]) > 4:
            raise Skip()
        self.pdo('divp', s, t=t, ip=False)

    def pop_pow(self):
        s = self.pp(lim=40)
        p = self.obj(s)
        if any(abs(x) > 1 for x in p['uy'][1:]) or abs(p['uy'][0]) > 3:
            raise Skip()
        self.pdo('pow', s, {'n': self.rng.choice([1, 2, 2, 3])}, ip=False)

    # -------------------------------------------------------------- values
    def pop_stat(self):
        self.pdo('stat', self.pp(tied=True, lim=1000), {'kind': self.rng.choice(['min', 'max', 'mean'])}, obj=False)

    def within(self, ax, fail=.1, exact=True):
        g = self.rng
        ax = [fr(v) for v in ax]
        if not exact:
            if len(ax) < 2:
                raise Skip()
            return g.choice([a + (b - a) * Fr(g.randint(1, 3), 4) for a, b in zip(ax, ax[1:])])
        if self.coin(fail):
            return g.choice([ax[0] - 1, ax[-1] + 1, ax[-1] + Fr(1, 4)])
        return g.choice(ax + [a + (b - a) * Fr(g.randint(1, 3), 4) for a, b in zip(ax, ax[1:])] * 2)

    def pop_ipx(self):
        s = self.pp(lim=200)
        p = self.obj(s)
        self.psmall(p)
        ind = self.coin(.25)
        ax = [r(i) for i in range(len(p['x']))] if ind else p['x']
        lst = self.coin(.4)
        q = [r(self.within(ax, exact=ind or self.fresh(s))) for _ in range(self.rng.randint(1, 4) if lst else 1)]
        self.pdo('ipx', s, {'q': q, 'list': lst, 'ind': ind}, obj=False)

    def level(self, s, p, one=False):
        """a value the profile takes at points or between them, not both"""
        g = self.rng
        y = [None if v == M else fr(v) for v in p['y']]
        if not all(w is None or pow2(w) for w in y):
            raise Skip()
        v = [w for w in y if w is not None]
        c = [(a + b) / 2 for a, b in zip(y, y[1:]) if a is not None and b is not None]
        c = c + c + [a + (b - a) / 4 for a, b in zip(y, y[1:]) if a is not None and b is not None]
        q = g.choice(c + v + [max(v) + 1])
        hits = sum(w == q for w in v)
        cross = sum(a is not None and b is not None and (a - q) * (b - q) < 0 for a, b in zip(y, y[1:]))
        if hits and not self.fresh(s) or hits and cross or one and hits > 1:
            raise Skip()
        return q

    def pop_ipy(self):
        s = self.pp(lim=60, valid=1)
        p = self.obj(s)
        self.psmall(p)
        lst = self.coin(.4)
        q = [r(self.level(s, p)) for _ in range(self.rng.randint(1, 3) if lst else 1)]
        self.pdo('ipy', s, {'q': q, 'list': lst}, obj=False)

    def pop_vpos(self):
        s = self.pp(lim=60, valid=1)
        p = self.obj(s)
        self.psmall(p)
        self.pdo('vpos', s, {'v': r(self.level(s, p, one=True)), 'ind': self.coin(.4)}, obj=False)

    def pop_interp(self):
        s = self.pp(lim=100, valid=2)
        p = self.obj(s)
        self.psmall(p)
        self.pdo('interp', s, {'q': r(self.within(p['x'], .15, self.fresh(s))), 'strict': self.coin()}, obj=False)

    def pop_integ(self):
        s = self.pp(lim=100, valid=1)
        p = self.obj(s)
        self.psmall(p)
        if abs(p['ux'][0]) + abs(p['uy'][0]) > 3 or not all(pow2(fr(v)) for v in p['x'] + p['y'] if v != M):
            raise Skip()
        self.pdo('integ', s, obj=False)

    def iseven(self, p):
        x = [fr(v) for v in p['x']]
        d = {b - a for a, b in zip(x, x[1:])}
        return len(d) == 1

    def pop_grad(self):
        s = self.pp(n=2, lim=100)
        p = self.obj(s)
        self.psmall(p)
        self.usmall(p['ux'], p['uy'])
        if not self.iseven(p) and not self.coin(.2):
            raise Skip()
        self.pdo('grad', s, ip=False)

    def pop_gradat(self):
        g = self.rng
        s = self.pp(n=2, lim=100, clean=True)
        p = self.obj(s)
        self.psmall(p)
        if not self.iseven(p) and not self.coin(.1):
            raise Skip()
        x = [fr(v) for v in p['x']]
        d = x[1] - x[0]
        q = self.within(p['x'], .2, self.fresh(s))
        dx = [] if self.coin() else [r(g.choice([d, d / 2, 2 * d, d / 4]))]
        self.pdo('gradat', s, {'q': r(q), 'dx': dx}, obj=False)

    def pop_fill(self):
        g = self.rng
        s = self.pp(lim=60, valid=2)
        p = self.obj(s)
        self.psmall(p)
        kind = g.choice(['value', 'linear', 'slinear'])
        self.pdo('fill', s, {'kind': kind, 'v': r(self.val()), 'crop': kind != 'value' and self.coin(.3)})

    def pop_smooth(self):
        s = self.pp(lim=60, valid=2)
        p = self.obj(s)
        self.psmall(p)
        self.pdo('smooth', s, {'size': self.rng.choice([2, 3, 3, 5]), 'dir': self.rng.choice(['y', 'y', 'x'])})

    def pop_even(self):
        g = self.rng
        s = self.pp(n=3, lim=40, valid=2)
        p = self.obj(s)
        self.psmall(p)
        if p['y'][0] == M or p['y'][-1] == M or not all(pow2(fr(v)) for v in p['x']):
            raise Skip()
        x = [fr(v) for v in p['x']]
        a = {'dx': []}
        if self.coin(.6) or len(x) not in (3, 5):
            dx = g.choice([Fr(1, 2), Fr(1), Fr(1, 4), Fr(3, 4), Fr(3, 2)])
            if not 1 <= (x[-1] - x[0]) / dx <= 9:
                raise Skip()
            a = {'dx': [r(dx)]}
        self.pdo('even', s, a)

    def pop_augment(self):
        s = self.pp(lim=60, valid=2)
        p = self.obj(s)
        self.psmall(p)
        if len(p['x']) > 6:
            raise Skip()
        self.pdo('augment', s, {'fact': self.rng.choice([1, 2, 2, 3])})

    def pop_conv(self):
        g = self.rng
        s = self.pp(n=2, lim=30)
        p = self.obj(s)
        self.psmall(p)
        self.usmall(p['uy'])
        us = VECU.get(tuple(p['ux']))
        x = [fr(v) for v in p['x']]
        if us is None or len(x) > 6 or not self.iseven(p) and not self.coin(.1):
            raise Skip()
        d = x[1] - x[0]
        if not pow2(d):
            raise Skip()
        if self.coin(.06):
            d += Fr(1, 4)
        if self.coin(.06):
            us = g.choice(LEN_UNITS)
        n = g.randint(2, 5)
        x0 = d * g.randint(-3, 3)
        x = [x0 + i * d for i in range(n)]
        if self.coin(.08) and n > 2:
            x[-1] += Fr(1, 2)
        t = self.mkp(x=x, units=(us, g.choice(VAL_UNITS)), mask=g.choice(['none', 'none', 'one']))
        if t == s:
            raise Skip()
        self.pdo('conv', s, {'mode': g.choice(['full', 'same', 'valid'])}, t=t, ip=False)


MIXES = {
    'hold': {'copy': 2, 'len': 1, 'eq': 3, 'setx': 3, 'sety': 2, 'poke': 1, 'setmask': 2, 'setunit': 2, 'addpt': 3,
             'addpts': 3, 'rmpt': 2, 'crop': 8, 'cropb': 3, 'scale': 4, 'unit': 4, 'rmnan': 2, 'doub': 3, 'marg': 2,
             'mk': 2},
    'arith': {'neg': 1, 'addq': 3, 'add': 5, 'mulq': 4, 'mulp': 3, 'divp': 3, 'pow': 2, 'mk': 2, 'unit': 1,
              'poke': 1},
    'look': {'stat': 2, 'ipx': 4, 'ipy': 3, 'vpos': 3, 'interp': 3, 'integ': 3, 'grad': 3, 'gradat': 3, 'fill': 4,
             'smooth': 3, 'even': 3, 'augment': 3, 'conv': 4, 'mk': 5, 'mkeven': 4, 'mkclean': 2, 'crop': 1},
}


def profiles(mix):
    def run(rng, rec, i):
        gen = ProfGen(rng, rec)
        gen.mkp()
        names = list(MIXES[mix])
        weights = [MIXES[mix][n] for n in names]
        done = tries = 0
        n = rng.randint(4, 8)
        while done < n and tries < 60:
            tries += 1
            op = rng.choices(names, weights)[0]
            try:
                if op == 'mk':
                    gen.mkp()
                elif op == 'mkeven':
                    gen.mkp(n=rng.randint(2, 6), axk=rng.choice(['uni', 'neg', 'zero']),
                            mask=rng.choice(['none', 'inner']))
                elif op == 'mkclean':
                    gen.mkp(n=rng.randint(3, 6), axk='non', mask='none')
                else:
                    getattr(gen, 'pop_' + op)()
                done += 1
            except Skip:
                continue
    return run


def known_crop(rng, rec, i):
    """KNOWN_FINDINGS: a lower bound between two points"""
    a = {'x': [r(v) for v in (0, 1, 2, 3, 4)], 'y': [r(v) for v in (5, 6, 7, 8, 9)], 'mask': [False] * 5,
         'ux': UVEC['m'], 'uy': UVEC[''], 'uxs': 'm', 'uys': '', 'form': 'array'}
    rec.do('p', 'mk', d=1, a=a)
    rec.do('p', 'crop', s=1, d=2, a={'mode': 'x', 'w': [r(Fr(1, 2)), r(3)]})
