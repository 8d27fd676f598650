"""Random histories on sets of points."""
from fractions import Fraction as Fr
from proj import NAN, UVEC, UNONE, VECU
from gen_fields import Skip, fr, r, LEN_UNITS, VAL_UNITS, FAM
from gen_temporal import TempGen

NOFAC = {'kind': 'none', 'q': [1, 1], 'us': ''}


def nums(p):
    return [x for c in p['xy'] for x in c] + list(p['v'])


def distinct(s):
    return len(set(map(tuple, s))) == len(s)


class PointGen(TempGen):
    top = 6
    # ------------------------------------------------------------ creation
    def coord(self):
        return Fr(self.rng.randint(-9, 9), self.rng.choice([1, 1, 2, 4]))

    def mks(self, d=None, n=None, ori=None, v=None, units=None, xy=None, vs=None, nan=.1, bad=True, ties=True):
        g = self.rng
        n = len(xy) if xy is not None else (g.choice([0, 1, 2, 3, 3, 4, 4, 5, 6]) if n is None else n)
        ori = self.coin(.3) if ori is None else ori
        if ori and n == 0:
            n = 1
        v = self.coin(.6) if v is None else v
        xy = xy if xy is not None else [(self.coord(), self.coord()) for _ in range(n)]
        xy = [[r(x), r(y)] for x, y in xy]
        if vs is None:
            vs = [] if not v else [Fr(g.randint(-9, 9), g.choice([1, 1, 2])) for _ in range(n)]
            if ties and vs and self.coin(.2):
                vs = [g.choice(vs[:2]) for _ in vs]
        vs = [r(x) for x in vs]
        for _ in range(0 if not n or not self.coin(nan) else 1 if nan < 1 else g.randint(1, 3)):
            k = g.choice(['x', 'y', 'v'])
            i = g.randrange(n)
            if k == 'v' and vs:
                vs[i] = NAN
            elif k != 'v':
                xy[i][k == 'y'] = NAN
        a = {'xy': xy, 'v': vs, 'ori': ori, 'or': []}
        if ori:
            no = g.choice([1, 2])
            a['or'] = [[[r(g.randint(-2, 2)), r(g.randint(-2, 2))] for _ in range(no)] for _ in range(n)]
        if bad and self.coin(.04):              # refused
            if vs and n > 1:
                a['v'] = vs[1:]
            elif ori:
                a['or'] = a['or'] + a['or'][:1]
        ux = g.choice(LEN_UNITS)
        uy = ux if self.coin(.75) else g.choice(LEN_UNITS)
        uv = g.choice(VAL_UNITS + ['s', 'ms', 's'])
        if units:
            ux, uy, uv = units
        a.update(uxs=ux, uys=uy, uvs=uv, ux=UVEC[ux], uy=UVEC[uy], uv=UVEC[uv], form=g.choice(['array', 'list']),
                 unitobj=self.coin(), intv=self.coin(.3))
        d = d or self.free()
        self.rec.do('s', 'mk', d=d, a=a)
        return d

    def ss(self, n=1, ori=None, v=None, nan=False, lim=20000, small=None):
        """a set with at least n points"""
        c = []
        for i in self.kinds('S') + (self.kinds('O') if ori is not False else []):
            p = self.rec.last[i]
            if ori and p['k'] != 'O' or not self.tame(p, lim) or len(p['xy']) < n:
                continue
            if not nan and any(x[1] == 0 for x in nums(p)):
                continue
            if v and not p['v']:
                continue
            if small and max([abs(x[0]) for x in nums(p)] + [x[1] for x in nums(p)] + [0]) > small:
                continue
            c.append(i)
        if not c:
            raise Skip()
        return self.rng.choice(c)

    def sdo(self, op, s, a=None, t=0, ip=None, obj=True):
        return self.do(op, s, a or {'_': 0}, t=t, ip=ip, m='s', obj=obj)

    def sset(self, op, s, a, t=0, m='s'):
        self.rec.do(m, op, s=s, t=t, d=s, ip=True, a=a)

    # ----------------------------------------------------------- container
    def sop_copy(self):
        self.sdo('copy', self.ss(0, nan=True), ip=False)

    def sop_len(self):
        self.sdo('len', self.ss(0, nan=True), obj=False)

    def sop_iter(self):
        self.sdo('iter', self.ss(0), obj=False)

    def sop_eq(self):
        g = self.rng
        s = self.mks(ori=False, nan=0, bad=False)    # the floats are exactly the numbers shown
        p = self.obj(s)
        us = [VECU.get(tuple(p[k])) for k in ('ux', 'uy', 'uv')]
        if None in us:
            raise Skip()
        xy = [[list(c[0]), list(c[1])] for c in p['xy']]
        v = [list(x) for x in p['v']]
        what = g.choice(['same', 'x', 'y', 'v', 'less', 'more', 'nov', 'swap'])
        i = g.randrange(len(xy)) if xy else 0
        if what in 'xy' and xy:
            k = what == 'y'
            xy[i][k] = r(fr(xy[i][k]) + 1)
        elif what == 'v' and v:
            v[i] = r(fr(v[i]) + 1)
        elif what == 'less' and len(xy) > 1:
            xy, v = xy[:-1], v[:-1]
        elif what == 'more' and xy:
            xy, v = xy + xy[-1:], v + v[-1:]
        elif what == 'nov':
            v = []
        elif what == 'swap' and len(xy) > 1:
            xy[0], xy[1] = xy[1], xy[0]
        t = self.free()
        if t == s:
            raise Skip()
        a = {'xy': xy, 'v': v, 'ori': False, 'or': [], 'form': 'list'}
        for k, u in zip(('ux', 'uy', 'uv'), us):
            a[k], a[k + 's'] = UVEC[u], u
        self.rec.do('s', 'mk', d=t, a=a)
        if self.coin():
            s, t = t, s
        self.sdo('eq', s, t=t, obj=False)

    def sop_setxy(self):
        g = self.rng
        s = self.ss(1, ori=False)
        n = len(self.obj(s)['xy'])
        if self.coin(.3):
            n = max(1, n + g.choice([1, -1]))
        self.sset('setxy', s, {'xy': [[r(self.coord()), r(self.coord())] for _ in range(n)],
                               'form': g.choice(['array', 'list'])})

    def sop_setv(self):
        g = self.rng
        s = self.ss(1)
        n = len(self.obj(s)['xy'])
        if self.coin(.15):
            n = g.choice([0, n + 1])
        self.sset('setv', s, {'v': [r(self.val()) for _ in range(n)], 'form': g.choice(['array', 'list'])})

    def sop_poke(self):
        s = self.ss(1)
        n = len(self.obj(s)['xy'])
        self.sset('poke', s, {'i': self.rng.randrange(n), 'xy': [r(self.coord()), r(self.coord())]})

    def sop_setunit(self):
        s = self.ss(0)
        axe = self.rng.choice(['x', 'y', 'v'])
        us = self.rng.choice(LEN_UNITS if axe != 'v' else VAL_UNITS)
        self.sset('setunit', s, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()})

    def kin(self, p, fail=.06):
        """units of the same kind as those of p"""
        us = []
        for k in ('ux', 'uy', 'uv'):
            u = VECU.get(tuple(p[k]))
            if u is None:
                raise Skip()
            u = self.rng.choice(FAM.get(u, [u]))
            if self.coin(fail):
                u = self.rng.choice(['m', 's', 'kg', 'px'])
            us.append(u)
        return us

    def sop_cat(self):
        s = self.ss(0, lim=2000)
        p = self.obj(s)
        if len(p['xy']) > 8:
            raise Skip()
        us = self.kin(p)
        if not p['v']:                          # the unit of no values
            us[2] = VECU[tuple(p['uv'])]
        if self.coin(.3):
            t = self.ss(0, lim=2000)
            q = self.obj(t)
            if len(q['xy']) > 8 or (q['k'] != p['k']) or not p['v'] and q['uv'] != p['uv']:
                raise Skip()
            if q['k'] == 'O' and len(q['or'][0] if q['or'] else []) != len(p['or'][0] if p['or'] else []):
                raise Skip()
        else:
            t = self.mks(ori=False, v=bool(p['v']) if self.coin(.9) else None, units=us, nan=0, bad=False)
        p, q = self.obj(s), self.obj(t)
        if p['k'] not in 'SO' or p['k'] == 'O' and q['k'] != 'O' and not (q['xy'] and p['xy']) or not self.tame(p, 2000):
            raise Skip()
        self.sdo('cat', s, t=t, ip=False)

    def sop_catself(self):
        """an oriented set with another of the same make"""
        s = self.ss(1, ori=True)
        p = self.obj(s)
        if len(p['xy']) > 6:
            raise Skip()
        t = self.free()
        if t == s:
            raise Skip()
        self.rec.do('s', 'copy', s=s, d=t, a={'_': 0})
        n = len(p['xy'])
        self.sset('poke', t, {'i': self.rng.randrange(n), 'xy': [r(self.coord()), r(self.coord())]})
        axe = self.rng.choice(['x', 'y'])
        cur = VECU.get(tuple(p['u' + axe]))
        if cur in FAM and self.tame(p, 2000):
            us = self.rng.choice(FAM[cur])
            self.sset('unit', t, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': True})
        self.sdo('cat', s, t=t, ip=False)

    def sop_addpt(self):
        s = self.ss(0)
        p = self.obj(s)
        if len(p['xy']) > 9:
            raise Skip()
        v = bool(p['v']) if p['xy'] else self.coin()
        if self.coin(.06):
            v = not v
        if p['k'] == 'O' and not p['xy']:
            raise Skip()
        a = {'xy': [r(self.coord()), r(self.coord())], 'v': [r(self.val())] if v else [],
             'form': self.rng.choice(['array', 'list']), 'or': []}
        if p['k'] == 'O':
            a['or'] = [[r(self.rng.randint(-2, 2)), r(self.rng.randint(-2, 2))] for _ in p['or'][0]]
        self.sset('addpt', s, a)

    def sop_rm(self):
        g = self.rng
        s = self.ss(2)
        n = len(self.obj(s)['xy'])
        ids = g.sample(range(n), g.randint(1, n - 1))
        self.sset('rm', s, {'ids': ids, 'int': self.coin(.8)})

    def sop_unit(self):
        g = self.rng
        s = self.ss(0, small=300)
        p = self.obj(s)
        axe = g.choice(['x', 'y', 'v'])
        if axe == 'v' and not p['v']:
            axe = 'x'
        cur = VECU.get(tuple(p['u' + axe]))
        if cur is None:
            raise Skip()
        us = g.choice(FAM.get(cur, [cur]))
        if self.coin(.08):
            us = g.choice(['m', 's', 'kg'])
        self.sset('unit', s, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()})

    def sop_origin(self):
        x, y = self.coord(), self.coord()
        if self.coin(.3):
            x = Fr(0)
        self.sset('origin', self.ss(1), {'x': r(x), 'y': r(y)})

    # ---------------------------------------------------------- selections
    def win(self, s, whole=.3):
        """bounds on values, or well between them"""
        g = self.rng
        if not s or self.coin(whole):
            return []
        c = sorted(set(fr(x) for x in s))
        c = [c[0] - 1] + c + [c[-1] + 1]
        b = c + [(x + y) / 2 for x, y in zip(c, c[1:])]
        lo, hi = sorted([g.choice(b), g.choice(b)])
        if max(lo.denominator, hi.denominator, abs(lo.numerator), abs(hi.numerator)) > 40000:
            raise Skip()
        return [r(lo), r(hi)]

    def cols(self, p):
        return [c[0] for c in p['xy']], [c[1] for c in p['xy']], p['v']

    def sop_crop(self):
        g = self.rng
        s = self.ss(1)
        p = self.obj(s)
        n = len(p['xy'])
        x, y, v = self.cols(p)
        if p['k'] == 'S' and p['v'] and self.coin(.25):
            i = g.randrange(n)
            a = {'ind': True, 'wi': [i, g.randint(i, n + 1)], 'wx': [], 'wy': [], 'wv': []}
        else:
            a = {'ind': False, 'wi': [], 'wx': self.win(x), 'wy': self.win(y), 'wv': self.win(v)}
        self.sdo('crop', s, a)

    def sop_cut(self):
        s = self.ss(1)
        x, y, v = self.cols(self.obj(s))
        wx, wy = self.win(x), self.win(y)
        if not wx and not wy:
            raise Skip()
        self.sdo('cut', s, {'wx': wx, 'wy': wy}, ip=False)

    def sop_sort(self):
        g = self.rng
        s = self.ss(1)
        p = self.obj(s)
        n = len(p['xy'])
        ref = g.choice(['x', 'y', 'v', 'ids'])
        x, y, v = self.cols(p)
        if ref == 'v' and not v:
            raise Skip()
        if ref != 'ids' and not distinct({'x': x, 'y': y, 'v': v}[ref]):
            raise Skip()
        ids = list(range(n))
        g.shuffle(ids)
        self.sdo('sort', s, {'ref': ref, 'ids': ids})

    def sop_rmnan(self):
        c = [i for i in self.kinds('S') + self.kinds('O')
             if any(x == NAN for x in nums(self.obj(i)))]
        if c and self.coin(.9):
            return self.sdo('rmnan', self.rng.choice(c))
        self.sdo('rmnan', self.ss(1, nan=True))

    def sop_mknan(self):
        s = self.mks(n=self.rng.randint(2, 5), nan=1, bad=False)
        if self.coin(.4):
            t = self.free()
            if t != s:
                self.rec.do('s', 'copy', s=s, d=t, a={'_': 0})
        self.sdo('rmnan', s)

    def sop_decomp(self):
        s = self.ss(1)
        p = self.obj(s)
        n = len(p['xy'])
        if not p['v'] and n > 1:
            raise Skip()
        self.rec.do('s', 'decomp', s=s, d=self.free(), ip=False, a={'i': self.rng.randrange(n)})

    # --------------------------------------------------------------- space
    def sop_scale(self):
        s = self.ss(1, ori=False, small=300)
        p = self.obj(s)
        self.usmall(p['ux'], p['uy'], p['uv'])
        a = {}
        a['fx'], a['sx'] = self.fac()
        a['fy'], a['sy'] = self.fac()
        a['fv'], a['sv'] = self.fac(units=VAL_UNITS) if p['v'] else (NOFAC, [r(1), UNONE])
        self.sdo('scale', s, a)

    def sop_rotate(self):
        s = self.ss(1, small=300)
        p = self.obj(s)
        if p['ux'] != p['uy']:
            raise Skip()
        c, d = self.rng.choice([(0, 1), (-1, 0), (0, -1), (1, 0), (Fr(3, 5), Fr(4, 5)), (Fr(-4, 5), Fr(3, 5)),
                                (Fr(5, 13), Fr(-12, 13))])
        self.sdo('rotate', s, {'c': r(c), 's': r(d)})

    def sop_reverse(self):
        self.sdo('reverse', self.ss(1), ip=False)

    # ------------------------------------------------------------- derived
    def sop_doub(self):
        g = self.rng
        n = g.randint(2, 6)
        pool = [Fr(g.randint(-9, 9), g.choice([1, 2, 4])) for _ in range(g.randint(1, 3))]
        one = Fr(g.choice([1, 1, -1, 2, -3, 8]))    # all null is not covered
        pool.append(one)
        s = self.mks(n=n, ori=False, vs=[g.choice(pool) for _ in range(n - 1)] + [one], nan=0, bad=False)
        self.sdo('doub', s, {'how': g.choice(['average', 'min', 'max'])})

    def sop_augment(self):
        s = self.ss(2, ori=False, small=300)
        if len(self.obj(s)['xy']) > 6:
            raise Skip()
        self.sdo('augment', s, {'fact': self.rng.choice([1, 2, 2, 3, 4])})

    def sop_smooth(self):
        s = self.ss(2, ori=False, small=300)
        self.sdo('smooth', s, {'size': self.rng.choice([1, 2, 3])})

    def sop_toprof(self):
        g = self.rng
        s = self.ss(1, ori=False)
        p = self.obj(s)
        ax = ['x', 'y'] + (['v'] if p['v'] else [])
        x, y = g.choice(ax), g.choice(ax)
        if not distinct(dict(zip('xyv', self.cols(p)))[x]):
            raise Skip()
        self.sdo('toprof', s, {'x': x, 'y': y}, ip=False)

    def sop_veloc(self):
        g = self.rng
        n = g.randint(2, 6)
        vs = g.sample([Fr(k, 2) for k in range(-4, 13)], n)
        s = self.mks(n=n, ori=False, vs=vs, nan=0, bad=False, units=(g.choice(LEN_UNITS), g.choice(LEN_UNITS),
                                                                    g.choice(['s', 'ms', '', 'm', 'mm'])))
        p = self.obj(s)
        if p['k'] != 'S':
            raise Skip()
        if self.coin(.05):
            self.sset('setv', s, {'v': []})
        incr = g.choice([1, 1, 2, 3])
        if n <= incr:
            incr = 1
        xaxis = g.choice(['time', 'x', 'y'])
        ids = sorted(range(n), key=lambda i: vs[i])[::incr]
        c = [p['xy'][i][xaxis == 'y'] for i in ids]
        if xaxis != 'time' and not distinct([r(fr(x) + fr(y)) for x, y in zip(c, c[1:])]):
            xaxis = 'time'
        self.sdo('veloc', s, {'comp': g.choice(['x', 'y']), 'incr': incr, 'xaxis': xaxis}, ip=False)

    def onpoints(self, f, n):
        g = self.rng
        out = []
        for _ in range(n):
            x, y = fr(g.choice(f['ax'])), fr(g.choice(f['ay']))
            if self.coin(.05):
                x = fr(f['ax'][-1]) + 1
            out.append((x, y))
        return out

    def sop_evol(self):
        g = self.rng
        fd = self.free()
        self.mk(d=fd, nc=1, plain=True)
        f = self.obj(fd)
        us = [VECU.get(tuple(f[k])) for k in ('ux', 'uy')] if f['k'] == 'F' else [None]
        if None in us:
            raise Skip()
        n = g.randint(1, 5)
        v = self.coin(.6)
        vs = g.sample([Fr(k, 2) for k in range(-4, 13)], n) if v else []
        xy = self.onpoints(f, n)
        s = self.mks(ori=False, xy=xy, vs=vs, units=(us[0], us[1], g.choice(['s', ''])), nan=0, bad=False)
        if s == fd:
            raise Skip()
        axe = g.choice(['', 'x', 'y', 'v'])
        ref = axe or ('v' if v else 'x')
        if ref in 'xy' and not distinct([r(c[ref == 'y']) for c in xy]):
            raise Skip()
        self.sdo('evol', s, {'axe': axe}, t=fd, ip=False)

    def sop_evolt(self):
        g = self.rng
        td = self.free()
        n = g.randint(1, 4)
        ts = g.sample([Fr(k, 2) for k in range(0, 13)], n)
        self.mkt(d=td, nc=1, n=n, times=sorted(ts))
        t = self.obj(td)
        if t['k'] != 'T':
            raise Skip()
        us = [VECU.get(tuple(t[k])) for k in ('ux', 'uy', 'ut')]
        if None in us:
            raise Skip()
        m = g.randint(1, n)
        vs = g.sample(ts, m)
        if self.coin(.06):
            vs[0] = Fr(40)
        xy = self.onpoints(t, m)
        s = self.mks(ori=False, xy=xy, vs=vs, units=us, nan=0, bad=False)
        if s == td:
            raise Skip()
        axe = g.choice(['', 'x', 'y'])
        if axe and not distinct([r(c[axe == 'y']) for c in xy]):
            axe = ''
        self.sdo('evolt', s, {'axe': axe}, t=td, ip=False)

    def sop_dens(self):
        g = self.rng
        nx, ny = g.randint(2, 4), g.randint(2, 4)
        w, h = 12, 12
        x0, y0 = g.randint(-3, 3), g.randint(-3, 3)
        lx = [Fr(x0) + Fr(k, 4) for k in range(0, 4 * w + 1)]
        ly = [Fr(y0) + Fr(k, 4) for k in range(0, 4 * h + 1)]
        hx, hy = Fr(w, 2 * (nx - 1)), Fr(h, 2 * (ny - 1))
        lx = [x for x in lx if ((x - x0) / hx).denominator > 1 or ((x - x0) / hx) % 2 == 0]
        ly = [y for y in ly if ((y - y0) / hy).denominator > 1 or ((y - y0) / hy) % 2 == 0]
        n = g.randint(0, 6)
        xy = [(Fr(x0), Fr(y0)), (Fr(x0 + w), Fr(y0 + h))] + [(g.choice(lx), g.choice(ly)) for _ in range(n)]
        if self.coin(.4):
            xy = [(x, Fr(2 * y0 + h) - y) for x, y in xy]
        g.shuffle(xy)
        u = g.choice(LEN_UNITS)
        u2 = u if self.coin(.6) else g.choice(LEN_UNITS)
        pond = self.coin()
        s = self.mks(ori=False, xy=xy, v=pond or self.coin(), units=(u, u2, g.choice(['', 's', 'kg'])), nan=0, bad=False)
        self.sdo('dens', s, {'nx': nx, 'ny': ny, 'pond': pond, 'one': self.coin()}, ip=False)

    # ------------------------------------------------------- temporal sets
    def tps(self, n=1, small=None, full=False, lim=20000):
        c = []
        for i in self.kinds('TP'):
            t = self.rec.last[i]
            if len(t['ps']) < n or not self.tame(t, lim):
                continue
            al = [x for p in t['ps'] for x in nums(p)] + t['ts']
            if small and max([abs(x[0]) for x in al] + [x[1] for x in al] + [0]) > small:
                continue
            if full and any(not p['xy'] for p in t['ps']):
                continue
            c.append(i)
        if not c:
            raise Skip()
        return self.rng.choice(c)

    def tpdo(self, op, s, a=None, t=0, ip=None, obj=True):
        return self.do(op, s, a or {'_': 0}, t=t, ip=ip, m='tp', obj=obj)

    def tpop_new(self):
        self.rec.do('tp', 'new', d=self.free(), a={'_': 0})

    def mktp(self, n=None):
        g = self.rng
        d = self.free()
        self.rec.do('tp', 'new', d=d, a={'_': 0})
        v = self.coin(.6)
        ux = g.choice(LEN_UNITS)
        units = (ux, ux if self.coin(.7) else g.choice(LEN_UNITS), g.choice(VAL_UNITS))
        us = g.choice(['s', 'ms', ''])
        n = n or g.choice([1, 2, 3, 3, 4])
        ts = g.sample([Fr(k, 2) for k in range(0, 20)], n)
        for t in ts:
            e = self.kinds('E')
            p = self.mks(d=e[-1] if e else [i for i in range(1, self.top + 1) if i != d][-1], n=g.randint(1, 4), ori=False,
                         v=v, units=units, nan=0, bad=False)
            self.sset('add', d, {'time': r(t), 'u': UVEC[us], 'us': us, 'str': self.coin()}, t=p, m='tp')
            if self.coin(.3):       # the set given is still the user's own
                self.sset('poke', p, {'i': 0, 'xy': [r(self.coord()), r(self.coord())]})
        return d

    def tpop_add(self):
        g = self.rng
        s = self.tps(0, small=2000)
        t = self.obj(s)
        if len(t['ps']) > 5:
            raise Skip()
        if t['ps']:
            us = VECU.get(tuple(t['ut']))
            units = [VECU.get(tuple(t[k])) for k in ('ux', 'uy')] + [VECU.get(tuple(t['ps'][0]['uv']))]
            if us is None or None in units:
                raise Skip()
            us = g.choice(FAM.get(us, [us]))
            if self.coin(.06):
                us = 'kg'
            v = any(p['v'] for p in t['ps'])
        else:
            us, units, v = g.choice(['s', 'ms', '']), None, None
        for _ in range(20):
            x = Fr(g.randint(0, 40), 4)
            fact = Fr(10) ** (UVEC[us][0] - t['ut'][0])
            if not t['ps'] or r(x * fact) not in t['ts']:
                break
        else:
            raise Skip()
        p = self.mks(n=g.randint(1, 4), ori=False, v=v, units=units, nan=0, bad=False)
        if p == s:
            raise Skip()
        self.sset('add', s, {'time': r(x), 'u': UVEC[us], 'us': us, 'str': self.coin()}, t=p, m='tp')

    def tpop_rm(self):
        g = self.rng
        s = self.tps(2)
        n = len(self.obj(s)['ps'])
        self.sset('rm', s, {'ids': g.sample(range(n), g.randint(1, n - 1)), 'neg': self.coin(.25)}, m='tp')

    def tpop_copy(self):
        self.tpdo('copy', self.tps(0), ip=False)

    def tpop_len(self):
        self.tpdo('len', self.tps(0), obj=False)

    def tpop_get(self):
        s = self.tps(1)
        self.tpdo('get', s, {'i': self.rng.randrange(len(self.obj(s)['ps']))}, ip=False)

    def tpop_iter(self):
        self.tpdo('iter', self.tps(1), obj=False)

    def tpop_settimes(self):
        g = self.rng
        s = self.tps(1)
        n = len(self.obj(s)['ps'])
        if self.coin(.12):
            n += 1
        ts = g.sample([Fr(k, 2) for k in range(-8, 20)], n)
        self.sset('settimes', s, {'ts': [r(x) for x in ts], 'form': g.choice(['array', 'list'])}, m='tp')

    def tpop_setunit(self):
        s = self.tps(1)
        axe = self.rng.choice(['time', 'x', 'y'])
        us = self.rng.choice(['s', 'ms'] if axe == 'time' else LEN_UNITS)
        self.sset('setunit', s, {'axe': axe, 'us': us, 'u': UVEC[us]}, m='tp')

    def tpop_crop(self):
        g = self.rng
        s = self.tps(1, full=True)
        t = self.obj(s)
        n = len(t['ps'])
        cx = [c[0] for p in t['ps'] for c in p['xy']]
        cy = [c[1] for p in t['ps'] for c in p['xy']]
        cv = [v for p in t['ps'] for v in p['v']]
        a = {'wx': self.win(cx), 'wy': self.win(cy), 'wv': self.win(cv, .5), 'wt': [], 'wi': []}
        if self.coin(.3):
            i = g.randrange(n)
            a['wi'] = [i, g.randint(i, n - 1)]
        elif self.coin(.7):
            a['wt'] = self.win(t['ts'], 0)
            if self.coin(.05):
                a['wt'] = [r(fr(t['ts'][-1]) + 1), r(fr(t['ts'][-1]) + 2)]
            elif a['wt'][0] == a['wt'][1] and a['wt'][0] not in t['ts']:
                raise Skip()
        self.tpdo('crop', s, a)

    def tpop_scale(self):
        s = self.tps(1, small=300, full=True)
        t = self.obj(s)
        self.usmall(t['ux'], t['uy'], t['ut'], t['ps'][0]['uv'])
        a = {}
        a['fx'], a['sx'] = self.fac()
        a['fy'], a['sy'] = self.fac()
        a['fv'], a['sv'] = self.fac(units=VAL_UNITS) if all(p['v'] for p in t['ps']) else (NOFAC, [r(1), UNONE])
        a['ft'], a['st'] = self.fac(units=['s', 'ms'])
        if a['ft']['us'] == '1/s':      # times without unit: unum keeps s/ms
            raise Skip()
        self.tpdo('scale', s, a)

    def tpop_unit(self):
        g = self.rng
        s = self.tps(1, small=300, full=True)
        t = self.obj(s)
        axe = g.choice(['x', 'y', 'values', 'time'])
        if axe == 'values' and any(not p['v'] or p['uv'] != t['ps'][0]['uv'] for p in t['ps']):
            raise Skip()
        cur = VECU.get(tuple({'x': t['ux'], 'y': t['uy'], 'time': t['ut'], 'values': t['ps'][0]['uv']}[axe]))
        if cur is None:
            raise Skip()
        us = g.choice(FAM.get(cur, [cur]))
        if self.coin(.06):
            us = g.choice(['m', 's', 'kg'])
        self.sset('unit', s, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()}, m='tp')

    def tpop_smooth(self):
        s = self.tps(1, small=300, full=True)
        self.tpdo('smooth', s, {'size': self.rng.choice([1, 2, 3])})


SMIXES = {
    'hold': {'copy': 2, 'len': 1, 'iter': 2, 'eq': 3, 'setxy': 2, 'setv': 2, 'poke': 1, 'setunit': 1, 'cat': 4,
             'catself': 2, 'addpt': 4, 'rm': 4, 'unit': 3, 'origin': 2, 'crop': 6, 'cut': 4, 'sort': 4, 'rmnan': 1,
             'mknan': 1, 'decomp': 3, 'scale': 3, 'rotate': 3, 'reverse': 2, 'mk': 2},
    'derive': {'doub': 3, 'augment': 3, 'smooth': 3, 'toprof': 3, 'veloc': 4, 'evol': 4, 'evolt': 3, 'dens': 4,
               'crop': 1, 'sort': 1, 'mk': 2},
}
TPMIXES = {
    'hold': {'new': 1, 'add': 4, 'rm': 2, 'copy': 2, 'len': 1, 'get': 1, 'iter': 1, 'settimes': 2, 'setunit': 1,
             'crop': 6, 'scale': 4, 'unit': 4, 'smooth': 2, 'mk': 1},
}


def points(mix):
    def run(rng, rec, i):
        gen = PointGen(rng, rec)
        gen.mks(n=rng.randint(2, 5), bad=False)
        loop(gen, rng, SMIXES[mix], 'sop_', gen.mks, rng.randint(4, 8) if mix == 'hold' else rng.randint(3, 5))
    return run


def tpoints(mix):
    def run(rng, rec, i):
        gen = PointGen(rng, rec)
        gen.mktp()
        loop(gen, rng, TPMIXES[mix], 'tpop_', gen.mktp, rng.randint(3, 6))
    return run


def loop(gen, rng, mix, pre, mk, n):
    names = list(mix)
    weights = [mix[k] for k in names]
    done = tries = 0
    while done < n and tries < 60:
        tries += 1
        op = rng.choices(names, weights)[0]
        try:
            if op == 'mk':
                mk()
            else:
                getattr(gen, pre + op)()
            done += 1
        except Skip:
            continue
