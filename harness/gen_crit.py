"""Random histories on critical points."""
from fractions import Fraction as Fr
from proj import UVEC, UNONE, VECU
from gen_fields import Skip, fr, r, LEN_UNITS, FAM
from gen_points import PointGen, loop
from gen_derive import DeriveGen


def dyadic(x):
    return x[1] and x[1] & (x[1] - 1) == 0


class CritGen(DeriveGen):
    def cps(self, n=1, traj=None, small=None, exact=False, lim=20000):
        """critical points at n times or more"""
        c = []
        for i in self.kinds('CP'):
            t = self.rec.last[i]
            if len(t['ts']) < n or not self.tame(t, lim) or traj is not None and bool(t['traj']) != traj:
                continue
            if small and max([abs(x[0]) for x in self.cnums(t)] + [x[1] for x in self.cnums(t)] + [0]) > small:
                continue
            if exact and (not all(dyadic(x) for x in self.cnums(t) + t['ts']) or any(
                    v not in t['ts'] for k in t['traj'] for p in k for v in p['v'])):
                continue
            c.append(i)
        if not c:
            raise Skip()
        return self.rng.choice(c)

    def cnums(self, t):
        return [x for k in t['kinds'] for p in k for pt in p['xy'] for x in pt]

    def cpdo(self, op, s, a=None, t=0, ip=None, obj=True):
        return self.do(op, s, a or {'_': 0}, t=t, ip=ip, m='cp', obj=obj)

    def spare(self, *held):
        """a slot for a set of points, not one of the held ones"""
        e = [i for i in self.kinds('E') if i not in held]
        c = e or [i for i in self.kinds('S') if i not in held] \
            or [i for i in range(1, self.top + 1) if i not in held]
        return self.rng.choice(c)

    def newpts(self, units, *held):
        g = self.rng
        d = self.spare(*held)
        n = g.choice([0, 1, 2, 2, 3, 3])
        fine = g.choice([1, 2, 2])
        xy = [(Fr(x, fine), Fr(y, fine)) for x, y in
              g.sample([(x, y) for x in range(-5, 6) for y in range(-5, 6)], n)]
        return self.mks(d=d, ori=False, v=self.coin(.5), units=units, xy=xy, nan=0, bad=False)

    def mkcp(self, n=None, ux=None, us=None, uy=None):
        g = self.rng
        d = self.free()
        us = us or g.choice(['s', 's', 'ms', ''])
        self.rec.do('cp', 'new', d=d, a={'u': UVEC[us], 'us': us, 'str': self.coin(), 'dflt': self.coin()})
        ux = ux or g.choice(LEN_UNITS)
        uy = uy or (ux if self.coin(.8) else g.choice(LEN_UNITS))
        n = g.choice([0, 1, 2, 3, 3, 4, 4]) if n is None else n
        for t in g.sample([Fr(k, 2) for k in range(0, 16)], n):
            self.add(d, t, (ux, uy, us))
        return d

    def add(self, d, time, units):
        g = self.rng
        p1 = self.newpts(units, d)
        kinds = g.sample(range(5), g.choice([1, 1, 2, 2, 3]))
        p = [0] * 5
        p[kinds[0]] = p1
        if len(kinds) > 1 and self.top > 2:
            p2 = self.newpts(units, d, p1)
            for k in kinds[1:]:
                p[k] = p2 if self.coin(.9) else p1
        if self.coin(.03):
            p = [0] * 5
        W = self.rec.W
        if len(W[d].times) and any(
                (self.rec.last[i]['u' + k] == self.rec.last[d]['u' + k]) !=
                bool(getattr(W[i], 'unit_' + k) == getattr(W[d], 'unit_' + k)) for i in p if i for k in 'xy'):
            raise Skip()                    # units equal up to a rounding
        self.sset('add', d, {'time': r(time), 'p': p}, m='cp')
        if self.coin(.2):                   # what was given is still the user's own
            live = [i for i in set(p) if i and self.rec.last[i]['k'] == 'S' and self.rec.last[i]['xy']]
            if live:
                self.sset('poke', g.choice(sorted(live)), {'i': 0, 'xy': [r(self.coord()), r(self.coord())]})

    def us3(self, t):
        us = [VECU.get(tuple(t[k])) for k in ('ux', 'uy', 'ut')]
        if None in us:
            raise Skip()
        return us

    def cop_add(self):
        g = self.rng
        s = self.cps(0, small=2000)
        t = self.obj(s)
        if len(t['ts']) > 5:
            raise Skip()
        us = self.us3(t)
        if not t['ts']:
            us = [g.choice(LEN_UNITS), g.choice(LEN_UNITS), us[2]]
        x = Fr(g.randint(0, 40), 4)
        if t['ts'] and self.coin(.1):
            x = fr(g.choice(t['ts']))
        if self.coin(.1):
            us[g.randrange(2)] = g.choice(LEN_UNITS + ['kg'])
        self.add(s, x, us)

    def cop_first(self):
        """the first points have different units: refused"""
        g = self.rng
        d = self.free()
        us = g.choice(['s', 'ms'])
        self.rec.do('cp', 'new', d=d, a={'u': UVEC[us], 'us': us, 'str': True})
        p1 = self.newpts(('m', 'm', us), d)
        p2 = self.newpts(g.choice([('m', 'mm', us), ('mm', 'm', us), ('m', 'm', us), ('kg', 'm', us)]), d, p1)
        p = [0] * 5
        i, j = sorted(g.sample(range(5), 2))
        p[i], p[j] = p1, p2
        self.sset('add', d, {'time': r(Fr(g.randint(0, 9), 2)), 'p': p}, m='cp')

    def cop_rm(self):
        g = self.rng
        s = self.cps(1)
        t = self.obj(s)
        n = len(t['ts'])
        if self.coin():
            a = {'ind': True, 'i': g.randrange(n) if self.coin(.93) else n + g.randint(0, 2), 'time': r(0)}
        else:
            a = {'ind': False, 'i': 0, 'time': g.choice(t['ts']) if self.coin(.93) else r(fr(t['ts'][-1]) + 1)}
        self.sset('rm', s, a, m='cp')

    def cop_cat(self):
        g = self.rng
        s = self.cps(0)
        t = self.obj(s)
        us = self.us3(t)
        if self.coin(.8) or len(self.kinds('CP')) < 2:
            if not t['ts']:
                us = [None, None, None]
            elif self.coin(.1):
                us[g.randrange(3)] = g.choice(['mm', 's', 'cm', 'ms'])
            held = self.rec.last[s]
            o = self.mkcp(ux=us[0], uy=us[1], us=us[2])
            if self.rec.last[s] != held:
                raise Skip()
        else:
            o = self.cps(0)
        if o == s:
            raise Skip()
        if self.coin(.3):
            s, o = o, s
        self.cpdo('cat', s, t=o, ip=False)

    def cop_copy(self):
        self.cpdo('copy', self.cps(0), ip=False)

    def cop_eq(self):
        s = self.cps(0, exact=True, small=60)
        o = self.free()
        if o == s:
            raise Skip()
        self.rec.do('cp', 'copy', s=s, d=o, a={'_': 0})
        t = self.obj(s)
        what = self.rng.choice(['same', 'same', 'origin', 'rm', 'traj'])
        if what == 'origin' and any(self.cnums(t)):
            self.sset('origin', o, {'x': r(1), 'y': r(0)}, m='cp')
        elif what == 'rm' and t['ts']:
            self.sset('rm', o, {'ind': True, 'i': 0, 'time': r(0)}, m='cp')
        elif what == 'traj' and t['traj']:
            raise Skip()
        elif what == 'traj' and t['ux'] == t['uy'] and t['ts']:
            self.traj(o)
        if self.coin(.5):
            s, o = o, s
        self.cpdo('eq', s, t=o, obj=False)

    def cop_get(self):
        s = self.cps(1)
        t = self.obj(s)
        self.cpdo('get', s, {'c': self.rng.randint(1, 5), 'i': self.rng.randrange(len(t['ts']))}, ip=False)

    def cop_gettraj(self):
        s = self.cps(1, traj=True)
        t = self.obj(s)
        c = self.rng.choice([i for i in range(5) if t['traj'][i]] or [9])
        if c == 9:
            raise Skip()
        self.cpdo('gettraj', s, {'c': c + 1, 'i': self.rng.randrange(len(t['traj'][c]))}, ip=False)

    def traj(self, s):
        g = self.rng
        t = self.obj(s)
        a = {'eps': []}
        if self.coin(.8):
            e = Fr(g.randint(1, 24), 2)
            pts = [[fr(x) for x in pt] for k in t['kinds'] for p in k for pt in p['xy']]
            if self.coin(.4) and len(pts) > 1:      # just as far as two of the points
                p, q = g.sample(pts, 2)
                if p[0] == q[0] or p[1] == q[1]:
                    e = abs(p[0] - q[0]) + abs(p[1] - q[1])
                elif abs(p[0] - q[0]) * 4 == abs(p[1] - q[1]) * 3 or abs(p[0] - q[0]) * 3 == abs(p[1] - q[1]) * 4:
                    d = (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2
                    e = max(abs(p[0] - q[0]), abs(p[1] - q[1])) * Fr(5, 4)
                    assert e * e == d
            if e == 0:
                e = Fr(1, 2)
            cur = VECU.get(tuple(t['ux']))
            a['eps'] = [r(e)]
            if self.coin(.25) and cur in FAM:
                us = g.choice(FAM[cur])
                q = e * Fr(10) ** (UVEC[cur][0] - UVEC[us][0])
                if us != cur:           # a change of unit rounds: stay away from the distances
                    e += Fr(1, 7)
                    q = e * Fr(10) ** (UVEC[cur][0] - UVEC[us][0])
                a.update(eps=[r(e)], us=us, q=r(q))
        self.sset('traj', s, a, m='cp')

    def cop_traj(self):
        s = self.cps(1, small=40, exact=True)
        t = self.obj(s)
        if t['ux'] != t['uy']:
            raise Skip()
        self.traj(s)

    def cop_clean(self):
        if self.coin(.1):
            s = self.cps(1, traj=False)
        else:
            s = self.cps(1, traj=True, exact=True)
        self.sset('clean', s, {'min': self.rng.choice([1, 2, 2, 2, 3, 3, 4])}, m='cp')

    def cop_smooth(self):
        if self.coin(.1):
            s = self.cps(1, traj=False)
        else:
            s = self.cps(1, traj=True, small=300)
        self.sset('smooth', s, {'size': self.rng.choice([1, 2, 3, 3]), 'dflt': self.coin()}, m='cp')

    def cop_crop(self):
        g = self.rng
        s = self.cps(1, exact=True)
        t = self.obj(s)
        n = len(t['ts'])
        xs = [pt[0] for k in t['kinds'] for p in k for pt in p['xy']]
        ys = [pt[1] for k in t['kinds'] for p in k for pt in p['xy']]
        a = {'wx': [], 'wy': [], 'wt': [], 'wi': []}
        if xs and self.coin(.6):
            a['wx'] = self.win(xs, .4)
            a['wy'] = self.win(ys, .4)
        if self.coin(.3):
            i = g.randrange(n)
            a['wi'] = [i, g.randint(i, n + 1)]
        elif self.coin(.7):
            a['wt'] = self.win(t['ts'], 0)
        self.cpdo('crop', s, a)

    def cop_scale(self):
        s = self.cps(1, small=300)
        t = self.obj(s)
        self.usmall(t['ux'], t['uy'], t['ut'])
        a = {}
        a['fx'], a['sx'] = self.fac()
        a['fy'], a['sy'] = self.fac()
        a['fv'], a['sv'] = self.fac(units=['m', 's'])
        if a['fv']['us'] == '1/s' or a['sv'][0][0] <= 0:
            raise Skip()
        self.cpdo('scale', s, a)

    def cop_unit(self):
        g = self.rng
        s = self.cps(1, small=300)
        t = self.obj(s)
        axe = g.choice(['x', 'y', 'time'])
        cur = VECU.get(tuple({'x': t['ux'], 'y': t['uy'], 'time': t['ut']}[axe]))
        if cur is None:
            raise Skip()
        us = g.choice(FAM.get(cur, [cur]))
        if self.coin(.06):
            us = g.choice(['m', 's', 'kg'])
        self.sset('unit', s, {'axe': axe, 'us': us, 'u': UVEC[us], 'str': self.coin()}, m='cp')

    def cop_origin(self):
        s = self.cps(0, small=300)
        a = {'x': r(Fr(self.rng.randint(-4, 4), 2)), 'y': r(Fr(self.rng.randint(-4, 4), 2)), 'both': self.coin()}
        self.sset('origin', s, a, m='cp')

    def cop_topo(self):
        g = self.rng
        s = self.cps(1, small=40, exact=True)
        t = self.obj(s)
        if t['ux'] != t['uy'] or max(sum(len(k[n]['xy']) for k in t['kinds']) for n in range(len(t['ts']))) > 6:
            raise Skip()
        self.cpdo('topo', s, {'d': r(Fr(g.randint(1, 16), 2)), 'kind': g.choice(['replacement', 'only_delete']),
                              'dflt': self.coin()}, ip=False)

    # ----------------------------------------------------------- detection
    def flow(self, axes):
        """velocities on an even grid, without null components"""
        g = self.rng
        kind = g.choice(['rand', 'affine', 'affine', 'affine', 'bilin', 'bilin', 'swirl', 'tri'])
        if kind in ('affine', 'bilin'):
            mx, my = [Fr(g.randint(2 * int(ax[0]), 2 * int(ax[-1]) + 2), 2) + Fr(1, 4) * g.randint(0, 1) for ax in axes]
            k = [[g.randint(-3, 3) for _ in range(3)] for _ in range(2)]
            if kind == 'affine':
                k[0][2] = k[1][2] = 0
            f = lambda c, x, y: k[c][0] * (x - mx) + k[c][1] * (y - my) + k[c][2] * (x - mx) * (y - my)  # noqa: E731
        elif kind == 'swirl':
            mx, my = [g.choice(ax[:-1]) + Fr(1, 2) for ax in axes]
            s, t = g.choice([1, -1]), g.choice([0, 0, 1, -1])
            f = lambda c, x, y: (-s * (y - my) + t * (x - mx), s * (x - mx) + t * (y - my))[c]  # noqa: E731
        elif kind == 'tri':     # rows and columns changing sign
            sx = [g.choice([1, -1]) for _ in axes[0]]
            sy = [g.choice([1, -1]) for _ in axes[1]]
            f = lambda c, x, y: (sy[axes[1].index(y)], sx[axes[0].index(x)])[c] * g.choice([1, 1, 2])  # noqa: E731
        else:
            f = lambda c, x, y: Fr(g.choice([-4, -3, -2, -1, 1, 2, 3, 4]), g.choice([1, 2]))  # noqa: E731
        tab = {}
        for x in axes[0]:
            for y in axes[1]:
                for c in (0, 1):
                    tab[c, x, y] = Fr(f(c, x, y)) or (Fr(g.choice([-1, 1]), 2) if self.coin(.95) else Fr(0))
        if kind == 'affine' and any(v == 0 for v in tab.values()):
            raise Skip()
        return lambda c, x, y: tab[c, x, y]

    def mkflow(self):
        g = self.rng
        us = self.units(True)
        axes = self.any_axes(2, 5) if self.coin(.9) else self.any_axes(4, 7)
        mask = 'none' if self.coin(.95) else 'one'
        if self.coin(.7):
            return self.mk(nc=2, axes=axes, units=us, mask=mask, vals=self.flow(axes))
        d = self.free()
        n = g.randint(1, 3)
        ut = g.choice(['s', 's', 'ms', ''])
        ts = g.sample([Fr(k, 2) for k in range(12)], n)
        fs = [self.args(nc=2, axes=axes, units=us, mask=mask, vals=self.flow(axes)) for _ in ts]
        self.rec.do('t', 'mkt', d=d, a={'nc': 2, 'fs': fs, 'times': [r(t) for t in ts], 'us': ut, 'u': UVEC[ut]})
        return d

    def flows(self):
        c = self.kinds('F', 2) + self.kinds('T', 2)
        if not c:
            raise Skip()
        return self.rng.choice(c)

    def cop_detect(self):
        g = self.rng
        s = self.flows()
        us = g.choice(['s', 's', 'ms', ''])
        a = {'kind': g.choice(['pbi', 'pbi', 'pbi_cell']), 'time': r(Fr(g.randint(-4, 20), 2)), 'us': us,
             'u': UVEC[us], 'str': self.coin(), 'dflt': self.coin()}
        o = self.rec.last[s]
        if any(x[0] == 0 for f in o.get('fs', [o]) for c in f['v'] for row in c for x in row if x[1]):
            a['kind'] = 'pbi_cell'      # cells with a null component are left out by the other one
        self.rec.do('cp', 'detect', s=s, a=a)

    def cop_smoothed(self):
        self.rec.do('cp', 'smoothed', s=self.flows(), a={'_': 0})

    def cop_mkflow(self):
        self.mkflow()


MIXES = {
    'detect': {'detect': 10, 'smoothed': 1, 'mkflow': 5},
    'hold': {'add': 4, 'first': 1, 'rm': 3, 'cat': 4, 'copy': 1, 'eq': 2, 'get': 1, 'gettraj': 1, 'traj': 8, 'clean': 4,
             'smooth': 2, 'crop': 6, 'scale': 3, 'unit': 3, 'origin': 2, 'topo': 4, 'mk': 1},
}


def crits(mix):
    def run(rng, rec, i):
        gen = CritGen(rng, rec)
        if mix == 'detect':
            loop(gen, rng, MIXES[mix], 'cop_', gen.mkflow, rng.randint(3, 6))
            return
        gen.mkcp(n=rng.choice([1, 2, 3, 3, 4, 4, 5]))
        loop(gen, rng, MIXES[mix], 'cop_', gen.mkcp, rng.randint(3, 7))
    return run
