"""Random histories on boundary layers: the wall is at 0, the profiles start there or further."""
from fractions import Fraction as Fr
from proj import M, UVEC
from gen_fields import Skip, fr, r, LEN_UNITS
from gen_profile import ProfGen

VELS = ['m/s', 'mm/s', '']


class LayerGen(ProfGen):
    def wall(self, n):
        g = self.rng
        x = [Fr(0) if self.coin(.6) else Fr(g.randint(1, 4), 2)]
        while len(x) < n:
            x.append(x[-1] + Fr(g.choice([1, 1, 2, 2, 2, 3, 4]), 2))
        return x

    def speeds(self, n):
        g = self.rng
        k = g.random()
        y = [Fr(g.randint(0, 9), g.choice([1, 1, 2])) for _ in range(n)]
        if k < .6:
            y.sort()
        elif k < .75:
            y = [v - 2 for v in y]
        if self.coin(.6):
            y[0] = Fr(0)
        return y

    def mkw(self):
        g = self.rng
        n = g.choice([2, 3, 3, 4, 4, 5, 6])
        uxs, uys = g.choice(LEN_UNITS), g.choice(VELS)
        x, y = self.wall(n), self.speeds(n)
        o = list(range(n))
        if self.coin(.3):
            g.shuffle(o)
        self.rec.do('p', 'mk', d=self.free(), a={
            'x': [r(x[i]) for i in o], 'y': [r(y[i]) for i in o],
            'mask': self.pmask(n, g.choice(['none', 'none', 'one', 'some', 'inner'])), 'uxs': uxs, 'uys': uys,
            'ux': UVEC[uxs], 'uy': UVEC[uys], 'form': g.choice(['array', 'list']), 'unitobj': False})

    def mkf(self):
        g = self.rng
        n, m = g.choice([2, 3, 4]), g.choice([2, 3, 4, 5])
        dirn = g.choice([1, 2])
        lines = [self.speeds(m) for _ in range(n)]
        across, along = self.axis(n), self.wall(m)
        at = {}
        for i, u in enumerate(across):
            for j, w in enumerate(along):
                at[(u, w) if dirn == 1 else (w, u)] = lines[i][j]
        axes = (across, along) if dirn == 1 else (along, across)
        self.mk(nc=1, axes=axes, vals=lambda c, x, y: at[(x, y)], units=(g.choice(LEN_UNITS), g.choice(LEN_UNITS), g.choice(VELS)),
                mask=g.choice(['none', 'none', None]))

    def fine(self, x, y, part, op):
        """nothing depends on rounding, and the layer is neither empty nor at rest"""
        x = [fr(v) for v in x]
        v = [None if w == M else fr(w) for w in y]
        if any(a == b for a, b in zip(x, x[1:])) or x[0] < 0:
            return False
        if max(abs(w.numerator) + w.denominator for w in x + [w for w in v if w is not None]) > 400:
            return False
        if op in ('mom', 'shape', 'displ') and any(w.denominator > 8 for w in x + [w for w in v if w is not None]):
            return False
        ok = [w for w in v if w is not None]
        if not ok:
            return op != 'shape'
        top = max(ok)
        if top <= 0 or any(w == top * part for w in ok):
            return False
        th = None
        for i in range(len(x) - 1):
            if v[i] is not None and v[i + 1] is not None and (v[i] - top * part) * (v[i + 1] - top * part) < 0:
                th = x[i] + (x[i + 1] - x[i]) * (top * part - v[i]) / (v[i + 1] - v[i])
                break
        if th is None:
            return False
        if op == 'thick':
            return True
        xs = [(a, w) for a, w in zip(x, v) if w is not None and a <= th]
        if not xs:
            return op != 'shape'
        if xs[0][0] != 0:
            xs.insert(0, (Fr(0), Fr(0)))
        top = max(w for _, w in xs)
        if top <= 0:
            return False
        if op == 'shape':
            f = [w / top * (1 - w / top) for _, w in xs]
            return sum((b[0] - a[0]) * (p + q) for a, b, p, q in zip(xs, xs[1:], f, f[1:])) > 0
        return True

    def layer(self):
        g = self.rng
        op = g.choice(['thick', 'thick', 'displ', 'displ', 'mom', 'mom', 'shape'])
        part = g.choice([Fr(19, 20), Fr(19, 20), Fr(1, 2), Fr(9, 10), Fr(3, 4)]) if op == 'thick' else Fr(19, 20)
        a = {'perc': r(part), 'dir': 1}
        if self.coin(.55):
            s = self.pp(2)
            p = self.obj(s)
            if not self.fine(p['x'], p['y'], part, op):
                raise Skip()
            self.rec.do('bl', op, s=s, a=a)
            return
        s = g.choice(self.kinds('F') or [0])
        if not s:
            raise Skip()
        f = self.obj(s)
        if f['nc'] != 1 or not self.tame(f):
            raise Skip()
        a['dir'] = g.choice([1, 2])
        rows = f['v'][0] if a['dir'] == 1 else [list(c) for c in zip(*f['v'][0])]
        ax = f['ay'] if a['dir'] == 1 else f['ax']
        for y in rows:                     # the lines of a field may also be nowhere in motion
            if not self.fine(ax, y, part, 'displ' if op == 'shape' else op):
                raise Skip()
        self.rec.do('bl', op, s=s, d=self.free(), a=a)


def layers(rng, rec, i):
    gen = LayerGen(rng, rec)
    done = tries = 0
    n = rng.randint(4, 8)
    while done < n and tries < 60:
        tries += 1
        k = rng.random()
        try:
            if k < .2 or not gen.kinds('P'):
                gen.mkw()
            elif k < .35 or not gen.kinds('F'):
                gen.mkf()
            elif k < .4:
                gen.pop_unit()
            elif k < .45:
                gen.pop_setmask()
            elif k < .5:
                gen.pop_scale()
            elif k < .53:
                gen.op_setmask()
            else:
                gen.layer()
            done += 1
        except Skip:
            continue
