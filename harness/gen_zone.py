"""Random histories on the zones and histograms of scalar fields."""
from fractions import Fraction as Fr
from proj import M
from gen_fields import Skip, fr, r, FieldGen, LEN_UNITS, VAL_UNITS


class ZoneGen(FieldGen):
    def mkz(self):
        g = self.rng
        k = g.choice([1, 2, 3, 6])
        low = g.choice([0, 0, -k, -1])
        self.mk(nc=1, nx=g.choice([2, 3, 4, 4]), ny=g.choice([2, 3, 4, 4]), vals=lambda c, x, y: Fr(g.randint(low, k), g.choice([1, 1, 2])),
                mask=g.choice(['none', 'none', None]))

    def pickz(self):
        c = [s for s in self.kinds('F') if self.obj(s)['nc'] == 1]
        if not c:
            raise Skip()
        s = self.rng.choice(c)
        f = self.obj(s)
        if not self.tame(f):
            raise Skip()
        v = [fr(x) for row in f['v'][0] for x in row if x != M]
        if not v:
            raise Skip()
        return s, f, v

    def zones(self):
        g = self.rng
        s, f, v = self.pickz()
        lo, hi = min(v), max(v)
        rel = self.coin()
        if rel:
            b = sorted([Fr(g.randint(0, 8), 8), Fr(g.choice([4, 6, 8, 8, 8]), 8)])
            b = g.choice([b, [Fr(3, 4), Fr(1)]])
            if self.coin(.3):
                b = [-b[1], -b[0]]
        else:
            b = sorted([g.choice(v + [lo - 1]), g.choice(v + [hi + 1])])
            if self.coin(.4):
                b = [x - Fr(1, 4) * max(abs(x), 1) for x in b]
        kind = g.choice(['ponderated', 'center', 'extremum'])
        if b[0] == b[1]:
            if b[0] == 0:
                raise Skip()
        if self.coin(.05) and b[0] != b[1]:
            b = b[::-1]
            if rel or b[0] == b[1]:
                raise Skip()
        elif self.coin(.03) and rel:
            b = [Fr(-1, 2), Fr(1, 2)]
        base = hi if abs(b[0]) > abs(b[1]) else lo
        c = [base + (hi - lo) * x for x in b] if rel else b
        # what is nearly at a bound depends on rounding, and so does which bound of opposite ones is the largest
        near = max(abs(x) for x in b + c + [hi - lo]) * 2 / 1000
        if any(x != y and abs(x - y) <= near for x in v for y in c) or abs(c[0]) == abs(c[1]):
            raise Skip()
        if rel and (abs(b[0]) == abs(b[1]) and b[0] * b[1] > 0 or hi == lo):
            raise Skip()
        if kind == 'ponderated' and any(c[0] <= x <= c[1] and x == 0 for x in v):
            raise Skip()
        self.rec.do('z', 'zones', s=s, d=self.free(), a={'b': [r(x) for x in b], 'rel': rel, 'kind': kind})

    def histo(self):
        g = self.rng
        s, f, v = self.pickz()
        lo, hi = min(v), max(v)
        rng = []
        bins = g.choice([1, 2, 3, 4, 5, 8, 10])
        if self.coin(.3):
            rng = [lo + Fr(g.randint(-2, 2), 2), hi + Fr(g.randint(-1, 3), 2)]
            if rng[0] >= rng[1]:
                raise Skip()
            lo, hi = rng
        elif lo == hi:
            lo, hi = lo - Fr(1, 2), hi + Fr(1, 2)
        w = (hi - lo) / bins
        if any(x.denominator > 1000 or x.denominator & (x.denominator - 1) for x in [w, lo, hi]):
            if any((x - lo) / w == int((x - lo) / w) and lo < x < hi for x in v):
                raise Skip()
            if any(x in (lo, hi) and x.denominator & (x.denominator - 1) for x in v):
                raise Skip()
        norm = self.coin(.25)
        if norm and not any(lo <= x <= hi for x in v):
            raise Skip()
        self.rec.do('z', 'hist', s=s, a={'bins': bins, 'range': [r(x) for x in rng], 'cum': self.coin(.35), 'norm': norm})


def zones(rng, rec, i):
    gen = ZoneGen(rng, rec)
    done = tries = 0
    n = rng.randint(4, 8)
    while done < n and tries < 60:
        tries += 1
        k = rng.random()
        try:
            if k < .2 or not gen.kinds('F'):
                gen.mkz()
            elif k < .25:
                gen.op_setmask()
            elif k < .3:
                gen.op_unit()
            elif k < .35:
                gen.op_crop()
            elif k < .72:
                gen.zones()
            else:
                gen.histo()
        except Skip:
            continue
        done += 1
