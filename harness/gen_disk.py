"""Random histories on files."""
from fractions import Fraction as Fr
from proj import NAN, UVEC, M
from gen_fields import Skip, fr, r, LEN_UNITS, VAL_UNITS
from gen_profile import ProfGen
from gen_points import PointGen, loop

SLOT = 6
DIRS = ['', '', '', '', 'sub/', 'sub/', 'no/']


class DiskGen(ProfGen, PointGen):
    top = SLOT - 1

    def free(self):
        e = [i for i in self.kinds('E') if i != SLOT]
        if e and self.rng.random() < .8:
            return e[0]
        return self.rng.randint(1, SLOT - 1)

    def dst(self):
        return self.coin(.3)

    def fs(self):
        return self.obj(SLOT)['fs']

    def files(self, tag=None, ext=None):
        return [n for n, c in sorted(self.fs().items()) if (tag is None or c[0] == tag)
                and (ext is None or n.endswith(ext))]

    def objs(self, ks):
        c = [i for i in range(1, SLOT) if self.rec.last[i]['k'] in ks]
        if not c:
            raise Skip()
        return self.rng.choice(c)

    def nm(self, exts, stems=('a', 'b', 'c'), fail=True):
        g = self.rng
        d = g.choice(DIRS)
        if not fail and d == 'no/':
            d = ''
        return {'dir': d, 'stem': g.choice(stems), 'ext': g.choice(exts),
                'how': g.choice(['rel', 'rel', 'dot', 'abs'])}

    def nmof(self, n):
        d = 'sub/' if n.startswith('sub/') else ''
        base = n[len(d):]
        k = base.rindex('.') if '.' in base else len(base)
        return {'dir': d, 'stem': base[:k], 'ext': base[k:], 'how': self.rng.choice(['rel', 'rel', 'dot', 'abs'])}

    def ddo(self, op, a, s=0, d=0):
        self.rec.do('d', op, s=s, d=d, a=a)

    def mkany(self):
        g = self.rng
        free = [i for i in self.kinds('E') if i != SLOT]
        k = g.choice(['F', 'F', 'T', 'P', 'S', 'TP' if len(free) >= 2 else 'F'])
        if k == 'F':
            self.mk()
        elif k == 'T':
            self.mkt(n=g.randint(1, 3))
        elif k == 'P':
            self.mkp()
        elif k == 'S':
            self.mks(bad=False)
        else:
            self.mktp(n=2)

    # ----------------------------------------------------------- own files
    def dop_save(self):
        g = self.rng
        s = self.objs(('F', 'F', 'T', 'P', 'S', 'O', 'TP'))
        comp = self.coin(.6)
        self.ddo('save', {'nm': self.nm(['', '', '.imt', '.cimt', '.imt', '.cimt', '.1', '.txt'],
                                        fail=self.coin(.4)),
                          'comp': comp, 'default': comp and self.coin()}, s=s, d=SLOT)

    def dop_load(self):
        n = self.files('obj')
        if self.coin(.1):
            nm = self.nm(['.cimt', '.imt', '', '.txt'])
        elif n:
            nm = self.nmof(self.rng.choice(n))
        else:
            raise Skip()
        self.ddo('load', {'nm': nm}, d=self.free())

    def dop_junk(self):
        nm = self.nm(['.imt', '.cimt'], fail=False)
        self.ddo('put', {'nm': nm, 'c': ['raw']}, d=SLOT)

    def dop_change(self):
        g = self.rng
        c = [i for i in range(1, SLOT) if self.rec.last[i]['k'] in 'FSP']
        if not c:
            raise Skip()
        s = g.choice(c)
        o = self.obj(s)
        if o['k'] == 'F':
            (self.op_setmask if self.coin() else self.op_setvals)()
        elif o['k'] == 'S' and o['xy']:
            self.sset('poke', s, {'i': 0, 'xy': [r(self.coord()), r(self.coord())]})
        elif o['k'] == 'P':
            self.rec.do('p', 'setunit', s=s, d=s, ip=True, a={'axe': 'x', 'u': UVEC['mm'], 'us': 'mm'})
        else:
            raise Skip()

    def dop_msave(self):
        s = self.objs(('F', 'P', 'S'))
        o = self.obj(s)
        if o['k'] == 'S' and not o['xy']:
            raise Skip()
        if o['k'] == 'P' and not o['x']:
            raise Skip()
        self.ddo('msave', {'nm': self.nm(['.mat'], fail=self.coin(.3))}, s=s, d=SLOT)

    def dop_mload(self):
        n = self.files('mat')
        if self.coin(.08):
            nm = self.nm(['.mat'])
        elif n:
            nm = self.nmof(self.rng.choice(n))
        else:
            raise Skip()
        self.ddo('mload', {'nm': nm}, d=self.free())

    def dop_mgrid(self):
        n = [x for x in self.files('mat') if self.rec.last[SLOT]['fs'][x][1]['k'] == 'F']
        if not n:
            raise Skip()
        self.rec.do('d', 'mgrid', a={'nm': self.nmof(self.rng.choice(n))})

    def dop_imts(self):
        g = self.rng
        nc = g.choice([1, 2])
        f0 = None
        for k in g.sample(['a', 'b', 'c', 'd', 'e'], g.randint(1, 4)):
            if self.coin(.15):
                s = self.mkp(d=1)
            elif self.coin(.15):
                s = self.mk(d=1, nc=3 - nc)
            else:
                s = self.mk(d=1, nc=nc, nx=2, ny=2) if f0 is None else self.mk(
                    d=1, nc=nc, axes=f0[0], units=f0[1])
                if f0 is None:
                    f = self.obj(s)
                    a = self.rec.prog[-1]['a']
                    f0 = (([fr(x) for x in f['ax']], [fr(x) for x in f['ay']]), (a['uxs'], a['uys'], a['uvs']))
            self.ddo('save', {'nm': {'dir': 'sub/', 'stem': k, 'ext': '', 'how': 'rel'}, 'comp': self.coin()}, s=s, d=SLOT)
        if self.coin(.3):
            self.ddo('put', {'nm': {'dir': 'sub/', 'stem': 'note', 'ext': '.txt'}, 'c': ['raw']}, d=SLOT)
        names = [n for n in self.files() if n.startswith('sub/') and n.rsplit('.', 1)[-1] in ('imt', 'cimt')]
        if any(self.fs()[n][0] != 'obj' for n in names):
            raise Skip()
        fl = [self.fs()[n][1] for n in names]
        fl = [f for f in fl if f['k'] == 'F' and f['nc'] == nc]
        if not fl or any((f['ux'], f['uy'], f['uv']) != (fl[0]['ux'], fl[0]['uy'], fl[0]['uv']) for f in fl):
            raise Skip()
        self.ddo('imts', {'nm': {'dir': '', 'stem': 'all', 'ext': g.choice(['', '.cimt']), 'how': 'rel'}, 'nc': nc,
                          'names': names}, d=SLOT)

    # ------------------------------------------------------------ text
    def rows(self, kind, fullgrid=None):
        """a table, its columns"""
        g = self.rng
        extra = g.choice([0, 0, 1])
        width = {'sf': 3, 'vf': 4, 'prof': 2, 'pts': 3}[kind] + extra
        cols = list(range(1, width + 1))
        if self.coin(.3):
            g.shuffle(cols)
        cols = cols[:width - extra]
        if kind in ('sf', 'vf'):
            ax, ay = self.axis(g.choice([1, 2, 2, 3, 4])), self.axis(g.choice([1, 2, 2, 3, 4]))
            pts = [(x, y) for x in ax for y in ay]
            how = g.choice(['x', 'y', 'xr', 'yr', 'xd', 'rand', 'rand', 'hole'])
            if how == 'y':
                pts = [(x, y) for y in ay for x in ax]
            elif how == 'yr':
                pts = [(x, y) for y in ay[::-1] for x in ax]
            elif how == 'xr':
                pts = [(x, y) for x in ax for y in ay[::-1]]
            elif how == 'xd':
                pts = [(x, y) for x in ax[::-1] for y in ay]
            elif how == 'rand':
                g.shuffle(pts)
            elif how == 'hole' and len(pts) > 1:
                g.shuffle(pts)
                pts = pts[:g.randint(1, len(pts) - 1)]
        elif kind == 'prof':
            pts = [(x, self.val()) for x in self.axis(g.randint(1, 5))]
            if self.coin():
                g.shuffle(pts)
        else:
            pts = [(self.coord(), self.coord()) for _ in range(g.randint(1, 5))]
        out = []
        for p in pts:
            row = [r(self.val()) for _ in range(width)]
            row[cols[0] - 1], row[cols[1] - 1] = r(p[0]), r(p[1])
            for c in cols[2:]:
                if kind in ('sf', 'vf') and self.coin(.1):
                    row[c - 1] = NAN
            if kind == 'prof' and self.coin(.1):
                row[cols[1] - 1] = NAN
            out.append(row)
        return out, cols

    def tunits(self):
        g = self.rng
        us = [g.choice(LEN_UNITS), g.choice(LEN_UNITS), g.choice(VAL_UNITS)]
        return {'uxs': us[0], 'uys': us[1], 'uvs': us[2], 'ux': UVEC[us[0]], 'uy': UVEC[us[1]], 'uv': UVEC[us[2]]}

    def dop_table(self):
        g = self.rng
        kind = g.choice(['sf', 'sf', 'vf', 'vf', 'prof', 'pts'])
        rows, cols = self.rows(kind)
        nm = self.nm(['.txt', '.dat', '.csv'], fail=False)
        fmt = {'delim': g.choice(['\t', '\t', ' ', ',', ';']), 'head': g.choice([0, 0, 1, 2])}
        self.ddo('put', dict(fmt, nm=nm, c=['tab', rows]), d=SLOT)
        if kind == 'pts' and self.coin(.4):
            cols = cols[:2]
        if self.coin(.04):
            cols = [0] + cols[1:]
        elif self.coin(.04):
            cols = [len(rows[0]) + 1] + cols[1:]
        self.ddo('aload', dict(self.tunits(), nm=nm, kind=kind, cols=cols, **fmt), d=self.free())

    def dop_asave(self):
        if self.coin(.1):                  # numbers with many digits
            s = self.free()
            self.mk(d=s, nc=self.rng.choice([1, 2]), vals=lambda c, x, y: Fr(self.rng.randint(-10**7, 10**7), 8))
        else:
            s = self.objs(('F', 'F', 'P', 'S', 'S', 'O', 'T'))
        o = self.obj(s)
        if not self.tame(o, 2 * 10**7) or (o['k'] in 'SO' and not o['xy']):
            raise Skip()
        nm = self.nm(['.txt', '.dat'], fail=self.coin(.3))
        self.ddo('asave', {'nm': nm}, s=s, d=SLOT)
        if o['k'] == 'T' or nm['dir'] == 'no/':
            return
        kind = {'P': 'prof', 'S': 'pts', 'O': 'pts'}.get(o['k']) or {1: 'sf', 2: 'vf'}[o['nc']]
        n = {'prof': 2, 'pts': 3 if o['k'] in 'SO' and o['v'] else 2, 'sf': 3, 'vf': 4}[kind]
        self.ddo('aload', dict(self.tunits(), nm=nm, kind=kind, cols=list(range(1, n + 1))), d=self.free())

    def seqargs(self, names, many=False):
        g = self.rng
        n = len(names)
        ts = self.times(n)
        if self.coin(.3):
            g.shuffle(ts)
        deft = self.coin(.4)
        if deft:
            ts = [Fr(k) for k in range(n)]
        us = g.choice(['s', 'ms', ''])
        return {'ts': [r(t) for t in ts], 'deft': deft, 'ut': UVEC[us], 'uts': us, 'incr': g.choice([1, 1, 1, 2, 3]),
                'names': names}

    def dop_tables(self):
        g = self.rng
        rows, cols = self.rows('vf')
        nan = [i for i, row in enumerate(rows) if any(x == NAN for x in row)]
        k = g.randint(1, 4)
        order = list(range(k))
        g.shuffle(order)
        names = ['v{}.txt'.format(i) for i in range(k)]
        fmt = {'delim': g.choice(['\t', ',']), 'head': g.choice([0, 1])}
        for i in order:
            new = []
            for row in rows:
                row = list(row)
                for c in cols[2:]:
                    row[c - 1] = NAN if self.coin(.08) else r(self.val())
                new.append(row)
            self.ddo('put', dict(fmt, nm={'dir': '', 'stem': 'v{}'.format(i), 'ext': '.txt'}, c=['tab', new]), d=SLOT)
        names = [n for n in self.files('tab') if n.startswith('v')]
        if len(names) != k:
            raise Skip()
        a = dict(self.tunits(), kind='vf', cols=cols, glob='v*.txt', **fmt)
        a.update(self.seqargs(names))
        a['win'] = []
        if self.coin(.4):
            lo = g.randint(0, k - 1)
            hi = g.randint(lo, k - 1)
            if self.coin(.1):
                hi = k + g.randint(0, 1)
            a['win'] = [lo, hi]
            a['rev'] = self.coin(.3)
        if self.coin(.04):
            a['glob'], a['names'], a['ts'], a['win'], a['deft'] = 'zz*.txt', [], [], [], True
        self.ddo('aloads', a, d=self.free())

    # -------------------------------------------------------------- pictures
    def pix(self, w, h):
        g = self.rng
        return [[[g.choice([0, 1, 7, 100, 254, 255, g.randint(0, 255)]), 1] for _ in range(w)] for _ in range(h)]

    def picargs(self, w, h):
        a = self.tunits()
        a['ax'] = [] if self.coin(.6) else [r(x) for x in self.axis(w + (1 if self.coin(.1) else 0))]
        a['ay'] = [] if self.coin(.6) else [r(x) for x in self.axis(h)]
        for k in ('ax', 'ay'):
            if self.coin(.3):
                a[k] = a[k][::-1]
        return a

    def dop_pic(self):
        g = self.rng
        w, h = g.randint(2, 4), g.randint(2, 4)
        nm = self.nm(['.png'], fail=False)
        self.ddo('put', {'nm': nm, 'c': ['pix', self.pix(w, h)]}, d=SLOT)
        self.ddo('pload', dict(self.picargs(w, h), nm=nm), d=self.free())

    def mkgrey(self, d=None, w=None, h=None):
        g = self.rng
        d = d or self.free()
        w, h = w or g.randint(2, 4), h or g.randint(2, 4)
        self.mk(d=d, nc=1, nx=w, ny=h, mask='none', vals=lambda c, x, y: Fr(g.choice([0, 3, 9, 128, 255])), plain=True)
        return d

    def grey(self, o):
        return o['k'] == 'F' and o['nc'] == 1 and all(x[1] == 1 and 0 <= x[0] <= 255 for row in o['v'][0] for x in row)

    def dop_psave(self):
        s = self.mkgrey()
        # written as shown when the range is the whole of 0..255
        self.stretch(s)
        nm = self.nm(['.png'], fail=self.coin(.3))
        self.ddo('psave', {'nm': nm}, s=s, d=SLOT)
        if nm['dir'] == 'no/':
            return
        o = self.obj(s)
        self.ddo('pload', dict(self.picargs(len(o['ax']), len(o['ay'])), nm=nm), d=self.free())

    def stretch(self, s):
        """black and white are there: the picture is not rescaled"""
        o = self.obj(s)
        v = [x[0] for row in o['v'][0] for x in row]
        if min(v) != 0 or max(v) != 255:
            raise Skip()

    def dop_pics(self):
        g = self.rng
        w, h = g.randint(2, 3), g.randint(2, 3)
        k = g.randint(1, 4)
        order = list(range(k))
        g.shuffle(order)
        for i in order:
            self.ddo('put', {'nm': {'dir': '', 'stem': 'p{}'.format(i), 'ext': '.png'}, 'c': ['pix', self.pix(w, h)]}, d=SLOT)
        names = [n for n in self.files('pix') if n.startswith('p')]
        if len(names) != k:
            raise Skip()
        a = self.picargs(w, h)
        a.update(self.seqargs(names), glob='p*.png', win=[])
        if self.coin(.4):
            lo = g.randint(0, k - 1)
            a['win'] = [lo, g.randint(lo + 1, k + 1)]
        self.ddo('ploads', a, d=self.free())

    def dop_psaves(self):
        g = self.rng
        w, h = g.randint(2, 3), g.randint(2, 3)
        slots = [self.mkgrey(d=i, w=w, h=h) for i in (1, 2)]
        for s in slots:
            self.stretch(s)
        self.ddo('psaves', {'nm': {'dir': g.choice(['', 'sub/']), 'stem': g.choice('mn'), 'ext': '', 'how': g.choice(['rel', 'abs'])},
                            'of': 'list', 'slots': slots}, d=SLOT)

    # ----------------------------------------------------------------- DaVis
    def davargs(self, nc, w, h):
        g = self.rng
        a = self.tunits()
        a['uxs'] = a['uxs'] if a['uxs'] != 'px' else 'mm'
        a['uys'] = a['uys'] if a['uys'] != 'px' else 'mm'
        a['ux'], a['uy'] = UVEC[a['uxs']], UVEC[a['uys']]
        grid = g.choice([1, 2, 4]) if nc == 2 else 1
        a['dx'] = r(Fr(g.choice([-3, -1, 1, 1, 2, 3]), g.choice([1, 2])) * grid)
        a['dy'] = r(Fr(g.choice([-3, -1, -1, 1, 2, 3]), g.choice([1, 2])) * grid)
        a.update(grid=grid, x0=r(Fr(g.randint(-6, 6), 2)), y0=r(Fr(g.randint(-6, 6), 2)),
                 sc=r(Fr(g.choice([1, 1, 2, 3]), g.choice([1, 1, 2]))), off=r(Fr(g.randint(-2, 2), g.choice([1, 2]))),
                 ints=self.coin(), flag=[], fmt=g.choice([1, 3]), ext=g.choice({1: ['.im7', '.IM7'], 2: ['.vc7', '.VC7']}[nc]))
        if nc == 2 and self.coin():
            a['flag'] = [[g.choice([0, 2]) if self.coin(.2) else 1 for _ in range(w)] for _ in range(h)]
        return a

    def frames(self, nc, w, h):
        return [[[r(0 if self.coin(.3) else self.val()) for _ in range(w)] for _ in range(h)] for _ in range(nc)]

    def dop_dav(self):
        g = self.rng
        nc, w, h = g.choice([1, 2, 2]), g.randint(2, 4), g.randint(2, 4)
        a = self.davargs(nc, w, h)
        a['fr'] = self.frames(nc, w, h)
        self.ddo('dav', a, d=self.free())

    def dop_davs(self):
        g = self.rng
        nc, w, h = g.choice([1, 2, 2]), g.randint(2, 3), g.randint(2, 3)
        a = self.davargs(nc, w, h)
        k = g.randint(1, 5)
        a['fr'] = [self.frames(nc, w, h) for _ in range(k)]
        us = g.choice(['s', 'ms'])
        a.update(dt=r(Fr(g.randint(1, 5), g.choice([1, 2]))), ut=UVEC[us], uts=us, nc=nc, incr=g.choice([1, 1, 2, 3]),
                 lo=0, hi=k, fn=False, dir=self.coin())
        if self.coin(.4):
            a['lo'] = g.randint(0, k - 1)
            a['hi'] = g.randint(a['lo'] + 1, k)
            a['fn'] = True
        self.ddo('davs', a, d=self.free())


MIXES = {
    'own': {'mk': 3, 'save': 7, 'load': 7, 'junk': 1, 'change': 3, 'msave': 4, 'mload': 3, 'mgrid': 2, 'imts': 1},
    'text': {'mk': 2, 'table': 8, 'asave': 6, 'tables': 3, 'change': 2},
    'image': {'pic': 4, 'psave': 4, 'pics': 3, 'psaves': 2, 'dav': 6, 'davs': 3},
}


def disks(mix):
    def run(rng, rec, i):
        gen = DiskGen(rng, rec)
        rec.do('d', 'disk', d=SLOT)
        if mix != 'image':
            gen.mkany()
            gen.mkany()
        loop(gen, rng, MIXES[mix], 'dop_', gen.mkany, rng.randint(4, 8) if mix == 'own' else rng.randint(2, 4))
    return run
