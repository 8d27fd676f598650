"""Calls on files (spec/DiskSteps.tla).  Everything happens in a folder made
for the history inside the scratch folder of the recorder."""
import contextlib
import io
import os
import re
import shutil
import sys
import types
import numpy as np
import proj
from proj import q, fl, fls, p_obj, NAN
from drive import call, unit, OBJ, NOTHING, RET

SLOT = 6
N = [0]


class Disk(object):
    def __init__(self):
        N[0] += 1
        base = os.environ.get('SCRATCH') or os.getcwd()
        self.root = os.path.join(base, 'disk{}'.format(N[0]))
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, 'sub'))
        with open(os.path.join(self.root, 'keep'), 'w') as fh:
            fh.write('keep\n')
        self.mat = {}                 # what was exported to matlab files

    def __deepcopy__(self, memo):
        return self

    def names(self):
        res = []
        for root, dirs, files in os.walk(self.root):
            res += [os.path.relpath(os.path.join(root, f), self.root) for f in files]
        return sorted(res)


def table(path):
    rows = []
    with open(path) as fh:
        for ln in fh:
            if ln.startswith('#') or not ln.strip():
                continue
            try:
                rows.append([float(x) for x in re.split(r'[\s,;]+', ln.strip())])
            except ValueError:
                continue               # a header
    return [[q(x) for x in row] for row in rows]


def pixels(path):
    import imageio
    a = np.asarray(imageio.imread(path))
    if a.ndim != 2:
        return [[[4, 0]]]
    return [[q(x) for x in row] for row in a]


def content(d, n):
    from IMTreatment import file_operation as imtio
    path = os.path.join(d.root, n)
    ext = os.path.splitext(n)[1]
    with open(path, 'rb') as fh:
        if fh.read(5) in (b'keep\n', b'junk\n'):
            return ['raw']
    try:
        if ext in ('.imt', '.cimt'):
            return ['obj', p_obj(imtio.import_from_file(path))]
        if ext in ('.txt', '.dat', '.csv'):
            return ['tab', table(path)]
        if ext == '.png':
            return ['pix', pixels(path)]
        if ext == '.mat':
            return ['mat', d.mat.get(n, {'k': 'BAD'})]
    except Exception:
        return ['raw']
    return ['bin']


def p_disk(d):
    return {'k': 'DISK', 'fs': {n: content(d, n) for n in d.names()}}


proj.EXTRA.append((lambda o: isinstance(o, Disk), p_disk))


def fio():
    from IMTreatment import file_operation as imtio
    return imtio


@contextlib.contextmanager
def at(rec):
    """in the folder of the disk, silently"""
    old = os.getcwd()
    os.chdir(rec.W[SLOT].root)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.chdir(old)


def full(rec, nm):
    n = nm['dir'] + nm['stem'] + nm['ext']
    how = nm.get('how', 'rel')
    if how == 'abs':
        return os.path.join(rec.W[SLOT].root, n)
    if how == 'dot':
        return './' + n
    return n


@call('d', 'disk')
def d_disk(rec, e):
    if isinstance(rec.W[SLOT], Disk):
        shutil.rmtree(rec.W[SLOT].root, ignore_errors=True)
    rec.W[SLOT] = Disk()
    return NOTHING, None


@call('d', 'put')
def d_put(rec, e):
    a = e['a']
    with at(rec):
        p = full(rec, a['nm'])
        if a['c'][0] == 'raw':
            with open(p, 'w') as fh:
                fh.write('junk\n')
        elif a['c'][0] == 'pix':
            import imageio
            imageio.imwrite(p, np.array([[x[0] for x in row] for row in a['c'][1]], dtype=np.uint8))
        else:
            with open(p, 'w') as fh:
                for h in range(a.get('head', 0)):
                    fh.write('header {}\n'.format('x y z'[:h + 1]))
                for row in a['c'][1]:
                    fh.write(a.get('delim', '\t').join(
                        'nan' if x == NAN else repr(fl(x)) for x in row) + '\n')
    return NOTHING, None


@call('d', 'save')
def d_save(rec, e):
    a = e['a']
    with at(rec):
        if a.get('default'):
            fio().export_to_file(rec.W[e['s']], full(rec, a['nm']))
        else:
            fio().export_to_file(rec.W[e['s']], full(rec, a['nm']), compressed=a['comp'])
    return NOTHING, None


@call('d', 'load')
def d_load(rec, e):
    with at(rec):
        return OBJ, fio().import_from_file(full(rec, e['a']['nm']))


KIND = {'P': 'Profile', 'S': 'Points', 1: 'ScalarField', 2: 'VectorField'}


@call('d', 'msave')
def d_msave(rec, e):
    nm = e['a']['nm']
    with at(rec):
        fio().export_to_matlab(rec.W[e['s']], full(rec, nm))
    rec.W[SLOT].mat[nm['dir'] + nm['stem'] + nm['ext']] = rec.last[e['s']]
    return NOTHING, None


@call('d', 'mload')
def d_mload(rec, e):
    nm = e['a']['nm']
    with at(rec):
        m = rec.W[SLOT].mat.get(nm['dir'] + nm['stem'] + nm['ext'])
        kind = 'Profile' if m is None else KIND[m['nc'] if m['k'] == 'F' else m['k']]
        return OBJ, fio().import_from_matlab(full(rec, nm), kind)


@call('d', 'mgrid')
def d_mgrid(rec, e):
    """the file as another programme reads it"""
    import scipy.io
    with at(rec):
        d = scipy.io.loadmat(full(rec, e['a']['nm']))
    return RET, [[[proj.q(x) for x in row] for row in d[k]] for k in ('X', 'Y')] + \
        [[[bool(x) for x in row] for row in d['mask']]]


@call('d', 'imts')
def d_imts(rec, e):
    a = e['a']
    with at(rec):
        fio().imts_to_imt('sub', full(rec, a['nm']), {1: 'TSF', 2: 'TVF'}[a['nc']])
    return NOTHING, None


@call('d', 'asave')
def d_asave(rec, e):
    with at(rec):
        fio().export_to_ascii(rec.W[e['s']], full(rec, e['a']['nm']))
    return NOTHING, None


def asc(a):
    kw = {'unit_x': unit(a['uxs']), 'unit_y': unit(a['uys'])}
    if a['kind'] in ('sf', 'vf'):
        kw['unit_values'] = unit(a['uvs'])
    if a['kind'] == 'pts':
        kw['unit_v'] = unit(a['uvs'])
    names = {'sf': ['x_col', 'y_col', 'vx_col'], 'vf': ['x_col', 'y_col', 'vx_col', 'vy_col'],
             'prof': ['x_col', 'y_col'], 'pts': ['x_col', 'y_col', 'v_col']}[a['kind']]
    for n, v in zip(names, a['cols']):
        kw[n] = v
    if a.get('delim', '\t') not in '\t ':
        kw['delimiter'] = a['delim']
    if a.get('head'):
        kw['skip_header'] = a['head']
    return kw


@call('d', 'aload')
def d_aload(rec, e):
    a = e['a']
    f = {'sf': fio().import_sf_from_ascii, 'vf': fio().import_vf_from_ascii,
         'prof': fio().import_profile_from_ascii, 'pts': fio().import_pts_from_ascii}[a['kind']]
    with at(rec):
        return OBJ, f(full(rec, a['nm']), **asc(a))


@call('d', 'aloads')
def d_aloads(rec, e):
    a = e['a']
    kw = asc(a)
    if not a['deft']:
        kw['times'] = fls(a['ts'])
    if a['win']:
        kw['interval'] = list(a['win'])[::-1 if a.get('rev') else 1]
    with at(rec):
        return OBJ, fio().import_vfs_from_ascii(a['glob'], incr=a['incr'], unit_time=unit(a['uts']), **kw)


@call('d', 'psave')
def d_psave(rec, e):
    with at(rec):
        fio().export_to_picture(rec.W[e['s']], full(rec, e['a']['nm']))
    return NOTHING, None


def pic(a):
    kw = {'unit_x': a['uxs'], 'unit_y': a['uys'], 'unit_values': a['uvs']}
    if a['ax']:
        kw['axe_x'] = fls(a['ax'])
    if a['ay']:
        kw['axe_y'] = fls(a['ay'])
    return kw


@call('d', 'pload')
def d_pload(rec, e):
    with at(rec):
        return OBJ, fio().import_from_picture(full(rec, e['a']['nm']), **pic(e['a']))


@call('d', 'psaves')
def d_psaves(rec, e):
    a = e['a']
    what = rec.W[e['s']] if a['of'] != 'list' else [rec.W[i] for i in a['slots']]
    with at(rec):
        fio().export_to_pictures(what, full(rec, a['nm']))
    return NOTHING, None


@call('d', 'ploads')
def d_ploads(rec, e):
    a = e['a']
    kw = pic(a)
    if not a['deft']:
        kw['times'] = fls(a['ts'])
    if a['win']:
        kw['fieldnumbers'] = list(a['win'])
    with at(rec):
        return OBJ, fio().import_from_pictures(a['glob'], incr=a['incr'], unit_times=a['uts'], **kw)


# ------------------------------------------------------------------- DaVis
class _Buf(object):
    def __init__(self, fmt, grid, arr):
        self.image_sub_type, self.vectorGrid, self.arr = fmt, grid, arr


def _fake(files):
    """stands for the ReadIM library, which is not here: it gives the buffers
    of the files, as arrays of frames of rows"""
    m = types.ModuleType('ReadIM')
    m.extra = types.ModuleType('ReadIM.extra')
    m.extra.get_Buffer_andAttributeList = lambda fn: (files[os.path.basename(str(fn))],
                                                      files[os.path.basename(str(fn))].atts)
    m.extra.buffer_as_array = lambda b: (np.array(b.arr, dtype=float), b)
    m.extra.att2dict = lambda at_: dict(at_)
    m.DestroyBuffer = lambda b: None
    return m


def _buffer(a, fr):
    frames = [[[fl(x) for x in row] for row in f] for f in fr]
    fmt = 0
    if len(frames) == 2:
        if a['flag']:
            fmt = a['fmt']
            one = np.array(np.array(a['flag']) != 0, dtype=float)
            two = np.array(np.array(a['flag']) != 2, dtype=float)
            frames = [one, frames[0], frames[1]] + [one] * 6 + [two]
        else:
            fmt = 2
    b = _Buf(fmt, a['grid'], np.array(frames, dtype=float))
    num = (lambda x: str(int(x)) if x == int(x) and a['ints'] else repr(x))
    b.atts = {'_SCALE_I': '{} {}\n{}'.format(num(fl(a['sc'])), num(fl(a['off'])), a['uvs']),
              '_SCALE_X': '{} {}\n{}'.format(fl(a['dx']) / (a['grid'] if len(fr) == 2 else 1), fl(a['x0']), a['uxs']),
              '_SCALE_Y': '{} {}\n{}'.format(fl(a['dy']) / (a['grid'] if len(fr) == 2 else 1), fl(a['y0']), a['uys'])}
    if a.get('dt'):
        b.atts['FrameDt0'] = '{} {}'.format(fl(a['dt']), a['uts'])
    return b


@contextlib.contextmanager
def davis(rec, bufs, ext):
    """files of a folder, with a ReadIM that reads them"""
    old = sys.modules.get('ReadIM')
    with at(rec):
        os.mkdir('dav')
        try:
            files = {}
            for i, b in enumerate(bufs):
                n = 'f{:03d}{}'.format(i, ext)
                open(os.path.join('dav', n), 'w').close()
                files[n] = b
            sys.modules['ReadIM'] = _fake(files)
            yield 'dav', sorted(files)
        finally:
            if old is None:
                sys.modules.pop('ReadIM', None)
            else:
                sys.modules['ReadIM'] = old
            shutil.rmtree('dav')


@call('d', 'dav')
def d_dav(rec, e):
    a = e['a']
    vec = len(a['fr']) == 2
    with davis(rec, [_buffer(a, a['fr'])], a['ext']) as (folder, names):
        f = fio().import_from_VC7 if vec else fio().import_from_IM7
        return OBJ, f(os.path.join(folder, names[0]))


@call('d', 'davs')
def d_davs(rec, e):
    a = e['a']
    kw = {'incr': a['incr']}
    if a['fn']:
        kw['fieldnumbers'] = [a['lo'], a['hi']]
    with davis(rec, [_buffer(a, fr) for fr in a['fr']], a['ext']) as (folder, names):
        f = fio().import_from_VC7s if a['nc'] == 2 else fio().import_from_IM7s
        return OBJ, f(folder if a['dir'] else [os.path.join(folder, n) for n in names], **kw)
