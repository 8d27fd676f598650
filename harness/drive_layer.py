"""Boundary layers."""
from drive import call, OBJ, RET, fl, opt
import proj
from proj import q


def _fun(name):
    from IMTreatment import boundary_layer
    return getattr(boundary_layer, name)


def layer(name, perc=False):
    def run(rec, e):
        a = e['a']
        o = rec.W[e['s']]
        kw = {}
        if perc:
            kw.update(opt(e, {'perc': fl(a['perc'])}, perc=.95))
        if proj.p_obj(o)['k'] == 'P':
            return RET, [q(float(_fun(name)(o, **kw)))]
        kw.update(opt(e, {'direction': a['dir']}, direction=1))
        return OBJ, _fun(name)(o, **kw)
    return run


call('bl', 'thick')(layer('get_bl_thickness', perc=True))
call('bl', 'displ')(layer('get_displ_thickness'))
call('bl', 'mom')(layer('get_momentum_thickness'))
call('bl', 'shape')(layer('get_shape_factor'))
