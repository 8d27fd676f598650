"""The generators of histories."""
import gen_fields
import gen_temporal
import gen_profile
import gen_points
import gen_disk
import gen_derive
import gen_crit
import gen_layer
import gen_zone
import drive_layer                                           # noqa: F401
import drive_zone                                            # noqa: F401
import drive_crit                                            # noqa: F401
import drive_any                                             # noqa: F401
import drive_derive                                          # noqa: F401
import drive_disk                                            # noqa: F401
import drive_points                                          # noqa: F401
import drive_profile                                         # noqa: F401
import drive_temporal                                        # noqa: F401
import drive                                                 # noqa: F401
from proj import VECU, UNONE
from registry import PROPS                                   # noqa: F401

FAMILIES = {}
for _m in gen_fields.MIXES:
    FAMILIES['f.' + _m] = gen_fields.fields(_m)
for _m in gen_temporal.MIXES:
    FAMILIES['t.' + _m] = gen_temporal.temporal(_m)
for _m in gen_profile.MIXES:
    FAMILIES['p.' + _m] = gen_profile.profiles(_m)
for _m in gen_points.SMIXES:
    FAMILIES['s.' + _m] = gen_points.points(_m)
for _m in gen_points.TPMIXES:
    FAMILIES['tp.' + _m] = gen_points.tpoints(_m)
for _m in gen_disk.MIXES:
    FAMILIES['d.' + _m] = gen_disk.disks(_m)
for _m in gen_derive.MIXES:
    FAMILIES['g.' + _m] = gen_derive.derive(_m)
for _m in gen_crit.MIXES:
    FAMILIES['cp.' + _m] = gen_crit.crits(_m)
FAMILIES['bl.all'] = gen_layer.layers
FAMILIES['z.all'] = gen_zone.zones
FAMILIES['p.known'] = gen_profile.known_crop
FAMILIES['f.known'] = gen_fields.known_intline


def _units(a):
    for k in ('ux', 'uy', 'uv'):
        if k in a:
            a.setdefault(k + 's', VECU[tuple(a[k])])


def program(js):
    """histories printed by the models lack what only the driver needs"""
    for e in js:
        a = e['a']
        if e['op'] in ('mk', 'aload', 'pload', 'dav'):
            _units(a)
        if e['op'] == 'mkt':
            for f in a['fs']:
                _units(f)
        if e['op'] == 'unit' or 'u' in a and 'us' not in a and isinstance(a['u'], list) \
                and len(a['u']) == 7:
            a.setdefault('us', VECU[tuple(a['u'])])
        for k in ('fx', 'fy', 'fv', 'ft'):
            if k in a:
                a[k].setdefault('us', VECU[tuple(a[k]['u'])])
    return js
