"""Worker: record histories of one property on the real code (run with the
library's interpreter).  usage: record.py PROP TIER SEED SHARD NSHARDS OUT"""
import json
import os
import random
import resource
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop, tier, seed, shard, nsh, out = sys.argv[1:7]
    shard, nsh = int(shard), int(nsh)
    resource.setrlimit(resource.RLIMIT_AS, (6 * 2**30, 6 * 2**30))
    import props
    import drive
    import drive_any
    spec = props.PROPS[prop]
    with open(out, 'w') as fh:
        rec = drive.Recorder(fh)
        jobs = []
        if os.environ.get('ONLY') != 'programs':
            for fam, count in spec['random'][tier].items():
                jobs += [('r', fam, i) for i in range(count)]
        if os.environ.get('SHARDS'):
            nsh = int(os.environ['SHARDS'])
        progs = os.environ.get('PROGRAMS')
        if progs:
            with open(progs) as pf:
                jobs += [('m', None, ln) for ln in pf]
        for n, (kind, fam, arg) in enumerate(jobs):
            if n % nsh != shard:
                continue
            if rec.timeouts > 2:
                break
            if kind == 'r':
                tid = '{}:{}'.format(fam, arg)
                rec.reset(tid)
                rng = random.Random('{}:{}:{}'.format(seed, fam, arg))
                try:
                    props.FAMILIES[fam](rng, rec, arg)
                    if not fam.endswith('.known'):
                        drive_any.tail(rng, rec)
                except Exception:
                    rec.gen_err = getattr(rec, 'gen_err', 0) + 1
                    if os.environ.get('GENDEBUG'):
                        traceback.print_exc()
            else:
                rec.reset('m:{}'.format(n))
                try:
                    for e in props.program(json.loads(arg)):
                        rec.run(e)
                    drive_any.tail(random.Random(n), rec)
                except Exception:
                    rec.gen_err = getattr(rec, 'gen_err', 0) + 1
                    if os.environ.get('GENDEBUG'):
                        traceback.print_exc()
    with open(out + '.stat', 'w') as fh:
        json.dump({'traces': rec.n, 'events': rec.events, 'ops': rec.ops,
                   'gen_err': getattr(rec, 'gen_err', 0)}, fh)


main()
