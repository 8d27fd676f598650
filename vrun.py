#!/usr/bin/env python3
"""Decides one property.

    vrun.py check ID [quick|thorough]     exit 0 / 1 (+ VIOLATION line)
    vrun.py replay FILE                   re-runs one recorded history
    vrun.py list

Steps of a check:
 1. TLC explores the small-scope models of the property (spec/MC*.tla): the
    laws hold on every reachable state; every explored history is printed.
 2. harness/record.py replays a sample of those histories, and seeded random
    ones, on the code of /repo, and records what a user can observe.
 3. TLC checks each recorded history against spec/IMT.tla (spec/Trace.tla).
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
HARN = os.path.join(HERE, 'harness')
EVID = os.path.join(HERE, 'evidence')
sys.path.insert(0, HARN)
import registry                                              # noqa: E402

PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
NSH = 8


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPATH=os.environ.get('VERIF_REPO', '/repo'), MPLBACKEND='Agg', LANG='C.UTF-8',
             LC_ALL='C.UTF-8', TZ='UTC', OPENBLAS_CORETYPE='Nehalem',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             NPY_DISABLE_CPU_FEATURES='SSSE3 SSE41 POPCNT SSE42 AVX F16C FMA3 '
             'AVX2 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL')
    e.pop('PYTHONSTARTUP', None)
    return e


def tlc(args, meta, extra, timeout, heap='1500m'):
    """run TLC in spec/; the working files go to `meta`"""
    cp = ':'.join([JAR] + [j for j in (
        '/opt/veriftools/tla/CommunityModules-deps.jar',
        '/opt/veriftools/tla/CommunityModules.jar') if os.path.exists(j)])
    cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', cp, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', meta] + args
    e = env()
    e.update(extra)
    os.makedirs(meta, exist_ok=True)
    return subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout)


class Broken(Exception):
    """the machinery failed: no verdict"""


# --------------------------------------------------------------------- models
def run_model(spec, tier, work, n):
    name = 'mc{}'.format(n)
    cfg = os.path.join(work, name + '.cfg')
    consts = dict(spec['const'])
    consts.update(spec.get(tier, {}))
    with open(cfg, 'w') as fh:
        if consts:
            fh.write('CONSTANTS\n')
            for k, v in consts.items():
                fh.write('  {} = {}\n'.format(k, json.dumps(v) if isinstance(v, str) else v))
        fh.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n')
        for i in spec['inv']:
            fh.write('INVARIANT {}\n'.format(i))
        for i in spec.get('prop', []):
            fh.write('PROPERTY {}\n'.format(i))
    r = tlc(['-workers', '4', '-config', cfg, spec['module'] + '.tla'],
            os.path.join(work, name), {'SHOW': '0', 'TRACE': ''}, 800, heap='4g')
    out = r.stdout.decode('utf8', 'replace')
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
    if 'No error has been found' not in out or not m:
        tail = '\n'.join(x for x in out.split('\n') if 'PROG ' not in x)[-3000:]
        raise Broken('model {} {}: {}'.format(spec['module'], consts, tail))
    progs = []
    for ln in out.split('\n'):
        if ln.startswith('"PROG '):
            progs.append(json.loads(ln)[5:])
    return {'module': spec['module'], 'const': consts, 'states': int(m.group(2)),
            'transitions': int(m.group(1)), 'invariants': spec['inv'], 'programs': progs}


# --------------------------------------------------------------------- traces
def record(prop, tier, seed, shard, work, progfile, extra=None):
    out = os.path.join(work, 't{}.ndjson'.format(shard))
    e = env()
    e['PROGRAMS'] = progfile or ''
    e['SCRATCH'] = os.path.join(work, 's{}'.format(shard))
    e['MPLCONFIGDIR'] = os.path.join(work, 'mpl')
    os.makedirs(e['SCRATCH'], exist_ok=True)
    e.update(extra or {})
    try:
        r = subprocess.run([PY, '-W', 'ignore', os.path.join(HARN, 'record.py'), prop, tier, str(seed),
                            str(shard), str(NSH), out], env=e, cwd=e['SCRATCH'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=840)
        return out, r.returncode, r.stdout.decode('utf8', 'replace')[-2000:]
    except subprocess.TimeoutExpired:
        return out, -1, 'the replay did not end'


VERD = re.compile(r'<<"VERDICT", "([^"]*)", (\d+), "([^"]*)", "([^"]*)", "([^"]*)">>')


def validate(trace, work, show='0'):
    """TLC over one file of histories; returns (verdicts, states)"""
    with open(trace) as fh:
        lines = fh.read().split('\n')
    lines = [ln for ln in lines if ln]
    offset = list(range(1, len(lines) + 1))
    verdicts, states = [], 0
    for attempt in range(40):
        if not lines:
            return verdicts, states
        part = '{}.p{}'.format(trace, attempt)
        with open(part, 'w') as fh:
            fh.write('\n'.join(lines) + '\n')
        r = tlc(['-workers', '1', '-config', 'Trace.cfg', 'Trace.tla'],
                part + '.meta', {'TRACE': part, 'SHOW': show}, 300)
        out = r.stdout.decode('utf8', 'replace')
        shutil.rmtree(part + '.meta', ignore_errors=True)
        seen = set()
        jsons = re.findall(r'^"JSON (.*)"$', out, re.M)
        for k, m in enumerate(VERD.finditer(out)):
            tid, ln, mod, op, clause = m.groups()
            if ln in seen:
                continue
            seen.add(ln)
            verdicts.append({'trace': tid, 'line': offset[int(ln) - 1], 'm': mod, 'op': op, 'clause': clause})
        m = re.findall(r'(\d+) states generated, \d+ distinct', out)
        if '<<"FINISHED", {},'.format(len(lines)) in out:
            os.unlink(part)
            return verdicts, states + (int(m[-1]) if m else 0)
        # evaluation stopped: the history at hand is outside the specification
        ls = re.findall(r'^/\\ l = (\d+)$', out, re.M)
        if not ls or 'Error:' not in out:
            raise Broken('TLC: ' + out[-1500:])
        at = int(ls[-1])
        ev = json.loads(lines[at - 1])
        why = re.findall(r'but it produced the following error:\n(.*)', out) or \
            re.findall(r'Error: (.*)', out)
        verdicts.append({'trace': ev['id'], 'line': offset[at - 1], 'm': ev.get('m', ''), 'op': ev['op'],
                         'clause': 'outside', 'why': why[0][:200]})
        states += at
        # go on after the end of that history; what came before is decided
        nxt = at
        while nxt < len(lines) and '"op":"reset"' not in lines[nxt]:
            nxt += 1
        lines, offset = lines[nxt:], offset[nxt:]
        os.unlink(part)
    return verdicts, states


def owned(prop, v):
    for pat, clauses in registry.PROPS[prop]['owns']:
        if re.fullmatch(pat, v['m'] + '.' + v['op']) and (clauses == '*' or v['clause'] in clauses):
            return True
    return False


def known():
    res = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p) as fh:
            for ln in fh:
                if ln.startswith('known: '):
                    res.append(json.loads(ln[7:]))
    return res


def find_known(prop, v):
    for k in known():
        if k.get('status') == 'known' and k['property'] == prop and k['trace'] == v['trace'] \
                and k['op'] == v['op'] and k['clause'] == v['clause']:
            return k
    return None


def history(trace, line):
    """the events of the history holding this line, up to it"""
    with open(trace) as fh:
        lines = fh.read().split('\n')
    i = line - 1
    while i > 0 and '"op":"reset"' not in lines[i]:
        i -= 1
    return [json.loads(x) for x in lines[i:line]]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    spec = registry.PROPS[prop]
    work = tempfile.mkdtemp(prefix='imtv.')
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith('replay-{}-'.format(prop)):
            os.unlink(os.path.join(EVID, f))
    viol, kn, notes = [], [], []
    try:
        with ThreadPoolExecutor(NSH) as ex:
            mods = list(ex.map(lambda p: run_model(p[1], tier, work, p[0]),
                               list(enumerate(spec.get('models', [])))))
            progfile = os.path.join(work, 'programs')
            rng = random.Random('{}:{}'.format(prop, seed))
            nprog = 0
            with open(progfile, 'w') as fh:
                for md, sp in zip(mods, spec.get('models', [])):
                    cap = sp['replay'][tier]
                    ps = sorted(md['programs'])
                    md['replayed'] = min(cap, len(ps))
                    if len(ps) > cap:
                        ps = rng.sample(ps, cap)
                    for p in ps:
                        nprog += 1
                        fh.write(p + '\n')
            shards = list(ex.map(lambda s: record(prop, tier, seed, s, work, progfile), range(NSH)))
            stats = {'traces': 0, 'events': 0, 'ops': {}, 'gen_err': 0}
            for s, (out, rc, msg) in enumerate(shards):
                if rc != 0:
                    v = {'trace': 'shard{}'.format(s), 'line': 0, 'm': '', 'op': 'run', 'clause': 'died',
                         'why': msg}
                    viol.append((v, None))
                    continue
                with open(out + '.stat') as fh:
                    st = json.load(fh)
                for k in ('traces', 'events', 'gen_err'):
                    stats[k] += st[k]
                for k, n in st['ops'].items():
                    stats['ops'][k] = stats['ops'].get(k, 0) + n
            res = list(ex.map(lambda s: validate(s[0], work) if s[1] == 0 else ([], 0), shards))
        states = 0
        setup = 0
        for (out, rc, msg), (vs, st) in zip(shards, res):
            states += st
            for v in vs:
                if not owned(prop, v) and not os.environ.get("OWNALL"):
                    setup += 1
                    continue
                k = find_known(prop, v)
                if k:
                    kn.append(k)
                else:
                    viol.append((v, out))
        for k in known():
            if k.get('status') == 'known' and k['property'] == prop and k not in kn:
                notes.append('the listed finding {} did not show'.format(k['trace']))
        samples = []
        for out, rc, msg in shards[:2]:
            if rc == 0:
                with open(out) as fh:
                    ls = fh.read().split('\n')
                for ln in ls[1:4]:
                    if ln:
                        samples.append(json.loads(ln))
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': sum(m['states'] for m in mods) + states,
                'transitions': sum(m['transitions'] for m in mods) + stats['events'],
                'traces_validated_against_impl': stats['traces'],
                'samples': samples,
                'calls_checked_on_the_code': stats['events'],
                'calls_by_operation': stats['ops'],
                'model_runs': [{k: v for k, v in m.items() if k != 'programs'} for m in mods],
                'model_histories_replayed': nprog,
                'histories_ended_by_other_operations': setup,
                'generator_errors': stats['gen_err'],
            },
            'assumptions': ['numbers are compared as rationals within 1e-11 relative',
                            'TLC, and the projection of harness/proj.py'] + notes,
            'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
        with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for k in {json.dumps(k, sort_keys=True) for k in kn}:
            print('KNOWN-FINDING: property={} {}'.format(prop, json.loads(k)['what']))
        if stats['events'] < spec.get('floor', 1) and not viol:
            raise Broken('only {} calls were recorded'.format(stats['events']))
        for n, (v, out) in enumerate(viol[:10]):
            path = os.path.join(EVID, 'replay-{}-{}.json'.format(prop, n))
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'verdict': v, 'tier': tier, 'seed': seed,
                           'history': history(out, v['line']) if out else []}, fh)
            print('VIOLATION property={} replay={}'.format(prop, path))
            print('  {} {}.{}: {} {}'.format(v['trace'], v['m'], v['op'], v['clause'], v.get('why', '')))
        print('{} {}: {} histories, {} calls, {} model states, {:.0f} s{}'.format(
            prop, tier, stats['traces'], stats['events'], sum(m['states'] for m in mods),
            time.time() - t0, '' if not setup else ', {} ended early'.format(setup)))
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    with open(path) as fh:
        rp = json.load(fh)
    work = tempfile.mkdtemp(prefix='imtv.')
    try:
        pf = os.path.join(work, 'p')
        prog = [e for e in rp['history'] if e['op'] != 'reset']
        with open(pf, 'w') as fh:
            fh.write(json.dumps(prog) + '\n')
        out, rc, msg = record(rp['property'], 'none', rp['seed'], 0, work, pf,
                              {'SHARDS': '1', 'ONLY': 'programs'})
        print(msg)
        vs, st = validate(out, work, show='1')
        for v in vs:
            print(v)
            print(json.dumps(history(out, v['line'])[-1])[:3000])
        return 1 if vs else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1] == 'list':
        print('\n'.join(sorted(registry.PROPS)))
        return 0
    try:
        if sys.argv[1] == 'replay':
            return replay(sys.argv[2])
        return check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else
                     os.environ.get('VERIF_TIER') or 'quick')
    except Broken as ex:
        print('CHECK BROKEN: {}'.format(ex))
        return 2


sys.exit(main())
