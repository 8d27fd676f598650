"""Which histories and models decide which property, and which calls it owns.

random  {tier: {family: number of histories}}
models  small-scope models explored by TLC (spec/<module>.tla)
owns    [(regular expression on "m.op", clauses)]: verdicts on other calls
        only end a history early; they are reported by the property owning them
"""


def fm(mix, q=4000, t=20000, qcells=4, tcells=6, inv=('WellFormed', 'Laws')):
    return {'module': 'MCFields', 'const': {'Mix': mix},
            'quick': {'Depth': 1, 'MaxCells': qcells},
            'thorough': {'Depth': 1, 'MaxCells': tcells},
            'inv': list(inv), 'replay': {'quick': q, 'thorough': t}}


def fm2(mix, t=20000):
    """two calls in a row, thorough only deeper"""
    return {'module': 'MCFields', 'const': {'Mix': mix},
            'quick': {'Depth': 2, 'MaxCells': 2},
            'thorough': {'Depth': 2, 'MaxCells': 4},
            'inv': ['WellFormed'], 'replay': {'quick': 3000, 'thorough': t}}


def tm(mix, q=3000, t=20000, d2=False):
    return {'module': 'MCTemporal', 'const': {'Mix': mix},
            'quick': {'Depth': 1, 'MaxFields': 2},
            'thorough': {'Depth': 2 if d2 else 1, 'MaxFields': 2 if d2 else 3},
            'inv': ['WellFormed'] if d2 else ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def pm(mix, q=4000, t=20000, nq=3, nt=4):
    return {'module': 'MCProfile', 'const': {'Mix': mix},
            'quick': {'Depth': 1, 'MaxPts': nq},
            'thorough': {'Depth': 1, 'MaxPts': nt},
            'inv': ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def sm(mix, q=4000, t=20000, nq=3, nt=4, d2=False):
    return {'module': 'MCPoints', 'const': {'Mix': mix},
            'quick': {'Depth': 1, 'MaxPts': nq},
            'thorough': {'Depth': 2 if d2 else 1, 'MaxPts': 2 if d2 else nt},
            'inv': ['WellFormed'] if d2 else ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def dm(mix, q=3000, t=20000, depth=(1, 1), rich=(1, 2)):
    return {'module': 'MCDisk', 'const': {'Mix': mix},
            'quick': {'Depth': depth[0], 'Rich': rich[0]},
            'thorough': {'Depth': depth[1], 'Rich': rich[1]},
            'inv': ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def gm(mix, q=3000, t=20000):
    return {'module': 'MCDerive', 'const': {'Mix': mix}, 'quick': {'Rich': 1}, 'thorough': {'Rich': 2},
            'inv': ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def cm(mix, q=3000, t=20000):
    return {'module': 'MCCrit', 'const': {'Mix': mix}, 'quick': {'Depth': 1, 'MaxT': 2}, 'thorough': {'Depth': 1, 'MaxT': 3},
            'inv': ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def detm(mix, n, m, q=2500, t=16000):
    return {'module': 'MCDetect', 'const': {'Mix': mix}, 'quick': {'Depth': 1, 'NDir': n}, 'thorough': {'Depth': 1, 'NDir': m},
            'inv': ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def zm(x, y, xx, yy, q=4000, t=20000):
    return {'module': 'MCZone', 'const': {'MaxV': 2}, 'quick': {'SizeX': x, 'SizeY': y}, 'thorough': {'SizeX': xx, 'SizeY': yy},
            'inv': ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def lm(n, m, q=4000, t=20000):
    return {'module': 'MCLayer', 'const': {}, 'quick': {'MaxPts': n, 'MaxY': 3}, 'thorough': {'MaxPts': m, 'MaxY': 4},
            'inv': ['WellFormed', 'Laws'], 'replay': {'quick': q, 'thorough': t}}


def both(fams, k=8):
    return {'quick': dict(fams), 'thorough': {f: n * k for f, n in fams.items()}}


PROPS = {
    'C01': {'random': both({'f.create': 2000}), 'models': [fm('create')],
            'owns': [('f.(mk|copy|comp|maskf|setmask|setvals|setunit|setax|iter|mag2)', '*')]},
    'C02': {'random': both({'f.crop': 2000}), 'models': [fm('crop'), fm2('crop')],
            'owns': [('f.(crop|cropb)', '*')]},
    'C03': {'random': both({'f.extend': 2400}), 'models': [fm('extend'), fm2('extend')],
            'owns': [('f.(extend|mirror|mirrorv)', '*')]},
    'C04': {'random': both({'f.rotate': 1600}), 'models': [fm('rotate'), fm2('rotate')],
            'owns': [('f.rotate', '*')]},
    'C05': {'random': both({'f.scale': 2000}), 'models': [fm('scale'), fm2('scale')],
            'owns': [('f.(scale|unit|origin)', '*')]},
    'C06': {'random': both({'f.arith': 2800}), 'models': [fm('arith'), fm2('arith')],
            'owns': [('f.(add|addq|rsubq|adda|neg|abs|mulq|divq|rdivq|rdiva|mula|diva|mulf|divf|pow|eq)', '*')]},
    'C07': {'random': both({'f.alias': 2800}), 'models': [],
            'owns': [('f.(setmask|setvals|setunit|setax|copy)', '*')]},
    'C08': {'random': {'quick': {'f.masked': 2400, 'f.known': 2}, 'thorough': {'f.masked': 20000, 'f.known': 2}}, 'models': [fm('masked')],
            'owns': [('f.(stat|norm|iter|scatter|intline|intsurf|mag2|theta)', '*')]},
    'C09': {'random': both({'f.lookup': 2400}), 'models': [fm('lookup')],
            'owns': [('f.(getv|ionaxe|around|profile)', '*')]},
    'C10': {'random': both({'f.fill': 2000}), 'models': [fm('fill', qcells=6)],
            'owns': [('f.(fillv|filln|filll|smooth)', '*')]},
    'C11': {'random': both({'f.reso': 2000}), 'models': [fm('reso')],
            'owns': [('f.(reduce|even)', '*')]},
    'C12': {'random': both({'t.hold': 1500}), 'models': [tm('hold')],
            'owns': [('t..*', '*')]},
    'C13': {'random': both({'t.space': 1500}), 'models': [tm('space')],
            'owns': [('t.(crop|cropb|extend|rotate|mirror|scale|unit|origin|reduce|smooth|even|fillv|fills)', '*')]},
    'C14': {'random': both({'t.stat': 1500}), 'models': [tm('stat')],
            'owns': [('t.(mean|min|max|fluct|mke|tke|meantke|reynolds|cum|recmap|tprof|tprofp|inject)', '*')]},
    'C15': {'random': both({'t.time': 1500}), 'models': [tm('time')],
            'owns': [('t.(interp|reducet|augt|fillt|addfield|addt|addq|neg|mulq|divq|mult|divt|divfield|pow)', '*')]},
    'C16': {'random': {'quick': {'p.hold': 2400, 'p.known': 1}, 'thorough': {'p.hold': 20000, 'p.known': 1}}, 'models': [pm('hold')],
            'owns': [('p.(mk|copy|eq|len|setx|sety|poke|setmask|setunit|addpt|addpts|rmpt|crop|cropb|scale|unit|rmnan|doub|marg)', '*')]},
    'C17': {'random': both({'p.arith': 2400}), 'models': [pm('arith')],
            'owns': [('p.(neg|addq|add|mulq|divq|mulp|divp|pow)', '*')]},
    'C18': {'random': both({'p.look': 2400}), 'models': [pm('look')],
            'owns': [('p.(stat|ipx|ipy|vpos|interp|integ|grad|gradat|fill|smooth|even|augment|conv)', '*')]},
    'C19': {'random': both({'s.hold': 1600, 's.derive': 800}), 'models': [sm('hold'), sm('derive')],
            'owns': [('s..*', '*')]},
    'C20': {'random': both({'tp.hold': 1500}), 'models': [sm('times')],
            'owns': [('tp..*', '*')]},
    'C21': {'random': both({'d.own': 1500}), 'models': [dm('own', depth=(2, 3))],
            'owns': [('d.(save|load|msave|mload|mgrid|imts)', '*')]},
    'C22': {'random': both({'d.text': 1200, 'd.image': 1200}), 'models': [dm('text'), dm('image')],
            'owns': [('d.(asave|aload|aloads|psave|pload|psaves|ploads|dav|davs)', '*')]},
    'C23': {'random': both({'g.grad': 1600}), 'models': [gm('grad')],
            'owns': [('g.(grad|graw|gfield|shear|track|div|cdiv|vort|stokes|recon|recon2|reconv)', '*')]},
    'C24': {'random': both({'g.crit': 1600}), 'models': [gm('crit'), gm('ring')],
            'owns': [('g.(local|lraw|kolar|ksum|kshear|eigen|nl|nlraw|iota)', '*')]},
    'C25': {'random': both({'cp.hold': 1500}), 'models': [cm('all')],
            'owns': [('cp.(?!detect|smoothed).*', '*')]},
    'C26': {'random': both({'cp.detect': 1500}), 'models': [detm('one', 5, 7), detm('two', 3, 4)],
            'owns': [('cp.(detect|smoothed)', '*')]},
    'C27': {'random': both({'bl.all': 2000}), 'models': [lm(3, 4)],
            'owns': [('bl..*', '*')]},
    'C28': {'random': both({'z.all': 2000}), 'models': [zm(2, 2, 3, 2)],
            'owns': [('z..*', '*')]},
}

# writing through one object never shows in another; senseless calls are refused
for _p in PROPS.values():
    _p['owns'] += [('x.*', '*'), ('.*', ('frame', 'shared'))]
