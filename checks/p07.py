"""P07: per-engine inputs are vectorised by engine type and engine counts completed."""
import random
import vt

ALT = {'lbm': 'kg', 'ft': 'inch', 'rpm': 'rad/s', 'lbf': 'N', 'hp': 'kW', 'lbm/h': 'kg/s', 'ft/s': 'm/s', 'ft**2': 'm**2',
       'lbf*ft': 'N*m', 'lbm/ft**2': 'kg/m**2', 'lbm/lbf': 'kg/N', 'unitless': 'unitless', 'lbf*ft/lbm': 'N*m/kg'}
NONE = 777


def codec(var):
    """(encode int -> python value, decode) for a real variable."""
    from aviary.variable_info.enums import GASPEngineType
    from aviary.variable_info.variable_meta_data import _MetaData as meta
    types = meta[var]['types']
    types = types if isinstance(types, tuple) else (types,)
    if types == (bool,):
        return (lambda c: bool(c % 2)), (lambda v: int(v)), 2
    if types == (str,):
        return (lambda c: f's{c}'), (lambda v: NONE if v in (None, 'None') else int(v[1:]) if v[1:].isdigit() else 888), 90
    if types == (GASPEngineType,):
        members = sorted(GASPEngineType, key=lambda m: m.value)
        return (lambda c: members[c % len(members)]), (lambda v: members.index(v)), len(members)
    if types == (int,):
        return (lambda c: c), (lambda v: int(v) if float(v) == int(v) else -12345), 90
    return (lambda c: c / 8), dec_float, 800


def dec_float(v):
    """floats as multiples of 1/40000, exact for the values used"""
    x = float(v) * 40000
    return round(x) if abs(x - round(x)) <= 1e-6 * max(1, abs(x)) else -12345


def counts():
    from aviary.variable_info.variables import Aircraft
    return dict(num=Aircraft.Engine.NUM_ENGINES, fus=Aircraft.Engine.NUM_FUSELAGE_ENGINES, wng=Aircraft.Engine.NUM_WING_ENGINES)


def convert(v, frm, to):
    from openmdao.utils.units import convert_units
    import numpy as np
    return np.array(convert_units(np.array(v, dtype=float), frm, to)).tolist()


def container(rng, x):
    import numpy as np
    if len(x) == 1 and rng.random() < .5:
        return x[0]
    how = rng.randrange(3)
    if how == 0 and all(type(v) in (int, float) for v in x):
        return np.array(x)
    return list(x)


def run_world(c):
    """c: n, counts a/e, xs: list of (var, a codes, e codes), seed. Preprocess twice."""
    import copy
    from aviary.subsystems.propulsion.engine_model import EngineModel
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.preprocessors import preprocess_propulsion
    from aviary.variable_info.enums import Verbosity
    from aviary.variable_info.variables import Aircraft, Settings
    from aviary.variable_info.variable_meta_data import _MetaData as meta
    rng = random.Random(c['seed'])
    av = AviaryValues()
    opts = [AviaryValues() for _ in range(c['n'])]
    entries = []
    for k, name in counts().items():
        entries.append((None, name, c['a'][k]))
        entries += [(i, name, s) for i, s in enumerate(c['e'][k])]
    for x in c['xs']:
        enc = codec(x['k'])[0]
        entries.append((None, x['k'], [enc(v) for v in x['a']]))
        entries += [(i, x['k'], [enc(v) for v in s]) for i, s in enumerate(x['e'])]
    entries = [e for e in entries if e[2]]
    rng.shuffle(entries)
    for who, name, vals in entries:
        units = meta[name]['units']
        target = av if who is None else opts[who]
        given = units
        if units != 'unitless' and rng.random() < .4 and ALT.get(units):
            given = ALT[units]
            vals = convert(vals, units, given)
        target.set_val(name, container(rng, vals), given)
    av.set_val(Aircraft.Wing.SPAN, 100.0, 'ft')
    if rng.random() < .3:
        opts[-1].set_val(Aircraft.Wing.AREA, 7.0, 'ft**2')
    if rng.random() < .5:
        av.set_val(Settings.VERBOSITY, rng.choice([Verbosity.BRIEF, Verbosity.DEBUG]))
    engines = [EngineModel(f'eng{i}', options=o) for i, o in enumerate(opts)]
    before = [vt.canon([(k, str(v)) for k, v in e.options]) for e in engines]
    frame0 = {k: str(v) for k, v in av}
    verb = rng.choice([None, 0, 1, 2, 3, Verbosity.VERBOSE])
    if 'verb' in c:                       # P20 asks for a level
        verb = c['verb']
        if c['deck'] is not None:
            av.set_val(Settings.VERBOSITY, Verbosity(c['deck']))
            frame0 = {k: str(v) for k, v in av}
    known = set(counts().values()) | {x['k'] for x in c['xs']} | {
        Aircraft.Propulsion.TOTAL_NUM_ENGINES, Aircraft.Propulsion.TOTAL_NUM_FUSELAGE_ENGINES, Aircraft.Propulsion.TOTAL_NUM_WING_ENGINES}

    def snap():
        out = {}
        for k, name in counts().items():
            out[k] = [int(v) for v in av.get_val(name)]
        xs = []
        for x in c['xs']:
            _, dec, _ = codec(x['k'])
            units = meta[x['k']]['units']
            xs.append([dec(v) for v in av.get_val(x['k'], units)] if x['k'] in av else [])
        return out, xs
    preprocess_propulsion(av, engines, verbosity=verb)
    r, xr = snap()
    tot = dict(num=av.get_val(Aircraft.Propulsion.TOTAL_NUM_ENGINES), fus=av.get_val(Aircraft.Propulsion.TOTAL_NUM_FUSELAGE_ENGINES),
               wng=av.get_val(Aircraft.Propulsion.TOTAL_NUM_WING_ENGINES))
    frame = []
    for k, v in av:
        if k not in known and frame0.get(k) != str(v):
            frame.append(k)
    frame += [k for k in frame0 if k not in av]
    if [vt.canon([(k, str(v)) for k, v in e.options]) for e in engines] != before:
        frame.append('engine options')
    preprocess_propulsion(av, engines, verbosity=verb)
    r2, xr2 = snap()
    xs = []
    for x, p, q in zip(c['xs'], xr, xr2):
        enc, dec, _ = codec(x['k'])
        d = meta[x['k']]['default_value']
        cut = not isinstance(d, (list, tuple))
        d = [d] if cut else list(d)
        coded = lambda s: [dec(enc(v)) for v in s]
        xs.append(dict(k=x['k'], a=coded(x['a']), e=[coded(s) for s in x['e']], d=[dec(v) for v in d], multi=x['multi'], cut=cut, r=p, r2=q))
    return dict(a=c['a'], e=c['e'], r=r, r2=r2, t=tot, xs=xs, frame=frame)


def real_variables():
    """(one value per engine, several values per engine)"""
    from aviary.utils.preprocessors import _get_engine_variables
    from aviary.variable_info.variable_meta_data import _MetaData as meta
    import numpy as np
    one, several = [], []
    for v in _get_engine_variables():
        if not meta[v]['multivalue'] or v in counts().values():
            continue
        t = meta[v]['types']
        t = t if isinstance(t, tuple) else (t,)
        (several if set(t) & {list, tuple, np.ndarray} else one).append(v)
    return one, several


def crash(ck, c, got):
    ck.violation('crash', got['crash'].split(':')[0] + '|' + '+'.join(sorted(x['k'] for x in c['xs'])), c, None, got)


INVS = ['OnePerEngine', 'Placed', 'NoEngineLost', 'OwnFirst']


def run(ck):
    rng = random.Random(ck.seed)
    one, several = real_variables()
    ck.require(len(one) > 50 and len(several) == 2, 'engine variables')
    groups = [('one', 1), ('two', 2), ('vec', 1), ('vec', 2), ('three', 3)] + ([] if ck.quick else [('vec', 3)])
    for g, n in groups:
        r = ck.tlc('P07_Fleet', dict(Group=g, N=n, Wide=not ck.quick), invariants=INVS, properties=['Stable'], action_constraint='EmitCase', workers=4)
        cases = []
        for e in r.emitted:
            w = e['w']
            xs = []
            if g == 'vec':
                v = rng.choice([x for x in one if codec(x)[2] > 20])
                m = 'aircraft:engine:wing_locations'
                xs = [dict(k=v, a=w['a']['v'], e=w['e']['v'], multi=False), dict(k=m, a=w['a']['m'], e=w['e']['m'], multi=True)]
            cases.append(dict(n=n, a={k: w['a'][k] for k in ('num', 'fus', 'wng')}, e={k: w['e'][k] for k in ('num', 'fus', 'wng')},
                              xs=xs, seed=rng.random()))
        from aviary.variable_info.variable_meta_data import _MetaData as meta
        for e, c, got in zip(r.emitted, cases, ck.pmap(run_world, cases)):
            if 'crash' in got:
                crash(ck, c, got)
                continue
            want = {k: e['r'][k] for k in ('num', 'fus', 'wng')}
            if got['frame']:
                ck.violation('frame', '+'.join(got['frame']), c, None, got)
            if got['r'] != want:
                ck.violation('counts', 'replay', c, want, got)
            if got['t'] != e['t']:
                ck.violation('totals', 'replay', c, e['t'], got)
            if got['r2'] != got['r']:
                ck.violation('second', 'counts', c, want, got)
            for x, key, own in zip(got['xs'], ('v', 'm'), c['xs']):
                enc, dec, _ = codec(x['k'])
                dflt = {'v': 50, 'm': 60}[key]
                # the specification's default value stands for the metadata default
                exp = [x['d'][0] if s == dflt else dec(enc(s)) for s in e['r'][key]]
                if x['r'] != exp:
                    ck.violation('vector', x['k'], c, exp, got)
                if x['r2'] != x['r']:
                    ck.violation('second', ('multidim-again' if key == 'm' and e['rep'] else x['k']), c, exp, got)
        ck.count(len(cases))
        ck.notes.setdefault('worlds', {})[f'{g}{n}'] = len(cases)
        ck.require(len(cases) > 10, g)
    ck.sample(cases[-1])

    cases = [rand_world(rng, one, several) for _ in range(2500 if ck.quick else 40000)]
    traces = []
    for c, got in zip(cases, ck.pmap(run_world, cases)):
        if 'crash' in got:
            crash(ck, c, got)
        else:
            if got['frame']:
                ck.violation('frame', '+'.join(got['frame']), c, None, got)
            traces.append(got)
    used = {x['k'] for c in cases for x in c['xs']}
    ck.require(used >= set(one) | set(several), 'every engine variable used')
    ck.notes['variables'] = len(used)
    for b in ck.validate('P07_Trace', traces, dict(Group='one', N=1, Wide=False), chunk=5000):
        for j in b['bad']:
            ck.violation(j['c'], 'multidim-again' if j['rep'] else j['k'] or 'trace', b['trace'], b['want'], None)


def rand_world(rng, one, several):
    n = rng.choice([1, 1, 2, 2, 3])

    def source(val, multi=False):
        e = [([val()] if not multi else [val() for _ in range(rng.choice([1, 1, 2]))]) if rng.random() < .4 else [] for _ in range(n)]
        a = [val() for _ in range(rng.choice([1, 1, 2, 3, n]))] if rng.random() < .5 else []
        return a, e
    a, e = {}, {}
    for k in ('num', 'fus', 'wng'):
        a[k], e[k] = source(lambda: rng.choice([0, 0, 1, 2, 2, 3, 4, 6]))
        if rng.random() < .3:
            a[k], e[k] = [], [[] for _ in range(n)]
    xs = []
    for v in rng.sample(one, rng.randint(1, 4)) + ([rng.choice(several)] if rng.random() < .3 else []):
        hi = codec(v)[2]
        multi = v in several
        xa, xe = source(lambda: rng.randint(0, hi - 1), multi)
        xs.append(dict(k=v, a=xa, e=xe, multi=multi))
    return dict(n=n, a=a, e=e, xs=xs, seed=rng.random())
