"""P08: options, initial guesses and fuel capacities derived from other inputs."""
import math
import random
import warnings

import vt

NAMES = dict(wing_loading='aircraft:design:wing_loading', attachment='aircraft:strut:attachment_location', fold_coefficient='aircraft:wing:fold_mass_coefficient', folded_span='aircraft:wing:folded_span',
             part25='aircraft:design:part25_structural_category', htail='aircraft:horizontal_tail:volume_coefficient', vtail='aircraft:vertical_tail:volume_coefficient',
             loading_above_20='aircraft:wing:loading_above_20', has_strut='aircraft:wing:has_strut', strut_dim='aircraft:strut:dimensional_location_specified', has_fold='aircraft:wing:has_fold',
             fold_dim='aircraft:wing:fold_dimensional_location_specified', choose_fold='aircraft:wing:choose_fold_location', ulf='aircraft:design:ulf_calculated_from_maneuver',
             compute_htail='aircraft:design:compute_htail_volume_coeff', compute_vtail='aircraft:design:compute_vtail_volume_coeff')
FLAGS = ('loading_above_20', 'has_strut', 'strut_dim', 'has_fold', 'fold_dim', 'choose_fold', 'ulf', 'compute_htail', 'compute_vtail')
UNITS = dict(wing_loading=('lbf/ft**2', ['Pa', 'kPa', 'lbf/inch**2']), attachment=('ft', ['inch', 'm']), folded_span=('ft', ['inch', 'm']))
GUESS = dict(fb='fuel_burn_per_passenger_mile', reserves='reserves', cruise_mass='cruise_mass_final', rotation='rotation_mass', duration='flight_duration', climb_time='time_to_climb', climb_range='climb_range', takeoff='actual_takeoff_mass')
FUEL = dict(total='aircraft:fuel:max_capacity_mass', wing='aircraft:fuel:wing_fuel_mass_capacity', fuselage='aircraft:fuel:fuselage_fuel_mass_capacity', auxiliary='aircraft:fuel:auxiliary_fuel_mass_capacity')
PTYPES = dict(sizing='SIZING', min_fuel='OFF_DESIGN_MIN_FUEL', max_range='OFF_DESIGN_MAX_RANGE', other='MULTI_MISSION')


def names():
    """the names of today, by the hierarchy"""
    from aviary.variable_info.variables import Aircraft
    D, W, S, F = Aircraft.Design, Aircraft.Wing, Aircraft.Strut, Aircraft.Fuel
    NAMES.update(wing_loading=D.WING_LOADING, attachment=S.ATTACHMENT_LOCATION, fold_coefficient=W.FOLD_MASS_COEFFICIENT, folded_span=W.FOLDED_SPAN, part25=D.PART25_STRUCTURAL_CATEGORY,
                 htail=Aircraft.HorizontalTail.VOLUME_COEFFICIENT, vtail=Aircraft.VerticalTail.VOLUME_COEFFICIENT, loading_above_20=W.LOADING_ABOVE_20, has_strut=W.HAS_STRUT, strut_dim=S.DIMENSIONAL_LOCATION_SPECIFIED,
                 has_fold=W.HAS_FOLD, fold_dim=W.FOLD_DIMENSIONAL_LOCATION_SPECIFIED, choose_fold=W.CHOOSE_FOLD_LOCATION, ulf=D.ULF_CALCULATED_FROM_MANEUVER, compute_htail=D.COMPUTE_HTAIL_VOLUME_COEFF, compute_vtail=D.COMPUTE_VTAIL_VOLUME_COEFF)
    FUEL.update(total=F.MAX_CAPACITY_MASS, wing=F.WING_FUEL_MASS_CAPACITY, fuselage=F.FUSELAGE_FUEL_MASS_CAPACITY, auxiliary=F.AUXILIARY_FUEL_MASS_CAPACITY)


def listing(av):
    return sorted((n, repr(v), u) for n, (v, u) in av)


def options(v, rng):
    import openmdao.api as om
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.process_input_decks import update_GASP_options
    av = AviaryValues()
    items = [(n, x[0]) for n, x in v.items() if x]
    rng.shuffle(items)
    for n, x in items:
        if n in FLAGS:
            av.set_val(NAMES[n], x)
        elif n == 'part25':
            av.set_val(NAMES[n], x // 100)
        else:
            u, others = UNITS.get(n, ('unitless', []))
            edge = {'wing_loading': 2000, 'attachment': 100, 'folded_span': 100}.get(n)
            to = rng.choice([u] + others) if x not in (edge, 0) else u  # on the edge conversion may round to either side
            av.set_val(NAMES[n], om.convert_units(x / 100, u, to), to)
    av.set_val('settings:verbosity', 0)
    rest = {NAMES[n] for n in FLAGS} | {'settings:verbosity'}
    before = [x for x in listing(av) if x[0] not in rest]
    got = {}
    for k in ('first', 'second'):
        try:
            update_GASP_options(av)
        except Exception as e:
            return dict(err=f'{type(e).__name__}: {e}'[:150])
        got[k] = {n: [bool(av.get_val(NAMES[n]))] if NAMES[n] in av else [] for n in FLAGS}
    got['frame'] = before == [x for x in listing(av) if x[0] not in rest]
    return got


def guesses(v, rng):
    import numpy as np
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.process_input_decks import initialization_guessing
    from aviary.variable_info.enums import ProblemType
    from aviary.variable_info.variables import Aircraft, Mission, Settings
    import openmdao.api as om
    n_eng = rng.randint(1, 3)
    env = dict(pax=rng.choice([1, 4, 180]), range=rng.choice([500.0, 2500.0, 3500.0]), additional=rng.choice([0.0, 3000.0]), margin=rng.choice([0.0, 0.05, 0.1]), pax_mass=rng.choice([0.0, 200.0, 225.5]),
               altitude=rng.choice([10000.0, 35000.0]), dmach=rng.choice([0.5, 0.78]), cmach=rng.choice([0.4, 0.8]), oem=rng.choice([0.0, 90000.0, 1000.0]))
    thrust = [rng.choice([5000.0, 28000.0, 400000.0]) for _ in range(n_eng)]
    scale = [rng.choice([1.0, 0.9, 1.25]) for _ in range(n_eng)]
    count = [rng.randint(1, 4) for _ in range(n_eng)]
    env['thrust'] = sum(t * s * c for t, s, c in zip(thrust, scale, count))
    g = {}
    for k, name in GUESS.items():
        if k != 'takeoff':
            env[k] = g[name] = v[k] / 100
    g['actual_takeoff_mass'] = 0
    g['operating_empty_mass'] = env['oem']
    for k in ('gross', 'dgross'):
        env[k] = v[k][0] / 100 if v[k] else None
    D, CP = Aircraft.Design, Aircraft.CrewPayload
    sets = [(Settings.PROBLEM_TYPE, getattr(ProblemType, PTYPES[v['ptype']]), 'unitless'), (CP.Design.NUM_PASSENGERS, env['pax'], 'unitless'), (Mission.RESERVE_FUEL_MASS_ADDITIONAL, env['additional'], 'lbm'),
            (Mission.RESERVE_FUEL_MARGIN, env['margin'], 'unitless'), (D.RANGE, env['range'], 'NM'), (CP.MASS_PER_PASSENGER_WITH_BAGS, env['pax_mass'], 'lbm'), (D.CRUISE_ALTITUDE, env['altitude'], 'ft'),
            (D.CRUISE_MACH, env['cmach'], 'unitless'), (Settings.VERBOSITY, 0, 'unitless'), (Aircraft.Engine.REFERENCE_SLS_THRUST, np.array(thrust), 'lbf'), (Aircraft.Engine.SCALE_FACTOR, np.array(scale), 'unitless'),
            (Aircraft.Engine.NUM_ENGINES, np.array(count), 'unitless')]
    if v['design_mach']:
        sets.append((D.MACH, env['dmach'], 'unitless'))
    if v['gross']:
        sets.append((Mission.GROSS_MASS, env['gross'], 'lbm'))
    if v['dgross']:
        sets.append((D.GROSS_MASS, env['dgross'], 'lbm'))
    rng.shuffle(sets)
    av = AviaryValues()
    for k, x, u in sets:
        to = rng.choice({'lbm': ['lbm', 'kg'], 'NM': ['NM', 'km'], 'ft': ['ft', 'm'], 'lbf': ['lbf', 'N']}.get(u, [u]))
        av.set_val(k, om.convert_units(x, u, to) if to != u else x, to)
    before = listing(av)
    order = list(g.items())
    rng.shuffle(order)
    try:
        out = initialization_guessing(av, dict(order), [None] * n_eng)
    except Exception as e:
        return dict(err=type(e).__name__, env=env)
    out = out if isinstance(out, dict) else next(x for x in out if isinstance(x, dict))
    return dict(err='', env=env, got={k: float(np.ravel(out[n])[0]) for k, n in GUESS.items()}, oem=float(out['operating_empty_mass']) == env['oem'], frame=before == listing(av))


def ev(t, env):
    a = [ev(x, env) for x in t['a']]
    f = {'v': lambda: env[t['n']], 'c': lambda: float(t['n']), '+': lambda: a[0] + a[1], '*': lambda: a[0] * a[1], '/': lambda: a[0] / a[1], 'sin': lambda: math.sin(a[0]), 'cos': lambda: math.cos(a[0]),
         'asin': lambda: math.asin(a[0]), 'clip': lambda: max(-1.0, min(1.0, a[0]))}
    return f[t['op']]()


def fuel(v, rng):
    import openmdao.api as om
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.preprocessors import preprocess_fuel_capacities
    from aviary.variable_info.enums import LegacyCode
    from aviary.variable_info.variables import Settings
    av = AviaryValues()
    items = [(FUEL[n], v[n][0] / 100) for n in FUEL if v[n]]
    rng.shuffle(items)
    for n, x in items:
        av.set_val(n, x, 'lbm')
    if v['method'] != 'none':
        av.set_val(Settings.MASS_METHOD, LegacyCode(v['method']))
    got = {}
    for k in ('first', 'second'):
        try:
            preprocess_fuel_capacities(av, verbosity=0)
        except Exception as e:
            return dict(err=type(e).__name__)
        got[k] = {n: [round(float(av.get_val(FUEL[n], 'lbm')) * 100)] if FUEL[n] in av else [] for n in FUEL}
    return got


def one(c):
    names()
    with vt.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return globals()[c['part']](c['v'], random.Random(c['seed']))


def judge(ck, c, w, got):
    """compares what came out with what is to be derived"""
    part, v = c['part'], c['v']
    if 'crash' in got:
        raise vt.MachineryError(str(got)[:1500])
    show = dict(part=part, v={k: x for k, x in v.items() if x != []}, seed=c['seed'])
    if part == 'options':
        if 'err' in got:
            ck.violation('options', 'refused', show, {n: w[n] for n in FLAGS}, got['err'])
            return
        for k in ('first', 'second'):
            wrong = [n for n in FLAGS if w[n] != got[k][n]]
            if wrong:
                ck.violation('options' if k == 'first' else 'again', '+'.join(wrong), show, {n: w[n] for n in wrong}, {n: got[k][n] for n in wrong})
                break
        if not got['frame']:
            ck.violation('frame', 'options', show)
    elif part == 'guesses':
        if not w['ok'] or got['err']:
            if w['ok'] or not got['err']:
                ck.violation('guesses', 'refused' if w['ok'] else 'accepted', show, w['ok'], got['err'])
            return
        for k in sorted(GUESS):
            x = ev(w[k], got['env'])
            y = got['got'][k]
            if not (abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-12)):
                ck.violation('guesses', k, dict(show, env=got['env']), x, y)
        if not got['oem'] or not got['frame']:
            ck.violation('frame', 'guesses', show)
    else:
        if not w['ok'] or 'err' in got:
            if w['ok'] or 'err' not in got:
                ck.violation('fuel', 'refused' if w['ok'] else 'accepted', show, w['ok'], got)
            return
        for k in ('first', 'second'):
            wrong = [n for n in FUEL if w['v'][n] != got[k][n]]
            if wrong:
                ck.violation('fuel' if k == 'first' else 'again', '+'.join(wrong), show, {n: w['v'][n] for n in wrong}, {n: got[k][n] for n in wrong})
                break


def takeoff_given(_):
    """a takeoff mass given as a guess"""
    from aviary.utils.aviary_values import AviaryValues
    names()
    v = dict(fb=20, reserves=0, cruise_mass=0, rotation=0, duration=0, climb_time=0, climb_range=0, gross=[], dgross=[17500000], ptype='sizing', design_mach=False)
    from aviary.utils import process_input_decks as m
    seen = {}
    real = m.initialization_guessing

    def spy(av, g, e):
        g['actual_takeoff_mass'] = 150000.0
        return real(av, g, e)
    m.initialization_guessing = spy
    try:
        with vt.quiet():
            r = guesses(v, random.Random(1))
    finally:
        m.initialization_guessing = real
    return r['got']['takeoff']


NONE = []


def run(ck):
    rng = random.Random(ck.seed)
    names()
    quick = ck.quick
    B = [NONE, [True], [False]]
    none = {n: [NONE] for n in NAMES}
    inv = ['Twice', 'Kept', 'Consistent', 'FuelTwice', 'GuessKept']

    def menus():
        yield 'options', dict(none, attachment=[NONE, [0], [100], [250]], has_strut=B, strut_dim=B, fold_coefficient=[NONE, [0], [20]], has_fold=B, folded_span=[NONE, [100], [11800]], choose_fold=B, fold_dim=B)
        for a, vals, b in (('wing_loading', [[0], [1000], [2000], [2001], [12800]], 'loading_above_20'), ('part25', [[-100], [0], [300]], 'ulf'), ('htail', [[0], [100], [-100]], 'compute_htail'), ('vtail', [[0], [1], [100]], 'compute_vtail')):
            yield 'options', dict(none, **{a: [NONE] + vals, b: B})
        yield 'options', dict(none, attachment=[[-100], [1], [101]], folded_span=[[0], [1], [101], [-500]], fold_coefficient=[[-20], [NONE][0], [1]], has_strut=[NONE, [True]], has_fold=[NONE, [True]])
        g = dict(fb=[0], reserves=[0], cruise_mass=[0], rotation=[0], duration=[0], climb_time=[0], climb_range=[0], gross=[NONE], dgross=[[17500000]], ptype=['sizing'], design_mach=[True])
        yield 'guesses', dict(g, fb=[-100, 0, 20], reserves=[-100, 0, 5, 999, 1000, 500000], cruise_mass=[-300, 0, 85, 100, 101, 14000000], gross=[NONE, [-100], [0], [16000000]], dgross=[NONE, [0], [17500000]],
                              ptype=list(PTYPES), rotation=[0, 12000000])
        yield 'guesses', dict(g, rotation=[-100, 0, 1, 98, 100, 101, 14000000], gross=[NONE, [0], [16000000]], ptype=list(PTYPES))
        yield 'guesses', dict(g, duration=[-100, 0, 1, 250, 1500, 1501, 1800000], climb_time=[-100, 0, 1, 50, 200, 201, 2500, 20000, 20001, 90000], climb_range=[-100, 0, 1, 12000], design_mach=[True, False], gross=[NONE, [0], [16000000]], ptype=['sizing', 'min_fuel'])
        amounts = [NONE, [0], [100000], [300000]]
        yield 'fuel', dict(method=['none', 'GASP', 'FLOPS'], total=amounts + [[400000], [500000]], wing=amounts, fuselage=amounts, auxiliary=amounts)

    def tla(m):
        return 'd_Menu == [' + ', '.join(f'{n} |-> {{{", ".join(vt._tla(x) for x in xs)}}}' for n, xs in m.items()) + ']'
    cases = []
    for part, m in menus():
        r = ck.tlc('P08_Derived', {'Part': part}, defs=tla(m), invariants=inv, action_constraint='EmitCase', workers=4)
        ck.require(r.emitted, 'cases of ' + part)
        cases += [dict(part=part, v=e['v'], w=e['w'], seed=rng.random()) for e in r.emitted]
    ck.notes['generated'] = len(cases)
    outs = ck.pmap(one, cases)
    for c, got in zip(cases, outs):
        judge(ck, c, c['w'], got)
    ck.count(len(cases))
    ck.tally([c['part'] for c in cases], 'generated')
    ck.sample(dict(v=cases[-1]['v']))
    # everything at once, with any values
    rand = []
    p = lambda xs, q=0.5: [rng.choice(xs)] if rng.random() < q else []
    amt = lambda *e: rng.choice([0, rng.randint(-300, -1), rng.randint(1, 30000), rng.randint(1, 400), *e])
    for _ in range(3000 if quick else 40000):
        part = rng.choice(['options', 'guesses', 'guesses', 'fuel'])
        if part == 'options':
            v = {n: p([True, False], 0.4) for n in FLAGS}
            for n, e in (('wing_loading', 2000), ('attachment', 100), ('fold_coefficient', 0), ('folded_span', 100), ('htail', 0), ('vtail', 0)):
                v[n] = p([amt(e)])
            v['part25'] = p([-200, -100, 0, 100, 300])
        elif part == 'guesses':
            v = dict(fb=amt(), reserves=rng.choice([0, 0, amt(999, 1000, 1001), 800000]), cruise_mass=rng.choice([amt(100), rng.randint(1, 100), 12000000]), rotation=rng.choice([amt(100), rng.randint(1, 100), 15000000]),
                     duration=amt(1500, 1501, 200000), climb_time=amt(200, 20000, 201, 20001, 150000), climb_range=amt(), gross=p([-100, 0, 16500000, 9000000]), dgross=p([0, 17500000, 17500000], 0.9),
                     ptype=rng.choice(list(PTYPES)), design_mach=rng.random() < 0.5)
        else:
            a = lambda: p([0, 50000, 100000, 150000, 12345])
            v = dict(method=rng.choice(['GASP', 'FLOPS', 'FLOPS', 'FLOPS']), wing=a(), fuselage=a(), auxiliary=a(), total=[])
            s = sum(v[n][0] for n in ('wing', 'fuselage', 'auxiliary') if v[n])
            v['total'] = p([s, s + 50000, max(0, s - 50000), 100000], 0.8)
        rand.append(dict(part=part, v=v, seed=rng.random()))
    told = {}
    for i, c in enumerate(rand):
        c['k'] = i
    for b in ck.validate('P08_Trace', [dict(k=c['k'], part=c['part'], v=c['v']) for c in rand], {'Part': 'options'}, defs='d_Menu == [x |-> {<<>>}]', chunk=10000):
        told[b['trace']['k']] = b['want']
    rand = [c for c in rand if told[c['k']]['counts']]
    for c, got in zip(rand, ck.pmap(one, rand)):
        judge(ck, c, told[c['k']]['w'], got)
    ck.tally([c['part'] for c in rand], 'random')
    # a takeoff mass given as a guess
    v = dict(fb=20, reserves=0, cruise_mass=0, rotation=0, duration=0, climb_time=0, climb_range=0, gross=[], dgross=[17500000], ptype='sizing', design_mach=False)
    x = takeoff_given(None)
    if x != 150000.0:
        ck.violation('given', 'takeoff-mass-guess', dict(v=v, actual_takeoff_mass=150000), 150000, x)
