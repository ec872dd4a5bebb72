"""P13: the optimisation problem matches problem type and mission method (real models are set up and read back)."""
import importlib
import itertools
import os
import random
from copy import deepcopy
import vt

NONE = -999
BENCH = 'validation_cases/validation_data/test_models/aircraft_for_bench_'
DECK = dict(energy='FwFm.csv', two_dof='GwGm.csv', solved='solved2dof.csv')
CANON = {'aircraft:design:gross_mass': 'lbm', 'mission:gross_mass': 'lbm', 'mission:takeoff:ascent_t_initial': 's', 'mission:takeoff:ascent_duration': 's',
         'mission:constraints:range_residual': 'NM', 'mission:constraints:mass_residual': 'lbm', 'mission:constraints:excess_fuel_mass_capacity': 'lbm',
         'gross_mass_resid': 'lbm', 'h_fit.h_init_gear': 'ft', 'h_fit.h_init_flaps': 'ft', 'mission:objectives:fuel': 'unitless',
         'aircraft:wing:sweep': 'deg'}
# design variables subsystems may ask for: (lower, upper, ref, unit)
ASK = {'aircraft:wing:sweep': (10, 40, 20, 'deg'), 'aircraft:wing:aspect_ratio': (8, 14, 10, 'unitless'), 'aircraft:vertical_tail:taper_ratio': (0.05, 0.75, 0.5, 'unitless'),
       'Aircraft:SWEEP': (10, 40, 20, 'deg')}
CALLS = ['variables', 'objective', 'user', 'driver']


def th(x):
    """thousandths, None when there is none"""
    if x is None or abs(float(x)) > 1e20:
        return NONE
    return int(round(float(x) * 1000))


def builders(subs):
    from aviary.subsystems.subsystem_builder import SubsystemBuilder
    out = []
    for i, dv in enumerate(subs):
        class Sub(SubsystemBuilder):
            def get_design_vars(self, aviary_inputs=None, _dv=dv):
                return {d['n']: dict(lower=d['lo'] / 1000, upper=d['up'] / 1000, ref=d['ref'] / 1000, units=ASK[d['n']][3]) for d in _dv}
        out.append(Sub(name=f'sub_{i}'))
    return out


def mission(c):
    """mission definition: as shipped, small grids"""
    mod = dict(energy='energy_state_default', two_dof='two_dof_default', solved='solved2dof_default')[c['method']]
    pi = deepcopy(importlib.import_module('aviary.models.missions.' + mod).phase_info)
    if c['method'] == 'solved':
        aero = dict(method='low_speed', ground_altitude=0.0, angles_of_attack=[-5.0, 0.0, 5.0, 10.0, 15.0], lift_coefficients=[0.01, 0.5, 1.0, 1.5, 1.9],
                    drag_coefficients=[0.04, 0.06, 0.07, 0.1, 0.2], lift_coefficient_factor=1.0, drag_coefficient_factor=1.0)
        for k in [k for k in pi if k not in ('pre_mission', 'AB', 'rotate', 'BC')]:
            del pi[k]
        for k in ('AB', 'rotate', 'BC'):
            pi[k]['subsystem_options'] = {'aerodynamics': aero}
        pi['pre_mission']['optimize_mass'] = c['massopt']
    if c['method'] == 'energy':
        pi['pre_mission']['include_takeoff'] = c['takeoff']
        first = pi['climb']['user_options']
        first['mach_optimize'], first['altitude_optimize'] = c['mopt'], c['aopt']
        if c['takeoff']:
            pi['climb']['user_options'].pop('mach_initial') if c['mopt'] else None
            pi['climb']['user_options'].pop('altitude_initial') if c['aopt'] else None
    post = dict(pi.get('post_mission', {}))
    post.setdefault('include_landing', False)
    post['include_landing'] = False if c['method'] != 'two_dof' else post['include_landing']
    post.pop('target_range', None)
    if c['target']:
        v, u = c['range_given']
        post['target_range'] = (v, u)
    pi['post_mission'] = post
    for k in pi:
        if k.endswith('mission'):
            continue
        o = pi[k]['user_options']
        if 'num_segments' in o:
            o['num_segments'], o['order'] = 1 if c['method'] != 'solved' else 2, 3
    if c['reserve'] and c['method'] == 'energy':
        r = deepcopy(pi['cruise'])
        r['user_options'].update(reserve=True, target_distance=(50, 'nmi'))
        r['user_options']['time_initial_bounds'] = ((100.0, 900.0), 'min')
        pi['reserve_cruise'] = r
    if c['method'] == 'energy':
        w = 174000.0
        for k in pi:
            if not k.endswith('mission'):
                pi[k].setdefault('initial_guesses', {})['mass'] = ([w, w - c['burn']], 'lbm')
                w -= c['burn']
    return pi


def inputs(c):
    """the deck with the settings of the case"""
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.variables import Aircraft, Settings, Mission
    from aviary.variable_info.enums import ProblemType
    av, _ = create_vehicle(BENCH + DECK[c['method']], verbosity=0)
    T = dict(sizing=ProblemType.SIZING, min_fuel=ProblemType.OFF_DESIGN_MIN_FUEL, max_range=ProblemType.OFF_DESIGN_MAX_RANGE)
    if c['ptype'] in T:
        av.set_val(Settings.PROBLEM_TYPE, T[c['ptype']])
    elif c['ptype'] == 'unknown':
        av.set_val(Settings.PROBLEM_TYPE, 'fallout')
    if c['untyped']:                 # the documented default
        av.delete(Settings.PROBLEM_TYPE)
    av.set_val(Aircraft.Design.GROSS_MASS, c['mtow'] / 1000, 'lbm')
    av.set_val(Settings.VERBOSITY, 0)
    av.set_val(Aircraft.Fuel.IGNORE_FUEL_CAPACITY_CONSTRAINT, c['ignorecap'])
    av.set_val(Mission.RESERVE_FUEL_MARGIN, float(c['margin']), 'unitless')
    av.set_val(Mission.RESERVE_FUEL_MASS_ADDITIONAL, float(c['additional']), 'lbm')
    return av


def read(p, prefix=''):
    from openmdao.utils.units import convert_units

    def canon(n, v, u):
        if v is None or abs(float(v)) > 1e20:
            return NONE
        if u and n in CANON and u != CANON[n]:
            v = convert_units(float(v), u, CANON[n])
        return th(v)

    import numpy as np

    def one(x):
        return None if x is None else float(np.ravel(x)[0])
    dvs, cons, objs = [], [], []
    units = {m['prom_name']: m['units'] for m in p.model.get_io_metadata(iotypes='output').values()}
    for n, d in p.model.get_design_vars().items():
        if 'traj.' in n or not n.startswith(prefix):
            continue
        n, u = n[len(prefix):], d['units']
        dvs.append(dict(n=n, lo=canon(n, one(d['lower']), u), up=canon(n, one(d['upper']), u), ref=canon(n, one(d['ref']) if d['ref'] is not None else 1, u)))
        if d['ref0'] not in (None, 0):
            dvs[-1]['ref'] = -1
    for n, d in p.model.get_constraints().items():
        if 'traj.' in n or not n.startswith(prefix) or 'distance_constraint' in n or 'duration_constraint' in n:
            continue
        u = d['units'] or units.get(n)
        n = n[len(prefix):]
        lo, up, eq = one(d['lower']), one(d['upper']), one(d['equals'])
        kind, v = ('eq', eq) if eq is not None else ('lo', lo) if up is None or up > 1e20 else ('up', up)
        if kind == 'up' and lo is not None and lo > -1e20:
            kind = 'both'
        cons.append(dict(n=n, kind=kind, v=canon(n, v, u), ref=canon(n, one(d['ref']) if d['ref'] is not None else 1, u)))
    for n, d in p.model.get_objectives().items():
        last = d['indices'] is not None and int(np.ravel(d['indices']())[0] if callable(d['indices']) else np.ravel(d['indices'].as_array())[0]) in (-1,)
        if n.startswith('traj.') and not last:
            ix = d['indices']
            size = int(np.prod(p.model.get_val(n).shape))
            last = ix is not None and int(np.ravel(ix.as_array())[0]) in (-1, size - 1)
        objs.append(dict(n=n if last or not n.startswith('traj.') else n + '[not the last]', ref=th(one(d['ref']) if d['ref'] is not None else 1)))
        if d['adder'] not in (None, 0) or d['ref0'] not in (None, 0):
            objs[-1]['ref'] = -1
    return dict(dvs=dvs, cons=cons, objs=objs)


def relations(p, c):
    """documented relations between values of the model after it ran"""
    import numpy as np

    def g(n, u, k=1):
        return int(round(float(np.ravel(p.get_val(n, units=u))[0]) * k))

    def last(n, u, k=1, i=-1):
        return int(round(float(np.ravel(p.get_val(n, units=u))[i]) * k))
    rel = []

    def add(n, lhs, terms, tol=3):
        rel.append(dict(n=n, lhs=lhs, terms=[dict(k=k, v=v) for k, v in terms], tol=tol))
    L, R, A = 'lbm', 'NM', 's'
    gross, zfm, fuel, burn = g('mission:gross_mass', L, 100), g('mission:zero_fuel_mass', L, 100), g('mission:total_fuel_mass', L, 100), g('mission:fuel_mass', L, 100)
    add('total-fuel', fuel, [(1, gross), (-1, zfm)])
    fin = last(f"traj.{c['last']}.timeseries.mass", L, 100)
    add('fuel-burned', burn, [(1, gross), (-1, fin)])
    res = g('mission:total_reserve_fuel_mass', L, 100)
    part = g('mission:reserve_fuel_mass', L, 100)
    add('reserve-sum', res * 100, [(c['margin'], gross - fin), (10000 * c['additional'], 1), (100, part)], 400)
    if c['reserve'] and c['method'] == 'energy':
        a, b = last('traj.reserve_cruise.timeseries.mass', L, 100, 0), last('traj.reserve_cruise.timeseries.mass', L, 100)
        add('reserve-burned', part, [(1, a), (-1, b)])
    else:
        add('reserve-burned', part, [])
    add('mass-residual', g('mission:constraints:mass_residual', L, 100), [(1, fuel), (-1, burn), (-1, res)], 4)
    add('excess-capacity', g('mission:constraints:excess_fuel_mass_capacity', L, 100), [(1, g('aircraft:fuel:max_capacity_mass', L, 100)), (-1, g('aircraft:fuel:unusable_fuel_mass', L, 100)), (-1, fuel)], 4)
    add('block-fuel', g('mission:block_fuel_mass', L, 100), [(1, burn), (1, g('mission:taxi:fuel_mass_taxi_in', L, 100))], 4)
    if c['method'] != 'solved':
        add('range-residual', g('mission:constraints:range_residual', R, 1000), [(1, c['target_nm'] if c['target'] else int(round(float(p.aviary_inputs.get_val('aircraft:design:range', R)) * 1000))), (-1, g('mission:range', R, 1000))])
    asc = g('mission:takeoff:ascent_duration', A, 1000)
    add('fuel-objective', 3 * g('mission:objectives:fuel', 'unitless', 1000000), [(3, fuel), (100, asc)], 60)
    add('range-objective', 3 * g('mission:objectives:range', 'unitless', 1000000), [(-3, g('mission:range', R, 1000)), (100, asc)], 60)
    if c['ptype'] == 'sizing' and c['method'] != 'solved':
        des = g('aircraft:design:gross_mass', L, 100)
        v = float(np.ravel(p.get_val('gtow_constraint.GTOW'))[0])
        add('gross-mass-tie', int(round(v * gross)), [(1, des), (-1, gross)], 3)
    if c['obj'] == 'hybrid_objective' and not c['reserve']:
        m, t = last(f"traj.{c['last']}.timeseries.mass", L, 10), last(f"traj.{c['last']}.timeseries.time", 's')
        add('hybrid-objective', last('obj_comp.obj', None, 1000000) // 1000 * (c['mtow'] // 100000), [(1, m), (c['mtow'] // 100000, t * 1000 // 18000)], 3 * (c['mtow'] // 100000))
    # where the parts of the model take their values from
    last_ = lambda n, u, k: last(n, u, k)
    for out, src, u, k in (('mission:final_mass', 'mass', L, 100), ('mission:final_time', 'time', 'min', 1000), ('mission:range', 'distance', R, 1000)):
        try:
            have = g(out, u, k)
        except KeyError:
            continue
        add(out, have, [(1, last_(f"traj.{c['last']}.timeseries.{src}", u, k))], 3)
    return rel


def drive(c):
    os.environ['OPENMDAO_REPORTS'] = '0'
    os.environ['OPENMDAO_USE_MPI'] = '0'
    os.environ['OPENMDAO_WORKDIR'] = c.get('scratch', '/tmp')
    if c.get('scratch'):
        os.chdir(c['scratch'])
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.variable_info.enums import ProblemType
    import numpy as np
    try:
        with vt.quiet():
            frame = []
            if c['ptype'] == 'multi':
                p = AviaryProblem(problem_type=ProblemType.MULTI_MISSION, verbosity=0)
                for n in ('a', 'b'):
                    p.add_aviary_group(n, aircraft=inputs(c), phase_info=mission(c))
            else:
                p = AviaryProblem(verbosity=0)
                p.load_inputs(inputs(c), mission(c))
            if c['subs']:
                p.load_external_subsystems(builders(c['subs']))
            p.check_and_preprocess_inputs()
            p.build_model()
            if c['ptype'] == 'multi' and 'sweep' in c:
                p.promote_inputs(['a', 'b'], [('aircraft:wing:sweep', 'Aircraft:SWEEP')])
                p.add_design_var_default('Aircraft:SWEEP', lower=10.0, upper=40.0, units='deg', ref=20.0, default_val=c['sweep'])
            for call in c['calls']:
                if call == 'variables':
                    p.add_design_variables()
                elif call == 'driver':
                    p.add_driver('SLSQP', use_coloring=False, max_iter=c['iters'])
                elif call == 'user':
                    for d in c['user']:
                        p.add_design_var_default(d['n'], lower=d['lo'] / 1000, upper=d['up'] / 1000, units=ASK[d['n']][3], ref=d['ref'] / 1000, default_val=c['default'])
                elif c['ptype'] == 'multi':
                    if c['obj']:
                        p.add_objective(c['obj'])
                    p.add_composite_objective(('a', 'mission:fuel_mass'), ('b', 'mission:fuel_mass'), ref=1.0)
                else:
                    kw = {} if c['ref'] == NONE else dict(ref=c['ref'] / 1000)
                    p.add_objective(c['obj'] or None, **kw)
            if 'driver' not in c['calls']:
                p.add_driver('SLSQP', use_coloring=False, max_iter=0)
    except vt.MachineryError:
        raise
    except Exception as e:
        return dict(refused=True, err=f'{type(e).__name__}: {str(e)[:160]}')
    with vt.quiet():
        p.setup()
        p.final_setup()
        if c['ptype'] == 'multi':
            got = [read(p, n + '.') for n in ('a', 'b')]
            res = dict(refused=False, groups=got)
            shared = [d for d in read(p)['dvs'] if not d['n'].startswith(('a.', 'b.'))]
            res['shared'] = shared
            if 'sweep' in c:
                res['shared_values'] = [th(np.ravel(p.get_val(n, units='deg'))[0]) for n in ('Aircraft:SWEEP', 'a.aircraft:wing:sweep', 'b.aircraft:wing:sweep')]
        else:
            res = dict(refused=False, **read(p), rel=[])
            if c['user'] and 'user' in c['calls']:
                for d in c['user']:
                    res['default'] = th(np.ravel(p.get_val(d['n'], units=ASK[d['n']][3]))[0])
            if c['run']:
                p.set_val('aircraft:design:gross_mass', c['design'], units='lbm')
                p.set_val('mission:gross_mass', c['actual'], units='lbm')
                p.run_model()
                res['rel'] += relations(p, c)
        drv = p.driver
        if 'driver' in c['calls'] and int(drv.options['maxiter']) != c['iters']:
            res['driver'] = int(drv.options['maxiter'])
    return res


def multi_refused(_):
    """a mission group may only be added to a problem of several missions"""
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.variable_info.enums import ProblemType
    out = []
    for t in (None, ProblemType.SIZING):
        with vt.quiet():
            p = AviaryProblem(problem_type=t, verbosity=0) if t else AviaryProblem(verbosity=0)
            c = base('energy', 'sizing')
            try:
                p.add_aviary_group('a', aircraft=inputs(c), phase_info=mission(c))
                out.append(str(t))
            except Exception:
                pass
    return out


def base(method, ptype, **kw):
    c = dict(method=method, ptype=ptype, obj='', ref=NONE, target=False, takeoff=False, mopt=False, aopt=False, subs=[], massopt=False, ignorecap=False, mtow=175000000,
             last=dict(energy='descent', two_dof='desc2', solved='BC')[method], first=dict(energy='climb', two_dof='groundroll', solved='AB')[method])
    c.update(kw)
    extra = dict(reserve=False, user=[], margin=0, additional=0, range_given=(1500.0, 'nmi'), target_nm=1500000, calls=['variables', 'objective'], run=False, design=170000., actual=168000.,
                 default=5.0, iters=3, burn=1500.0, untyped=False)
    return {**extra, **c}


CONF = ['method', 'ptype', 'obj', 'ref', 'target', 'takeoff', 'mopt', 'aopt', 'subs', 'massopt', 'ignorecap', 'mtow', 'last', 'first']


def conf(c):
    return {k: c[k] for k in CONF}


def dv(n):
    lo, up, ref, _ = ASK[n]
    return dict(n=n, lo=th(lo), up=th(up), ref=th(ref))


def run(ck):
    rng = random.Random(ck.seed)
    objs = ['', 'mass', 'time', 'hybrid_objective', 'fuel_burned', 'fuel', 'fuel_range']
    B = [False, True]
    subsets = [[], [[dv('aircraft:wing:sweep')]], [[dv('aircraft:wing:sweep')], [dv('aircraft:wing:aspect_ratio')]]]
    tl = vt._tla

    def recs(**axes):
        parts = [f'{k} : {v}' for k, v in axes.items()]
        return '[' + ', '.join(parts) + ']'
    common = dict(obj=tl(set(objs)), ref='{None, 2500}', target='BOOLEAN', ignorecap='BOOLEAN', mtow='{175000000}', subs='{' + ', '.join(tl(s) for s in subsets) + '}')
    sets = [recs(method='{"energy"}', ptype='{"sizing", "min_fuel", "max_range", "multi", "unknown"}', takeoff='BOOLEAN', mopt='BOOLEAN', aopt='BOOLEAN', massopt='{FALSE}', last='{"descent"}', first='{"climb"}', **common),
            recs(method='{"two_dof"}', ptype='{"sizing", "min_fuel", "max_range", "multi", "unknown"}', takeoff='{FALSE}', mopt='{FALSE}', aopt='{FALSE}', massopt='{FALSE}', last='{"desc2"}', first='{"groundroll"}', **common),
            recs(method='{"solved"}', ptype='{"sizing", "min_fuel", "max_range"}', takeoff='{FALSE}', mopt='{FALSE}', aopt='{FALSE}', massopt='BOOLEAN', last='{"BC"}', first='{"AB"}', **common)]
    user = dv('aircraft:vertical_tail:taper_ratio')
    emitted = []
    for s in sets:
        r = ck.tlc('P13_Formulation', defs=f'd_Configs == {s}\nd_UserVars == {{{tl(user)}}}', invariants=['OneEach', 'NotResized', 'Tied', 'RangeClosed', 'FuelClosed', 'SubsKept', 'EmitState'],
                   properties=['OrderFree'], workers=6)
        emitted += r.emitted
    ck.notes['formulations in the specification'] = len(emitted)
    # a sample that covers every pair of (method, type, objective) and the switches
    rng.shuffle(emitted)
    pick, seen = [], set()
    quota = dict(energy=64, two_dof=26, solved=14) if ck.quick else dict(energy=420, two_dof=120, solved=70)
    n = dict(energy=0, two_dof=0, solved=0)

    def keys(e):
        c = e['conf']
        ks = [('m', c['method'], c['ptype'], c['obj']), ('r', c['obj'], c['ref'] == NONE), ('t', c['method'], c['ptype'], c['target']), ('k', c['takeoff'], c['mopt'], c['aopt']), ('s', c['method'], len(c['subs'])),
              ('o', tuple(e['calls'])), ('i', c['method'], c['ignorecap']), ('a', c['method'], c['massopt'])]
        return ks
    for rnd in (0, 1):
        for e in emitted:
            c = e['conf']
            if n[c['method']] >= quota[c['method']]:
                continue
            if c['ptype'] == 'unknown' and (c['obj'] or rnd):        # an objective of one's own needs no problem type
                continue
            if c['ptype'] == 'multi' and rnd and rng.random() < .8:
                continue
            ks = [k for k in keys(e) if k not in seen]
            if rnd == 0 and not ks:
                continue
            seen.update(ks)
            n[c['method']] += 1
            pick.append(e)
    cases = []
    scratch = os.path.join(vt.scratch() if hasattr(vt, 'scratch') else '/tmp')
    import tempfile
    scratch = tempfile.mkdtemp(prefix='p13_')
    for e in pick:
        c = base(**{k: e['conf'][k] for k in CONF if k in ('method', 'ptype')}, **{k: e['conf'][k] for k in CONF if k not in ('method', 'ptype')})
        calls = list(e['calls']) or rng.sample(['variables', 'objective'], 2)
        if c['ptype'] == 'multi':
            calls.append('objective')
        if rng.random() < .5:
            calls.insert(rng.randint(0, len(calls)), 'driver')
        c['calls'] = calls
        c['user'] = [user] if 'user' in calls else []
        c['default'] = rng.choice([0.1, 0.2])
        c['mtow'] = rng.choice([150000000, 175000000, 181000000])
        c['reserve'] = c['method'] == 'energy' and rng.random() < .3 and c['obj'] != 'hybrid_objective'
        c['margin'], c['additional'] = rng.choice([0, 0, 5]), rng.choice([0, 1200])
        v, u, nm = rng.choice([(1500.0, 'nmi', 1500000), (2000.0, 'NM', 2000000), (2778.0, 'km', 1500000), (9114000.0, 'ft', 1499971)])
        c['range_given'], c['target_nm'] = (v, u), nm
        c['design'], c['actual'] = rng.choice([(170000., 168000.), (165000., 172000.)])
        c['run'] = c['method'] == 'energy' and not e['refused'] and c['ptype'] != 'multi' and not (c['takeoff'] and (c['mopt'] or c['aopt']))
        c['iters'] = rng.choice([0, 2, 7])
        c['burn'] = rng.choice([900.0, 2500.0])
        if c['ptype'] == 'multi' and not e['refused'] and rng.random() < .6:
            c['subs'] = []
            c['sweep'] = rng.choice([21.0, 27.5])
        c['untyped'] = c['ptype'] == 'sizing' and rng.random() < .3
        c['scratch'] = scratch
        if not e['refused'] or c['ptype'] in ('multi', 'unknown') or c['obj'] == 'fuel_range':
            cases.append(c)
    two = [c for c in cases if c['method'] == 'two_dof' and c['ptype'] not in ('multi', 'unknown') and c['obj'] != 'fuel_range']
    for c in two[:4 if ck.quick else 30]:
        c['run'] = True
    cases.sort(key=lambda c: -(c['run'] + 2 * (c['method'] == 'two_dof') + 2 * (c['ptype'] == 'multi')))
    traces, who = [], []
    empty = dict(dvs=[], cons=[], objs=[], rel=[])
    for c, got in zip(cases, ck.pmap(drive, cases)):
        if 'crash' in got:
            ck.violation('crash', f"{c['method']} {c['ptype']}", c, None, got)
            continue
        if got.get('driver') is not None:
            ck.violation('driver', 'iterations', c, c['iters'], got['driver'])
        t = dict(k=len(traces), conf=conf(c), user=[dict(d) for d in c['user']])
        if got.get('default') is not None and got['default'] != th(c['default']):
            ck.violation('default-value', 'variable of the aircraft', c, th(c['default']), got['default'])
        if 'groups' in got:
            want = ([dict(n='Aircraft:SWEEP', lo=10000, up=40000, ref=20000)], [th(c['sweep'])] * 3) if 'sweep' in c else ([], None)
            if (got['shared'], got.get('shared_values')) != want:
                ck.violation('shared-variable', 'missions', c, want, [got['shared'], got.get('shared_values')])
            for g in got['groups']:
                traces.append({**t, 'k': len(traces), 'refused': False, **g, 'rel': []})
                who.append((c, got))
        else:
            traces.append({**t, 'refused': got['refused'], **(empty if got['refused'] else {k: got[k] for k in empty})})
            who.append((c, got))
    for b in ck.validate('P13_Trace', traces, defs=f'd_Configs == {{}}\nd_UserVars == {{}}', chunk=40):
        c, got = who[b['trace']['k']]
        ck.violation(b['bad'][0], f"{c.get('method', '')} {c.get('ptype', '')} {c.get('obj', '')}", {k: v for k, v in c.items() if k != 'scratch'}, b['want'],
                     got.get('err') if got and got.get('refused') else {k: b['trace'][k] for k in ('dvs', 'cons', 'objs', 'rel')})
    for t in multi_refused(None):
        ck.violation('refusal', 'mission-group', dict(problem_type=t, call='add_aviary_group'), 'refused', 'accepted')
    ck.count(len(cases))
    ck.tally([f"{c['method']} {c['ptype']}" + (' run' if c['run'] else '') for c in cases], 'problems')
    ck.tally([c['obj'] or '(by type)' for c in cases], 'objectives')
    ck.sample({k: cases[0][k] for k in ('method', 'ptype', 'obj', 'calls')})
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
