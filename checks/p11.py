"""P11: order and joins of the phases of a mission."""
import random
import vt
import p12

KINDS = {'energy': ['energy'], 'two_dof': ['accel', 'flight', 'cruise', 'breguet'], 'solved': ['solved']}
# documented: names each phase joins; variable -> (kind, stem of its options); what it integrates over
LINKS = {'energy': ['altitude', 'distance', 'mach', 'mass', 'time'], 'solved': ['altitude', 'distance', 'angle_of_attack', 'mach', 'mass', 'time'],
         'accel': ['distance', 'velocity', 'mass', 'time'], 'flight': ['altitude', 'distance', 'mass', 'time'],
         'cruise': ['time', 'initial_distance', 'mach', 'altitude', 'mass'], 'breguet': ['initial_time', 'initial_distance', 'altitude', 'mach', 'mass']}
STATES = {'energy': ['mass', 'distance'], 'solved': ['mass'], 'accel': ['velocity', 'mass', 'distance'], 'flight': ['altitude', 'mass', 'distance'], 'cruise': ['mass'], 'breguet': []}
CONTROLS = {'energy': ['mach', 'altitude'], 'solved': ['mach', 'altitude', 'angle_of_attack']}
ALSO = {'cruise': ['altitude', 'distance', 'mach'], 'breguet': ['altitude', 'distance', 'mass'], 'solved': ['distance']}    # may be passed or constrained, without other settings
UNIT = {'energy': dict(mass='kg', distance='m', altitude='ft', mach='unitless'), 'solved': dict(mass='lbm', distance='m', altitude='ft', mach='unitless', angle_of_attack='deg'),
        'accel': dict(velocity='kn', mass='lbm', distance='NM'), 'flight': dict(altitude='ft', mass='lbm', distance='NM'), 'cruise': dict(mass='lbm'), 'breguet': {}}
OVER = {'solved': 'distance', 'breguet': 'mass'}
TUNIT = {'solved': 'ft'}
DIRECT = {('energy', 'mach'): False, ('energy', 'altitude'): False, ('solved', 'mach'): False, ('solved', 'altitude'): False, ('solved', 'angle_of_attack'): False,
          ('solved', 'distance'): False, ('solved', 'time'): False, ('accel', 'mass'): False, ('flight', 'mass'): False, ('cruise', 'mass'): False, ('cruise', 'altitude'): False, ('cruise', 'distance'): False,
          ('breguet', 'mass'): False}                                                   # documented defaults: all others are passed forward
REF = {('energy', 'mass'): 10000, ('energy', 'distance'): 1000000, ('energy', 'mach'): 0.5, ('solved', 'mass'): 10000, ('solved', 'distance'): 1000000, ('solved', 'mach'): 0.5,
       ('solved', 'angle_of_attack'): 15}


def some(v):
    return [] if v is None else [vt.rat(v, 1000, 1e-9)]


def phase_case(rng, kind, method, heavy):
    """user options of a phase and the same as a record of the specification"""
    u, opts = {}, {}

    def maybe(p):
        return rng.random() < p
    for v in STATES[kind] + CONTROLS.get(kind, []) + ALSO.get(kind, []):
        o = dict(opt='none', fin=None, ini=None, direct='none', ref=None, ref0=None, unit='')
        full = v in STATES[kind] + CONTROLS.get(kind, [])
        if full or (kind == 'solved' and v == 'distance'):
            o['unit'] = UNIT[kind][v]
            for k, n in (('fin', 'final'), ('ini', 'initial')):
                if maybe(heavy) and full:
                    o[k] = rng.choice([0, 3, 7])
                    u[f'{v}_{n}'] = (o[k], o['unit'])
            if not full or (kind == 'solved' and v == 'angle_of_attack'):
                if full and 'angle_of_attack_initial' not in u:
                    o['ini'] = 0          # its documented default
            o['ref'] = REF.get((kind, v), 1)
            if maybe(0.4):
                o['ref'] = rng.choice([2, 5])
                u[f'{v}_ref'] = (float(o['ref']), o['unit'])
            if maybe(0.3):
                o['ref0'] = 1
                u[f'{v}_ref0'] = (1.0, o['unit'])
            if v in CONTROLS.get(kind, []):
                o['opt'] = 'yes'
                if maybe(0.4):
                    o['opt'] = 'no'
                if o['opt'] == 'no' or maybe(0.2):
                    u[f'{v}_optimize'] = o['opt'] == 'yes'
        d = DIRECT.get((kind, v), True)
        if maybe(0.4):
            d = maybe(0.5)
            u[f'{v}_direct_link'] = d
        o['direct'] = 'yes' if d else 'no'
        opts[v] = o
    t = dict(opt='none', fin=None, ini=None, direct='none', ref=None, ref0=None, unit='')
    d = DIRECT.get((kind, 'time'), True)
    if maybe(0.3):
        d = maybe(0.5)
        u['time_initial_direct_link'] = d
    t['direct'] = 'yes' if d else 'no'
    dur = dict(t, direct='none')
    if kind != 'breguet':
        tu = TUNIT.get(kind, 's')
        t['unit'] = dur['unit'] = tu
        t['ref'] = dur['ref'] = 1
        if maybe(0.2):
            t['ini'] = rng.choice([0, 60])
            u['time_initial'] = (float(t['ini']), tu)
        if maybe(0.4):
            t['ref'] = rng.choice([20, 30])
            u['time_initial_ref'] = (float(t['ref']), tu)
        if maybe(0.3):
            dur['ref'] = 50
            u['time_duration_ref'] = (50.0, tu)
    opts['time'], opts['duration'] = t, dur
    target = lasts = None
    if kind != 'solved' or True:
        if maybe(0.3):
            target = rng.choice([50, 250])
            u['target_distance'] = (float(target), 'nmi')
    if kind == 'breguet' and maybe(0.5):
        lasts = rng.choice([30, 45])
        u['time_duration'] = (float(lasts), 'min')
    u.update({'flight': {'num_segments': 2, 'order': 3}, 'cruise': {'mach_cruise': 0.8, 'alt_cruise': (3e4, 'ft')}, 'solved': {'rotation': True}}.get(kind, {}))
    for k in ('ini', 'fin', 'ref', 'ref0'):
        for o in opts.values():
            o[k] = some(o[k])
    rec = dict(links=list(LINKS[kind]), opts=opts, over=OVER.get(kind, 'time'), moves=kind != 'breguet', target=some(target), lasts=some(lasts), bymass=kind == 'breguet')
    return dict(kind=kind, user=u, rec=rec)


def drive(c):
    import copy
    import openmdao.api as om
    import dymos as dm
    from aviary.core.aviary_group import AviaryGroup
    from aviary.mission.utils import separate_reserve_phases
    from aviary.subsystems.subsystem_builder import SubsystemBuilder
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.enums import EquationsOfMotion, PhaseType
    from aviary.variable_info.variables import Aircraft, Settings
    if c['method'] == 'energy':
        from aviary.mission.energy_state_problem_configurator import EnergyStateProblemConfigurator as Conf
        eom = EquationsOfMotion.ENERGY_STATE
    elif c['method'] == 'solved':
        from aviary.mission.solved_two_dof_problem_configurator import SolvedTwoDOFProblemConfigurator as Conf
        eom = EquationsOfMotion.SOLVED_2DOF
    else:
        from aviary.mission.two_dof_problem_configurator import TwoDOFProblemConfigurator as Conf
        eom = EquationsOfMotion.TWO_DEGREES_OF_FREEDOM

    class Quiet(Conf):
        def add_post_mission_systems(self, group):
            pass

    class Sub(SubsystemBuilder):
        def get_states(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return {x: {'rate_source': x + '_rate', 'units': 'kW*h'} for x in c['ext']} if 'breguet' not in c['kinds'] else {}

        def get_linked_variables(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return list(c['ext'])
    ptype = {'accel': PhaseType.ACCEL, 'flight': PhaseType.DEFAULT, 'cruise': PhaseType.SIMPLE_CRUISE, 'breguet': PhaseType.BREGUET_RANGE}
    g = AviaryGroup(verbosity=0)
    g.phase_info_modifier = None
    info = {}
    for name, ph in c['phases']:
        u = copy.deepcopy(ph['user'])
        if ph['kind'] in ptype:
            u['phase_type'] = ptype[ph['kind']]
        if ph['reserve'] is not None:
            u['reserve'] = ph['reserve']
        info[name] = {'user_options': u}
        if ph['kind'] == 'breguet':
            u.update(mach_cruise=0.8, alt_cruise=(3e4, 'ft'))
    g.mission_info = info
    g.pre_mission_info, g.post_mission_info = {'include_takeoff': c['takeoff']}, {}
    try:
        with vt.quiet():
            main, res = separate_reserve_phases(info)
    except ValueError:
        return dict(split=[], links=[], goals=[], first=[])
    except Exception as e:
        return dict(crash=f'{type(e).__name__}: {e}'[:300])
    try:
        with vt.quiet():
            g.main_phases, g.reserve_phases = main, res
            g.subsystems = [Sub('ext')] if c['ext'] else []
            g.configurator = Quiet()
            g.aviary_inputs = AviaryValues()
            g.aviary_inputs.set_val(Aircraft.Engine.NUM_ENGINES, [2])
            g.aviary_inputs.set_val(Settings.EQUATIONS_OF_MOTION, eom)
            g.phase_objects = []
            from aviary.variable_info.variable_meta_data import CoreMetaData
            g.meta_data = CoreMetaData
            comm = p12.Comm(2 if c['par'] else 1)
            g.traj = g.add_subsystem('traj', dm.Trajectory(parallel_phases=True))
            for i, name in enumerate(info):
                ph, b = g._get_phase(name, i, comm)
                g.traj.add_phase(name, ph)
            g.add_post_mission_systems(verbosity=0)
            g.link_phases(verbosity=0, comm=comm)
    except Exception as e:
        import traceback
        return dict(crash=f'{type(e).__name__}: {e} @ {traceback.extract_tb(e.__traceback__)[-1]}'[:400])
    names = list(info)
    links = [[] for _ in names[:-1]]
    stray = []
    for (a, b), pairs in g.traj._linkages.items():
        for (va, vb), o in pairs.items():
            o = o if not isinstance(o, list) else o[0]
            rec = dict(to=vb, **{'from': va}, passed=bool(o['connected']),
                       scale=dict(ref=p12.opt(o['ref']), ref0=p12.opt(o['ref0']), unit=o['units'] if isinstance(o['units'], str) else ''))
            if (o['loc_a'], o['loc_b']) != ('final', 'initial'):
                rec['to'] = f"{o['loc_a']}->{o['loc_b']}:{vb}"
            i = names.index(a)
            if names.index(b) == i + 1:
                links[i].append(rec)
            else:
                stray.append((a, b, va, vb))
    if stray:
        return dict(crash=f'joins of distant phases {stray}')
    goals = []
    cons = {**g._static_responses, **g._responses}
    conns = g._static_manual_connections

    def src(tgt):
        e = conns.get(tgt) if isinstance(conns, dict) else None
        return e
    for i, name in enumerate(names):
        for what in ('distance', 'duration'):
            key = f'{name}_{what}_constraint'
            comp = g.post_mission._static_subsystems_allprocs.get(key) or g.post_mission._subsystems_allprocs.get(key)
            full = f'{key}.{what}_resid'
            con = [v for v in cons.values() if v['name'] == full]
            if comp is None and not con:
                continue
            if comp is None or not con or con[0]['equals'] != 0.0:
                goals.append(dict(phase=i + 1, what=what + '-unbound', resid=[0, 1]))
                continue
            v = 'distance' if what == 'distance' else 'time'
            ends = [src(f'{key}.{e}_{v}') for e in ('initial', 'final')]
            ok = all(e is not None and e[0] == f'traj.{name}.timeseries.{v}' for e in ends)
            if ok:
                idx = [e[1].indexed_src_shape if False else str(e[1]) for e in ends]
                ok = '0' in idx[0] and '-1' in idx[1]
            p = om.Problem()
            p.model.add_subsystem('c', comp.system if hasattr(comp, 'system') else comp)
            with vt.quiet():
                p.setup()
                p.set_val(f'c.initial_{v}', 10.0)
                p.set_val(f'c.final_{v}', 30.0)
                p.run_model()
            goals.append(dict(phase=i + 1, what=what if ok else what + '-wrong-source', resid=vt.rat(float(p.get_val(f'c.{what}_resid')[0]), 1000, 1e-9)))
    first = []
    if c['method'] == 'energy' and len(names) > 1:
        s = g.traj._phases[names[0]].state_options
        first = [bool(s['distance']['input_initial']), bool(s['mass']['input_initial'])]
    return dict(split=[len(main), len(res)], links=links, goals=goals, first=first)


def run(ck):
    rng = random.Random(ck.seed)
    common = 'd_Names == {"v", "time"}\n'
    inv = ['EmitState', 'Gapless', 'OneJoinEach', 'ParallelAllConstraints', 'HeldTakesNothing']
    sets = '{[opt |-> o, fin |-> f, ini |-> i, direct |-> d, ref |-> r, ref0 |-> <<>>, unit |-> "u"] : o \\in {"none", "yes", "no"}, f \\in {<<>>, <<<<0, 1>>>>}, i \\in {<<>>, <<<<0, 1>>>>, <<<<5, 1>>>>}, d \\in {"none", "yes", "no"}, r \\in {<<>>, <<<<4, 1>>>>}}'
    r = ck.tlc('P11_Links', dict(MaxPhases=2), defs='d_Names == {"mass"}\nd_Shapes == {[links |-> {"mass"}, over |-> "time", moves |-> TRUE]}\nd_Settings == ' + sets + '\n', invariants=inv, properties=['Local'], workers='auto')
    pairs = [e for e in r.emitted]
    one = '{[opt |-> "none", fin |-> <<>>, ini |-> <<>>, direct |-> d, ref |-> <<<<4, 1>>>>, ref0 |-> <<>>, unit |-> "u"] : d \\in {"none", "no"}}'
    shapes = '{[links |-> {"time", "distance", "mass"}, over |-> "time", moves |-> TRUE], [links |-> {"time", "initial_distance", "mass"}, over |-> "time", moves |-> TRUE], [links |-> {"initial_time", "initial_distance", "mass"}, over |-> "mass", moves |-> FALSE]}'
    r = ck.tlc('P11_Links', dict(MaxPhases=3 if ck.quick else 4), defs='d_Names == {"mass", "distance", "time"}\nd_Shapes == ' + shapes + '\nd_Settings == ' + (one if ck.quick else one.replace('{"none", "no"}', '{"no"}')) + '\n', invariants=inv, properties=['Local'], workers='auto')
    ck.require(len(pairs) > 5000 and len(r.emitted) > 500, 'cases')
    cases = []

    def mission(method, kinds, par, reserve, heavy=0.35):
        phases = []
        for i, k in enumerate(kinds):
            ph = phase_case(rng, k, method, heavy)
            ph['reserve'] = reserve[i]
            if method == 'energy' and i == 0:
                pass
            phases.append((f'ph{i}' if rng.random() < 0.5 else f'{k}{len(kinds) - i}', ph))
        ext = rng.choice([[], ['battery', 'thermal'], ['battery']]) if 'breguet' not in kinds else []
        return dict(method=method, kinds=list(kinds), phases=phases, par=par, takeoff=rng.random() < 0.5, ext=ext)
    # every pair of settings of one state and one control, in a mission of two or three phases
    n = 500 if ck.quick else 6000
    for e in rng.sample(pairs, n):
        a, b = e['m'][0]['opts']['mass'], e['m'][1]['opts']['mass']
        control = 'no' in (a['opt'], b['opt']) or 'yes' in (a['opt'], b['opt'])
        if control and 'none' in (a['opt'], b['opt']):
            continue
        method = 'energy'
        v = rng.choice(['mach', 'altitude']) if control else rng.choice(['mass', 'distance'])
        c = mission(method, ['energy', 'energy'] + ['energy'] * rng.randint(0, 1), e['par'], [None, rng.random() < 0.1] + [True], 0.1)
        for (nm, ph), o in zip(c['phases'], (a, b)):
            u, rec = ph['user'], ph['rec']['opts'][v]
            for k in ('final', 'initial', 'direct_link', 'optimize', 'ref'):
                u.pop(f'{v}_{k}', None)
            rec.update(fin=o['fin'], ini=o['ini'], ref=some(REF.get(('energy', v), 1)))
            if o['fin']:
                u[f'{v}_final'] = (p12.num(o['fin']), rec['unit'])
            if o['ini']:
                u[f'{v}_initial'] = (p12.num(o['ini']), rec['unit'])
            if o['ref']:
                rec['ref'] = o['ref']
                u[f'{v}_ref'] = (p12.num(o['ref']), rec['unit'])
            rec['direct'] = 'yes' if DIRECT.get(('energy', v), True) else 'no'
            if o['direct'] != 'none':
                rec['direct'] = o['direct']
                u[f'{v}_direct_link'] = o['direct'] == 'yes'
            if control:
                rec['opt'] = o['opt']
                u[f'{v}_optimize'] = o['opt'] == 'yes'
        cases.append(c)
    m = 500 if ck.quick else 5000
    for _ in range(m):
        method = rng.choice(['energy', 'two_dof', 'two_dof', 'two_dof', 'solved'])
        k = rng.randint(1, 4)
        cut = rng.randint(1, k)
        reserve = [(None if rng.random() < 0.5 else False) if i < cut else True for i in range(k)]
        if rng.random() < 0.1:
            rng.shuffle(reserve)
        cases.append(mission(method, [rng.choice(KINDS[method]) for _ in range(k)], rng.random() < 0.25, reserve))
    obs = ck.pmap(drive, cases)
    traces = []
    for c, o in zip(cases, obs):
        ck.count()
        recs = []
        for nm, ph in c['phases']:
            rec = dict(ph['rec'], reserve=bool(ph['reserve']))
            rec['links'] = rec['links'] + c['ext']
            recs.append(rec)
        t = dict(m=recs, par=c['par'], split=[], links=[], goals=[], first=[])
        t['firstwant'] = [True, c['takeoff']] if c['method'] == 'energy' and len(recs) > 1 else []
        t.update(o)
        traces.append(t)
    ck.tally([(c['method'], len(c['phases'])) for c in cases], 'missions')
    ck.tally([(a, b) for c in cases for a, b in zip(c['kinds'], c['kinds'][1:])], 'pairs_of_phases')
    ck.tally([j['to'] + ('+' if j['passed'] else '=') for t in traces for b in t['links'] for j in b], 'joins')
    ck.sample(dict(phases=[p['user'] for _, p in cases[0]['phases']], links=obs[0].get('links')))
    for e in ck.validate('P11_Trace', traces, dict(MaxPhases=1), defs=common + 'd_Settings == {}\nd_Shapes == {}\n', chunk=1500):
        i = next(k for k, t in enumerate(traces) if t is e['trace'])
        c = cases[i]
        got = e['trace']
        detail = ''
        if got['links'] and e['want']['links']:
            for a, b, p, q in zip(got['links'], e['want']['links'], c['kinds'], c['kinds'][1:]):
                ga, gb = {(j['from'], j['to'], j['passed']) for j in a}, {(j['from'], j['to'], j['passed']) for j in b}
                if ga != gb:
                    detail = f'{p}->{q}:' + ','.join(sorted({x[1] for x in ga ^ gb}))
                    break
        ck.violation('+'.join(sorted(e['bad'])), f"{c['method']}:{detail}", dict(case=c, crash=got.get('crash')), e['want'], dict(links=got['links'], goals=got['goals'], split=got['split'], first=got['first']))
