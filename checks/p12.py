"""P12: what the options of a phase turn into."""
import random
import vt
from vt import _tla

UNITS = {'energy': {'mass': 'kg', 'distance': 'm', 'altitude': 'ft', 'mach': 'unitless', 'throttle': 'unitless'},
         'solved': {'mass': 'lbm', 'altitude': 'ft', 'mach': 'unitless', 'angle_of_attack': 'deg'},
         'accel': {'velocity': 'kn', 'mass': 'lbm', 'distance': 'NM'},
         'flight': {'altitude': 'ft', 'mass': 'lbm', 'distance': 'NM'},
         'cruise': {'mass': 'lbm'},
         'roll': {'mass': 'lbm', 'distance': 'ft', 'velocity': 'kn'},
         'rotation': {'mass': 'lbm', 'distance': 'ft', 'velocity': 'kn', 'angle_of_attack': 'rad'},
         'ascent': {'mass': 'lbm', 'distance': 'ft', 'velocity': 'kn', 'flight_path_angle': 'rad', 'altitude': 'ft', 'angle_of_attack': 'rad'}}
STATES = {'energy': ['mass', 'distance'], 'solved': ['mass'], 'accel': ['velocity', 'mass', 'distance'], 'flight': ['altitude', 'mass', 'distance'], 'cruise': ['mass'],
          'roll': ['velocity', 'mass', 'distance'], 'rotation': ['velocity', 'mass', 'distance', 'angle_of_attack'],
          'ascent': ['velocity', 'mass', 'distance', 'flight_path_angle', 'altitude']}
CONTROLS = {'energy': ['mach', 'altitude'], 'solved': ['mach', 'altitude', 'angle_of_attack'], 'ascent': ['angle_of_attack']}
METHOD = {'energy': 'energy', 'solved': 'solved'}
TIMEUNIT = {'solved': ('ft', 'm', 0.3048)}


def name_of(q):
    from aviary.variable_info.variables import Dynamic
    return {'mass': Dynamic.Vehicle.MASS, 'distance': Dynamic.Mission.DISTANCE, 'altitude': Dynamic.Mission.ALTITUDE, 'mach': Dynamic.Atmosphere.MACH,
            'throttle': Dynamic.Vehicle.Propulsion.THROTTLE, 'velocity': Dynamic.Mission.VELOCITY, 'angle_of_attack': Dynamic.Vehicle.ANGLE_OF_ATTACK,
            'flight_path_angle': Dynamic.Mission.FLIGHT_PATH_ANGLE, 'rate': Dynamic.Mission.ALTITUDE_RATE, 'ratemax': Dynamic.Mission.ALTITUDE_RATE_MAX}[q]


def builder(cls):
    """configurator and the options that select the phase"""
    from aviary.variable_info.enums import PhaseType
    if cls == 'energy':
        from aviary.mission.energy_state_problem_configurator import EnergyStateProblemConfigurator
        return EnergyStateProblemConfigurator, {}
    if cls == 'solved':
        from aviary.mission.solved_two_dof_problem_configurator import SolvedTwoDOFProblemConfigurator
        return SolvedTwoDOFProblemConfigurator, {'rotation': True}
    from aviary.mission.two_dof_problem_configurator import TwoDOFProblemConfigurator
    more = {'accel': {'phase_type': PhaseType.ACCEL}, 'flight': {'phase_type': PhaseType.DEFAULT, 'num_segments': 2, 'order': 3}, 'cruise': {'phase_type': PhaseType.SIMPLE_CRUISE, 'mach_cruise': 0.8, 'alt_cruise': (3e4, 'ft')},
            'roll': {'phase_type': PhaseType.TWO_DOF_TAKEOFF, 'ground_roll': True}, 'rotation': {'phase_type': PhaseType.TWO_DOF_TAKEOFF, 'rotation': True},
            'ascent': {'phase_type': PhaseType.TWO_DOF_TAKEOFF}}[cls]
    return TwoDOFProblemConfigurator, more


def num(x):
    """option value of the specification -> number or None"""
    return None if x == [] else x[0][0] / x[0][1]


def opt(x):
    import numpy as np
    if x is None or (not isinstance(x, (int, float, np.generic, np.ndarray, str, bool))):
        return []                                  # None and dymos' "undefined"
    if isinstance(x, np.ndarray):
        x = x.ravel()[0]
    if isinstance(x, str):
        return []
    return [vt.rat(float(x), 100000, 1e-9)]


class Comm:
    def __init__(self, n):
        self.size, self.rank = n, 0


def options(c):
    """the user options of a phase"""
    cls = c['cls']
    u = {}
    for q, o in c['q'].items():
        if q in ('time', 'extra'):
            continue
        un = UNITS[cls][q]
        if c['kinds'][q] == 'state':
            names = dict(initial='initial', final='final', ref='ref', ref0='ref0', defect_ref='defect_ref', constraint_ref='constraint_ref')
            u[f'{q}_solve_segments'] = bool(o['solve'])
        else:
            names = dict(initial='initial', final='final', ref='ref', ref0='ref0')
            u[f'{q}_optimize'] = bool(o['optimize'])
            if o['order'] or c['explicit']:
                u[f'{q}_polynomial_order'] = int(num(o['order'])) if o['order'] else None
            if o['user'] and cls in ('energy', 'solved') and q in ('mach', 'altitude'):
                u.setdefault('constraints', {})[name_of(q)] = dict(type='boundary', loc='initial', lower=-777.0, units=un)
        for a, b in names.items():
            v = num(o[a])
            if v is not None or c['explicit']:
                u[f'{q}_{b}'] = (v, un)
        u[f'{q}_bounds'] = ((num(o['lower']), num(o['upper'])), un)
    if 'time' in c['q']:
        o = c['q']['time']
        un, other, f = TIMEUNIT.get(cls, ('s', 'min', 1 / 60))
        if not c['other']:
            other, f = un, 1

        def t(x):
            return None if num(x) is None else num(x) * f
        for a, b in dict(initial='time_initial', duration='time_duration', iref='time_initial_ref', dref='time_duration_ref').items():
            v = t(o[a])
            if a in ('iref', 'dref') and o[a] == [[1, 1]]:
                continue
            if v is not None or c['explicit']:
                u[b] = (v, other)
        u['time_initial_bounds'] = ((t(o['ilo']), t(o['ihi'])), other)
        u['time_duration_bounds'] = ((t(o['dlo']), t(o['dhi'])), other)
        if o['pos'] == 2:
            u['time_initial_direct_link'] = False
        elif o['pos'] == 1 and cls == 'solved':
            u['time_initial_direct_link'] = True
    e = c['q'].get('extra')
    if e:
        from aviary.variable_info.enums import ThrottleAllocation, Transcription
        u['throttle_enforcement'] = None if e['enforce'] == 'none' else e['enforce']
        for n in ('no_climb', 'no_descent'):
            u[n] = bool(e[n])
        if e['climb_rate']:
            u['required_available_climb_rate'] = (num(e['climb_rate']), 'ft/s')
        cons = u.setdefault('constraints', {})
        for v in e['user']:
            cons[name_of(v)] = dict(type='path', lower=-7.0, upper=9.0)
        if e['twist'] == 'alias':
            cons['myown'] = dict(type='boundary', loc='final', target='drag', lower=321.0)
        if e['twist'] == 'bad':
            cons['myown'] = dict(type='somewhere', lower=0.0)
        if e['twist'] == 'picard':
            u['transcription'] = Transcription.PICARDSHOOTING
        if e['twist'] == 'other':
            u['transcription'] = 'euler'
        u['num_segments'], u['order'] = e['segments'], e['order']
        if e['engines'] > 1:
            u['throttle_allocation'] = ThrottleAllocation[e['alloc'].upper()]
    return u


def bounds(phase, var):
    """path and end constraints on a variable"""
    out = []
    for where, cons in (('initial', phase._initial_boundary_constraints), ('final', phase._final_boundary_constraints), ('path', phase._path_constraints)):
        for con in cons:
            if con['name'] == var:
                out.append(dict(where=where, eq=opt(con['equals']), lower=opt(con['lower']), upper=opt(con['upper']), ref=opt(con['ref']), alias=con['constraint_name'],
                                units=con['units']))
    return out


def held(phase, var, where):
    return [dict(eq=b['eq'][0], ref=b['ref'][0] if b['ref'] else []) for b in bounds(phase, var) if b['where'] == where and b['eq']]


def drive(c):
    from aviary.core.aviary_group import AviaryGroup
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.variables import Aircraft
    import dymos as dm
    cls = c['cls']
    conf, more = builder(cls)
    g = AviaryGroup()
    info = {'user_options': {**options(c), **more}}
    t = c['q'].get('time', {})
    e = c['q'].get('extra', {})
    idx = 0 if t.get('pos', 0) == 0 else 1
    g.mission_info = {'before': {'user_options': {}}, 'ph': info} if idx else {'ph': info}
    g.main_phases, g.reserve_phases = (['before'], ['ph']) if t.get('pos') == 3 else (list(g.mission_info), [])
    g.subsystems, g.phase_objects, g.configurator = [], [], conf()
    g.aviary_inputs = AviaryValues()
    n = e.get('engines', 1)
    g.aviary_inputs.set_val(Aircraft.Engine.NUM_ENGINES, [2] * n)
    import traceback
    try:
        with vt.quiet():
            phase, obj = g._get_phase('ph', idx, Comm(2 if t.get('par') else 1))
    except Exception as ex:
        return dict(crash=f'{type(ex).__name__}: {ex} @ {traceback.extract_tb(ex.__traceback__)[-1]}'[:400])
    out = {}
    for q, o in c['q'].items():
        if q == 'time':
            to = phase.time_options
            out[q] = dict(units=to['units'], made=dict(fixi=bool(to['fix_initial']), fixd=bool(to['fix_duration']), ib=[opt(x) for x in to['initial_bounds']],
                                                       ir=opt(to['initial_ref']), db=[opt(x) for x in to['duration_bounds']], dr=opt(to['duration_ref'])))
        elif q == 'extra':
            path = []
            for v in ('rate', 'ratemax', 'throttle'):
                path += [dict(var=v, lower=b['lower'], upper=b['upper']) for b in bounds(phase, name_of(v)) if b['where'] == 'path']
            ends = [b['where'] for b in bounds(phase, name_of('throttle')) if b['where'] != 'path' and (b['lower'], b['upper']) == ([[0, 1]], [[1, 1]])]
            al, shares = 'none', []
            if 'throttle_allocations' in phase.control_options:
                k = phase.control_options['throttle_allocations']
                al = 'dynamic' if k['opt'] and (k['lower'], k['upper']) == (0.0, 1.0) else 'wrong'
            elif 'throttle_allocations' in phase.parameter_options:
                k = phase.parameter_options['throttle_allocations']
                al = 'static' if k['opt'] and (k['lower'], k['upper']) == (0.0, 1.0) else 'fixed' if not k['opt'] else 'wrong'
            if al != 'none':
                shares = [vt.rat(float(x), 1000, 1e-9) for x in k['val']]
            tx = phase.options['transcription']
            pic = type(tx).__name__ == 'PicardShooting'
            grid = dict(kind='picard' if pic else 'radau' if isinstance(tx, dm.Radau) else type(tx).__name__, segments=int(tx.options['num_segments']),
                        order=int(tx.options['nodes_per_seg'] if pic else tx.options['order']))
            mine = [b for b in bounds(phase, 'drag') if b['alias'] == 'myown' and b['where'] == 'final' and b['lower'] == [[321, 1]]]
            told = phase.options['ode_init_kwargs'].get('throttle_enforcement')
            out[q] = dict(units='', made=dict(ok=True, alias=bool(mine), told='none' if told is None else told, grid=grid, path=path, ends=ends,
                                              throttle=name_of('throttle') in phase.control_options, alloc=al, shares=shares))
        else:
            var = name_of(q)
            if c['kinds'][q] == 'state':
                s = phase.state_options[var]
                m = dict(fix=bool(s['fix_initial']), input=bool(s['input_initial']), lower=opt(s['lower']), upper=opt(s['upper']), ref=opt(s['ref']), ref0=opt(s['ref0']),
                         defect=opt(s['defect_ref']), solve=s['solve_segments'] == 'forward', start=held(phase, var, 'initial'), end=held(phase, var, 'final'))
                un = s['units']
            else:
                s = phase.control_options[var]
                poly = s['control_type'] == 'polynomial'
                m = dict(opt=bool(s['opt']), order=opt(s['order']) if poly else [], lower=opt(s['lower']), upper=opt(s['upper']), ref=opt(s['ref']) if s['opt'] else [],
                         ref0=opt(s['ref0']), cont=opt(s['continuity_ref']) if s['continuity_ref'] == s['rate_continuity_ref'] else [[-1, 1]],
                         start=held(phase, var, 'initial'), end=held(phase, var, 'final'))
                un = s['units'] if isinstance(s['units'], str) else 'unitless'
            eu = {b['units'] for b in bounds(phase, var) if b['eq']} - {un, None}
            out[q] = dict(units=un if not eu else str(sorted(eu)), made=m)
    return out


def vals(kind):
    none, zero, one = [], [[0, 1]], [[1, 1]]

    def v(*xs):
        return [none if x is None else [[x, 1]] for x in xs]
    if kind == 'state':
        return dict(initial=v(None, 0, 5), final=v(None, 0, 7), lower=v(None, 0), upper=v(None, 9), ref=v(1, 4), ref0=v(None, 2), defect_ref=v(None, 6), constraint_ref=v(None, 8), solve=[0, 1])
    if kind == 'control':
        return dict(initial=v(None, 0, 5), final=v(None, 0, -11), lower=v(None, 0, -3), upper=v(None, 9), ref=v(1, 4), ref0=v(None, 2), order=v(None, 3), optimize=[0, 1], user=[0, 1])
    if kind == 'extra':
        return dict(no_climb=[0, 1], no_descent=[0, 1], climb_rate=v(None, 5), enforce=['path_constraint', 'boundary_constraint', 'bounded', 'control', 'none'],
                    engines=[1, 2, 3], alloc=['fixed', 'static', 'dynamic'], segments=[2], order=[3],
                    user=[[], ['rate'], ['ratemax'], ['throttle'], ['rate', 'throttle']], twist=['plain', 'alias', 'bad', 'picard', 'other'])
    return dict(initial=v(None, 0, 60), duration=v(None, 1800), ilo=v(None, 0), ihi=v(None, 0, 600), dlo=v(None, 120), dhi=v(None, 960), iref=v(1, 30), dref=v(1, 90),
                pos=[0, 1, 2, 3], par=[0, 1] if kind == 'energy' else [0])


def tla_vals(kind):
    out = []
    for n, xs in vals(kind).items():
        if n == 'user' and kind == 'extra':
            t = '{' + ', '.join('{' + ', '.join(_tla(y) for y in x) + '}' for x in xs) + '}'
        else:
            t = '{' + ', '.join(_tla(x) for x in xs) + '}'
        out.append(f'{n} |-> {t}')
    return '[' + ', '.join(out) + ']'


def run(ck):
    rng = random.Random(ck.seed)
    pools = {}
    for kind in ('state', 'control', 'extra', 'energy', 'two_dof', 'solved'):
        r = ck.tlc('P12_Phase', dict(Kind=kind), defs=f'd_Vals == {tla_vals(kind)}\n',
                   invariants=['EmitState', 'FixedIffGiven', 'EndIffGiven', 'OptimisedIffAsked', 'Scaled', 'TimeFree', 'OneBoundEach'], properties=['Frame'], workers='auto')
        pools[kind] = [x['opts'] for x in r.emitted]
        ck.require(len(pools[kind]) > 500, f'{kind}: {len(pools[kind])} cases')
    nx = {}

    def take(pool, key):
        """cases in a random order, all of them before one comes again"""
        k = (pool, key)
        if k not in nx:
            order = list(range(len(pools[pool])))
            rng.shuffle(order)
            nx[k] = [order, 0]
        o = nx[k]
        o[1] += 1
        return pools[pool][o[0][(o[1] - 1) % len(o[0])]]
    cases = []
    for cls in UNITS:
        method = METHOD.get(cls, 'two_dof')
        n = {'energy': 2400, 'solved': 1000, 'ascent': 500}.get(cls, 350)
        if not ck.quick:
            n = {'energy': 30000, 'solved': 15000}.get(cls, 5000)
        for _ in range(n):
            q, kinds = {}, {}
            for s in STATES[cls]:
                q[s], kinds[s] = take('state', cls + s), 'state'
            for s in CONTROLS.get(cls, []):
                q[s], kinds[s] = take('control', cls + s), 'control'
            q['time'] = take(method, cls)
            if cls == 'energy' or (cls == 'solved'):
                e = dict(take('extra', cls), segments=rng.randint(1, 4), order=rng.choice([3, 5]))
                if cls == 'solved':
                    e['engines'] = 1
                    if e['enforce'] == 'control':
                        e['enforce'] = 'none'
                    if e['twist'] in ('picard', 'other'):
                        e['twist'] = 'plain'
                q['extra'] = e
                if e['enforce'] == 'control' and cls == 'energy':
                    q['throttle'], kinds['throttle'] = take('control', cls + 'throttle'), 'control'
                if e['twist'] in ('bad', 'other') and rng.random() < 0.8:
                    e['twist'] = 'plain'
            cases.append(dict(cls=cls, q=q, kinds=kinds, explicit=cls not in ('energy', 'accel', 'flight') or rng.random() < 0.3, other=rng.random() < 0.4))
    obs = ck.pmap(drive, cases)
    traces, back = [], []
    for c, o in zip(cases, obs):
        ck.count()
        if 'crash' in o:
            e = c['q'].get('extra')
            k = 'extra' if e else 'state'
            q = 'extra' if e else STATES[c['cls']][0]
            traces.append(dict(kind=k, opts=c['q'][q], crash=o['crash'], made=dict(ok=False), unit='', units=''))
            back.append((c, q))
            continue
        for q, m in o.items():
            kind = 'extra' if q == 'extra' else METHOD.get(c['cls'], 'two_dof') if q == 'time' else c['kinds'][q]
            opts = dict(c['q'][q])
            if kind == 'control' and (c['cls'] not in ('energy', 'solved') or q not in ('mach', 'altitude')):
                opts['user'] = 0
            u = '' if q == 'extra' else TIMEUNIT.get(c['cls'], ('s',))[0] if q == 'time' else UNITS[c['cls']][q]
            traces.append(dict(kind=kind, opts=opts, made=m['made'], unit=u, units=m['units']))
            back.append((c, q))
    ck.tally([(c['cls'], q) for c, q in back], 'variables_built')
    ck.sample(traces[0])
    seen = {}
    uniq, src = [], []
    for t, b in zip(traces, back):
        k = vt.canon(t)
        if k not in seen:
            seen[k] = len(uniq)
            uniq.append(t)
            src.append(b)
    ck.notes['distinct_variable_records'] = len(uniq)
    parts = [uniq[i:i + 4000] for i in range(0, len(uniq), 4000)]
    off = 0
    for p in parts:
        for e in ck.validate('P12_Trace', p, dict(Kind='state'), defs='d_Vals == [solve |-> {0, 1}]\n'):
            c, q = src[off + e['tid'] - 1]
            tr = e['trace']
            why = ''
            if q == 'time':
                why = f"pos={tr['opts']['pos']}"
            ck.violation('+'.join(sorted(e['bad'])), f"{c['cls']}:{q}:{why}", dict(case=c, variable=q, crash=tr.get('crash')), e['want'], tr['made'])
        off += len(p)
