"""P23: the guesses of a mission against the variables of real phases."""
import contextlib
import importlib
import os
import random
import warnings
from copy import deepcopy

import vt

NONE = -999999
P = 10000
BENCH = 'validation_cases/validation_data/test_models/aircraft_for_bench_'
FACTOR = dict(time={'s': 1, 'min': 60, 'h': 3600}, altitude={'ft': 1, 'kft': 1000}, mach={'unitless': 1})
UNITS = {'mass': ['lbm', 'kg', 't'], 'distance': ['NM', 'km', 'ft'], 'altitude': ['ft', 'km', 'm'], 'mach': ['unitless'], 'throttle': ['unitless'], 'velocity': ['kn', 'm/s'],
         'flight_path_angle': ['deg', 'rad'], 'angle_of_attack': ['deg', 'rad'], 'states:aux': ['m', 'ft'], 'parameters:aux_p': ['m', 'ft'], 'controls:aux_c': ['unitless'],
         'initial_distance': ['NM', 'km'], 'initial_time': ['s', 'min'], 'tau_gear': ['unitless'], 'tau_flaps': ['unitless'], 'velocity_rate': ['m/s**2']}
BASE = {'mass': 'lbm', 'distance': 'NM', 'altitude': 'ft', 'velocity': 'kn', 'flight_path_angle': 'deg', 'angle_of_attack': 'deg', 'states:aux': 'm', 'parameters:aux_p': 'm', 'initial_distance': 'NM', 'initial_time': 's'}


def builder():
    """an external subsystem with a state, a control and a parameter in every phase"""
    import numpy as np
    import openmdao.api as om
    from aviary.subsystems.subsystem_builder import SubsystemBuilder

    class Comp(om.ExplicitComponent):
        def initialize(self):
            self.options.declare('nn')

        def setup(self):
            nn = self.options['nn']
            self.add_input('aux', np.ones(nn), units='m')
            self.add_input('aux_c', np.ones(nn), units='unitless')
            self.add_input('aux_p', 1.0, units='m')
            self.add_output('aux_rate', np.ones(nn), units='m/s')
            self.declare_partials('*', '*', method='fd')

        def compute(self, inputs, outputs):
            outputs['aux_rate'] = inputs['aux_c'] * 0 + 1

    class Aux(SubsystemBuilder):
        offered = {}

        def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
            return Comp(nn=num_nodes)

        def mission_inputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return ['*']

        def mission_outputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return ['*']

        def get_states(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return {'aux': dict(rate_source='aux_rate', units='m', targets=['aux'])}

        def get_controls(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return {'aux_c': dict(units='unitless', opt=False, targets=['aux_c'])}

        def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return {'aux_p': dict(val=1.0, units='m', static_target=True)}

        def get_initial_guesses(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return dict((subsystem_options or {}).get('guesses', {}))
    return Aux(name='auxiliary')


_M = {}


def model(kind):
    """a real problem, set up once per process"""
    if kind in _M:
        return _M[kind]
    import aviary.api as av
    from aviary.variable_info.enums import PhaseType, ThrottleAllocation, Transcription
    energy = kind in ('energy', 'collocated', 'multi')
    pi = deepcopy(importlib.import_module('aviary.models.missions.' + ('energy_state_default' if energy else 'two_dof_default')).phase_info)
    for i, k in enumerate(pi):
        o = pi[k].get('user_options', {})
        if 'num_segments' in o:
            o['num_segments'], o['order'] = (2, 3) if i % 2 else (1, 5)
        if kind == 'collocated' and 'user_options' in pi[k]:
            o['throttle_enforcement'] = 'control'
            o.update(mach_optimize=True, altitude_optimize=True, mach_polynomial_order=None, altitude_polynomial_order=None)
        if kind == 'energy' and k == 'climb':
            o['mach_polynomial_order'], o['altitude_polynomial_order'] = 3, 1
    if kind == 'breguet':
        pi['cruise'] = dict(user_options=dict(phase_type=PhaseType.BREGUET_RANGE, alt_cruise=(37500., 'ft'), mach_cruise=(.8, 'unitless')),
                            initial_guesses={'mass': ([171481.0, -35000.], 'lbm')})
    with vt.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        deck = BENCH + ('FwFm.csv' if energy else 'GwGm.csv')
        if kind == 'multi':
            from aviary.variable_info.enums import ProblemType
            from aviary.utils.process_input_decks import create_vehicle
            p = av.AviaryProblem(problem_type=ProblemType.MULTI_MISSION, verbosity=0)
            for n in ('m1', 'm2'):
                a, _ = create_vehicle(deck, verbosity=0)
                p.add_aviary_group(n, aircraft=a, phase_info=deepcopy(pi))
        else:
            p = av.AviaryProblem(verbosity=0)
            p.load_inputs(deck, pi, verbosity=0)
        if kind != 'breguet':
            p.load_external_subsystems([builder()])
        p.check_and_preprocess_inputs()
        p.build_model()
        p.setup()
        p.final_setup()
    _M[kind] = p
    return p


TOP = {'t_initial': 'mission:takeoff:ascent_t_initial', 't_duration': 'mission:takeoff:ascent_duration'}


def variables(p, prefix, group, name):
    """[(name in the spec, path, node positions, whether it is its own and not taken from another phase)]"""
    import numpy as np
    ph = group.traj._phases[name]
    gd = ph.options['transcription'].grid_data
    pos = lambda which: [int(round((x + 1) / 2 * P)) for x in gd.node_ptau[gd.subset_node_indices[which]]]
    base = f'{prefix}traj.{name}.'
    out = []
    for n in ('t_initial', 't_duration'):
        out.append((n, TOP[n] if name == 'ascent' else base + n, [0]))
    for s in ph.state_options:
        out.append((f'states:{s}', f'{base}states:{s}', pos('state_input')))
    for c, o in ph.control_options.items():
        if o['control_type'] == 'polynomial':
            from dymos.utils.lgl import lgl
            at = [int(round((x + 1) / 2 * P)) for x in lgl(o['order'] + 1)[0]]
        else:
            at = pos('control_input')
        out.append((f'controls:{c}', f'{base}controls:{c}', at))
    for q in ph.parameter_options:
        if q in ('aux_p', 'altitude', 'mach', 'initial_distance', 'initial_time'):
            out.append((f'parameters:{q}', f'{base}parameters:{q}', [0]))
    free = []
    for n, path, at in out:
        try:
            src = p.model.get_source(path)
            v = p.get_val(path)
        except (KeyError, RuntimeError):
            continue
        free.append((n, path, at, (src.startswith('_auto_ivc') or '.indep_states.' in src) and np.size(v) == len(at)))
    if name == 'ascent':
        free += [(n, n, [0], True) for n in ('tau_gear', 'tau_flaps')]
    return free


def short(n):
    return n if n.split(':')[-1].startswith('aux') else n.split(':', 1)[-1]


def drive(case):
    """apply the guesses of every phase once; case: kind, phases: name -> [guess, opts, sub]"""
    import numpy as np
    kind = case['kind']
    with vt.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = model('energy' if kind == 'builder' else kind)
        groups = [('', p.model)] if kind != 'multi' else [('m1.', p.model.m1), ('m2.', p.model.m2)]
        rng = random.Random(case['seed'])
        rec, paths = [], []
        for prefix, g in groups:
            for name in g.traj._phases:
                c = case['phases'].get(prefix + name, dict(guess=[], opts={}, sub=[], tu='s'))
                info = g.mission_info[name]
                info['initial_guesses'] = {x['key']: (real(x, rng), x['u']) for x in c['guess']}
                if '_was' not in _M.setdefault((kind, prefix, name), {}):
                    _M[kind, prefix, name] = dict(_was=deepcopy(dict(info['user_options'])))
                o = info['user_options']
                for k, v in _M[kind, prefix, name]['_was'].items():
                    o[k] = deepcopy(v)
                if kind in ('energy', 'collocated', 'multi'):  # whole numbers for the spec
                    o.update(mach_initial=(2, 'unitless'), mach_final=(3, 'unitless'), mach_bounds=((1, 9), 'unitless'))
                for k, v in c['opts'].items():
                    o[k] = deepcopy(v)
                info.setdefault('subsystem_options', {})['auxiliary'] = dict(guesses={
                    x['key']: dict(val=real(x, rng), units=x['u'], type=x['type']) for x in c['sub']})
                pk = 'energy' if kind in ('energy', 'collocated', 'multi') else 'breguet' if kind == 'breguet' and name == 'cruise' else 'builder' if kind == 'builder' else 'two_dof'
                unit = {x['key']: x['u'] for x in c['guess']}
                if (kind, prefix, name, 0) not in _M:
                    _M[kind, prefix, name, 0] = variables(p, prefix, g, name)
                free = _M[kind, prefix, name, 0]
                vs = []
                for n, path, at, own in free:
                    if not own:
                        vs.append(dict(n=n, pos=at, own=False, before=[], got=[]))
                        continue
                    key = short(n) if n not in TOP else ('mass' if pk == 'breguet' else 'time')
                    u = unit.get(key) or unit.get(n) or next((x['u'] for x in c['sub'] if 'states:' + x['key'] == n or 'controls:' + x['key'] == n), None)
                    u = u or ('s' if n in TOP and pk != 'breguet' else BASE.get(key))
                    if n.startswith('parameters:') and key == 'mach':
                        u = unit.get('mach', 'unitless')
                    p.set_val(path, np.full(np.shape(p.get_val(path)), float(rng.randint(1, 200))), units=u)
                    vs.append(dict(n=n, pos=at, own=True))
                    paths.append((path, u, vs[-1]))
                rec.append(dict(name=prefix + name if kind == 'multi' else name, kind=pk, guess=[dict(key=x['key'], n=x['n'], v=x['v']) for x in c['guess']], tf=FACTOR['time'].get(unit.get('time', 's'), 1),
                                opts=options(pk, g, o), sub=[dict(key=x['key'], n=x['n'], v=x['v']) for x in c['sub']], vars=vs, quiet=False))
        read = lambda path, u: [max(-2 * 10**9, min(2 * 10**9, int(round(float(x) * P)))) for x in np.ravel(p.get_val(path, units=u))]
        for path, u, v in paths:
            v['before'] = read(path, u)
        err = None
        try:
            if kind == 'builder':
                apply_builders(p, groups[0][1], case, rec)
            else:
                p.set_initial_guesses(verbosity=0)
        except Exception as e:
            err = f'{type(e).__name__}: {e}'[:300]
        for path, u, v in paths:
            v['got'] = read(path, u)
    return dict(ok=err is None, phases=rec), err


def apply_builders(p, group, case, rec):
    """the same guesses, applied by a phase builder that knows these variables"""
    from aviary.mission import initial_guess_builders as ig
    from aviary.mission.phase_builder import PhaseBuilder
    from aviary.utils.aviary_values import AviaryValues
    from aviary.mission.energy_state.phases.energy_phase import EnergyPhase
    import aviary.mission.solved_two_dof.phases.solved_twodof_phase
    for r in rec:
        g = group.mission_info[r['name']]['initial_guesses']
        info = dict(user_options={}, initial_guesses=g)
        av = AviaryValues()
        for k, (v, u) in g.items():
            av.set_val(k, v, u)
        b = EnergyPhase(name=r['name'], initial_guesses=av)
        b.apply_initial_guesses(p, 'traj', group.traj._phases[r['name']])


def real(x, rng):
    """the value as a user would write it"""
    import numpy as np
    v = [None if e == NONE else e for e in x['v']]
    kind = x.get('form', 0)
    if x['n'] == 0:
        return [v[0], float(v[0]), np.float64(v[0])][kind % 3]
    if None in v:
        return [v, tuple(v)][kind % 2]
    if kind % 5 == 4 and x['n'] > 1:
        return [float(e) for e in v]
    return [v, tuple(v), np.array(v, dtype=float), np.array(v, dtype=int)][kind % 4]


def options(pk, g, o):
    """what missing guesses are derived from, in the units things are read in"""
    import numpy as np
    out = dict(mass=0, ti=[], tib=[], td=[], tdb=[], ai=[], af=[], ab=[], mi=[], mf=[], mb=[])
    if pk == 'energy':
        from aviary.variable_info.variables import Aircraft
        out['mass'] = int(round(g.aviary_inputs.get_val(Aircraft.Design.GROSS_MASS, 'lbm')))

        def one(k, kind, scale=1):
            v, u = o[k]
            return [] if v is None else [dict(v=int(round(v * scale)), u=FACTOR[kind][u])]

        def two(k, kind, scale=1):
            v, u = o[k]
            return [] if v is None else [dict(v=NONE if e is None else int(round(e * scale)), u=FACTOR[kind][u]) for e in v]
        out.update(ti=one('time_initial', 'time'), td=one('time_duration', 'time'), tib=two('time_initial_bounds', 'time'), tdb=two('time_duration_bounds', 'time'),
                   ai=one('altitude_initial', 'altitude'), af=one('altitude_final', 'altitude'), ab=two('altitude_bounds', 'altitude'),
                   mi=one('mach_initial', 'mach'), mf=one('mach_final', 'mach'), mb=two('mach_bounds', 'mach'))
    elif pk == 'two_dof':
        out['mass'] = int(round(float(np.ravel(g.initialization_guesses['rotation_mass'])[0])))
    return out


KEYS = dict(energy=['mass', 'distance', 'altitude', 'mach', 'throttle', 'states:aux', 'parameters:aux_p', 'controls:aux_c', 'tau_gear'],
            two_dof=['mass', 'distance', 'altitude', 'velocity', 'flight_path_angle', 'angle_of_attack', 'throttle', 'states:aux', 'parameters:aux_p', 'tau_gear', 'tau_flaps', 'velocity_rate'],
            builder=['mass', 'altitude', 'mach'], breguet=['altitude', 'mach', 'initial_distance', 'initial_time'])


def val(rng, key, n):
    hi = 40 if key in ('mach', 'throttle', 'flight_path_angle', 'angle_of_attack') else 400
    return [rng.randint(1, hi) for _ in range(max(n, 1))]


def random_phase(rng, pk, name, has, legal):
    keys = [k for k in KEYS[pk] if not legal or k in has]
    g = []
    for k in rng.sample(keys, min(len(keys), rng.choice([0, 0, 1, 2, 3, 4]))):
        n = 0 if k.startswith('tau') or k.startswith('parameters') or pk == 'breguet' else rng.choice([0, 0, 2, 2, 2] + ([3, 4] if pk == 'two_dof' or ':' in k else []))
        g.append(dict(key=k, n=n, v=val(rng, k, n), u=rng.choice(UNITS[k]), form=rng.randint(0, 9)))
    if rng.random() < .5 or (pk == 'two_dof' and legal and rng.random() < .5):
        v = [rng.randint(0, 400), rng.randint(1, 400)]
        if pk == 'energy' and rng.random() < .3:
            v[rng.randint(0, 1)] = NONE
        g.append(dict(key='time', n=2, v=v, u=rng.choice(['s', 'min', 'h']), form=rng.randint(0, 9)))
    if pk == 'breguet' and rng.random() < .7:
        g.append(dict(key='mass', n=2, v=[rng.randint(100, 400), -rng.randint(1, 90)], u=rng.choice(['lbm', 'kg']), form=rng.randint(0, 9)))
    rng.shuffle(g)
    o, sub = {}, []
    if pk == 'energy':
        def one(k, kind):
            return (rng.choice([None, rng.randint(1, 200)]), rng.choice(list(FACTOR[kind])[:2]))

        def two(kind, none):
            a, b = sorted([rng.randint(0, 99), rng.randint(101, 200)])
            return (rng.choice([(a, b)] * 3 + ([(None, b), (a, None), (None, None)] if none else [])), rng.choice(list(FACTOR[kind])[:2]))
        o = dict(time_initial=one('ti', 'time'), time_duration=one('td', 'time'), time_initial_bounds=two('time', True), time_duration_bounds=two('time', True),
                 altitude_initial=one('a', 'altitude'), altitude_final=one('a', 'altitude'), altitude_bounds=two('altitude', False),
                 mach_initial=(rng.choice([None, rng.randint(1, 40)]), 'unitless'), mach_final=(rng.choice([None, rng.randint(1, 40)]), 'unitless'), mach_bounds=two('mach', False))
    if pk != 'breguet' and pk != 'builder':
        for k, t in (('aux', 'state'), ('aux_c', 'control')):
            if rng.random() < .4 and ('states:' if t == 'state' else 'controls:') + k in has:
                n = rng.choice([0, 2, 3])
                sub.append(dict(key=k, type=t, n=n, v=val(rng, k, n), u=rng.choice(['m', 'ft']) if t == 'state' else 'unitless', form=rng.randint(0, 9)))
    return dict(guess=g, opts=o, sub=sub)


PHASES = dict(energy=['climb', 'cruise', 'descent'], collocated=['climb', 'cruise', 'descent'], builder=['climb', 'cruise', 'descent'],
              two_dof=['groundroll', 'rotation', 'ascent', 'accel', 'climb1', 'climb2', 'cruise', 'desc1', 'desc2'],
              breguet=['groundroll', 'rotation', 'ascent', 'accel', 'climb1', 'climb2', 'cruise', 'desc1', 'desc2'],
              multi=['m1.climb', 'm1.cruise', 'm1.descent', 'm2.climb', 'm2.cruise', 'm2.descent'])
# variables every phase has, for guesses that must be taken
HAVE = dict(energy={'mass', 'distance', 'altitude', 'mach', 'states:aux', 'parameters:aux_p', 'controls:aux_c'}, breguet=set(KEYS['breguet']), builder=set(KEYS['builder']))
STATES = dict(groundroll='velocity mass distance', rotation='angle_of_attack velocity mass distance', ascent='flight_path_angle altitude velocity mass distance angle_of_attack tau_gear tau_flaps',
              accel='velocity mass distance', climb1='altitude mass distance', climb2='altitude mass distance', cruise='mass', desc1='altitude mass distance', desc2='altitude mass distance')


def pkind(kind, name):
    return 'energy' if kind in ('energy', 'collocated', 'multi') else 'breguet' if kind == 'breguet' and name == 'cruise' else 'builder' if kind == 'builder' else 'two_dof'


def have(kind, name):
    pk = pkind(kind, name)
    if pk != 'two_dof':
        h = set(HAVE[pk]) | ({'throttle'} if kind == 'collocated' else set())
        return h
    h = set(STATES[name].split()) | ({'throttle'} if name != 'cruise' else set())
    return h | ({'states:aux', 'parameters:aux_p', 'controls:aux_c'} if kind != 'breguet' else set())


def random_case(rng, kind):
    phases = {}
    legal = rng.random() < .85
    for name in PHASES[kind]:
        if rng.random() < .7:
            phases[name] = random_phase(rng, pkind(kind, name), name, have(kind, name), legal)
    if not legal and phases:
        c = phases[rng.choice(list(phases))]
        c['guess'].insert(rng.randint(0, len(c['guess'])), dict(key=rng.choice(['bogus', 'Mass', 'range', 'aux', 'Altitude', 'times']), n=0, v=[7], u='unitless', form=1))
    return dict(kind=kind, phases=phases, seed=rng.random())


def small(kind, g, opts, sub=(), quiet=False, nodes=(0, 2764, 10000)):
    """a phase of the model, checked exhaustively"""
    v = [dict(n=n, pos=[0], own=True) for n in ('t_initial', 't_duration')]
    names = dict(energy=['states:mass', 'states:distance', 'controls:mach', 'controls:altitude', 'states:aux'], two_dof=['states:mass', 'states:altitude', 'controls:throttle', 'states:aux'],
                 breguet=['parameters:mach', 'parameters:initial_time'])[kind]
    v += [dict(n=n, pos=[0] if n.startswith('par') else list(nodes), own=True) for n in names]
    base = dict(mass=170000, ti=[], tib=[], td=[], tdb=[], ai=[], af=[], ab=[dict(v=0, u=1), dict(v=300, u=1)], mi=[], mf=[], mb=[dict(v=2, u=1), dict(v=30, u=1)])
    base.update(opts)
    return dict(name='climb', kind=kind, guess=[dict(key=k, n=n, v=list(x)) for k, n, x in g], tf=60, opts=base, sub=list(sub), vars=v, quiet=quiet)


def model_phases():
    one = lambda v, u=1: [dict(v=v, u=u)]
    two = lambda a, b, u=1: [dict(v=a, u=u), dict(v=b, u=u)]
    out = []
    for kind in ('energy', 'two_dof', 'breguet'):
        out.append(small(kind, [], {}, quiet=True))
        out.append(small(kind, [], dict(tib=two(NONE, NONE), tdb=two(10, 50)), quiet=True, nodes=(0, 5000, 10000)))
    for tg in ([], [('time', 2, (3, 8))], [('time', 2, (NONE, 8))], [('time', 2, (3, NONE))]):
        for ti in ([], one(20, 60)):
            for tib in ([], two(1, 7, 60), two(NONE, 9), two(4, NONE), two(NONE, NONE)):
                for td in ([], one(120)):
                    for tdb in ([], two(10, 40)):
                        out.append(small('energy', tg, dict(ti=ti, tib=tib, td=td, tdb=tdb)))
    for ag in ([], [('altitude', 0, (9,))], [('altitude', 2, (9, 90))], [('altitude', 3, (9, 90, 30))]):
        for ai in ([], one(11)):
            for af in ([], one(200)):
                for mg in ([], [('mach', 2, (3, 5))]):
                    for mi in ([], one(7)):
                        for mf in ([], one(9)):
                            out.append(small('energy', ag + mg, dict(ai=ai, af=af, mi=mi, mf=mf)))
    aux = dict(key='aux', n=2, v=[5, 25])
    for kind in ('energy', 'two_dof'):
        for g in ([], [('mass', 0, (300,))], [('mass', 2, (300, 100))], [('mass', 4, (300, 200, 310, 5))], [('mass', 2, (300, 100)), ('states:aux', 3, (1, 2, 30))], [('bogus', 0, (1,))],
                  [('mass', 2, (300, 100)), ('throttle', 2, (1, 2))], [('altitude', 5, (1, 400, 1, 400, 1))], [('distance', 2, (0, 400))], [('states:aux', 0, (4,))], [('velocity', 0, (9,))]):
            for sub in ([], [aux], [dict(key='aux', n=0, v=[6])]):
                out.append(small(kind, g, {}, sub))
    for g in ([('mass', 2, (300, -90))], [('mach', 0, (3,))], [('mass', 2, (300, -90)), ('time', 2, (3, 4)), ('initial_time', 0, (9,))], [('altitude', 0, (1,))]):
        out.append(small('breguet', g, {}))
    return out


INVS = ['EndsHeld', 'Apart', 'UserWins', 'Again']


def run(ck):
    rng = random.Random(ck.seed)
    ps = model_phases()
    defs = 'd_Phases == {' + ', '.join(vt._tla(p) for p in ps) + '}\nd_Kinds == {"energy", "two_dof", "breguet"}'
    r = ck.tlc('P23_Guesses', {}, defs=defs, invariants=INVS, action_constraint='EmitCase', workers=4)
    emitted = [e['a'] for e in r.emitted]
    ck.require(len(emitted) > 300, 'guesses')
    cases = []
    UN = dict(s=1, min=60)

    def back(o, kind='time'):
        u = 's' if kind == 'time' else 'ft' if kind == 'altitude' else 'unitless'
        if not o:
            return (None, u)
        if kind == 'time':
            u = {1: 's', 60: 'min'}[o[0]['u']]
        vs = [None if e['v'] == NONE else e['v'] for e in o]
        return (vs[0] if len(vs) == 1 else tuple(vs), u)
    seen = set()
    for a in emitted:
        key = vt.canon(a)
        if key in seen or a['kind'] == 'breguet':
            continue
        seen.add(key)
        kind = rng.choice(['energy', 'energy', 'collocated']) if a['kind'] == 'energy' else 'two_dof'
        name = rng.choice(PHASES[kind]) if a['kind'] == 'energy' else rng.choice(['climb1', 'climb2', 'desc1'])
        g = [dict(key=x['key'], n=x['n'], v=x['v'], u='min' if x['key'] == 'time' else rng.choice(UNITS.get(x['key'], ['unitless'])), form=rng.randint(0, 9)) for x in a['guess']]
        rng.shuffle(g)
        o = {}
        if a['kind'] == 'energy':
            q = a['opts']
            o = dict(time_initial=back(q['ti']), time_duration=back(q['td']), time_initial_bounds=back(q['tib']), time_duration_bounds=back(q['tdb']),
                     altitude_initial=back(q['ai'], 'altitude'), altitude_final=back(q['af'], 'altitude'), altitude_bounds=back(q['ab'], 'altitude'),
                     mach_initial=back(q['mi'], 'mach'), mach_final=back(q['mf'], 'mach'), mach_bounds=back(q['mb'], 'mach'))
        sub = [dict(key=x['key'], type='state', n=x['n'], v=x['v'], u=rng.choice(['m', 'ft']), form=rng.randint(0, 9)) for x in a['sub']]
        cases.append(dict(kind=kind, phases={name: dict(guess=g, opts=o, sub=sub)}, seed=rng.random()))
    n = 90 if ck.quick else 3000
    for kind in ('energy', 'collocated', 'two_dof', 'breguet', 'builder', 'multi'):
        cases += [random_case(rng, kind) for _ in range(n if kind != 'multi' else n // 4)]
    # one worker per model as far as possible
    cases.sort(key=lambda c: c['kind'] if c['kind'] != 'builder' else 'energy')
    traces, errs, kept = [], [], []
    for c, out in zip(cases, ck.pmap(drive, cases, chunksize=max(1, len(cases) // 10))):
        if isinstance(out, dict):
            raise vt.MachineryError(out['tb'])
        rec, err = out
        rec['k'] = len(traces)
        traces.append(rec)
        errs.append(err)
        kept.append(c)
    for b in ck.validate('P23_Trace', traces, {}, defs='d_Phases == {}\nd_Kinds == {}', chunk=150):
        t = b['trace']
        bad = sorted('|'.join(x) for x in b['bad'])
        c = kept[t['k']]
        pk = {ph['name']: ph['kind'] for ph in t['phases']}
        x = sorted(b['bad'])[0]
        sig = f"{pk.get(x[0], c['kind'])}|{x[1] or x[0]}" if x[1] else f"{c['kind']}|{x[0]}"
        ck.violation('guess', sig, c, b['want'], dict(bad=bad, error=errs[t['k']]))
    ck.count(len(traces))
    ck.tally(['applied' if t['ok'] else 'refused' for t in traces], 'outcome')
    ck.tally([c['kind'] for c in kept], 'missions')
    ck.tally([f"{x['key']}/{x['n']}" for t in traces for ph in t['phases'] for x in ph['guess']], 'guesses')
    ck.require(sum(t['ok'] for t in traces) > len(traces) * .6, 'guesses that are taken')
    ck.sample(dict(case=kept[0], phase=traces[0]['phases'][0]))
