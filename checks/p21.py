"""P21: what an operation gives in a process with a history is what it gives in a fresh process, and the shipped tables stay as shipped."""
import contextlib
import hashlib
import inspect
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import warnings
from copy import deepcopy

import vt

QUIET = dict(ctor=0, call=0, deck=0)
PICKY = ('crew', 'engines', 'prop', 'deck', 'table', 'legacy', 'vehicle', 'formulation', 'study', 'loose')


def text(x):
    import p14
    return p14.text(x)


# what the package ships ----------------------------------------------------------------------
def plain(v, depth=0):
    """is it a table of data?"""
    import enum
    import numpy as np
    if depth > 8:
        return False
    if isinstance(v, dict):
        return all(plain(k, depth + 1) and plain(x, depth + 1) for k, x in v.items())
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(plain(x, depth + 1) for x in v)
    return v is None or isinstance(v, (str, bytes, bool, int, float, complex, enum.Enum, np.ndarray, np.generic)) or isinstance(v, type)


def shipped():
    """the tables of data of the package that are not empty: {id: [(place, holder, attribute)]}"""
    out = {}
    foreign = {id(v) for mn, m in list(sys.modules.items()) if m is not None and not mn.startswith('aviary') for v in list(getattr(m, '__dict__', {}).values()) if isinstance(v, (dict, list, set))}
    ok = {}
    for mn, m in sorted(sys.modules.items()):
        if not (mn == 'aviary' or mn.startswith('aviary.')) or '.test' in mn:
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith('__') or 'registered' in k:
                continue
            spots = [(f'{mn}.{k}', m, k, v)]
            if inspect.isclass(v) and v.__module__ == mn:
                spots = [(f'{mn}.{k}.{a}', v, a, b) for a, b in sorted(vars(v).items()) if not a.startswith('_')]
            for place, holder, a, b in spots:
                if isinstance(b, (dict, list, set)) and b and id(b) not in foreign and ok.setdefault(id(b), plain(b)):
                    out.setdefault(id(b), []).append((place, holder, a, b))
    return out


def print_of(v):
    import numpy as np

    def enc(x):
        if isinstance(x, dict):
            return '{' + ','.join(enc(k) + ':' + enc(y) for k, y in x.items()) + '}'
        if isinstance(x, (list, tuple)):
            return type(x).__name__[0] + '(' + ','.join(map(enc, x)) + ')'
        if isinstance(x, (set, frozenset)):
            return 's(' + ','.join(sorted(map(enc, x))) + ')'
        if isinstance(x, np.ndarray):
            return f'a{x.shape}{x.dtype}{x.tolist()}'
        return f'{type(x).__name__}{x!s}' if isinstance(x, type) else f'{x!r}'
    return hashlib.md5(enc(v).encode()).hexdigest()


# programs: a list of stages, each a function of what the session holds -----------------------
def family(f, case):
    def stage(ns):
        import p14
        import p20
        from aviary.core.aviary_problem import AviaryProblem
        # what the harness itself replaces for the time of a stage is put back
        kept = dict(vars(AviaryProblem))
        try:
            return getattr(p20, f)(deepcopy(case), {k: (QUIET[k] if k in p20.FAMILIES[f] else -1) for k in QUIET})
        finally:
            for k, v in kept.items():
                if vars(AviaryProblem).get(k) is not v:
                    setattr(AviaryProblem, k, v)
            for k in set(vars(AviaryProblem)) - set(kept):
                delattr(AviaryProblem, k)
            p14.BASES.clear()
    return [stage]


def look(p):
    m = p.model
    return [sorted((n, text(list(vu))) for n, vu in p.aviary_inputs), text(getattr(m, 'mission_info', None)), text(getattr(m, 'pre_mission_info', None)), text(getattr(m, 'post_mission_info', None)),
            len(p.meta_data), sorted(m._static_design_vars), sorted(m._static_responses)]


def numbers(items):
    import numpy as np
    return sorted((n, [float(f'{float(x):.9g}') if isinstance(x, (float, np.floating)) else str(x) for x in np.ravel(v)]) for n, v in items)


def problem(deck, small=None, subs=(), changes=(), run=False, options=()):
    def load(ns):
        from aviary.core.aviary_problem import AviaryProblem
        from aviary.utils.process_input_decks import create_vehicle
        import p14
        import p20
        pi = None
        if small:
            pi = p14.phase_info(small, '', 300 if small == 'energy' else -1, 1500)
            for k in pi:
                o = pi[k].get('user_options', {})
                if 'num_segments' in o:
                    o['num_segments'] = 1
        for ph, k, v in options:
            pi[ph].setdefault('user_options', {})[k] = v
        av, _ = create_vehicle(p20.BENCH + deck, verbosity=0)
        for k, v, u in changes:
            av.set_val(k, v, u)
        p = ns['p'] = AviaryProblem(verbosity=0)
        p.load_inputs(av, pi, verbosity=0)
        return look(p)

    def preprocess(ns):
        p = ns['p']
        if subs:
            p.load_external_subsystems([external(s) for s in subs], verbosity=0)
        p.check_and_preprocess_inputs(verbosity=0)
        return look(p)

    def build(ns):
        p = ns['p']
        p.build_model(verbosity=0)
        return look(p)

    def formulate(ns):
        p = ns['p']
        p.add_driver('SLSQP', use_coloring=False, max_iter=0, verbosity=0)
        p.add_design_variables(verbosity=0)
        p.add_objective(verbosity=0)
        return look(p) + [text({k: str(v) for k, v in sorted(p.model._static_design_vars.items())}), text({k: str(v) for k, v in sorted(p.model._static_responses.items())})]

    def setup(ns):
        p = ns['p']
        p.setup(verbosity=0)
        p.set_initial_guesses(verbosity=0)
        p.final_setup()
        return numbers((n, v['val']) for n, v in p.model.list_vars(is_indep_var=True, out_stream=None, return_format='dict').items())

    def execute(ns):
        p = ns['p']
        p.run_model()
        return numbers((n, v['val']) for n, v in p.model.list_outputs(out_stream=None, return_format='dict').items())
    return [load, preprocess, build, formulate, setup] + ([execute] if run else [])


def external(name):
    import openmdao.api as om
    from aviary.subsystems.subsystem_builder import SubsystemBuilder
    from aviary.utils.develop_metadata import add_meta_data
    from aviary.variable_info.variable_meta_data import CoreMetaData
    md = dict(CoreMetaData)
    add_meta_data(f'aircraft:{name}:size', units='m', desc='size', default_value=2.0, meta_data=md)

    class B(SubsystemBuilder):
        _default_name = name

        def build_pre_mission(self, aviary_inputs, subsystem_options=None, **k):
            g = om.Group()
            g.add_subsystem('c', om.ExecComp('y=2*x', x=dict(units='m', val=2.0), y=dict(units='m')), promotes=[('x', f'aircraft:{name}:size'), ('y', f'{name}_y')])
            return g
    return B(name, md) if 'meta_data' in inspect.signature(SubsystemBuilder.__init__).parameters else B(name)


def table_files(seed, n, cols):
    """written by one stage, read by the next"""
    def write(ns):
        from aviary.utils.csv_data_file import write_data_file
        from aviary.utils.named_values import NamedValues
        rng = random.Random(seed)
        d = NamedValues()
        for c, u in cols:
            d.set_val(c, [rng.randint(-80, 80) / 8 for _ in range(n)], u)
        ns['f'] = f'{seed}.csv'
        write_data_file(ns['f'], d, comments=ns.setdefault('comments', ['# one', '# two']))
        return open(ns['f']).read().split('\n')[1:]

    def read(ns):
        from aviary.utils.csv_data_file import read_data_file
        from aviary.variable_info.variable_meta_data import CoreMetaData
        al = {c: [c, c.upper() + '_x'] for c, u in cols}
        d, *_, com = read_data_file(ns['f'], aliases=al, metadata=CoreMetaData if seed % 2 else None, save_comments=True)
        return [sorted((k, text(list(v))) for k, v in d), com[1:] if com else com, al]
    return [write, read]


def metadata(seed):
    def add(ns):
        from aviary.utils.develop_metadata import add_meta_data
        from aviary.variable_info.variable_meta_data import CoreMetaData
        ns['m'] = md = deepcopy(CoreMetaData) if seed % 2 else dict(CoreMetaData)
        add_meta_data(f'aircraft:new{seed}:x', units='ft', default_value=seed, option=True, types=(int, float), meta_data=md)
        return [len(md), text(md[f'aircraft:new{seed}:x'])]

    def update(ns):
        from aviary.utils.develop_metadata import update_meta_data
        update_meta_data(f'aircraft:new{seed}:x', units='m', default_value=3.0, meta_data=ns['m'])
        return text(ns['m'][f'aircraft:new{seed}:x'])

    def merge(ns):
        from aviary.utils.develop_metadata import add_meta_data
        from aviary.utils.merge_variable_metadata import merge_meta_data
        from aviary.variable_info.variable_meta_data import CoreMetaData
        if seed % 3 == 0:
            add_meta_data('aircraft:other:x', units='ft', default_value=1.0, meta_data=ns['m'])
        out = merge_meta_data([CoreMetaData, ns['m']] if seed % 2 else [ns['m'], CoreMetaData])
        out['aircraft:wing:area'] = 'mine'
        return sorted(out)[:3] + [len(out), text({k: v for k, v in out.items() if 'new' in k})]

    def use(ns):
        from aviary.utils.aviary_values import AviaryValues
        av = AviaryValues()
        av.set_val(f'aircraft:new{seed}:x', 2.0, 'm', meta_data=ns['m'])
        av.set_val('aircraft:wing:area', 2.0, 'm**2')
        return sorted((n, text(list(vu))) for n, vu in av)
    return [add, update, merge, use]


def hierarchy(seed):
    def stage(ns):
        from aviary.utils.merge_hierarchies import merge_hierarchies
        from aviary.variable_info.variables import Aircraft

        class Mine(Aircraft):
            class Wing(Aircraft.Wing):
                pass

            class Thing:
                pass
        setattr(Mine.Wing, f'NEW{seed}', f'aircraft:wing:new{seed}')
        setattr(Mine.Thing, f'T{seed}', f'aircraft:thing:t{seed}')
        m = merge_hierarchies([Mine])
        return [sorted(k for k in dir(m.Wing) if k.startswith('NEW')), sorted(k for k in dir(m.Thing) if not k.startswith('_')), sorted(k for k in dir(Aircraft.Wing) if k.startswith('NEW')), hasattr(Aircraft, 'Thing')]
    return [stage]


def engine(path, options, method='slinear'):
    def build(ns):
        from aviary.subsystems.propulsion.engine_deck import EngineDeck
        from aviary.utils.aviary_values import AviaryValues
        from aviary.utils.functions import get_path
        from aviary.variable_info.enums import AtmosphereModel
        av = AviaryValues()
        av.set_val('aircraft:engine:data_file', get_path(path))
        av.set_val('settings:atmosphere_model', AtmosphereModel.STANDARD)
        for k, v, u in options:
            av.set_val(k, v, u)
        e = ns['e'] = EngineDeck(options=av, name='e')
        return sorted((str(k), print_of(v)) for k, v in e.data.items())

    def mission(ns):
        import numpy as np
        import openmdao.api as om
        from aviary.utils.aviary_values import AviaryValues
        opts = AviaryValues()
        p = om.Problem(reports=False)
        kw = inspect.signature(ns['e'].build_mission).parameters
        args = {}
        for k in kw:
            if k == 'num_nodes':
                args[k] = 4
            elif k in ('aviary_inputs', 'aviary_options'):
                args[k] = opts
            elif k == 'user_options':
                args[k] = {}
            elif k == 'subsystem_options':
                args[k] = {}
        p.model.add_subsystem('e', ns['e'].build_mission(**args), promotes=['*'])
        values = dict(altitude=([0, 1e4, 2e4, 3.5e4], 'ft'), mach=([0, 0.3, 0.5, 0.7], None), hybrid_throttle=([1, 0.9, 0.6, 0.5], None), throttle=([1, 0.9, 0.6, 0.5], None), scale_factor=([1.1], None))
        from aviary.variable_info.variables import Dynamic
        for n, k in ((Dynamic.Atmosphere.MACH, 'mach'), (Dynamic.Mission.ALTITUDE, 'altitude'), (Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle'), (Dynamic.Vehicle.Propulsion.HYBRID_THROTTLE, 'hybrid_throttle')):
            if k == 'hybrid_throttle' and not ns['e'].use_hybrid_throttle:
                continue
            p.model.set_input_defaults(n, np.array(values[k][0], float), **({'units': values[k][1]} if values[k][1] else {}))
        p.setup()
        p.run_model()
        return numbers((n.split('.')[-1], v['val']) for n, v in p.model.list_outputs(out_stream=None, return_format='dict').items())
    return [build, mission]


def saved(deck, changes):
    def load(ns):
        from aviary.utils.process_input_decks import create_vehicle
        import p20
        ns['av'], ns['g'] = create_vehicle(p20.BENCH + deck, verbosity=0)
        for k, v, u in changes:
            ns['av'].set_val(k, v, u)
        return [sorted((n, text(list(vu))) for n, vu in ns['av']), text(ns['g'])]

    def save(ns):
        from aviary.utils.aviary_inputs_to_csv import save_to_csv_file
        save_to_csv_file('saved.csv', ns['av'])
        return [x for x in open('saved.csv').read().split('\n') if not x.startswith('#')]

    def again(ns):
        from aviary.utils.process_input_decks import create_vehicle
        av, g = create_vehicle('saved.csv', verbosity=0)
        return [sorted((n, text(list(vu))) for n, vu in av), text(g)]
    return [load, save, again]


def show(x):
    """text of what may hold collections of values"""
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.named_values import NamedValues
    if isinstance(x, (AviaryValues, NamedValues)):
        return sorted((n, text(list(v) if isinstance(v, tuple) else v)) for n, v in x)
    if isinstance(x, dict):
        return sorted((k, show(v)) for k, v in x.items())
    return [show(v) for v in x] if isinstance(x, (list, tuple)) else text(x)


def options(seed):
    """phase builders and their option dictionaries"""
    def make(ns):
        from aviary.mission.energy_state.phases.energy_phase import EnergyPhase
        from aviary.mission.two_dof.phases.flight_phase import FlightPhase
        rng = random.Random(seed)
        cls = rng.choice([EnergyPhase, FlightPhase])
        info = dict(user_options=dict(num_segments=rng.randint(1, 6), order=3), initial_guesses=dict(time=((0.0, 60.0), 'min')))
        if seed % 2:
            info['user_options']['mach_bounds'] = ((0.1, 0.3 + rng.random() / 2), 'unitless')
        b = ns['b'] = cls.from_phase_info(f'ph{seed}', info, [], cls.default_meta_data) if len(inspect.signature(cls.from_phase_info).parameters) >= 4 else cls.from_phase_info(f'ph{seed}', info)
        return [show(b.to_phase_info()), text(info)]

    def back(ns):
        n, info = ns['b'].to_phase_info()
        if isinstance(info['user_options'], dict):
            info['user_options']['num_segments'] = 99
        else:
            info['user_options'].set_val('num_segments', 99)
        return [n, show(info)]

    def default(ns):
        return show(type(ns['b'])('x').to_phase_info())
    return [make, back, default]


def weighted(seed):
    def stage(ns):
        import p22
        rng = random.Random(seed)
        c = dict(seed=seed, ref=-1, value={'a': {'fuel': 4, 'time': 6}, 'b': {'fuel': 3, 'time': 2}})
        from aviary.core.aviary_problem import AviaryProblem
        from aviary.variable_info.enums import ProblemType
        import openmdao.api as om
        p = AviaryProblem(problem_type=ProblemType.MULTI_MISSION, verbosity=0)
        for m, qs in c['value'].items():
            g = p.model.add_subsystem(m, om.Group())
            ivc = g.add_subsystem('ivc', om.IndepVarComp(), promotes=['*'])
            for q, v in qs.items():
                ivc.add_output(q, float(v))
            p.aviary_groups_dict[m] = g
        args = [('a', 'fuel', rng.randint(1, 4)), ('b', 'time', rng.randint(1, 4)), ('b', 'fuel')][:rng.randint(1, 3)]
        p.add_composite_objective(*args)
        return [text(args), text({k: str(v) for k, v in sorted(p.model._static_responses.items())})]
    return [stage]


def convert(kind, src):
    """the converters of tables and decks"""
    def stage(ns):
        from pathlib import Path
        path = Path(vt.REPO) / 'aviary/validation_cases/validation_data/legacy_files' / src
        out = Path.cwd() / f'out_{src}.csv'
        what, form = kind.split(':')
        if what == 'engine':
            from aviary.utils.engine_deck_conversion import convert_engine_deck
            from aviary.variable_info.enums import EngineDeckType
            convert_engine_deck(path, out, EngineDeckType(form))
        elif what == 'aero':
            from aviary.utils.aero_table_conversion import convert_aero_table
            if form == 'FLOPS':
                out = [Path.cwd() / 'drag_polar.csv', Path.cwd() / 'cd0.csv']
            convert_aero_table(path, out, form)
            out = out[1] if form == 'FLOPS' else out
        else:
            from aviary.utils.propeller_map_conversion import PropMapType, convert_propeller_map
            convert_propeller_map(path, out, PropMapType(form))
        return [x for x in open(out).read().split('\n') if not x.startswith('#')]
    return [stage]


def air(h):
    def stage(ns):
        import openmdao.api as om
        from aviary.subsystems.atmosphere.atmosphere import Atmosphere
        p = om.Problem(reports=False)
        from aviary.variable_info.enums import AtmosphereModel
        p.model.add_subsystem('a', Atmosphere(num_nodes=3, **{k: v for k, v in h.items() if k != 'model'}), promotes=['*'])
        p.model_options['*'] = {'settings:atmosphere_model': AtmosphereModel(h.get('model', 'standard'))}
        p.setup(force_alloc_complex=True)
        p.set_val('altitude', [0, 2e4, 4e4], 'ft')
        p.run_model()
        return numbers((n, v['val']) for n, v in p.model.list_outputs(out_stream=None, return_format='dict').items())
    return [stage]


def programs(quick):
    """the programs, the same in every run of a seed; names sort the light ones from the heavy ones"""
    import p20
    rng = random.Random(11)
    out = {}
    seen = {}
    want = dict(crew=4, engines=4, prop=3, deck=6, table=6, legacy=5, vehicle=4, formulation=3, study=4, loose=3)
    if not quick:
        want = {k: v * 3 for k, v in want.items()}
    for f, c in p20.cases(rng, True):
        if seen.get(f, 0) < want.get(f, 0):
            seen[f] = seen.get(f, 0) + 1
            out[f'{"heavy" if f in ("formulation", "study", "loose") else "light"} {f}{seen[f]}'] = family(f, c)
    out['heavy problem energy default'] = problem('FwFm.csv')
    out['heavy problem two-dof default'] = problem('GwGm.csv')
    out['heavy problem energy small'] = problem('FwFm.csv', small='energy', run=True, changes=[('aircraft:wing:mass', 17000.0, 'lbm')])
    out['heavy problem energy other'] = problem('FwFm.csv', small='energy', run=not quick, changes=[('aircraft:wing:area', 1500.0, 'ft**2'), ('mission:range', 2100.0, 'nmi')], options=[('cruise', 'mach_optimize', True), ('climb', 'altitude_optimize', True)])
    out['heavy problem two-dof small'] = problem('GwGm.csv', small='two_dof')
    out['heavy problem externals'] = problem('FwFm.csv', small='energy', subs=['one', 'two'])
    out['heavy problem external'] = problem('FwFm.csv', small='energy', subs=['three'], changes=[('aircraft:wing:area', 1300.0, 'ft**2')])
    cols = [('mach', 'unitless'), ('altitude', 'ft'), ('thrust', 'lbf'), ('aircraft:wing:area', 'ft**2')]
    for i in range(4):
        out[f'light file{i}'] = table_files(20 + i, 2 + i, cols[:2 + i % 3])
    for i in range(4):
        out[f'light metadata{i}'] = metadata(30 + i)
    for i in range(2):
        out[f'light hierarchy{i}'] = hierarchy(i)
    E = 'aircraft:engine:'
    d = 'models/engines/'
    out['light engine plain'] = engine(d + 'turbofan_28k.csv', [])
    out['light engine idle'] = engine(d + 'turbofan_22k.csv', [(E + 'generate_flight_idle', True, 'unitless'), (E + 'flight_idle_thrust_fraction', 0.05, 'unitless'), (E + 'flight_idle_max_fraction', 0.8, 'unitless'), (E + 'flight_idle_min_fraction', 0.1, 'unitless')])
    out['light engine scaled'] = engine(d + 'turbofan_24k_1.csv', [(E + 'scale_performance', True, 'unitless'), (E + 'scaled_sls_thrust', 30000.0, 'lbf'), (E + 'geopotential_alt', True, 'unitless')])
    out['light engine shaft'] = engine(d + 'turboshaft_1120hp.csv', [])
    out['light engine electric'] = engine('validation_cases/validation_data/test_models/turbofan_28k_with_electric.csv', [])
    out['light saved a'] = saved('FwFm.csv', [('aircraft:wing:area', 900.0, 'ft**2')])
    out['light saved b'] = saved('GwGm.csv', [('aircraft:wing:has_fold', True, 'unitless')])
    for i in range(4):
        out[f'light options{i}'] = options(i)
    for i in range(3):
        out[f'light weighted{i}'] = weighted(i)
    out['light convert propeller'] = convert('prop:GASP', 'general_aviation.map')
    out['light convert propfan'] = convert('prop:GASP', 'PropFan.map')
    out['light convert aero gasp'] = convert('aero:GASP_ALT', 'aero_free_GASP.txt')
    out['light convert aero flops'] = convert('aero:FLOPS', 'flops_test_polar.txt')
    out['light convert flops'] = convert('engine:FLOPS', 'turbofan_22k.txt')
    out['light convert gasp'] = convert('engine:GASP', 'turbofan_23k_1.eng')
    out['light convert gasp shaft'] = convert('engine:GASP_TS', 'turboshaft_4465hp.eng')
    for i, o in enumerate([dict(), dict(h_def='geopotential'), dict(delta_T_Celcius=10.0), dict(model='tropical'), dict(model='cold', h_def='geopotential')]):
        out[f'light air{i}'] = air(o)
    return out


PROGRAMS = {}


def perform(events):
    """a history in this process: [(session, program, stage)] -> what each stage gave and which shipped tables changed"""
    tables = shipped()
    ref = {i: print_of(v[0][3]) for i, v in tables.items()}
    out, mem, told = [], {}, set()
    here = os.getcwd()
    for s, prog, k in events:
        d = os.path.join(here, str(s))
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        err, res, raw = '', '', ''
        with vt.quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            random.seed(1)
            try:
                ns = mem.setdefault(s, {})
                if ns.get('over'):
                    err = 'over'
                else:
                    raw = PROGRAMS[prog][k - 1](ns)
                    raw = raw if isinstance(raw, str) else text(raw)
                    raw = re.sub(r'0x[0-9a-f]+|vt_p\w+_[a-z0-9_]+|tmp[a-z0-9_]+\.csv|p04_\d+', '#', raw)
                    raw = re.sub(r'(problem|Problem|aviary)(_?\d+)', r'\1', raw)  # the numbering of problems
                    res = hashlib.md5(raw.encode()).hexdigest()
            except vt.MachineryError:
                raise
            except Exception as e:
                err = type(e).__name__
                raw = f'{err}: {str(e)[:300]}'
                ns['over'] = True
        changed, now = [], {}
        for i, spots in tables.items():
            for place, holder, a, _ in spots:
                v = getattr(holder, a, None)
                if id(v) not in now:
                    now[id(v)] = print_of(v)
                if now[id(v)] != ref[i]:
                    changed.append(place)
        changed = sorted(set(changed) - told)
        told |= set(changed)  # once is enough
        out.append(dict(s=s, p=prog, k=k, out=res, err=err, reg=changed, raw=raw))
    os.chdir(here)
    return out


def alone(job):
    """a history in a process of its own"""
    d = tempfile.mkdtemp(prefix='vt_p21_')
    try:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.environ['OPENMDAO_REPORTS'] = '0'
                os.chdir(d)
                signal.alarm(600)
                o = perform(job['events'])
                if not job.get('raw'):
                    for e in o:
                        e.pop('raw')
                with open(os.path.join(d, 'result.json'), 'w') as f:
                    json.dump(o, f)
                code = 0
            except BaseException:
                import traceback
                with open(os.path.join(d, 'failed'), 'w') as f:
                    f.write(traceback.format_exc()[-1500:])
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        path = os.path.join(d, 'result.json')
        if not os.path.exists(path):
            f = os.path.join(d, 'failed')
            raise vt.MachineryError(f'a history did not end ({status}): {[e[1] for e in job["events"]]} ' + (open(f).read() if os.path.exists(f) else ''))
        return json.load(open(path))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def solo(prog, raw=False):
    return dict(events=[(1, prog, k + 1) for k in range(len(PROGRAMS[prog]))], raw=raw)


def run(ck):
    quick = ck.quick
    rng = random.Random(ck.seed)
    with vt.quiet():
        import aviary.api  # noqa: F401
        PROGRAMS.update(programs(quick))
    names = sorted(PROGRAMS)
    big = max(len(p) for p in PROGRAMS.values())
    inv = ['Independent', 'InOrder', 'Unchanged', 'Repeatable']
    patterns = []
    for lens, m, n in (({1, 2, 3}, 3, 6), (set(range(1, big + 1)), 2, 8 if quick else 2 * big)):
        r = ck.tlc('P21_Independence', {'Lengths': lens, 'MaxSessions': m, 'MaxSteps': n}, invariants=inv, properties=['Untouched'], action_constraint='EmitCase', workers=4)
        patterns += r.emitted
    by = {}
    for e in patterns:
        by.setdefault(tuple(e['lens']), []).append(e['order'])
    # what the programs give alone, twice
    jobs = [solo(p, raw=True) for p in names for _ in (1, 2)]
    outs = ck.pmap(alone, jobs, chunksize=1)
    first = {}
    drop = set()
    for j, o in zip(jobs, outs):
        if isinstance(o, dict):
            raise vt.MachineryError(o['tb'])
        p = j['events'][0][1]
        if p in first and [(e['out'], e['err']) for e in first[p]] != [(e['out'], e['err']) for e in o]:
            drop.add(p)  # not a function of its inputs even alone
        first.setdefault(p, o)
        for e in o:
            if e['reg']:
                for n in e['reg']:
                    ck.violation('shared', f'{n} by {p}', dict(program=p, stage=e['k']), 'as shipped', n)
    ck.notes['alone'] = {p: [e['err'] or 'ok' for e in first[p]] for p in names}
    ck.notes['not repeatable'] = sorted(drop)
    ck.require(len(drop) <= len(names) // 8, f'too many programs are not repeatable: {sorted(drop)}')
    ck.count(len(names))
    use = [p for p in names if p not in drop]
    light = [p for p in use if p.startswith('light')]
    heavy = [p for p in use if p.startswith('heavy')]
    length = {p: len(PROGRAMS[p]) for p in use}
    hist = []

    def weave(ps):
        """an interleaving of the programs: one of the specification if it has been enumerated"""
        orders = by.get(tuple(length[p] for p in ps))
        if orders:
            order = rng.choice(orders)
        else:
            order = [i + 1 for i, p in enumerate(ps) for _ in range(length[p])]
            rng.shuffle(order)
            # sessions are numbered by their beginnings
            num = {}
            for x in order:
                num.setdefault(x, len(num) + 1)
            ps = [ps[x - 1] for x in num]
            order = [num[x] for x in order]
        at, ev = {}, []
        for s in order:
            at[s] = at.get(s, 0) + 1
            ev.append((s, ps[s - 1], at[s]))
        return ev
    # every ordered pair of light programs, packed: permutations in which everything meets everything
    n = len(light)
    for r in range(4 if quick else 40):
        perm = light[:]
        rng.shuffle(perm)
        for q in (perm, perm[::-1]):
            size = (n + 3) // 4 if r else n
            for i in range(0, n, size):
                hist.append([e for s, p in enumerate(q[i:i + size]) for e in [(s + 1, p, k + 1) for k in range(length[p])]])
    for p in light:  # the same again, and woven with others
        hist.append([(1, p, k + 1) for k in range(length[p])] + [(2, p, k + 1) for k in range(length[p])])
    for _ in range(120 if quick else 2000):
        hist.append(weave(rng.sample(light, rng.choice([2, 3, 3]))))
    for p in heavy:
        hist.append(weave([p, p]))
        for q in rng.sample([x for x in heavy if x != p], 1 if quick else len(heavy) - 1):
            hist.append([(1, q, k + 1) for k in range(length[q])] + [(2, p, k + 1) for k in range(length[p])])
            hist.append(weave([p, q]))
        for q in rng.sample(light, 1 if quick else 12):
            hist.append(weave([q, p]))
    for _ in range(6 if quick else 80):
        ps = rng.sample(heavy, 3) + rng.sample(light, 5)
        rng.shuffle(ps)
        hist.append(weave(ps))
    hist.sort(key=lambda h: -sum(30 if e[1].startswith('heavy') else 1 for e in h))
    outs = ck.pmap(alone, [dict(events=h) for h in hist], chunksize=1)
    traces = [dict(solo={p: [dict(out=e['out'], err=e['err']) for e in first[p]] for p in use}, events=[])]
    for h, o in zip(hist, outs):
        if isinstance(o, dict):
            raise vt.MachineryError(o['tb'])
        ck.count(len(o))
        traces.append(dict(solo={}, events=o))
    for b in ck.validate('P21_Trace', traces, {'Lengths': {1}, 'MaxSessions': 1, 'MaxSteps': 1}):
        ev = b['trace']['events']
        e = ev[b['pos'] - 1]
        before = [[x['s'], x['p'], x['k']] for x in ev[:b['pos'] - 1]]
        what = ' '.join(e['reg']) + ' by ' + e['p'] if 'shared' in b['bad'] else e['p']
        ck.violation('|'.join(sorted(b['bad'])), f"{what} stage {e['k']}", dict(program=e['p'], stage=e['k'], after=before), b['want'], dict(out=e['out'], err=e['err'], reg=e['reg']))
    met = {(a[1], b[1]) for h in hist for i, b in enumerate(h) for a in h[:i] if a[0] != b[0]}
    ck.notes['pairs met'] = f'{len(met)} of {len(use) ** 2} ordered pairs of {len(use)} programs'
    ck.tally([p.split()[1].rstrip('0123456789') for h in hist for p in {e[1] for e in h}], 'programs in histories')
    ck.sample(dict(history=hist[-1]))
