"""P20: the same operation at every verbosity, chosen through every channel, gives the same values, model and refusals."""
import contextlib
import hashlib
import importlib
import inspect
import os
import pkgutil
import random
import re
import shutil
import signal
import tempfile
import warnings
from copy import deepcopy

import vt

M = -1
FAMILIES = dict(crew=['call', 'deck'], engines=['call', 'deck'], deck=['deck'], table=['call'], legacy=['call'], vehicle=['call', 'deck'], formulation=['ctor', 'call', 'deck'],
                component=['deck'], study=['ctor', 'call', 'deck'], loose=['ctor', 'call'], model=['ctor', 'deck'], prop=['call', 'deck'])
BENCH = 'validation_cases/validation_data/test_models/aircraft_for_bench_'


def opt(v):
    return None if v == M else v


def text(x):
    import p14
    return p14.text(x)


def state(av):
    return sorted((n, text(list(vu))) for n, vu in av if n != 'settings:verbosity')


def level(v):
    from aviary.variable_info.enums import Verbosity
    return Verbosity(v)


@contextlib.contextmanager
def forced(ctor, call):
    """problems built with the level of ctor, their methods called with the level of call"""
    from aviary.core.aviary_problem import AviaryProblem
    init = AviaryProblem.__init__
    kept = {}

    def build(self, *a, **k):
        k['verbosity'] = opt(ctor)
        return init(self, *a, **k)
    AviaryProblem.__init__ = build
    if call != M:
        for n in ('load_inputs', 'load_external_subsystems', 'check_and_preprocess_inputs', 'build_model', 'add_driver', 'add_design_variables', 'add_objective', 'run_off_design_mission', 'run_payload_range'):
            f = getattr(AviaryProblem, n)
            kept[n] = f

            def wrap(self, *a, _f=f, **k):
                k['verbosity'] = call
                return _f(self, *a, **k)
            setattr(AviaryProblem, n, wrap)
    try:
        yield
    finally:
        AviaryProblem.__init__ = init
        for n, f in kept.items():
            setattr(AviaryProblem, n, f)


# one function for each family: what an operation gives ---------------------------------------
def crew(c, ch):
    import p06
    from aviary.utils.preprocessors import preprocess_crewpayload, preprocess_options
    from aviary.variable_info.variables import Settings
    av = p06.build(c['o'], c['order'])
    av.set_val(Settings.VERBOSITY, level(1 if ch['deck'] == M else ch['deck']))
    f = preprocess_options if c['how'] == 'options' else preprocess_crewpayload
    f(av, verbosity=opt(ch['call']))
    return state(av)


def engines(c, ch):
    import p07
    r = p07.run_world(dict(c, verb=opt(ch['call']), deck=opt(ch['deck'])))
    return text(r)


def prop(c, ch):
    """everything preprocessed at once, with several engines"""
    import p06
    from aviary.subsystems.propulsion.engine_model import EngineModel
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.preprocessors import preprocess_options
    from aviary.variable_info.variables import Aircraft, Settings
    av = p06.build(c['o'], c['order'])
    for k, v, u in c['more']:
        av.set_val(k, v, u)
    av.set_val(Settings.VERBOSITY, level(1 if ch['deck'] == M else ch['deck']))
    preprocess_options(av, engine_models=[EngineModel('e', options=AviaryValues())], verbosity=opt(ch['call']))
    return state(av)


def deck(c, ch):
    import p16
    return p16.build(dict(c, verbosity=max(0, ch['deck'])))


def table(c, ch):
    import p05
    rng = random.Random(c['seed'])
    fd, path = tempfile.mkstemp(suffix='.csv', dir='.')
    with os.fdopen(fd, 'w', newline='') as f:
        f.write(p05.render(rng, c['lines']))
    from aviary.utils.csv_data_file import read_data_file
    kw = {} if ch['call'] == M else dict(verbosity=ch['call'])
    try:
        return text(p05.project(read_data_file(path, metadata=p05.make_meta(c['meta']), aliases=p05.build_aliases(rng, c['al']), save_comments=True, **kw)))
    finally:
        os.unlink(path)


def legacy(c, ch):
    import p24
    r = p24.convert(dict(code=c['code'], text=c['text'], verbosity=max(0, ch['call'])))
    if not r['ok']:
        raise RuntimeError(r['err'])
    return text(r)


def vehicle(c, ch):
    from aviary.utils.process_input_decks import create_vehicle
    fd, path = tempfile.mkstemp(suffix='.csv', dir='.')
    with os.fdopen(fd, 'w') as f:
        f.write('\n'.join(c['lines'] + ([f'settings:verbosity,{ch["deck"]}'] if ch['deck'] != M else [])) + '\n')
    try:
        av, guesses = create_vehicle(path, verbosity=opt(ch['call']))
    finally:
        os.unlink(path)
    return [state(av), text(guesses)]


def formulation(c, ch):
    import p13
    orig = getattr(p13, '_inputs', p13.inputs)
    p13._inputs = orig

    def ins(x):
        av = orig(x)
        av.set_val('settings:verbosity', level(1 if ch['deck'] == M else ch['deck']))
        return av
    p13.inputs = ins
    try:
        with forced(ch['ctor'], ch['call']):
            r = p13.drive(dict(c))
    finally:
        p13.inputs = orig
    if r.get('refused'):
        raise RuntimeError('refused:' + r['err'].split(':')[0])
    return text(r)


def study(c, ch):
    import p14
    p14.BASES.clear()
    with forced(ch['ctor'], ch['call']):
        r = p14.history(c)
    return text([(s['got'], s['name']) for s in r['steps']])


def loose(c, ch):
    """things handed to a problem that are not what it expects"""
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.subsystems.subsystem_builder import SubsystemBuilder
    from aviary.utils.process_input_decks import create_vehicle
    import p14
    pi = p14.phase_info('energy', '', 300, 1500)
    for ph, k, v in c['options']:
        pi[ph]['user_options'][k] = v
        if v == 'drop':
            del pi[ph]['user_options'][k]
    if 'guess' in c:
        pi[c['guess'][0]].setdefault('initial_guesses', {})['time'] = c['guess'][1]
    av, _ = create_vehicle(BENCH + 'FwFm.csv', verbosity=0)
    for k, v, u in c['values']:
        av.set_val(k, v, u)
    if 'level' in c:
        av.set_val('settings:verbosity', level(c['level']))
    p = AviaryProblem(verbosity=opt(ch['ctor']))
    kw = {} if ch['call'] == M else dict(verbosity=ch['call'])
    p.load_inputs(av, pi, **kw)
    p.load_external_subsystems([dict(x=1) if j == 'dict' else None if j == 'none' else 'text' if j == 'text' else SubsystemBuilder(j) for j in c['subs']], **kw)
    p.check_and_preprocess_inputs(**kw)
    p.build_model(**kw)
    p.add_driver(c['optimizer'], max_iter=5, **kw)
    p.add_design_variables(**kw)
    p.add_objective(**kw)
    m = p.model
    return [state(p.aviary_inputs), text(m.mission_info), text(m.pre_mission_info), text(m.post_mission_info), [s.name for s in m.external_subsystems], len(p.meta_data),
            sorted(m._static_design_vars), sorted(m._static_responses), p.driver.options['maxiter'], str(p.problem_type)]


def component(c, ch):
    import numpy as np
    import openmdao.api as om
    from aviary.variable_info.variables import Settings
    cls = getattr(importlib.import_module(c['module']), c['name'])
    rng = random.Random(c['seed'])
    comp = cls()
    for n, o in sorted(comp.options._dict.items()):
        if n == Settings.VERBOSITY:
            comp.options[n] = level(max(0, ch['deck']))
        elif n in c['options']:
            comp.options[n] = c['options'][n]
    p = om.Problem(reports=False)
    p.model.add_subsystem('c', comp, promotes=['*'])
    p.setup()
    p.final_setup()
    for name, m in sorted(p.model.list_inputs(out_stream=None, return_format='dict', prom_name=True).items()):
        v = np.array(m['val'], float)
        w = np.array([rng.choice([1.0, rng.uniform(0.2, 3), rng.uniform(1, 60), 0.0 if rng.random() < c['wild'] else 1.3, -1.0 if rng.random() < c['wild'] else 0.7]) for _ in range(v.size)]).reshape(v.shape)
        w = np.where(v == 0, w, v * w)
        # a cabin no seat fits into would be laid out for ever
        for k, lo, hi in (('fuselage:avg_diameter', 20, 60), ('pressurized_width_additional', 0, 2), ('seat_width', 18, 24), ('aisle_width', 18, 24), ('leading_edge_sweep', 20, 60), ('seat_pitch', 28, 40)):
            if m['prom_name'].endswith(k):
                w = np.full_like(v, rng.uniform(lo, hi))
        p.set_val(m['prom_name'], w)
    p.run_model()
    outs = {n.split('.')[-1]: text(np.array(v['val']).tolist()) for n, v in p.model.list_outputs(out_stream=None, return_format='dict').items()}
    return sorted(outs.items())


def model(c, ch):
    import numpy as np
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.variables import Settings
    import p14
    pi = p14.phase_info(c['eom'], '', 300 if c['eom'] == 'energy' else M, 1500)
    for k in pi:
        o = pi[k].get('user_options', {})
        if 'num_segments' in o:
            o['num_segments'] = 1
    av, _ = create_vehicle(BENCH + c['file'], verbosity=0)
    av.set_val(Settings.VERBOSITY, level(1 if ch['deck'] == M else ch['deck']))
    for k, v, u in c['values']:
        av.set_val(k, v, u)
    p = AviaryProblem(verbosity=opt(ch['ctor']))
    p.load_inputs(av, pi)
    p.check_and_preprocess_inputs()
    p.build_model()
    p.add_driver('SLSQP', use_coloring=False, max_iter=0)
    p.add_design_variables()
    p.add_objective()
    p.setup()
    p.set_initial_guesses()
    p.run_model()
    outs = p.model.list_outputs(out_stream=None, return_format='dict', all_procs=False)
    return sorted((n, text([float(f'{x:.12g}') for x in np.ravel(v['val'])])) for n, v in outs.items())


class Endless(BaseException):
    pass


def endless(*a):
    raise Endless


def one(job):
    """a case run through each choice of channels"""
    os.environ['OPENMDAO_REPORTS'] = '0'
    fn = globals()[job['f']]
    d = tempfile.mkdtemp(prefix='vt_p20_')
    cwd = os.getcwd()
    os.chdir(d)
    runs = []
    try:
        for ch in job['channels']:
            err, out, raw = '', '', None
            filters = warnings.filters[:]
            fmt = warnings.formatwarning
            with vt.quiet(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                random.seed(1)
                try:
                    if job['f'] == 'component':
                        signal.signal(signal.SIGALRM, endless)
                        signal.alarm(15)
                    raw = fn(deepcopy(job['case']), ch)
                    raw = re.sub(r'0x[0-9a-f]+|vt_p\w+_[a-z0-9_]+|tmp[a-z0-9_]+\.csv', '#', text(raw) if not isinstance(raw, str) else raw)
                    out = hashlib.md5(raw.encode()).hexdigest()
                except vt.MachineryError:
                    raise
                except Endless:
                    return []
                except Exception as e:
                    err = type(e).__name__
                    raw = f'{err}: {str(e)[:200]}'
            warnings.formatwarning = fmt
            warnings.filters[:] = filters
            runs.append(dict(c=ch, out=out, err=err, raw=raw))
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    # the texts are kept only where they differ
    first = runs[0]
    for r in runs[1:]:
        if r['out'] == first['out'] and r['err'] == first['err']:
            r.pop('raw')
        else:
            r['raw'] = differ(first.get('raw') or '', r['raw'] or '')
    first.pop('raw')
    return runs


def differ(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return [a[max(0, i - 120):i + 80], b[max(0, i - 120):i + 80]]


def components():
    import openmdao.api as om
    import aviary.mission
    import aviary.subsystems
    from aviary.variable_info.variables import Settings
    out = []
    with vt.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for root in ('aviary.subsystems', 'aviary.mission'):
            m = importlib.import_module(root)
            for i in pkgutil.walk_packages(m.__path__, root + '.', onerror=lambda n: None):
                if '.test' in i.name:
                    continue
                try:
                    mod = importlib.import_module(i.name)
                except Exception:
                    continue
                for n, c in sorted(vars(mod).items()):
                    if inspect.isclass(c) and c.__module__ == mod.__name__ and issubclass(c, om.ExplicitComponent):
                        try:
                            o = c()
                        except Exception:
                            continue
                        if Settings.VERBOSITY in o.options:
                            out.append((mod.__name__, n, sorted(o.options._dict)))
    return out


def option_values(rng, names):
    """options of the aircraft a component may look at"""
    from aviary.variable_info.enums import AircraftTypes
    vals = {'aircraft:crew_and_payload:design:num_passengers': rng.choice([0, 1, 100, 180, 400]), 'aircraft:crew_and_payload:design:num_first_class': rng.choice([0, 12, 500]),
            'aircraft:crew_and_payload:design:num_business_class': rng.choice([0, 20]), 'aircraft:crew_and_payload:design:num_economy_class': rng.choice([0, 100, 400]),
            'aircraft:crew_and_payload:design:num_seats_abreast_first': rng.choice([0, 4]), 'aircraft:crew_and_payload:design:num_seats_abreast_business': rng.choice([0, 4]),
            'aircraft:crew_and_payload:design:num_seats_abreast_economy': rng.choice([0, 6]), 'aircraft:fuselage:num_seats_abreast': rng.choice([1, 4, 6]), 'aircraft:fuselage:num_aisles': rng.choice([1, 2])}
    out = {k: v for k, v in vals.items() if k in names and rng.random() < 0.8}
    for n in names:
        for k, v in (('num_engines', [1, 2, 4]), ('num_wing_engines', [0, 2, 4]), ('num_fuselage_engines', [0, 1, 2])):
            if n == 'aircraft:engine:' + k and rng.random() < 0.7:
                import numpy as np
                out[n] = np.array([rng.choice(v)])
    if 'aircraft:design:type' in names and rng.random() < 0.3:
        out['aircraft:design:type'] = AircraftTypes.BLENDED_WING_BODY
    return out


def deck_lines(rng, which):
    """a shipped deck with lines dropped, doubled, misspelled and guesses left out"""
    import aviary
    path = os.path.join(vt.REPO, 'aviary', BENCH + which)
    lines = [x.rstrip('\n') for x in open(path)]
    lines = [x for x in lines if 'settings:verbosity' not in x]
    keep = {'settings:equations_of_motion', 'settings:mass_method', 'settings:aerodynamics_method', 'settings:problem_type', 'aircraft:engine:data_file'}
    out = []
    for x in lines:
        if x.split(',')[0] not in keep and x and rng.random() < 0.02:
            continue
        out.append(x)
        if rng.random() < 0.004:
            out.append(x)
    for _ in range(rng.choice([0, 0, 1, 2])):
        out.append(rng.choice(['aircraft:wing:arae,100,ft**2', 'nonsense,1', 'reserves,-1', 'flight_duration,0', 'cruise_mass_final,0', 'takeoff_mass,0', 'mission_guess,3', 'aircraft:wing:span,117,lbm', 'actual_takeoff_mass,150000',
                                '# a comment', 'aircraft:wing:has_strut,True', 'aircraft:wing:has_fold,True', 'aircraft:wing:loading_above_20,maybe', 'rotation_mass,0.9', 'aircraft:engine:scale_factor,1.2']))
    return out


def cases(rng, quick):
    import p05
    import p06
    import p07
    import p13
    import p14
    import p16
    import p24
    n = lambda a, b: a if quick else b
    out = []
    add = lambda f, c: out.append((f, c))
    for _ in range(n(260, 4000)):
        o = p06.rand_world(rng)
        d = p06.decorate(rng, o)
        add('crew', dict(o=o, order=d['order'], how=d['how']))
    with vt.quiet():
        oneval, several = p07.real_variables()
    for _ in range(n(120, 2000)):
        add('engines', p07.rand_world(rng, oneval, several))
    from aviary.variable_info.variables import Aircraft
    F = Aircraft.Fuel
    for _ in range(n(80, 1000)):
        o = p06.rand_world(rng)
        d = p06.decorate(rng, o)
        more = [(k, float(rng.choice([0, 100, 2000, 45000])), 'lbm') for k in (F.MAX_CAPACITY_MASS, F.WING_FUEL_MASS_CAPACITY, F.FUSELAGE_FUEL_MASS_CAPACITY, F.AUXILIARY_FUEL_MASS_CAPACITY) if rng.random() < 0.4]
        add('prop', dict(o=o, order=d['order'], more=more))
    for _ in range(n(60, 600)):
        add('deck', dict(c=p16.random_case(rng), seed=rng.random()))
    for _ in range(n(160, 2000)):
        h = p05.rand_history(rng)
        add('table', dict(lines=p05.rand_lines(rng, len(h['al'])), al=h['al'], meta=rng.choice([[], h['meta']]), seed=rng.random()))
    for c in legacy_cases(rng, n(24, 200)):
        add('legacy', c)
    for _ in range(n(24, 300)):
        add('vehicle', dict(lines=deck_lines(rng, rng.choice(['FwFm.csv', 'GwGm.csv', 'GwFm.csv']))))
    for _ in range(n(10, 80)):
        m = rng.choice(['energy', 'energy', 'energy', 'two_dof'])
        c = p13.base(m, rng.choice(['sizing', 'min_fuel', 'max_range']), obj=rng.choice(['', 'mass', 'time', 'hybrid_objective', 'fuel_burned', 'fuel', 'nonsense']), ref=rng.choice([p13.NONE, 2500]), target=rng.random() < 0.6,
                     ignorecap=rng.random() < 0.5, mopt=m == 'energy' and rng.random() < 0.5, aopt=m == 'energy' and rng.random() < 0.5,
                     calls=rng.choice([['variables', 'objective', 'driver'], ['driver', 'variables', 'objective'], ['objective', 'driver']]))
        add('formulation', c)
    for mod, name, opts in components():
        for _ in range(n(6, 80)):
            add('component', dict(module=mod, name=name, options=option_values(rng, opts), wild=rng.choice([0, 0, 0.15]), seed=rng.random()))
    for _ in range(n(8, 60)):
        h = p14.random_history(rng, 2)
        for st in h['steps']:
            st.pop('verbosity', None)
        if rng.random() < 0.5:
            h['s'].update(dict(converged=False) if rng.random() < 0.5 else dict(multi=True))
            h['steps'].append(dict(kind='study', res=p14.results(True, True)))
        add('study', h)
    for _ in range(n(14, 150)):
        c = dict(subs=rng.sample(['dict', 'none', 'text', 'one', 'two'], rng.randint(0, 3)), options=[], values=[], optimizer='SLSQP')
        for ph in ('climb', 'cruise', 'descent'):
            if rng.random() < 0.4:
                c['options'].append((ph, *rng.choice([('time_duration', (30.0, 'min')), ('target_distance', (200.0, 'km')), ('target_distance', (-1.0, 'km')), ('time_duration', (-3.0, 'min')), ('nonsense', 3), ('no_descent', True),
                                                      ('throttle_enforcement', 'boundary_constraint')])))
        if rng.random() < 0.4:
            c['guess'] = (rng.choice(['climb', 'cruise']), ((0.0, 50.0), 'min'))
        for k, v, u in (('aircraft:crew_and_payload:num_first_class', 3, 'unitless'), ('aircraft:fuel:ignore_fuel_capacity_constraint', True, 'unitless'), ('aircraft:wing:area', 1400.0, 'ft**2'), ('aircraft:engine:num_engines', [2], 'unitless')):
            if rng.random() < 0.3:
                c['values'].append((k, v, u))
        add('loose', c)
    worlds = [('FwFm.csv', 'energy', [('aircraft:wing:mass', 17000.0, 'lbm')]), ('GwGm.csv', 'two_dof', [])] + ([] if quick else [('GwFm.csv', 'energy', []), ('FwFm.csv', 'energy', [])])
    for f, e, v in worlds:
        add('model', dict(file=f, eom=e, values=v))
    return out


def legacy_cases(rng, n):
    import glob
    out = []
    root = os.path.join(vt.REPO, 'aviary/validation_cases/validation_data/legacy_files/')
    files = [(f, 'GASP' if f.endswith('.dat') else 'FLOPS') for k in ('*.dat', '*.in', '*.inp') for f in sorted(glob.glob(root + k))]
    texts = []
    for f, code in files:
        with contextlib.suppress(Exception):
            t = open(f).read()
            if '$' in t or '&' in t:
                texts.append((code, t))
    for _ in range(n):
        if not texts:
            break
        code, t = rng.choice(texts)
        lines = [x for x in t.split('\n') if not (x.strip() and rng.random() < 0.02 and not x.strip().startswith(('$', '&', '/')))]
        out.append(dict(code=code, text='\n'.join(lines)))
    return out


def run(ck):
    rng = random.Random(ck.seed)
    fam = 'd_Families == [' + ', '.join('%s |-> {%s}' % (f, ', '.join(f'"{x}"' for x in c)) for f, c in FAMILIES.items()) + ']'
    r = ck.tlc('P20_Verbosity', {'Levels': {0, 1, 2, 3}, 'Cases': {'x'}, 'MaxRuns': 1}, defs=fam, invariants=['Independent', 'Quiet', 'CallWins'], action_constraint='EmitCase', workers=2)
    ck.tlc('P20_Verbosity', {'Levels': {0, 2}, 'Cases': {'x', 'y'}, 'MaxRuns': 2}, defs='d_Families == [a |-> {"ctor", "call", "deck"}, b |-> {"call"}]', invariants=['Independent', 'Quiet', 'CallWins'], workers=4)
    choices = {}
    for e in r.emitted:
        choices.setdefault(e['f'], {}).setdefault(len(e['says']), []).append(e['c'])
    jobs = []
    for f, c in cases(rng, ck.quick):
        levels = choices[f]
        ch = [rng.choice(levels[0])] + [rng.choice(levels[k]) for k in rng.sample([1, 2, 3], 3 if f not in ('model', 'formulation', 'study') or not ck.quick else 2)]
        if rng.random() < 0.3 and f not in ('model', 'formulation'):
            ch.append(rng.choice(levels[rng.randint(0, 3)]))
        jobs.append(dict(f=f, case=c, channels=ch))
    heavy = [j for j in jobs if j['f'] in ('model', 'formulation', 'study', 'loose', 'vehicle')]
    heavy.sort(key=lambda j: ['model', 'formulation', 'study', 'loose', 'vehicle'].index(j['f']))
    light = [j for j in jobs if j not in heavy]
    outs = ck.pmap(one, heavy, chunksize=1) + ck.pmap(one, light)
    jobs = heavy + light
    traces = []
    err = {}
    for i, (j, o) in enumerate(zip(jobs, outs)):
        if isinstance(o, dict):
            ck.violation('crash', f"{j['f']} {o['crash'][:60]}", j, None, o)
            continue
        if not o:  # ran for too long to be compared
            err[j['f'] + ':endless'] = err.get(j['f'] + ':endless', 0) + 1
            continue
        ck.count(len(o))
        k = f"{j['f']}:{'refused ' + o[0]['err'] if o[0]['err'] else 'ok'}"
        err[k] = err.get(k, 0) + 1
        traces.append(dict(k=i, f=j['f'], runs=[dict(c=x['c'], out=x['out'], err=x['err']) for x in o]))
    ck.notes['first outcomes'] = dict(sorted(err.items()))
    for b in ck.validate('P20_Trace', traces, {'Levels': {0, 1, 2, 3}, 'Cases': {'x'}, 'MaxRuns': 1}, defs=fam, chunk=4000):
        j, o = jobs[b['trace']['k']], outs[b['trace']['k']]
        ck.violation('|'.join(sorted(b['bad'])), j['f'] + (' ' + j['case']['name'] if j['f'] == 'component' else ''), dict(family=j['f'], case=j['case'] if len(text(j['case'])) < 3000 else text(j['case'])[:3000]),
                     'the same as at ' + str(o[0]['c']), [x for x in o if x['out'] != o[0]['out'] or x['err'] != o[0]['err']][:2])
    ck.tally([j['f'] for j in jobs], 'cases')
    ck.sample(dict(f=jobs[-1]['f'], channels=jobs[-1]['channels']))
