"""P14: off-design missions and payload-range studies of a sized aircraft, against the history of requests."""
import os
import random
import shutil
import tempfile
import warnings
from copy import deepcopy
from types import SimpleNamespace

import vt

M = -999
BENCH = 'validation_cases/validation_data/test_models/aircraft_for_bench_'
BASES = {}
RESULTS = {}


def phase_info(eom, phases, cruise, target):
    import importlib
    pi = deepcopy(importlib.import_module('aviary.models.missions.' + ('two_dof_default' if eom == 'two_dof' else 'energy_state_default')).phase_info)
    if phases == 'climb+descent':
        pi.pop('cruise')
    if 'cruise' in pi and eom == 'energy':
        if cruise == M:
            pi['cruise']['user_options'].pop('time_duration_bounds', None)
        else:
            pi['cruise']['user_options']['time_duration_bounds'] = ((10.0, float(cruise)), 'min')
    if eom == 'energy':
        # limits of the mission's owner, which studies inherit too
        pi['climb']['user_options']['constraints'] = {'throttle': {'lower': 0.125, 'type': 'path'},
                                                      'slow_end': {'target': 'mach', 'lower': 0.25, 'loc': 'final', 'type': 'boundary'}}
        pi['descent']['user_options']['constraints'] = {'throttle': {'upper': 0.9375, 'loc': 'initial', 'type': 'boundary'}}
    if target == M:
        pi.pop('post_mission', None)
    else:
        pi.setdefault('post_mission', {})['target_range'] = (float(target), 'NM')
        pi['post_mission'].setdefault('include_landing', False)
    return pi


def stub():
    """no model is set up or run: results are what the case says"""
    import numpy as np
    from openmdao.utils.units import convert_units
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.variable_info.variable_meta_data import _MetaData

    def run(self, **k):  # noqa
        r = RESULTS.get('ferry' if self._name.endswith('_ferry_range') else 'maxfuel', dict(ok=True, payload=0, fuel=0, range=0))
        self.result = SimpleNamespace(success=r['ok'])
        self._vt = {'aircraft:crew_and_payload:total_payload_mass': r['payload'], 'mission:fuel_mass': r['fuel'], 'mission:range': r['range']}
        made.append(self)

    def get(self, name, units=None, indices=None, **k):
        v = np.array([float(self._vt[name])])
        return v if units is None else np.array([convert_units(float(v[0]), _MetaData[name]['units'], units)])
    made = []
    for n in ('setup', 'set_initial_guesses'):
        setattr(AviaryProblem, n, lambda self, **k: None)
    AviaryProblem.run_aviary_problem, AviaryProblem.get_val = run, get
    AviaryProblem.get_reports_dir = lambda self, force=False: os.getcwd()
    return made


def sized(s):
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.mission.energy_state_problem_configurator import EnergyStateProblemConfigurator
    from aviary.subsystems.propulsion.engine_deck import EngineDeck
    from aviary.subsystems.subsystem_builder import SubsystemBuilder
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.enums import EquationsOfMotion, ProblemType
    from aviary.variable_info.variables import Aircraft, Settings
    CP = Aircraft.CrewPayload
    if not BASES:
        for n in 'AB':
            BASES['conf' + n] = type('Conf' + n, (EnergyStateProblemConfigurator,), {})
        BASES['made'] = stub()
    from aviary.variable_info.variable_meta_data import _MetaData
    p = AviaryProblem(name='sized', verbosity=0)
    meta = deepcopy(dict(_MetaData))
    av, _ = create_vehicle(BENCH + ('FwFm.csv' if s['mass'] == 'FLOPS' else 'GwGm.csv'), meta_data=meta, verbosity=0)
    if s['mass'] == 'FLOPS':
        for n in ('FIRST_CLASS', 'BUSINESS_CLASS', 'ECONOMY_CLASS', 'PASSENGERS'):
            for c, at in ((CP, ''), (CP.Design, 'd')):
                k = dict(F='first', B='bus', E='eco', P='pax')[n[0]]
                if at + k in s:
                    av.set_val(getattr(c, 'NUM_' + n), s[at + k])
        av.set_val(CP.Design.NUM_PASSENGERS, s['dfirst'] + s['dbus'] + s['deco'])
        av.set_val(CP.WING_CARGO, s['wing'], 'lbm')
        av.set_val(CP.MISC_CARGO, s['misc'], 'lbm')
        av.set_val(CP.CARGO_MASS, s['cargo'], 'lbm')
    else:
        av.set_val(CP.NUM_PASSENGERS, s['pax'])
        av.set_val(CP.Design.NUM_PASSENGERS, s['pax'])
        for n in (CP.CARGO_MASS, CP.Design.CARGO_MASS):
            av.set_val(n, s['cargo'], 'lbm')
        av.set_val(CP.Design.MAX_CARGO_MASS, 12000.0, 'lbm')
    if s['conf'] in 'AB':
        av.set_val(Settings.EQUATIONS_OF_MOTION, EquationsOfMotion.CUSTOM)
    kw = dict(problem_configurator=BASES['conf' + s['conf']]) if s['conf'] in 'AB' else {}
    p.load_inputs(av, phase_info(s['eom'], s['phases'], s['cruise'], s['target']), meta_data=meta, verbosity=0, **kw)
    p._vt_info = deepcopy(dict(p.model.mission_info))
    if s['tools'] == 'extra':
        m = deepcopy(meta)
        m['aircraft:extra:thing'] = dict(deepcopy(meta['aircraft:wing:area']), default_value=1.0)
        p.load_external_subsystems([SubsystemBuilder('extra', meta_data=m)])
        p.aviary_inputs.set_val('aircraft:extra:thing', 12.5, 'ft**2')
    if s['tools'] == 'engine':
        p.load_external_subsystems([type('MyEngine', (EngineDeck,), {})('mine', options=p.aviary_inputs)])
    p.check_and_preprocess_inputs(verbosity=0)
    p.build_model(verbosity=0)
    p.add_driver('SLSQP', max_iter=s['iter'], verbosity=0)
    p.add_design_variables(verbosity=0)
    p._vt_mission = content(p._vt_info if s['eom'] == 'energy' else p.model.mission_info)  # two-dof phases convert the units of their options
    p._vt = {'aircraft:design:gross_mass': s['gross'], 'mission:range': s['range'], 'mission:gross_mass': s['flown'], 'mission:operating_mass': s['oper'],
             'aircraft:fuel:max_capacity_mass': s['capacity'], 'aircraft:fuel:unusable_fuel_mass': s['unusable'],
             'aircraft:crew_and_payload:total_payload_mass': s['payload'], 'mission:fuel_mass': s['fuel']}
    p.result = SimpleNamespace(success=s['converged'])
    if s['multi']:
        p.problem_type = ProblemType.MULTI_MISSION
    return p


def text(x):
    """canonical text of a nested value"""
    import numpy as np
    if isinstance(x, dict):
        return '{' + ','.join(f'{k}:{text(v)}' for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)):
        return '(' + ','.join(map(text, x)) + ')'
    if isinstance(x, np.ndarray):
        return 'a' + text(x.tolist())
    if isinstance(x, (int, float, str, bool, type(None), np.number)):
        return repr(x)
    try:
        return text(dict(x.items()))
    except Exception:
        return str(x) if 'object at' not in str(x) else type(x).__name__


def real(x):
    if isinstance(x, dict):
        return {k: real(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return tuple(map(real, x))
    return float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


def content(info):
    """what a mission says, but for the times of its phases and the settings of the whole mission"""
    out = {}
    for n, ph in info.items():
        if n not in ('pre_mission', 'post_mission'):
            for k, v in ph.items():
                for o, x in (v.items() if isinstance(v, dict) else [('', v)]):
                    if not o.startswith('time_'):  # building converts their units
                        out[f'{n}.{k}.{o}'] = text(real(x))
    return out


def limits(model):
    """the user's limits as the phases of the model have them"""
    out = set()
    for n, ph in model.traj._phases.items():
        for c in ph._path_constraints:
            out |= {(n, 'path', c['name'], c['lower'], c['upper'])}
        for loc, cs in (('initial', ph._initial_boundary_constraints), ('final', ph._final_boundary_constraints)):
            out |= {(n, loc, c['constraint_name'], c['lower'], c['upper']) for c in cs}
    return out


def asked(info):
    return {(n, 'path' if c['type'] == 'path' else c['loc'], k, c.get('lower'), c.get('upper')) for n, ph in info.items() if n not in ('pre_mission', 'post_mission')
            for k, c in ph['user_options'].get('constraints', {}).items()}


def inputs(av):
    return {n: text(list(vu)) for n, vu in av}


def picture(p):
    m = p.model
    return dict(inputs=inputs(p.aviary_inputs), mission=text(m.mission_info), pre=text(m.pre_mission_info), post=text(m.post_mission_info), ptype=str(p.problem_type),
                engines=[id(e) for e in m.engine_models], subs=[id(e) for e in m.external_subsystems], driver=id(p.driver), iter=p.driver.options['maxiter'],
                conf=id(m.configurator), meta=len(p.meta_data), dvs=sorted(m._static_design_vars), name=p._name, verbosity=str(p.verbosity))


def whole(x):
    import numpy as np
    return int(np.floor(float(np.ravel(x)[0]) + 1e-6))


def observe(q, before, s, mission, asks=()):
    from aviary.subsystems.propulsion.engine_deck import EngineDeck
    from aviary.utils.utils import wrapped_convert_units
    from aviary.variable_info.variables import Aircraft, Mission, Settings
    CP = Aircraft.CrewPayload
    av = q.aviary_inputs

    def g(n, u=None):
        return whole(av.get_val(n, u) if u else av.get_val(n)) if n in av else M
    info = q.model.mission_info
    ptype = str(q.problem_type.name).replace('OFF_DESIGN_', '').lower()
    if av.get_val(Settings.PROBLEM_TYPE) is not q.problem_type:
        ptype = 'mixed'
    cruise = M
    if 'cruise' in info:
        b = info['cruise']['user_options'].get('time_duration_bounds')
        if b is not None and b[0][1] is not None:
            cruise = whole(wrapped_convert_units((b[0][1], b[1]), 'min'))
    t = q.model.post_mission_info.get('target_range')
    dv = set(q.model._static_design_vars) | set(q.model._design_vars or {})
    own = {CP.NUM_FIRST_CLASS, CP.NUM_BUSINESS_CLASS, CP.NUM_ECONOMY_CLASS, CP.NUM_PASSENGERS, CP.WING_CARGO, CP.MISC_CARGO, CP.CARGO_MASS, Aircraft.Design.GROSS_MASS,
           Mission.GROSS_MASS, Mission.RANGE, Settings.PROBLEM_TYPE, Settings.VERBOSITY}
    after = inputs(av)
    differ = sorted(n for n in set(before) | set(after) if n not in own and before.get(n) != after.get(n))
    flown = content(info)
    differ += sorted(f'mission {n}: {mission[n]} -> {flown.get(n)}' for n in mission if flown.get(n) != mission[n])
    differ += sorted('no limit ' + repr(x) for x in set(asks) - limits(q.model))
    kind = 'plain'
    if [s.name for s in q.model.external_subsystems] != []:
        kind = 'extra' if [s.name for s in q.model.external_subsystems] == ['extra'] and 'aircraft:extra:thing' in q.meta_data else 'odd'
    if [type(e) for e in q.model.engine_models] != [EngineDeck]:
        kind = 'engine' if [type(e).__name__ for e in q.model.engine_models] == ['MyEngine'] and kind == 'plain' else 'odd'
    conf = type(q.model.configurator).__name__
    out = dict(refused=False, ptype=ptype, first=g(CP.NUM_FIRST_CLASS), bus=g(CP.NUM_BUSINESS_CLASS), eco=g(CP.NUM_ECONOMY_CLASS), pax=g(CP.NUM_PASSENGERS),
               wing=g(CP.WING_CARGO, 'lbm'), misc=g(CP.MISC_CARGO, 'lbm'), cargo=g(CP.CARGO_MASS, 'lbm'), design=g(Aircraft.Design.GROSS_MASS, 'lbm'),
               gross=g(Mission.GROSS_MASS, 'lbm'), guess=M, range=g(Mission.RANGE, 'NM') if ptype == 'min_fuel' else M,
               phases='+'.join(info), cruise=cruise, target=M if t is None else whole(wrapped_convert_units(t, 'NM')),
               float=[k for k, n in (('cargo', CP.CARGO_MASS), ('wing', CP.WING_CARGO), ('misc', CP.MISC_CARGO)) if n in dv], fuelfree=Mission.GROSS_MASS in dv,
               iter=int(q.driver.options['maxiter']), tools=kind, conf={'ConfA': 'A', 'ConfB': 'B'}.get(conf, conf), rest=not differ)
    if ptype == 'min_fuel':
        out['guess'], out['gross'] = out['gross'], M
        out['fuelfree'] = None
    if s['mass'] == 'GASP':
        out.update(first=M, bus=M, eco=M, wing=M, misc=M, cruise=M)
    if differ:
        out['differ'] = repr([(n, before.get(n), after.get(n)) for n in differ[:4]])
    return out


def off(p, q, s, before):
    from aviary.variable_info.enums import ProblemType
    kw = {}
    for a, k in (('first', 'num_first_class'), ('bus', 'num_business'), ('eco', 'num_economy'), ('pax', 'num_pax'), ('wing', 'wing_cargo'), ('misc', 'misc_cargo'), ('cargo', 'cargo_mass'),
                 ('mass', 'mission_gross_mass'), ('range', 'mission_range')):
        if q[a] != M:
            kw[k] = q[a]
    own = None
    if q['own']:
        own = phase_info(s['eom'], q['own'][0]['phases'], q['own'][0]['cruise'], q['own'][0]['target'])
        kw['phase_info'] = own
    if q['conf']:
        kw['problem_configurator'] = BASES['conf' + q['conf']]
    if q['name']:
        kw['name'] = q['name']
    for k in ('fillc', 'fillf'):
        if q[k]:
            kw['fill_cargo' if k == 'fillc' else 'fill_fuel'] = True
    passed, kept = text(own), deepcopy(own)
    pt = 'sizing' if q['ptype'] == 'sizing' else 'off_design_' + q['ptype']
    refused = False
    try:
        o = p.run_off_design_mission(ProblemType(pt) if q.get('member') else pt, verbosity=0, **kw)
    except UserWarning:
        refused, o = True, None
    got = dict(refused=True) if refused else observe(o, before, s, content(kept) if own else p._vt_mission, asked(kept if own else p._vt_info))
    return got, text(own) == passed, o


def history(c):
    """one sized aircraft, several requests; every step: what came out, and whether anything else changed"""
    s = c['s']
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix='vt_p14_')
    os.chdir(d)
    steps = []
    try:
        with vt.quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            key = repr(sorted(s.items()))
            kept = BASES.pop(key, None)
            if kept is None:
                for k in [k for k in BASES if k.startswith('[')]:
                    del BASES[k]
            p = kept or sized(s)
            before = picture(p)
            for st in c['steps']:
                taken = [0 if n == 'sized_off_design_out' else int(n.split('_')[-2]) for n in os.listdir('.') if n.startswith('sized_off_design')]
                RESULTS.clear()
                del BASES['made'][:]
                if st['kind'] == 'study':
                    RESULTS.update(st['res'])
                    for n in os.listdir('.'):
                        if n.endswith('.csv'):
                            os.remove(n)
                    p.run_payload_range(verbosity=st.get('verbosity', 0))
                    got = dict(missions=[observe(o, before['inputs'], s, p._vt_mission, asked(p._vt_info)) for o in BASES['made']], table=table())
                    same, name = True, M
                else:
                    got, same, o = off(p, st['q'], s, before['inputs'])
                    name = M
                    if o is not None and not st['q']['name']:
                        n = o._name
                        name = 0 if n == 'sized_off_design' else int(n.split('_')[-1]) if n.startswith('sized_off_design_') else -1
                        os.makedirs(n + '_out', exist_ok=True)
                now = picture(p)
                changed = [k for k in before if before[k] != now[k]]
                steps.append(dict(st, got=got, same=same and not changed, changed=changed, name=name, taken=taken))
                for m in got.get('missions', [got]):
                    if not m['refused'] and m['fuelfree'] is None:
                        m['fuelfree'] = bool(st.get('q', {}).get('fillf', False))
                    elif not m['refused'] and st['kind'] == 'off' and not st['q']['fillf']:
                        m['fuelfree'] = False
                before = now if changed else before
            if all(x['same'] for x in steps):
                BASES[key] = p
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return dict(s=s, steps=steps)


def table():
    import csv
    if not os.path.exists('payload_range_data.csv'):
        return []
    rows = [[x.strip() for x in r] for r in csv.reader(open('payload_range_data.csv')) if r and not r[0].startswith('#')]
    head = [h.split('(')[0].strip() for h in rows[0]]
    i = [head.index(h) for h in ('Payload', 'Fuel', 'Range')]
    return [[whole(float(r[k])) for k in i] for r in rows[1:]]


BASE = dict(mass='FLOPS', eom='energy', conf='EnergyStateProblemConfigurator', first=10, bus=15, eco=144, pax=169, dfirst=10, dbus=15, deco=144, wing=4000, misc=4077, cargo=M, gross=171000,
            range=2500, cruise=300, target=2500, phases='climb+cruise+descent', iter=7, tools='plain', converged=True, multi=False, flown=170000, oper=96000, capacity=50000,
            unusable=500, payload=32768, fuel=41000)
ASK = dict(ptype='max_range', first=M, bus=M, eco=M, pax=M, wing=M, misc=M, cargo=M, mass=M, range=M, fillc=False, fillf=False, own=[], conf='', name='')


def S(**k):
    return dict(BASE, **k)


def GASP(**k):
    return S(mass='GASP', eom='two_dof', conf='TwoDOFProblemConfigurator', first=M, bus=M, eco=M, pax=180, dfirst=M, dbus=M, deco=M, wing=M, misc=M, cargo=10000, cruise=M,
             phases='+'.join(k for k in phase_info('two_dof', '', M, 3675) if not k.endswith('_mission')), target=3675, range=3675, **k)


def R(**k):
    return dict(ASK, **k)


def results(a, b, payload=20000):
    return dict(maxfuel=dict(ok=a, payload=payload, fuel=49000, range=3910), ferry=dict(ok=b, payload=0, fuel=49500, range=4362))


def worlds(eom='energy'):
    own = [dict(phases='climb+cruise+descent', cruise=420, target=1800)]
    short = [dict(phases='climb+descent', cruise=M, target=M)]
    return [S(), S(first=0, bus=0, eco=100, pax=100, dfirst=0, dbus=0, deco=169, wing=0, misc=0, cargo=0, iter=31), S(conf='A', range=3210), S(tools='extra', flown=140000), S(tools='engine', phases='climb+descent', cruise=M),
            S(converged=False), S(multi=True), GASP()], \
        [R(), R(ptype='sizing'), R(fillc=True, fillf=True), R(ptype='min_fuel', range=1200, mass=150000), R(ptype='min_fuel', fillf=True), R(pax=50), R(eco=40), R(first=0, bus=0, eco=0), R(first=2, pax=60, cargo=3000),
         R(wing=500, misc=600, mass=140000), R(fillc=True, misc=100, wing=50), R(fillc=True, wing=70, cargo=4000), R(fillc=True, cargo=900), R(fillf=True), R(own=own), R(own=short, ptype='min_fuel', range=900), R(conf='B'), R(name='mine'),
         R(ptype='min_fuel', pax=0, own=own)]


def tla(x):
    return vt._tla(x)


def defs(sized, requests, res):
    asks = [dict(kind='off', q=q) for q in requests]
    return '\n'.join(['d_Sized == {%s}' % ', '.join(map(tla, sized)), 'd_Requests == {%s}' % ', '.join(map(tla, asks)), 'd_Results == {%s}' % ', '.join(map(tla, res))])


def run(ck):
    sized_, requests = worlds()
    res = [results(True, True), results(True, False)] if ck.quick else [results(True, True), results(True, False), results(False, True)]
    n = 2
    r = ck.tlc('P14_Offdesign', {'MaxLen': n}, defs=defs(sized_, requests, res), invariants=['Inv'], properties=['OriginalKept'],
               action_constraint='EmitCase', workers=4)
    cases = [e for e in r.emitted if len(e['hist']) == n]
    rng = random.Random(ck.seed)
    cap = 640 if ck.quick else 6000
    ck.notes['histories'] = len(cases)
    if len(cases) > cap:
        cases = rng.sample(cases, cap)
    jobs = [dict(s=c['s'], steps=[dict(h['q']) for h in c['hist']], want=c['hist']) for c in cases]
    jobs.sort(key=lambda j: repr(sorted(j['s'].items())))
    outs = ck.pmap(history, jobs, chunksize=max(1, len(jobs) // 64 + 1))
    for j, o in zip(jobs, outs):
        ck.count()
        if 'crash' in o:
            ck.violation('history', 'crash:' + o['crash'][:60], dict(s=j['s'], steps=j['steps']), 'an answer', o)
            continue
        for st, w in zip(o['steps'], j['want']):
            for f in judge(st, w):
                ck.violation('history', f, dict(s=j['s'], step=st.get('q', 'study')), w['o'], dict(got=st['got'], changed=st['changed'], name=st['name']))
    ck.tally([h['q'].get('kind') + ':' + (h['q']['q']['ptype'] if h['q']['kind'] == 'off' else '') for j in jobs for h in j['want']], 'steps')
    ck.sample(jobs[0])

    # longer random histories, judged by TLC
    k = 24 if ck.quick else 400
    made = []
    for i in range(k):
        made.append(random_history(rng, rng.randint(2, 6)))
    made.sort(key=lambda j: repr(sorted(j['s'].items())))
    outs = ck.pmap(history, made, chunksize=1)
    traces = []
    for j, o in zip(made, outs):
        ck.count()
        if 'crash' in o:
            ck.violation('trace', 'crash:' + o['crash'][:60], j, 'an answer', o)
            continue
        for st in o['steps']:
            for m in st['got'].get('missions', [st['got']]):
                if 'differ' in m:
                    m['differ'] = vt.canon(m['differ']) if not isinstance(m['differ'], str) else m['differ']
        traces.append(dict(k=len(traces), s=o['s'], steps=o['steps']))
    for b in ck.validate('P14_Trace', traces, {'MaxLen': 1}, defs=defs(sized_[:1], requests[:1], res[:1]), chunk=200):
        st = b['trace']['steps'][b['pos'] - 1]
        ck.violation('trace', '|'.join(sorted(b['bad'])), dict(s=b['trace']['s'], step={x: st[x] for x in st if x in ('kind', 'q', 'res')}), b['want'], dict(got=st['got'], changed=st['changed']))
    ck.tally([st['kind'] for t in traces for st in t['steps']], 'random')


def judge(st, w):
    bad = set() if st['same'] else {'changed'}
    if st['kind'] == 'study':
        if st['got']['table'] != w['o']['table']:
            bad.add('table')
        if len(st['got']['missions']) != len(w['o']['missions']):
            return bad | {'missions'}
        pairs = list(zip(w['o']['missions'], st['got']['missions']))
    else:
        pairs = [(w['o'], st['got'])]
        if not w['o']['refused'] and not st['got']['refused'] and not st['q']['name'] and st['name'] != w['name']:
            bad.add('name')
    for a, g in pairs:
        if a['refused'] or g['refused']:
            bad |= set() if a['refused'] == g['refused'] else {'refusal'}
            continue
        for f in a:
            if f == 'guess':
                if a[f] != M and not a[f] / 2 <= g[f] <= a[f]:
                    bad.add(f)
            elif (sorted(a[f]) != sorted(g[f])) if f == 'float' else a[f] != g[f]:
                bad.add(f)
    return sorted(bad)


def random_history(rng, n):
    s = rng.choice(worlds()[0])
    if s['mass'] == 'FLOPS':
        f, b, e = rng.randint(0, 12), rng.randint(0, 20), rng.randint(50, 150)
        s = dict(s, first=f, bus=b, eco=e, pax=f + b + e, dfirst=f + rng.randint(0, 3), dbus=b, deco=e + rng.randint(0, 30), wing=rng.choice([0, rng.randint(100, 4000)]), misc=rng.choice([0, rng.randint(100, 4000)]),
                 cargo=rng.choice([M, 0, 2500]))
    s = dict(s, gross=rng.randint(150000, 180000), range=rng.randint(1000, 4000), iter=rng.randint(1, 90), payload=2 ** rng.choice([14, 15]), oper=rng.randint(90000, 98000), unusable=rng.randint(100, 900),
             fuel=rng.randint(20000, 44000))
    s['capacity'] = rng.randint(30000, 60000)
    full = s['oper'] + s['capacity'] - s['unusable']
    s['flown'] = full + rng.choice([-1, 1]) * rng.randint(1, s['payload'])
    if s['eom'] == 'energy':
        s['cruise'] = M if s['phases'] == 'climb+descent' else rng.randint(100, 700)
        s['target'] = rng.choice([M, rng.randint(500, 4000)])
    steps = []
    while len(steps) < n:
        if rng.random() < 0.25 and s['mass'] == 'FLOPS':
            steps.append(dict(kind='study', res=results(rng.random() < 0.7, rng.random() < 0.8, rng.randint(100, 30000)), verbosity=rng.choice([0, 0, 1])))
            continue
        pick = lambda lo, hi, p=0.35: rng.randint(lo, hi) if rng.random() < p else M
        q = R(ptype=rng.choice(['max_range', 'min_fuel', 'max_range', 'min_fuel', 'sizing' if rng.random() < 0.2 else 'max_range']), first=pick(0, 12, 0.25), bus=pick(0, 12, 0.25), eco=pick(0, 150, 0.25), pax=pick(0, 200),
              wing=pick(0, 3000), misc=pick(0, 3000), cargo=pick(0, 9000), mass=pick(120000, 175000), range=pick(300, 3500), fillc=rng.random() < 0.25, fillf=rng.random() < 0.25)
        if s['mass'] == 'GASP' and q['fillc'] and q['cargo'] in (M, 0):
            continue
        if s['mass'] == 'FLOPS' and rng.random() < 0.4:
            ph = rng.choice(['climb+cruise+descent', 'climb+descent'])
            q['own'] = [dict(phases=ph, cruise=rng.randint(100, 900) if 'cruise' in ph else M, target=rng.choice([M, rng.randint(400, 3000)]))]
        if s['conf'] in 'AB' and rng.random() < 0.3:
            q['conf'] = 'B'
        if rng.random() < 0.1:
            q['name'] = 'given'
        q['member'] = rng.random() < 0.5
        steps.append(dict(kind='off', q=q))
    return dict(s=s, steps=steps)
