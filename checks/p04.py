"""P04: inputs saved as decks and as results against what is loaded back."""
import glob
import os
import random
import warnings
from copy import deepcopy

import vt

GROSS, DESIGN = 'mission:gross_mass', 'aircraft:design:gross_mass'
NUMBERS = [0, 1, 2.0, -3, 1.5, 1e-7, -0.25, 1e22, 123456789012, 0.1 + 0.2, 1 / 3, 5e-324, 1.7976931348623157e308, 100000.0, 7.0e-5]
TEXTS = ['abc', 'a b', '12', 'True', 'ft', 'models/engines/turbofan.csv', 'x<y', 'a.b', 'false', '1e3', "it's", 'None', '<enum>', 'a:b', 'user:x>', 'lbm', '-', '3.']
UNITS = {'lbm': ['lbm', 'kg', 't', 'slug'], 'ft': ['ft', 'm', 'inch'], 'ft**2': ['ft**2', 'm**2'], 'lbf': ['lbf', 'N', 'kN'], 'deg': ['deg', 'rad'], 'unitless': ['unitless'], 'NM': ['NM', 'km'],
         'kn': ['kn', 'm/s'], 'psi': ['psi', 'Pa'], 'degR': ['degR', 'degK'], 'lbm/ft': ['lbm/ft', 'kg/m'], 'hp': ['hp', 'kW'], 's': ['s', 'min'], 'lbf/ft**2': ['lbf/ft**2', 'Pa']}


def entry(x):
    from enum import Enum
    import numpy as np
    if isinstance(x, Enum):
        return dict(k='enum', v=f'{type(x).__name__}.{x.name}')
    if isinstance(x, (bool, np.bool_)):
        return dict(k='bool', v=str(bool(x)))
    if isinstance(x, (int, float, np.number)):
        return dict(k='num', v=repr(float(x)))
    return dict(k='text', v=str(x))


def entries(v):
    import numpy as np
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, np.ndarray):
        v = list(v)
    if isinstance(v, (list, tuple)):
        return [e for x in v for e in entries(x)]
    return [entry(v)]


def project(av, meta=None):
    return [dict(n=n, e=entries(v), u=str(u)) for n, (v, u) in sorted(av, key=lambda x: x[0]) if meta is None or n in meta]


def make(v):
    """a written value: dict(t, e, list, u)"""
    import numpy as np
    from pathlib import Path
    from aviary.variable_info import enums
    def one(x):
        if v['t'] == 'num':
            f = float(x) if not isinstance(x, str) else float(x)
            return int(f) if v.get('whole') else f
        if v['t'] == 'bool':
            return x in ('True', True)
        if v['t'] == 'enum':
            c, m = x.split('.')
            return getattr(enums, c)[m]
        return x
    xs = [one(x) for x in v['e']]
    kind = v['list']
    if not kind:
        return xs[0]
    return {'list': list, 'tuple': tuple, 'array': np.array}[kind](xs)


_P = []


def problem():
    """a real problem whose analysis found something"""
    import numpy as np
    if not _P:
        from aviary.core.aviary_problem import AviaryProblem
        with vt.quiet():
            _P.append(AviaryProblem(verbosity=0))
    p = _P[0]
    return p


def drive(case):
    """a history of assignments, saves and loads"""
    import numpy as np
    from openmdao.utils.units import convert_units
    from aviary.core import aviary_problem as ap
    from aviary.utils.aviary_inputs_to_csv import save_to_csv_file
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.process_input_decks import parse_inputs
    from aviary.variable_info.variable_meta_data import CoreMetaData
    p = problem()
    av = AviaryValues()
    p.model.aviary_inputs = av
    found = {GROSS: 0.0, DESIGN: 0.0}
    p.get_val = lambda n, units=None, **k: np.array([found[n]])
    steps, errs = [], []
    saved = {}
    with vt.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i, s in enumerate(case['steps']):
            rec = dict(op=s['op'], f=s.get('f', 'a'), found=['', ''], ok=True, got=[])
            path = f'p04_{os.getpid()}_{s.get("f")}'
            try:
                if s['op'] == 'set':
                    try:
                        av.set_val(s['n'], make(s['v']), s['v']['u'], meta_data=CoreMetaData)
                    except (TypeError, ValueError, KeyError):
                        pass  # not a value of this variable: what is accepted is not the matter here
                elif s['op'] == 'analyse':
                    found.update({GROSS: s['found'][0], DESIGN: s['found'][1]})
                    rec['found'] = [repr(float(x)) for x in s['found']]
                elif s['op'] == 'deck':
                    save_to_csv_file(path, av)
                    saved[s['f']] = 'deck'
                elif s['op'] == 'results':
                    p.save_results(path)
                    saved[s['f']] = 'results'
                else:
                    if saved[s['f']] == 'deck':
                        b, _ = parse_inputs(path)
                    else:
                        b = ap._read_sizing_json(path, CoreMetaData)
                    rec['got'] = project(b)
            except Exception as e:
                rec['ok'] = False
                errs.append(f"{s['op']}: {type(e).__name__}: {e}"[:200])
            rec['mem'] = project(av)
            steps.append(rec)
            if not rec['ok']:
                break
    for f in ('a', 'b'):
        if os.path.exists(f'p04_{os.getpid()}_{f}'):
            os.remove(f'p04_{os.getpid()}_{f}')
    return dict(steps=steps), errs


def drive_deck(case):
    """a deck of the repository: loaded, saved, and loaded again as an aircraft"""
    from aviary.utils.aviary_inputs_to_csv import save_to_csv_file
    from aviary.utils.process_input_decks import create_vehicle
    steps, errs = [], []
    with vt.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            av, _ = create_vehicle(case['deck'], verbosity=0)
        except Exception as e:
            return dict(steps=[]), ['skipped: ' + repr(e)[:100]]
        rec = lambda op, got=(), ok=True: steps.append(dict(op=op, f='a', found=['', ''], ok=ok, mem=project(av), got=list(got)))
        path = f'p04_{os.getpid()}_deck.csv'
        rec('set')
        try:
            save_to_csv_file(path, av)
            rec('deck')
            b, _ = create_vehicle(path, verbosity=0)
            rec('load', project(b))
        except Exception as e:
            errs.append(f'{type(e).__name__}: {e}'[:200])
            rec('load', ok=False)
        if os.path.exists(path):
            os.remove(path)
    return dict(steps=steps), errs


def drive_problem(case):
    """a set-up analysis, saved after its gross masses moved, and reloaded"""
    import importlib
    import aviary.api as av_api
    from aviary.core import aviary_problem as ap
    from aviary.variable_info.variable_meta_data import CoreMetaData
    steps, errs = [], []
    with vt.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pi = deepcopy(importlib.import_module('aviary.models.missions.' + case['mission']).phase_info)
        p = av_api.AviaryProblem(verbosity=0)
        p.load_inputs(case['deck'], pi, verbosity=0)
        p.check_and_preprocess_inputs()
        p.build_model()
        p.setup()
        p.final_setup()
        inp = p.model.aviary_inputs
        p.set_val(GROSS, case['found'][0], 'lbm')
        p.set_val(DESIGN, case['found'][1], 'lbm')
        u = {n: (inp.get_item(n)[1] if n in inp else 'lbm') for n in (GROSS, DESIGN)}
        found = [repr(float(p.get_val(n, u[n])[0])) for n in (GROSS, DESIGN)]
        rec = lambda op, got=(), ok=True: steps.append(dict(op=op, f='a', found=found, ok=ok, mem=project(inp, CoreMetaData), got=list(got)))
        rec('set')
        rec('analyse')
        path = f'p04_{os.getpid()}_problem.json'
        try:
            p.save_results(path)
            rec('results')
            rec('load', project(ap._read_sizing_json(path, CoreMetaData)))
            if case['reload']:
                # the default optimizer is not installed everywhere
                add = ap.AviaryProblem.add_driver
                ap.AviaryProblem.add_driver = lambda self, optimizer=None, **kw: add(self, optimizer='SLSQP', **kw)
                try:
                    q = ap.reload_aviary_problem(os.path.abspath(path), pi)
                finally:
                    ap.AviaryProblem.add_driver = add
                # preprocessing the reloaded inputs again derives the same ones
                rec('load', project(q.model.aviary_inputs, CoreMetaData))
        except Exception as e:
            errs.append(f'{type(e).__name__}: {e}'[:200])
            rec('load', ok=False)
        if os.path.exists(path):
            os.remove(path)
    return dict(steps=steps), errs


def any_drive(c):
    return {'history': drive, 'deck': drive_deck, 'problem': drive_problem}[c['kind']](c)


def random_value(rng, meta):
    from enum import Enum
    ts = meta['types'] if isinstance(meta['types'], tuple) else (meta['types'],)
    t = rng.choice(ts)
    many = rng.choice([0, 0, 1, 2, 3]) if meta['multivalue'] or list in ts else 0
    shape = rng.choice(['list', 'array', 'tuple']) if many else ''
    units = rng.choice(UNITS.get(meta['units'], [meta['units']]))
    if t in (float, int):
        v = dict(t='num', e=[rng.choice(NUMBERS) if t is float else rng.randint(-5, 900) for _ in range(max(many, 1))], whole=t is int)
    elif t is bool:
        v = dict(t='bool', e=[rng.choice(['True', 'False']) for _ in range(max(many, 1))])
    elif isinstance(t, type) and issubclass(t, Enum):
        v = dict(t='enum', e=[f'{t.__name__}.{rng.choice(list(t)).name}' for _ in range(max(many, 1))])
    else:
        v = dict(t='text', e=[rng.choice(TEXTS) for _ in range(max(many, 1))])
        shape = 'list' if shape == 'array' else shape
    return dict(v, list=shape, u=units)


def random_case(rng, meta, byt):
    steps, has = [], set()
    for _ in range(rng.randint(4, 14)):
        x = rng.random()
        if x < .55 or not has and x > .8:
            n = rng.choice(byt[rng.choice(list(byt))]) if rng.random() < .85 else rng.choice([GROSS, DESIGN])
            steps.append(dict(op='set', n=n, v=random_value(rng, meta[n])))
        elif x < .62:
            steps.append(dict(op='analyse', found=[rng.choice([1.0, 150000.5, 99999.0]), rng.choice([2.0, 170000.25, 88888.0])]))
        elif x < .8 or not has:
            f = rng.choice('ab')
            has.add(f)
            steps.append(dict(op=rng.choice(['deck', 'results']), f=f))
        else:
            steps.append(dict(op='load', f=rng.choice(sorted(has))))
    for f in sorted(has):
        steps.append(dict(op='load', f=f))
    return dict(kind='history', steps=steps)


ENUM = ['GASPEngineType.RECIP_CARB', 'GASPEngineType.TURBOJET', 'LegacyCode.GASP']
CODES = dict(zip(ENUM, ['1', '7', 'GASP']))


def model():
    e = lambda k, *v: [dict(k=k, v=x) for x in v]
    names = [dict(n='aircraft:wing:span', t='num', many=False, u='ft'), dict(n='aircraft:engine:mass', t='num', many=True, u='lbm'), dict(n='aircraft:design:use_alt_mass', t='bool', many=False, u='unitless'),
             dict(n='aircraft:engine:data_file', t='text', many=True, u='unitless'), dict(n='aircraft:engine:type', t='enum', many=True, u='unitless'), dict(n=GROSS, t='num', many=False, u='lbm'),
             dict(n=DESIGN, t='num', many=False, u='lbm')]
    vals = []
    for u in ('ft', 'lbm', 'kg'):
        vals += [dict(e=e('num', '1.5'), list=False, u=u), dict(e=e('num', '12.0'), list=True, u=u), dict(e=e('num', '1.5', '12.0'), list=True, u=u)]
    vals += [dict(e=e('bool', 'True'), list=False, u='unitless'), dict(e=e('bool', 'False'), list=False, u='unitless')]
    for k, a, b in (('text', 'a.csv', 'ft'), ('text', '12', 'lbm'), ('enum', ENUM[0], ENUM[1])):
        vals += [dict(e=e(k, a), list=False, u='unitless'), dict(e=e(k, b), list=True, u='unitless'), dict(e=e(k, a, b), list=True, u='unitless')]
    return names, vals


def run(ck):
    from aviary.variable_info.variable_meta_data import CoreMetaData as meta
    rng = random.Random(ck.seed)
    names, vals = model()
    tset = lambda xs: '{' + ', '.join(vt._tla(x) for x in xs) + '}'
    codes = '(' + ' @@ '.join(f'"{k}" :> "{v}"' for k, v in CODES.items()) + ')'
    defs = f'd_Vars == {tset(names)}\nd_Values == {tset(vals)}\nd_Codes == {codes}\nd_Masses == {{"1.0", "2.5"}}\nd_Depth == {4 if ck.quick else 5}'
    r = ck.tlc('P04_SaveLoad', {}, defs=defs, invariants=['Restored', 'Survives', 'KeepsRest'], properties=['Harmless'], action_constraint='EmitCase', workers=6)
    seen, cases = set(), []
    listed = {n['n']: n['many'] for n in names}
    for m in r.emitted:
        key = vt.canon(dict(m=m['mem'] if m['kind'] == 'deck' else m['was'], k=m['kind']))
        if key in seen:
            continue
        seen.add(key)
        steps = []
        src = [x for x in (m['was'])]
        fm = {x['n']: x for x in src}
        def put(x):
            v = dict(t=x['e'][0]['k'], e=[y['v'] for y in x['e']], u=x['u'], list=rng.choice(['list', 'array' if x['e'][0]['k'] != 'text' else 'list']) if len(x['e']) > 1 or (listed[x['n']] and rng.random() < .5) else '')
            steps.append(dict(op='set', n=x['n'], v=v))
        for x in src:
            put(x)
        if m['kind'] == 'results':
            steps.append(dict(op='analyse', found=[float(fm[n]['e'][0]['v']) if n in fm else 3.0 for n in (GROSS, DESIGN)]))
        steps.append(dict(op=m['kind'], f='a'))
        for x in m['mem']:
            if x['n'] not in fm or fm[x['n']]['e'] != x['e']:
                put(x)
        steps.append(dict(op='load', f='a'))
        cases.append(dict(kind='history', steps=steps))
    ck.require(len(cases) > 100, 'saved inputs')
    byt = {}
    for n, m in meta.items():
        if n.startswith(('aircraft', 'mission', 'settings')):
            byt.setdefault((str(m['types']), m['multivalue']), []).append(n)
    cases += [random_case(rng, meta, byt) for _ in range(900 if ck.quick else 20000)]
    root = os.path.join(vt.REPO, 'aviary')
    decks = sorted(glob.glob(root + '/models/aircraft/**/*.csv', recursive=True) + glob.glob(root + '/validation_cases/validation_data/test_models/*.csv'))
    cases += [dict(kind='deck', deck=d) for d in decks]
    bench = 'validation_cases/validation_data/test_models/aircraft_for_bench_'
    problems = [('FwFm', 'energy_state_default', True), ('GwGm', 'two_dof_default', True)] + ([('GwFm', 'energy_state_default', True), ('FwGm', 'two_dof_default', True)] if not ck.quick else [])
    first = [dict(kind='problem', deck=f'{bench}{d}.csv', mission=m, found=[rng.choice([150000., 160000.]), rng.choice([170000., 180000.])], reload=x) for d, m, x in problems]
    cases = first + cases
    traces, errs, kept = [], [], []
    for c, out in zip(cases, ck.pmap(any_drive, cases, chunksize=8)):
        if isinstance(out, dict):
            raise vt.MachineryError(out['tb'])
        rec, err = out
        rec['k'] = len(traces)
        traces.append(rec)
        errs.append(err)
        kept.append(c)
    for b in ck.validate('P04_Trace', traces, {}, defs=defs.replace(f'd_Codes == {codes}', 'd_Codes == <<>>'), chunk=300):
        t = b['trace']
        c = kept[t['k']]
        bad = sorted(b['bad'])
        ty = lambda n: '' if n not in meta else getattr(meta[n]['types'], '__name__', 'several')
        x = bad[0]
        ck.violation('saved', f"{c['kind']}|{x[0]}|{x[1] if x[1] == 'fails' else ty(x[1]) or x[1]}", c, b['want'], dict(bad=bad[:20], error=errs[t['k']], steps=t['steps'][-3:] if len(str(t['steps'])) < 4000 else ''))
    ck.count(len(traces))
    ops = [s['op'] for t in traces for s in t['steps']]
    ck.tally(ops, 'operations')
    ck.tally([c['kind'] for c in kept], 'histories')
    ck.tally([e['k'] + ('s' if len(s['mem'][i]['e']) > 1 else '') for t in traces for s in t['steps'][-1:] for i in range(len(s['mem'])) for e in s['mem'][i]['e'][:1]], 'values held')
    ck.require(ops.count('load') > 500, 'loads')
    ck.sample(dict(case=kept[-1], steps=len(traces[-1]['steps'])))
