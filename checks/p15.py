"""P15: options reach the components that declare them."""
import copy
import random
import vt

MENU = dict(B='aircraft:engine:propeller:num_blades', R='aircraft:engine:fixed_rpm', T='mission:taxi:duration', E='settings:problem_type', K='aircraft:engine:num_engines')
UNITS = {'rpm': ('rpm', 1, 'rpm'), 'rev/s': ('rpm', 60, 'rpm'), 's': ('time', 1, 's'), 'min': ('time', 60, 's'), 'h': ('time', 3600, 's'),
         'ft': ('len', 12, 'inch'), 'inch': ('len', 1, 'inch'), 'lbm': ('mass', 16, 'oz'), 'oz': ('mass', 1, 'oz'), 'klbm': ('mass', 16000, 'oz'),
         'lbm/h': ('flow', 1, 'lbm/h'), 'lbm/min': ('flow', 60, 'lbm/h'), 'lbf': ('force', 1, 'lbf'), 'klbf': ('force', 1000, 'lbf'),
         'm/s**2': ('acc', 100, 'cm/s**2'), 'cm/s**2': ('acc', 1, 'cm/s**2'), 'kg/m**3': ('rho', 1000, 'g/m**3'), 'g/m**3': ('rho', 1, 'g/m**3'), 'deg': ('ang', 1, 'deg')}
FACTOR = {u: x[1] for u, x in UNITS.items()}
PATHS = ['wing', 'pre_mission.mass.wing', 'traj.phases.climb.rhs_all.core_aerodynamics', 'core_propulsion.propulsion_sum', 'propulsion.pylon', 'traj.phases.cruise.rhs_all.eng', 'pre_mission.eng_2.geometry', 'core_propulsion']
EPATHS = ['core_propulsion.{e}', 'pre_mission.core_propulsion.{e}', 'traj.phases.climb.rhs_all.core_propulsion.{e}.grp.deep', 'propulsion.{e}.motor', 'phases.x.rhs_all.core_propulsion.{e}.turboprop.propulsion_parts.hs']


def alt(u):
    """units in an integer ratio to u"""
    return [x for x in UNITS if u in UNITS and UNITS[x][0] == UNITS[u][0]]


def engine_options():
    from aviary.variable_info.variables import Aircraft
    E = Aircraft.Engine
    return {E.Motor.DATA_FILE, E.Propeller.COMPUTE_INSTALLATION_LOSS, E.Propeller.DATA_FILE, E.Propeller.NUM_BLADES, E.SUBSONIC_FUEL_FLOW_SCALER, E.SUPERSONIC_FUEL_FLOW_SCALER,
            E.FUEL_FLOW_SCALER_CONSTANT_TERM, E.FUEL_FLOW_SCALER_LINEAR_TERM, E.RPM_DESIGN, E.FIXED_RPM, E.CONSTANT_FUEL_MASS_CONSUMPTION}


class Coder:
    """values that are not numbers are written as codes"""

    def __init__(self):
        self.tab = {}

    def code(self, x):
        import numpy as np
        if isinstance(x, np.generic):
            x = x.item()
        if isinstance(x, bool) or not isinstance(x, (int, float)) or type(x).__name__ not in ('int', 'float'):
            return [self.tab.setdefault(f'{type(x).__name__}:{x}', 5000000 + len(self.tab)), 1]
        return vt.rat(x)

    def value(self, v):
        import numpy as np
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        if isinstance(v, (list, tuple, np.ndarray)):
            return dict(s=False, v=[self.code(x) for x in (v.tolist() if isinstance(v, np.ndarray) else v)])
        return dict(s=True, v=[self.code(v)])


def amount(v, u, w):
    """v in unit u expressed in w"""
    import numpy as np
    from openmdao.utils.units import convert_units
    if v is None or u == w:
        return v
    if isinstance(v, (list, tuple)):
        return [convert_units(x, u, w) for x in v]
    return convert_units(v, u, w)


def build(missions, mode, meta):
    """missions: {name: (engine names, AviaryValues, [(path, instance)])} -> problem after setup"""
    import openmdao.api as om
    from aviary.variable_info.functions import setup_model_options

    class Eng:
        def __init__(self, n):
            self.name = n

    class Mission(om.Group):
        def set_initial_guesses(self, *a, **kw):
            pass

    def tree(root, comps):
        nodes = {'': root}
        for path, inst in comps:
            parent = ''
            parts = path.split('.')
            for x in parts[:-1]:
                key = f'{parent}.{x}' if parent else x
                if key not in nodes:
                    nodes[key] = nodes[parent].add_subsystem(x, om.Group())
                parent = key
            nodes[parent].add_subsystem(parts[-1], inst)
    if mode.startswith('aviary'):
        from aviary.core.aviary_problem import AviaryProblem
        from aviary.variable_info.enums import ProblemType
        p = AviaryProblem(problem_type=ProblemType.MULTI_MISSION if mode == 'aviary-multi' else ProblemType.SIZING, verbosity=0)
    else:
        p = om.Problem()
    single = mode in ('aviary', 'plain')
    groups = {}
    for m, (fleet, opts, comps) in missions.items():
        g = Mission()
        tree(g, comps)
        g.engine_models = [Eng(n) for n in fleet]
        g.aviary_inputs, g.meta_data = opts, meta
        groups[m] = g
        if single:
            p.model = g
        else:
            p.model.add_subsystem(m, g)
    p.meta_data = meta
    if mode == 'aviary':
        p.aviary_inputs = opts
        p.setup()
    elif mode == 'aviary-multi':
        p.aviary_groups_dict = groups
        p.setup()
    else:
        for m, g in groups.items():
            if single:
                setup_model_options(p, g.aviary_inputs, meta, engine_models=g.engine_models)
            else:
                setup_model_options(p, g.aviary_inputs, meta, prefix=m, group=g)
        p.setup()
    return p


def stub(decls, group, meta):
    """component or group declaring options: [(name, units or None, own default or None)]"""
    import openmdao.api as om
    from aviary.variable_info.functions import add_aviary_option

    class C(om.Group if group else om.ExplicitComponent):
        def initialize(self):
            for n, u, d in decls:
                kw = {}
                if u:
                    kw['units'] = u
                if d is not None:
                    kw['val'] = d
                add_aviary_option(self, n, meta_data=meta, **kw)
    return C()


def holder(k):
    from aviary.variable_info.enums import ProblemType
    return list(ProblemType)[k % len(ProblemType)]


def gen_meta():
    from aviary.variable_info.variable_meta_data import CoreMetaData
    meta = {v: copy.deepcopy(CoreMetaData[v]) for v in MENU.values()}
    for k, d in (('B', 4), ('R', 60), ('T', 3600), ('K', 2)):
        meta[MENU[k]]['default_value'] = d
    meta[MENU['T']]['units'] = 's'
    meta[MENU['E']]['default_value'] = holder(0)
    return meta


def payload(o, v, s):
    import numpy as np
    v = [x[0] for x in v]
    if o == 'E':
        return holder(v[0])
    return v[0] if s else v


def one(c):
    """generated case"""
    import numpy as np
    from aviary.utils.aviary_values import AviaryValues
    rng = random.Random(c['seed'])
    meta = gen_meta()
    missions, where, comps = {}, [], {m: [] for m in c['fleet']}
    groups = {}
    for k, e in enumerate(c['all']):
        p, d = e['p'], e['d']
        # several declarations of one option need several components
        n = sum(1 for x in where if (x[0], x[1]) == (p['m'], p['e']) and x[2]['o'] == d['o'])
        groups.setdefault((p['m'], p['e'], n), []).append(k)
        where.append((p['m'], p['e'], d, p))
    inst = {}
    for (m, e, n), ks in groups.items():
        decls = []
        for k in ks:
            d = c['all'][k]['d']
            own = payload(d['o'], d['d']['v'], d['d']['s']) if d['own'] else None
            q = c['opts'][d['o']]
            decls.append((MENU[d['o']], d['u'] if d['u'] and (d['u'] != q['unit'] or rng.random() < .5) else None, own))
        i = stub(decls, rng.random() < .4, meta)
        comps[m].append(((rng.choice(EPATHS).format(e=e) if e else rng.choice(PATHS)) + f'.c{n}', i))
        for k in ks:
            inst[k] = i
    for m, fleet in c['fleet'].items():
        opts = AviaryValues()
        items = list(c['given'][m].items()) if c['given'][m] else []
        rng.shuffle(items)
        for o, x in items:
            v = payload(o, x['v'], x['s'])
            if not x['s']:
                v = rng.choice([np.array(v), list(v)]) if o != 'R' else np.array(v, dtype=float)
            opts.set_val(MENU[o], v, x['u'] or 'unitless', meta_data=meta) if o != 'E' else opts.set_val(MENU[o], v, meta_data=meta)
        missions[m] = (fleet, opts, comps[m])
    mode = rng.choice(['multi', 'aviary-multi'])
    before = {m: repr(sorted((k, str(v)) for k, v in x[1])) for m, x in missions.items()}
    build(missions, mode, meta)
    coder = Coder()
    got = []
    for k, e in enumerate(c['all']):
        d = e['d']
        v = inst[k].options[MENU[d['o']]]
        u = c['opts'][d['o']]['unit']
        if u:
            v, unit = v
            if unit != d['u']:
                v = 'unit ' + str(unit)
        if d['o'] == 'E':
            v = list(type(holder(0))).index(v) % len(type(holder(0))) if isinstance(v, type(holder(0))) else str(v)
        got.append(coder.value(v))
    changed = [m for m, x in missions.items() if before[m] != repr(sorted((k, str(v)) for k, v in x[1]))]
    return dict(got=got, changed=changed)


# ------------------------------------------------------------ real components

_CLASSES = None
ENGINE_CLASSES = ('EngineScaling', 'MotorMap', 'MotorMission', 'PreHamiltonStandard', 'HamiltonStandard', 'PostHamiltonStandard', 'PropellerMap', 'PropellerPerformance')


def classes():
    """every component and group class of the package that declares options, with its option defaults"""
    global _CLASSES
    if _CLASSES is not None:
        return _CLASSES
    import importlib
    import pkgutil
    import aviary
    import openmdao.api as om
    from aviary.variable_info.variable_meta_data import CoreMetaData
    found = {}
    for m in pkgutil.walk_packages(aviary.__path__, 'aviary.'):
        if any(x in m.name for x in ('test', 'validation', 'docs', 'models', 'benchmark', 'visualization', 'examples')):
            continue
        try:
            mod = importlib.import_module(m.name)
        except Exception:
            continue
        for n, o in vars(mod).items():
            if isinstance(o, type) and issubclass(o, (om.Group, om.ExplicitComponent, om.ImplicitComponent)) and o.__module__ == m.name:
                try:
                    inst = o()
                except Exception:
                    continue
                names = [k for k in inst.options._dict if k in CoreMetaData]
                if names:
                    found[f'{o.__module__}.{n}'] = (o, {k: inst.options[k] for k in names})
    _CLASSES = found
    return found


def inert(cls):
    ns = {k: (lambda self, *a, **kw: None) for k in ('setup', 'configure', 'setup_partials')}
    return type(cls.__name__, (cls,), ns)


def rand_value(rng, o, meta, n):
    """a random value of option o for a fleet of n engines -> (python value, unit)"""
    import enum
    import numpy as np
    from aviary.utils.utils import cast_type
    t = meta[o]['types']
    t = t if isinstance(t, tuple) else (t,)
    unit = meta[o]['units']

    def scalar():
        x = rng.choice(t)
        if isinstance(x, type) and issubclass(x, enum.Enum):
            return rng.choice(list(x))
        if x is bool:
            return rng.random() < .5
        if x is str:
            return rng.choice(['a.csv', 'deck_b.txt', 'Mach', 'x y'])
        if x is float:
            return float(rng.randint(0, 40)) / rng.choice([1, 1, 4])
        return rng.randint(0, 9)
    if meta[o]['multivalue'] and (o.startswith('aircraft:engine') or rng.random() < .7):
        k = n if o.startswith('aircraft:engine') else rng.randint(1, 4)
        a = scalar()
        same = [s for s in (scalar() for _ in range(40)) if type(s) is type(a)]
        v = [a] + same[:k - 1]
        while len(v) < k:
            v.append(a)
        if isinstance(a, (int, float)) and not isinstance(a, bool) and rng.random() < .6 or (unit not in (None, 'unitless')):
            v = np.array(v)
    else:
        v = scalar()
    if unit in (None, 'unitless'):
        return v, 'unitless'
    us = alt(unit)
    u = rng.choice(us) if us else unit
    w = [float(int(x)) for x in v] if not isinstance(v, float) else float(int(v))
    return (np.array(w) if isinstance(w, list) else w), u


def world(c):
    """random world: real classes and stubs in up to three missions -> traces"""
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.variable_meta_data import CoreMetaData
    rng = random.Random(c['seed'])
    meta = CoreMetaData
    names = [k for k, v in meta.items() if v['option']]
    eopts = engine_options()
    mode = c['mode']
    nm = 1 if mode in ('plain', 'aviary') else rng.randint(1, 3)
    mnames = rng.sample(['m', 'm1', 'm12', 'cargo', 'climb', 'propulsion'], nm)
    missions, watch = {}, []
    for m in mnames:
        fleet = rng.sample(['eng', 'eng_2', 'eng_21', 'fan', 'grp', 'a', 'turboprop', 'propulsion_sum2'], rng.choice([1, 1, 2, 2, 3]))
        opts = AviaryValues()
        given = {}
        for o in rng.sample(names, rng.randint(0, len(names))):
            v, u = rand_value(rng, o, meta, len(fleet))
            try:
                opts.set_val(o, v, u)
            except Exception as e:
                raise vt.MachineryError(f'{o} {v!r} {u}: {e}')
            given[o] = (v, u)
        comps = []
        used = set()
        for name in c['classes'][m] if isinstance(c['classes'], dict) else rng.sample(c['classes'], rng.randint(3, 25)):
            cls, defaults = classes()[name]
            e = rng.choice(fleet) if cls.__name__ in ENGINE_CLASSES else ''
            path = (rng.choice(EPATHS).format(e=e) if e else rng.choice(PATHS)) + f'.{cls.__name__}'
            if path in used or (not e and clash(path, fleet)):
                continue
            used.add(path)
            i = inert(cls)()
            comps.append((path, i))
            watch.append((m, e, i, defaults, None))
        for n in range(rng.randint(1, 8)):
            e = rng.choice(fleet + [''])
            decls = []
            for o in rng.sample(names, rng.randint(1, 6)):
                unit = meta[o]['units']
                w, d = None, None
                if unit not in (None, 'unitless') and alt(unit) and rng.random() < .6:
                    w = rng.choice(alt(unit))
                if rng.random() < .4:
                    d = rand_value(rng, o, meta, 1)[0]
                if e and meta[o]['multivalue'] and o not in eopts:
                    continue
                if (d is None and w is None and unit not in (None, 'unitless') and meta[o]['default_value'] is None):
                    continue
                decls.append((o, w, d))
            path = (rng.choice(EPATHS).format(e=e) if e else rng.choice(PATHS)) + f'.s{n}'
            if not decls or path in used or (not e and clash(path, fleet)):
                continue
            used.add(path)
            i = stub(decls, rng.random() < .4, meta)
            comps.append((path, i))
            watch.append((m, e, i, None, decls))
        missions[m] = (fleet, opts, comps, given)
    build({m: x[:3] for m, x in missions.items()}, mode, meta)
    traces = []
    for m, (fleet, opts, comps, given) in missions.items():
        coder = Coder()

        def plain(v, u, o, tag=''):
            """value of option o, in its canonical unit when the unit it has is not of the specification"""
            if tag:
                v = amount(v, u, UNITS[meta[o]['units']][2])
            return coder.value(v)
        G = {}
        for o, (v, u) in given.items():
            G[o] = dict(plain(v, u, o), u='' if u == 'unitless' else u)
            if meta[o]['units'] not in (None, 'unitless'):
                G[o + '#'] = dict(plain(v, u, o, '#'), u='')
        got = []
        for mm, e, i, defaults, decls in watch:
            if mm != m:
                continue
            for o, w, d in (decls if decls is not None else [(o, None, x) for o, x in defaults.items()]):
                unit = meta[o]['units']
                has = unit not in (None, 'unitless')
                v = i.options[o]
                if decls is None and has:
                    d, w = d
                want, tag = '', ''
                if has:
                    v, vu = v
                    want = w or unit
                    tag = '' if want in UNITS else '#'
                    r = plain(v, vu, o, tag) if vu == want else dict(s=True, v=[[0, -1]])
                else:
                    r = plain(v, None, o)
                own = decls is None or d is not None
                u = '' if tag else want
                got.append(dict(p=dict(m=m, e=e), d=dict(o=o + tag, u=u, own=own, d=plain(d, want, o, tag) if own else coder.value(0)),
                                q=dict(eng=o in eopts, vec=False, unit='' if tag or not has else unit, **{'def': plain(meta[o]['default_value'], unit, o, tag)}), v=r, c=type(i).__name__))
        traces.append(dict(fleet=fleet, given=G, got=got))
    return traces


def clash(path, fleet):
    """a component outside every engine whose path looks like one inside"""
    parts = path.split('.')
    return any(a.endswith('propulsion') and b in fleet for a, b in zip(parts, parts[1:]))


def run(ck):
    rng = random.Random(ck.seed)
    opts = dict(B=dict(eng=True, vec=True, unit='', d=4), R=dict(eng=True, vec=True, unit='rpm', d=60), T=dict(eng=False, vec=False, unit='s', d=3600),
                E=dict(eng=False, vec=False, unit='', d=0), K=dict(eng=False, vec=True, unit='', d=2))

    def sc(n):
        return dict(s=True, v=[[n, 1]])

    def decl(o, u='', own=None):
        return dict(o=o, u=u, own=own is not None, d=sc(own or 0))
    decls = [decl('B'), decl('B', own=9), decl('R', 'rpm'), decl('R', 'rev/s'), decl('R', 'rev/s', 7), decl('T', 's'), decl('T', 'h', 3), decl('T', 'min'), decl('E'), decl('E', own=1)]
    if not ck.quick:
        decls += [decl('K'), decl('K', own=5)]
    fleets = [{'m': ['eng', 'eng_2'], 'm1': ['eng_2']}] + ([] if ck.quick else [{'m': ['fan', 'eng', 'eng_2'], 'm1': ['eng', 'fan']}])
    cases = []
    for fl in fleets:
        places = [dict(m=m, e=e) for m, f in fl.items() for e in [''] + f]
        os = {k: dict(eng=q['eng'], vec=q['vec'], unit=q['unit'], **{'def': sc(q['d'])}) for k, q in opts.items() if not (ck.quick and k == 'K')}
        fn = lambda d: ' @@ '.join(f'({vt._tla(k)} :> {vt._tla(v)})' for k, v in d.items())
        defs = '\n'.join([f'd_Opts == {fn(os)}', f'd_Factor == {fn(FACTOR)}', f'd_Fleet == {fn(fl)}', 'd_Places == {' + ', '.join(vt._tla(x) for x in places) + '}',
                          'd_Decls == {' + ', '.join(vt._tla(x) for x in decls) + '}', 'd_Values == {<<1, 1>>, <<2, 1>>}', 'd_GivenUnits == [B |-> {""}, R |-> {"rpm", "rev/s"}, T |-> {"s", "h"}, E |-> {""}, K |-> {""}]',
                          f'd_MaxGiven == 2'])
        r = ck.tlc('P15_Options', defs=defs, invariants=['SameAmount'], properties=['Isolated', 'OwnEntry'], action_constraint='EmitCase', workers=6)
        seen = {}
        for e in r.emitted:
            seen[vt.canon(e['given'])] = e
        for e in seen.values():
            # a component in an engine that asks for a vector which is not sliced is not a case of the statement
            al = [x for x in e['all'] if not (x['p']['e'] and x['d']['o'] == 'K')]
            cases.append(dict(given=e['given'], all=al, fleet=fl, opts=os, seed=rng.random()))
    ck.notes['generated'] = len(cases)
    cap = 500 if ck.quick else 12000
    if len(cases) > cap:
        cases = rng.sample(cases, cap)
        ck.exhaustive = False
    for c, got in zip(cases, ck.pmap(one, cases)):
        show = dict(given=c['given'], fleet=c['fleet'], seed=c['seed'])
        if 'crash' in got:
            ck.violation('crash', got['crash'], show, None, got)
            continue
        if got['changed']:
            ck.violation('inputs-changed', 'replay', show)
        for x, g in zip(c['all'], got['got']):
            if x['v'] != g:
                ck.violation('engine-entry' if x['p']['e'] and c['opts'][x['d']['o']]['eng'] else 'value', f"{x['d']['o']}|{x['d']['u']}", dict(show, p=x['p'], d=x['d']), x['v'], g)
    ck.count(sum(len(c['all']) for c in cases))
    ck.sample(dict(given=cases[-1]['given'], all=cases[-1]['all'][:3]))

    # every component of the package, random worlds
    with vt.quiet():
        cl = sorted(classes())
    ck.require(len(cl) > 100, f'classes {len(cl)}')
    ck.notes['classes'] = len(cl)
    worlds = [dict(seed=rng.random(), mode=rng.choice(['plain', 'aviary', 'multi', 'aviary-multi']), classes=cl) for _ in range(400 if ck.quick else 3000)]
    traces = []
    for w, ts in zip(worlds, ck.pmap(world, worlds)):
        if isinstance(ts, dict):
            ck.violation('crash', ts['crash'], w['seed'], None, ts)
            continue
        traces += ts
    for b in ck.validate('P15_Trace', traces, defs=defs, chunk=400):
        x = b['trace']['got'][b['pos'] - 1]
        ck.violation(b['bad'][0], f"{x['d']['o']}|{x['c']}", dict(p=x['p'], c=x['c'], d=x['d'], fleet=b['trace']['fleet'], given=b['trace']['given'].get(x['d']['o'])), b['want'], x['v'])
    ck.tally([('engine' if x['p']['e'] else 'plain') + ('-given' if x['d']['o'] in t['given'] else '-default') for t in traces for x in t['got']], 'deliveries')
    ck.notes['classes_reached'] = len({x['c'] for t in traces for x in t['got']})
    ck.notes['options_reached'] = len({x['d']['o'] for t in traces for x in t['got']})
