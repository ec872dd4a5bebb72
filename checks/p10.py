"""P10: user values override computed ones, with exactly one source per variable (real groups with stub models)."""
import contextlib
import os
import random
import re
import shutil
import warnings
import vt

SCALAR = [('aircraft:horizontal_tail:mass', ['lbm', 'kg']), ('aircraft:wing:area', ['ft**2', 'm**2']), ('aircraft:fuselage:wetted_area', ['ft**2', 'inch**2']),
          ('aircraft:wing:span', ['ft', 'm', 'inch']), ('aircraft:vertical_tail:taper_ratio', ['unitless']), ('mission:landing:touchdown_mass', ['lbm', 'kg', 'g']),
          ('aircraft:design:touchdown_mass_max', ['lbm', 'kg']), ('aircraft:fuselage:length', ['ft', 'm']), ('mission:takeoff:field_length', ['ft', 'km']),
          ('aircraft:custom:load', ['kg', 'lbm'])]
VECTOR = [('aircraft:nacelle:wetted_area', ['ft**2', 'm**2']), ('aircraft:engine:additional_mass', ['lbm', 'kg']), ('aircraft:nacelle:avg_length', ['ft', 'inch'])]
DEPTHS = ['comp', 'group', 'nested', 'nested-alias']


def metadata():
    from aviary.variable_info.variable_meta_data import CoreMetaData
    m = dict(CoreMetaData)
    m['aircraft:custom:load'] = dict(CoreMetaData['aircraft:wing:span'], units='kg', default_value=0.0, desc='of a user', historical_name=None)
    return m


def conv(x, a, b):
    from openmdao.utils.units import convert_units
    return x if a == b else convert_units(x, a, b)


def models():
    import numpy as np
    import openmdao.api as om
    from aviary.subsystems.subsystem_builder import SubsystemBuilder

    class Prod(om.ExplicitComponent):
        """entry k is c + 7k + 2 * sum of everything read, all in the units of the metadata"""
        def initialize(self):
            self.options.declare('spec')

        def setup(self):
            s = self.options['spec']
            for name, local, u, n in s['reads']:
                self.add_input(local, np.full(n, s['junk']), units=u)
            if s['out']:
                self.add_output(s['local'], np.full(s['n'], s['junk']), units=s['units'])
                if s['reads']:
                    self.declare_partials('*', '*', method='fd')

        def compute(self, inputs, outputs):
            s = self.options['spec']
            tot = 0.
            got = {}
            for name, local, u, n in s['reads']:
                base = [conv(float(v), u, s['base'][name]) for v in np.ravel(inputs[local])]
                got[name] = base
                tot += sum(base)
            s['log'][s['id']] = got
            if s['out']:
                outputs[s['local']] = [conv(s['c'] + 7 * (k + 1) + 2 * tot, s['base'][s['out']], s['units']) for k in range(s['n'])]

    class Grp(om.Group):
        def initialize(self):
            self.options.declare('parts', default=[])
            self.options.declare('overrides', default=None)

        def setup(self):
            self.options['auto_order'] = True
            for p in self.options['parts']:
                spec, depth = p['spec'], p['depth']
                ins = [(loc, nm) if loc != nm else nm for nm, loc, _, _ in spec['reads']]
                outs = [(spec['local'], spec['out']) if spec['local'] != spec['out'] else spec['out']] if spec['out'] else []
                home = self
                if 'nested' in depth:
                    home = self.add_subsystem('in_' + spec['id'], om.Group(), promotes_inputs=['*'], promotes_outputs=['*'])
                home.add_subsystem(spec['id'], Prod(spec=spec), promotes_inputs=ins, promotes_outputs=outs)

        def configure(self):
            self.code_origin_overrides = None
            lost = []
            for p in self.options['parts']:
                if p.get('lost'):
                    s = p['spec']
                    home = getattr(self, 'in_' + s['id']) if 'nested' in p['depth'] else self
                    home.promotes(s['id'], outputs=[(s['out'], 'CODE_ORIGIN_OVERRIDE:' + s['out'])])
                    lost.append(getattr(home, s['id']).pathname + '.' + s['out'])
            if lost:
                self.code_origin_overrides = lost

    class Stub(SubsystemBuilder):
        def __init__(self, name, parts):
            super().__init__(name=name)
            self.parts = parts

        def build_pre_mission(self, aviary_inputs=None, subsystem_options=None):
            if not self.parts:
                return Grp() if self.name == 'propulsion' else None
            if len(self.parts) == 1 and self.parts[0]['depth'] == 'comp':
                return Prod(spec=self.parts[0]['spec'])
            return Grp(parts=self.parts)
    return Prod, Grp, Stub


_C = {}


def drive(case):
    """set up and run the world; returns the record for TLC"""
    import numpy as np
    import openmdao.api as om
    from aviary.core.aviary_group import AviaryGroup
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.enums import EquationsOfMotion, LegacyCode, ProblemType
    if 'm' not in _C:
        _C['m'] = models()
        _C['meta'] = metadata()
    Prod, Grp, Stub = _C['m']
    meta = _C['meta']
    w, names = case['w'], case['names']
    rng = random.Random(case['seed'])
    base = {n: meta[n]['units'] for n, _ in names}
    log = {}
    count = [0]

    def spec(i, prod, alias):
        count[0] += 1
        reads = []
        for j in prod['reads'] if prod else i:
            nm, us = names[j - 1]
            reads.append((nm, rng.choice([nm, f'in_{j}']) if prod else nm, rng.choice(us), w[j - 1]['n']))
        s = dict(id=f'p{count[0]}', reads=reads, base=base, log=log, out=None, junk=rng.choice([1., 3.5, 100.]))
        if prod:
            nm, us = names[i]
            s.update(out=nm, local='y' if alias else nm, units=rng.choice(us), n=w[i]['n'], c=prod['c'])
        return s

    def plainly(s):
        s['reads'] = [(a, a, u, n) for a, _, u, n in s['reads']]
    core = [[] for _ in range(5)]
    outside = [[] for _ in range(3)]     # propulsion and two external subsystems
    for i, v in enumerate(w):
        if len(v['core']) == 2:
            b = rng.randrange(5)
            for k, p in enumerate(v['core']):
                lost = k + 1 != v['pref']
                d = rng.choice(['group', 'nested'] if lost else DEPTHS[1:3])
                core[b].append(dict(spec=spec(i, p, False), depth=d, lost=lost))
        elif v['core']:
            d = rng.choice(DEPTHS)
            s = spec(i, v['core'][0], 'alias' in d)
            b = rng.randrange(5)
            if d == 'comp':
                free = [x for x in range(5) if not core[x]]
                if not free:
                    d = 'group'
                else:
                    b = free[0]
                    plainly(s)
            if any(p['depth'] == 'comp' for p in core[b]):
                b = next((x for x in range(5) if not any(p['depth'] == 'comp' for p in core[x])), None)
                if b is None:
                    return None
            core[b].append(dict(spec=s, depth=d))
        where = rng.sample(range(3), min(3, len(v['ext'])))
        for o, p in zip(where, v['ext']):
            d = rng.choice(DEPTHS[1:])
            outside[o].append(dict(spec=spec(i, p, 'alias' in d), depth=d))
    always = spec(len(w) - 1, dict(c=1, reads=[]), True)      # the real core models provide plenty of variables
    always.update(out='aircraft:paint:mass', local='aircraft:paint:mass', n=1, units='lbm', base=dict(base, **{'aircraft:paint:mass': 'lbm'}))
    for nm in ('aircraft:paint:mass_per_unit_area', 'mission:gravity'):
        always['base'][nm] = meta[nm]['units']
        always['reads'] = always['reads'] + [(nm, nm, meta[nm]['units'], 1)]
    core[next(x for x in range(5) if not any(p['depth'] == 'comp' for p in core[x]))].append(dict(spec=always, depth='group'))
    for lst in core + outside:
        if rng.random() < .6:      # somebody who only reads
            s = spec([j for j in range(1, len(w) + 1) if rng.random() < .8], None, False)
            if s['reads'] and not any(p['depth'] == 'comp' for p in lst):
                lst.append(dict(spec=s, depth=rng.choice(['group', 'nested'])))
    inputs = AviaryValues()
    inputs.set_val('settings:equations_of_motion', EquationsOfMotion.CUSTOM)
    inputs.set_val('settings:verbosity', 0)
    for i, v in enumerate(w):
        if v['user']:
            nm, us = names[i]
            u = rng.choice(us)
            vals = [conv(float(x), base[nm], u) for x in v['user']]
            if v['n'] > 1:
                vals = rng.choice([vals, np.array(vals)])
            else:
                vals = vals[0]
            inputs.set_val(nm, vals, u, meta)
    rec = dict(w=w, ok=True, seen=[[] for _ in w], kept=[], sources=[], report=[])
    cwd = os.getcwd()
    home = os.path.abspath(f'run{os.getpid()}')
    os.makedirs(home, exist_ok=True)
    os.chdir(home)
    err = None
    try:
        with vt.quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                p = AviaryProblem(problem_type=ProblemType.SIZING, verbosity=0)
                g = AviaryGroup(verbosity=0)
                g.set_initial_guesses = lambda *a, **k: None
                p.model = g
                p.aviary_inputs = g.aviary_inputs = inputs
                p.meta_data = g.meta_data = meta
                g.subsystems = [Stub('propulsion', outside[0])] + [Stub(f'core{b}', c) for b, c in enumerate(core)]
                g.external_subsystems = [Stub(f'ext{k}', outside[k]) for k in (1, 2)]
                g.subsystems += g.external_subsystems
                g.pre_mission_info = dict(include_takeoff=False)
                g.mission_info = {}
                g.add_pre_mission_systems(verbosity=0)
                s = spec(list(range(1, len(w) + 1)), None, False)
                g.add_subsystem('after', Grp(parts=[dict(spec=s, depth='group')]), promotes_inputs=['*'])
                p.setup()
                p.final_setup()
                for _ in range(len(w) + 2):
                    p.run_model()
            except Exception as e:
                rec['ok'] = False
                err = f'{type(e).__name__}: {e}'[:400]
                return rec, err

            def whole(x):
                r = round(x)
                return int(r) if abs(x - r) < 1e-6 * max(1, abs(x)) else 10**6 + int(x) % 10**5
            for i, v in enumerate(w):
                nm = names[i][0]
                seen = {tuple(whole(x) for x in got[nm]) for got in log.values() if nm in got}
                seen.add(tuple(whole(float(x)) for x in np.ravel(p.get_val(nm, units=base[nm]))))
                rec['seen'][i] = [list(x) for x in seen]
            index = {n: i + 1 for i, (n, _) in enumerate(names)}
            per = [0] * len(w)
            for a, m in p.model.list_outputs(prom_name=True, units=True, val=True, out_stream=None, hierarchical=False):
                pn = m['prom_name'].split('.')[-1] if '_OVERRIDE:' in m['prom_name'] else m['prom_name']
                if pn in index and not a.startswith('_auto_ivc'):
                    per[index[pn] - 1] += 1
                elif '_OVERRIDE:' in pn:
                    as_, nm = pn.split('_OVERRIDE:', 1)
                    if nm in index:
                        rec['kept'].append(dict(**{'as': as_ + '_OVERRIDE'}, i=index[nm],
                                                v=[whole(conv(float(x), m['units'] or 'unitless', base[nm])) for x in np.ravel(m['val'])]))
            rec['sources'] = per
            if case['report']:
                from aviary.interface.reports import overridden_variables_report
                os.makedirs(str(p.get_reports_dir()), exist_ok=True)
                try:
                    with vt.quiet():
                        overridden_variables_report(p)
                except Exception as e:
                    rec['report'] = [[99], [99]]
                    return rec, f'{type(e).__name__}: {e}'[:400]
                text = open(os.path.join(str(p.get_reports_dir()), 'overridden_variables.md')).read()
                rec['report'] = [[], []]
                part = None
                for line in text.split('\n'):
                    if line.startswith('#'):
                        part = 0 if 'Internal' in line else 1
                    m = re.match(r'\| *([^ |]+:[^ |]+) *\|', line)
                    if m:
                        rec['report'][part].append(index.get(m.group(1), 99))
    finally:
        os.chdir(cwd)
        shutil.rmtree(home, ignore_errors=True)
    return rec, err


def real_model(method, over):
    import importlib
    from copy import deepcopy
    import aviary.api as av
    pi = deepcopy(importlib.import_module('aviary.models.missions.' + ('two_dof_default' if method == 'two_dof' else 'energy_state_default')).phase_info)
    for k in pi:
        o = pi[k].get('user_options', {})
        if 'num_segments' in o:
            o['num_segments'], o['order'] = 1, 3
    p = av.AviaryProblem(verbosity=0)
    p.load_inputs(BASE_DECK[method], pi)
    for n, (v, u) in over.items():
        p.aviary_inputs.set_val(n, v, u)
    p.check_and_preprocess_inputs()
    p.build_model()
    p.setup()
    p.final_setup()
    return p


BASE_DECK = dict(two_dof='validation_cases/validation_data/test_models/aircraft_for_bench_GwGm.csv',
                 energy='validation_cases/validation_data/test_models/aircraft_for_bench_FwFm.csv')


def real_outputs(method):
    """name -> (absolute path, size) of every variable of the hierarchy the core models compute"""
    from aviary.variable_info.variable_meta_data import CoreMetaData as meta
    with scratch(), vt.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = real_model(method, {})
        out = {}
        for a, m in p.model.pre_mission.core_subsystems.get_io_metadata(iotypes=('output',), metadata_keys=['size'], return_rel_names=False).items():
            n = m['prom_name']
            if n in meta and not meta[n]['option'] and n.startswith(('aircraft:', 'mission:')) and not n.startswith('aircraft:fuel:'):
                out.setdefault(n, []).append((a, m['size']))
    return {n: v[0] for n, v in out.items() if len(v) == 1}


@contextlib.contextmanager
def scratch():
    cwd = os.getcwd()
    home = os.path.abspath(f'run{os.getpid()}')
    os.makedirs(home, exist_ok=True)
    os.chdir(home)
    try:
        yield
    finally:
        os.chdir(cwd)
        shutil.rmtree(home, ignore_errors=True)


def drive_real(case):
    """the real core models with some of their outputs given by the user. World: variable i is computed by the core as 100 i + 7;
    what is read is coded by where it comes from."""
    import numpy as np
    from aviary.variable_info.variable_meta_data import CoreMetaData as meta
    names, user = case['names'], case['user']
    w = [dict(n=1, user=[40 + i] if u else [], core=[dict(c=100 * i, reads=[])], pref=0, ext=[], dflt=0) for i, u in zip(range(1, len(names) + 1), user)]
    rec = dict(w=w, ok=True, seen=[[] for _ in w], kept=[], sources=[0] * len(w), report=[])
    over = {n: ([1.25 + i] * size if meta[n]['multivalue'] else 1.25 + i, meta[n]['units']) for i, ((n, _, size), u) in enumerate(zip(names, user)) if u}
    try:
        with scratch(), vt.quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = real_model(case['method'], over)
            prom = {a: m['prom_name'] for a, m in p.model.get_io_metadata(iotypes=('output',), return_rel_names=False).items() if not a.startswith('_auto_ivc')}
            reads = {}
            for a, m in p.model.get_io_metadata(iotypes=('input',), return_rel_names=False).items():
                reads.setdefault(m['prom_name'], []).append(a)
            for i, (n, path, size) in enumerate(names):
                def code(src):
                    if src == path:
                        return 100 * (i + 1) + 7
                    if src.startswith('_auto_ivc') and n in over and np.allclose(p.get_val(src), p.get_val(n)) and np.allclose(p.get_val(n, units=over[n][1]), 1.25 + i):
                        return 41 + i
                    return 0
                srcs = {p.model._conn_global_abs_in2out[a] for a in reads.get(n, [])} | {a for a, x in prom.items() if x == n}
                rec['seen'][i] = [[code(s)] for s in srcs]
                rec['sources'][i] = sum(x == n for x in prom.values())
                for a, x in prom.items():
                    if x.endswith('_OVERRIDE:' + n):
                        rec['kept'].append(dict(**{'as': x.split('.')[-1].split(':')[0]}, i=i + 1, v=[100 * (i + 1) + 7 if a == path else 0]))
    except Exception as e:
        rec['ok'] = False
        return rec, f'{type(e).__name__}: {e}'[:400]
    return rec, None


def assign(w, rng):
    """variables of the hierarchy for the abstract ones"""
    s, v = rng.sample(SCALAR, len(SCALAR)), rng.sample(VECTOR, len(VECTOR))
    return [(s if x['n'] == 1 else v).pop() for x in w]


def choices(n, i):
    """everything that can be said about variable i (1-based)"""
    out = []
    prev = list(range(1, i))
    for user in ([], [40 + i] if n == 1 else [40 + i, 60 + i]):
        for core in ([], [dict(c=100 * i, reads=[])], [dict(c=100 * i, reads=prev)], [dict(c=100 * i, reads=prev), dict(c=100 * i + 50, reads=[])]):
            for ext in ([], [dict(c=1000 * i, reads=prev)]):
                for pref in ((1, 2) if len(core) == 2 else (0,)):
                    v = dict(n=n, user=user, core=core, pref=pref, ext=ext, dflt=0)
                    if v not in out:
                        out.append(v)
    return out


def random_world(rng):
    w = []
    nv = 0
    for i in range(1, rng.randint(3, 6) + 1):
        n = 2 if rng.random() < .3 and nv < 3 else 1
        nv += n == 2

        def prod():
            return dict(c=rng.randint(1, 500), reads=sorted(rng.sample(range(1, i), rng.randint(0, min(2, i - 1)))))
        core = [prod() for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        ext = [prod() for _ in range(rng.choice([0, 0, 0, 1] if rng.random() < .97 else [2]))]
        user = [rng.randint(1, 900) for _ in range(n)] if rng.random() < .45 else []
        w.append(dict(n=n, user=user, core=core, pref=rng.choice([1, 2]) if len(core) == 2 else 0, ext=ext, dflt=0))
    return w


def run(ck):
    rng = random.Random(ck.seed)
    meta = metadata()
    for n, us in SCALAR + VECTOR:
        ck.require(n in meta and meta[n]['default_value'] in (0.0, [0.0], 0) and not meta[n]['option'], f'{n} in the metadata')
    ch = [choices(1, 1), choices(2, 2), choices(1, 3)]
    defs = 'd_Options == <<' + ', '.join('{' + ', '.join(vt._tla(v) for v in c) + '}' for c in ch) + '>>'
    r = ck.tlc('P10_Overrides', dict(NVars=3), defs=defs, invariants=['Agrees', 'UserSeen', 'ExternalWins', 'NobodyElse', 'NothingLost', 'Frame'], action_constraint='EmitCase', workers=6)
    worlds = [e['w'] for e in r.emitted]
    ck.require(len(worlds) >= 3000, 'worlds')
    sample = rng.sample(worlds, 700 if ck.quick else 4000)
    ck.exhaustive = False
    sample += [random_world(rng) for _ in range(300 if ck.quick else 3000)]
    cases = [dict(w=w, names=assign(w, rng), seed=rng.random(), report=rng.random() < .3) for w in sample]
    traces, errs, kept = [], [], []
    for c, out in zip(cases, ck.pmap(drive, cases)):
        if out is None:
            continue
        if isinstance(out, dict):
            raise vt.MachineryError(out['tb'])
        rec, err = out
        rec['k'] = len(traces)
        traces.append(rec)
        errs.append(err)
        kept.append(c)
    # the real core models: every output given by the user somewhere
    groups = []
    for method in BASE_DECK:
        outs = sorted((n, a, s) for n, (a, s) in real_outputs(method).items())
        ck.require(len(outs) > 60, f'{method} outputs')
        for _ in range(1 if ck.quick else 4):
            rng.shuffle(outs)
            size = 12 if ck.quick else 6
            for t in range(0, len(outs), size):
                mine = outs[t:t + size]
                rest = rng.sample([o for o in outs if o not in mine], 6)
                groups.append(dict(method=method, names=mine + rest, user=[True] * len(mine) + [False] * 6))
    for c, out in zip(groups, ck.pmap(drive_real, groups, chunksize=1)):
        if isinstance(out, dict):
            raise vt.MachineryError(out['tb'])
        rec, err = out
        rec['k'] = len(traces)
        traces.append(rec)
        errs.append(err)
        kept.append(dict(c, seed=c['method']))
    ck.notes['real_models'] = len(groups)
    for b in ck.validate('P10_Trace', traces, dict(NVars=3), defs='d_Options == <<>>', chunk=2000):
        t = b['trace']
        c = kept[t['k']]
        n = [x[0] for x in c['names']]
        ck.violation('override', '+'.join(sorted(b['bad'])), dict(world=t['w'], names=n, seed=c['seed']), b['want'],
                     dict(ok=t['ok'], seen=t['seen'], kept=t['kept'], sources=t['sources'], report=t['report'], error=errs[t['k']]))
    ck.count(len(traces))
    ck.tally(['run' if t['ok'] else 'refused' for t in traces], 'outcome')
    ck.tally([k['as'] for t in traces for k in t['kept']], 'kept')
    ck.tally([('user ' if v['user'] else '') + ('external ' if v['ext'] else '') + f"core{len(v['core'])}" for t in traces for v in t['w']], 'variables')
    ck.require(sum(t['ok'] for t in traces) > 400, 'models that run')
    ck.sample(dict(world=traces[0]['w'], seen=traces[0]['seen'], kept=traces[0]['kept']))
