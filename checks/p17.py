"""P17: fleet totals and throttle shares account for every engine exactly once."""
import random
import vt

CAN = dict(thrust='lbf', fuel='lbm/h', electric='kW', nox='lbm/h', shaft='hp')
ALT = dict(thrust=['lbf', 'N', 'kN'], fuel=['lbm/h', 'lbm/s', 'kg/s'], electric=['kW', 'W', 'hp'], nox=['lbm/h', 'lbm/s', 'kg/h'], shaft=['hp', 'W', 'kW'])

ALL = frozenset(['thrust', 'fuel', 'electric', 'nox', 'shaft'])


def kind(gives=ALL, a=7, b=5, e=3, x=2, h=0, s=0, s2=0, m=901, g=1, r=10, hyb=False, own=False, pre=True, sls=True):
    return dict(gives=sorted(gives), a=a, b=b, e=e, x=x, h=h, s=s, s2=s2, m=m, g=g, r=r, hyb=hyb, own=own, pre=pre, sls=sls)


KINDS = dict(
    fan=kind(gives=['thrust', 'fuel', 'nox'], a=11, b=6, x=4),
    vec=kind(gives=['thrust', 'fuel'], a=3, b=2, s=5, r=20),
    two=kind(a=2, b=3, s=4, s2=9, r=7, g=3),
    mot=kind(gives=['thrust', 'electric'], a=13, e=8, own=True, m=333, pre=False),
    hyb=kind(a=5, b=4, e=6, h=17, hyb=True, s2=3, r=3),
    own=kind(a=4, b=9, own=True, m=555, s=2, hyb=True, h=23, sls=False, g=2),
    prop=kind(gives=['shaft', 'fuel', 'electric'], a=19, b=1, e=2, sls=False),
)


def names():
    from aviary.variable_info.variables import Aircraft, Dynamic
    P = Dynamic.Vehicle.Propulsion
    return dict(thr=P.THROTTLE, hyb=P.HYBRID_THROTTLE, thrust=P.THRUST, thrust_max=P.THRUST_MAX, fuel=P.FUEL_MASS_FLOW_RATE_NEGATIVE, electric=P.ELECTRIC_POWER_IN, nox=P.NOX_RATE,
                shaft=P.SHAFT_POWER, shaft_max=P.SHAFT_POWER_MAX, t_thrust=P.THRUST_TOTAL, t_thrust_max=P.THRUST_MAX_TOTAL, t_fuel=P.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL, t_electric=P.ELECTRIC_POWER_IN_TOTAL,
                t_nox=P.NOX_RATE_TOTAL, p=Aircraft.Engine.REFERENCE_DIAMETER if hasattr(Aircraft.Engine, 'REFERENCE_DIAMETER') else Aircraft.Nacelle.AVG_DIAMETER, q=Aircraft.Nacelle.AVG_LENGTH,
                sf=Aircraft.Engine.SCALE_FACTOR, sls=Aircraft.Engine.SCALED_SLS_THRUST, tot=Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST, num=Aircraft.Engine.NUM_ENGINES, area=Aircraft.Wing.AREA,
                other=Aircraft.Nacelle.CHARACTERISTIC_LENGTH)


def stub_classes():
    import numpy as np
    import openmdao.api as om
    from aviary.subsystems.propulsion.engine_model import EngineModel
    from openmdao.utils.units import convert_units
    N = names()

    class Perf(om.ExplicitComponent):
        def initialize(self):
            for o in ('nn', 'k', 'units', 'gain'):
                self.options.declare(o)

        def setup(self):
            nn, k, u = (self.options[o] for o in ('nn', 'k', 'units'))
            self.add_input(N['thr'], shape=nn, units='unitless')
            if k['hyb']:
                self.add_input(N['hyb'], shape=nn, units='unitless')
            if k['s']:
                self.add_input(N['p'], val=1.0, units=u['p'])
            if k['s2']:
                self.add_input(N['q'], val=1.0, units='ft')
            for q in k['gives']:
                self.add_output(N[q], shape=nn, units=u[q])
            if k['own']:
                for q in ('thrust', 'shaft'):
                    if q in k['gives']:
                        self.add_output(N[q + '_max'], shape=nn, units=u[q])
            self.add_output('unrelated', shape=nn)
            self.declare_partials('*', '*', method='fd')

        def compute(self, i, o):
            k, u, g = (self.options[x] for x in ('k', 'units', 'gain'))
            t = 4 * i[N['thr']]
            v = dict(fuel=-k['b'] * t, electric=k['e'] * t, nox=k['x'] * t, shaft=k['a'] * t + 1, thrust=g * k['a'] * t)
            if k['hyb']:
                v['thrust'] = v['thrust'] + k['h'] * 4 * i[N['hyb']]
            if k['s']:
                v['thrust'] = v['thrust'] + k['s'] * convert_units(i[N['p']], u['p'], 'ft')
            if k['s2']:
                v['thrust'] = v['thrust'] + k['s2'] * i[N['q']]
            for q in k['gives']:
                o[N[q]] = convert_units(v[q], CAN[q], u[q])
            if k['own']:
                if 'thrust' in k['gives']:
                    o[N['thrust_max']] = convert_units(k['m'] + t, 'lbf', u['thrust'])
                if 'shaft' in k['gives']:
                    o[N['shaft_max']] = convert_units(float(k['m']) * np.ones(len(t)), 'hp', u['shaft'])

    class Pre(om.ExplicitComponent):
        def initialize(self):
            for o in ('k', 'gain'):
                self.options.declare(o)

        def setup(self):
            k = self.options['k']
            self.add_input(N['sf'], val=1.0, units='unitless')
            self.add_input(N['area'], val=1.0, units='ft**2')
            if k['sls']:
                self.add_output(N['sls'], val=0.0, units='N')
            else:
                self.add_output(N['other'], val=0.0, units='ft')
            self.declare_partials('*', '*', method='fd')

        def compute(self, i, o):
            k = self.options['k']
            v = self.options['gain'] * k['r'] * i[N['sf']]
            if k['sls']:
                o[N['sls']] = convert_units(v, 'lbf', 'N')
            else:
                o[N['other']] = v + i[N['area']]

    class Stub(EngineModel):
        def __init__(self, name, k, units, wrap):
            super().__init__(name)
            self.k, self.units, self.wrap = k, units, wrap
            self.use_hybrid_throttle = k['hyb']
            self.compute_max_values = k['own']

        def build_pre_mission(self, aviary_inputs, subsystem_options=None):
            if not self.k['pre']:
                return None
            return self.wrapped(Pre(k=self.k, gain=(subsystem_options or {}).get('gain', 1)))

        def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
            return self.wrapped(Perf(nn=num_nodes, k=self.k, units=self.units, gain=(subsystem_options or {}).get('gain', 1)))

        def wrapped(self, c):
            if not self.wrap:
                return c
            g = om.Group()
            if self.wrap == 2:
                g2 = g.add_subsystem('inner', om.Group(), promotes=['*'])
                g2.add_subsystem('model', c, promotes=['*'])
                g2.add_subsystem('aside', om.ExecComp('zz=2*yy'))
            else:
                g.add_subsystem('model', c, promotes=['*'])
            return g

        def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            d = {}
            if self.k['s']:
                d[N['p']] = {'units': 'ft', 'static_target': True}
            if self.k['s2']:
                d[N['q']] = {'units': 'ft', 'static_target': True}
            return d
    return Stub


def ints(a):
    import numpy as np
    a = np.asarray(a, dtype=float)
    r = np.round(a)
    bad = ~(np.abs(a - r) <= 1e-6 * np.maximum(1, np.abs(a)))
    r[bad] = -777777
    return r.astype(int).tolist()


def one(c):
    import numpy as np
    import openmdao.api as om
    from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilder
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.enums import Verbosity
    from aviary.variable_info.functions import setup_model_options
    from aviary.variable_info.variables import Settings
    rng = random.Random(c['seed'])
    N, Stub = names(), stub_classes()
    fleet, n = c['fleet'], len(c['fleet'])
    K = c['kinds']
    nn = len(fleet[0]['t'])
    engines, eopts = [], {}
    for i, e in enumerate(fleet):
        k = K[e['k']]
        nm = rng.choice(['eng', 'zeta', 'Turbo', 'a']) + f'_{i}'
        u = {q: rng.choice(v) for q, v in ALT.items()}
        u['p'] = rng.choice(['ft', 'inch'])
        engines.append(Stub(nm, k, u, rng.randrange(3)))
        if k['g'] != 1 or rng.random() < .3:
            eopts[nm] = {'gain': k['g']}
    counts = [e['c'] for e in fleet]
    opts = AviaryValues()
    opts.set_val(Settings.VERBOSITY, Verbosity.QUIET)
    opts.set_val(N['num'], np.array(counts) if rng.random() < .7 else list(counts))
    b = CorePropulsionBuilder('propulsion', engine_models=engines)
    out = dict(mission={}, totals={}, pre={})

    def problem(group, feeds):
        p = om.Problem()
        ivc = p.model.add_subsystem('ivc', om.IndepVarComp(), promotes=['*'])
        for name, (val, units) in feeds.items():
            ivc.add_output(name, val=np.array(val, dtype=float), units=units)
        p.model.add_subsystem('propulsion', group, promotes=['*'])
        setup_model_options(p, opts)
        p.setup(force_alloc_complex=False)
        return p
    cols = lambda key: np.array([e[key] for e in fleet], dtype=float).T / 4
    # mission
    feeds = {N['thr']: (cols('t') if n > 1 else cols('t')[:, 0], 'unitless')}
    if any(K[e['k']]['hyb'] for e in fleet):
        feeds[N['hyb']] = (cols('y') if n > 1 else cols('y')[:, 0], 'unitless')
    if any(K[e['k']]['s'] for e in fleet):
        feeds[N['p']] = ([12.0 * e['p'] for e in fleet], 'inch') if rng.random() < .5 else ([e['p'] for e in fleet], 'ft')
    if any(K[e['k']]['s2'] for e in fleet):
        feeds[N['q']] = ([e['p'] + 7 for e in fleet], 'ft')
    p = problem(b.build_mission(nn, opts, {}, eopts), feeds)
    p.final_setup()
    p.run_model()
    for q, u in CAN.items():
        out['mission'][q] = ints(p.get_val(N[q], units=u).reshape(nn, n))
    out['mission']['thrust_max'] = ints(p.get_val(N['thrust_max'], units='lbf').reshape(nn, n))
    out['mission']['shaft_max'] = ints(p.get_val(N['shaft_max'], units='hp').reshape(nn, n))
    for q in ('thrust', 'thrust_max', 'fuel', 'electric', 'nox'):
        out['totals'][q] = ints(p.get_val(N['t_' + q], units=CAN[q.replace('_max', '')]))
    # derivatives of the totals
    der = []
    if c.get('deriv'):
        for q in ('thrust', 'thrust_max', 'fuel', 'electric', 'nox'):
            J = p.model.propulsion.propulsion_sum._jacobian
            s = 'propulsion.propulsion_sum.'
            sub = om.Problem()
            from aviary.subsystems.propulsion.propulsion_mission import PropulsionSum
            sub.model.add_subsystem('s', PropulsionSum(num_nodes=nn), promotes=['*'])
            setup_model_options(sub, opts)
            sub.setup()
            sub.run_model()
            J = sub.compute_totals(of=[N['t_' + q]], wrt=[N[q]])[N['t_' + q], N[q]]
            want = np.zeros((nn, nn * n))
            for k in range(nn):
                want[k, k * n:(k + 1) * n] = counts
            if not np.array_equal(np.asarray(J), want):
                der.append(q)
    out['deriv'] = der
    # pre-mission
    feeds = {}
    if any(K[e['k']]['pre'] for e in fleet):
        feeds[N['sf']] = ([e['p'] for e in fleet], 'unitless')
        feeds[N['area']] = ([5.0], 'ft**2')
    comp = [K[e['k']]['pre'] and K[e['k']]['sls'] for e in fleet]
    if not any(comp):
        feeds[N['sls']] = ([100 * e['p'] for e in fleet], 'lbf')
    if any(comp) and not all(comp):
        opts.set_val(N['sls'], np.array([100.0 * e['p'] for e in fleet]), 'lbf')
    p = problem(b.build_pre_mission(opts, eopts), feeds)
    p.final_setup()
    p.run_model()
    out['pre'] = dict(sls=ints(p.get_val(N['sls'], units='lbf')), total=ints(p.get_val(N['tot'], units='lbf'))[0])
    return out


def alloc(c):
    import numpy as np
    import openmdao.api as om
    from aviary.subsystems.propulsion.throttle_allocation import ThrottleAllocator
    from aviary.variable_info.enums import ThrottleAllocation
    N = names()
    nn, m = len(c['agg']), len(c['al'][0])
    p = om.Problem()
    p.model.add_subsystem('a', ThrottleAllocator(num_nodes=nn, throttle_allocation=ThrottleAllocation[c['mode'].upper()], **{N['num']: np.array(c['counts'][:m + 1])}), promotes=['*'])
    p.setup()
    p.set_val('aggregate_throttle', np.array(c['agg']) / 4)
    p.set_val('throttle_allocations', np.array(c['al'] if c['mode'] == 'dynamic' else c['al'][0]) / 4)
    p.run_model()
    T = N['thr']
    J = p.compute_totals(of=[T, 'throttle_allocation_sum'], wrt=['aggregate_throttle', 'throttle_allocations'])
    ja = J[T, 'aggregate_throttle'].reshape(nn, m + 1, nn)
    dyn = c['mode'] == 'dynamic'
    jl = J[T, 'throttle_allocations'].reshape((nn, m + 1, nn, m) if dyn else (nn, m + 1, m))
    off = any(np.any(ja[i, :, j]) for i in range(nn) for j in range(nn) if i != j)
    if dyn:
        off = off or any(np.any(jl[i, :, j]) for i in range(nn) for j in range(nn) if i != j)
        jl = np.array([jl[i, :, i] for i in range(nn)])
    js = J['throttle_allocation_sum', 'throttle_allocations']
    want = np.zeros((nn, nn * m)) if dyn else np.ones((1, m))
    if dyn:
        for i in range(nn):
            want[i, i * m:(i + 1) * m] = 1
    return dict(throttle=ints(16 * p.get_val(T)), sum=ints(4 * np.atleast_1d(p.get_val('throttle_allocation_sum'))), dagg=ints(4 * np.array([ja[i, :, i] for i in range(nn)])), dal=ints(4 * jl), off=bool(off),
                dsum=bool(np.array_equal(js, want)) and not np.any(J['throttle_allocation_sum', 'aggregate_throttle']))


def fn(d):
    return ' @@ '.join(f'({vt._tla(k)} :> {vt._tla(v)})' for k, v in d.items())


def defs(kinds=KINDS, nn=2, counts=(1, 2), params=(1, 3), throttles=(0, 2, 4), n=2, ops=('add',), mode='fixed', aggs=(0, 2, 4), allocs=(0, 1, 3)):
    return '\n'.join([f'd_Kinds == {fn(kinds)}', f'd_NN == {nn}', f'd_Counts == {vt._tla(set(counts))}', f'd_Params == {vt._tla(set(params))}', f'd_Throttles == {vt._tla(set(throttles))}', f'd_MaxTypes == {n}',
                      f'd_Ops == {vt._tla(set(ops))}', f'd_AllocMode == "{mode}"', f'd_Aggs == {vt._tla(set(aggs))}', f'd_Allocs == {vt._tla(set(allocs))}'])


def diff(w, got):
    bad = [q for q in w['mission'] if w['mission'][q] != got['mission'][q]] + ['total-' + q for q in w['totals'] if w['totals'][q] != got['totals'][q]]
    return bad + (['pre'] if w['pre'] != got['pre'] else []) + ['derivative-' + q for q in got.get('deriv', [])]


def run(ck):
    rng = random.Random(ck.seed)
    props = ['OrderFree', 'OthersUntouched', 'AddsUp']
    cases = {}
    few = {k: KINDS[k] for k in ('two', 'mot', 'hyb')}
    group = 0
    for d in (defs(ops=['add'], n=2), defs(kinds=few, ops=['add', 'swap', 'split', 'tune'], counts=[1, 3], params=[1, 4], throttles=[0, 3], n=2 if ck.quick else 3)):
        r = ck.tlc('P17_Fleet', defs=d, invariants=['SharesComplete'], properties=props, action_constraint='EmitCase', workers=6)
        for e in r.emitted:
            cases.setdefault(repr(e['fleet']), dict(fleet=e['fleet'], want=e['r'], group=group))
        group += 1
    cases = list(cases.values())
    full = len(cases)
    cap = 450 if ck.quick else 8000
    if full > cap:
        ones = [c for c in cases if len(c['fleet']) == 1]
        rest = [[c for c in cases if len(c['fleet']) > 1 and c['group'] == g] for g in (0, 1)]
        cases = ones + [c for l in rest for c in rng.sample(l, min(len(l), (cap - len(ones)) // 2))]
        ck.exhaustive = False
    for i, c in enumerate(cases):
        c.update(seed=rng.random(), kinds=KINDS, deriv=i % 5 == 0)
    for c, got in zip(cases, ck.pmap(one, cases)):
        show = dict(fleet=c['fleet'], seed=c['seed'])
        if 'crash' in got:
            ck.violation('crash', got['crash'], show, c['want'], got)
            continue
        for q in diff(c['want'], got):
            ck.violation(q, 'replay', show, c['want'], got)
    ck.count(len(cases))
    ck.notes['generated'] = full
    ck.tally(['+'.join(sorted(e['k'] for e in c['fleet'])) for c in cases], 'fleets')
    ck.sample(dict(fleet=cases[-1]['fleet'], want=cases[-1]['want']['totals']))

    # throttle allocation
    total = 0
    for mode in ('fixed', 'static', 'dynamic'):
        r = ck.tlc('P17_Fleet', defs=defs(ops=['alloc'], mode=mode, n=3, nn=2, allocs=[0, 1, 3] if ck.quick else [-1, 0, 1, 3, 4], aggs=[0, 3, 4]), invariants=['SharesComplete'], action_constraint='EmitCase', workers=6)
        ac = [dict(agg=e['agg'], al=e['al'], mode=mode, counts=rng.sample([1, 2, 3, 4], 3), want=e) for e in r.emitted]
        if ck.quick and len(ac) > 300:
            ac = rng.sample(ac, 300)
        for c, got in zip(ac, ck.pmap(alloc, ac)):
            show = {k: c[k] for k in ('agg', 'al', 'mode', 'counts')}
            if 'crash' in got:
                ck.violation('crash', got['crash'], show, c['want']['r'], got)
                continue
            w = dict(throttle=c['want']['r']['throttle'], sum=c['want']['r']['sum'], dagg=c['want']['dagg'], dal=c['want']['dal'], off=False, dsum=True)
            for q in w:
                if w[q] != got[q]:
                    ck.violation('allocation-' + q, mode, show, w[q], got[q])
        total += len(ac)
    ck.count(total)
    ck.notes['allocations'] = total

    # larger fleets
    rc = []
    for _ in range(120 if ck.quick else 3000):
        nn = rng.choice([1, 2, 3, 5])
        ks = {f'k{i}': kind(gives=rng.sample(sorted(ALL), rng.randint(1, 5)), a=rng.randint(1, 40), b=rng.randint(1, 30), e=rng.randint(1, 30), x=rng.randint(1, 30), h=rng.randint(1, 30), s=rng.choice([0, rng.randint(1, 9)]),
                            s2=rng.choice([0, rng.randint(1, 9)]), m=rng.randint(100, 999), g=rng.choice([1, 1, 2, 5]), r=rng.randint(1, 50), hyb=rng.random() < .4, own=rng.random() < .4, pre=rng.random() < .8, sls=rng.random() < .7)
              for i in range(4)}
        fleet = [dict(k=rng.choice(sorted(ks)), c=rng.randint(1, 6), p=rng.randint(1, 9), t=[rng.randint(0, 4) for _ in range(nn)], y=[rng.randint(0, 4) for _ in range(nn)]) for _ in range(rng.choice([1, 2, 3, 3, 4]))]
        rc.append(dict(fleet=fleet, kinds=ks, seed=rng.random(), deriv=rng.random() < .2))
    by = {}
    for c, got in zip(rc, ck.pmap(one, rc)):
        show = dict(fleet=c['fleet'], kinds=c['kinds'], seed=c['seed'])
        if 'crash' in got:
            ck.violation('crash', got['crash'], show, None, got)
            continue
        for q in got['deriv']:
            ck.violation('derivative-' + q, 'random', show, 'counts', got)
        by.setdefault(len(c['fleet'][0]['t']), []).append((c, got))
    for nn, l in sorted(by.items()):
        traces = [dict(fleet=[dict(e, q=c['kinds'][e['k']]) for e in c['fleet']], **{x: got[x] for x in ('mission', 'totals', 'pre')}) for c, got in l]
        for b in ck.validate('P17_Trace', traces, defs=defs(nn=nn)):
            for q in b['bad']:
                ck.violation(q, 'trace', b['trace']['fleet'], b['want'], {k: b['trace'][k] for k in ('mission', 'totals', 'pre')})
    ck.tally([f"{len(c['fleet'])} types" for c in rc], 'random fleets')
