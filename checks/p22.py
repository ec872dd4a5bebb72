"""P22: composite objectives combine exactly the quantities asked for, normalised."""
import random
import vt

SHORT = {'fuel_burned': 'FUEL_MASS', 'fuel': 'Objectives.FUEL', 'mass': 'FINAL_MASS', 'time': 'FINAL_TIME', 'range': 'RANGE'}
UNITS = ['lbm', 'lbm', 'unitless', 'min', 'NM', 'kg']
M = -999


def names():
    """shorthand -> variable, from the variable hierarchy"""
    from aviary.variable_info.variables import Mission
    out = {}
    for k, path in SHORT.items():
        v = Mission
        for p in path.split('.'):
            v = getattr(v, p)
        out[k] = v
    return out


def fn(d, g=lambda v: vt._tla(v)):
    return ' @@ '.join(f'({vt._tla(k)} :> {g(v)})' for k, v in d.items())


def render(a, rng, scale):
    import numpy as np
    w = a['w'] * scale
    w = rng.choice([w, float(w), np.float64(w)]) if isinstance(w, int) else rng.choice([w, np.float64(w)])
    f = a['f']
    if f == 'o':
        return a['o']
    if f == 'ow':
        return (a['o'], w)
    if f == 'mo':
        return (a['m'], a['o'])
    if f == 'mow':
        return (a['m'], a['o'], w)
    return {'wo': (w, a['o']), 'list': [a['m'], a['o']], 't1': (a['o'],), 't4': (a['m'], a['o'], w, w), 'num': 5, 'none': None, 'nonum': (a['o'], None), 'mow-none': (a['m'], None, w)}[f]


def one(c):
    import openmdao.api as om
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.variable_info.enums import ProblemType
    rng = random.Random(c['seed'])
    p = AviaryProblem(problem_type=ProblemType.MULTI_MISSION, verbosity=0)
    for m, qs in c['value'].items():
        g = p.model.add_subsystem(m, om.Group())
        ivc = g.add_subsystem('ivc', om.IndepVarComp(), promotes=['*'])
        for i, (q, v) in enumerate(qs.items()):
            ivc.add_output(q, float(v), units=UNITS[i % len(UNITS)])
        p.aviary_groups_dict[m] = g
    if 'ptype' in c:
        p.problem_type = p.model.problem_type = c['ptype']
    ref = c['ref'] if 'args' in c else c['adv']['ref']
    kw = {} if ref == M else dict(ref=rng.choice([ref, float(ref)]))
    frame = []
    try:
        if 'args' in c:
            # weights are relative: multiplied together when all are given
            scale = rng.choice([1, .5, 10, .001]) if all(a['f'] in ('ow', 'mow') for a in c['args']) else 1
            p.add_composite_objective(*[render(a, rng, scale) for a in c['args']], **kw)
        else:
            a = c['adv']
            for k, x, s in (('mission_weights', a['mw'], rng.choice([1, .25, 7])), ('output_weights', a['ow'], rng.choice([1, .25, 7]))):
                if x:
                    kw[k] = [w * s for w in x]
            old = [list(a['ms']), list(a['os']), {k: list(v) for k, v in kw.items() if k != 'ref'}]
            ms, os_ = list(a['ms']), list(a['os'])
            p.add_composite_objective_adv(ms, os_, **kw)
            if [ms, os_, {k: v for k, v in kw.items() if k != 'ref'}] != old:
                frame.append('arguments changed')
        om.Problem.setup(p)
        om.Problem.final_setup(p)
    except vt.MachineryError:
        raise
    except Exception as e:
        return dict(ok=False, num=0, den=1, ref=M, err=f'{type(e).__name__}: {str(e)[:80]}', frame=frame)
    om.Problem.run_model(p)
    objs = p.model.get_objectives()
    if len(objs) != 1:
        return dict(ok=True, num=0, den=-2, ref=M, frame=frame)
    o = next(iter(objs.values()))
    n, d = vt.rat(float(p.get_val('composite_objective')[0]), maxden=10 ** 6)
    r = o['ref']
    return dict(ok=True, num=n, den=d, ref=M if r is None else int(r) if float(r) == int(r) else -1, frame=frame, src=o['source'], adder=float(o['total_adder'] or 0))


def norm(r, seen=False):
    from fractions import Fraction
    if not r['ok']:
        return dict(ok=False)
    f = Fraction(r['num'], r['den']) if r['den'] > 0 or not seen else None
    return dict(ok=True, v=str(f), ref=r['ref'])


def run(ck):
    rng = random.Random(ck.seed)
    nm = names()
    full = list(nm.values())
    extra = 'mission:extra'
    vals = [3, 5, 7, 11, 2, 9, -4, 8]

    def world(ms, miss=()):
        v = {}
        for i, m in enumerate(ms):
            v[m] = {q: vals[(3 * i + j) % len(vals)] for j, q in enumerate(full + [extra]) if (m, q) not in miss}
        return v

    def defs(mode, value, outs, nms, weights, forms, n, refs):
        return '\n'.join([f'd_Missions == {vt._tla(set(value))}', 'd_Value == ' + fn(value, lambda d: '(' + fn(d) + ')'), 'd_Short == ' + fn(nm),
                          'd_DefaultRef == ' + fn(dict(fuel_burned=10000, fuel=10000, mass=-50000)), f'd_Outputs == {vt._tla(set(outs))}', f'd_Names == {vt._tla(set(nms))}',
                          f'd_Weights == {vt._tla(set(weights))}', f'd_Forms == {vt._tla(set(forms))}', f'd_MaxArgs == {n}', f'd_Refs == {vt._tla(set(refs))}', f'd_Mode == "{mode}"'])
    good = ['o', 'ow', 'mo', 'mow']
    bad = ['wo', 'list', 't1', 't4', 'num', 'none', 'nonum', 'mow-none']
    cases = []
    v1 = world(['model', 'm1'], miss={('m1', nm['range'])})
    v2 = world(['m1', 'm2'])
    runs = [(v1, ['fuel_burned', 'range', full[0], 'nothing'], ['model', 'm1', 'zz'], [1, 3], good, 2, [M, 50]),
            (v1, list(nm) + full + [extra, 'nothing'], ['model', 'zz'], [2], good + bad, 1, [M, 2]),
            (v2, ['mass', extra], ['m1', 'm2', 'model'], [1, -3], good + bad, 2, [M])]
    if not ck.quick:
        runs += [(v1, ['fuel_burned', 'mass', full[0]], ['model', 'm1'], [1, 3], good, 3, [M])]
    for value, outs, nms, ws, forms, n, refs in runs:
        r = ck.tlc('P22_Objective', defs=defs('args', value, outs, nms, ws, forms, n, refs), invariants=['OrderFree', 'Normalised', 'RefusalLocal'], action_constraint='EmitCase', workers=6)
        cases += [dict(args=e['args'], ref=e['ref'], want=e['r'], value=value, seed=rng.random()) for e in r.emitted if e['r']['den'] != 0]
    full_n = len(cases)
    cap = 5000 if ck.quick else 40000
    if len(cases) > cap:
        ok = [c for c in cases if c['want']['ok']]
        no = [c for c in cases if not c['want']['ok']]
        cases = rng.sample(ok, min(len(ok), cap * 2 // 3)) + rng.sample(no, min(len(no), cap // 3))
        ck.exhaustive = False
    r = ck.tlc('P22_Objective', defs=defs('adv', v1, full[:1] + ['nothing', extra] if ck.quick else full[:1] + [full[4], 'nothing', extra], ['model', 'm1', 'zz'], [1, 3], ['o'], 0, [M, 7]),
               invariants=['OrderFree'], action_constraint='EmitCase', workers=6)
    ad = [dict(adv=e['adv'], want=e['r'], value=v1, seed=rng.random()) for e in r.emitted if e['r']['den'] != 0]
    ok = [c for c in ad if c['want']['ok']]
    no = [c for c in ad if not c['want']['ok']]
    cases += rng.sample(ok, min(len(ok), 600 if ck.quick else 5000)) + rng.sample(no, min(len(no), 400 if ck.quick else 4000))
    for c, got in zip(cases, ck.pmap(one, cases)):
        if 'crash' in got:
            ck.violation('crash', got['crash'], c, c['want'], got)
            continue
        a, b = norm(c['want']), norm(got, True)
        if a != b or got['frame'] or got.get('adder'):
            cl = 'refusal' if a['ok'] != b['ok'] else 'frame' if got['frame'] else 'ref' if a['ok'] and a['ref'] != b['ref'] else 'value'
            ck.violation(cl, 'replay', c, c['want'], got)
    ck.count(len(cases))
    ck.notes['generated'] = full_n + len(ad)
    ck.tally(['adv' if 'adv' in c else '+'.join(sorted({a['f'] for a in c['args']})) + ('' if c['want']['ok'] else ' refused') for c in cases], 'forms')
    ck.sample({k: cases[0].get(k) for k in ('args', 'ref', 'want')})

    # larger objectives over three missions
    v3 = world(['model', 'm1', 'mission_2'])
    keys = list(nm) + full + [extra]
    rc = []
    for _ in range(800 if ck.quick else 12000):
        if rng.random() < .3:
            ms, os_ = rng.sample(list(v3), rng.randint(1, 3)), rng.sample(full + [extra], rng.randint(1, 4))
            rc.append(dict(adv=dict(ms=ms, os=os_, mw=rng.choice([[], [rng.randint(1, 5) for _ in ms]]), ow=rng.choice([[], [rng.randint(1, 5) for _ in os_]]), ref=rng.choice([M, 3])),
                           value=v3, seed=rng.random()))
        else:
            args = [dict(f=rng.choice(good * 6 + bad[:3]), m=rng.choice(list(v3)), o=rng.choice(keys) if rng.random() < .97 else 'nothing', w=rng.randint(1, 9)) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))]
            rc.append(dict(args=args, ref=rng.choice([M, M, 100, -2]), value=v3, seed=rng.random()))
    traces = []
    for c, got in zip(rc, ck.pmap(one, rc)):
        if 'crash' in got:
            ck.violation('crash', got['crash'], c, None, got)
            continue
        if got['frame']:
            ck.violation('frame', 'random', c, None, got)
        traces.append(dict(kind='adv' if 'adv' in c else 'args', args=c.get('args', []), ref=c.get('ref', M), adv=c.get('adv', dict(ms=[], os=[], mw=[], ow=[], ref=M)),
                           r={k: got[k] for k in ('ok', 'num', 'den', 'ref')}))
    for b in ck.validate('P22_Trace', traces, defs=defs('args', v3, ['fuel'], ['m1'], [1], good, 1, [M])):
        ck.violation(b['bad'][0], 'trace', b['trace'], b['want'], b['trace']['r'])
    ck.tally(['ok' if t['r']['ok'] else 'refused' for t in traces], 'random')

    # without arguments the problem type decides
    from aviary.variable_info.enums import ProblemType
    for t, q in ((ProblemType.SIZING, 'Objectives.FUEL'), (ProblemType.OFF_DESIGN_MIN_FUEL, 'Objectives.FUEL'), (ProblemType.OFF_DESIGN_MAX_RANGE, 'Objectives.RANGE')):
        from aviary.variable_info.variables import Mission
        v = getattr(Mission.Objectives, q.split('.')[1])
        with vt.quiet():
            got = one(dict(args=[], ref=M, value={'model': {v: 12}}, seed=1, ptype=t))
        if not got['ok'] or got['num'] != 12 or got['den'] != 1:
            ck.violation('inferred', 'no-arguments', dict(problem_type=t.name, args=[]), 'the objective of the problem type', got)
