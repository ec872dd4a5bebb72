"""P06: completion of passenger, cargo and crew inputs."""
import random
import vt

M = -999
KEYS = dict(mp='NUM_PASSENGERS', mf='NUM_FIRST_CLASS', mb='NUM_BUSINESS_CLASS', me='NUM_ECONOMY_CLASS',
            dp='Design.NUM_PASSENGERS', df='Design.NUM_FIRST_CLASS', db='Design.NUM_BUSINESS_CLASS', de='Design.NUM_ECONOMY_CLASS',
            cargo='CARGO_MASS', maxc='Design.MAX_CARGO_MASS', desc='Design.CARGO_MASS', att='NUM_FLIGHT_ATTENDANTS', gal='NUM_GALLEY_CREW',
            fcr='NUM_FLIGHT_CREW', cab='NUM_CABIN_CREW', pbag='BAGGAGE_MASS_PER_PASSENGER', pmass='MASS_PER_PASSENGER',
            pwb='MASS_PER_PASSENGER_WITH_BAGS')
MASS = {'cargo', 'maxc', 'desc', 'pbag', 'pmass', 'pwb'}
FIELDS = list(KEYS) + ['range', 'fuse', 'typ', 'tail', 'meth', 'ptype']


def var(k):
    from aviary.variable_info.variables import Aircraft
    obj = Aircraft.CrewPayload
    for part in KEYS[k].split('.'):
        obj = getattr(obj, part)
    return obj


def build(o, order):
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.enums import AircraftTypes, LegacyCode, ProblemType
    from aviary.variable_info.variables import Aircraft, Settings
    av = AviaryValues()
    for k in order:
        x = o[k]
        if k == 'ptype':
            av.set_val(Settings.PROBLEM_TYPE, ProblemType.SIZING if x == 0 else ProblemType.OFF_DESIGN_MIN_FUEL)
        elif x == M:
            continue
        elif k == 'range':
            av.set_val(Aircraft.Design.RANGE, float(x), 'nmi')
        elif k == 'fuse':
            av.set_val(Aircraft.Engine.NUM_FUSELAGE_ENGINES, [x] if x % 2 == 0 else x)
        elif k == 'typ':
            av.set_val(Aircraft.Design.TYPE, AircraftTypes.TRANSPORT if x == 0 else AircraftTypes.BLENDED_WING_BODY)
        elif k == 'tail':
            av.set_val(Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION, float(x))
        elif k == 'meth':
            av.set_val(Settings.MASS_METHOD, LegacyCode.FLOPS if x == 0 else LegacyCode.GASP)
        else:
            av.set_val(var(k), float(x) if k in MASS else x, 'lbm' if k in MASS else 'unitless')
    return av


def num(x):
    import numpy as np
    if isinstance(x, (list, np.ndarray)):
        x = x[0]
    f = float(x)
    return int(f) if f == int(f) else -12345


def project(av, o):
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.enums import AircraftTypes, LegacyCode
    from aviary.variable_info.variables import Aircraft, Settings
    r = {}
    for k in FIELDS:
        if k == 'ptype':
            r[k] = o[k]
            continue
        key = {'range': Aircraft.Design.RANGE, 'fuse': Aircraft.Engine.NUM_FUSELAGE_ENGINES, 'typ': Aircraft.Design.TYPE,
               'tail': Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION, 'meth': Settings.MASS_METHOD}.get(k) or var(k)
        if key not in av:
            r[k] = M
        elif k == 'typ':
            r[k] = 0 if av.get_val(key) is AircraftTypes.TRANSPORT else 1
        elif k == 'meth':
            r[k] = 0 if av.get_val(key) is LegacyCode.FLOPS else 1
        else:
            r[k] = num(av.get_val(key, 'lbm' if k in MASS else 'nmi' if k == 'range' else 'unitless'))
    return r


def run_case(c):
    """Complete twice; through preprocess_crewpayload or the public collector preprocess_options."""
    from aviary.utils.preprocessors import preprocess_crewpayload, preprocess_options
    o = c['o']
    av = build(o, c['order'])
    before = project(av, o)
    if before != o:
        raise vt.MachineryError(f'projection {o} {before}')

    def go():
        if c['how'] == 'options':
            preprocess_options(av, verbosity=c['verb'])
        else:
            preprocess_crewpayload(av, verbosity=c['verb'])
    try:
        go()
        err = ''
    except (UserWarning, KeyError, ValueError, TypeError) as e:
        err = type(e).__name__
    r = project(av, o)
    r2 = r
    if not err:
        try:
            go()
            r2 = project(av, o)
        except (UserWarning, KeyError, ValueError, TypeError) as e:
            r2 = dict(r, mp=-777)
    return dict(o=o, err=err, r=r if not err else o, r2=r2 if not err else o)


def decorate(rng, o):
    order = list(FIELDS)
    rng.shuffle(order)
    from aviary.variable_info.enums import Verbosity
    how = 'options' if rng.random() < .15 and o['meth'] != M else 'crew'
    return dict(o=o, order=order, verb=rng.choice([0, 1, 2, Verbosity.BRIEF, Verbosity.QUIET]), how=how)


def judge(ck, o, got, want, dev, unstable, bad):
    for b in bad:
        if b == 'second':
            sig = 'design-cargo-not-flown' if unstable else 'other'
        elif b == 'completion' and dev:
            sig = 'gasp-economy-replaced'
        else:
            diff = sorted(k for k in FIELDS if got['r'][k] != want['o'][k]) if b == 'completion' else [got['err'], want['err']]
            sig = f"meth{o['meth']}|{'+'.join(diff)}"
        ck.violation(b, sig, {k: v for k, v in o.items() if v != M}, want, got)


INVS = ['ClassesSum', 'SidesFilled', 'DesignFilled', 'ClassesKept', 'ConsistentTotalKept', 'CargoOrdered', 'CargoKept', 'CrewSum', 'CrewKept']


def run(ck):
    rng = random.Random(ck.seed)
    base = dict(Counts={0, 5, 9}, Few={0, 5}, CargoV={0, 100, 300}, CrewV={-1, 0, 4}, PaxV={0, 1, 50, 51, 79, 80, 150, 151, 249, 250, 300},
                RangeV={100, 900, 901, 2900, 2901})
    if not ck.quick:
        base.update(Few={0, 5, 7}, Counts={0, 5, 12}, CargoV={0, 100, 200, 300})
    for g in ('PaxF', 'PaxG', 'CargoG', 'CrewF', 'BagF', 'NoMeth'):
        consts = dict(base, Group=g)
        r = ck.tlc('P06_Crew', consts, invariants=INVS, properties=['Stable'], action_constraint='EmitCase', workers=4)
        cases = [decorate(rng, e['o']) for e in r.emitted]
        outs = ck.pmap(run_case, cases)
        for e, c, got in zip(r.emitted, cases, outs):
            if 'crash' in got:
                ck.violation('crash', got['crash'].split(':')[0], c['o'], None, got)
                continue
            bad = []
            if got['err'] != e['err']:
                bad.append('refusal')
            elif not e['err'] and got['r'] != e['r']:
                bad.append('completion')
            if not got['err'] and got['r2'] != got['r']:
                bad.append('second')
            if bad:
                judge(ck, e['o'], got, dict(err=e['err'], o=e['r']), got['err'] == e['derr'] and got['r'] == e['d'], e['unstable'], bad)
        ck.count(len(cases))
        ck.notes.setdefault('worlds', {})[g] = len(cases)
        ck.require(len(cases) > 0, g)
        ck.sample({k: v for k, v in cases[-1]['o'].items() if v != M})

    cases = [decorate(rng, rand_world(rng)) for _ in range(4000 if ck.quick else 60000)]
    traces = []
    for c, got in zip(cases, ck.pmap(run_case, cases)):
        if 'crash' in got:
            ck.violation('crash', got['crash'].split(':')[0], c['o'], None, got)
        else:
            traces.append(got)
    for b in ck.validate('P06_Trace', traces, dict(base, Group='NoMeth'), chunk=5000):
        judge(ck, b['trace']['o'], b['trace'], b['want'], b['dev'], b['unstable'], b['bad'])


def rand_world(rng):
    o = {k: M for k in FIELDS}
    o['meth'] = rng.choice([0, 0, 1])
    o['ptype'] = rng.choice([0, 1])
    for k in ('mp', 'dp'):
        if rng.random() < .6:
            o[k] = rng.choice([0, 1, 40, 150, 151, 200, 260, rng.randint(0, 500)])
    for k in ('mf', 'mb', 'me', 'df', 'db', 'de'):
        if rng.random() < .4:
            o[k] = rng.choice([0, 3, 20, 120])
    for k in ('cargo', 'maxc', 'desc'):
        if rng.random() < .5:
            o[k] = rng.choice([0, 500, 1000, 4000])
    for k in ('att', 'gal', 'fcr', 'cab'):
        if rng.random() < .4:
            o[k] = rng.randint(-1, 8)
    for k, v in (('pbag', 30), ('pmass', 190), ('pwb', 225)):
        if rng.random() < .6:
            o[k] = v + rng.randint(0, 5)
    if rng.random() < .6:
        o['range'] = rng.choice([10, 899, 900, 1500, 2900, 2950, 6000])
    for k, v in (('fuse', 3), ('typ', 1), ('tail', 1)):
        if rng.random() < .5:
            o[k] = rng.randint(0, v)
    return o
