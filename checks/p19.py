"""P19: phase options."""
import copy
import json
import os
import random
import vt

DOC = os.path.join(vt.ROOT, 'spec', 'p19_documented.json')
MODULES = ['aviary.mission.flight_phase_builder', 'aviary.mission.energy_state.phases.energy_phase', 'aviary.mission.energy_state.phases.detailed_landing_phases',
           'aviary.mission.energy_state.phases.detailed_takeoff_phases', 'aviary.mission.solved_two_dof.phases.solved_twodof_phase', 'aviary.mission.solved_two_dof.phases.groundroll_phase',
           'aviary.mission.two_dof.phases.breguet_cruise_phase', 'aviary.mission.two_dof.phases.accel_phase', 'aviary.mission.two_dof.phases.simple_cruise_phase',
           'aviary.mission.two_dof.phases.flight_phase', 'aviary.mission.two_dof.phases.takeoff_phase']
# [dimension, n, d]: pounds and kilograms are kept apart, their ratio is no small rational
UTAB = {'kg': ('kg', 1, 1), 'g': ('kg', 1, 1000), 'lbm': ('lb', 1, 1), 'klbm': ('lb', 1000, 1), 'm': ('len', 1, 1), 'km': ('len', 1000, 1), 'ft': ('len', 381, 1250), 'NM': ('len', 1852, 1),
        'nmi': ('len', 1852, 1), 's': ('time', 1, 1), 'min': ('time', 60, 1), 'h': ('time', 3600, 1), 'kn': ('speed', 463, 900), 'm/s': ('speed', 1, 1),
        'ft/s': ('speed', 381, 1250), 'ft/min': ('speed', 127, 25000), 'lbf': ('force', 1, 1), 'klbf': ('force', 1000, 1), 'deg': ('deg', 1, 1), 'rad': ('rad', 1, 1), 'unitless': ('one', 1, 1)}
CLASHES = {('kg', 'lb'), ('lb', 'kg'), ('deg', 'rad'), ('rad', 'deg')}


RAW = [(False, None, ''), (False, 3, ''), (False, 2.5, ''), (False, True, ''), (False, 'bounded', ''), (False, 'abc', ''), (False, {'a': 1}, ''), (True, None, 'unitless'), (True, 3, 'unitless'), (True, 2.5, 'kg'),
       (True, 7, 'g'), (True, 5, 'km'), (True, 5, 'ft'), (True, (1, None), 'unitless'), (True, (1, 2), 'g'), (True, 'abc', 'unitless'), (True, 'abc', 'kg'), (True, 3, 'nounit'), (True, True, 's'), (True, True, 'unitless'),
       (True, None, 'kg')]


class Coder:
    def __init__(self):
        self.tab = {}

    def value(self, v, unit):
        """python value -> value of the specification"""
        import numpy as np
        from enum import Enum
        if isinstance(v, np.generic):
            v = v.item()
        if v is None:
            return dict(t='none', x=[])
        if isinstance(v, bool):
            return dict(t='bool', x=[[int(v), 1]])
        if isinstance(v, Enum):
            return dict(t=type(v).__name__, x=[[self.code(v.name), 1]])
        if isinstance(v, (int, float)):
            return dict(t='num' if unit else type(v).__name__, x=[vt.rat(v, 1000000, 1e-12)])
        if isinstance(v, (tuple, list, np.ndarray)):
            return dict(t='seq', x=[[] if e is None else vt.rat(e, 1000000, 1e-12) if isinstance(e, (int, float, np.generic)) else [self.code(repr(e)), 1] for e in v])
        return dict(t=type(v).__name__, x=[[self.code(json.dumps(v, sort_keys=True, default=str)), 1]])

    def code(self, s):
        return self.tab.setdefault(s, 7000000 + len(self.tab))


def option_classes():
    import importlib
    from aviary.mission.phase_builder import PhaseBuilder
    from aviary.utils.aviary_options_dict import AviaryOptionsDictionary
    out, builders = {}, {}
    for m in MODULES:
        mod = importlib.import_module(m)
        for n, o in vars(mod).items():
            if isinstance(o, type) and o.__module__ == m:
                key = m.replace('aviary.mission.', '') + '.' + n
                if issubclass(o, AviaryOptionsDictionary):
                    out[key] = o
                elif issubclass(o, PhaseBuilder) and isinstance(o.default_options_class, type) and issubclass(o.default_options_class, AviaryOptionsDictionary):
                    builders[key] = o
    return out, builders


def jval(v):
    """serialisable form of a default"""
    from enum import Enum
    if isinstance(v, Enum):
        return {'enum': f'{type(v).__name__}.{v.name}'}
    if isinstance(v, tuple):
        return {'seq': [jval(x) for x in v]}
    return v


def document():
    """the options, units, kinds and defaults of every phase, as documented (written once, from the declarations)"""
    out = {}
    for key, cls in option_classes()[0].items():
        d = {}
        for n, m in cls()._dict.items():
            unit = m['val'][1] if m['set_function'] is not None else ''
            t = m['types']
            d[n] = dict(unit=unit, types=[] if unit or t is None else [x.__name__ for x in (t if isinstance(t, tuple) else (t,))],
                        vals=[] if unit or m['values'] is None or t is bool else [jval(x) for x in m['values']], none=bool(m['allow_none']) if not unit else True,
                        default=jval(m['val'][0] if unit else m['val']))
        out[key] = d
    return out


def unj(v):
    from aviary.variable_info import enums
    if isinstance(v, dict) and set(v) == {'enum'}:
        c, m = v['enum'].split('.')
        from aviary.mission import utils  # noqa: F401
        return getattr(getattr(enums, c), m)
    if isinstance(v, dict) and set(v) == {'seq'}:
        return tuple(unj(x) for x in v['seq'])
    return v


_DOC = None


def docs():
    global _DOC
    if _DOC is None:
        _DOC = json.load(open(DOC))
    return _DOC


def table(key, coder):
    return {n: dict(unit=o['unit'], types=o['types'], vals=[coder.value(unj(x), '') for x in o['vals']], none=o['none'], **{'def': coder.value(unj(o['default']), o['unit'])})
            for n, o in docs()[key].items()}


def pyform(f):
    return (f['py'], f['u']) if f['tup'] else f['py']


def drive(c):
    """c: key, builder key or None, forms {name: form with py}, info, reads -> observation"""
    from aviary.mission.phase_builder import PhaseBuilder
    import numpy as np
    classes, builders = option_classes()
    cls = classes[c['key']]
    coder = c['coder'] if 'coder' in c else Coder()
    B = builders.get(c['builder']) if c['builder'] else None
    if B is None or B.default_options_class is not cls:
        B = type('B', (PhaseBuilder,), {'default_options_class': cls})
    user = {n: pyform(f) for n, f in c['forms'].items()}
    keep = copy.deepcopy(user)

    def make(u, info, guesses=None):
        if info:
            d = {'user_options': u}
            if c.get('more'):
                d['subsystem_options'] = {}
            if guesses is not None:
                d['initial_guesses'] = guesses
            try:
                b = B.from_phase_info('ph', d, subsystems=[])
            except Exception as e:
                return dict(ok=False, b=[]), None, d, e
        else:
            d = {'user_options': u}
            try:
                b = B('ph', user_options=u, subsystems=[])
            except Exception as e:
                return dict(ok=False, b=[]), None, d, e
        o = {}
        for n in b.user_options._dict:
            v = b.user_options[n]
            m = docs()[c['key']].get(n, dict(unit=''))
            if m['unit']:
                o[n] = coder.value(v[0], m['unit']) if isinstance(v, tuple) and len(v) == 2 and v[1] == m['unit'] else dict(t='wrong', x=[])
            else:
                o[n] = coder.value(v, '')
        return dict(ok=True, b=o), b, d, None
    from aviary.variable_info.variable_meta_data import CoreMetaData
    gs, back = {}, {}
    if c.get('guesses') and c['info']:
        legal = sorted(B._initial_guesses_meta_data_) if isinstance(getattr(B, '_initial_guesses_meta_data_', None), dict) else []
        for n, v, u in c['guesses']:
            if legal:
                m = CoreMetaData.get(legal[n % len(legal)])
                gs[legal[n % len(legal)]] = (v, m['units'] if m else u)
    r, b, d, exc = make(user, c['info'], dict(gs) if gs else None)
    same = set(d['user_options']) == set(keep) and all(type(d['user_options'][k]) is type(keep[k]) and repr(d['user_options'][k]) == repr(keep[k]) for k in keep)
    again, reads = dict(ok=False, b=[]), []
    if r['ok']:
        try:
            name, phase_info = b.to_phase_info()
            back = dict(phase_info['initial_guesses'])
            again, b2, *_ = make(dict(phase_info['user_options']), c.get('info2', c['info']) or bool(gs), phase_info['initial_guesses'] if gs else None)
            if gs and b2 is not None:
                again_gs = {n: tuple(v) for n, v in b2.initial_guesses}
                back = back if repr(again_gs) == repr(gs) else again_gs
        except Exception as e:
            exc = e
            back = {'': f'{type(e).__name__}: {e}'[:100]}
        for n, u in c.get('reads', []):
            if n not in r['b']:
                continue
            try:
                v = b.user_options.get_val(n, units=u)
                reads.append(dict(n=n, u=u, r=dict(ok=True, v=coder.value(v, u))))
            except Exception:
                reads.append(dict(n=n, u=u, r=dict(ok=False, v=dict(t='none', x=[]))))
    return dict(r=r, again=again, same=bool(same), reads=reads, gs={n: repr(v) for n, v in gs.items()}, gb={n: repr(tuple(v)) if isinstance(v, (tuple, list)) else repr(v) for n, v in back.items()}, exc=f'{type(exc).__name__}: {exc}'[:200] if exc else '', coder=coder)


def one(c):
    c = dict(c, coder=Coder())
    table(c['key'], c['coder'])
    for _, v, _ in RAW:
        c['coder'].value(v, '')
    o = drive(c)
    o.pop('coder')
    return o


def random_case(rng, keys, builders):
    from aviary.variable_info.enums import ThrottleAllocation, Transcription, PhaseType, SpeedType
    key = rng.choice(keys)
    bs = [k for k, b in builders.items() if b == key]
    forms = {}
    doc = docs()[key]
    names = list(doc)
    bad = rng.random() < .45
    picked = rng.sample(names, rng.randint(0, min(len(names), 12)))

    def ratio(u, w):
        from fractions import Fraction
        f = Fraction(UTAB[u][1], UTAB[u][2]) / Fraction(UTAB[w][1], UTAB[w][2])
        return UTAB[u][0] == UTAB[w][0] and f.denominator < 20000 and f.numerator < 1000000

    def number():
        return rng.choice([rng.randint(-20, 60), rng.randint(1, 400) / 4, float(rng.randint(0, 9))])

    def good(n):
        o = doc[n]
        if o['unit']:
            us = [u for u in UTAB if o['unit'] in UTAB and ratio(u, o['unit'])] or [o['unit']]
            v = rng.choice([number(), number(), None, (number(), number()), (None, number()), (number(), None)]) if 'bounds' not in n else rng.choice([(number(), number()), (None, number()), (None, None)])
            u = rng.choice(us)
            if u == 'unitless' and rng.random() < .6 and not isinstance(v, tuple):
                return dict(tup=False, py=v, u='')
            return dict(tup=True, py=v, u=u)
        if o['vals']:
            v = unj(rng.choice(o['vals']))
        elif o['types'] == ['int']:
            v = rng.choice([rng.randint(1, 30), None]) if o['none'] else rng.randint(1, 30)
        elif o['types'] == ['bool']:
            v = rng.random() < .5
        elif o['types'] == ['dict']:
            v = rng.choice([{}, {'alpha': {'equals': 3.0, 'type': 'path'}}])
        elif o['types'] == ['PhaseType']:
            v = rng.choice(list(PhaseType))
        else:
            v = rng.choice([Transcription.COLLOCATION, 'x', 3, None])
        return dict(tup=rng.random() < .2, py=v, u='unitless')

    def wrong(n):
        o = doc[n]
        k = rng.randrange(6)
        if k == 0:
            return dict(tup=True, py=number(), u='A' if rng.random() < .3 else rng.choice([u for u in UTAB if u not in ('unitless',)]))
        if k == 1:
            return dict(tup=rng.random() < .5, py='abc', u=o['unit'] or 'unitless')
        if k == 2:
            return dict(tup=False, py=None, u='')
        if k == 3:
            return dict(tup=False, py=number() + 0.5, u='')
        if k == 4:
            return dict(tup=True, py=rng.choice([number(), 'zz', ThrottleAllocation.STATIC]), u='unitless')
        return dict(tup=rng.random() < .5, py=ThrottleAllocation.DYNAMIC, u='unitless')
    for n in picked:
        forms[n] = good(n)
    if bad:
        for n in rng.sample(picked, min(len(picked), rng.choice([0, 1, 1]))):
            forms[n] = wrong(n)
        if rng.random() < .25:
            n = rng.choice(picked or names)
            forms[rng.choice([n + 's', n[:-1], n.upper(), 'zzz'])] = good(n) if n in doc else dict(tup=False, py=1, u='')
    # pounds and kilograms, degrees and radians are compatible, but not in small rationals; True is a number to Python
    # what declares no unit, kinds or values takes anything, a pair with a unit too
    for n in list(forms):
        f = forms[n]
        if n in doc and not doc[n]['unit'] and not doc[n]['types'] and not doc[n]['vals'] and f['tup'] and f['u'] != 'unitless':
            del forms[n]
            continue
        # 0 and 1 are False and True to Python
        if n in doc and doc[n]['types'] == ['bool'] and not isinstance(f['py'], bool) and f['py'] in (0, 1):
            del forms[n]
            continue
        if n in doc and doc[n]['unit'] in UTAB and f['u'] in UTAB and ((UTAB[f['u']][0], UTAB[doc[n]['unit']][0]) in CLASHES or UTAB[f['u']][0] == UTAB[doc[n]['unit']][0] and not ratio(f['u'], doc[n]['unit'])):
            del forms[n]
    reads = []
    for n in rng.sample(names, min(len(names), 4)):
        u = doc[n]['unit']
        d = doc[n]['default']
        if any(isinstance(x, (int, float)) and abs(x) > 1e5 for x in (d['seq'] if isinstance(d, dict) and 'seq' in d else [d])):
            continue
        us = [x for x in UTAB if u in UTAB and ratio(u, x)] if u else ['m']
        if n in forms and forms[n]['u'] in UTAB and u in UTAB and forms[n]['u'] != u:
            us = [x for x in us if x == forms[n]['u'] or x == u]       # two conversions in a row are no small rationals
        if us and rng.random() < .8:
            reads.append((n, rng.choice(us)))
        else:
            x = rng.choice(['m', 's', 'kn', 'unitless'])
            if not u or u not in UTAB or (UTAB[u][0], UTAB[x][0]) not in CLASHES and (UTAB[u][0] != UTAB[x][0] or ratio(u, x)):
                reads.append((n, x))
    return dict(key=key, builder=rng.choice(bs) if bs and rng.random() < .8 else None, forms=forms, info=rng.random() < .6, info2=rng.random() < .5, guesses=[(rng.randint(0, 9), [rng.randint(0, 80) / 8 for _ in range(2)], 'unitless') for _ in range(rng.choice([0, 0, 1, 2]))], reads=reads, more=rng.random() < .5)


def record(c):
    o = drive(c)
    coder = o.pop('coder')
    d = {n: dict(tup=f['tup'], v=coder.value(f['py'], ''), u=f['u'] if f['tup'] else '') for n, f in c['forms'].items()}
    return dict(key=c['key'], table=table(c['key'], coder), info=c['info'], **{'def': d}, **o)


def run(ck):
    rng = random.Random(ck.seed)
    classes, builders = option_classes()
    with vt.quiet():
        real = {k: next((n for n, c in classes.items() if c is b.default_options_class), None) for k, b in builders.items()}
    for k in docs():
        if k not in classes:
            ck.violation('missing', k, k)
    keys = [k for k in docs() if k in classes]

    # generated definitions over one option of each kind
    key = next(k for k in keys if k.endswith('energy_phase.EnergyPhaseOptions')) if any(k.endswith('energy_phase.EnergyPhaseOptions') for k in keys) else next(k for k in keys if k.endswith('flight_phase_builder.FlightPhaseOptions'))
    small = ['mass_initial', 'mach_bounds', 'num_segments', 'reserve', 'altitude_polynomial_order', 'throttle_enforcement', 'target_distance', 'constraints']
    coder = Coder()
    tab = {n: t for n, t in table(key, coder).items() if n in small}
    ck.require(len(tab) == len(small), 'representative options')
    forms = [dict(tup=t, v=coder.value(v, ''), u=u) for t, v, u in RAW]
    back = {vt.canon(f): r for f, r in zip(forms, RAW)}
    ck.require(len(back) == len(RAW), 'forms')
    sets = lambda o: f"[unit |-> {vt._tla(o['unit'])}, types |-> {vt._tla(set(o['types']))}, vals |-> {{{', '.join(vt._tla(x) for x in o['vals'])}}}, none |-> {vt._tla(o['none'])}, def |-> {vt._tla(o['def'])}]"
    defs = '\n'.join(['d_Table == ' + ' @@ '.join(f'({vt._tla(n)} :> {sets(o)})' for n, o in tab.items()), f"d_Names == {vt._tla(set(small) | {'mass_intial'})}",
                      'd_Forms == {' + ', '.join(vt._tla(f) for f in forms) + '}', f'd_MaxPut == {1 if ck.quick else 2}',
                      'd_UTab == ' + ' @@ '.join(f'({vt._tla(u)} :> {vt._tla(dict(dim=x[0], n=x[1], d=x[2]))})' for u, x in UTAB.items())])
    runs = [defs]
    if ck.quick:  # pairs of options over fewer forms
        few = [forms[i] for i in (1, 3, 4, 7, 9, 10, 13, 16)]
        runs.append(defs.replace('d_MaxPut == 1', 'd_MaxPut == 2').replace('d_Forms == {' + ', '.join(vt._tla(f) for f in forms) + '}', 'd_Forms == {' + ', '.join(vt._tla(f) for f in few) + '}'))
    cases = {}
    for d in runs:
        r = ck.tlc('P19_Options', defs=d, invariants=['RoundTrip', 'Complete', 'OnlyGiven', 'UnitsIgnoreOthers'], action_constraint='EmitCase', workers=6)
        for e in r.emitted:
            cases[vt.canon([e['def'], e['info']])] = e
    cases = list(cases.values())
    ck.notes['generated'] = len(cases)
    if len(cases) > (2500 if ck.quick else 60000):
        cases = rng.sample(cases, 2500 if ck.quick else 60000)
        ck.exhaustive = False
    bs = [k for k, n in real.items() if n == key]
    todo = []
    for e in cases:
        fs = {}
        for n, f in (e['def'].items() if e['def'] else ()):
            t, v, u = back[vt.canon(f)]
            # True is a number to Python; that is not this property
            fs[n] = dict(tup=t, py=v, u=u)
        todo.append(dict(key=key, builder=rng.choice(bs) if bs else None, forms=fs, info=e['info'], info2=rng.random() < .5, want=e['r']))
    todo = [c for c in todo if not any(f['py'] is True and n not in ('reserve', 'constraints', 'throttle_enforcement') for n, f in c['forms'].items())]
    for c, got in zip(todo, ck.pmap(one, todo)):
        show = dict(forms=c['forms'], info=c['info'])
        if 'crash' in got:
            ck.violation('crash', got['crash'], show, None, got)
            continue
        w, g = c['want'], got['r']
        sig = '+'.join(sorted(c['forms']))
        if w['ok'] != g['ok']:
            ck.violation('refused' if w['ok'] else 'accepted', sig, show, w['ok'], got['exc'] or g['ok'])
        elif w['ok']:
            wrong = [n for n in small if w['b'][n] != g['b'].get(n)]
            if wrong:
                ck.violation('options', sig, show, {n: w['b'][n] for n in wrong}, {n: g['b'].get(n) for n in wrong})
            if got['again'] != g:
                ck.violation('round-trip', sig, show, g, got['again'])
        if not got['same']:
            ck.violation('definition-changed', sig, show)
    ck.count(len(todo))
    ck.tally([('ok' if c['want']['ok'] else 'refused') + ('-info' if c['info'] else '-direct') for c in todo], 'generated_outcomes')
    ck.sample(dict(forms=todo[-1]['forms'], ok=todo[-1]['want']['ok']))

    # every phase of the package
    rc = [random_case(rng, keys, real) for _ in range(1500 if ck.quick else 20000)]
    traces = []
    for c, t in zip(rc, ck.pmap(record, rc)):
        if 'crash' in t:
            ck.violation('crash', t['crash'], dict(key=c['key'], forms=c['forms']), None, t)
            continue
        traces.append(t)
    for b in ck.validate('P19_Trace', traces, defs=defs, chunk=1500):
        t = b['trace']
        for x in b['bad']:
            ck.violation(x, f"trace|{t['key']}", dict(forms=t['def'], info=t['info'], exc=t['exc'], reads=t['reads'] if x == 'read' else ''), b['want'], {n: t['r']['b'].get(n) for n in b['want']['names']} if t['r']['ok'] else t['r'])
    ck.tally([t['key'] for t in traces], 'phases')
    ck.tally(['ok' if t['r']['ok'] else 'refused' for t in traces], 'random_outcomes')


if __name__ == '__main__':
    print(json.dumps(document(), indent=0, sort_keys=True))
