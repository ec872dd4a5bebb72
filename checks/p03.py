"""P03: input decks mean what their lines say, independent of layout."""
import os
import random
import warnings
import numpy as np
import vt

SILENT = '-'
UNITS = ['kg', 'lbm', 'g', 'slug', 'ft', 'm', 'inch', 'km', 'NM', 'mi', 'ft**2', 'm**2', 's', 'min', 'h', 'lbf', 'N', 'kN', 'psi', 'Pa', 'kPa', 'deg', 'rad', 'hp', 'kW', 'W',
         'kn', 'm/s', 'ft/s', 'ft/min', 'degK', 'degR', 'rpm', 'rad/s', 'Hz', 'lbm/ft**3', 'kg/m**3', 'kg/s', 'lbm/h', 'unitless', 'lbf/ft**2', 'lbm/ft', 'kg/m', 'N*m', 'ft*lbf']
GUESSES = ['actual_takeoff_mass', 'rotation_mass', 'operating_empty_mass', 'fuel_burn_per_passenger_mile', 'cruise_mass_final', 'flight_duration', 'time_to_climb', 'climb_range', 'reserves']
TEXTS = ['a.csv', 'models/engines/turbofan_22k.csv', 'm', 'A', 'my engine.csv', 'x_y-z', 'slinear', 'v1.2', 's', './b.dat', 'kg.csv', 'even']
UNKNOWN = ['aircraft:wing:are', 'Aircraft:Wing:Area', 'foo:bar', 'AIRCRAFT:DESIGN:GROSS_MASS', 'mission:my_own', 'aircraft:custom:thing2', 'settings:verbose']
NOISE = ['Notes', 'hello, 5', 'gross_mass, 5, kg', 'test_mode, True', 'mass_defect, 5, lbm', 'Aircraft , Value , Units', 'x', 'use_surrogates,False', 'Reserves, 4', 'time to climb, 5, h']
CUSTOM = 'aircraft:custom:thing'


def dims():
    from openmdao.utils.units import _find_unit
    out = {}

    def dim(u):
        if u not in out:
            f = None if u == 'unitless' else _find_unit(u)
            out[u] = 'none' if f is None else ','.join(map(str, f._powers))
        return out[u]
    return dim


class Names:
    def __init__(self):
        from aviary.variable_info.variable_meta_data import CoreMetaData
        from enum import Enum
        import copy
        self.ext = copy.copy(dict(CoreMetaData))
        self.core = CoreMetaData
        gm = dict(CoreMetaData['aircraft:design:gross_mass'])
        gm.update(historical_name=None, desc='added by a user', default_value=1.0, units='kg')
        self.ext[CUSTOM] = gm
        self.dim = dims()
        self.kinds = {}
        self.enums = {}
        for n, m in self.ext.items():
            t = m['types']
            if isinstance(t, tuple) or t is None or n == 'settings:verbosity':
                continue
            k = {float: 'num', int: 'int', bool: 'bool', str: 'text'}.get(t, 'enum')
            if k == 'enum':
                self.enums[n] = t
            self.kinds.setdefault((k, bool(m['multivalue'])), []).append(n)
        from aviary.variable_info.enums import Verbosity
        self.enums['settings:verbosity'] = Verbosity

    def line(self, n, vals, u=''):
        m = self.ext[n]
        t = m['types']
        t = float if isinstance(t, tuple) else t
        ty = {float: 'num', int: 'int', bool: 'bool', str: 'text'}.get(t) or 'enum:' + t.__name__
        return dict(cls='var', t=n, vals=vals, u=u, ud=self.dim(u) if u else '', ty=ty, multi=bool(m['multivalue']), du=m['units'], dim=self.dim(m['units']))


def plain(cls, t='', vals=()):
    return dict(cls=cls, t=t, vals=list(vals), u='', ud='', ty='', multi=False, du='', dim='')


def num(x):
    return dict(ty='int' if float(x) == int(x) else 'num', x='%.12g' % x)


def txt(x, ty='text'):
    return dict(ty=ty, x=x)


# ---------------------------------------------------------------- layouts
def number_text(x, rng, wants):
    v = float(x)
    forms = []
    if v == int(v):
        i = int(v)
        forms += [str(i), str(i), f'{i}.0', f'{i}.'] + ([f'+{i}'] if i >= 0 else [])
        if wants != 'int':
            forms += [f'{i}e0', f'{i}E+00', repr(v)]
            if i and i % 10 == 0:
                forms += [f'{i // 10}e1', f'{i // 10}.0E1', f'{i // 10}e+1']
            forms += ['%.11e' % v]
    else:
        s = '%.12g' % v
        forms += [s, s, '%.11e' % v]
        if s.startswith('0.'):
            forms.append(s[1:])
        if 'e' not in s:
            forms.append(s + '0')
            forms.append(s + 'e0')
            forms.append(s + 'E-0')
    return rng.choice(forms)


def value_text(ln, v, rng, nm):
    if v['ty'] in ('num', 'int'):
        return number_text(v['x'], rng, ln['ty'])
    if v['ty'] == 'bool':
        return rng.choice([v['x'], v['x'].lower(), v['x'].upper()])
    if v['ty'].startswith('enum:'):
        e = nm.enums[ln['t']][v['x']]
        forms = [e.name, e.name.lower(), str(e.value), e.name.capitalize()]
        return rng.choice(forms)
    return v['x']


def blanks(rng):
    return rng.choice(['', '', ' ', '  ', '\t', ' \t '])


def render_line(ln, rng, nm):
    if ln['cls'] == 'noise':
        return ln['t'] if ln['t'] else rng.choice(['', '   ', ',,,', ' , ,', '# aircraft:wing:area, 5, ft**2', '#', '\t', '###,,', ',', '# note'])
    if ln['cls'] == 'unknown':
        return ln['t'] + rng.choice(['', ', 5', ', 5, kg', ', 3, 4, m', ', text', ', [1, 2], ft', ', m'])
    name = ln['t']
    if ln['cls'] == 'guess' and (name not in GUESSES or rng.random() < .4):
        name = 'initialization_guesses:' + name
    vals = [value_text(ln, v, rng, nm) for v in ln['vals']]
    unitlike = not ln['u'] and len(vals) > 1 and ln['vals'][-1]['ty'] == 'text'
    if ln['multi'] and (unitlike or rng.random() < .4):
        b = rng.choice(['', ' '])
        vals[0] = '[' + b + vals[0]
        vals[-1] += b + ']'
    parts = [name] + vals
    if ln['u']:
        parts.append(ln['u'])
    out = ''
    for i, p in enumerate(parts):
        out += (',' + (rng.choice([',', ' ,']) if rng.random() < .08 else '') if i else '') + blanks(rng) + p + blanks(rng)
    out += rng.choice(['', '', '', ',', ',,', ' , ,'])
    out += rng.choice(['', '', ' # see notes', '# aircraft:design:gross_mass, 3, kg', '  # a, b, kg', '#'])
    return out


def render(deck, rng, nm):
    out = []
    for ln in deck:
        while rng.random() < .25:
            out.append(render_line(plain('noise'), rng, nm))
        out.append(render_line(ln, rng, nm))
    eol = rng.choice(['\n', '\n', '\r\n'])
    text = eol.join(out) + rng.choice(['', eol, eol + eol])
    return (b'\xef\xbb\xbf' if rng.random() < .1 else b'') + text.encode()


# ---------------------------------------------------------------- the real thing
def canon(val, multi):
    from enum import Enum

    def one(v):
        if isinstance(v, Enum):
            return v.name
        if isinstance(v, (bool, np.bool_)):
            return str(bool(v))
        if isinstance(v, (int, float, np.number)):
            return '%.12g' % v
        return str(v)
    if isinstance(val, (list, tuple, np.ndarray)):
        flat = [one(v) for v in np.ravel(np.array(val, dtype=object)).tolist()]
        return flat if multi else ['list'] + flat
    return [one(val)]


def snap(values):
    return {k: (canon(v, True), u) for k, (v, u) in values}


class Real:
    def __init__(self, nm):
        from aviary.utils.process_input_decks import create_vehicle
        self.create, self.nm, self.base = create_vehicle, nm, {}

    def call(self, what, caller, ext, rng):
        from aviary.variable_info.enums import Verbosity
        kw = {}
        if caller != SILENT:
            v = Verbosity[caller]
            kw['verbosity'] = rng.choice([v, v.value])
        elif rng.random() < .5:
            kw['verbosity'] = None
        if ext:
            kw['meta_data'] = self.nm.ext
        with warnings.catch_warnings(), vt.quiet():
            warnings.simplefilter('ignore')
            return self.create(what, **kw)

    def empty(self, caller, ext):
        if (caller, ext) not in self.base:
            with open('empty.csv', 'w') as f:
                f.write('\n')
            a, g = self.call('empty.csv', caller, ext, random.Random(1))
            self.base[caller, ext] = snap(a), dict(g)
        return self.base[caller, ext]

    def load(self, deck, caller, ext, rng, layout):
        base, gbase = self.empty(caller, ext)
        rec = dict(deck=deck, caller=caller, ok=True, got=[], changed=[], v='')
        how = dict(layout=layout, ext=ext)
        given = None
        if layout == 'object':
            from aviary.utils.aviary_values import AviaryValues
            given = AviaryValues()
            for ln in deck:
                vals = []
                for v in ln['vals']:
                    if v['ty'] == 'bool':
                        vals.append(v['x'] == 'True')
                    elif v['ty'].startswith('enum:'):
                        vals.append(self.nm.enums[ln['t']][v['x']])
                    else:
                        vals.append(v['x'] if v['ty'] == 'text' else float(v['x']) if v['ty'] == 'num' else int(float(v['x'])))
                val = vals if ln['multi'] or len(vals) > 1 else vals[0] if vals else None
                if ln['cls'] == 'var':
                    given.set_val(ln['t'], val, ln['u'] or ln['du'], self.nm.ext if ext else self.nm.core)
                elif ln['cls'] == 'guess':
                    given.set_val('initialization_guesses:' + ln['t'], val)
            before = snap(given)
            what = given
        else:
            data = render(deck, rng, self.nm)
            how['text'] = data.decode('utf-8', 'replace')
            with open('deck.csv', 'wb') as f:
                f.write(data)
            what = rng.choice(['deck.csv', os.path.abspath('deck.csv')])
        try:
            a, g = self.call(what, caller, ext, rng)
        except Exception as e:
            rec['ok'] = False
            how['error'] = f'{type(e).__name__}: {e}'[:300]
            return rec, how
        named = {(ln['cls'], ln['t']) for ln in deck if ln['cls'] in ('var', 'guess')}
        multi = {(ln['cls'], ln['t']): ln['multi'] for ln in deck}
        for cls, t in sorted(named):
            if t == 'settings:verbosity':
                continue
            if cls == 'var' and t in a:
                v, u = a.get_item(t)
                rec['got'].append(dict(cls=cls, t=t, vals=canon(v, multi[cls, t]), u=u))
            elif cls == 'guess' and t in g:
                rec['got'].append(dict(cls=cls, t=t, vals=canon(g[t], False), u=''))
        vkey = 'settings:verbosity'
        now = snap(a)
        for k in sorted(set(now) | set(base)):
            if ('var', k) not in named and k != vkey and now.get(k) != base.get(k) and not (layout == 'object' and k.startswith('initialization_guesses:')):
                rec['changed'].append(k)
        for k in sorted(set(g) | set(gbase)):
            if ('guess', k) not in named and (k not in g or k not in gbase or g[k] != gbase[k]):
                rec['changed'].append('guess ' + k)
        if given is not None and snap(given) != before:
            rec['changed'].append('given values')
        rec['v'] = now[vkey][0][0] if vkey in now else 'missing'
        return rec, how


# ---------------------------------------------------------------- decks
def value(kind, n, rng, nm):
    if kind == 'num':
        return num(rng.choice([0, 1, -1, 2.5, rng.randint(-1000, 10**6), round(rng.uniform(-10, 10), 4), rng.randint(1, 99) * 10**rng.randint(1, 6), round(rng.uniform(0, 1), 6)]))
    if kind == 'int':
        return num(rng.choice([0, 1, 2, -1, rng.randint(0, 500)]))
    if kind == 'bool':
        return txt(rng.choice(['True', 'False']), 'bool')
    if kind == 'text':
        return txt(rng.choice(TEXTS))
    e = nm.enums[n]
    return txt(rng.choice(list(e)).name, 'enum:' + e.__name__)


def random_line(rng, nm, ext, pool):
    r = rng.random()
    if r < .1:
        return plain('guess', rng.choice(GUESSES + ['altitude', 'throttle']), [num(rng.choice([0, 5, 0.5, 1200, 2.25]))])
    if r < .2:
        return plain('unknown', rng.choice(UNKNOWN + ([] if ext else [CUSTOM])))
    if r < .28:
        return plain('noise', rng.choice(NOISE))
    if r < .33:
        return nm.line('settings:verbosity', [value('enum', 'settings:verbosity', rng, nm)])
    n, kind, multi = rng.choice(pool)
    k = rng.choice([1, 1, 2, 3, 4]) if multi and kind != 'enum' else 1
    vals = [value(kind, n, rng, nm) for _ in range(k)]
    u = ''
    if kind == 'num' and rng.random() < .6:
        d = nm.dim(nm.ext[n]['units'])
        same = [x for x in UNITS if nm.dim(x) == d] + [nm.ext[n]['units']]
        u = rng.choice(same)
    elif rng.random() < .3:
        u = 'unitless' if nm.dim(nm.ext[n]['units']) == 'none' else ''
    if kind == 'num' and rng.random() < .02:
        r = rng.random()
        if r < .4:
            u = rng.choice([x for x in UNITS if nm.dim(x) != nm.dim(nm.ext[n]['units'])])
        elif r < .7:
            vals[rng.randrange(len(vals))] = txt('high')
        elif not multi:
            vals = vals * 2
    return nm.line(n, vals, u)


def random_deck(rng, nm, size):
    ext = rng.random() < .5
    kinds = list(nm.kinds)
    pool = []
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(kinds + [('num', False), ('num', True)])
        n = rng.choice(nm.kinds[k])
        if n != CUSTOM or ext:
            pool.append((n, k[0], k[1]))
    if ext:
        pool.append((CUSTOM, 'num', False))
    pool = pool or [('aircraft:design:gross_mass', 'num', False)]
    return [random_line(rng, nm, ext, pool) for _ in range(rng.randint(1, size))], ext


LOCATIONS = 'aircraft:engine:wing_locations'


def signature(b, how):
    t = b['trace']
    if 'refused' in b['bad'] and f"{LOCATIONS} is of type(s)" in str(how.get('error')) and "of type <class 'int'>" in str(how['error']):
        return 'locations-with-whole-numbers'
    if 'refused' in b['bad'] or 'not-refused' in b['bad']:
        return sorted(b['bad'])[0]
    out = []
    for d in b['diff']:
        out.append(d[0][1])
    return ' '.join(sorted(set(out)) + ['changed ' + c for c in t['changed']] + (['verbosity'] if 'verbosity' in b['bad'] else []))[:200]


def model_pool(nm):
    gm, em, px, fold = 'aircraft:design:gross_mass', 'aircraft:engine:mass', 'aircraft:crew_and_payload:design:num_passengers', 'aircraft:wing:has_fold'
    f, eom, vb, loc = 'aircraft:engine:data_file', 'settings:equations_of_motion', 'settings:verbosity', 'aircraft:engine:wing_locations'
    L = nm.line
    return [L(gm, [num(5)], 'kg'), L(gm, [num(6.5)]), L(gm, [num(7)], 'ft'), L(gm, [txt('high')]), L(gm, [num(1), num(2)], 'kg'),
            L(em, [num(1), num(2.5)], 'kg'), L(em, [num(1000)]), L(px, [num(4)]), L(fold, [txt('True', 'bool')]), L(loc, [num(0.25), num(1)]),
            L(f, [txt('a.csv'), txt('m')]), L(f, [txt('m')]), L(eom, [txt('TWO_DEGREES_OF_FREEDOM', 'enum:EquationsOfMotion')]),
            L(vb, [txt('DEBUG', 'enum:Verbosity')]), L(vb, [txt('QUIET', 'enum:Verbosity')]), L(CUSTOM, [num(3)], 'lbm'),
            plain('guess', 'reserves', [num(5)]), plain('guess', 'reserves', [num(0.5)]), plain('guess', 'altitude', [num(1000)]),
            plain('unknown', 'foo:bar'), plain('noise', 'Notes')]


def run(ck):
    rng = random.Random(ck.seed)
    nm = Names()
    real = Real(nm)
    pool = model_pool(nm)

    def defs(p):
        return '\n'.join(['d_Pool == {' + ', '.join(vt._tla(x) for x in p) + '}', 'd_Callers == {"-", "QUIET", "VERBOSE"}'])
    consts = dict(MaxLines=2, Silent='-')
    if not ck.quick:
        # three lines from a smaller pool
        small = [x for i, x in enumerate(pool) if i in (0, 1, 2, 5, 10, 13, 15, 16, 17, 19)]
    inv = ['Agrees', 'LastWins', 'NothingElse', 'DecorationFree', 'OrderFree', 'CallerWins']
    emitted = ck.tlc('P03_Deck', consts, defs=defs(pool), invariants=inv, properties=['Frame', 'RefusedStays'], action_constraint='EmitCase', workers=4).emitted
    if not ck.quick:
        emitted = emitted + ck.tlc('P03_Deck', dict(consts, MaxLines=3), defs=defs(small), invariants=inv, properties=['Frame', 'RefusedStays'], action_constraint='EmitCase',
                                   workers=4).emitted
    ck.require(len(emitted) >= 1300, 'decks of the model')
    jobs = [(e['deck'], True, e['caller']) for e in emitted]
    for _ in range(3000 if ck.quick else 12000):
        deck, ext = random_deck(rng, nm, rng.choice([3, 8, 14]))
        jobs.append((deck, ext, rng.choice([SILENT, SILENT, SILENT, 'QUIET', 'BRIEF', 'VERBOSE', 'DEBUG'])))
    traces, hows = [], []
    nfile = nobj = 0
    for deck, ext, caller in jobs:
        legal = all(x['cls'] in ('var', 'guess', 'noise') for x in deck)
        layouts = ['file']
        if legal and rng.random() < .3:
            layouts.append('object')
        for lay in layouts:
            try:
                rec, how = real.load(deck, caller, ext, rng, lay)
            except (TypeError, ValueError, KeyError):
                if lay == 'file':
                    raise
                continue      # the object could not hold these values in the first place (P02)
            rec['k'] = len(traces)
            traces.append(rec)
            hows.append(how)
            nfile += lay == 'file'
            nobj += lay == 'object'
        # the same lines with lines of different names exchanged
        if len(deck) > 2 and rng.random() < .5:
            d2 = list(deck)
            for _ in range(len(d2)):
                i = rng.randrange(len(d2) - 1)
                if (d2[i]['cls'], d2[i]['t']) != (d2[i + 1]['cls'], d2[i + 1]['t']):
                    d2[i], d2[i + 1] = d2[i + 1], d2[i]
            rec, how = real.load(d2, caller, ext, rng, 'file')
            rec['k'] = len(traces)
            traces.append(rec)
            hows.append(how)
    for b in ck.validate('P03_Trace', traces, consts, defs=defs(pool[:1]), chunk=3000):
        t, how = b['trace'], hows[b['trace']['k']]
        ck.violation('deck', f"{how['layout']} {signature(b, how)}", dict(how=how, caller=t['caller'], deck=[[x['cls'], x['t'], [v['x'] for v in x['vals']], x['u']] for x in t['deck']]),
                     dict(b['want'], bad=b['bad']), dict(ok=t['ok'], got=t['got'], changed=t['changed'], v=t['v'], error=how.get('error')))
    ck.count(len(traces))
    ck.tally(['file'] * nfile + ['object'] * nobj, 'layout')
    ck.tally(['loaded' if t['ok'] else 'refused' for t in traces], 'outcome')
    ck.tally([x['cls'] + (':' + x['ty'].split(':')[0] if x['ty'] else '') for t in traces for x in t['deck']], 'lines')
    ck.require(sum(t['ok'] for t in traces) > 800, 'loads that succeed')
    ck.sample(dict(text=hows[-1].get('text', '')[:400], got=traces[-1]['got'][:3]))
