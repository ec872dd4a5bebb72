"""P16: engine decks are checked, sorted and scaled without losing or altering data."""
import math
import os
import random
import vt

KEYS = dict(m='MACH', a='ALTITUDE', t='THROTTLE', h='HYBRID_THROTTLE', f='THRUST', g='GROSS_THRUST', d='RAM_DRAG', p='TAILPIPE_THRUST', s='SHAFT_POWER', c='SHAFT_POWER_CORRECTED', w='FUEL_FLOW', n='NOX_RATE')
NAMES = dict(m=['mach', 'mn', 'mach_number'], a=['altitude', 'alt'], t=['throttle', 'power_code', 'pc'], h=['hybrid_throttle', 'hpc', 'electric_throttle'], f=['thrust', 'net_thrust'], g=['gross_thrust'],
             d=['ram_drag'], p=['tailpipe_thrust'], s=['shaft_power', 'shp'], c=['shaft_power_corrected', 'shpcor'], w=['fuel', 'fuel_flow', 'fuel_flow_rate'], n=['nox', 'nox_rate'])
# units and how many of them make one of the deck's
UNITS = dict(m=[('unitless', 1)], a=[('ft', 1), ('inch', 12), ('kft', 0.001)], t=[('unitless', 1)], h=[('unitless', 1)], f=[('lbf', 1), ('klbf', 0.001)], s=[('hp', 1), ('khp', 0.001)],
             w=[('lbm/h', 1), ('lbm/min', 1 / 60)], n=[('lbm/h', 1), ('lbm/min', 1 / 60)])
for _k in 'gdp':
    UNITS[_k] = UNITS['f']
UNITS['c'] = UNITS['s']
OUT = ['m', 'a', 't', 'h', 'f', 's', 'c', 'w', 'n']


def render(c, rng, how, units):
    """the table of a case as NamedValues or as a file"""
    from aviary.variable_info.variables import Aircraft
    from aviary.utils.named_values import NamedValues
    from aviary.subsystems.propulsion.utils import EngineModelVariables as V
    cols = list(c['cols'])
    rng.shuffle(cols)
    extra = rng.random() < 0.3
    un = {k: rng.choice(UNITS[k]) if units else UNITS[k][0] for k in cols}
    vals = {k: [(r[k] / 1000 if k == 'm' else r[k]) * un[k][1] for r in c['rows']] for k in cols}
    if how == 'memory':
        data = NamedValues()
        for k in cols:
            key = V[KEYS[k]] if rng.random() < 0.3 else rng.choice(NAMES[k])
            data.set_val(key, vals[k] if rng.random() < 0.5 else __import__('numpy').array(vals[k], dtype=float), un[k][0])
        if extra:
            data.set_val('fan_colour', [1.0] * len(c['rows']), 'unitless')
        return data
    name = f'deck_{os.getpid()}_{rng.randrange(10**9)}.csv'
    head = []
    for k in cols:
        h = rng.choice(NAMES[k])
        h = rng.choice([h, h.replace('_', ' '), h.title(), h.upper()])
        head.append(h + (f' ({un[k][0]})' if un[k][0] != 'unitless' or rng.random() < 0.3 else ''))
    if extra:
        head.append('Fan colour')
    with open(name, 'w') as f:
        if rng.random() < 0.5:
            f.write('# a deck\n\n')
        f.write(', '.join(head) + '\n')
        for i in range(len(c['rows'])):
            f.write(','.join(repr(float(vals[k][i])) for k in cols) + (',7' if extra else '') + '\n')
    return name


def facts(data):
    return [(str(k), [float(x) for x in v], u) for k, (v, u) in data.items()] if data is not None else None


def build(job):
    import numpy as np
    from aviary.subsystems.propulsion.engine_deck import EngineDeck
    from aviary.subsystems.propulsion.utils import EngineModelVariables as V
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.variables import Aircraft, Settings
    E = Aircraft.Engine
    c = job['c']
    rng = random.Random(job['seed'])
    how = job.get('how') or rng.choice(['memory', 'memory', 'file'])
    data = render(c, rng, how, job.get('units', True))
    o = AviaryValues()
    o.set_val(Settings.VERBOSITY, job.get('verbosity', 0))
    q = lambda x: x[0] / x[1]
    o.set_val(E.INTERPOLATION_SORT, c['sort'])
    o.set_val(E.GLOBAL_THROTTLE, c['gt'])
    o.set_val(E.GLOBAL_HYBRID_THROTTLE, c['gh'])
    o.set_val(E.IGNORE_NEGATIVE_THRUST, c['ignore'])
    o.set_val(E.GENERATE_FLIGHT_IDLE, c['idle'])
    o.set_val(E.GEOPOTENTIAL_ALT, False)
    o.set_val(E.FLIGHT_IDLE_THRUST_FRACTION, q(c['fr']))
    o.set_val(E.FLIGHT_IDLE_MIN_FRACTION, q(c['lo']))
    o.set_val(E.FLIGHT_IDLE_MAX_FRACTION, q(c['hi']))
    if c['ref']:
        o.set_val(E.REFERENCE_SLS_THRUST, float(c['ref'][0]), 'lbf')
    if c['fac']:
        o.set_val(E.SCALE_FACTOR, q(c['fac']))
    if c['sca']:
        o.set_val(E.SCALED_SLS_THRUST, q(c['sca']), 'lbf')
    if how == 'file':
        o.set_val(E.DATA_FILE, data)
    before = facts(data) if how == 'memory' else None
    obefore = vt.canon([(k, str(v)) for k, v in o.items()])
    req = {V[KEYS[k]] for k in c['req']}
    rbefore = set(req)
    try:
        kw = dict(required_variables=req) if sorted(c['req']) != ['a', 'f', 'm', 't'] else {}
        d = EngineDeck('eng', o, **(dict(data=data) if how == 'memory' else {}), **kw)
    except Exception as e:
        got = dict(k='refused', err=f'{type(e).__name__}: {e}'[:200])
    else:
        n = len(d.data[V.MACH])
        rows = [{k: float(d.data[V[KEYS[k]]][i]) if V[KEYS[k]] in d.data and len(d.data[V[KEYS[k]]]) == n else (0.0 if V[KEYS[k]] not in d.data else float('nan')) for k in OUT} for i in range(n)]
        if not n:
            return dict(k='done', rows=[], how=how, changed=False)
        got = dict(k='done', rows=rows, vars=sorted(k for k in KEYS if V[KEYS[k]] in d.engine_variables), use=bool(d.use_thrust), length=d.model_length,
                   range=[float(np.min(x)) for x in (d.throttle_min, d.hybrid_throttle_min)] + [float(np.max(x)) for x in (d.throttle_max, d.hybrid_throttle_max)])
        g = lambda k, u: [float(d.options.get_val(k, u))] if k in d.options else []
        got.update(ref=g(E.REFERENCE_SLS_THRUST, 'lbf'), fac=g(E.SCALE_FACTOR, 'unitless'), sca=g(E.SCALED_SLS_THRUST, 'lbf'))
        # the deck packed by flight condition says the same as the flat one
        packed = []
        for M in range(d.mach_max_count):
            for A in range(d.alt_max_count):
                for D in range(d.data_max_count):
                    r = tuple(float(d.packed_data[V[KEYS[k]]][M, A, D]) for k in OUT if V[KEYS[k]] in d.packed_data)
                    if any(r):
                        packed.append(r)
        flat = [tuple(r[k] for k in OUT if V[KEYS[k]] in d.packed_data) for r in rows]
        got['packed'] = sorted(packed) == sorted(x for x in flat if any(x))
    got['how'] = how
    got['changed'] = (how == 'memory' and facts(data) != before) or vt.canon([(k, str(v)) for k, v in o.items()]) != obefore or req != rbefore
    if how == 'file':
        os.remove(data)
    return got


def edge(c):
    """net thrust exactly at the tolerance: no unit conversions"""
    return any(abs(r['g'] - r['d'] - r['f']) == 1 for r in c['rows'])


def num(q):
    return q[0] / q[1]


def same(a, b):
    return not math.isnan(b) and abs(a - b) <= 1e-7 * max(1, abs(a))


def judge(ck, e, got, job):
    c = e['c']
    case = dict(c=c, seed=job['seed'], how=got.get('how'))
    if 'crash' in got:
        return ck.violation('crash', got['crash'], case, None, got)
    if got['changed']:
        ck.violation('caller-changed', got['how'], case)
    if e['k'] == 'outside':
        return
    if e['k'] == 'refused':
        if got['k'] != 'refused':
            ck.violation('accepted', 'must-refuse', case, 'refused', got)
        return
    if got['k'] == 'refused':
        if e['k'] != 'either':
            ck.violation('refused', got['err'].split(':')[0], case, 'accepted', got)
        return
    want = e['rows']
    if len(want) != len(got['rows']) or got['length'] != len(want):
        return ck.violation('rows', 'number', case, want, got['rows'])
    off = [[k for k in OUT if not same(num(w[k]) if k not in 'ma' else (w[k] / 1000 if k == 'm' else w[k]), g[k])] for w, g in zip(want, got['rows'])]
    for w, g, o in zip(want, got['rows'], off):
        if not o:
            continue
        cond = [x for x in want if (x['m'], x['a']) == (w['m'], w['a'])]
        size = {}
        for x in want:
            if not x['idle']:
                size[x['m'], x['a']] = size.get((x['m'], x['a']), 0) + 1
        short = w['idle'] and len(cond) - 1 < max(size.values()) and set(o) <= {'w', 'n'} and all(g[k] == 0 for k in o)
        ck.violation('idle' if w['idle'] else 'row', 'limits-of-a-condition-with-fewer-rows' if short else ','.join(o), case, w, g)
    if not got['packed']:
        ck.violation('packed', 'differs-from-flat', case, None, got['rows'])
    if sorted(e['vars']) != got['vars']:
        ck.violation('variables', ','.join(set(e['vars']) ^ set(got['vars'])), case, e['vars'], got['vars'])
    if e['use'] != got['use']:
        ck.violation('uses-thrust', '', case, e['use'], got['use'])
    lo, hlo = min(num(w['t']) for w in want), min(num(w['h']) for w in want)
    hi, hhi = max(num(w['t']) for w in want), max(num(w['h']) for w in want)
    if not same(lo, got['range'][0]) or not same(hi, got['range'][2]):
        ck.violation('range', 'throttle', case, [lo, hi], got['range'])
    if 'h' in c['cols'] and (not same(hlo, got['range'][1]) or not same(hhi, got['range'][3])):
        ck.violation('range', 'hybrid', case, [hlo, hhi], got['range'])
    if e['use']:
        for k in ('ref', 'fac', 'sca'):
            if len(got[k]) != 1 or not same(num(e['opt'][k]) if k != 'ref' else e['opt'][k][0], got[k][0]):
                ck.violation('scale', k, case, e['opt'], {x: got[x] for x in ('ref', 'fac', 'sca')})


BASE = dict(rows=[], cols={'m', 'a', 't', 'f', 'w'}, req={'m', 'a', 't', 'f'}, sort='mach', gt=True, gh=True, ignore=False, idle=False, fr=[1, 10], lo=[1, 10], hi=[1, 1], ref=[], fac=[], sca=[])


def row(m, a, t, f=0, **kw):
    return dict(dict(m=m, a=a, t=t, h=0, f=f, g=0, d=0, p=0, s=0, c=0, w=0, n=0), **kw)


def families(quick):
    """the exhaustive worlds, as TLA+ sets of cases"""
    B = lambda **kw: vt._tla(dict(BASE, **kw))
    # one row of a condition: level j of n, thrust from the condition
    R = '[m |-> {m}, a |-> {a}, t |-> {t}, h |-> {h}, f |-> {f}, g |-> {g}, d |-> {d}, p |-> {p}, s |-> {s}, c |-> {c}, w |-> {w}, n |-> {n}]'
    z = dict(h='0', g='0', d='0', p='0', s='0', c='0', n='0', w='0', f='0')

    def mk(**kw):
        return R.format(**dict(z, **kw))
    fam = {}
    # A: thrust in its parts
    fam['parts'] = f'''
PartRow(i, off, neg, p) == LET f == IF neg \\/ (i = 1 /\\ p) THEN 0 - 4 - i ELSE 10 * i + 5
  IN {mk(m='300 * (((i - 1) % 4) \\div 2)', a='1000 * ((i - 1) % 2)', t='10 + 5 * ((i - 1) \\div 4)', f='f', g='f + 3 + off[i]', d='3', p='i', w='i * i')}
d_Cases == {{ [{vt._tla(BASE)} EXCEPT !.cols = {{"m", "a", "t", "w"}} \\cup x, !.ignore = ig, !.gt = gt, !.rows = [i \\in 1..8 |-> PartRow(i, off, neg, p)], !.ref = rf] :
   x \\in SUBSET {{"f", "g", "d", "p"}}, ig \\in BOOLEAN, gt \\in BOOLEAN, neg \\in BOOLEAN, p \\in BOOLEAN, rf \\in {{<<>>, <<20>>}},
   off \\in {{[i \\in 1..8 |-> 0], [i \\in 1..8 |-> 1], [i \\in 1..8 |-> 5], [i \\in 1..8 |-> IF i = 3 THEN 4 ELSE 0], [i \\in 1..8 |-> IF i = 3 THEN 0 ELSE 0 - 4], [i \\in 1..8 |-> 0 - 5]}} }}'''
    # B: rows per flight condition on a grid of 2 Machs x 3 altitudes (or 3 x 2)
    fam['grid'] = f'''
Joined(s) == FoldLeft(LAMBDA y, x : y \\o x, <<>>, s)
CondRows(i, n, low, m3) == [j \\in 1..n |-> {mk(m='250 * ((i - 1) \\div m3)', a='1000 * ((i - 1) % m3)', t='10 * j + i', f='20 * j + i - (IF low THEN 20 ELSE 0)', w='7 * j * j + i', n='j')}]
Arranged(s, how) == IF how = 0 THEN s ELSE [k \\in DOMAIN s |-> s[Len(s) + 1 - k]]
d_Cases == {{ [{vt._tla(dict(BASE, cols={'m', 'a', 't', 'f', 'w', 'n'}))} EXCEPT !.sort = so, !.gt = gt, !.idle = idle, !.ref = <<50>>, !.fr = fr,
     !.rows = Arranged(Joined([i \\in 1..6 |-> CondRows(i, k[i], low, m3)]), how)] :
   so \\in {{"mach", "altitude"}}, gt \\in BOOLEAN, idle \\in BOOLEAN, low \\in BOOLEAN, how \\in {{1}}, m3 \\in {{{'3' if quick else '2, 3'}}}, fr \\in {{<<1, 10>>, <<0, 1>>}},
   k \\in {{x \\in [1..6 -> 0..{2 if quick else 3}] : x[1] > 0 /\\ x[2] > 0 /\\ x[4] > 0{'' if quick else ' /\\ x[5] > 0'}}} }}'''
    # C: scaling
    fam['scale'] = f'''
d_Cases == {{ [{vt._tla(BASE)} EXCEPT !.ref = rf, !.fac = fa, !.sca = sc, !.cols = {{"m", "a", "t", "w"}} \\cup x,
     !.rows = [i \\in 1..8 |-> {mk(m='sls + 300 * (((i - 1) % 4) \\div 2)', a='alt + 1000 * ((i - 1) % 2)', t='10 + 5 * ((i - 1) \\div 4)', f='4 * i', g='4 * i + 2', d='2', p='4', w='i')}]] :
   sls \\in {{0, 5, 200}}, alt \\in {{0, 10, 0 - 9, 50}}, rf \\in {{<<>>, <<10>>, <<24>>}}, fa \\in {{<<>>, <<1, 1>>, <<3, 2>>, <<0, 1>>}},
   sc \\in {{<<>>, <<10, 1>>, <<15, 1>>, <<1504, 100>>, <<152, 10>>, <<20, 1>>, <<36, 1>>, <<24, 1>>, <<30, 1>>}}, x \\in {{{{"f"}}, {{"f", "p"}}, {{"g", "d"}}}} }}'''
    # D: columns
    fam['columns'] = f'''
d_Cases == {{ [{vt._tla(BASE)} EXCEPT !.cols = x, !.req = rq, !.idle = idle, !.ignore = ig, !.lo = lo,
     !.rows = [i \\in 1..8 |-> {mk(m='300 * (((i - 1) % 4) \\div 2)', a='1000 * ((i - 1) % 2)', t='10 + 5 * ((i - 1) \\div 4)', h='(i % 3) - 1', f='30 + 3 * i', s='60 + 5 * i', c='90 + 7 * i', w='i * i', n='2')}]] :
   x \\in SUBSET {{"m", "a", "t", "f", "h", "s", "c", "w"}}, rq \\in {{{{"m", "a", "t", "f"}}, {{"m", "a", "t", "s"}}, {{"m", "a", "t"}}}}, idle \\in BOOLEAN, ig \\in BOOLEAN, lo \\in {{<<1, 10>>{'' if quick else ', <<2, 1>>'}}} }}'''
    # E: hybrid throttles
    fam['hybrid'] = f'''
d_Cases == {{ [{vt._tla(dict(BASE, cols={'m', 'a', 't', 'f', 'w', 'h'}))} EXCEPT !.gh = gh, !.gt = gt, !.sort = so, !.ref = <<9>>,
     !.rows = [i \\in 1..16 |-> {mk(m='300 * (((i - 1) % 4) \\div 2)', a='1000 * ((i - 1) % 2)', t='10 + 5 * (((i - 1) % 8) \\div 4)', h='(IF i > 8 THEN hi ELSE lo) * (1 + (i % 2))', f='30 + 3 * i', w='i')}]] :
   gh \\in BOOLEAN, gt \\in BOOLEAN, so \\in {{"mach", "altitude"}}, hi \\in {{1, 3, 0}}, lo \\in {{0 - 1, 0 - 4, 0, 2}} }}'''
    return fam


def random_case(rng):
    nm, na = rng.randint(2, 5), rng.randint(2, 5)
    machs = sorted(rng.sample(range(0, 900, 30), nm))
    alts = sorted(rng.sample(range(0, 40000, 500), na))
    if rng.random() < 0.6:
        machs[0] = rng.choice([0, 0, 5])
        alts[0] = rng.choice([0, 0, 10, -9])
    cols = {'m', 'a', 't'} | set(rng.sample('fgdpswnc', rng.randint(2, 6))) | ({'f'} if rng.random() < 0.7 else set())
    hyb = rng.random() < 0.25
    if hyb:
        cols.add('h')
    rows = []
    bad = rng.random() < 0.2
    full = rng.randint(2, 5)
    for m in machs:
        for a in alts:
            if rng.random() < 0.15 and a not in alts[:2]:
                continue
            n = rng.choice([full, full, full, rng.randint(1, 5)])
            f0 = rng.randint(-10, 60)
            for t in sorted(rng.sample(range(0, 60), n)):
                f0 += rng.randint(2, 30)
                for h in (sorted(rng.sample(range(-4, 6), 3)) if hyb else [0]):
                    d = rng.randint(0, 9)
                    rows.append(row(m, a, t, f0 + h, h=h, d=d, g=f0 + h + d + (rng.choice([0, 0, 0, 1, -1]) if not bad else rng.choice([0, 0, 0, 0, 7])), p=rng.choice([0, 1, 2]), s=100 + 2 * f0, c=150 + 3 * f0,
                                    w=rng.randint(1, 50) + t, n=rng.randint(0, 9)))
    rng.shuffle(rows)
    some = lambda *x: list(rng.choice(x))
    ref = some([], [40]) if machs[0] > 5 else some([], [], [40])
    if machs[0] > 5 and rng.random() < 0.6:
        ref = [40]
    ok = {'f'} & cols or {'p'} & cols or {'g', 'd'} <= cols
    return dict(BASE, cols=sorted(cols), req=sorted(rng.choice([BASE['req'] if ok or rng.random() < 0.2 else {'m', 'a', 't'}, {'m', 'a', 't'}] + ([{'m', 'a', 't', 's'}] if 's' in cols or rng.random() < 0.2 else []))), rows=rows, sort=rng.choice(['mach', 'mach', 'altitude']), gt=rng.random() < 0.5, gh=rng.random() < 0.5,
                ignore=rng.random() < 0.4, idle=rng.random() < 0.5 and not hyb, fr=some([0, 1], [1, 10], [3, 20]), lo=some([0, 1], [1, 10], [2, 5]), hi=some([1, 1], [1, 2], [1, 20]), ref=ref,
                fac=some([], [1, 1], [3, 2], [7, 10]), sca=some([], [], [], [40, 1], [60, 1], [28, 1]))


def run(ck):
    rng = random.Random(ck.seed)
    INV = ['RowsConserved', 'UnitRange', 'FullRange', 'Ascending', 'IdleFirst', 'ScaleHolds', 'NegativeDropped', 'NeverBoth']
    kinds = []
    for name, defs in families(ck.quick).items():
        r = ck.tlc('P16_Trace', defs=defs, invariants=INV, action_constraint='EmitCase', workers=8, files={'traces.ndjson': '{}\n'})
        cases = r.emitted
        cap = 2000 if ck.quick else 40000
        if len(cases) > cap:
            cases = rng.sample(cases, cap)
            ck.exhaustive = False
        jobs = [dict(c=e['c'], seed=rng.random(), units=rng.random() < 0.4 and not edge(e['c']), verbosity=rng.choice([0, 0, 2])) for e in cases]
        for e, j, got in zip(cases, jobs, ck.pmap(build, jobs)):
            judge(ck, e, got, j)
        kinds += [(name, e['k']) for e in cases]
        ck.count(len(cases))
        ck.notes['generated_' + name] = len(r.emitted)
        ck.sample(dict(family=name, c=cases[0]['c'], k=cases[0]['k']))
    # random decks; TLC works out what becomes of each of them
    rec = []
    for i in range(600 if ck.quick else 6000):
        rec.append(dict(random_case(rng), id=i))
    for i in range(0, len(rec), 300):
        part = rec[i:i + 300]
        r = ck.tlc('P16_Trace', defs='d_Cases == Recorded', invariants=INV, action_constraint='EmitCase', workers=8, files={'traces.ndjson': '\n'.join(map(__import__('json').dumps, part)) + '\n'})
        ck.require(len(r.emitted) == len(part), f'{len(r.emitted)} of {len(part)} decks')
        jobs = [dict(c=e['c'], seed=rng.random(), units=not edge(e['c']), verbosity=rng.choice([0, 1, 2])) for e in r.emitted]
        for e, j, got in zip(r.emitted, jobs, ck.pmap(build, jobs)):
            judge(ck, e, got, j)
        kinds += [('random', e['k']) for e in r.emitted]
        ck.traces += len(part)
    ck.tally(kinds, 'outcomes')
