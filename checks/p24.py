"""P24: legacy namelist files convert to the equivalent Aviary inputs."""
import csv
import os
import random
import shutil
import tempfile
import vt

NOIDX = -1
# variables that the conversion reinterprets after reading (scalers, sentinels, classes of the payload, ...)
ADJUSTED = ['_scaler', 'mass_scaler', 'form_factor', 'drag_factor', 'num_', 'cargo', 'strut', 'fold', 'wing:flap', 'optimum_flap', 'high_lift', 'seat', ':type', 'range', 'engine_type', 'reserve', 'volume_margin',
            'flare', 'furnishings', 'avg_', 'density', 'wing_fuel_mass_capacity', 'input_station', 'lift_coefficient_max', 'simple_layout', 'sls_thrust', 'scale_factor', 'height_to_width',
            'additional_mass', 'touchdown_mass_max', 'cabin_area', 'max_height', 'max_width', 'passenger_compartment', 'empty_mass', 'baggage', 'leading_edge_sweep', 'horizontal_tail',
            'vertical_tail', 'thickness_to_chord', 'wing:aspect_ratio', 'wing:area', 'wing:sweep', 'wing:taper', 'fuel_flow_scaler', 'interference', 'fuselage:length', 'misc_mass', 'data_file',
            'global_throttle', 'detailed_wing', 'total_misc', 'wing_fuel_fraction', 'problem_type', 'wetted_area', 'gear_ratio', 'choose', 'dimensional', 'business']
GASP_NEEDS = ('KNAC=1 ALPHL0=-1.2 AR=10 ARHT=4.5 ARVT=1.5 CATD=3 DELP=7.5 DELTT=.1 DFLPLD=40 DFLPTO=10 DLMC4=25 EYEW=0 PAX=180 PS=29 SAB=6 SAH=0 SLM=.33 SLMH=.35 SLMV=.8 TCHT=.12 '
              'TCR=.15 TCT=.12 TCVT=.12 UWNAC=3 UWPAX=200 VMLFSL=402 WAS=24 WS=20 YMG=0 YP=.35')


ASIDE = {'ZZTOP', 'ZZA', 'ZZB', 'QQ7', 'QQ', 'nothing', ('WTIN', 'SBASE'), ('AERIN', 'CHD'), ('INPROP', 'CW')}


def metadata(code):
    """<<namelist, name>> -> Aviary names, <<namelist, name, index>> -> Aviary names, from the variable metadata"""
    from aviary.variable_info.variable_meta_data import CoreMetaData
    tbl, own = {}, {}
    for k, v in CoreMetaData.items():
        h = (v['historical_name'] or {}).get(code)
        for a in [h] if isinstance(h, str) else h or []:
            if '.' not in a or any(x in k for x in ADJUSTED):
                continue
            ns, n = a.upper().split('.')[-2:]
            if '(' in n:
                n, i = n[:-1].split('(')
                own.setdefault((ns, n, int(i)), []).append(k)
            else:
                tbl.setdefault((ns, n), []).append(k)
    return tbl, own


def tables(code, keys, owns, aviary, dropped):
    """constants of the specification for some of the legacy names"""
    from aviary.variable_info.variable_meta_data import CoreMetaData
    import importlib
    m = importlib.import_module(f'aviary.utils.legacy_code_data.{code.lower()}_defaults')
    tbl, own = metadata(code)
    df = {k.upper(): v for k, v in getattr(m, code.lower() + '_default_values')}
    T = {k: tbl[k] for k in keys if k in tbl}
    O = {k: own[k] for k in owns if k in own}
    # every legacy name of the variables these names stand for (they may have default values too)
    names = {n for v in list(T.values()) + list(O.values()) for n in v} | set(aviary)
    while True:
        for t, d in ((T, tbl), (O, own)):
            t.update({k: v for k, v in d.items() if names & set(v)})
        more = {n for v in list(T.values()) + list(O.values()) for n in v} | names
        if more == names:
            break
        names = more
    T.update({('', a): [a] for a in aviary})
    D = {}
    for k in list(T) + list(O):
        t = k[0] + '.' + k[1] + (f'({k[2]})' if len(k) == 3 else '')
        if t in df:
            v, u = df[t]
            D[k] = dict(vals=[str(v)], u=u)
    twice = [n for n in names if sum(n in (list(T.get(k, [])) + list(O.get(k, []))) for k in D) > 1]
    if twice:
        raise vt.MachineryError(f'several default values {twice}')
    return dict(code=code, T=T, O=O, D=D, names=sorted(names), units={n: CoreMetaData[n]['units'] for n in names}, dropped=dropped)


def fn(d, g):
    return ' @@ '.join(f'({vt._tla(list(k) if isinstance(k, tuple) else k)} :> {g(v)})' for k, v in d.items()) or '<<>>'


def defs(w, menu, n):
    return '\n'.join(['d_Menu == {' + ', '.join(vt._tla(l) for l in menu) + '}', f'd_Namelists == {vt._tla(set(l["n"] for l in menu))}',
                      'd_Tbl == ' + fn(w['T'], vt._tla), 'd_TblI == ' + fn(w['O'], vt._tla), 'd_Def == ' + fn(w['D'], vt._tla),
                      'd_Meta == ' + fn({k: dict(u=u) for k, u in w['units'].items()}, vt._tla),
                      'd_Dropped == {' + ', '.join(vt._tla(list(d)) for d in w['dropped']) + '}', f'd_MaxLen == {n}'])


def case_of(s, rng):
    return ''.join(rng.choice([c.upper(), c.lower()]) for c in s) if rng.random() < .3 else rng.choice([s, s.lower()])


NOISE = ['', '   ', '! a comment', '  ! WTIN.DIH = 99, $WTIN', '\t', '!$END', ' ,', ',,']


def render(deck, rng, plain=False):
    """text of a deck; the layout is chosen here"""
    out, tag, line = [], '', ''
    spelled = {l['n']: l['n'] if plain else case_of(l['n'], rng) for l in deck}

    def flush(end=''):
        nonlocal line
        if line or end:
            t = line
            if not plain:
                if t and not end and rng.random() < .4:
                    t += rng.choice([',', ' ,', ', ', ',,'])
                if rng.random() < .3:
                    t = rng.choice(['  ', '\t', '    ']) + t
            t += end
            if not plain and rng.random() < .3:
                t += rng.choice([' ! note', '! X=1, Y=2 /', '  !', ' ! it is = here'])
            out.append(t)
            line = ''
    for l in deck:
        if not plain and rng.random() < .15:
            flush()
            out.append(rng.choice(NOISE))
        if l['k'] == 'open':
            flush()
            tag = rng.choice('$&')
            out.append((rng.choice(['', ' ', '  ']) if not plain else '') + tag + spelled[l['n']] + (rng.choice(['', '  ', '  ! namelist']) if not plain else ''))
        elif l['k'] == 'close':
            how = 'tag' if plain else rng.choice(['tag', 'tag', 'slash', 'inline'])
            if how == 'inline' and line:
                flush(rng.choice([' /', '/', ' / ']))
            else:
                flush()
                out.append('/' if how != 'tag' else tag + rng.choice(['END', '', 'end']))
        else:
            sp = '' if plain else rng.choice(['', ' ', '  '])
            # names that are put aside keep their spelling
            name = l['v'] if plain or l['v'] in ASIDE or (l['n'], l['v']) in ASIDE else case_of(l['v'], rng)
            vals = list(l['vals']) + ([l['u']] if l['u'] else [])
            t = name + ('' if l['i'] == NOIDX else rng.choice([f'({l["i"]})', f'({l["i"]})' if plain else f' ( {l["i"]} )'])) + sp + '=' + sp + (',' + sp).join(vals)
            if line and (plain or rng.random() < .5):
                flush()
            if line:
                # values and names without a comma in between are told apart at the first letter
                line += rng.choice([', ', ',', ' ' if num else ', ']) + t
            else:
                line = t
            num = bool(vals) and not l['u'] and all(c in '0123456789.+-' for c in vals[-1]) and l['v'][0].isalpha()
    flush()
    return '\n'.join(out) + '\n'


def token(x, units=False):
    x = x.strip()
    if x == '':
        return 'None'
    if units or x in ('True', 'False'):
        return x
    try:
        f = float(x)
    except ValueError:
        return x
    return str(int(f)) if f == int(f) else repr(f)


def convert(c):
    """text -> the rows of the converted file"""
    from aviary.utils.fortran_to_aviary import fortran_to_aviary
    from aviary.variable_info.enums import LegacyCode
    d = tempfile.mkdtemp(prefix='p24_')
    try:
        src = os.path.join(d, 'deck.dat')
        with open(src, 'w') as f:
            f.write(c['text'])
        dst = os.path.join(d, 'out', 'deck.csv')
        try:
            fortran_to_aviary(src, LegacyCode(c['code']), dst, verbosity=c.get('verbosity', 0))
        except Exception as e:
            return dict(ok=False, err=f'{type(e).__name__}: {str(e)[:120]}', known={}, rest={})
        known, rest, part = {}, {}, ''
        with open(dst) as f:
            if open(src).read() != c['text']:
                return dict(ok=False, err='the deck was changed', known={}, rest={})
            for row in csv.reader(f):
                if not row:
                    continue
                if row[0].startswith('# '):
                    part = row[0]
                elif 'Input Values' in part:
                    if row[0] in known:
                        return dict(ok=False, err='written twice: ' + row[0], known={}, rest={})
                    known[row[0]] = dict(v=[token(x) for x in row[1:-1]], u=row[-1])
                elif 'Unconverted' in part:
                    rest[row[0]] = [token(x) for x in row[1:]]
        return dict(ok=True, known=known, rest=rest)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def relevant(ck, case, w, got, deck):
    """the part of a conversion the specification describes"""
    for part in ('known', 'rest'):
        for n, e in got[part].items():
            v = e['v'] if part == 'known' else e
            if v[:1] == ['None'] and len(v) > 1 and 'None' not in v[1:] and (part == 'rest' or n in w['names']):
                ck.violation('elements', 'first-element-empty', case, '0', {n: v})
                v[0] = '0'
    k = {n: dict(v=got['known'][n]['v'], u=got['known'][n]['u'], b=got['known'][n]['v'][:1] in (['True'], ['False'])) for n in w['names'] if n in got['known']}
    keys = {(l['n'] + '.' + l['v']).upper() for l in deck if l['k'] == 'set'} - {'INGASP.CW'}
    r = {n.upper(): v for n, v in got['rest'].items() if n.upper() in keys}
    return k, r


def expected(st):
    k = {n: dict(v=[token(x) if x != 'None' else x for x in e['v']], u=e['u'], b=e['b']) for n, e in dict(st['known'] or {}).items()}
    r = {n.upper(): [token(x) if x != 'None' else x for x in e['v']] for n, e in dict(st['rest'] or {}).items()}
    return st['ok'], k, r


def run(ck):
    rng = random.Random(ck.seed)
    S = lambda n, v, vals, i=NOIDX, u='': dict(k='set', n=n, v=v, i=i, vals=vals, u=u)
    O = lambda n: dict(k='open', n=n, v='', i=NOIDX, vals=[], u='')
    C = dict(k='close', n='', v='', i=NOIDX, vals=[], u='')
    wf = tables('FLOPS', [('WTIN', 'HYDPR'), ('WTIN', 'DIH'), ('WTIN', 'CHD'), ('WTIN', 'IALTWT'), ('WTIN', 'SWL'), ('AERIN', 'SBASE')], [], ['aircraft:wing:dihedral', 'aircraft:design:base_area', 'aircraft:wing:chord_per_semispan_distribution'],
                [('WTIN', 'CARBAS')])
    wg = tables('GASP', [('INGASP', 'SOCMIN'), ('INGASP', 'B'), ('INGASP', 'DCD'), ('INGASP', 'CLALPH'), ('INPROP', 'AF'), ('INPROP', 'XNMAX'), ('INPROP', 'FT')],
                [('INGASP', 'CW', i) for i in (1, 5, 9)], ['aircraft:wing:span', 'aircraft:battery:efficiency'], [])
    ck.require(len(wf['T']) >= 6 and len(wg['T']) >= 5 and len(wg['O']) == 3, f'legacy names of the metadata {wf["T"]} {wg["T"]} {wg["O"]}')
    mf1 = [O('WTIN'), C, S('WTIN', 'HYDPR', ['5000']), S('WTIN', 'HYDPR', ['20.5'], u='MPa'), S('WTIN', 'DIH', ['6.0'], u='deg'), S('WTIN', 'CHD', ['31.1', '20', '1.5']), S('WTIN', 'CHD', ['7'], i=2),
           S('WTIN', 'CHD', ['8.5'], i=5), S('WTIN', 'IALTWT', ['1']), S('WTIN', 'IALTWT', ['0']), S('WTIN', 'CARBAS', ['4']), S('WTIN', 'ZZTOP', ['4', '5']), S('WTIN', 'ZZTOP', ['9'], i=3)]
    mf2 = [O('WTIN'), O('AERIN'), C, S('WTIN', 'SBASE', ['3']), S('AERIN', 'SBASE', ['3.5']), S('AERIN', 'SBASE', ['4'], u='m**2'), S('AERIN', 'CHD', ['1', '2']), S('', 'aircraft:wing:dihedral', ['3.5'], u='deg'),
           S('', 'aircraft:design:base_area', ['11']), S('WTIN', 'DIH', ['-2']), S('WTIN', 'CHD', ['1.5'], i=1), S('WTIN', 'IALTWT', ['2']), S('', 'nothing', ['4']),
           S('', 'aircraft:wing:chord_per_semispan_distribution', ['6.5'], i=2), S('', 'aircraft:wing:chord_per_semispan_distribution', ['1'], i=0)]
    mg = [O('INGASP'), O('INPROP'), C, S('INGASP', 'SOCMIN', ['1.5']), S('INGASP', 'B', ['118']), S('INGASP', 'B', ['36.5'], u='m'), S('INGASP', 'DCD', ['.02']), S('INGASP', 'CW', ['4'], i=5),
          S('INGASP', 'CW', ['7'], i=9), S('INGASP', 'CW', ['928'], i=1), S('INPROP', 'AF', ['150.5']), S('INPROP', 'CW', ['3'], i=9), S('', 'aircraft:wing:span', ['90']), S('', 'aircraft:battery:efficiency', ['.4'], i=1), S('INPROP', 'XNMAX', ['4']),
          S('INGASP', 'QQ', ['5', '-6.5'])]
    base = dict(GASP=f'$INGASP\n{chr(10).join(GASP_NEEDS.split())}\n$END\n', FLOPS='$OPTION\nIFITE=0\n$END\n$CONFIN\nTR=.3\n$END\n')
    inv = ['Replay', 'Aside', 'ListIsElements', 'LastWins']
    q = ck.quick
    jobs, cases = [], []
    for w, menu, n in ((wf, mf1, 5 if q else 6), (wf, mf2, 5 if q else 6), (wg, mg, 4 if q else 6)):
        r = ck.tlc('P24_Legacy', defs=defs(w, menu, n), invariants=inv, properties=['Local'], action_constraint='EmitCase', workers=6)
        em = r.emitted
        cap = 1500 if q else 12000
        ck.notes[f'decks {w["code"]} {menu[1].get("n")}'] = len(em)
        if len(em) > cap:
            short = [e for e in em if len(e['deck']) <= 3]
            em = short[:cap // 2] + rng.sample(em, cap - min(len(short), cap // 2))
            ck.exhaustive = False
        for e in em:
            cases.append(dict(code=w['code'], deck=e['deck'], st=e['st'], w=w, text=base[w['code']] + render(e['deck'], rng, rng.random() < .2), verbosity=rng.choice([0, 0, 1, 2])))
    for c, got in zip(cases, ck.pmap(convert, [{k: c[k] for k in ('code', 'text', 'verbosity')} for c in cases])):
        ok, k, r = expected(c['st'])
        judge(ck, c, got, ok, k, r, 'replay')
    ck.count(len(cases))
    ck.tally([c['code'] for c in cases], 'decks replayed')
    ck.sample(dict(text=cases[len(cases) // 3]['text'], want=cases[len(cases) // 3]['st']))

    # long decks over every legacy name that is only renamed
    for code in ('FLOPS', 'GASP'):
        tbl, own = metadata(code)
        need = {x.split('=')[0] for x in GASP_NEEDS.split()}
        keys = sorted(k for k in tbl if not (code == 'GASP' and k[1] in need))
        idx = [('INGASP', 'CW', i) for i in range(1, 16) if ('INGASP', 'CW', i) in own] if code == 'GASP' else []
        if code == 'FLOPS':
            keys = [k for k in keys if k != ('WTIN', 'CARBAS')]
        ndeck = 150 if q else 600
        for part in range(1 if q else 3):
            ks = rng.sample(keys, min(40, len(keys)))
            w = tables(code, ks, idx, rng.sample(sorted({n for k in ks for n in tbl[k]}), 6), [('WTIN', 'CARBAS')] if code == 'FLOPS' else [])
            bools = {k for k in ks if w['D'].get(k, {}).get('vals') in (['True'], ['False'])}
            rc = []
            for _ in range(ndeck):
                deck, ns = [], ''
                for _ in range(rng.choice([5, 15, 40])):
                    x = rng.random()
                    if x < .2:
                        if ns:
                            deck.append(C)
                            ns = ''
                        else:
                            ns = rng.choice(sorted({k[0] for k in ks}))
                            deck.append(O(ns))
                        continue
                    num = rng.choice([str(rng.randint(0, 9)), f'{rng.uniform(.1, 99):.3f}', f'-{rng.randint(1, 99)}', f'{rng.randint(1, 50)}.', f'.{rng.randint(1, 9)}'])
                    if ns == '':
                        v = rng.choice([k[1] for k in w['T'] if k[0] == ''])
                        if any(v in w['T'][b] for b in bools):
                            continue
                        deck.append(S('', v, [num], i=rng.choice([NOIDX, NOIDX, NOIDX, 0, 1, 3])))
                    elif x < .3 and idx and ns == 'INGASP':
                        deck.append(S(ns, 'CW', [num], i=rng.choice(idx)[2]))
                    elif x < .4:
                        deck.append(S(ns, rng.choice(['ZZA', 'ZZB', 'QQ7']), [num] + ['3'] * rng.randint(0, 2)))
                    else:
                        mine = [k for k in ks if k[0] == ns]
                        k = rng.choice(mine)
                        if k in bools:
                            deck.append(S(ns, k[1], [rng.choice('01')]))
                            continue
                        u = rng.choice([u for n in w['T'][k] for u in [w['units'][n]]])
                        u = u if rng.random() < .2 and u != 'unitless' and len(set(w['units'][n] for n in w['T'][k])) == 1 else ''
                        y = rng.random()
                        if y < .2 and k not in idx:
                            deck.append(S(ns, k[1], [num], i=rng.randint(1, 4)))
                        else:
                            deck.append(S(ns, k[1], [num] + [str(rng.randint(0, 9)) for _ in range(rng.choice([0, 0, 0, 2]))], u=u))
                rc.append(dict(code=code, deck=deck, w=w, text=base[code] + render(deck, rng), verbosity=rng.choice([0, 1, 2])))
            traces = []
            for c, got in zip(rc, ck.pmap(convert, [{k: c[k] for k in ('code', 'text', 'verbosity')} for c in rc])):
                if 'crash' in got:
                    ck.violation('crash', got['crash'], dict(text=c['text']), None, got)
                    continue
                k, r = relevant(ck, dict(text=c['text']), w, got, c['deck'])
                traces.append(dict(deck=[dict(l, vals=[token(x) for x in l['vals']]) for l in c['deck']], ok=got['ok'], known=[dict(n=n, **e) for n, e in k.items()],
                                   rest=[dict(n=n, v=v, u='unitless', b=False) for n, v in r.items()], err=got.get('err', ''), text=c['text']))
            wt = dict(w, D={k: dict(vals=[token(x) for x in d['vals']], u=d['u']) for k, d in w['D'].items()})
            for b in ck.validate('P24_Trace', traces, defs=defs(wt, [O('WTIN')], 0)):
                t = b['trace']
                ck.violation(b['bad'][0], 'trace', dict(text=t['text'], deck=t['deck']), dict(known=b['want'], rest=b['rest'] if b['bad'][0] == 'aside' else None),
                             dict(known=[e for e in t['known'] if e['n'] in b['diff']], rest=t['rest'] if b['bad'][0] == 'aside' else None, err=t['err']))
    ck.count(0)


def judge(ck, c, got, ok, k, r, how):
    case = dict(code=c['code'], text=c['text'], deck=c['deck'])
    if 'crash' in got:
        return ck.violation('crash', got['crash'], case, None, got)
    if ok != got['ok']:
        return ck.violation('refusal', how, case, 'converted' if ok else 'refused', got.get('err') or 'converted')
    if not ok:
        return None
    gk, gr = relevant(ck, case, c['w'], got, c['deck'])
    if gk != k:
        d = {n for n in set(gk) | set(k) if gk.get(n) != k.get(n)}
        ck.violation('known', how, case, {n: k.get(n) for n in d}, {n: gk.get(n) for n in d})
    if gr != r:
        ck.violation('aside', how, case, r, gr)
