"""P05: data tables survive a write and read back; aliases pick the right column; callers' objects stay as they were."""
import os
import random
import re
import tempfile
import vt

M = -999
NOTHING = dict(err=True, cols=[], rows=[], comments=[], inputs=[], outputs=[])


def H(*cols, c=''):
    return dict(k='h', cols=[dict(key=n.lower(), name=n, units=u, role=r) for n, u, r in cols], vals=[], c=c)


def R(*v, c=''):
    return dict(k='r', cols=[], vals=list(v), c=c)


def C(c):
    return dict(k='c' if c else 'b', cols=[], vals=[], c=c)


def tla(v):
    """python value -> TLA+ text for definition overrides"""
    return vt._tla(v)


def respell(rng, s):
    s = s.replace('_', rng.choice([' ', '_', '_']))
    return rng.choice([s, s.upper(), s.title(), s])


def number(rng, v):
    x = v / 8
    return rng.choice([repr(x), f'{x:+.6f}', f'{x:.8e}', repr(int(x)) if x == int(x) else repr(x)])


def render(rng, lines):
    out = []
    for l in lines:
        tail = f'#{rng.choice(["", " ", "  "])}{l["c"]}' if l['c'] else ''
        d = rng.choice([',', ', ', ' , ', ';', ' ;  '])
        if l['k'] == 'h':
            cells = []
            for c in l['cols']:
                info = [c['units']] if c['units'] else []
                if c['role'] == 'both':
                    info += ['input', 'output']
                elif c['role']:
                    info.append(c['role'])
                name = ''.join(rng.choice([' ', '_']) if ch == '_' else ch for ch in c['name'])
                cells.append(name + (f'{rng.choice(["", " "])}({rng.choice([", ", ","]).join(info)})' if info else ''))
            body = d.join(cells)
        elif l['k'] == 'r':
            body = d.join('' if v == M else number(rng, v) for v in l['vals'])
        else:
            body = ''
        out.append(rng.choice(['', '', '  ']) + body + rng.choice(['', ' ']) + tail)
    eol = rng.choice(['\n', '\n', '\r\n'])
    return eol.join(out) + rng.choice(['', eol])


def code(x):
    return round(x * 8) if abs(x * 8 - round(x * 8)) < 1e-9 else -12345


def project(res):
    data, inputs, outputs, comments = res
    names = list(data.keys())
    cols = [dict(name=n, units=data.get_item(n)[1]) for n in names]
    arrs = [list(data.get_item(n)[0]) for n in names]
    if len({len(a) for a in arrs}) > 1:
        return dict(NOTHING, err='ragged')
    return dict(err=False, cols=cols, rows=[[code(float(v)) for v in r] for r in zip(*arrs)], comments=comments, inputs=inputs, outputs=outputs)


def do_read(rng, path, aliases, metadata):
    from aviary.utils.csv_data_file import read_data_file
    from pathlib import Path
    try:
        res = read_data_file(rng.choice([path, Path(path)]), metadata=metadata, aliases=aliases, save_comments=True, verbosity=rng.choice([0, 1, 2]))
        return project(res)
    except (ValueError, UserWarning, IndexError, KeyError, UnboundLocalError):
        return dict(NOTHING)


def parse_written(text):
    """independent reading of what write_data_file put in the file"""
    out = []
    header = None
    for line in text.split('\n'):
        if line.startswith('#'):
            out.append(C(re.sub(r'^#\s*', '', line).strip()))
        elif not line.strip():
            out.append(C(''))
        elif header is None:
            cells = [x.strip() for x in re.split(r',(?![^()]*\))(?![^(]*\)\))', line)]
            header = []
            for x in cells:
                m = re.fullmatch(r'(\S+)(?: \((.*)\))?', x)
                info = [y.strip() for y in (m.group(2) or '').split(',') if y.strip()]
                role = info.pop() if info and info[-1] in ('input', 'output') else ''
                header.append((m.group(1), info[0] if info else '', role))
            out.append(H(*header))
        else:
            out.append(R(*[code(float(v)) for v in line.split(',')]))
    while out and out[-1]['k'] == 'b':
        out.pop()
    return out


def make_meta(meta):
    return {x['name']: {'units': x['units'], 'default_value': 0.0, 'types': float} for x in meta} if meta else None


def read_case(c):
    rng = random.Random(c['seed'])
    fd, path = tempfile.mkstemp(suffix='.csv', dir='.')
    text = render(rng, c['lines'])
    with os.fdopen(fd, 'w', newline='') as f:
        f.write(('\ufeff' if rng.random() < .1 else '') + text)
    aliases = build_aliases(rng, c['al'])
    before = repr(aliases)
    metadata = make_meta(c['meta'])
    mb = repr(metadata)
    r = do_read(rng, path, aliases, metadata)
    os.unlink(path)
    return dict(r=r, caller=repr(aliases) == before and repr(metadata) == mb, text=text)


def build_aliases(rng, al):
    out = {}
    for x in al:
        keys = [respell(rng, k) for k in x['keys']]
        out[x['name']] = keys[0] if len(keys) == 1 and rng.random() < .5 else keys
    return out or (None if rng.random() < .5 else {})


def alias_codes(al):
    """the caller's alias object as the specification sees it"""
    return [dict(name=k, keys=[re.sub(r'\s', '_', s).lower() for s in ([v] if isinstance(v, str) else v)]) for k, v in (al or {}).items()]


def build_table(rng, t):
    import numpy as np
    from aviary.utils.named_values import NamedValues
    data = NamedValues()
    for i, c in enumerate(t['cols']):
        vals = [r[i] / 8 for r in t['rows']]
        data.set_val(c['name'], rng.choice([list, np.array, tuple])(vals), c['units'])
    return data


def table_state(data):
    return repr([(k, repr(v), u, type(v).__name__) for k, (v, u) in data])


def write_op(rng, data, label, outs, comments):
    """returns (lines in the file, projection of what is read back)"""
    from aviary.utils.csv_data_file import write_data_file
    from pathlib import Path
    fd, path = tempfile.mkstemp(suffix='.csv', dir='.')
    os.close(fd)
    kw = {}
    if comments is not None:
        kw['comments'] = comments
    write_data_file(rng.choice([path, Path(path)]), data, outputs=outs if label else None, **kw)
    text = open(path).read()
    r = do_read(rng, path, None, None)
    os.unlink(path)
    return parse_written(text), r


def write_case(c):
    rng = random.Random(c['seed'])
    data = build_table(rng, c['table'])
    before = table_state(data)
    comments = [rng.choice(['', '# ', '#']) + x if x else x for x in c['comments']]
    give = comments[0] if len(comments) == 1 and rng.random() < .4 else None if not comments and rng.random() < .5 else comments
    cb = repr(give)
    outs = list(c['outs'])
    lines, r = write_op(rng, data, c['label'], outs, give)
    # the file ends in the header line when there are no rows
    return dict(lines=lines, r=r, caller=repr(give) == cb and outs == list(c['outs']) and table_state(data) == before)


def history(c):
    """several operations in one process on shared caller-owned objects"""
    rng = random.Random(c['seed'])
    shared_al = build_aliases(rng, c['al'])
    orig_al = alias_codes(shared_al)
    shared_comments = list(c['comments'])
    data = build_table(rng, c['table'])
    meta = make_meta(c['meta'])
    ops = []
    empty = dict(al=[], al2=[], meta=[], strict=False, table=dict(cols=[], rows=[]), table2=dict(cols=[], rows=[]), label=False, outs=[], comments=[], comments2=[], lines=[])
    raw_al = repr(shared_al)
    for op in c['ops']:
        if op['op'] == 'read':
            fd, path = tempfile.mkstemp(suffix='.csv', dir='.')
            with os.fdopen(fd, 'w', newline='') as f:
                f.write(render(rng, op['lines']))
            r = do_read(rng, path, shared_al, meta if op['strict'] else None)
            os.unlink(path)
            ops.append(dict(empty, op='read', lines=op['lines'], al=orig_al, al2=alias_codes(shared_al) if repr(shared_al) == raw_al else [dict(name='CHANGED', keys=[])],
                            meta=c['meta'] if op['strict'] else [], strict=op['strict'], r=r))
        else:
            before = table_state(data)
            lines, r = write_op(rng, data, op['label'], list(op['outs']), shared_comments)
            ops.append(dict(empty, op='write', table=c['table'], table2=c['table'] if table_state(data) == before else dict(cols=[], rows=[]),
                            label=op['label'], outs=op['outs'], comments=c['comments'], comments2=list(shared_comments), lines=lines, r=r))
    return dict(ops=ops)


NAMES = ['mach_number', 'Altitude', 'throttle', 'Net_Thrust', 'net_thrust', 'fuel_flow', 'T4', 'alt']


def rand_lines(rng, n_al):
    cols = [(rng.choice(NAMES), rng.choice(['', '', 'ft', 'm', 'lbf', 'N', 'lbm/(lbf*h)', '1/s', 'unitless'] + ['furlongs2'] * (rng.random() < .1)),
             rng.choice(['', '', 'input', 'output'] + ['both'] * (rng.random() < .05))) for _ in range(rng.randint(1, 4))]
    if rng.random() < .8:
        seen, keep = set(), []
        for c in cols:
            if c[0].lower() not in seen:
                keep.append(c)
                seen.add(c[0].lower())
        cols = keep
    out = []

    def noise():
        while rng.random() < .25:
            out.append(C(rng.choice(['', 'note', 'a, b (ft)', '1, 2', 'x # y'])))
    noise()
    if rng.random() < .95:
        out.append(H(*cols, c=rng.choice(['', '', 'header'])))
    for _ in range(rng.randint(0, 4)):
        noise()
        v = [rng.randint(-800, 800) for _ in cols]
        if rng.random() < .1:
            v.append(rng.choice([M, 7]))
        if rng.random() < .05 and len(v) > 1:
            v[rng.randrange(len(v))] = M
        if rng.random() < .03:
            v = v[:-1] or [7]
        if v == [M]:
            v = [7]
        out.append(R(*v, c=rng.choice(['', '', '', 'inline'])))
    if rng.random() < .03:
        out.append(H(*cols))
    noise()
    return out


def rand_history(rng):
    names = rng.sample([n for n in NAMES if n != 'net_thrust'], rng.randint(1, 4))
    cols = [dict(key=n.lower(), name=n, units=rng.choice(['unitless', 'ft', 'lbf', 'lbm/(lbf*h)', '1/s'])) for n in names]
    table = dict(cols=cols, rows=[[rng.randint(-10**6, 10**6) for _ in cols] for _ in range(rng.randint(1, 4))])
    al = []
    for name in rng.sample(['MACH', 'ALT', 'thrust', 'T4'], rng.randint(0, 3)):
        al.append(dict(name=name, keys=rng.sample([n.lower() for n in NAMES], rng.randint(1, 3))))
    meta = [dict(name=n, units=rng.choice(['ft', 'lbf', 'unitless'])) for n in rng.sample(['MACH', 'ALT', 'thrust'] + NAMES, 5)]
    ops = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .6:
            ops.append(dict(op='read', lines=rand_lines(rng, len(al)), strict=rng.random() < .4))
        else:
            ops.append(dict(op='write', label=rng.random() < .6, outs=rng.sample(names, rng.randint(0, len(names)))))
    return dict(al=al, comments=rng.choice([[], ['one'], ['one', 'two # three'], ['', 'gap']]), table=table, meta=meta, ops=ops, seed=rng.random())


def run(ck):
    rng = random.Random(ck.seed)
    sym = [C('note'), C(''), H(('mach_number', '', ''), ('Altitude', 'ft', 'input')), H(('Altitude', 'm', ''), ('alt', '', 'output'), ('T4', '1/s', 'both')),
           H(('Mach_Number', 'unitless', 'input'), ('T4', 'lbm/(lbf*h)', 'output'), c='units'), H(('T4', 'ft', ''), ('mach_number', '', ''), ('alt', '', '')),
           R(8, 16), R(24, 32, M, c='x'), R(8, M, 16), R(40, 48, 56)]
    if not ck.quick:
        sym += [R(5), H(('altitude', 'lbf', 'output'), ('throttle', 'bogus', '')), H(('mach_number', '', ''), ('T4', 'bogus', ''))]
    aliases = [[], [dict(name='M', keys=['mach', 'mach_number']), dict(name='H', keys=['altitude', 'alt'])], [dict(name='T4', keys=['t4', 'alt']), dict(name='Z', keys=['alt'])]]
    metas = [[], [dict(name='M', units='unitless'), dict(name='H', units='ft'), dict(name='Altitude', units='ft')],
             [dict(name='T4', units='ft'), dict(name='mach_number', units='lbf'), dict(name='alt', units='m')]]
    setd = lambda xs: '{' + ', '.join(tla(x) for x in xs) + '}'
    cols = [dict(key=n.lower(), name=n, units=u) for n in ('mach_number', 'T4') for u in ('unitless', 'ft', 'lbm/(lbf*h)')]
    tables = [dict(cols=[a] if b is None else [a, b], rows=rows) for a in cols for b in [None] + cols if b is None or b['name'] != a['name']
              for rows in ([[8] if b is None else [8, 12]], [[-3], [5]] if b is None else [[1, 2], [-3, 5000]], [[0]] * 3 if b is None else [[0, 1]] * 3)]
    defs = lambda mode, n: '\n'.join([f'd_Mode == "{mode}"', f'd_Symbols == {setd(sym)}', f'd_MaxLines == {n}', f'd_Aliases == {setd(aliases)}', f'd_Metas == {setd(metas)}',
                                      f'd_Tables == {setd(tables)}', f'd_CommentLists == {setd([[], ["one"], ["one", "two # three"], ["", "gap"]])}',
                                      f'd_OutLists == {setd([[], ["T4"], ["mach_number", "T4"]])}'])
    invs = ['RoundTrip', 'NamesUnique', 'StrictOnly', 'NothingMeansRefused']
    r = ck.tlc('P05_Table', defs=defs('read', 3 if ck.quick else 4), invariants=invs, action_constraint='EmitCase', workers=6)
    cases = [dict(e, seed=rng.random()) for e in r.emitted]
    for c, got in zip(cases, ck.pmap(read_case, cases)):
        report(ck, 'read', c, got, dict(r=c['r']))
    ck.count(len(cases))
    ck.require(sum(not c['r']['err'] for c in cases) > 300, 'accepted files')
    r = ck.tlc('P05_Table', defs=defs('write', 1), invariants=invs, action_constraint='EmitCase', workers=4)
    cases = [dict(e, seed=rng.random()) for e in r.emitted]
    for c, got in zip(cases, ck.pmap(write_case, cases)):
        report(ck, 'write', c, got, dict(lines=c['lines'], r=c['r']))
    ck.count(len(cases))
    ck.sample(cases[0])

    cases = [rand_history(rng) for _ in range(2500 if ck.quick else 30000)]
    traces = []
    for c, got in zip(cases, ck.pmap(history, cases)):
        if 'crash' in got:
            ck.violation('crash', got['crash'].split(':')[0], c, None, got)
        else:
            traces.append(got)
    ck.tally([(o['op'], 'refused' if o['r']['err'] else 'ok') for t in traces for o in t['ops']], 'operations')
    for b in ck.validate('P05_Trace', traces, defs=defs('read', 1), chunk=5000):
        for x in b['bad']:
            ck.violation(x, b['trace']['ops'][b['pos'] - 1]['op'], b['trace'], b['want'], b['trace']['ops'][b['pos'] - 1])


def report(ck, what, c, got, want):
    if 'crash' in got:
        ck.violation('crash', what + '|' + got['crash'].split(':')[0], c, want, got)
        return
    if not got['caller']:
        ck.violation('caller', what, c, want, got)
    for k, v in want.items():
        if got[k] != v:
            ck.violation(k if k == 'lines' else what, 'replay', c, want, got)
