"""P02: assignments to declared variables: specification cases replayed in AviaryValues.set_val, recorded ones validated."""
import enum
import pathlib
import random
import numpy as np
import vt


class Color(enum.Enum):
    RED = 1
    BLUE = 2
    GREEN = 'green'


class Other(enum.Enum):
    ODD = 1
    RED = 'red'


PY = {'float': float, 'int': int, 'bool': bool, 'str': str, 'path': pathlib.Path, 'list': list, 'array': np.ndarray}
U = {'unitless': 'unitless', 'ft': 'ft', 's': 's', 'inch': 'inch', 'foo': 'foo'}


def item(x):
    """Python object -> item as the specification sees it before the assignment."""
    t, n, s, f, i = kind(x), 0, '', False, False
    s = x.name if isinstance(x, enum.Enum) else str(x)
    if isinstance(x, str):
        try:
            n = round(float(x) * 2)
            f = float(x) * 2 == n
            if not f:
                raise vt.MachineryError('texts in the alphabet read as halves: ' + x)
        except ValueError:
            pass
        try:
            int(x)
            i = True
        except ValueError:
            pass
    elif t in ('int', 'float', 'bool', 'npfloat', 'npint'):
        n = round(float(x) * 2)
        if n != float(x) * 2:
            raise vt.MachineryError('numbers in the alphabet are halves')
    return dict(t=t, n=n, s=s, txt=str(x), f=f, i=i, up=s.upper())


def kind(x, cls=None):
    if x is None:
        return 'none'
    if isinstance(x, enum.Enum):
        return 'enum' if isinstance(x, cls or Color) else 'otherenum'
    if isinstance(x, (bool, np.bool_)):
        return 'bool'
    if isinstance(x, np.floating):
        return 'npfloat'
    if isinstance(x, np.integer):
        return 'npint'
    if isinstance(x, pathlib.Path):
        return 'path'
    if type(x) in (int, float, str):
        return type(x).__name__
    return type(x).__name__


def seen(x, cls):
    t = kind(x, cls)
    if t in ('int', 'float', 'bool', 'npfloat', 'npint'):
        n = float(x) * 2
        return dict(t=t, n=int(n) if n == int(n) else -99999, s='')
    if t == 'none':
        return dict(t=t, n=0, s='')
    return dict(t=t, n=0, s=x.name if isinstance(x, enum.Enum) else str(x))


def py_item(i, cls=Color):
    t = i['t']
    if t == 'enum':
        return cls[i['s']]
    if t == 'otherenum':
        return Other[i['s']]
    if t == 'none':
        return None
    if t == 'path':
        return pathlib.Path(i['s'])
    if t == 'str':
        return i['s']
    v = i['n'] / 2
    return {'int': int, 'float': float, 'bool': bool, 'npfloat': np.float64, 'npint': np.int64}[t](v)


def py_val(v, cls=Color):
    if v['k'] == 'nested':
        xs = iter(v['e'])
        return [[py_item(next(xs), cls) for _ in range(n)] for n in v['r']]
    e = [py_item(x, cls) for x in v['e']]
    return {'scalar': lambda: e[0], 'list': lambda: e, 'tuple': lambda: tuple(e), 'array': lambda: np.array(e)}[v['k']]()


def proj(x, cls):
    if isinstance(x, np.ndarray):
        return dict(k='array', e=[seen(i, cls) for i in x.tolist()], r=[])
    if isinstance(x, list) and x and all(isinstance(r, list) for r in x):
        return dict(k='nested', e=[seen(i, cls) for r in x for i in r], r=[len(r) for r in x])
    if isinstance(x, (list, tuple)):
        return dict(k=type(x).__name__, e=[seen(i, cls) for i in x], r=[])
    return dict(k='scalar', e=[seen(x, cls)], r=[])


def val(k, *xs):
    if k == 'nested':
        return dict(k=k, e=[item(i) for x in xs for i in x], r=[len(x) for x in xs])
    return dict(k=k, e=[item(x) for x in xs], r=[])


def members(cls):
    return [dict(name=m.name, v=dict(t='int' if isinstance(m.value, int) else 'str',
                                     n=2 * m.value if isinstance(m.value, int) else 0,
                                     s=m.value if isinstance(m.value, str) else '')) for m in cls]


def decl(types, multi, units='unitless', cls=Color):
    return dict(types=list(types), multi=multi, units=units, enum=members(cls) if 'enum' in types else [])


ABSENT = dict(v=dict(k='absent', e=[], r=[]), u='')


def run_sets(case):
    """Declare the variable, then assign; record acceptance and what is stored after each call."""
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.develop_metadata import add_meta_data
    d = case['decl']
    key = case.get('key', 'x:var')
    if case.get('core'):
        from aviary.variable_info.variable_meta_data import CoreMetaData as md
        cls = enum_of(md[key])
        types = case['types']
    else:
        md, cls = {}, Color
        kw = {}
        if case['given']:
            ty = tuple(Color if t == 'enum' else PY[t] for t in case['given'])
            kw['types'] = ty[0] if len(ty) == 1 else ty
        add_meta_data(key, md, units=d['units'], default_value=py_item(case['default']), multivalue=d['multi'], **kw)
        types = names_of(md[key]['types'])
    av = AviaryValues()
    out = []
    for op in case['ops']:
        v = py_val(op['v'], cls)
        try:
            av.set_val(key, v, op['u'], **({} if case.get('core') else dict(meta_data=md)))
            ok = True
        except (TypeError, ValueError, AttributeError, KeyError, OverflowError):
            ok = False
        st = ABSENT
        if key in av:
            x, u = av.get_item(key)
            st = dict(v=proj(x, cls), u=u)
        if proj(v, cls) != proj(py_val(op['v'], cls), cls):
            st = dict(v=dict(k="caller's value changed", e=[], r=[]), u='')
        out.append(dict(v=op['v'], u=op['u'], ok=ok, st=st))
    return dict(types=types, ev=out)


def names_of(types):
    if types is None:
        return ['none']
    if not isinstance(types, tuple):
        types = (types,)
    return [next((n for n, t in PY.items() if t is ty or t is pathlib.Path and issubclass(ty, pathlib.PurePath)), 'enum' if issubclass(ty, enum.Enum) else ty.__name__) for ty in types]


def enum_of(meta):
    t = meta['types'] if isinstance(meta['types'], tuple) else (meta['types'],)
    return next((x for x in t if isinstance(x, type) and issubclass(x, enum.Enum)), Color)


def run(ck):
    base = [True, 1, 2.5, 2.0, '2', '2.5', 'abc', 'blue', 'green', Color.RED, Other.ODD, None]
    arrays = [val('array', 1.0, 2.5), val('array', 1, 2), val('array', True, False), val('array', 'abc', '2'),
              val('array', 'red', 'BLUE'), val('array', 2, 1), val('nested', [1.0, 2.5], [3.0, 4.0]), val('nested', [1, 2], [3, 4]),
              val('scalar', pathlib.Path('a/b')), val('scalar', np.float64(1.5)), val('scalar', np.int64(3)), val('scalar', -2.5),
              val('list', np.float64(1.0), 2), val('list'), val('array'), val('array', 3.0), val('list', 1, 7), val('list', 'abc', 'nope')]
    typesets = [['float'], ['int'], ['bool'], ['str'], ['enum'], ['path'], ['none'], ['float', 'int'], ['int', 'float'], ['bool', 'float'],
                ['float', 'bool'], ['str', 'float'], ['float', 'str'], ['path', 'str'], ['float', 'list', 'array'], ['float', 'int', 'array'],
                ['int', 'bool'], ['enum', 'int']]
    decls = [decl(t, m, 'ft' if m and t == ['float'] else 'unitless') for t in typesets for m in (True, False)]

    def defs(dl, items, vals, units, depth):
        s = lambda xs: '{' + ', '.join(vt._tla(x) for x in xs) + '}'
        return '\n'.join([f'd_Decls == {s(dl)}', f'd_Items == {s([item(x) for x in items])}', f'd_Vals == {s(vals)}',
                          f'd_UnitsU == {s(units)}', f'd_Depth == {depth}'])
    invs = ['StoredIsTyped', 'KindKept', 'LengthKept', 'Idempotent']
    batches = []
    r = ck.tlc('P02_Types', None, defs=defs([d for d in decls if 'str' not in d['types']], base, arrays, ['unitless', 'ft'] if not ck.quick else ['unitless'], 1),
               invariants=invs, properties=['RefusedKeeps'], action_constraint='EmitHist')
    batches += r.emitted
    r = ck.tlc('P02_Types', None, defs=defs([d for d in decls if 'str' in d['types']], base, [v for v in arrays if v['k'] != 'nested'], ['unitless'], 1),
               invariants=invs, action_constraint='EmitHist')
    batches += r.emitted
    few = [1, 2.5, 'blue', None, Color.RED]
    r = ck.tlc('P02_Types', None, defs=defs([d for d in decls if 'str' not in d['types']], few, arrays, ['unitless', 'ft', 's', 'inch', 'foo', 'None'], 6),
               invariants=invs, action_constraint='EmitHist', simulate=1000 if ck.quick else 10000, depth=7)
    batches += r.emitted
    cases = [dict(decl=b['decl'], given=[] if b['decl']['types'] == ['none'] else b['decl']['types'], default=item(None),
                  ops=[dict(v=h['v'], u=None if h['u'] == 'None' else h['u']) for h in b['hist']], exp=b['hist']) for b in batches]
    outs = ck.pmap(run_sets, cases)
    for c, o in zip(cases, outs):
        if 'crash' in o:
            ck.violation('crash', o['crash'], c, None, o)
            continue
        last = None
        for h, e in zip(c['exp'], o['ev']):
            if not h['ok']:
                h['st'] = last or ABSENT      # the code's own previous content is kept
            if e['ok'] != h['ok'] or e['st'] != h['st']:
                dev = h['dev']['ok'] == e['ok'] and h['dev']['st'] == e['st']
                report(ck, c['decl'], h, e, dev)
            last = e['st']
    ck.count(len(cases))
    ck.sample(cases[-1]['ops'][:3])
    ck.tally((f"{'+'.join(c['decl']['types'])}/{'accepted' if h['ok'] else 'refused'}" for c in cases for h in c['exp']), 'declared_types')

    # real metadata and random declarations; evaluated by TLC
    from aviary.variable_info.variable_meta_data import CoreMetaData as md
    rng = random.Random(ck.seed)
    tcases = []
    unitmap = lambda u: u if u in ('ft', 'unitless', 's', 'inch', 'm', 'min', 'h', 'degR') else None
    for rep in range(1 if ck.quick else 8):
        for key, m in md.items():
            ty, u = names_of(m['types']), unitmap(m['units'])
            if u is None:
                continue
            cls = enum_of(m)
            tcases.append(dict(core=True, key=key, decl=decl(ty, m['multivalue'], u, cls), given=ty, default=item(None), types=ty,
                               ops=[dict(v=rand_val(rng, cls, ty), u=u if rng.random() < .8 else rng.choice(['ft', 'unitless', 's', 'foo'])) for _ in range(4)]))
    for _ in range(400 if ck.quick else 6000):
        ty = rng.sample(['float', 'int', 'bool', 'str', 'path', 'enum', 'list', 'array'], rng.randint(1, 3))
        given, dflt = ty, item(None)
        if rng.random() < .15:
            given, dv = [], rng.choice([None, 1, 2.5, 'abc', '2', Color.RED, True, pathlib.Path('x')])
            dflt = item(dv)
            ty = None
        u = rng.choice(['ft', 'unitless'])
        d = decl(ty or ['enum'], rng.random() < .5, u)
        tcases.append(dict(decl=d, given=given, default=dflt,
                           ops=[dict(v=rand_val(rng, Color, ty or ['str']), u=u if rng.random() < .8 else rng.choice(['ft', 'unitless', 's', 'foo'])) for _ in range(4)]))
    outs = ck.pmap(run_sets, tcases)
    traces = []
    for c, o in zip(tcases, outs):
        if 'crash' in o:
            ck.violation('crash', o['crash'], c, None, o)
            continue
        traces.append(dict(given=c['given'], default=c['default'], decl=dict(c['decl'], types=o['types']), ev=o['ev'], key=c.get('key', '')))
    for b in ck.validate('P02_Trace', traces, chunk=3000, defs=defs([decl(['float'], True)], [1], [], ['ft'], 1)):
        t = b['trace']
        if b['pos'] == 0:
            ck.violation('types', f"{t['given']}", t['default'], b['want'], t['decl']['types'])
        else:
            report(ck, dict(t['decl'], key=t['key']), b['want'], t['ev'][b['pos'] - 1], b['dev'])


def report(ck, d, h, e, dev):
    clause = 'accepted' if e['ok'] != h['ok'] else 'stored'
    sg = 'enum-list-of-texts' if dev else f"{'+'.join(d['types'])}|{e['v']['k']}"
    ck.violation(clause, sg, dict(decl=d, v=e['v'], u=e['u']), h, e)


def rand_val(rng, cls, types):
    def one():
        r = rng.random()
        if 'enum' in types and r < .6:
            m = rng.choice(list(cls))
            x = rng.choice([m, m.name, m.name.lower(), m.value])
            if isinstance(x, str):
                try:
                    float(x)
                except ValueError:
                    return x
            return x
        return rng.choice([rng.randint(-3, 9), rng.randint(-9, 9) / 2, True, False, 'abc', 'x1', '3', '-1.5', None, pathlib.Path('p/q'),
                           np.float64(rng.randint(-4, 4) / 2), np.int64(rng.randint(0, 5))])
    k = rng.choice(['scalar', 'scalar', 'list', 'tuple', 'array', 'nested'])
    if k == 'scalar':
        v = one()
        out = dict(k=k, e=[it(v, cls)], r=[])
    elif k in ('list', 'tuple'):
        a = one()
        xs = [a] + [one() if rng.random() < .4 else a for _ in range(rng.randint(0, 3))]
        out = dict(k=k, e=[it(x, cls) for x in xs], r=[])
    elif k == 'array':
        n = rng.randint(1, 4)
        t = rng.choice(['f', 'i', 'b', 's', 'e'])
        xs = {'f': [rng.randint(-9, 9) / 2 for _ in range(n)], 'i': [rng.randint(0, 9) for _ in range(n)],
              'b': [rng.random() < .5 for _ in range(n)], 's': [rng.choice(['abc', '2', '1.5']) for _ in range(n)],
              'e': [rng.choice(list(cls)) for _ in range(n)]}[t]
        out = dict(k=k, e=[it(x, cls) for x in xs], r=[])
    else:
        if 'str' in types:
            return rand_val(rng, cls, types)
        t = rng.random() < .6
        out = rows(rng, lambda: it((rng.randint(-9, 9) / 2) if t else rng.randint(0, 5), cls))
    return out


def it(x, cls):
    i = item(x)
    if isinstance(x, enum.Enum):
        i['t'] = 'enum' if isinstance(x, cls) else 'otherenum'
    return i


def rows(rng, f):
    n = rng.randint(1, 3)
    return dict(k='nested', e=[f() for _ in range(2 * n)], r=[2] * n)
