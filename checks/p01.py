"""P01: replay histories of the store specification in NamedValues / AviaryValues and validate random ones."""
import random
import numpy as np
import vt

REAL = {'W': 'aircraft:wing:span', 'a': 'a', 'b': 'b', 'c': 'my:var'}
BACK = {v: k for k, v in REAL.items()}
NONE = [0, 0]


def to_val(v):
    ents = [None if e == NONE else e[0] / e[1] for e in v['e']]
    k = v['k']
    if k == 'none':
        return None
    if k == 'scalar':
        return ents[0]
    if k == 'list':
        return list(ents)
    if k == 'tuple':
        return tuple(ents)
    if k == 'array':
        # integral entries are offered as an integer array: conversion must not truncate them
        if all(e == int(e) for e in ents):
            return np.array([int(e) for e in ents])
        return np.array(ents)
    raise ValueError(k)


def proj_val(x):
    def ent(e):
        if e is None:
            return list(NONE)
        if isinstance(e, (bool, str)) or not isinstance(e, (int, float, np.number)):
            return [0, -2]
        return vt.rat(e)
    if x is None:
        return 'none', []
    if isinstance(x, list):
        return 'list', [ent(e) for e in x]
    if isinstance(x, tuple):
        return 'tuple', [ent(e) for e in x]
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return 'array0', [ent(x.item())]
        return 'array', [ent(e) for e in x.tolist()]
    return 'scalar', [ent(x)]


def proj_store(s):
    out = []
    items = list(s.items())
    keys = list(s.keys())
    ok = (len(s) == len(items) == len(list(iter(s))) and keys == [k for k, _ in items]
          and all(k in s for k in keys) and [k for k, _ in iter(s)] == keys
          and [id(v[0]) for v in s.values()] == [id(v[0]) for _, v in items])
    for n, (v, u) in items:
        k, e = proj_val(v)
        out.append(dict(n=BACK.get(n, n), k=k, e=e, u=u))
    if not ok:
        out.append(dict(n='inconsistent views', k='', e=[], u=''))
    for n in ('a', 'b', 'my:var', 'aircraft:wing:span'):
        if (n in s) != (n in keys):
            out.append(dict(n='membership', k=n, e=[], u=''))
    return out


def ok():
    return dict(t='ok', c='', k='', e=[], u='')


def apply(cls, S, op):
    """Perform one operation on the real collections S (dict slot -> object)."""
    o = op['op']
    unit = lambda u: None if u == 'None' else u
    try:
        if o == 'set':
            S[op['s']].set_val(REAL[op['n']], to_val(op['v']), unit(op['u']))
            return ok()
        if o == 'get':
            k, e = proj_val(S[op['s']].get_val(REAL[op['n']], unit(op['u'])))
            return dict(t='val', c='', k=k, e=e, u='')
        if o == 'item':
            v, u = S[op['s']].get_item(REAL[op['n']])
            k, e = proj_val(v)
            return dict(t='val', c='', k=k, e=e, u=u)
        if o == 'del':
            S[op['s']].delete(REAL[op['n']])
            return ok()
        if o == 'clear':
            S[op['s']].clear()
            return ok()
        if o == 'update':
            items = [(REAL[i['n']], (to_val(i), unit(i['u']))) for i in op['items']]
            if op['how'] == 'dict':
                S[op['s']].update(dict(items))
            elif op['how'] == 'pairs':
                S[op['s']].update(items)
            elif op['how'] == 'named':
                from aviary.utils.named_values import NamedValues
                S[op['s']].update(NamedValues(items))
            else:
                S[op['s']].update(**dict(items))
            return ok()
        if o == 'merge':
            S[op['s']].update(S[op['t']])
            return ok()
        if o == 'copy':
            S[op['t']] = S[op['s']].copy()
            return ok()
        if o == 'deepcopy':
            S[op['t']] = S[op['s']].deepcopy()
            return ok()
        if o == 'construct':
            S[op['t']] = type(S[op['s']])(S[op['s']])
            return ok()
        if o == 'eq':
            r = S[op['s']] == S[op['t']]
            r2 = S[op['s']] != S[op['t']]
            if r not in (True, False) or r == r2:
                return dict(t='val', c='', k='inconsistent', e=[], u='')
            return dict(t='val', c='', k='true' if r else 'false', e=[], u='')
    except (KeyError, TypeError, ValueError) as err:
        return dict(t='err', c=type(err).__name__, k='', e=[], u='')
    raise vt.MachineryError(o)


def fresh(cls):
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.named_values import NamedValues
    c = NamedValues if cls == 'N' else AviaryValues
    return {1: c(), 2: c()}


def run_ops(case):
    S = fresh(case['cls'])
    out = []
    for op in case['ops']:
        r = apply(case['cls'], S, op)
        out.append(dict(op=op, res=r, st=[proj_store(S[1]), proj_store(S[2])]))
    return out


def sig(op, want, got):
    arr = any(i['k'] == 'array' for st in (want or []) for i in st)
    return f"{op['op']}|{'array' if arr else ''}|{got}"


def V(k, *e):
    return dict(k=k, e=[NONE if x is None else vt.rat(x) for x in e])


def run(ck):
    vals_small = [V('scalar', 3), V('list', 1, None)]
    vals = [V('scalar', 3), V('list', 1, None, 24), V('tuple', 5), V('array', 2, 7), V('none'), V('array', 1.5)]
    names = ['a', 'W']
    invs = ['NoDuplicates', 'LastWriteWins', 'RoundTripUnits', 'KnownWellFormed']
    props = ['ReadsChangeNothing', 'RefusedChangesNothing', 'Isolation']

    def consts(nm, vs, us, d, c):
        return dict(Names=set(nm), Values=_set(vs), UnitsU=set(us), Depth=d, Classes=set(c))

    batches = []
    r = ck.tlc('P01_Store', None, defs=defs(names, vals_small, ['ft', 's'], 3, ['A'] if ck.quick else ['N', 'A']), invariants=invs, properties=props,
               action_constraint='EmitHist', workers=1)
    batches += r.emitted
    n = 800 if ck.quick else 20000
    for i, (nm, us) in enumerate([(['a', 'W', 'b'], ['ft', 'inch', 'None', 'foo']), (['a', 'b'], ['ft', 'm', 'unitless', 's']),
                                  (['a', 'c'], ['degF', 'degC', 'degK', 'degR']), (['a', 'W'], ['inch', 'ft', 'm', 'h', 'min'])]):
        r = ck.tlc('P01_Store', None, defs=defs(nm, vals, us, 14, ['N', 'A']), invariants=invs, action_constraint='EmitHist',
                   simulate=n, depth=15, seed=ck.seed * 10 + i)
        batches += r.emitted
    cases = [dict(cls=b['cls'], ops=[h['op'] for h in b['hist']], exp=b['hist']) for b in batches]
    outs = ck.pmap(run_ops, cases)
    for c, o in zip(cases, outs):
        compare(ck, c, o)
    ck.count(len(cases))
    kinds = ck.tally(((h['op']['op'], h['res']['t']) for x in batches for h in x['hist']), 'operations_replayed')
    ck.require(set(k[0] for k in kinds) == {'set', 'get', 'item', 'del', 'clear', 'merge', 'copy', 'deepcopy', 'construct', 'eq'}, 'every operation occurs')
    for c in cases[-2:]:
        ck.sample(dict(cls=c['cls'], ops=c['ops'][:6]))

    # recorded traces, beyond the generated alphabet: update in all its forms, long histories
    rng = random.Random(ck.seed)
    nt, ln = (400, 40) if ck.quick else (4000, 60)
    tcases = [rand_case(rng, ln, vals) for _ in range(nt)]
    outs = ck.pmap(run_ops, tcases)
    traces = []
    for c, o in zip(tcases, outs):
        if isinstance(o, dict):
            ck.violation('crash', o['crash'], c, None, o)
        else:
            traces.append(dict(cls=c['cls'], ev=o))
    for b in ck.validate('P01_Trace', traces, init='TInit', next_='TNext', chunk=400,
                         defs=defs(['a'], [V('scalar', 1)], ['ft'], 1, ['N', 'A'])):
        ev = b['trace']['ev'][b['pos'] - 1]
        ck.violation('+'.join(b['bad']), sig(ev['op'], b['st'], ev['res'].get('c') or ev['res']['t']),
                     dict(cls=b['trace']['cls'], ops=[e['op'] for e in b['trace']['ev'][:b['pos']]]),
                     dict(res=b['res'], st=b['st']), dict(res=ev['res'], st=ev['st']))


def rand_case(rng, ln, vals):
    cls = rng.choice('NA')
    us = ['ft', 'inch', 'm', 's', 'min', 'h', 'degC', 'degF', 'degK', 'degR', 'unitless', 'foo', 'None']
    ops = []
    for _ in range(ln):
        k = rng.random()
        s = rng.choice([1, 2])
        n = rng.choice(['a', 'b', 'c', 'W'])
        u = rng.choice(us[:3] if rng.random() < .6 else us)
        if k < .3:
            ops.append(dict(op='set', s=s, n=n, v=rand_val(rng, vals), u=u))
        elif k < .55:
            ops.append(dict(op='get', s=s, n=n, u=u))
        elif k < .62:
            ops.append(dict(op=rng.choice(['item', 'del']), s=s, n=n))
        elif k < .64:
            ops.append(dict(op='clear', s=s))
        elif k < .8:
            items = {}
            for _ in range(rng.randint(1, 3)):
                nn = rng.choice(['a', 'b', 'c', 'W'])
                v = rand_val(rng, vals)
                items[nn] = dict(n=nn, k=v['k'], e=v['e'], u=rng.choice(us[:4]))
            ops.append(dict(op='update', s=s, how=rng.choice(['dict', 'pairs', 'named', 'kw']), items=list(items.values())))
        else:
            ops.append(dict(op=rng.choice(['merge', 'copy', 'deepcopy', 'construct', 'eq', 'eq']), s=s, t=3 - s))
    return dict(cls=cls, ops=ops)


def rand_val(rng, vals):
    if rng.random() < .3:
        return V('scalar', rng.randint(-20, 40))
    k = rng.choice(['scalar', 'list', 'tuple', 'array', 'none', 'list'])
    if k == 'none':
        return V('none')
    if k == 'scalar':
        return V(k, rng.randint(-40, 90) / rng.choice([1, 2, 4]))
    n = rng.randint(1, 4)
    es = [rng.randint(-40, 90) / rng.choice([1, 1, 2]) for _ in range(n)]
    if k != 'array':
        es = [None if rng.random() < .25 else e for e in es]
    return V(k, *es)


def compare(ck, c, o):
    if isinstance(o, dict):
        ck.violation('crash', o['crash'], c, None, o)
        return
    for i, (h, e) in enumerate(zip(c['exp'], o)):
        bad = [k for k in ('res', 'st') if h[k] != e[k]]
        if bad:
            ck.violation('+'.join('result' if b == 'res' else 'state' for b in bad),
                         sig(h['op'], h['st'], e['res'].get('c') or e['res']['t']),
                         dict(cls=c['cls'], ops=c['ops'][:i + 1]), h, e)
            return


def _set(vs):
    return vs


def defs(names, vals, units, depth, classes):
    s = lambda xs: '{' + ', '.join(vt._tla(x) for x in xs) + '}'
    return '\n'.join([f'd_Names == {s(names)}', f'd_Values == {s(vals)}', f'd_UnitsU == {s(units)}',
                      f'd_Depth == {depth}', f'd_Classes == {s(classes)}'])
