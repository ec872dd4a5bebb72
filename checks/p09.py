"""P09: merging metadata dictionaries and variable hierarchies is a conflict-checked union without side effects."""
import copy
import random
import vt

VARS = ['x', 'y']
TRACK = {'SPAN', 'AREA', 'LENGTH', 'X', 'Y', 'Sub', 'RANGE', 'FIELD_LENGTH', 'MASS'}
TOPS = {'Wing', 'Fuselage', 'Tail', 'Takeoff', 'Landing'}


def pool():
    """classes of attribute sets; members of one class are numerically equal"""
    import numpy as np
    base = dict(units='ft', desc='d', default_value=1.0, option=False, types=None, multivalue=False, historical_name={'FLOPS': 'A', 'GASP': None})

    def v(**kw):
        return dict(copy.deepcopy(base), **kw)
    return {
        1: [v(), v(default_value=1.0 + 1e-12), v(default_value=np.float64(1.0)), v(default_value=1)],
        2: [v(units='m')], 3: [v(default_value=1.001), v(default_value=1.001 * (1 + 1e-12))],
        4: [v(default_value=np.array([1.0, 2.0]), types=np.ndarray), v(default_value=np.array([1.0 + 1e-13, 2.0]), types=np.ndarray)],
        5: [v(default_value=np.array([1.0, 2.5]), types=np.ndarray)], 6: [v(default_value=np.array([1.0]), types=np.ndarray)],
        7: [v(default_value=np.array([1.0, 1.0]), types=np.ndarray)], 8: [v(desc='other')], 9: [v(multivalue=True)], 10: [v(historical_name={'FLOPS': 'B', 'GASP': None})],
        11: [v(historical_name={'FLOPS': 'A'})], 12: [v(default_value=None, types=str)], 13: [v(default_value='one')], 14: [v(option=True)], 15: [v(default_value=0.0)],
        16: [v(default_value=1e-9)],
        # dictionaries not built with add_meta_data: an attribute more, or less
        17: [v(EXTRA='note')], 18: [v(LACKS='multivalue')], 19: [v(EXTRA='note', LACKS='desc')],
    }


# pairs that differ in one small respect only
NEAR = [(1, 17), (1, 18), (17, 19), (18, 19), (1, 11), (10, 11), (4, 7), (4, 5), (6, 7), (1, 3), (15, 16), (1, 2), (1, 8), (1, 9), (1, 14), (12, 13)]


def put(fn, key, d, attrs):
    attrs = copy.deepcopy(attrs)
    extra, lacks = attrs.pop('EXTRA', None), attrs.pop('LACKS', None)
    fn(key, d, **attrs)
    if extra:
        d[key][extra] = 'x'
    if lacks:
        del d[key][lacks]


def same(a, b):
    """independent comparison of two attribute values"""
    import numpy as np
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and all(same(float(x), float(y)) for x, y in zip(a.flat, b.flat))
    if type(a) in (float, np.float64) and type(b) in (float, np.float64):
        return abs(a - b) <= 2e-8 * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


CLASS_OF = {}


def class_of(entry):
    from aviary.utils.develop_metadata import add_meta_data
    if not CLASS_OF:
        for c, members in pool().items():
            CLASS_OF[c] = []
            for m in members:
                d = {}
                put(add_meta_data, 'k', d, m)
                # what is stored is what was given (numbers without a type become floats)
                for f in ('units', 'desc', 'option', 'multivalue', 'historical_name'):
                    if f != m.get('LACKS') and not same(d['k'][f], m[f]):
                        return -3
                CLASS_OF[c].append(d['k'])
    hits = [c for c, es in CLASS_OF.items() if any(same(entry, e) for e in es)]
    return hits[0] if len(hits) == 1 else -2


def project(ds):
    return [{k: (class_of(d[k]) if k in d else 0) for k in VARS} if set(d) <= set(VARS) else {k: -1 for k in VARS} for d in ds]


def meta_history(c):
    from aviary.utils.develop_metadata import add_meta_data, update_meta_data
    from aviary.utils.merge_variable_metadata import merge_meta_data
    rng = random.Random(c['seed'])
    p = pool()
    ds = [{}, {}, {}, {}]
    out = []
    for call in c['calls']:
        try:
            if call['op'] == 'merge':
                arg = [ds[i - 1] for i in call['l']]
                ids = [id(x) for x in arg]
                res = merge_meta_data(arg)
                if [id(x) for x in arg] != ids or any(res is x for x in arg):
                    raise vt.MachineryError('alias') if False else AssertionError('the merge returned or replaced an argument')
                ds[3] = res
            else:
                fn = add_meta_data if call['op'] == 'add' else update_meta_data
                put(fn, call['k'], ds[call['d'] - 1], rng.choice(p[call['v']]))
            err = False
        except ValueError:
            err = True
        out.append(dict(c=call, err=err, ds=project(ds)))
    return dict(kind='meta', start={k: 0 for k in VARS}, calls=out)


# ---- hierarchies

def leaves_of(cls, path=()):
    out = []
    for k in dir(cls):
        if k.startswith('_'):
            continue
        v = getattr(cls, k)
        p = path + (k,)
        if isinstance(v, type):
            if len(p) > 1 or k in TOPS:
                out += leaves_of(v, p)
        elif isinstance(v, str) and k in TRACK | ({'Wing', 'Tail'} if not path else set()):
            if path and path[0] in TOPS or not path and k in ('X', 'Y', 'Wing', 'Tail'):
                out.append(dict(p=list(p), v=v))
    return sorted(out, key=vt.canon)


def cores():
    from aviary.variable_info.variables import Aircraft, Mission
    return leaves_of(Aircraft), leaves_of(Mission)


def build_hier(h, i):
    from aviary.variable_info.variables import Aircraft, Mission
    sup = {'A': Aircraft, 'M': Mission, '': None}[h['sup']]

    def make(name, sub, core):
        attrs = {'__doc__': 'doc'}
        for first in sorted({l['p'][0] for l in sub}):
            here = [l for l in sub if l['p'][0] == first]
            if len(here[0]['p']) == 1:
                attrs[first] = here[0]['v']
            else:
                inner = getattr(core, first, None) if core is not None else None
                attrs[first] = make(first, [dict(p=l['p'][1:], v=l['v']) for l in here], inner if isinstance(inner, type) else None)
        return type(name, (core,) if core is not None else (), attrs)
    return make(f'H{i}', h['leaves'], sup)


def own(cls):
    return {k: own(v) if isinstance(v, type) else v for k, v in vars(cls).items() if not k.startswith('__')}


def hier_case(c):
    from aviary.utils.merge_hierarchies import merge_hierarchies
    from aviary.variable_info.variables import Aircraft, Mission
    hs = [build_hier(h, i) for i, h in enumerate(c['hs'])]
    watch = hs + [Aircraft, Mission]
    before = [vt.canon(own(x)) for x in watch]
    frame = []
    try:
        res = merge_hierarchies(list(hs))
        err = False
        leaves = leaves_of(res)
        if any([res is x for x in watch]):
            frame.append('alias')
    except ValueError:
        err, leaves, res = True, [], None
    if [vt.canon(own(x)) for x in watch] != before:
        frame.append('merge')
    if res is not None:
        # using the result: new variables in its own classes
        def use(cls):
            for v in list(vars(cls).values()):
                if isinstance(v, type):
                    use(v)
            cls.NEW = 'new'
        use(res)
        if [vt.canon(own(x)) for x in watch] != before and not frame:
            frame.append('use')
    return dict(kind='hier', hs=c['hs'], err=err, leaves=leaves, frame=frame)


def tset(leaves):
    return '{' + ', '.join(vt._tla(l) for l in leaves) + '}'


def run(ck):
    rng = random.Random(ck.seed)
    ca, cm = cores()
    ck.require(len(ca) >= 4 and len(cm) >= 2, f'core leaves {len(ca)} {len(cm)}')
    cls = pool()
    span = next(l for l in ca if l['p'] == ['Wing', 'SPAN'])
    lv = [dict(p=p, v=v) for p, v in ((['X'], 'x1'), (['X'], 'x2'), (['Wing', 'X'], 'w1'), (['Wing', 'X'], 'w2'), (['Wing', 'SPAN'], 'bad'),
                                      (['Tail', 'X'], 't1'), (['Tail', 'Sub', 'Y'], 's1'), (['Tail', 'Sub', 'Y'], 's2'), (['Tail', 'Sub'], 'v'), (['Wing', 'X', 'Y'], 'd'))] + [span]

    def defs(mode, depth=0, classes=(1, 2), leaves=lv, sups=('', 'A', 'M')):
        return '\n'.join([f'd_Mode == "{mode}"', f'd_Vars == {vt._tla(set(VARS))}', f'd_Classes == {vt._tla(set(classes))}', f'd_Depth == {depth}',
                          f'd_Leaves == {tset(leaves)}', f'd_Sups == {vt._tla(set(sups))}', f'd_CoreA == {tset(ca)}', f'd_CoreM == {tset(cm)}'])
    # every history of the dictionaries (classes 1 and 2 stand for a seeded choice of two classes)
    r = ck.tlc('P09_Merge', defs=defs('meta', 3), invariants=['MetaOrder', 'MetaUnion'], properties=['MergeOnlyResult'], action_constraint='EmitCase', workers=4)
    keep = r.emitted if not ck.quick else [e for e in r.emitted if any(x['c']['op'] == 'merge' for x in e['hist'])]
    if ck.quick:
        # refused merges are the rare ones
        refused = [e for e in keep if any(x['c']['op'] == 'merge' and x['err'] for x in e['hist'])]
        keep = rng.sample(refused, min(len(refused), 3000)) + rng.sample(keep, min(len(keep), 5000))
        ck.exhaustive = False
    cases = []
    for e in keep:
        a, b = rng.sample(rng.choice(NEAR), 2) if rng.random() < .6 else rng.sample(sorted(cls), 2)
        ren = {0: 0, 1: a, 2: b}
        hist = [dict(c=dict(h['c'], v=ren[h['c']['v']]), err=h['err'], ds=[{k: ren[v] for k, v in d.items()} for d in h['ds']]) for h in e['hist']]
        cases.append(dict(calls=[h['c'] for h in hist], hist=hist, seed=rng.random()))
    for c, got in zip(cases, ck.pmap(meta_history, cases)):
        if 'crash' in got:
            ck.violation('crash', 'meta|' + got['crash'].split(':')[0], c, None, got)
        elif got['calls'] != c['hist']:
            i = next(i for i, (a, b) in enumerate(zip(got['calls'], c['hist'])) if a != b)
            ck.violation('refusal' if got['calls'][i]['err'] != c['hist'][i]['err'] else 'meta', c['hist'][i]['c']['op'], c['calls'][:i + 1], c['hist'][i], got['calls'][i])
    ck.count(len(cases))
    r = ck.tlc('P09_Merge', defs=defs('hier', leaves=lv if not ck.quick else lv[:2] + lv[2:3] + lv[4:7] + lv[8:9] + lv[10:]), invariants=['OrderFree', 'Complete'], action_constraint='EmitCase', workers=6)
    cases = [dict(hs=e['hs'], want=dict(err=e['r']['err'], leaves=sorted(e['r']['leaves'], key=vt.canon)), dev=e['dev']) for e in r.emitted]
    if ck.quick and len(cases) > 9000:
        cases = rng.sample(cases, 9000)
    for c, got in zip(cases, ck.pmap(hier_case, cases)):
        judge_hier(ck, c, got)
        if 'crash' not in got and (got['err'] != c['want']['err'] or got['leaves'] != c['want']['leaves']):
            ck.violation('hierarchy', 'plain-over-core' if c['dev'] else 'replay', c, c['want'], got)
    ck.count(len(cases))
    ck.tally(['refused' if c['want']['err'] else 'merged' for c in cases], 'hierarchy_merges')
    ck.sample(cases[len(cases) // 2])

    # random: longer histories over all classes, more and deeper hierarchies
    mc, hc = [], []
    for _ in range(1500 if ck.quick else 20000):
        # mostly few classes, so that merges succeed
        few = rng.sample(sorted(cls), rng.choice([1, 2, 3, 16])) if rng.random() < .7 else list(rng.choice(NEAR))
        calls = []
        for _ in range(rng.randint(2, 12)):
            if rng.random() < .35:
                calls.append(dict(op='merge', d=0, k='', v=0, l=[rng.randint(1, 4) for _ in range(rng.randint(1, 4))]))
            else:
                calls.append(dict(op=rng.choice(['add', 'add', 'upd']), d=rng.randint(1, 4), k=rng.choice(VARS), v=rng.choice(few), l=[]))
        mc.append(dict(calls=calls, seed=rng.random()))
    paths = [['X'], ['Y'], ['Wing', 'X'], ['Wing', 'SPAN'], ['Wing', 'Y'], ['Tail', 'X'], ['Tail', 'Y'], ['Tail', 'Sub', 'X'], ['Tail', 'Sub', 'Y'], ['Fuselage', 'LENGTH'],
             ['Fuselage', 'X'], ['Tail', 'Sub'], ['Takeoff', 'X'], ['Tail', 'Sub', 'Sub', 'X'], ['Wing', 'Sub', 'X']]
    core_v = {tuple(l['p']): l['v'] for l in ca + cm}
    for _ in range(3000 if ck.quick else 40000):
        sups = rng.choice([['A'], ['A'], ['M'], [''], ['A', ''], ['', 'A', 'M']])
        wild = rng.random() < .3
        n = rng.randint(1, 4)
        hs = []
        for _ in range(n):
            leaves = []
            for p in rng.sample(paths, rng.randint(0, 5)):
                l = dict(p=p, v=rng.choice([core_v.get(tuple(p), 'a'), 'b' if wild else core_v.get(tuple(p), 'a')]))
                if not any(l['p'] == m['p'] or l['p'] == m['p'][:len(l['p'])] or m['p'] == l['p'][:len(m['p'])] for m in leaves):
                    leaves.append(l)
            hs.append(dict(sup=rng.choice(sups), leaves=leaves))
        hc.append(dict(hs=hs))
    traces = []
    for c, got in zip(mc, ck.pmap(meta_history, mc)):
        if 'crash' in got:
            ck.violation('crash', 'meta|' + got['crash'].split(':')[0], c, None, got)
        else:
            traces.append(got)
    for c, got in zip(hc, ck.pmap(hier_case, hc)):
        judge_hier(ck, c, got)
        if 'crash' not in got:
            traces.append(got)
    for b in ck.validate('P09_Trace', traces, defs=defs('meta'), chunk=6000):
        t = b['trace']
        for x in b['bad']:
            ck.violation(x if t['kind'] == 'meta' else 'hierarchy', 'plain-over-core' if b['dev'] else t['kind'], t, None, t['calls'][b['pos'] - 1] if t['kind'] == 'meta' else None)
    ck.notes['random'] = dict(meta=len(mc), hier=len(hc), merged=sum(t['kind'] == 'hier' and not t['err'] for t in traces))


def judge_hier(ck, c, got):
    if 'crash' in got:
        ck.violation('crash', 'hier|' + got['crash'].split(':')[0], c, None, got)
        return
    for f in got['frame']:
        ck.violation('frame', f, c, None, got)
