"""P18: files are found in the documented order."""
import json
import os
import random
import subprocess
import sys
import vt

NAMES = ['f.csv', 'f.txt', 'f.CSV', 'f.dat', 'f', 'g.csv', 'g.txt', 'h.v1.csv', 'h.v1', 'a', 'b', 'models']


def stem(n):
    i = n.rfind('.')
    return n if i <= 0 else n[:i]


def run_workers(cases, n=6):
    """each worker has its own scratch package"""
    jobs = []
    for w in range(n):
        part = cases[w::n]
        if not part:
            continue
        root = os.path.abspath(f'pk{w}')
        os.makedirs(os.path.join(root, 'aviary'))
        src = os.path.join(vt.REPO, 'aviary')
        for e in os.listdir(src):
            os.symlink(os.path.join(src, e), os.path.join(root, 'aviary', e))
        os.makedirs(os.path.join(root, 'work', 'cwd'))
        inp, outp = os.path.join(root, 'in'), os.path.join(root, 'out')
        with open(inp, 'w') as f:
            f.write('\n'.join(json.dumps(c) for c in part) + '\n')
        env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1')
        jobs.append((w, outp, subprocess.Popen([sys.executable, os.path.join(vt.ROOT, 'checks', 'p18_worker.py'), inp, outp], env=env,
                                               cwd=root, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = [None] * len(cases)
    for w, outp, pr in jobs:
        err = pr.communicate(timeout=800)[1]
        if pr.returncode != 0:
            raise vt.MachineryError('worker failed: ' + err.decode()[-2000:])
        res[w::n] = [json.loads(x) for x in open(outp)]
        import shutil
        shutil.rmtree(os.path.abspath(f'pk{w}'), ignore_errors=True)
    return res


def seqs(xs):
    return '{' + ', '.join(vt._tla(x) for x in xs) + '}'


def run(ck):
    rng = random.Random(ck.seed)
    cwd = [['f.csv'], ['a', 'f.csv']]
    pkg = [['f.csv'], ['a', 'f.csv']] if not ck.quick else [['a', 'f.csv'], ['f.txt']]
    mod = [['f.csv'], ['a', 'f.csv'], ['b', 'f.txt'], ['b', 'f.CSV'], ['a', 'g.csv']] + ([] if ck.quick else [['b', 'a', 'f.dat'], ['f', 'g.txt']])
    reqs = [dict(base=b, p=p) for b, p in (('rel', ['f.csv']), ('rel', ['f.txt']), ('rel', ['a', 'f.csv']), ('rel', ['b', 'f.csv']), ('rel', ['f.dat']), ('rel', ['f']),
                                           ('rel', ['a']), ('rel', ['g.txt']), ('rel', ['models', 'a', 'g.csv']), ('abs', ['f.csv']), ('abs', ['b', 'f.txt']), ('rel', ['b', 'zz.csv']))]
    names = sorted(set(NAMES) | {'zz.csv'})
    items = {tuple(p[:i]) for p in mod for i in range(1, len(p) + 1)}
    items = [list(p) for p in sorted(items, key=lambda p: '/'.join(p))]

    def defs(pkgm):
        fn = lambda g: '[x \\in {' + ', '.join(json.dumps(n) for n in names) + '} |-> CASE ' + ' [] '.join(f'x = {json.dumps(n)} -> {g(n)}' for n in names) + ']'
        return '\n'.join(['d_StemOf == ' + fn(lambda n: json.dumps(stem(n))), 'd_IsCsv == ' + fn(lambda n: 'TRUE' if n.lower().endswith('.csv') else 'FALSE'),
                          f'd_AllItems == {vt._tla(items)}', f'd_CwdU == {seqs(cwd)}', f'd_AbsU == {seqs([["f.csv"]])}', f'd_PkgU == {seqs(pkgm)}',
                          f'd_ModU == {seqs(mod)}', f'd_Requests == {seqs(reqs)}'])
    # files of the models folder are package files too: only requests through it see that, they name no package file
    r = ck.tlc('P18_Paths', defs=defs(pkg), invariants=['Agrees', 'OnlyExisting', 'NearFirst', 'SameStem', 'NeverRefusedWhenThere'], action_constraint='EmitCase', workers=6)
    cases = []
    for e in r.emitted:
        rs = {vt.canon(x['q']): x['w'] for x in e['rs']}
        # requests below models/ are package requests for a models file
        want = []
        for q in reqs:
            w = rs[vt.canon(q)]
            if q['p'][0] == 'models' and q['p'][1:] in e['l']['models']:
                w = dict(where='models', p=q['p'][1:])
            want.append(w)
        cases.append(dict(l=e['l'], qs=reqs, want=want, seed=rng.random()))
    ck.require(len(cases) >= 512, 'layouts')
    for c, got in zip(cases, run_workers(cases)):
        for q, w, g in zip(c['qs'], c['want'], got['got']):
            if w != g:
                ck.violation('lookup', f'{q["base"]}:{"/".join(q["p"])}', dict(l=c['l'], q=q), w, g)
    ck.count(sum(len(c['qs']) for c in cases))
    ck.tally([w['where'] for c in cases for w in c['want']], 'found_in')
    ck.sample(dict(l=cases[-1]['l'], q=reqs[1], w=cases[-1]['want'][1]))

    # random deeper layouts
    def rpath(depth):
        p = []
        for _ in range(rng.randint(0, depth)):
            p.append(rng.choice(['a', 'b']))
        return p + [rng.choice(NAMES[:-3])]

    def rfiles(n, depth):
        out = []
        for _ in range(rng.randint(0, n)):
            p = rpath(depth)
            if not any(p[:len(x)] == x or x[:len(p)] == p for x in out):
                out.append(p)
        return out
    cases = []
    for _ in range(600 if ck.quick else 8000):
        cases.append(dict(l=dict(cwd=rfiles(2, 1), abs=rfiles(2, 1), pkg=rfiles(2, 1), models=rfiles(6, 3)), seed=rng.random(),
                          qs=[dict(base=rng.choice(['rel', 'rel', 'rel', 'abs']), p=rpath(2)) for _ in range(8)]))
    traces = []
    for c, got in zip(cases, run_workers(cases)):
        traces.append(dict(l=c['l'], items=got['items'], rs=[dict(q=q, w=g) for q, g in zip(c['qs'], got['got'])]))
    for b in ck.validate('P18_Trace', traces, defs=defs(pkg), chunk=4000):
        x = b['trace']['rs'][b['pos'] - 1]
        ck.violation('lookup', 'trace', dict(l=b['trace']['l'], q=x['q']), b['want'], x['w'])
    ck.tally([x['w']['where'] for t in traces for x in t['rs']], 'random_found_in')
