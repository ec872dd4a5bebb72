"""Runs with the package imported from a scratch directory of links to /repo/aviary, whose models folder and
top-level files are laid out case by case. argv: input file, output file."""
import json
import os
import random
import shutil
import sys
import importlib_resources
import aviary
from pathlib import Path
from aviary.utils.functions import get_path
from aviary.variable_info.enums import Verbosity

pkg = Path(os.path.dirname(os.path.abspath(aviary.__file__)))
assert 'vt_run_' in str(pkg), pkg
scratch = pkg.parent
cwd, elsewhere = scratch / 'work' / 'cwd', scratch / 'else'
models = pkg / 'models'
roots = dict(cwd=cwd, abs=elsewhere, pkg=pkg, models=models)


def clear(d):
    assert str(d).startswith(str(scratch)) and 'vt_run_' in str(d) and not os.path.islink(d)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)


def fill(root, files, made):
    for f in files:
        p = root.joinpath(*f)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text('x')
        made.append(root / f[0])


def remove(paths):
    for p in paths:
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.unlink(p)


def where(p):
    p = Path(os.path.abspath(p))
    for k in ('cwd', 'abs', 'models', 'pkg'):
        try:
            return dict(where=k, p=list(p.relative_to(roots[k]).parts))
        except ValueError:
            pass
    return dict(where=str(p), p=[])


if os.path.islink(models):
    os.unlink(models)
dn = open(os.devnull, 'w')
out = []
for line in open(sys.argv[1]):
    c = json.loads(line)
    rng = random.Random(c['seed'])
    for d in (cwd, elsewhere, models):
        clear(d)
    os.chdir(cwd)
    made = []
    fill(cwd, c['l']['cwd'], [])
    fill(elsewhere, c['l']['abs'], [])
    models_files = list(c['l']['models'])
    rng.shuffle(models_files)
    fill(models, models_files, [])
    fill(pkg, c['l']['pkg'], made)
    got = []
    for q in c['qs']:
        p = os.path.join(*q['p']) if q['base'] == 'rel' else str(elsewhere.joinpath(*q['p']))
        if q['base'] == 'rel' and rng.random() < .2:
            p = './' + p
        old = sys.stdout
        sys.stdout = dn
        try:
            v = rng.choice([0, 1, 2, 3])
            a = get_path(rng.choice([p, Path(p)]), Verbosity(v))
            r = where(a)
            if not os.path.exists(a):
                r = dict(where='missing', p=[])
        except FileNotFoundError:
            r = dict(where='none', p=[])
        except Exception as e:
            r = dict(where=type(e).__name__, p=[])
        finally:
            sys.stdout = old
        got.append(r)
    items = sorted(str(x) for x in models.rglob('*'))
    items = [list(Path(x).relative_to(models).parts) for x in items]
    remove(made)
    out.append(json.dumps(dict(got=got, items=items)))
with open(sys.argv[2], 'w') as f:
    f.write('\n'.join(out) + '\n')
os._exit(0)
