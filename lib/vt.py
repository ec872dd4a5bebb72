"""Shared machinery of the checks: running TLC on the specifications, replaying what TLC generated
into the real code, validating recorded traces with TLC, and reporting.

Two directions bind a specification to /repo:
  * generate: TLC explores the specification (exhaustively for small constants, or by seeded
    simulation) and prints every explored case / behaviour as JSON ("@@" lines); the check replays
    each one in the real code and compares the projected state.
  * validate: the check drives the real code with seeded random inputs beyond the small constants,
    records what it did, and TLC evaluates the specification over the recorded trace.
"""
import argparse
import concurrent.futures
import concurrent.futures.process
import contextlib
import fractions
import importlib
import io
import json
import math
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The check itself failed (not a verdict)."""


class TlcResult:
    def __init__(self):
        self.emitted = []
        self.states = 0
        self.distinct = 0
        self.invariant = None
        self.actions = {}
        self.raw = ''


def _tla(v):
    """Python value -> TLA+ expression for a cfg file / definition."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(_tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(_tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join(f'{k} |-> {_tla(x)}' for k, x in v.items()) + ']'
    raise TypeError(type(v))


def brief(raw):
    i = raw.find('Error:')
    return raw[max(0, i):i + 4000]


def run_tlc(module, consts=None, *, init='Init', next_='Next', invariants=(), properties=(), constraint=None,
            action_constraint=None, postcondition=None, view=None, files=None, workers=1,
            simulate=None, depth=None, seed=1, heap='4g', timeout=850, coverage=True, defs=''):
    """Run TLC on spec/<module>.tla with the given constants; returns a TlcResult."""
    wd = tempfile.mkdtemp(prefix='vt_tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), wd)
        for name, text in (files or {}).items():
            with open(os.path.join(wd, name), 'w') as f:
                f.write(text)
        consts = consts or {}
        mc = [f'---- MODULE MC ----', f'EXTENDS {module}']
        cfg = ['INIT ' + init, 'NEXT ' + next_, 'CHECK_DEADLOCK FALSE']
        for k, v in consts.items():
            mc.append(f'const_{k} == {_tla(v)}')
            cfg.append(f'CONSTANT {k} <- const_{k}')
        if defs:
            mc.append(defs)
            for k in re.findall(r'^d_(\w+) ==', defs, re.M):
                cfg.append(f'CONSTANT {k} <- d_{k}')
        mc.append('====')
        for i in invariants:
            cfg.append('INVARIANT ' + i)
        for i in properties:
            cfg.append('PROPERTY ' + i)
        if constraint:
            cfg.append('CONSTRAINT ' + constraint)
        if action_constraint:
            cfg.append('ACTION_CONSTRAINT ' + action_constraint)
        if postcondition:
            cfg.append('POSTCONDITION ' + postcondition)
        if view:
            cfg.append('VIEW ' + view)
        with open(os.path.join(wd, 'MC.tla'), 'w') as f:
            f.write('\n'.join(mc) + '\n')
        with open(os.path.join(wd, 'MC.cfg'), 'w') as f:
            f.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Djava.io.tmpdir=' + wd, '-cp', JARS, 'tlc2.TLC',
               '-config', 'MC.cfg', '-workers', str(workers), '-metadir', os.path.join(wd, 'meta'),
               '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', f'num={simulate}', '-depth', str(depth or 20), '-seed', str(seed)]
        elif coverage:
            cmd += ['-coverage', '60']
        cmd.append('MC.tla')
        res = TlcResult()
        try:
            pr = subprocess.run(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timed out on {module}')
        other = []
        for line in pr.stdout.split('\n'):
            if line.startswith('"@@'):
                res.emitted.append(json.loads(json.loads(line)[2:]))
            else:
                other.append(line)
        if str(workers) != '1':
            # several workers emit in an order that varies from run to run
            res.emitted.sort(key=canon)
        res.raw = '\n'.join(other)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', res.raw)
        if m:
            res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)', res.raw)
        if m:
            res.states = res.distinct = int(m[-1])
        for m in re.finditer(r'^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+(?:[^>]*)>: (\d+):(\d+)',
                             res.raw, re.M):
            res.actions[m.group(1)] = int(m.group(3))
        m = re.search(r'Error: Invariant (\w+) is violated', res.raw)
        if m:
            res.invariant = m.group(1)
        m2 = re.search(r'Error: Action property (\w+)|Temporal properties were violated', res.raw)
        if m2:
            res.invariant = m2.group(1) or 'temporal'
        if pr.returncode != 0 and not res.invariant:
            raise MachineryError(f'TLC failed on {module} (rc {pr.returncode}):\n' + brief(res.raw))
        if 'Error:' in res.raw and not res.invariant:
            raise MachineryError(f'TLC error on {module}:\n' + brief(res.raw))
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# ---------------------------------------------------------------- values

def rat(x, maxden=100000, rel=1e-9):
    """Float -> normalised rational [n, d] for TLC; [0, -1] when it is not one (a mismatch),
    [n, 0] never occurs. NaN/inf -> [1, 0]."""
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return [1, 0]
    f = fractions.Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > rel * max(1.0, abs(x)) or abs(f.numerator) >= 2**31:
        return [0, -1]
    return [f.numerator, f.denominator]


def close(a, b, rel=1e-9, abs_=1e-9):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def canon(o):
    """Canonical JSON text of an object (for comparison and counting)."""
    return json.dumps(o, sort_keys=True, separators=(',', ':'), default=str)


@contextlib.contextmanager
def quiet():
    """Silence prints and warnings of the code under test."""
    old = sys.stdout, sys.stderr
    dn = open(os.devnull, 'w')
    fw, filters = warnings.formatwarning, warnings.filters[:]
    sys.stdout = sys.stderr = dn
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old
        warnings.formatwarning = fw
        warnings.filters[:] = filters
        if hasattr(warnings, '_filters_mutated'):
            warnings._filters_mutated()
        dn.close()


# ---------------------------------------------------------------- check object

_WORK = None


def _chunk_run(args):
    fn, chunk = args
    out = []
    with quiet():
        for c in chunk:
            try:
                out.append(fn(c))
            except MachineryError:
                raise
            except Exception as e:  # an unexpected crash of the code under test is an observation
                out.append({'crash': f'{type(e).__name__}: {e}'[:300],
                            'tb': traceback.format_exc()[-1500:]})
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.violations = []
        self.n_viol = 0
        self.known_hits = {}
        self.states = self.transitions = self.traces = self.replayed = 0
        self.samples = []
        self.notes = {}
        self.actions = {}
        self.assumptions = []
        self.exhaustive = True
        self.known = self._load_known()

    # known findings ---------------------------------------------------
    def _load_known(self):
        out = []
        path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r'finding: property=(\S+) match=(\S+) :: (.*)', line.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    # spec -------------------------------------------------------------
    def tlc(self, module, consts=None, **kw):
        kw.setdefault('seed', self.seed)
        t = time.time()
        res = run_tlc(module, consts, **kw)
        self.states += res.distinct
        self.transitions += res.states
        if kw.get('simulate'):
            self.exhaustive = False
        for a, n in res.actions.items():
            self.actions[f'{module}.{a}'] = self.actions.get(f'{module}.{a}', 0) + n
        if res.invariant:
            # a specification that violates its own property is an error of the machinery
            raise MachineryError(f'{module}: property {res.invariant} does not hold on the specification:\n'
                                 + res.raw[-5000:])
        self.notes.setdefault('tlc_runs', []).append(
            dict(module=module, distinct=res.distinct, generated=res.states, emitted=len(res.emitted),
                 simulate=kw.get('simulate'), wall_s=round(time.time() - t, 1)))
        return res

    def validate(self, module, traces, consts=None, init='TInit', next_='TNext', trace_file='traces.ndjson',
                 chunk=None, workers=1, **kw):
        """Let TLC evaluate the recorded traces; returns the emitted disagreements."""
        bad = []
        if not traces:
            return bad
        chunk = chunk or len(traces)
        for i in range(0, len(traces), chunk):
            part = traces[i:i + chunk]
            text = '\n'.join(json.dumps(t) for t in part) + '\n'
            res = self.tlc(module, consts, init=init, next_=next_, files={trace_file: text}, workers=workers, **kw)
            done = [e for e in res.emitted if e.get('done')]
            if len(done) != 1 or done[0]['done'] != len(part):
                raise MachineryError(f'{module}: trace validation consumed {done} of {len(part)}\n' + res.raw[-3000:])
            for e in res.emitted:
                if 'bad' in e:
                    e['trace'] = part[e['tid'] - 1]
                    bad.append(e)
        self.traces += len(traces)
        return bad

    # running the real code ---------------------------------------------
    def pmap(self, fn, cases, procs=None, chunksize=None):
        cases = list(cases)
        if not cases:
            return []
        procs = procs or min(8, os.cpu_count() or 1)
        if len(cases) < 32 and chunksize is None:
            return _chunk_run((fn, cases))
        chunksize = chunksize or max(1, min(400, len(cases) // (procs * 4) + 1))
        chunks = [cases[i:i + chunksize] for i in range(0, len(cases), chunksize)]
        ctx = multiprocessing.get_context('fork')
        with concurrent.futures.ProcessPoolExecutor(procs, mp_context=ctx) as pool:
            try:
                outs = list(pool.map(_chunk_run, [(fn, c) for c in chunks]))
            except concurrent.futures.process.BrokenProcessPool as e:
                raise MachineryError('a worker process died') from e
        return [o for part in outs for o in part]

    # verdicts -----------------------------------------------------------
    def count(self, n=1):
        self.replayed += n

    def tally(self, keys, name):
        """Count what was exercised; recorded in the evidence."""
        d = {}
        for k in keys:
            d[k] = d.get(k, 0) + 1
        self.notes[name] = {k if isinstance(k, str) else '/'.join(map(str, k)): v for k, v in sorted(d.items(), key=str)}
        return d

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, clause, signature, case, expected=None, observed=None):
        """signature: a stable text naming the failing input class, matched against known findings."""
        sig = re.sub(r'\s+', '', f'{clause}|{signature}')
        for pat, text in self.known:
            if re.fullmatch(pat, sig):
                self.known_hits.setdefault((pat, text), []).append(sig)
                return
        self.n_viol += 1
        if len(self.violations) < 25:
            self.violations.append(dict(clause=clause, signature=sig, case=case, expected=expected, observed=observed))

    def require(self, cond, what):
        if not cond and not self.n_viol:
            raise MachineryError('self-check failed: ' + what)

    def finish(self, level='model_checking', extra=None):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.replayed + self.traces,
                   spec_cases_replayed_in_code=self.replayed, code_traces_validated_by_tlc=self.traces,
                   samples=self.samples or ['none'], action_coverage=self.actions, **self.notes)
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=self.n_viol,
                  known_findings=[t for _, t in self.known_hits])
        evdir = os.path.join(ROOT, 'evidence')
        os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for (pat, text), hits in self.known_hits.items():
            print(f'KNOWN-FINDING: property={self.prop} {text} [{len(hits)} cases]')
        if self.violations:
            path = os.path.join(evdir, 'replay', self.prop + '.json')
            with open(path, 'w') as f:
                json.dump(self.violations, f, indent=1, default=str)
            clauses = sorted({v['clause'] for v in self.violations})
            print(f'{self.n_viol} violations; clauses: {clauses}')
            print(json.dumps(self.violations[0], default=str)[:1500])
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        print(f'OK property={self.prop} tier={self.tier} states={self.states} replayed={self.replayed} '
              f'traces={self.traces} wall={time.time() - self.t0:.1f}s')
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(ROOT, 'checks'))
    scratch = tempfile.mkdtemp(prefix='vt_run_')
    os.chdir(scratch)
    import random
    import numpy as np
    random.seed(a.seed)
    np.random.seed(a.seed)
    ck = Check(a.prop, a.tier, a.seed)
    rc = 2
    try:
        import aviary
        if os.path.dirname(os.path.dirname(os.path.abspath(aviary.__file__))) != os.path.abspath(REPO):
            raise MachineryError(f'aviary imported from {aviary.__file__}, not {REPO}')
        mod = importlib.import_module(a.prop.lower())
        rc = mod.run(ck)
        if rc is None:
            rc = ck.finish()
    except MachineryError as e:
        print('ERROR (machinery):', e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
