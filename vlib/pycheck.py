"""Checks of the Python side: symbolic paths of the harnesses in py_harness.py."""

import argparse
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
PYTHON = '/opt/venv/bin/python'
NCPU = os.cpu_count() or 8
HARNESS = os.path.join(HERE, 'py_harness.py')
BUDGET = int(os.environ.get('VF_BUDGET', 200))

from . import pysym                                                     # noqa: E402
from .csym import load_known, write_result                              # noqa: E402

PATH_TIME = 60          # CPU seconds; paths take a few at most
ENDLESS = 'it terminates'
STATS = ('queries', 'solver_s', 'max_query_s', 'sat', 'unsat', 'unknown', 'forks', 'asserts')


def new_stats():
    return {k: 0 for k in STATS}


# ------------------------------------------------------- symbolic environment
class VFile:
    def __init__(self, ctx, name, mode, text=''):
        self.ctx, self.name, self.mode, self.text, self.parts = ctx, name, mode, text, []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def read(self):
        return self.text

    def write(self, s):
        self.parts.append(s)

    def close(self):
        if 'w' in self.mode:
            self.ctx.outputs[pysym.key(self.ctx.outputs, self.name)] = pysym.fstr(self.parts)

    def __iter__(self):
        return iter(pysym.VStr(pysym.chars(self.text)).splitlines(True))


class Env:
    """Loaded once per process; the files are re-read from /repo on every run."""

    def __init__(self):
        pp = pysym.load_source('vf_posixpath', os.path.join(os.path.dirname(os.__file__), 'posixpath.py'))
        gp = pysym.load_source('vf_genericpath', os.path.join(os.path.dirname(os.__file__), 'genericpath.py'))
        sys.meta_path.insert(0, pysym.Loader({'pbtools': REPO, 'textparser': SITE}))
        self.paths = (pp, gp)
        import pbtools.parser
        import pbtools.c_source
        self.parser, self.c_source = pbtools.parser, pbtools.c_source
        import pbtools.subparsers.generate_c_source as sub
        self.cli = argparse.ArgumentParser()
        sub.add_subparser(self.cli.add_subparsers(dest='subcommand'))
        self.harness = pysym.load_source('vf_py_harness', HARNESS)

    def stubs(self, ctx):
        import genericpath
        import posixpath
        pp, gp = self.paths
        cwd = '/w'

        def norm(p):
            p = pysym.unwrap(p)
            if not isinstance(p, pysym.VStr):
                return posixpath.normpath(posixpath.join(cwd, p))
            parts = []
            for q in ([] if pysym.truth(p.startswith('/')) else cwd.split('/')) + p.split('/'):
                if not len(q) or pysym.truth(pysym.veq(q, '.')):
                    continue
                if pysym.truth(pysym.veq(q, '..')):
                    del parts[-1:]
                    continue
                parts.append(q)
            return pysym.fstr([x for q in parts for x in ('/', q)] or ['/'])

        def find(n):
            for x, t in ctx.vfs.items():
                if pysym.truth(pysym.veq(x, n)):
                    return t
            return None

        def vopen(name, mode='r', *a, **k):
            n = norm(name)
            if 'w' in mode:
                return VFile(ctx, n, mode)
            t = find(n)
            if t is None:
                raise FileNotFoundError(2, 'No such file or directory', n)
            if k.get('newline') is None and not isinstance(t, str):      # universal newlines
                t = pysym.VPattern('\r\n?').sub('\n', t)
            return VFile(ctx, n, mode, t)

        def isdir(p):
            n = norm(p)
            for x in ctx.vfs:
                y = pysym.mk(pysym.chars(x)[:len(n) + 1])
                if pysym.truth(pysym.veq(y, n + '/')):
                    return True
            return False

        def isfile(p):
            return find(norm(p)) is not None

        def exists(p):
            return isfile(p) or isdir(p)
        out = {open: vopen, os.makedirs: lambda *a, **k: None, os.mkdir: lambda *a, **k: None,
               os.path.exists: exists, os.path.isfile: isfile,
               os.path.isdir: isdir,
               os.path.abspath: norm, os.path.realpath: norm, os.getcwd: lambda: cwd, os.fspath: lambda p: p,
               genericpath._splitext: gp._splitext}
        for n in ('join', 'split', 'splitext', 'basename', 'dirname', 'isabs', 'normpath'):
            if n != 'normpath':
                out[getattr(posixpath, n)] = getattr(pp, n)
        return out

    def generate(self, ctx, files, main, import_path=(), options=None):
        """Runs the generator on the given files: (ok, outputs or the exception)."""
        ctx.vfs = {'/w/' + n: t for n, t in files.items()}
        ctx.outputs = {}
        mains = [main] if isinstance(main, (str, pysym.VStr)) else list(main)
        argv = ['generate_c_source', '-o', 'out'] + ['--enums-upper-case'] * bool((options or {}).get('enums_upper_case'))
        for p in import_path:
            argv += ['-I', p]
        args = self.cli.parse_args(argv + ['vf-file-%d' % i for i in range(len(mains))])
        args.infiles = [mains[int(x[8:])] for x in args.infiles]
        try:
            args.func(args)
        except Exception as e:
            if isinstance(e, (AttributeError, NotImplementedError)) and 'VStr' in str(e):
                raise pysym.Unsupported('%s' % e)
            return False, e
        return True, {n[len('/w/out/'):]: t for n, t in ctx.outputs.items()}


    def parse(self, ctx, files, main, import_path=()):
        """Calls parse_file(): (ok, its result or the exception)."""
        ctx.vfs = {'/w/' + n: t for n, t in files.items()}
        try:
            return True, self.parser.parse_file(main, list(import_path))
        except Exception as e:
            if isinstance(e, (AttributeError, NotImplementedError)) and 'VStr' in str(e):
                raise pysym.Unsupported('%s' % e)
            return False, e


def run_path(env, fn, prefix, stats, deadline):
    ctx = pysym.Context(prefix, stats, deadline)
    ctx.stubs = env.stubs(ctx)
    ctx.env = env
    ctx.generate = lambda *a, **k: env.generate(ctx, *a, **k)
    ctx.parse = lambda *a, **k: env.parse(ctx, *a, **k)
    ctx.parser_call = lambda f, *a: getattr(env.parser, f)(*a)
    pysym.CTX = ctx
    kind = 'done'
    err = None
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, PATH_TIME)
        try:
            fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except pysym.Abort:
        kind = 'assumed'
    except pysym.Stop:
        kind = 'violation'
    except pysym.Limit:
        kind = 'limit'
    except pysym.Endless:
        kind = 'endless'
        try:
            ctx.violations.append({'msg': ENDLESS, 'inputs': ctx.model()})
        except pysym.Abort:
            kind = 'assumed'
    except pysym.Unsupported as e:
        kind, err = 'error', 'not encodable: %s' % e
    except RecursionError:
        kind, err = 'error', 'recursion'
    except Exception:
        kind, err = 'error', traceback.format_exc()[-1500:]
    sample = None
    if kind == 'done':
        try:
            vals = ctx.model()
            sample = {'inputs': vals, 'obs': [subst(ctx, x, vals) for x in ctx.observed]}
        except pysym.Abort:
            kind = 'assumed'
    pysym.CTX = None
    return ctx, kind, err, sample


def subst(ctx, x, vals):
    """An observed value under a model."""
    if isinstance(x, pysym.VStr):
        return ''.join(c if isinstance(c, str) else c.out(vals[c.var]) for c in x.c)
    if isinstance(x, pysym.SymInt):
        import z3
        return z3.simplify(z3.substitute(x.e, *[(v, z3.BitVecVal(n, 16)) for v, n in zip(ctx.vars, vals)])).as_signed_long()
    if isinstance(x, pysym.Cond):
        import z3
        return z3.is_true(z3.simplify(z3.substitute(x.expr(), *[(v, z3.BitVecVal(n, 16)) for v, n in zip(ctx.vars, vals)])))
    if isinstance(x, (list, tuple)):
        return [subst(ctx, y, vals) for y in x]
    return x


def worker(env, fname, args, q, pending, out, deadline, maxviol, listed=()):
    fn0 = getattr(env.harness, fname)
    fn = lambda ctx: fn0(ctx, *args)
    st = new_stats()
    res = {'paths': 0, 'assumed': 0, 'limit': 0, 'violations': [], 'errors': [], 'reach': {}, 'samples': [], 'stats': st,
           'fallback': {}, 'branches': 0, 'unknown': 0}
    k = 0

    def endless(*_):
        raise pysym.Endless()
    signal.signal(signal.SIGVTALRM, endless)
    while True:
        try:
            prefix = q.get(timeout=0.05)
        except Exception:
            if pending.value == 0 or time.time() > deadline + 2:
                break
            continue
        stack = [prefix]
        while stack:
            if time.time() > deadline:
                res['limit'] += len(stack)
                stack = []
                break
            p = stack.pop()
            ctx, kind, err, sample = run_path(env, fn, p, st, deadline)
            stack += ctx.alts
            res['branches'] += ctx.branches
            res['unknown'] += ctx.unknown
            for n, c in ctx.fallback.items():
                res['fallback'][n] = res['fallback'].get(n, 0) + c
            if kind in ('done', 'violation'):
                res['paths'] += 1
                for r in ctx.reached:
                    res['reach'][r] = res['reach'].get(r, 0) + 1
            elif kind == 'assumed':
                res['assumed'] += 1
            elif kind in ('limit', 'endless'):
                res['limit'] += 1
            else:
                if len(res['errors']) < 3:
                    res['errors'].append(err)
            for v in ctx.violations:
                if len(res['violations']) < 4 or v['msg'] not in [x['msg'] for x in res['violations']]:
                    res['violations'].append(v)
            if sample:
                k += 1
                if len(res['samples']) < 6:
                    res['samples'].append(sample)
                elif k % 17 == 0:
                    res['samples'][k // 17 % 6] = sample
            if len(stack) > 1 and q.empty():
                with pending.get_lock():
                    pending.value += 1
                q.put(stack.pop(0))
            if kind == 'endless' or sum(v['msg'] not in listed for v in res['violations']) >= maxviol:
                res['limit'] += len(stack)
                stack = []
        with pending.get_lock():
            pending.value -= 1
    out.put(res)


class PyJob:
    def __init__(self, name, fn, args=(), what='', bounds='', reach=(), time=9999):
        self.name, self.fn, self.args, self.what, self.bounds, self.reach, self.time = name, fn, args, what, bounds, reach, time


class PyCheck:
    def __init__(self, prop, jobs, assumptions=()):
        only = os.environ.get('VF_ONLY')            # development only
        self.prop, self.jobs = prop, [j for j in jobs if not only or re.search(only, j.name)]
        ap = argparse.ArgumentParser()
        ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
        self.tier = ap.parse_args(sys.argv[2:]).tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.assumptions = list(assumptions)
        self.violations, self.problems, self.known_hits, self.incomplete, self.notes, self.results = [], [], [], [], [], []
        self.known = load_known(prop)
        self.replays = os.path.join(VERIF, 'build', 'replays', prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop.lower())
        self.budget = BUDGET if self.tier == 'quick' else 4 * 3600

    def run_job(self, env, j):
        t = time.time()
        left = max(10, min(j.time, int(os.environ.get('VF_JOBTIME', 9999)), self.budget - (t - self.t0)))
        deadline = t + left
        q, out, pending = mp.Queue(), mp.Queue(), mp.Value('i', 1)
        q.put([])
        listed = [k['message'] for k in self.known if k.get('job') == j.name]
        ps = [mp.Process(target=worker, args=(env, j.fn, j.args, q, pending, out, deadline, 3, listed), daemon=True) for _ in range(NCPU)]
        for p in ps:
            p.start()
        tot = {'paths': 0, 'assumed': 0, 'limit': 0, 'branches': 0, 'unknown': 0}
        st, reach, viol, errors, samples, fall = new_stats(), {}, [], [], [], {}
        lost = 0
        for _ in ps:
            try:
                r = out.get(timeout=max(1, deadline + PATH_TIME + 30 - time.time()))
            except Exception:
                lost += 1
                continue
            for k in tot:
                tot[k] += r[k]
            for k in STATS:
                st[k] = max(st[k], r['stats'][k]) if k == 'max_query_s' else st[k] + r['stats'][k]
            for k, v in r['reach'].items():
                reach[k] = reach.get(k, 0) + v
            for k, v in r['fallback'].items():
                fall[k] = fall.get(k, 0) + v
            viol += r['violations']
            errors += r['errors']
            samples += r['samples']
        for p in ps:
            p.join(1)
            if p.is_alive():
                p.kill()
        q.cancel_join_thread()
        complete = not tot['limit'] and not lost and not tot['unknown']
        res = {'name': j.name, 'what': j.what, 'bounds': j.bounds, 'reach': reach, 'complete': complete,
               'wall_s': round(time.time() - t, 2), 'concretised_calls': fall, **tot,
               **{k: round(v, 3) if isinstance(v, float) else v for k, v in st.items()}}
        if lost:
            self.problems.append('%s: %d worker(s) gave no result' % (j.name, lost))
        if errors:
            self.problems.append('%s: %s' % (j.name, errors[0]))
        seen = set()
        for v in viol:
            if v['msg'] in seen or len(seen) > 5:
                continue
            seen.add(v['msg'])
            self.replay(j, v)
        if not viol:
            if not complete and not errors:
                self.incomplete.append('%s: not explored completely within %d s' % (j.name, left))
            if complete:
                for m in j.reach:
                    if not reach.get(m):
                        self.problems.append('%s: vacuous, "%s" was never reached' % (j.name, m))
        self.validate(j, samples, res)
        return res

    def concrete(self, j, inputs):
        """The harness on the original modules, under the interpreter users run."""
        f = os.path.join(self.tmp, 'in.json')
        with open(f, 'w') as o:
            json.dump({'fn': j.fn, 'args': list(j.args), 'inputs': inputs}, o)
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', VF_CC='1')
        env.pop('PYTHONHASHSEED', None)
        try:
            return subprocess.run([PYTHON, os.path.join(HERE, 'py_native.py'), f], stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, timeout=120, env=env)
        except subprocess.TimeoutExpired:
            return subprocess.CompletedProcess([], 99, 'TIMEOUT')

    def replay(self, j, v, r=None):
        r = r or self.concrete(j, v['inputs'])
        sig = '%s | check | %s' % (j.name, v['msg'])
        m = re.search(r'^VF-FAIL (.*)$', r.stdout, re.M)
        if not m and r.returncode != 99 and v['msg'] == ENDLESS:
            self.incomplete.append('%s: a path took more than %d s' % (j.name, PATH_TIME))
            return
        if not m and r.returncode != 99:
            self.problems.append('%s: counterexample does not reproduce: %s %s\n%s' % (j.name, v['msg'], v['inputs'], r.stdout[-800:]))
            return
        detail = (m.group(1) if m else 'does not terminate')[:600]
        for k in self.known:
            if k.get('job') == j.name and k['message'] == v['msg'] and re.search(k['match'], detail, re.S):
                self.known_hits.append((k, detail))
                return
        os.makedirs(self.replays, exist_ok=True)
        rd = tempfile.mkdtemp(prefix=j.name + '-', dir=self.replays)
        with open(os.path.join(rd, 'inputs.json'), 'w') as f:
            json.dump({'fn': j.fn, 'args': list(j.args), 'inputs': v['inputs']}, f)
        with open(os.path.join(rd, 'output.txt'), 'w') as f:
            f.write('signature: %s\n%s\n\n%s' % (sig, detail, r.stdout))
        with open(os.path.join(rd, 'replay.sh'), 'w') as f:
            f.write('#!/bin/sh\n# %s\nPYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 %s %s "$(dirname "$0")/inputs.json"\n' % (
                sig, REPO, PYTHON, os.path.join(HERE, 'py_native.py')))
        self.violations.append((j.name, '%s -- %s' % (v['msg'], detail), rd))

    def validate(self, j, samples, res):
        k = 6 if self.tier == 'quick' else 24
        step = max(1, len(samples) // k)
        ok = 0
        res['samples'] = []
        for s in samples[self.seed % step::step][:k]:
            r = self.concrete(j, s['inputs'])
            m = re.search(r'^VF-OBS (.*)$', r.stdout, re.M)
            got = json.loads(m.group(1)) if m else None
            if got != json.loads(json.dumps(s['obs'])):
                m = re.search(r'^VF-FAIL (.*)$', r.stdout, re.M)
                if m:                   # the real code fails on the solver's input
                    self.replay(j, {'msg': m.group(1).split(' (')[0][:300], 'inputs': s['inputs']}, r)
                    return
                self.problems.append('%s: native run disagrees with the symbolic execution on %s: %s vs %s' % (
                    j.name, s['inputs'], str(s['obs'])[:300], (str(got) if m else r.stdout)[-600:]))
                return
            ok += 1
            if len(res['samples']) < 2:
                t = re.search(r'^VF-IN (.*)$', r.stdout, re.M)
                res['samples'].append({'inputs': (t.group(1) if t else str(s['inputs']))[:400], 'observed': str(s['obs'])[:200]})
        res['replayed_models'] = ok

    def main(self):
        try:
            try:
                env = Env()
            except Exception:
                # the code does not even load: what does the interpreter say?
                r = subprocess.run([PYTHON, '-c', 'import pbtools.parser, pbtools.c_source'], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1'))
                if r.returncode:
                    os.makedirs(self.replays, exist_ok=True)
                    with open(os.path.join(self.replays, 'output.txt'), 'w') as f:
                        f.write(r.stdout)
                    self.violations.append(('load', 'pbtools cannot be imported', self.replays))
                else:
                    self.problems.append('cannot load: ' + traceback.format_exc()[-1500:])
                return self.finish()
            for j in self.jobs:
                if self.violations and not os.environ.get('VF_KEEP_GOING'):
                    break
                self.results.append(self.run_job(env, j))
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return self.finish()

    def finish(self):
        tot = {k: sum(r.get(k, 0) for r in self.results) for k in STATS + ('paths', 'assumed', 'branches', 'replayed_models')}
        cov = {
            'states': tot['paths'] + tot['assumed'], 'transitions': tot['forks'],
            'traces_validated_against_impl': tot['replayed_models'],
            'samples': [s for r in self.results for s in r.get('samples', [])][:12] or [{'note': 'no complete path'}],
            'exhaustive': not self.problems and not self.violations and not self.incomplete,
            'not_completed': self.incomplete,
            'explanation': 'states: complete symbolic paths of the instrumented Python source (each stands for every input '
                           'satisfying its path condition); transitions: forks with both sides satisfiable; traces: path models '
                           'replayed on the unmodified code with equal observations',
            'functions_encoded': ['all functions of pbtools/parser.py, pbtools/c_source/__init__.py and textparser that the harness reaches'],
            'assertions_decided': tot['asserts'],
            'solver': {'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'],
                       'solver_s': round(tot['solver_s'], 2)},
            'jobs': [{k: v for k, v in r.items() if k not in ('samples',)} for r in self.results],
            'notes': self.notes,
        }
        return write_result(self, cov, 'model_checking')
