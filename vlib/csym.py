"""Driver of the C checks: generate code from /repo's generator, compile it
with /repo's library to LLVM bitcode, execute it symbolically (engine/vfse),
replay models natively, and write the evidence."""

import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
PYTHON = '/opt/venv/bin/python'
CFLAGS = ['-std=gnu11', '-w', '-I' + HARNESS]
UB = 'signed-integer-overflow,shift-exponent,integer-divide-by-zero'
# for the symbolic execution: undefined arithmetic becomes a branch to a trap
UBFLAGS = ['-fsanitize=' + UB, '-fsanitize-trap=' + UB]
NCPU = os.cpu_count() or 8


class Inconclusive(Exception):
    pass


def run(cmd, cwd=None, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace')


def engine():
    exe = os.path.join(BUILD, 'vfse')
    src = sorted(glob.glob(os.path.join(VERIF, 'engine', '*.*')))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = os.path.join(BUILD, 'vfse.stamp')
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        r = run(['sh', os.path.join(VERIF, 'engine', 'build.sh'), BUILD])
        if r.returncode:
            raise Inconclusive('engine build failed:\n' + r.stdout[-2000:])
        with open(stamp, 'w') as f:
            f.write(h)
    return exe


def generate(schema, d, lang='c', subst=None):
    """Run /repo's generator on a schema (and its imports) in directory d.
    Returns None or an error text."""
    def text(t):
        return t.replace(subst[0], subst[1]) if subst else t
    for s in list(schema.imports.values()) + [schema]:
        with open(os.path.join(d, s.file + '.proto'), 'w') as f:
            f.write(text(s.proto()))
    files = [s.file + '.proto' for s in schema.imports.values()] + [schema.file + '.proto']
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    r = run([PYTHON, '-m', 'pbtools', 'generate_%s_source' % lang] + files, cwd=d, env=env)
    if r.returncode:
        return 'the generator rejects a valid schema: ' + r.stdout[-400:]
    with open(os.path.join(d, schema.file + '_desc.h'), 'w') as f:
        f.write(text(schema.header()))
    return None


BUDGET = int(os.environ.get('VF_BUDGET', 240))   # seconds for a quick check; what is cut short is reported as not completed
KEEP_GOING = bool(os.environ.get('VF_KEEP_GOING'))


class Job:
    """One symbolic execution: `body` is C text defining vf_main()."""

    def __init__(self, name, body, schemas=(), defs=(), reach=(), time=300,
                 what='', bounds='', max_instr=2000000, opts=(), cflags=(),
                 optional_reach=(), weight=1, library=True, shared=False, fieldnum=0):
        self.name, self.body, self.schemas = name, body, list(schemas)
        self.defs, self.reach, self.time = list(defs), list(reach), time
        self.what, self.bounds, self.max_instr = what, bounds, max_instr
        self.opts, self.cflags, self.weight = list(opts), list(cflags), weight
        self.library, self.shared = library, shared
        self.fieldnum = fieldnum
        if fieldnum:
            self.opts += ['--sym-const', str(fieldnum)]


class Check:
    def __init__(self, prop, jobs, assumptions=(), notes=''):
        only = os.environ.get('VF_ONLY')            # development only
        self.prop, self.jobs = prop, [j for j in jobs if not only or re.search(only, j.name)]
        self.assumptions, self.notes = list(assumptions), notes
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.replays = os.path.join(BUILD, 'replay', prop)
        self.violations, self.problems, self.known_hits, self.incomplete = [], [], [], []
        self.budget = BUDGET if self.tier == 'quick' else 4 * 3600
        self.results = []
        self.known = load_known(prop)

    # -- building -----------------------------------------------------------
    def build_common(self):
        """Generated code and bitcode shared by the jobs, per configuration."""
        self.gen = {}
        schemas = {}
        for j in self.jobs:
            for s in j.schemas:
                schemas[s.file] = s
        for name, s in schemas.items():
            d = os.path.join(self.tmp, 'gen_' + name)
            os.mkdir(d)
            err = generate(s, d)
            if err:
                self.report_build(s, err)
                return False
            self.gen[name] = d
        self.units = {}
        tasks = set()
        for j in self.jobs:
            key = tuple(j.cflags)
            tasks.add((key, 'rt', None))
            for s in j.schemas:
                for x in list(s.imports.values()) + [s]:
                    tasks.add((key, s.file, x.file))
        ok = True
        with ThreadPoolExecutor(NCPU) as ex:
            for err, task in zip(ex.map(self._unit, sorted(tasks, key=str)), sorted(tasks, key=str)):
                if err:
                    ok = False
                    if task[1] == 'rt':
                        raise Inconclusive('library or runtime does not compile:\n' + err)
                    self.report_build(schemas[task[1]], 'generated C does not compile: ' + err[:600])
        return ok

    def inc(self, schema_file):
        return ['-I' + os.path.join(REPO, 'lib', 'include')] + \
            (['-I' + self.gen[schema_file]] if schema_file else [])

    def _unit(self, task):
        key, sname, file = task
        tag = hashlib.sha256(repr(key).encode()).hexdigest()[:8]
        base = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c',
                '-fno-builtin', '-fno-stack-protector'] + UBFLAGS + CFLAGS + list(key)
        outs = []
        if sname == 'rt':
            srcs = [os.path.join(REPO, 'lib/src/pbtools.c'), os.path.join(HARNESS, 'vf_libc.c')]
        else:
            srcs = [os.path.join(self.gen[sname], file + '.c')]
        for s in srcs:
            o = os.path.join(self.tmp, '%s_%s_%s.bc' % (tag, sname, os.path.basename(s)[:-2]))
            r = run(base + self.inc(None if sname == 'rt' else sname) + [s, '-o', o])
            if r.returncode:
                return r.stdout
            outs.append(o)
        self.units[task] = outs
        return None

    def bitcode(self, j):
        d = os.path.join(self.tmp, 'job_' + j.name)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, 'harness.c')
        with open(src, 'w') as f:
            f.write(''.join('#define %s\n' % x.replace('=', ' ', 1) for x in j.defs))
            f.write(''.join('#include "%s_desc.h"\n' % s.file for s in j.schemas) or '#include "vfapi.h"\n#include "pbtools.h"\n')
            f.write(j.body)
        o = os.path.join(d, 'harness.bc')
        inc = []
        for s in j.schemas:
            inc += self.inc(s.file)
        r = run(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', '-fno-builtin',
                 '-fno-stack-protector'] + UBFLAGS + CFLAGS + j.cflags + inc + self.inc(None) + [src, '-o', o])
        if r.returncode:
            return None, r.stdout
        key = tuple(j.cflags)
        bcs = [o] + self.units[(key, 'rt', None)]
        for s in j.schemas:
            for x in list(s.imports.values()) + [s]:
                bcs += self.units[(key, s.file, x.file)]
        linked, final = os.path.join(d, 'l.bc'), os.path.join(d, 'f.bc')
        r = run(['llvm-link-18'] + bcs + ['-o', linked])
        if r.returncode:
            raise Inconclusive('llvm-link: ' + r.stdout[-1000:])
        r = run(['opt-18', '-passes=mem2reg,simplifycfg', linked, '-o', final])
        if r.returncode:
            raise Inconclusive('opt: ' + r.stdout[-1000:])
        return final, None

    def native(self, j, kind, inputs=''):
        """Native replay binary of a job.  kind: asan, msan, tsan."""
        d = os.path.join(self.tmp, 'job_' + j.name)
        num = int.from_bytes(bytes.fromhex(inputs.split()[0][:8] if inputs.strip() else ''), 'little') if j.fieldnum else 0
        exe = os.path.join(d, 'native_%s%s' % (kind, num or ''))
        if os.path.exists(exe):
            return exe
        gen = self.gen
        if num:
            # the model's field number, through the generator
            gen = dict(gen)
            for s in j.schemas:
                gen[s.file] = os.path.join(d, 'gen_%s_%d' % (s.file, num))
                if not os.path.isdir(gen[s.file]):
                    os.mkdir(gen[s.file])
                    err = generate(s, gen[s.file], subst=(str(j.fieldnum), str(num)))
                    if err:
                        raise Inconclusive(err)
        srcs = [os.path.join(d, 'harness.c'), os.path.join(HARNESS, 'vf_native.c'),
                os.path.join(REPO, 'lib/src/pbtools.c')]
        inc = list(self.inc(None))
        for s in j.schemas:
            inc += ['-I' + gen[s.file]]
            srcs += [os.path.join(gen[s.file], x.file + '.c') for x in list(s.imports.values()) + [s]]
        san = {'asan': ['gcc', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all'],
               'msan': ['clang', '-fsanitize=memory', '-fno-sanitize-recover=all'],
               'tsan': ['gcc', '-fsanitize=thread', '-DVF_THREADS', '-pthread']}[kind]
        cf = [c for c in j.cflags if not c.startswith('--target')]
        r = run(san + ['-g', '-O1'] + CFLAGS + cf + inc + srcs + ['-o', exe])
        if r.returncode:
            raise Inconclusive('native build: ' + r.stdout[-1500:])
        return exe

    # -- running --------------------------------------------------------------
    def run_job(self, j, ncpu):
        res = {'name': j.name, 'what': j.what, 'bounds': j.bounds}
        try:
            bc, err = self.bitcode(j)
            if err:
                self.report_build(j.schemas[0] if j.schemas else None,
                                  'a program using the documented API does not compile: ' + err[:600])
                res['error'] = 'compile'
                return res
            d = os.path.dirname(bc)
            t = time.time()
            left = max(10, int(min(j.time, int(os.environ.get('VF_JOBTIME', 9999)), self.budget - (t - self.t0))))
            p = run([engine(), bc, '--out', os.path.join(d, 'o'), '--time', str(left), '--jobs', str(ncpu),
                     '--max-instr', str(j.max_instr)] + j.opts, timeout=left * 2 + 120)
            res['wall_s'] = round(time.time() - t, 2)
            if p.returncode:
                raise Inconclusive('vfse exit %d: %s' % (p.returncode, p.stdout[-500:]))
            tot, reach, errors, funcs, viol, samples = Counter(), Counter(), set(), set(), [], []
            complete, maxq = True, 0.0
            files = glob.glob(os.path.join(d, 'o.*.json'))
            for f in files:
                x = json.load(open(f))
                complete &= x['complete']
                errors |= set(x['errors'])
                funcs |= set(x.get('functions', []))
                for k in ('paths', 'assumed', 'aborted', 'instr', 'forks', 'asserts', 'memchecks', 'queries',
                          'sat', 'unsat', 'cached', 'solver_s'):
                    tot[k] += x.get(k, 0)
                maxq = max(maxq, x.get('max_query_s', 0))
                reach.update(x.get('reach', {}))
                viol += x.get('violations', [])
                samples += x.get('samples', [])
            res.update({k: (round(v, 3) if isinstance(v, float) else v) for k, v in tot.items()})
            res['max_query_s'], res['reach'], res['complete'] = maxq, dict(reach), complete and bool(files)
            res['functions'] = sorted(funcs)
            seen = set()
            for v in viol:
                k = (v['kind'], v['msg'], v['where'])
                if k in seen or len(seen) >= 6:
                    continue
                seen.add(k)
                self.replay(j, v)
            if errors:
                self.problems.append('%s: %s' % (j.name, '; '.join(sorted(errors))[:800]))
            if not viol:
                if not res['complete'] and not errors:
                    # held on what was explored; the evidence says that this is not everything
                    self.incomplete.append('%s: not explored completely within %d s' % (j.name, left))
                for m in j.reach:
                    if not reach.get(m) and res['complete']:
                        self.problems.append('%s: vacuous, "%s" was never reached' % (j.name, m))
            self.validate(j, samples, res)
        except Inconclusive as e:
            self.problems.append('%s: %s' % (j.name, e))
        except subprocess.TimeoutExpired as e:
            self.problems.append('%s: timeout %s' % (j.name, e))
        return res

    def validate(self, j, samples, res):
        """Models of explored paths, run natively: same observations?"""
        k = 12 if self.tier == 'quick' else 40
        if not samples:
            return
        step = max(1, len(samples) // k)
        picks = samples[self.seed % step::step][:k]
        if j.fieldnum:
            picks = picks[:3]
        ok = 0
        for i, s in enumerate(picks):
            exe = self.native(j, 'asan', s['inputs'])
            f = os.path.join(self.tmp, 'job_' + j.name, 'sample%d.hex' % i)
            with open(f, 'w') as o:
                o.write(s['inputs'])
            r = run([exe, f], timeout=60)
            obs = [l[4:] for l in r.stdout.splitlines() if l.startswith('OBS ')]
            if obs != s['obs'].split() or 'VF-DONE' not in r.stdout:
                line = [l for l in r.stdout.splitlines() if 'VF-ASSERT-FAIL' in l or 'AddressSanitizer' in l or 'runtime error:' in l]
                if line:                # the real code fails on the solver's input
                    v = {'kind': 'native', 'msg': line[0].strip()[:120], 'inputs': s['inputs']}
                    self.report(j, 'native run of a path model', v, r.stdout, line[0].strip()[:200])
                    return
                self.problems.append('%s: native run disagrees with the symbolic execution on %s: %s vs %s (%s)' % (
                    j.name, s['inputs'][:200], s['obs'][:200], ' '.join(obs)[:200], r.stdout[-300:]))
                return
            ok += 1
        res['replayed_models'] = ok
        res['samples'] = [{'inputs': s['inputs'][:400], 'observed': s['obs'][:200]} for s in picks[:2]]

    def replay(self, j, v):
        d = os.path.join(self.tmp, 'job_' + j.name)
        f = os.path.join(d, 'cex.hex')
        with open(f, 'w') as o:
            o.write(v['inputs'])
        kind = {'uninit': 'msan', 'shared': 'tsan'}.get(v['kind'], 'asan')
        detail = '%s: %s at %s' % (v['kind'], v['msg'], v['where'])
        try:
            exe = self.native(j, kind, v['inputs'])
            try:
                r = run([exe, f], timeout=60)
                out, code = r.stdout, r.returncode
                bad = code != 0 and code != 77
            except subprocess.TimeoutExpired:
                out, bad = 'native run does not terminate within 60 s', True
        except Inconclusive as e:
            self.problems.append('%s: %s' % (j.name, e))
            return
        if not bad:
            self.problems.append('%s: counterexample does not reproduce natively: %s\n  inputs %s' % (
                j.name, detail, v['inputs'][:300]))
            return
        line = [l for l in out.splitlines() if 'VF-ASSERT-FAIL' in l or 'ERROR' in l or 'runtime error' in l
                or 'WARNING' in l or 'terminate' in l]
        self.report(j, detail, v, out, line[0].strip()[:200] if line else out[-200:])

    def report(self, j, detail, v, out, line):
        sig = '%s | %s | %s' % (j.name, v['kind'], v['msg'])
        for k in self.known:
            if re.search(k['match'], sig):
                self.known_hits.append((k, line))
                return
        os.makedirs(self.replays, exist_ok=True)
        rd = tempfile.mkdtemp(prefix=j.name + '-', dir=self.replays)
        src = os.path.join(self.tmp, 'job_' + j.name, 'harness.c')
        shutil.copy(src, rd)
        for s in j.schemas:
            for x in os.listdir(self.gen[s.file]):
                shutil.copy(os.path.join(self.gen[s.file], x), rd)
        with open(os.path.join(rd, 'inputs.hex'), 'w') as f:
            f.write(v['inputs'] + '\n')
        with open(os.path.join(rd, 'output.txt'), 'w') as f:
            f.write('signature: %s\n%s\nstack: %s\n\n%s' % (sig, detail, v.get('stack', ''), out[-6000:]))
        with open(os.path.join(rd, 'replay.sh'), 'w') as f:
            f.write('#!/bin/sh\n# %s\ncd "$(dirname "$0")"\ngcc -g -O1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=all '
                    '%s %s -I. -I%s/lib/include $(ls *.c) %s/vf_native.c %s/lib/src/pbtools.c -o /tmp/vf-replay-$$ && '
                    '/tmp/vf-replay-$$ inputs.hex; r=$?; rm -f /tmp/vf-replay-$$; exit $r\n' % (
                        sig, ' '.join(CFLAGS), ' '.join(c for c in j.cflags if not c.startswith('--target')),
                        REPO, HARNESS, REPO))
        self.violations.append((j.name, detail + ' -- ' + line, rd))

    def report_build(self, schema, err):
        os.makedirs(self.replays, exist_ok=True)
        rd = tempfile.mkdtemp(prefix='build-', dir=self.replays)
        if schema:
            for s in list(schema.imports.values()) + [schema]:
                with open(os.path.join(rd, s.file + '.proto'), 'w') as f:
                    f.write(s.proto())
        with open(os.path.join(rd, 'output.txt'), 'w') as f:
            f.write(err)
        self.violations.append(('build', err.splitlines()[0][:300] if err else 'build', rd))

    def main(self):
        try:
            engine()
            if self.build_common():
                small = [j for j in self.jobs if j.weight <= 1]
                big = [j for j in self.jobs if j.weight > 1]
                with ThreadPoolExecutor(4) as ex:
                    self.results += list(ex.map(lambda j: self.run_job(j, 3), small))
                for j in big:
                    if self.violations and not KEEP_GOING:
                        break
                    self.results.append(self.run_job(j, NCPU))
        except Inconclusive as e:
            self.problems.append(str(e))
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return self.finish()

    def finish(self):
        tot = Counter()
        funcs = set()
        for r in self.results:
            funcs |= set(r.get('functions', []))
            for k in ('paths', 'assumed', 'instr', 'forks', 'asserts', 'memchecks', 'queries', 'sat', 'unsat',
                      'cached', 'solver_s', 'replayed_models'):
                tot[k] += r.get(k, 0)
        spec = {f for f in funcs if f.startswith(('vf_', 's_', 'rd_', 'put_', 'chk_', 't_', 'mk_', 'en_', 'de_', 'al_',
                                                  'an_', 'in_', 'cmp_', 'is_', 'get_ptr', 'varint_size', 'item_size',
                                                  'unwire', 'wire_varint', 'zz'))}
        cov = {
            'states': tot['paths'] + tot['assumed'],
            'transitions': tot['forks'],
            'traces_validated_against_impl': tot['replayed_models'],
            'samples': [s for r in self.results for s in r.get('samples', [])][:12] or [{'note': 'no complete path'}],
            'exhaustive': not self.problems and not self.violations and not self.incomplete,
            'not_completed': self.incomplete,
            'explanation': 'states: complete symbolic paths (each stands for every input satisfying its path '
                           'condition); transitions: solver-decided forks; traces: path models replayed natively '
                           'against gcc-compiled code with equal observations',
            'functions_encoded': sorted(funcs - spec),
            'instructions_executed_symbolically': tot['instr'],
            'assertions_decided': tot['asserts'],
            'memory_accesses_checked': tot['memchecks'],
            'solver': {'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'],
                       'answered_from_cache': tot['cached'], 'solver_s': round(tot['solver_s'], 2)},
            'jobs': [{k: r[k] for k in ('name', 'what', 'bounds', 'paths', 'assumed', 'queries', 'solver_s',
                                        'max_query_s', 'wall_s', 'complete', 'reach', 'replayed_models') if k in r}
                     for r in self.results],
            'notes': self.notes,
        }
        return write_result(self, cov, 'model_checking')


def load_known(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(f):
        for k in json.load(open(f)).get('findings', []):
            if k['property'] == prop:
                out.append(k)
    return out


def write_result(c, cov, level):
    if c.problems:
        cov['inconclusive'] = c.problems
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': c.prop, 'tier': c.tier, 'seed': c.seed, 'level': level, 'coverage': cov,
          'assumptions': c.assumptions, 'wall_s': round(time.time() - c.t0, 2), 'violations': len(c.violations)}
    with open(os.path.join(VERIF, 'evidence', c.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for k, line in c.known_hits:
        if k['what'] not in seen:
            seen.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (c.prop, k['what']))
    for name, detail, rd in c.violations:
        print('%s: %s' % (name, detail))
        print('VIOLATION property=%s replay=%s' % (c.prop, rd))
    for p in c.problems:
        print('INCONCLUSIVE: ' + p)
    print('%s: %s in %.1f s' % (c.prop, 'violated' if c.violations else 'inconclusive' if c.problems else 'held',
                                time.time() - c.t0))
    sys.stdout.flush()
    if c.violations:
        return 1
    done = [r for r in c.results if r.get('paths') or r.get('states')]
    return 2 if c.problems and not done else 0       # what could not be decided is printed and in the evidence
