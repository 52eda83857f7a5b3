"""Runs one harness of py_harness.py concretely, on the unmodified modules."""

import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


class Abort(BaseException):
    pass


class Fail(BaseException):
    pass


class Native:
    concrete = True
    set_order = False

    def __init__(self, inputs):
        self.inputs, self.at, self.observed, self.log = inputs, 0, [], []

    def _next(self):
        v = self.inputs[self.at]
        self.at += 1
        return v

    def choose(self, n, name='choice'):
        if n <= 1:
            return 0
        v = self._next()
        self.log.append('%s=%d' % (name, v))
        return v

    def text(self, n, chars_=None, name='text'):
        s = ''.join(chr(self._next()) for _ in range(n))
        self.log.append('%s=%r' % (name, s))
        return s

    def isin(self, c, chars_):
        return c in chars_

    def assume(self, c):
        if not c:
            raise Abort()

    def check(self, c, msg):
        if not c:
            print('VF-IN ' + ' '.join(self.log).replace('\n', '\\n'))
            print('VF-FAIL %s (%s)' % (msg, ' '.join(self.log).replace('\n', '\\n')))
            raise Fail()

    def reach(self, label):
        pass

    def obs(self, x):
        self.observed.append(x)

    def parser_call(self, f, *a):
        import pbtools.parser
        return getattr(pbtools.parser, f)(*a)

    def parse(self, files, main, import_path=()):
        import pbtools
        d, old = tempfile.mkdtemp(prefix='vf-native-'), os.getcwd()
        try:
            for n, t in files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w', encoding='utf-8', newline='') as f:
                    f.write(t)
            os.chdir(d)
            try:
                return True, pbtools.parse_file(main, list(import_path))
            except Exception as e:
                return False, e
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)

    def generate(self, files, main, import_path=(), options=None):
        d = tempfile.mkdtemp(prefix='vf-native-')
        try:
            for n, t in files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w', encoding='utf-8', newline='') as f:
                    f.write(t)
            cmd = [sys.executable, '-m', 'pbtools', 'generate_c_source', '-o', 'out']
            if (options or {}).get('enums_upper_case'):
                cmd.append('--enums-upper-case')
            for p in import_path:
                cmd += ['-I', p]
            try:
                r = subprocess.run(cmd + ([main] if isinstance(main, str) else list(main)), cwd=d, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=60)
            except subprocess.TimeoutExpired:
                self.check(False, 'it terminates')
            if r.returncode:
                return False, Exception(r.stdout.strip())
            out = {}
            for n in sorted(os.listdir(os.path.join(d, 'out'))):
                with open(os.path.join(d, 'out', n), encoding='utf-8') as f:
                    out[n] = f.read()
            return True, out
        finally:
            shutil.rmtree(d, ignore_errors=True)


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    spec = importlib.util.spec_from_file_location('py_harness', os.path.join(HERE, 'py_harness.py'))
    m = importlib.util.module_from_spec(spec)
    sys.modules['py_harness'] = m
    spec.loader.exec_module(m)
    vf = Native(job['inputs'])
    try:
        getattr(m, job['fn'])(vf, *job['args'])
    except Abort:
        print('VF-ASSUME')
        return 77
    except Fail:
        return 1
    print('VF-IN ' + ' '.join(vf.log).replace('\n', '\\n'))
    print('VF-OBS ' + json.dumps(vf.observed))
    return 0


sys.exit(main())
