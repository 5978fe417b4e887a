"""Bounded side: compile a small driver against /repo's current sources in a scratch directory and run it."""
import subprocess, tempfile, os, shutil, atexit, re, signal
from .cxxlib import REPO

_dirs = []


def _clean():
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_clean)


class CompileError(Exception):
    pass


class Driver:
    def __init__(self, src_text, sources=(), flags=(), sanitize=True, opt='-O1', libs=()):
        self.dir = tempfile.mkdtemp(prefix='vdrv')
        _dirs.append(self.dir)
        src = os.path.join(self.dir, 'd.cc')
        open(src, 'w').write(src_text.replace('@S@', REPO + '/source'))
        self.exe = os.path.join(self.dir, 'd')
        cmd = ['g++', '-std=c++17', opt, '-w'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if sanitize else []) + \
            list(flags) + [src] + [s.replace('@S@', REPO + '/source') for s in sources] + ['-o', self.exe] + list(libs)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CompileError(r.stderr[-2500:])

    def run(self, text, timeout=120):
        """returns (lines, error or None)"""
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            r = subprocess.run([self.exe], input=text, capture_output=True, text=True, timeout=timeout, env=env, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return [], 'timeout'
        err = None
        self.last = ''.join([l for l in r.stderr.split('\n') if ' step ' in l][-1:])
        if r.returncode != 0:
            m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*)', r.stderr)
            err = 'exit %d %s' % (r.returncode, m.group(1) if m else r.stderr[-400:])
        return r.stdout.split('\n')[:-1], err


def literals(paths):
    """numeric literals in the source files: an input dictionary for the bounded checks"""
    out = set()
    for p in paths:
        try:
            t = open(p, errors='replace').read()
        except OSError:
            continue
        for m in re.findall(r'(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)(?![\w.])', t):
            try:
                v = float(m)
            except ValueError:
                continue
            if abs(v) < 1e6:
                out.add(v)
    return sorted(out)
