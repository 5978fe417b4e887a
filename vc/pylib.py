"""Helpers shared by the Python properties: symbolic inputs, unit construction, running the real code in-process."""
import os, sys, z3, signal, random, contextlib
from .core import *
from .core import Obligation
from .pyv import *
from .py import Interp, Mod, Fn, Cls, Ext, Raised, Prim, text
from .report import Unit
from . import pynp

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True

ASSUMPTIONS = ['floating point arithmetic treated as real arithmetic (no rounding, overflow or NaN)',
               'numpy, list and dict operations behave as the models in vc/pynp.py state',
               'arrays passed in are not aliased unless the contract says so']
TRUSTED = ['CPython ast front end', 'z3 / cvc5 / vc.cas', 'vc.py symbolic semantics of the Python subset and its loop summaries',
           'vc.pynp models of numpy, list, dict and string operations']


def R(n):
    return z3.Real(n)


def N(n):
    return z3.Int(n)


def nat(it, n, lo=0):
    v = z3.Int(n)
    it.assume(v >= lo)
    return v


def farr(name, shape, dtype='f', pred=None):
    """input array given by an uninterpreted function of its indices"""
    f = z3.Function(name, *([IntS] * len(shape)), {'f': RealS, 'i': IntS, 'b': BoolS}[dtype])
    return SArr(shape, lambda idx: f(*idx), dtype), f


def rng(x, n):
    return z3.And(x >= 0, x < num(n))


def fresh_idx(it, shape, names='ijkl'):
    """index variables inside the shape (assumed)"""
    out = []
    for k, s in enumerate(shape):
        if isinstance(s, int):
            v = z3.Int('%s' % names[k])
        else:
            v = z3.Int(names[k])
        it.assume(rng(v, s))
        out.append(v)
    return out


def shape_is(it, name, a, shape):
    it.check(name + ': number of dimensions', len(a.shape) == len(shape))
    for k, (x, y) in enumerate(zip(a.shape, shape)):
        it.check('%s: extent %d' % (name, k), num(x) == num(y))


@contextlib.contextmanager
def given(it, *hyps):
    """local hypotheses of the obligations stated inside"""
    n = len(it.ctx.pc)
    it.ctx.solver.push()
    for h in hyps:
        it.ctx.assume(h)
    try:
        yield
    finally:
        del it.ctx.pc[n:]
        it.ctx.solver.pop()


def by_cases(it, name, goal, cases):
    """the goal in each case, and that the cases cover everything"""
    it.check(name + ': cases are exhaustive', z3.Or(*cases))
    for k, c in enumerate(cases):
        if it.entails(z3.Not(c)):
            continue
        with given(it, c):
            it.check('%s, case %d' % (name, k), goal)


def unit(name, rel, run, functions, contracts=None, externals=None, exact=True, abstract=False, **kw):
    """run(it, mod): executes the real functions of module rel (path under /repo) and states the postconditions"""
    def go(ctx):
        ctx.abstract = abstract
        it = Interp(ctx, dict(contracts or {}), dict(externals or {}))
        m = Mod.load(rel)
        try:
            run(it, m)
        except Raised as e:
            it.check('no exception (%s %s)' % (e.name, ' '.join(str(a)[:60] for a in e.xargs)), z3.BoolVal(False))
    return Unit(name, go, functions, exact=exact, **kw)


def lean_unit(name, fn, theorem):
    """lemma proved in Lean; the proof is rechecked on every run"""
    def run(ctx):
        import subprocess, resource
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', fn)
        txt = open(path).read()
        if 'sorry' in txt or 'axiom ' in txt or 'theorem ' + theorem not in txt:
            raise Unsupported('lemma file ' + fn)
        try:
            r = subprocess.run(['lean', path], capture_output=True, text=True, timeout=200,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2))
        except Exception as e:
            raise Unsupported('lean: %r' % e)
        if r.returncode != 0 or "'%s' depends on axioms" % theorem not in r.stdout or 'sorryAx' in r.stdout:
            raise Unsupported('lean: ' + (r.stdout + r.stderr)[:200])
        ctx.check('%s (proof checked by Lean)' % theorem, True, 'lemma')
    return Unit(name, run, [], lemma=True)


# ------------------------------------------------------------------ concrete side
class Hang(Exception):
    pass


@contextlib.contextmanager
def limit(sec):
    def h(*a):
        raise Hang('no result after %d s' % sec)
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    """swallow what the code prints"""
    import io
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def load(modname):
    """import the real module from the repository under test"""
    import importlib, warnings
    warnings.filterwarnings('ignore')
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    return importlib.import_module(modname)


def guard(b, what, inp, f, sec=20):
    """run one concrete case; any exception of the code under test is a failing input"""
    try:
        with limit(sec):
            return f()
    except Exception as e:
        import traceback
        b.bad('%s: %s: %s' % (what, type(e).__name__, str(e)[:200]), dict(inp, trace=traceback.format_exc()[-600:]))
        return None
