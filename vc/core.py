"""Shared verification-condition machinery.

A *unit* (one function under contract) is executed symbolically; every path condition, assumption and
obligation is a z3 term.  Forking is by re-execution: `Ctx.branch` consults a decision prefix, so the same
driver works for the C++ interpreter (vc/cxx.py) and for real Python code running on symbolic operands
(vc/py.py).  Floating point is treated as real arithmetic, machine integers as mathematical integers
(both are reported as assumptions).
"""
import time, itertools, sys, os
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The source left the subset the generator understands: undecided, never a violation."""


class PathEnd(Exception):
    """This path is finished (infeasible, or cut at a loop contract)."""


class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'status', 'backend', 'time', 'model', 'unit', 'kind')

    def __init__(self, name, hyps, goal, unit, kind='post'):
        self.name, self.hyps, self.goal, self.unit, self.kind = name, hyps, goal, unit, kind
        self.status, self.backend, self.time, self.model = None, None, 0.0, None


class Ctx:
    def __init__(self, unit, prefix=(), obls=None, feas_timeout=3000):
        self.unit = unit
        self.prefix = list(prefix)
        self.n = 0
        self.taken = []
        self.pc = []
        self.obls = obls if obls is not None else []
        self.alts = []
        self.cnt = itertools.count()
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_timeout)
        self.sqrt_memo = {}
        self.notes = set()
        self.labels = []
        self.tick = None
        self.abstract = False       # feasibility and entailment with products and square roots uninterpreted

    # -- names
    def fresh(self, sort, name='v'):
        k = next(self.cnt)
        nm = '%s!%d' % (name, k)
        if sort == 'int':
            return z3.Int(nm)
        if sort == 'real':
            return z3.Real(nm)
        if sort == 'bool':
            return z3.Bool(nm)
        return z3.Const(nm, sort)

    # -- path
    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        f = z3.simplify(f) if z3.is_expr(f) else f
        if z3.is_true(f):
            return
        self.pc.append(f)
        if not _has_quant(f):       # quantified facts reach the obligations, not the (over-approximating) feasibility test
            self.solver.add(self.view(f))
        if z3.is_false(f):
            raise PathEnd()

    def view(self, f):
        return _lin([f], {}, True)[0] if self.abstract else f

    def feasible(self, f=None):
        self.solver.push()
        if f is not None:
            self.solver.add(self.view(f))
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def entails(self, f):
        if f is True:
            return True
        if f is False:
            return False
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self.solver.push()
        self.solver.add(self.view(z3.Not(f)))
        r = self.solver.check()
        self.solver.pop()
        return r == z3.unsat

    def branch(self, cond, label=''):
        """Python bool for a symbolic condition; forks by re-execution."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if t and f:
                v = True
                self.alts.append(self.taken + [False])
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise PathEnd()
        self.taken.append(v)
        self.assume(cond if v else z3.Not(cond))
        return v

    def choose(self, label=''):
        """Non-deterministic choice (both explored)."""
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.alts.append(self.taken + [False])
        self.taken.append(v)
        return v

    # -- obligations
    def check(self, name, goal, kind='post'):
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        self.obls.append(Obligation(name, list(self.pc), goal, self.unit, kind))

    # -- arithmetic helpers
    def sqrt(self, x):
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            import math
            n, d = x.numerator_as_long(), x.denominator_as_long()
            if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return z3.RealVal(math.isqrt(n)) / math.isqrt(d)
        if self.abstract:
            x = z3.simplify(x, som=True, mul_to_power=False)
        s = SQRT(x)
        if s.get_id() not in self.sqrt_memo:
            self.sqrt_memo[s.get_id()] = s
            if self.abstract:
                return s
            self.solver.add(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
        return s


SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def sqrt_elim(forms):
    """replace every sqrt(x) by a constant s with s >= 0, s*s = x (when x >= 0)"""
    forms = list(forms)
    extra, done = [], []
    for _ in range(200):
        app = None
        seen = set()
        for f in forms + extra:
            for x in _walk(f, seen):
                if z3.is_app(x) and x.decl().eq(SQRT) and not _has_sqrt(x.arg(0)):
                    app = x
                    break
            if app is not None:
                break
        if app is None:
            break
        s = z3.Real('sqrt#%d' % len(done))
        forms = [z3.substitute(f, (app, s)) for f in forms]
        extra = [z3.substitute(f, (app, s)) for f in extra]
        x = app.arg(0)
        extra.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
        if len(done) < 6:
            for (y, t) in done:
                extra.append(z3.Implies(x == y, s == t))
        done.append((x, s))
    return forms, extra


def _has_sqrt(e):
    return any(z3.is_app(x) and x.decl().eq(SQRT) for x in _walk(e, set()))


def explore(unit, run, max_paths=4000, deadline=None, feas_timeout=3000):
    """Run `run(ctx)` on every path; return (obligations, number of paths)."""
    work = [[]]
    obls = []
    paths = 0
    while work:
        p = work.pop()
        ctx = Ctx(unit, p, obls, feas_timeout)
        try:
            run(ctx)
        except PathEnd:
            pass
        paths += 1
        work.extend(ctx.alts)
        if paths > max_paths:
            raise Unsupported('%s: more than %d paths' % (unit, max_paths))
        if deadline and time.time() > deadline:
            raise Unsupported('%s: symbolic execution ran out of time' % unit)
    return obls, paths


# ---------------------------------------------------------------- discharge
def _z3_check(hyps, goal, timeout, tactic=None, seed=0):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', timeout)
    fs, extra = sqrt_elim(list(hyps) + [z3.Not(goal)])
    for h in fs + extra:
        s.add(h)
    r = s.check()
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', s.model()
    return 'unknown', None


def _uf(kind, sort, n):
    return z3.Function('mono#%s%d%s' % (kind, n, sort), *([sort] * (n + 1)))


def _lin(forms, fresh=None, uf=False):
    """sum-of-monomials form with every nonlinear monomial replaced by a constant, or by an application of an
    uninterpreted function to its factors (sound weakenings)"""
    memo = {}
    fresh = {} if fresh is None else fresh

    def rec(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        if not z3.is_app(t):
            r = t
        elif t.num_args() == 0:
            r = t
        else:
            ch = [rec(c) for c in t.children()]
            r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
            if t.decl().kind() == z3.Z3_OP_MUL:
                cs = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
                vs = sorted((c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))), key=lambda c: c.get_id())
                if len(vs) > 1 and uf:
                    r = _uf('mul', t.sort(), len(vs))(*vs)
                    for c in cs:
                        r = c * r
                elif len(vs) > 1:
                    key = tuple(c.get_id() for c in vs)
                    if key not in fresh:
                        fresh[key] = (z3.Const('mono#%d' % len(fresh), t.sort()), vs)
                    r = fresh[key][0]
                    for c in cs:
                        r = c * r
            elif t.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not z3.is_rational_value(ch[1]):
                if uf:
                    r = _uf('div', t.sort(), 2)(*ch) if t.decl().kind() == z3.Z3_OP_DIV else r
                    memo[k] = (r, t)
                    return r
                key = (t.decl().kind(),) + tuple(c.get_id() for c in ch)
                if key not in fresh:
                    fresh[key] = (z3.Const('mono#%d' % len(fresh), t.sort()), ch)
                r = fresh[key][0]
        memo[k] = (r, t)
        return r
    return [rec(z3.simplify(f, som=True, mul_to_power=False)) for f in forms]


def conjuncts(g):
    if z3.is_and(g):
        for c in g.children():
            yield from conjuncts(c)
    else:
        yield g


def _ite_prove(hyps, goal, timeout):
    """decide every conditional inside the goal from the hypotheses (nonlinear ones dropped), then algebra"""
    from . import cas
    hs = list(hyps)
    while z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES or z3.is_or(goal):
        if z3.is_or(goal):
            eqs = [c for c in goal.children() if z3.is_eq(c) and z3.is_arith(c.arg(0))]
            if not eqs:
                return 'unknown', None
            main_ = max(eqs, key=lambda c: len(c.sexpr()))
            hs += [z3.Not(c) for c in goal.children() if not c.eq(main_)]
            goal = main_
        else:
            hs.append(goal.arg(0))
            goal = goal.arg(1)
    lin = [h for h in hs if not _nonlinear(h)]
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*sum(sqrt_elim(lin), []))
    known = {}
    for rnd in range(12):
        conds = []
        for x in _walk(goal, set()):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).get_id() not in known:
                conds.append(x.arg(0))
        if not conds:
            break
        subs = []
        for c in conds:
            known[c.get_id()] = c
            s.push(); s.add(z3.Not(c)); r = s.check(); s.pop()
            if r == z3.unsat:
                subs.append((c, z3.BoolVal(True)))
                continue
            s.push(); s.add(c); r = s.check(); s.pop()
            if r == z3.unsat:
                subs.append((c, z3.BoolVal(False)))
        if not subs:
            break
        goal = z3.simplify(z3.substitute(goal, *subs))
        if z3.is_true(goal):
            return 'proved', None
    st, m = _z3_check(hs, goal, timeout)
    if st == 'proved':
        return st, m
    return _split_prove(hs, goal, 4)


def _split_prove(hs, goal, depth):
    from . import cas
    st, m = cas.prove(hs, goal)
    if st == 'proved' or depth == 0:
        return st, m
    cond = None
    for x in _walk(goal, set()):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not any(z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE for y in _walk(x.arg(0), set())):
            cond = x.arg(0)
            break
    if cond is None:
        return st, m
    for lit, val in ((cond, True), (z3.Not(cond), False)):
        g = z3.simplify(z3.substitute(goal, (cond, z3.BoolVal(val))))
        if z3.is_true(g):
            continue
        st, m = _split_prove(hs + [lit], g, depth - 1)
        if st != 'proved':
            return 'unknown', None
    return 'proved', None


def discharge(ob, budget_ms=20000):
    from . import cas
    t0 = time.time()
    goal = z3.simplify(ob.goal)
    if z3.is_true(goal):
        ob.status, ob.backend = 'proved', 'z3-simplify'
        ob.time = time.time() - t0
        return ob
    nonlin = _nonlinear(goal) or any(_nonlinear(h) for h in ob.hyps)
    steps = []
    if nonlin:
        steps = [('uf', 2000), ('lin', 1000), ('z3', 1500), ('cas', 0), ('ite', 1500), ('z3', budget_ms), ('nra', budget_ms // 2), ('cvc5', budget_ms)]
    else:
        steps = [('z3', budget_ms), ('cvc5', budget_ms)]
    refuted = None
    for be, to in steps:
        try:
            if be == 'z3':
                st, m = _z3_check(ob.hyps, goal, to)
            elif be == 'uf':
                s = z3.Solver()
                s.set('timeout', to)
                s.add(*_lin([h for h in ob.hyps if not _has_quant(h)] + [z3.Not(goal), SQRT(z3.RealVal(0)) == 0], {}, True))
                st, m = ('proved', None) if s.check() == z3.unsat else ('unknown', None)
                if st != 'proved':
                    continue
            elif be == 'lin':
                if any(_has_quant(h) for h in ob.hyps):
                    continue
                fs, ex = sqrt_elim(list(ob.hyps) + [z3.Not(goal)])
                st, m = _z3_check(_lin(fs + ex), z3.BoolVal(False), to)
                if st != 'proved':
                    continue
            elif be == 'nra':
                st, m = _z3_check(ob.hyps, goal, to, 'qfnra-nlsat') if not _has_quant_or_uf(ob.hyps + [goal]) else ('unknown', None)
            elif be == 'ite':
                st, m = _ite_prove(ob.hyps, goal, to)
            elif be == 'cas':
                st, m = cas.prove(ob.hyps, goal)
            else:
                st, m = _cvc5(ob.hyps, goal, to)
        except z3.Z3Exception:
            st, m = 'unknown', None
        if st == 'proved':
            ob.status, ob.backend = 'proved', be
            break
        if st == 'refuted':
            if any(z3.is_app(x) and x.decl().name().startswith('havoc!') for e in list(ob.hyps) + [goal] for x in _walk(e, set())):
                ob.status, ob.backend = 'unknown', be          # contents left open on purpose: such a model shows nothing
                break
            ob.status, ob.backend, ob.model = 'refuted', be, m
            break
    else:
        ob.status, ob.backend = 'unknown', '-'
    ob.time = time.time() - t0
    return ob


def _walk(e, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        st.extend(x.children())
        if z3.is_quantifier(x):
            st.append(x.body())


def _has_quant(e):
    return any(z3.is_quantifier(x) for x in _walk(e, set()))


def _nonlinear(e):
    for x in _walk(e, set()):
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not (z3.is_rational_value(x.arg(1))):
                return True
    return False


def _has_quant_or_uf(es):
    seen = set()
    for e in es:
        for x in _walk(e, seen):
            if z3.is_quantifier(x):
                return True
            if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                return True
            if z3.is_int(x):
                return True
    return False


def _cvc5(hyps, goal, timeout):
    import subprocess, tempfile
    s = z3.Solver()
    fs, extra = sqrt_elim(list(hyps) + [z3.Not(goal)])
    for h in fs + extra:
        s.add(h)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--nl-ext-tplanes', f.name], capture_output=True,
                           text=True, timeout=timeout / 1000 + 10)
        out = r.stdout.strip().split('\n')[0] if r.stdout else ''
    except Exception:
        out = ''
    finally:
        os.unlink(f.name)
    if out == 'unsat':
        return 'proved', None
    return 'unknown', None      # a cvc5 'sat' carries no model here: leave it undecided
