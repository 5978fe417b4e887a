"""Computer-algebra back end: decides equalities between real terms built from + - * / over atoms, after
splitting on if-then-else, using sqrt(x)^2 = x.  A rational-function identity is decided exactly by expanding
the numerator; every denominator must be shown non-zero by z3 under the hypotheses (otherwise: unknown)."""
import z3
from fractions import Fraction


def _find_ite(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not _find_ite(x.arg(0)):
            return x
        st.extend(x.children())
    return None


def _feasible(hyps, to=2000):
    from .core import _z3_check
    return _z3_check(hyps, z3.BoolVal(False), to)[0] != 'proved'


class Poly:
    """Sparse multivariate polynomial over Fraction, sqrt atoms reduced on multiplication."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def add(self, o, s=1):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + s * c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def mul(self, o, env):
        d = {}
        if len(self.d) * len(o.d) > 400000:
            raise OverflowError
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mm(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return env.reduce(Poly(d))


def _mm(a, b):
    r = dict(a)
    for k, e in b:
        r[k] = r.get(k, 0) + e
    return tuple(sorted(r.items()))


ONE = Poly({(): Fraction(1)})


class Env:
    def __init__(self, hyps=None):
        self.hyps = hyps or []
        self.atoms = {}
        self.sq = {}           # atom key -> Poly of radicand
        self.memo = {}

    def atom(self, e):
        from .core import SQRT
        k = e.get_id()
        if k not in self.atoms:
            self.atoms[k] = e
            if z3.is_app(e) and e.decl().eq(SQRT):
                n, d = self.rat(e.arg(0))
                if d.d == ONE.d and self.nonneg(e.arg(0)):
                    self.sq[k] = n
        return Poly({((k, 1),): Fraction(1)})

    def nonneg(self, x):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(x < 0)
        if s.check() == z3.unsat:
            return True
        s.add(self.hyps)
        return s.check() == z3.unsat

    def reduce(self, p):
        while True:
            for m in p.d:
                hit = next(((k, e) for k, e in m if e >= 2 and k in self.sq), None)
                if hit:
                    break
            else:
                return p
            k = hit[0]
            out = Poly({})
            for m, c in p.d.items():
                e = dict(m).get(k, 0)
                if e >= 2:
                    rest = tuple((a, x) for a, x in m if a != k)
                    if e % 2:
                        rest = _mm(rest, ((k, 1),))
                    q = Poly({rest: c})
                    for _ in range(e // 2):
                        q = q.mul(self.sq[k], self)
                    out = out.add(q)
                else:
                    out = out.add(Poly({m: c}))
            p = out

    def rat(self, e):
        """z3 term -> (numerator, denominator)"""
        if e.get_id() in self.memo:
            return self.memo[e.get_id()][1]
        r = self._rat(e)
        self.memo[e.get_id()] = (e, r)
        return r

    def _rat(self, e):
        if z3.is_rational_value(e):
            return Poly({(): Fraction(e.numerator_as_long(), e.denominator_as_long())} if e.numerator_as_long() else {}), ONE
        if z3.is_int_value(e):
            return Poly({(): Fraction(e.as_long())} if e.as_long() else {}), ONE
        if z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_TO_REAL:
                return self.rat(ch[0])
            if k == z3.Z3_OP_UMINUS:
                n, d = self.rat(ch[0])
                return Poly({m: -c for m, c in n.d.items()}), d
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                n, d = self.rat(ch[0])
                for c in ch[1:]:
                    n2, d2 = self.rat(c)
                    s = 1 if k == z3.Z3_OP_ADD else -1
                    if d.d == d2.d:
                        n = n.add(n2, s)
                    else:
                        n = n.mul(d2, self).add(n2.mul(d, self), s)
                        d = d.mul(d2, self)
                return n, d
            if k == z3.Z3_OP_MUL:
                n, d = ONE, ONE
                for c in ch:
                    n2, d2 = self.rat(c)
                    n, d = n.mul(n2, self), d.mul(d2, self)
                return n, d
            if k == z3.Z3_OP_DIV:
                n, d = self.rat(ch[0])
                n2, d2 = self.rat(ch[1])
                return n.mul(d2, self), d.mul(n2, self)
            if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 12:
                n, d = self.rat(ch[0])
                N, D = ONE, ONE
                for _ in range(ch[1].numerator_as_long()):
                    N, D = N.mul(n, self), D.mul(d, self)
                return N, D
        return self.atom(e), ONE


def _denoms(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
        out.append(e.arg(1))
    for c in e.children():
        _denoms(c, out, seen)


def _factors(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        for c in e.children():
            yield from _factors(c)
    elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_POWER:
        yield from _factors(e.arg(0))
    elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV:
        yield from _factors(e.arg(0))
    elif z3.is_rational_value(e) and e.numerator_as_long() != 0:
        return
    else:
        yield e


def _eliminate(hyps, goal):
    """use hypotheses 'constant == term' as definitions"""
    for _ in range(20):
        done = True
        for h in hyps:
            if z3.is_eq(h):
                a, b = h.arg(0), h.arg(1)
                for x, t in ((a, b), (b, a)):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_arith(x):
                        if not any(y.eq(x) for y in _consts(t)) and any(y.eq(x) for y in _consts(goal)):
                            goal = z3.substitute(goal, (x, t))
                            done = False
                            break
                if not done:
                    break
        if done:
            return goal
    return goal


def _consts(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            yield x
        st.extend(x.children())


def _prove_eq(hyps, a, b, depth=0):
    d = a - b
    ite = _find_ite(d)
    if ite is not None:
        if depth > 14:
            return False
        c = ite.arg(0)
        for cond, arm in ((c, ite.arg(1)), (z3.Not(c), ite.arg(2))):
            hs = hyps + [cond]
            if not _feasible(hs):
                continue
            d2 = z3.substitute(d, (ite, arm))
            for other in (c,):
                d2 = z3.substitute(d2, (other, z3.BoolVal(arm is ite.arg(1) or cond.eq(c))))
            d2 = z3.simplify(d2)
            if not _prove_eq(hs, d2, z3.RealVal(0), depth + 1):
                return False
        return True
    d = _eliminate(hyps, d)
    if _find_ite(d) is not None and depth < 14:
        return _prove_eq(hyps, d, z3.RealVal(0), depth + 1)
    dens = []
    _denoms(d, dens, set())
    done = set()
    for den in dens:
        for f in _factors(den):
            if f.get_id() in done:
                continue
            done.add(f.get_id())
            from .core import _z3_check
            if _z3_check(hyps, f != 0, 4000)[0] != 'proved':
                return False
    env = Env(hyps)
    try:
        n, _ = env.rat(d)
    except (OverflowError, RecursionError):
        return False
    return not n.d


def prove(hyps, goal):
    gs = []

    def flat(g, hs):
        if z3.is_and(g):
            return all(flat(c, hs) for c in g.children())
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
            return flat(g.arg(1), hs + [g.arg(0)])
        if z3.is_or(g):
            ch = g.children()
            for i, c in enumerate(ch):
                if z3.is_eq(c) and z3.is_arith(c.arg(0)):
                    if flat(c, hs + [z3.Not(o) for j, o in enumerate(ch) if j != i]):
                        return True
            return False
        if z3.is_eq(g) and z3.is_arith(g.arg(0)):
            if not _feasible(hs):
                return True
            return _prove_eq(hs, g.arg(0), g.arg(1))
        return False
    if flat(goal, list(hyps)):
        return 'proved', None
    return 'unknown', None
