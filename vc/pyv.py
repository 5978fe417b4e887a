"""Symbolic values for the Python front end: arrays of symbolic size, sequences, ghost families.

An array is a function from indices to z3 terms plus a shape of (possibly symbolic) integers; floating point is
treated as real arithmetic.  Counting, selection, sorting, maxima and prefix sums over symbolic ranges are ghost
functions ("families"); their defining facts are instantiated for every application that occurs in an obligation."""
import itertools
import z3
from fractions import Fraction
from .core import Unsupported, SQRT, _walk

I0, I1 = z3.IntVal(0), z3.IntVal(1)
RealS, IntS, BoolS = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def isz(v):
    return isinstance(v, z3.ExprRef)


def num(v):
    """python number -> z3 term"""
    if isz(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v.numerator) / v.denominator if v.denominator != 1 else z3.RealVal(v.numerator)
    if isinstance(v, float):
        return num(Fraction(repr(v)))
    raise Unsupported('not a number: %r' % (v,))


def conc(v):
    """z3 numeral -> python number when it is one"""
    if isz(v):
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_rational_value(s):
            return Fraction(s.numerator_as_long(), s.denominator_as_long())
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return v


def real(v):
    v = num(v)
    if z3.is_bool(v):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(v) if z3.is_int(v) else v


def integer(v):
    v = num(v)
    if z3.is_bool(v):
        return z3.If(v, I1, I0)
    if z3.is_real(v):
        c = conc(v)
        if isinstance(c, (int, Fraction)) and c == int(c):
            return z3.IntVal(int(c))
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        raise Unsupported('real used as integer')
    return v


def boolean(v):
    v = num(v)
    if z3.is_bool(v):
        return v
    return v != 0


def kind(v):
    v = num(v)
    return 'b' if z3.is_bool(v) else 'i' if z3.is_int(v) else 'f'


def cast(v, k):
    return boolean(v) if k == 'b' else integer(v) if k == 'i' else real(v)


def pair(a, b):
    """bring two scalars to a common arithmetic sort"""
    a, b = num(a), num(b)
    if z3.is_bool(a) and z3.is_bool(b):
        return a, b
    if z3.is_real(a) or z3.is_real(b):
        return real(a), real(b)
    return integer(a), integer(b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a, b = pair(a, b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def sub(t, pairs):
    return z3.substitute(t, *pairs) if isz(t) else t


_clock = itertools.count(1)


class Journal(dict):
    """undo log; objects born after it was opened are not part of it"""
    def __init__(self):
        dict.__init__(self)
        self.stamp = next(_clock)


class SArr:
    """symbolic ndarray"""
    def __init__(self, shape, fn, dtype='f', live=None, writable=True):
        self.shape = [z3.simplify(s) if isz(s) else s for s in shape]
        self.shape = [conc(s) for s in self.shape]
        self.dtype = dtype
        self.content = fn
        self.parent = None        # (array, per parent dimension ('fix', t) | ('ax', own axis, start))
        self.live = live          # function returning a getter that reads through to another array
        self.writable = writable
        self._memo = {}
        self.born = next(_clock)

    @property
    def ndim(self):
        return len(self.shape)

    def snap(self):
        """immutable getter of the present content"""
        if self.parent is not None:
            p, maps = self.parent
            g = p.snap()

            def f(idx):
                return g(tuple(m[1] if m[0] == 'fix' else idx[m[1]] + m[2] if not _zero(m[2]) else idx[m[1]] for m in maps))
            return f
        if self.live is not None:
            return self.live()
        c = self.content
        memo = self._memo.setdefault(id(c), (c, {}))[1]
        dt = self.dtype

        def f(idx):
            idx = tuple(num(x) for x in idx)
            key = tuple(x.get_id() for x in idx)
            r = memo.get(key)
            if r is None:
                v = cast(c(idx), dt)
                r = memo[key] = (v, idx)
            return r[0]
        return f

    def get(self, *idx):
        return self.snap()(tuple(num(x) for x in idx))

    def root_write(self, it, pred, val, fixed):
        """store val(b) wherever pred(b); fixed: {dim: term} known constant coordinates of the region"""
        if self.parent is not None:
            p, maps = self.parent
            own = {m[1]: (k, m[2]) for k, m in enumerate(maps) if m[0] == 'ax'}

            def back(b):
                return tuple(b[own[a][0]] - own[a][1] if not _zero(own[a][1]) else b[own[a][0]] for a in range(self.ndim))

            def pr(b):
                cs = [b[k] == m[1] for k, m in enumerate(maps) if m[0] == 'fix']
                for a in range(self.ndim):
                    v = back(b)[a]
                    cs.append(z3.And(v >= 0, v < num(self.shape[a])))
                return z3.And(*cs, pred(back(b)))
            fx = {k: m[1] for k, m in enumerate(maps) if m[0] == 'fix'}
            for a, t in fixed.items():
                k, s = own[a]
                fx[k] = t + s
            return p.root_write(it, pr, lambda b: val(back(b)), fx)
        if self.live is not None or not self.writable:
            raise Unsupported('write through a reshaped or broadcast view')
        old = self.snap()
        dt = self.dtype
        it.log_write(self, pred, fixed)
        it.setslot(self, 'content', lambda b: ite(pred(b), cast(val(b), dt), old(b)))


def _zero(t):
    return isinstance(t, int) and t == 0 or isz(t) and z3.is_int_value(t) and t.as_long() == 0


class SSeq:
    """immutable symbolic sequence: length term, element function (values of any kind)"""
    def __init__(self, n, get, inv=None):
        self.n, self._get, self.inv = conc(n), get, inv

    def get(self, k):
        return self._get(num(k))


def segs_of(v):
    """a list as consecutive segments (number of items, item function)"""
    if isinstance(v, list):
        return [(1, (lambda k, x=x: x)) for x in v]
    return getattr(v, 'segs', None) or [(v.n, v.get)]


class PList:
    """mutable Python list; val: list of values | SSeq | AppendLog"""
    def __init__(self, val):
        self.val = val
        self.born = next(_clock)


class AppendLog:
    """list during a summarised loop iteration: the (unknown) prefix plus guarded appends"""
    def __init__(self, token, items):
        self.token, self.items = token, list(items)


class PDict:
    def __init__(self, val):
        self.val = val            # python dict (concrete keys) | SMap
        self.born = next(_clock)


class SMap:
    """dict with keys key(i), values val(i), 0 <= i < n, given by the inverse of key"""
    def __init__(self, n, lookup):
        self.n, self.lookup = n, lookup


class Obj:
    def __init__(self, cls, f=None, hooks=None):
        self.cls, self.f, self.hooks = cls, dict(f or {}), hooks or {}
        self.born = next(_clock)


class SymStr:
    """a string known only through a key (e.g. the element symbol of atomic number Z)"""
    def __init__(self, kind, key):
        self.kind, self.key = kind, key


def subst_value(v, pairs):
    if isz(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, SArr):
        g = v.snap()
        return SArr([conc(sub(num(s), pairs)) for s in v.shape], lambda idx: _subst_at(g, idx, pairs), v.dtype)
    if isinstance(v, (list, tuple)):
        return type(v)(subst_value(x, pairs) for x in v)
    if isinstance(v, PList):
        r = type(v)(subst_value(v.val, pairs))
        if hasattr(r, 'shared'):
            r.shared = True
        return r
    if isinstance(v, SSeq):
        return SSeq(conc(sub(num(v.n), pairs)), lambda k: subst_value_at(v.get, k, pairs))
    if isinstance(v, PDict) and isinstance(v.val, dict):
        return PDict({k: subst_value(x, pairs) for k, x in v.val.items()})
    if isinstance(v, SymStr):
        return SymStr(v.kind, subst_value(v.key, pairs))
    if isinstance(v, Obj):
        return Obj(v.cls, {k: subst_value(x, pairs) for k, x in v.f.items()}, v.hooks)
    if hasattr(v, 'map_value'):
        return v.map_value(lambda x: subst_value(x, pairs))
    return v


_ph = [0]


def _fresh_idx(n):
    _ph[0] += 1
    return [z3.Int('ph!%d_%d' % (_ph[0], k)) for k in range(n)]


def _subst_at(g, idx, pairs):
    """g evaluated at idx, with pairs substituted in g only (idx may mention the replaced variables)"""
    ph = _fresh_idx(len(idx))
    t = z3.substitute(g(tuple(ph)), *pairs)
    return z3.substitute(t, *list(zip(ph, [num(x) for x in idx])))


def subst_value_at(g, k, pairs):
    ph = _fresh_idx(1)[0]
    return subst_value(subst_value(g(ph), pairs), [(ph, num(k))])


# ---------------------------------------------------------------- ghost families
def free_fresh(ts):
    """fresh 0-ary constants (name contains '!') of the terms, in order of occurrence"""
    out, ids = [], set()
    for t in ts:
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
                if x.get_id() not in ids:
                    ids.add(x.get_id())
                    out.append(x)
            st.extend(reversed(x.children()))
    return out


class Family:
    """kind: cnt (prefix count of a mask), perm (sorting permutation of a key), max, sum (prefix sum)"""
    def __init__(self, store, kind, n, body, J, params, extra=None):
        self.kind, self.n, self.body, self.J, self.params, self.extra = kind, n, body, J, params, extra
        k = len(store.fams)
        sig = [p.sort() for p in params]
        nm = '%s_%d' % (kind, k)
        if kind == 'cnt':
            self.f = z3.Function('CNT' + nm, *sig, IntS, IntS)
            self.g = z3.Function('SEL' + nm, *sig, IntS, IntS)
        elif kind == 'perm':
            self.f = z3.Function('PERM' + nm, *sig, IntS, IntS)
            self.g = z3.Function('INV' + nm, *sig, IntS, IntS)
        elif kind == 'max':
            self.f = z3.Function('MAX' + nm, *sig, IntS, body.sort())
            self.g = z3.Function('ARG' + nm, *sig, IntS, IntS)
        elif kind == 'sum':
            self.f = z3.Function('SUM' + nm, *sig, IntS, body.sort())
            self.g = None
        elif kind == 'first':
            self.f = z3.Function('FIRST' + nm, *sig, IntS)
            self.g = None
        store.by_decl[self.f.get_id()] = (self, 'f')
        if self.g is not None:
            store.by_decl[self.g.get_id()] = (self, 'g')
        store.fams.append(self)

    def at(self, args, j):
        return z3.substitute(self.body, *(list(zip(self.params, args)) + [(self.J, num(j))]))

    def nn(self, args):
        return z3.substitute(num(self.n), *list(zip(self.params, args))) if self.params else num(self.n)


class Ghosts:
    def __init__(self, it):
        self.schemas = []       # (function, args -> assumed fact), instantiated where the function occurs
        self.it = it
        self.fams, self.by_decl = [], {}
        self.candidates = []        # masks the specification proposes as equivalents (used only when proved equivalent)
        self.divhints = []          # (n, q, r): candidate quotient and remainder of divisions by n
        self.interest = []          # index terms at which universal facts are instantiated

    def family(self, kind, n, body, J, extra=None):
        """returns (family, actual parameters); unified with an existing family when provably equal"""
        n = num(n)
        params = [p for p in free_fresh([body, n]) if not p.eq(J)]
        cand = [f for f in self.fams if f.kind == kind and f.extra == extra and f.body.sort() == body.sort()]
        acts = list(params)
        if cand:        # index terms over the parameters (i + 1, i + j ...) can be actual parameters too
            seen = {p.get_id() for p in acts}
            for x in _walk(body, set()):
                if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    for a in x.children():
                        if a.sort() == IntS and not z3.is_int_value(a) and a.get_id() not in seen and not free_has(a, J) and len(acts) < len(params) + 3 \
                                and any(free_has(a, p) for p in params) and a.num_args() > 0 and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                            seen.add(a.get_id())
                            acts.append(a)
        params0, params = params, acts
        for f in cand:
            if len(f.params) > len(params) + 0 or len(f.params) > 3:
                if not (len(f.params) <= 3 and len(params) <= 3):
                    continue
            for perm in itertools.permutations(params, len(f.params)):
                if any(a.sort() != b.sort() for a, b in zip(perm, f.params)):
                    continue
                nb = f.at(perm, J)
                if nb.eq(body) and f.nn(perm).eq(n):
                    return f, list(perm)
        for f in cand:
            if len(f.params) > 3 or len(params) > 3:
                continue
            for perm in itertools.permutations(params, len(f.params)):
                if any(a.sort() != b.sort() for a, b in zip(perm, f.params)):
                    continue
                nb = f.at(perm, J)
                g = z3.And(f.nn(perm) == n, z3.Implies(z3.And(J >= 0, J < n), nb == body))
                if self.it.entails_full(g):
                    return f, list(perm)
        params = params0
        # formal parameters
        forms = [z3.Const('fp!%d_%d' % (len(self.fams), k), p.sort()) for k, p in enumerate(params)]
        JJ = z3.Int('fj!%d' % len(self.fams))
        sb = list(zip(params, forms)) + [(J, JJ)]
        f = Family(self, kind, z3.substitute(n, *sb), z3.substitute(body, *sb), JJ, forms, extra)
        return f, params

    def apps(self, terms):
        seen, out = set(), []
        for t in terms:
            for x in _walk(t, seen):
                if z3.is_app(x) and x.num_args() > 0:
                    d = self.by_decl.get(x.decl().get_id())
                    if d is not None and not _bound(x):
                        out.append((x, d))
        return out

    def auto(self, terms):
        """index terms of the obligation: integer constants and family parameters"""
        out, ids = list(self.interest), {t.get_id() for t in self.interest}

        def add(t):
            if t.sort() == IntS and not z3.is_int_value(t) and t.get_id() not in ids and len(out) < 24:
                ids.add(t.get_id())
                out.append(t)
        for t in terms[:1]:
            for x in _walk(t, set()):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    add(x)
            for x, (f, w) in self.apps([t]):
                for k in range(x.num_args()):
                    add(x.arg(k))
                if w == 'g':
                    add(x)
        return out

    def facts(self, terms, rounds=2):
        done, facts, groups = set(), [], {}
        work = list(terms)
        keep = self.interest
        self.interest = self.auto(work)
        try:
            out = self._facts(work, rounds, done, facts, groups)
        finally:
            self.interest = keep
        if self.schemas:
            seen, ids = set(), set()
            for t in list(terms) + list(out):
                for x in _walk(t, seen):
                    if z3.is_app(x) and x.num_args() and not _bound(x):
                        for si, (d, fn) in enumerate(self.schemas):
                            if x.decl().eq(d) and (si, x.get_id()) not in ids:
                                ids.add((si, x.get_id()))
                                out = list(out) + [fn(*x.children())]
        return out

    def divfacts(self, terms):
        from .py import DIV, MOD
        out = []
        for t in terms:
            for x in _walk(t, set()):
                if z3.is_app(x) and (x.decl().eq(DIV) or x.decl().eq(MOD)):
                    for n, q, r in self.divhints:
                        m, k = x.arg(1), x.arg(0)
                        same = m.eq(n) or self.it.entails(m == n)
                        if same:
                            out.append(z3.Implies(z3.And(n > 0, r >= 0, r < n, k == n * q + r), z3.And(DIV(k, m) == q, MOD(k, m) == r)))
        return out

    def _facts(self, work, rounds, done, facts, groups):
        if self.divhints:
            facts += self.divfacts(work)
        for r in range(rounds + 1):
            new = []
            for x, (f, w) in self.apps(work):
                if x.get_id() in done:
                    continue
                done.add(x.get_id())
                args = [x.arg(k) for k in range(len(f.params))]
                last = x.arg(x.num_args() - 1)
                key = (id(f), w, tuple(a.get_id() for a in args))
                new += self.axioms(f, w, args, last, x, r)
                for (l2, x2) in groups.get(key, []):
                    new += self.pairwise(f, w, args, l2, x2, last, x)
                groups.setdefault(key, []).append((last, x))
            facts += new
            work = new
            if not new:
                break
        return facts

    def axioms(self, f, w, args, last, x, rnd):
        n = f.nn(args)
        out = []
        if f.kind == 'cnt':
            tot = f.f(*args, n)
            if w == 'f':
                j = last
                out.append(z3.Implies(j <= 0, x == 0))
                out.append(z3.Implies(j >= 0, z3.And(x >= 0, x <= j)))
                m = f.at(args, j)
                if not j.eq(n):
                    out.append(z3.Implies(z3.And(0 <= j, j <= n), x <= tot))
                    out.append(z3.Implies(z3.And(0 <= j, j < n, m), z3.And(x < tot, f.g(*args, x) == j)))
                if rnd == 0:
                    out.append(z3.Implies(j >= 0, f.f(*args, j + 1) == x + z3.If(m, 1, 0)))
                    for q in self.interest:
                        if q.sort() == IntS:
                            mq = f.at(args, q)
                            out.append(z3.Implies(z3.And(0 <= q, q < j, mq), f.f(*args, q) < x))
            else:
                k = last
                out.append(z3.Implies(z3.And(0 <= k, k < tot), z3.And(x >= 0, x < n, f.at(args, x), f.f(*args, x) == k)))
        elif f.kind == 'perm':
            k = last
            if w == 'f':
                out.append(z3.Implies(z3.And(0 <= k, k < n), z3.And(x >= 0, x < n, f.g(*args, x) == k)))
            else:
                out.append(z3.Implies(z3.And(0 <= k, k < n), z3.And(x >= 0, x < n, f.f(*args, x) == k)))
        elif f.kind == 'max':
            # maximum over [0, last) of the body, not below extra (initial value) when given
            a = f.g(*args, last)
            b = f.at(args, a)
            if w == 'f':
                if f.extra is None:
                    out.append(z3.Implies(last > 0, z3.And(0 <= a, a < last, x == b)))
                else:
                    out.append(z3.And(x >= cast(f.extra, kind(f.body)), z3.Or(x == cast(f.extra, kind(f.body)), z3.And(0 <= a, a < last, x == b))))
                for q in self.interest:
                    if q.sort() == IntS:
                        out.append(z3.Implies(z3.And(0 <= q, q < last), f.at(args, q) <= x))
        elif f.kind == 'sum':
            j = last
            out.append(z3.Implies(j <= 0, x == 0))
            if rnd == 0:
                out.append(z3.Implies(j >= 0, f.f(*args, j + 1) == x + f.at(args, j)))
            js = z3.simplify(j)
            if z3.is_int_value(js) and 1 <= js.as_long() <= 4:
                k = js.as_long()
                out.append(x == z3.Sum([cast(f.at(args, z3.IntVal(q)), kind(f.body)) for q in range(k)]))
        return out

    def pairwise(self, f, w, args, a, xa, b, xb):
        n = f.nn(args)
        out = []
        if f.kind == 'cnt' and w == 'f':
            for p, xp, q, xq in ((a, xa, b, xb), (b, xb, a, xa)):
                out.append(z3.Implies(z3.And(0 <= p, p <= q), xp <= xq))
                out.append(z3.Implies(z3.And(0 <= p, p < q, f.at(args, p)), xp < xq))
        elif f.kind == 'cnt':
            tot = f.f(*args, n)
            for p, xp, q, xq in ((a, xa, b, xb), (b, xb, a, xa)):
                out.append(z3.Implies(z3.And(0 <= p, p < q, q < tot), xp < xq))
        elif f.kind == 'perm' and w == 'f':
            ka, kb = f.at(args, xa), f.at(args, xb)
            for p, xp, kp, q, xq, kq in ((a, xa, ka, b, xb, kb), (b, xb, kb, a, xa, ka)):
                out.append(z3.Implies(z3.And(0 <= p, p <= q, q < n), kp <= kq))
                if f.extra == 'stable':
                    out.append(z3.Implies(z3.And(0 <= p, p < q, q < n, kp == kq), xp < xq))
        return out

    # -- constructors used by the front end
    def under(self, J, n, f):
        """f(J) evaluated for an index inside the range"""
        self.it.guards.append(z3.And(J >= 0, J < num(n)))
        try:
            return f(J)
        finally:
            self.it.guards.pop()

    def count(self, n, mask):
        """(CNT as function of j, SEL as function of k) of a mask given as a function of the index"""
        J = self.it.ctx.fresh('int', 'j')
        m = boolean(self.under(J, n, mask))
        m = z3.simplify(m)
        for cand in self.candidates:
            c = cand(J)
            if self.it.entails_full(z3.Implies(z3.And(J >= 0, J < num(n)), c == m)):
                m = z3.simplify(c)
                break
        h = _hole(m, J)
        if h is not None:
            return (lambda j: num(j) - z3.If(z3.And(h >= 0, h < num(j)), I1, I0)), (lambda k: z3.If(z3.And(h >= 0, num(k) >= h), num(k) + 1, num(k))), None
        if z3.is_true(m):
            return (lambda j: num(j)), (lambda k: num(k)), None
        rg = _range_mask(m, J)
        if rg is not None:
            lo, hi = rg
            lo = I0 if lo is None else z3.If(lo > 0, lo, I0)

            def cnt(j):
                t = num(j) if hi is None else z3.If(num(j) < hi, num(j), hi)
                return z3.simplify(z3.If(t - lo > 0, t - lo, I0))
            return cnt, (lambda k: z3.simplify(lo + num(k))), None
        if not free_has(m, J):
            return (lambda j: z3.If(m, num(j), I0)), (lambda k: num(k)), None
        f, args = self.family('cnt', n, m, J)
        return (lambda j: f.f(*args, num(j))), (lambda k: f.g(*args, num(k))), f

    def pcount(self, np_, n, mask):
        """count of a mask with np_ integer parameters: cnt(*params, j), sel(*params, k)"""
        ps = [self.it.ctx.fresh('int', 'p') for _ in range(np_)]
        c, s, _ = self.count(n, lambda j: mask(*ps, j))
        J = z3.Int('pj!')
        tc, ts = num(c(J)), num(s(J))
        return (lambda *a: z3.substitute(tc, *zip(ps + [J], [num(x) for x in a]))), (lambda *a: z3.substitute(ts, *zip(ps + [J], [num(x) for x in a])))

    def pperm(self, np_, n, key, stable):
        ps = [self.it.ctx.fresh('int', 'p') for _ in range(np_)]
        c, s, _ = self.perm(n, lambda j: key(*ps, j), stable)
        J = z3.Int('pj!')
        tc, ts = num(c(J)), num(s(J))
        return (lambda *a: z3.substitute(tc, *zip(ps + [J], [num(x) for x in a]))), (lambda *a: z3.substitute(ts, *zip(ps + [J], [num(x) for x in a])))

    def perm(self, n, key, stable):
        J = self.it.ctx.fresh('int', 'j')
        f, args = self.family('perm', n, num(self.under(J, n, key)), J, 'stable' if stable else None)
        return (lambda k: f.f(*args, num(k))), (lambda j: f.g(*args, num(j))), f

    def maximum(self, n, elem, init=None):
        J = self.it.ctx.fresh('int', 'j')
        f, args = self.family('max', n, num(self.under(J, n, elem)), J, init)
        return (lambda j: f.f(*args, num(j))), f

    def sum(self, n, elem):
        J = self.it.ctx.fresh('int', 'j')
        b = num(self.under(J, n, elem))
        if z3.is_bool(b):
            return self.count(n, elem)[0], None
        s = z3.simplify(b)
        if s.num_args() == 3 and s.decl().kind() == z3.Z3_OP_ITE and (_isv(s.arg(1), 1) and _isv(s.arg(2), 0) or _isv(s.arg(1), 0) and _isv(s.arg(2), 1)):
            q = s.arg(0) if _isv(s.arg(1), 1) else z3.Not(s.arg(0))
            c = self.count(n, lambda j: z3.substitute(q, (J, num(j))))[0]
            return ((lambda j: c(j)) if z3.is_int(b) else (lambda j: z3.ToReal(c(j)))), None
        if not free_has(s, J):
            return (lambda j: num(j) * b if z3.is_int(b) else z3.ToReal(num(j)) * b), None
        f, args = self.family('sum', n, b, J)
        return (lambda j: f.f(*args, num(j))), f


def _hole(m, J):
    """m is J != t with t free of J: t"""
    if z3.is_not(m):
        e = m.arg(0)
    elif z3.is_distinct(m) and m.num_args() == 2:
        e = m.arg(0) == m.arg(1)
    else:
        return None
    if z3.is_eq(e) and z3.is_int(e.arg(0)):
        d = z3.simplify(e.arg(0) - e.arg(1) - J)
        if not free_has(d, J):
            return z3.simplify(-d)
        d = z3.simplify(e.arg(0) - e.arg(1) + J)
        if not free_has(d, J):
            return z3.simplify(d)
    return None


def _range_mask(m, J):
    """m is a conjunction of bounds on J: (lo, hi) for lo <= J < hi, each None if absent"""
    lo, hi = [], []

    def go(t, pos):
        if z3.is_not(t):
            return go(t.arg(0), not pos)
        if z3.is_and(t) and pos or z3.is_or(t) and not pos:
            return all(go(c, pos) for c in t.children())
        if not z3.is_app(t) or t.num_args() != 2 or not z3.is_int(t.arg(0)):
            return False
        k = t.decl().kind()
        a, b = t.arg(0), t.arg(1)
        if k == z3.Z3_OP_LE:
            d, strict = b - a, False
        elif k == z3.Z3_OP_LT:
            d, strict = b - a, True
        elif k == z3.Z3_OP_GE:
            d, strict = a - b, False
        elif k == z3.Z3_OP_GT:
            d, strict = a - b, True
        else:
            return False
        if not pos:
            d, strict = -d, not strict
        if strict:
            d = d - 1
        for sg, out in ((1, lo), (-1, hi)):
            c = z3.simplify(d - sg * J, som=True)
            if not free_has(c, J):
                out.append(z3.simplify(-c) if sg == 1 else z3.simplify(c + 1))      # J >= -c, resp. J < c + 1
                return True
        return False
    if not go(m, True) or not lo + hi:
        return None

    def red(l, gt):
        r = None
        for x in l:
            r = x if r is None else z3.If((x > r) if gt else (x < r), x, r)
        return r
    return red(lo, True), red(hi, False)


def _isv(t, v):
    return (z3.is_int_value(t) or z3.is_rational_value(t)) and t.as_fraction() == v if z3.is_rational_value(t) else z3.is_int_value(t) and t.as_long() == v


def free_has(t, v):
    return any(x.eq(v) for x in _walk(t, set()))


def _bound(x):
    return any(z3.is_var(y) for y in _walk(x, set()))
