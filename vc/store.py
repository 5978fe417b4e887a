"""Symbolic memory: lambda-style stores with point and bulk (loop-summary) updates, and typed regions."""
import z3, itertools
from fractions import Fraction
from .core import Unsupported, PathEnd
from . import cas


def I(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def simp(x):
    return z3.simplify(x) if z3.is_expr(x) else x


def subst(v, pairs):
    if not pairs:
        return v
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    if hasattr(v, 'subst'):
        return v.subst(pairs)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    return v


def mentions(v, consts):
    ids = {c.get_id() for c in consts}
    if z3.is_expr(v):
        st, seen = [v], set()
        while st:
            x = st.pop()
            if x.get_id() in ids:
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            st.extend(x.children())
            if z3.is_quantifier(x):
                st.append(x.body())
        return False
    if hasattr(v, 'terms'):
        return any(mentions(t, consts) for t in v.terms())
    if isinstance(v, tuple):
        return any(mentions(t, consts) for t in v)
    return False


# ---------------------------------------------------------------- integer polynomials over z3 terms
def poly(e):
    n, d = _P.rat(simp(e))
    if d.d != cas.ONE.d:
        raise Unsupported('non-polynomial index')
    return n


class _PE(cas.Env):
    def atom(self, e):
        k = e.get_id()
        self.atoms.setdefault(k, e)
        return cas.Poly({((k, 1),): Fraction(1)})

    def _rat(self, e):
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT, z3.Z3_OP_DIV):
            return self.atom(e), cas.ONE
        return super()._rat(e)


_P = _PE()


def poly_term(p, sort_int=True):
    ts = []
    for m, c in p.d.items():
        t = None
        for k, e in m:
            for _ in range(e):
                a = _P.atoms[k]
                t = a if t is None else t * a
        if c.denominator != 1 and sort_int:
            raise Unsupported('fractional index')
        cv = z3.IntVal(int(c)) if sort_int else z3.RealVal(str(c))
        t = cv if t is None else (t if c == 1 else cv * t)
        ts.append(t)
    if not ts:
        return z3.IntVal(0) if sort_int else z3.RealVal(0)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def poly_divmod(p, m, c):
    """split p = q*(c*m) + r  monomial-wise (m: monomial tuple, c: positive int)"""
    q, r = {}, {}
    md = dict(m)
    for mm, cc in p.d.items():
        dd = dict(mm)
        if all(dd.get(k, 0) >= e for k, e in md.items()) and cc.denominator == 1 and cc.numerator % c == 0:
            nm = tuple(sorted((k, e - md.get(k, 0)) for k, e in dd.items() if e - md.get(k, 0) > 0))
            q[nm] = q.get(nm, 0) + Fraction(cc.numerator // c)
        elif not md and not mm and cc.denominator == 1:
            a, b = divmod(cc.numerator, c)          # constant offset: a*c + b, 0 <= b < c
            if a:
                q[mm] = q.get(mm, 0) + Fraction(a)
            if b:
                r[mm] = Fraction(b)
        else:
            r[mm] = cc
    return cas.Poly(q), cas.Poly(r)


def div_exact(e, k):
    """integer term e / k if e's polynomial is divisible by the constant k"""
    p = poly(e)
    for m, c in p.d.items():
        if c.denominator != 1 or c.numerator % k:
            raise Unsupported('size not a multiple of the element size')
    return simp(poly_term(cas.Poly({m: c / k for m, c in p.d.items()})))


def peq(a, b):
    """syntactic equality modulo polynomial normal form"""
    if a.eq(b):
        return True
    try:
        return poly(a).add(poly(b), -1).d == {}
    except Unsupported:
        return False


# ---------------------------------------------------------------- stores
class Store:
    """contents over an index tuple. updates: ('pt', idx, val) | ('bulk', vars, guard, idx, val)"""

    def __init__(self, base, rank, sort):
        self.base, self.rank, self.sort = base, rank, sort
        self.ups = []

    def copy(self):
        s = Store(self.base, self.rank, self.sort)
        s.ups = list(self.ups)
        return s

    def read(self, ctx, idx, upto=None):
        ups = self.ups if upto is None else self.ups[:upto]
        return self._read(ctx, tuple(idx), len(ups), ups)

    def _read(self, ctx, idx, n, ups):
        acc = []          # (cond, val) newest first
        k = n - 1
        while k >= 0:
            u = ups[k]
            if u[0] == 'pt':
                cond = _eqs(u[1], idx)
                val = u[2]
            else:
                cond, val = _solve_bulk(u, idx)
            if cond is True:
                return _merge(ctx, acc, lambda: val)
            if cond is not False:
                acc.append((cond, val))
            k -= 1
        return _merge(ctx, acc, lambda: self.base(idx))


def _eqs(a, b):
    cs = []
    for x, y in zip(a, b):
        if x.eq(y) or peq(x, y):
            continue
        d = simp(x - y)
        if z3.is_int_value(d):
            if d.as_long() == 0:
                continue
            return False
        try:
            p = poly(d)
            if not p.d:
                continue
            if set(p.d) == {()}:
                return False
        except Unsupported:
            pass
        cs.append(x == y)
    if not cs:
        return True
    return z3.And(*cs) if len(cs) > 1 else cs[0]


def _solve_bulk(u, idx):
    _, vs, guard, widx, val = u
    sol = []
    rest = []
    todo = list(vs)
    comps = list(zip(widx, idx))
    progress = True
    while todo and progress:
        progress = False
        for ci, (w, t) in enumerate(comps):
            inv = [v for v in todo if mentions(w, [v])]
            if len(inv) != 1:
                continue
            v = inv[0]
            p = poly(subst(w, sol))
            key = ((v.get_id(), 1),)
            _P.atoms.setdefault(v.get_id(), v)
            c = p.d.get(key)
            if c not in (1, -1) or any(k == v.get_id() for m in p.d if m != key for k, e in m):
                continue
            r = cas.Poly({m: x for m, x in p.d.items() if m != key})
            s = simp((t - poly_term(r)) if c == 1 else (poly_term(r) - t))
            sol.append((v, s))
            todo.remove(v)
            comps.pop(ci)
            progress = True
            break
    if todo:
        if any(mentions(x, todo) for x in (guard, val)) or any(mentions(w, todo) for w, _ in comps):
            # undetermined variables are harmless only if nothing depends on them but their range
            raise Unsupported('non-invertible bulk write')
    sol = [(v, s) for v, s in sol]
    cs = [subst(guard, sol)]
    e = _eqs([subst(w, sol) for w, _ in comps], [t for _, t in comps])
    if e is False:
        return False, None
    if e is not True:
        cs.append(e)
    cond = simp(z3.And(*cs))
    if z3.is_true(cond):
        cond = True
    elif z3.is_false(cond):
        cond = False
    return cond, subst(val, sol)


def _merge(ctx, acc, base):
    """acc: newest-first (cond,val); builds ite chain or forks when values are not z3 terms"""
    for i, (c, v) in enumerate(acc):
        if not z3.is_expr(v):
            if ctx.branch(c):
                return v
            return _merge(ctx, acc[i + 1:], base) if i == 0 else _merge_mixed(ctx, acc, base)
    if acc and all(z3.is_expr(v) for c, v in acc):
        keep = []
        for c, v in acc:
            keep.append((c, v))
        b = base()
        if b is None and ctx.entails(z3.Or(*[c for c, _ in keep])):
            b = keep.pop()[1]           # covered by the updates: the oldest one is the default
        if b is None:
            # uninitialised below: the value must come from one of the updates
            b = ctx.fresh('real' if z3.is_real(keep[-1][1]) else 'int', 'uninit')
        r = b
        for c, v in reversed(keep):
            if z3.is_expr(r) and z3.is_real(v) and z3.is_int(r):
                r = z3.ToReal(r)
            if not z3.is_expr(r):
                return _merge_mixed(ctx, acc, base)
            r = z3.If(c, v, r)
        return simp(r)
    return base()


def _merge_mixed(ctx, acc, base):
    for c, v in acc:
        if ctx.branch(c):
            return v
    return base()


_rid = itertools.count()


class Region:
    """A block of memory (or a family of blocks indexed by loop iterations)."""

    def __init__(self, name, elem, size, params=(), shape=None, base=None, sort=None):
        self.rid = next(_rid)
        self.name, self.elem, self.size = name, elem, size
        self.params = tuple(params)
        self.shape = shape
        self.pshape = None          # mixed-radix view of a single family parameter
        rank = len(self.params) + (len(shape) if shape else 1)
        self.store = Store(base or (lambda idx: None), rank, sort)
        self.freed = Store(lambda idx: z3.BoolVal(False), max(1, len(self.params)), 'bool')
        self.readonly = False
        self.birth = None

    def __repr__(self):
        return 'Region(%s#%d)' % (self.name, self.rid)


def array_base(arr):
    return lambda idx: simp(z3.Select(arr, *idx))


def zarray(name, rank, sort):
    s = z3.RealSort() if sort == 'real' else z3.IntSort() if sort == 'int' else z3.BoolSort()
    return z3.Const(name, z3.ArraySort(*([z3.IntSort()] * rank), s))


class Ptr:
    __slots__ = ('region', 'args', 'off')

    def __init__(self, region, args=(), off=None):
        self.region, self.args = region, tuple(args)
        self.off = z3.IntVal(0) if off is None else off

    def subst(self, pairs):
        if self.region is None:
            return self
        return Ptr(self.region, tuple(subst(a, pairs) for a in self.args), subst(self.off, pairs))

    def terms(self):
        return list(self.args) + [self.off]

    def __repr__(self):
        return 'Ptr(%r,%s,%s)' % (self.region, self.args, self.off)


NULL = Ptr(None)
