"""Models (assumed contracts) of the numpy functions, list methods and builtins that the repository uses."""
import ast, itertools, math
import z3
from fractions import Fraction
from .core import Unsupported, SQRT
from .pyv import *
from .pyv import _fresh_idx
from . import py as P

PI = z3.Real('PI')


def is_scalar(v):
    return isz(v) or isinstance(v, (int, float, Fraction, bool))


# ---------------------------------------------------------------- conversion
def asarr(it, v):
    if isinstance(v, SArr):
        return v
    if is_scalar(v):
        c = num(v)
        return SArr([], lambda idx: c, kind(c))
    if isinstance(v, (PList, tuple, list, SSeq)):
        s = it.seq(v)
        if isinstance(s, list):
            if not s:
                return SArr([0], lambda idx: z3.RealVal(0), 'f')
            els = [asarr(it, x) for x in s]
            sh = els[0].shape
            for e in els[1:]:
                if len(e.shape) != len(sh):
                    raise P.Raised('ValueError')
                for a, b in zip(e.shape, sh):
                    if not it.same(a, b):
                        it.check('rows of equal length', num(a) == num(b), 'safety')
            dt = join([e.dtype for e in els])
            gs = [e.snap() for e in els]

            def f(idx):
                k = conc(idx[0])
                if isinstance(k, int):
                    if not 0 <= k < len(gs):
                        return cast(z3.IntVal(0) if dt != 'b' else z3.BoolVal(False), dt)
                    return cast(gs[k](idx[1:]), dt)
                out = cast(gs[-1](idx[1:]), dt)
                for q in range(len(gs) - 2, -1, -1):
                    out = ite(idx[0] == q, cast(gs[q](idx[1:]), dt), out)
                return out
            return SArr([len(s)] + list(sh), f, dt)
        i = it.ctx.fresh('int', 'i')
        e = asarr(it, s.get(i))
        if any(free_has(num(x), i) for x in e.shape):
            sh = []
            for x in e.shape:
                if free_has(num(x), i):
                    r = z3.And(i >= 0, i < num(s.n))
                    lits = [int(str(q)) for q in P._walk(num(x), set()) if z3.is_int_value(q)]
                    cands = sorted({abs(p - q) for p in lits + [0] for q in lits + [0]})
                    for c in cands:
                        if it.entails_full(z3.Implies(r, num(x) == c)):
                            x = c
                            break
                    else:
                        x0 = z3.substitute(num(x), (i, I0))
                        if not it.entails_full(z3.Implies(r, num(x) == x0)):
                            raise Unsupported('ragged array %s %s' % (num(x), cands))
                        x = x0
                sh.append(x)
            e = SArr(sh, e.snap(), e.dtype)
        g = e.snap()
        nd = e.ndim
        ph = _fresh_idx(nd)
        t = g(tuple(ph))
        return SArr([s.n] + list(e.shape), lambda idx: z3.substitute(t, *([(i, num(idx[0]))] + list(zip(ph, [num(x) for x in idx[1:]])))), e.dtype)
    if hasattr(v, 'py_array'):
        return v.py_array(it)
    raise Unsupported('array from %s' % type(v).__name__)


def asarr_if_list(it, v):
    return asarr(it, v) if isinstance(v, (PList, tuple, list)) else v


def join(ds):
    return 'f' if 'f' in ds else 'i' if 'i' in ds else 'b'


# ---------------------------------------------------------------- broadcasting
def bshape(it, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = 1
        for s in shapes:
            q = k - (nd - len(s))
            if q < 0:
                continue
            d = s[q]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif not it.same(cur, d):
                if isinstance(cur, int) and isinstance(d, int):
                    raise P.Raised('ValueError', ('shapes',))
                it.check('operands have the same shape', num(cur) == num(d), 'safety')
        out.append(cur)
    return out


def elementwise(it, f, *args, dtype=None):
    arrs = [a if isinstance(a, SArr) else asarr(it, a) for a in args]
    sh = bshape(it, [a.shape for a in arrs])
    gs = [(a.snap(), list(a.shape)) for a in arrs]
    nd = len(sh)

    def fn(idx):
        vs = []
        for g, s in gs:
            off = nd - len(s)
            vs.append(g(tuple(z3.IntVal(0) if isinstance(s[k], int) and s[k] == 1 and not (isinstance(sh[off + k], int) and sh[off + k] == 1) else idx[off + k] for k in range(len(s)))))
        return num(f(*vs))
    if dtype is None:
        dtype = kind(fn(tuple(_fresh_idx(nd))))
    r = SArr(sh, fn, dtype)
    if nd == 0:
        return r.get()
    return r


# ---------------------------------------------------------------- indexing
def norm_index(it, k, n, safe=False):
    k = conc(integer(k) if isz(k) else (int(k) if isinstance(k, Fraction) and k.denominator == 1 else k))
    if isinstance(k, bool) or not (isinstance(k, int) or isz(k)):
        raise Unsupported('index')
    if isinstance(k, int) and k < 0:
        if not safe:
            if not it.guards and it.entails_full(num(n) < -k):
                raise P.Raised('IndexError')
            it.check('index in range', num(n) >= -k, 'safety')
        return conc(num(n) + k)
    if not safe:
        if isinstance(k, int) and isinstance(n, int):
            if k >= n:
                raise P.Raised('IndexError')
        else:
            if isz(k) and not it.entails(num(k) >= 0):
                if it.entails(num(k) < 0):
                    k = num(k) + num(n)
                elif not it.entails_full(num(k) >= 0):
                    it.check('index in range (lower)', num(k) >= 0, 'safety')
            if not it.guards and it.entails_full(num(k) >= num(n)):
                raise P.Raised('IndexError')
            it.check('index in range', num(k) < num(n), 'safety')
    return k


def norm_slice(it, s, n):
    """-> (start, length)"""
    if s.step is not None and conc(s.step) != 1:
        raise Unsupported('slice step')

    def bound(v, dflt):
        if v is None:
            return dflt
        v = conc(integer(v) if isz(v) else v)
        if isinstance(v, Fraction):
            raise P.Raised('TypeError')
        if isinstance(v, int) and v < 0:
            v = conc(num(n) + v)
            if not it.entails(num(v) >= 0):
                v = z3.If(num(v) >= 0, num(v), I0)
            return v
        if isz(v) and not it.entails(v >= 0):
            if not it.entails_full(v >= 0):
                raise Unsupported('slice bound of unknown sign')
        if v is dflt or it.entails(num(v) <= num(n)) or it.entails_full(num(v) <= num(n)):
            return v
        if it.entails(num(v) >= num(n)):
            return n
        return z3.If(num(v) <= num(n), num(v), num(n))
    a, b = bound(s.start, 0), bound(s.stop, n)
    L = z3.simplify(num(b) - num(a))
    if not (it.entails(L >= 0) or it.entails_full(L >= 0)):
        L = z3.If(L >= 0, L, I0)
    return a, conc(L)


def arr_get(it, a, key, safe=False):
    key = key if isinstance(key, tuple) else (key,)
    if any(k is Ellipsis for k in key):
        p = [q for q, k in enumerate(key) if k is Ellipsis][0]
        used = sum(1 for k in key if k is not Ellipsis and k is not None)
        key = key[:p] + (slice(None),) * (a.ndim - used) + key[p + 1:]
    key = tuple(asarr(it, k) if isinstance(k, PList) else k for k in key)
    if any(isinstance(k, SArr) and k.ndim == 0 for k in key):
        key = tuple(k.get() if isinstance(k, SArr) and k.ndim == 0 else k for k in key)
    adv = [k for k in key if isinstance(k, SArr)]
    if adv:
        return arr_adv(it, a, key)
    used = sum(1 for k in key if k is not None)
    if used > a.ndim:
        raise P.Raised('IndexError')
    key = key + (slice(None),) * (a.ndim - used)
    maps, shape, dim, newax = [], [], 0, []
    for k in key:
        if k is None:
            newax.append(len(shape) + len(newax))
            continue
        n = a.shape[dim]
        if isinstance(k, slice):
            s, L = norm_slice(it, k, n)
            maps.append(('ax', len(shape), s))
            shape.append(L)
        else:
            maps.append(('fix', num(norm_index(it, k, n, safe))))
        dim += 1
    v = SArr(shape, None, a.dtype)
    v.parent = (a, maps)
    if newax:
        base = v
        full = []
        src = []
        q = 0
        for p in range(len(shape) + len(newax)):
            if p in newax:
                full.append(1)
            else:
                full.append(shape[q])
                src.append(p)
                q += 1
        return SArr(full, None, a.dtype, live=lambda: (lambda idx, g=base.snap(): g(tuple(idx[p] for p in src))))
    if not shape:
        return v.get()
    return v


def arr_adv(it, a, key):
    """one boolean mask or one integer index array (other entries: full slices or integers), result is a copy"""
    pos = [q for q, k in enumerate(key) if isinstance(k, SArr)]
    if len(pos) != 1:
        raise Unsupported('several index arrays')
    p = pos[0]
    m = key[p]
    if any(not isinstance(k, (slice, SArr)) for k in key):
        # integers first: take the sub-array
        fixed = tuple(k if not isinstance(k, (slice, SArr)) else slice(None) for k in key)
        b = arr_get(it, a, fixed)
        rest = tuple(k for k in key if isinstance(k, (slice, SArr)))
        return arr_adv(it, b, rest)
    for q, k in enumerate(key):
        if isinstance(k, slice) and (k.start is not None or k.stop is not None):
            kk = list(slice(None) if not (r == q) else k for r in range(len(key)))
            b = arr_get(it, a, tuple(kk))
            return arr_adv(it, b, tuple(slice(None) if r == q else key[r] for r in range(len(key))))
    g = a.snap()
    mg = m.snap()
    if m.dtype == 'b':
        if m.ndim == 1:
            n = m.shape[0]
            if not it.same(n, a.shape[p]):
                it.check('mask as long as the axis', num(n) == num(a.shape[p]), 'safety')
            cnt, sel, _ = it.gh.count(num(n), lambda j: mg((j,)))
            sh = list(a.shape)
            sh[p] = cnt(num(n))
            return SArr(sh, lambda idx: g(idx[:p] + (sel(idx[p]),) + idx[p + 1:]), a.dtype)
        raise Unsupported('mask of several dimensions')
    sh = list(a.shape[:p]) + list(m.shape) + list(a.shape[p + 1:])
    nd = m.ndim
    ph = _fresh_idx(nd)
    e = mg(tuple(ph))
    rng = z3.And(*[z3.And(x >= 0, x < num(s)) for x, s in zip(ph, m.shape)])
    it.check('indices in range', z3.Implies(rng, z3.And(e >= 0, e < num(a.shape[p]))), 'safety')
    return SArr(sh, lambda idx: g(idx[:p] + (mg(idx[p:p + nd]),) + idx[p + nd:]), a.dtype)


def arr_set(it, a, key, v):
    key = key if isinstance(key, tuple) else (key,)
    key = tuple(asarr(it, k) if isinstance(k, PList) else k for k in key)
    if isinstance(v, (PList, tuple)):
        v = asarr(it, v)
    adv = [k for k in key if isinstance(k, SArr)]
    if adv:
        if len(key) == 1 and adv[0].dtype == 'b' and adv[0].ndim == a.ndim and is_scalar(v):
            mg = adv[0].snap()
            a.root_write(it, lambda b: mg(tuple(b)), lambda b: num(v), {})
            return
        raise Unsupported('assignment through an index array')
    key = key + (slice(None),) * (a.ndim - len(key))
    fixed, sl, shape = {}, {}, []
    for d, k in enumerate(key):
        n = a.shape[d]
        if isinstance(k, slice):
            s, L = norm_slice(it, k, n)
            sl[d] = (s, L, len(shape), k.start is None and k.stop is None)
            shape.append(L)
        else:
            fixed[d] = num(norm_index(it, k, n))

    def pred(b):
        cs = [b[d] == t for d, t in fixed.items()]
        for d, (s, L, _, full) in sl.items():
            if not full:
                cs.append(z3.And(b[d] >= num(s), b[d] < num(s) + num(L)))
        return z3.And(*cs) if cs else z3.BoolVal(True)
    if is_scalar(v):
        a.root_write(it, pred, lambda b: num(v), fixed)
        return
    if not isinstance(v, SArr):
        raise Unsupported('assigning %s to an array' % type(v).__name__)
    vs = list(v.shape)
    while len(vs) > len(shape):
        if isinstance(vs[0], int) and vs[0] == 1:
            vs = vs[1:]
        else:
            raise P.Raised('ValueError')
    off = len(shape) - len(vs)
    for k, d in enumerate(vs):
        if isinstance(d, int) and d == 1:
            continue
        if not it.same(d, shape[off + k]):
            if isinstance(d, int) and isinstance(shape[off + k], int):
                raise P.Raised('ValueError')
            it.check('assigned block has the shape of the slice', num(d) == num(shape[off + k]), 'safety')
    g = v.snap()
    lead = v.ndim - len(vs)

    def val(b):
        own = {ax: b[d] - num(s) if not (isinstance(s, int) and s == 0) else b[d] for d, (s, L, ax, _) in sl.items()}
        return g(tuple([z3.IntVal(0)] * lead) + tuple(z3.IntVal(0) if isinstance(vs[k], int) and vs[k] == 1 and not (isinstance(shape[off + k], int) and shape[off + k] == 1) else own[off + k] for k in range(len(vs))))
    a.root_write(it, pred, val, fixed)


def prodshape(shape):
    r = 1
    for s in shape:
        r = r * s if isinstance(r, int) and isinstance(s, int) else num(r) * num(s)
    return conc(z3.simplify(r)) if isz(r) else r


def reshape(it, a, shape):
    shape = [conc(s) for s in shape]
    shape = [int(s) if isinstance(s, Fraction) else s for s in shape]
    tot = prodshape(a.shape)
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [q for q, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if len(k) > 1:
            raise P.Raised('ValueError')
        k = k[0]
        others = [s for q, s in enumerate(shape) if q != k]
        # cancel equal factors
        have = [s for s in a.shape if not (isinstance(s, int) and s == 1)]
        rest = list(have)
        ok = True
        num_rest = 1
        for o in others:
            if isinstance(o, int) and o == 1:
                continue
            m = next((r for r in rest if (isinstance(r, int) and isinstance(o, int) and r == o) or (not (isinstance(r, int) and isinstance(o, int)) and it.same(r, o))), None)
            if m is None:
                ok = False
                break
            rest.remove(m)
        if ok:
            shape[k] = prodshape(rest) if rest else 1
        else:
            o = prodshape(others)
            if isinstance(o, int) and isinstance(tot, int):
                if o == 0 or tot % o:
                    raise P.Raised('ValueError')
                shape[k] = tot // o
            elif isinstance(o, int) and o > 0:
                ir = [r for r in rest if isinstance(r, int)]
                pi = 1
                for r in ir:
                    pi *= r
                sy = [r for r in rest if not isinstance(r, int)]
                if pi % o == 0:
                    shape[k] = prodshape(sy + [pi // o])
                else:
                    it.check('reshape: size divisible', num(tot) % o == 0, 'safety')
                    shape[k] = num(tot) / o
            else:
                raise Unsupported('reshape')
    else:
        ns = prodshape(shape)
        if not it.same(ns, tot):
            if isinstance(ns, int) and isinstance(tot, int):
                raise P.Raised('ValueError')
            it.check('reshape: same number of elements', num(ns) == num(tot), 'safety')
    src = list(a.shape)
    one = lambda s: isinstance(s, int) and s == 1
    s1 = [s for s in src if not one(s)]
    s2 = [s for s in shape if not one(s)]
    if len(s1) == len(s2) and all(it.same(x, y) for x, y in zip(s1, s2)):
        def live():
            g = a.snap()

            def f(idx):
                vals = [idx[k] for k in range(len(shape)) if not one(shape[k])]
                out, q = [], 0
                for s in src:
                    if one(s):
                        out.append(z3.IntVal(0))
                    else:
                        out.append(vals[q])
                        q += 1
                return g(tuple(out))
            return f
        return SArr(shape, None, a.dtype, live=live)

    def live():
        g = a.snap()

        def f(idx):
            # common leading dimensions stay as they are
            out = []
            p = 0
            while p < len(src) and p < len(shape) and it.same(src[p], shape[p]):
                out.append(idx[p])
                p += 1
            rs, rd = src[p:], shape[p:]
            q = 0
            while q < len(rs) and q < len(rd) and it.same(rs[len(rs) - 1 - q], rd[len(rd) - 1 - q]):
                q += 1
            tail = [idx[len(shape) - q + t] for t in range(q)]
            ms, md = rs[:len(rs) - q], rd[:len(rd) - q]
            mi = idx[p:len(shape) - q]
            flat = z3.IntVal(0)
            for k, s in enumerate(md):
                flat = flat * num(s) + mi[k] if k else num(mi[k])
            dig = []
            rem = flat
            for k in range(len(ms) - 1, 0, -1):
                rem, r = P.divmod_sym(it, rem, ms[k])
                dig.insert(0, r)
            if ms:
                dig.insert(0, rem)
            return g(tuple(out + dig + tail))
        return f
    return SArr(shape, None, a.dtype, live=live)


def copyarr(a, dtype=None):
    g = a.snap()
    return SArr(a.shape, lambda idx: g(idx), dtype or a.dtype)


def transpose(a, perm=None):
    perm = perm or list(range(a.ndim))[::-1]
    sh = [a.shape[p] for p in perm]

    def live():
        g = a.snap()

        def f(idx):
            out = [None] * a.ndim
            for k, p in enumerate(perm):
                out[p] = idx[k]
            return g(tuple(out))
        return f
    return SArr(sh, None, a.dtype, live=live)


def arr_attr(it, a, name):
    M = P.Prim
    if name == 'shape':
        return tuple(a.shape)
    if name == 'T':
        return transpose(a)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        return prodshape(a.shape)
    if name == 'dtype':
        return P.Ext('dtype.' + a.dtype)
    if name == 'reshape':
        return M(lambda it, x, k: reshape(it, a, x[0] if len(x) == 1 and isinstance(x[0], (tuple,)) else (x[0].val if len(x) == 1 and isinstance(x[0], PList) else x)))
    if name in ('flatten', 'ravel'):
        def fl(it, x, k):
            r = reshape(it, a, [-1])
            return copyarr(r) if name == 'flatten' else r
        return M(fl)
    if name == 'copy':
        return M(lambda it, x, k: copyarr(a))
    if name == 'tolist':
        def tl(it, x, k):
            s = it.seq(a)
            if isinstance(s, list):
                return PList([y if not isinstance(y, SArr) else tl2(it, y) for y in s])
            return PList(s)
        return M(tl)
    if name == 'astype':
        def ast_(it, x, k):
            n = x[0]
            s = n if isinstance(n, str) else getattr(n, 'name', getattr(n, '__name__', ''))
            if isinstance(n, P.Prim):
                s = getattr(n, 'pyname', '')
            dt = 'b' if 'bool' in s else 'i' if 'int' in s else 'f' if 'float' in s else None
            if dt is None:
                raise Unsupported('astype')
            g = a.snap()
            if dt == 'i' and a.dtype == 'f':
                return SArr(a.shape, lambda idx: trunc(g(idx)), 'i')
            return SArr(a.shape, lambda idx: cast(g(idx), dt), dt)
        return M(ast_)
    for nm, f in (('sum', np_sum), ('max', np_max), ('min', np_min), ('any', np_any), ('all', np_all), ('mean', np_mean), ('dot', np_dot), ('cumsum', np_cumsum),
                  ('repeat', np_repeat), ('round', np_round)):
        if name == nm:
            return M(lambda it, x, k, f=f: f(it, a, *x, **k))
    if name == 'transpose':
        return M(lambda it, x, k: transpose(a, [conc(q) for q in (x[0] if x and isinstance(x[0], tuple) else x)] or None))
    if name == 'fill':
        return M(lambda it, x, k: a.root_write(it, lambda b: z3.BoolVal(True), lambda b: num(x[0]), {}))
    raise Unsupported('ndarray.' + name)


def tl2(it, a):
    return PList([y if not isinstance(y, SArr) else tl2(it, y) for y in it.tolist(a)])


def trunc(x):
    x = real(x)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def round_half_even(x):
    x = real(x)
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    h = z3.RealVal(1) / 2
    return z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))


# ---------------------------------------------------------------- numpy functions
def shp(it, s):
    if is_scalar(s):
        return [conc(integer(s)) if isz(s) else int(s)]
    return [conc(integer(x)) if isz(x) else int(x) for x in it.tolist(s)]


def dt_of(d, default='f'):
    if d is None:
        return default
    if isinstance(d, P.Prim):
        return {'int': 'i', 'float': 'f', 'bool': 'b'}.get(getattr(d, 'pyname', ''), default)
    s = d if isinstance(d, str) else getattr(d, 'name', '')
    return 'b' if 'bool' in s else 'i' if 'int' in s else 'f'


def np_zeros(it, shape=None, dtype=None, **k):
    s = shp(it, shape)
    d = dt_of(dtype)
    z = cast(0, d)
    for x in s:
        if isz(x) and not it.entails(x >= 0) and not it.entails_full(x >= 0):
            it.check('array dimension not negative', x >= 0, 'safety')
    return SArr(s, lambda idx: z, d)


def np_ones(it, shape=None, dtype=None, **k):
    d = dt_of(dtype)
    o = cast(1, d)
    return SArr(shp(it, shape), lambda idx: o, d)


def np_full(it, shape, fill_value, dtype=None):
    v = num(fill_value)
    return SArr(shp(it, shape), lambda idx: v, kind(v))


def np_zeros_like(it, a, **k):
    a = asarr(it, a)
    return SArr(a.shape, lambda idx: cast(0, a.dtype), a.dtype)


def np_eye(it, n, **k):
    n = conc(n)
    return SArr([n, n], lambda idx: ite(idx[0] == idx[1], z3.RealVal(1), z3.RealVal(0)), 'f')


def np_array(it, v, dtype=None, **k):
    a = asarr(it, v)
    if a.ndim == 0:
        return a
    return copyarr(a, dt_of(dtype, a.dtype))


def np_arange(it, a, b=None, step=None, **k):
    lo, hi = (0, a) if b is None else (a, b)
    if step is not None and conc(step) != 1:
        raise Unsupported('arange step')
    lo, hi = integer(lo), integer(hi)
    n = conc(z3.simplify(hi - lo))
    if isz(n) and not it.entails(n >= 0):
        n = z3.If(n >= 0, n, I0)
    return SArr([n], lambda idx: idx[0] + lo, 'i')


def np_where(it, c, a=None, b=None):
    if a is None:
        c = asarr(it, c)
        g = c.snap()
        if c.ndim != 1 or isinstance(conc(c.shape[0]), int) and conc(c.shape[0]) == 0:
            sh = [conc(n) for n in c.shape]
            if not all(isinstance(n, int) for n in sh) or math.prod(sh) > 16:
                raise Unsupported('where')
            hit = [ix for ix in itertools.product(*map(range, sh)) if it.ctx.branch(boolean(g(tuple(z3.IntVal(i) for i in ix))), 'where')]
            return tuple(asarr(it, PList([ix[a] for ix in hit])) if hit else PList([]) for a in range(c.ndim))
        cnt, sel, _ = it.gh.count(num(c.shape[0]), lambda j: boolean(g((j,))))
        return (SArr([cnt(num(c.shape[0]))], lambda idx: sel(idx[0]), 'i'),)
    ka = join([x.dtype if isinstance(x, SArr) else kind(num(x)) if is_scalar(x) else asarr(it, x).dtype for x in (a, b)])
    return elementwise(it, lambda x, y, z: ite(boolean(x), cast(y, ka), cast(z, ka)), c, a, b, dtype=ka)


def np_repeat(it, a, repeats, axis=None):
    a = asarr(it, a)
    r = conc(repeats)
    if axis is None:
        a = reshape(it, a, [-1])
        axis = 0
    ax = conc(axis)
    ax = ax + a.ndim if ax < 0 else ax
    if isinstance(repeats, (SArr, PList)):
        raise Unsupported('repeat with an array')
    sh = list(a.shape)
    g = a.snap()
    one = isinstance(sh[ax], int) and sh[ax] == 1
    old = sh[ax]
    sh[ax] = conc(z3.simplify(num(old) * num(r)))

    def f(idx):
        if one:
            q = z3.IntVal(0)
        elif isinstance(r, int) and r == 1:
            q = idx[ax]
        else:
            q = P.divmod_sym(it, idx[ax], r)[0]
        return g(idx[:ax] + (q,) + idx[ax + 1:])
    return SArr(sh, f, a.dtype)


def np_tile(it, a, reps):
    a = asarr(it, a)
    r = shp(it, reps)
    if len(r) < a.ndim:
        r = [1] * (a.ndim - len(r)) + r
    sh0 = [1] * (len(r) - a.ndim) + list(a.shape)
    g = a.snap()
    sh = [conc(z3.simplify(num(x) * num(y))) for x, y in zip(sh0, r)]
    off = len(r) - a.ndim

    def f(idx):
        out = []
        for k in range(a.ndim):
            if isinstance(r[off + k], int) and r[off + k] == 1:
                out.append(idx[off + k])
            else:
                out.append(P.divmod_sym(it, idx[off + k], sh0[off + k])[1])
        return g(tuple(out))
    return SArr(sh, f, a.dtype)


def np_concatenate(it, arrs, axis=0):
    l = [asarr(it, x) for x in it.tolist(arrs)]
    ax = conc(axis)
    nd = l[0].ndim
    ax = ax + nd if ax < 0 else ax
    for a in l[1:]:
        for k in range(nd):
            if k != ax and not it.same(a.shape[k], l[0].shape[k]):
                if isinstance(a.shape[k], int) and isinstance(l[0].shape[k], int):
                    raise P.Raised('ValueError')
                it.check('concatenated arrays agree in the other dimensions', num(a.shape[k]) == num(l[0].shape[k]), 'safety')
    dt = join([a.dtype for a in l])
    offs = [z3.IntVal(0)]
    for a in l:
        offs.append(z3.simplify(offs[-1] + num(a.shape[ax])))
    gs = [a.snap() for a in l]

    def f(idx):
        out = cast(gs[-1](idx[:ax] + (z3.simplify(idx[ax] - offs[len(l) - 1]),) + idx[ax + 1:]), dt)
        for q in range(len(l) - 2, -1, -1):
            out = ite(idx[ax] < offs[q + 1], cast(gs[q](idx[:ax] + (z3.simplify(idx[ax] - offs[q]),) + idx[ax + 1:]), dt), out)
        return out
    sh = list(l[0].shape)
    sh[ax] = conc(offs[-1])
    return SArr(sh, f, dt)


def np_vstack(it, arrs):
    l = [asarr(it, x) for x in it.tolist(arrs)]
    l = [reshape(it, a, [1, a.shape[0]]) if a.ndim == 1 else a for a in l]
    return np_concatenate(it, PList(l), 0)


def np_hstack(it, arrs):
    l = [asarr(it, x) for x in it.tolist(arrs)]
    return np_concatenate(it, PList(l), 0 if l[0].ndim == 1 else 1)


def np_stack(it, arrs, axis=0):
    l = [asarr(it, x) for x in it.tolist(arrs)]
    ax = conc(axis)
    ax = ax + l[0].ndim + 1 if ax < 0 else ax
    return np_concatenate(it, PList([arr_get(it, a, tuple([slice(None)] * ax + [None])) for a in l]), ax)


def np_insert(it, a, pos, v, axis=None):
    a, v = asarr(it, a), asarr(it, v)
    if conc(pos) != 0:
        raise Unsupported('insert')
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('insert')
        axis = 0
    ax = conc(axis)
    if v.ndim == a.ndim - 1:
        v = arr_get(it, v, tuple([slice(None)] * ax + [None]))
    return np_concatenate(it, PList([v, a]), ax)


def reduce_axes(it, a, axis):
    if axis is None:
        return list(range(a.ndim))
    ax = [conc(x) for x in (axis if isinstance(axis, tuple) else (axis,))]
    return [x + a.ndim if x < 0 else x for x in ax]


def fold(it, a, axis, comb, sym, keepdims=False):
    """reduce over one axis (or all): concrete lengths by comb, symbolic ones by sym(n, elem)"""
    a = asarr(it, a)
    axes = reduce_axes(it, a, axis)
    if axis is None and a.ndim > 1:
        # all axes: innermost concrete ones first, symbolic dimensions flattened
        r = a
        for ax in sorted(axes, reverse=True):
            r = fold(it, r, ax, comb, sym)
        return r
    ax = axes[0]
    g = a.snap()
    n = a.shape[ax]
    sh = list(a.shape[:ax]) + ([1] if keepdims else []) + list(a.shape[ax + 1:])

    def f(idx):
        pre, post = idx[:ax], idx[ax + (1 if keepdims else 0):]
        el = lambda k: g(pre + (num(k),) + post)
        if isinstance(n, int):
            return comb([el(k) for k in range(n)])
        return sym(num(n), el)
    if not sh:
        return f(())
    return SArr(sh, f, kind(f(tuple(_fresh_idx(len(sh))))))


def np_sum(it, a, axis=None, keepdims=False, **k):
    return fold(it, a, axis, lambda l: ssum([num_a(x) for x in l]), lambda n, el: it.gh.sum(n, lambda j: num_a(el(j)))[0](n), keepdims)


def num_a(x):
    x = num(x)
    return integer(x) if z3.is_bool(x) else x


def ssum(l):
    r = l[0] if l else z3.RealVal(0)
    for x in l[1:]:
        r = r + x
    return r


def np_mean(it, a, axis=None, **k):
    a = asarr(it, a)
    s = np_sum(it, a, axis)
    n = prodshape([a.shape[x] for x in reduce_axes(it, a, axis)])
    return it.binop(ast.Div(), s, n)


def it_product(it, *seqs, repeat=1):
    """lexicographic product, last factor fastest"""
    seqs = [it.seq(q) for q in seqs] * (repeat if isinstance(repeat, int) else 1)
    if all(isinstance(q, (list, tuple)) for q in seqs):
        import itertools as _it
        return [tuple(c) for c in _it.product(*seqs)]
    ns = [num(q.n) if isinstance(q, SSeq) else z3.IntVal(len(q)) for q in seqs]
    gets = [q.get if isinstance(q, SSeq) else (lambda k, q=q: pick_list(it, list(q), k)) for q in seqs]
    tot = ns[0]
    for x in ns[1:]:
        tot = tot * x

    def get(k):
        out, rem = [], k
        for x, g in zip(reversed(ns[1:]), reversed(gets[1:])):
            rem, r = P.divmod_sym(it, rem, x)
            out.append(g(r))
        out.append(gets[0](rem))
        return tuple(reversed(out))
    return SSeq(z3.simplify(tot), get)


def np_count_nonzero(it, a, axis=None):
    a = asarr(it, a)
    g = a.snap()
    b = SArr(a.shape, lambda idx: boolean(g(idx)), 'b')
    return fold(it, b, axis, lambda l: ssum([integer(x) for x in l]), lambda n, el: it.gh.sum(n, lambda j: num_a(el(j)))[0](n))


def np_max(it, a, axis=None, **k):
    a = asarr(it, a)
    def comb(l):
        if not l:
            raise P.Raised('ValueError')
        r = l[0]
        for x in l[1:]:
            r = z3.If(x > r, x, r)
        return r
    return fold(it, a, axis, comb, lambda n, el: it.gh.maximum(n, el)[0](n))


def np_min(it, a, axis=None, **k):
    a = asarr(it, a)
    g = a.snap()
    neg = SArr(a.shape, lambda idx: -num_a(g(idx)), a.dtype)
    r = np_max(it, neg, axis)
    return elementwise(it, lambda x: -x, r) if isinstance(r, SArr) else -num(r)


def np_any(it, a, axis=None, **k):
    return fold(it, a, axis, lambda l: z3.Or(*[boolean(x) for x in l]), lambda n, el: it.gh.count(n, lambda j: boolean(el(j)))[0](n) > 0)


def np_all(it, a, axis=None, **k):
    return fold(it, a, axis, lambda l: z3.And(*[boolean(x) for x in l]), lambda n, el: it.gh.count(n, lambda j: z3.Not(boolean(el(j))))[0](n) == 0)


def np_power(it, a, b):
    return it.binop(ast.Pow(), a if isinstance(a, SArr) else asarr_if_list(it, a), b)


def np_norm(it, a, ord=None, axis=None, keepdims=False):
    a = asarr(it, a)
    sq = elementwise(it, lambda x: real(x) * real(x), a)
    s = np_sum(it, sq, axis, keepdims)
    return elementwise(it, lambda x: it.ctx.sqrt(real(x)), s) if isinstance(s, SArr) else it.ctx.sqrt(real(s))


def np_dot(it, a, b):
    a, b = asarr(it, a), asarr(it, b)
    if a.ndim == 0 or b.ndim == 0:
        return it.binop(ast.Mult(), a, b)
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not it.same(n, m):
        if isinstance(n, int) and isinstance(m, int):
            raise P.Raised('ValueError')
        it.check('inner dimensions agree', num(n) == num(m), 'safety')
    ga, gb = a.snap(), b.snap()
    na = a.ndim - 1
    sh = list(a.shape[:-1]) + (list(b.shape[:-2]) + [b.shape[-1]] if b.ndim > 1 else [])

    def f(idx):
        ia, ib = idx[:na], idx[na:]
        el = lambda k: real(ga(ia + (num(k),))) * real(gb((num(k),) if b.ndim == 1 else ib[:-1] + (num(k),) + ib[-1:]))
        if isinstance(n, int):
            return ssum([el(k) for k in range(n)])
        return it.gh.sum(num(n), el)[0](num(n))
    if not sh:
        return f(())
    return SArr(sh, f, 'f')


def np_argsort(it, a, axis=-1, kind=None):
    a = asarr(it, a)
    if a.ndim != 1:
        raise Unsupported('argsort of several dimensions')
    g = a.snap()
    n = num(a.shape[0])
    p, inv, fam = it.gh.perm(n, lambda j: g((j,)), kind in ('stable', 'mergesort'))
    return SArr([a.shape[0]], lambda idx: p(idx[0]), 'i')


def np_sort(it, a, **k):
    a = asarr(it, a)
    if a.ndim != 1:
        raise Unsupported('sort of several dimensions')
    g = a.snap()
    p, inv, fam = it.gh.perm(num(a.shape[0]), lambda j: g((j,)), False)
    return SArr([a.shape[0]], lambda idx: g((p(idx[0]),)), a.dtype)


def np_meshgrid(it, *xs, indexing='xy'):
    if indexing != 'ij':
        raise Unsupported('meshgrid')
    xs = [asarr(it, x) for x in xs]
    sh = [x.shape[0] for x in xs]
    return PList([SArr(sh, lambda idx, k=k, g=x.snap(): g((idx[k],)), x.dtype) for k, x in enumerate(xs)])


def np_round(it, a, decimals=0):
    d = conc(decimals)
    if not isinstance(d, int) or not 0 <= d <= 12:
        raise Unsupported('round to decimals')
    if d:
        f = lambda x: z3.ToReal(round_half_even(real(x) * 10 ** d)) / 10 ** d
        return elementwise(it, f, a) if isinstance(a, SArr) else f(a)
    return elementwise(it, lambda x: real(round_half_even(x)), a) if isinstance(a, SArr) else z3.ToReal(round_half_even(a))


def np_ceil(it, a):
    f = lambda x: z3.ToReal(-z3.ToInt(-real(x)))
    return elementwise(it, f, a) if isinstance(a, SArr) else f(a)


def np_floor(it, a):
    f = lambda x: z3.ToReal(z3.ToInt(real(x)))
    return elementwise(it, f, a) if isinstance(a, SArr) else f(a)


def np_diff(it, a, axis=-1):
    a = asarr(it, a)
    ax = conc(axis)
    ax = ax + a.ndim if ax < 0 else ax
    g = a.snap()
    sh = list(a.shape)
    sh[ax] = conc(z3.simplify(num(sh[ax]) - 1))
    return SArr(sh, lambda idx: g(idx[:ax] + (idx[ax] + 1,) + idx[ax + 1:]) - g(idx), a.dtype)


def np_cumsum(it, a, axis=None):
    a = asarr(it, a)
    if a.ndim != 1:
        raise Unsupported('cumsum')
    g = a.snap()
    n = a.shape[0]
    if isinstance(n, int):
        return asarr(it, PList([ssum([num_a(g((z3.IntVal(q),))) for q in range(k + 1)]) for k in range(n)]))
    s, _ = it.gh.sum(num(n), lambda j: num_a(g((j,))))
    return SArr([n], lambda idx: s(idx[0] + 1), a.dtype if a.dtype != 'b' else 'i')


def np_array_equal(it, a, b):
    a, b = asarr(it, a), asarr(it, b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not it.same(x, y):
            raise Unsupported('array_equal of unknown shapes')
    return np_all(it, elementwise(it, lambda x, y: P.cmp_op(ast.Eq, x, y), a, b, dtype='b'))


def np_absolute(it, a):
    f = lambda x: z3.If(num_a(x) >= 0, num_a(x), -num_a(x))
    return elementwise(it, f, a) if isinstance(a, (SArr, PList)) else conc(f(a))


def np_inv(it, m):
    m = asarr(it, m)
    if [conc(s) for s in m.shape] != [3, 3]:
        raise Unsupported('inverse')
    g = m.snap()
    e = [[real(g((z3.IntVal(i), z3.IntVal(j)))) for j in range(3)] for i in range(3)]
    d = det3(e)
    def cof(i, j):
        r = [k for k in range(3) if k != i]
        c = [k for k in range(3) if k != j]
        s = 1 if (i + j) % 2 == 0 else -1
        return s * (e[r[0]][c[0]] * e[r[1]][c[1]] - e[r[0]][c[1]] * e[r[1]][c[0]])
    it.check('matrix is invertible', d != 0, 'safety')
    return asarr(it, PList([PList([cof(j, i) / d for j in range(3)]) for i in range(3)]))


def det3(e):
    return (e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0])
            + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]))


def unary(f):
    def g(it, a, *x, **k):
        a = asarr_if_list(it, a)
        return elementwise(it, lambda v: f(it, v), a) if isinstance(a, SArr) else f(it, a)
    return g


def extreme(greater):
    def pick(x, y):
        x, y = real(x), real(y)
        return z3.If(x >= y if greater else x <= y, x, y)

    def g(it, a, b):
        a, b = asarr_if_list(it, a), asarr_if_list(it, b)
        return elementwise(it, pick, a, b) if isinstance(a, SArr) or isinstance(b, SArr) else pick(a, b)
    return g


NP = {
    'maximum': extreme(True), 'minimum': extreme(False),
    'zeros': np_zeros, 'ones': np_ones, 'eye': np_eye, 'identity': np_eye, 'array': np_array, 'asarray': lambda it, v, **k: asarr(it, v), 'arange': np_arange,
    'where': np_where, 'repeat': np_repeat, 'tile': np_tile, 'concatenate': np_concatenate, 'vstack': np_vstack, 'hstack': np_hstack, 'stack': np_stack,
    'insert': np_insert, 'sum': np_sum, 'mean': np_mean, 'average': np_mean, 'count_nonzero': np_count_nonzero, 'max': np_max, 'amax': np_max, 'min': np_min,
    'amin': np_min, 'any': np_any, 'all': np_all, 'power': np_power, 'linalg.norm': np_norm, 'dot': np_dot, 'matmul': np_dot, 'argsort': np_argsort,
    'sort': np_sort, 'meshgrid': np_meshgrid, 'round': np_round, 'rint': np_round, 'ceil': np_ceil, 'floor': np_floor, 'diff': np_diff, 'cumsum': np_cumsum,
    'array_equal': np_array_equal, 'abs': np_absolute, 'absolute': np_absolute, 'fabs': np_absolute, 'linalg.inv': np_inv, 'full': np_full, 'zeros_like': np_zeros_like,
    'reciprocal': unary(lambda it, v: 1 / real(v)), 'sqrt': unary(lambda it, v: it.ctx.sqrt(real(v))), 'square': unary(lambda it, v: real(v) * real(v)),
    'logical_not': unary(lambda it, v: z3.Not(boolean(v))), 'negative': unary(lambda it, v: -num_a(v)),
    'transpose': lambda it, a, axes=None: transpose(asarr(it, a), [conc(x) for x in it.tolist(axes)] if axes is not None else None),
    'reshape': lambda it, a, s: reshape(it, asarr(it, a), it.tolist(s) if not is_scalar(s) else [s]),
    'ravel': lambda it, a: reshape(it, asarr(it, a), [-1]), 'copy': lambda it, a: copyarr(asarr(it, a)),
    'expand_dims': lambda it, a, axis: arr_get(it, asarr(it, a), tuple([slice(None)] * conc(axis) + [None])) if conc(axis) >= 0 else arr_get(it, asarr(it, a), (Ellipsis, None)),
    'multiply': lambda it, a, b: it.binop(ast.Mult(), a, b), 'add': lambda it, a, b: it.binop(ast.Add(), a, b), 'subtract': lambda it, a, b: it.binop(ast.Sub(), a, b),
    'divide': lambda it, a, b: it.binop(ast.Div(), a, b),
    'logical_and': lambda it, a, b: it.binop(ast.BitAnd(), a, b), 'logical_or': lambda it, a, b: it.binop(ast.BitOr(), a, b),
    'less': lambda it, a, b: it.compare(ast.Lt(), a, b), 'greater': lambda it, a, b: it.compare(ast.Gt(), a, b), 'equal': lambda it, a, b: it.compare(ast.Eq(), a, b),
}
EXTERNALS = {'np.' + k: v for k, v in NP.items()}
NPCONST = {'np.newaxis': None, 'np.pi': PI}


# ---------------------------------------------------------------- lists
def pick_list(it, l, k):
    k = conc(k)
    if isinstance(k, int):
        return l[k]
    out = l[-1]
    for q in range(len(l) - 2, -1, -1):
        out = it.mergev(k == q, l[q], out)
        if isinstance(out, P.Poison):
            raise Unsupported('selection from a heterogeneous list')
    return out


def list_get(it, o, key):
    v = o.val if isinstance(o, PList) else o
    if isinstance(v, AppendLog):
        raise Unsupported('read of a list being built')
    n = len(v) if isinstance(v, (list, tuple)) else v.n
    if isinstance(key, slice):
        if isinstance(v, (list, tuple)):
            ks = [conc(x) for x in (key.start, key.stop, key.step)]
            if all(x is None or isinstance(x, int) for x in ks):
                r = v[slice(*ks)]
                return PList(list(r)) if isinstance(v, list) else r
            v = SSeq(len(v), lambda k, l=v: pick_list(it, l, k))
        s, L = norm_slice(it, key, n)
        return PList(SSeq(L, lambda k: v.get(z3.simplify(k + num(s)))))
    if isinstance(key, SArr) and key.ndim == 0:
        key = key.get()
    k = norm_index(it, key, n)
    if isinstance(v, (list, tuple)):
        if isinstance(k, int):
            return v[k]
        return pick_list(it, v, k)
    return v.get(num(k))


def list_op(it, t, a, b):
    if t is ast.Add:
        x, y = (q.val if isinstance(q, PList) else q for q in (a, b))
        if isinstance(x, list) and isinstance(y, list):
            return PList(x + y)
        nx = len(x) if isinstance(x, list) else x.n
        ny = len(y) if isinstance(y, list) else y.n
        gx = (lambda k: pick_list(it, x, k)) if isinstance(x, list) else x.get
        gy = (lambda k: pick_list(it, y, k)) if isinstance(y, list) else y.get

        def get(k):
            if it.entails(k < num(nx)):
                return gx(k)
            if it.entails(k >= num(nx)):
                return gy(z3.simplify(k - num(nx)))
            return it.mergev(k < num(nx), gx(k), gy(k - num(nx)))
        return PList(SSeq(z3.simplify(num(nx) + num(ny)), get))
    if t is ast.Mult:
        l, m = (a, b) if isinstance(a, PList) else (b, a)
        v = l.val
        m = conc(integer(m) if isz(m) else m)
        if isinstance(m, Fraction):
            raise P.Raised('TypeError')
        if isinstance(v, list) and isinstance(m, int):
            return PList(v * m)
        n = len(v) if isinstance(v, list) else v.n
        g = (lambda k: pick_list(it, v, k)) if isinstance(v, list) else v.get
        base = getattr(v, 'period', None)
        if base is not None:          # repetition of a repetition
            n0, g0 = base
        else:
            n0, g0 = n, g
        r = SSeq(z3.simplify(num(n) * num(m)), lambda k: g0(P.divmod_sym(it, k, n0)[1]))
        r.period = (n0, g0)
        return PList(r)
    raise Unsupported('list operator')


def list_method(it, o, name, a, k):
    v = o.val
    if name == 'append':
        if isinstance(v, AppendLog):
            it.setslot(o, 'val', AppendLog(v.token, v.items + [(z3.BoolVal(True), frozen(it, a[0]))]))
        elif isinstance(v, list):
            it.setslot(o, 'val', v + [a[0]])
        else:
            x = frozen(it, a[0])
            n = num(v.n)
            new = SSeq(n + 1, lambda q: v.get(q) if it.entails(q < n) else x if it.entails(q == n) else it.mergev(q < n, v.get(q), x))
            new.segs = segs_of(v) + [(1, lambda k: x)]
            it.setslot(o, 'val', new)
        return None
    if name == 'extend':
        if isinstance(v, AppendLog):
            for x in it.tolist(a[0]):
                list_method(it, o, 'append', [x], {})
            return None
        r = list_op(it, ast.Add, o, a[0] if isinstance(a[0], PList) else PList(it.seq(a[0])))
        it.setslot(o, 'val', r.val)
        return None
    if name == 'insert' and isinstance(v, (list, SSeq)):
        p = conc(a[0])
        if isinstance(v, list) and isinstance(p, int):
            l = list(v)
            l.insert(p, a[1])
            it.setslot(o, 'val', l)
            return None
        if p == 0:
            r = list_op(it, ast.Add, PList([a[1]]), o)
            it.setslot(o, 'val', r.val)
            return None
    if name == 'index':
        if isinstance(v, SSeq) and v.inv is not None:
            val, ok = v.inv(num(a[0]))
            it.check('element in list', ok, 'safety')
            return val
        if isinstance(v, list) and all(not isz(x) for x in v) and not isz(a[0]):
            if a[0] not in v:
                raise P.Raised('ValueError')
            return v.index(a[0])
        if isinstance(v, list) and v and all(isinstance(conc(x), int) or isz(x) for x in v) and isz(a[0]):
            x = num(a[0])
            it.check('element in list', z3.Or(*[x == num(y) for y in v]), 'safety')
            out = z3.IntVal(len(v) - 1)
            for q in range(len(v) - 2, -1, -1):
                out = z3.If(x == num(v[q]), z3.IntVal(q), out)
            return out
    if name == 'copy':
        return PList(v)
    if name == 'sort':
        r = py_sorted(it, o, **k)
        it.setslot(o, 'val', r.val)
        return None
    if name == 'count' and isinstance(v, list):
        return ssum([integer(it.compare(ast.Eq(), x, a[0])) for x in v])
    if name == 'pop' and isinstance(v, list) and (not a or isinstance(conc(a[0]), int)):
        l = list(v)
        if not l:
            raise P.Raised('IndexError')
        x = l.pop(*[conc(y) for y in a])
        it.setslot(o, 'val', l)
        return x
    if name == 'remove' and isinstance(v, list) and len(a) == 1 and isinstance(a[0], str) and all(isinstance(x, str) for x in v):
        l = list(v)
        if a[0] not in l:
            raise P.Raised('ValueError')
        l.remove(a[0])
        it.setslot(o, 'val', l)
        return None
    if name == 'reverse' and isinstance(v, list):
        it.setslot(o, 'val', v[::-1])
        return None
    raise Unsupported('list.' + name)


def frozen(it, v):
    """arrays put in a list inside a summarised loop keep their present content"""
    return v


def dict_method(it, o, name, a, k):
    v = o.val
    if not isinstance(v, dict):
        raise Unsupported('dict.%s' % name)
    if name == 'update':
        d = dict(v)
        if a:
            if not isinstance(a[0].val, dict):
                raise Unsupported('update')
            d.update(a[0].val)
        d.update(k)
        it.setslot(o, 'val', d)
        return None
    if name == 'keys':
        return PList(list(v.keys()))
    if name == 'values':
        return PList(list(v.values()))
    if name == 'items':
        return PList([tuple(x) for x in v.items()])
    if name == 'get':
        key = conc(a[0])
        if isz(key) or isinstance(key, SymStr):
            return it.symkey(o, key)
        return v.get(key, a[1] if len(a) > 1 else None)
    if name == 'pop':
        key = conc(a[0])
        d = dict(v)
        if key not in d:
            if len(a) > 1:
                return a[1]
            raise P.Raised('KeyError')
        x = d.pop(key)
        it.setslot(o, 'val', d)
        return x
    if name == 'copy':
        return PDict(dict(v))
    raise Unsupported('dict.' + name)


# ---------------------------------------------------------------- builtins
def py_range(it, *a):
    a = [conc(integer(x) if isz(x) else x) for x in a]
    if any(isinstance(x, Fraction) for x in a):
        raise P.Raised('TypeError')
    if len(a) == 3 and a[2] != 1:
        if all(isinstance(x, int) for x in a):
            return PList(list(range(*a)))
        raise Unsupported('range step')
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if isinstance(lo, int) and isinstance(hi, int):
        return PList(list(range(lo, hi)))
    n = z3.simplify(num(hi) - num(lo))
    if not (it.entails(n >= 0) or it.entails_full(n >= 0)):
        n = z3.If(n >= 0, n, I0)
    r = PList(SSeq(n, lambda k: z3.simplify(num(k) + num(lo)) if not (isinstance(lo, int) and lo == 0) else num(k)))
    r.rng = (num(lo), num(hi))
    if isinstance(lo, int) and lo == 0:
        r.val.inv = lambda b: (b, z3.And(b >= 0, b < num(hi)))
    return r


def py_len(it, v):
    if isinstance(v, SArr):
        return v.shape[0]
    if isinstance(v, PList):
        v = v.val
    if isinstance(v, (list, tuple, str)):
        return len(v)
    if isinstance(v, SSeq):
        return conc(v.n)
    if isinstance(v, PDict):
        return len(v.val) if isinstance(v.val, dict) else conc(v.val.n)
    if isinstance(v, AppendLog):
        raise Unsupported('length of a list being built')
    if hasattr(v, 'py_len'):
        return v.py_len(it)
    if isinstance(v, Obj) and isinstance(v.cls, P.Cls) and v.cls.find(it, '__len__'):
        return it.method(v, '__len__')
    raise Unsupported('len of %s' % type(v).__name__)


def py_enumerate(it, v, start=0):
    s = it.seq(v)
    if isinstance(s, list):
        return PList([(k + start, x) for k, x in enumerate(s)])
    return PList(SSeq(s.n, lambda k: (num(k) + start if start else num(k), s.get(k))))


def py_zip(it, *vs):
    ss = [it.seq(v) for v in vs]
    if all(isinstance(s, list) for s in ss):
        return PList([tuple(x) for x in zip(*ss)])
    n = None
    for s in ss:
        m = num(len(s) if isinstance(s, list) else s.n)
        if n is None or it.same(n, m):
            n = m
        else:
            raise Unsupported('zip of different lengths')
    return PList(SSeq(n, lambda k: tuple(s.get(k) if isinstance(s, SSeq) else pick_list(it, s, k) for s in ss)))


def py_int(it, v=0):
    v = conc(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise P.Raised('ValueError')
    if isz(v):
        return v if z3.is_int(v) else integer(v) if z3.is_bool(v) else trunc(v)
    if isinstance(v, SArr) and all(isinstance(s, int) and s == 1 for s in v.shape):
        return py_int(it, v.get(*([0] * v.ndim)))
    if isinstance(v, Obj) and 'int' in v.hooks:
        return v.hooks['int'](it, v)
    if hasattr(v, 'py_int'):
        return v.py_int(it)
    raise Unsupported('int()')


def py_float(it, v=0):
    v = conc(v)
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, str):
        if v.lower().lstrip('+-') in ('inf', 'infinity'):
            return -INF if v[0] == '-' else INF
        try:
            return Fraction(v)
        except ValueError:
            raise P.Raised('ValueError')
    if isz(v):
        return real(v)
    if isinstance(v, Obj) and 'float' in v.hooks:
        return v.hooks['float'](it, v)
    if hasattr(v, 'py_float'):
        return v.py_float(it)
    raise Unsupported('float()')


def py_abs(it, v):
    if isinstance(v, (int, Fraction)):
        return abs(v)
    return np_absolute(it, v)


INF = z3.Real('INF')        # above every number a unit declares finite


def py_round(it, v, nd=None):
    if nd is not None:
        return np_round(it, v, nd)
    v = conc(v)
    if isinstance(v, (int, Fraction)):
        return round(v)
    return v if z3.is_int(v) else round_half_even(v)


def py_sum(it, v, start=0):
    if isinstance(v, SArr):
        if v.ndim == 1:
            return np_sum(it, v)
        if v.ndim > 1:
            return np_sum(it, v, 0)
    s = it.seq(v)
    if isinstance(s, list):
        r = start
        for x in s:
            r = it.binop(ast.Add(), r, x)
        return r
    g, _ = it.gh.sum(num(s.n), lambda j: num_a(s.get(j)))
    return g(num(s.n))


def py_minmax(op):
    def f(it, *a, **k):
        if k:
            raise Unsupported('min/max options')
        if len(a) == 1:
            s = it.seq(a[0])
            if isinstance(s, SSeq):
                return np_max(it, asarr(it, PList(s))) if op == 'max' else np_min(it, asarr(it, PList(s)))
        else:
            s = list(a)
        if not s:
            raise P.Raised('ValueError')
        r = s[0]
        for x in s[1:]:
            c = it.compare(ast.Gt() if op == 'max' else ast.Lt(), x, r)
            r = (x if c else r) if isinstance(c, bool) else ite(c, num(x), num(r))
        return r
    return f


def py_sorted(it, v, key=None, reverse=False):
    if it.truth(reverse) is not False:
        raise Unsupported('reverse sort')
    if isinstance(v, P.Obj) and 'sorted' in v.hooks and key is None:
        return v.hooks['sorted'](it, v)
    s = it.seq(v)
    kf = (lambda x: it.call(key, [x])) if key is not None else (lambda x: x)
    if isinstance(s, list):
        ks = [conc(kf(x)) for x in s]
        if all(isinstance(x, (int, Fraction, str)) for x in ks):
            return PList([s[q] for q in sorted(range(len(s)), key=lambda q: ks[q])])
        raise Unsupported('sorting a concrete list by symbolic keys')
    n = num(s.n)

    def kk(j):
        r = kf(s.get(j))
        if not is_scalar(r):
            raise Unsupported('sort key')
        return num(r)
    p, inv, fam = it.gh.perm(n, kk, True)
    r = SSeq(s.n, lambda k: s.get(p(k)))
    if s.inv is not None:
        r.inv = lambda b: (inv(s.inv(b)[0]), s.inv(b)[1])
    return PList(r)


def py_list(it, v=None):
    if v is None:
        return PList([])
    return PList(it.seq(v))


def py_tuple(it, v=()):
    return tuple(it.tolist(v))


def py_str(it, v=''):
    v = conc(v)
    if isinstance(v, (str, SymStr)):
        return v
    if isinstance(v, Obj) and 'str' in v.hooks:
        return v.hooks['str'](it, v)
    if isinstance(v, int):
        return str(v)
    return P.Text([('', v)])


def py_isinstance(it, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = False
    for x in ts:
        if isinstance(x, P.Cls):
            if isinstance(v, Obj) and isinstance(v.cls, P.Cls):
                def sub_(c):
                    return c.name == x.name or any(isinstance(b, P.Cls) and sub_(b) for b in c.bases(it))
                out = out or sub_(v.cls)
            continue
        nm = getattr(x, 'pyname', None) or getattr(x, 'name', '')
        if nm == 'int':
            out = out or isinstance(v, int) or isz(v) and z3.is_int(v)
        elif nm == 'float':
            out = out or isinstance(v, Fraction) or isz(v) and z3.is_real(v)
        elif nm == 'bool':
            out = out or isinstance(v, bool) or isz(v) and z3.is_bool(v)
        elif nm == 'str':
            out = out or isinstance(v, (str, SymStr))
        elif nm == 'list':
            out = out or isinstance(v, PList)
        elif nm.endswith('ndarray'):
            out = out or isinstance(v, SArr)
        else:
            raise Unsupported('isinstance ' + nm)
    return out


def py_setattr(it, o, name, v):
    it.setslot(o, name, v)


def py_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except Unsupported:
        return False


def py_map(it, f, v):
    s = it.seq(v)
    if isinstance(s, list):
        return PList([it.call(f, [x]) for x in s])
    return PList(SSeq(s.n, lambda k: it.call(f, [s.get(k)])))


def py_all(it, v):
    s = it.seq(v)
    if isinstance(s, list):
        rs = [it.truth(x) for x in s]
        if all(isinstance(r, bool) for r in rs):
            return all(rs)
        return z3.And(*[num(r) for r in rs])
    return it.gh.count(num(s.n), lambda j: z3.Not(boolean(s.get(j))))[0](num(s.n)) == 0


def py_any(it, v):
    s = it.seq(v)
    if isinstance(s, list):
        rs = [it.truth(x) for x in s]
        if all(isinstance(r, bool) for r in rs):
            return any(rs)
        return z3.Or(*[num(r) for r in rs])
    return it.gh.count(num(s.n), lambda j: boolean(s.get(j)))[0](num(s.n)) > 0


BUILTINS = {
    'range': py_range, 'len': py_len, 'enumerate': py_enumerate, 'zip': py_zip, 'int': py_int, 'float': py_float, 'abs': py_abs, 'round': py_round,
    'sum': py_sum, 'min': py_minmax('min'), 'max': py_minmax('max'), 'sorted': py_sorted, 'list': py_list, 'tuple': py_tuple, 'str': py_str,
    'bool': lambda it, v=False: it.truth(v), 'isinstance': py_isinstance, 'print': lambda it, *a, **k: None, 'setattr': py_setattr, 'hasattr': py_hasattr,
    'getattr': lambda it, o, n, *d: it.getattr(o, n), 'map': py_map, 'all': py_all, 'any': py_any, 'dict': lambda it, **k: PDict(dict(k)), 'super': None,
    'reversed': lambda it, v: PList(it.tolist(v)[::-1]), 'pow': lambda it, a, b: it.binop(ast.Pow(), a, b),
}
EXTERNALS.update({
    'math.fabs': lambda it, v: np_absolute(it, real(v)),
    'itertools.product': it_product,
    'copy.deepcopy': lambda it, v: copyarr(v) if isinstance(v, SArr) else PList(v.val) if isinstance(v, PList) else PDict(dict(v.val)) if isinstance(v, PDict) else v,
    'copy.copy': lambda it, v: copyarr(v) if isinstance(v, SArr) else PList(v.val) if isinstance(v, PList) else v,
    'warnings.filterwarnings': lambda it, *a, **k: None, 'warnings.warn': lambda it, *a, **k: None,
    'dict.fromkeys': lambda it, ks, v=None: PDict({conc(k): v for k in it.tolist(ks)}),
})
