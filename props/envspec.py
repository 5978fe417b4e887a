"""Shared contracts for the C++ environment-matrix routines (C03)."""
from vc.cxxlib import *
from vc.core import *
from vc.cxx import written_bases, assigned_decls, unparen

RS, IS = z3.RealSort(), z3.IntSort()
START = z3.Function('START', IS, IS)              # sum of the capacities of the types before t
CNT = z3.Function('CNT', IS, IS, IS, IS)          # number of the first j neighbours of i that have type t
RC = z3.Function('RC', RS, RS)                    # 1/r, 0 at 0
SW = z3.Function('SW', RS, RS, RS, RS)            # switch(rcut, rcut_smooth, r)
DSW = z3.Function('DSW', RS, RS, RS, RS)          # its derivative


def callee_contracts(rcut, rs):
    """contracts of the callees, proved in C01: the switch, its derivative, 1/r and s(r) = switch(r)/r"""
    def ctor(it, this, args):
        this.ghost = tuple(a.get() if isinstance(a, LV) else a for a in args)

    def val(f):
        def c(it, this, args):
            r = args[0].get() if isinstance(args[0], LV) else args[0]
            return f(this.ghost[0], this.ghost[1], r)
        return c

    def rv(a):
        return a.get() if isinstance(a, LV) else a
    return {
        'SwitchFunc<double>::SwitchFunc/2': ctor,
        'SwitchFunc<double>::get_result': val(SW),
        'SwitchFunc<double>::get_deriv2r': val(DSW),
        'matersdk::deepPotSE::recip': lambda it, this, a: RC(rv(a[0])),
        'matersdk::deepPotSE::smooth_func': lambda it, this, a: RC(rv(a[0])) * SW(rv(a[1]), rv(a[2]), rv(a[0])),
    }


class Env:
    """specification of one environment-matrix routine"""

    def __init__(self, ctx, ntypes, inum, nn, TY, U):
        """TY(i,j): type of the j-th neighbour of i; nn(i): number of neighbours; U(t): capacity of type t"""
        self.ctx, self.nt, self.inum, self.nn, self.TY, self.U = ctx, ntypes, inum, nn, TY, U
        self.TOT = z3.Int('TOT')
        t, t2, i, j, k = z3.Ints('t t2 i j k')
        a = ctx.assume
        a(ntypes >= 1)
        a(inum >= 0)
        a(self.TOT >= 0)
        a(START(0) == 0)
        a(z3.ForAll([t], z3.Implies(t >= 0, START(t + 1) == START(t) + U(t)), patterns=[START(t + 1)]))
        a(START(ntypes) == self.TOT)
        a(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ntypes), U(t) >= 0)))

    # instances of the recursive definition of CNT and of its lemmas (proved by the lemma units)
    def cnt0(self, i, t):
        self.ctx.assume(CNT(i, 0, t) == 0)

    def cnt_step(self, i, j, t):
        self.ctx.assume(CNT(i, j + 1, t) == CNT(i, j, t) + z3.If(self.TY(i, j) == t, 1, 0))

    def cnt_step_all(self, i, j):
        t = z3.Int('t')
        self.ctx.assume(z3.ForAll([t], CNT(i, j + 1, t) == CNT(i, j, t) + z3.If(self.TY(i, j) == t, 1, 0), patterns=[CNT(i, j + 1, t)]))

    def cnt0_all(self, i):
        t = z3.Int('t')
        self.ctx.assume(z3.ForAll([t], CNT(i, 0, t) == 0, patterns=[CNT(i, 0, t)]))

    def mono(self, i, j, k, t):
        """lemma: j <= k -> CNT(i,j,t) <= CNT(i,k,t); j < k and type(i,j) = t -> CNT(i,j,t) < CNT(i,k,t)"""
        self.ctx.assume(z3.Implies(z3.And(0 <= j, j <= k), z3.And(CNT(i, j, t) >= 0, CNT(i, j, t) <= CNT(i, k, t))))
        self.ctx.assume(z3.Implies(z3.And(0 <= j, j < k, self.TY(i, j) == t), CNT(i, j, t) < CNT(i, k, t)))

    def cap(self, i, t):
        """precondition: no more neighbours of a type than its capacity"""
        self.ctx.assume(z3.Implies(z3.And(0 <= i, i < self.inum, 0 <= t, t < self.nt), CNT(i, self.nn(i), t) <= self.U(t)))

    def tyrange(self, i, j):
        self.ctx.assume(z3.Implies(z3.And(0 <= i, i < self.inum, 0 <= j, j < self.nn(i)),
                                   z3.And(self.TY(i, j) >= 0, self.TY(i, j) < self.nt)))

    def startmono(self, t, u):
        """lemma: t < u <= ntypes -> START(t) + U(t) <= START(u)"""
        self.ctx.assume(z3.Implies(z3.And(0 <= t, t < u, u <= self.nt), z3.And(START(t) >= 0, START(t + 1) == START(t) + self.U(t), START(t) + self.U(t) <= START(u))))

    def slot(self, i, j):
        return START(self.TY(i, j)) + CNT(i, j, self.TY(i, j))

    def know(self, i, j, js, ts, ms):
        """everything needed about the slot of (i, j) against the fixed targets (i, js) and block (ts, ms)"""
        ty, tj = self.TY(i, j), self.TY(i, js)
        for x in (j, js):
            self.tyrange(i, x)
        for t in (ty, tj, ts):
            self.startmono(t, self.nt)
            self.cap(i, t)
            for x in (j, js):
                self.mono(i, x, self.nn(i), t)
        for t in (tj, ts):
            self.startmono(ty, t)
            self.startmono(t, ty)
        self.mono(i, j, js, tj)
        self.mono(i, js, j, tj)


def lemma_start(ctx):
    n, t = z3.Ints('n t')
    U = z3.Function('Ucap', IS, IS)
    ctx.assume(z3.And(n >= 0, t >= 0))
    ctx.assume(START(n + 1) == START(n) + U(n))
    ctx.assume(START(t + 1) == START(t) + U(t))
    ctx.assume(U(n) >= 0)
    ctx.assume(START(0) == 0)
    ctx.check('base: START(0) >= 0', START(0) >= 0, 'lemma')
    # induction on n for P(n): START(n) >= 0 and for all t < n: START(t) + U(t) <= START(n)
    ctx.assume(START(n) >= 0)
    ctx.assume(z3.Implies(t < n, START(t) + U(t) <= START(n)))
    ctx.check('step: prefix sums are non-negative', START(n + 1) >= 0, 'lemma')
    ctx.check('step: a block ends before any later block starts', z3.Implies(t < n + 1, START(t) + U(t) <= START(n + 1)), 'lemma')


def lemma_cnt(ctx):
    i, j, k, t = z3.Ints('i j k t')
    TY = z3.Function('TYf', IS, IS, IS)
    ctx.assume(z3.And(j >= 0, k >= 0))
    step = lambda x: CNT(i, x + 1, t) == CNT(i, x, t) + z3.If(TY(i, x) == t, 1, 0)
    ctx.assume(step(j))
    ctx.assume(step(k))
    ctx.assume(CNT(i, 0, t) == 0)
    P = lambda kk: z3.And(CNT(i, kk, t) >= 0, z3.Implies(j <= kk, CNT(i, j, t) <= CNT(i, kk, t)),
                          z3.Implies(z3.And(j < kk, TY(i, j) == t), CNT(i, j, t) < CNT(i, kk, t)))
    ctx.check('base', z3.And(CNT(i, 0, t) >= 0, z3.Implies(j <= 0, CNT(i, j, t) <= CNT(i, 0, t))), 'lemma')
    ctx.assume(P(k))
    ctx.assume(z3.Implies(j == k + 1, True))
    ctx.check('step', z3.And(CNT(i, k + 1, t) >= 0, z3.Implies(j <= k, CNT(i, j, t) <= CNT(i, k + 1, t)),
                             z3.Implies(z3.And(j < k + 1, TY(i, j) == t), CNT(i, j, t) < CNT(i, k + 1, t))), 'lemma')


def values(rc, rs, x, y, z, sign):
    """(s, s*x/r, s*y/r, s*z/r) and their derivatives w.r.t. the displacement, times sign"""
    r = SQRT(x * x + y * y + z * z)
    q, w, d = RC(r), SW(rc, rs, r), DSW(rc, rs, r)
    v = [q * w, q * q * w * x, q * q * w * y, q * q * w * z]
    c = [x, y, z]
    dv = [[sign * (q * q * d * c[b] - q * q * q * w * c[b]) for b in range(3)]]
    for a in range(3):
        dv.append([sign * (q * q * q * d * c[a] * c[b] + (q * q * w if a == b else 0) - 2 * q * q * q * q * w * c[a] * c[b]) for b in range(3)])
    return v, dv


def lemma_deriv(ctx):
    """the derivative formulas of `values` are the partial derivatives of its value formulas (r > 0), given
    d SW(r)/dr = DSW(r): chain rule with dr/dc = c/r"""
    x, y, z, r, w, d = z3.Reals('x y z r w d')
    ctx.assume(z3.And(r > 0, r * r == x * x + y * y + z * z))
    c = [x, y, z]
    q = 1 / r
    dv = [[(q * q * d * c[b] - q * q * q * w * c[b]) for b in range(3)]]
    for a in range(3):
        dv.append([(q * q * q * d * c[a] * c[b] + (q * q * w if a == b else 0) - 2 * q * q * q * q * w * c[a] * c[b]) for b in range(3)])
    for b in range(3):
        drb = c[b] / r
        ctx.check('d s / d%d' % b, dv[0][b] == (d * drb * r - w * drb) / (r * r), 'lemma')
        for a in range(3):
            # d/db [ w * c_a / r^2 ]
            num = (d * drb * c[a] + (w if a == b else 0)) * (r * r) - w * c[a] * (2 * r * drb)
            ctx.check('d (s c%d/r) / d%d' % (a, b), dv[1 + a][b] == num / (r * r * r * r), 'lemma')


# ------------------------------------------------------------------ loop roles
def _compound_targets(n):
    out = []

    def w(x):
        if isinstance(x, dict):
            if x.get('kind') == 'CompoundAssignOperator' and x.get('opcode') == '+=':
                out.append(unparen(x['inner'][0]))
            for c in x.get('inner', ()):
                w(c)
    w(n)
    return out


def _loops_in(n):
    out = []

    def w(x, top):
        if isinstance(x, dict):
            if x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') and not top:
                out.append(x)
            for c in x.get('inner', ()):
                w(c, False)
    w(n, True)
    return out


def _incr_array(n):
    """pointer variables X for which n contains X[..]++ / ++X[..] / X[..] += 1"""
    out = []

    def base(x):
        x = unparen(x)
        while x and x.get('kind') == 'ArraySubscriptExpr':
            x = unparen(x['inner'][0])
        return x['referencedDecl']['id'] if x and x.get('kind') == 'DeclRefExpr' else None

    def w(x):
        if isinstance(x, dict):
            if (x.get('kind') == 'UnaryOperator' and x.get('opcode') == '++') or x.get('kind') == 'CompoundAssignOperator':
                t = unparen(x['inner'][0])
                if t and t.get('kind') == 'ArraySubscriptExpr':
                    b = base(t)
                    if b:
                        out.append(b)
            for c in x.get('inner', ()):
                w(c)
    w(n)
    return out


def roles(env, outs, cell, star):
    """loop contracts by role.  outs: output pointers; cell(i,j): [(ptr, comps, value)] expected at slot (i,j);
    zero: value of unused cells.  star = (is, js, ts, ms)"""
    i_s, j_s, t_s, m_s = star
    ctx = env.ctx

    def target(L, upto, now=None):
        """invariants on the output arrays; upto(i,j): (i,j) has been processed"""
        out = []
        split = None
        if now is not None:
            here = z3.And(i_s == now[0], j_s == now[1])
            split = [('this neighbour', here, [(i_s, now[0]), (j_s, now[1])]), ('other neighbour', z3.Not(here), None)]
        for p, comps, val in cell(i_s, j_s):
            got = L.rd(p, i_s, env.slot(i_s, j_s), *comps)
            out.append(('neighbour (i*,j*) stored, component %s of %s' % (list(comps), p.region.name), z3.Implies(upto, got == val))
                       + ((split,) if split else ()))
        for p, comps, zero in env.cells:
            got = L.rd(p, i_s, START(t_s) + m_s, *comps)
            out.append(('unused slot keeps its padding, component %s of %s' % (list(comps), p.region.name),
                        z3.Implies(m_s >= CNT(i_s, env.nn(i_s), t_s), got == zero)))
        return out

    def main_outer():
        return LoopSpec(lambda L: target(L, i_s < L.k))

    def main_inner(nloop_id):
        def nl(L):
            return L.it.frames[-1].vars[nloop_id].get()

        def inv(L):
            t = z3.Int('t')
            ii = env.outer.k
            j = L.k
            o = [('per-type counters', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < env.nt), L.rd(nl(L), t) == CNT(ii, j, t)),
                                                 patterns=[CNT(ii, j, t)]))]
            return o + target(L, z3.Or(i_s < ii, z3.And(i_s == ii, j_s < j)), getattr(L, 'cur', None))

        def setup(L):
            env.cnt0_all(env.outer.k)

        def before(L):
            ii, j = env.outer.k, L.k
            L.cur = (ii, j)
            env.cnt_step_all(ii, j)
            env.know(ii, j, j_s, t_s, m_s)
        return LoopSpec(inv, setup=setup, before_body=before)

    def total(var):
        def inv(L):
            return [('partial sum of capacities', L.it.frames[-1].vars[var].get() == START(L.k))]
        return LoopSpec(inv, rebind=lambda L: [(L.it.frames[-1].vars[var].cell, env.TOT)])

    def start_outer(arr):
        def inv(L):
            t = z3.Int('t')
            p = L.it.frames[-1].vars[arr].get()
            return [('finished prefix sums', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < L.k), L.rd(p, t) == START(t)))),
                    ('rest still zero', z3.ForAll([t], z3.Implies(z3.And(t >= L.k, t < env.nt), L.rd(p, t) == 0)))]
        return LoopSpec(inv)

    def start_inner(arr):
        def inv(L):
            t = z3.Int('t')
            p = L.it.frames[-1].vars[arr].get()
            ii = env.start_outer.k
            return [('this prefix sum', L.rd(p, ii) == START(L.k)),
                    ('finished prefix sums', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ii), L.rd(p, t) == START(t)))),
                    ('rest still zero', z3.ForAll([t], z3.Implies(z3.And(t > ii, t < env.nt), L.rd(p, t) == 0)))]
        return LoopSpec(inv)

    def resolve(it, n, body):
        subs = _loops_in(n)
        ca = _compound_targets(body)
        arr = [x for x in ca if x and x.get('kind') == 'ArraySubscriptExpr']
        scal = [x for x in ca if x and x.get('kind') == 'DeclRefExpr']
        incr = _incr_array(body)
        wb = [b for b in written_bases(body)]
        outregs = [p.region for p in outs]
        writes_out = False
        for b in wb:
            lv = it.frames[-1].vars.get(b[1]) if b[0] == 'v' else None
            if lv is not None and isinstance(lv.get(), Ptr) and lv.get().region in outregs:
                writes_out = True
        if writes_out:
            if any(x['id'] for x in subs if _incr_array(x)):
                sp = main_outer()
                old = sp.inv

                def inv(L):
                    env.outer = L
                    return old(L)
                sp.inv = inv
                return sp
            if incr:
                return main_inner(incr[0])
            return None
        if arr and subs:
            sp = start_outer(_incr_array(body)[0])
            old = sp.inv

            def inv2(L):
                env.start_outer = L
                return old(L)
            sp.inv = inv2
            return sp
        if arr:
            return start_inner(_incr_array(body)[0])
        if scal:
            return total(scal[0]['referencedDecl']['id'])
        return None
    return resolve
