"""Chebyshev radial bases (C++): values and derivatives, for every basis size."""
import random
from vc.cxxlib import *
from vc.core import *
from vc.report import Unit, main
from vc import cdrv
from props.C01 import spec, dspec, close

ID = 'C02'
ASSUMPTIONS = ASSUMPTIONS[:3]
TRUSTED = ['clang 18 front end (typed AST)', 'z3 5.3 / cvc5 1.1.2 / vc.cas rational-function prover', 'vc.cxx symbolic semantics of the C++ subset',
           'defining recurrence of the Chebyshev polynomials of the first kind and its term-wise derivative (specification axioms)']
FILES = ['source/descriptor/mtp/include/mtpMRadial.h', 'source/descriptor/mtpr/include/basis.h']

T = z3.Function('T', z3.IntSort(), z3.RealSort())      # T_n(u) for the fixed scaled distance u
DT = z3.Function('dT', z3.IntSort(), z3.RealSort())    # T_n'(u)


def axioms(ctx, u):
    n = z3.Int('n')
    ctx.assume(T(0) == 1)
    ctx.assume(T(1) == u)
    ctx.assume(DT(0) == 0)
    ctx.assume(DT(1) == 1)
    ctx.assume(z3.ForAll([n], z3.Implies(n >= 2, T(n) == 2 * u * T(n - 1) - T(n - 2)), patterns=[T(n)]))
    ctx.assume(z3.ForAll([n], z3.Implies(n >= 2, DT(n) == 2 * T(n - 1) + 2 * u * DT(n - 1) - DT(n - 2)), patterns=[DT(n)]))


def arrays(it, this, names):
    return [method(it, this, m) for m in names]


def cheb_inv(names, c):
    def inv(L):
        this = L.it.frames[-1].this
        L.it.suppress += 1
        ps = arrays(L.it, this, names)
        L.it.suppress -= 1
        j = z3.Int('j')
        k = L.k
        out = [('counter', k >= 0)]
        for nm, p, f in zip(('values', 'slopes', 'radial slopes'), ps, (lambda x: T(x), lambda x: DT(x), lambda x: DT(x) * c)):
            out.append((nm, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), L.rd(p, j) == f(j)))))
        return out

    def mod(L):
        this = L.it.frames[-1].this
        L.it.suppress += 1
        ps = arrays(L.it, this, names)
        L.it.suppress -= 1
        return [p.region for p in ps]
    return LoopSpec(inv, mod)


def rb_unit(name, cls, names, inside, outside):
    def run(ctx):
        t = tu('mtp', 'mtpr')
        rc, rs, r, n = R('rc'), R('rs'), R('r'), N('size')
        ctx.assume(z3.And(rc > rs, rs >= 0, n >= 0))
        c = 2 / (rc - rs)
        it = Interp(t, ctx, loops={'*': cheb_inv(names, c)})
        u = (2 * r - rc - rs) / (rc - rs)
        axioms(ctx, u)
        o = construct(it, cls, n, rc, rs)
        if outside is None:
            ctx.assume(inside(r, rs, rc))
        method(it, o, 'build', r)
        ps = arrays(it, o, names)
        ctx.check('size', method(it, o, 'size') == n)
        k = N('k')
        ctx.assume(z3.And(k >= 0, k < n))
        ins = inside(r, rs, rc)
        for nm, p, s in zip(('T_k(u)', "T_k'(u)", 'dT_k/dr'), ps, (T(k), DT(k), DT(k) * c)):
            ctx.check(nm, rd(it, p, k) == z3.If(ins, s, z3.RealVal(0)))
            ctx.check('block length', z3.And(p.off == 0, p.region.size == n))
    return Unit(name, run, [cls + '::build', cls + ' constructor'] + [cls + '::' + x for x in names], exact=False)


def rq_unit(name, cls, names, rbnames, inside, assertdom):
    def run(ctx):
        t = tu('mtp', 'mtpr')
        rc, rs, r, n = R('rc'), R('rs'), R('r'), N('size')
        ctx.assume(z3.And(rc > rs, rs >= 0, n >= 0, r >= 0))
        c = 2 / (rc - rs)
        it = Interp(t, ctx, loops={'*': cheb_inv(rbnames, c)})
        u = (2 * r - rc - rs) / (rc - rs)
        axioms(ctx, u)
        o = construct(it, cls, n, rc, rs)
        if assertdom:
            ctx.assume(z3.And(r >= rs, r <= rc))
        method(it, o, 'build', r)
        v, d = arrays(it, o, names)
        k = N('k')
        ctx.assume(z3.And(k >= 0, k < n))
        sw, dsw = spec(r, rc, rs, z3.RealVal(1)), dspec(r, rc, rs)
        ins = z3.And(r >= rs, r < rc)
        ctx.check('size', method(it, o, 'size') == n)
        ctx.check('value = switch * T_k', rd(it, v, k) == z3.If(ins, sw * T(k), z3.RealVal(0)))
        ctx.check('derivative = product rule', rd(it, d, k) == z3.If(ins, dsw * T(k) + sw * DT(k) * c, z3.RealVal(0)))
        ctx.check('block length', z3.And(v.region.size == n, d.region.size == n))
    return Unit(name, run, [cls + '::build', cls + ' constructor'] + [cls + '::' + x for x in names], exact=False)


def units(tier):
    tu('mtp', 'mtpr')
    half = lambda r, rs, rc: z3.And(r >= rs, r < rc)
    closed = lambda r, rs, rc: z3.And(r >= rs, r <= rc)
    return [
        rb_unit('mtp Chebyshev', 'ChebyshevPoly<double>', ['get_result', 'get_deriv2xi', 'get_deriv2r'], half, True),
        rb_unit('mtpr Chebyshev', 'RB_Chebyshev<double>', ['vals', 'ders2uu', 'ders2r'], closed, None),
        rq_unit('mtp Q', 'MtpQ<double>', ['get_result', 'get_deriv2r'], ['get_result', 'get_deriv2xi', 'get_deriv2r'], half, False),
        rq_unit('mtpr Q', 'RQ_Chebyshev<double>', ['vals', 'ders2r'], ['vals', 'ders2uu', 'ders2r'], closed, True),
    ]


DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include "@S@/descriptor/mtp/include/mtpMRadial.h"
#include "@S@/descriptor/mtpr/include/basis.h"
using namespace matersdk;
static void out(const double* p, int n) { for (int i = 0; i < n; i++) printf(" %.17g", p[i]); }
int main() {
  int n, m; double rc, rs;
  while (std::cin >> n >> rc >> rs >> m) {
    mtp::ChebyshevPoly<double> a(n, rc, rs);
    mtp::MtpQ<double> b(n, rc, rs);
    mtpr::RB_Chebyshev<double> c(n, rc, rs);
    mtpr::RQ_Chebyshev<double> d(n, rc, rs);
    for (int q = 0; q < m; q++) {
      double r; std::cin >> r;
      a.build(r); b.build(r);
      printf("%d", a.size() == n && b.size() == n && c.size() == n && d.size() == n && c.rmax() == rc && c.rmin() == rs && d.rmax() == rc && d.rmin() == rs);
      out(a.get_result(), n); out(a.get_deriv2xi(), n); out(a.get_deriv2r(), n);
      out(b.get_result(), n); out(b.get_deriv2r(), n);
      if (r >= rs && r <= rc) { c.build(r); d.build(r);
        out(c.vals(), n); out(c.ders2uu(), n); out(c.ders2r(), n); out(d.vals(), n); out(d.ders2r(), n); }
      printf("\n"); fflush(stdout);
    }
  }
}
'''
BOUNDED_RULE = ('real classes on random (size 0..16, radii) with several successive distances per object (inside, outside, on '
                'the radii); non-trivial: a distance between the radii with size >= 3')


def bounded(b):
    rng = random.Random(b.seed)
    lit = cdrv.literals([REPO + '/' + f for f in FILES])
    cases = []
    for h in b.hints:
        i = h['inputs']
        if 'rc' in i and 'rs' in i:
            for n in {min(max(int(i.get('size', 6)), 0), 40), 8, min(max(int(i.get('k', 6)) + 1, 0), 40)}:
                cases.append((n, float(i['rc']), float(i['rs']), [float(i.get('r', 0))]))
    for q in range(600 if not b.thorough else 8000):
        n = rng.choice([rng.randint(0, 9), rng.randint(0, 16), min(40, int(abs(rng.choice(lit))))])
        rs = rng.choice([rng.uniform(0, 4), 0.0, rng.choice(lit)])
        rc = rs + rng.choice([rng.uniform(0.3, 8), rng.choice(lit) + 0.25])
        ds = [rng.choice([rng.uniform(rs, rc), rng.uniform(rs, rc), rs, rc, rng.uniform(0, 1.4 * rc), (rs + rc) / 2,
                          rs + (rc - rs) * rng.choice([.25, .75, 1e-6, 1 - 1e-6])]) for _ in range(rng.randint(1, 5))]
        cases.append((n, rc, rs, ds))
    cases = [c for c in cases if c[1] > c[2] >= 0 and all(d >= 0 for d in c[3])]
    drv = cdrv.Driver(DRIVER)
    txt = ''.join('%d %.17g %.17g %d %s\n' % (n, rc, rs, len(ds), ' '.join('%.17g' % d for d in ds)) for n, rc, rs, ds in cases)
    out, err = drv.run(txt)
    flat = [(n, rc, rs, d) for n, rc, rs, ds in cases for d in ds]
    if err:
        b.bad('the code aborts: ' + err, dict(zip(('size', 'rc', 'rs', 'r'), flat[min(len(out), len(flat) - 1)])))
        return
    for (n, rc, rs, r), line in zip(flat, out):
        g = [float(x) for x in line.split()]
        u = (2 * r - rc - rs) / (rc - rs)
        t, d = [1.0, u], [0.0, 1.0]
        for k in range(2, n + 1):
            t.append(2 * u * t[-1] - t[-2])
            d.append(2 * t[k - 1] + 2 * u * d[-1] - d[-2])
        t, d = t[:n], d[:n]
        c = 2 / (rc - rs)
        x = (r - rs) / (rc - rs)
        sw = 1 - 10 * x ** 3 + 15 * x ** 4 - 6 * x ** 5
        ds = (-30 * x ** 2 + 60 * x ** 3 - 30 * x ** 4) / (rc - rs)
        half = rs <= r < rc
        closed = rs <= r <= rc
        if r == rc:
            sw = ds = 0.0
        z = [0.0] * n
        exp = [1.0] + (t + d + [q * c for q in d] if half else z * 3) + \
            ([sw * q for q in t] + [ds * p + sw * c * q for p, q in zip(t, d)] if half else z * 2)
        if closed:
            exp += t + d + [q * c for q in d] + [sw * q for q in t] + [ds * p + sw * c * q for p, q in zip(t, d)]
        if len(g) != len(exp) or any(not close(p, q, 1e-7, max(1.0, abs(ds), c) * max(1, n) ** 2) for p, q in zip(g, exp)):
            bad = [i for i, (p, q) in enumerate(zip(g, exp)) if not close(p, q, 1e-7, n * n + 1)]
            b.bad('radial basis value or derivative', dict(size=n, rc=rc, rs=rs, r=r, first_bad=bad[:5], got=g[:60], expected=exp[:60]))
        b.ok((n, round(u, 5)) if half and n >= 3 else None, dict(size=n, rc=rc, rs=rs, r=r) if half else None)


if __name__ == '__main__':
    import sys
    import props.C02 as m
    sys.exit(main(m))
