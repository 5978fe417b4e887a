"""Smooth cutoff functions (C++): value, exact derivative, continuity."""
import random, math
from vc.cxxlib import *
from vc.core import *
from vc.diff import ddx
from vc.report import Unit, main
from vc import cdrv

ID = 'C01'
ASSUMPTIONS = ASSUMPTIONS[:2]
TRUSTED = ['clang 18 front end (typed AST)', 'z3 5.3 / cvc5 1.1.2 / vc.cas rational-function prover', 'vc.cxx symbolic semantics of the C++ subset']
FILES = ['source/descriptor/deepmd/include/se.h', 'source/descriptor/mtp/include/mtpMRadial.h', 'source/descriptor/mtpr/include/basis.h']


def spec(r, rc, rs, low):
    u = (r - rs) / (rc - rs)
    return z3.If(r < rs, low, z3.If(r < rc, 1 - 10 * u * u * u + 15 * u * u * u * u - 6 * u * u * u * u * u, z3.RealVal(0)))


def dspec(r, rc, rs):
    u = (r - rs) / (rc - rs)
    return z3.If(z3.Or(r < rs, r >= rc), z3.RealVal(0), (-30 * u * u + 60 * u * u * u - 30 * u * u * u * u) / (rc - rs))


def sw_unit(name, cls, val, der, low, domain):
    def run(ctx):
        t = tu('deepmd', 'mtp', 'mtpr')
        it = Interp(t, ctx)
        rc, rs, r = R('rc'), R('rs'), R('r')
        ctx.assume(z3.And(rc > rs, rs >= 0, r >= 0))
        ctx.assume(domain(r, rs, rc))
        o = construct(it, cls, rc, rs)
        v = method(it, o, val, r)
        d = method(it, o, der, r)
        v2 = method(it, o, val, r)
        ctx.check('value', v == spec(r, rc, rs, low))
        ctx.check('derivative', d == dspec(r, rc, rs))
        ctx.check('value unchanged by the derivative call', v == v2)
        # the reported derivative is d/dr of the reported value (inside each piece the value is a rational function)
        ctx.check('derivative is d(value)/dr', d == ddx(v, r))
    return Unit(name, run, [cls + '::' + val, cls + '::' + der, cls + ' constructor'])


def join_unit(name, cls, val, der, inner):
    """continuity: one-sided polynomial branches agree at both radii (value and slope)"""
    def run(ctx):
        t = tu('deepmd', 'mtp', 'mtpr')
        it = Interp(t, ctx)
        rc, rs, r = R('rc'), R('rs'), R('r')
        ctx.assume(z3.And(rc > rs, rs >= 0, r >= rs, r < rc))
        o = construct(it, cls, rc, rs)
        v = method(it, o, val, r)
        d = method(it, o, der, r)
        for at, nm, ve in ((rc, 'cutoff', 0), (rs, 'inner radius', 1)):
            ctx.check('limit of the value at the ' + nm, z3.substitute(v, (r, at)) == ve)
            ctx.check('limit of the slope at the ' + nm, z3.substitute(d, (r, at)) == 0)
        ctx.check('value between 0 and 1', z3.And(v >= 0, v <= 1))
    u = Unit(name, run, [cls + '::' + val, cls + '::' + der])
    return u


def smooth_run(ctx):
    it = Interp(tu('deepmd', 'mtp', 'mtpr'), ctx)
    rc, rs, r = R('rc'), R('rs'), R('r')
    ctx.assume(z3.And(rc > rs, rs >= 0, r >= 0))
    v = func(it, 'smooth_func' if 'smooth_func' in it.tu.byname else 'matersdk::deepPotSE::smooth_func', r, rc, rs)
    ctx.check('s(r) = switch(r)/r, 0 at r = 0', v == z3.If(r == 0, z3.RealVal(0), spec(r, rc, rs, z3.RealVal(1)) / r))


def recip_run(ctx):
    it = Interp(tu('deepmd', 'mtp', 'mtpr'), ctx)
    r = R('r')
    v = func(it, 'recip' if 'recip' in it.tu.byname else 'matersdk::deepPotSE::recip', r)
    ctx.check('recip(r) = 1/r, 0 at 0', z3.If(r == 0, v == 0, v * r == 1))


def scale_run(ctx):
    it = Interp(tu('deepmd', 'mtp', 'mtpr'), ctx)
    rc, rs, r = R('rc'), R('rs'), R('r')
    ctx.assume(rc > rs)
    o = construct(it, 'MtpSwitchFunc1<double>', rc, rs)
    v = method(it, o, 'get_result', r)
    d = method(it, o, 'get_deriv2r')
    ctx.check('linear map of [rs, rc] onto [-1, 1]', v * (rc - rs) == 2 * r - rc - rs)
    ctx.check('derivative', z3.And(d == ddx(v, r), d * (rc - rs) == 2))


def units(tier):
    tu('deepmd', 'mtp', 'mtpr')
    one, zero = z3.RealVal(1), z3.RealVal(0)
    anyr = lambda r, rs, rc: True
    inner = lambda r, rs, rc: r >= rs
    closed = lambda r, rs, rc: z3.And(r >= rs, r <= rc)
    D, M, P = 'SwitchFunc<double>', 'MtpSwitchFunc2<double>', 'SwitchFunction<double>'
    return [
        sw_unit('deepmd switch', D, 'get_result', 'get_deriv2r', one, anyr),
        sw_unit('mtp switch', M, 'get_result', 'get_deriv2r', one, inner),
        sw_unit('mtpr switch', P, 'val', 'der2r', one, closed),
        join_unit('deepmd switch joins', D, 'get_result', 'get_deriv2r', 1),
        join_unit('mtp switch joins', M, 'get_result', 'get_deriv2r', 1),
        join_unit('mtpr switch joins', P, 'val', 'der2r', 1),
        Unit('deepmd s(r)', smooth_run, ['smooth_func']),
        Unit('deepmd recip', recip_run, ['recip']),
        Unit('mtp scaling', scale_run, ['MtpSwitchFunc1<double>::get_result', 'MtpSwitchFunc1<double>::get_deriv2r']),
    ]


DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include "@S@/descriptor/deepmd/include/se.h"
#include "@S@/descriptor/mtp/include/mtpMRadial.h"
#include "@S@/descriptor/mtpr/include/basis.h"
using namespace matersdk;
int main() {
  double rc, rs, r;
  while (std::cin >> rc >> rs >> r) {
    deepPotSE::SwitchFunc<double> a(rc, rs);
    mtp::MtpSwitchFunc2<double> b(rc, rs);
    mtp::MtpSwitchFunc1<double> c(rc, rs);
    mtpr::SwitchFunction<double> d(rc, rs);
    bool in = r >= rs && r <= rc;
    printf("%.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", a.get_result(r), a.get_deriv2r(r),
       b.get_result(r), b.get_deriv2r(r), c.get_result(r), c.get_deriv2r(), in ? d.val(r) : 0., in ? d.der2r(r) : 0.,
       deepPotSE::smooth_func(r, rc, rs), deepPotSE::recip(r));
    fflush(stdout);
  }
}
'''
BOUNDED_RULE = ('real functions, compiled from the headers, on (cutoff, inner radius, distance) triples: random, both '
                'radii exactly, 1e-9 either side, source literals, counter-models; non-trivial: distance between the radii')


def close(a, b, tol=1e-9, scale=1.0):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b), scale)


def bounded(b):
    rng = random.Random(b.seed)
    lit = cdrv.literals([REPO + '/' + f for f in FILES])
    cases = []
    for h in b.hints:
        i = h['inputs']
        if 'rc' in i and 'rs' in i:
            cases.append((float(i['rc']), float(i['rs']), float(i.get('r', 0))))
        elif 'r' in i:
            cases.append((6.0, 0.5, float(i['r'])))
    n = 4000 if not b.thorough else 60000
    for _ in range(n):
        rs = rng.choice([rng.uniform(0, 8), rng.uniform(0, 0.5), 0.0, rng.choice(lit)])
        rc = rs + rng.choice([rng.uniform(0.05, 8), rng.choice(lit) + 0.25, rng.uniform(8, 200)])
        r = rng.choice([rng.uniform(rs, rc), rng.uniform(0, 1.5 * rc), rs, rc, rs + 1e-9, max(0, rs - 1e-9), rc - 1e-9,
                        rc + 1e-9, 0.0, rng.choice(lit), rs + (rc - rs) * rng.choice([1e-3, 0.5, 0.999])])
        cases.append((rc, rs, r))
    cases = [c for c in cases if c[0] > c[1] >= 0 and c[2] >= 0]
    drv = cdrv.Driver(DRIVER)
    out, err = drv.run(''.join('%.17g %.17g %.17g\n' % c for c in cases))
    if err:
        b.bad('the code aborts: ' + err, dict(zip(('rc', 'rs', 'r'), cases[min(len(out), len(cases) - 1)])))
        return
    for (rc, rs, r), line in zip(cases, out):
        g = [float(x) for x in line.split()]
        u = (r - rs) / (rc - rs)
        mid = rs <= r < rc
        w = 1 - 10 * u ** 3 + 15 * u ** 4 - 6 * u ** 5 if mid else (1.0 if r < rs else 0.0)
        dw = (-30 * u ** 2 + 60 * u ** 3 - 30 * u ** 4) / (rc - rs) if mid else 0.0
        rec = 0.0 if r == 0 else 1 / r
        exp = [w, dw, w, dw, (2 * r - rc - rs) / (rc - rs), 2 / (rc - rs), w, dw, w * rec, rec]
        nm = ['deepmd switch', 'deepmd switch derivative', 'mtp switch', 'mtp switch derivative', 'mtp scaled distance',
              'mtp scale derivative', 'mtpr switch', 'mtpr switch derivative', 's(r)', 'recip']
        for k in range(10):
            if k in (2, 3) and r < rs:
                if k == 3 and g[k] != 0:
                    b.bad('mtp switch derivative below the inner radius', dict(rc=rc, rs=rs, r=r, got=g[k]))
                continue
            if k in (6, 7) and not (rs <= r <= rc):
                continue
            if not close(g[k], exp[k], 1e-7, 1e-3 if k < 8 else 0):
                b.bad(nm[k], dict(rc=rc, rs=rs, r=r, got=g[k], expected=exp[k]))
        b.ok((round(u, 6), r < rs, r >= rc) if mid else None, dict(rc=rc, rs=rs, r=r) if mid else None)


if __name__ == '__main__':
    import sys
    import props.C01 as m
    sys.exit(main(m))
