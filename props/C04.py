"""Vector algebra (C++): Vec3 operators and vec3Operation."""
import random, math
from vc.cxxlib import *
from vc.core import *
from vc.report import Unit, main
from vc import cdrv
from props.C01 import close

ID = 'C04'
ASSUMPTIONS = ASSUMPTIONS[:3]
TRUSTED = ['clang 18 front end (typed AST)', 'z3 5.3 / cvc5 1.1.2 / vc.cas', 'vc.cxx symbolic semantics of the C++ subset']
BOUNDED_ONLY = ['vec3Operation::RecursionOuterProduct: orders 1..4 with symbolic components (order itself not symbolic)']
EX = '''
namespace matersdk{ namespace vec3Operation{
template double dot(double*,double*); template double* cross(double*,double*); template double* normalize(double*); template double norm(double*);
template double** RecursionOuterProduct(int,double*);
}}'''
V = 'matersdk::Vec3'
A, B, SC = [R('a%d' % i) for i in range(3)], [R('b%d' % i) for i in range(3)], R('s')


def T():
    return tu('core', extra=EX)


def comps(it, v):
    return [method(it, v, 'operator[]', z3.IntVal(i), const=True) for i in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vunit(name, op, nargs, exp, inplace=False, pre=None, scalar=False):
    def run(ctx):
        it = Interp(T(), ctx)
        if pre is not None:
            ctx.assume(pre)
        a, b = construct(it, V, *A), construct(it, V, *B)
        args = [] if nargs == 0 else [SC if scalar else b]
        r = method(it, a, op, *args)
        want = exp(A, B)
        if isinstance(want, list):
            for k, (g, w) in enumerate(zip(comps(it, r), want)):
                ctx.check('component %d' % k, g == w)
        else:
            ctx.check('value', it.truth(r) == want if z3.is_bool(want) else r == want)
        for k, (g, w) in enumerate(zip(comps(it, a), want if inplace else A)):
            ctx.check('left operand component %d' % k, g == w)
        for k, (g, w) in enumerate(zip(comps(it, b), B)):
            ctx.check('right operand component %d unchanged' % k, g == w)
        if inplace:
            ctx.check('in-place operators return the left operand itself', z3.BoolVal(r is a))
    return Unit(name, run, ['Vec3::' + op, 'Vec3::operator[]', 'Vec3 constructors'])


def default_run(ctx):
    it = Interp(T(), ctx)
    for g in comps(it, construct(it, V)):
        ctx.check('default vector is zero', g == 0)
    a = construct(it, V, *A)
    fn = it.tu.find(V + '::operator[]', 1, None, False)
    lv = it.call(fn, a, [z3.IntVal(1)])
    lv.set(SC)
    for g, w in zip(comps(it, a), [A[0], SC, A[2]]):
        ctx.check('element assignment changes exactly one component', g == w)


def lmul_run(ctx):
    it = Interp(T(), ctx)
    r = func(it, 'matersdk::operator*', SC, construct(it, V, *A))
    for g, w in zip(comps(it, r), A):
        ctx.check('scalar * vector', g == SC * w)


def raw(name, f):
    def run(ctx):
        it = Interp(T(), ctx)
        f(ctx, it)
    return Unit('vec3Operation ' + name, run, ['vec3Operation::' + name])


def q(n):
    return 'matersdk::vec3Operation::' + n


def f_dot(ctx, it):
    ctx.check('dot', func(it, q('dot'), vecarr(it, 'vec1', A), vecarr(it, 'vec2', B)) == sum(x * y for x, y in zip(A, B)))


def f_cross(ctx, it):
    p = func(it, q('cross'), vecarr(it, 'vec1', A), vecarr(it, 'vec2', B))
    for k, w in enumerate(cross(A, B)):
        ctx.check('cross %d' % k, rd(it, p, k) == w)


def f_norm(ctx, it):
    v = func(it, q('norm'), vecarr(it, 'vec', A))
    ctx.check('norm', z3.And(v >= 0, v * v == sum(x * x for x in A)))


def f_normalize(ctx, it):
    ctx.assume(sum(x * x for x in A) > 0)
    p = func(it, q('normalize'), vecarr(it, 'vec', A))
    u = [rd(it, p, k) for k in range(3)]
    n = ctx.sqrt(sum(x * x for x in A))
    for k in range(3):
        ctx.check('normalize %d' % k, u[k] == A[k] / n)


def f_outer(order):
    def f(ctx, it):
        p = func(it, q('RecursionOuterProduct'), z3.IntVal(order), vecarr(it, 'vec', A))
        for row in range(3 ** (order - 1)):
            rp = rd(it, p, row)
            for c in range(3):
                k, w = row, A[c]
                for _ in range(order - 1):
                    w = w * A[k % 3]
                    k //= 3
                ctx.check('outer product order %d [%d][%d]' % (order, row, c), rd(it, rp, c) == w)
    return f


def units(tier):
    T()
    lin = lambda f: (lambda a, b: [f(x, y) for x, y in zip(a, b)])
    us = [
        vunit('Vec3 ==', 'operator==', 1, lambda a, b: z3.And(*[x == y for x, y in zip(a, b)])),
        vunit('Vec3 !=', 'operator!=', 1, lambda a, b: z3.Or(*[x != y for x, y in zip(a, b)])),
        vunit('Vec3 unary +', 'operator+', 0, lambda a, b: list(a)),
        vunit('Vec3 +', 'operator+', 1, lin(lambda x, y: x + y)),
        vunit('Vec3 +=', 'operator+=', 1, lin(lambda x, y: x + y), True),
        vunit('Vec3 unary -', 'operator-', 0, lambda a, b: [-x for x in a]),
        vunit('Vec3 -', 'operator-', 1, lin(lambda x, y: x - y)),
        vunit('Vec3 -=', 'operator-=', 1, lin(lambda x, y: x - y), True),
        vunit('Vec3 * scalar', 'operator*', 1, lambda a, b: [x * SC for x in a], scalar=True),
        vunit('Vec3 *= scalar', 'operator*=', 1, lambda a, b: [x * SC for x in a], True, scalar=True),
        vunit('Vec3 / scalar', 'operator/', 1, lambda a, b: [x / SC for x in a], pre=SC != 0, scalar=True),
        vunit('Vec3 /= scalar', 'operator/=', 1, lambda a, b: [x / SC for x in a], True, pre=SC != 0, scalar=True),
        vunit('Vec3 dot', 'dot', 1, lambda a, b: sum(x * y for x, y in zip(a, b))),
        vunit('Vec3 cross', 'cross', 1, cross),
        Unit('Vec3 default and element assignment', default_run, ['Vec3::operator[]']),
        Unit('scalar * Vec3', lmul_run, ['operator*(double, Vec3)']),
        raw('dot', f_dot), raw('cross', f_cross), raw('norm', f_norm), raw('normalize', f_normalize),
    ]
    for o in (1, 2, 3, 4):
        u = raw('RecursionOuterProduct', f_outer(o))
        u.name += ' order %d' % o
        us.append(u)
    return us


DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include "@S@/core/include/vecx.h"
#include "@S@/core/include/vec3Operation.h"
using namespace matersdk;
static void o(const Vec3& v) { printf(" %.17g %.17g %.17g", v[0], v[1], v[2]); }
int main() {
  double a[3], b[3], s; int ord;
  while (std::cin >> a[0] >> a[1] >> a[2] >> b[0] >> b[1] >> b[2] >> s >> ord) {
    const Vec3 x(a[0], a[1], a[2]), y(b[0], b[1], b[2]); Vec3 z;
    printf("%d %d", x == y, x != y); o(z); o(+x); o(x + y); o(-x); o(x - y); o(x * s); o(s * x);
    z = x; Vec3& w = (z += y); o(z); o(w); z = x; z -= y; o(z); z = x; z *= s; o(z);
    if (s != 0) { o(x / s); z = x; z /= s; o(z); } else { o(Vec3()); o(Vec3()); }
    printf(" %.17g", x.dot(y)); o(x.cross(y));
    double* c = vec3Operation::cross(a, b);
    printf(" %.17g %.17g %.17g %.17g %.17g", vec3Operation::dot(a, b), c[0], c[1], c[2], vec3Operation::norm(a));
    if (vec3Operation::norm(a) > 0) { double* n = vec3Operation::normalize(a); printf(" %.17g %.17g %.17g", n[0], n[1], n[2]); free(n);} else printf(" 0 0 0");
    free(c);
    double** p = vec3Operation::RecursionOuterProduct(ord, a);
    int rows = 1; for (int i = 1; i < ord; i++) rows *= 3;
    for (int i = 0; i < rows; i++) for (int j = 0; j < 3; j++) printf(" %.17g", p[i][j]);
    for (int i = 0; i < rows; i++) free(p[i]);
    free(p);
    printf("\n"); fflush(stdout);
  }
}
'''
BOUNDED_RULE = 'real operators on random, zero, equal and nearly equal vectors and outer-product orders 1..5; non-trivial: all components non-zero'


def bounded(b):
    rng = random.Random(b.seed)
    lit = cdrv.literals([REPO + '/source/core/include/vecx.h', REPO + '/source/core/include/vec3Operation.h'])
    cases = []
    for h in b.hints:
        i = h['inputs']
        cases.append(tuple(float(i.get(k, 0)) for k in ('a0', 'a1', 'a2', 'b0', 'b1', 'b2', 's')) + (rng.randint(1, 4),))
    g = lambda: rng.choice([rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(-1e-3, 1e-3), 0.0, rng.choice(lit), -rng.choice(lit), rng.uniform(-300, 300)])
    for _ in range(2000 if not b.thorough else 30000):
        a = [g() for _ in range(3)]
        bb = [x if rng.random() < .2 else g() for x in a] if rng.random() < .6 else list(a)
        cases.append(tuple(a + bb + [g(), rng.randint(1, 5)]))
    drv = cdrv.Driver(DRIVER)
    out, err = drv.run(''.join(' '.join('%.17g' % x for x in c[:7]) + ' %d\n' % c[7] for c in cases))
    if err:
        b.bad('the code aborts: ' + err, dict(case=cases[min(len(out), len(cases) - 1)]))
        return
    for c, line in zip(cases, out):
        a, bb, s, od = list(c[:3]), list(c[3:6]), c[6], c[7]
        got = [float(x) for x in line.split()]
        z = [0.0] * 3
        add = [x + y for x, y in zip(a, bb)]
        sub = [x - y for x, y in zip(a, bb)]
        mul = [x * s for x in a]
        div = [x / s for x in a] if s else z
        cr = cross(a, bb)
        dt = sum(x * y for x, y in zip(a, bb))
        n = math.sqrt(sum(x * x for x in a))
        e = [float(a == bb), float(a != bb)] + z + a + add + [-x for x in a] + sub + mul + mul + add + add + sub + mul + div + div + \
            [dt] + cr + [dt] + cr + [n] + ([x / n for x in a] if n else z)
        for row in range(3 ** (od - 1)):
            for k in range(3):
                w, q_ = a[k], row
                for _ in range(od - 1):
                    w *= a[q_ % 3]
                    q_ //= 3
                e.append(w)
        m = max([1.0] + [abs(x) for x in a + bb])
        tol = lambda k: 1e-12 * m * m if 46 <= k < 54 else 0
        if len(e) != len(got) or any(abs(x - y) > 1e-9 * abs(y) + tol(k) + 1e-300 for k, (x, y) in enumerate(zip(got, e))):
            b.bad('vector algebra', dict(case=c, first=[k for k, (x, y) in enumerate(zip(got, e)) if abs(x - y) > 1e-9 * abs(y) + tol(k)][:6]))
        b.ok(c if all(a) and all(bb) else None, dict(case=c))


if __name__ == '__main__':
    import sys
    import props.C04 as m
    sys.exit(main(m))
