"""Cell geometry (C++): projected lengths, inter-planar distances, vertices, bounding box."""
import random, math, itertools
from vc.cxxlib import *
from vc.core import *
from vc.report import Unit, main
from vc import cdrv
from props.nbspec import *
from props.C04 import cross

ID = 'C06'
ASSUMPTIONS = ASSUMPTIONS[:3]
TRUSTED = ['clang 18 front end (typed AST)', 'z3 5.3 / cvc5 1.1.2 / vc.cas', 'vc.cxx symbolic semantics of the C++ subset',
           'malloc succeeds and returns fresh blocks']


def state(it, det=True):
    ctx = it.ctx
    n = N('n')
    ctx.assume(n >= 1)
    lat = lattice()
    org = [R('o%d' % k) for k in range(3)]
    ca, za = zarray('coords', 2, 'real'), zarray('Z', 1, 'int')
    o = structure(it, 'st', n, lambda i, k: sel(ca, i, k), lambda i: sel(za, i), lat, org, readonly=True)
    return o, lat, org


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def zabs(x):
    return z3.If(x >= 0, x, -x)


def zmin0(x):
    return z3.If(x < 0, x, z3.RealVal(0))


def zmax0(x):
    return z3.If(x > 0, x, z3.RealVal(0))


def normal(lat, i):
    a, b = [lat[j] for j in range(3) if j != i]
    return cross(a, b)


def proj_run(ctx):
    it = Interp(T(), ctx)
    o, lat, org = state(it)
    p = method(it, o, 'get_projected_lengths')
    for k in range(3):
        ctx.check('projected length %d' % k, ld(it, p, k) == sum(zabs(lat[i][k]) for i in range(3)))


def inter_run(axis):
    def run(ctx):
        it = Interp(T(), ctx)
        o, lat, org = state(it)
        c = [normal(lat, i) for i in range(3)]
        for i in range(3):
            ctx.assume(ctx.sqrt(dot(c[i], c[i])) > 0)       # non-degenerate cell
        p = method(it, o, 'get_interplanar_distances')
        d = ld(it, p, axis)
        w = dot(lat[axis], c[axis])
        ctx.check('distance between the lattice planes normal to axis %d: d^2 |n|^2 = (a.n)^2' % axis, d * d * dot(c[axis], c[axis]) == w * w)
        ctx.check('distance %d is not negative' % axis, d >= 0)
    return run


def vert_run(ctx):
    it = Interp(T(), ctx)
    o, lat, org = state(it)
    v = method(it, o, 'get_vertexes')
    for q, e in enumerate(itertools.product((0, 1), repeat=3)):
        for k in range(3):
            ctx.check('vertex %d component %d' % (q, k), ld(it, v, q, k) == org[k] + sum(lat[i][k] * e[i] for i in range(3)))


def limit_contract_vertexes(it, this, args):
    org = this.f['pseudo_orgin'].val
    bv = this.f['basis_vectors'].val
    P = it.alloc_bytes(z3.IntVal(64), 'vertexes')
    r = P.region
    it.typed(P, 'double *')
    for q, e in enumerate(itertools.product((0, 1), repeat=3)):
        row = it.alloc_bytes(z3.IntVal(24), 'vertex')
        it.typed(row, 'double')
        for k in range(3):
            it.storemem(Ptr(row.region, row.args, z3.IntVal(k)), ld(it, org, k) + sum(ld(it, bv, i, k) * e[i] for i in range(3)), 0)
        it.storemem(Ptr(r, P.args, z3.IntVal(q)), row, 0)
    return P


def limit_run(ctx):
    it = Interp(T(), ctx, contracts={ST + '::get_vertexes': limit_contract_vertexes})
    it.merge_ifs = True
    o, lat, org = state(it)
    l = method(it, o, 'get_limit_xyz')
    for k in range(3):
        ctx.check('lower bound of the box, component %d' % k, ld(it, l, k, 0) == org[k] + sum(zmin0(lat[i][k]) for i in range(3)))
        ctx.check('upper bound of the box, component %d' % k, ld(it, l, k, 1) == org[k] + sum(zmax0(lat[i][k]) for i in range(3)))


def info_run(ctx):
    """BasicStructureInfo records what the structure reports"""
    dist, proj = [R('d%d' % k) for k in range(3)], [R('p%d' % k) for k in range(3)]

    def mk(vals, nm):
        def c(it, this, args):
            P = it.alloc_bytes(z3.IntVal(24), nm)
            it.typed(P, 'double')
            for k in range(3):
                it.storemem(Ptr(P.region, P.args, z3.IntVal(k)), vals[k], 0)
            return P
        return c
    it = Interp(T(), ctx, contracts={ST + '::get_projected_lengths': mk(proj, 'proj'), ST + '::get_interplanar_distances': mk(dist, 'dist')})
    o, lat, org = state(it)
    b = construct(it, 'matersdk::BasicStructureInfo<double>', o, pred=lambda ts: 'Structure<' in ts[0] and 'Basic' not in ts[0])
    ctx.check('number of atoms', b.f['num_atoms'].val == N('n'))
    for k in range(3):
        ctx.check('projected length', ld(it, b.f['projected_lengths'].val, k) == proj[k])
        ctx.check('inter-planar distance', ld(it, b.f['interplanar_distances'].val, k) == dist[k])


def lemma_box(ctx):
    """every point of the cell lies inside the reported box, and the box is as long as the projected lengths"""
    lat, org = lattice(), [R('o%d' % k) for k in range(3)]
    g = [R('g%d' % i) for i in range(3)]
    for x in g:
        ctx.assume(z3.And(x >= 0, x < 1))
    for k in range(3):
        part = []
        for i in range(3):
            t = g[i] * lat[i][k]
            h = z3.And(zmin0(lat[i][k]) <= t, t <= zmax0(lat[i][k]))
            ctx.check('g*l between min(0,l) and max(0,l) (%d,%d)' % (i, k), h, 'lemma')
            ctx.assume(h)
            part.append(t)
        x = org[k] + sum(part)
        ctx.check('point inside the box, component %d' % k, z3.And(org[k] + sum(zmin0(lat[i][k]) for i in range(3)) <= x,
                                                                  x <= org[k] + sum(zmax0(lat[i][k]) for i in range(3))), 'lemma')
        ctx.check('box length = projected length, component %d' % k,
                  sum(zmax0(lat[i][k]) for i in range(3)) - sum(zmin0(lat[i][k]) for i in range(3)) == sum(zabs(lat[i][k]) for i in range(3)), 'lemma')


def lemma_plane(axis):
    def run(ctx):
        """|g| * d <= |g0 a + g1 b + g2 c|: the inter-planar distance bounds how many cells a sphere can cross"""
        lat = lattice()
        g = [R('g%d' % i) for i in range(3)]
        r = [sum(g[i] * lat[i][k] for i in range(3)) for k in range(3)]
        c = normal(lat, axis)
        w = dot(lat[axis], c)
        ctx.check('projection on the plane normal', dot(r, c) == g[axis] * w, 'lemma')
        x, y = [R('x%d' % k) for k in range(3)], [R('y%d' % k) for k in range(3)]
        q = cross(x, y)
        ctx.check('Lagrange identity', dot(x, x) * dot(y, y) - dot(x, y) * dot(x, y) == dot(q, q), 'lemma')
        d, L, rr, W, G = R('d'), R('L'), R('rr'), R('W'), R('G')
        # d^2*L = W^2, L = |n|^2 > 0, (G*W)^2 <= rr * L  =>  (G*d)^2 <= rr
        ctx.assume(z3.And(d >= 0, L > 0, d * d * L == W * W, (G * W) * (G * W) <= rr * L))
        ctx.check('(G W)^2 = (G d)^2 L', (G * W) * (G * W) == (G * d) * (G * d) * L, 'lemma')
        a, b = R('A'), R('B')
        ctx.check('cancel a positive factor', z3.Implies(z3.And(b > 0, a * b <= rr * b), a <= rr), 'lemma')
    return run


def units(tier):
    T()
    us = [Unit('get_projected_lengths', proj_run, ['Structure::get_projected_lengths']),
          Unit('get_vertexes', vert_run, ['Structure::get_vertexes']),
          Unit('get_limit_xyz', limit_run, ['Structure::get_limit_xyz']),
          Unit('BasicStructureInfo', info_run, ['BasicStructureInfo::BasicStructureInfo(Structure)']),
          Unit('lemma: box', lemma_box, lemma=True)]
    for a in range(3):
        us.append(Unit('get_interplanar_distances axis %d' % a, inter_run(a), ['Structure::get_interplanar_distances', 'vec3Operation::cross/normalize/dot']))
        us.append(Unit('lemma: plane spacing, axis %d' % a, lemma_plane(a), lemma=True))
    return us


DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cassert>
#include <vector>
#include <iostream>
#include "@S@/nblist/include/binLinkedList.h"
using namespace matersdk;
int main() {
  int sc[3];
  while (std::cin >> sc[0] >> sc[1] >> sc[2]) {
    double lat[3][3]; for (auto& r : lat) for (double& x : r) std::cin >> x;
    int z[1] = {1}; double c[1][3] = {{0.1, 0.2, 0.3}};
    Structure<double> s(1, lat, z, c, false);
    s.make_supercell(sc);
    double* p = s.get_projected_lengths(); double* d = s.get_interplanar_distances();
    double** v = s.get_vertexes(); double** l = s.get_limit_xyz();
    for (int k = 0; k < 3; k++) printf(" %.17g", p[k]);
    for (int k = 0; k < 3; k++) printf(" %.17g", d[k]);
    for (int q = 0; q < 8; q++) for (int k = 0; k < 3; k++) printf(" %.17g", v[q][k]);
    for (int k = 0; k < 3; k++) printf(" %.17g %.17g", l[k][0], l[k][1]);
    for (int q = 0; q < 8; q++) free(v[q]);
    for (int q = 0; q < 3; q++) free(l[q]);
    free(v); free(l); free(p); free(d);
    printf("\n"); fflush(stdout);
  }
}
'''
BOUNDED_RULE = 'random orthogonal, hexagonal and triclinic cells (also left-handed and with negative components), scalings 1..4; non-trivial: skewed cell'


def bounded(b):
    rng = random.Random(b.seed)
    cases = []
    while len(cases) < (800 if not b.thorough else 12000):
        m = rng.random()
        if m < .2:
            lat = [[(rng.uniform(1, 9) * rng.choice((1, -1)) if i == k else 0.0) for k in range(3)] for i in range(3)]
        elif m < .3:
            a, c = rng.uniform(2, 5), rng.uniform(5, 20)
            lat = [[a, 0, 0], [-a / 2, a * math.sqrt(3) / 2, 0], [0, 0, c]]
        else:
            lat = [[rng.uniform(-5, 5) for k in range(3)] for i in range(3)]
        if abs(dot(lat[0], cross(lat[1], lat[2]))) < .5:
            continue
        cases.append(([rng.randint(1, 4) for _ in range(3)], lat))
    drv = cdrv.Driver(DRIVER)
    out, err = drv.run(''.join('%d %d %d ' % tuple(s) + ' '.join('%.17g' % v for r in lat for v in r) + '\n' for s, lat in cases))
    if err:
        b.bad('the code aborts: ' + err, dict(case=cases[min(len(out), len(cases) - 1)]))
        return
    for (s, lat0), line in zip(cases, out):
        got = [float(v) for v in line.split()]
        l = [-((q - 1) // 2) for q in s]
        org = [sum(l[i] * lat0[i][k] for i in range(3)) for k in range(3)]
        lat = [[lat0[i][k] * s[i] for k in range(3)] for i in range(3)]
        want = [sum(abs(lat[i][k]) for i in range(3)) for k in range(3)]
        for i in range(3):
            c = normal(lat, i)
            want.append(abs(dot(lat[i], c)) / math.sqrt(dot(c, c)))
        want += [org[k] + sum(e[i] * lat[i][k] for i in range(3)) for e in itertools.product((0, 1), repeat=3) for k in range(3)]
        for k in range(3):
            want += [org[k] + sum(min(0, lat[i][k]) for i in range(3)), org[k] + sum(max(0, lat[i][k]) for i in range(3))]
        if len(got) != len(want) or any(abs(u - v) > 1e-8 * (1 + abs(v)) for u, v in zip(got, want)):
            b.bad('cell geometry', dict(scaling=s, lattice=lat0, got=got, want=want))
        b.ok((tuple(s), round(lat0[0][0], 3)) if any(lat0[i][k] for i in range(3) for k in range(3) if i != k) else None, dict(scaling=s, lattice=lat0))


if __name__ == '__main__':
    import sys
    import props.C06 as m
    sys.exit(main(m))
