"""Bounded side shared by C07/C08: real NeighborList on random structures, brute-force oracle."""
import random, math, itertools
from vc import cdrv

DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cassert>
#include <vector>
#include <iostream>
#include "@S@/nblist/include/neighborList.h"
using namespace matersdk;
int main() {
  int n, cart, ub, sort, um, pb[3]; double rcut, bs[3];
  while (std::cin >> n >> cart >> ub >> sort >> um >> rcut >> pb[0] >> pb[1] >> pb[2] >> bs[0] >> bs[1] >> bs[2]) {
    double lat[3][3]; for (auto& r : lat) for (double& x : r) std::cin >> x;
    std::vector<int> z(n); double (*c)[3] = (double(*)[3])malloc(sizeof(double) * 3 * n);
    for (int i = 0; i < n; i++) { std::cin >> z[i]; for (int k = 0; k < 3; k++) std::cin >> c[i][k]; }
    bool pbc[3] = {pb[0] != 0, pb[1] != 0, pb[2] != 0};
    Structure<double> s(n, lat, z.data(), c, cart);
    NeighborList<double> nl = ub ? NeighborList<double>(s, rcut, bs, pbc, sort) : NeighborList<double>(s, rcut, pbc, sort);
    const Supercell<double>& S = nl.get_binLinkedList().get_supercell();
    const double** cc = S.get_structure().get_cart_coords();
    printf("%d %.17g %d", nl.get_num_center_atoms(), nl.get_rcut(), nl.get_max_num_neigh_atoms());
    int mx = 0;
    for (int i = 0; i < n; i++) {
      const std::vector<int>& l = nl.get_neighbor_lists()[i];
      if ((int)l.size() > mx) mx = l.size();
      const double* ci = cc[S.get_owned_atom_idxs()[i]];
      printf(" %d", (int)l.size());
      for (int a : l) printf(" %d %d %.17g %.17g %.17g", a % n, S.get_structure().get_atomic_numbers()[a], cc[a][0] - ci[0], cc[a][1] - ci[1], cc[a][2] - ci[2]);
    }
    for (int a : {1, 8, 42}) for (int b : {1, 8, 42}) printf(" %d", nl.get_max_num_neigh_atoms_ssss(a, b));
    int U = mx + um, inum = -7, ng = -7;
    std::vector<int> il(n, -9), nn(n, -9), fn((size_t)n * U, -9), ty(n, -9); std::vector<double> rc((size_t)n * U * 3, -9);
    nl.find_info4mlff(inum, il.data(), nn.data(), fn.data(), rc.data(), ty.data(), ng, U);
    printf(" %d %d %d", U, inum, ng);
    for (int i = 0; i < n; i++) printf(" %d %d %d", il[i], nn[i], ty[i]);
    for (int x : fn) printf(" %d", x);
    for (double x : rc) printf(" %.17g", x);
    free(c);
    printf("\n"); fflush(stdout);
  }
}
'''


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def spacing(lat):
    out = []
    for i in range(3):
        c = cross(*[lat[j] for j in range(3) if j != i])
        out.append(abs(sum(x * y for x, y in zip(lat[i], c))) / math.sqrt(sum(x * x for x in c)))
    return out


def gen(rng):
    while True:
        m = rng.random()
        exact = m < .1                    # dyadic numbers: distances of exactly the cutoff
        if exact:
            lat = [[(rng.choice((2., 2.5, 3., 4.)) if i == k else 0.0) for k in range(3)] for i in range(3)]
        elif m < .2:                      # strong shear: planes much closer than the vectors are long
            lat = [[rng.uniform(2, 3), 0, 0], [rng.uniform(2, 7) * rng.choice((1, -1)), rng.uniform(2, 3), 0], [rng.uniform(-6, 6), rng.uniform(-6, 6), rng.uniform(2, 3)]]
            lat = [lat[i] for i in rng.sample(range(3), 3)]
        elif m < .3:
            lat = [[(rng.uniform(2, 6) if i == k else 0.0) for k in range(3)] for i in range(3)]
        elif m < .4:
            a, c = rng.uniform(2.5, 4), rng.uniform(4, 12)
            lat = [[a, 0, 0], [-a / 2, a * math.sqrt(3) / 2, 0], [0, 0, c]]
        elif m < .55:
            t = rng.uniform(0, 3)
            a, b, c = (rng.uniform(2, 6) for _ in range(3))
            lat = [[a * math.cos(t), a * math.sin(t), 0], [-b * math.sin(t), b * math.cos(t), 0], [0, 0, c]]
        else:
            lat = [[rng.uniform(-1.5, 1.5) + (rng.uniform(3, 6) * rng.choice((1, 1, -1)) if i == k else 0) for k in range(3)] for i in range(3)]
        d = spacing(lat)
        if min(d) < 1.5:
            continue
        n = rng.randint(1, 4)
        pbc = [rng.random() < .7 for _ in range(3)] if rng.random() < .6 else [True] * 3
        rcut = rng.choice((rng.uniform(.3, 2), rng.uniform(1, 5), rng.uniform(2, 4)))
        if exact:
            rcut = rng.choice((2., 2.5, 3., 4., 5.))
        ub = rng.random() < .5
        bs = [rng.choice((rcut / 2, rcut / 3, rcut, rcut * rng.uniform(.3, 3), rng.uniform(.8, 8))) for _ in range(3)]
        if rng.random() < .15:
            bs = [rcut * 6] * 3
        ext = [math.ceil(rcut / b) * 2 + 1 for b in bs]
        E = [2 * math.ceil(rcut / x) + 1 if p else 1 for x, p in zip(d, pbc)]
        if ext[0] * ext[1] * ext[2] > 4000 or E[0] * E[1] * E[2] * n > 1500:
            continue
        fr = [[rng.uniform(0, .999) for _ in range(3)] for _ in range(n)]
        if exact:
            fr = [[rng.choice((0.0, .5, .25, .75)) for _ in range(3)] for _ in range(n)]
        if rng.random() < .2:
            fr[0] = [rng.choice((0.0, .5, .25)) for _ in range(3)]
        z = [rng.choice((1, 8, 42)) for _ in range(n)]
        return dict(n=n, rcut=rcut, pbc=pbc, ub=ub, bins=bs, lat=lat, frac=fr, Z=z, sort=rng.random() < .5, extra=rng.randint(0, 3), exact=exact)


def brute(c):
    """per centre: list of (index, Z, displacement), or None when a distance is too close to a threshold"""
    lat, n = c['lat'], c['n']
    x = [[sum(f[q] * lat[q][k] for q in range(3)) for k in range(3)] for f in c['frac']]
    E = [math.ceil(c['rcut'] / d) + 1 if p else 0 for d, p in zip(spacing(lat), c['pbc'])]
    out = []
    for p in range(n):
        l = []
        for t in itertools.product(*[range(-e, e + 1) for e in E]):
            sh = [sum(t[q] * lat[q][k] for q in range(3)) for k in range(3)]
            for q in range(n):
                r = [x[q][k] + sh[k] - x[p][k] for k in range(3)]
                d2 = sum(v * v for v in r)
                if not c.get('exact') and abs(d2 - c['rcut'] ** 2) < 1e-6 or abs(d2 - 1e-3) < 1e-6:
                    return None
                if 1e-3 < d2 < c['rcut'] ** 2:
                    l.append((q, c['Z'][q], r))
        out.append(l)
    return out


def key(e):
    return (e[0], e[1]) + tuple(round(v, 5) + 0.0 for v in e[2])


def run(b, count):
    rng = random.Random(b.seed)
    cases = []
    while len(cases) < count:
        c = gen(rng)
        w = brute(c)
        if w is not None:
            cases.append((c, w))
    txt = ''
    for c, _ in cases:
        txt += '%d 0 %d %d %d %.17g %d %d %d %.17g %.17g %.17g ' % (c['n'], c['ub'], c['sort'], c['extra'], c['rcut'], *c['pbc'], *c['bins']) + \
            ' '.join('%.17g' % v for r in c['lat'] for v in r) + ' ' + ' '.join('%d %.17g %.17g %.17g' % (z, *f) for z, f in zip(c['Z'], c['frac'])) + '\n'
    drv = cdrv.Driver(DRIVER)
    out, err = drv.run(txt, timeout=400)
    res = []
    for (c, w), line in zip(cases, out):
        v = line.split()
        p = 3
        g = dict(inum=int(v[0]), rcut=float(v[1]), maxn=int(v[2]), lists=[])
        for i in range(c['n']):
            m = int(v[p]); p += 1
            l = []
            for _ in range(m):
                l.append((int(v[p]), int(v[p + 1]), [float(y) for y in v[p + 2:p + 5]])); p += 5
            g['lists'].append(l)
        g['ssss'] = [int(y) for y in v[p:p + 9]]; p += 9
        U = int(v[p]); g['U'], g['minum'], g['nghost'] = U, int(v[p + 1]), int(v[p + 2]); p += 3
        g['il'] = [[int(y) for y in v[p + 3 * i:p + 3 * i + 3]] for i in range(c['n'])]; p += 3 * c['n']
        g['fn'] = [int(y) for y in v[p:p + c['n'] * U]]; p += c['n'] * U
        g['rc'] = [float(y) for y in v[p:p + c['n'] * U * 3]]
        res.append((c, w, g))
    return cases, res, err
