"""Supercell expansion (C++): Structure::make_supercell and Supercell."""
import random
from vc.cxxlib import *
from vc.core import *
from vc.report import Unit, main
from vc import cdrv
from props.nbspec import *

ID = 'C05'
ASSUMPTIONS = ASSUMPTIONS[:3] + ['int index arithmetic treated as mathematical (no overflow of num_atoms * scaling)']
TRUSTED = ['clang 18 front end (typed AST)', 'z3 5.3 / cvc5 1.1.2 / vc.cas', 'vc.cxx symbolic semantics of the C++ subset',
           'malloc succeeds and returns fresh blocks', 'mixed-radix lemma (digits below their radices give a flat index below the product)']


def inputs(it):
    ctx = it.ctx
    n = N('n')
    ctx.assume(n >= 1)
    s = [N('s%d' % k) for k in range(3)]
    for q in s:
        ctx.assume(q >= 1)
    return n, s, zarray('coords', 2, 'real'), zarray('Z', 1, 'int'), lattice()


def msc_unit(par):
    """par: which of the three factors are even"""
    def run(ctx):
        it = Interp(T(), ctx)
        n, s, ca, za, lat = inputs(it)
        half = [N('h%d' % k) for k in range(3)]
        for q, h, e in zip(s, half, par):
            ctx.assume(q == (2 * h if e else 2 * h + 1))
        o = structure(it, 'st', n, lambda i, k: sel(ca, i, k), lambda i: sel(za, i), lat, [R('o%d' % k) for k in range(3)])
        it.radix = [(s[0], s[1], s[2], n), (s[0] * s[1] * s[2], n)]
        it.trip_candidates = s
        it.shape_hint = radix_hint(s, n)
        tot = n * s[0] * s[1] * s[2]
        it.call(it.tu.find(ST + '::make_supercell', 1), o, [vecarr(it, 'scaling', s, elem='int')])
        ctx.check('number of atoms', method(it, o, 'get_num_atoms') == tot)
        A, B, C, P, D = [N(x) for x in 'ABCPD']
        for x, d in zip((A, B, C, P, D), s + [n, s[0] * s[1] * s[2]]):
            ctx.assume(z3.And(x >= 0, x < d))
        cc = method(it, o, 'get_cart_coords')
        fi = ((A * s[1] + B) * s[2] + C) * n + P
        for k in range(3):
            want = sel(ca, P, k)
            for q, x in enumerate((A, B, C)):
                want = want + z3.ToReal(x + lo(s[q])) * lat[q][k]
            ctx.check('atom P of cell (A,B,C) is atom P of the original cell translated by (A+lo)a+(B+lo)b+(C+lo)c, component %d' % k,
                      ld(it, cc, fi, k) == want)
        an = method(it, o, 'get_atomic_numbers')
        ctx.check('atomic number', ld(it, an, D * n + P) == sel(za, P))
        bv = method(it, o, 'get_basis_vectors')
        po = method(it, o, 'get_pseudo_origin')
        for k in range(3):
            ctx.check('origin of the box, component %d' % k, ld(it, po, k) == sum(z3.ToReal(lo(s[q])) * lat[q][k] for q in range(3)))
            for i in range(3):
                ctx.check('box vector %d component %d' % (i, k), ld(it, bv, i, k) == z3.ToReal(s[i]) * lat[i][k])
    return Unit('make_supercell, %s scaling' % '/'.join('even' if e else 'odd' for e in par), run,
                ['Structure::make_supercell', 'Structure::get_*'], exact=True, timeout=400)


def ctor_unit(kind, cart):
    def run(ctx):
        it = Interp(T(), ctx)
        n = N('n')
        ctx.assume(n >= 1)
        ca, za, lat = zarray('coords', 2, 'real'), zarray('Z', 1, 'int'), lattice()
        zp = fn_region(it, 'Z', 'int', n, lambda i: sel(za, i[0]), readonly=True)
        if kind == 'array':
            lp = fn_region(it, 'lat', 'double', z3.IntVal(9), lambda i: pick([pick(r, i[1]) for r in lat], i[0]), (z3.IntVal(3), z3.IntVal(3)), readonly=True)
            cp = fn_region(it, 'coords', 'double', 3 * n, lambda i: sel(ca, *i), (n, z3.IntVal(3)), readonly=True)
            pred = lambda ts: '[3]' in ts[1] or '(*' in ts[1]
        else:
            lp = rows(it, 'lat', z3.IntVal(3), lambda i, k: pick([pick(r, k) for r in lat], i), readonly=True)
            cp = rows(it, 'coords', n, lambda i, k: sel(ca, i, k), readonly=True)
            pred = lambda ts: '**' in ts[1].replace(' ', '')
        o = construct(it, ST, n, lp, zp, cp, z3.BoolVal(cart), pred=pred)
        P = N('P')
        ctx.assume(z3.And(P >= 0, P < n))
        ctx.check('number of atoms', method(it, o, 'get_num_atoms') == n)
        ctx.check('atomic numbers', ld(it, method(it, o, 'get_atomic_numbers'), P) == sel(za, P))
        cc, bv, po = (method(it, o, g) for g in ('get_cart_coords', 'get_basis_vectors', 'get_pseudo_origin'))
        for k in range(3):
            want = sel(ca, P, k) if cart else sum(sel(ca, P, q) * lat[q][k] for q in range(3))
            ctx.check('%s coordinates, component %d' % ('cartesian' if cart else 'fractional -> cartesian', k), ld(it, cc, P, k) == want)
            ctx.check('origin', ld(it, po, k) == 0)
            for i in range(3):
                ctx.check('box vector %d component %d' % (i, k), ld(it, bv, i, k) == lat[i][k])
    return Unit('Structure(%s, %s)' % (kind, 'cartesian' if cart else 'fractional'), run, ['Structure::Structure', 'Structure::calc_cart_coords'])


def sc_ctor_unit(par):
    def run(ctx):
        it = Interp(T(), ctx, contracts={ST + '::make_supercell': supercell_contract, 'matersdk::BasicStructureInfo<double>::BasicStructureInfo/1': info_contract})
        n, s, ca, za, lat = inputs(it)
        half = [N('h%d' % k) for k in range(3)]
        for q, h, e in zip(s, half, par):
            ctx.assume(q == (2 * h if e else 2 * h + 1))
        A = [N('p%d' % k) for k in range(3)]          # position of the original cell
        for x, h, e in zip(A, half, par):
            ctx.assume(x == (h - 1 if e else h))
        it.radix = [(s[0], s[1], s[2], n), (s[0] * s[1] * s[2], n)]
        o = structure(it, 'st', n, lambda i, k: sel(ca, i, k), lambda i: sel(za, i), lat)
        S = construct(it, 'Supercell<double>', o, vecarr(it, 'scaling', s, elem='int'))
        tot = n * s[0] * s[1] * s[2]
        ctx.check('number of atoms', method(it, S, 'get_num_atoms') == tot)
        ctx.check('number of atoms of the original cell', method(it, S, 'get_prim_num_atoms') == n)
        sm = method(it, S, 'get_scaling_matrix')
        px = method(it, S, 'get_prim_cell_idx_xyz')
        for k in range(3):
            ctx.check('scaling %d' % k, ld(it, sm, k) == s[k])
            ctx.check('position of the original cell along axis %d' % k, ld(it, px, k) == -lo(s[k]))
            ctx.check('that position %d' % k, -lo(s[k]) == A[k])
        ctx.check('index of the original cell', method(it, S, 'get_prim_cell_idx') == (A[0] * s[1] + A[1]) * s[2] + A[2])
        P = N('P')
        ctx.assume(z3.And(P >= 0, P < n))
        w = ld(it, method(it, S, 'get_owned_atom_idxs'), P)
        st = it.call(it.tu.find('Supercell<double>::get_structure'), S, [])
        st = st.get() if isinstance(st, LV) else st
        cc, an = method(it, st, 'get_cart_coords'), method(it, st, 'get_atomic_numbers')
        own = ((A[0] * s[1] + A[1]) * s[2] + A[2]) * n + P
        ctx.check('owned atoms are the atoms of the original cell', w == own)
        for k in range(3):
            ctx.check('owned atom P sits where atom P of the input sits, component %d' % k, ld(it, cc, own, k) == sel(ca, P, k))
        ctx.check('owned atom P has the species of atom P', ld(it, an, own) == sel(za, P))
    return Unit('Supercell, %s scaling' % '/'.join('even' if e else 'odd' for e in par), run,
                ['Supercell::Supercell', 'Supercell::calc_prim_cell_idx_xyz', 'Supercell::calc_prim_cell_idx', 'Supercell::calc_owned_atom_idxs',
                 'Structure copy constructor', 'Structure::operator='], timeout=400)


def info_contract(it, this, args):
    """BasicStructureInfo(structure): records the number of atoms; the geometry fields are C06's business"""
    st = args[0].get() if isinstance(args[0], LV) else args[0]
    it.setcell(this.f['num_atoms'], st.f['num_atoms'].val)


def units(tier):
    T()
    import itertools
    us = [ctor_unit(k, c) for k in ('array', 'pointer') for c in (True, False)]
    for par in itertools.product((True, False), repeat=3):
        us.append(msc_unit(par))
        us.append(sc_ctor_unit(par))
    return us


DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cassert>
#include <vector>
#include <iostream>
#include "@S@/nblist/include/binLinkedList.h"
using namespace matersdk;
static void dump(const Structure<double>& s) {
  int n = s.get_num_atoms();
  printf(" %d", n);
  for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) printf(" %.17g", s.get_basis_vectors()[i][k]);
  for (int k = 0; k < 3; k++) printf(" %.17g", s.get_pseudo_origin()[k]);
  for (int i = 0; i < n; i++) { printf(" %d", s.get_atomic_numbers()[i]); for (int k = 0; k < 3; k++) printf(" %.17g", s.get_cart_coords()[i][k]); }
}
int main() {
  int n, cart, ptr, sc[3];
  while (std::cin >> n >> cart >> ptr >> sc[0] >> sc[1] >> sc[2]) {
    double lat[3][3]; for (auto& r : lat) for (double& x : r) std::cin >> x;
    std::vector<int> z(n); double (*c)[3] = (double(*)[3])malloc(sizeof(double) * 3 * n);
    for (int i = 0; i < n; i++) { std::cin >> z[i]; for (int k = 0; k < 3; k++) std::cin >> c[i][k]; }
    double* lp[3] = {lat[0], lat[1], lat[2]}; std::vector<double*> cp(n); for (int i = 0; i < n; i++) cp[i] = c[i];
    Structure<double> s = ptr ? Structure<double>(n, lp, z.data(), cp.data(), cart) : Structure<double>(n, lat, z.data(), c, cart);
    dump(s);
    Structure<double> t(s); t.make_supercell(sc); dump(t);
    { Supercell<double> S(s, sc);
      printf(" %d %d %d", S.get_num_atoms(), S.get_prim_num_atoms(), S.get_prim_cell_idx());
      for (int k = 0; k < 3; k++) printf(" %d %d", S.get_scaling_matrix()[k], S.get_prim_cell_idx_xyz()[k]);
      for (int i = 0; i < n; i++) printf(" %d", S.get_owned_atom_idxs()[i]);
      dump(S.get_structure()); }
    free(c);
    printf("\n"); fflush(stdout);
  }
}
'''
BOUNDED_RULE = 'random triclinic cells, 1..4 atoms, scalings 1..5 per axis (odd, even, mixed), both constructors, fractional and cartesian input; non-trivial: more than one cell'


def expand(n, lat, z, x, s):
    l = [-((q - 1) // 2) for q in s]
    out = [n * s[0] * s[1] * s[2]]
    out += [lat[i][k] * s[i] for i in range(3) for k in range(3)]
    out += [sum(l[q] * lat[q][k] for q in range(3)) for k in range(3)]
    for a in range(s[0]):
        for b in range(s[1]):
            for c in range(s[2]):
                for p in range(n):
                    out.append(z[p])
                    out += [x[p][k] + (a + l[0]) * lat[0][k] + (b + l[1]) * lat[1][k] + (c + l[2]) * lat[2][k] for k in range(3)]
    return out


def bounded(b):
    rng = random.Random(b.seed)
    cases = []
    for _ in range(250 if not b.thorough else 4000):
        n = rng.randint(1, 4)
        s = [rng.randint(1, 5) for _ in range(3)]
        if rng.random() < .3:
            s = [rng.choice((1, 2, 3, 4, 7)) for _ in range(3)]
        lat = [[rng.uniform(-2, 2) + (4 if i == k else 0) for k in range(3)] for i in range(3)]
        cases.append((n, rng.randint(0, 1), rng.randint(0, 1), s, lat, [rng.randint(1, 100) for _ in range(n)],
                      [[rng.uniform(-.2, 1.2) for _ in range(3)] for _ in range(n)]))
    txt = ''
    for n, cart, ptr, s, lat, z, c in cases:
        txt += '%d %d %d %d %d %d ' % (n, cart, ptr, *s) + ' '.join('%.17g' % v for r in lat for v in r) + ' ' + \
            ' '.join('%d %.17g %.17g %.17g' % (zz, *cc) for zz, cc in zip(z, c)) + '\n'
    drv = cdrv.Driver(DRIVER)
    out, err = drv.run(txt)
    if err:
        b.bad('the code aborts: ' + err, dict(case=cases[min(len(out), len(cases) - 1)]))
        return
    for (n, cart, ptr, s, lat, z, c), line in zip(cases, out):
        got = [float(v) for v in line.split()]
        x = c if cart else [[sum(cc[q] * lat[q][k] for q in range(3)) for k in range(3)] for cc in c]
        one, sup = expand(n, lat, z, x, [1, 1, 1]), expand(n, lat, z, x, s)
        p = [(q - 1) // 2 for q in s]
        pi = (p[0] * s[1] + p[1]) * s[2] + p[2]
        want = one + sup + [n * s[0] * s[1] * s[2], n, pi] + [v for k in range(3) for v in (s[k], p[k])] + [pi * n + i for i in range(n)] + sup
        if len(want) != len(got) or any(abs(u - v) > 1e-9 * (1 + abs(v)) for u, v in zip(got, want)):
            b.bad('supercell expansion', dict(n=n, cart=cart, scaling=s, lattice=lat, Z=z, coords=c,
                                              first=[k for k, (u, v) in enumerate(zip(got, want)) if abs(u - v) > 1e-9 * (1 + abs(v))][:5],
                                              lengths=[len(got), len(want)]))
        b.ok((n, tuple(s)) if s != [1, 1, 1] else None, dict(n=n, scaling=s))


if __name__ == '__main__':
    import sys
    import props.C05 as m
    sys.exit(main(m))
