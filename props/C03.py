"""C03 - the C++ environment matrix (value, derivative, slot layout, padding)."""
import math
import random

import numpy as np

from props.envspec import *
from vc import cdrv
from vc.report import Unit, main

ID = 'C03'
FILES = ['source/descriptor/deepmd/include/envMatrix.h', 'source/descriptor/deepmd/include/se4pw.h',
         'source/descriptor/deepmd/include/se.h', 'source/core/include/vec3Operation.h']
TRUSTED = ['SwitchFunc, recip and smooth_func enter through the contracts proved in C01 (d/dr of the switch is its derivative)',
           'preconditions of the routine: neighbour counts fit the per-type capacities, neighbour indices and types are in range']



def base(ctx, t):
    rc, rs = R('rc'), R('rs')
    it = Interp(t, ctx, contracts=callee_contracts(rc, rs))
    inum, nt, nall = N('inum'), N('ntypes'), N('nall')
    TOT = z3.Int('TOT')
    ctx.assume(z3.And(rc > rs, rs >= 0, nall >= 0))
    ilist, la = inarray(it, 'ilist', 'int', (inum,))
    nn, nna = inarray(it, 'numneigh', 'int', (inum,))
    first, fa = inarray(it, 'firstneigh', 'int', (inum, TOT))
    types, ta = inarray(it, 'types', 'int', (nall,))
    U, ua = inarray(it, 'umax', 'int', (nt,))
    env = Env(ctx, nt, inum, lambda i: nna[i], lambda i, j: ta[z3.Select(fa, i, j)], lambda x: ua[x])
    i, j = z3.Ints('i j')
    nb = z3.Select(fa, i, j)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < inum), z3.And(nna[i] >= 0, nna[i] <= TOT))))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < inum), z3.And(la[i] >= 0, la[i] < nall))))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < inum, 0 <= j, j < nna[i]),
                                            z3.And(nb >= 0, nb < nall, ta[nb] >= 0, ta[nb] < nt))))
    star = z3.Ints('i_ j_ t_ m_')
    si, sj, st, sm = star
    ctx.assume(z3.And(0 <= si, si < inum, 0 <= sj, sj < nna[si], 0 <= st, st < nt, 0 <= sm, sm < ua[st]))
    env.know(si, sj, sj, st, sm)
    return it, env, dict(rc=rc, rs=rs, inum=inum, nt=nt, nall=nall, TOT=TOT, ilist=ilist, la=la, nn=nn, nna=nna, first=first,
                         fa=fa, types=types, ta=ta, U=U, ua=ua), star


def finish(ctx, it, env, v, star, cell, fname, args):
    si, sj, st, sm = star
    fn = it.tu.find(fname)
    it.call(fn, None, args)
    for p, comps, val in cell(si, sj):
        ctx.check('every neighbour stored in its own slot of its type block: %s %s' % (p.region.name, list(comps)),
                  rd(it, p, si, env.slot(si, sj), *comps) == val)
    for p, comps, zero in env.cells:
        ctx.check('slots beyond the neighbours of a type hold the padding: %s %s' % (p.region.name, list(comps)),
                  z3.Implies(sm >= CNT(si, v['nna'][si], st), rd(it, p, si, START(st) + sm, *comps) == zero))


ZERO = z3.RealVal(0)


def env_run(ctx):
    it, env, v, star = base(ctx, tu('deepmd'))
    inum, TOT = v['inum'], v['TOT']
    tr, _ = outarray(it, 'tilde_r', 'double', (inum, TOT, 4))
    td, _ = outarray(it, 'tilde_r_deriv', 'double', (inum, TOT, 4, 3))
    rel, ra = inarray(it, 'relative_coords', 'double', (inum, TOT, 3))

    def cell(a, b):
        val, dv = values(v['rc'], v['rs'], *[z3.Select(ra, a, b, z3.IntVal(k)) for k in range(3)], 1)
        return [(tr, (k,), val[k]) for k in range(4)] + [(td, (k, l), dv[k][l]) for k in range(4) for l in range(3)]
    env.cells = [(tr, (k,), ZERO) for k in range(4)] + [(td, (k, l), ZERO) for k in range(4) for l in range(3)]
    it.loops = {'resolve': roles(env, [tr, td], cell, star)}
    finish(ctx, it, env, v, star, cell, 'EnvMatrix<double>::find_value_deriv',
           [tr, td, inum, v['ilist'], v['nn'], v['first'], rel, v['types'], v['nt'], v['U'], v['rc'], v['rs']])


def se_run(ctx):
    it, env, v, star = base(ctx, tu('deepmd'))
    inum, TOT = v['inum'], v['TOT']
    tr, _ = outarray(it, 'tilde_r', 'double', (inum, TOT, 4))
    td, _ = outarray(it, 'tilde_r_deriv', 'double', (inum, TOT, 4, 3))
    rel, _ = outarray(it, 'relative_coords', 'double', (inum, TOT, 3))
    x, xa = inarray(it, 'x', 'double', (v['nall'], 3))

    def cell(a, b):
        n = z3.Select(v['fa'], a, b)
        c = v['la'][a]
        d = [z3.Select(xa, n, z3.IntVal(k)) - z3.Select(xa, c, z3.IntVal(k)) for k in range(3)]
        val, dv = values(v['rc'], v['rs'], *d, -1)
        return ([(tr, (k,), val[k]) for k in range(4)] + [(td, (k, l), dv[k][l]) for k in range(4) for l in range(3)]
                + [(rel, (k,), d[k]) for k in range(3)])
    env.cells = ([(tr, (k,), ZERO) for k in range(4)] + [(td, (k, l), ZERO) for k in range(4) for l in range(3)]
                 + [(rel, (k,), ZERO) for k in range(3)])
    it.loops = {'resolve': roles(env, [tr, td, rel], cell, star)}
    finish(ctx, it, env, v, star, cell, 'Se4pw<double>::generate',
           [tr, td, rel, inum, v['ilist'], v['nn'], v['first'], x, v['types'], v['nt'], v['U'], v['rc'], v['rs']])


def prim_run(ctx):
    it, env, v, star = base(ctx, tu('deepmd'))
    inum, TOT = v['inum'], v['TOT']
    pi, _ = outarray(it, 'prim_indices', 'int', (inum, TOT))

    def cell(a, b):
        return [(pi, (), z3.Select(v['fa'], a, b) % inum)]
    env.cells = [(pi, (), z3.IntVal(-1))]
    it.loops = {'resolve': roles(env, [pi], cell, star)}
    finish(ctx, it, env, v, star, cell, 'Se4pw<double>::get_prim_indices_from_matersdk',
           [pi, inum, v['ilist'], v['nn'], v['first'], v['types'], v['nt'], v['U']])


def units(tier):
    tu('deepmd')
    return [
        Unit('environment matrix and derivative', env_run, ['EnvMatrix<double>::find_value_deriv']),
        Unit('type-blocked features for the fitting net', se_run, ['Se4pw<double>::generate', 'vec3Operation::norm']),
        Unit('owner indices', prim_run, ['Se4pw<double>::get_prim_indices_from_matersdk']),
        Unit('lemma: block starts', lemma_start, ['ghost START']),
        Unit('lemma: per-type counts', lemma_cnt, ['ghost CNT']),
        Unit('lemma: derivative formulas', lemma_deriv, ['ghost values']),
    ]


DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <vector>
#include "@S@/descriptor/deepmd/include/se.h"
#include "@S@/descriptor/deepmd/include/envMatrix.h"
#include "@S@/descriptor/deepmd/include/se4pw.h"
using namespace matersdk;
template <class T> void rdv(std::vector<T>& v) { for (auto& a : v) std::cin >> a; }
template <class T> void out(const std::vector<T>& v) { for (auto a : v) printf(" %.17g", (double)a); }
template <class C> void go() {
    int inum, nall, nt; double rc, rs;
    std::cin >> inum >> nall >> nt >> rc >> rs;
    std::vector<int> U(nt), il(inum), nn(inum), ty(nall);
    rdv(U); int tot = 0; for (int u : U) tot += u;
    std::vector<int> fn(inum * tot); std::vector<double> x(nall * 3), rel0(inum * tot * 3);
    rdv(il); rdv(nn); rdv(ty); rdv(fn); rdv(x); rdv(rel0);
    std::vector<C> xc(x.begin(), x.end()), rel(rel0.begin(), rel0.end()), tr(inum * tot * 4, 7), td(inum * tot * 12, 7), tr2(inum * tot * 4, 7), td2(inum * tot * 12, 7), rr(inum * tot * 3, 7);
    std::vector<int> pi(inum * tot, 7);
    deepPotSE::EnvMatrix<C>::find_value_deriv(tr.data(), td.data(), inum, il.data(), nn.data(), fn.data(), rel.data(), ty.data(), nt, U.data(), (C)rc, (C)rs);
    deepPotSE::Se4pw<C>::generate(tr2.data(), td2.data(), rr.data(), inum, il.data(), nn.data(), fn.data(), xc.data(), ty.data(), nt, U.data(), (C)rc, (C)rs);
    deepPotSE::Se4pw<C>::get_prim_indices_from_matersdk(pi.data(), inum, il.data(), nn.data(), fn.data(), ty.data(), nt, U.data());
    out(tr); out(td); out(tr2); out(td2); out(rr); out(pi); printf("\n"); fflush(stdout);
}
int main() { int f; while (std::cin >> f) { if (f) go<float>(); else go<double>(); } }
'''
BOUNDED_RULE = ('the three routines, compiled from the headers (ASan/UBSan), on random systems: 1-4 types, uneven and zero '
                'capacities, full blocks, coincident atoms, distances at both radii, shuffled centre lists; non-trivial: at least '
                'one neighbour strictly inside the cutoff')


def bounded(b):
    rng = random.Random(b.seed)
    drv = cdrv.Driver(DRIVER)
    lit = [l for l in cdrv.literals([REPO + '/' + f for f in FILES]) if 0 < abs(l) < 50]
    cases, text = [], []
    for n in range(150 if not b.thorough else 2500):
        nt = rng.randint(1, 4)
        U = [rng.choice([0, 1, 2, 3, 4, 7]) for _ in range(nt)]
        if not sum(U):
            U[rng.randrange(nt)] = 2
        tot = sum(U)
        inum = rng.randint(1, 5)
        nall = inum * rng.randint(1, 4) + rng.randint(0, 3)
        ty = [rng.randrange(nt) for _ in range(nall)]
        for t in range(nt):
            if U[t] and t not in ty and rng.random() < 0.8:
                ty[rng.randrange(nall)] = t
        rs = rng.choice([0.0, 0.5, rng.uniform(0, 3)])
        rc = rs + rng.choice([rng.uniform(0.3, 6), rng.choice(lit)])
        if rc <= rs:
            rc = rs + 1.0
        sc = rng.choice([rc * 0.4, rc * 0.8, 1.0])
        x = np.array([[rng.gauss(0, sc) for _ in range(3)] for _ in range(nall)])
        il = [rng.randrange(nall) for _ in range(inum)] if rng.random() < 0.5 else list(range(inum))
        byt = [[k for k in range(nall) if ty[k] == t] for t in range(nt)]
        nn, fn = [], []
        for i in range(inum):
            l = []
            for t in range(nt):
                if byt[t] and U[t]:
                    m = U[t] if rng.random() < 0.3 else rng.randint(0, U[t])
                    l += [rng.choice(byt[t]) for _ in range(m)]
            rng.shuffle(l)
            nn.append(len(l))
            fn.append(l + [rng.choice([0, -1, nall - 1])] * (tot - len(l)))
        for i in range(inum):
            if nn[i] and rng.random() < 0.3:
                # put one neighbour exactly at a special distance from its centre
                k = fn[i][0]
                if k != il[i]:
                    d = rng.choice([rs, rc, rs, rc, (rs + rc) / 2, 0.0, rng.choice(lit)])
                    ax = rng.randrange(3)
                    x[k] = x[il[i]]
                    x[k][ax] += d
        f32 = rng.random() < 0.2
        if f32:
            x = np.float32(x).astype(float)
            rc, rs = float(np.float32(rc)), float(np.float32(rs))
        rel = np.zeros((inum, tot, 3))
        for i in range(inum):
            for j in range(nn[i]):
                rel[i, j] = x[fn[i][j]] - x[il[i]]
        cases.append((inum, nall, nt, rc, rs, U, il, nn, ty, fn, x, rel, f32))
        text.append('%d %d %d %d %.17g %.17g %s %s %s %s %s %s %s\n' % (
            f32, inum, nall, nt, rc, rs, ' '.join(map(str, U)), ' '.join(map(str, il)), ' '.join(map(str, nn)),
            ' '.join(map(str, ty)), ' '.join(str(a) for l in fn for a in l), ' '.join('%.17g' % a for a in x.flat),
            ' '.join('%.17g' % a for a in rel.flat)))
    out, err = drv.run(''.join(text))
    if err:
        b.bad('the code aborts: ' + err, text[min(len(out), len(text) - 1)])
        return

    def val(d, rc, rs):
        r = math.sqrt(float(d @ d))
        w, dw = 1.0, 0.0
        if r >= rc:
            w = 0.0
        elif r >= rs:
            u = (r - rs) / (rc - rs)
            w = 1 - 10 * u ** 3 + 15 * u ** 4 - 6 * u ** 5
            dw = (-30 * u ** 2 + 60 * u ** 3 - 30 * u ** 4) / (rc - rs)
        q = 0.0 if r == 0 else 1 / r
        v = np.concatenate([[q * w], q * q * w * d])
        dv = np.zeros((4, 3))
        dv[0] = (q * q * dw - q ** 3 * w) * d
        dv[1:] = np.outer(d, d) * (q ** 3 * dw - 2 * q ** 4 * w) + np.eye(3) * q * q * w
        return v, dv, r
    for c, line in zip(cases, out):
        inum, nall, nt, rc, rs, U, il, nn, ty, fn, x, rel, f32 = c
        tot = sum(U)
        g = np.array([float(a) for a in line.split()])
        sizes = [inum * tot * 4, inum * tot * 12, inum * tot * 4, inum * tot * 12, inum * tot * 3, inum * tot]
        off = np.cumsum([0] + sizes)
        shp = [(inum, tot, 4), (inum, tot, 4, 3), (inum, tot, 4), (inum, tot, 4, 3), (inum, tot, 3), (inum, tot)]
        got = [g[off[k]:off[k + 1]].reshape(shp[k]) for k in range(6)]
        exp = [np.zeros(s) for s in shp]
        exp[5][:] = -1
        start = np.cumsum([0] + U)
        live = False
        for i in range(inum):
            cnt = [0] * nt
            for j in range(nn[i]):
                k = fn[i][j]
                t = ty[k]
                s = start[t] + cnt[t]
                cnt[t] += 1
                v, dv, r = val(rel[i, j], rc, rs)
                live = live or 0 < r < rc
                exp[0][i, s], exp[1][i, s] = v, dv
                exp[2][i, s], exp[3][i, s], exp[4][i, s] = v, -dv, rel[i, j]
                exp[5][i, s] = k % inum
        nm = ['environment matrix', 'environment matrix derivative', 'features', 'feature derivative', 'relative coordinates', 'owner index']
        tol = 2e-3 if f32 else 1e-7
        for k in range(6):
            if got[k].size and not np.all(np.abs(got[k] - exp[k]) <= tol * (1 + np.abs(exp[k]).max())):
                w = tuple(int(a) for a in np.argwhere(~(np.abs(got[k] - exp[k]) <= tol * (1 + np.abs(exp[k]).max())))[0])
                b.bad(nm[k], dict(element=w, got=float(got[k][w]), expected=float(exp[k][w]), rc=rc, rs=rs, capacities=U, types=ty,
                                  centres=il, neighbours=fn, numneigh=nn, coords=x.tolist()))
        b.ok((tuple(U), tuple(nn), round(rc, 3)) if live else None, dict(capacities=U, numneigh=nn, rc=rc, rs=rs) if live else None)


if __name__ == '__main__':
    import sys
    import props.C03 as m
    sys.exit(main(m))
