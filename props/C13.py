"""Smooth environment matrix of the Python descriptor (se_pair): s, tildeR, its derivative, padding, assembly."""
import itertools
from vc.pylib import *
from vc.report import main
from vc.diff import ddx

ID = 'C13'
ASSUMPTIONS = ASSUMPTIONS + ['0 <= rcut_smooth < rcut; the distance table is the norm of the relative coordinates (contract of C12)']
F = 'matersdk/feature/deepmd/se_pair.py'
CL = 'DpseTildeRPairV1'


def vpoly(u):
    return u * u * u * (-6 * u * u + 15 * u - 10) + 1


def vspec(d, rs, rc):
    u = (d - rs) / (rc - rs)
    return z3.If(d >= rc, z3.RealVal(0), z3.If(d >= rs, vpoly(u), z3.RealVal(1)))


def dvspec(d, rs, rc):
    u = (d - rs) / (rc - rs)
    return z3.If(d >= rc, z3.RealVal(0), z3.If(d >= rs, -30 * u * u * (u - 1) * (u - 1) / (rc - rs), z3.RealVal(0)))


def sspec(d, rs, rc):
    return z3.If(d == 0, z3.RealVal(0), vspec(d, rs, rc) / d)


def inputs(it, m):
    n, w = nat(it, 'n'), nat(it, 'w')
    rs, rc = R('rs'), R('rc')
    it.assume(z3.And(rs >= 0, rc > rs))
    d, df = farr('d', (n, w))
    x, xf = farr('rc_', (n, w, 3))
    t, tf = farr('tR', (n, w, 4))
    o = Obj(m.get(it, CL), dict(rcut=rc, rcut_smooth=rs, dp_feature_pair_d=d, dp_feature_pair_rc=x, dp_feature_pair_tildeR=t))
    i, j = N('i'), N('j')
    it.assume(z3.And(rng(i, n), rng(j, w)))
    it.assume(df(i, j) >= 0)
    it.assume(df(i, j) * df(i, j) == sum(xf(i, j, k) * xf(i, j, k) for k in range(3)))
    return o, n, w, rs, rc, df, xf, tf, i, j


def u_s():
    def run(it, m):
        o, n, w, rs, rc, d, x, t, i, j = inputs(it, m)
        # the radii of the call, not those of the object
        o.f['rcut'], o.f['rcut_smooth'] = R('rc_obj'), R('rs_obj')
        r = it.method(o, '_get_s', rcut=rc, rcut_smooth=rs)
        shape_is(it, 's', r, (n, w))
        it.check('s(i,j) = switch(d)/d, 0 at padded slots and from the cutoff on', r.get(i, j) == sspec(d(i, j), rs, rc))
    return unit('_get_s', F, run, [CL + '._get_s'])


def s_contract(it, self, rcut, rcut_smooth):
    g = self.f['dp_feature_pair_d'].snap()
    return SArr(self.f['dp_feature_pair_d'].shape, lambda idx: sspec(g(idx), num(rcut_smooth), num(rcut)))


def tspec(d, x, rs, rc):
    s = sspec(d, rs, rc)
    return [s] + [z3.If(d == 0, z3.RealVal(0), s * x[k] / d) for k in range(3)]


def u_t():
    def run(it, m):
        o, n, w, rs, rc, d, x, t, i, j = inputs(it, m)
        r = it.method(o, '_get_tildeR', rcut=rc, rcut_smooth=rs)
        shape_is(it, 'tildeR', r, (n, w, 4))
        want = tspec(d(i, j), [x(i, j, k) for k in range(3)], rs, rc)
        for k in range(4):
            it.check('tildeR component %d' % k, r.get(i, j, k) == want[k])
    return unit('_get_tildeR', F, run, [CL + '._get_tildeR'], contracts={CL + '._get_s': s_contract}, exact=False)


def dspec(d, x, rs, rc, a, k):
    """- d tildeR_a / d x_k, x the neighbour's position relative to the centre (= derivative by the centre)"""
    v, dv = vspec(d, rs, rc), dvspec(d, rs, rc)
    if a == 0:
        e = -(dv / d - v / (d * d)) * x[k] / d
    else:
        e = -(dv * x[a - 1] * x[k] / (d * d * d) + (v / (d * d) if a - 1 == k else 0) - 2 * v * x[a - 1] * x[k] / (d * d * d * d))
    return z3.If(d == 0, z3.RealVal(0), e)


def u_d():
    def run(it, m):
        o, n, w, rs, rc, d, x, t, i, j = inputs(it, m)
        r = it.method(o, '_calc_derivative')
        shape_is(it, 'derivative', r, (n, w, 4, 3))
        for a in range(4):
            for k in range(3):
                e = d(i, j)
                by_cases(it, 'derivative of component %d by direction %d' % (a, k),
                         r.get(i, j, a, k) == dspec(e, [x(i, j, q) for q in range(3)], rs, rc, a, k),
                         [e == 0, z3.And(e > 0, e < rs), z3.And(e > 0, e >= rs, e < rc), z3.And(e > 0, e >= rc)])
    return unit('_calc_derivative', F, run, [CL + '._calc_derivative'])


def u_pad(which):
    def run(it, m):
        o, n, w, rs, rc, d, x, t, i, j = inputs(it, m)
        M = nat(it, 'M')
        it.assume(M >= w)
        J = N('J')
        it.assume(rng(J, M))
        if which == 'tildeR':
            r = it.method(o, 'get_tildeR', M)
            shape_is(it, 'padded tildeR', r, (n, M, 4))
            for k in range(4):
                it.check('row kept, then 0 (component %d)' % k, r.get(i, J, k) == z3.If(J < w, t(i, J, k), 0))
        else:
            r = it.method(o, 'calc_derivative', M)
            D = z3.Function('D', IntS, IntS, IntS, IntS, RealS)
            shape_is(it, 'padded derivative', r, (n, M, 4, 3))
            for a in range(4):
                for k in range(3):
                    it.check('row kept, then 0 (%d,%d)' % (a, k), r.get(i, J, a, k) == z3.If(J < w, D(i, J, a, k), 0))
    con = {CL + '._calc_derivative': lambda it, self: farr('D', list(self.f['dp_feature_pair_d'].shape) + [4, 3])[0]}
    return unit('padding of ' + which, F, run, [CL + ('.get_tildeR' if which == 'tildeR' else '.calc_derivative')], contracts=con)


def u_lemma(case):
    """the closed form of the derivative is the derivative of the closed form (symbolic differentiation), join at the radii"""
    def run(ctx):
        it = Interp(ctx)
        rs, rc = R('rs'), R('rc')
        x = [R('x%d' % k) for k in range(3)]
        s2 = sum(q * q for q in x)
        d = SQRT(s2)
        it.assume(z3.And(rs >= 0, rc > rs, s2 > 0))
        dd = R('dist')
        it.assume(z3.And(dd > 0, dd * dd == s2, d == dd))
        v = z3.RealVal(1) if case == 'inner' else vpoly((d - rs) / (rc - rs)) if case == 'switch' else z3.RealVal(0)
        it.assume({'inner': dd < rs, 'switch': z3.And(dd >= rs, dd < rc), 'outer': dd >= rc}[case])
        val = [v / d] + [v * x[k] / (d * d) for k in range(3)]
        for a in range(4):
            for k in range(3):
                it.check('d(component %d)/dx%d' % (a, k), z3.substitute(-ddx(val[a], x[k]), (d, dd)) == dspec(dd, x, rs, rc, a, k), 'lemma')
        if case == 'switch':
            u = R('u')
            dv = ddx(vpoly(u), u)
            for at, val_ in ((0, 1), (1, 0)):
                it.check('value joins at u=%d' % at, z3.substitute(vpoly(u), (u, z3.RealVal(at))) == val_, 'lemma')
                it.check('slope joins at u=%d' % at, z3.substitute(dv, (u, z3.RealVal(at))) == 0, 'lemma')
    return Unit('lemma: derivative, ' + case, run, [], lemma=True, budget=30)


def u_init():
    def run(it, m):
        n, w = nat(it, 'n'), nat(it, 'w')
        arrs = {}

        def premise(it, structure_neighbors):
            assert structure_neighbors == 'SN'
            return Obj('premise', {}, {'extract_feature_pair': lambda it, o: Prim(ex)})

        def ex(it, a, k):
            a = list(a) + [k[q] for q in ('center_atomic_number', 'nbr_atomic_number') if q in k]
            key = tuple(str(z3.simplify(num(q))) for q in a)
            arrs[key] = (farr('an' + '_'.join(key), (n, w))[0], farr('d' + '_'.join(key), (n, w))[0], farr('rc' + '_'.join(key), (n, w, 3))[0])
            return arrs[key]
        rs, rc, zc, zn = R('rs'), R('rc'), N('zc'), N('zn')
        it.assume(z3.And(rs >= 0, rc > rs))
        it.contracts['DpFeaturePairPremiseV1'] = premise
        it.contracts[CL + '._get_tildeR'] = lambda it, self, rcut, rcut_smooth: \
            (it.check('radii handed on', z3.And(num(rcut) == rc, num(rcut_smooth) == rs)),
             SArr(list(self.f['dp_feature_pair_d'].shape) + [4], lambda idx: z3.Function('T', *([IntS] * 3), RealS)(*idx)))[1]
        o = it.construct(m.get(it, CL), ['SN', zc, zn, rc, rs], {})
        it.check('the premise is asked once, for this pair of species', list(arrs) == [('zc', 'zn')])
        i, j, k = N('i'), N('j'), N('k')
        it.assume(z3.And(rng(i, n), rng(j, w), rng(k, 3)))
        for f, q in (('an', 0), ('d', 1), ('rc', 2)):
            a, b = o.f['dp_feature_pair_' + f], arrs[('zc', 'zn')][q]
            ix = (i, j, k)[:len(b.shape)]
            it.check('stored ' + f, a.get(*ix) == b.get(*ix))
        it.check('stored radii', z3.And(num(o.f['rcut']) == rc, num(o.f['rcut_smooth']) == rs))
        it.check('stored tildeR', o.f['dp_feature_pair_tildeR'].get(i, j, k) == z3.Function('T', *([IntS] * 3), RealS)(i, j, k))
    return unit('constructor', F, run, [CL + '.__init__', CL + '._get_premise'], exact=False)


def u_se(nc, nn):
    """assembly over all species pairs: nc centre species, nn neighbour species (sizes symbolic)"""
    def run(it, m):
        zc, zn = [N('zc%d' % k) for k in range(nc)], [N('zn%d' % k) for k in range(nn)]
        sel = [nat(it, 'sel%d' % k, 1) for k in range(nn)]
        rs, rc = R('rs'), R('rc')
        made = []

        def pair(it, sn, c, z, rcut, rcut_smooth):
            a, b = [q for q in range(nc) if num(c).eq(zc[q])], [q for q in range(nn) if num(z).eq(zn[q])]
            it.check('pair of listed species, same structure, same radii', sn == 'SN' and len(a) == 1 and len(b) == 1)
            it.check('radii handed on', z3.And(num(rcut) == rc, num(rcut_smooth) == rs))
            made.append((a[0], b[0]))
            n, w = nat(it, 'n%d' % a[0]), nat(it, 'w%d_%d' % (a[0], b[0]))
            it.assume(w <= sel[b[0]])
            return Obj('pair', dict(dp_feature_pair_tildeR=farr('T%d_%d' % (a[0], b[0]), (n, w, 4))[0]))
        it.contracts['DpseTildeRPairV1'] = lambda it, *a, **k: pair(it, *a, **k)
        c = m.get(it, CL)
        o = Obj(c, dict(structure_neighbors='SN', center_atomic_numbers_lst=PList(list(zc)), nbr_atomic_numbers_lst=PList(list(zn)),
                        sel=PList(list(sel)), rcut=rc, rcut_smooth=rs))
        r = it.method(o, 'get_tildeR')
        off = z3.IntVal(0)
        for a in range(nc):
            for b in range(nn):
                n, w, s = N('n%d' % a), N('w%d_%d' % (a, b)), sel[b]
                i, j, k = [N('%s%d_%d' % (q, a, b)) for q in 'ijk']
                it.assume(z3.And(rng(k, 4)))
                it.lemmas += [n * s >= 0, z3.Implies(z3.And(rng(i, n), rng(j, s)), z3.And(i * s >= 0, i * s + j < n * s))]
                T = z3.Function('T%d_%d' % (a, b), IntS, IntS, IntS, RealS)
                with given(it, rng(i, n), rng(j, s)):
                    it.check('block (%d,%d)' % (a, b), r.get(off + (i * s + j) * 4 + k) == z3.If(j < w, T(i, j, k), 0))
                off = off + n * s * 4
        shape_is(it, 'concatenated descriptor', r, (off,))
    return unit('assembly for %d x %d species' % (nc, nn), 'matersdk/feature/deepmd/se.py', run, ['matersdk/feature/deepmd/se.py:get_tildeR'],
                contracts={}, exact=False)


def u_radix():
    def run(ctx):
        it = Interp(ctx)
        i, j, n, s = [N(q) for q in 'ijns']
        it.assume(z3.And(rng(i, n), rng(j, s)))
        it.check('product of extents', n * s >= 0, 'lemma')
        it.check('flat index inside the block', z3.And(i * s >= 0, i * s + j < n * s), 'lemma')
    return Unit('lemma: flat index', run, [], lemma=True)


def units(tier):
    return [u_s(), u_t(), u_d(), u_pad('tildeR'), u_pad('derivative'), u_init()] + [u_radix()] + [u_lemma(c) for c in ('inner', 'switch', 'outer')] + \
        [u_se(a, b) for a, b in ((1, 1), (1, 2), (2, 2))]


# ------------------------------------------------------------------ concrete side
BOUNDED_RULE = 'random neighbour tables (1..4 centres, 0..6 slots, 1..3 species, padded slots, distances inside, on and beyond both radii); values against the closed form, derivative against the closed form and central differences'
BOUNDED_ONLY = ['assembly over more than 2 x 2 species']


def bounded(b):
    import numpy as np
    rng_ = random.Random(b.seed)
    try:
        SP = load('matersdk.feature.deepmd.se_pair')
        SE = load('matersdk.feature.deepmd.se')
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return

    class SN:
        pass
    for it in range(300 if not b.thorough else 6000):
        n, w = rng_.randint(1, 4), rng_.randint(1, 6)
        rs = rng_.choice([0.0, 1.0, 2.5, rng_.uniform(0, 3)])
        rc = rs + rng_.choice([1.0, 2.0, rng_.uniform(.3, 4)])
        sp = rng_.sample(range(1, 90), rng_.randint(1, 3))
        an, di, co = np.zeros((n, w + 1), int), np.zeros((n, w + 1)), np.zeros((n, w + 1, 3))
        for i in range(n):
            co[i, 0] = [rng_.uniform(-3, 3) for _ in range(3)]
            an[i, 0] = rng_.choice(sp)
            m = rng_.randint(0, w)
            for j in range(1, m + 1):
                an[i, j] = rng_.choice(sp)
                di[i, j] = rng_.choice([rs, rc, rng_.uniform(rs, rc), rng_.uniform(0.1, rc * 1.3), max(.05, rs - .01), rc - 1e-9]) or .3
                v = np.array([rng_.gauss(0, 1) for _ in range(3)])
                co[i, j] = co[i, 0] + v / np.linalg.norm(v) * di[i, j]
        sn = SN()
        sn.key_nbr_atomic_numbers, sn.key_nbr_distances, sn.key_nbr_coords = an, di, co
        inp = dict(rs=rs, rc=rc, an=an.tolist(), d=di.tolist(), coords=co.tolist())

        def val(x):
            d = float(np.linalg.norm(x))
            if d == 0 or d >= rc:
                return np.zeros(4)
            u = (d - rs) / (rc - rs)
            v = 1.0 if d <= rs else u ** 3 * (-6 * u * u + 15 * u - 10) + 1
            return np.array([v / d] + [v * q / d / d for q in x])

        def expect(zc, zn):
            rows = []
            for i in range(n):
                if an[i, 0] == zc:
                    rows.append([(di[i, j], co[i, j] - co[i, 0]) for j in range(1, w + 1) if an[i, j] == zn])
            return rows
        zc, zn = int(an[rng_.randrange(n), 0]), rng_.choice(sp)
        rows = expect(zc, zn)
        W = max([len(r) for r in rows])
        M = W + rng_.randint(0, 3)
        o = guard(b, 'pair descriptor', inp, lambda: SP.DpseTildeRPairDescriptor.create('v1', sn, zc, zn, rc, rs))
        if o is None:
            continue
        T = guard(b, 'get_tildeR', inp, lambda: o.get_tildeR(M))
        D = guard(b, 'calc_derivative', inp, lambda: o.calc_derivative(M))
        if T is None or D is None:
            continue
        want, wd = np.zeros((len(rows), M, 4)), np.zeros((len(rows), M, 4, 3))
        fuzzy = np.zeros((len(rows), M), bool)
        for i, r in enumerate(rows):
            for j, (d, x) in enumerate(r):
                want[i, j] = val(x)
                fuzzy[i, j] = abs(d - rc) < 1e-7 or abs(d - rs) < 1e-7
                h = 1e-6
                for k in range(3):
                    e = np.zeros(3)
                    e[k] = h
                    wd[i, j, :, k] = -(val(x + e) - val(x - e)) / (2 * h)
        if T.shape != want.shape or not np.allclose(T, want, atol=1e-6):
            b.bad('tildeR of pair (%d,%d)' % (zc, zn), inp)
        elif D.shape != wd.shape or not np.allclose(D, wd, atol=2e-4, rtol=2e-4):
            b.bad('derivative of pair (%d,%d)' % (zc, zn), inp)
        zcs = sorted(set(int(q) for q in an[:, 0]))
        sel = [max(len(r) for c in zcs for r in expect(c, z)) + rng_.randint(0, 2) for z in sp]
        g = guard(b, 'assembled descriptor', inp, lambda: SE.DpseTildeRDescriptor.create('v1', sn, zcs, sp, sel, rc, rs).get_tildeR())
        if g is None:
            continue
        flat = []
        for c in zcs:
            for z, s in zip(sp, sel):
                for r in expect(c, z):
                    blk = np.zeros((s, 4))
                    for j, (d, x) in enumerate(r):
                        blk[j] = val(x)
                    flat.append(blk.flatten())
        flat = np.concatenate(flat)
        if g.shape != flat.shape or not np.allclose(g, flat, atol=1e-6):
            b.bad('assembled descriptor', inp)
        b.ok((n, w, it) if W else None, dict(n=n, width=w, rs=rs, rc=rc, pair=(zc, zn)))


if __name__ == '__main__':
    import sys
    import props.C13 as m
    sys.exit(main(m))
