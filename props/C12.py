"""Selection of the (centre species, neighbour species) pairs from the neighbour tables (feature/deepmd/premise.py)."""
from vc.pylib import *
from vc.report import main

ID = 'C12'
ASSUMPTIONS = ASSUMPTIONS + ['the neighbour tables have at least one row and one column, the same extents, and a centre atom in column 0']
F = 'matersdk/feature/deepmd/premise.py'
CL = 'DpFeaturePairPremiseV1'


def tables(it, m):
    n, w = nat(it, 'n', 1), nat(it, 'w', 1)
    an, A = farr('A', (n, w), 'i')
    d, D = farr('D', (n, w))
    x, X = farr('X', (n, w, 3))
    sn = Obj('neighbours', dict(key_nbr_atomic_numbers=an, key_nbr_distances=d, key_nbr_coords=x))
    return sn, n, w, A, D, X


def spec(it, n, w, A, c, z):
    """ghosts: rows with a centre of species c; per row the slots > 0 with a neighbour of species z"""
    cc, cs, _ = it.gh.count(n, lambda i: A(i, I0) == c)
    rc, rs = it.gh.pcount(1, w, lambda i, j: z3.And(A(i, I0) == c, A(i, j) == z, j != 0))
    return cc, cs, rc, rs


def u_extract():
    def run(it, m):
        sn, n, w, A, D, X = tables(it, m)
        c, z = N('c'), N('z')
        cc, cs, rc, rsl = spec(it, n, w, A, c, z)
        W = it.gh.maximum(n, lambda q: rc(q, w))[0](n)
        o = it.construct(m.get(it, CL), [sn], {})
        it.check('width of the tables remembered', num(o.f['max_num_nbrs_real']) == w)
        an, d, x = it.method(o, 'extract_feature_pair', c, z)
        nc = cc(n)
        shape_is(it, 'species', an, (nc, W))
        shape_is(it, 'distances', d, (nc, W))
        shape_is(it, 'coordinates', x, (nc, W, 3))
        it.check('num_centers', num(o.f['num_centers']) == nc)
        it.check('max_num_nbrs_real_element', num(o.f['max_num_nbrs_real_element']) == W)
        q, s = N('q'), N('s')
        row = cs(q)
        with given(it, rng(q, nc), rng(s, W)):
            sl = rsl(row, s)
            real_ = s < rc(row, w)
            it.check('species of slot s', real(an.get(q, s)) == z3.If(real_, z3.ToReal(z), 0))
            it.check('distance of slot s', d.get(q, s) == z3.If(real_, D(row, sl), 0))
            for k in range(3):
                it.check('relative coordinate %d' % k, x.get(q, s, k) == z3.If(real_, X(row, sl, z3.IntVal(k)) - X(row, I0, z3.IntVal(k)), 0))
        # meaning of the ghosts: every centre of the species has a row, every neighbour of the species a slot
        i, j = N('i'), N('j')
        with given(it, rng(i, n), rng(j, w), A(i, I0) == c, j > 0, A(i, j) == z):
            qq = cc(i)
            it.check('each centre of the species has its row, in table order', z3.And(rng(qq, nc), cs(qq) == i))
            ss = rc(i, j)
            it.check('each neighbour of the species fills one slot, in table order', z3.And(rng(ss, rc(i, w)), rsl(i, ss) == j, rc(i, w) <= W))
            it.check('that slot holds its distance', d.get(qq, ss) == D(i, j))
    return unit('extract_feature_pair', F, run, [CL + '.__init__', CL + '.extract_feature_pair'], exact=False, timeout=200)


def u_expand():
    def run(it, m):
        sn, n, w, A, D, X = tables(it, m)
        c, z = N('c'), N('z')
        nc, W = nat(it, 'nc'), nat(it, 'W')
        M = nat(it, 'M')
        it.assume(M >= W)
        r3, Rc = farr('RC', (nc, W, 3))
        seen = []

        def con(it, self, center_atomic_number, nbr_atomic_number):
            it.check('asks for this pair of species', z3.And(num(center_atomic_number) == c, num(nbr_atomic_number) == z))
            return farr('AN', (nc, W))[0], farr('DD', (nc, W))[0], r3
        it.contracts[CL + '.extract_feature_pair'] = con
        o = Obj(m.get(it, CL), dict(structure_neighbors=sn, max_num_nbrs_real=w))
        r = it.method(o, 'expand_rc', c, z, M)
        shape_is(it, 'expanded coordinates', r, (nc, M, 3))
        q, s, k = N('q'), N('s'), N('k')
        with given(it, rng(q, nc), rng(s, M), rng(k, 3)):
            it.check('kept, then 0', r.get(q, s, k) == z3.If(s < W, Rc(q, s, k), 0))
    return unit('expand_rc', F, run, [CL + '.expand_rc'])


def units(tier):
    return [u_extract(), u_expand()]


BOUNDED_RULE = 'random neighbour tables with 1..6 centres, 1..8 columns, 1..3 species, padded slots; every species pair; non-trivial: some neighbour selected'


def bounded(b):
    import numpy as np
    r = random.Random(b.seed)
    try:
        P = load('matersdk.feature.deepmd.premise')
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return

    class SN:
        pass
    for t in range(400 if not b.thorough else 10000):
        n, w = r.randint(1, 6), r.randint(1, 8)
        sp = r.sample(range(1, 90), r.randint(1, 3))
        an = np.array([[r.choice(sp + [0]) if j else r.choice(sp) for j in range(w)] for i in range(n)])
        if r.random() < .5:
            for i in range(n):
                an[i, r.randint(1, w):] = 0
        d = np.array([[r.uniform(.1, 5) if an[i, j] and j else 0. for j in range(w)] for i in range(n)])
        x = np.array([[[r.uniform(-5, 5) for _ in range(3)] for _ in range(w)] for _ in range(n)])
        sn = SN()
        sn.key_nbr_atomic_numbers, sn.key_nbr_distances, sn.key_nbr_coords = an, d, x
        keep = an.copy(), d.copy(), x.copy()
        for c in sp:
            for z in sp:
                inp = dict(an=an.tolist(), d=d.tolist(), x=x.tolist(), c=c, z=z)
                rows = [[j for j in range(1, w) if an[i, j] == z] for i in range(n) if an[i, 0] == c]
                ctr = [i for i in range(n) if an[i, 0] == c]
                W = max([len(q) for q in rows] + [0])
                wa, wd, wx = np.zeros((len(rows), W)), np.zeros((len(rows), W)), np.zeros((len(rows), W, 3))
                for q, (i, js) in enumerate(zip(ctr, rows)):
                    for s, j in enumerate(js):
                        wa[q, s], wd[q, s], wx[q, s] = an[i, j], d[i, j], x[i, j] - x[i, 0]
                o = guard(b, 'constructor', inp, lambda: P.DpFeaturePairPremiseDescriptor.create('v1', structure_neighbors=sn))
                g = o and guard(b, 'extract_feature_pair', inp, lambda: o.extract_feature_pair(c, z))
                if g is None:
                    continue
                if any(u.shape != v.shape or not np.allclose(u, v) for u, v in zip(g, (wa, wd, wx))) or o.num_centers != len(rows):
                    b.bad('extract_feature_pair(%d,%d)' % (c, z), inp)
                M = W + r.randint(0, 3)
                e = guard(b, 'expand_rc', inp, lambda: o.expand_rc(c, z, M))
                we = np.zeros((len(rows), M, 3))
                we[:, :W] = wx
                if e is not None and (e.shape != we.shape or not np.allclose(e, we)):
                    b.bad('expand_rc(%d,%d,%d)' % (c, z, M), inp)
                if any(not np.array_equal(u, v) for u, v in zip(keep, (sn.key_nbr_atomic_numbers, sn.key_nbr_distances, sn.key_nbr_coords))):
                    b.bad('the neighbour tables were changed', inp)
                b.ok((n, w, t, c, z) if W else None, dict(n=n, w=w, pair=(c, z)))


if __name__ == '__main__':
    import sys
    import props.C12 as m
    sys.exit(main(m))
