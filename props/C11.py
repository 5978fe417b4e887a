"""Neighbour tables (io/publicLayer/neigh.py)."""
from vc.pylib import *
from vc.report import main
from props.pystruct import *

ID = 'C11'
NEIGH = 'matersdk/io/publicLayer/neigh.py'
ASSUMPTIONS = ASSUMPTIONS + ['the centre atoms are the unmoved atoms of the sorted supercell (contract of get_key_idxs, C10)', 'no two atoms of the supercell coincide',
                             'the supercell reaches beyond the cutoff (the caller picks the scaling)']
TRUSTED = TRUSTED + ['contract of pymatgen.core.Structure (props/pystruct.py)',
                     'instantiation of the Lean lemma sorted_prefix at the counted and sorted distances']
CL = 'StructureNeighborsV1'
UT = 'StructureNeighborsUtils'


def world(it, cart):
    n, S = nat(it, 'n', 1), nat(it, 'S', 1)
    K = z3.Function('K', IntS, IntS)
    ZS = z3.Function('ZS', IntS, IntS)
    C = z3.Function('C' if cart else 'F', IntS, IntS, RealS)
    q = z3.Int('kq')
    it.assume(z3.ForAll([q], z3.Implies(rng(q, n), rng(K(q), S))))

    def D(i, j):
        return it.ctx.sqrt(sum((C(j, z3.IntVal(k)) - C(K(i), z3.IntVal(k))) * (C(j, z3.IntVal(k)) - C(K(i), z3.IntVal(k))) for k in range(3)))
    return n, S, K, ZS, C, D


def objs(it, m, n, S, K, ZS, cart):
    X = z3.Function('C', IntS, IntS, RealS)
    Fr = z3.Function('F', IntS, IntS, RealS)
    L = [[R('L%d%d' % (i, k)) for k in range(3)] for i in range(3)]
    ms = Mod.load(STRUCT)
    st = structure(it, ms, n, lambda i: z3.Function('Zp', IntS, IntS)(i), lambda i, k: z3.Function('Xp', IntS, IntS, RealS)(i, k), L)
    sup = structure(it, ms, S, lambda i: ZS(i), lambda i, k: X(i, k), L, fr=lambda i, k: Fr(i, k))
    log = []

    def key(it, self, scaling_matrix):
        log.append(('key', self, scaling_matrix))
        return SArr((n,), lambda idx: K(idx[0]), 'i')

    def mk(it, self, scaling_matrix, reformat_mark=True):
        log.append(('super', self, scaling_matrix, reformat_mark))
        return sup
    it.contracts['DStructure.get_key_idxs'] = key
    it.contracts['DStructure.make_supercell_'] = mk
    return st, sup, log


def prefix(D, rc, PERM, INV, CNT, S, q, p):
    """sorted-prefix lemma at position p of row q"""
    return z3.Implies(rng(p, S), (p < CNT(q, S)) == (D(q, PERM(q, p)) <= rc))


def u_info(cart):
    def run(it, m):
        n, S, K, ZS, C, D = world(it, cart)
        st, sup, log = objs(it, m, n, S, K, ZS, cart)
        rc = R('rc')
        it.assume(rc >= 0)
        CNT, SEL = it.gh.pcount(1, S, lambda q, j: D(q, j) <= rc)
        PERM, INV = it.gh.pperm(1, S, lambda q, j: D(q, j), False)
        W = it.gh.maximum(n, lambda q: CNT(q, S), 0)[0](n)
        o = Obj(m.get(it, CL), dict(structure=st, supercell=sup))
        sm = PList([3, 3, 3])
        an, d, x = it.method(o, '_get_key_neighs_info', scaling_matrix=sm, rcut=rc, coords_are_cartesian=cart)
        it.check('centres: key indices for this scaling', log == [('key', st, sm)])
        shape_is(it, 'species', an, (n, W))
        shape_is(it, 'distances', d, (n, W))
        shape_is(it, 'coordinates', x, (n, W, 3))
        q, s, j = N('q'), N('s'), N('j')
        with given(it, rng(q, n), rng(s, W), rng(K(q), S)):
            nb = PERM(q, s)
            it.lemmas.append(z3.And(CNT(q, S) <= S, rng(K(q), S)))
            ok = s < CNT(q, S)
            it.check('species of slot s', real(an.get(q, s)) == z3.If(ok, z3.ToReal(ZS(nb)), 0))
            it.check('distance of slot s', d.get(q, s) == z3.If(ok, D(q, nb), 0))
            for k in range(3):
                it.check('coordinate %d of slot s' % k, x.get(q, s, k) == z3.If(ok, C(nb, z3.IntVal(k)), 0))
            s2 = N('s2')
            with given(it, rng(s2, CNT(q, S)), s < s2, s2 < W):
                it.check('ascending distance', D(q, PERM(q, s)) <= D(q, PERM(q, s2)))
        with given(it, rng(q, n), rng(j, S), rng(K(q), S)):
            it.lemmas.append(prefix(D, rc, PERM, INV, CNT, S, q, INV(q, j)))
            it.check('an atom within the cutoff has exactly one slot, one beyond has none',
                     z3.And((INV(q, j) < CNT(q, S)) == (D(q, j) <= rc), PERM(q, INV(q, j)) == j, CNT(q, S) <= W))
            it.lemmas.append(prefix(D, rc, PERM, INV, CNT, S, q, INV(q, K(q))))
            with given(it, z3.Implies(D(q, PERM(q, I0)) == 0, PERM(q, I0) == K(q)), D(q, K(q)) == 0, D(q, PERM(q, I0)) >= 0):
                it.check('the centre is in slot 0', z3.And(PERM(q, I0) == K(q), CNT(q, S) >= 1, INV(q, K(q)) >= 0))
    return unit('_get_key_neighs_info, %s' % ('cartesian' if cart else 'fractional'), NEIGH, run, [CL + '._get_key_neighs_info'], exact=False, abstract=True, timeout=300)


def u_ctor():
    def run(it, m):
        n, S, K, ZS, C, D = world(it, True)
        st, sup, log = objs(it, m, n, S, K, ZS, True)
        sm = PList([3, 3, 3])
        seen = []

        def info(it, self, scaling_matrix, rcut, coords_are_cartesian):
            seen.append((self.f['structure'], self.f['supercell'], scaling_matrix, coords_are_cartesian))
            it.check('cutoff handed on', num(rcut) == R('rc'))
            return ('AN', 'D', 'X')
        it.contracts[CL + '._get_key_neighs_info'] = info
        for cart in (True, False):
            del log[:], seen[:]
            o = it.construct(m.get(it, CL), [st, R('rc'), sm, True, cart], {})
            it.check('supercell of the same scaling, sorted by species', log == [('super', st, sm, True)])
            it.check('the table is built for this structure, supercell, scaling and coordinate kind', seen == [(st, sup, sm, cart)])
            it.check('the three tables are stored', (o.f['key_nbr_atomic_numbers'], o.f['key_nbr_distances'], o.f['key_nbr_coords']) == ('AN', 'D', 'X'))
    return unit('constructor', NEIGH, run, [CL + '.__init__'], exact=False)


def u_max():
    def run(it, m):
        n, S, K, ZS, C, D = world(it, True)
        st, sup, log = objs(it, m, n, S, K, ZS, True)
        rc = R('rc')
        it.assume(rc >= 0)
        CNT, SEL = it.gh.pcount(1, S, lambda q, j: D(q, j) <= rc)
        W = it.gh.maximum(n, lambda q: CNT(q, S), 0)[0](n)
        sm = PList([3, 3, 3])
        r = it.call(it.getattr(m.get(it, UT), 'get_max_num_nbrs_real'), [st, rc, sm])
        it.check('largest number of atoms within the cutoff of a centre, the centre not counted', num(r) == W - 1)
    return unit('get_max_num_nbrs_real', NEIGH, run, [UT + '.get_max_num_nbrs_real'], exact=False)


def u_maxel(els):
    def run(it, m):
        from vc.elements import NUMBER
        n, S, K, ZS, C, D = world(it, True)
        st, sup, log = objs(it, m, n, S, K, ZS, True)
        rc = R('rc')
        it.assume(rc >= 0)
        sm = PList([3, 3, 3])
        want = {}
        for e in els:
            CNT, SEL = it.gh.pcount(1, S, lambda q, j: z3.And(D(q, j) <= rc, ZS(j) == NUMBER[e], j != K(q)))
            want[e] = it.gh.maximum(n, lambda q: CNT(q, S), 0)[0](n)
        r = it.call(it.getattr(m.get(it, UT), 'get_max_num_nbrs_real_element'), [st, rc, PList(list(els)), sm])
        it.check('one entry per element', sorted(r.val) == sorted(els))
        for e in els:
            it.check('largest number of %s neighbours of a centre (itself excluded)' % e, num(r.val[e]) == want[e])
    return unit('get_max_num_nbrs_real_element ' + ' '.join(els), NEIGH, run, [UT + '.get_max_num_nbrs_real_element'], exact=False, abstract=True, timeout=200)


def u_idx(pad):
    def run(it, m):
        n, w = nat(it, 'n', 1), nat(it, 'w', 1)
        an, A = farr('A', (n, w), 'i')
        x, X = farr('X', (n, w, 3))
        c, z = N('c'), N('z')
        IDX = z3.Function('SITE', RealS, RealS, RealS, IntS)
        it.contracts['DStructure.get_site_index'] = lambda it, self, site_coord: IDX(*[real(site_coord.get(k)) for k in range(3)])
        ms = Mod.load(STRUCT)
        st = Obj(ms.get(it, 'DStructure'), {})
        sn = Obj(m.get(it, CL), dict(structure=st, key_nbr_atomic_numbers=an, key_nbr_coords=x))
        cc, cs, _ = it.gh.count(n, lambda i: A(i, I0) == c)
        rc, rs = it.gh.pcount(1, w, lambda i, j: z3.And(A(i, I0) == c, A(i, j) == z, j != 0))
        W = it.gh.maximum(n, lambda q: rc(q, w))[0](n)
        M = nat(it, 'M', 1)
        it.assume(M >= W)
        f = it.getattr(m.get(it, UT), '_get_nbrs_indices')
        r = it.call(f, [sn, c, z] + ([M] if pad else []))
        shape_is(it, 'index table', r, (cc(n), M if pad else W))
        q, s = N('q'), N('s')
        with given(it, rng(q, cc(n)), rng(s, M if pad else W)):
            row = cs(q)
            nb = rs(row, s)
            it.check('slot s: owner of the neighbour (from 1), 0 where there is none',
                     real(r.get(q, s)) == z3.If(s < rc(row, w), z3.ToReal(IDX(*[X(row, nb, z3.IntVal(k)) for k in range(3)])), 0))
    return unit('_get_nbrs_indices' + (' padded' if pad else ''), NEIGH, run, [UT + '._get_nbrs_indices'], exact=False, abstract=True, timeout=200)


def u_all(nc, nn):
    def run(it, m):
        zc, zn = [N('zc%d' % k) for k in range(nc)], [N('zn%d' % k) for k in range(nn)]
        M = [nat(it, 'M%d' % k, 1) for k in range(nn)]
        n = [nat(it, 'n%d' % k) for k in range(nc)]
        sn = Obj('sn', {})

        def con(it, struct_nbr, center_atomic_number, nbr_atomic_number, max_num_nbrs=False):
            it.check('the same neighbour table', struct_nbr is sn)
            a = [k for k in range(nc) if num(center_atomic_number).eq(zc[k])]
            b = [k for k in range(nn) if num(nbr_atomic_number).eq(zn[k])]
            if not a or not b:
                raise Unsupported('species not recognised')
            it.check('width of the neighbour species', num(max_num_nbrs) == M[b[0]])
            return farr('T%d_%d' % (a[0], b[0]), (n[a[0]], M[b[0]]))[0]
        it.contracts[UT + '._get_nbrs_indices'] = con
        f = it.getattr(m.get(it, UT), 'get_nbrs_indices')
        r = it.call(f, [sn, PList(list(zc)), PList(list(zn)), PList(list(M))])
        shape_is(it, 'merged index table', r, (sum(n), sum(M)))
        ro = I0
        for a in range(nc):
            co = I0
            for b in range(nn):
                i, j = N('i'), N('j')
                with given(it, rng(i, n[a]), rng(j, M[b])):
                    T = z3.Function('T%d_%d' % (a, b), IntS, IntS, RealS)
                    it.check('block (%d,%d)' % (a, b), r.get(ro + i, co + j) == T(i, j))
                co = co + M[b]
            ro = ro + n[a]
    return unit('get_nbrs_indices %d x %d' % (nc, nn), NEIGH, run, [UT + '.get_nbrs_indices'], exact=False)


def units(tier):
    return [u_info(True), u_info(False), u_ctor(), u_max(), u_maxel(['O']), u_maxel(['Li', 'Si']), u_idx(True), u_idx(False)] + \
        [u_all(a, b) for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 3))] + \
        [lean_unit('lemma: sorted prefix', 'SortedPrefix.lean', 'sorted_prefix')]


BOUNDED_RULE = ('random cells of 1..4 atoms with 1..3 species, some with an atom at the origin, some cubic with representable coordinates so that '
                'neighbours sit at exactly the cutoff; tables, capacities and index tables against brute force over the translates; '
                'non-trivial: some centre has a neighbour')
BOUNDED_ONLY = ['get_nbrs_indices for more than 3 x 3 species']


def bounded(b):
    import numpy as np
    from vc.elements import NUMBER
    r = random.Random(b.seed)
    try:
        S = load('matersdk.io.publicLayer.structure').DStructure
        NB = load('matersdk.io.publicLayer.neigh')
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    U = NB.StructureNeighborsUtils
    for t in range(90 if not b.thorough else 1500):
        exact = r.random() < .4
        n = r.randint(1, 4)
        if exact:
            lat = np.diag([r.choice([2., 4.]), r.choice([2., 4.]), r.choice([4., 2.])])
            pts = r.sample([(i, j, k) for i in (0., .25, .5, .75) for j in (0., .5) for k in (0., .5)], n)
            fr = np.array(pts)
            rc = r.choice([1., 2., 3., 4.])
        else:
            lat = np.array([[r.uniform(-.8, .8) + (r.uniform(3, 5) if i == k else 0) for k in range(3)] for i in range(3)])
            fr = np.array([[r.random() for _ in range(3)] for _ in range(n)])
            if r.random() < .4:
                fr[r.randrange(n)] = 0
            rc = r.uniform(1.5, 3.9)
        els = r.sample(['H', 'Li', 'C', 'O', 'Si'], r.randint(1, 3))
        sp = [r.choice(els) for _ in range(n)]
        o = sorted(range(n), key=lambda i: NUMBER[sp[i]])
        sp, fr = [sp[i] for i in o], fr[o]
        z = [NUMBER[q] for q in sp]
        x = fr @ lat
        sc = [r.choice([3, 3, 5]) if r.random() < .9 else 1 for _ in range(3)]
        inp = dict(lattice=lat.tolist(), species=sp, frac=fr.tolist(), scaling=sc, rcut=rc)
        h = [(q - 1) // 2 for q in sc]
        cells = [(p, q, w) for p in range(-h[0], h[0] + 1) for q in range(-h[1], h[1] + 1) for w in range(-h[2], h[2] + 1)]
        allx = np.array([x[i] + np.array(c) @ lat for c in cells for i in range(n)])
        own = [i for c in cells for i in range(n)]
        D = np.linalg.norm(allx[None] - x[:, None], axis=2)
        if not exact and (np.abs(D - rc).min() < 1e-6 or np.sort(D[:, :] + 9 * (D < 1e-12), axis=1)[:, 0].min() < 1e-3):
            continue
        st = S(lat, sp, fr)
        if exact:       # distances as rounded by the supercell the code works with (C10), so that <= means the same
            sx = st.make_supercell_(scaling_matrix=sc, reformat_mark=True).cart_coords
            to = [int(np.argmin(np.linalg.norm(allx - q, axis=1))) for q in sx]
            fr_ = {v: k for k, v in enumerate(to)}
            me = [fr_[cells.index((0, 0, 0)) * n + i] for i in range(n)]
            for i in range(n):
                D[i, to] = np.linalg.norm(sx - sx[me[i]].reshape(1, 3), axis=1)
        sn = guard(b, 'neighbour table', inp, lambda: NB.StructureNeighborsDescriptor.create('v1', structure=st, rcut=rc, scaling_matrix=sc, reformat_mark=True, coords_are_cartesian=True))
        if sn is None:
            continue
        near = [[j for j in range(len(own)) if D[i, j] <= rc] for i in range(n)]
        W = max(map(len, near))
        an, d, c = sn.key_nbr_atomic_numbers, sn.key_nbr_distances, sn.key_nbr_coords
        if an.shape != (n, W) or d.shape != (n, W) or c.shape != (n, W, 3):
            b.bad('extent of the tables: %s, expected %d x %d' % (an.shape, n, W), inp)
            continue
        for i in range(n):
            m = len(near[i])
            key = lambda q: tuple(np.round(q, 6) + 0.)
            got = sorted((int(an[i, s]), round(float(d[i, s]), 6)) + key(c[i, s]) for s in range(m))
            want = sorted((z[own[j]], round(float(D[i, j]), 6)) + key(allx[j]) for j in near[i])
            if len(got) != len(want) or any(not np.allclose(u, v, atol=3e-6) for u, v in zip(got, want)):
                b.bad('neighbours of atom %d' % i, dict(inp, got=got, want=want))
            if np.any(np.diff(d[i, :m]) < -1e-9) or an[i, 0] != z[i] or abs(d[i, 0]) > 1e-9 or not np.allclose(c[i, 0], x[i]):
                b.bad('order of the neighbours of atom %d' % i, inp)
            if np.any(an[i, m:]) or np.any(d[i, m:]) or np.any(c[i, m:]):
                b.bad('padded slots of atom %d are not 0' % i, inp)
        g = guard(b, 'get_max_num_nbrs_real', inp, lambda: U.get_max_num_nbrs_real(st, rc, sc))
        if g is not None and g != W - 1:
            b.bad('get_max_num_nbrs_real: %s, expected %d' % (g, W - 1), inp)
        g = guard(b, 'get_max_num_nbrs_real_element', inp, lambda: U.get_max_num_nbrs_real_element(st, rc, els, sc))
        cnt = {e: max(sum(sp[own[j]] == e for j in near[i] if D[i, j] > 1e-9) for i in range(n)) for e in els}
        if g is not None and g != cnt:
            b.bad('get_max_num_nbrs_real_element: %s, expected %s' % (g, cnt), inp)
        zs = sorted(set(z))
        cap = [max(cnt[e], 1) + r.randint(0, 2) for q in zs for e in els if NUMBER[e] == q]
        g = guard(b, 'get_nbrs_indices', inp, lambda: U.get_nbrs_indices(sn, zs, zs, cap))
        if g is not None:
            rows = [i for q in zs for i in range(n) if z[i] == q]
            if g.shape != (n, sum(cap)):
                b.bad('extent of the index table', inp)
            else:
                for a, i in enumerate(rows):
                    off = 0
                    for q, cp in zip(zs, cap):
                        # slots follow the distance; owners compared as multisets of (distance, owner)
                        js = sorted([j for j in near[i] if D[i, j] > 1e-9 and z[own[j]] == q], key=lambda j: D[i, j])
                        seg = [int(v) for v in g[a, off:off + cp]]
                        if sorted(seg[:len(js)]) != sorted(own[j] + 1 for j in js) or any(seg[len(js):]):
                            b.bad('index table of atom %d, species %d' % (i, q), dict(inp, got=seg, want=[own[j] + 1 for j in js]))
                        elif not exact and all(D[i, v] - D[i, u] > 1e-6 for u, v in zip(js, js[1:])) and seg[:len(js)] != [own[j] + 1 for j in js]:
                            b.bad('order of the index table of atom %d, species %d' % (i, q), inp)
                        off += cp
        b.ok((t,) if W > 1 else None, dict(n=n, species=sp, rcut=rc, scaling=sc))


if __name__ == '__main__':
    import sys
    import props.C11 as m
    sys.exit(main(m))
