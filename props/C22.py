"""Averages over structures and trajectories: bond lengths, bond angles, mean squared displacement (feature/avg)."""
from vc.pylib import *
from vc.report import main
from props.pystruct import *

ID = 'C22'
BOND = 'matersdk/feature/avg/avgbond.py'
MSD = 'matersdk/feature/avg/msd.py'
ASSUMPTIONS = ASSUMPTIONS + ['neighbour distances are positive except that of the centre itself; at least one matching bond',
                             'pool.starmap(f, l) returns [f(*a) for a in l] in order']
TRUSTED = TRUSTED + ['multiprocessing.Pool.starmap', 'contract of pymatgen.core.Structure (props/pystruct.py)']


def u_bond():
    def run(it, m):
        n, w = nat(it, 'n', 1), nat(it, 'w', 1)
        A, a_ = farr('A', (n, w), 'i')
        D, d_ = farr('D', (n, w))
        i, j = z3.Int('qi'), z3.Int('qj')
        z1, z2 = N('z1'), N('z2')
        it.assume(z3.And(z1 >= 1, z2 >= 1))
        it.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i, n), j >= 1, j < w, a_(i, j) >= 1), d_(i, j) > 0)))
        sn = Obj('sn', dict(key_nbr_atomic_numbers=A, key_nbr_distances=D))
        hit = lambda i, j: z3.And(a_(i, I0) == z1, a_(i, j) == z2, j >= 1)
        pos = lambda i, j: z3.Implies(z3.And(rng(i, n), j >= 1, j < w, a_(i, j) >= 1), d_(i, j) > 0)
        it.gh.candidates = []
        cand = []
        it.gh.candidates.append(lambda J: z3.And(a_(cand[-1], I0) == z1, a_(cand[-1], J) == z2, J >= 1) if cand else z3.BoolVal(True))
        f = it.getattr(m.get(it, 'AvgBond'), 'get_avg_bond_length')
        r = it.call(f, [sn, z1, z2])
        ns = it.gh.sum(n, lambda i: it.gh.sum(w, lambda j: z3.If(z3.And(hit(i, j), d_(i, j) != 0), I1, I0))[0](w))[0](n)
        sm = it.gh.sum(n, lambda i: it.gh.sum(w, lambda j: z3.If(hit(i, j), d_(i, j), z3.RealVal(0)))[0](w))[0](n)
        it.check('sum of the matching distances over their number', z3.Implies(ns != 0, real(r) == sm / z3.ToReal(ns)))
        with given(it, rng(i, n), rng(j, w), pos(i, j)):
            it.check('every matching slot counts (its distance is not 0)', z3.And(hit(i, j), d_(i, j) != 0) == hit(i, j))
        for k, a in (('species', A), ('distances', D)):
            with given(it, rng(i, n), rng(j, w)):
                it.check('the %s table is not changed' % k, a.get(i, j) == (a_ if a is A else d_)(i, j))
    return unit('get_avg_bond_length', BOND, run, ['AvgBond.get_avg_bond_length'], exact=False, abstract=True)


def two(it, m, q=''):
    n = nat(it, 'n' + q, 1)
    out = []
    for k in '12':
        X = z3.Function('X' + k + q, IntS, IntS, RealS)
        out.append((Obj('structure', dict(cart_coords=SArr((n, 3), lambda idx, X=X: X(*idx)), num_sites=n)), X))
    return n, out


def u_msd(sub):
    fn = 'calc_msd_sub_centroid_s' if sub else 'calc_msd_s'

    def run(it, m):
        n, [(s1, X1), (s2, X2)] = two(it, m)
        C = []
        for k, s in enumerate((s1, s2)):
            c = [R('c%d%d' % (k, q)) for q in range(3)]
            s.f['get_centroid'] = Prim(lambda it, a, kw, c=c: SArr((3,), lambda idx: pick([c], (0, idx[0]))))
            C.append(c)
        r = it.call(it.getattr(m.get(it, 'MsdParallelFunction'), fn), [s1, s2])

        def d(i, k):
            v = X2(i, z3.IntVal(k)) - X1(i, z3.IntVal(k))
            return v - (C[1][k] - C[0][k]) if sub else v
        tot = it.gh.sum(n, lambda i: sum(d(i, k) * d(i, k) for k in range(3)))[0](n)
        it.check('mean squared displacement' + (' relative to the centroids' if sub else ''), real(r) == tot / z3.ToReal(n))
        i, k = N('i'), N('k')
        with given(it, rng(i, n), rng(k, 3)):
            it.check('the structures are not changed', z3.And(s1.f['cart_coords'].get(i, k) == X1(i, k), s2.f['cart_coords'].get(i, k) == X2(i, k)))
    return unit(fn, MSD, run, ['MsdParallelFunction.' + fn], exact=False)


def pool(it):
    def starmap(it, a, k):
        f, l = a[0], it.seq(a[1])
        if isinstance(l, (list, tuple)):
            return PList([it.call(f, it.tolist(x)) for x in l])
        return PList(SSeq(l.n, lambda j: it.call(f, it.tolist(l.get(j)))))

    def mk(it, *a, **k):
        p = Obj('pool', {})
        p.f['starmap'] = Prim(starmap)
        p.f['__enter__'] = Prim(lambda it, a, k: p)
        p.f['__exit__'] = Prim(lambda it, a, k: None)
        return p
    for q in ('mp.Pool', 'multiprocessing.Pool'):
        it.ext[q] = mk
    it.ext['os.cpu_count'] = lambda it: 8


def u_series(sub):
    meth = 'calc_msd_sub_centroid' if sub else 'calc_msd'

    def run(it, m):
        pool(it)
        T = nat(it, 'T', 1)
        V = z3.Function('V', IntS, IntS, RealS)
        frames = PList(SSeq(T, lambda t: Obj('structure', dict(t=t))))
        tr = Obj('traj', dict(get_all_frame_structures=Prim(lambda it, a, k: frames)))
        other = 'calc_msd_s' if sub else 'calc_msd_sub_centroid_s'
        it.contracts['MsdParallelFunction.calc_msd_s' if not sub else 'MsdParallelFunction.calc_msd_sub_centroid_s'] = lambda it, a, b: V(num(a.f['t']), num(b.f['t']))
        W = z3.Function('W', IntS, IntS, RealS)
        it.contracts['MsdParallelFunction.' + other] = lambda it, a, b: W(num(a.f['t']), num(b.f['t']))
        o = it.construct(m.get(it, 'Msd'), [tr], {})
        r = it.seq(it.method(o, meth))
        n = num(r.n if isinstance(r, SSeq) else len(r))
        it.check('one value per pair of consecutive frames', n == T - 1)
        t = N('t')
        with given(it, rng(t, T - 1)):
            it.check('value t compares frame t with frame t+1', real(r.get(t)) == V(t, t + 1))
    return unit('Msd.' + meth, MSD, run, ['Msd.__init__', 'Msd.' + meth], exact=False)


def u_di():
    def run(it, m):
        T = nat(it, 'T')
        M, m_ = farr('MSD', (T,))
        it.contracts['Msd'] = lambda it, trajectory: Obj('msd', dict(calc_msd=Prim(lambda it, a, k: PList(SSeq(T, lambda t: m_(t))))))
        EXP = z3.Function('EXP', RealS, RealS)
        seen = []

        def ex(it, a):
            seen.append(a)
            g = a.snap()
            return SArr(a.shape, lambda idx: EXP(real(g(idx))), 'f')
        it.ext['np.exp'] = ex
        q = R('q')
        o = it.construct(m.get(it, 'DiffractionIntensity'), [Obj('traj', {}), q], {})
        r = it.method(o, 'calc_di')
        shape_is(it, 'intensities', r, (T,))
        t = N('t')
        with given(it, rng(t, T)):
            it.check('intensity t is exp of something', len(seen) == 1)
            it.check('namely of -q^2 MSD(t) / 3', real(seen[0].get(t)) == -q * q * m_(t) / 3)
            it.check('of frame t', r.get(t) == EXP(real(seen[0].get(t))))
    return unit('DiffractionIntensity', MSD, run, ['DiffractionIntensity.__init__', 'DiffractionIntensity.calc_di'], exact=False)


def movement(it, frames):
    it.contracts['Movement'] = lambda it, movement_path: Obj('mv', dict(get_all_frame_structures_info=Prim(lambda it, a, k: (frames, None, None, None, None))))


def u_pair():
    def run(it, m):
        T = nat(it, 'T')
        X = z3.Function('X', IntS, IntS, IntS, RealS)
        n = nat(it, 'n', 1)
        a, b = N('a'), N('b')
        it.assume(z3.And(rng(a, n), rng(b, n)))
        movement(it, PList(SSeq(T, lambda t: Obj('structure', dict(cart_coords=SArr((n, 3), lambda idx, t=t: X(t, *idx)))))))
        o = it.construct(m.get(it, 'PairBond'), ['MOVEMENT', a, b], {})
        r = it.seq(it.method(o, 'get_frames_pair_bond'))
        it.check('one value per frame', num(r.n) == T)
        t = N('t')
        with given(it, rng(t, T)):
            d = [X(t, b, z3.IntVal(k)) - X(t, a, z3.IntVal(k)) for k in range(3)]
            it.check('distance of the two atoms in frame t', real(r.get(t)) == it.ctx.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]))
    return unit('PairBond', BOND, run, ['PairBond.__init__', 'PairBond.get_frames_pair_bond', 'PairBond._get_pair_bond_length'], exact=False, abstract=True)


def u_frames():
    def run(it, m):
        pool(it)
        T = nat(it, 'T', 1)
        frames = PList(SSeq(T, lambda t: Obj('structure', dict(t=t, num_sites=N('ns')))))
        movement(it, frames)
        rc = R('rc')
        sc = PList([N('s0'), N('s1'), N('s2')])
        V = z3.Function('V', IntS, RealS)
        asked = []

        def create(it, *a, **k):
            v = [x for x in [*a, *k.values()] if not isinstance(x, Cls)]
            asked.append(v)
            st = [x for x in v if isinstance(x, Obj)]
            it.check('one structure', len(st) == 1)
            it.check('its neighbours within the cutoff', any(z3.is_expr(x) and x.eq(rc) for x in v) and v[0] == 'v1')
            ls = [it.tolist(x) for x in v if isinstance(x, (PList, list, tuple))]
            it.check('in the supercell asked for', len(ls) == 1 and len(ls[0]) == 3)
            for k in range(3):
                it.check('scaling factor %d' % k, num(ls[0][k]) == N('s%d' % k))
            return Obj('sn', dict(t=st[0].f['t']))
        it.contracts['StructureNeighborsDescriptor.create'] = create
        it.contracts['AvgBond.get_avg_bond_length'] = lambda it, struct_neigh, atomic_number_1, atomic_number_2: (
            it.check('first species first', num(atomic_number_1) == 32), it.check('then the second', num(atomic_number_2) == 52), V(num(struct_neigh.f['t'])))[-1]
        o = it.construct(m.get(it, 'AvgBond'), ['MOVEMENT', 'Ge', 'Te', rc], {})
        r = it.seq(it.method(o, 'get_frames_avg_bond', sc))
        it.check('one value per frame', num(r.n) == T)
        t = N('t')
        with given(it, rng(t, T)):
            it.check('average of frame t', real(r.get(t)) == V(t))
    return unit('AvgBond.get_frames_avg_bond', BOND, run, ['AvgBond.__init__', 'AvgBond.get_frames_avg_bond', 'ParallelFunction.get_avg_bond_length'], exact=False)


def units(tier):
    return [u_bond(), u_msd(False), u_msd(True), u_series(False), u_series(True), u_di(), u_pair(), u_frames()]


BOUNDED_RULE = 'random cells and trajectories of 1..4 frames written as MOVEMENT files; brute-force averages; non-trivial: more than one bond or frame'
BOUNDED_ONLY = ['AvgBond.get_bond_lengths_lst_according2angle', 'AvgAngle.get_avg_bond (angles between neighbours, arccos)']


def write_movement(fn, frames):
    """frames: list of (lattice, atomic numbers, fractional coordinates)"""
    with open(fn, 'w') as f:
        for k, (L, z, x) in enumerate(frames):
            f.write('   %d atoms,Iteration (fs) =    %.10E, Etot,Ep,Ek (eV) =   %.10E  %.10E   %.10E, SCF =    16\n' % (len(z), k, -1.5 - k, -2.5 - k, 1.))
            f.write(' Lattice vector (Angstrom)\n')
            for v in L:
                f.write('   %.15E    %.15E    %.15E     stress (eV):  %.6E  %.6E  %.6E\n' % (*v, 1, 2, 3))
            f.write('  Position (normalized), move_x, move_y, move_z\n')
            for a, p in zip(z, x):
                f.write('  %d    %.15f   %.15f   %.15f     1  1  1\n' % (a, *p))
            f.write('  Force (-force, eV/Angstrom)\n')
            for a in z:
                f.write('  %d    %.15f   %.15f   %.15f\n' % (a, 0, 0, 0))
            f.write(' -------------------------------------------------\n')


def angle(u, v):
    import numpy as np
    return float(np.degrees(np.arctan2(np.linalg.norm(np.cross(u, v)), np.dot(u, v))))


def bounded(b):
    import numpy as np, tempfile, shutil
    from props.C10 import cell
    r = random.Random(b.seed)
    d = tempfile.mkdtemp(prefix='c22.')
    try:
        B = load('matersdk.feature.avg.avgbond')
        A = load('matersdk.feature.avg.avgangle')
        M = load('matersdk.feature.avg.msd')
        S = load('matersdk.io.publicLayer.structure').DStructure
        E = load('matersdk.io.pwmat.utils.parameters').atomic_number2specie
        MV = load('matersdk.io.pwmat.output.movement').Movement
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    if b.thorough:
        N_, NP = 600, 40
    else:
        N_, NP = 400, 4
    try:
        for t in range(N_):
            n, w = r.randint(1, 4), r.randint(1, 7)
            sp = r.sample(range(1, 90), r.randint(1, 3))
            an = np.array([[r.choice(sp) for j in range(w)] for i in range(n)])
            x = np.array([[[r.choice((r.uniform(-3, 3), float(r.randint(-2, 2)))) for _ in range(3)] for _ in range(w)] for _ in range(n)])
            ctr = x[:, :1].copy()
            if r.random() < .4 and w > 2:
                x[:, 2] = ctr[:, 0] + (x[:, 1] - ctr[:, 0]) * r.choice((-1, -.7, -2.1, .3))     # collinear neighbours
            for i in range(n):
                c = r.randint(1, w)
                an[i, c:] = 0
                x[i, c:] = 0
                for j in range(1, c):
                    if np.linalg.norm(x[i, j] - x[i, 0]) < .1:
                        x[i, j] = x[i, 0] + [1, 0, 0]
            D = np.where(an > 0, np.linalg.norm(x - x[:, :1], axis=2), 0.)

            class SN:
                pass
            sn = SN()
            sn.key_nbr_atomic_numbers, sn.key_nbr_distances, sn.key_nbr_coords = an.copy(), D.copy(), x.copy()
            p, q, s = r.choice(sp), r.choice(sp), r.choice(sp)
            inp = dict(an=an.tolist(), x=x.tolist(), centre=p, second=q, third=s)
            bonds = [D[i, j] for i in range(n) for j in range(1, w) if an[i, 0] == p and an[i, j] == q]
            if bonds:
                g = guard(b, 'get_avg_bond_length', inp, lambda: B.AvgBond.get_avg_bond_length(sn, p, q))
                if g is not None and not abs(g - np.mean(bonds)) < 1e-9:
                    b.bad('average bond length %r, expected %r' % (g, np.mean(bonds)), inp)
            tri = []
            for i in range(n):
                if an[i, 0] != p:
                    continue
                J = [j for j in range(1, w) if an[i, j] == q]
                K = [j for j in range(1, w) if an[i, j] == s]
                for u, j in enumerate(J):
                    for v, k in enumerate(K):
                        if q != s or v > u:
                            tri.append((angle(x[i, j] - x[i, 0], x[i, k] - x[i, 0]), *sorted((D[i, j], D[i, k]))))
            if tri:
                g = guard(b, 'AvgAngle.get_avg_bond', inp, lambda: A.AvgAngle.get_avg_bond(sn, p, q, s))
                wa = [a[0] for a in tri]
                wo = 1 - 3 / 8 * sum((1 / 3 + np.cos(np.deg2rad(a))) ** 2 for a in wa)
                if g is not None and not (abs(g[0] - np.mean(wa)) < 1e-4 and abs(g[1] - wo) < 1e-6 * max(1, len(wa))):
                    b.bad('average angle %r, expected %r, %r' % (g, np.mean(wa), wo), inp)
                std, eps = r.choice((60., 90., 120., 180.)), r.choice((5., 20., 91.))
                if all(abs(abs(a[0] - std) - eps) > 1e-3 for a in tri):
                    g = guard(b, 'get_bond_lengths_lst_according2angle', inp, lambda: B.AvgBond.get_bond_lengths_lst_according2angle(sn, p, q, s, std, eps))
                    want = np.array([a for a in tri if abs(a[0] - std) < eps]).reshape(-1, 3)
                    if g is not None and (g.shape != want.shape or not np.allclose(g, want, atol=1e-4)):
                        b.bad('bonds by angle', dict(inp, std=std, eps=eps, got=np.array(g).tolist(), want=want.tolist()))
            # displacement of two frames
            lat, sps, fr = cell(r, 4)
            s1 = S(lat, sps, fr)
            s2 = S(lat, sps, fr + np.array([[r.gauss(0, .1) for _ in range(3)] for _ in sps]))
            dx = s2.cart_coords - s1.cart_coords
            dc = dx - dx.mean(axis=0)
            i2 = dict(x1=s1.cart_coords.tolist(), x2=s2.cart_coords.tolist())
            for fn, e in (('calc_msd_s', dx), ('calc_msd_sub_centroid_s', dc)):
                g = guard(b, fn, i2, lambda: getattr(M.MsdParallelFunction, fn)(s1, s2))
                if g is not None and not abs(g - (e ** 2).sum() / len(sps)) < 1e-9:
                    b.bad('%s: %r, expected %r' % (fn, g, (e ** 2).sum() / len(sps)), i2)
            b.ok((t,) if len(bonds) > 1 or len(tri) > 1 else None, dict(n=n, w=w, bonds=len(bonds), angles=len(tri)))
        os.environ.setdefault('OMP_NUM_THREADS', '1')
        for t in range(NP):
            T = r.choice((1, 2, 4)) if t else 4
            lat, sps, fr = cell(r, 3)
            inv = {v: k for k, v in E.items()}
            z = [inv[a] for a in sps]
            frames = [(lat, z, fr + np.array([[r.gauss(0, .05) for _ in range(3)] for _ in sps])) for _ in range(T)]
            fn = os.path.join(d, 'MOVEMENT%d' % t)
            write_movement(fn, frames)
            X = [f[2] @ lat for f in frames]
            inp = dict(lattice=lat.tolist(), z=z, frames=[f[2].tolist() for f in frames])
            i, j = r.randrange(len(z)), r.randrange(len(z))
            g = guard(b, 'PairBond', inp, lambda: B.PairBond(fn, i, j).get_frames_pair_bond())
            if g is not None and not (len(g) == T and np.allclose(g, [np.linalg.norm(x[i] - x[j]) for x in X], atol=1e-7)):
                b.bad('pair bond of %d,%d' % (i, j), dict(inp, got=list(map(float, g))))
            want = [((p - q) ** 2).sum() / len(z) for p, q in zip(X, X[1:])]
            wc = [(((p - q) - (p - q).mean(axis=0)) ** 2).sum() / len(z) for p, q in zip(X, X[1:])]
            g = guard(b, 'calc_msd', inp, lambda: M.Msd(MV(fn)).calc_msd(), 60)
            if g is not None and not (len(g) == T - 1 and np.allclose(g, want, atol=1e-7)):
                b.bad('calc_msd', dict(inp, got=list(map(float, g))))
            g = guard(b, 'calc_msd_sub_centroid', inp, lambda: M.Msd(MV(fn)).calc_msd_sub_centroid(), 60)
            if g is not None and not (len(g) == T - 1 and np.allclose(g, wc, atol=1e-7)):
                b.bad('calc_msd_sub_centroid', dict(inp, got=list(map(float, g))))
            q = r.uniform(0, 3)
            g = guard(b, 'calc_di', inp, lambda: M.DiffractionIntensity(MV(fn), q).calc_di(), 60)
            if g is not None and not (len(g) == T - 1 and np.allclose(g, np.exp(-q * q * np.array(want) / 3), atol=1e-7)):
                b.bad('calc_di', dict(inp, q=q, got=list(map(float, g))))
            rc = r.uniform(3, 6)
            cells = np.array([(p, q, s) for p in (-1, 0, 1) for q in (-1, 0, 1) for s in (-1, 0, 1)])
            e1, e2 = r.choice(sps), r.choice(sps)
            wl = []
            for x in X:
                D = np.linalg.norm(x[None, :, None] + (cells @ lat)[None, None] - x[:, None, None], axis=3)
                if np.abs(D - rc).min() < 1e-5:
                    wl = None
                    break
                v = [D[p, q, k] for p in range(len(z)) for q in range(len(z)) for k in range(27) if sps[p] == e1 and sps[q] == e2 and 1e-9 < D[p, q, k] <= rc]
                wl = wl + [np.mean(v)] if v else None
                if wl is None:
                    break
            if wl is not None:
                g = guard(b, 'AvgBond', inp, lambda: B.AvgBond(fn, e1, e2, rc).get_frames_avg_bond(), 120)
                if g is not None and not (len(g) == T and np.allclose(g, wl, atol=1e-6)):
                    b.bad('average bond per frame %s-%s' % (e1, e2), dict(inp, rcut=rc, got=list(map(float, g)), want=wl))
            b.ok(('mv', t) if T > 1 else None, dict(frames=T))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import sys
    import props.C22 as m
    sys.exit(main(m))
