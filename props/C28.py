"""Collections of frames: parts of a collection, export in sets, largest neighbour counts (matersdk/data/struct_collection.py)."""
from vc.pylib import *
from vc.report import main
from vc import pytext
from props.C17 import plain, holes, osmodel, join
from props.C22 import pool

ID = 'C28'
F = 'matersdk/data/struct_collection.py'
CL = 'StructCollection'
ASSUMPTIONS = ASSUMPTIONS + ['all frames hold the same atoms in the same order', 'pool.starmap(f, l) returns [f(*a) for a in l] in order', 'pymatgen structures and sites are records of their coordinates, species, forces and energies']
TRUSTED = TRUSTED + ['os.makedirs, shutil.rmtree, os.path.exists, np.save, multiprocessing.Pool', 'vc/pytext.py: open, write, str.format']
NAMES = ('total_energys_array', 'potential_energys_array', 'kinetic_energys_array', 'virial_tensors_array')


def world(it, m, T):
    fs = PList(SSeq(T, lambda t: Obj('structure', dict(t=num(t)))))
    o = Obj(m.get(it, CL), dict(structures_lst=fs, num_structures=T))
    fn = {}
    for k, nm in enumerate(NAMES):
        o.f[nm], fn[nm] = farr('a%d' % k, (T,) if k < 3 else (T, 3, 3))

    def new(it, structures_lst=None, total_energys_array=None, potential_energys_array=None, kinetic_energys_array=None, virial_tensors_array=None):
        return Obj('made', dict(structures_lst=structures_lst, total_energys_array=total_energys_array, potential_energys_array=potential_energys_array,
                                kinetic_energys_array=kinetic_energys_array, virial_tensors_array=virial_tensors_array))
    it.contracts[CL] = new
    return o, fn


def holds(it, r, fn, K, at):
    """r holds K frames, the k-th is frame at(k)"""
    s = it.seq(r.f['structures_lst'])
    it.check('number of structures', num(s.n if isinstance(s, SSeq) else len(s)) == K)
    k, i, j = N('k'), N('i'), N('j')
    with given(it, rng(k, K)):
        it.check('structure k', s.get(k).f['t'] == at(k))
        for q, nm in enumerate(NAMES):
            a = r.f[nm]
            shape_is(it, nm, a, (K,) if q < 3 else (K, 3, 3))
            if q < 3:
                it.check(nm + ' of frame k', real(a.get(k)) == fn[nm](at(k)))
            else:
                with given(it, rng(i, 3), rng(j, 3)):
                    it.check(nm + ' of frame k', real(a.get(k, i, j)) == fn[nm](at(k), i, j))


def u_index():
    def run(it, m):
        T, K = nat(it, 'T', 1), nat(it, 'K', 1)
        o, fn = world(it, m, T)
        IX = z3.Function('IX', IntS, IntS)
        q = z3.Int('q')
        it.assume(z3.ForAll([q], z3.Implies(rng(q, K), rng(IX(q), T)), patterns=[IX(q)]))
        r = it.call(it.getattr(m.get(it, CL), 'from_indices'), [o, PList(SSeq(K, lambda k: IX(num(k))))])
        with given(it, rng(IX(N('k')), T)):
            holds(it, r, fn, K, lambda k: IX(k))
    return unit(CL + '.from_indices', F, run, [CL + '.from_indices', CL + '.__len__'], exact=False)


def u_slice():
    def run(it, m):
        T = nat(it, 'T', 1)
        o, fn = world(it, m, T)
        a, b = nat(it, 'a'), nat(it, 'b')
        it.assume(z3.And(a < b, b <= T))
        r = it.method(o, '__getitem__', slice(a, b, None))
        holds(it, r, fn, b - a, lambda k: a + k)
    return unit(CL + '.__getitem__', F, run, [CL + '.__getitem__'], exact=False)


def spec(zs):
    return [Obj('specie', dict(Z=z)) for z in zs]


def u_count(zs):
    def run(it, m):
        sp = spec(zs)
        T = nat(it, 'T', 1)
        st = Obj('structure', dict(num_sites=len(zs), species=PList(sp), sites=PList([Obj('site', dict(specie=s)) for s in sp])))
        o = Obj(m.get(it, CL), dict(structures_lst=PList(SSeq(T, lambda t: st))))
        l = it.method(o, '_get_atomic_numbers')
        l = [conc(x) for x in it.tolist(l)]
        it.check('each species once, in order of appearance', l == list(dict.fromkeys(zs)))
        o.f['atomic_numbers_lst'] = PList(list(l))
        d = it.method(o, '_get_num_atoms_per_element')
        it.check('number of atoms of each species', {conc(k): conc(v) for k, v in d.val.items()} == {z: zs.count(z) for z in zs})
        it.check('number of atoms', num(it.method(o, '_get_num_atoms')) == len(zs))
    return unit('%s._get_atomic_numbers, _get_num_atoms_per_element, %s' % (CL, zs), F, run, [CL + '._get_atomic_numbers', CL + '._get_num_atoms_per_element', CL + '._get_num_atoms'])


FILES = dict(cell=9, atom_coord=None, tot_energy=1, atom_force=None, virial=9, atom_energy=None)


def u_to(zs, vir, ena):
    def run(it, m):
        n = len(zs)
        T, P, q, r = nat(it, 'T', 1), nat(it, 'P', 1), nat(it, 'q'), nat(it, 'r')
        it.assume(z3.And(T == q * P + r, r < P))
        it.gh.divhints += [(P, q, r)]
        Lf = z3.Function('Lf', IntS, IntS, IntS, RealS)
        X = z3.Function('X', IntS, IntS, IntS, RealS)
        G = z3.Function('G', IntS, IntS, IntS, RealS)
        E = z3.Function('E', IntS, IntS, RealS) if ena else (lambda *a: z3.RealVal(0))
        sp = spec(zs)

        def st(t):
            t = num(t)
            sites = [Obj('site', dict(specie=sp[i], atomic_force=SArr((3,), lambda idx, i=i: G(t, z3.IntVal(i), num(idx[0])), 'f'), atomic_energy=SArr((1,), lambda idx, i=i: E(t, z3.IntVal(i)), 'f'))) for i in range(n)]
            return Obj('structure', dict(get_atomic_force=Prim(lambda it, a, k: SArr((n, 3), lambda idx: G(t, *[num(x) for x in idx]), 'f')),
                                         get_atomic_energy=Prim(lambda it, a, k: SArr((n,), lambda idx: E(t, num(idx[0])), 'f')),
                                         num_sites=n, species=PList(sp), sites=PList(sites), cart_coords=SArr((n, 3), lambda idx: X(t, *[num(x) for x in idx]), 'f'),
                                         lattice=Obj('lattice', dict(matrix=SArr((3, 3), lambda idx: Lf(t, *[num(x) for x in idx]), 'f')))))
        o = Obj(m.get(it, CL), dict(structures_lst=PList(SSeq(T, st)), num_structures=T, num_atoms=n, atomic_numbers_lst=PList(list(dict.fromkeys(zs)))))
        o.f['total_energys_array'], te = farr('te', (T,))
        o.f['virial_tensors_array'], vt = farr('vt', (T, 3, 3))
        a0, a1, a2 = N('a0'), N('a1'), N('a2')
        if vir:
            it.assume(z3.And(rng(a0, T), rng(a1, 3), rng(a2, 3), vt(a0, a1, a2) != 0))
        else:
            o.f['virial_tensors_array'] = SArr((T, 3, 3), lambda idx: z3.RealVal(0), 'f')
        b0, b1 = N('b0'), N('b1')
        if ena:
            it.assume(z3.And(rng(b0, T), rng(b1, n), E(b0, b1) != 0))
        made, saved = osmodel(it)
        saved.clear()
        saved.update({x + '.npy': PList([]) for x in FILES})
        it.ext['os.path.exists'] = lambda it, p: False

        def some(it, a, axis=None, **k):
            a = pynp.asarr(it, a) if not isinstance(a, SArr) else a
            if axis is not None or k:
                raise Unsupported('any along an axis')
            ws = {(2, n): [(b0, b1)], (3, 3): [(a0, a1, a2)]}.get((len(a.shape), conc(a.shape[-1])), []) + ([(a0, 3 * a1 + a2)] if len(a.shape) == 2 and conc(a.shape[1]) == 9 else [])
            if any(it.entails(boolean(a.get(*w))) for w in ws):
                return True
            ix = [z3.FreshInt('u') for _ in a.shape]
            if it.entails(z3.Implies(z3.And(*[rng(x, e) for x, e in zip(ix, a.shape)]), z3.Not(boolean(a.get(*ix))))):
                return False
            raise Unsupported('any of these values')

        def count(*x, **k):
            raise Unsupported('a count of these values')
        it.ext['np.any'] = some
        it.gh.count = count
        old = pynp.np_any
        pynp.np_any = some
        it.ext['print'] = lambda it, *a, **k: None
        files = pytext.out_files(it)
        try:
            it.method(o, 'to', 'DIR', P)
        finally:
            pynp.np_any = old
        K = z3.If(r == 0, q, q + 1)
        ty = list(dict.fromkeys(zs))
        got = {plain(k): ''.join(plain(x) for x in v.val) for k, v in files.items()}
        it.check('type of each atom', got.get('DIR/type.raw') == ''.join('%d\n' % ty.index(z) for z in zs))
        it.check('list of types', got.get('DIR/type_map.raw') == ''.join('%d\n' % x for x in range(len(ty))))
        val = dict(cell=lambda t, c: Lf(t, c / 3, c % 3), atom_coord=lambda t, c: X(t, c / 3, c % 3), tot_energy=lambda t, c: te(t), atom_force=lambda t, c: G(t, c / 3, c % 3), virial=lambda t, c: vt(t, c / 3, c % 3), atom_energy=lambda t, c: E(t, c))
        wid = dict(cell=9, atom_coord=3 * n, tot_energy=1, atom_force=3 * n, virial=9, atom_energy=n)
        k, j = N('k'), N('j')
        lem = z3.Implies(z3.And(rng(k, K), k != q), z3.And(k < q, k * P <= q * P - P))
        for w in FILES:
            l = it.seq(saved[w + '.npy'])
            ln = num(l.n if isinstance(l, SSeq) else len(l))
            if w == 'virial' and not vir or w == 'atom_energy' and not ena:
                it.check(w + ' is not stored when all are 0', ln == 0)
                continue
            it.check(w + ': number of sets', ln == K)
            with given(it, rng(k, K), lem):
                e = l.get(k)
                p = e.f['path']
                hs = holes(p)
                it.check(w + ': set k in its own directory', plain(p).startswith('DIR/set.') and len(hs) == 1 and num(hs[0]) == k)
                a = e.f['arr']
                sz = z3.If(k < q, P, r)
                shape_is(it, w, a, (sz, wid[w]))
                with given(it, rng(j, sz)):
                    for c in range(wid[w]):
                        it.check('%s: row j of set k, column %d' % (w, c), real(a.get(j, c)) == z3.simplify(val[w](k * P + j, z3.IntVal(c))))
    return unit('%s.to, %s%s%s' % (CL, zs, ', virials' if vir else '', ', energies' if ena else ''), F, run, [CL + '.to'], exact=False, timeout=120)


def u_max():
    def run(it, m):
        T, rc, SM = nat(it, 'T', 1), R('rc'), PList([3, 3, 3])
        o = Obj(m.get(it, CL), dict(structures_lst=PList(SSeq(T, lambda t: Obj('structure', dict(t=num(t))))), num_structures=T))
        C = z3.Function('C', IntS, IntS)
        pool(it)

        def one(it, structure=None, rcut=None, scaling_matrix=None, coords_are_cartesian=True):
            it.check('cutoff', real(rcut) == rc)
            it.check('scaling', [conc(x) for x in it.tolist(scaling_matrix)] == [3, 3, 3])
            it.check('distances are Cartesian', coords_are_cartesian is True)
            return C(structure.f['t'])
        it.contracts['StructureNeighborsUtils.get_max_num_nbrs_real'] = one
        g = num(it.method(o, 'get_max_num_nbrs_real', rc, SM))
        t = N('t')
        with given(it, rng(t, T)):
            it.check('not below the count of any frame', g >= C(t))
        w = z3.Int('w')
        it.check('the count of some frame', z3.Exists([w], z3.And(rng(w, T), C(w) == g)))
    return unit(CL + '.get_max_num_nbrs_real', F, run, [CL + '.get_max_num_nbrs_real', 'ParallelFunction.get_max_num_nbrs_real'], exact=False)


def u_max_el(els):
    def run(it, m):
        T, rc, SM = nat(it, 'T', 1), R('rc'), PList([3, 5, 3])
        o = Obj(m.get(it, CL), dict(structures_lst=PList(SSeq(T, lambda t: Obj('structure', dict(t=num(t))))), num_structures=T))
        C = {e: z3.Function('C' + e, IntS, IntS) for e in els}
        t = N('t')
        for e in els:
            it.assume(z3.ForAll([t], C[e](t) >= 0, patterns=[C[e](t)]))
        pool(it)

        def one(it, structure=None, rcut=None, nbr_elements=None, scaling_matrix=None, coords_are_cartesian=True):
            it.check('cutoff', real(rcut) == rc)
            it.check('scaling', [conc(x) for x in it.tolist(scaling_matrix)] == [3, 5, 3])
            it.check('elements', [conc(x) for x in it.tolist(nbr_elements)] == els)
            it.check('distances are Cartesian', coords_are_cartesian is True)
            return PDict({e: C[e](structure.f['t']) for e in els})
        it.contracts['StructureNeighborsUtils.get_max_num_nbrs_real_element'] = one
        g = it.method(o, 'get_max_num_nbrs_real_element', rc, PList(list(els)), SM)
        it.check('one entry per element', set(g.val) == set(els))
        for e in els:
            v = num(g.val[e])
            with given(it, rng(t, T)):
                it.check(e + ': not below the count of any frame', v >= C[e](t))
            w = z3.Int('w')
            it.check(e + ': the count of some frame, or 0', z3.Or(v == 0, z3.Exists([w], z3.And(rng(w, T), C[e](w) == v))))
    return unit('%s.get_max_num_nbrs_real_element, %s' % (CL, els), F, run, [CL + '.get_max_num_nbrs_real_element', 'ParallelFunction.get_max_num_nbrs_real_element'], exact=False)


def units(tier):
    return [u_index(), u_slice(), u_max(), u_max_el(['Li']), u_max_el(['Si', 'Li'])] + [u_count(z) for z in ([14], [3, 14, 3], [14, 3, 3, 8, 14])] + [u_to(z, v, e) for z, v, e in (([3, 14, 3], True, True), ([14, 3], False, True), ([8, 3, 14], True, False), ([14], False, False))]


BOUNDED_RULE = 'random collections of 1..9 frames of 1..5 atoms, with and without virials and atomic energies: parts by slice and by indices (repeated too), the files of every set size, species counts; neighbour counts of two small crystals'


def bounded(b):
    import numpy as np, tempfile, shutil, os
    r = random.Random(b.seed)
    g = np.random.default_rng(b.seed)
    try:
        S = load('matersdk.data.struct_collection').StructCollection
        D = load('matersdk.io.publicLayer.structure').DStructure
        U = load('matersdk.io.publicLayer.neigh').StructureNeighborsUtils
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    d = tempfile.mkdtemp(prefix='c28.')
    try:
        for t in range(50 if not b.thorough else 800):
            T, n = r.randint(1, 9), r.randint(1, 5)
            zs = [r.choice((3, 14, 8)) for _ in range(n)]
            vir, ena = r.random() < .6, r.random() < .6
            L = [np.eye(3) * r.uniform(3, 6) + g.uniform(-.5, .5, (3, 3)) for _ in range(T)]
            X, G = g.random((T, n, 3)), g.normal(size=(T, n, 3))
            E = g.normal(size=(T, n)) * ena
            if ena and r.random() < .4:
                E[:] = 0
                E[r.randrange(T), r.randrange(n)] = .5
            V = g.normal(size=(T, 3, 3)) * vir
            if vir and r.random() < .4:
                V[:] = 0
                V[r.randrange(T), r.randrange(3), r.randrange(3)] = -.5
            A = [g.normal(size=T) for _ in range(3)]
            sts = [D(lattice=L[q], species=zs, coords=X[q], site_properties=dict(atomic_force=[f for f in G[q]], atomic_energy=[np.array([e]) for e in E[q]])) for q in range(T)]
            inp = dict(frames=T, species=zs, virial=V.tolist(), atomic_energy=E.tolist())
            c = guard(b, 'StructCollection', inp, lambda: S(sts, A[0], A[1], A[2], V))
            if c is None:
                continue
            if list(c.atomic_numbers_lst) != list(dict.fromkeys(zs)) or dict(c.an2na) != {z: zs.count(z) for z in zs} or c.num_atoms != n or len(c) != T:
                b.bad('species and counts', inp)
            ix = [r.randrange(T) for _ in range(r.randint(1, 2 * T))]
            u = r.randrange(T)
            w = r.randint(u + 1, T)
            for nm, f, want in (('from_indices', lambda: S.from_indices(c, ix), ix), ('slice', lambda: c[u:w], list(range(u, w)))):
                o = guard(b, nm, dict(inp, frames_asked=want), f)
                if o is None:
                    continue
                if len(o) != len(want) or any(x is not sts[q] for x, q in zip(o.structures_lst, want)) or not all(np.array_equal(x, y[want]) for x, y in zip((o.total_energys_array, o.potential_energys_array, o.kinetic_energys_array, o.virial_tensors_array), A + [V])):
                    b.bad('%s: frames asked for' % nm, dict(inp, frames_asked=want))
            P = r.randint(1, T + 2)
            p = os.path.join(d, 'o%d' % (t % 2))         # a directory that exists already is replaced
            inp = dict(inp, set_size=P)

            def to():
                with quiet():
                    c.to(p, P)
                return True
            if guard(b, 'to', inp, to) is None:
                continue
            ty = list(dict.fromkeys(zs))
            want = {'type.raw': ''.join('%d\n' % ty.index(z) for z in zs), 'type_map.raw': ''.join('%d\n' % q for q in range(len(ty)))}
            for k in range((T + P - 1) // P):
                q = slice(k * P, (k + 1) * P)
                z = dict(cell=np.array(L)[q], atom_coord=np.array([s.cart_coords for s in sts])[q], tot_energy=A[0][q], atom_force=G[q])
                if (V != 0).any():
                    z['virial'] = V[q]
                if (E != 0).any():
                    z['atom_energy'] = E[q]
                for x, v in z.items():
                    want['set.%03d/%s.npy' % (k, x)] = v.reshape(len(v), -1)
            got = {os.path.relpath(os.path.join(a, f), p): os.path.join(a, f) for a, _, fs in os.walk(p) for f in fs}
            if set(got) != set(want):
                b.bad('files written', dict(inp, got=sorted(got), want=sorted(want)))
                continue
            for x, v in want.items():
                y = open(got[x]).read() if isinstance(v, str) else np.load(got[x])
                if not (y == v if isinstance(v, str) else y.shape == v.shape and np.allclose(y, v, rtol=1e-12, atol=1e-12)):
                    b.bad('file %s' % x, inp)
                    break
            b.ok(t, dict(T=T, n=n, P=P))
        for t in range(0 if (os.cpu_count() or 1) < 3 else 3 if not b.thorough else 12):
            zs = [3, 14, 14]
            sts = [D(lattice=np.eye(3) * (3.4 + .5 * ((q * 2 + t) % 3)), species=zs, coords=g.random((3, 3))) for q in range(3)]
            rc, SM = r.uniform(2.5, 3.4), [3, 3, 3]
            inp = dict(kind='neighbours', rcut=rc, lattices=[s.lattice.matrix.tolist() for s in sts], coords=[s.frac_coords.tolist() for s in sts])
            try:
                with quiet(), limit(60):
                    m1 = max(U.get_max_num_nbrs_real(structure=s, rcut=rc, scaling_matrix=SM, coords_are_cartesian=True) for s in sts)
                    ds = [U.get_max_num_nbrs_real_element(structure=s, rcut=rc, nbr_elements=['Si', 'Li'], scaling_matrix=SM, coords_are_cartesian=True) for s in sts]
                m2 = {k: max(x[k] for x in ds) for k in ds[0]}
            except Exception:
                continue                    # one structure: C11
            c = S(sts, np.zeros(3), np.zeros(3), np.zeros(3), np.zeros((3, 3, 3)))

            def nb():
                with quiet():
                    return c.get_max_num_nbrs_real(rc, SM), c.get_max_num_nbrs_real_element(rc, ['Si', 'Li'], SM)
            v = guard(b, 'largest neighbour counts', inp, nb, 60)
            if v is None:
                continue
            if v[0] != m1 or dict(v[1]) != m2:
                b.bad('largest neighbour counts', dict(inp, got=str(v), want=str((m1, m2))))
            b.ok((t, 'n'), dict(rc=rc))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    import sys
    import props.C28 as m
    sys.exit(main(m))
