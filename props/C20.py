"""Random perturbation of structures (adalearn/generator/perturbation.py)."""
import itertools
from vc.pylib import *
from vc.report import main
from vc import pynp

ID = 'C20'
PF = 'matersdk/adalearn/generator/perturbation.py'
ASSUMPTIONS = ASSUMPTIONS + ['np.random.rand is in [0, 1); the cell is right-handed (the code asserts a proper rotation)']
TRUSTED = TRUSTED + ['np.linalg.qr: Q orthogonal with determinant 1 or -1, R upper triangular, Q R = A', 'np.linalg.det of a 3 x 3 matrix', 'pymatgen Structure: copy, lattice.matrix, cart_coords, species, constructor']


def det3(it, a):
    g = [[real(a.get(i, j)) for j in range(3)] for i in range(3)]
    return g[0][0] * (g[1][1] * g[2][2] - g[1][2] * g[2][1]) - g[0][1] * (g[1][0] * g[2][2] - g[1][2] * g[2][0]) + g[0][2] * (g[1][0] * g[2][1] - g[1][1] * g[2][0])


def mat(rows):
    def f(idx):
        r = rows[-1][-1]
        for i in range(len(rows)):
            for j in range(len(rows[i])):
                r = z3.If(z3.And(idx[0] == i, idx[1] == j), real(rows[i][j]), r)
        return r
    return SArr((len(rows), len(rows[0])), lambda idx: rows[idx[0].as_long()][idx[1].as_long()] if all(z3.is_int_value(z3.simplify(num(i))) for i in idx) else f(idx), 'f')


def rows(p, n=3):
    return [[z3.Real('%s%d%d' % (p, i, j)) for j in range(3)] for i in range(n)]


def u_cell():
    def run(it, m):
        e, f = [z3.Real('e%d' % k) for k in range(6)], z3.Real('f')
        calls = []

        def rand(it, *n):
            if tuple(pynp.conc(x) for x in n) != (6,):
                raise Unsupported('np.random.rand of another shape')
            calls.append(1)
            if len(calls) > 1:
                raise Unsupported('np.random.rand twice')
            return pynp.asarr(it, PList(list(e)))
        it.ext['np.random.rand'] = rand
        for x in e:
            it.assume(z3.And(x >= 0, x < 1))
        o = it.call(m.get(it, 'PerturbStructure'), [None])
        try:
            a = it.method(o, 'get_cell_perturb_matrix', f)
        except Raised as x:
            it.check('RuntimeError only for a negative fraction', z3.And(x.name == 'RuntimeError', f < 0))
            return
        it.check('a negative fraction is refused', f >= 0)
        shape_is(it, 'matrix', a, (3, 3))
        g = lambda i, j: real(a.get(i, j))
        for i in range(3):
            it.check('diagonal %d: within the fraction of 1' % i, z3.And(g(i, i) >= 1 - f, z3.Implies(f > 0, g(i, i) < 1 + f), g(i, i) <= 1 + f))
            for j in range(i):
                it.check('symmetric %d %d' % (i, j), g(i, j) == g(j, i))
                it.check('off-diagonal %d %d: within half the fraction of 0' % (i, j), z3.And(g(i, j) >= -f / 2, g(i, j) <= f / 2))
        # the six numbers are independent: each entry reaches every value of its range whatever the others are
        ent = [g(0, 0), g(1, 1), g(2, 2), g(0, 1), g(0, 2), g(1, 2)]
        lo = [1 - f] * 3 + [-f / 2] * 3
        wid = [2 * f] * 3 + [f] * 3
        with given(it, f > 0):
            ks = [[k for k in range(6) if free_in(z3.simplify(x), e[k])] for x in ent]
            it.check('every entry from a random number of its own', all(len(k) == 1 for k in ks) and len({k[0] for k in ks}) == 6)
            for x, k, l, w in zip(ent, ks, lo, wid):
                up, dn = [z3.substitute(x, (e[k[0]], z3.RealVal(v))) for v in (0, 1)]
                it.check('the whole range', z3.Or(z3.And(up == l, dn == l + w), z3.And(up == l + w, dn == l)))
    return unit('PerturbStructure.get_cell_perturb_matrix', PF, run, ['PerturbStructure.get_cell_perturb_matrix', 'PerturbStructure.__init__'], exact=False)


def free_in(t, v):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


def u_atom():
    def run(it, m):
        e, d = [z3.Real('e%d' % k) for k in range(3)], z3.Real('d')

        def randn(it, *n):
            if tuple(pynp.conc(x) for x in n) != (3,):
                raise Unsupported('np.random.randn of another shape')
            return pynp.asarr(it, PList(list(e)))
        it.ext['np.random.randn'] = randn
        o = it.call(m.get(it, 'PerturbStructure'), [None])
        try:
            a = it.method(o, 'get_atom_perturb_vector', d)
        except Raised as x:
            it.check('RuntimeError only for a negative distance', z3.And(x.name == 'RuntimeError', d < 0))
            return
        it.check('a negative distance is refused', d >= 0)
        shape_is(it, 'vector', a, (3,))
        for k in range(3):
            v = real(a.get(k))
            it.check('component %d: normal, of variance distance^2 / 3' % k, z3.And(3 * v * v == d * d * e[k] * e[k], v * e[k] >= 0))
    return unit('PerturbStructure.get_atom_perturb_vector', PF, run, ['PerturbStructure.get_atom_perturb_vector'], exact=False)


def u_perturb(num_, n):
    def run(it, m):
        L, X = rows('L'), rows('X', n)
        log = []

        def fresh(tag, r, c):
            k = len([1 for t, _ in log if t == tag])
            v = [[z3.Real('%s%d_%d%d' % (tag, k, i, j)) for j in range(c)] for i in range(r)]
            log.append((tag, v))
            return v
        asked = []
        it.contracts['PerturbStructure.get_cell_perturb_matrix'] = lambda it, o, cell_pert_fraction: (asked.append(('cell', cell_pert_fraction)), mat(fresh('M', 3, 3)))[1]
        it.contracts['PerturbStructure.get_atom_perturb_vector'] = lambda it, o, atom_pert_distance: (asked.append(('atom', atom_pert_distance)), pynp.asarr(it, PList(fresh('V', 1, 3)[0])))[1]
        given_ = []

        def rot(it, o, atoms):
            r = Obj('rotated', {})
            if 'cell' not in atoms.f or 'coords' not in atoms.f:
                raise Unsupported('rot_lower_triangular of another object')
            given_.append((r, atoms.f['cell'], atoms.f['coords'], atoms.f['species']))
            return r
        it.contracts['PerturbStructure.rot_lower_triangular'] = rot

        def struct():
            s = Obj('structure', dict(lattice=Obj('lattice', dict(matrix=mat(L))), cart_coords=mat(X), species='SPECIES'), {'len': None})
            s.hooks = {'copy': lambda it, o: Prim(lambda it, a, k: struct())}
            return s
        src = struct()
        o = it.call(m.get(it, 'PerturbStructure'), [src])
        f, d = z3.Real('f'), z3.Real('d')
        out = it.tolist(it.method(o, 'perturb', num_, f, d))
        it.check('as many structures as asked for', len(out) == num_)
        it.check('fraction and distance passed on', all(z3.is_expr(v) and v.eq(f if t == 'cell' else d) for t, v in asked))
        if any(x not in [g[0] for g in given_] for x in out):
            raise Unsupported('structure not from rot_lower_triangular')
        Ms, Vs = [v for t, v in log if t == 'M'], [v[0] for t, v in log if t == 'V']
        if len(Ms) != num_ or len(Vs) != num_ * n:
            if not num_:
                return
            it.check('one deformation per copy and one displacement per atom of each copy', False)
            return
        usedm, usedv = set(), set()
        for q, x in enumerate(out):
            _, cell, pos, sp = [g for g in given_ if g[0] is x][0]
            shape_is(it, 'cell', cell, (3, 3))
            shape_is(it, 'coordinates', pos, (n, 3))
            it.check('species of the structure', sp == 'SPECIES')
            M = Ms[q]
            mm = lambda A, i, j: sum(A[i][k] * M[k][j] for k in range(3))
            for i, j in itertools.product(range(3), range(3)):
                it.check('copy %d: cell deformed by its own matrix %d %d' % (q, i, j), cell.get(i, j) == mm(L, i, j))
            for i, j in itertools.product(range(n), range(3)):
                it.check('copy %d: atom %d deformed with the cell, then displaced by its own vector, component %d' % (q, i, j), pos.get(i, j) == mm(X, i, j) + Vs[q * n + i][j])
        s0 = src.f
        for i, j in itertools.product(range(3), range(3)):
            it.check('the structure given is left alone: lattice', s0['lattice'].f['matrix'].get(i, j) == L[i][j])
        for i, j in itertools.product(range(n), range(3)):
            it.check('the structure given is left alone: coordinates', s0['cart_coords'].get(i, j) == X[i][j])
    return unit('PerturbStructure.perturb, %d copies of %d atoms' % (num_, n), PF, run, ['PerturbStructure.perturb'], exact=False)


def u_rot():
    def run(it, m):
        C, X, Q, R_ = rows('C'), rows('X', 2), rows('Q'), rows('R')
        for i in range(3):
            for j in range(i):
                R_[i][j] = z3.RealVal(0)
        I3 = lambda i, j: z3.RealVal(1 if i == j else 0)
        s = z3.Real('s')
        # lemma: with Q^T Q = 1 and C^T = Q R, C Q = R^T
        for i, j in itertools.product(range(3), range(3)):
            lhs = sum(sum(Q[k][l] * R_[l][i] for l in range(3)) * Q[k][j] for k in range(3))
            G = lambda l: sum(Q[k][l] * Q[k][j] for k in range(3)) - I3(l, j)
            it.check('lemma: rotated cell %d %d' % (i, j), lhs - sum(R_[l][i] * G(l) for l in range(3)) == R_[j][i], 'lemma')
        CQ = lambda i, j: sum(C[i][k] * Q[k][j] for k in range(3))

        def qr(it, a, *r):
            if r:
                raise Unsupported('qr with a mode')
            sh = [pynp.conc(x) for x in a.shape]
            if sh != [3, 3] or not all(z3.simplify(real(a.get(i, j))).eq(C[j][i]) for i in range(3) for j in range(3)):
                raise Unsupported('qr of another matrix')
            return (mat(Q), mat(R_))
        it.ext['np.linalg.qr'] = qr
        detc = det3(it, mat(C))
        prod = R_[0][0] * R_[1][1] * R_[2][2]

        def det(it, a):
            # PROVIDED det of Q is s; det of a diagonal matrix of signs is their product
            t = [[z3.simplify(real(a.get(i, j))) for j in range(3)] for i in range(3)]
            if all(t[i][j].eq(Q[i][j]) for i in range(3) for j in range(3)):
                return s
            if all(t[i][j].eq(C[i][j]) for i in range(3) for j in range(3)):
                return s * prod
            return z3.simplify(det3(it, a))
        it.ext['np.linalg.det'] = det
        it.assume(z3.Or(s == 1, s == -1))
        it.assume(s * prod > 0)                 # right-handed: det C = det Q det R
        for i, j in itertools.product(range(3), range(3)):
            it.assume(CQ(i, j) == R_[j][i])
        made = []

        def make(it, lattice=None, species=None, coords=None, coords_are_cartesian=False, **k):
            if k or coords_are_cartesian is not True:
                raise Unsupported('structure from fractional coordinates')
            made.append((lattice, species, coords))
            return Obj('made', {})
        it.contracts['DStructure'] = make
        at = Obj('structure', dict(cell=mat(C), coords=mat(X), species='SPECIES'))
        o = it.call(m.get(it, 'PerturbStructure'), [None])
        r = it.method(o, 'rot_lower_triangular', at)
        it.check('one structure', len(made) == 1 and r.cls == 'made')
        lat, sp, pos = made[0]
        it.check('species of the structure', sp == 'SPECIES')
        shape_is(it, 'lattice', lat, (3, 3))
        shape_is(it, 'coordinates', pos, (2, 3))
        sg = [z3.If(R_[k][k] > 0, z3.RealVal(1), z3.RealVal(-1)) for k in range(3)]
        for i, j in itertools.product(range(3), range(3)):
            it.check('lattice %d %d: the lower triangular factor' % (i, j), real(lat.get(i, j)) == R_[j][i] * sg[j])
            if j > i:
                it.check('lattice %d %d: lower triangular' % (i, j), real(lat.get(i, j)) == 0)
            if i == j:
                it.check('lattice %d %d: positive' % (i, j), real(lat.get(i, j)) > 0)
        for i, j in itertools.product(range(2), range(3)):
            it.check('coordinate %d %d: rotated with the lattice' % (i, j), real(pos.get(i, j)) == sum(X[i][k] * Q[k][j] for k in range(3)) * sg[j])
    return unit('PerturbStructure.rot_lower_triangular', PF, run, ['PerturbStructure.rot_lower_triangular'], exact=False, timeout=200)


def u_batch(np_, nd):
    def run(it, m):
        dirs = ['D%d' % k for k in range(nd)]
        read, wrote, made, args = [], [], [], []
        exists = {}

        def ex(it, p):
            if p not in exists:
                exists[p] = it.ctx.branch(z3.Bool('exists ' + p))
            return exists[p]

        def mkdir(it, p, *a, **k):
            it.check('a directory is made only where there is none', exists.get(p) is False or k.get('exist_ok') is True)
            made.append(p)
        it.ext['os.path.exists'] = it.ext['os.path.isdir'] = ex
        it.ext['os.mkdir'] = it.ext['os.makedirs'] = mkdir
        it.ext['os.path.join'] = lambda it, *p: '/'.join(p)

        def frm(it, *a, **k):
            a = list(a)
            path = k.get('file_path', a[0] if a else None)
            fmt = k.get('file_format', a[1] if len(a) > 1 else None)
            it.check('read as PWmat', fmt == 'pwmat')
            read.append(path)
            return Obj('structure', dict(path=path))
        it.contracts['DStructure.from_file'] = lambda it, cls, *a, **k: frm(it, *a, **k)

        def to(it, o):
            def f(it, a, k):
                k = dict(k)
                for n_, v in zip(('file_path', 'file_format', 'include_magnetic_moments'), a):
                    k[n_] = v
                if not set(k) <= {'file_path', 'file_format', 'include_magnetic_moments'} or 'file_path' not in k or 'file_format' not in k:
                    raise Raised('TypeError')
                wrote.append((o.f['src'], o.f['k'], k['file_path'], k['file_format']))
            return Prim(f)

        def pert(it, o, pert_num, cell_pert_fraction, atom_pert_distance):
            args.append((pert_num, cell_pert_fraction, atom_pert_distance))
            return PList([Obj('pert', dict(src=o.f['atoms'].f['path'], k=q), {'to': to}) for q in range(np_)])
        it.contracts['PerturbStructure.perturb'] = pert
        f, d, P = z3.Real('f'), z3.Real('d'), z3.Int('P')
        it.method(m.get(it, 'BatchPerturbStructure'), 'batch_perturb', PList(dirs), P, f, d)
        it.check('parameters passed on', all(x[0].eq(P) and x[1].eq(f) and x[2].eq(d) for x in args) and len(args) == nd)
        it.check('each directory is read', read == [x + '/atom.config' for x in dirs])
        it.check('k-th structure of each directory to structures/k.config', sorted((a, b, c) for a, b, c, _ in wrote) == sorted((x + '/atom.config', q, '%s/structures/%d.config' % (x, q)) for x in dirs for q in range(np_)))
        it.check('written as PWmat', all(w[3] == 'pwmat' for w in wrote))
        it.check('the directory for them exists', all(exists.get(x + '/structures') or x + '/structures' in made for x in dirs))
    return unit('BatchPerturbStructure.batch_perturb, %d copies, %d directories' % (np_, nd), PF, run, ['BatchPerturbStructure.batch_perturb'], exact=False)


def units(tier):
    return [u_cell(), u_atom(), u_rot()] + [u_perturb(a, n) for a, n in ((0, 1), (1, 1), (2, 2), (1, 3))] + [u_batch(2, 2), u_batch(1, 1)]


BOUNDED_RULE = 'random right-handed cells with 1-5 atoms: perturb with fractions and distances, zero included, and batch_perturb in scratch directories with and without an existing structures folder'
BOUNDED_ONLY = ['the distribution of the random numbers']


def bounded(b):
    import numpy as np, tempfile, shutil, os, random
    r = random.Random(b.seed)
    np.random.seed(b.seed)
    try:
        M = load('matersdk.adalearn.generator.perturbation')
        D = load('matersdk.io.publicLayer.structure').DStructure
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    d = tempfile.mkdtemp(prefix='c20.')

    def cell():
        while 1:
            L = np.round(np.diag([r.uniform(3, 9) for _ in range(3)]) + np.array([[r.uniform(-2.5, 2.5) for _ in range(3)] for _ in range(3)]), 6)
            if r.random() < .3:
                L = L[[1, 2, 0]] * np.array([[1], [1], [1]])
            if np.linalg.det(L) > 8:
                return L
    try:
        for t in range(60 if not b.thorough else 1500):
            L, n = cell(), r.randint(1, 5)
            zs = [r.choice((6, 14, 42)) for _ in range(n)]
            fr = np.round(np.array([[r.random() for _ in range(3)] for _ in range(n)]), 6)
            s = D(lattice=L, species=zs, coords=fr)
            f, dist, k = r.choice((0, .03, .1)), r.choice((0, .01, .3)), r.randint(0, 3)
            inp = dict(lattice=L.tolist(), species=zs, frac=fr.tolist(), fraction=f, distance=dist, copies=k)
            before = (s.lattice.matrix.copy(), s.cart_coords.copy())
            res = guard(b, 'perturb', inp, lambda: M.PerturbStructure(s).perturb(k, f, dist))
            if res is None:
                continue
            if len(res) != k:
                b.bad('%d structures instead of %d' % (len(res), k), inp)
            if not (np.array_equal(before[0], s.lattice.matrix) and np.array_equal(before[1], s.cart_coords)):
                b.bad('the structure given is changed', inp)
            for q in res:
                A = q.lattice.matrix
                if [x.Z for x in q.species] != zs:
                    b.bad('species', inp)
                if np.abs(np.triu(A, 1)).max() > 1e-8 or np.diag(A).min() <= 0:
                    b.bad('lattice is not lower triangular with positive diagonal', dict(inp, got=A.tolist()))
                # metric: A A^T = L M M^T L^T, M symmetric near 1
                W = np.linalg.inv(L) @ A
                w, V = np.linalg.eigh(W @ W.T)
                S = V @ np.diag(np.sqrt(w)) @ V.T
                E = S - np.eye(3)
                if np.abs(np.diag(E)).max() > f + 1e-7 or np.abs(E - np.diag(np.diag(E))).max() > f / 2 + 1e-7:
                    b.bad('deformation outside the fraction', dict(inp, deformation=E.tolist()))
                mv = (q.frac_coords - fr) @ A
                if dist == 0 and np.abs(mv).max() > 1e-7:
                    b.bad('atoms moved without a distance', dict(inp, got=mv.tolist()))
                if dist and (np.abs(mv).max() > 12 * dist or np.abs(mv).max(axis=1).min() == 0 or n > 1 and np.abs(mv[0] - mv[1]).max() < 1e-12):
                    b.bad('displacements', dict(inp, got=mv.tolist()))
            if k > 1 and f and np.abs(res[0].lattice.matrix - res[1].lattice.matrix).max() < 1e-12:
                b.bad('copies with the same deformation', inp)
            for bad in ((-.1, 0), (0, -.1), (-1e-6, .1), (.1, -1e-6)):
                try:
                    M.PerturbStructure(s).perturb(1, *bad)
                    b.bad('negative parameter accepted', dict(inp, bad=bad))
                except RuntimeError:
                    pass
            b.ok((t,), dict(atoms=n, copies=k))
            if t % 4 == 0:
                dirs = []
                for q in range(r.randint(1, 2)):
                    p = os.path.join(d, 's%d_%d' % (t, q))
                    os.mkdir(p)
                    if r.random() < .3:
                        os.mkdir(os.path.join(p, 'structures'))
                    s.to(os.path.join(p, 'atom.config'), 'pwmat')
                    dirs.append(p)
                guard(b, 'batch_perturb', inp, lambda: (M.BatchPerturbStructure.batch_perturb(dirs, k, 0., 0.), 1))
                for p in dirs:
                    got = sorted(os.listdir(os.path.join(p, 'structures'))) if os.path.isdir(os.path.join(p, 'structures')) else None
                    if got != ['%d.config' % q for q in range(k)]:
                        b.bad('batch_perturb: files %r' % (got,), inp)
                        continue
                    for fn in got:
                        x = guard(b, 'read back', inp, lambda: D.from_file(os.path.join(p, 'structures', fn), 'pwmat'))
                        if x is not None and (sorted(z.Z for z in x.species) != sorted(zs) or np.abs(x.lattice.matrix @ x.lattice.matrix.T - L @ L.T).max() > 1e-4):
                            b.bad('batch_perturb: structure written', inp)
        # statistics of one run with many copies: one-atom cubic cell, so that the deformation and the displacement can be read off
        L, N_ = np.diag([4., 4., 4.]), 4000
        o = M.PerturbStructure(D(lattice=L, species=[14], coords=[[.5, .5, .5]]))
        inp = dict(lattice=L.tolist(), species=[14], frac=[[.5, .5, .5]], copies=N_)
        res = guard(b, 'perturb', inp, lambda: o.perturb(N_, .1, 0.), 300)
        es = []
        for q in res or []:
            W = q.lattice.matrix / 4.
            w, V = np.linalg.eigh(W @ W.T)
            E = (V @ np.diag(np.sqrt(w)) @ V.T - np.eye(3)) / .1
            es.append([E[0, 0], E[1, 1], E[2, 2], 2 * E[0, 1], 2 * E[0, 2], 2 * E[1, 2]])
        if res is not None:
            es = np.array(es)                     # six independent uniform numbers on [-1, 1)
            C = np.corrcoef(es.T) - np.eye(6)
            if len(es) != N_ or np.abs(es.mean(0)).max() > 8 * (1 / 3 / N_) ** .5 or np.abs(es.var(0) - 1 / 3).max() > .05 or np.abs(es).max() > 1 + 1e-6 or es.max(0).min() < .97 or es.min(0).max() > -.97 or np.abs(C).max() > 8 / N_ ** .5 or min(len(set(np.round(es[:, k], 9))) for k in range(6)) < N_ - 100:
                b.bad('six entries of the deformation matrix: not independent and uniform over the range', dict(inp, fraction=.1, mean=es.mean(0).tolist(), var=es.var(0).tolist(), max=es.max(0).tolist(), min=es.min(0).tolist(), correlation=C.tolist()))
        res = guard(b, 'perturb', inp, lambda: o.perturb(N_, 0., .3), 300)
        if res is not None:
            mv = np.array([(q.frac_coords[0] - .5) * 4. / .3 for q in res])
            mv -= np.round(mv * .3 / 4.) * 4. / .3    # variance 1/3 per component, normal: fourth moment 3 / 9
            C = np.corrcoef(mv.T) - np.eye(3)
            if len(mv) != N_ or np.abs(mv.mean(0)).max() > 8 * (1 / 3 / N_) ** .5 or np.abs(mv.var(0) - 1 / 3).max() > 8 * (2 / 9 / N_) ** .5 or np.abs((mv ** 4).mean(0) - 1 / 3).max() > 8 * (96 / 81 / N_) ** .5 or np.abs(C).max() > 8 / N_ ** .5 or min(len(set(np.round(mv[:, k], 9))) for k in range(3)) < N_ - 100:
                b.bad('displacements: not normal with variance distance^2 / 3 per component', dict(inp, distance=.3, mean=mv.mean(0).tolist(), var=mv.var(0).tolist(), fourth=(mv ** 4).mean(0).tolist(), correlation=C.tolist()))
        b.ok((9999,), dict(kind='statistics', draws=2 * N_))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    import sys
    import props.C20 as m
    sys.exit(main(m))
