"""k-points: mesh from a density, IN.KPT, band-path abscissa, k-path files (calculation/kpoints/kmesh.py, calculation/kpath/kpathSampler.py,
io/pwmat/input/inkpt.py)."""
from vc.pylib import *
from vc.report import main
from vc import pytext, cas
from vc.py import Text
from vc.pytext import Src

ID = 'C18'
KS = 'matersdk/calculation/kpoints/kpointsSampler.py'
KM, KP, IK = 'matersdk/calculation/kpoints/kmesh.py', 'matersdk/calculation/kpath/kpathSampler.py', 'matersdk/io/pwmat/input/inkpt.py'
ASSUMPTIONS = ASSUMPTIONS + ['the reciprocal lattice, the high-symmetry points and the paths are those pymatgen returns', 'judge_vacuum_exist: contract of C24']
TRUSTED = TRUSTED + ['pymatgen Lattice.reciprocal_lattice, reciprocal_lattice_crystallographic, KPathSetyawanCurtarolo', 'vc/pytext.py: open, readline, readlines, write, str.format, str.split']
BOHR = z3.RealVal('0.529177249')


def recip(tag='B'):
    B = [[z3.Real('%s%d%d' % (tag, a, c)) for c in range(3)] for a in range(3)]
    arr = SArr((3, 3), lambda idx: pick(B, idx), 'f')
    return B, arr


def pick(B, idx):
    a, c = num(idx[0]), num(idx[1])
    out = None
    for p in (2, 1, 0):
        row = B[p][2]
        for q in (1, 0):
            row = B[p][q] if z3.is_int_value(c) and c.as_long() == q else row if z3.is_int_value(c) else z3.If(c == q, B[p][q], row)
        out = row if out is None else row if z3.is_int_value(a) and a.as_long() == p else out if z3.is_int_value(a) else z3.If(a == p, row, out)
    return out


def lattice(arr, crys=None):
    rec = Obj('rec', dict(matrix=arr))
    return Obj('lattice', dict(reciprocal_lattice=rec, reciprocal_lattice_crystallographic=Obj('rec', dict(matrix=crys if crys is not None else arr))))


# ------------------------------------------------------------------ mesh
def fold(it, e, q, val):
    """write q for the quotients of e that equal its value val under the hypotheses"""
    seen, todo, subs = set(), [e], []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.sort() == RealS and _quotient(t) and cas.prove(list(it.ctx.pc), t == val)[0] == 'proved':
            subs.append((t, q))
            continue
        todo += t.children()
    e = z3.simplify(z3.substitute(e, *subs)) if subs else e
    if _quotient(e, deep=True):
        raise Unsupported('quotient not recognised')
    return e


def _quotient(t, deep=False):
    """contains a division by something that is not a number (deep: anywhere; else: through products and quotients only)"""
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_DIV and not z3.is_rational_value(z3.simplify(t.arg(1))):
        return True
    if deep or k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
        return any(_quotient(c, deep) for c in t.children())
    return False


def isint(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.And(z3.Implies(e.arg(0), isint(e.arg(1))), z3.Implies(z3.Not(e.arg(0)), isint(e.arg(2))))
    return z3.BoolVal(True) if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL else z3.simplify(z3.IsInt(e))


def u_kmesh():
    def run(it, m):
        B, arr = recip()
        vac = [z3.Bool('vac%d' % k) for k in range(3)]
        d, pi = z3.Real('density'), pynp.PI
        it.assume(z3.And(d > 0, pi > 3))
        st = Obj('structure', dict(lattice=lattice(arr)), {'judge_vacuum_exist': lambda it, o: Prim(lambda it, a, k: PList(list(vac)))})
        o = Obj(m.get(it, 'KMesh'), dict(structure=st))
        lns = []
        x, defs = [z3.Real('x%d' % a) for a in range(3)], []           # |b_a| in units of density * 2 pi
        for a in range(3):
            ln = it.ctx.sqrt(sum((B[a][c] * B[a][c] for c in range(3)), z3.RealVal(0)))
            lns.append(ln)
            defs.append(x[a] * (d * 2 * pi) == ln)
        with given(it, *defs):
            for a in range(3):
                it.check('lemma: the quotient is not negative', x[a] >= 0, 'lemma')
            it.merge += 1
            r = it.method(o, 'get_kmesh', d)
            it.merge -= 1
            shape_is(it, 'mesh', r, (3,))
            mesh = [fold(it, real(r.get(a)), x[a], lns[a] / (d * 2 * pi)) for a in range(3)]
        it.assume(z3.And(*[q >= 0 for q in x]))
        half = z3.RealVal('1/2')
        for a in range(3):
            g = mesh[a]
            it.check('direction %d: 1 across vacuum' % a, z3.Implies(vac[a], g == 1))
            it.check('direction %d: an integer' % a, isint(g))
            it.check('direction %d: nearest to |b|/(2 pi density), at least 1' % a, z3.Implies(z3.Not(vac[a]), z3.Or(z3.And(g >= 1, g - x[a] <= half, x[a] - g <= half), z3.And(g == 1, x[a] <= half))))
        r = it.method(o, 'get_kmesh', 0)
        for a in range(3):
            it.check('density 0: 1', num(r.get(a)) == 1)
    return unit('KMesh.get_kmesh', KM, run, ['KMesh.get_kmesh'], exact=False)


def u_ctor():
    def run(it, m):
        calls = []

        def from_file(it, c, file_path=None, file_format=None, sort=False):
            calls.append((file_path, file_format))
            return Obj('structure', {})
        it.contracts['DStructure.from_file'] = from_file
        o = it.call(m.get(it, 'KMesh'), [], dict(file_format='FMT', file_path='PATH'))
        it.check('the structure of the file given', calls == [('PATH', 'FMT')] and o.f['structure'].cls == 'structure')
    return unit('KMesh.__init__', KM, run, ['KMesh.__init__'], exact=False)


# ------------------------------------------------------------------ IN.KPT
def inkpt(it, m):
    s = Src('K')
    T = nat(it, 'T', 2)
    pytext.install(it, s, T, 'PATH')
    i = N('i')
    it.gh.schemas.append((s.NT, lambda q: z3.Implies(rng(q, T), z3.And(z3.Implies(q < 2, s.NT(q) >= 1), z3.Implies(q == 1, s.NT(q) == 2), z3.Implies(q >= 2, s.NT(q) >= 4)))))
    it.assume(z3.And(s.NT(I0) >= 1, s.NT(I1) == 2))
    o = it.call(m.get(it, 'Inkpt'), ['PATH'])
    return s, T, o


def u_header():
    def run(it, m):
        s, T, o = inkpt(it, m)
        it.check('iflag: first number of line 2', num(o.f['iflag']) == s.INT(I1, I0))
        it.check('a0: last number of line 2', num(o.f['a0']) == s.INT(I1, s.NT(I1) - 1))
        it.check('number of points: first number of line 1', num(it.method(o, 'get_num_kpts')) == s.INT(I0, I0))
        c = it.method(o, 'get_kpt_coords_frac')
        k = N('k')
        shape_is(it, 'coordinates', c, (T - 2, 3))
        with given(it, rng(k, T - 2)):
            for a in range(3):
                it.check('coordinate %d of point k' % a, c.get(k, a) == s.FLT(k + 2, a))
        w = it.seq(it.method(o, 'get_kpt_weights'))
        it.check('one weight per point', num(w.n) == T - 2)
        with given(it, rng(k, T - 2)):
            it.check('weight of point k', real(w.get(k)) == s.FLT(k + 2, 3))
        h = it.method(o, 'get_hsp').val
        cnt, sel, _ = it.gh.count(T - 2, lambda j: s.NT(j + 2) == 5)
        C = cnt(T - 2)
        a, b = it.seq(h['hsp']), it.seq(h['coords_frac'])
        it.check('high-symmetry points: as many as labelled lines', z3.And(num(a.n) == C, num(b.n) == C))
        with given(it, rng(k, C)):
            t = a.get(k)
            it.check('k-th label: last word of the k-th labelled line', z3.And(t.f['i'] == sel(k) + 2, t.f['k'] == 4) if t.cls == 'token' else False)
            p = it.tolist(b.get(k))
            it.check('its coordinates', z3.And(*[real(p[c]) == s.FLT(sel(k) + 2, c) for c in range(3)]) if len(p) == 3 else False)
    return unit('Inkpt: header, coordinates, weights, labels', IK, run, ['Inkpt.__init__', 'Inkpt._get_iflag', 'Inkpt._get_a0', 'Inkpt.get_num_kpts', 'Inkpt.get_kpt_coords_frac', 'Inkpt.get_kpt_weights', 'Inkpt.get_hsp'], exact=False)


def cart(it, m, K=None):
    B, arr = recip()
    K = nat(it, 'K', 1)
    f = z3.Function('FRAC', IntS, IntS, RealS)
    paths = []

    def from_file(it, c, file_path=None, file_format=None, sort=False):
        paths.append((file_path, file_format))
        return Obj('structure', dict(lattice=lattice(arr)))
    it.contracts['DStructure.from_file'] = from_file
    it.contracts['Inkpt.get_kpt_coords_frac'] = lambda it, o: SArr((K, 3), lambda idx: f(*idx), 'f')
    o = Obj(m.get(it, 'Inkpt'), dict(in_kpt_path='PATH'))
    want = lambda k, a: sum((f(num(k), z3.IntVal(c)) * B[c][a] for c in range(3)), z3.RealVal(0))
    return o, K, want, paths


def u_cart():
    def run(it, m):
        o, K, want, paths = cart(it, m)
        k = N('k')
        for w, fac in (('get_kpt_coords_A', z3.RealVal(1)), ('get_kpt_coords_Bohr', BOHR)):
            r = it.method(o, w, 'CONFIG')
            shape_is(it, w, r, (K, 3))
            with given(it, rng(k, K)):
                for a in range(3):
                    it.check('%s: component %d of point k is its fractional coordinates times the reciprocal lattice' % (w, a), r.get(k, a) == want(k, a) * fac)
        it.check('lattice of the structure file given', set(paths) == {('CONFIG', 'pwmat')})
    return unit('Inkpt: Cartesian coordinates', IK, run, ['Inkpt.get_kpt_coords_A', 'Inkpt.get_kpt_coords_Bohr'], exact=False)


def u_nbr():
    def run(it, m):
        K = nat(it, 'K', 1)
        f = z3.Function('CART', IntS, IntS, RealS)
        it.contracts['Inkpt.get_kpt_coords_A'] = lambda it, o, atom_config_path=None: (it.check('structure file', atom_config_path == 'CONFIG'), SArr((K, 3), lambda idx: f(*idx), 'f'))[1]
        o = Obj(m.get(it, 'Inkpt'), dict(in_kpt_path='PATH'))
        r = it.seq(it.method(o, '_get_distance_from_nbr', 'CONFIG'))
        k = N('k')
        it.check('one distance per point', num(r.n) == K)
        it.check('the first is 0', real(r.get(I0)) == 0)
        with given(it, rng(k, K), k >= 1):
            it.check('distance of point k from point k-1', real(r.get(k)) == it.ctx.sqrt(sum(((f(k, z3.IntVal(c)) - f(k - 1, z3.IntVal(c))) * (f(k, z3.IntVal(c)) - f(k - 1, z3.IntVal(c))) for c in range(3)), z3.RealVal(0))))
    return unit('Inkpt._get_distance_from_nbr', IK, run, ['Inkpt._get_distance_from_nbr'], exact=False)


def u_gamma(lens):
    """lens: number of labelled points per path; the paths follow each other"""
    def run(it, m):
        # positions of the labelled points: consecutive ones belong to different paths
        keys, starts, prev = [], [], None
        for a, L in enumerate(lens):
            for q in range(L):
                x = N('key%d_%d' % (a, q))
                if prev is None:
                    it.assume(x == 0)
                elif q == 0:
                    it.assume(x == prev + 1)
                else:
                    it.assume(x >= prev + 2)
                if q == 0:
                    starts.append(x)
                keys.append(x)
                prev = x
        K = nat(it, 'K', 1)
        it.assume(prev < K)
        D = z3.Function('NBR', IntS, RealS)
        it.gh.schemas.append((D, lambda q: D(q) >= 0))
        it.contracts['Inkpt._get_distance_from_nbr'] = lambda it, o, atom_config_path=None: (it.check('structure file', atom_config_path == 'CONFIG'), PList(SSeq(K, lambda q: D(num(q)))))[1]
        it.contracts['Inkpt._get_idx2hsp'] = lambda it, o: Obj('dict', {}, dict(keys=lambda it, o: Prim(lambda it, a, k: PList(list(keys)))))
        o = Obj(m.get(it, 'Inkpt'), dict(in_kpt_path='PATH'))
        r = it.seq(it.method(o, 'get_distance_from_gamma_A', 'CONFIG'))
        k = N('k')
        it.check('one abscissa per point', num(r.n if isinstance(r, SSeq) else len(r)) == K)
        g = lambda q: real(r.get(q)) if isinstance(r, SSeq) else real(r[q])
        with given(it, K >= 1):
            it.check('the first point is at its distance 0', g(I0) == D(I0))
        with given(it, rng(k, K), k >= 1):
            jump = z3.Or(*[k == s for s in starts[1:]]) if len(starts) > 1 else z3.BoolVal(False)
            it.check('the abscissa grows by the distance to the previous point, and not at a jump between paths', g(k) - g(k - 1) == z3.If(jump, z3.RealVal(0), D(k)))
        b = it.seq(it.method(o, 'get_distance_from_gamma_bohr', 'CONFIG'))
        h = lambda q: real(b.get(q)) if isinstance(b, SSeq) else real(b[q])
        it.check('Bohr: one per point', num(b.n if isinstance(b, SSeq) else len(b)) == K)
        with given(it, rng(k, K)):
            it.check('Bohr: converted', h(k) == g(k) * BOHR)
    return unit('Inkpt: abscissa of the band plot, paths with %s labels' % '+'.join(map(str, lens)), IK, run,
                ['Inkpt.get_distance_from_gamma_A', 'Inkpt.get_distance_from_gamma_bohr', 'Inkpt._split_distances_from_gamma_lst'], exact=False, timeout=120)


# ------------------------------------------------------------------ k-paths
PTS = {'\\Gamma': 0, 'A': 1, 'H': 1, 'K': 0, 'L': 1, 'M': 0}
NETS = [[['\\Gamma', 'M', 'K', '\\Gamma', 'A', 'L', 'H', 'A'], ['L', 'M'], ['K', 'H']], [['\\Gamma', 'A'], ['M', 'L', 'K']], [['K', 'M'], ['H', 'L']], [['A', 'H']]]


def sampler(it, m, dim, net, gamma=True):
    pts = {}
    for p, off in PTS.items():
        if p == '\\Gamma' and not gamma:
            continue
        x = [z3.Real('%s_%s' % (p.strip('\\'), c)) for c in 'xyz']
        it.assume(x[2] != 0 if off else x[2] == 0)
        pts[p] = SArr((3,), lambda idx, x=x: x[num(idx[0]).as_long()] if z3.is_int_value(num(idx[0])) else z3.If(num(idx[0]) == 0, x[0], z3.If(num(idx[0]) == 1, x[1], x[2])), 'f')
    kp = PDict({'kpoints': PDict(dict(pts)), 'path': PList([PList(list(q)) for q in net])})
    B, arr = recip()
    st = Obj('structure', dict(lattice=lattice(SArr((3, 3), lambda idx: pick([[2 * pynp.PI * y for y in z] for z in B], idx), 'f'), arr), formula='FORMULA'))
    o = Obj(m.get(it, 'KpathSampler'), dict(dimension=dim, structure=st), {'kpath': lambda it, o: kp})
    return o, pts, B


def setprop(it, o, name, v):
    st = o.cls.setter(it, name)
    if st:
        it.callfn(Fn(st[0], st[1].mod, st[1]), [o, v], {})
    else:
        o.f[name] = v


def g(p):
    return 'G' if p == '\\Gamma' else p


def u_points(dim, net, gamma=True):
    def run(it, m):
        if not gamma and any('\\Gamma' in p for p in net):
            return
        o, pts, B = sampler(it, m, dim, net, gamma)
        r = it.method(o, '_get_kpoints')
        want = {g(p): x for p, x in pts.items() if dim == 3 or not PTS[p]}
        it.check('points: all of them (in the plane for 2 dimensions), Gamma named G', set(r.val) == set(want))
        for p in want:
            for c in range(3):
                it.check('coordinates of %s' % p, r.val[p].get(c) == want[p].get(c))
        setprop(it, o, 'kpoints', r)
        q = it.method(o, '_get_kpaths')
        got = [list(it.tolist(x)) for x in it.tolist(q)]
        ex = [[g(p) for p in x if dim == 3 or not PTS[p]] for x in net]
        it.check('paths: the points kept, in order; paths of fewer than two points dropped in 2 dimensions', got == [x for x in ex if dim == 3 or len(x) > 1])
    return unit('KpathSampler: points and paths, %d dimensions, %s%s' % (dim, net, '' if gamma else ', no Gamma'), KP, run, ['KpathSampler._get_kpoints', 'KpathSampler._get_kpaths'], exact=False)


def u_dim():
    def run(it, m):
        for f in ('_get_kpoints', '_get_kpaths'):
            o, pts, B = sampler(it, m, 1, NETS[2])
            try:
                it.method(o, f)
                it.check('other dimensions are refused', False)
            except Raised:
                it.check('other dimensions are refused', True)
    return unit('KpathSampler: dimension check', KP, run, ['KpathSampler._get_kpoints', 'KpathSampler._get_kpaths'], exact=False)


def u_files(net, default):
    def run(it, m):
        o, pts, B = sampler(it, m, 3, net)
        kps = {g(p): x for p, x in pts.items()}
        names = [[g(p) for p in x] for x in net]
        setprop(it, o, 'kpoints', PDict(kps))
        setprop(it, o, 'kpaths', PList([PList(x) for x in names]))
        removed = []
        it.ext['os.path.exists'] = lambda it, p: True
        it.ext['os.remove'] = lambda it, p: removed.append(p)
        files = pytext.out_files(it)
        it.method(o, 'output_HIGHK_file')
        it.check('HIGHK: one file, replaced', list(files) == ['./HIGHK'] and removed == ['./HIGHK'])
        rows = text_rows(files['./HIGHK'].val)
        it.check('HIGHK: a title and one line per point', len(rows) == 1 + len(kps))
        for row, (p, x) in zip(rows[1:], kps.items()):
            point(it, 'HIGHK', row, p, x)
        d = z3.RealVal('0.01') if default else z3.Real('density')
        it.assume(d > 0)
        it.method(o, 'output_gen_kpt', *([] if default else [d]))
        it.check('gen.kpt: one file, replaced', set(files) == {'./HIGHK', './gen.kpt'} and removed == ['./HIGHK', './gen.kpt'])
        rows = text_rows(files['./gen.kpt'].val)
        segs = [(a, b) for x in names for a, b in zip(x, x[1:])]
        it.check('gen.kpt: a title and three lines per segment', len(rows) == 1 + 3 * len(segs))
        for q, (a, b) in enumerate(segs):
            n, s, e = rows[1 + 3 * q:4 + 3 * q]
            point(it, 'gen.kpt: start of segment %d' % q, s, a, kps[a])
            point(it, 'gen.kpt: end of segment %d' % q, e, b, kps[b])
            v = [x for x in n if not isinstance(x, str)]
            it.check('gen.kpt: number of points of segment %d is printed alone' % q, len(v) == 1 and ''.join(x for x in n if isinstance(x, str)).strip() == '' and v[0][0] in ('', 'd'))
            c = v[0][1]
            it.check('gen.kpt: it is an integer', isz(c) and z3.is_int(c))
            D = [sum(((kps[b].get(z3.IntVal(k)) - kps[a].get(z3.IntVal(k))) * B[k][j] for k in range(3)), z3.RealVal(0)) for j in range(3)]
            ln = it.ctx.sqrt(D[0] * D[0] + D[1] * D[1] + D[2] * D[2])
            x = z3.Real('segment%d' % q)
            it.assume(x * d == ln)
            it.check('gen.kpt: segment %d has the smallest number of points with spacing at most the density' % q, z3.And(num(c) >= x, num(c) < x + 1))
    return unit('KpathSampler: HIGHK and gen.kpt, %s%s' % (net, ', default density' if default else ''), KP, run, ['KpathSampler.output_HIGHK_file', 'KpathSampler.output_gen_kpt'], exact=False, timeout=120)


def text_rows(pieces):
    rows, cur = [], []
    for p in pieces:
        for x in (p.parts if isinstance(p, Text) else [p]):
            if not isinstance(x, str):
                cur.append(x)
                continue
            while '\n' in x:
                a, x = x.split('\n', 1)
                rows.append(cur + [a])
                cur = []
            if x:
                cur.append(x)
    return rows + ([cur] if cur else [])


def point(it, what, row, name, x):
    v = [q for q in row if not isinstance(q, str)]
    lit = [q for q in row if isinstance(q, str)]
    it.check(what + ': three coordinates and the name of the point', len(v) == 3 and ''.join(lit).split() == [name] and all(f[0].lstrip('<>^0123456789').endswith('.6f') for f in v))
    it.check(what + ': %s' % name, z3.And(*[real(v[c][1]) == x.get(z3.IntVal(c)) for c in range(3)]))


def u_irreducible():
    def run(it, m):
        n = nat(it, 'n')
        sp, an = z3.Real('symprec'), z3.Real('angle')
        given_ = dict(structure=Obj('structure', {}), kmesh=Obj('mesh', {}), is_shift=Obj('shift', {}))
        pts = PList(SSeq(n, lambda k: Obj('point', dict(k=num(k)))))

        def analyzer(it, *a, **k):
            v = dict(zip(('structure', 'symprec', 'angle_tolerance'), a), **k)
            it.check('structure and tolerances of the analysis', set(v) == {'structure', 'symprec', 'angle_tolerance'} and v['structure'] is given_['structure'])
            it.check('tolerance of positions', num(v['symprec']) == sp)
            it.check('tolerance of angles', num(v['angle_tolerance']) == an)

            def mesh(it, a, k):
                v = dict(zip(('mesh', 'is_shift'), a), **k)
                it.check('mesh and shift', set(v) == {'mesh', 'is_shift'} and v['mesh'] is given_['kmesh'] and v['is_shift'] is given_['is_shift'])
                return pts
            return Obj('analyzer', {}, dict(get_ir_reciprocal_mesh=lambda it, o: Prim(mesh)))
        it.ext['pymatgen.symmetry.analyzer.SpacegroupAnalyzer'] = it.ext['SpacegroupAnalyzer'] = analyzer
        o = it.call(m.get(it, 'KPointsSampler'), [], dict(given_, symprec=sp, angle_tolerance=an))
        it.check('the points of the analysis', it.method(o, 'get_kpoints') is pts)
        it.check('their number', num(it.method(o, 'get_num_kpoints')) == n)
    return unit('KPointsSampler', KS, run, ['KPointsSampler.__init__', 'KPointsSampler.get_kpoints', 'KPointsSampler.get_num_kpoints'], exact=False)


def units(tier):
    us = [u_irreducible(), u_kmesh(), u_ctor(), u_header(), u_cart(), u_nbr()]
    us += [u_gamma(x) for x in ((2,), (3,), (2, 2), (3, 2), (2, 2, 2), (4, 3, 2))]
    us += [u_points(d, n) for d in (2, 3) for n in NETS] + [u_points(3, NETS[2], False), u_dim()]
    us += [u_files(n, q) for n, q in ((NETS[0], False), (NETS[1], False), (NETS[2], True))]
    return us


BOUNDED_RULE = 'random cells (orthogonal, hexagonal, triclinic, with and without vacuum) and densities for the mesh; random IN.KPT files with 1-3 paths, rewritten in place; k-paths of seven crystal systems in 2 and 3 dimensions with random densities, files parsed back'
BOUNDED_ONLY = ['Inkpt._get_idx2hsp', 'abscissa with more than three paths']


def irreducible(b, r, np, Q, D, fn):
    from pymatgen.symmetry.analyzer import SpacegroupAnalyzer
    mesh, sh = [r.randint(1, 4) for _ in range(3)], [r.randint(0, 1) for _ in range(3)]
    kw = dict(symprec=r.choice((1e-3, 1e-2, .5)), angle_tolerance=r.choice((5.0, 1.0))) if r.random() < .7 else {}
    inp = dict(file=open(fn).read(), mesh=mesh, shift=sh, **kw)
    st = D.from_file(file_format='pwmat', file_path=fn)
    try:
        want = SpacegroupAnalyzer(st, symprec=kw.get('symprec', 1e-3), angle_tolerance=kw.get('angle_tolerance', 5.0)).get_ir_reciprocal_mesh(mesh, sh)
    except Exception:
        return                  # no symmetry found within such tolerances
    o = guard(b, 'KPointsSampler', inp, lambda: Q(st, np.array(mesh), np.array(sh), **kw))
    if o is None:
        return
    got, n = guard(b, 'get_kpoints', inp, o.get_kpoints), guard(b, 'get_num_kpoints', inp, o.get_num_kpoints)
    if got is None or n is None:
        return
    if n != len(want) or len(got) != n or any(not np.allclose(x[0], y[0]) or x[1] != y[1] for x, y in zip(got, want)) or sum(x[1] for x in got) != mesh[0] * mesh[1] * mesh[2]:
        b.bad('irreducible points of the mesh', dict(inp, got=str(got)[:300], want=str(want)[:300]))


def bounded(b):
    import numpy as np, tempfile, shutil, os, random, math
    r = random.Random(b.seed)
    try:
        M = load('matersdk.calculation.kpoints.kmesh').KMesh
        I = load('matersdk.io.pwmat.input.inkpt').Inkpt
        S = load('matersdk.calculation.kpath.kpathSampler').KpathSampler
        D = load('matersdk.io.publicLayer.structure').DStructure
        Q = load('matersdk.calculation.kpoints.kpointsSampler').KPointsSampler
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    from pymatgen.core import Lattice
    from pymatgen.symmetry.kpath import KPathSetyawanCurtarolo
    d = tempfile.mkdtemp(prefix='c18.')
    cwd = os.getcwd()

    def config(fn, lat, zs, pos):
        with open(fn, 'w') as h:
            h.write('%d\n LATTICE\n' % len(zs))
            for row in lat:
                h.write(' '.join('%.12f' % x for x in row) + '\n')
            h.write(' POSITION\n')
            for z, p in zip(zs, pos):
                h.write('%d ' % z + ' '.join('%.12f' % x for x in p) + ' 1 1 1\n')

    def cell(kind=None):
        kind = kind or r.choice(('cubic', 'ortho', 'hex', 'tri'))
        a, c, e = (r.uniform(3, 9) for _ in range(3))
        if r.random() < .4:
            c = r.uniform(14, 30)
        if kind == 'cubic':
            L = [[a, 0, 0], [0, a, 0], [0, 0, a]]
        elif kind == 'ortho':
            L = [[a, 0, 0], [0, e, 0], [0, 0, c]]
        elif kind == 'hex':
            L = [[a, 0, 0], [-a / 2, a * math.sqrt(3) / 2, 0], [0, 0, c]]
        else:
            L = [[a, r.uniform(-1, 1), r.uniform(-1, 1)], [r.uniform(-1, 1), e, r.uniform(-1, 1)], [r.uniform(-1, 1), r.uniform(-1, 1), c]]
        return np.round(np.array(L), 8)
    try:
        for t in range(60 if not b.thorough else 1000):
            L = cell()
            n = r.randint(1, 5)
            pos = np.round(np.array([[r.random() for _ in range(3)] for _ in range(n)]), 6)
            fn = os.path.join(d, 'a%d.config' % (t // 2))
            config(fn, L, [r.choice((6, 14, 42)) for _ in range(n)], pos)
            inp = dict(lattice=L.tolist(), positions=pos.tolist())
            if t % 4 == 0:
                irreducible(b, r, np, Q, D, fn)
            k = guard(b, 'KMesh', inp, lambda: M(file_format='pwmat', file_path=fn))
            if k is None:
                continue
            rec = np.linalg.inv(L).T
            cartesian = pos @ L
            for dens in (0, r.uniform(.01, .2), r.choice((.02, .03, .05, 1.)), float(np.linalg.norm(rec[r.randrange(3)])) / (r.randint(0, 6) + r.choice((.50005, .49995)))):
                g = guard(b, 'get_kmesh', dict(inp, density=dens), lambda: k.get_kmesh(dens))
                if g is None:
                    continue
                for q in range(3):
                    gap = np.linalg.norm(L[q]) - (cartesian[:, q].max() - cartesian[:, q].min())
                    x = np.linalg.norm(rec[q]) / dens if dens else 0.
                    if dens and (abs(x - math.floor(x) - .5) < 1e-6 or abs(gap - 10) < 1e-6):
                        continue
                    want = 1 if dens == 0 or gap > 10 else max(1, round(x))
                    if np.asarray(g).shape != (3,) or float(g[q]) != want:
                        b.bad('get_kmesh direction %d: %s instead of %s' % (q, g, want), dict(inp, density=dens))
                        break
            b.ok((t,) if n > 1 else None, dict(kind='mesh'))
        for t in range(40 if not b.thorough else 600):
            L = cell()
            cfg = os.path.join(d, 'c.config')
            config(cfg, L, [14], [[0, 0, 0]])
            B = 2 * math.pi * np.linalg.inv(L).T
            pts, labels, starts = [], [], []
            for a in range(r.randint(1, 3)):
                starts.append(len(pts))
                cur = [round(r.uniform(-.5, .5), 6) for _ in range(3)]
                pts.append(cur)
                labels.append(r.choice('GXMKALH'))
                for q in range(r.randint(1, 3)):
                    nxt = [round(r.uniform(-.5, .5), 6) for _ in range(3)]
                    m = r.randint(1, 4)
                    for z in range(1, m + 1):
                        pts.append([round(x + (y - x) * z / (m + 1), 6) for x, y in zip(cur, nxt)])
                        labels.append(None)
                    pts.append(nxt)
                    labels.append(r.choice('GXMKALH'))
                    cur = nxt
            w = [round(r.random(), 6) for _ in pts]
            fn = os.path.join(d, 'IN.KPT%d' % (t // 2))
            fl, a0 = r.choice((1, 2)), r.choice((0, 1, 7))
            with open(fn, 'w') as h:
                h.write('%s%d\n %d %d\n' % (' ' * r.randint(0, 6), len(pts), fl, a0))
                for p, l, x in zip(pts, labels, w):
                    h.write('   %.6f  %.6f  %.6f   %.6f%s\n' % (*p, x, '  ' + l if l else ''))
            inp = dict(inkpt=open(fn).read(), lattice=L.tolist())
            o = guard(b, 'Inkpt', inp, lambda: I(fn))
            if o is None:
                continue
            fr = np.array(pts)
            cart = fr @ B
            dist = [0.] + [0. if i in starts else float(np.linalg.norm(cart[i] - cart[i - 1])) for i in range(1, len(pts))]
            hs = [i for i, l in enumerate(labels) if l]
            bohr = 0.529177249
            for what, f, want in (('iflag', lambda: o.iflag, fl), ('a0', lambda: o.a0, a0), ('get_num_kpts', lambda: o.get_num_kpts(), len(pts)), ('get_kpt_coords_frac', lambda: o.get_kpt_coords_frac(), fr),
                                  ('get_kpt_coords_A', lambda: o.get_kpt_coords_A(cfg), cart), ('get_kpt_coords_Bohr', lambda: o.get_kpt_coords_Bohr(cfg), cart * bohr), ('get_kpt_weights', lambda: o.get_kpt_weights(), w),
                                  ('get_hsp coords', lambda: o.get_hsp()['coords_frac'], fr[hs]),
                                  ('get_distance_from_gamma_A', lambda: o.get_distance_from_gamma_A(cfg), np.cumsum(dist)), ('get_distance_from_gamma_bohr', lambda: o.get_distance_from_gamma_bohr(cfg), np.cumsum(dist) * bohr)):
                v = guard(b, what, inp, f)
                if v is None:
                    continue
                v, want = np.asarray(v, dtype=float), np.asarray(want, dtype=float)
                if v.shape != want.shape or not np.allclose(v, want, atol=1e-6, rtol=1e-7):
                    b.bad(what, dict(inp, got=v.tolist(), want=want.tolist()))
            g = guard(b, 'labels', inp, lambda: list(o.get_hsp()['hsp']))
            if g is not None and g != [labels[i] for i in hs]:
                b.bad('labels %s' % (g,), inp)
            b.ok((2000 + t,), dict(kind='IN.KPT', points=len(pts)))
        systems = [Lattice.cubic(4.1), Lattice.hexagonal(3.19, 15.2), Lattice.tetragonal(3.3, 6.1), Lattice.orthorhombic(3.1, 4.4, 6.3), Lattice.monoclinic(3.1, 4.4, 6.3, 99.), Lattice.rhombohedral(4.2, 71.), Lattice.from_parameters(3.2, 4.1, 5.3, 80, 85, 95), Lattice.hexagonal(6.38, 23.1)]
        for t, (lat, dim) in enumerate([(l, q) for l in systems for q in (2, 3)] * (1 if not b.thorough else 5)):
            dens = r.choice((0.01, 0.02, round(r.uniform(.005, .05), 4)))
            inp = dict(lattice=lat.matrix.tolist(), dimension=dim, density=dens)
            work = os.path.join(d, 'k%d' % t)
            os.makedirs(work)
            os.chdir(work)
            try:
                st = D(lat, ['Mo', 'S'], [[0, 0, 0], [.3, .3, .3]])
                ref = KPathSetyawanCurtarolo(st, symprec=0.1, angle_tolerance=5, atol=1e-5).kpath
                if not ref:                    # pymatgen has no path for cells in another setting
                    continue
                o = guard(b, 'KpathSampler', inp, lambda: S(structure=st, dimension=dim), 60)
                if o is None:
                    continue
                pts = {('G' if k == '\\Gamma' else k): np.array(v, dtype=float) for k, v in ref['kpoints'].items() if dim == 3 or v[-1] == 0}
                paths = [['G' if x == '\\Gamma' else x for x in p] for p in ref['path']]
                if dim == 2:
                    paths = [[x for x in p if x in pts] for p in paths]
                    paths = [p for p in paths if len(p) > 1]
                if {k: tuple(np.asarray(v, dtype=float)) for k, v in o.kpoints.items()} != {k: tuple(v) for k, v in pts.items()}:
                    b.bad('kpoints %s' % o.kpoints, inp)
                    continue
                if [list(p) for p in o.kpaths] != paths:
                    b.bad('kpaths %s, expected %s' % (o.kpaths, paths), inp)
                    continue
                for f in ('HIGHK', 'gen.kpt'):
                    open(f, 'w').write('old contents\n' * 3)
                if guard(b, 'output_HIGHK_file', inp, lambda: (o.output_HIGHK_file(), 1)[1]) is None or guard(b, 'output_gen_kpt', inp, lambda: (o.output_gen_kpt(density=dens), 1)[1]) is None:
                    continue
                rows = [x.split() for x in open('HIGHK').read().splitlines()[1:]]
                got = {x[3]: tuple(float(y) for y in x[:3]) for x in rows if len(x) == 4}
                if len(rows) != len(pts) or set(got) != set(pts) or any(not np.allclose(got[k], pts[k], atol=6e-7) for k in got):
                    b.bad('HIGHK', dict(inp, text=open('HIGHK').read()))
                rows = [x.split() for x in open('gen.kpt').read().splitlines()[1:]]
                segs = [(a, c) for p in paths for a, c in zip(p, p[1:])]
                crys = np.linalg.inv(lat.matrix).T
                bad = len(rows) != 3 * len(segs)
                for q, (a, c) in enumerate(segs if not bad else []):
                    x = np.linalg.norm((pts[c] - pts[a]) @ crys) / dens
                    n, s1, s2 = rows[3 * q:3 * q + 3]
                    ok = len(n) == 1 and n[0].isdigit() and (int(n[0]) == math.ceil(x) or abs(x - round(x)) < 1e-9) and s1[3:] == [a] and s2[3:] == [c]
                    ok = ok and np.allclose([float(y) for y in s1[:3]], pts[a], atol=6e-7) and np.allclose([float(y) for y in s2[:3]], pts[c], atol=6e-7)
                    bad = bad or not ok
                if bad:
                    b.bad('gen.kpt', dict(inp, text=open('gen.kpt').read()))
                b.ok((5000 + t,), dict(kind='k-path', segments=len(segs)))
            finally:
                os.chdir(cwd)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import sys
    import props.C18 as m
    sys.exit(main(m))
