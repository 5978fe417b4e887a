"""Queries and edits on DStructure (io/publicLayer/structure.py)."""
from vc.pylib import *
from vc.report import main
from props.pystruct import *

ID = 'C24'
CL = 'DStructure'
ASSUMPTIONS = ASSUMPTIONS + ['linearly independent lattice vectors']
TRUSTED = TRUSTED + ['contract of pymatgen.core.Structure (props/pystruct.py); remove_sites(indices) removes exactly those sites',
                     'collections.Counter counts equal elements; its sorted keys are the distinct elements in ascending order']
EPS = Fraction(1, 10 ** 10)


def _no():
    raise Unsupported('name of the vacancy species')


def coeffs(L, d):
    """u with u0*L0 + u1*L1 + u2*L2 = d (Cramer's rule)"""
    dt = det3(L)
    out = []
    for k in range(3):
        M = [list(r) for r in L]
        M[k] = list(d)
        out.append(det3(M) / dt)
    return out


def u_cramer():
    def run(ctx):
        it = Interp(ctx)
        L = [[R('L%d%d' % (i, k)) for k in range(3)] for i in range(3)]
        d = [R('d%d' % k) for k in range(3)]
        it.assume(det3(L) != 0)
        u = coeffs(L, d)
        for k in range(3):
            it.check('the coefficients reproduce the vector (component %d)' % k, sum(u[q] * L[q][k] for q in range(3)) == d[k], 'lemma')
    return Unit('lemma: fractional coefficients', run, [], lemma=True)


def u_site():
    """match(P): the displacement from atom P is a lattice vector up to 1e-10 in every fractional coefficient"""
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        it.assume(det3(L) != 0)
        c = [R('c%d' % k) for k in range(3)]
        u = [z3.Function('U%d' % k, IntS, RealS) for k in range(3)]
        inv = SArr((3, 3), lambda idx: z3.Function('INV', IntS, IntS, RealS)(*idx), 'f')
        seen = []

        def np_inv(it, a):
            seen.append(a)
            return inv
        it.ext['np.linalg.inv'] = np_inv
        r = it.method(o, 'get_site_index', SArr((3,), lambda idx: pick([c], (0, idx[0])), 'f'))
        r = num(r)
        it.check('one inverse', len({id(a) for a in seen}) >= 1)
        for a in seen[:1]:
            for i in range(3):
                for k in range(3):
                    it.check('of the transposed lattice (%d,%d)' % (i, k), a.get(i, k) == L[k][i])
        P = N('P')
        I = z3.Function('INV', IntS, IntS, RealS)
        ms = [z3.Int('m%d' % k) for k in range(3)]

        def coef(P, k):
            return sum(I(z3.IntVal(k), z3.IntVal(q)) * (c[q] - X(P, z3.IntVal(q))) for q in range(3))
        near = lambda P, ms: z3.And(*[z3.And(coef(P, k) - z3.ToReal(ms[k]) <= num(EPS), z3.ToReal(ms[k]) - coef(P, k) <= num(EPS)) for k in range(3)])
        it.check('0 or a 1-based atom index', z3.And(r >= 0, r <= n))
        rh = pynp.round_half_even
        a, q = R('a'), N('mq')

        def lem(a, q):
            return z3.Implies(z3.And(a - z3.ToReal(q) <= num(EPS), z3.ToReal(q) - a <= num(EPS)), rh(a) == q)
        it.check('rounding finds the integer within 1e-10', lem(a, q), 'lemma')
        with given(it, rng(P, n), near(P, ms)):
            it.lemmas += [lem(coef(P, k), ms[k]) for k in range(3)]
            it.check('an atom that is a lattice translate is found, and no later one instead', z3.And(r >= 1, r <= P + 1))
        with given(it, r >= 1):
            w = [z3.ToInt(coef(r - 1, k) + z3.RealVal('1/2')) for k in range(3)]
            w2 = [z3.ToInt(-coef(r - 1, k) + z3.RealVal('1/2')) for k in range(3)]
            for k in range(3):
                a = coef(r - 1, k)
                it.check('the atom found is a lattice translate (coefficient %d)' % k,
                         z3.Or(*[z3.And(a - z3.ToReal(q) <= num(EPS), z3.ToReal(q) - a <= num(EPS)) for q in (z3.ToInt(a), z3.ToInt(a) + 1)]))
    return unit('get_site_index', STRUCT, run, [CL + '.get_site_index'], exact=False, abstract=True)


def u_inv():
    """the inverse of the transposed lattice applied to d gives the fractional coefficients of d"""
    def run(it, m):
        L = [[R('L%d%d' % (i, k)) for k in range(3)] for i in range(3)]
        d = [R('d%d' % k) for k in range(3)]
        it.assume(det3(L) != 0)
        T = SArr((3, 3), lambda idx: pick([[L[k][i] for k in range(3)] for i in range(3)], idx), 'f')
        g = it.call(Ext('np.linalg.inv'), [T])
        u = coeffs(L, d)
        for k in range(3):
            it.check('coefficient %d' % k, sum(g.get(k, q) * d[q] for q in range(3)) == u[k], 'lemma')
    u = unit('lemma: inverse of the transposed lattice', STRUCT, run, [])
    u.lemma = True
    return u


def u_centroid():
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        r = it.method(o, 'get_centroid')
        shape_is(it, 'centroid', r, (3,))
        for k in range(3):
            s = it.gh.sum(n, lambda i: X(i, z3.IntVal(k)))[0](n)
            it.check('component %d is the mean' % k, r.get(k) == s / z3.ToReal(n))
    return unit('get_centroid', STRUCT, run, [CL + '.get_centroid'], exact=False)


def u_vacuum():
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        abc = [R('abc%d' % k) for k in range(3)]
        o.f['lattice'].hooks['abc'] = lambda it, o: tuple(abc)
        r = it.tolist(it.method(o, 'judge_vacuum_exist'))
        it.check('three directions', len(r) == 3)
        i, j = N('i'), N('j')
        for k in range(3):
            K = z3.IntVal(k)
            mx, mn = it.gh.maximum(n, lambda q: X(q, K)), it.gh.maximum(n, lambda q: -X(q, K))
            it.check('direction %d: box length minus extent above 10' % k, num(r[k]) == (abc[k] - (mx[0](n) + mn[0](n)) > 10))
    return unit('judge_vacuum_exist', STRUCT, run, [CL + '.judge_vacuum_exist'], exact=False)


def counter_ext(it, n, Z):
    nd = nat(it, 'ND', 1)
    KEY = z3.Function('KEY', IntS, IntS)

    def counter(it, lst):
        s = it.seq(lst)
        it.check('all sites are counted', num(s.n if isinstance(s, SSeq) else len(s)) == n)
        i = N('ci')
        with given(it, rng(i, n)):
            it.check('counted by atomic number', num(s.get(i)) == Z(i))
        keys = Obj('keys', {}, {'sorted': lambda it, o: PList(SSeq(nd, lambda k: KEY(k)))})
        c = Obj('counter', {}, {'sorted': keys.hooks['sorted'], 'getitem': lambda it, o, k: it.gh.count(n, lambda i: Z(i) == num(k))[0](n)})
        c.f['keys'] = Prim(lambda it, a, k: keys)
        return c
    it.ext['collections.Counter'] = counter
    return nd, KEY


def u_natoms(order):
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        nd, KEY = counter_ext(it, n, Z)
        if order:
            zs = [N('z%d' % k) for k in range(order)]
            r = it.method(o, 'get_natoms', PList(list(zs)))
            shape_is(it, 'counts', r, (order + 1,))
            it.check('entry 0: all atoms', num(r.get(0)) == n)
            for k in range(order):
                it.check('entry %d: atoms of species %d' % (k + 1, k), num(r.get(k + 1)) == it.gh.count(n, lambda i: Z(i) == zs[k])[0](n))
        else:
            r = it.method(o, 'get_natoms')
            shape_is(it, 'counts', r, (nd + 1,))
            it.check('entry 0: all atoms', num(r.get(0)) == n)
            k = N('k')
            with given(it, rng(k, nd)):
                CNT, _ = it.gh.pcount(1, n, lambda k, i: Z(i) == KEY(k))
                it.check('entry k+1: atoms of the k-th species in ascending atomic number', num(r.get(k + 1)) == CNT(k, n))
    return unit('get_natoms' + (', %d species in the order asked' % order if order else ', default order'), STRUCT, run, [CL + '.get_natoms'], exact=False)


def u_props():
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        FO = z3.Function('FO', IntS, IntS, RealS)
        EN = z3.Function('EN', IntS, IntS, RealS)
        o.f['sites'] = PList(SSeq(n, lambda i: Obj('site', dict(atomic_force=SArr((3,), lambda idx, i=i: FO(i, idx[0])),
                                                                atomic_energy=SArr((1,), lambda idx, i=i: EN(i, idx[0]))))))
        f = it.method(o, 'get_atomic_force')
        e = it.method(o, 'get_atomic_energy')
        shape_is(it, 'forces', f, (n, 3))
        shape_is(it, 'energies', e, (n,))
        i, k = N('i'), N('k')
        with given(it, rng(i, n), rng(k, 3)):
            it.check('force of site i', f.get(i, k) == FO(i, k))
            it.check('energy of site i', e.get(i) == EN(i, I0))
    return unit('get_atomic_force, get_atomic_energy', STRUCT, run, [CL + '.get_atomic_force', CL + '.get_atomic_energy'], exact=False)


def u_vac():
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        V = z3.Function('VAC', IntS, BoolS)
        sites = PList(SSeq(n, lambda i: Obj('site', dict(tag=i, specie=Obj('specie', {}, {'str': lambda it, o, i=i: SymStr(lambda k, c: k == 0 if c == 'X0+' else _no(), z3.If(V(i), z3.IntVal(0), z3.IntVal(1)))})))))
        o.f['sites'] = sites
        log = []

        def rem(it, a, k):
            log.append(k.get('indices', a[0] if a else None))
        o.f['remove_sites'] = Prim(rem)
        it.method(o, 'remove_vacanies')
        it.check('removed once', len(log) == 1)
        cnt, sel, _ = it.gh.count(n, lambda i: V(i))
        l = it.seq(log[0])
        it.check('as many as there are vacancies', num(l.n) == cnt(n))
        k, i = N('k'), N('i')
        with given(it, rng(k, cnt(n)), rng(i, n)):
            it.check('each index removed is a vacancy', z3.And(V(num(l.get(k))), rng(num(l.get(k)), n)))
            it.check('each vacancy is removed', z3.Implies(V(i), num(l.get(cnt(i))) == i))
        it.check('the site list is not touched otherwise', o.f['sites'] is sites)
    return unit('remove_vacanies', STRUCT, run, [CL + '.remove_vacanies'], exact=False)


def u_reformat(els):
    def run(it, m):
        from vc.elements import NUMBER
        o, n, Z, X, L, _ = base_input(it, m)
        q = z3.Int('za')
        it.assume(z3.ForAll([q], z3.Implies(rng(q, n), z3.And(Z(q) >= 1, Z(q) <= 118))))
        FR = z3.Function('FR', IntS, IntS, RealS)
        MG = z3.Function('MG', IntS, RealS)
        o.f['sites'] = PList(SSeq(n, lambda i: Obj('site', dict(specie=specie_obj(Z(i)), tag=i, magmom=MG(i),
                                                                frac_coords=SArr((3,), lambda idx, i=i: FR(i, idx[0]))))))
        out = []
        it.contracts['DStructure'] = ctor(m, out)
        r = it.method(o, 'reformat_elements', PList(list(els)))
        it.check('a new structure', r is not o and len(out) == 1)
        g = r.f['lattice'].f['matrix']
        for i in range(3):
            for k in range(3):
                it.check('lattice kept (%d,%d)' % (i, k), g.get(i, k) == L[i][k])
        off = I0
        s, k = N('s'), N('k')
        sp = it.seq(it.getattr(r, 'species'))
        fr = it.getattr(r, 'frac_coords')
        mg = it.seq(r.f['_props'].val['magmom'])
        for e in els:
            cnt, sel, _ = it.gh.count(n, lambda i: Z(i) == NUMBER[e])
            with given(it, rng(s, cnt(n)), rng(k, 3)):
                it.check('%s block: species' % e, num(sp.get(off + s).f['Z']) == NUMBER[e])
                it.check('%s block: coordinates of the s-th %s atom' % (e, e), fr.get(off + s, k) == FR(sel(s), k))
                it.check('%s block: magnetic moment' % e, real(mg.get(off + s)) == MG(sel(s)))
            off = off + cnt(n)
        it.check('number of sites', num(it.getattr(r, 'num_sites')) == off)
    return unit('reformat_elements ' + ' '.join(els), STRUCT, run, [CL + '.reformat_elements'], exact=False, timeout=120)


def units(tier):
    return [u_site(), u_inv(), u_cramer(), u_centroid(), u_vacuum(), u_natoms(0), u_natoms(1), u_natoms(2), u_natoms(3), u_props(), u_vac(),
            u_reformat(['O']), u_reformat(['Si', 'Li']), u_reformat(['Re', 'Nb', 'S'])]


BOUNDED_RULE = 'random cells of 1..6 atoms of 1..4 species; every atom moved by random lattice vectors and by random non-lattice vectors; random vacancies, forces, energies, moments; non-trivial: more than one species'
BOUNDED_ONLY = ['reformat_elements and get_natoms for more than 3 listed elements']


def bounded(b):
    import numpy as np
    from vc.elements import NUMBER
    from props.C10 import cell
    r = random.Random(b.seed)
    try:
        S = load('matersdk.io.publicLayer.structure').DStructure
        from pymatgen.core import DummySpecies
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    for t in range(150 if not b.thorough else 4000):
        lat, sp, fr = cell(r, 6, 4)
        n = len(sp)
        if any(np.abs((fr[i] - fr[j]) - np.round(fr[i] - fr[j])).max() < 1e-6 for i in range(n) for j in range(i)):
            continue
        if r.random() < .3:
            lat = lat * r.choice([1, 4, 6])
        exact = r.random() < .2         # dyadic numbers: free lengths of exactly 10, in exact arithmetic
        if exact:
            lat = np.diag([r.choice([8., 16., 16., 32.]) for _ in range(3)])
            fr = np.array([[r.choice([0, 6, 6, 3, 2, 1, 22]) % int(lat[k, k]) / lat[k, k] for k in range(3)] for _ in range(n)])
            if any(np.abs((fr[i] - fr[j]) - np.round(fr[i] - fr[j])).max() < 1e-6 for i in range(n) for j in range(i)):
                continue
        x = fr @ lat
        inp = dict(lattice=lat.tolist(), species=sp, frac=fr.tolist())
        mg = [round(r.uniform(-5, 5), 3) for _ in range(n)]
        fo, en = np.array([[r.uniform(-1, 1) for _ in range(3)] for _ in range(n)]), np.array([[r.uniform(-1, 1)] for _ in range(n)])
        st = S(lat, sp, fr, site_properties=dict(magmom=mg, atomic_force=fo.tolist(), atomic_energy=en.tolist()))
        for q in range(4):
            i = r.randrange(n)
            off = np.array([r.randint(-3, 3) for _ in range(3)])
            c = x[i] + off @ lat
            g = guard(b, 'get_site_index', inp, lambda: st.get_site_index(c))
            if g is not None and g != i + 1:
                b.bad('get_site_index of atom %d moved by %s: %s' % (i, off.tolist(), g), inp)
            u = np.array([r.choice([0, 0, .5, r.uniform(.01, .99), 1e-3, -1e-4]) for _ in range(3)])
            y = fr[i] + u + off
            if all(np.abs((y - fr[j]) - np.round(y - fr[j])).max() > 1e-6 for j in range(n)):
                g = guard(b, 'get_site_index', inp, lambda: st.get_site_index(y @ lat))
                if g is not None and g != 0:
                    b.bad('get_site_index of a place without atom: %s' % g, dict(inp, at=y.tolist()))
        g = guard(b, 'get_centroid', inp, lambda: st.get_centroid())
        if g is not None and not np.allclose(g, x.mean(axis=0)):
            b.bad('get_centroid', inp)
        g = guard(b, 'judge_vacuum_exist', inp, lambda: st.judge_vacuum_exist())
        v = [float(np.linalg.norm(lat[k]) - (x[:, k].max() - x[:, k].min())) for k in range(3)]
        if g is not None and (len(g) != 3 or any(bool(a) != (w > 10) for a, w in zip(g, v) if exact or abs(w - 10) > 1e-9)):
            b.bad('judge_vacuum_exist', inp)
        zs = [NUMBER[q] for q in sp]
        g = guard(b, 'get_natoms', inp, lambda: st.get_natoms())
        if g is not None and [int(q) for q in g] != [n] + [zs.count(z) for z in sorted(set(zs))]:
            b.bad('get_natoms', dict(inp, got=str(g)))
        od = r.sample(sorted(set(zs)) + [99], len(set(zs)))
        g = guard(b, 'get_natoms with order', inp, lambda: st.get_natoms(od))
        if g is not None and [int(q) for q in g] != [n] + [zs.count(z) for z in od]:
            b.bad('get_natoms(%s)' % od, dict(inp, got=str(g)))
        g = guard(b, 'get_atomic_force', inp, lambda: (st.get_atomic_force(), st.get_atomic_energy()))
        if g is not None and (not np.allclose(g[0], fo) or not np.allclose(g[1], en[:, 0])):
            b.bad('get_atomic_force / get_atomic_energy', inp)
        els = r.sample(sorted(set(sp)), len(set(sp)))
        if r.random() < .3:
            els = els[:r.randint(1, len(els))]
        g = guard(b, 'reformat_elements', inp, lambda: st.reformat_elements(els))
        o = [i for e in els for i in range(n) if sp[i] == e]
        if g is not None and ([str(q) for q in g.species] != [sp[i] for i in o] or not np.allclose(g.frac_coords, fr[o]) or
                              not np.allclose(g.lattice.matrix, lat) or list(g.site_properties['magmom']) != [mg[i] for i in o]):
            b.bad('reformat_elements(%s)' % els, inp)
        vac = sorted(r.sample(range(n), r.randint(0, n - 1)))
        sv = S(lat, [DummySpecies('X', 0) if i in vac else sp[i] for i in range(n)], fr)
        g = guard(b, 'remove_vacanies', inp, lambda: (sv.remove_vacanies(), 1))
        left = [i for i in range(n) if i not in vac]
        if g is not None and ([str(q) for q in sv.species] != [sp[i] for i in left] or not np.allclose(sv.frac_coords, fr[left])):
            b.bad('remove_vacanies, vacancies %s' % vac, inp)
        if not np.allclose(st.cart_coords, x) or [str(q) for q in st.species] != sp:
            b.bad('a query changed the structure', inp)
        b.ok((t,) if len(set(sp)) > 1 else None, dict(species=sp, vacancies=vac))


if __name__ == '__main__':
    import sys
    import props.C24 as m
    sys.exit(main(m))
