"""Python structures: supercell expansion, ordering by species, index bookkeeping of the original cell (io/publicLayer/structure.py)."""
from vc.pylib import *
from vc.report import main
from props.pystruct import *

ID = 'C10'
ASSUMPTIONS = ASSUMPTIONS + ['odd scaling factors (documented requirement)', 'pymatgen.core.Structure keeps species and coordinates in the order given and computes cart_coords/frac_coords from them']
TRUSTED = TRUSTED + ['contract of pymatgen.core.Structure (props/pystruct.py)', 'list.sort and sorted are stable sorts']
CL = 'DStructure'


def scaling(it):
    s, h = [N('s%d' % k) for k in range(3)], [N('h%d' % k) for k in range(3)]
    for a, b in zip(s, h):
        it.assume(z3.And(b >= 0, a == 2 * b + 1))
    return s, h


def translate(X, L, P, t, k):
    e = X(P, z3.IntVal(k))
    for q in range(3):
        e = e + z3.ToReal(t[q]) * L[q][k]
    return e


def ghosts(it, s, h):
    """flat position of the unmoved cell, and the selection of the moved ones"""
    tot = s[0] * s[1] * s[2]
    return tot


def u_super():
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        s, h = scaling(it)
        out = []
        it.contracts['DStructure'] = ctor(m, out)
        mid = (h[0] * s[1] + h[1]) * s[2] + h[2]
        it.gh.divhints += [(s[2], h[0] * s[1] + h[1], h[2]), (s[1], h[0], h[1])]
        it.gh.candidates.append(lambda J: J != mid)
        r = it.method(o, 'make_supercell_', PList(list(s)), False)
        tot = s[0] * s[1] * s[2]
        it.check('number of sites', num(it.getattr(r, 'num_sites')) == n * tot)
        g = r.f['lattice'].f['matrix']
        for i in range(3):
            for k in range(3):
                it.check('lattice vector %d component %d' % (i, k), g.get(i, k) == z3.ToReal(s[i]) * L[i][k])
        P = N('P')
        with given(it, rng(P, n)):
            cc = it.getattr(r, 'cart_coords')
            for k in range(3):
                it.check('the first n sites are the unmoved cell (component %d)' % k, cc.get(P, k) == X(P, z3.IntVal(k)))
    return unit('make_supercell_ without sorting', STRUCT, run, [CL + '.make_supercell_'], exact=False, timeout=300)



def sites_post(it, r, n, Z, X, L, s, h, perm=None):
    """sites of the (unsorted) supercell: unmoved cell first, then every other translate once, lexicographic"""
    A, B, C, P = [N(q) for q in 'ABCP']
    mid = (h[0] * s[1] + h[1]) * s[2] + h[2]
    f = (A * s[1] + B) * s[2] + C
    tot = s[0] * s[1] * s[2]
    with given(it, rng(A, s[0]), rng(B, s[1]), rng(C, s[2]), rng(P, n)):
        it.gh.divhints += [(s[2], A * s[1] + B, C), (s[1], A, B)]
        it.lemmas += [z3.And(A * s[1] >= 0, A * s[1] + B < s[0] * s[1]), z3.And((A * s[1] + B) * s[2] >= 0, f < tot, f >= 0)]
        pos = z3.If(f == mid, I0, z3.If(f < mid, f + 1, f))
        cc = it.getattr(r, 'cart_coords')
        sp = it.getattr(r, 'species')
        for case, c, p in (('unmoved cell', f == mid, I0), ('cell before the unmoved one', f < mid, f + 1), ('cell after the unmoved one', f > mid, f)):
            same = [A == h[0], B == h[1], C == h[2]] if case == 'unmoved cell' else []
            if same:
                q, q2 = A * s[1] + B, h[0] * s[1] + h[1]
                with given(it, c, z3.Implies(s[2] * q + C == s[2] * q2 + h[2], z3.And(q == q2, C == h[2])),
                           z3.Implies(s[1] * A + B == s[1] * h[0] + h[1], z3.And(A == h[0], B == h[1]))):
                    it.check('the place of the unmoved cell belongs to it alone', z3.And(*same))
            with given(it, c, *same):
                it.check('%s: place in range' % case, rng(p, tot))
                for k in range(3):
                    it.check('%s: atom P moved by whole lattice vectors (component %d)' % (case, k),
                             cc.get(p * n + P, k) == translate(X, L, P, [A - h[0], B - h[1], C - h[2]], k))
                it.check('%s: species of atom P' % case, it.seq(sp).get(p * n + P).f['Z'] == Z(P))


def u_places():
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        s, h = scaling(it)
        it.contracts['DStructure'] = ctor(m)
        mid = (h[0] * s[1] + h[1]) * s[2] + h[2]
        it.gh.divhints += [(s[2], h[0] * s[1] + h[1], h[2]), (s[1], h[0], h[1])]
        it.gh.candidates.append(lambda J: J != mid)
        r = it.method(o, 'make_supercell_', PList(list(s)), False)
        sites_post(it, r, n, Z, X, L, s, h)
    return unit('make_supercell_: every translate of every atom', STRUCT, run, [CL + '.make_supercell_'], exact=False, timeout=300)


def sorted_spec(it, n, Z):
    return it.gh.perm(n, lambda i: Z(i), True)[:2]


def u_reformat():
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        it.assume(z3.ForAll([z3.Int('za')], z3.Implies(rng(z3.Int('za'), n), z3.And(Z(z3.Int('za')) >= 1, Z(z3.Int('za')) <= 118))))
        PERM, INV = sorted_spec(it, n, Z)
        it.method(o, 'reformat_elements_')
        k, j = N('k'), N('j')
        sts = it.seq(o.f['sites'])
        it.check('number of sites', num(sts.n) == n)
        with given(it, rng(k, n), rng(j, n)):
            it.check('site k is original site PERM(k) (stable order by atomic number)', sts.get(k).f['tag'] == PERM(k))
            cc = it.getattr(o, 'cart_coords')
            for q in range(3):
                it.check('its coordinates move along (component %d)' % q, cc.get(k, q) == X(PERM(k), z3.IntVal(q)))
            it.check('its species moves along', it.seq(it.getattr(o, 'species')).get(k).f['Z'] == Z(PERM(k)))
            it.check('ascending atomic numbers', z3.Implies(k < j, Z(PERM(k)) <= Z(PERM(j))))
            it.check('no site lost or doubled', z3.And(rng(INV(k), n), PERM(INV(k)) == k, z3.Implies(PERM(k) == PERM(j), k == j)))
    return unit('reformat_elements_', STRUCT, run, [CL + '.reformat_elements_'], exact=False, timeout=120)


def u_mark():
    """make_supercell_(reformat_mark=True) sorts the expanded structure, and only then"""
    def run(it, m):
        for mark in (True, False, None):
            o, n, Z, X, L, _ = base_input(it, m)
            s, h = scaling(it)
            mid = (h[0] * s[1] + h[1]) * s[2] + h[2]
            it.gh.divhints += [(s[2], h[0] * s[1] + h[1], h[2]), (s[1], h[0], h[1])]
            it.gh.candidates = [lambda J: J != mid]
            calls, out = [], []
            it.contracts['DStructure'] = ctor(m, out)
            it.contracts['DStructure.reformat_elements_'] = lambda it, self: calls.append(self)
            r = it.method(o, 'make_supercell_', PList(list(s)), *([] if mark is None else [mark]))
            it.check('mark %s: returns the new structure, sorted iff asked (sorted by default)' % mark,
                     len(out) == 1 and r is out[0] and (len(calls) == (0 if mark is False else 1)) and all(c is r for c in calls))
    return unit('make_supercell_: sorting on request', STRUCT, run, [CL + '.make_supercell_'], exact=False, timeout=300)


def u_key():
    def run(it, m):
        o, n, Z, X, L, _ = base_input(it, m)
        s, h = scaling(it)
        S = N('S')
        it.assume(S >= n)
        ZS = z3.Function('ZS', IntS, IntS)
        XS = z3.Function('XS', IntS, IntS, RealS)
        q = z3.Int('zq')
        it.assume(z3.ForAll([q], z3.Implies(rng(q, S), z3.And(ZS(q) >= 1, ZS(q) <= 118))))
        asked = []

        def con(it, self, scaling_matrix, reformat_mark=True):
            asked.append((scaling_matrix, reformat_mark))
            return structure(it, m, S, lambda i: ZS(i), lambda i, k: XS(i, k), L)
        it.contracts['DStructure.make_supercell_'] = con
        sm = PList(list(s))
        PERM, INV = it.gh.perm(S, lambda i: ZS(i), True)[:2]
        r = it.method(o, 'get_key_idxs', sm)
        it.check('the unsorted supercell of the same scaling is used', len(asked) == 1 and asked[0][0] is sm and asked[0][1] is False)
        shape_is(it, 'key indices', r, (n,))
        a, b, i = N('a'), N('b'), N('i')
        P2, I2 = it.gh.perm(n, lambda i: INV(i), True)[:2]
        with given(it, rng(a, n), rng(b, n), rng(i, n)):
            it.check('each key index is the place of an unmoved atom in the sorted supercell', z3.And(r.get(a) == INV(P2(a)), rng(P2(a), n)))
            it.check('each unmoved atom has a key index', z3.And(rng(I2(i), n), r.get(I2(i)) == INV(i)))
            it.check('ascending, no repetition', z3.Implies(a < b, r.get(a) < r.get(b)))
    return unit('get_key_idxs', STRUCT, run, [CL + '.get_key_idxs', CL + '._get_bidx2aidx_supercell'], exact=False, timeout=200)


def u_radix():
    def run(ctx):
        it = Interp(ctx)
        q, r, q2, r2, n, p = [N(x) for x in ('q', 'r', 'q2', 'r2', 'n', 'p')]
        it.assume(z3.And(rng(r, n), rng(r2, n)))
        d = N('d')
        it.check('division is unique', z3.Implies(n * q + r == n * q2 + r2, z3.And(q == q2, r == r2)), 'lemma')
        it.check('flat index inside the product', z3.Implies(rng(q, p), z3.And(q * n >= 0, q * n + r < p * n, q * n + r >= 0)), 'lemma')
    return Unit('lemma: mixed radix', run, [], lemma=True)


def units(tier):
    return [u_super(), u_places(), u_reformat(), u_mark(), u_key(), u_radix()]

BOUNDED_RULE = 'random triclinic cells with 1..5 atoms of 1..3 species in random order, odd scalings 1..5 per axis; non-trivial: more than one cell and more than one species'


def cell(r, nmax=5, spmax=3):
    import numpy as np
    n = r.randint(1, nmax)
    sp = r.sample(['H', 'Li', 'C', 'O', 'Si', 'S', 'Mo', 'W', 'Pb', 'Al', 'Nb', 'Re', 'Xe', 'Se'], r.randint(1, spmax))
    lat = np.array([[r.uniform(-1, 1) + (r.uniform(3, 6) if i == k else 0) for k in range(3)] for i in range(3)])
    fr = np.array([[r.choice([0., .25, .5, r.random()]) if r.random() < .3 else r.random() for _ in range(3)] for _ in range(n)])
    if r.random() < .25:
        fr = fr + np.array([[r.choice([-1, 0, 0, 0, 1, 2]) for _ in range(3)] for _ in range(n)])
    if r.random() < .1:
        lat, fr = np.diag([r.choice([2., 4., 8., 16.]) for _ in range(3)]), np.floor(fr * 4) / 4
    return lat, [r.choice(sp) for _ in range(n)], fr


def bounded(b):
    import numpy as np
    from vc.elements import NUMBER
    r = random.Random(b.seed)
    try:
        S = load('matersdk.io.publicLayer.structure').DStructure
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    for t in range(150 if not b.thorough else 3000):
        lat, sp, fr = cell(r)
        n = len(sp)
        sc = [r.choice((1, 1, 3, 3, 5)) for _ in range(3)]
        inp = dict(lattice=lat.tolist(), species=sp, frac=fr.tolist(), scaling=sc)
        st = S(lat, sp, fr)
        x = fr @ lat
        for mark in (False, True):
            u = guard(b, 'make_supercell_', inp, lambda: st.make_supercell_(scaling_matrix=sc, reformat_mark=mark))
            if u is None:
                continue
            h = [(q - 1) // 2 for q in sc]
            cells = [(0, 0, 0)] + [c for c in ((p, q, w) for p in range(-h[0], h[0] + 1) for q in range(-h[1], h[1] + 1) for w in range(-h[2], h[2] + 1)) if c != (0, 0, 0)]
            want = [(NUMBER[sp[i]], x[i] + np.array(c) @ lat) for c in cells for i in range(n)]
            if mark:
                order = sorted(range(len(want)), key=lambda q: want[q][0])
                place = {q: k for k, q in enumerate(order)}
                want = [want[q] for q in order]
            zs = [int(q.Z) for q in u.species]
            if zs != [w[0] for w in want] or not np.allclose(u.cart_coords, np.array([w[1] for w in want]), atol=1e-8) or \
                    not np.allclose(u.lattice.matrix, np.array(sc)[:, None] * lat):
                b.bad('supercell (sorted=%s)' % mark, inp)
        k = guard(b, 'get_key_idxs', inp, lambda: st.get_key_idxs(scaling_matrix=sc))
        if k is not None and [int(q) for q in k] != sorted(place[i] for i in range(n)):
            b.bad('get_key_idxs', dict(inp, got=[int(q) for q in k], want=sorted(place[i] for i in range(n))))
        if not np.allclose(st.cart_coords, x) or [str(q) for q in st.species] != sp:
            b.bad('the original structure was changed', inp)
        q = st.copy()
        if guard(b, 'reformat_elements_', inp, lambda: (q.reformat_elements_(), 1)):
            o = sorted(range(n), key=lambda i: NUMBER[sp[i]])
            if [str(v) for v in q.species] != [sp[i] for i in o] or not np.allclose(q.cart_coords, x[o]):
                b.bad('reformat_elements_', inp)
        b.ok((n, tuple(sc), t) if max(sc) > 1 and len(set(sp)) > 1 else None, dict(n=n, scaling=sc, species=sp))


if __name__ == '__main__':
    import sys
    import props.C10 as m
    sys.exit(main(m))
