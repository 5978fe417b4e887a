"""Adjacency matrix of the crystal graph (feature/graph/edge.py)."""
from vc.pylib import *
from vc.report import main
from props.pystruct import *
from props.C10 import scaling

ID = 'C14'
EDGE = 'matersdk/feature/graph/edge.py'
CL = 'AdjacentMatrix'
ASSUMPTIONS = ASSUMPTIONS + ['odd positive scaling factors (asserted by the constructor)', 'cutoff >= 0']
TRUSTED = TRUSTED + ['contract of pymatgen.core.Structure (props/pystruct.py)']


def world(it):
    n = nat(it, 'n', 1)
    L = [[R('L%d%d' % (i, k)) for k in range(3)] for i in range(3)]
    F = z3.Function('F', IntS, IntS, RealS)
    lat = lattice_obj(L)
    st = Obj('structure', dict(num_sites=n, lattice=lat, frac_coords=SArr((n, 3), lambda idx: F(*idx), 'f')))
    return st, n, L, F


def u_shift():
    def run(it, m):
        st, n, L, F = world(it)
        s, h = scaling(it)
        o = it.construct(m.get(it, CL), [st, R('rc'), PList(list(s))], {})
        r = it.method(o, '_get_shifted_supercell_frac_coords')
        tot = s[0] * s[1] * s[2]
        shape_is(it, 'shifted coordinates', r, (n, 3, tot))
        P, A, B, C = [N(q) for q in 'PABC']
        f = (A * s[1] + B) * s[2] + C
        it.gh.divhints += [(s[2], A * s[1] + B, C), (s[1], A, B)]
        with given(it, rng(P, n), rng(A, s[0]), rng(B, s[1]), rng(C, s[2])):
            it.lemmas += [z3.And(A * s[1] >= 0, A * s[1] + B < s[0] * s[1]), z3.And((A * s[1] + B) * s[2] >= 0, f < tot, f >= 0)]
            for k, t in enumerate((A - h[0], B - h[1], C - h[2])):
                it.check('component %d: atom P moved by minus the cell offset, cells in lexicographic order' % k,
                         r.get(P, k, f) == F(P, z3.IntVal(k)) - z3.ToReal(t))
    return unit('_get_shifted_supercell_frac_coords', EDGE, run, [CL + '.__init__', CL + '._get_shifted_supercell_frac_coords'], exact=False)


def u_adj():
    def run(it, m):
        st, n, L, F = world(it)
        T = nat(it, 'T', 1)
        G = z3.Function('G', IntS, IntS, IntS, RealS)
        rc = R('rc')
        it.contracts[CL + '._get_shifted_supercell_frac_coords'] = lambda it, self: SArr((n, 3, T), lambda idx: G(*idx), 'f')
        o = Obj(m.get(it, CL), dict(structure=st, rcut=rc, scaling_matrix=PList([N('s0'), N('s1'), N('s2')])))

        def D(i, j, t):
            v = [G(j, z3.IntVal(k), t) - F(i, z3.IntVal(k)) for k in range(3)]
            w = [sum(L[q][k] * v[q] for q in range(3)) for k in range(3)]
            return it.ctx.sqrt(sum(x * x for x in w))
        CNT, SEL = it.gh.pcount(2, T, lambda i, j, t: D(i, j, t) <= rc)
        r = it.method(o, 'get_adjacent_matrix')
        shape_is(it, 'adjacency matrix', r, (n, n))
        i, j = N('i'), N('j')
        with given(it, rng(i, n), rng(j, n)):
            with given(it, i <= j):
                it.check('entry (i,j), i <= j: translates of j within the cutoff of i, the atom itself not counted',
                         real(r.get(i, j)) == z3.ToReal(CNT(i, j, T)) - z3.If(i == j, z3.RealVal(1), z3.RealVal(0)))
            with given(it, i > j):
                it.check('entry (i,j), i > j: the same as (j,i)', real(r.get(i, j)) == z3.ToReal(CNT(j, i, T)))
    return unit('get_adjacent_matrix', EDGE, run, [CL + '.get_adjacent_matrix'], exact=False, abstract=True)


def u_sym():
    """the set of offsets is symmetric, so the count for (j,i) is the count for (i,j): reversing all offsets is a bijection
    that preserves the distance"""
    def run(ctx):
        it = Interp(ctx)
        s, h = scaling(it)
        A, B, C = [N(q) for q in 'ABC']
        L = [[R('L%d%d' % (i, k)) for k in range(3)] for i in range(3)]
        fi, fj = [R('fi%d' % k) for k in range(3)], [R('fj%d' % k) for k in range(3)]
        it.assume(z3.And(rng(A, s[0]), rng(B, s[1]), rng(C, s[2])))
        A2, B2, C2 = s[0] - 1 - A, s[1] - 1 - B, s[2] - 1 - C
        ctx.check('the reversed offset is again one of the cells', z3.And(rng(A2, s[0]), rng(B2, s[1]), rng(C2, s[2])), 'lemma')
        ctx.check('reversing twice gives the offset back', z3.And(s[0] - 1 - A2 == A, s[1] - 1 - B2 == B, s[2] - 1 - C2 == C), 'lemma')
        t = [z3.ToReal(x) for x in (A - h[0], B - h[1], C - h[2])]
        t2 = [z3.ToReal(x) for x in (A2 - h[0], B2 - h[1], C2 - h[2])]
        for k in range(3):
            ctx.check('opposite offset %d' % k, t2[k] == -t[k], 'lemma')
        u = [R('t%d' % k) for k in range(3)]
        d1 = [sum(L[q][k] * (fj[q] - u[q] - fi[q]) for q in range(3)) for k in range(3)]
        d2 = [sum(L[q][k] * (fi[q] + u[q] - fj[q]) for q in range(3)) for k in range(3)]
        ctx.check('the distance is the same', sum(x * x for x in d1) == sum(x * x for x in d2), 'lemma')
    return Unit('lemma: counting is symmetric', run, [], lemma=True)


def u_assert():
    def run(it, m):
        st, n, L, F = world(it)
        for k in range(3):
            for bad in (0, -1, -3, 2, 4):
                s = [1, 3, 5]
                s[k] = bad
                try:
                    it.construct(m.get(it, CL), [st, R('rc'), PList(s)], {})
                    ok = False
                except Raised as e:
                    ok = e.name == 'AssertionError'
                it.check('factor %d = %d is rejected' % (k, bad), ok)
    return unit('constructor rejects even and non-positive factors', EDGE, run, [CL + '.__init__'])


def units(tier):
    return [u_shift(), u_adj(), u_sym(), u_assert()]


BOUNDED_RULE = 'random cells of 1..4 atoms, odd scalings 1..5, cutoffs up to twice the cell; brute force over the translates; non-trivial: an entry above 1'


def bounded(b):
    import numpy as np
    from props.C10 import cell
    r = random.Random(b.seed)
    try:
        S = load('matersdk.io.publicLayer.structure').DStructure
        E = load('matersdk.feature.graph.edge').AdjacentMatrix
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    for t in range(120 if not b.thorough else 2000):
        lat, sp, fr = cell(r, 4)
        n = len(sp)
        sc = [r.choice((1, 3, 5)) for _ in range(3)]
        rc = r.uniform(.5, 9)
        exact = r.random() < .25        # dyadic numbers: distances of exactly rcut, in exact arithmetic
        if exact:
            lat, fr, rc = np.diag([r.choice([2., 4., 8.]) for _ in range(3)]), np.floor(fr * 4) / 4, float(r.randint(1, 8))
        inp = dict(lattice=lat.tolist(), species=sp, frac=fr.tolist(), scaling=sc, rcut=rc)
        h = [(q - 1) // 2 for q in sc]
        cells = np.array([(p, q, w) for p in range(-h[0], h[0] + 1) for q in range(-h[1], h[1] + 1) for w in range(-h[2], h[2] + 1)])
        D = np.linalg.norm((fr[None, :, None, :] + cells[None, None] - fr[:, None, None, :]) @ lat, axis=3)
        if not exact and np.abs(D - rc).min() < 1e-6:
            continue
        want = (D <= rc).sum(axis=2) - np.eye(n)
        st = S(lat, sp, fr)
        g = guard(b, 'get_adjacent_matrix', inp, lambda: E(structure=st, rcut=rc, scaling_matrix=sc).get_adjacent_matrix())
        if g is not None and (g.shape != want.shape or not np.array_equal(g, want)):
            b.bad('adjacency matrix', dict(inp, got=np.array(g).tolist(), want=want.tolist()))
        k = r.randrange(3)
        bad = list(sc)
        bad[k] = r.choice((0, 2, 4, -1))
        try:
            with limit(10):
                E(structure=st, rcut=rc, scaling_matrix=bad)
            b.bad('scaling %s is accepted' % bad, inp)
        except AssertionError:
            pass
        except Exception as e:
            b.bad('scaling %s: %r' % (bad, e), inp)
        b.ok((t,) if want.max() > 1 else None, dict(n=n, scaling=sc, rcut=rc))


if __name__ == '__main__':
    import sys
    import props.C14 as m
    sys.exit(main(m))
