"""REPORT and OUT.FERMI: eigen energies, metal test, band edges, gap (io/pwmat/output/report.py, outfermi.py)."""
from vc.pylib import *
from vc.report import main
from vc import pytext
from vc.pytext import Src, located

ID = 'C19'
RP, OF = 'matersdk/io/pwmat/output/report.py', 'matersdk/io/pwmat/output/outfermi.py'
ASSUMPTIONS = ASSUMPTIONS + ['REPORT lists the eigen energies of a k-point on the lines after its heading, five to a line']
TRUSTED = TRUSTED + ['vc/pytext.py: open, readline, readlines, substring test, str.split']


def u_fermi():
    def run(it, m):
        s, T = Src('F'), nat(it, 'T', 1)
        pytext.install(it, s, T, 'PATH')
        it.assume(s.NT(I0) >= 2)
        r = real(it.method(it.call(m.get(it, 'OutFermi'), ['PATH']), 'get_efermi'))
        v = s.FLT(I0, s.NT(I0) - 2)
        h = z3.RealVal('1/2000')
        it.check('Fermi level: the last word but one of line 1, to 3 decimals', z3.And(r - v <= h, v - r <= h))
        it.check('a multiple of 0.001', z3.IsInt(r * 1000))
    return unit('OutFermi.get_efermi', OF, run, ['OutFermi.get_efermi'], exact=False)


def u_search():
    def run(it, m):
        s, T = Src('R'), nat(it, 'T')
        pytext.install(it, s, T, 'PATH')
        o = it.call(m.get(it, 'Report'), ['PATH'])
        r = it.seq(it.method(o, '_search_aim', 'CONTENT'))
        cnt, sel = located(it, s, T, 'CONTENT', True)
        it.check('as many as there are lines with the content', num(r.n) == cnt)
        k = N('k')
        with given(it, rng(k, cnt)):
            it.check('k-th line with the content, counted from 1', num(r.get(k)) == sel(k) + 1)
    return unit('Report._search_aim', RP, run, ['Report._search_aim', 'Report.__init__'], exact=False)


def report(it, m, need=(), lineof=None):
    s, T = Src('R'), nat(it, 'T')
    pytext.install(it, s, T, 'PATH')

    def search(it, o, aim_content=None):
        cnt, sel = located(it, s, T, aim_content, True)
        return PList(SSeq(cnt, lambda k: sel(num(k)) + 1))
    it.contracts['Report._search_aim'] = search
    for c in need:
        cnt, sel = located(it, s, T, c, True)
        it.assume(z3.And(cnt >= 1, rng(sel(I0), T), s.NT(sel(I0)) >= 1))
    return s, T, it.call(m.get(it, 'Report'), ['PATH'])


def u_counts():
    def run(it, m):
        s, T, o = report(it, m, ('NUM_BAND', 'NUM_KPT', 'IN.ATOM'))
        for f, c in (('get_num_bands', 'NUM_BAND'), ('get_num_kpts', 'NUM_KPT')):
            cnt, sel = located(it, s, T, c, True)
            it.check('%s: last number of the first line with %s' % (f, c), num(it.method(o, f)) == s.INT(sel(I0), s.NT(sel(I0)) - 1))
        cnt, sel = located(it, s, T, 'IN.ATOM', True)
        t = it.method(o, 'get_in_atom')
        it.check('get_in_atom: last word of the first line with IN.ATOM', z3.And(t.f['i'] == sel(I0), t.f['k'] == s.NT(sel(I0)) - 1) if t.cls == 'token' else False)
    return unit('Report: counts and structure file', RP, run, ['Report.get_num_bands', 'Report.get_num_kpts', 'Report.get_in_atom'], exact=False)


def u_eigen(nb, spin):
    def run(it, m):
        K = nat(it, 'K', 1)
        s, T, o = report(it, m)
        it.contracts['Report.get_num_bands'] = lambda it, o: nb
        it.contracts['Report.get_num_kpts'] = lambda it, o: K
        cnt, sel = located(it, s, T, 'eigen energies, in eV', True)
        it.assume(cnt == (2 * K if spin else K))
        nl = -(-nb // 5)
        size = [min(5, nb - 5 * j) for j in range(nl)]
        key = sel(I0).decl()
        it.gh.schemas.append((key, lambda q: z3.Implies(rng(q, cnt), z3.And(sel(q) >= 0, sel(q) + 1 + nl <= T, *[s.NT(sel(q) + 1 + j) == size[j] for j in range(nl)]))))
        d = it.method(o, 'get_eigen_energies').val
        it.check('two spin channels', list(d) == ['up', 'down'])
        k = N('k')
        for sp, off in (('up', I0), ('down', K)):
            a = d[sp]
            if sp == 'down' and not spin:
                it.check('no second channel without spin', num(a.shape[0]) == 0)
                continue
            shape_is(it, sp, a, (K, nb))
            with given(it, rng(k, K)):
                for b in range(nb):
                    it.check('%s: energy %d of k-point k' % (sp, b), a.get(k, b) == s.FLT(sel(k + off) + 1 + b // 5, b % 5))
    return unit('Report.get_eigen_energies, %d bands%s' % (nb, ', spin' if spin else ''), RP, run, ['Report.get_eigen_energies'], exact=False, timeout=120)


def bands(it, m, spin, nb, K=None):
    K, Bn = K or nat(it, 'K', 1), nb
    up, dn = z3.Function('UP', IntS, IntS, RealS), z3.Function('DN', IntS, IntS, RealS)
    arr = lambda f: SArr((K, Bn), lambda idx: f(*idx), 'f')
    d = PDict({'up': arr(up), 'down': arr(dn) if spin else SArr((0,), lambda idx: z3.RealVal(0), 'f')})
    it.contracts['Report.get_eigen_energies'] = lambda it, o: d
    ef = z3.Real('efermi')
    asked = []
    it.contracts['OutFermi'] = lambda it, out_fermi_path=None: (asked.append(out_fermi_path), Obj('fermi', {}, {'get_efermi': lambda it, o: Prim(lambda it, a, k: ef)}))[1]
    it.ext['os.path.exists'] = lambda it, p: True
    return Obj(m.get(it, 'Report'), dict(report_path='PATH')), K, Bn, [up] + ([dn] if spin else []), ef, asked


def u_metal(nb, spin):
    def run(it, m):
        o, K, Bn, fs, ef, asked = bands(it, m, spin, nb)
        tol = z3.Real('tol')
        it.assume(tol >= 0)
        r = boolean(it.method(o, '_is_metal', 'FERMI', tol))
        it.check('Fermi level of the file given', set(asked) == {'FERMI'})
        k, l = N('k'), N('l')
        cs = []
        for f in fs:
            for b in range(nb):
                b = z3.IntVal(b)
                lo = it.gh.count(K, lambda q: f(q, b) - ef < -tol)
                hi = it.gh.count(K, lambda q: f(q, b) - ef > tol)
                x, y, u, v = lo[0](K), hi[0](K), lo[1](I0), hi[1](I0)
                with given(it, rng(k, K), rng(l, K), f(k, b) < ef - tol, f(l, b) > ef + tol):
                    it.check('lemma: there is an energy below', z3.And(x > 0, k == k), 'lemma')
                    it.check('lemma: there is an energy above', z3.And(y > 0, l == l), 'lemma')
                    with given(it, x > 0, y > 0):
                        it.check('a band on both sides of the Fermi level: metal', r)
                cs.append(z3.And(rng(u, K), rng(v, K), f(u, b) < ef - tol, f(v, b) > ef + tol))
        it.check('metal: some band has energies on both sides of the Fermi level', z3.Implies(r, z3.Or(*cs)))
    return unit('Report._is_metal, %d bands%s' % (nb, ', spin' if spin else ''), RP, run, ['Report._is_metal'], exact=False)


def u_edge(K, nb, spin, cbm):
    name = 'get_cbm' if cbm else 'get_vbm'

    def run(it, m):
        from vc.pynp import INF
        o, _, _, fs, ef, asked = bands(it, m, spin, nb, K)
        metal = z3.Bool('metal')
        tasked = []
        it.contracts['Report._is_metal'] = lambda it, o, out_fermi_path=None, efermi_tol=None: (tasked.append(out_fermi_path), metal)[1]
        # energies of the file have four decimals; there is a state on this side of the Fermi level
        st = [(i, f, k, q, f(k, q)) for i, f in enumerate(fs) for k in range(K) for q in range(nb)]
        for _, f, k, q, e in st:
            it.assume(z3.And(e < INF, -e < INF))
            it.assume(z3.IsInt(e * 10000))
        side = (lambda e: e >= ef) if cbm else (lambda e: e <= ef)
        beats = (lambda a, b: a < b) if cbm else (lambda a, b: a > b)
        it.assume(z3.Or(*[side(e) for *_, e in st]))
        r = it.method(o, name, 'FERMI')
        it.check('metal test with the file given', set(tasked) <= {'FERMI'} and len(tasked) > 0)
        if r is None:
            it.check('None only for a metal', metal)
            return
        it.check('a metal has no band edge', z3.Not(metal))
        it.check('Fermi level of the file given', set(asked) <= {'FERMI'})
        d = r.val
        es, ks, bs, ss = [list(d[x].val) for x in ('energies', 'kpts', 'bands', 'spins')]
        it.check('lists of one length', len(es) == len(ks) == len(bs) == len(ss) and len(es) >= 1)
        conc = lambda x: int(str(z3.simplify(num(x))))
        found = [(('up', 'down').index(s_), conc(k) - 1, conc(b) - 1) for s_, k, b in zip(ss, ks, bs)]
        val = {(i, k, q): e for i, f, k, q, e in st}
        it.check('spins, k-points, bands of the file', all(x in val for x in found))
        e0 = val[found[0]]
        it.check('the edge is a state on its side of the Fermi level', side(e0))
        near, first, same = [], [], []
        for (i, k, q), e in val.items():
            near.append(z3.Implies(side(e), z3.Not(beats(e, e0))))
            if (i, k, q) < found[0]:
                first.append(z3.Implies(side(e), e != e0))
            if k == found[0][1] and (i, k, q) != found[0]:
                same.append(((i, k, q) in found) == z3.And(e - e0 < z3.RealVal('1/1000'), e0 - e < z3.RealVal('1/1000')))
        it.check('no state on this side is closer to the gap', z3.And(*near))
        it.check('the first such state', z3.And(*first))
        it.check('listed if and only if within 0.001 at the same k-point', z3.And(*same))
        it.check('no other k-point, nothing twice', all(k == found[0][1] for _, k, _ in found) and len(set(found)) == len(found))
        it.check('energy of the edge', z3.And(*[real(e) == e0 for e in es]))
    return unit('Report.%s, %d k-points, %d bands%s' % (name, K, nb, ', spin' if spin else ''), RP, run, ['Report.%s' % name], exact=False, timeout=120)


def u_gap():
    def run(it, m):
        o = Obj(m.get(it, 'Report'), dict(report_path='PATH'))
        c, v = z3.Real('cbm'), z3.Real('vbm')
        asked = []
        edge = lambda e: lambda it, o, out_fermi_path=None: (asked.append(out_fermi_path), PDict({'energies': PList([e, e]), 'kpts': PList([3, 3]), 'bands': PList([1, 2]), 'spins': PList(['up', 'up'])}))[1]
        it.contracts['Report.get_cbm'], it.contracts['Report.get_vbm'] = edge(c), edge(v)
        it.check('gap: conduction edge minus valence edge', real(it.method(o, 'get_bandgap', 'FERMI')) == c - v)
        it.check('Fermi level of the file given', set(asked) == {'FERMI'})
    return unit('Report.get_bandgap', RP, run, ['Report.get_bandgap'], exact=False)


def units(tier):
    return [u_fermi(), u_search(), u_counts(), u_gap()] + [u_eigen(nb, sp) for nb in (1, 4, 5, 6, 12) for sp in (False, True)] + [u_metal(1, False), u_metal(2, False), u_metal(1, True)] + [u_edge(K, nb, sp, c) for K, nb, sp in ((2, 2, False), (3, 1, False), (1, 1, True), (2, 1, True)) for c in (True, False)]


BOUNDED_RULE = 'random REPORT and OUT.FERMI files, rewritten in place: 1-7 k-points, 2-13 bands, with and without spin, metals and semiconductors, degenerate band edges, Fermi level inside the gap or on a band edge'
BOUNDED_ONLY = ['Report.get_bandgap_type', 'band edges of more than two k-points and two bands']


def bounded(b):
    import tempfile, shutil, os, random
    r = random.Random(b.seed)
    try:
        R = load('matersdk.io.pwmat.output.report').Report
        F = load('matersdk.io.pwmat.output.outfermi').OutFermi
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    d = tempfile.mkdtemp(prefix='c19.')
    fr, ff = os.path.join(d, 'REPORT'), os.path.join(d, 'OUT.FERMI')

    def gen():
        """energies in units of 0.1 meV [spin][k][band], Fermi level in the same unit (multiple of 10)"""
        K, B, S = r.randint(1, 7), r.randint(2, 13), r.choice((1, 2))
        ef = r.randint(-4000, 4000) * 10
        metal = r.random() < .3
        E = []
        for sp in range(S):
            nv = r.randint(1, B - 1)
            rows = []
            for k in range(K):
                v = [ef - r.choice((0, 2, 5, 7, 12, 300, r.randint(20, 90000))) if r.random() < .6 else ef - r.randint(20, 90000) for _ in range(nv)]
                c = [ef + r.choice((0, 2, 5, 7, 12, 300, r.randint(20, 90000))) if r.random() < .6 else ef + r.randint(20, 90000) for _ in range(B - nv)]
                rows.append(sorted(v) + sorted(c))
            if metal and r.random() < .8 and K > 1:
                q = r.randrange(K)
                rows[q] = sorted(e if i != nv - 1 else ef + r.choice((2, 5, 400)) for i, e in enumerate(rows[q]))
            E.append(rows)
        return K, B, S, E, ef

    def write(K, B, S, E, ef):
        with open(fr, 'w') as h:
            h.write(' PARALLEL = 4 1\n')
            for x in r.sample(['     IN.ATOM     = atom%d.config' % B, ' ECUT = 50.0', ' NUM_BAND       = %d' % B, ' NUM_KPT = %d' % K, ' SPIN = %d' % S], 5):
                h.write(x + '\n')
            h.write(' ***** end of input *****\n\n')
            for sp in range(S):
                for k in range(K):
                    h.write(' kpt, spin  %d %d\n eigen energies, in eV\n' % (k + 1, sp + 1))
                    row = ['%9.4f' % (e / 10000.) for e in E[sp][k]]
                    for j in range(0, B, 5):
                        h.write('  '.join(row[j:j + 5]) + '\n')
                    h.write(' ------\n')
            h.write(' total time = 3.0\n')
        with open(ff, 'w') as h:
            h.write(' Fermi energy = %.*f eV\n' % (r.choice((4, 6, 10)), ef / 10000. + r.choice((0, 1e-4, -2e-4)) if r.random() < .5 else ef / 10000.))

    try:
        for t in range(150 if not b.thorough else 3000):
            K, B, S, E, ef = gen()
            write(K, B, S, E, ef)
            inp = dict(report=open(fr).read(), fermi=open(ff).read())
            rep = R(fr)
            if guard(b, 'get_num_bands', inp, rep.get_num_bands) != B or guard(b, 'get_num_kpts', inp, rep.get_num_kpts) != K:
                b.bad('number of bands or k-points', inp)
            if guard(b, 'get_in_atom', inp, rep.get_in_atom) != 'atom%d.config' % B:
                b.bad('get_in_atom', inp)
            x = guard(b, 'get_efermi', inp, F(ff).get_efermi)
            if x is None or abs(x - ef / 10000.) > 1e-9:
                b.bad('get_efermi: %r' % x, inp)
                continue
            g = guard(b, 'get_eigen_energies', inp, rep.get_eigen_energies)
            if g is None:
                continue
            for sp, name in enumerate(('up', 'down')):
                want = [[e / 10000. for e in row] for row in E[sp]] if sp < S else []
                got = g[name].tolist()
                if len(got) != len(want) or any(len(p) != len(q) or max(abs(u - v) for u, v in zip(p, q)) > 1e-9 for p, q in zip(got, want)):
                    b.bad('eigen energies, spin %s' % name, dict(inp, got=got))
            metal = any(any(row[q] - ef < -1 for row in E[sp]) and any(row[q] - ef > 1 for row in E[sp]) for sp in range(S) for q in range(B))
            edges = {}
            for name, f, sign in (('cbm', rep.get_cbm, 1), ('vbm', rep.get_vbm, -1)):
                cands = [(sign * (E[sp][k][q]), sp, k, q) for sp in range(S) for k in range(K) for q in range(B) if sign * (E[sp][k][q] - ef) >= 0]
                if metal:
                    if f(ff) is not None:
                        b.bad('%s of a metal is not None' % name, inp)
                    continue
                e, sp, k, q = min(cands)
                want = [(sp, k + 1, q + 1)] + [(s2, k + 1, q2 + 1) for s2 in range(S) for q2 in range(B) if (s2, q2) != (sp, q) and abs(E[s2][k][q2] - sign * e) < 10]
                if any(abs(abs(E[s2][k][q2] - sign * e) - 10) == 0 for s2 in range(S) for q2 in range(B)):
                    continue
                g = guard(b, name, inp, lambda: f(ff))
                if g is None:
                    b.bad('%s is None without a metal' % name, inp)
                    continue
                edges[name] = (sign * e, {x[1] for x in want})
                have = [(('up', 'down').index(a), int(k2), int(q2)) for a, k2, q2 in zip(g['spins'], g['kpts'], g['bands'])]
                if have[0] != want[0] or sorted(have) != sorted(want) or len(g['energies']) != len(have) or any(abs(x - sign * e / 10000.) > 1e-9 for x in g['energies']):
                    b.bad('%s: %r, %r instead of %r, %r' % (name, g['energies'], have, sign * e / 10000., want), inp)
            if len(edges) == 2:
                gap = guard(b, 'get_bandgap', inp, lambda: rep.get_bandgap(ff))
                if gap is None or abs(gap - (edges['cbm'][0] - edges['vbm'][0]) / 10000.) > 1e-9:
                    b.bad('get_bandgap: %r' % gap, inp)
                kind = guard(b, 'get_bandgap_type', inp, lambda: rep.get_bandgap_type(ff))
                if kind != int(edges['cbm'][1] == edges['vbm'][1]):
                    b.bad('get_bandgap_type: %r' % kind, inp)
            b.ok((t,), dict(kpoints=K, bands=B, spins=S, metal=metal))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    import sys
    import props.C19 as m
    sys.exit(main(m))
