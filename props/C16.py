"""Structures written to atom.config and read back; element tables (io/publicLayer/structure.py, io/pwmat/utils/parameters.py)."""
from vc.pylib import *
from vc.report import main
from vc import pytext
from vc.elements import SYMBOL, NUMBER
from props.pystruct import *

ID = 'C16'
CL = 'DStructure'
PAR = 'matersdk/io/pwmat/utils/parameters.py'
ACX = 'matersdk/io/pwmat/utils/acextractor.py'
ASSUMPTIONS = ASSUMPTIONS + ['printing a number with p digits and reading it gives a number within half a unit of the last digit printed',
                             'LineLocator returns the lines that contain the content, in order (proved in C15)']
TRUSTED = TRUSTED + ['contract of pymatgen.core.Structure (props/pystruct.py)', 'vc/pytext.py: open, write, str.format, split']
HALF6 = z3.RealVal('1/2000000')


def absr(x):
    return z3.If(x >= 0, x, -x)


def world(it, m, mag):
    st, n, Z, X, L, fr = base_input(it, m, frac=True)
    i = N('i')
    it.gh.schemas.append((Z, lambda q: z3.Implies(rng(q, n), z3.And(Z(q) >= 1, Z(q) <= 118))))
    if mag:
        M = z3.Function('M', IntS, RealS)
        st.f['site_properties'] = PDict({'magmom': PList(SSeq(n, lambda k: M(k)))})
    else:
        M = None
        st.f['site_properties'] = PDict({})
    return st, n, Z, L, fr, M


def write(it, st, mag, kw=True):
    files = pytext.out_files(it, ['PATH'])
    r = it.method(st, 'to', 'PATH', 'pwmat', mag)
    it.check('one file is written', len(files) == 1)
    return pytext.Written(it, files['PATH'])


def locator(it, W, strs=False):
    off = 0 if strs else 1
    return lambda it, *a, **k: PList([p + off for p in W.having(k.get('content', a[-1] if a else None))])


def same(it, g, n, Z, L, fr, who):
    i, k = N('i'), N('k')
    it.check(who + ': number of atoms', num(it.getattr(g, 'num_sites')) == n)
    lat = g.f['lattice'].f['matrix']
    for a in range(3):
        for c in range(3):
            it.check(who + ': lattice (%d,%d) to 7 significant digits' % (a, c), absr(lat.get(a, c) - L[a][c]) <= HALF6 * absr(L[a][c]))
    F = it.getattr(g, 'frac_coords')
    sp = it.seq(it.getattr(g, 'species'))
    with given(it, rng(i, n)):
        it.check(who + ': species of atom i', num(sp.get(i).f['Z']) == Z(i))
        for c in range(3):
            it.check(who + ': coordinate %d of atom i to 6 decimals' % c, absr(F.get(i, c) - fr(i, z3.IntVal(c))) <= HALF6)


def u_file(mag):
    def run(it, m):
        st, n, Z, L, fr, M = world(it, m, mag)
        W = write(it, st, mag)
        log = []
        it.ext['pymatgen.core.Structure'] = ctor(m, log)
        it.contracts['LineLocator.locate_all_lines'] = locator(it, W)
        W.install(it, 'PATH')
        g = it.call(it.getattr(m.get(it, CL), 'from_file'), ['PATH', 'pwmat'])
        it.check('read as fractional coordinates', len(log) == 1 and log[0].f['_cart'] is False)
        same(it, g, n, Z, L, fr, 'written and read')
        if mag:
            i = N('i')
            q = it.seq(it.method(it.construct(Mod.load(ACX).get(it, 'ACExtractor'), ['PATH'], {}), 'get_magmoms'))
            it.check('one moment per atom', num(q.n) == n)
            with given(it, rng(i, n)):
                it.check('moment of atom i to 2 decimals', absr(real(q.get(i)) - M(i)) <= z3.RealVal('1/200'))
    return unit('to, from_file: round trip%s' % (' with moments' if mag else ''), STRUCT, run, [CL + '.to', CL + '.from_file', 'ACExtractor.__init__'], exact=False)


def u_str():
    def run(it, m):
        st, n, Z, L, fr, M = world(it, m, False)
        W = write(it, st, False)
        log = []
        it.ext['pymatgen.core.Structure'] = ctor(m, log)
        it.contracts['ListLocator.locate_all_lines'] = locator(it, W, True)
        txt = Obj('wtext', {}, {'split': lambda it, o: Prim(lambda it, a, k: PList(W.lines()) if list(a) == ['\n'] else pytext._uns())})

        def search(it, pat, s, *flags):
            t = pytext.tokens(W.parts(0))
            if pat != r'(\d+) atoms':
                raise Unsupported('pattern %r' % (pat,))
            it.check('the header says "n atoms"', s is txt and isinstance(t[0], pytext.Hole) and t[1] == 'atoms')
            return Obj('match', {}, {'group': lambda it, o: Prim(lambda it, a, k: W.tok(0, 0))})
        it.ext['re.search'] = search
        for cart in (False, True):
            g = it.call(it.getattr(m.get(it, CL), 'from_str'), [txt, 'pwmat', cart])
            it.check('coordinates taken as asked (%s)' % cart, log[-1].f['_cart'] is cart)
            if not cart:
                same(it, g, n, Z, L, fr, 'written and read')
        try:
            it.call(it.getattr(m.get(it, CL), 'from_str'), [txt, 'vasp'])
            it.check('other formats are refused', False)
        except Raised as e:
            it.check('other formats are refused', e.name == 'ValueError')
    return unit('to, from_str: round trip', STRUCT, run, [CL + '.to', CL + '.from_str', 'ACstrExtractor.__init__'], exact=False)


def u_other():
    def run(it, m):
        for fmt in ('vasp', 'poscar', 'cif', 'json', 'yaml'):
            calls = []
            it.ext['pymatgen.core.Structure.from_file'] = lambda it, *a, filename=None, **k: (calls.append((filename or a[0], k)), Obj('plain', {}))[1]
            g = it.call(it.getattr(m.get(it, CL), 'from_file'), ['PATH', fmt])
            it.check('%s: read by pymatgen from the path given' % fmt, len(calls) == 1 and calls[0][0] == 'PATH')
    return unit('from_file of other formats', STRUCT, run, [CL + '.from_file'], exact=False)


def u_tables():
    def run(it, m):
        a = m.get(it, 'atomic_number2specie').val
        b = m.get(it, 'specie2atomic_number').val
        for z in range(1, 119):
            it.check('symbol of element %d' % z, a.get(z) == SYMBOL[z] if z in a else True)
            it.check('number of %s' % SYMBOL[z], b.get(SYMBOL[z]) == z if SYMBOL[z] in b else True)
        it.check('at least 103 elements', len([z for z in range(1, 104) if z in a]) >= 103 and len([z for z in range(1, 104) if SYMBOL[z] in b]) >= 103)
        it.check('the tables invert each other', all(b.get(s) == z for z, s in a.items()) and all(a.get(z) == s for s, z in b.items()))
    return unit('element tables', PAR, run, [], exact=False)


def units(tier):
    return [u_file(False), u_file(True), u_str(), u_other(), u_tables()]


BOUNDED_RULE = 'random structures (1..8 atoms, elements 1..103, coordinates in -3..3) written to atom.config and POSCAR and read back, paths reused; non-trivial: more than one species'
BOUNDED_ONLY = ['writing formats other than pwmat (delegated to pymatgen)']


def bounded(b):
    import numpy as np, tempfile, shutil, os
    r = random.Random(b.seed)
    try:
        S = load('matersdk.io.publicLayer.structure').DStructure
        A = load('matersdk.io.pwmat.utils.acextractor').ACExtractor
        P = load('matersdk.io.pwmat.utils.parameters')
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    for z in range(1, 119):
        if P.atomic_number2specie.get(z, SYMBOL[z]) != SYMBOL[z] or P.specie2atomic_number.get(SYMBOL[z], z) != z:
            b.bad('element table entry %d' % z, dict(z=z))
    d = tempfile.mkdtemp(prefix='c16.')
    try:
        for t in range(80 if not b.thorough else 1500):
            n = r.randint(1, 8)
            L = np.array([[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)]) + np.diag([r.uniform(2, 9) * r.choice((1, 1, 20)) for _ in range(3)])
            zs = [r.randint(1, 103) for _ in range(r.randint(1, 3))]
            z = [r.choice(zs) for _ in range(n)]
            x = np.array([[r.choice((r.random(), r.uniform(-3, 3), 0., 1., 1e-7)) for _ in range(3)] for _ in range(n)])
            mag = [round(r.uniform(-5, 5), r.choice((1, 3))) for _ in range(n)]
            st = S(L, z, x, site_properties=dict(magmom=mag))
            inp = dict(lattice=L.tolist(), z=z, frac=x.tolist(), magmom=mag)
            fn = os.path.join(d, 'atom%d.config' % (t // 3))
            m = r.random() < .5
            if guard(b, 'to pwmat', inp, lambda: (st.to(fn, 'pwmat', m), 1)) is None:
                continue

            def cmp(who, g):
                if g is None:
                    return
                ok = len(g) == n and [s.specie.number for s in g] == z and isinstance(g, S)
                ok = ok and np.all(np.abs(np.array(g.frac_coords) - x) <= 5.0001e-7) and np.all(np.abs(g.lattice.matrix - L) <= 5.0001e-7 * np.abs(L) + 1e-12)
                if not ok:
                    b.bad(who, dict(inp, got=str(g)))
            cmp('from_file', guard(b, 'from_file', inp, lambda: S.from_file(fn, 'pwmat')))
            cmp('from_str', guard(b, 'from_str', inp, lambda: S.from_str(open(fn).read(), 'pwmat')))
            g = guard(b, 'get_magmoms', inp, lambda: A(fn).get_magmoms())
            want = np.array(mag if m else [0] * n)
            if g is not None and (len(g) != n or np.any(np.abs(np.array(g) - want) > .005001)):
                b.bad('magnetic moments', dict(inp, got=list(g)))
            if t % 4 == 0:
                fp = os.path.join(d, 'POSCAR')
                if guard(b, 'to poscar', inp, lambda: (st.to(fp, 'poscar'), 1)) is not None:
                    g = guard(b, 'from_file vasp', inp, lambda: S.from_file(fp, 'vasp'))
                    if g is not None and (len(g) != n or not np.allclose(sorted(map(tuple, np.array(g.lattice.matrix))), sorted(map(tuple, L)), atol=1e-5)):
                        b.bad('POSCAR round trip', inp)
            b.ok((t,) if len(set(z)) > 1 else None, dict(n=n, moments=m))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import sys
    import props.C16 as m
    sys.exit(main(m))
