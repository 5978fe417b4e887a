"""Normalisation of the smooth features (matersdk/feature/deepmd/preprocess.py)."""
from vc.pylib import *
from vc.report import main

ID = 'C27'
F = 'matersdk/feature/deepmd/preprocess.py'
ASSUMPTIONS = ASSUMPTIONS + ['neighbours and features of a structure enter through their contracts (C11, C13)', 'an HDF5 data set returns the value it was created with (h5py)']
TRUSTED = TRUSTED + ['h5py']
AX = [[3, 14], [3], [14, 3]]


def u_std():
    def run(it, m):
        s2, s1, n = R('s2'), R('s1'), nat(it, 'n')
        o = Obj(m.get(it, 'TildeRPairNormalizer'), {})
        it.assume(z3.Implies(n > 0, s2 * z3.ToReal(n) >= s1 * s1))                  # Cauchy-Schwarz: squares of the same numbers
        r = real(it.method(o, '_calc_std', s2, s1, n))
        q = z3.ToReal(n)
        it.check('no numbers: 0.01', z3.Implies(n == 0, r == z3.RealVal('0.01')))
        it.check('at least 0.01', r >= z3.RealVal('0.01'))
        v = z3.If(n > 0, s2 / q - (s1 / q) * (s1 / q), z3.RealVal(0))
        it.check('the standard deviation, or 0.01 if it is smaller', z3.Implies(n > 0, z3.Or(z3.And(r * r == v), z3.And(r == z3.RealVal('0.01'), v <= z3.RealVal('0.0001')))))
    return unit('TildeRPairNormalizer._calc_std', F, run, ['TildeRPairNormalizer._calc_std'], exact=False)


def u_stats():
    def run(it, m):
        n = nat(it, 'n', 1)
        a, f = farr('x', (n, 4))
        calls = []

        def std(it, o, sum2_value=None, sum_value=None, N=None):
            calls.append((real(sum2_value), real(sum_value), num(N)))
            return z3.Real('std%d' % (len(calls) - 1))
        it.contracts['TildeRPairNormalizer._calc_std'] = std
        o = Obj(m.get(it, 'TildeRPairNormalizer'), {})
        avg, dev = it.method(o, 'calc_stats', a)
        tot = lambda g: real(pynp.np_sum(it, SArr((n,), lambda idx: g(num(idx[0])), 'f')))
        tot3 = lambda g: real(pynp.np_sum(it, SArr((n, 3), lambda idx: g(num(idx[0]), num(idx[1]) + 1), 'f')))
        S0, Q0 = tot(lambda i: f(i, 0)), tot(lambda i: f(i, 0) * f(i, 0))
        S1, Q1 = tot3(lambda i, k: f(i, k)), tot3(lambda i, k: f(i, k) * f(i, k))
        shape_is(it, 'averages', avg, (1, 4))
        shape_is(it, 'deviations', dev, (1, 4))
        it.check('average of the radial features', z3.Or(real(avg.get(0, 0)) == S0 / (z3.ToReal(n) + z3.RealVal('1e-15')), real(avg.get(0, 0)) == S0 / z3.ToReal(n)))
        for k in (1, 2, 3):
            it.check('average 0 of angular feature %d' % k, real(avg.get(0, k)) == 0)
        for k in range(4):
            d = real(dev.get(0, k))
            hit = [c for q, c in enumerate(calls) if d.eq(z3.Real('std%d' % q))]
            if not hit:
                raise Unsupported('how the deviation is formed')
            a2, a1, an = hit[0]
            it.check('deviation %d: sum of squares' % k, a2 == (Q0 if k == 0 else Q1 / 3))
            it.check('deviation %d: sum' % k, a1 == (S0 if k == 0 else S1 / 3))
            it.check('deviation %d: number' % k, an == n)
    return unit('TildeRPairNormalizer.calc_stats', F, run, ['TildeRPairNormalizer.calc_stats'], exact=False)


def u_init(nd):
    def run(it, m):
        dims = [nat(it, 'd%d' % k, 1) for k in range(nd)]
        a, f = farr('x', tuple(dims) + (4,))
        seen = []
        AVG, STD = farr('avg', (1, 4))[0], farr('std', (1, 4))[0]
        it.contracts['TildeRPairNormalizer.calc_stats'] = lambda it, o, tildeRs_array=None: seen.append(tildeRs_array) or (AVG, STD)
        o = it.call(m.get(it, 'TildeRPairNormalizer'), [], dict(tildeRs_array=a))
        if len(seen) != 1:
            raise Unsupported('how the statistics are formed')
        it.check('statistics kept', it.getattr(o, 'davg') is AVG and it.getattr(o, 'dstd') is STD)
        x = seen[0]
        tot = dims[0]
        for d in dims[1:]:
            tot = tot * d
        shape_is(it, 'all slots of all centres', x, (tot, 4))
        ix = [N('i%d' % k) for k in range(nd)]
        pos, k = ix[0], N('k')
        hyp = [rng(i, d) for i, d in zip(ix, dims)] + [rng(k, 4)]
        for q in range(1, nd):
            pos = pos * dims[q] + ix[q]
        if nd == 2:
            i, j, d = ix[0], ix[1], dims[1]
            it.lemmas += [z3.Implies(z3.And(rng(i, dims[0]), rng(j, d)), z3.And(i * d >= 0, i * d + j < dims[0] * d, (i * d + j) / d == i, (i * d + j) % d == j))]
        with given(it, *hyp):
            it.check('slot handed on', x.get(pos, k) == f(*ix, k))
        b, c = farr('b', (1, 4))[0], farr('c', (1, 4))[0]
        o = it.call(m.get(it, 'TildeRPairNormalizer'), [], dict(davg=b, dstd=c))
        it.check('given statistics kept', it.getattr(o, 'davg') is b and it.getattr(o, 'dstd') is c and len(seen) == 1)
    return unit('TildeRPairNormalizer.__init__, %d dimensions' % (nd + 1), F, run, ['TildeRPairNormalizer.__init__'], exact=False)


def u_norm(nd, flat):
    """features of one or many frames; averages as (1, 4) or (4,)"""
    def run(it, m):
        dims = tuple(nat(it, 'd%d' % k, 1) for k in range(nd))
        sh = (4,) if flat else (1, 4)
        av, fa = farr('avg', sh)
        sd, fs = farr('std', sh)
        A, S = (lambda k: fa(k)) if flat else (lambda k: fa(0, k)), (lambda k: fs(k)) if flat else (lambda k: fs(0, k))
        o = Obj(m.get(it, 'TildeRPairNormalizer'), dict(davg=av, dstd=sd))
        q = z3.Int('q!')
        for k in range(4):
            it.assume(S(z3.IntVal(k)) >= z3.RealVal('0.01'))
        x, f = farr('x', dims + (4,))
        y, g = farr('y', dims + (4, 3))
        r, d = it.method(o, 'normalize', x), it.method(o, 'normalize_derivative', y)
        shape_is(it, 'features', r, dims + (4,))
        shape_is(it, 'derivatives', d, dims + (4, 3))
        ix = [N('i%d' % k) for k in range(nd)]
        c = N('c')
        with given(it, *[rng(i, n) for i, n in zip(ix, dims)] + [rng(c, 3)]):
            for k in range(4):
                it.check('feature %d: less the average, in units of the deviation' % k, real(r.get(*ix, z3.IntVal(k))) == (f(*ix, k) - A(z3.IntVal(k))) / S(z3.IntVal(k)))
                it.check('derivative %d: in units of the deviation' % k, real(d.get(*ix, z3.IntVal(k), c)) == g(*ix, k, c) / S(z3.IntVal(k)))
    return unit('TildeRPairNormalizer.normalize, normalize_derivative, %d dimensions%s' % (nd + 1, ', flat statistics' if flat else ''), F, run, ['TildeRPairNormalizer.normalize', 'TildeRPairNormalizer.normalize_derivative'], exact=False)


def world(it, rc, rs, SM):
    """contracts of neighbours and features: array T<tag>_c_n of (centres of c in tag) x (asked width) x 4, and its derivatives"""
    def nbr(it, kind, structure=None, rcut=None, scaling_matrix=None, reformat_mark=None, coords_are_cartesian=None, **k):
        if k or kind != 'v1' or not (isinstance(structure, Obj) and structure.cls == 'structure'):
            raise Unsupported('neighbours')
        it.check('neighbours: cutoff, supercell, order of the atoms', z3.And(num(rcut) == rc, scaling_matrix is SM, reformat_mark is True, coords_are_cartesian is True))
        return Obj('neighbours', dict(tag=structure.f['tag']))

    def feat(it, kind, structure_neighbors=None, center_atomic_number=None, nbr_atomic_number=None, rcut=None, rcut_smooth=None, **k):
        if k or kind != 'v1' or not (isinstance(structure_neighbors, Obj) and structure_neighbors.cls == 'neighbours'):
            raise Unsupported('features')
        it.check('features: radii', z3.And(num(rcut) == rc, num(rcut_smooth) == rs))
        t, c, n = structure_neighbors.f['tag'], conc(center_atomic_number), conc(nbr_atomic_number)

        def arr(name, tail):
            def g(it, o):
                def h(it, a, k):
                    w = k.get('max_num_nbrs', a[0] if a else None)
                    if w is None:
                        raise Unsupported('width')
                    it.check('width of the neighbour species', num(w) == N('w%s' % n))
                    return farr('%s%s_%s_%s' % (name, t, c, n), (N('nc%s' % c), num(w), 4) + tail)[0]
                return Prim(h)
            return g
        return Obj('features', {}, dict(get_tildeR=arr('T', ()), calc_derivative=arr('D', (3,))))
    it.contracts['StructureNeighborsDescriptor'] = it.contracts['DpseTildeRPairDescriptor'] = None
    it.contracts.pop('StructureNeighborsDescriptor'), it.contracts.pop('DpseTildeRPairDescriptor')
    it.contracts['StructureNeighborsDescriptor.create'] = lambda it, *a, **k: nbr(it, *[x for x in a if not isinstance(x, Cls)], **k)
    it.contracts['DpseTildeRPairDescriptor.create'] = lambda it, *a, **k: feat(it, *[x for x in a if not isinstance(x, Cls)], **k)


def setup(it, cs, ns):
    rc, rs, SM = R('rc'), R('rs'), PList([3, 3, 3])
    for c in cs:
        nat(it, 'nc%s' % c, 1)
    for n in ns:
        nat(it, 'w%s' % n, 1)
    world(it, rc, rs, SM)
    return rc, rs, SM


def u_blocks(cs, ns):
    def run(it, m):
        rc, rs, SM = setup(it, cs, ns)
        av, fa = farr('avg', (len(cs), 4))
        sd, fs = farr('std', (len(cs), 4))
        for q in range(len(cs)):
            for k in range(4):
                it.assume(fs(q, k) >= z3.RealVal('0.01'))
        o = it.call(m.get(it, 'TildeRNormalizer'), [], dict(rcut=rc, rcut_smooth=rs, center_atomic_numbers=PList(list(cs)), nbr_atomic_numbers=PList(list(ns)), max_num_nbrs=PList([N('w%s' % n) for n in ns]), scaling_matrix=SM, davgs=av, dstds=sd))
        r, d = it.method(o, 'normalize', Obj('structure', dict(tag='')))
        rows, cols = sum([N('nc%s' % c) for c in cs], z3.IntVal(0)), sum([N('w%s' % n) for n in ns], z3.IntVal(0))
        shape_is(it, 'features', r, (rows, cols, 4))
        shape_is(it, 'derivatives', d, (rows, cols, 4, 3))
        i, j, x = N('i'), N('j'), N('x')
        ro = z3.IntVal(0)
        for a, c in enumerate(cs):
            co = z3.IntVal(0)
            for n in ns:
                T = z3.Function('T_%s_%s' % (c, n), IntS, IntS, IntS, RealS)
                D = z3.Function('D_%s_%s' % (c, n), IntS, IntS, IntS, IntS, RealS)
                with given(it, rng(i, N('nc%s' % c)), rng(j, N('w%s' % n)), rng(x, 3)):
                    for k in range(4):
                        it.check('block of centres %s, neighbours %s: feature %d' % (c, n, k), real(r.get(ro + i, co + j, z3.IntVal(k))) == (T(i, j, k) - fa(a, k)) / fs(a, k))
                        it.check('block of centres %s, neighbours %s: derivative %d' % (c, n, k), real(d.get(ro + i, co + j, z3.IntVal(k), x)) == D(i, j, k, x) / fs(a, k))
                co = co + N('w%s' % n)
            ro = ro + N('nc%s' % c)
    return unit('TildeRNormalizer.normalize, centres %s, neighbours %s' % (cs, ns), F, run, ['TildeRNormalizer.__init__', 'TildeRNormalizer.normalize', 'TildeRNormalizer._normalize', 'TildeRPairNormalizer.normalize'], exact=False, timeout=120)


def u_concat(S, ns):
    def run(it, m):
        rc, rs, SM = setup(it, [3], ns)
        sts = [Obj('structure', dict(tag=str(k))) for k in range(5)]
        idx = [4, 0, 2][:S]
        sysm = Obj('system', dict(structures_lst=PList(sts)))
        f = it.getattr(m.get(it, 'NormalizerPremise'), 'concat_tildeRs4calc_stats')
        r = it.call(f, [], dict(dp_labeled_system=sysm, structure_indices=PList(list(idx)), rcut=rc, rcut_smooth=rs, center_atomic_number=3, nbr_atomic_numbers=PList(list(ns)), max_num_nbrs=PList([N('w%s' % n) for n in ns]), scaling_matrix=SM))
        w = sum([N('w%s' % n) for n in ns], z3.IntVal(0))
        shape_is(it, 'features of all structures', r, (N('nc3'), w * S, 4))
        i, j, k = N('i'), N('j'), N('k')
        off = z3.IntVal(0)
        for s in idx:
            for n in ns:
                T = z3.Function('T%s_3_%s' % (s, n), IntS, IntS, IntS, RealS)
                with given(it, rng(i, N('nc3')), rng(j, N('w%s' % n)), rng(k, 4)):
                    it.check('structure %d, neighbours %s' % (s, n), r.get(i, off + j, k) == T(i, j, k))
                off = off + N('w%s' % n)
    return unit('NormalizerPremise.concat_tildeRs4calc_stats, %d structures, neighbours %s' % (S, ns), F, run, ['NormalizerPremise.concat_tildeRs4calc_stats'], exact=False)


def u_all(cs):
    def run(it, m):
        rc, rs = R('rc'), R('rs')
        SYS, IX, SM, NB, W = [Obj(x, {}) for x in ('system', 'indices', 'scaling', 'nbrs', 'widths')]

        def concat(it, **k):
            it.check('statistics: same data and parameters', set(k) == {'dp_labeled_system', 'structure_indices', 'rcut', 'rcut_smooth', 'center_atomic_number', 'nbr_atomic_numbers', 'max_num_nbrs', 'scaling_matrix'}
                     and k['dp_labeled_system'] is SYS and k['structure_indices'] is IX and k['nbr_atomic_numbers'] is NB and k['max_num_nbrs'] is W and k['scaling_matrix'] is SM)
            it.check('statistics: radii', z3.And(num(k['rcut']) == rc, num(k['rcut_smooth']) == rs))
            return Obj('all', dict(c=conc(k['center_atomic_number'])))
        it.contracts['NormalizerPremise.concat_tildeRs4calc_stats'] = concat
        it.contracts['TildeRPairNormalizer'] = lambda it, tildeRs_array=None: Obj('stats', dict(davg=farr('avg%s' % tildeRs_array.f['c'], (1, 4))[0], dstd=farr('std%s' % tildeRs_array.f['c'], (1, 4))[0]))
        o = it.call(it.getattr(m.get(it, 'TildeRNormalizer'), 'from_dp_labeled_system'), [], dict(dp_labeled_system=SYS, structure_indices=IX, rcut=rc, rcut_smooth=rs, center_atomic_numbers=PList(list(cs)), nbr_atomic_numbers=NB, max_num_nbrs=W, scaling_matrix=SM))
        a, s = it.getattr(o, 'davgs'), it.getattr(o, 'dstds')
        shape_is(it, 'averages', a, (len(cs), 4))
        shape_is(it, 'deviations', s, (len(cs), 4))
        for q, c in enumerate(cs):
            for k in range(4):
                it.check('average %d of species %s' % (k, c), a.get(z3.IntVal(q), z3.IntVal(k)) == z3.Function('avg%s' % c, IntS, IntS, RealS)(0, k))
                it.check('deviation %d of species %s' % (k, c), s.get(z3.IntVal(q), z3.IntVal(k)) == z3.Function('std%s' % c, IntS, IntS, RealS)(0, k))
        it.check('settings kept', it.getattr(o, 'nbr_atomic_numbers') is NB and it.getattr(o, 'max_num_nbrs') is W and it.getattr(o, 'scaling_matrix') is SM)
        it.check('radii kept', z3.And(num(it.getattr(o, 'rcut')) == rc, num(it.getattr(o, 'rcut_smooth')) == rs))
    return unit('TildeRNormalizer.from_dp_labeled_system, centres %s' % cs, F, run, ['TildeRNormalizer.from_dp_labeled_system', 'TildeRNormalizer.calc_stats', 'TildeRNormalizer.__init__'], exact=False)


NAMES = ['rcut', 'rcut_smooth', 'center_atomic_numbers', 'nbr_atomic_numbers', 'max_num_nbrs', 'scaling_matrix', 'davgs', 'dstds']


def u_file():
    def run(it, m):
        disk = {}

        def File(it, p, mode='r', **k):
            if p != 'PATH' or k or mode not in ('r', 'w'):
                raise Unsupported('h5py.File')
            if mode == 'w':
                disk.clear()

            def create(it, o):
                def f(it, a, k):
                    n = k.get('name', a[0] if a else None)
                    if n in disk:
                        raise Raised('ValueError')
                    disk[n] = k.get('data', a[-1] if len(a) > 1 else None)
                return Prim(f)

            def get(it, o, n):
                if n not in disk:
                    raise Raised('KeyError')

                def val(it, o, k):
                    if k != ():
                        raise Unsupported('part of a data set')
                    return disk[n]
                return Obj('set', {}, dict(getitem=val))
            return Obj('h5', {}, dict(create_dataset=create, getitem=get, close=lambda it, o: Prim(lambda it, a, k: None)))
        it.ext['h5py.File'] = File
        v = dict(rcut=R('rc'), rcut_smooth=R('rs'), center_atomic_numbers=farr('c', (2,), 'i')[0], nbr_atomic_numbers=farr('n', (2,), 'i')[0], max_num_nbrs=farr('w', (2,), 'i')[0], scaling_matrix=farr('sm', (3,), 'i')[0], davgs=farr('avg', (2, 4))[0], dstds=farr('std', (2, 4))[0])
        o = it.call(m.get(it, 'TildeRNormalizer'), [], dict(v))
        it.method(o, 'to', 'PATH')
        p = it.call(it.getattr(m.get(it, 'TildeRNormalizer'), 'from_file'), ['PATH'])
        for n in NAMES:
            x = it.getattr(p, n)
            if n.startswith('rcut'):
                it.check('%s read back' % n, num(x) == v[n])
                continue
            it.check('%s read back: an array' % n, isinstance(x, SArr))
            shape_is(it, n, x, v[n].shape)
            import itertools
            for ix in itertools.product(*[range(q) for q in v[n].shape]):
                it.check('%s%s read back' % (n, list(ix)), x.get(*[z3.IntVal(q) for q in ix]) == v[n].get(*[z3.IntVal(q) for q in ix]))
    return unit('TildeRNormalizer.to, from_file', F, run, ['TildeRNormalizer.to', 'TildeRNormalizer.from_file'], exact=False)


def units(tier):
    out = [u_std(), u_stats(), u_init(1), u_init(2), u_file()]
    out += [u_norm(nd, fl) for nd in (2, 3) for fl in (False, True)]
    out += [u_blocks(c, n) for c, n in (([3, 14], [3, 14]), ([3], [3, 14]), ([3, 14], [14]), ([3, 14, 8], [14, 3]), ([14], [3, 8, 14]))]
    out += [u_concat(S, n) for S, n in ((1, [3, 14]), (2, [14]), (3, [3, 14]))] + [u_all(c) for c in ([3], [3, 14], [14, 3, 8])]
    return out


BOUNDED_RULE = 'random arrays (also constant, empty and tiny ones) and random small crystals of several species: statistics against their definition, features and derivatives against those of the pair descriptor, files written and read back'


def bounded(b):
    import numpy as np, random, tempfile, shutil, os
    r = random.Random(b.seed)
    g = np.random.default_rng(b.seed)
    try:
        P = load('matersdk.feature.deepmd.preprocess')
        D = load('matersdk.io.publicLayer.structure').DStructure
        SN = load('matersdk.io.publicLayer.neigh').StructureNeighborsDescriptor
        TP = load('matersdk.feature.deepmd.se_pair').DpseTildeRPairDescriptor
        SC = load('matersdk.data.struct_collection').StructCollection
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return

    def stats(x):
        x = np.asarray(x, dtype=float).reshape(-1, 4)
        n = len(x)
        dev = lambda q2, q1: max(1e-2, float(np.sqrt(max(0., q2 - q1 * q1))))
        rad = dev(np.mean(x[:, 0] ** 2), np.mean(x[:, 0]))
        ang = dev(np.mean(x[:, 1:] ** 2), np.mean(x[:, 1:]))
        return np.array([[np.mean(x[:, 0]), 0, 0, 0]]), np.array([[rad, ang, ang, ang]])
    same = lambda x, y: np.asarray(x).shape == np.asarray(y).shape and np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=1e-7, atol=1e-9)
    for t in range(60 if not b.thorough else 2000):
        sh = tuple(r.randint(1, 7) for _ in range(r.choice((1, 2, 3)))) + (4,)
        k = r.random()
        x = np.full(sh, r.choice((.3, .1, 1 / 3, 0., .7, 1e-3))) if k < .3 else g.normal(size=sh) * r.choice((1e-3, .02, .5, 30)) + r.choice((0, .4)) if k < .9 else np.zeros(sh)
        inp = dict(kind='array', shape=sh, array=x.tolist() if x.size < 300 else None)
        keep = x.copy()
        o = guard(b, 'TildeRPairNormalizer', inp, lambda: P.TildeRPairNormalizer(tildeRs_array=x))
        if o is None:
            continue
        a, s = stats(x)
        # a deviation near the lower limit of 0.01 may fall on either side of it
        if not same(o.davg, a) or not (np.asarray(o.dstd).shape == (1, 4) and np.allclose(o.dstd, s, rtol=1e-6, atol=1e-6)):
            b.bad('statistics', dict(inp, got=[np.asarray(o.davg).tolist(), np.asarray(o.dstd).tolist()], want=[a.tolist(), s.tolist()]))
            continue
        fl = r.random() < .5
        av, sd = g.normal(size=4), .01 + g.random(4)
        q = P.TildeRPairNormalizer(davg=av if fl else av.reshape(1, 4), dstd=sd if fl else sd.reshape(1, 4))
        for nd in (2, 3):
            sh = tuple(r.randint(1, 5) for _ in range(nd))
            y, z = g.normal(size=sh + (4,)), g.normal(size=sh + (4, 3))
            inp = dict(kind='normalise', shape=sh, avg=av.tolist(), std=sd.tolist())
            u, v = guard(b, 'normalize', inp, lambda: q.normalize(y)), guard(b, 'normalize_derivative', inp, lambda: q.normalize_derivative(z))
            if u is None or v is None:
                continue
            if not same(u, (y - av) / sd) or not same(v, z / sd[:, None]):
                b.bad('normalised features', inp)
        if not np.array_equal(x, keep):
            b.bad('the features handed in are changed', inp)
        b.ok((t, 'a'), dict(shape=sh))
    d = tempfile.mkdtemp(prefix='c27.')
    try:
        for t in range(12 if not b.thorough else 60):
            zs = r.choice(([3, 14], [3, 14, 8], [14, 8]))
            n = r.randint(len(zs), 5)
            L = np.eye(3) * r.uniform(4, 5) + g.uniform(-.4, .4, (3, 3))
            sp = sorted(list(zs) + [r.choice(zs) for _ in range(n - len(zs))])
            sts = [D(lattice=L, species=sp, coords=g.random((n, 3))) for _ in range(r.randint(1, 3) if t % 3 else 2)]
            rc, rs, SM = r.uniform(2.5, 3.6), r.uniform(1., 2.3), [3, 3, 3]
            nb = list(zs) if r.random() < .5 else r.sample(zs, r.randint(1, len(zs)))
            cs = list(zs) if r.random() < .5 else r.sample(zs, r.randint(1, len(zs)))
            W = [r.randint(40, 60) for _ in nb]
            ix = [r.randrange(len(sts)) for _ in range(r.randint(1, 3))] if t % 3 else [0, len(sts) - 1, 0]
            inp = dict(kind='crystals', lattice=L.tolist(), species=sp, coords=[s.frac_coords.tolist() for s in sts], rcut=rc, rcut_smooth=rs, centres=cs, neighbours=nb, widths=W, indices=ix)

            def feats(s, c):
                with quiet():
                    sn = SN.create('v1', structure=s, rcut=rc, scaling_matrix=SM, reformat_mark=True, coords_are_cartesian=True)
                    ps = [TP.create('v1', structure_neighbors=sn, center_atomic_number=c, nbr_atomic_number=z, rcut=rc, rcut_smooth=rs) for z in nb]
                    return np.concatenate([p.get_tildeR(max_num_nbrs=w) for p, w in zip(ps, W)], axis=1), np.concatenate([p.calc_derivative(max_num_nbrs=w) for p, w in zip(ps, W)], axis=1)
            try:
                with limit(60):
                    ref = {(k, c): feats(sts[k], c) for k in set(ix) | {0} for c in cs}
            except Exception:
                continue                # the descriptor itself (C13)

            def make():
                with quiet():
                    return P.TildeRNormalizer.from_dp_labeled_system(SC(sts, np.zeros(len(sts)), np.zeros(len(sts)), np.zeros(len(sts)), np.zeros((len(sts), 3, 3))), ix, rc, rs, cs, nb, W, SM)
            o = guard(b, 'from_dp_labeled_system', inp, make, 60)
            if o is None:
                continue
            st = [stats(np.concatenate([ref[k, c][0] for k in ix], axis=1)) for c in cs]
            A, S = np.concatenate([x[0] for x in st]), np.concatenate([x[1] for x in st])
            if not same(o.davgs, A) or not np.allclose(o.dstds, S, rtol=1e-6, atol=1e-6):
                b.bad('statistics of a data set', dict(inp, got=[o.davgs.tolist(), o.dstds.tolist()], want=[A.tolist(), S.tolist()]))
                continue
            p = os.path.join(d, 'n.h5')
            o2 = guard(b, 'to, from_file', inp, lambda: (o.to(p), P.TildeRNormalizer.from_file(p))[1])
            if o2 is None:
                continue
            for nm in NAMES:
                if np.shape(getattr(o2, nm)) != np.shape(getattr(o, nm)) or not np.allclose(np.asarray(getattr(o2, nm), dtype=float), np.asarray(getattr(o, nm), dtype=float), rtol=1e-12, atol=0):
                    b.bad('%s read back' % nm, dict(inp, got=str(getattr(o2, nm)), want=str(getattr(o, nm))))
            for q in (o, o2):
                def norm():
                    with quiet():
                        return q.normalize(sts[0])
                got = guard(b, 'normalize', inp, norm, 60)
                if got is None:
                    break
                T = np.concatenate([(ref[0, c][0] - A[k]) / S[k] for k, c in enumerate(cs)], axis=0)
                E = np.concatenate([ref[0, c][1] / S[k][:, None] for k, c in enumerate(cs)], axis=0)
                if not (np.asarray(got[0]).shape == T.shape and np.allclose(got[0], T, rtol=1e-4, atol=1e-5) and np.asarray(got[1]).shape == E.shape and np.allclose(got[1], E, rtol=1e-4, atol=1e-5)):
                    b.bad('normalised features of a crystal', inp)
                    break
            b.ok((t, 'c'), dict(n=n))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    import sys
    import props.C27 as m
    sys.exit(main(m))
