"""Reading atom.config and MOVEMENT files (io/pwmat/utils: lineLocator, acextractor, mvextractor; io/pwmat/output/movement.py)."""
from vc.pylib import *
from vc.report import main
from vc import pytext
from vc.pytext import Src, located
from vc.py import TextBuf

ID = 'C15'
U = 'matersdk/io/pwmat/utils/'
MVT = 'matersdk/io/pwmat/output/movement.py'
ASSUMPTIONS = ['a text file is a sequence of lines, a line a sequence of blank-separated tokens; int()/float() of a token is its value',
               'the file is complete: the lines and tokens a block needs are there',
               'lists and arrays behave as the models in vc/pynp.py state']
TRUSTED = TRUSTED + ['vc/pytext.py: open, readline, readlines, linecache.getline, str.split, str.upper, substring test']


# ------------------------------------------------------------------ locators
def u_locate(file):
    cl = 'LineLocator' if file else 'ListLocator'

    def run(it, m):
        s = Src('F')
        T = nat(it, 'T')
        if file:
            pytext.install(it, s, T, 'PATH')
        it.textmode = True
        f = it.getattr(m.get(it, cl), 'locate_all_lines')
        r = it.call(f, ['PATH' if file else PList(s.lines(0, T)), 'CONTENT'])
        cnt, sel = located(it, s, T, 'CONTENT')
        r = it.seq(r)
        it.check('as many as there are lines with the content', num(r.n if isinstance(r, SSeq) else len(r)) == cnt)
        k, i = N('k'), N('i')
        off = 1 if file else 0
        with given(it, rng(k, cnt)):
            it.check('k-th line that has it, counted from %d' % off, num(r.get(k)) == sel(k) + off)
            it.check('a line of the file that has the content', z3.And(rng(sel(k), T), s.has('CONTENT')(sel(k))))
    return unit(cl, U + 'lineLocator.py', run, [cl + '.locate_all_lines'], exact=False)


def loc_contracts(it, s, T, need=None):
    """need: {content: minimal number of lines having it} (0: no line has it)"""
    need = need or {}

    def known(c):
        cnt, sel = located(it, s, T, c)
        if c in need:
            it.assume(cnt == 0 if need[c] == 0 else cnt >= need[c])
            if need[c]:
                for k in (0, -1):
                    p = sel(I0 if k == 0 else cnt - 1)
                    it.assume(rng(p, T))
        return cnt, sel

    def line(it, file_path, content):
        cnt, sel = located(it, s, T, content)
        return PList(SSeq(cnt, lambda k: sel(num(k)) + 1))

    def lst(it, strs_lst, content):
        q = it.seq(strs_lst)
        el = q.get(I0) if isinstance(q, SSeq) else q[0]
        if el.cls == 'line':
            cnt, sel = located(it, s, T, content)
            it.check('all lines are searched', num(q.n) == T)
            return PList(SSeq(cnt, lambda k: sel(num(k))))
        i = el.f['i']
        h = s.thas(content)
        n = num(q.n if isinstance(q, SSeq) else len(q))
        cnt, sel, _ = it.gh.count(n, lambda j: h(i, j))
        return PList(SSeq(cnt(n), lambda k: sel(num(k))))
    it.contracts['LineLocator.locate_all_lines'] = line
    it.contracts['ListLocator.locate_all_lines'] = lst
    return {c: known(c) for c in need}


# ------------------------------------------------------------------ atom.config
GETTERS = ['types', 'coords', 'basis_vectors', 'magmoms', 'no magmoms', 'eatoms', 'fatoms', 'no fatoms', 'virial', 'no virial', 'no eatoms']


def block(it, s, T, row, n, toks):
    """n lines after 0-based line row, each with at least toks tokens"""
    it.assume(z3.And(row >= 0, row + n < T))
    it.gh.schemas.append((s.NT, lambda q: z3.Implies(z3.And(q > row, q <= row + n), s.NT(q) >= toks)))


def getter(cl, what):
    isstr = cl == 'ACstrExtractor'
    no = what.startswith('no ')
    w = what.split()[-1]
    content = {'types': 'POSITION', 'coords': 'POSITION', 'basis_vectors': 'LATTICE', 'virial': 'LATTICE', 'magmoms': 'MAGNETIC',
               'eatoms': 'ATOMIC-ENERGY, ', 'fatoms': 'FORCE'}[w]
    mf = 'get_' + w

    def run(it, m):
        s = Src('F')
        T, n = nat(it, 'T', 1), nat(it, 'n', 1)
        need = {content: 0 if no and w != 'virial' else 1}
        known = loc_contracts(it, s, T, need)
        cnt, sel = known[content]
        o = Obj(m.get(it, cl), dict(num_atoms=n, strs_lst=PList(s.lines(0, T)), atom_config_path='PATH', file_path='PATH'))
        if not isstr:
            pytext.install(it, s, T, 'PATH')
        row = sel(cnt - 1) if w == 'magmoms' and not isstr else sel(I0)
        i, k = N('i'), N('k')
        if need[content]:
            if w in ('basis_vectors', 'virial'):
                it.assume(z3.And(row >= 0, row + 3 < T))
                for q in (1, 2, 3):
                    it.assume(s.NT(row + q) == 8 if w == 'virial' and not no else s.NT(row + q) >= 3)
                    if w == 'virial':
                        st = s.thas('STRESS')
                        has = it.gh.count(s.NT(row + q), lambda j: st(row + q, j))[0](s.NT(row + q))
                        it.assume(has == 0 if no and q == 2 else has >= 1)
            else:
                block(it, s, T, row, n, {'types': 1, 'coords': 4, 'fatoms': 4, 'eatoms': 2, 'magmoms': 1}[w])
                with given(it):
                    pass
        try:
            r = it.method(o, mf)
        except Raised as e:
            it.check('no data: AttributeError', no and e.name == 'AttributeError' and w in ('magmoms', 'eatoms', 'virial') and isstr)
            return
        if no:
            if w == 'fatoms':
                shape_is(it, 'forces', r, (3 * n,))
                with given(it, rng(i, 3 * n)):
                    it.check('no data: zero forces', r.get(i) == 0)
            elif w == 'magmoms' and not isstr:
                q = it.seq(r)
                it.check('no data: one moment per atom', num(q.n) == n)
                with given(it, rng(i, n)):
                    it.check('no data: zero moments', real(q.get(i)) == 0)
            else:
                it.check('no data: AttributeError', False)
            return
        if w in ('basis_vectors', 'virial'):
            shape_is(it, w, r, (9,))
            for a in range(3):
                for c in range(3):
                    tk = z3.IntVal(c) if w == 'basis_vectors' else s.NT(row + 1 + a) - 3 + c
                    it.check('%s: number %d of line %d after the heading' % (w, c, a + 1), r.get(3 * a + c) == s.FLT(row + 1 + a, tk))
            return
        it.gh.divhints += [(3, i, k), (z3.IntVal(3), i, k)]
        lem = z3.Implies(z3.And(i >= 0, i < n), s.NT(row + 1 + i) >= {'types': 1, 'coords': 4, 'fatoms': 4, 'eatoms': 2, 'magmoms': 1}[w])
        with given(it, rng(i, n), rng(k, 3), lem):
            if w == 'types':
                shape_is(it, w, r, (n,))
                it.check('species of atom i', r.get(i) == s.INT(row + 1 + i, I0))
            elif w in ('coords', 'fatoms'):
                shape_is(it, w, r, (3 * n,))
                it.check('component k of atom i', r.get(3 * i + k) == s.FLT(row + 1 + i, k + 1))
            elif w == 'eatoms':
                shape_is(it, w, r, (n,))
                it.check('energy of atom i', r.get(i) == s.FLT(row + 1 + i, I1))
            elif w == 'magmoms':
                if isinstance(r, SArr):
                    shape_is(it, w, r, (n,))
                    g = r.get(i)
                else:
                    q = it.seq(r)
                    it.check('one moment per atom', num(q.n) == n)
                    g = q.get(i)
                it.check('moment of atom i', real(g) == s.FLT(row + 1 + i, s.NT(row + 1 + i) - 1))
    return unit('%s.get_%s%s' % (cl, w, ', absent' if no else ''), U + 'acextractor.py', run, ['%s.%s' % (cl, mf)], exact=False)


def u_natoms():
    def run(it, m):
        s = Src('F')
        T = nat(it, 'T', 1)
        pytext.install(it, s, T, 'PATH')
        it.assume(s.NT(I0) >= 1)
        o = Obj(m.get(it, 'ACExtractor'), dict(atom_config_path='PATH'))
        it.check('first number of the first line', num(it.method(o, 'get_num_atoms')) == s.INT(I0, I0))
    return unit('ACExtractor.get_num_atoms', U + 'acextractor.py', run, ['ACExtractor.get_num_atoms'], exact=False)


def u_etot():
    def run(it, m):
        s = Src('F')
        T = nat(it, 'T', 1)
        h = s.phas('EK (EV) =')
        cnt, sel, _ = it.gh.count(s.NC(I0), lambda c: h(I0, c))

        def lst(it, strs_lst, content):
            q = it.seq(strs_lst)
            it.check('the comma-separated pieces of the first line are searched', z3.And(num(q.n) == s.NC(I0), q.get(I0).f['i'] == 0))
            c2, s2, _ = it.gh.count(s.NC(I0), lambda c: s.phas(content)(I0, c))
            return PList(SSeq(c2(num(q.n)), lambda k: s2(num(k))))
        it.contracts['ListLocator.locate_all_lines'] = lst
        it.assume(z3.And(s.NC(I0) >= 1, cnt(s.NC(I0)) >= 1, rng(sel(I0), s.NC(I0)), s.PNT(I0, sel(I0)) >= 4))
        o = Obj(m.get(it, 'ACstrExtractor'), dict(strs_lst=PList(s.lines(0, T)), num_atoms=N('n')))
        r = it.method(o, 'get_etot')
        shape_is(it, 'energy', r, (1,))
        it.check('first number after "Ek (eV) ="', r.get(0) == s.PFLT(I0, sel(I0), z3.IntVal(3)))
    return unit('ACstrExtractor.get_etot', U + 'acextractor.py', run, ['ACstrExtractor.get_etot'], exact=False)


# ------------------------------------------------------------------ frames of a MOVEMENT file
SEPARATOR = '-' * 38
MV = {'MVExtractor': dict(file=U + 'mvextractor.py', sizes='get_chunksizes', slices='get_chunkslices', text='get_frame_str', fsizes='chunksizes', fslices='chunkslices', path='mv_path'),
      'Movement': dict(file=MVT, sizes='get_chunksize', slices='get_chunkslice', text='_get_frame_str', fsizes='chunksizes_lst', fslices='chunkslices_lst', path='movement_path')}


def u_sizes(cl):
    c = MV[cl]

    def run(it, m):
        F = nat(it, 'F', 1)
        SEP = z3.Function('SEP', IntS, IntS)
        asked = []

        def line(it, file_path, content):
            asked.append(content)
            it.check('of this file', file_path == 'PATH')
            return PList(SSeq(F, lambda k: SEP(num(k)) + 1))
        it.contracts['LineLocator.locate_all_lines'] = line
        o = Obj(m.get(it, cl), {c['path']: 'PATH'})
        r = it.seq(it.method(o, c['sizes']))
        it.check('the lines of dashes are located', len(asked) == 1 and set(asked[0]) == {'-'})
        it.check('one size per line of dashes', num(r.n) == F)
        k = N('k')
        it.check('the first frame ends with the first line of dashes', num(r.get(I0)) == SEP(I0) + 1)
        with given(it, k >= 1, k < F):
            it.check('frame k: the lines after the dashes of frame k-1 up to its own', num(r.get(k)) == SEP(k) - SEP(k - 1))
        if cl == 'MVExtractor':
            it.check('number of frames', num(o.f['num_frames']) == F)
            it.check('number of frames, asked for', num(it.method(o, 'get_num_frames')) == F)
    return unit(cl + '.' + c['sizes'], c['file'], run, [cl + '.' + c['sizes']] + (['MVExtractor.get_num_frames'] if cl == 'MVExtractor' else []), exact=False)


def u_slices(cl):
    c = MV[cl]

    def run(it, m):
        F = nat(it, 'F', 1)
        SZ = z3.Function('SZ', IntS, IntS)
        lst = PList(SSeq(F, lambda k: SZ(k)))
        o = Obj(m.get(it, cl), {c['path']: 'PATH', c['fsizes']: lst})
        r = it.method(o, c['slices'])
        shape_is(it, 'slices', r, (F + 1,))
        it.check('the first frame starts at line 0', r.get(0) == 0)
        k = N('k')
        with given(it, rng(k, F)):
            it.check('frame k+1 starts where frame k ends', r.get(k + 1) == r.get(k) + SZ(k))
            it.check('the sizes are not changed', num(it.seq(o.f[c['fsizes']]).get(k)) == SZ(k))
        it.check('nor their number', num(it.seq(o.f[c['fsizes']]).n) == F)
    return unit(cl + '.' + c['slices'], c['file'], run, [cl + '.' + c['slices']], exact=False)


def u_text(cl):
    c = MV[cl]

    def run(it, m):
        s = Src('F')
        T, F = nat(it, 'T', 1), nat(it, 'F', 1)
        pytext.install(it, s, T, 'PATH')
        SL = z3.Function('SL', IntS, IntS)
        f = N('f')
        it.assume(z3.And(rng(f, F), SL(f) >= 0, SL(f) < SL(f + 1), SL(f + 1) <= T))
        o = Obj(m.get(it, cl), {c['path']: 'PATH', c['fslices']: SArr((F + 1,), lambda idx: SL(*idx), 'i')})
        r = it.method(o, c['text'], f)
        lo, n = pytext.span(it, r)
        it.check('starts with the first line of the frame', lo == SL(f))
        it.check('ends with the last one', n == SL(f + 1) - SL(f))
    return unit(cl + '.' + c['text'], c['file'], run, [cl + '.' + c['text']], exact=False)


FIELDS = ['box', 'types', 'coords', 'etot', 'fatoms']
OPT = ['virial', 'eatoms', 'magmoms']
METH = dict(box='get_basis_vectors')


def stub(it, at, absent=(), nat_=None):
    """what ACstrExtractor(text) returns for the text starting at line `at`: arrays named by field and line"""
    o = Obj('acstr', dict(at=num(at)))
    dims = dict(box=9, etot=1, virial=9, types=nat_, eatoms=nat_, magmoms=nat_, coords=3 * nat_ if nat_ is not None else None, fatoms=3 * nat_ if nat_ is not None else None)
    for w in FIELDS + OPT:
        fn = z3.Function('V.' + w, IntS, IntS, IntS if w == 'types' else RealS)

        def h(it, o, w=w, fn=fn):
            def f(it, a, k):
                if w in absent:
                    raise Raised('AttributeError')
                q = o.f['at']
                return SArr((dims[w],), lambda idx: fn(q, idx[0]), 'i' if w == 'types' else 'f')
            return Prim(f)
        o.hooks[METH.get(w, 'get_' + w)] = h
    return o


def value(w):
    return z3.Function('V.' + w, IntS, IntS, IntS if w == 'types' else RealS)


def combos():
    import itertools as I
    return list(I.product((True, False), repeat=3))


def acstr(it, n, absent=()):
    spans = []

    def mk(it, atom_config_str):
        lo, ln = pytext.span(it, atom_config_str)
        spans.append((lo, ln))
        return stub(it, lo, absent, n)
    it.contracts['ACstrExtractor'] = mk
    return spans


def u_frame_info():
    def run(it, m):
        n = nat(it, 'n', 1)
        SL = z3.Function('SL', IntS, IntS)
        f = N('f')
        s = Src('F')
        for marks in combos():
            spans = acstr(it, n)
            it.contracts['MVExtractor.get_frame_str'] = lambda it, self, fidx: pytext.text_obj(s, SL(num(fidx)), SL(num(fidx) + 1) - SL(num(fidx)))
            o = Obj(m.get(it, 'MVExtractor'), dict(virial_mark=marks[0], eatoms_mark=marks[1], magmoms_mark=marks[2]))
            r = it.tolist(it.method(o, 'get_frame_info', f))
            lab = it.tolist(it.method(o, 'get_info_labels'))
            want = FIELDS + [w for w, q in zip(OPT, marks) if q]
            it.check('%s: labels' % (marks,), lab == want)
            it.check('%s: one entry per label' % (marks,), len(r) == len(want))
            k = N('k')
            for w, g in zip(want, r):
                with given(it, rng(k, g.shape[0])):
                    it.check('%s: entry %s of frame f' % (marks, w), g.get(k) == value(w)(SL(f), k))
    return unit('MVExtractor.get_frame_info, get_info_labels', MV['MVExtractor']['file'], run, ['MVExtractor.get_frame_info', 'MVExtractor.get_info_labels'], exact=False)


def u_frames_info():
    def run(it, m):
        for marks in combos():
            s = Src('F')
            n, T, F = nat(it, 'n', 1), nat(it, 'T', 1), nat(it, 'F', 1)
            SZ = z3.Function('SZ', IntS, IntS)
            acstr(it, n)
            pytext.install(it, s, T, 'PATH')
            it.gh.schemas = [(SZ, lambda q: z3.Implies(rng(q, F), SZ(q) >= 1))]
            S = it.gh.sum(F, lambda k: SZ(k))[0]
            it.assume(S(F) <= T)
            k = N('k')
            start_lemma(it, S, SZ, F, T)
            o = Obj(m.get(it, 'MVExtractor'), dict(mv_path='PATH', virial_mark=marks[0], eatoms_mark=marks[1], magmoms_mark=marks[2], chunksizes=PList(SSeq(F, lambda k: SZ(k)))))
            r = it.tolist(it.method(o, 'get_frames_info'))
            want = FIELDS + [w for w, q in zip(OPT, marks) if q]
            it.check('%s: one table per label' % (marks,), len(r) == len(want))
            j = N('j')
            for w, g in zip(want, r):
                it.check('%s: %s: one row per frame' % (marks, w), z3.And(len(g.shape) == 2, num(g.shape[0]) == F))
                with given(it, rng(k, F), rng(j, g.shape[1])):
                    it.check('%s: %s: row k holds the values of frame k' % (marks, w), g.get(k, j) == value(w)(S(k), j))
    return unit('MVExtractor.get_frames_info', MV['MVExtractor']['file'], run, ['MVExtractor.get_frames_info'], exact=False, timeout=200)


def start_lemma(it, S, SZ, F, T):
    """sizes are positive, so every frame that is read lies inside the file (S is increasing)"""
    it.gh.schemas.append((SZ, lambda q: z3.Implies(rng(q, F), z3.And(S(q) >= 0, S(q + 1) == S(q) + SZ(q), S(q + 1) <= S(F)))))


def u_starts():
    def run(ctx):
        it = Interp(ctx)
        F = N('F')
        SZ = z3.Function('SZ', IntS, IntS)
        S = z3.Function('S', IntS, IntS)
        k, j = N('k'), N('j')
        q = z3.Int('q')
        it.assume(z3.ForAll([q], z3.Implies(rng(q, F), z3.And(SZ(q) >= 1, S(q + 1) == S(q) + SZ(q)))))
        it.assume(S(I0) == 0)
        it.check('base: S(0) >= 0', S(I0) >= 0, 'lemma')
        it.check('step: S(k) >= 0 gives S(k+1) >= 0', z3.Implies(z3.And(rng(k, F), S(k) >= 0), S(k + 1) >= 0), 'lemma')
        it.check('base: S(F) <= S(F)', S(F) <= S(F), 'lemma')
        it.check('step down: S(k+1) <= S(F) gives S(k) <= S(F)', z3.Implies(z3.And(rng(k, F), S(k + 1) <= S(F)), S(k) <= S(F)), 'lemma')
    return Unit('lemma: frames lie inside the file', run, [], lemma=True)


def u_marks():
    def run(it, m):
        s = Src('F')
        for marks in combos():
            spans = acstr(it, N('n'), [w for w, q in zip(OPT, marks) if not q])
            asked = []
            it.contracts['MVExtractor.get_frame_str'] = lambda it, self, fidx: (asked.append(fidx), pytext.text_obj(s, 0, N('L')))[1]
            o = Obj(m.get(it, 'MVExtractor'), {})
            r = it.tolist(it.method(o, '_find_extra_properties'))
            it.check('%s: what frame 0 holds' % (marks,), [bool(x) for x in r] == list(marks))
            it.check('%s: frame 0 is looked at' % (marks,), all(conc(x) == 0 for x in asked) and len(asked) >= 1)
    return unit('MVExtractor._find_extra_properties', MV['MVExtractor']['file'], run, ['MVExtractor._find_extra_properties'], exact=False)


def u_init():
    def run(it, m):
        for cl in ('MVExtractor',):
            c = MV[cl]
            A, B = PList([1]), SArr((2,), lambda idx: idx[0], 'i')
            it.contracts[cl + '.' + c['sizes']] = lambda it, self: A
            it.contracts[cl + '.' + c['slices']] = lambda it, self: (it.check('sizes known first', self.f[c['fsizes']] is A), B)[1]
            it.contracts[cl + '._find_extra_properties'] = lambda it, self: (it.check('slices known first', self.f[c['fslices']] is B), PList([True, False, True]))[1]
            o = it.construct(m.get(it, cl), ['PATH'], {})
            it.check('path', o.f[c['path']] == 'PATH')
            it.check('marks in order', (o.f['virial_mark'], o.f['eatoms_mark'], o.f['magmoms_mark']) == (True, False, True))
    return unit('MVExtractor.__init__', MV['MVExtractor']['file'], run, ['MVExtractor.__init__'], exact=False)


# ------------------------------------------------------------------ Movement
def u_structures():
    def run(it, m):
        s = Src('F')
        T, F = nat(it, 'T', 1), nat(it, 'F', 1)
        SZ = z3.Function('SZ', IntS, IntS)
        pytext.install(it, s, T, 'PATH')
        it.gh.schemas = [(SZ, lambda q: z3.Implies(rng(q, F), SZ(q) >= 1))]
        S = it.gh.sum(F, lambda k: SZ(k))[0]
        it.assume(S(F) <= T)
        start_lemma(it, S, SZ, F, T)

        def from_str(it, *a, str_content=None, str_format=None, coords_are_cartesian=False):
            it.check('PWmat format, fractional coordinates', str_format == 'pwmat' and coords_are_cartesian is False)
            lo, n = pytext.span(it, str_content)
            return Obj('structure', dict(lo=lo, n=n))
        it.contracts['DStructure.from_str'] = from_str
        o = Obj(m.get(it, 'Movement'), dict(movement_path='PATH', chunksizes_lst=PList(SSeq(F, lambda k: SZ(k)))))
        r = it.seq(it.method(o, 'get_all_frame_structures'))
        it.check('one structure per frame', num(r.n) == F)
        k = N('k')
        with given(it, rng(k, F)):
            g = r.get(k)
            it.check('structure k is read from the lines of frame k', z3.And(g.f['lo'] == S(k), g.f['n'] == SZ(k)))
    return unit('Movement.get_all_frame_structures', MVT, run, ['Movement.get_all_frame_structures'], exact=False)


def u_structures_info():
    def run(it, m):
        s = Src('F')
        T, F = nat(it, 'T', 1), nat(it, 'F', 1)
        SZ = z3.Function('SZ', IntS, IntS)
        pytext.install(it, s, T, 'PATH')
        it.gh.schemas = [(SZ, lambda q: z3.Implies(rng(q, F), SZ(q) >= 1))]
        S = it.gh.sum(F, lambda k: SZ(k))[0]
        it.assume(S(F) <= T)
        start_lemma(it, S, SZ, F, T)
        # abstract places, each a function of the first line of the frame: the heading of the cell and the second equals sign
        ROW = z3.Function('ROW', IntS, IntS)
        EQ = z3.Function('EQ', IntS, IntS)

        # what a complete frame holds
        it.gh.schemas.append((SZ, lambda q: z3.Implies(rng(q, F), z3.And(ROW(S(q)) >= 0, ROW(S(q)) + 3 < SZ(q), EQ(S(q)) >= 0, EQ(S(q)) + 3 < s.NT(S(q)),
                                                                        *[s.NT(S(q) + ROW(S(q)) + w) >= 8 for w in (1, 2, 3)]))))

        def lst(it, strs_lst, content):
            q = it.seq(strs_lst)
            el = q.get(I0)
            i = el.f['i']
            if el.cls == 'line':
                if content not in ('LATTICE VECTOR', 'LATTICE'):
                    raise Unsupported('heading %r' % (content,))
                return PList([ROW(i)])
            if content != '=':
                raise Unsupported('search for %r' % (content,))
            return PList([z3.Function('EQ0', IntS, IntS)(i), EQ(i)])
        it.contracts['ListLocator.locate_all_lines'] = lst

        def from_str(it, *a, str_content=None, str_format=None, coords_are_cartesian=False):
            it.check('PWmat format, fractional coordinates', str_format == 'pwmat' and coords_are_cartesian is False)
            lo, n = pytext.span(it, str_content)
            return Obj('structure', dict(lo=lo, n=n))
        it.contracts['DStructure.from_str'] = from_str
        o = Obj(m.get(it, 'Movement'), dict(movement_path='PATH', chunksizes_lst=PList(SSeq(F, lambda k: SZ(k)))))
        r = it.tolist(it.method(o, 'get_all_frame_structures_info'), 5)
        st = it.seq(r[0])
        it.check('one structure per frame', num(st.n) == F)
        k, a, c = N('k'), N('a'), N('c')
        for w in (1, 2, 3):
            shape_is(it, 'energies', r[w], (F,))
        shape_is(it, 'virials', r[4], (F, 3, 3))
        with given(it, rng(k, F)):
            g = st.get(k)
            it.check('structure k is read from the lines of frame k', z3.And(g.f['lo'] == S(k), g.f['n'] == SZ(k)))
            l = S(k)
            it.check('total energy of frame k', r[1].get(k) == s.FLT(l, EQ(l) + 1))
            it.check('potential energy of frame k', r[2].get(k) == s.FLT(l, EQ(l) + 2))
            it.check('kinetic energy of frame k, without comma', r[3].get(k) == z3.If(s.COMMA(l, EQ(l) + 3), s.STR(l, EQ(l) + 3), s.FLT(l, EQ(l) + 3)))
            for a in range(3):
                for c in range(3):
                    h = l + ROW(l) + 1 + a
                    it.check('virial (%d,%d) of frame k' % (a, c), r[4].get(k, a, c) == s.FLT(h, s.NT(h) - 3 + c))
    return unit('Movement.get_all_frame_structures_info', MVT, run, ['Movement.get_all_frame_structures_info'], exact=False)


def u_one():
    """get_frame_structure, get_frame_energy, get_frame_virial, get_frame_volume"""
    def run(it, m):
        s = Src('F')
        T = nat(it, 'T', 1)
        f = N('f')
        for stress in (True, False):
            asked = []
            it.contracts['Movement._get_frame_str'] = lambda it, self, idx_frame: (asked.append(idx_frame), pytext.text_obj(s, 0, T))[1]
            known = loc_contracts(it, s, T, {'LATTICE VECTOR': 1})
            row = known['LATTICE VECTOR'][1](I0)
            h = s.thas('=')
            cnt, sel, _ = it.gh.count(s.NT(I0), lambda j: h(I0, j))
            e1 = sel(I1)
            it.assume(z3.And(cnt(s.NT(I0)) >= 2, e1 >= 0, e1 + 3 < s.NT(I0), z3.Implies(z3.Not(s.COMMA(I0, e1 + 3)), s.STR(I0, e1 + 3) == s.FLT(I0, e1 + 3))))
            it.assume(row + 3 < T)
            o = Obj(m.get(it, 'Movement'), {})
            if stress:
                r = it.tolist(it.method(o, 'get_frame_energy', f), 3)
                it.check('total energy: after the second equals sign', real(r[0]) == s.FLT(I0, e1 + 1))
                it.check('then the potential energy', real(r[1]) == s.FLT(I0, e1 + 2))
                it.check('then the kinetic energy, without comma', real(r[2]) == s.STR(I0, e1 + 3))
            for q in (1, 2, 3):
                it.assume(s.NT(row + q) == 8 if stress else s.NT(row + q) == 3)
            v = it.method(o, 'get_frame_virial', f)
            shape_is(it, 'virial', v, (3, 3))
            for a in range(3):
                for c in range(3):
                    it.check('virial (%d,%d)' % (a, c), v.get(a, c) == (s.FLT(row + 1 + a, s.NT(row + 1 + a) - 3 + c) if stress else 0))
            it.check('of the frame asked for', all(num(x).eq(f) for x in asked))
            if stress:
                break
    def run2(it, m):
        s = Src('F')
        T = nat(it, 'T', 1)
        f = N('f')
        asked = []
        it.contracts['Movement._get_frame_str'] = lambda it, self, idx_frame: (asked.append(idx_frame), pytext.text_obj(s, 0, T))[1]
        known = loc_contracts(it, s, T, {'LATTICE VECTOR': 1})
        row = known['LATTICE VECTOR'][1](I0)
        it.assume(row + 3 < T)
        for q in (1, 2, 3):
            it.assume(s.NT(row + q) == 3)
        o = Obj(m.get(it, 'Movement'), {})
        v = it.method(o, 'get_frame_virial', f)
        shape_is(it, 'virial', v, (3, 3))
        for a in range(3):
            for c in range(3):
                it.check('no stress in the file: 0 (%d,%d)' % (a, c), v.get(a, c) == 0)
        st = []
        it.contracts['DStructure.from_str'] = lambda it, *a, str_content=None, str_format=None, coords_are_cartesian=False: (st.append((str_content, str_format, coords_are_cartesian)), Obj('structure', dict(volume=R('vol'))))[1]
        r = it.method(o, 'get_frame_structure', f)
        it.check('structure of the frame text, fractional coordinates', len(st) == 1 and st[0][1] == 'pwmat' and st[0][2] is False and st[0][0].f['lo'].eq(num(0)))
        it.check('volume', real(it.method(o, 'get_frame_volume', f)) == R('vol'))
        it.check('of the frame asked for', all(num(x).eq(f) for x in asked))
    return [unit('Movement.get_frame_energy, get_frame_virial', MVT, run, ['Movement.get_frame_energy', 'Movement.get_frame_virial'], exact=False),
            unit('Movement.get_frame_virial (absent), get_frame_structure, get_frame_volume', MVT, run2, ['Movement.get_frame_structure', 'Movement.get_frame_volume'], exact=False)]


def units(tier):
    us = [u_locate(True), u_locate(False), u_natoms()]
    us += [getter('ACExtractor', w) for w in ('types', 'coords', 'basis_vectors', 'magmoms', 'no magmoms')]
    us += [getter('ACstrExtractor', w) for w in GETTERS]
    us += [u_etot(), u_frame_info(), u_frames_info(), u_starts(), u_marks(), u_init(), u_structures(), u_structures_info()] + u_one()
    for cl in MV:
        us += [u_sizes(cl), u_slices(cl), u_text(cl)]
    return us


BOUNDED_RULE = 'random atom.config and MOVEMENT files (1..6 atoms, 1..5 frames, optional stress/force/velocity/energy/magnetic blocks, two header formats), compared with the values written; non-trivial: at least two atoms'


def bounded(b):
    import numpy as np, tempfile, shutil, os
    from props import pwtext
    r = random.Random(b.seed)
    try:
        A = load('matersdk.io.pwmat.utils.acextractor')
        L = load('matersdk.io.pwmat.utils.lineLocator')
        M = load('matersdk.io.pwmat.utils.mvextractor').MVExtractor
        V = load('matersdk.io.pwmat.output.movement').Movement
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    d = tempfile.mkdtemp(prefix='c15.')

    def same(what, inp, f, want):
        g = guard(b, what, inp, f)
        if g is None:
            return
        g, want = np.asarray(g, dtype=float), np.asarray(want, dtype=float)
        if g.shape != want.shape or not np.array_equal(g, want):
            b.bad(what, dict(inp, got=g.tolist(), want=want.tolist()))

    def absent(what, inp, f):
        try:
            with limit(10):
                f()
            b.bad(what + ': no AttributeError though the block is absent', inp)
        except AttributeError:
            pass
        except Exception as e:
            b.bad(what + ': %r' % e, inp)
    try:
        for t in range(60 if not b.thorough else 1000):
            f = pwtext.frame(r, n=r.randint(1000, 1300) if t == 7 else None, forces=r.random() < .8, header=0 if r.random() < .7 else 1)
            fn = os.path.join(d, 'a%d.config' % (t // 2))          # every second file replaces one that has been read
            open(fn, 'w').write(f.text)
            inp = dict(text=f.text)
            flat = lambda x: np.array(x).reshape(-1)
            for word in ('POSITION', 'LATTICE', '1', 'E'):
                want = [i for i, q in enumerate(f.text.splitlines()) if word in q.upper()]
                same('LineLocator ' + word, inp, lambda: L.LineLocator.locate_all_lines(fn, word), [i + 1 for i in want])
                same('ListLocator ' + word, inp, lambda: L.ListLocator.locate_all_lines(f.text.splitlines(), word), want)
            for cl, o in (('ACExtractor', guard(b, 'ACExtractor', inp, lambda: A.ACExtractor(fn))), ('ACstrExtractor', guard(b, 'ACstrExtractor', inp, lambda: A.ACstrExtractor(f.text)))):
                if o is None:
                    continue
                same(cl + '.num_atoms', inp, lambda: o.get_num_atoms(), f.n)
                same(cl + '.get_types', inp, lambda: o.get_types(), f.z)
                same(cl + '.get_coords', inp, lambda: o.get_coords(), flat(f.pos))
                same(cl + '.get_basis_vectors', inp, lambda: o.get_basis_vectors(), flat(f.lat))
                if f.magnetic:
                    same(cl + '.get_magmoms', inp, lambda: o.get_magmoms(), f.mag)
                elif cl == 'ACExtractor':
                    same(cl + '.get_magmoms', inp, lambda: o.get_magmoms(), [0.] * f.n)
                else:
                    absent(cl + '.get_magmoms', inp, o.get_magmoms)
                if cl == 'ACExtractor':
                    continue
                same(cl + '.get_fatoms', inp, lambda: o.get_fatoms(), flat(f.frc))
                (same(cl + '.get_eatoms', inp, lambda: o.get_eatoms(), f.eat) if f.energies else absent(cl + '.get_eatoms', inp, o.get_eatoms))
                (same(cl + '.get_virial', inp, lambda: o.get_virial(), flat(f.vir)) if f.stress else absent(cl + '.get_virial', inp, o.get_virial))
                if f.header == 0:
                    same(cl + '.get_etot', inp, lambda: o.get_etot(), f.e[:1])
            b.ok((t,) if f.n > 1 else None, dict(n=f.n))
        for t in range(40 if not b.thorough else 600):
            F = r.randint(1, 5)
            opts = [r.random() < .5 for _ in range(3)]
            h = 0 if r.random() < .7 else 1
            vary = r.random() < .3                      # the number of atoms may change from frame to frame (Movement only)
            n = r.randint(1, 5) if t != 5 else 1003
            zs = [r.choice((3, 8, 14, 42, 72)) for _ in range(2)]
            fr = [pwtext.frame(r, k, n=r.randint(1, 5) if vary else n, stress=opts[0], energies=opts[1], magnetic=opts[2], header=h, zs=zs) for k in range(F)]
            fn = os.path.join(d, 'M%d' % (t // 2))
            pwtext.movement(fn, fr)
            inp = dict(movement=open(fn).read())
            if h == 0 and not vary:
                m = guard(b, 'MVExtractor', inp, lambda: M(fn))
                if m is not None:
                    same('get_num_frames', inp, lambda: m.get_num_frames(), F)
                    lab = FIELDS + [w for w, q in zip(OPT, opts) if q]
                    if list(m.get_info_labels()) != lab:
                        b.bad('get_info_labels %s' % m.get_info_labels(), inp)
                    val = lambda q: dict(box=flat(q.lat), types=q.z, coords=flat(q.pos), etot=q.e[:1], fatoms=flat(q.frc), virial=flat(q.vir), eatoms=q.eat, magmoms=q.mag)
                    al = guard(b, 'get_frames_info', inp, lambda: m.get_frames_info())
                    one = [guard(b, 'get_frame_info', inp, lambda: m.get_frame_info(k)) for k in range(F)]
                    for i, w in enumerate(lab):
                        if al is not None:
                            same('get_frames_info: ' + w, inp, lambda: al[i], [val(q)[w] for q in fr])
                        for k in range(F):
                            if one[k] is not None:
                                same('get_frame_info(%d): %s' % (k, w), inp, lambda: one[k][i], val(fr[k])[w])
            m = guard(b, 'Movement', inp, lambda: V(fn))
            if m is not None:
                def st(what, g, q):
                    ok = len(g) == q.n and [s.specie.number for s in g] == q.z and np.allclose(g.frac_coords, q.pos, atol=1e-9) and np.allclose(g.lattice.matrix, q.lat, atol=1e-9)
                    if not ok:
                        b.bad(what, dict(inp, got=str(g)))
                a = guard(b, 'get_all_frame_structures', inp, lambda: m.get_all_frame_structures())
                if a is not None:
                    if len(a) != F:
                        b.bad('get_all_frame_structures: %d structures' % len(a), inp)
                    for k in range(min(F, len(a))):
                        st('get_all_frame_structures: frame %d' % k, a[k], fr[k])
                a = guard(b, 'get_all_frame_structures_info', inp, lambda: m.get_all_frame_structures_info())
                if a is not None:
                    for k in range(F):
                        st('get_all_frame_structures_info: frame %d' % k, a[0][k], fr[k])
                    for c in range(3):
                        same('get_all_frame_structures_info: energy %d' % c, inp, lambda: a[1 + c], [q.e[c] for q in fr])
                    if opts[0]:
                        same('get_all_frame_structures_info: virial', inp, lambda: a[4], [q.vir for q in fr])
                for k in range(F):
                    same('get_frame_energy(%d)' % k, inp, lambda: list(m.get_frame_energy(k)), fr[k].e)
                    same('get_frame_virial(%d)' % k, inp, lambda: m.get_frame_virial(k), fr[k].vir if opts[0] else np.zeros((3, 3)))
                    g = guard(b, 'get_frame_structure', inp, lambda: m.get_frame_structure(k))
                    if g is not None:
                        st('get_frame_structure(%d)' % k, g, fr[k])
                    g = guard(b, 'get_frame_volume', inp, lambda: m.get_frame_volume(k))
                    if g is not None and abs(g - abs(np.linalg.det(fr[k].lat))) > 1e-6 * abs(g):
                        b.bad('get_frame_volume(%d)' % k, inp)
            b.ok((1000 + t,) if F > 1 else None, dict(frames=F, optional=opts, header=h))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import sys
    import props.C15 as m
    sys.exit(main(m))
