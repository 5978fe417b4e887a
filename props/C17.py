"""Data sets: frames of MOVEMENT files collected, merged and stored in parts (matersdk/data/infoset.py, infosets.py)."""
import itertools
from vc.pylib import *
from vc.report import main
from vc import pytext
from vc.py import Text
from vc.elements import SYMBOL, NUMBER

ID = 'C17'
SET, SETS = 'matersdk/data/infoset.py', 'matersdk/data/infosets.py'
ASSUMPTIONS = ASSUMPTIONS + ['MVExtractor returns the fields in the order of its labels (proved in C15)', 'the output directory does not exist yet (otherwise os.mkdir raises)']
TRUSTED = TRUSTED + ['os.walk, os.mkdir, os.path.join, np.save, collections.Counter', 'vc/pytext.py: open, write, str.format']
ROWS = dict(box=('box', 9), types=('types', None), coord=('coord', 3), etot=('etot', 1), fatom=('fatom', 3))
OPT = dict(virial=('virial', 9), eatom=('eatom', None), magmom=('magmom', 3))


def fields(it, tag, F, n, marks):
    """the arrays of an InfoSet with F frames of n atoms"""
    out = {}
    dims = dict(box=9, types=n, coord=3 * n, etot=1, fatom=3 * n, virial=9, eatom=n, magmom=n)
    for k, w in enumerate(list(ROWS) + list(OPT)):
        if k >= 5 and not marks[k - 5]:
            continue
        f = z3.Function('%s.%s' % (tag, w), IntS, IntS, IntS if w == 'types' else RealS)
        out[w] = (SArr((F, dims[w]), lambda idx, f=f: f(*idx), 'i' if w == 'types' else 'f'), f)
    return out


def join(it, *a):
    out = []
    for k, x in enumerate(a):
        if k:
            out.append('/')
        out.append(x)
    return text(out)


def plain(x):
    return x if isinstance(x, str) else ''.join(p if isinstance(p, str) else '\0' for p in x.parts)


def holes(x):
    return [] if isinstance(x, str) else [p[1] for p in x.parts if not isinstance(p, str)]


def osmodel(it):
    it.ext['os.path.join'] = join
    it.ext['os.path.exists'] = lambda it, p: z3.Bool('exists')
    it.ext['warnings.warn'] = lambda it, *a, **k: None
    made, saved = PList([]), {x: PList([]) for x in ['%s.npy' % w for w in list(ROWS) + list(OPT)] + ['magmoms.npy']}

    def mkdir(it, p, *a):
        pynp.list_method(it, made, 'append', [Obj('dir', dict(path=p))], {})

    def save(it, file=None, arr=None, *a, **k):
        s = plain(file)
        name = s.rsplit('/', 1)[-1]
        name += '' if name.endswith('.npy') else '.npy'
        it.check('stored under a known name: ' + name, name in saved)
        g = arr.snap()
        pynp.list_method(it, saved[name], 'append', [Obj('saved', dict(path=file, arr=SArr(arr.shape, g, arr.dtype)))], {})
    it.ext['os.mkdir'] = mkdir
    it.ext['os.makedirs'] = lambda it, p, *a, **k: mkdir(it, p)
    it.ext['np.save'] = save
    return made, saved


def u_parts(marks, whole):
    def run(it, m):
        n, F = nat(it, 'n', 1), nat(it, 'F', 1)
        fs = fields(it, 'A', F, n, marks)
        o = Obj(m.get(it, 'InfoSet'), {w: a for w, (a, f) in fs.items()})
        for w, q in zip(OPT, marks):
            o.f[w + '_mark'] = q
            o.f.setdefault(w, False)
        o.f.update(formula='Si2Li3', formula_dict=PDict({'Si': 2, 'Li': 3}), num_frames=F)
        made, saved = osmodel(it)
        files = pytext.out_files(it)
        if whole:
            P, q, r = F, I1, I0
            it.method(o, 'to_dir', 'DIR')
        else:
            P, q, r = nat(it, 'P', 1), nat(it, 'q'), nat(it, 'r')
            it.assume(z3.And(F == q * P + r, r < P))
            it.assume(z3.ToInt(z3.ToReal(F) / z3.ToReal(P)) == q)          # lemma: number of whole parts
            it.method(o, 'to_dir', 'DIR', P)
        K = I1 if whole else z3.If(r == 0, q, q + 1)
        it.check('element list: one symbol per line, in order', len(files) == 1 and plain(list(files)[0]) == 'DIR/Si2Li3/type_map.raw' and ''.join(plain(x) for x in list(files.values())[0].val) == 'Si\nLi\n')
        want = {}
        saved = {k: v for k, v in saved.items() if not (isinstance(v.val, list) and not v.val)}
        for w in fs:
            c = [x for x in saved if x.split('.')[0] in (w, w + 's')]
            it.check('%s is stored' % w, len(c) == 1)
            want[c[0]] = w
        it.check('nothing else is stored', set(want) == set(saved))
        k, j, c = N('k'), N('j'), N('c')
        lem = z3.Implies(z3.And(rng(k, K), k != q), z3.And(k < q, k * P <= q * P - P)) if not whole else z3.BoolVal(True)
        for name, w in want.items():
            l = it.seq(saved[name])
            L = num(l.n if isinstance(l, SSeq) else len(l))
            it.check('%s: number of parts' % w, L == K)
            with given(it, rng(k, K), lem):
                e = l.get(k) if isinstance(l, SSeq) else l[0]
                p = e.f['path']
                hs = holes(p)
                it.check('%s: part k in its own directory' % w, (plain(p).startswith('DIR/Si2Li3/part.') and (len(hs) == 1 and num(hs[0]) == k if not whole else plain(p).startswith('DIR/Si2Li3/part.000/'))))
                a = e.f['arr']
                sz = z3.If(k < q, P, r) if not whole else F
                it.check('%s: part k holds the next %s frames' % (w, 'part_size' if not whole else 'all'), num(a.shape[0]) == sz)
                it.check('%s: all columns' % w, num(a.shape[1]) == num(fs[w][0].shape[1]))
                with given(it, rng(j, sz), rng(c, a.shape[1])):
                    it.check('%s: row j of part k is frame k*part_size+j' % w, a.get(j, c) == fs[w][1](k * P + j, c))
    nm = 'InfoSet.to_dir, %s%s' % ('one part' if whole else 'parts', ''.join(', ' + w for w, q in zip(OPT, marks) if q))
    return unit(nm, SET, run, ['InfoSet.to_dir'], exact=False, timeout=120)


def u_div():
    def run(ctx):
        it = Interp(ctx)
        F, P, q, r = N('F'), N('P'), N('q'), N('r')
        it.assume(z3.And(P >= 1, q >= 0, r >= 0, r < P, F == q * P + r))
        x = z3.Real('x')
        it.assume(x * z3.ToReal(P) == z3.ToReal(F))
        it.check('q <= F/P', z3.ToReal(q) <= x, 'lemma')
        it.check('F/P < q+1', x < z3.ToReal(q) + 1, 'lemma')
        t = z3.Int('t')
        it.check('hence its integer part is q', z3.Implies(z3.And(z3.ToReal(q) <= x, x < z3.ToReal(q) + 1, z3.ToReal(t) <= x, x < z3.ToReal(t) + 1), t == q), 'lemma')
        k = N('k')
        it.check('parts before the last hold part_size frames: k < q gives k*P <= q*P - P', z3.Implies(z3.And(k >= 0, k < q), k * P <= q * P - P), 'lemma')
    return Unit('lemma: number of parts', run, [], lemma=True)


def u_from_file(ans):
    def run(it, m):
        for marks in itertools.product((True, False), repeat=3):
            n, F = nat(it, 'n', 1), nat(it, 'F', 1)
            fs = fields(it, 'A', F, n, marks)
            t = fs['types'][1]
            it.gh.schemas = [(t, lambda a, b: z3.Implies(z3.And(rng(a, F), rng(b, n)), z3.Or(*[t(a, b) == z for z in ans])))]
            mv = Obj('mv', {}, {'_find_extra_properties': lambda it, o: Prim(lambda it, a, k: tuple(marks)),
                                'get_frames_info': lambda it, o: Prim(lambda it, a, k: PList([x for x, _ in fs.values()]))})
            paths = []
            it.contracts['MVExtractor'] = lambda it, movement_path: (paths.append(movement_path), mv)[1]
            o = it.call(it.getattr(m.get(it, 'InfoSet'), 'from_file'), ['PATH', 'pwmat/movement', PList(list(ans))])
            it.check('%s: the file asked for' % (marks,), paths == ['PATH'])
            i, j = N('i'), N('j')
            for w, (a, f) in fs.items():
                g = o.f[w]
                shape_is(it, '%s: %s' % (marks, w), g, a.shape)
                with given(it, rng(i, F), rng(j, a.shape[1])):
                    if w == 'types':
                        v = g.get(i, j)
                        it.check('%s: type index of the element' % (marks,), z3.Or(*[z3.And(v == k, f(i, j) == z) for k, z in enumerate(ans)]))
                    else:
                        it.check('%s: %s as read' % (marks, w), g.get(i, j) == f(i, j))
            for w, q in zip(OPT, marks):
                it.check('%s: %s marked' % (marks, w), o.f[w + '_mark'] is q and (q or o.f[w] is False))
            it.check('%s: frames counted' % (marks,), num(o.f['num_frames']) == F)
            d = o.f['formula_dict'].val
            it.check('%s: elements in the order given' % (marks,), list(d) == [SYMBOL[z] for z in ans])
            for z in ans:
                cnt = it.gh.count(n, lambda j: t(I0, j) == z)[0](n) if len(ans) > 1 else n
                it.check('%s: number of %s atoms' % (marks, SYMBOL[z]), num(d[SYMBOL[z]]) == cnt)
            fm = o.f['formula']
            it.check('%s: formula' % (marks,), plain(fm) == ''.join(SYMBOL[z] + '\0' for z in ans) and z3.And(*[num(h) == num(d[SYMBOL[z]]) for h, z in zip(holes(fm), ans)]))
        try:
            it.call(it.getattr(m.get(it, 'InfoSet'), 'from_file'), ['PATH', 'other', PList(list(ans))])
            it.check('other formats are refused', False)
        except Raised as e:
            it.check('other formats are refused', e.name == 'NameError')
    return unit('InfoSet.from_file, elements %s' % (ans,), SET, run, ['InfoSet.from_file', 'InfoSet.__init__'], exact=False, timeout=120)


CASES = [('ABA', [(0, 0, 0)] * 3), ('ABA', [(1, 1, 1)] * 3), ('AA', [(1, 0, 1), (1, 1, 0)]), ('AAA', [(1, 1, 1), (0, 1, 1), (1, 1, 0)]),
         ('A', [(1, 1, 0)]), ('AB', [(0, 1, 0), (1, 0, 1)]), ('BAAB', [(1, 1, 1), (0, 1, 0), (1, 1, 0), (1, 0, 1)]), ('ABC', [(0, 0, 0)] * 3), ('', [])]
COMP = dict(A=dict(Li=3, Si=2), B=dict(O=2, Li=1), C=dict(Si=4))


def u_from_dir(kinds, marks):
    def run(it, m):
        tree = [('D', PList(['a', 'b']), PList(['x', 'MOVEMENT.bak'])), ('D/empty', PList([]), PList([]))]
        for k in range(len(kinds)):
            tree.append(('D/%d' % k, PList([]), PList(['atom.config', 'MOVEMENT' if k % 2 else 'movement', 'MOVEMENT2'])))
        it.ext['os.path.join'] = join
        asked = []
        it.ext['os.walk'] = lambda it, p, *a, **k: (asked.append(p), PList(tree))[1]
        it.ext['collections.Counter'] = lambda it, l: PDict({x: list(it.tolist(l)).count(x) for x in dict.fromkeys(it.tolist(l))})
        order = []
        for k in kinds:
            order += [x for x in sorted(COMP[k], key=NUMBER.get) if x not in order]
        cls = m.get(it, 'InfoSet')
        sets, want_an = [], [NUMBER[x] for x in order]
        for k, c in enumerate(kinds):
            n, F = z3.IntVal(sum(COMP[c].values())), nat(it, 'F%d' % k, 1)
            fs = fields(it, 'S%d' % k, F, n, marks[k])
            d = {x: COMP[c].get(x, 0) for x in order}
            o = Obj(cls, {w: a for w, (a, f) in fs.items()})
            o.f.update(formula_dict=PDict(d), formula=''.join('%s%d' % x for x in d.items()), num_frames=F)
            for w, q in zip(OPT, marks[k]):
                o.f[w + '_mark'] = bool(q)
                o.f.setdefault(w, False)
            sets.append((o, fs, F))
        paths = ['D/%d/%s' % (k, 'MOVEMENT' if k % 2 else 'movement') for k in range(len(kinds))]
        calls = []

        def from_file(it, c, file_path=None, file_format=None, infosets_atomic_numbers=False):
            an = infosets_atomic_numbers
            calls.append((file_path, file_format, an if an is False else list(it.tolist(an))))
            k = paths.index(file_path)
            if an is False:
                o = Obj(cls, dict(sets[k][0].f))
                o.f['formula_dict'] = PDict({x: COMP[kinds[k]][x] for x in sorted(COMP[kinds[k]], key=NUMBER.get)})
                return o
            return sets[k][0]
        it.contracts['InfoSet.from_file'] = from_file
        res = it.call(it.getattr(m.get(it, 'InfoSets'), 'from_dir'), ['D', 'MOVEMENT', 'pwmat/movement'])
        it.check('the directory asked for is searched', asked == ['D'])
        it.check('every matching file is read, and no other', {c[0] for c in calls} == set(paths) and all(c[1] == 'pwmat/movement' for c in calls))
        it.check('all sets use the union of the elements, in order of appearance', all(c[2] in (False, want_an) for c in calls) and {c[0] for c in calls if c[2]} == set(paths))
        out = it.tolist(res.f['infoset_lst'])
        groups = {}
        for k, c in enumerate(kinds):
            groups.setdefault(c, []).append(k)
        it.check('one set per formula, in order of appearance', [o.f['formula'] for o in out] == [sets[g[0]][0].f['formula'] for g in groups.values()])
        i, j = N('i'), N('j')
        for o, g in zip(out, groups.values()):
            t = 'set %s' % ''.join(str(x) for x in g)
            tot = sum((sets[k][2] for k in g), I0)
            it.check(t + ': frames counted', num(o.f['num_frames']) == num(tot))
            it.check(t + ': composition belongs to the formula', list(o.f['formula_dict'].val.items()) == list(sets[g[0]][0].f['formula_dict'].val.items()))
            for w in list(ROWS) + list(OPT):
                have = w in ROWS or all(marks[k][list(OPT).index(w)] for k in g)
                if w in OPT:
                    it.check(t + ': %s marked iff every file has it' % w, o.f[w + '_mark'] is bool(have) and (have or o.f[w] is False))
                if not have:
                    continue
                a = o.f[w]
                shape_is(it, '%s: %s' % (t, w), a, (tot, sets[g[0]][1][w][0].shape[1]))
                off = I0
                for k in g:
                    F, f = sets[k][2], sets[k][1][w][1]
                    with given(it, rng(i, F), rng(j, a.shape[1])):
                        it.check('%s: %s of file %d follow those of the earlier files' % (t, w, k), a.get(off + i, j) == f(i, j))
                    off = off + F
        tot = it.method(res, 'get_num_frames')
        it.check('get_num_frames: every frame of every file once', num(tot) == sum((s[2] for s in sets), I0))
        parts = []
        it.contracts['InfoSet.to_dir'] = lambda it, o, dir_path=None, part_size=False: parts.append((o, dir_path, part_size))
        P = nat(it, 'P', 1)
        it.method(res, 'to_dir', 'OUT', P)
        it.check('to_dir: every set once', len(parts) == len(out) and all(a[0] is b for a, b in zip(parts, out)) and all(a[1] == 'OUT' for a in parts))
        for a in parts:
            it.check('to_dir: part size', num(a[2]) == P)
        del parts[:]
        it.method(res, 'to_dir', 'OUT')
        it.check('to_dir without a part size: every set once', len(parts) == len(out))
        for a, o in zip(parts, out):
            it.check('to_dir without a part size: one part', a[2] is False or z3.And(num(a[2]) >= num(o.f['num_frames']), num(a[2]) >= 1))
    return unit('InfoSets.from_dir, files %s%s' % (kinds or 'none', ' with ' + ' '.join(''.join('vem'[q] if x else '-' for q, x in enumerate(mk)) for mk in marks)), SETS, run,
                ['InfoSets.from_dir', 'InfoSets.get_num_frames', 'InfoSets.to_dir', 'InfoSets.__init__'], exact=False, timeout=120)


def units(tier):
    us = [u_div()]
    us += [u_parts(mk, w) for mk in ((False,) * 3, (True,) * 3, (True, False, True)) for w in (True, False)]
    us += [u_from_file(a) for a in ((14,), (3, 14), (8, 3, 72))]
    us += [u_from_dir(*c) for c in CASES]
    return us


BOUNDED_RULE = 'random directory trees with 1-4 MOVEMENT files (1-4 frames, 1-5 atoms, files sharing or not sharing a formula, optional blocks present or absent per file, other files around, names in any case), read with InfoSet.from_file and InfoSets.from_dir and stored with random part sizes, compared with the numbers written'
BOUNDED_ONLY = ['InfoSet.from_file without a list of elements (np.unique)', 'InfoSets.from_dir with five or more files', 'InfoSets.__str__']


def bounded(b):
    import numpy as np, tempfile, shutil, os, random
    from props import pwtext
    r = random.Random(b.seed)
    try:
        S = load('matersdk.data.infoset').InfoSet
        T = load('matersdk.data.infosets').InfoSets
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    d = tempfile.mkdtemp(prefix='c17.')
    flat = lambda x: np.array(x, dtype=float).reshape(-1)
    val = lambda q, an: dict(box=flat(q.lat), types=[an.index(z) for z in q.z], coord=flat(q.pos), etot=q.e[:1], fatom=flat(q.frc), virial=flat(q.vir), eatom=q.eat, magmom=q.mag)

    def same(what, inp, g, want):
        g, want = np.asarray(g, dtype=float), np.asarray(want, dtype=float)
        if g.shape != want.shape or not np.array_equal(g, want):
            b.bad(what, dict(inp, got=g.tolist(), want=want.tolist()))

    def compare(what, inp, o, frames, marks, an, order):
        for w in ROWS:
            same(what + ': ' + w, inp, getattr(o, w), [val(q, an)[w] for q in frames])
        for w, q in zip(OPT, marks):
            if bool(getattr(o, w + '_mark')) != q:
                b.bad(what + ': %s mark' % w, inp)
            elif q:
                same(what + ': ' + w, inp, getattr(o, w), [val(x, an)[w] for x in frames])
        if o.num_frames != len(frames):
            b.bad(what + ': num_frames %s' % o.num_frames, inp)
        cnt = [(SYMBOL[z], frames[0].z.count(z)) for z in order]
        if [(k, int(v)) for k, v in o.formula_dict.items()] != cnt or o.formula != ''.join('%s%d' % x for x in cnt):
            b.bad(what + ': formula %s %s, expected %s' % (o.formula, dict(o.formula_dict), cnt), inp)
    try:
        for t in range(40 if not b.thorough else 600):
            root = os.path.join(d, 't%d' % t)
            os.makedirs(root)
            comps = [[r.choice((1, 3, 6, 8, 14, 42, 72)) for _ in range(r.randint(1, 5))] for _ in range(2)]
            files, texts = {}, {}
            for k in range(r.randint(1, 4)):
                zs = list(r.choice(comps))
                r.shuffle(zs)
                opts = [r.random() < .6 for _ in range(3)]
                fr, fixed, many = [], r.random() < .5, t == 0 and k == 0
                if many:
                    zs, fixed = zs[:2], False
                for q in range(103 if many else r.randint(1, 4)):
                    f = pwtext.frame(r, q, n=len(zs), stress=opts[0], energies=opts[1], magnetic=opts[2], header=0, zs=zs)
                    while sorted(f.z) != sorted(zs) or fixed and fr and f.z != fr[0].z:
                        f = pwtext.frame(r, q, n=len(zs), stress=opts[0], energies=opts[1], magnetic=opts[2], header=0, zs=zs)
                    fr.append(f)
                sub = os.path.join(root, *['%s%d' % (r.choice('abc'), r.randrange(3)) for _ in range(r.randint(0, 2))] + ['f%d' % k])
                os.makedirs(sub)
                fn = os.path.join(sub, r.choice(('MOVEMENT', 'movement', 'Movement')))
                pwtext.movement(fn, fr)
                open(os.path.join(sub, 'MOVEMENT.old'), 'w').write('nothing\n')
                files[fn] = (fr, opts)
                texts[os.path.relpath(fn, root)] = open(fn).read()
            inp = dict(files=texts)
            for fn, (fr, opts) in files.items():
                an = sorted(set(fr[0].z))
                o = guard(b, 'from_file', inp, lambda: S.from_file(fn, r.choice(('pwmat/movement', 'PWmat/MOVEMENT'))))
                if o is not None:
                    compare('from_file', inp, o, fr, opts, an, an)
                an = sorted(set(fr[0].z) | {29}, key=lambda z: r.random())
                o = guard(b, 'from_file', inp, lambda: S.from_file(fn, 'pwmat/movement', list(an)))
                if o is not None:
                    compare('from_file with elements %s' % an, inp, o, fr, opts, an, an)
            order = [os.path.join(a, f) for a, _, fs in os.walk(root) for f in fs if f.upper() == 'MOVEMENT']
            an = []
            for fn in order:
                an += [z for z in sorted(set(files[fn][0][0].z)) if z not in an]
            with quiet():
                T0 = guard(b, 'from_dir', inp, lambda: T.from_dir(root, r.choice(('MOVEMENT', 'movement')), 'pwmat/movement'))
            if T0 is None:
                continue
            groups = {}
            for fn in order:
                groups.setdefault(tuple(files[fn][0][0].z.count(z) for z in an), []).append(fn)
            if len(T0.infoset_lst) != len(groups):
                b.bad('from_dir: %d sets instead of %d' % (len(T0.infoset_lst), len(groups)), inp)
                continue
            sets = []
            for o, g in zip(T0.infoset_lst, groups.values()):
                fr = [q for fn in g for q in files[fn][0]]
                mk = [all(files[fn][1][k] for fn in g) for k in range(3)]
                compare('from_dir: set %s' % [os.path.relpath(x, root) for x in g], inp, o, fr, mk, an, an)
                sets.append((o, fr, mk))
            if T0.get_num_frames() != sum(len(x[1]) for x in sets):
                b.bad('get_num_frames %s' % T0.get_num_frames(), inp)
            for P in (False, r.randint(1, 4), 1 if t == 0 else r.choice((1, 2, 3, 7))):
                out = os.path.join(d, 'o%d' % t)
                os.makedirs(out)
                with quiet():
                    if guard(b, 'to_dir part_size=%s' % P, inp, lambda: (T0.to_dir(out, P), 1)[1]) is None:
                        shutil.rmtree(out)
                        continue
                if sorted(os.listdir(out)) != sorted(x[0].formula for x in sets):
                    b.bad('to_dir part_size=%s: directories %s' % (P, os.listdir(out)), inp)
                for o, fr, mk in sets:
                    w0 = 'to_dir part_size=%s, %s' % (P, o.formula)
                    p = os.path.join(out, o.formula)
                    if not os.path.isdir(p):
                        continue
                    if not os.path.exists(os.path.join(p, 'type_map.raw')) or open(os.path.join(p, 'type_map.raw')).read() != ''.join(SYMBOL[z] + '\n' for z in an):
                        b.bad(w0 + ': type_map.raw', inp)
                    sz = P or len(fr)
                    K = -(-len(fr) // sz)
                    ps = ['part.%03d' % k for k in range(K)]
                    if sorted(x for x in os.listdir(p) if x != 'type_map.raw') != ps:
                        b.bad(w0 + ': parts %s' % sorted(os.listdir(p)), inp)
                        continue
                    for k in range(K):
                        q = os.path.join(p, ps[k])
                        have = {x.split('.')[0]: x for x in os.listdir(q)}
                        names = list(ROWS) + [w for w, z in zip(OPT, mk) if z]
                        if set(have) != {x if x in have else x + 's' for x in names}:
                            b.bad(w0 + ': %s holds %s' % (ps[k], sorted(have)), inp)
                            continue
                        for w in names:
                            same('%s: %s of %s' % (w0, w, ps[k]), inp, np.load(os.path.join(q, have.get(w) or have[w + 's'])), [val(x, an)[w] for x in fr[k * sz:(k + 1) * sz]])
                keep = {os.path.join(a, f): open(os.path.join(a, f), 'rb').read() for a, _, fs in os.walk(out) for f in fs}
                try:
                    with quiet():
                        T0.to_dir(out, 1)
                except Exception:
                    pass
                for f in keep:
                    if not os.path.exists(f) or open(f, 'rb').read() != keep[f]:
                        b.bad('a second to_dir changes what is stored: %s' % os.path.relpath(f, out), inp)
                        break
                shutil.rmtree(out)
            b.ok((t,) if len(files) > 1 else None, dict(files=len(files), formulas=len(groups)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import sys
    import props.C17 as m
    sys.exit(main(m))
