"""Densities of states and fat bands: tables of DOS.totalspin and fatbandstructure files (matersdk/io/pwmat/output)."""
import re
from vc.pylib import *
from vc.report import main
from vc import pytext

ID = 'C25'
DOS, FAT = 'matersdk/io/pwmat/output/dostotalspin.py', 'matersdk/io/pwmat/output/fatabandstructureTxt.py'
ASSUMPTIONS = ASSUMPTIONS + ['pandas: read_csv returns the named columns of the file; loc, columns, filter, drop, sum, concat and np.array_split behave as the table model in props/C25.py states',
                             'column names: proved for the listed headers (all numbers of rows, all values); other headers by the bounded part']
TRUSTED = TRUSTED + ['props/C25.py: model of pandas tables', 'pandas.read_csv, re']
HEADERS = [['Mo-s', 'Mo-p', 'Mo-d', 'S-s', 'S-p'], ['S-3S', 'S-3Px', 'Si-3S', 'Si-3Px', 'Si-3Py'], ['Co-4S', 'C-2S', 'O-2S', 'Cu-4S', 'O-2Px', 'C-2Px'], ['H-1S'], ['N-2S', 'Na-3S', 'Ni-4S', 'In-5S', 'I-5S', 'I-5Px']]


def axis1(a, k, n=1):
    ax = k.get('axis', a[n - 1] if len(a) >= n else None)
    if ax not in (1, 'columns') or set(k) - {'axis'}:
        raise Unsupported('table operation along rows')


def names_of(it, o):
    c = o.f['columns']
    l = c.f['names'] if isinstance(c, Obj) else it.tolist(c)
    if not all(isinstance(x, str) for x in l):
        raise Unsupported('column names')
    return list(l)


def table(R, cols):
    """cols: [(name, function of the row)]"""
    o = Obj('table', dict(R=R, fns=[f for _, f in cols], columns=columns([n for n, _ in cols])))
    cols_ = lambda it, o: list(zip(names_of(it, o), o.f['fns']))

    def pick(it, o, key):
        cs = cols_(it, o)
        if isinstance(key, str):
            hit = [f for n, f in cs if n == key]
            if not hit:
                raise Raised('KeyError')
            if len(hit) > 1:
                raise Unsupported('columns of the same name')
            return series(o.f['R'], hit[0])
        if isinstance(key, slice):
            return table(o.f['R'], cs[slice(*[conc(x) for x in (key.start, key.stop, key.step)])]) if not any(isinstance(x, str) for x in (key.start, key.stop)) else (_ for _ in ()).throw(Unsupported('slice of names'))
        l = [conc(x) if not isinstance(x, str) else x for x in it.tolist(key)]
        if l and all(isinstance(x, str) for x in l):
            if any(x not in [n for n, _ in cs] for x in l):
                raise Raised('KeyError')
            return table(o.f['R'], [(x, f) for x in l for n, f in cs if n == x])
        l = [z3.is_true(x) if isz(x) and (z3.is_true(x) or z3.is_false(x)) else x for x in l]
        if all(isinstance(x, bool) for x in l) and len(l) == len(cs):
            return table(o.f['R'], [c for c, x in zip(cs, l) if x])
        raise Unsupported('choice of columns')

    def loc(it, o):
        def get(it, l, key):
            if not (isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None)):
                raise Unsupported('loc of rows')
            return pick(it, o, key[1])

        def put(it, l, key, v):
            if not (isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None)):
                raise Unsupported('loc of rows')
            store(it, o, key[1], v)
        return Obj('loc', {}, dict(getitem=get, setitem=put))

    def store(it, o, key, v):
        ns = names_of(it, o)
        if not isinstance(key, str) or ns.count(key) != 1 or not (isinstance(v, Obj) and v.cls == 'series'):
            raise Unsupported('assignment to columns')
        o.f['fns'] = [v.f['fn'] if n == key else f for n, f in zip(ns, o.f['fns'])]

    def drop(it, o):
        def f(it, a, k):
            lab = k.get('labels', a[0] if a else None)
            if 'columns' in k:
                lab = k['columns']
            else:
                axis1(a, {x: y for x, y in k.items() if x != 'labels'}, 2)
            lab = [lab] if isinstance(lab, str) else it.tolist(lab)
            cs = cols_(it, o)
            if any(x not in [n for n, _ in cs] for x in lab):
                raise Raised('KeyError')
            return table(o.f['R'], [c for c in cs if c[0] not in lab])
        return Prim(f)

    def filt(it, o):
        def f(it, a, k):
            rx = k.get('regex')
            if a or set(k) != {'regex'}:
                raise Unsupported('filter')
            rx = re.compile(rx) if isinstance(rx, str) else rx.f['rx'] if isinstance(rx, Obj) and rx.cls == 'pattern' else None
            if rx is None:
                raise Unsupported('pattern')
            return table(o.f['R'], [c for c in cols_(it, o) if rx.search(c[0])])
        return Prim(f)

    def total(it, o):
        def f(it, a, k):
            axis1(a, k)
            fs = list(o.f['fns'])
            return series(o.f['R'], lambda i: sum([g(i) for g in fs], z3.RealVal(0)))
        return Prim(f)
    o.hooks.update(loc=loc, drop=drop, filter=filt, sum=total, getitem=pick, setitem=store, iter=lambda it, o: names_of(it, o), copy=lambda it, o: Prim(lambda it, a, k: table(o.f['R'], cols_(it, o))))
    return o


def columns(names):
    o = Obj('columns', dict(names=list(names)))
    lst = lambda it, o: Prim(lambda it, a, k: PList(list(o.f['names'])))

    def get(it, o, key):
        if isinstance(key, slice):
            return columns(o.f['names'][slice(*[conc(x) for x in (key.start, key.stop, key.step)])])
        k = conc(key)
        if not isinstance(k, int):
            raise Unsupported('index of a column')
        return o.f['names'][k]

    def acc(it, o):
        t = lambda g: lambda it, s: Prim(lambda it, a, k: PList([g(n, a[0]) for n in o.f['names']]) if len(a) == 1 and isinstance(a[0], str) and not k else (_ for _ in ()).throw(Unsupported('string accessor')))
        return Obj('str', {}, dict(startswith=t(lambda n, x: n.startswith(x)), endswith=t(lambda n, x: n.endswith(x))))
    o.hooks.update(to_list=lst, tolist=lst, getitem=get, iter=lambda it, o: list(o.f['names']), str=acc)
    return o


def series(R, fn):
    def op(it, op, a, b):
        from vc.py import scalar_op
        if isz(b) or isinstance(b, (int, float)) or type(b).__name__ == 'Fraction':
            return series(R, lambda i: scalar_op(it, op, fn(i), b))
        raise Unsupported('operation on columns')
    return Obj('series', dict(R=R, fn=fn), dict(binop=op))


def model(it, order):
    def concat(it, objs, *a, **k):
        axis1(a, k)
        cs, R = [], None
        for x in it.tolist(objs):
            if not isinstance(x, Obj) or x.cls not in ('table', 'series'):
                raise Unsupported('concat')
            R = x.f['R'] if R is None else R
            cs += [('?%d' % len(cs), x.f['fn'])] if x.cls == 'series' else list(zip(names_of(it, x), x.f['fns']))
        return table(R, cs)
    it.ext['pandas.concat'] = it.ext['pd.concat'] = concat

    def mkset(it, v=()):
        l = it.tolist(v)
        if not all(isinstance(x, str) for x in l):
            raise Unsupported('set')
        return PList(sorted(set(l), reverse=order))
    it.ext['set'] = mkset

    def comp(it, p, *flags, **k):
        fl = 0
        for x in list(flags) + list(k.values()):
            if not (isinstance(x, Ext) and x.name in ('re.IGNORECASE', 're.I')):
                raise Unsupported('flag')
            fl |= re.I
        return Obj('pattern', dict(rx=re.compile(p, fl)))
    it.ext['re.compile'] = comp


def filecols(head, cols):
    fs = {n: z3.Function('col.' + n, IntS, RealS) for n in head + cols}
    return fs, [(n, lambda i, f=fs[n]: f(num(i))) for n in head + cols]


def is_table(it, what, t, R, want, order=None):
    """the table has exactly the columns of want (name -> function of the row), and R rows"""
    it.check(what + ': a table', isinstance(t, Obj) and t.cls == 'table')
    nm = names_of(it, t)
    it.check(what + ': columns', sorted(nm) == sorted(want) and len(nm) == len(t.f['fns']))
    it.check(what + ': order of columns', order is None or nm[:len(order)] == order)
    i = N('i')
    with given(it, rng(i, R)):
        it.check(what + ': number of rows', num(t.f['R']) == num(R))
        for n, f in zip(nm, t.f['fns']):
            it.check('%s: %s of row i' % (what, n), f(i) == want[n](i))


def elements(cols):
    out = {}
    for c in cols:
        out.setdefault(c.split('-')[0], []).append(c)
    return out


def u_dos(h, tot, order):
    cols = HEADERS[h]

    def run(it, m):
        model(it, order)
        R = nat(it, 'R', 1)
        fs, fc = filecols(['Energy', tot], cols)

        def read(it, p, **k):
            if p != 'BAK' or set(k) - {'delimiter', 'sep'} or any(v != r'\s+' for v in k.values()):
                raise Unsupported('read_csv')
            return table(R, fc)
        it.ext['pandas.read_csv'] = it.ext['pd.read_csv'] = read
        o = Obj(m.get(it, 'Dostotalspin'), dict(dos_totalspin_path='FILE', bak_dosfile_path='BAK'))
        col = {n: (lambda i, f=f: f(i)) for n, f in fs.items()}
        is_table(it, 'total', it.method(o, 'get_tdos'), R, {n: col[n] for n in ('Energy', tot)}, ['Energy', tot])
        is_table(it, 'orbitals', it.method(o, 'get_pdos_orbitals'), R, {n: col[n] for n in ['Energy'] + cols}, ['Energy'] + cols)
        want = {e: (lambda i, l=l: sum([fs[c](i) for c in l], z3.RealVal(0))) for e, l in elements(cols).items()}
        want['Energy'] = col['Energy']
        is_table(it, 'elements', it.method(o, 'get_pdos_elements'), R, want, ['Energy'])
    return unit('Dostotalspin tables, columns %s%s' % (' '.join([tot] + cols), ', other set order' if order else ''), DOS, run, ['Dostotalspin.get_tdos', 'Dostotalspin.get_pdos_orbitals', 'Dostotalspin.get_pdos_elements'], exact=False)


def u_fat(h, order, orb):
    cols = HEADERS[h]
    head = ['KPOINT', 'ENERGY', 'weight_tot']

    def run(it, m):
        model(it, order)
        nb, nk = nat(it, 'nb', 1), nat(it, 'nk', 1)
        fs, fc = filecols(head, cols)
        it.contracts['FatbandStructure._preprocess'] = lambda it, o: table(nb * nk, fc)

        def split(it, t, n, *a, **k):
            if a or k or not (isinstance(t, Obj) and t.cls == 'table'):
                raise Unsupported('array_split')
            it.check('as many parts as bands', num(n) == nb)
            cs = list(zip(names_of(it, t), t.f['fns']))
            return PList(SSeq(nb, lambda b: table(nk, [(x, lambda i, f=f: f(num(b) * nk + num(i))) for x, f in cs])))
        it.ext['np.array_split'] = split
        o = Obj(m.get(it, 'FatbandStructure'), dict(num_bands=nb, num_kpoints=nk))
        el = it.method(o, '_get_elements_lst')
        it.check('elements, each once', sorted(it.tolist(el)) == sorted(elements(cols)))
        o.f['elements_lst'] = el
        b = N('b')
        at = lambda f: lambda i: f(b * nk + i)

        def parts(what, l, want, order):
            s = it.seq(l)
            it.check(what + ': one table per band', num(s.n if isinstance(s, SSeq) else len(s)) == nb)
            with given(it, rng(b, nb)):
                is_table(it, what, s.get(b), nk, want, order)
        col = {n: at(f) for n, f in fs.items()}
        parts('all', it.method(o, 'get_total_dfs_lst'), col, head + cols)
        want = {e: at(lambda i, l=l: sum([fs[c](i) for c in l], z3.RealVal(0))) for e, l in elements(cols).items()}
        want.update({n: col[n] for n in head})
        parts('elements', it.method(o, 'get_element_dfs_lst'), want, head)
        for q in orb:
            c = [x for x in cols if x.lower() == q.lower()]
            parts('orbital ' + q, it.method(o, 'get_orbital_dfs_lst', q), {n: col[n] for n in head + c}, head + c)
    return unit('FatbandStructure tables, columns %s%s' % (' '.join(cols), ', other set order' if order else ''), FAT, run,
                ['FatbandStructure._get_elements_lst', 'FatbandStructure.get_total_dfs_lst', 'FatbandStructure.get_element_dfs_lst', 'FatbandStructure.get_orbital_dfs_lst'], exact=False)


def no(what):
    raise Unsupported(what)


def u_counts():
    def run(it, m):
        nb, nk, at = nat(it, 'nb', 2), nat(it, 'nk', 1), N('first')

        def locate(it, *a, **k):
            v = dict(zip(('file_path', 'content'), a), **k)
            if v.get('content') != 'BAND' or v.get('file_path') != 'FILE' or set(v) - {'file_path', 'content'}:
                raise Unsupported('lines asked for')
            return PList(SSeq(nb, lambda k: at + num(k) * (nk + 2)))            # BAND, the rows, an empty line
        it.contracts['LineLocator.locate_all_lines'] = locate
        o = Obj(m.get(it, 'FatbandStructure'), dict(fatbandstructure_txt_path='FILE'))
        it.check('number of bands', num(it.method(o, '_get_num_bands')) == nb)
        it.check('number of k-points', num(it.method(o, '_get_num_kpoints')) == nk)
        k, s = N('k'), it.seq(it.method(o, '_get_BAND_mark_idxs'))
        if not isinstance(s, SSeq):
            raise Unsupported('list of marks')
        it.check('every mark', num(s.n) == nb)
        with given(it, rng(k, nb)):
            it.check('mark of band k', num(s.get(k)) == at + k * (nk + 2))
    return unit('FatbandStructure: numbers of bands and k-points', FAT, run, ['FatbandStructure._get_num_bands', 'FatbandStructure._get_num_kpoints', 'FatbandStructure._get_BAND_mark_idxs'], exact=False)


def u_fatprep(nb, nk):
    def run(it, m):
        model(it, False)
        line = lambda kind, k=0: Obj('fline', dict(kind=kind, k=k), dict(contains=lambda it, o, x: o.f['kind'] == 'BAND' if x == 'BAND' else no('text of a line'), eq=lambda it, o, x: False if x == '' else no('text of a line')))
        ls = [line('head')]
        for q in range(nb):
            ls += [line('BAND', q)] + [line('row', q * nk + k) for k in range(nk)] + [line('empty')]

        def op(it, p, mode='r', **k):
            if mode not in ('r', 'rt') or p != 'FILE':
                raise Unsupported('open')
            return Obj('ifile', {}, dict(iter=lambda it, o: list(ls), readlines=lambda it, o: Prim(lambda it, a, k: PList(list(ls))), close=lambda it, o: Prim(lambda it, a, k: None)))
        it.ext['open'] = op

        def buffer(it, *a):
            if a:
                raise Unsupported('StringIO of a text')
            l = PList([])
            return Obj('buffer', dict(l=l, back=False), dict(write=lambda it, o: Prim(lambda it, a, k: it.setslot(l, 'val', l.val + [a[0]])),
                                                            seek=lambda it, o: Prim(lambda it, a, k: o.f.update(back=True) if conc(a[0]) == 0 else no('seek'))))
        it.ext['io.StringIO'] = it.ext['StringIO'] = buffer
        R = z3.IntVal(nb * nk)
        fs, fc = filecols(['KPOINT', 'ENERGY', 'weight_tot'], HEADERS[1])

        def read(it, p, **k):
            if not (isinstance(p, Obj) and p.cls == 'buffer' and p.f['back']) or set(k) - {'delimiter', 'sep'} or any(v != r'\s+' for v in k.values()):
                raise Unsupported('read_csv')
            if not all(isinstance(x, Obj) for x in p.f['l'].val):
                raise Unsupported('text written')
            got = [(x.f['kind'], x.f['k']) for x in p.f['l'].val if x.f['kind'] != 'empty']
            it.check('header and every row of every band, in order, and no mark', got == [('head', 0)] + [('row', k) for k in range(nb * nk)])
            return table(R, fc)
        it.ext['pandas.read_csv'] = it.ext['pd.read_csv'] = read
        o = Obj(m.get(it, 'FatbandStructure'), dict(fatbandstructure_txt_path='FILE'))
        want = {n: (lambda i, f=f: f(i)) for n, f in fs.items()}
        want['KPOINT'] = lambda i: fs['KPOINT'](i) / z3.RealVal('0.529177249')
        is_table(it, 'table', it.method(o, '_preprocess'), R, want, list(fs))
    return unit('FatbandStructure._preprocess, %d bands of %d k-points' % (nb, nk), FAT, run, ['FatbandStructure._preprocess'], exact=False)


def u_prep(first, want):
    """the prepared copy: the first line without '#', all other lines as they are; the file itself is not written"""
    def run(it, m):
        for nl in (0, 1, 3):
            rest = [Obj('rawline', dict(k=k)) for k in range(nl)]
            out = {}

            def op(it, p, mode='r', **k):
                if mode in ('r', 'rt'):
                    it.check('the file asked for', p == 'DIR/FILE')
                    return Obj('ifile', {}, dict(readlines=lambda it, o: Prim(lambda it, a, k: PList([first] + rest)), close=lambda it, o: Prim(lambda it, a, k: None)))
                it.check('the file itself is not overwritten', p != 'DIR/FILE')
                key = p if isinstance(p, str) else id(p)
                l = out[key] = PList([])
                w = lambda it, a, k: it.setslot(l, 'val', l.val + it.tolist(a[0]))
                return Obj('ofile', {}, dict(writelines=lambda it, o: Prim(w), close=lambda it, o: Prim(lambda it, a, k: None),
                                             write=lambda it, o: Prim(lambda it, a, k: it.setslot(l, 'val', l.val + [a[0]]))))
            it.ext['open'] = op
            it.ext['os.path.dirname'] = lambda it, p: 'DIR' if p == 'DIR/FILE' else (_ for _ in ()).throw(Unsupported('path'))
            it.ext['os.path.basename'] = lambda it, p: 'FILE' if p == 'DIR/FILE' else (_ for _ in ()).throw(Unsupported('path'))
            it.ext['os.path.join'] = lambda it, *p: text([x for k, y in enumerate(p) for x in (['/'] if k else []) + [y]])
            it.ext['os.getpid'] = lambda it: z3.Int('pid')
            it.ext['id'] = lambda it, o: z3.Int('id')
            gone = []
            it.ext['os.remove'] = lambda it, p: gone.append(p)
            o = it.call(m.get(it, 'Dostotalspin'), ['DIR/FILE'])
            bak = it.getattr(o, 'bak_dosfile_path')
            if len(out) != 1 or (bak if isinstance(bak, str) else id(bak)) not in out:
                raise Unsupported('how the copy is kept')
            l = list(out.values())[0].val
            if not all(isinstance(x, str) or any(x is y for y in rest) for x in l) or nl and isinstance(l[-1], str):
                raise Unsupported('how the copy is written')
            it.check('as many lines', len(l) == 1 + nl)
            it.check('header without the mark', isinstance(l[0], str) and l[0].split() == want and l[0].endswith('\n') and l[0].count('\n') == 1)
            it.check('the other lines as they are, in order', all(x is y for x, y in zip(l[1:], rest)))
            it.method(o, '__del__')
            it.check('the file itself is not removed', all(x != 'DIR/FILE' for x in gone))
            it.check('the copy is removed', len(gone) == 1)
    return unit('Dostotalspin._preprocess, header %r' % first, DOS, run, ['Dostotalspin.__init__', 'Dostotalspin._preprocess', 'Dostotalspin.__del__'], exact=False)


def units(tier):
    out = [u_prep('#    Energy     Total   Mo-s  S-p\n', ['Energy', 'Total', 'Mo-s', 'S-p']), u_prep('  Energy  Total  S-3S\n', ['Energy', 'Total', 'S-3S'])]
    out += [u_counts()] + [u_fatprep(nb, nk) for nb, nk in ((1, 1), (2, 1), (2, 3), (3, 2))]
    for h in range(len(HEADERS)):
        for order in (False, True):
            out += [u_dos(h, 'total' if h == 1 else 'Total', order)]
            out += [u_fat(h, order, [HEADERS[h][0], HEADERS[h][-1].lower()] + (['o-2s'] if h == 2 else []))]
    return out


BOUNDED_RULE = 'random tables written as files and read back: elements whose symbols are prefixes of others, one to many rows and bands, degenerate bands, equal rows, unsorted energies, several objects of one file, a file rewritten in between'
EL = ['S', 'Si', 'C', 'Co', 'Cl', 'O', 'Mo', 'H', 'He', 'N', 'Na', 'Ni', 'I', 'In', 'B', 'Br', 'Se', 'Os']
ORB = ['1S', '2S', '2Px', '2Py', '2Pz', '3Dxy', '3Dz2', 's', 'p', 'd']


def bounded(b):
    import tempfile, shutil, random, os, gc
    import numpy as np
    r = random.Random(b.seed)
    try:
        D = load('matersdk.io.pwmat.output.dostotalspin').Dostotalspin
        F = load('matersdk.io.pwmat.output.fatabandstructureTxt').FatbandStructure
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    d = tempfile.mkdtemp(prefix='c25.')
    close = lambda x, y: len(x) == len(y) and all(abs(float(p) - float(q)) <= 1e-9 * (1 + abs(float(q))) for p, q in zip(x, y))
    val = lambda: r.choice((0.0, 1.0, r.uniform(0, 30), r.uniform(0, 1e-6), -r.uniform(0, 1), r.uniform(0, 1e5)))

    def pool():
        el = r.sample(EL, r.randint(1, 6))
        out = [e + '-' + q for e in el for q in r.sample(ORB, r.randint(1, 5))]
        if r.random() < .3:
            r.shuffle(out)
        return out

    def show(t):
        return {str(c): [float(x) for x in t[c]] for c in t.columns}
    live = []
    try:
        for t in range(60 if not b.thorough else 1500):
            cols, tot = pool(), r.choice(('Total', 'Total', 'total'))
            R = r.choice((1, 2, r.randint(3, 40), 150))
            rows = [[-5 + .1 * k] + [val() for _ in range(len(cols) + 1)] for k in range(R)]
            if r.random() < .3:
                r.shuffle(rows)
            if r.random() < .3:
                rows.append(list(rows[-1]))         # the same row twice
                R += 1
            p = os.path.join(d, r.choice(('DOS.totalspin', 'DOS.spinup', 'DOS.totalspin_projected')))
            txt = r.choice(('# ', '#      ', '  ', '')) + '   '.join(['Energy', tot] + cols) + '\n' + ''.join('  '.join('%.17g' % x for x in l) + '\n' for l in rows)
            open(p, 'w').write(txt)
            inp = dict(kind='DOS', columns=[tot] + cols, rows=R, file=txt[:2000])
            o = guard(b, 'Dostotalspin', inp, lambda: D(p))
            if o is None:
                continue
            live = (live + [o])[-r.randint(1, 3):]
            del o
            gc.collect()
            if not os.path.exists(p):
                b.bad('the file itself is removed with an object', inp)
                break
            o = live[-1]
            c = {n: [l[k] for l in rows] for k, n in enumerate(['Energy', tot] + cols)}
            want = {e: [sum(c[x][k] for x in l) for k in range(R)] for e, l in elements(cols).items()}
            want['Energy'] = c['Energy']
            for what, g, w, order in (('total', o.get_tdos, {n: c[n] for n in ('Energy', tot)}, ['Energy', tot]), ('orbitals', o.get_pdos_orbitals, {n: c[n] for n in ['Energy'] + cols}, ['Energy'] + cols),
                                      ('elements', o.get_pdos_elements, want, ['Energy'])):
                for rep in range(2):
                    got = guard(b, what, inp, g)
                    if got is None:
                        break
                    s = show(got)
                    if list(s)[:len(order)] != order or set(s) != set(w) or not all(close(s[n], w[n]) for n in w):
                        b.bad('table of %s' % what, dict(inp, got=str(got)[:600], want={n: x[:4] for n, x in w.items()}))
                        break
            if open(p).read() != txt:
                b.bad('the file itself is changed', inp)
            b.ok((t,), dict(R=R))
            # fat bands
            cols = pool()
            head = ['KPOINT', 'ENERGY', 'weight_tot']
            nb, nk = r.choice((2, 3, r.randint(2, 12), 64)), r.choice((1, 2, r.randint(2, 30)))
            rows = [[[.01 * k * (1 + q % 2)] + [val() for _ in range(len(cols) + 2)] for k in range(nk)] for q in range(nb)]
            if r.random() < .5:
                k = r.randrange(nk)                 # bands degenerate at a k-point; a repeated k-point
                rows[1][k] = list(rows[0][k])
                rows[-1][-1] = list(rows[-1][0])
            p = os.path.join(d, 'fatbandstructure_1.txt')
            txt = '  ' + '  '.join(head + cols) + '\n' + ''.join(' BAND  %d\n' % (q + 1) + ''.join('  '.join('%.17g' % x for x in l) + '\n' for l in rows[q]) + '\n' for q in range(nb))
            open(p, 'w').write(txt)
            inp = dict(kind='fat bands', columns=cols, bands=nb, kpoints=nk, file=txt[:2000])
            o = guard(b, 'FatbandStructure', inp, lambda: F(p))
            if o is None:
                continue
            if (o.num_bands, o.num_kpoints) != (nb, nk) or sorted(o.elements_lst) != sorted(elements(cols)):
                b.bad('numbers of bands and k-points, elements', dict(inp, got=[o.num_bands, o.num_kpoints, list(o.elements_lst)]))
                continue
            for q in range(nb):
                for l in rows[q]:
                    l[0] /= 0.529177249
            E = elements(cols)
            orb = r.choice(cols)
            while sum(x.lower().startswith(orb.lower()) for x in cols) > 1:
                orb = max((x for x in cols if x.lower().startswith(orb.lower())), key=len)
            asked = r.choice((orb, orb.lower(), orb.upper()))
            ix = [head.index(n) if n in head else 3 + cols.index(n) for n in head + [orb]]
            for what, g, w in (('all', o.get_total_dfs_lst, [[l for l in x] for x in rows]), ('elements', o.get_element_dfs_lst, [[l[:3] + [sum(l[3 + cols.index(c)] for c in E[e]) for e in o.elements_lst] for l in x] for x in rows]),
                               ('orbital ' + asked, lambda: o.get_orbital_dfs_lst(asked), [[[l[k] for k in ix] for l in x] for x in rows])):
                got = guard(b, what, inp, g)
                if got is None:
                    continue
                got = [np.asarray(x, dtype=float).tolist() for x in got]
                if len(got) != nb or any(len(x) != nk or not all(close(u, v) for u, v in zip(x, y)) for x, y in zip(got, w)):
                    b.bad('fat bands: ' + what, dict(inp, got=str(got)[:400], want=str(w)[:400]))
            if open(p).read() != txt:
                b.bad('the file itself is changed', inp)
            b.ok((t, 1), dict(nb=nb))
        live, got, g = [], None, None
        o = None
        gc.collect()
        left = [x for x in os.listdir(d) if not (x.startswith('DOS.') and x.split('.')[-1] in ('totalspin', 'spinup', 'totalspin_projected')) and x != 'fatbandstructure_1.txt']
        if left:
            b.bad('copies left behind', dict(files=left))
    finally:
        live, o = [], None
        gc.collect()
        shutil.rmtree(d)


if __name__ == '__main__':
    import sys
    import props.C25 as m
    sys.exit(main(m))
