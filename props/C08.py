"""Neighbour list (C++): tables handed to the machine-learning code, largest neighbour counts, SWIG binding."""
import itertools, os, sys, random
from vc.cxxlib import *
from vc.core import *
from vc.cxx import assigned_decls
from vc.report import Unit, main
from props.nbspec import *
from props import nbdrv

ID = 'C08'
NL, BL, SC = 'NeighborList<double>', 'BinLinkedList<double>', 'Supercell<double>'
IS_ = z3.IntSort()
LEN, LST, CNT = z3.Function('LEN', IS_, IS_), z3.Function('LST', IS_, IS_, IS_), z3.Function('CNT', IS_, IS_, IS_)


def rng_(x, n):
    return z3.And(x >= 0, x < n)


def vec_family(it, name, n, length, entry):
    """std::vector<int>[n]: vector i holds entry(i, 0..length(i)-1)"""
    par = z3.Int(name + '!i')
    rr = Region(name + '_entries', 'int', None, (par,), None, lambda idx: entry(idx[0], idx[1]), 'int')
    rr.birth = 0
    rr.readonly = True

    def one(idx):
        v = Vec('int')
        v.len = Cell(length(idx[0]), name + '.len')
        v.ptr = Ptr(rr, (idx[0],))
        return v
    return fn_region(it, name, 'std::vector<int>', n, one, readonly=True)


def state(it):
    """a neighbour list of n atoms; vector i holds LST(i, 0..LEN(i)-1), atoms of a supercell of m sites at X, species Z"""
    ctx = it.ctx
    n, m, c = N('n'), N('m'), N('c')
    ctx.assume(z3.And(n >= 1, c >= 0, c * n + n <= m))
    X, Z = zarray('X', 2, 'real'), zarray('Z', 1, 'int')
    st = structure(it, 'st', m, lambda i, k: sel(X, i, k), lambda i: sel(Z, i), lattice(), readonly=True)
    sc = it.new_obj(SC)
    field(it, sc, 'structure', st)
    field(it, sc, 'num_atoms', m)
    field(it, sc, 'prim_cell_idx', c)
    info = it.new_obj('matersdk::BasicStructureInfo<double>')
    field(it, info, 'num_atoms', n)
    field(it, sc, 'prim_structure_info', info)
    b = it.new_obj(BL)
    field(it, b, 'supercell', sc)
    o = it.new_obj(NL)
    field(it, o, 'bin_linked_list', b)
    field(it, o, 'num_atoms', n)
    field(it, o, 'rcut', R('rcut'))
    field(it, o, 'neighbor_lists', vec_family(it, 'lists', n, lambda i: LEN(i), lambda i, j: LST(i, j)))
    return dict(n=n, m=m, c=c, X=X, Z=Z, o=o)


def entry_ok(ctx, g, i, j):
    """contract of C07: lists hold sites of the supercell"""
    ctx.assume(z3.Implies(z3.And(rng_(i, g['n']), rng_(j, LEN(i))), rng_(LST(i, j), g['m'])))


def max_run(ctx):
    """largest number of neighbours"""
    MX = z3.Function('MX', IS_, IS_)               # MX(0) = 0, MX(k+1) = max(MX(k), LEN(k))
    it = Interp(T(), ctx)
    g = state(it)
    n = g['n']
    ctx.assume(MX(z3.IntVal(0)) == 0)

    def inv(L):
        cs = [c for c in cells(L) if c is not L.icell]
        if len(cs) != 1:
            raise Unsupported('%d running values' % len(cs))
        return [('running maximum', cs[0].val == MX(L.k)), ('counter', z3.And(L.k >= 0, L.k <= n))]

    def before(L):
        ctx.assume(LEN(L.k) >= 0)
        ctx.assume(MX(L.k + 1) == z3.If(LEN(L.k) > MX(L.k), LEN(L.k), MX(L.k)))
    it.loops['resolve'] = lambda it_, node, body: LoopSpec(inv, before_body=before)
    r = method(it, g['o'], 'get_max_num_neigh_atoms')
    ctx.check('largest number of neighbours', r == MX(n))


def cells(L):
    if 'cells' not in L.memo:
        fr = L.it.frames[-1]
        out = []
        for d in sorted(assigned_decls(L.body)):
            lv = fr.vars.get(d)
            if isinstance(lv, CellLV) and lv.cell not in out and not isinstance(lv.cell.val, (Vec, Ptr)):
                out.append(lv.cell)
        L.memo['cells'] = out
    return L.memo['cells']


def ssss_run(ctx):
    """largest number of neighbours of one species around atoms of another: CNT(i, z) = neighbours of i of species z"""
    MX = z3.Function('MX', IS_, IS_)
    it = Interp(T(), ctx)
    g = state(it)
    n, Z = g['n'], g['Z']
    zc, zn = N('zc'), N('zn')
    cur = {}
    ctx.assume(MX(z3.IntVal(0)) == 0)

    def count(it, args, node):
        p, q, v = args
        i, j = cur['i'], ctx.fresh('int', 'j')
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.region is q.region):
            raise Unsupported('std::count over something else than a block')
        ctx.check('all neighbours are counted', z3.And(p.off == 0, q.off == LEN(i)))
        ctx.assume(rng_(j, LEN(i)))
        e = p.region.store.read(ctx, tuple(p.args) + (j,))
        ctx.check('by their species', e == sel(Z, LST(i, j)))
        ctx.check('the species asked for', v == zn)
        return CNT(i, zn)
    it.ext['count'] = count

    def inv(L):
        cs = [c for c in cells(L) if c is not L.icell and 'tmp' not in c.name]
        if len(cs) != 1:
            raise Unsupported('%d running values' % len(cs))
        return [('running maximum', cs[0].val == MX(L.k)), ('counter', z3.And(L.k >= 0, L.k <= n))]

    def before(L):
        i = cur['i'] = L.k
        ctx.assume(LEN(i) >= 0)
        ctx.assume(z3.And(CNT(i, zn) >= 0, CNT(i, zn) <= LEN(i)))
        ctx.assume(MX(i + 1) == z3.If(z3.And(sel(Z, i) == zc, CNT(i, zn) > MX(i)), CNT(i, zn), MX(i)))
        q = z3.Int('q!s')
        ctx.assume(z3.ForAll([q], z3.Implies(rng_(q, LEN(i)), rng_(LST(i, q), g['m'])), patterns=[LST(i, q)]))

    def resolve(it_, node, body):
        return LoopSpec(inv, before_body=before) if not cur.get('in') and 'std::count' in src(body) else None
    it.loops['resolve'] = lambda it_, node, body: LoopSpec(inv, before_body=before) if has_call(body, 'count') else None
    r = method(it, g['o'], 'get_max_num_neigh_atoms_ssss', zc, zn)
    ctx.check('largest number of neighbours of that species', r == MX(n))


def has_call(x, name):
    if isinstance(x, dict):
        r = x.get('referencedDecl') or {}
        if r.get('name') == name and x.get('kind') == 'DeclRefExpr':
            return True
        return any(has_call(y, name) for y in x.get('inner', ()))
    return False


def lemma_max(ctx):
    """MX(n) is the maximum: at least every value, and one of them (or 0)"""
    MX, V = z3.Function('MX', IS_, IS_), z3.Function('V', IS_, IS_)
    k, j, w = N('k'), N('j'), N('w')
    ctx.assume(z3.And(k >= 0, MX(z3.IntVal(0)) == 0, MX(k + 1) == z3.If(V(k) > MX(k), V(k), MX(k))))
    up = lambda k: z3.Implies(rng_(j, k), V(j) <= MX(k))
    ctx.check('base', up(z3.IntVal(0)), 'lemma')
    ctx.assume(up(k))
    ctx.check('no value is larger', up(k + 1), 'lemma')
    ctx.assume(z3.Or(MX(k) == 0, z3.And(rng_(w, k), MX(k) == V(w))))
    ctx.check('0 or one of the values', z3.Or(MX(k + 1) == 0, z3.And(rng_(w, k + 1), MX(k + 1) == V(w)), MX(k + 1) == V(k)), 'lemma')


def info_run(ctx):
    it = Interp(T(), ctx)
    g = state(it)
    n, m, c, X, Z = g['n'], g['m'], g['c'], g['X'], g['Z']
    U = N('U')
    ctx.assume(U >= 1)
    q, p = z3.Int('q!i'), z3.Int('q!j')
    ctx.assume(z3.ForAll([q], z3.Implies(rng_(q, n), z3.And(LEN(q) >= 0, LEN(q) <= U)), patterns=[LEN(q)]))
    ctx.assume(z3.ForAll([q, p], z3.Implies(z3.And(rng_(q, n), rng_(p, LEN(q))), rng_(LST(q, p), m)), patterns=[LST(q, p)]))
    blk = lambda nm, e, shape: out_block(it, nm, e, shape)
    il, nn, ty = (blk(x, 'int', (n,)) for x in ('ilist', 'numneigh', 'types'))
    fn, rc = blk('firstneigh', 'int', (n, U)), blk('relative_coords', 'double', (n, U, z3.IntVal(3)))
    inum, ng = Cell(None, 'inum', 'int', 0), Cell(None, 'nghost', 'int', 0)
    f = it.tu.find(NL + '::find_info4mlff', 8)
    it.radix = [(n, U), (n, U, z3.IntVal(3))]
    it.call(f, g['o'], [CellLV(it, inum), ValLV(il), ValLV(nn), ValLV(fn), ValLV(rc), ValLV(ty), CellLV(it, ng), ValLV(U)])
    i, j = N('i'), N('j')
    ctx.assume(z3.And(rng_(i, n), rng_(j, U)))
    ctx.check('number of atoms', inum.val == n)
    ctx.check('no ghost atoms', ng.val == 0)
    ctx.check('atoms in order', ld(it, il, i) == i)
    ctx.check('number of neighbours', ld(it, nn, i) == LEN(i))
    ctx.check('species', ld(it, ty, i) == sel(Z, i))
    w = ld(it, fn, i * U + j)
    ctx.check('neighbour j of atom i: index in the original cell, -1 beyond the last', w == z3.If(j < LEN(i), LST(i, j) % n, -1))
    for k in range(3):
        ctx.check('its displacement, component %d, 0 beyond the last' % k, ld(it, rc, i * U * 3 + j * 3 + k) == z3.If(j < LEN(i), sel(X, LST(i, j), k) - sel(X, i + c * n, k), 0))


def out_block(it, name, elem, shape):
    size = shape[0]
    for d in shape[1:]:
        size = size * d
    r = Region(name, elem, simp(size), (), tuple(shape) if len(shape) > 1 else None, None, sort_of(elem))
    if len(shape) > 1:
        r.store.rank = len(shape)
    r.birth = 0
    return Ptr(r)


def units(tier):
    T()
    return [Unit('NeighborList::get_max_num_neigh_atoms', max_run, ['NeighborList::get_max_num_neigh_atoms']),
            Unit('NeighborList::get_max_num_neigh_atoms_ssss', ssss_run, ['NeighborList::get_max_num_neigh_atoms_ssss']),
            Unit('lemma: running maximum', lemma_max, [], lemma=True),
            Unit('NeighborList::find_info4mlff', info_run, ['NeighborList::find_info4mlff'])]


BOUNDED_RULE = 'random structures as in C07 (capacities from the largest count up); the SWIG module built from the sources on the same structures, fractional and cartesian'


def expected(c, lists, U):
    """tables from the lists (of (index, Z, displacement)) in the order given"""
    fn, rc = [], []
    for l in lists:
        fn += [e[0] for e in l] + [-1] * (U - len(l))
        for e in l:
            rc += list(e[2])
        rc += [0.0] * (3 * (U - len(l)))
    return fn, rc


def bounded(b):
    cases, res, err = nbdrv.run(b, 300 if not b.thorough else 5000)
    if err:
        b.bad('the code aborts: ' + err, dict(case=cases[min(len(res), len(cases) - 1)][0]))
    for c, w, g in res:
        bad = None
        L = g['lists']
        if g['maxn'] != max(map(len, w)):
            bad = 'largest number of neighbours %d, not %d' % (g['maxn'], max(map(len, w)))
        want = [max([sum(e[1] == y for e in l) for l, z in zip(w, c['Z']) if z == x] or [0]) for x in (1, 8, 42) for y in (1, 8, 42)]
        if g['ssss'] != want:
            bad = 'largest number of neighbours per species pair %s, not %s' % (g['ssss'], want)
        fn, rc = expected(c, L, g['U'])
        if g['minum'] != c['n'] or g['nghost'] != 0 or g['il'] != [[i, len(l), z] for i, (l, z) in enumerate(zip(w, c['Z']))]:
            bad = 'atoms, neighbour counts or species'
        elif g['fn'] != fn or max([abs(x - y) for x, y in zip(g['rc'], rc)] or [0]) > 1e-9:
            bad = 'neighbour table or displacements differ from the lists'
        if bad:
            b.bad(bad, c)
        b.ok((c['n'], round(c['rcut'], 3)) if any(w) else None, dict(n=c['n'], rcut=c['rcut']))
    binding(b, [(c, w) for c, w, g in res][:60 if not b.thorough else 600])


RUN = r"""
import sys, json, numpy as np
sys.path.insert(0, sys.argv[1])
import nblist
for line in sys.stdin:
    c = json.loads(line)
    r = nblist.find_info4mlff(np.array(c['lat'], dtype=np.float64), np.array(c['Z'], dtype=np.int32), np.array(c['x'], dtype=np.float64), c['rcut'], c['pbc'], c['U'], c['sort'], c['cart'])
    print(json.dumps([int(r[0])] + [a.tolist() for a in r[1:6]] + [int(r[6]), [bool(a.flags.owndata) for a in r[1:6]]]), flush=True)
"""


def binding(b, cases):
    import tempfile, subprocess, sysconfig, json
    import numpy
    from vc.cxxlib import REPO
    src = os.path.join(REPO, 'source/nblist/bind')
    with tempfile.TemporaryDirectory() as d:
        for cmd in (['swig', '-c++', '-python', '-o', d + '/nblist_wrap.cxx', '-outdir', d, src + '/nblist.i'],
                    ['g++', '-O1', '-w', '-shared', '-fPIC', '-I' + src, '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), src + '/nblist_bind.cc', d + '/nblist_wrap.cxx',
                     '-o', d + '/_nblist' + sysconfig.get_config_var('EXT_SUFFIX')]):
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=d)
            if r.returncode:
                b.notes.append('binding does not build here: ' + r.stderr[-300:])
                return
        rng = random.Random(b.seed + 1)
        js = []
        for c, w in cases:
            cart = rng.random() < .5
            x = [[sum(f[q] * c['lat'][q][k] for q in range(3)) for k in range(3)] for f in c['frac']] if cart else c['frac']
            js.append(dict(lat=c['lat'], Z=c['Z'], x=x, rcut=c['rcut'], pbc=c['pbc'], U=max(map(len, w)) + c['extra'], sort=c['sort'], cart=cart))
        p = subprocess.run([sys.executable, '-c', RUN, d], input='\n'.join(map(json.dumps, js)) + '\n', capture_output=True, text=True, timeout=300)
        out = [json.loads(l) for l in p.stdout.splitlines()]
        if len(out) != len(js):
            b.bad('the binding fails: ' + p.stderr[-300:], js[min(len(out), len(js) - 1)])
            return
        for (c, w), j, r in zip(cases, js, out):
            n, U = c['n'], j['U']
            bad = None
            if r[0] != n or r[1] != list(range(n)) or r[2] != list(map(len, w)) or r[5] != c['Z'] or r[6] != 0:
                bad = 'binding: atoms, neighbour counts or species'
            for i in range(n):
                k = len(w[i])
                got = [(a, tuple(v)) for a, v in zip(r[3][i], r[4][i])]
                if len(got) != U or any(g != (-1, (0.0, 0.0, 0.0)) for g in got[k:]):
                    bad = 'binding: padding of atom %d' % i
                e = sorted((x[0],) + tuple(round(v, 5) + 0.0 for v in x[2]) for x in w[i])
                if sorted((a,) + tuple(round(v, 5) + 0.0 for v in x) for a, x in got[:k]) != e:
                    bad = 'binding: neighbours of atom %d' % i
                ds = [sum(v * v for v in x) for _, x in got[:k]]
                if j['sort'] and any(p_ > q_ + 1e-9 for p_, q_ in zip(ds, ds[1:])):
                    bad = 'binding: neighbours of atom %d are not in order of distance' % i
            if not all(r[7]):
                bad = bad or 'binding: an array does not own its memory, which is lost'
            if bad:
                b.bad(bad, j)
            b.ok(('bind', n, U), dict(n=n, U=U))


if __name__ == '__main__':
    import props.C08 as m
    sys.exit(main(m))
