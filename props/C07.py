"""Neighbour list (C++): bins, linked list, neighbours of an atom."""
import itertools
from vc.cxxlib import *
from vc.core import *
from vc.cxx import assigned_decls
from vc.report import Unit, main
from props.nbspec import *
from props import nbdrv

ID = 'C07'
BL, SC = 'BinLinkedList<double>', 'Supercell<double>'


def state(it, build=True):
    """a bin list in an arbitrary well-formed state: supercell of n atoms at X(i,k), p of them owned by the original cell (index c)"""
    ctx = it.ctx
    g = {}
    n, p, c = N('n'), N('p'), N('c')
    ctx.assume(z3.And(p >= 1, c >= 0, c * p + p <= n))
    X = zarray('X', 2, 'real')
    Z = zarray('Z', 1, 'int')
    st = structure(it, 'st', n, lambda i, k: sel(X, i, k), lambda i: sel(Z, i), lattice(), readonly=True)
    sc = it.new_obj(SC)
    field(it, sc, 'structure', st)
    field(it, sc, 'num_atoms', n)
    field(it, sc, 'prim_cell_idx', c)
    info = it.new_obj('matersdk::BasicStructureInfo<double>')
    field(it, info, 'num_atoms', p)
    field(it, sc, 'prim_structure_info', info)
    o = it.new_obj(BL)
    field(it, o, 'supercell', sc)
    rc = R('rcut')
    bs, lo_, nb = [R('bs%d' % k) for k in range(3)], [R('lo%d' % k) for k in range(3)], [N('nb%d' % k) for k in range(3)]
    ctx.assume(z3.And(rc > 0, *[x > 0 for x in bs], *[x >= 1 for x in nb]))
    field(it, o, 'rcut', rc)
    for nm, v, e in (('bin_size_xyz', bs, 'double'), ('min_limit_xyz', lo_, 'double'), ('num_bin_xyz', nb, 'int')):
        P = o.f[nm].val
        for k in range(3):
            it.storemem(Ptr(P.region, P.args, z3.IntVal(k)), v[k], 0)
    g.update(n=n, p=p, c=c, X=X, rc=rc, bs=bs, lo=lo_, nb=nb, o=o, sc=sc, st=st)
    g['cell'] = lambda i, k: z3.ToInt((sel(X, i, k) - lo_[k]) / bs[k])
    g['flat'] = lambda a, b, d: a + b * nb[0] + d * nb[0] * nb[1]
    g['bin'] = lambda i: g['flat'](*[g['cell'](i, k) for k in range(3)])
    return g


def inside(g, i):
    """contract of C05/C06 and of the constructor: every atom of the supercell lies in a bin"""
    return z3.And(*[z3.And(g['cell'](i, k) >= 0, g['cell'](i, k) < g['nb'][k]) for k in range(3)])


def idx_run(ctx):
    it = Interp(T(), ctx)
    g = state(it)
    i = N('i')
    ctx.assume(rng_(i, g['p']))
    r = method(it, g['o'], 'get_bin_idx', i)
    ctx.check('bin of atom i of the original cell', r == g['bin'](i + g['c'] * g['p']))


def rng_(x, n):
    return z3.And(x >= 0, x < n)


def num_run(ctx):
    it = Interp(T(), ctx)
    g = state(it)
    r = method(it, g['o'], 'get_num_neigh_bins')
    E = [-z3.ToInt(-(g['rc'] / g['bs'][k])) for k in range(3)]
    ctx.check('number of neighbour bins', r == (2 * E[0] + 1) * (2 * E[1] + 1) * (2 * E[2] + 1))


def build_run(ctx):
    """heads and nexts chain the atoms of each bin, latest first"""
    Pf = z3.Function('P', z3.IntSort(), z3.IntSort(), z3.IntSort())     # last atom before i in bin b, or -1
    it = Interp(T(), ctx)
    g = state(it)
    n, nb = g['n'], g['nb']
    tot = nb[0] * nb[1] * nb[2]
    BIN = z3.Function('BIN', z3.IntSort(), z3.IntSort())

    def step(b, i):
        ctx.assume(Pf(b, i + 1) == z3.If(BIN(i) == b, i, Pf(b, i)))

    def exact(L):
        k = L.k
        H, X = L.this('heads_lst').region, L.this('nexts_lst').region

        def heads(b):
            ctx.assume(Pf(b, z3.IntVal(0)) == -1)
            if not (z3.is_int_value(simp(k))):
                step(b, simp(k - 1))
            return Pf(b, k)

        def nexts(a):
            return z3.If(a < k, Pf(BIN(a), a), z3.IntVal(-1))
        return [('heads', H, tot, heads), ('nexts', X, n, nexts)]

    def before(L):
        i = L.k
        ctx.assume(inside(g, i))
        c0, c1, c2 = [g['cell'](i, k) for k in range(3)]
        # bounds of the flat index, in steps
        m = ctx.fresh('int', 'm')
        ctx.assume(m == c1 + c2 * nb[1])
        for nm, f in (('0 <= row', m >= 0), ('row < rows', m <= nb[1] * nb[2] - 1)):
            ctx.check('lemma: ' + nm, z3.substitute(f, (m, c1 + c2 * nb[1])), 'lemma')
            ctx.assume(f)
        ctx.check('lemma: row times width', z3.And(m * nb[0] >= 0, m * nb[0] <= (nb[1] * nb[2] - 1) * nb[0]), 'lemma')
        ctx.assume(z3.And(m * nb[0] >= 0, m * nb[0] <= (nb[1] * nb[2] - 1) * nb[0], m * nb[0] == c1 * nb[0] + c2 * nb[0] * nb[1]))
        ctx.assume(BIN(i) == g['bin'](i))
        ctx.check('the bin exists', z3.And(g['bin'](i) >= 0, g['bin'](i) < tot), 'lemma')
        ctx.assume(z3.And(BIN(i) >= 0, BIN(i) < tot))
    it.loops['resolve'] = lambda it_, node, body: LoopSpec(lambda L: [('counter', z3.And(L.k >= 0, L.k <= n))], exact=exact, before_body=before) if 'heads_lst' in text_of(body) and 'nexts_lst' in text_of(body) else None
    fn = it.tu.find(BL + '::_build', 0)
    it.call(fn, g['o'], [])
    H, X = g['o'].f['heads_lst'].val.region, g['o'].f['nexts_lst'].val.region
    b, a = N('b'), N('a')
    ctx.assume(z3.And(rng_(b, tot), rng_(a, n)))
    ctx.check('head of bin b: its last atom', H.store.read(ctx, (b,)) == Pf(b, n))
    ctx.check('next of atom a: the last atom before it in its bin', X.store.read(ctx, (a,)) == Pf(BIN(a), a))


def chain_facts(Pf, BIN, b, i, a):
    """facts about P(b, i), the last atom before i in bin b (lemma chain_run): for any atom a"""
    p = Pf(b, i)
    return z3.And(p >= -1, p < i, z3.Implies(p >= 0, BIN(p) == b), z3.Implies(z3.And(a > p, a < i), BIN(a) != b))


def chain_run(ctx):
    """lemma by induction on i: P(b, 0) = -1, P(b, i+1) = i if BIN(i) = b else P(b, i)"""
    Pf = z3.Function('P', z3.IntSort(), z3.IntSort(), z3.IntSort())
    BIN = z3.Function('BIN', z3.IntSort(), z3.IntSort())
    b, i, a = N('b'), N('i'), N('a')
    ctx.assume(z3.And(i >= 0, a >= 0))
    ctx.assume(Pf(b, z3.IntVal(0)) == -1)
    ctx.check('base', z3.substitute(chain_facts(Pf, BIN, b, i, a), (i, z3.IntVal(0))), 'lemma')
    ctx.assume(chain_facts(Pf, BIN, b, i, a))
    ctx.assume(Pf(b, i + 1) == z3.If(BIN(i) == b, i, Pf(b, i)))
    ctx.check('step', chain_facts(Pf, BIN, b, i + 1, a), 'lemma')


def neigh_run(ctx):
    """the list holds each atom with 0.001 < d^2 < rcut^2 as often as its bin is a neighbour bin, and no other atom"""
    IS_ = z3.IntSort()
    Pf, BIN, NB, C = z3.Function('P', IS_, IS_, IS_), z3.Function('BIN', IS_, IS_), z3.Function('NB', IS_, IS_), z3.Function('C', IS_, IS_, IS_)
    M = N('M')
    ctx.assume(M >= 0)
    asked = []

    def bins(it, this, args):
        asked.append(args[0])
        P = it.alloc_bytes(4 * M, 'neigh_bins')
        it.typed(P, 'int')
        it.setstore(P.region.store, [], lambda idx: NB(idx[-1]))
        return P
    it = Interp(T(), ctx, contracts={BL + '::get_neigh_bins': bins, BL + '::get_num_neigh_bins': lambda it, this, args: M})
    g = state(it)
    n, nb, X = g['n'], g['nb'], g['X']
    tot = nb[0] * nb[1] * nb[2]
    ctx.assume(tot >= 1)
    facts = lambda b, i, a: ctx.assume(z3.Implies(i >= 0, chain_facts(Pf, BIN, b, i, a)))
    field(it, g['o'], 'heads_lst', fn_region(it, 'heads', 'int', tot, lambda idx: Pf(idx[0], n), readonly=True))
    field(it, g['o'], 'nexts_lst', fn_region(it, 'nexts', 'int', n, lambda idx: Pf(BIN(idx[0]), idx[0]), readonly=True))
    i = N('i')
    ctx.assume(rng_(i, g['p']))
    c = i + g['c'] * g['p']
    ctx.check('lemma: the centre is an atom of the supercell', rng_(c, n), 'lemma')
    ctx.assume(rng_(c, n))
    d2 = lambda a: sum((sel(X, a, k) - sel(X, c, k)) * (sel(X, a, k) - sel(X, c, k)) for k in range(3))
    NEAR = z3.Function('NEAR', IS_, z3.BoolSort())          # 0.001 < d^2 < rcut^2
    near = lambda a: z3.And(d2(a) < g['rc'] * g['rc'], d2(a) > z3.RealVal('1/1000'))
    memo = {}

    def vec(L):
        vs = []
        for lv in L.it.frames[-1].names.values():
            try:
                v = lv.get()
            except Exception:
                continue
            if isinstance(v, Vec) and v not in vs:
                vs.append(v)
        if len(vs) != 1:
            raise Unsupported('%d vectors in get_neigh_atoms' % len(vs))
        v = vs[0]
        if v.mult is None:
            if not (z3.is_int_value(simp(v.len.val)) and simp(v.len.val).as_long() == 0):
                raise Unsupported('vector filled before the loop')
            r = Region('mult', 'int', n, (), None, lambda idx: z3.IntVal(0), 'int')
            r.birth = 0
            v.mult = r
            if v.ptr is None:
                v.ptr = Ptr(L.it.new_region('vec', v.elem, None))
        return v

    def count(a, k):
        ctx.assume(C(a, z3.IntVal(0)) == 0)
        ctx.assume(z3.Implies(rng_(a, n), rng_(BIN(a), tot)))    # "the bin exists" (proved with _build)
        if not z3.is_int_value(simp(k)):
            ctx.assume(C(a, k) == C(a, simp(k - 1)) + z3.If(NB(simp(k - 1)) == BIN(a), 1, 0))
        return C(a, k)

    def outer_exact(L):
        k = L.k
        return [('the list', vec(L).mult, n, lambda a: z3.If(NEAR(a), count(a, k), z3.IntVal(0)))]

    def outer_before(L):
        memo['q'] = L.k
        b = NB(L.k)
        ctx.assume(z3.Or(b == -1, rng_(b, tot)))                 # contract of get_neigh_bins
        facts(b, n, z3.IntVal(0))

    def cur(L):
        nd = L.node['inner'][0]
        st = [nd]
        while st:
            x = st.pop(0)
            if isinstance(x, dict):
                if x.get('kind') == 'DeclRefExpr':
                    return L.it.frames[-1].vars[x['referencedDecl']['id']].cell
                st += x.get('inner', ())
        raise Unsupported('loop over a chain without its variable')

    def inner_inv(L):
        v, b = cur(L).val, NB(memo['q'])
        return [('the atom at hand is in the bin', z3.Or(v == -1, z3.And(rng_(v, n), BIN(v) == b)))]

    def inner_exact(L):
        v, q = cur(L).val, memo['q']
        b = NB(q)

        def f(a):
            # chain facts at the places the loop passes
            for top in [n] + memo.get('seen', []):
                facts(b, top, a)
            return z3.If(NEAR(a), count(a, q) + z3.If(z3.And(BIN(a) == b, a > v), 1, 0), z3.IntVal(0))
        return [('the list', vec(L).mult, n, f)]

    def inner_before(L):
        v = cur(L).val
        memo['seen'] = [v]
        facts(NB(memo['q']), v, z3.IntVal(0))
        ctx.assume(NEAR(v) == near(v))

    def inner_lemma(L):
        ctx.check('the walk along a bin ends: atoms decrease', z3.And(cur(L).val < memo['seen'][0], cur(L).val >= -1), 'variant')
    hav = lambda L: [vec(L).len]
    mod = lambda L: [vec(L).ptr.region]

    def resolve(it_, node, body):
        t = text_of(body)
        if 'heads_lst' in t:
            return LoopSpec(lambda L: [('counter', z3.And(L.k >= 0, L.k <= M)), ('length', vec(L).len.val >= 0)], exact=outer_exact, before_body=outer_before, modifies=mod, havoc_cells=hav)
        if 'nexts_lst' in t:
            return LoopSpec(lambda L: inner_inv(L) + [('length', vec(L).len.val >= 0)], exact=inner_exact, before_body=inner_before, lemma=inner_lemma, modifies=mod, havoc_cells=hav)
        return None
    it.loops['resolve'] = resolve
    r = method(it, g['o'], 'get_neigh_atoms', i)
    ctx.check('neighbour bins of the atom asked for', z3.And(*[x == i for x in asked]) if asked else False)
    if not isinstance(r, Vec) or r.mult is None:
        raise Unsupported('result of get_neigh_atoms')
    a = N('a')
    ctx.assume(rng_(a, n))
    ctx.check('atom a is listed once per neighbour bin that is its bin if it is near, else not at all', r.mult.store.read(ctx, (a,)) == z3.If(NEAR(a), C(a, M), 0))


def limits_contract(lo_, hi):
    """contract of Structure::get_limit_xyz (proved in C06): rows (lower, upper) of the box"""
    def c(it, this, args):
        P = it.alloc_bytes(z3.IntVal(24), 'limits')
        it.typed(P, 'double *')
        for k in range(3):
            row = it.alloc_bytes(z3.IntVal(16), 'limit')
            it.typed(row, 'double')
            it.storemem(Ptr(row.region, row.args, z3.IntVal(0)), lo_[k], 0)
            it.storemem(Ptr(row.region, row.args, z3.IntVal(1)), hi[k], 0)
            it.storemem(Ptr(P.region, P.args, z3.IntVal(k)), row, 0)
        return P
    return c


def digits(ctx, W, q, d):
    """d are the digits of q in the radix (W[0], W[1], W[2])"""
    ctx.assume(z3.And(*[z3.Implies(z3.And(*[rng_(y, w) for y, w in zip(d, W)]), DIG[k](q) == d[k]) for k in range(3)]))


DIG = [z3.Function('DIG%d' % k, z3.IntSort(), z3.IntSort()) for k in range(3)]


def bins_run(ctx):
    """entry q of the neighbour bins of atom i: the bin DIG(q) - E away, if it exists, else -1"""
    lo_ = [R('lo%d' % k) for k in range(3)]
    it = Interp(T(), ctx, contracts={ST + '::get_limit_xyz': limits_contract(lo_, [R('hi%d' % k) for k in range(3)])})
    g = state(it)
    E = [N('E%d' % k) for k in range(3)]
    for k in range(3):
        ctx.assume(E[k] == -z3.ToInt(-(g['rc'] / g['bs'][k])))
        ctx.check('lemma: rcut / bin > 0', g['rc'] / g['bs'][k] > 0, 'lemma')
        ctx.assume(g['rc'] / g['bs'][k] > 0)
        ctx.check('lemma: at least one bin each way', E[k] >= 1, 'lemma')
        ctx.assume(E[k] >= 1)
    W = [2 * e + 1 for e in E]
    M = W[0] * W[1] * W[2]
    i = N('i')
    ctx.assume(rng_(i, g['p']))
    a = i + g['c'] * g['p']
    cell = [g['cell'](a, k) for k in range(3)]
    nest = {}

    def tables(L):
        """the local tables of bins (extent x 3)"""
        out = []
        for lv in L.it.frames[-1].names.values():
            try:
                v = lv.get()
            except Exception:
                continue
            if isinstance(v, Ptr) and v.region is not None and v.region.elem == 'int' and v.region.shape is not None and len(v.region.shape) == 2:
                if v.region not in out:
                    out.append(v.region)
        if not out:
            raise Unsupported('no table of bins')
        return out

    def counter(L):
        if 'cnt' not in L.memo:
            L.memo['cnt'] = counter_(L)
        return L.memo['cnt']

    def counter_(L):
        ids = [d for d in assigned_decls(L.body)]
        cs = [L.it.frames[-1].vars[d].cell for d in ids if d in L.it.frames[-1].vars and isinstance(L.it.frames[-1].vars[d], CellLV)]
        cs = [c for c in cs if c is not L.icell and c not in nest.values()]
        if len(cs) != 1:
            raise Unsupported('%d counters' % len(cs))
        return cs[0]

    def start(L):
        """flat index reached when the loop starts / as a function of the loop variables"""
        d = []
        for k in range(3):
            if k < L.depth:
                d.append(nest[k].val + E[k])
            elif k == L.depth:
                d.append(L.k + E[k])
            else:
                d.append(z3.IntVal(0))
        return (d[0] * W[1] + d[1]) * W[2] + d[2], d

    def spec(depth):
        def setup(L):
            nest[depth] = L.icell

        def inv(L):
            L.depth = depth
            f, d = start(L)
            return [('counter', counter(L).val == f), ('range', z3.And(L.k >= -E[depth], L.k <= E[depth] + 1))]

        def exact(L):
            cnt = counter(L).val
            return [('bins', r, cnt, lambda q, p: pick([cell[k] - E[k] + DIG[k](q) for k in range(3)], p), 3) for r in tables(L)]

        def before(L):
            if depth == 2:
                f, d = start(L)
                digits(ctx, W, f, d)
                m = ctx.fresh('int', 'row')
                row = d[0] * W[1] + d[1]
                for nm, x in (('0 <= row', row >= 0), ('row < rows', row <= W[0] * W[1] - 1)):
                    ctx.check('lemma: ' + nm, x, 'lemma')
                    ctx.assume(x)
                ctx.assume(m == row)
                x = z3.And(m * W[2] >= 0, m * W[2] <= (W[0] * W[1] - 1) * W[2])
                ctx.assume(z3.And(m >= 0, m <= W[0] * W[1] - 1))
                ctx.check('lemma: row times width', x, 'lemma')
                ctx.assume(x)
                ctx.assume(z3.And(f == m * W[2] + d[2], f >= 0, f < M))
        return LoopSpec(inv, exact=exact, setup=setup, before_body=before, modifies=lambda L: tables(L))

    def resolve(it_, node, body):
        if it_.frames[-1].fn_name.split('::')[-1] != 'get_neigh_bins' if hasattr(it_.frames[-1], 'fn_name') else False:
            return None
        n_inner = depth_of(body)
        return spec(2 - n_inner) if z3_neg(it_, node) and n_inner in (0, 1, 2) else None

    def depth_of(b):
        """loops below that start at a negative bound"""
        out = [0]

        def w(x, d):
            if isinstance(x, dict):
                if x.get('kind') == 'ForStmt' and neg_init(x):
                    d += 1
                    out.append(d)
                for y in x.get('inner', ()):
                    w(y, d)
        w(b, 0)
        return max(out)

    def neg_init(x):
        init = (x.get('inner') or [None])[0]
        return bool(init) and '-' in [y.get('opcode') for y in nodes(init) if y.get('kind') == 'UnaryOperator']

    def z3_neg(it_, node):
        return node['kind'] == 'ForStmt' and neg_init(node)
    it.loops['resolve'] = resolve
    P = method(it, g['o'], 'get_neigh_bins', i)
    q = N('q')
    ctx.assume(rng_(q, M))
    cc = [cell[k] - E[k] + DIG[k](q) for k in range(3)]
    ok = z3.And(*[rng_(cc[k], g['nb'][k]) for k in range(3)])
    ctx.check('neighbour bin q', ld(it, P, q) == z3.If(ok, g['flat'](*cc), z3.IntVal(-1)))


def ctor_run(user, pbc):
    """the constructor: enough images of the cell, a grid of bins over their box, then the chains"""
    def run(ctx):
        d, L_, lo_, hi = ([R('%s%d' % (x, k)) for k in range(3)] for x in ('d', 'L', 'lo', 'hi'))
        rc, ub = R('rcut'), [R('ub%d' % k) for k in range(3)]
        ctx.assume(z3.And(rc > 0, *[x > 0 for x in ub + d], *[x >= 0 for x in L_]))
        log = []

        def vec3(v, nm, of):
            def c(it, this, args):
                log.append((nm, this))
                P = it.alloc_bytes(z3.IntVal(24), nm)
                it.typed(P, 'double')
                for k in range(3):
                    it.storemem(Ptr(P.region, P.args, z3.IntVal(k)), v[k], 0)
                return P
            return c

        def sc(it, this, args):
            st = args[0].get() if isinstance(args[0], LV) else args[0]
            sp = args[1].get() if isinstance(args[1], LV) else args[1]
            log.append(('supercell', this, st, [ld(it, sp, k) for k in range(3)]))
            this.mark = 'new'

        def assign(it, this, args):
            r = args[0].get() if isinstance(args[0], LV) else args[0]
            this.mark = getattr(r, 'mark', None)
            if this.mark:
                this.f['structure'].val.mark = this.mark
            return this
        lim = limits_contract(lo_, hi)

        def limits(it, this, args):
            log.append(('limits', this))
            return lim(it, this, args)
        it = Interp(T(), ctx, contracts={ST + '::get_interplanar_distances': vec3(d, 'planes', 'prim'), ST + '::get_projected_lengths': vec3(L_, 'lengths', 'super'),
                                         ST + '::get_limit_xyz': limits, 'Supercell<double>::Supercell/2': sc, SC + '::operator=': assign,
                                         BL + '::_build': lambda it, this, args: log.append(('build', [simp(it.load(Ptr(this.f['num_bin_xyz'].val.region, this.f['num_bin_xyz'].val.args, z3.IntVal(k)), 0)) for k in range(3)],
                                                                                             [simp(it.load(Ptr(this.f['min_limit_xyz'].val.region, this.f['min_limit_xyz'].val.args, z3.IntVal(k)), 0)) for k in range(3)], getattr(this.f['supercell'].val, 'mark', None)))})
        n = N('n')
        ctx.assume(n >= 1)
        ca, za = zarray('coords', 2, 'real'), zarray('Z', 1, 'int')
        st = structure(it, 'st', n, lambda i, k: sel(ca, i, k), lambda i: sel(za, i), lattice(), readonly=True)
        pb = fn_region(it, 'pbc', 'bool', z3.IntVal(3), lambda idx: pick([z3.BoolVal(x) for x in pbc], idx[0]), readonly=True)
        args = [st, rc] + ([vecarr(it, 'bins', ub)] if user else []) + [pb]
        o = construct(it, BL, *args)
        bs = ub if user else [rc / 2] * 3
        ctx.check('cutoff', o.f['rcut'].val == rc)
        get = lambda nm, k: ld(it, o.f[nm].val, k)
        scs = [x for x in log if x[0] == 'supercell']
        if len(scs) != 1:
            raise Unsupported('%d supercells' % len(scs))
        for k in range(3):
            ctx.check('bin size %d' % k, get('bin_size_xyz', k) == bs[k])
            p_ = get('pbc_xyz', k)
            ctx.check('periodicity %d' % k, (p_ if z3.is_bool(p_) else p_ != 0) == pbc[k])
            ctx.check('cells along axis %d: all within the cutoff on both sides' % k, (scs[0][3][k] - 1) / 2 >= -z3.ToInt(-(rc / d[k])) if pbc[k] else scs[0][3][k] == 1)
            ctx.check('bins along axis %d: cover the box' % k, get('num_bin_xyz', k) >= z3.ToInt(L_[k] / bs[k]) + 1)
            ctx.check('lower bound of the grid along axis %d' % k, get('min_limit_xyz', k) == lo_[k])
        prim = [x for x in log if x[0] == 'planes']
        ctx.check('plane distances of the structure given', bool(prim) and all(same_structure(it, x[1], st) for x in prim))
        ctx.check('supercell of the structure given', same_structure(it, scs[0][2], st))
        ok = lambda x: x is scs[0][1].f['structure'].val or getattr(x, 'mark', None) == 'new'
        ctx.check('box of the supercell', all(ok(x[1]) for x in log if x[0] in ('lengths', 'limits')))
        b = [x for x in log if x[0] == 'build']
        ctx.check('atoms are put into bins once', len(b) == 1)
        if len(b) == 1:
            ctx.check('with the grid and supercell complete', z3.And(b[0][3] == 'new', *[z3.And(b[0][1][k] == get('num_bin_xyz', k), b[0][2][k] == lo_[k]) for k in range(3)]))
    return run


def same_structure(it, a, b):
    """a is b or a copy of it (copies are C09's business): same number of atoms"""
    return a is b or z3.is_true(simp(a.f['num_atoms'].val == b.f['num_atoms'].val))


def lemma_inside(ctx):
    """an atom in the box lies in a bin of the grid"""
    x, lo_, L_, bs, nb = R('x'), R('lo'), R('L'), R('bs'), N('nb')
    ctx.assume(z3.And(bs > 0, x >= lo_, x - lo_ <= L_, nb >= z3.ToInt(L_ / bs) + 1))
    u, v = R('u'), R('v')
    ctx.assume(z3.And(u * bs == x - lo_, v * bs == L_, u == (x - lo_) / bs, v == L_ / bs))
    ctx.check('0 <= u <= v', z3.And(u >= 0, u <= v), 'lemma')
    ctx.assume(z3.And(u >= 0, u <= v))
    ctx.check('bin in range', z3.And(z3.ToInt(u) >= 0, z3.ToInt(u) < nb), 'lemma')


def lemma_reach(ctx):
    """atoms closer than the cutoff lie at most ceil(rcut / bin) bins apart along each axis"""
    x, y, lo_, bs, rc = R('x'), R('y'), R('lo'), R('bs'), R('rc')
    ctx.assume(z3.And(bs > 0, rc > 0))
    dx, dy, dz = R('dx'), R('dy'), R('dz')
    ctx.assume(z3.And(dx == y - x, dx * dx + dy * dy + dz * dz < rc * rc))
    ctx.check('each component is below the cutoff', z3.And(dx < rc, dx > -rc), 'lemma')
    ctx.assume(z3.And(dx < rc, dx > -rc))
    u, v, w, E = R('u'), R('v'), R('w'), N('E')
    ctx.assume(z3.And(u * bs == x - lo_, v * bs == y - lo_, w * bs == rc, E == -z3.ToInt(-w)))
    ctx.check('in units of the bin', z3.And(v - u < w, u - v < w), 'lemma')
    ctx.assume(z3.And(v - u < w, u - v < w))
    ctx.check('bins apart', z3.And(z3.ToInt(v) - z3.ToInt(u) <= E, z3.ToInt(u) - z3.ToInt(v) <= E), 'lemma')


def lemma_flat(ctx):
    """the flat index of a bin determines the bin"""
    nb = [N('nb%d' % k) for k in range(3)]
    a, b = ([N('%s%d' % (x, k)) for k in range(3)] for x in 'ab')
    for k in range(3):
        ctx.assume(z3.And(nb[k] >= 1, rng_(a[k], nb[k]), rng_(b[k], nb[k])))

    def two(nm, x, y, n, p, q):
        """x + p n = y + q n with digits x, y below n"""
        for lab, c in (('<', p < q), ('>', p > q)):
            e = (q - p - 1) if lab == '<' else (p - q - 1)
            ctx.check('%s: product of non-negative numbers (%s)' % (nm, lab), z3.Implies(z3.And(e >= 0, n >= 0), e * n >= 0), 'lemma')
            ctx.assume(z3.Implies(e >= 0, e * n >= 0))
        ctx.check(nm, z3.And(p == q, x == y), 'lemma')
        ctx.assume(z3.And(p == q, x == y))
    p, q = N('p'), N('q')
    ctx.assume(z3.And(p == a[1] + a[2] * nb[1], q == b[1] + b[2] * nb[1], a[0] + p * nb[0] == b[0] + q * nb[0]))
    two('lowest digit', a[0], b[0], nb[0], p, q)
    two('middle digit', a[1], b[1], nb[1], a[2], b[2])


def lemma_once(ctx):
    """an atom within the cutoff sits in exactly one of the neighbour bins, so it is listed once:
    C(a, 0) = 0, C(a, q+1) = C(a, q) + [NB(q) = BIN(a)] gives C(a, M) = 1"""
    I_ = z3.IntSort()
    NB, C = z3.Function('NB', I_, I_), z3.Function('C', I_, I_)
    E, nb, c, a = ([N('%s%d' % (x, k)) for k in range(3)] for x in ('E', 'nb', 'c', 'a'))
    W = [2 * e + 1 for e in E]
    flat, radix = z3.Function('FLAT', I_, I_, I_, I_), z3.Function('RADIX', I_, I_, I_, I_)
    for k in range(3):
        ctx.assume(z3.And(E[k] >= 1, nb[k] >= 1, rng_(a[k], nb[k]), rng_(c[k], nb[k]), a[k] - c[k] <= E[k], c[k] - a[k] <= E[k]))
    M, q, s = N('M'), N('q'), N('s')
    t = [a[k] - c[k] + E[k] for k in range(3)]
    ctx.assume(z3.And(M >= 1))
    ctx.assume(s == radix(*t))
    # mixed radix: s is a position and has the digits t; positions with the same digits are the same
    ctx.assume(z3.And(rng_(s, M), *[DIG[k](s) == t[k] for k in range(3)]))
    ctx.assume(z3.Implies(z3.And(rng_(q, M), *[DIG[k](q) == t[k] for k in range(3)]), q == s))

    def nbq(q):
        cc = [c[k] - E[k] + DIG[k](q) for k in range(3)]
        ctx.assume(NB(q) == z3.If(z3.And(*[rng_(cc[k], nb[k]) for k in range(3)]), flat(*cc), -1))
        # lemma flat index: injective on the grid, and not negative
        ctx.assume(flat(*a) >= 0)
        ctx.assume(z3.Implies(z3.And(flat(*cc) == flat(*a), *[rng_(cc[k], nb[k]) for k in range(3)]), z3.And(*[cc[k] == a[k] for k in range(3)])))
    nbq(q)
    nbq(s)
    ctx.assume(z3.And(q >= 0, q < M))
    ctx.check('the bin of the atom is neighbour bin s', NB(s) == flat(*a), 'lemma')
    ctx.check('and no other', z3.Implies(NB(q) == flat(*a), q == s), 'lemma')
    ctx.assume(z3.Implies(NB(q) == flat(*a), q == s))
    ctx.assume(NB(s) == flat(*a))
    inv = lambda q: C(q) == z3.If(q > s, 1, 0)
    ctx.assume(C(z3.IntVal(0)) == 0)
    ctx.check('count: base', inv(z3.IntVal(0)), 'lemma')
    ctx.assume(inv(q))
    ctx.assume(C(q + 1) == C(q) + z3.If(NB(q) == flat(*a), 1, 0))
    ctx.check('count: step', inv(q + 1), 'lemma')
    ctx.check('listed once', z3.Implies(inv(M), C(M) == 1), 'lemma')


def lemma_radix(ctx):
    """mixed-radix digits: (d0 W1 + d1) W2 + d2 with digits below their radices lies in [0, W0 W1 W2) and determines the digits"""
    W = [N('W%d' % k) for k in range(3)]
    d, e = ([N('%s%d' % (x, k)) for k in range(3)] for x in 'de')
    for k in range(3):
        ctx.assume(z3.And(W[k] >= 1, rng_(d[k], W[k]), rng_(e[k], W[k])))
    r = d[0] * W[1] + d[1]
    ctx.check('row in range', z3.And(r >= 0, r <= W[0] * W[1] - 1), 'lemma')
    m = N('m')
    ctx.assume(z3.And(m == r, m >= 0, m <= W[0] * W[1] - 1))
    x = z3.And(m * W[2] >= 0, m * W[2] <= (W[0] * W[1] - 1) * W[2])
    ctx.check('row times width', x, 'lemma')
    ctx.assume(x)
    ctx.check('in range', z3.And(m * W[2] + d[2] >= 0, m * W[2] + d[2] < W[0] * W[1] * W[2]), 'lemma')


def lemma_complete(ctx):
    """an image t of an atom (fractional coordinates in [0,1)) within the cutoff has |t_q| <= ceil(rcut / plane distance)"""
    from props.C06 import normal, dot
    lat = lattice()
    g, h = ([R('%s%d' % (x, k)) for k in range(3)] for x in 'gh')
    t = [N('t%d' % k) for k in range(3)]
    rc = R('rc')
    r = [sum((h[q] + z3.ToReal(t[q]) - g[q]) * lat[q][k] for q in range(3)) for k in range(3)]
    ctx.assume(rc > 0)
    for q in range(3):
        nq = normal(lat, q)
        ctx.check('axis %d: r.n = (h + t - g) a.n' % q, dot(r, nq) == (h[q] + z3.ToReal(t[q]) - g[q]) * dot(lat[q], nq), 'lemma')
        a, b = [R('a%d' % k) for k in range(3)], [R('b%d' % k) for k in range(3)]
    cs = cross_(a, b)
    ctx.check('Lagrange identity', dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b) == dot(cs, cs), 'lemma')
    ctx.check('Cauchy-Schwarz', z3.Implies(dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b) == R('c0') * R('c0') + R('c1') * R('c1') + R('c2') * R('c2'), dot(a, b) * dot(a, b) <= dot(a, a) * dot(b, b)), 'lemma')
    # with y = h + t - g, W = a.n, N2 = |n|^2 > 0, d = |W| / |n| (C06: d^2 N2 = W^2, d >= 0), R2 = |r|^2 < rc^2:  y^2 W^2 <= R2 N2
    y, W_, N2, d, R2, gg, hh, tt, E = R('y'), R('W'), R('N2'), R('d'), R('R2'), R('gg'), R('hh'), N('tt'), N('E')
    ctx.assume(z3.And(N2 > 0, d > 0, d * d * N2 == W_ * W_, R2 >= 0, R2 < rc * rc, y * y * W_ * W_ <= R2 * N2))
    yd = R('yd')
    ctx.assume(yd == y * d)
    ctx.check('(y d)^2 N2 <= R2 N2', yd * yd * N2 <= R2 * N2, 'lemma')
    ctx.assume(yd * yd * N2 <= R2 * N2)
    ctx.check('(y d)^2 <= R2', yd * yd <= R2, 'lemma')
    ctx.assume(yd * yd <= R2)
    ctx.check('|y d| < rc', z3.And(yd < rc, yd > -rc), 'lemma')
    ctx.assume(z3.And(yd < rc, yd > -rc))
    w = R('w')
    ctx.assume(w * d == rc)
    ctx.check('|y| < rc / d', z3.And(y < w, y > -w), 'lemma')
    ctx.assume(z3.And(y < w, y > -w))
    ctx.assume(z3.And(y == hh + z3.ToReal(tt) - gg, gg >= 0, gg < 1, hh >= 0, hh < 1, E == -z3.ToInt(-w)))
    ctx.check('|t| <= ceil(rc / d)', z3.And(tt <= E, tt >= -E), 'lemma')


def cross_(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def nodes(x):
    if isinstance(x, dict):
        yield x
        for y in x.get('inner', ()):
            yield from nodes(y)


def list_state(it, n):
    """a NeighborList of n atoms (given) before _build"""
    ctx = it.ctx
    m, c = N('m'), N('c')
    ctx.assume(z3.And(c >= 0, c * n + n <= m))
    X, Z = zarray('X', 2, 'real'), zarray('Z', 1, 'int')
    st = structure(it, 'st', m, lambda i, k: sel(X, i, k), lambda i: sel(Z, i), lattice(), readonly=True)
    sc = it.new_obj(SC)
    field(it, sc, 'structure', st)
    field(it, sc, 'num_atoms', m)
    field(it, sc, 'prim_cell_idx', c)
    info = it.new_obj('matersdk::BasicStructureInfo<double>')
    field(it, info, 'num_atoms', z3.IntVal(n))
    field(it, sc, 'prim_structure_info', info)
    b = it.new_obj(BL)
    field(it, b, 'supercell', sc)
    return b, m, c, X


def build_lists(n, sort):
    """NeighborList::_build: list i is what get_neigh_atoms(i) returns, on request in order of distance (ties in any order)"""
    IS_ = z3.IntSort()
    LEN, LST, PI = z3.Function('LEN', IS_, IS_), z3.Function('LST', IS_, IS_, IS_), z3.Function('PI', IS_, IS_, IS_)

    def run(ctx):
        def atoms(it, this, args):
            i = args[0].get() if isinstance(args[0], LV) else args[0]
            ctx.assume(LEN(i) >= 0)
            v = Vec('int')
            v.len = Cell(LEN(i), 'vec.len', 'int', next(it.clock))
            r = it.new_region('vec', 'int', None)
            r.store.base = lambda idx: LST(i, idx[-1])
            v.ptr = Ptr(r, ())
            q = z3.Int('q!l')
            ctx.assume(z3.ForAll([q], z3.Implies(rng_(q, LEN(i)), rng_(LST(i, q), m)), patterns=[LST(i, q)]))
            return v
        it = Interp(T(), ctx, contracts={BL + '::get_neigh_atoms': atoms})
        b, m, c, X = list_state(it, n)
        o = it.new_obj('NeighborList<double>')
        field(it, o, 'bin_linked_list', b)
        field(it, o, 'num_atoms', z3.IntVal(n))
        field(it, o, 'rcut', R('rcut'))
        field(it, o, 'neighbor_lists', fn_region(it, 'lists', 'std::vector<int>', z3.IntVal(n), lambda idx: Vec('int')))
        done = []

        def dist2(i, j):
            return sum((sel(X, LST(i, j), k) - sel(X, i + c * n, k)) * (sel(X, LST(i, j), k) - sel(X, i + c * n, k)) for k in range(3))

        def srt(it, args, node):
            p, q, cmp_ = args
            i = z3.IntVal(len(done))
            done.append(i)
            if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.region is q.region and isinstance(cmp_, Obj)):
                raise Unsupported('std::sort of something else')
            ctx.check('all neighbours of atom %s are sorted' % i, z3.And(p.off == 0, q.off == LEN(i)))
            u, v = ctx.fresh('int', 'u'), ctx.fresh('int', 'v')
            ctx.assume(z3.Implies(LEN(i) > 0, z3.And(rng_(u, LEN(i)), rng_(v, LEN(i)))))
            e = p.region.store.read(ctx, tuple(p.args) + (u,))
            if e is None:
                raise Unsupported('contents of the sorted block')
            ctx.check('sorted are the positions in the list', z3.Implies(LEN(i) > 0, e == u))
            if ctx.branch(LEN(i) > 0):
                r = method(it, cmp_, 'operator()', u, v)
                ctx.check('by distance, near first', r == (ctx.sqrt(dist2(i, u)) < ctx.sqrt(dist2(i, v))))
            # result: a permutation PI(i, .) of 0..LEN(i)-1 in order of the comparison
            k = z3.Int('k!s')
            ctx.assume(z3.ForAll([k], z3.Implies(rng_(k, LEN(i)), rng_(PI(i, k), LEN(i))), patterns=[PI(i, k)]))
            it.setstore(p.region.store, [], lambda idx: PI(i, idx[-1]))
            return None
        it.ext['sort'] = srt
        it.call(it.tu.find('NeighborList<double>::_build', 1), o, [ValLV(z3.BoolVal(sort))])
        if sort and len(done) != n:
            raise Unsupported('%d sorts for %d atoms' % (len(done), n))
        P = o.f['neighbor_lists'].val
        for i in range(n):
            v = P.region.store.read(ctx, (z3.IntVal(i),))
            ctx.check('length of list %d' % i, v.len.val == LEN(z3.IntVal(i)))
            j = ctx.fresh('int', 'j')
            ctx.assume(z3.Implies(LEN(z3.IntVal(i)) > 0, rng_(j, LEN(z3.IntVal(i)))))
            if v.ptr is None:
                ctx.check('list %d is empty' % i, LEN(z3.IntVal(i)) == 0)
                continue
            e = v.ptr.region.store.read(ctx, tuple(v.ptr.args) + (j,))
            ctx.check('entry j of list %d' % i, z3.Implies(LEN(z3.IntVal(i)) > 0, e == (LST(z3.IntVal(i), PI(z3.IntVal(i), j)) if sort else LST(z3.IntVal(i), j))))
    return Unit('NeighborList::_build, %d atoms, %s' % (n, 'sorted' if sort else 'unsorted'), run,
                ['NeighborList::_build'] + (['SingleNeighborListSortBasis::operator()', 'SingleNeighborListArrangement::arrange'] if sort else []))


def list_ctor(user):
    def run(ctx):
        n = N('n')
        ctx.assume(n >= 1)
        log = []
        val = lambda a: a.get() if isinstance(a, LV) else a

        def bl(it, this, args):
            a = [val(x) for x in args]
            log.append((a[0], a[1], a[2] if len(a) == 4 else None, a[-1]))
            this.mark = 'new'

        def assign(it, this, args):
            r = val(args[0])
            this.mark = getattr(r, 'mark', None)
            info = this.f['supercell'].val.f['prim_structure_info'].val
            field(it, info, 'num_atoms', n)
            return this
        calls = []

        def bld(it, this, args):
            P = this.f['neighbor_lists'].val
            calls.append((val(args[0]) if args else z3.BoolVal(False), getattr(this.f['bin_linked_list'].val, 'mark', None), this.f['num_atoms'].val, P.region.size if isinstance(P, Ptr) and P.region is not None else None))
        it = Interp(T(), ctx, contracts={BL + '::BinLinkedList/4': bl, BL + '::BinLinkedList/3': bl, BL + '::operator=': assign, 'NeighborList<double>::_build': bld})
        ca, za = zarray('coords', 2, 'real'), zarray('Z', 1, 'int')
        st = structure(it, 'st', n, lambda i, k: sel(ca, i, k), lambda i: sel(za, i), lattice(), readonly=True)
        rc, so = R('rcut'), z3.Bool('sort')
        ub = [R('ub%d' % k) for k in range(3)]
        pv = [z3.Bool('pbc%d' % k) for k in range(3)]
        pb = fn_region(it, 'pbc', 'bool', z3.IntVal(3), lambda idx: pick(pv, idx[0]), readonly=True)
        bins = vecarr(it, 'bins', ub)
        o = construct(it, 'NeighborList<double>', *([st, rc] + ([bins] if user else []) + [pb, so]))
        if len(log) != 1 or len(calls) != 1:
            raise Unsupported('%d bin lists, %d builds' % (len(log), len(calls)))
        a = log[0]
        ctx.check('bins of the structure given', same_structure(it, a[0], st))
        ctx.check('with its cutoff', a[1] == rc)
        for k in range(3):
            if user:
                ctx.check('bin size %d' % k, ld(it, a[2], k) == ub[k] if a[2] is not None else False)
            elif a[2] is not None:
                ctx.check('default bin size %d' % k, ld(it, a[2], k) == rc / 2)
            q = ld(it, a[3], k)
            ctx.check('periodicity %d' % k, (q if z3.is_bool(q) else q != 0) == pv[k])
        s, mk, na, sz = calls[0]
        ctx.check('lists built, sorted as asked', (s if z3.is_bool(s) else s != 0) == so)
        ctx.check('from these bins', mk == 'new')
        ctx.check('one list per atom', z3.And(na == n, sz == n) if sz is not None else False)
        ctx.check('cutoff', o.f['rcut'].val == rc)
    return Unit('NeighborList::NeighborList(%s)' % ('bins given' if user else 'default bins'), run, ['NeighborList::NeighborList'])


def text_of(x):
    out = []

    def w(y):
        if isinstance(y, dict):
            if y.get('name'):
                out.append(y['name'])
            r = y.get('referencedDecl')
            if r and r.get('name'):
                out.append(r['name'])
            for c in y.get('inner', ()):
                w(c)
    w(x)
    return out


def ctors():
    return [Unit('BinLinkedList::BinLinkedList(%s), periodic %s' % ('bins given' if u else 'default bins', ''.join('yn'[not x] for x in p)), ctor_run(u, p), ['BinLinkedList::BinLinkedList'])
            for u in (True, False) for p in itertools.product((True, False), repeat=3)]


LEMMAS = [('an atom of the box lies in a bin', lemma_inside), ('atoms within the cutoff lie in neighbour bins', lemma_reach), ('the flat index determines the bin', lemma_flat),
          ('positions of neighbour bins', lemma_radix), ('an atom within the cutoff is listed once', lemma_once), ('every image within the cutoff is in the supercell', lemma_complete)]


def units(tier):
    return [Unit('lemma: ' + n, f, [], lemma=True) for n, f in LEMMAS] + [Unit('BinLinkedList::get_bin_idx', idx_run, ['BinLinkedList::get_bin_idx']), Unit('BinLinkedList::get_num_neigh_bins', num_run, ['BinLinkedList::get_num_neigh_bins']),
            Unit('BinLinkedList::_build', build_run, ['BinLinkedList::_build']), Unit('lemma: chains of a bin', chain_run, [], lemma=True), Unit('BinLinkedList::get_neigh_bins', bins_run, ['BinLinkedList::get_neigh_bins']), *ctors(), Unit('BinLinkedList::get_neigh_atoms', neigh_run, ['BinLinkedList::get_neigh_atoms']),
            list_ctor(True), list_ctor(False), *[build_lists(n, s) for n in (1, 2, 3) for s in (False, True)]]


BOUNDED_RULE = 'random structures of 1-4 atoms in orthogonal, hexagonal, rotated and triclinic cells, any periodicity, cutoffs below and above the cell size, default and given bin sizes, sorted or not'


def bounded(b):
    cases, res, err = nbdrv.run(b, 400 if not b.thorough else 6000)
    if err:
        b.bad('the code aborts: ' + err, dict(case=cases[min(len(res), len(cases) - 1)][0]))
    for c, w, g in res:
        bad = None
        if g['inum'] != c['n'] or abs(g['rcut'] - c['rcut']) > 1e-12:
            bad = 'number of centres or cutoff'
        for i, (l, e) in enumerate(zip(g['lists'], w)):
            if sorted(map(nbdrv.key, l)) != sorted(map(nbdrv.key, e)):
                a, bb = sorted(map(nbdrv.key, l)), sorted(map(nbdrv.key, e))
                bad = 'neighbours of atom %d: missing %s, extra or repeated %s' % (i, [x for x in bb if a.count(x) < bb.count(x)][:3], [x for x in a if a.count(x) > bb.count(x)][:3])
            ds = [sum(v * v for v in x[2]) for x in l]
            if c['sort'] and any(p > q + 1e-9 for p, q in zip(ds, ds[1:])):
                bad = 'neighbours of atom %d are not in order of distance' % i
        if bad:
            b.bad(bad, c)
        b.ok((c['n'], round(c['rcut'], 3)) if any(w) else None, dict(n=c['n'], rcut=c['rcut'], pbc=c['pbc']))


if __name__ == '__main__':
    import sys
    import props.C07 as m
    sys.exit(main(m))
