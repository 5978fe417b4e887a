"""The C++ smooth-edition descriptor: PairTildeR and TildeR, values and derivatives."""
import math
import random
import numpy as np
from props.nbspec import *
from props.C08 import vec_family, SC, BL, NL
from props.C09 import full
from props.envspec import RC, SW, DSW, callee_contracts, values, lemma_deriv, _loops_in
from vc.cxx import assigned_decls, unparen, written_bases
from vc import cdrv
from vc.report import Unit, main

ID = 'C26'
ASSUMPTIONS = ['malloc succeeds and returns fresh, disjoint blocks', 'lists hold indices of existing atoms (C07), supercell images keep their species (C06)',
               'the width asked for holds the neighbours of the species (the code asserts it)', 'switching functions and reciprocal through their contracts (proved in C01)',
               'copies of the neighbour list inside TildeR have the value of the source (C09)', 'arrayUtils::free3dArray/free4dArray release what they are given (the sizes they get are checked)']
CC = z3.Function('CC', IS, IS)                    # centres of the wanted species among the first k
NC = z3.Function('NC', IS, IS, IS)                # neighbours of the wanted species among the first k of centre i


def rng_(i, n):
    return z3.And(0 <= i, i < n)


class Spec:
    """n centres; centre i is site cen(i) with nn(i) neighbours nb(i, j); species Z, positions X; wanted species zc, zn; width W"""

    def __init__(self, it, n, cen, nn, nb, m, Z, X, zc, zn, W, rc, rs):
        self.__dict__.update(locals())
        ctx = self.ctx = it.ctx
        self.i, self.j, self.m_ = N('i_'), N('j_'), N('m_')
        self.counters, self.nested, self.fn, self.now = set(), set(), None, None
        q, p = z3.Int('q!i'), z3.Int('q!j')
        ctx.assume(z3.And(n >= 0, m >= 0, W >= 0, CC(z3.IntVal(0)) == 0, rc > rs, rs >= 0))
        ctx.assume(z3.ForAll([q], z3.Implies(rng_(q, n), z3.And(nn(q) >= 0, rng_(cen(q), m))), patterns=[nn(q)]))
        ctx.assume(z3.ForAll([q, p], z3.Implies(z3.And(rng_(q, n), rng_(p, nn(q))), rng_(nb(q, p), m)), patterns=[nb(q, p)]))
        ctx.assume(z3.And(rng_(self.i, n), rng_(self.j, nn(self.i)), self.m_ >= 0, nn(self.i) >= 0, rng_(cen(self.i), m), rng_(nb(self.i, self.j), m)))
        self.know(self.i, self.j)

    def isc(self, i):
        return sel(self.Z, self.cen(i)) == self.zc

    def isn(self, i, j):
        return sel(self.Z, self.nb(i, j)) == self.zn

    def know_c(self, i):
        a = self.ctx.assume
        a(z3.Implies(rng_(i, self.n), z3.And(self.nn(i) >= 0, rng_(self.cen(i), self.m))))
        a(CC(i + 1) == CC(i) + z3.If(self.isc(i), 1, 0))
        for u, v in ((i, self.i), (self.i, i), (i, self.n), (self.i, self.n)):          # lemma unit
            a(z3.Implies(z3.And(0 <= u, u <= v), z3.And(CC(u) >= 0, CC(u) <= CC(v))))
            a(z3.Implies(z3.And(0 <= u, u < v, self.isc(u)), CC(u) < CC(v)))
        a(NC(i, z3.IntVal(0)) == 0)
        a(z3.Implies(z3.And(rng_(i, self.n), self.isc(i)), NC(i, self.nn(i)) <= self.W))          # precondition: the width fits

    def know(self, i, j):
        a = self.ctx.assume
        self.know_c(i)
        a(NC(i, j + 1) == NC(i, j) + z3.If(self.isn(i, j), 1, 0))
        for u, v in ((j, self.j), (self.j, j), (j, self.nn(i)), (self.j, self.nn(i)), (j + 1, self.nn(i))):
            a(z3.Implies(z3.And(0 <= u, u <= v), z3.And(NC(i, u) >= 0, NC(i, u) <= NC(i, v))))
            a(z3.Implies(z3.And(0 <= u, u < v, self.isn(i, u)), NC(i, u) < NC(i, v)))

    def vals(self, i, j):
        d = [sel(self.X, self.nb(i, j), k) - sel(self.X, self.cen(i), k) for k in range(3)]
        return values(self.rc, self.rs, *d, -1)


def comps(deriv):
    return [(k, l) for k in range(4) for l in range(3)] if deriv else [(k,) for k in range(4)]


def want(v, c):
    return v[1][c[0]][c[1]] if len(c) == 2 else v[0][c[0]]


def mentioned(body):
    out = set()

    def w(x):
        if isinstance(x, dict):
            if x.get('kind') == 'DeclRefExpr':
                out.add(x['referencedDecl']['id'])
            for c in x.get('inner', ()):
                w(c)
    w(body)
    return out


def used_in(fn):
    """variables whose value is used: read anywhere but as the target of = += ++ standing alone"""
    out = set()

    def w(x, top):
        if not isinstance(x, dict):
            return
        k = x.get('kind')
        if k == 'DeclRefExpr':
            out.add(x['referencedDecl']['id'])
            return
        inner = list(x.get('inner', ()))
        if top and (k == 'BinaryOperator' and x.get('opcode') == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and x.get('opcode') in ('++', '--')):
            t = unparen(inner[0])
            if t and t.get('kind') == 'DeclRefExpr':
                inner = inner[1:]
        st = k in ('CompoundStmt', 'ForStmt', 'IfStmt', 'WhileStmt', 'FunctionDecl', 'CXXMethodDecl')
        for c in inner:
            w(c, st)
    w(fn, True)
    return out


def incremented(body):
    """variables counted up by one in the body, with whether that happens in a nested loop; counters of nested loops left out"""
    out, loopvars = {}, set()

    def ref(x):
        x = unparen(x)
        return x['referencedDecl']['id'] if x and x.get('kind') == 'DeclRefExpr' else None

    def w(x, depth):
        if not isinstance(x, dict):
            return
        if x.get('kind') == 'ForStmt':
            inc = x['inner'][3]
            for y in ([inc] if inc.get('kind') else []):
                for d in assigned_decls(y):
                    loopvars.add(d)
            for c in x['inner']:
                w(c, depth + 1)
            return
        if x.get('kind') in ('UnaryOperator', 'CompoundAssignOperator') and x.get('opcode') in ('++', '+='):
            r = ref(x['inner'][0])
            if r:
                out[r] = max(out.get(r, 0), depth)
        for c in x.get('inner', ()):
            w(c, depth)
    w(body, 0)
    return {k: v for k, v in out.items() if k not in loopvars}


def loops(S, deriv, result):
    """contracts of the loops over centres and over neighbours; result(L): the array being filled, or None before it exists"""
    it = S.it

    def cellof(L, d):
        lv = L.it.frames[-1].vars.get(d)
        return lv.cell if isinstance(lv, CellLV) else None

    def stored(L, done, now=None):
        p = result(L)
        if p is None:
            return []
        out = []
        split = ()
        if now is not None:
            here = z3.And(S.i == now[0], S.j == now[1])
            split = ([('this neighbour', here, [(S.i, now[0]), (S.j, now[1])]), ('another', z3.Not(here), None)],)
        L.it.suppress += 1
        try:
            for c in comps(deriv):
                got = ld(L.it, p, CC(S.i), NC(S.i, S.j), *c)
                out.append(('the neighbour in its slot, component %s' % list(c), z3.Implies(z3.And(S.isc(S.i), S.isn(S.i, S.j), done), got == want(S.vals(S.i, S.j), c))) + split)
                got = ld(L.it, p, CC(S.i), S.m_, *c)
                out.append(('slots beyond the neighbours stay 0, component %s' % list(c), z3.Implies(z3.And(S.isc(S.i), S.m_ >= NC(S.i, S.nn(S.i))), got == 0)))
        finally:
            L.it.suppress -= 1
        return out

    def bounded_vars(L):
        """largest counts: variables that take the value of a counter"""
        out = []
        inc = incremented(L.body)
        icell = L.icell
        for d in sorted(assigned_decls(L.body)):
            c = cellof(L, d)
            if c is None or c is icell or d in inc or not z3.is_expr(c.val) or not z3.is_int(c.val) or c.birth is not None and c.birth >= L.born:
                continue
            if takes_counter(L.body, d, set(inc) | S.counters):
                out.append(('largest count fits', z3.And(c.val >= 0, c.val <= S.W)))
        return out

    def outer(node, body):
        def inv(L):
            S.outer = L
            out = [('centre counter', z3.And(L.k >= 0, L.k <= S.n))]
            for d, depth in incremented(L.body).items():
                c = cellof(L, d) if d in used_in(S.fn) else None
                if depth == 0 and c is not None and z3.is_expr(c.val) and z3.is_int(c.val):
                    out.append(('centres of the species so far', c.val == CC(L.k)))
                S.counters.add(d)
            return out + bounded_vars(L) + stored(L, S.i < L.k)

        def before(L):
            S.know_c(L.k)
        return spec(inv, before)

    def inner(node, body):
        def inv(L):
            i = S.outer.k
            out = [('neighbour counter', z3.And(L.k >= 0, L.k <= S.nn(i)))]
            for d, depth in incremented(L.body).items():
                c = cellof(L, d) if d in used_in(S.fn) else None
                if depth == 0 and c is not None and z3.is_expr(c.val) and z3.is_int(c.val):
                    out.append(('neighbours of the species so far', c.val == NC(i, L.k)))
            return out + stored(L, z3.Or(S.i < i, z3.And(S.i == i, S.j < L.k)), S.now)

        def before(L):
            S.now = S.outer.k, L.k
            S.know(S.outer.k, L.k)
        return spec(inv, before)

    def spec(inv, before):
        def inv_(L):
            if not hasattr(L, 'born'):
                L.born = next(L.it.clock)
            return inv(L)

        def modifies(L):
            out = []
            for d in sorted(mentioned(L.body)):
                lv = L.it.frames[-1].vars.get(d)
                L.it.suppress += 1
                try:
                    for r in leaves(L.it, lv.get() if isinstance(lv, CellLV) else None):
                        if r not in out:
                            out.append(r)
                finally:
                    L.it.suppress -= 1
            return out
        return LoopSpec(inv_, before_body=before, modifies=modifies)

    def resolve(it_, node, body):
        fr = it_.frames[-1]
        if fr.fn is not S.fn:
            return None
        if not incremented(body):
            return None
        if node['id'] in S.nested:
            return inner(node, body)
        S.nested |= {x['id'] for x in _loops_in(body)}
        return outer(node, body)
    return resolve


def leaves(it, p):
    """the regions of numbers reached through p"""
    if not isinstance(p, Ptr) or p.region is None or getattr(p.region, 'readonly', False):
        return []
    if not (p.region.elem and p.region.elem.rstrip().endswith('*')):
        return [p.region]
    sz = z3.simplify(p.region.size)
    k = sz.as_long() if z3.is_int_value(sz) and sz.as_long() <= 4 else 1
    return [r for i in range(k) for r in leaves(it, ld(it, p, z3.IntVal(i)))]


def takes_counter(body, d, counters):
    hit = []

    def w(x):
        if isinstance(x, dict):
            if x.get('kind') == 'BinaryOperator' and x.get('opcode') == '=':
                l, r = unparen(x['inner'][0]), unparen(x['inner'][1])
                while r and r.get('kind') == 'ImplicitCastExpr':
                    r = unparen(r['inner'][0])
                if l and l.get('kind') == 'DeclRefExpr' and l['referencedDecl']['id'] == d and r and r.get('kind') == 'DeclRefExpr' and r['referencedDecl']['id'] in counters:
                    hit.append(1)
            for c in x.get('inner', ()):
                w(c)
    w(body)
    return bool(hit)


def int_rows(it, name, n, length, f):
    par = z3.Int(name + '!row')
    r = Region(name + '_row', 'int', length(par), (par,), None, lambda idx: f(idx[0], idx[1]), 'int')
    r.birth, r.readonly = 0, True
    return fn_region(it, name, 'int *', n, lambda idx: Ptr(r, (idx[0],)), readonly=True)


def array_found(S, deriv):
    """the local array the function fills: the only one with this many levels of pointers"""
    def result(L):
        lv = 4 if deriv else 3
        used = mentioned(L.body)
        for d, v in L.it.frames[-1].vars.items():
            if d not in used:
                continue
            p = v.get() if isinstance(v, CellLV) else None
            if isinstance(p, Ptr) and p.region is not None and p.region.elem and p.region.elem.count('*') == lv - 1:
                return p
        return None
    return result


def conclude(S, p, deriv):
    """what the returned array holds"""
    ctx, it = S.ctx, S.it
    if not isinstance(p, Ptr) or p.region is None:
        raise Unsupported('result %r' % (p,))
    ctx.check('one row per centre of the species', p.region.size == CC(S.n))
    on = S.isc(S.i)
    it.suppress += 1
    row = ld(it, p, CC(S.i))
    sz = subst(row.region.size, list(zip(row.region.params, row.args)))
    ctx.check('every row as wide as asked', z3.Implies(on, sz == S.W))
    for c in comps(deriv):
        ctx.check('every neighbour of the species in its slot, component %s' % list(c),
                  z3.Implies(z3.And(on, S.isn(S.i, S.j)), ld(it, p, CC(S.i), NC(S.i, S.j), *c) == want(S.vals(S.i, S.j), c)))
        ctx.check('0 beyond the neighbours, component %s' % list(c),
                  z3.Implies(z3.And(on, S.m_ >= NC(S.i, S.nn(S.i)), S.m_ < S.W), ld(it, p, CC(S.i), S.m_, *c) == 0))
    it.suppress -= 1


def static_run(name, deriv):
    def run(ctx):
        rc, rs = R('rc'), R('rs')
        it = Interp(T(), ctx, contracts=callee_contracts(rc, rs))
        n, m, zc, zn, W = N('inum'), N('nall'), N('zc'), N('zn'), N('W')
        il, la = inarray(it, 'ilist', 'int', (n,))
        nn, nna = inarray(it, 'numneigh', 'int', (n,))
        ty, ta = inarray(it, 'types', 'int', (m,))
        F, X = zarray('first', 2, 'int'), zarray('x', 2, 'real')
        fn = int_rows(it, 'firstneigh', n, lambda i: nna[i], lambda i, j: sel(F, i, j))
        x = rows(it, 'x', m, lambda i, k: sel(X, i, k), readonly=True)
        S = Spec(it, n, lambda i: la[i], lambda i: nna[i], lambda i, j: sel(F, i, j), m, ta, X, zc, zn, W, rc, rs)
        S.fn = it.tu.find(name, 11)
        it.loops = {'resolve': loops(S, deriv, array_found(S, deriv))}
        p = it.call(S.fn, None, [n, il, nn, fn, x, ty, zc, zn, W, rc, rs])
        conclude(S, p, deriv)
    return run


LEN, LST = z3.Function('LEN', IS, IS), z3.Function('LST', IS, IS, IS)


def list_object(it, n, m, c, st, rc):
    sc = it.new_obj(full(it, SC))
    field(it, sc, 'structure', st)
    field(it, sc, 'num_atoms', m)
    field(it, sc, 'prim_cell_idx', c)
    info = it.new_obj(full(it, 'BasicStructureInfo<double>'))
    field(it, info, 'num_atoms', n)
    field(it, sc, 'prim_structure_info', info)
    b = it.new_obj(full(it, BL))
    field(it, b, 'supercell', sc)
    nl = it.new_obj(full(it, NL))
    field(it, nl, 'bin_linked_list', b)
    field(it, nl, 'num_atoms', n)
    field(it, nl, 'rcut', rc)
    field(it, nl, 'neighbor_lists', vec_family(it, 'lists', n, lambda i: LEN(i), lambda i, j: LST(i, j)))
    return nl


def pair_object(it):
    """a PairTildeR over a neighbour list of n atoms, as C06 and C07 leave it"""
    ctx = it.ctx
    n, m, c, W, zc, zn, rc, rs = N('n'), N('m'), N('c'), N('W'), N('zc'), N('zn'), R('rc'), R('rs')
    ctx.assume(z3.And(n >= 1, c >= 0, c * n + n <= m))
    X, Z = zarray('X', 2, 'real'), zarray('Z', 1, 'int')
    st = structure(it, 'st', m, lambda i, k: sel(X, i, k), lambda i: sel(Z, i), lattice(), readonly=True)
    nl = list_object(it, n, m, c, st, rc)
    S = Spec(it, n, lambda i: i + c * n, lambda i: LEN(i), lambda i, j: LST(i, j), m, Z, X, zc, zn, W, rc, rs)
    o = it.new_obj(full(it, 'PairTildeR<double>'))
    for k, v in dict(neighbor_list=nl, center_atomic_number=zc, neigh_atomic_number=zn, num_center_atoms=CC(n), num_neigh_atoms=W,
                     rcut=rc, rcut_smooth=rs).items():
        field(it, o, k, v)
    return S, o, c


def object_run(name, deriv):
    def run(ctx):
        it = Interp(T(), ctx, contracts=callee_contracts(R('rc'), R('rs')))
        S, o, _ = pair_object(it)
        S.fn = it.tu.find('PairTildeR<double>::' + name, 0)
        it.loops = {'resolve': loops(S, deriv, array_found(S, deriv))}
        p = it.call(S.fn, o, [])
        conclude(S, p, deriv)
    return run


def count_run(ctx):
    it = Interp(T(), ctx)
    S, o, c = pair_object(it)
    q = z3.Int('q!z')
    field(it, o, 'num_center_atoms', N('before'))
    ctx.assume(z3.ForAll([q], z3.Implies(rng_(q, S.n), sel(S.Z, q + c * S.n) == sel(S.Z, q)), patterns=[sel(S.Z, q)]))          # C06
    S.fn = it.tu.find('PairTildeR<double>::calc_num_center_atoms', 0)
    it.loops = {'resolve': loops(S, False, lambda L: None)}
    it.call(S.fn, o, [])
    ctx.check('number of centres of the species', o.f['num_center_atoms'].val == CC(S.n))


# ------------------------------------------------------------------ TildeR: the blocks of all pairs of species, side by side
CT = z3.Function('CT', IS, IS, IS)                # centres of the t-th species among the first k
CSUM, NSUM = z3.Function('CSUM', IS, IS), z3.Function('NSUM', IS, IS)          # first row of a centre species, first column of a neighbour species
PV = {1: z3.Function('PV', IS, IS, IS, IS, IS, IS, z3.RealSort()), 2: z3.Function('PD', IS, IS, IS, IS, IS, IS, IS, z3.RealSort())}


def nest(it, name, dims, f=None, readonly=True):
    """pointer to pointers ... to numbers; cell (i, j, ..) holds f(i, j, ..), or anything"""
    base = (lambda idx: f(*idx)) if f else array_base(zarray(name, len(dims), 'real'))
    ptr = None
    for d in reversed(range(len(dims))):
        ps = tuple(z3.Int('%s!%d_%d' % (name, d, k)) for k in range(d))
        low = ptr
        el = 'double' + ' ' * bool(low) + '*' * (len(dims) - 1 - d)
        b = base if low is None else (lambda idx, low=low: Ptr(low, tuple(idx)))
        ptr = Region('%s%d' % (name, d), el, I(dims[d]), ps, None, b, 'real' if low is None else None)
        ptr.birth, ptr.readonly = 0, readonly
    return Ptr(ptr)


class Blocks:
    """nt centre species zcs, nu neighbour species zns with WN columns each; n centres of species spec(k)"""

    def __init__(self, it, deriv, n, zof):
        self.it, self.deriv, self.n, self.zof = it, deriv, n, zof
        ctx = self.ctx = it.ctx
        nt, nu = self.nt, self.nu = N('nt'), N('nu')
        self.zcp, self.zcs = inarray(it, 'centre_species', 'int', (nt,))
        self.znp, self.zns = inarray(it, 'neigh_species', 'int', (nu,))
        self.wp, self.W = inarray(it, 'widths', 'int', (nu,))
        self.t, self.u, self.k, self.l = N('t_'), N('u_'), N('k_'), N('l_')
        ctx.assume(z3.And(n >= 0, nt >= 0, nu >= 0, CSUM(0) == 0, NSUM(0) == 0, rng_(self.t, nt), rng_(self.u, nu),
                          rng_(self.k, self.nc(self.t)), rng_(self.l, self.W[self.u])))
        q = z3.Int('q!w')
        ctx.assume(z3.ForAll([q], z3.Implies(rng_(q, nu), self.W[q] >= 0), patterns=[self.W[q]]))
        ctx.assume(z3.ForAll([q], z3.And(CT(q, n) >= 0, CT(q, z3.IntVal(0)) == 0), patterns=[CT(q, n)]))
        self.at_c(self.t)
        self.at_n(self.u)
        self.fn = None

    def nc(self, t):
        return CT(t, self.n)

    def _at(self, P, size, x, star, n):
        a = self.ctx.assume
        a(z3.And(P(0) == 0, CSUM(0) == 0))
        for y in (x, star):
            a(z3.Implies(rng_(y, n), z3.And(size(y) >= 0, P(y + 1) == P(y) + size(y))))
        for y, z in ((x, star), (star, x), (x, n), (star, n)):
            a(z3.Implies(z3.And(0 <= y, y <= z, z <= n), z3.And(P(y) >= 0, P(y) <= P(z))))                    # lemma unit
            a(z3.Implies(z3.And(0 <= y, y < z, z <= n), P(y) + size(y) <= P(z)))

    def at_c(self, x):
        self._at(CSUM, self.nc, x, self.t, self.nt)

    def at_n(self, x):
        self._at(NSUM, lambda u: self.W[u], x, self.u, self.nu)

    def count(self, t, k):
        a = self.ctx.assume
        a(z3.And(CT(t, 0) == 0, CT(t, k + 1) == CT(t, k) + z3.If(self.zof(k) == self.zcs[t], 1, 0)))

    def kind(self, p):
        """which sizes an array holds: of centre species or of neighbour species"""
        it, ctx = self.it, self.ctx
        if not isinstance(p, Ptr) or p.region is None:
            raise Unsupported('sizes')
        q = ctx.fresh('int', 'q')
        it.suppress += 1
        try:
            v = ld(it, p, q)
        finally:
            it.suppress -= 1
        if z3.is_expr(v):
            if ctx.entails(z3.Implies(rng_(q, self.nt), v == self.nc(q))):
                return 'c'
            if ctx.entails(z3.Implies(rng_(q, self.nu), v == self.W[q])):
                return 'n'
        raise Unsupported('array of sizes not recognised')

    def value(self, t, u, k, l, c):
        return PV[len(c)](self.zcs[t], self.zns[u], self.W[u], k, l, *[z3.IntVal(x) for x in c])

    def pair(self, zc, zn, W):
        """what PairTildeR::generate / deriv return (units above): one row per centre of the species, W slots"""
        cs = (4, 3) if self.deriv else (4,)
        t = self.pair_row
        self.ctx.check('the species of this block of rows', zc == self.zcs[t], 'pre')
        return nest(self.it, 'pair', (self.nc(t), W) + cs, lambda k, l, *c: PV[len(c)](zc, zn, W, k, l, *c))


def compound(body, deep=True):
    """(target, right-hand side or None) of += and ++ on anything"""
    out = []

    def w(x):
        if not isinstance(x, dict):
            return
        if x.get('kind') == 'ForStmt' and not deep:
            return
        if x.get('kind') == 'CompoundAssignOperator' and x.get('opcode') == '+=':
            out.append((unparen(x['inner'][0]), x['inner'][1]))
        if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '++':
            out.append((unparen(x['inner'][0]), None))
        for c in x.get('inner', ()):
            w(c)
    w(body)
    return out


def strip(x):
    x = unparen(x)
    while x and x.get('kind') == 'ImplicitCastExpr':
        x = unparen(x['inner'][0])
    return x


def base_ptr(it, x):
    x = strip(x)
    if not x or x.get('kind') != 'ArraySubscriptExpr':
        raise Unsupported('not an array element')
    it.suppress += 1
    try:
        p = it.rv(x['inner'][0])
    finally:
        it.suppress -= 1
    return p


def names_called(body):
    out = set()

    def w(x):
        if isinstance(x, dict):
            if x.get('kind') == 'DeclRefExpr':
                out.add(x['referencedDecl'].get('name'))
            if x.get('kind') == 'MemberExpr':
                out.add(x.get('name'))
            for c in x.get('inner', ()):
                w(c)
    w(body)
    return out


def tilde_loops(B):
    it, ctx = B.it, B.ctx
    st = {}

    def res(L):
        lv = 4 if B.deriv else 3
        used = mentioned(L.body)
        for d, v in L.it.frames[-1].vars.items():
            p = v.get() if d in used and isinstance(v, CellLV) else None
            if isinstance(p, Ptr) and p.region is not None and p.region.elem and p.region.elem.count('*') == lv - 1 and p.region.name != 'pair0':
                return p
        raise Unsupported('no result array')

    def stored(L, done):
        p, out = res(L), []
        L.it.suppress += 1
        try:
            for c in comps(B.deriv):
                got = ld(L.it, p, CSUM(B.t) + B.k, NSUM(B.u) + B.l, *c)
                if not z3.is_expr(got):
                    raise Unsupported('cell')
                out.append(('the block of these species, component %s' % list(c), z3.Implies(done, got == B.value(B.t, B.u, B.k, B.l, c))))
        finally:
            L.it.suppress -= 1
        return out

    def mods(L):
        p = res(L)
        L.it.suppress += 1
        try:
            return leaves(L.it, p)
        finally:
            L.it.suppress -= 1

    def objs(L):
        out = []
        for d in mentioned(L.body):
            v = L.it.frames[-1].vars.get(d)
            v = v.get() if isinstance(v, CellLV) else None
            if isinstance(v, Obj) and v.cls.endswith('PairTildeR<double>'):
                out += [c for c in v.f.values() if z3.is_expr(c.val)]
        return out

    def main_outer():
        def before(L):
            st['i'] = L.k
            B.pair_row = L.k
            B.at_c(L.k)
        return LoopSpec(lambda L: [('centre species', z3.And(L.k >= 0, L.k <= B.nt))] + stored(L, B.t < L.k), before_body=before, modifies=mods, havoc_cells=objs)

    def main_inner():
        def inv(L):
            return [('neighbour species', z3.And(L.k >= 0, L.k <= B.nu))] + stored(L, z3.Or(B.t < st['i'], z3.And(B.t == st['i'], B.u < L.k)))

        def before(L):
            B.at_n(L.k)
        return LoopSpec(inv, before_body=before, modifies=mods, havoc_cells=objs)

    def arr(body):
        ts = [(t, r) for t, r in compound(body) if t and t.get('kind') == 'ArraySubscriptExpr']
        if len(ts) != 1:
            raise Unsupported('%d running array elements' % len(ts))
        return ts[0]

    def one(r):
        r = strip(r)
        return r is None or r.get('kind') == 'IntegerLiteral' and r.get('value') == '1'

    def sizes(L):
        """what the running array element adds up: counts of centres, or sizes of earlier blocks"""
        t, r = arr(L.body)
        p = base_ptr(L.it, t)
        if one(r):
            return p, lambda i: B.nc(i), lambda i, k: CT(i, k), B.nt, lambda i, k: B.count(i, k)
        kd = B.kind(base_ptr(L.it, r))
        P, at, n = (CSUM, B.at_c, B.nt) if kd == 'c' else (NSUM, B.at_n, B.nu)
        return p, lambda i: P(i), lambda i, k: P(k), n, lambda i, k: at(k)

    def arr_outer(node, body):
        def exact(L):
            p, full_, part, n, _ = st['arr']
            return [('running array', p.region, n, lambda i: z3.If(i < L.k, full_(i), z3.IntVal(0)))]

        def setup(L):
            st['arr'] = None
            t, r = arr(L.body)
            # the element is addressed by the counter of this loop
            ix = strip(t['inner'][1])
            iv = L.it.induction(L.node)
            if not (ix and iv and ix.get('kind') == 'DeclRefExpr' and ix['referencedDecl']['id'] == iv[0]):
                raise Unsupported('element not addressed by the loop counter')
            st['arr'] = sizes(L)

        def before(L):
            st['i'] = L.k
            st['arr'][4](L.k, L.k)
        return LoopSpec(lambda L: [('counter', z3.And(L.k >= 0, L.k <= st['arr'][3]))], exact=exact, setup=setup, before_body=before,
                        modifies=lambda L: [st['arr'][0].region])

    def arr_inner(node, body):
        def exact(L):
            p, full_, part, n, _ = st['arr']
            i = st['i']
            return [('running array', p.region, n, lambda q: z3.If(q < i, full_(q), z3.If(q == i, part(i, L.k), z3.IntVal(0))))]

        def before(L):
            st['arr'][4](st['i'], L.k)
        return LoopSpec(lambda L: [('inner counter', L.k >= 0)], exact=exact, before_body=before, modifies=lambda L: [st['arr'][0].region])

    def total():
        def inv(L):
            ts = [(t, r) for t, r in compound(L.body) if t and t.get('kind') == 'DeclRefExpr']
            if len(ts) != 1 or ts[0][1] is None:
                raise Unsupported('sum')
            kd = B.kind(base_ptr(L.it, ts[0][1]))
            c = L.it.frames[-1].vars[ts[0][0]['referencedDecl']['id']].cell
            L.at = B.at_c if kd == 'c' else B.at_n
            return [('running total', c.val == (CSUM if kd == 'c' else NSUM)(L.k)), ('counter', z3.And(L.k >= 0, L.k <= (B.nt if kd == 'c' else B.nu)))]
        return LoopSpec(inv, before_body=lambda L: L.at(L.k), modifies=lambda L: [])

    def scalar_outer(node, body):
        bases = [b for b in written_bases(body)]
        if len(bases) != 1:
            raise Unsupported('one list is filled')

        def where(L):
            kd, d = bases[0]
            p = L.it.frames[-1].vars[d].get() if kd == 'v' else L.it.frames[-1].this.f[d].val
            if not isinstance(p, Ptr) or p.region is None:
                raise Unsupported('list')
            return p

        def exact(L):
            rest = zarray('rest!%d' % next(ctx.cnt), 1, 'int')
            return [('the list of counts', where(L).region, L.k, lambda i: z3.If(i < L.k, B.nc(i), rest[i]))]

        def before(L):
            st['i'] = L.k
            B.at_c(L.k)
        return LoopSpec(lambda L: [('counter', z3.And(L.k >= 0, L.k <= B.nt))], exact=exact, before_body=before, modifies=lambda L: [where(L).region])

    def scalar_inner(node, body):
        def inv(L):
            ts = {t['referencedDecl']['id'] for t, r in compound(L.body) if t and t.get('kind') == 'DeclRefExpr' and one(r)}
            if len(ts) != 1:
                raise Unsupported('one count')
            c = L.it.frames[-1].vars[ts.pop()].cell
            return [('count so far', c.val == CT(st['i'], L.k)), ('counter', z3.And(L.k >= 0, L.k <= B.n))]
        return LoopSpec(inv, before_body=lambda L: B.count(st['i'], L.k), modifies=lambda L: [])

    seen = {}

    def resolve(it_, node, body):
        if it_.frames[-1].fn is not B.fn:
            return None
        if node['id'] in seen:
            return seen[node['id']](node, body)
        inner = _loops_in(body)
        called = names_called(body) & {'generate', 'deriv'}
        cs = compound(body)
        if called:
            sub = [x for x in inner if names_called(x) & {'generate', 'deriv'}]
            if len(sub) != 1:
                raise Unsupported('nest of species loops')
            seen[sub[0]['id']] = lambda n, b: main_inner()
            return main_outer()
        if any(t and t.get('kind') == 'ArraySubscriptExpr' for t, _ in cs):
            if len(inner) != 1:
                raise Unsupported('running array element')
            seen[inner[0]['id']] = arr_inner
            return arr_outer(node, body)
        if not inner and any(r is not None and strip(r) and strip(r).get('kind') == 'ArraySubscriptExpr' for t, r in cs if t and t.get('kind') == 'DeclRefExpr'):
            return total()
        if len(inner) == 1 and not written_bases(inner[0]['inner'][4]) and any(t and t.get('kind') == 'DeclRefExpr' and one(r) for t, r in compound(inner[0]['inner'][4])):
            seen[inner[0]['id']] = scalar_inner
            return scalar_outer(node, body)
        return None
    return resolve


def tilde_conclude(B, p, own):
    ctx, it = B.ctx, B.it
    if not isinstance(p, Ptr) or p.region is None:
        raise Unsupported('result %r' % (p,))
    it.suppress += 1
    if own:
        ctx.check('one row per centre atom', p.region.size == CSUM(B.nt))
        row = ld(it, p, CSUM(B.t) + B.k)
        ctx.check('rows hold the slots of all species', subst(row.region.size, list(zip(row.region.params, row.args))) == NSUM(B.nu))
    for c in comps(B.deriv):
        ctx.check('the block of a pair of species holds its PairTildeR, component %s' % list(c),
                  ld(it, p, CSUM(B.t) + B.k, NSUM(B.u) + B.l, *c) == B.value(B.t, B.u, B.k, B.l, c))
    it.suppress -= 1


def tilde_static(name, deriv, own):
    def run(ctx):
        rc, rs = R('rc'), R('rs')
        n, m = N('inum'), N('nall')
        it = Interp(T(), ctx)
        il, la = inarray(it, 'ilist', 'int', (n,))
        nn, nna = inarray(it, 'numneigh', 'int', (n,))
        ty, ta = inarray(it, 'types', 'int', (m,))
        F, X = zarray('first', 2, 'int'), zarray('x', 2, 'real')
        fn = int_rows(it, 'firstneigh', n, lambda i: nna[i], lambda i, j: sel(F, i, j))
        x = rows(it, 'x', m, lambda i, k: sel(X, i, k), readonly=True)
        q = z3.Int('q!i')
        ctx.assume(z3.ForAll([q], z3.Implies(rng_(q, n), rng_(la[q], m)), patterns=[la[q]]))
        B = Blocks(it, deriv, n, lambda k: ta[la[k]])

        def pair(it_, this, a):
            same = all(isinstance(p, Ptr) and p.region is w.region and z3.is_true(z3.simplify(p.off == w.off)) for p, w in zip(a[1:6], (il, nn, fn, x, ty)))
            if not same:
                raise Unsupported('other lists')
            ctx.check('all atoms, the same cutoffs', z3.And(a[0] == n, a[9] == rc, a[10] == rs), 'pre')
            return B.pair(a[6], a[7], a[8])

        it.contracts = {'PairTildeR<double>::%s/11' % name: pair}
        it.contracts.update(freeing(B))
        args = [n, il, nn, fn, x, ty, B.nt, B.zcp, B.nu, B.znp, B.wp, rc, rs]
        out = None
        if not own:
            out = nest(it, 'out', (CSUM(B.nt), NSUM(B.nu), 4) + ((3,) if deriv else ()), readonly=False)
            args = [out] + args
        B.fn = it.tu.find('TildeR<double>::' + name, len(args))
        it.loops = {'resolve': tilde_loops(B)}
        p = it.call(B.fn, None, args)
        tilde_conclude(B, p if own else out, own)
    return run


def tilde_object(it, deriv):
    ctx = it.ctx
    n, m, c, rc, rs = N('n'), N('m'), N('c'), R('rc'), R('rs')
    Z = zarray('Z', 1, 'int')
    ctx.assume(z3.And(n >= 1, c >= 0, c * n + n <= m))
    B = Blocks(it, deriv, n, lambda k: sel(Z, k))
    st = structure(it, 'st', m, lambda i, k: sel(zarray('X', 2, 'real'), i, k), lambda i: sel(Z, i), lattice(), readonly=True)
    nl = list_object(it, n, m, c, st, rc)
    o = it.new_obj(full(it, 'TildeR<double>'))
    ncp = fn_region(it, 'centres', 'int', B.nt, lambda idx: B.nc(idx[0]), readonly=True)
    for k, v in dict(neighbor_list=nl, num_center_atomic_numbers=B.nt, center_atomic_numbers_lst=B.zcp, num_neigh_atomic_numbers=B.nu,
                     neigh_atomic_numbers_lst=B.znp, num_center_atoms_lst=ncp, num_neigh_atoms_lst=B.wp, rcut=rc, rcut_smooth=rs).items():
        field(it, o, k, v)
    return B, o, nl


SCALARS = ('center_atomic_number', 'neigh_atomic_number', 'num_center_atoms', 'num_neigh_atoms', 'rcut', 'rcut_smooth')


def obj(x):
    x = x.get() if isinstance(x, LV) else x
    if not isinstance(x, Obj):
        raise Unsupported('object expected')
    return x


def tilde_obj_run(name, deriv):
    def run(ctx):
        it = Interp(T(), ctx)
        B, o, nl = tilde_object(it, deriv)
        rc, rs = R('rc'), R('rs')

        def empty(it_, this, a):
            for k in SCALARS:
                field(it_, this, k, z3.RealVal(0) if k.startswith('rcut') else z3.IntVal(0))
            this.of = None

        def ctor(it_, this, a):
            v = [x.get() if isinstance(x, LV) else x for x in a]
            this.of = obj(v[0])
            for k, x in zip(SCALARS, v[1:5] + [this.of.f['rcut'].val, v[5]]):
                field(it_, this, k, x)

        def assign(it_, this, a):
            r = obj(a[0])
            this.of = r.of
            for k in SCALARS:
                field(it_, this, k, r.f[k].val)
            return this

        def pair(it_, this, a):
            f = {k: this.f[k].val for k in SCALARS}
            if this.of is not nl:
                raise Unsupported('another neighbour list')
            ctx.check('all centres of the species, the same cutoffs', z3.And(f['num_center_atoms'] == B.nc(B.pair_row), f['rcut'] == rc, f['rcut_smooth'] == rs), 'pre')
            return B.pair(f['center_atomic_number'], f['neigh_atomic_number'], f['num_neigh_atoms'])
        P = 'PairTildeR<double>::'
        it.contracts = {P + 'PairTildeR/0': empty, P + 'PairTildeR/6': ctor, P + 'PairTildeR/1': assign, P + 'operator=': assign, P + name + '/0': pair}
        it.contracts.update(freeing(B))
        B.fn = it.tu.find('TildeR<double>::' + name, 0)
        it.loops = {'resolve': tilde_loops(B)}
        p = it.call(B.fn, o, [])
        tilde_conclude(B, p, True)
    return run


def tilde_counts_run(ctx):
    it = Interp(T(), ctx)
    B, o, nl = tilde_object(it, False)
    field(it, o, 'num_center_atoms_lst', Ptr(None))
    B.fn = it.tu.find('TildeR<double>::calc_num_center_atoms_lst', 0)
    it.loops = {'resolve': tilde_loops(B)}
    it.call(B.fn, o, [])
    p = o.f['num_center_atoms_lst'].val
    if not isinstance(p, Ptr) or p.region is None:
        raise Unsupported('no list')
    ctx.check('one count per centre species', p.region.size == B.nt)
    ctx.check('number of centres of the species', ld(it, p, B.t) == B.nc(B.t))


NK = z3.Function('NK', IS, IS, IS, IS)            # neighbours of the t-th species among the first k of centre j
MXK = z3.Function('MXK', IS, IS, IS)              # largest such number among the first j centres


def tilde_widths_run(ctx):
    it = Interp(T(), ctx)
    B, o, nl = tilde_object(it, False)
    Z, n, m, nu = zarray('Z', 1, 'int'), B.n, N('m'), B.nu
    field(it, o, 'num_neigh_atoms_lst', Ptr(None))
    q, r = z3.Int('q!a'), z3.Int('q!b')
    ctx.assume(z3.ForAll([q, r], z3.Implies(z3.And(rng_(q, n), rng_(r, LEN(q))), rng_(LST(q, r), m)), patterns=[LST(q, r)]))          # C07
    st = {}

    def region(L):
        p = L.it.frames[-1].this.f['num_neigh_atoms_lst'].val
        if not isinstance(p, Ptr) or p.region is None:
            raise Unsupported('list')
        return p.region

    def outer(node, body):
        def before(L):
            st['t'] = L.k
            ctx.assume(MXK(L.k, 0) == 0)
        return LoopSpec(lambda L: [('counter', z3.And(L.k >= 0, L.k <= nu))], before_body=before, modifies=lambda L: [region(L)],
                        exact=lambda L: [('the list', region(L), nu, lambda i: z3.If(i < L.k, MXK(i, n), z3.IntVal(0)))])

    def mid(node, body):
        def before(L):
            st['j'] = L.k
            a = NK(st['t'], L.k, LEN(L.k))
            ctx.assume(z3.And(LEN(L.k) >= 0, NK(st['t'], L.k, 0) == 0, MXK(st['t'], L.k + 1) == z3.If(a > MXK(st['t'], L.k), a, MXK(st['t'], L.k))))
        return LoopSpec(lambda L: [('counter', z3.And(L.k >= 0, L.k <= n))], before_body=before, modifies=lambda L: [region(L)],
                        exact=lambda L: [('the list', region(L), nu, lambda i: z3.If(i < st['t'], MXK(i, n), z3.If(i == st['t'], MXK(i, L.k), z3.IntVal(0))))])

    def inner(node, body):
        def inv(L):
            ts = {t['referencedDecl']['id'] for t, _ in compound(L.body) if t and t.get('kind') == 'DeclRefExpr'}
            if len(ts) != 1:
                raise Unsupported('one count')
            c = L.it.frames[-1].vars[ts.pop()].cell
            return [('count so far', c.val == NK(st['t'], st['j'], L.k)), ('counter', z3.And(L.k >= 0, L.k <= LEN(st['j'])))]

        def before(L):
            t, j, k = st['t'], st['j'], L.k
            ctx.assume(NK(t, j, k + 1) == NK(t, j, k) + z3.If(sel(Z, LST(j, k)) == B.zns[t], 1, 0))
        return LoopSpec(inv, before_body=before, modifies=lambda L: [])
    seen = {}

    def resolve(it_, node, body):
        if it_.frames[-1].fn is not B.fn:
            return None
        if node['id'] in seen:
            return seen[node['id']](node, body)
        ls = _loops_in(body)
        if not ls:
            return None
        if len(ls) != 2 or ls[1]['id'] not in {x['id'] for x in _loops_in(ls[0]['inner'][4])}:
            raise Unsupported('nest of loops')
        seen[ls[0]['id']], seen[ls[1]['id']] = mid, inner
        return outer(node, body)
    B.fn = it.tu.find('TildeR<double>::calc_num_neigh_atoms_lst', 0)
    it.loops = {'resolve': resolve}
    it.call(B.fn, o, [])
    p = o.f['num_neigh_atoms_lst'].val
    if not isinstance(p, Ptr) or p.region is None:
        raise Unsupported('no list')
    ctx.check('one width per neighbour species', p.region.size == nu)
    ctx.check('largest number of neighbours of the species', ld(it, p, B.u) == MXK(B.u, n))


def lemma_max(ctx):
    """the running maximum is at least every term, and is 0 or a term"""
    t, j, k = z3.Ints('t j k')
    v = z3.Function('v', IS, IS)
    ctx.assume(z3.And(0 <= j, 0 <= k, MXK(t, 0) == 0, MXK(t, k + 1) == z3.If(v(k) > MXK(t, k), v(k), MXK(t, k))))
    ctx.check('base', MXK(t, 0) >= 0, 'lemma')
    ctx.assume(z3.And(MXK(t, k) >= 0, z3.Implies(j < k, MXK(t, k) >= v(j))))
    ctx.check('step', z3.And(MXK(t, k + 1) >= 0, z3.Implies(j < k + 1, MXK(t, k + 1) >= v(j)), z3.Or(MXK(t, k + 1) == MXK(t, k), MXK(t, k + 1) == v(k))), 'lemma')


def tilde_total_run(name):
    def run(ctx):
        it = Interp(T(), ctx)
        B, o, nl = tilde_object(it, False)
        B.fn = it.tu.find('TildeR<double>::' + name, 0)
        it.loops = {'resolve': tilde_loops(B)}
        ctx.check('total', it.call(B.fn, o, []) == (CSUM(B.nt) if 'center' in name else NSUM(B.nu)))
    return run


def freeing(B):
    def free(it, this, a):
        if not isinstance(a[0], Ptr) or a[0].region.name != 'pair0':
            raise Unsupported('another array freed')
        it.suppress += 1
        row = ld(it, a[0], z3.IntVal(0))
        it.suppress -= 1
        B.ctx.check('freed with its own sizes', z3.And(a[1] == a[0].region.size, a[2] == row.region.size, *([a[3] == 4] if len(a) > 3 else [])), 'pre')
    return {'arrayUtils::free3dArray<double>': free, 'arrayUtils::free4dArray<double>': free}


def lemma_blocks(ctx):
    """prefix sums of sizes >= 0 grow"""
    P, s = z3.Function('Pf', IS, IS), z3.Function('sf', IS, IS)
    y, z = z3.Ints('y z')
    ctx.assume(z3.And(0 <= y, 0 <= z, s(y) >= 0, s(z) >= 0, P(y + 1) == P(y) + s(y), P(z + 1) == P(z) + s(z), P(0) == 0))
    Q = lambda w: z3.And(P(w) >= 0, z3.Implies(y <= w, z3.And(P(y) <= P(w), P(y) >= 0)), z3.Implies(y < w, P(y) + s(y) <= P(w)))
    ctx.check('base', z3.And(P(0) >= 0, z3.Implies(y <= 0, P(y) <= P(0))), 'lemma')
    ctx.assume(Q(z))
    ctx.check('step', z3.Implies(y <= z, z3.And(P(z + 1) >= 0, P(y) <= P(z + 1), P(y) + s(y) <= P(z + 1))), 'lemma')


def lemma_counts(ctx):
    """counts grow, by one exactly at the counted"""
    C, isx = z3.Function('Cf', IS, IS), z3.Function('isf', IS, z3.BoolSort())
    y, z = z3.Ints('y z')
    step = lambda w: C(w + 1) == C(w) + z3.If(isx(w), 1, 0)
    ctx.assume(z3.And(0 <= y, 0 <= z, step(y), step(z), C(0) == 0))
    ctx.check('base', z3.And(C(0) >= 0, z3.Implies(y <= 0, C(y) <= C(0))), 'lemma')
    ctx.assume(z3.And(C(z) >= 0, z3.Implies(y <= z, z3.And(C(y) >= 0, C(y) <= C(z))), z3.Implies(z3.And(y < z, isx(y)), C(y) < C(z))))
    ctx.check('step', z3.And(C(z + 1) >= 0, z3.Implies(y <= z, C(y) <= C(z + 1)), z3.Implies(z3.And(y < z + 1, isx(y)), C(y) < C(z + 1))), 'lemma')


def T():
    return tu('deepmd')


def units(tier):
    T()
    return [Unit('PairTildeR::generate (static)', static_run('PairTildeR<double>::generate', False), ['PairTildeR<double>::generate/11']),
            Unit('PairTildeR::deriv (static)', static_run('PairTildeR<double>::deriv', True), ['PairTildeR<double>::deriv/11']),
            Unit('PairTildeR::generate', object_run('generate', False), ['PairTildeR<double>::generate/0']),
            Unit('PairTildeR::deriv', object_run('deriv', True), ['PairTildeR<double>::deriv/0']),
            Unit('PairTildeR::calc_num_center_atoms', count_run, ['PairTildeR<double>::calc_num_center_atoms']),
            Unit('TildeR::generate (static)', tilde_static('generate', False, True), ['TildeR<double>::generate/13']),
            Unit('TildeR::generate (static, into an array)', tilde_static('generate', False, False), ['TildeR<double>::generate/14']),
            Unit('TildeR::deriv (static)', tilde_static('deriv', True, True), ['TildeR<double>::deriv/13']),
            Unit('TildeR::deriv (static, into an array)', tilde_static('deriv', True, False), ['TildeR<double>::deriv/14']),
            Unit('TildeR::generate', tilde_obj_run('generate', False), ['TildeR<double>::generate/0']),
            Unit('TildeR::deriv', tilde_obj_run('deriv', True), ['TildeR<double>::deriv/0']),
            Unit('TildeR::calc_num_center_atoms_lst', tilde_counts_run, ['TildeR<double>::calc_num_center_atoms_lst']),
            Unit('TildeR::get_num_center_atoms', tilde_total_run('get_num_center_atoms'), ['TildeR<double>::get_num_center_atoms']),
            Unit('TildeR::get_num_neigh_atoms', tilde_total_run('get_num_neigh_atoms'), ['TildeR<double>::get_num_neigh_atoms']),
            Unit('TildeR::calc_num_neigh_atoms_lst', tilde_widths_run, ['TildeR<double>::calc_num_neigh_atoms_lst']),
            Unit('lemma: largest counts', lemma_max, ['ghost MXK']),
            Unit('lemma: counts', lemma_counts, ['ghost CC, NC, CT']),
            Unit('lemma: first rows and columns of the blocks', lemma_blocks, ['ghost CSUM, NSUM']),
            Unit('lemma: derivative formulas', lemma_deriv, ['ghost values'])]


DRIVER = r'''
#include <cstdio>
#include <cmath>
#include <cassert>
#include <cstdlib>
#include <iostream>
#include <vector>
#include "@S@/nblist/include/structure.h"
#include "@S@/nblist/include/binLinkedList.h"
#include "@S@/nblist/include/neighborList.h"
#include "@S@/descriptor/deepmd/include/se.h"
using namespace matersdk;
using deepPotSE::PairTildeR; using deepPotSE::TildeR;
typedef std::vector<int> VI; typedef std::vector<double> VD;
template <class T> void rdv(std::vector<T>& v) { for (auto& a : v) std::cin >> a; }
static void o3(double*** a, int n, int m) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) printf(" %.17g", a[i][j][k]); }
static void o4(double**** a, int n, int m) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) for (int l = 0; l < 3; l++) printf(" %.17g", a[i][j][k][l]); }
static void lists() {
    int inum, nall, nt, nu; double rc, rs;
    std::cin >> inum >> nall >> nt >> nu >> rc >> rs;
    VI zc(nt), zn(nu), W(nu), il(inum), nn(inum), ty(nall); rdv(zc); rdv(zn); rdv(W); rdv(il); rdv(nn); rdv(ty);
    std::vector<VI> f(inum); std::vector<int*> fp(inum); for (int i = 0; i < inum; i++) { f[i].resize(nn[i]); rdv(f[i]); fp[i] = f[i].data(); }
    std::vector<VD> x(nall, VD(3)); std::vector<double*> xp(nall); for (int i = 0; i < nall; i++) { rdv(x[i]); xp[i] = x[i].data(); }
    int rows = 0, cols = 0; std::vector<int> cn(nt, 0);
    for (int t = 0; t < nt; t++) { for (int i : il) cn[t] += ty[i] == zc[t]; rows += cn[t]; }
    for (int w : W) cols += w;
    for (int t = 0; t < nt; t++) for (int u = 0; u < nu; u++) {
        o3(PairTildeR<double>::generate(inum, il.data(), nn.data(), fp.data(), xp.data(), ty.data(), zc[t], zn[u], W[u], rc, rs), cn[t], W[u]);
        o4(PairTildeR<double>::deriv(inum, il.data(), nn.data(), fp.data(), xp.data(), ty.data(), zc[t], zn[u], W[u], rc, rs), cn[t], W[u]);
    }
    o3(TildeR<double>::generate(inum, il.data(), nn.data(), fp.data(), xp.data(), ty.data(), nt, zc.data(), nu, zn.data(), W.data(), rc, rs), rows, cols);
    o4(TildeR<double>::deriv(inum, il.data(), nn.data(), fp.data(), xp.data(), ty.data(), nt, zc.data(), nu, zn.data(), W.data(), rc, rs), rows, cols);
    VD a(rows * cols * 4, 7), d(rows * cols * 12, 7);
    std::vector<double*> a1(rows * cols), d1(rows * cols * 4); std::vector<double**> a2(rows), d2(rows * cols); std::vector<double***> d3(rows);
    for (int i = 0; i < rows * cols; i++) { a1[i] = a.data() + 4 * i; d2[i] = d1.data() + 4 * i; }
    for (int i = 0; i < rows * cols * 4; i++) d1[i] = d.data() + 3 * i;
    for (int i = 0; i < rows; i++) { a2[i] = a1.data() + cols * i; d3[i] = d2.data() + cols * i; }
    TildeR<double>::generate(a2.data(), inum, il.data(), nn.data(), fp.data(), xp.data(), ty.data(), nt, zc.data(), nu, zn.data(), W.data(), rc, rs);
    TildeR<double>::deriv(d3.data(), inum, il.data(), nn.data(), fp.data(), xp.data(), ty.data(), nt, zc.data(), nu, zn.data(), W.data(), rc, rs);
    for (double v : a) printf(" %.17g", v);
    for (double v : d) printf(" %.17g", v);
}
static void crystal() {
    int n, nt, nu, sort, extra; double rc, rs; std::cin >> n >> nt >> nu >> sort >> extra >> rc >> rs;
    VI zc(nt), zn(nu), z(n), pb(3); rdv(zc); rdv(zn); rdv(z); rdv(pb);
    double lat[3][3]; for (auto& r : lat) for (double& v : r) std::cin >> v;
    std::vector<VD> x(n, VD(3)); for (auto& v : x) rdv(v);
    std::vector<double*> lp = {lat[0], lat[1], lat[2]}, xp(n); for (int i = 0; i < n; i++) xp[i] = x[i].data();
    Structure<double> s(n, lp.data(), z.data(), xp.data(), true);
    bool p[3] = {(bool)pb[0], (bool)pb[1], (bool)pb[2]};
    NeighborList<double> nl(s, rc, p, (bool)sort);
    const auto& sc = nl.get_binLinkedList().get_supercell();
    int m = sc.get_structure().get_num_atoms(); const double** X = sc.get_structure().get_cart_coords(); const int* Z = sc.get_structure().get_atomic_numbers();
    int c0 = sc.get_prim_cell_idx() * sc.get_prim_num_atoms();
    printf(" %d %d", m, c0);
    for (int i = 0; i < m; i++) printf(" %d %.17g %.17g %.17g", Z[i], X[i][0], X[i][1], X[i][2]);
    for (int i = 0; i < n; i++) { const auto& v = nl.get_neighbor_lists()[i]; printf(" %d", (int)v.size()); for (int j : v) printf(" %d", j); }
    VI W(nu);
    for (int t = 0; t < nt; t++) for (int u = 0; u < nu; u++) {
        PairTildeR<double> q(nl, zc[t], zn[u], rs);                                    // width: largest number of neighbours
        PairTildeR<double> q2(s, rc, p, (bool)sort, zc[t], zn[u], q.get_num_neigh_atoms() + extra, rs);
        printf(" %d %d", q.get_num_center_atoms(), q.get_num_neigh_atoms());
        o3(q.generate(), q.get_num_center_atoms(), q.get_num_neigh_atoms()); o4(q.deriv(), q.get_num_center_atoms(), q.get_num_neigh_atoms());
        printf(" %d %d", q2.get_num_center_atoms(), q2.get_num_neigh_atoms());
        o3(q2.generate(), q2.get_num_center_atoms(), q2.get_num_neigh_atoms()); o4(q2.deriv(), q2.get_num_center_atoms(), q2.get_num_neigh_atoms());
        W[u] = std::max(W[u], q.get_num_neigh_atoms());
    }
    for (int& w : W) w += extra;
    TildeR<double> a(nl, nt, zc.data(), nu, zn.data(), W.data(), rs), b(s, rc, p, (bool)sort, nt, zc.data(), nu, zn.data(), rs);
    for (TildeR<double>* q : {&a, &b}) {
        int r = q->get_num_center_atoms(), c = q->get_num_neigh_atoms();
        printf(" %d %d", r, c); o3(q->generate(), r, c); o4(q->deriv(), r, c);
    }
}
int main() { int f; while (std::cin >> f) { if (f) crystal(); else lists(); printf("\n"); fflush(stdout); } }
'''
BOUNDED_RULE = ('static and object forms of PairTildeR and TildeR, compiled from se.h (ASan/UBSan): random centre and neighbour lists and random '
                'periodic crystals, 1-3 centre and neighbour species in any order, absent species, wide and exact padding, distances at both radii, '
                'coincident atoms; non-trivial: at least one neighbour strictly inside the cutoff')


def switch(d, rc, rs):
    r = math.sqrt(float(d @ d))
    w, dw = 1.0, 0.0
    if r >= rc:
        w = 0.0
    elif r >= rs:
        u = (r - rs) / (rc - rs)
        w = 1 - 10 * u ** 3 + 15 * u ** 4 - 6 * u ** 5
        dw = (-30 * u ** 2 + 60 * u ** 3 - 30 * u ** 4) / (rc - rs)
    q = 0.0 if r == 0 else 1 / r
    v = np.concatenate([[q * w], q * q * w * d])
    dv = np.zeros((4, 3))
    dv[0] = (q * q * dw - q ** 3 * w) * d
    dv[1:] = np.outer(d, d) * (q ** 3 * dw - 2 * q ** 4 * w) + np.eye(3) * q * q * w
    return v, -dv, 0 < r < rc


def oracle(il, fn, ty, x, zc, zn, W, rc, rs):
    """rows: centres species by species; columns: neighbours species by species, W[u] slots each"""
    rows_ = [i for z in zc for i in range(len(il)) if ty[il[i]] == z]
    g, h = np.zeros((len(rows_), sum(W), 4)), np.zeros((len(rows_), sum(W), 4, 3))
    live = False
    for r, i in enumerate(rows_):
        c0 = 0
        for z, w in zip(zn, W):
            for c, j in enumerate([j for j in fn[i] if ty[j] == z]):
                g[r, c0 + c], h[r, c0 + c], lv = switch(x[j] - x[il[i]], rc, rs)
                live = live or lv
            c0 += w
    return g, h, live


def widest(il, fn, ty, z, zc=None):
    return max([sum(ty[j] == z for j in fn[i]) for i in range(len(il)) if zc is None or ty[il[i]] == zc] + [0])


def case_lists(rng):
    nt, nu = rng.randint(1, 3), rng.randint(1, 3)
    species = [rng.randint(1, 60) for _ in range(4)]
    zc, zn = rng.sample(sorted(set(species + [8, 16, 42])), nt), rng.sample(sorted(set(species + [8, 16, 42])), nu)
    inum = rng.randint(1, 6)
    nall = inum + rng.randint(0, 12)
    ty = [rng.choice(zc + zn + species[:1]) for _ in range(nall)]
    rs = rng.choice([0.0, 0.5, rng.uniform(0, 3)])
    rc = rs + rng.uniform(0.3, 5)
    x = np.array([[rng.gauss(0, rng.choice([rc * 0.4, rc * 0.8])) for _ in range(3)] for _ in range(nall)])
    il = rng.sample(range(nall), inum)
    fn = [[rng.randrange(nall) for _ in range(rng.choice([0, 1, 3, 6, 9]))] for _ in range(inum)]
    for i in range(inum):
        if fn[i] and fn[i][0] != il[i] and rng.random() < 0.3:
            x[fn[i][0]] = x[il[i]]
            x[fn[i][0]][rng.randrange(3)] += rng.choice([rs, rc, (rs + rc) / 2, 0.0])
    W = [widest(il, fn, ty, z) + rng.choice([0, 0, 1, 3]) for z in zn]
    text = '0 %d %d %d %d %.17g %.17g %s\n' % (inum, nall, nt, nu, rc, rs, ' '.join(map(str, zc + zn + W + il + [len(f) for f in fn] + ty + [j for f in fn for j in f])) + ' ' + ' '.join('%.17g' % v for v in x.flat))
    return text, (il, fn, ty, x, zc, zn, W, rc, rs)


def case_crystal(rng):
    n = rng.randint(1, 5)
    nt, nu = rng.randint(1, 3), rng.randint(1, 3)
    zc, zn = rng.sample([1, 8, 16, 42, 74], nt), rng.sample([1, 8, 16, 42, 74], nu)
    z = [rng.choice(zc + zn) for _ in range(n)]
    a = rng.uniform(2.5, 4)
    lat = np.diag([a, a * rng.uniform(0.8, 1.2), a * rng.uniform(0.8, 1.4)]) + np.array([[rng.uniform(-.3, .3) for _ in range(3)] for _ in range(3)])
    fr = [[rng.random() for _ in range(3)] for _ in range(n)]
    x = np.array(fr) @ lat
    rc, rs, extra, sort = rng.uniform(1.5, 3.8), rng.uniform(0.1, 1.4), rng.randint(0, 2), rng.randint(0, 1)
    pb = [rng.choice([1, 1, 1, 0]) for _ in range(3)]
    text = '1 %d %d %d %d %d %.17g %.17g %s %s\n' % (n, nt, nu, sort, extra, rc, rs, ' '.join(map(str, zc + zn + z + pb)), ' '.join('%.17g' % v for v in list(lat.flat) + list(x.flat)))
    return text, (n, zc, zn, extra, rc, rs)


class Words:
    def __init__(self, line):
        self.w, self.p = line.split(), 0

    def ints(self, k):
        self.p += k
        return [int(v) for v in self.w[self.p - k:self.p]]

    def arr(self, shape):
        k = int(np.prod(shape))
        self.p += k
        if self.p > len(self.w):
            raise ValueError('output too short')
        return np.array([float(v) for v in self.w[self.p - k:self.p]]).reshape(shape)


def compare(w, want, what):
    g, h, live = want
    for a, nm in ((g, 'values'), (h, 'derivatives')):
        got = w.arr(a.shape)
        bad = ~(np.abs(got - a) <= 1e-7 * (1 + np.abs(a).max(initial=0)))
        if bad.any():
            k = tuple(int(v) for v in np.argwhere(bad)[0])
            return '%s: %s at %s: %r instead of %r' % (what, nm, list(k), float(got[k]), float(a[k]))
    return None


def judge_lists(w, c):
    il, fn, ty, x, zc, zn, W, rc, rs = c
    for t in zc:
        for u, k in zip(zn, W):
            e = compare(w, oracle(il, fn, ty, x, [t], [u], [k], rc, rs), 'PairTildeR (static) of species %d-%d' % (t, u))
            if e:
                return e, False
    full_ = oracle(il, fn, ty, x, zc, zn, W, rc, rs)
    return compare(w, full_, 'TildeR (static)') or compare(w, full_, 'TildeR (static, into an array)'), full_[2]


def judge_crystal(w, c):
    n, zc, zn, extra, rc, rs = c
    m, c0 = w.ints(2)
    q = w.arr((m, 4))
    ty, x = [int(v) for v in q[:, 0]], q[:, 1:]
    fn = [w.ints(w.ints(1)[0]) for _ in range(n)]
    il = [c0 + i for i in range(n)]

    def one(zc, zn, W, what):
        e = oracle(il, fn, ty, x, zc, zn, W, rc, rs)
        s = w.ints(2)
        if s != [e[0].shape[0], e[0].shape[1]]:
            return '%s: %d rows of %d slots instead of %d of %d' % (what, s[0], s[1], e[0].shape[0], e[0].shape[1])
        return compare(w, e, what)
    for t in zc:
        for u in zn:
            k = widest(il, fn, ty, u, t)
            e = one([t], [u], [k], 'PairTildeR of species %d-%d' % (t, u)) or one([t], [u], [k + extra], 'PairTildeR of species %d-%d, padded' % (t, u))
            if e:
                return e, False
    Wp = [max(widest(il, fn, ty, u, t) for t in zc) + extra for u in zn]
    Wa = [widest(il, fn, ty, u) for u in zn]
    return one(zc, zn, Wp, 'TildeR with given widths') or one(zc, zn, Wa, 'TildeR with its own widths'), oracle(il, fn, ty, x, zc, zn, Wa, rc, rs)[2]


def bounded(b):
    rng = random.Random(b.seed)
    drv = cdrv.Driver(DRIVER)
    for gen, judge, n in ((case_lists, judge_lists, 120 if not b.thorough else 1500), (case_crystal, judge_crystal, 60 if not b.thorough else 600)):
        cases = [gen(rng) for _ in range(n)]
        out, err = drv.run(''.join(t for t, _ in cases), timeout=300)
        if err == 'timeout':
            raise Unsupported('driver took too long')
        if err:
            b.bad('the code aborts: ' + err, cases[min(len(out), n - 1)][0])
            continue
        for (text, c), line in zip(cases, out):
            try:
                e, live = judge(Words(line), c)
            except (ValueError, IndexError) as x:
                e, live = 'output cannot be read: %s' % x, False
            if e:
                b.bad(e, text)
            else:
                b.ok(len(text) if live else None, text)


if __name__ == '__main__':
    import sys
    import props.C26 as m
    sys.exit(main(m))
