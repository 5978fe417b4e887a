"""Shared contracts for the C++ neighbour-list classes (C05..C09)."""
from vc.cxxlib import *
from vc.core import *

IS, RS = z3.IntSort(), z3.RealSort()
ST = 'Structure<double>'


def T():
    return tu('nblist')


def sel(a, *idx):
    return z3.Select(a, *[I(i) for i in idx])


def field(it, o, name, v):
    it.setcell(o.f[name], v)


def fn_region(it, name, elem, size, base, shape=None, params=(), readonly=False):
    r = Region(name, elem, size, params, shape, base, sort_of(elem))
    r.birth = 0
    r.readonly = readonly
    return Ptr(r)


def rows(it, name, n, f, width=3, readonly=False):
    """double** block of n rows: row i holds f(i, k)"""
    par = z3.Int(name + '!row')
    r = Region(name + '_row', 'double', z3.IntVal(width), (par,), None, lambda idx: f(idx[0], idx[1]), 'real')
    r.birth = 0
    r.readonly = readonly
    return fn_region(it, name, 'double *', n, lambda idx: Ptr(r, (idx[0],)), readonly=readonly)


def pick(vals, k):
    """vals[k] for a small concrete list and a term k"""
    k = simp(I(k))
    if z3.is_int_value(k):
        return vals[k.as_long()]
    e = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        e = z3.If(k == j, vals[j], e)
    return e


def structure(it, tag, n, coord, zed, lat, org=None, readonly=False):
    """a Structure object in an arbitrary well-formed state: n atoms, coord(i,k), zed(i), lattice rows lat[i][k]"""
    o = it.new_obj(ST if ST in it.tu.fields else 'matersdk::' + ST)
    org = org or [z3.RealVal(0)] * 3
    field(it, o, 'num_atoms', n)
    field(it, o, 'basis_vectors', rows(it, tag + '_basis', z3.IntVal(3), lambda i, k: pick([pick(r, k) for r in lat], i), readonly=readonly))
    field(it, o, 'pseudo_orgin', fn_region(it, tag + '_origin', 'double', z3.IntVal(3), lambda idx: pick(org, idx[0]), readonly=readonly))
    field(it, o, 'atomic_numbers', fn_region(it, tag + '_Z', 'int', n, lambda idx: zed(idx[0]), readonly=readonly))
    field(it, o, 'cart_coords', rows(it, tag + '_coords', n, coord, readonly=readonly))
    return o


def lattice(name='lat'):
    return [[R('%s%d%d' % (name, i, k)) for k in range(3)] for i in range(3)]


def lo(s):
    """first cell index of a scaling of s cells: the original cell has index 0 and the range is balanced"""
    return -((s - 1) / 2)


def radix_hint(s, n):
    tot = n * s[0] * s[1] * s[2]

    def hint(it, r):
        if r.elem == 'int' and not r.params and peq(r.size, tot):
            r.shape = (simp(s[0] * s[1] * s[2]), n)
            r.store.rank = 2
        elif r.elem == 'double' and len(r.params) == 1 and it.mapbounds and peq(it.mapbounds[-1][1], tot):
            r.pshape = (s[0], s[1], s[2], n)
            r.store.rank = 5
    return hint


def supercell_contract(it, this, args):
    """contract of Structure::make_supercell (proved in C05)"""
    sp = args[0].get() if isinstance(args[0], LV) else args[0]
    s = [ld(it, sp, k) for k in range(3)]
    n = this.f['num_atoms'].val
    for q in s:
        it.obl('make_supercell: scaling factors are positive', q >= 1)
    bv, cc, zz = (this.f[k].val for k in ('basis_vectors', 'cart_coords', 'atomic_numbers'))
    lat = [[ld(it, bv, i, k) for k in range(3)] for i in range(3)]
    snap = {}

    def old(P, k):
        return ld(it, cc, P, k)

    p, d = z3.Int('sc!p'), z3.Int('sc!k')
    it.ctx.solver.push()
    npc = len(it.ctx.pc)
    it.ctx.assume(z3.And(p >= 0, p < n, d >= 0, d < 3))
    it.suppress += 1
    body, zbody = ld(it, cc, p, d), ld(it, zz, p)
    it.suppress -= 1
    it.ctx.solver.pop()
    del it.ctx.pc[npc:]

    def coord(idx):
        A, B, C, P, k = idx
        e = subst(body, [(p, P), (d, k)])
        for q, (x, sq) in enumerate(zip((A, B, C), s)):
            e = e + z3.ToReal(x + lo(sq)) * pick(lat[q], k)
        return simp(e)
    tot = simp(n * s[0] * s[1] * s[2])
    par = z3.Int('sc!row')
    r = Region('supercell_row', 'double', z3.IntVal(3), (par,), None, coord, 'real')
    r.pshape = (s[0], s[1], s[2], n)
    r.store.rank = 5
    r.birth = next(it.clock)
    pr = Region('supercell_coords', 'double *', tot, (), None, lambda idx: Ptr(r, (idx[0],)), 'int')
    pr.birth = next(it.clock)
    zr = Region('supercell_Z', 'int', tot, (), (simp(s[0] * s[1] * s[2]), n), lambda idx: subst(zbody, [(p, idx[1])]), 'int')
    zr.birth = next(it.clock)
    it.setcell(this.f['num_atoms'], tot)
    it.setcell(this.f['cart_coords'], Ptr(pr))
    it.setcell(this.f['atomic_numbers'], Ptr(zr))
    po = this.f['pseudo_orgin'].val
    for k in range(3):
        it.storemem(Ptr(po.region, po.args, simp(po.off + k)), sum(z3.ToReal(lo(s[q])) * lat[q][k] for q in range(3)), 0)
    for i in range(3):
        row = it.load(Ptr(bv.region, bv.args, simp(bv.off + i)), 0)
        for k in range(3):
            it.storemem(Ptr(row.region, row.args, simp(row.off + k)), lat[i][k] * z3.ToReal(s[i]), 0)
    this.sc = (s, n)
