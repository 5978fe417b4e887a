"""Contract of the external class the repository's DStructure extends (pymatgen.core.Structure): a list of sites with species and
coordinates, the lattice, and the two coordinate tables in site order."""
from vc.pylib import *
from vc.pyv import _fresh_idx

STRUCT = 'matersdk/io/publicLayer/structure.py'


def lattice_obj(L, rec=None):
    a = SArr((3, 3), lambda idx: pick(L, idx), 'f')
    f = dict(matrix=a)
    o = Obj('lattice', f)
    o.hooks['abc'] = lambda it, o: tuple(it.ctx.sqrt(sum(x * x for x in L[k])) for k in range(3))
    if rec is not None:
        o.f['reciprocal_lattice'] = rec
    return o


def pick(M, idx):
    """M[idx[0]][idx[1]] of a concrete nested list at symbolic indices"""
    r, c = idx
    cr, cc = conc(num(r)), conc(num(c))
    if isinstance(cr, int) and isinstance(cc, int):
        return M[cr][cc]
    out = None
    for i in range(len(M)):
        for j in range(len(M[0])):
            if isinstance(cr, int) and i != cr or isinstance(cc, int) and j != cc:
                continue
            cond = z3.And(num(r) == i, num(c) == j)
            out = num(M[i][j]) if out is None else z3.If(cond, num(M[i][j]), out)
    return out


def det3(L):
    return (L[0][0] * (L[1][1] * L[2][2] - L[1][2] * L[2][1]) - L[0][1] * (L[1][0] * L[2][2] - L[1][2] * L[2][0])
            + L[0][2] * (L[1][0] * L[2][1] - L[1][1] * L[2][0]))


def specie_obj(z):
    return Obj('specie', dict(Z=z), {'str': lambda it, o: SymStr('element', o.f['Z'])})


def site_obj(z, xyz, tag=None):
    return Obj('site', dict(specie=specie_obj(z), coords=SArr((3,), lambda idx: pick([xyz], (0, idx[0]))), tag=tag))


def structure(it, mod, n, Z, X, L, fr=None, extra=None):
    """a DStructure with n sites: atomic number Z(i), cartesian X(i,k), lattice L (3x3 terms), fractional fr(i,k)"""
    cls = mod.get(it, 'DStructure')
    perm = None
    sites = PList(SSeq(n, lambda i: site_obj(Z(i), [X(i, z3.IntVal(k)) for k in range(3)], tag=i)))
    o = Obj(cls, dict(extra or {}))
    o.f['_base'] = (n, Z, X, fr)
    o.f['lattice'] = lattice_obj(L)
    o.f['sites'] = sites

    def order(it, o):
        """site k of the present list is original site tag(k)"""
        v = o.f['sites'].val
        if isinstance(v, SSeq):
            return v.n, lambda k: v.get(k).f['tag']
        raise Unsupported('site list')
    o.hooks['num_sites'] = lambda it, o: order(it, o)[0]
    o.hooks['cart_coords'] = lambda it, o: SArr((order(it, o)[0], 3), lambda idx, t=order(it, o)[1]: X(t(idx[0]), idx[1]), 'f')
    if fr is not None:
        o.hooks['frac_coords'] = lambda it, o: SArr((order(it, o)[0], 3), lambda idx, t=order(it, o)[1]: fr(t(idx[0]), idx[1]), 'f')
    o.hooks['species'] = lambda it, o: PList(SSeq(order(it, o)[0], lambda k, t=order(it, o)[1]: specie_obj(Z(t(k)))))
    return o


def ctor(mod, log=None):
    """contract of the constructor: sites in the given order, coordinates as given"""
    def con(it, lattice=None, species=None, coords=None, coords_are_cartesian=False, site_properties=None, **kw):
        lat = lattice.f['matrix'] if isinstance(lattice, Obj) else lattice
        g = lat.snap()
        L = [[g((z3.IntVal(i), z3.IntVal(k))) for k in range(3)] for i in range(3)]
        sp = it.seq(species)
        co = coords if isinstance(coords, SArr) else None
        if co is None:
            from vc.pynp import asarr as toarr
            co = toarr(it, coords)
        c = co.snap()
        cart = it.truth(coords_are_cartesian)
        if cart is not True and cart is not False:
            raise Unsupported('symbolic coords_are_cartesian')
        it.check('one species per coordinate row', num(sp.n) == num(co.shape[0]), 'safety')

        def zof(i):
            e = sp.get(i)
            if isinstance(e, Obj):
                return e.f['Z']
            if isinstance(e, SymStr):
                return e.key
            return num(e)
        if cart:
            o = structure(it, mod, sp.n, zof, lambda i, k: real(c((i, k))), L)
        else:
            o = structure(it, mod, sp.n, zof, lambda i, k: sum(real(c((i, z3.IntVal(q)))) * pick(L, (q, k)) for q in range(3)), L,
                          fr=lambda i, k: real(c((i, k))))
        o.f['_cart'] = cart
        if site_properties is not None:
            o.f['_props'] = site_properties
        if log is not None:
            log.append(o)
        return o
    return con


def base_input(it, mod, frac=False):
    n = nat(it, 'n', 1)
    Z = z3.Function('Z', IntS, IntS)
    X = z3.Function('X', IntS, IntS, RealS)
    L = [[R('L%d%d' % (i, k)) for k in range(3)] for i in range(3)]
    fr = z3.Function('FR', IntS, IntS, RealS) if frac else None
    return structure(it, mod, n, lambda i: Z(i), lambda i, k: X(i, k), L, fr=(lambda i, k: fr(i, k)) if frac else None), n, Z, X, L, fr
