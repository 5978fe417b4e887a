"""Value semantics of the C++ classes: copies, assignments, moves and destructors."""
import random
from vc.cxxlib import *
from vc.core import *
from vc.report import Unit, main
from vc import cdrv
from props.nbspec import *

ID = 'C09'
ASSUMPTIONS = ['malloc/new succeed and return fresh, disjoint blocks', 'objects start in a well-formed state with at least one element (what the constructors build: C02, C05, C07) or default-constructed',
               'NeighborList, PairTildeR, TildeR: 1 or 2 atoms in the proof (lists of any length)', 'destructors of local objects are not modelled: code that needs them is reported undecided and left to the bounded part',
               'zero-sized blocks of empty ChebyshevPoly, MtpQ and MtpParam objects are not counted as owned memory']
BOUNDED_RULE = ('random sequences of construction, copy, assignment (also to itself and from empty objects), move, evaluation and destruction over four '
                'objects of every class, compiled from the sources with ASan/UBSan; values compared through the public getters after every step; bytes allocated compared at the end; non-trivial: a sequence run to its end')
BL, SC, BI, NL = 'BinLinkedList<double>', 'Supercell<double>', 'BasicStructureInfo<double>', 'NeighborList<double>'


def arr(it, tag, nm, elem, n):
    a = zarray('%s_%s' % (tag, nm), 1, sort_of(elem))
    return fn_region(it, '%s.%s' % (tag, nm), elem, n, lambda i: sel(a, i[0]))


def inline(it, o, nm, vals):
    p = o.f[nm].val
    for k, v in enumerate(vals):
        it.storemem(Ptr(p.region, p.args, z3.IntVal(k)), v, 0)


def s_structure(it, t, n=None):
    n = n if n is not None else N(t + '_n')
    it.ctx.assume(n >= 1)
    X, Z = zarray(t + '_X', 2, 'real'), zarray(t + '_Z', 1, 'int')
    return structure(it, t, n, lambda i, k: sel(X, i, k), lambda i: sel(Z, i), lattice(t + '_lat'), [R('%s_o%d' % (t, k)) for k in range(3)])


def s_info(it, t, n=None):
    o = it.new_obj(full(it, BI))
    n = n if n is not None else N(t + '_p')
    it.ctx.assume(n >= 1)
    field(it, o, 'num_atoms', n)
    inline(it, o, 'projected_lengths', [R('%s_pl%d' % (t, k)) for k in range(3)])
    inline(it, o, 'interplanar_distances', [R('%s_ip%d' % (t, k)) for k in range(3)])
    return o


def s_supercell(it, t):
    o = it.new_obj(full(it, SC))
    n, p = N(t + '_n'), N(t + '_p')
    it.ctx.assume(z3.And(p >= 1, n >= p))
    field(it, o, 'structure', s_structure(it, t, n))
    field(it, o, 'prim_structure_info', s_info(it, t, p))
    field(it, o, 'num_atoms', n)
    inline(it, o, 'scaling_matrix', [N('%s_s%d' % (t, k)) for k in range(3)])
    field(it, o, 'prim_cell_idx', N(t + '_c'))
    inline(it, o, 'prim_cell_idx_xyz', [N('%s_c%d' % (t, k)) for k in range(3)])
    field(it, o, 'owned_atom_idxs', arr(it, t, 'owned', 'int', p))
    return o


def s_bins(it, t):
    o = it.new_obj(full(it, BL))
    sc = s_supercell(it, t)
    field(it, o, 'supercell', sc)
    rc, nb = R(t + '_rcut'), [N('%s_nb%d' % (t, k)) for k in range(3)]
    it.ctx.assume(z3.And(rc > 0, *[q >= 1 for q in nb]))
    field(it, o, 'rcut', rc)
    inline(it, o, 'num_bin_xyz', nb)
    inline(it, o, 'bin_size_xyz', [R('%s_bs%d' % (t, k)) for k in range(3)])
    inline(it, o, 'min_limit_xyz', [R('%s_ml%d' % (t, k)) for k in range(3)])
    inline(it, o, 'pbc_xyz', [z3.Bool('%s_pb%d' % (t, k)) for k in range(3)])
    field(it, o, 'heads_lst', arr(it, t, 'heads', 'int', simp(nb[0] * nb[1] * nb[2])))
    field(it, o, 'nexts_lst', arr(it, t, 'nexts', 'int', N(t + '_n')))
    return o


def s_rb(it, t, cls='RB_Chebyshev<double>', blocks=('_vals', '_ders2uu', '_ders2r')):
    o = it.new_obj(full(it, cls))
    n = N(t + '_n')
    it.ctx.assume(n >= 1)
    field(it, o, '_size', n)
    field(it, o, '_rmax', R(t + '_rmax'))
    field(it, o, '_rmin', R(t + '_rmin'))
    for b in blocks:
        field(it, o, b, arr(it, t, cls[:2] + b, 'double', n))
    return o


def s_rq(it, t):
    o = s_rb(it, t, 'RQ_Chebyshev<double>', ('_vals', '_ders2r'))
    s = it.new_obj(full(it, 'SwitchFunction<double>'))
    field(it, s, '_rmax', R(t + '_rmax'))
    field(it, s, '_rmin', R(t + '_rmin'))
    field(it, o, '_switch_func', s)
    field(it, o, '_rb_ptr', ObjPtr(s_rb(it, t), it))
    return o


def s_cheb(it, t):
    o = it.new_obj(full(it, 'ChebyshevPoly<double>'))
    n = N(t + '_n')
    it.ctx.assume(n >= 1)
    s = it.new_obj(full(it, 'MtpSwitchFunc1<double>'))
    for x in (o, s):
        field(it, x, 'rcut', R(t + '_rcut'))
        field(it, x, 'rcut_smooth', R(t + '_rs'))
    field(it, o, 'size_', n)
    field(it, o, 'switch_func', s)
    for b in ('result', 'deriv2xi', 'deriv2r'):
        field(it, o, b, arr(it, t, 'cheb_' + b, 'double', n))
    return o


def s_q(it, t):
    o = it.new_obj(full(it, 'MtpQ<double>'))
    s = it.new_obj(full(it, 'MtpSwitchFunc2<double>'))
    field(it, s, 'rcut', R(t + '_rcut'))
    field(it, s, 'rcut_smooth', R(t + '_rs'))
    field(it, o, 'chebyshev', s_cheb(it, t))
    field(it, o, 'size_', N(t + '_n'))
    field(it, o, 'switch_func2', s)
    for b in ('result', 'deriv2r'):
        field(it, o, b, arr(it, t, 'q_' + b, 'double', N(t + '_n')))
    return o


def source(part):
    return tu(part, extra='inline void vuse(const matersdk::BasicStructureInfo<double>& a) { matersdk::BasicStructureInfo<double> b(a); }') if part == 'nblist' else tu(part)


def vecs(it, tag, n):
    """n vectors (given) of any lengths and contents"""
    LEN, LST = z3.Function(tag + '_LEN', IS, IS), z3.Function(tag + '_LST', IS, IS, IS)
    l = []
    for i in range(n):
        it.ctx.assume(LEN(z3.IntVal(i)) >= 0)
        v = Vec('int')
        v.len = Cell(LEN(z3.IntVal(i)), 'vec.len', 'int', 0)
        r = Region('%s.list%d' % (tag, i), 'int', None, (), None, lambda idx, i=i: LST(z3.IntVal(i), idx[-1]), 'int')
        r.birth = 0
        v.ptr = Ptr(r)
        l.append(v)
    r = Region(tag + '.lists', 'std::vector<int>', z3.IntVal(n), (), None, lambda idx: l[simp(idx[0]).as_long()], None)
    r.birth = 0
    return Ptr(r)


def s_nl(n):
    def build(it, t):
        o = it.new_obj(full(it, NL))
        field(it, o, 'bin_linked_list', s_bins(it, t))
        field(it, o, 'num_atoms', z3.IntVal(n[t]))
        field(it, o, 'rcut', R(t + '_rcut'))
        field(it, o, 'neighbor_lists', vecs(it, t, n[t]))
        return o
    return build


def s_param(it, t):
    o = it.new_obj(full(it, 'MtpParam'))
    field(it, o, '_alpha_moments_count', N(t + '_m'))
    for nm, b, w in (('_alpha_index_basic_count', '_alpha_index_basic', 4), ('_alpha_index_times_count', '_alpha_index_times', 4), ('_alpha_scalar_moments', '_alpha_moment_mapping', 1)):
        n = N(t + b + '_n')
        it.ctx.assume(n >= 1)
        field(it, o, nm, n)
        if w == 1:
            field(it, o, b, arr(it, t, b, 'int', n))
        else:
            a = zarray('%s_%s' % (t, b), 2, 'int')
            field(it, o, b, fn_region(it, '%s.%s' % (t, b), 'int', simp(4 * n), lambda i, a=a: sel(a, *i), (n, z3.IntVal(4))))
    return o


def s_pair(n):
    def build(it, t):
        o = it.new_obj(full(it, 'PairTildeR<double>'))
        field(it, o, 'neighbor_list', s_nl(n)(it, t))
        for f in ('center_atomic_number', 'neigh_atomic_number', 'num_center_atoms', 'num_neigh_atoms'):
            field(it, o, f, N(t + '_' + f))
        field(it, o, 'rcut', R(t + '_rcut'))
        field(it, o, 'rcut_smooth', R(t + '_rs'))
        return o
    return build


def s_tilde(n):
    def build(it, t):
        o = it.new_obj(full(it, 'TildeR<double>'))
        field(it, o, 'neighbor_list', s_nl(n)(it, t))
        for f, bs in (('num_center_atomic_numbers', ('center_atomic_numbers_lst', 'num_center_atoms_lst')), ('num_neigh_atomic_numbers', ('neigh_atomic_numbers_lst', 'num_neigh_atoms_lst'))):
            k = N(t + '_' + f)
            it.ctx.assume(k >= 1)
            field(it, o, f, k)
            for b in bs:
                field(it, o, b, arr(it, t, b, 'int', k))
        field(it, o, 'rcut', R(t + '_rcut'))
        field(it, o, 'rcut_smooth', R(t + '_rs'))
        return o
    return build


def full(it, cls):
    for k in it.tu.fields:
        if k.split('::')[-1] == cls:
            return k
    raise Unsupported('class %s not found' % cls)


def is_inline(it, cls, nm):
    for f in it.tu.fields.get(cls, []):
        if f['name'] == nm:
            return '[' in qt(f)
    return False


def blocks(it, o, out=None):
    """the heap blocks an object owns: (name, region, args with generic indices)"""
    out = [] if out is None else out
    for nm, c in o.f.items():
        v = c.val
        if isinstance(v, Obj):
            blocks(it, v, out)
        elif isinstance(v, ObjPtr):
            out.append((nm, v, None))
            blocks(it, v.obj, out)
        elif isinstance(v, Ptr) and v.region is not None and not is_inline(it, o.cls, nm):
            out.append((nm, v.region, tuple(v.args)))
            if v.region.elem and v.region.elem.rstrip().endswith('*'):
                i = it.ctx.fresh('int', 'row')
                it.ctx.assume(z3.And(i >= 0, i < v.region.size))
                it.suppress += 1
                w = ld(it, v, i)
                it.suppress -= 1
                out.append((nm + ' row', w.region, tuple(w.args)))
    return out


def same(it, tag, a, b):
    """equal values, field by field and element by element"""
    ctx = it.ctx
    for nm in a.f:
        u, v, w = a.f[nm].val, b.f[nm].val, '%s: %s' % (tag, nm)
        if isinstance(u, ObjPtr) and isinstance(v, ObjPtr):
            u, v = u.obj, v.obj
        if isinstance(u, Obj) and isinstance(v, Obj):
            same(it, w, u, v)
        elif isinstance(u, Ptr) and isinstance(v, Ptr):
            if u.region is None or v.region is None:
                ctx.check(w + ' null in both', z3.BoolVal(u.region is None and v.region is None))
                continue
            same_block(it, w, u, v)
        elif z3.is_expr(u) and z3.is_expr(v):
            ctx.check(w, u == v)
        elif u is None and v is None:
            pass
        else:
            raise Unsupported('%s: %r and %r' % (w, u, v))


def same_block(it, w, u, v):
    ctx = it.ctx
    ru, rv = u.region, v.region
    su, sv = (subst(r.size, list(zip(r.params, p.args))) if r.params else r.size for r, p in ((ru, u), (rv, v)))
    ctx.check(w + ': extent', z3.And(su == sv, u.off == 0, v.off == 0))
    if z3.is_int_value(simp(I(sv))) and simp(I(sv)).as_long() <= 4:
        ix = [z3.IntVal(k) for k in range(simp(I(sv)).as_long())]
    elif rv.shape is not None and len(rv.shape) == 2 and z3.is_int_value(simp(I(rv.shape[1]))):
        i, d = ctx.fresh('int', 'i'), simp(I(rv.shape[1])).as_long()
        ctx.assume(z3.And(i >= 0, i < rv.shape[0]))
        ix = [simp(i * d + k) for k in range(d)]
    else:
        i = ctx.fresh('int', 'i')
        ctx.assume(z3.And(i >= 0, i < sv))
        ix = [i]
    for i in ix:
        x, y = ld(it, u, i), ld(it, v, i)
        if isinstance(x, Vec) and isinstance(y, Vec):
            ctx.check(w + ': length of a list', x.len.val == y.len.val)
            j = ctx.fresh('int', 'j')
            it.suppress += 1
            p, q = (ld(it, z.ptr, j) if z.ptr is not None else None for z in (x, y))
            it.suppress -= 1
            if not z3.is_expr(p) or not z3.is_expr(q):
                raise Unsupported('contents of a list')
            ctx.check(w + ': contents of a list', z3.Implies(z3.And(j >= 0, j < y.len.val), p == q))
        elif isinstance(x, Ptr) and isinstance(y, Ptr):
            same_block(it, w + ' row', x, y)
        elif z3.is_expr(x) and z3.is_expr(y):
            ctx.check(w + ': contents', x == y)
        else:
            raise Unsupported('%s: contents %r, %r' % (w, x, y))


def members(o):
    out = [o]
    for c in o.f.values():
        v = c.val.obj if isinstance(c.val, ObjPtr) else c.val
        if isinstance(v, Obj):
            out += members(v)
    return out


def apart(it, tag, a, b):
    """no block in common"""
    ra = {id(r) for _, r, _ in blocks(it, a)}
    for nm, r, _ in blocks(it, b):
        it.ctx.check('%s: %s is a block of its own' % (tag, nm), z3.BoolVal(id(r) not in ra))


def released(it, tag, old):
    for nm, r, args in old:
        g = r.deleted.val if isinstance(r, ObjPtr) else r.freed.read(it.ctx, args or (z3.IntVal(0),))
        if not z3.is_true(simp(g)) and any(c.val is r or isinstance(c.val, Ptr) and c.val.region is r for o in it.objs for c in o.f.values() if o not in it.tested):
            raise Unsupported('a local object holds the block of %s when its scope ends' % nm)
        it.ctx.check('%s: %s is released' % (tag, nm), g)


def op(it, o, rhs, move):
    c = [f for f in it.tu.byname.get(o.cls + '::operator=', []) if body_of(f) is not None and not f.get('isImplicit') and
         qt(params_of(f)[0]).rstrip().endswith('&&') == move]
    if not c:
        raise Unsupported('no assignment of ' + o.cls)
    if not qt(params_of(c[0])[0]).rstrip().endswith('&'):
        raise Unsupported('assignment takes its argument by value')
    r = it.call(c[0], o, [ValLV(rhs)])
    r = r.get() if isinstance(r, LV) else r
    it.ctx.check('assignment returns the object', z3.BoolVal((r.obj if hasattr(r, 'obj') else r) is o))


def ctor(it, rhs, move):
    nm = rhs.cls.split('::')[-1].split('<')[0]
    c = [f for f in it.tu.byname.get(rhs.cls + '::' + nm, []) if f['kind'] == 'CXXConstructorDecl' and body_of(f) is not None and not f.get('isImplicit')
         and len(params_of(f)) == 1 and nm in qt(params_of(f)[0]) and qt(params_of(f)[0]).rstrip().endswith('&&' if move else '&') and
         qt(params_of(f)[0]).rstrip().endswith('&&') == move]
    if not c:
        raise Unsupported('no copy constructor of ' + rhs.cls)
    o = it.new_obj(rhs.cls)
    it.call(c[0], o, [ValLV(rhs)])
    return o


def default(it, cls):
    return construct(it, cls)


def unit_for(nm, part, build, how, moves):
    def run(ctx):
        it = Interp(source(part), ctx)
        ref = build(it, 'a')
        it.objs = []
        a = build(it, 'a')
        it.tested = members(a)
        if how == 'copy':
            c = ctor(it, a, False)
            it.tested += members(c)
            same(it, 'the copy', c, ref)
            same(it, 'the original', a, ref)
            apart(it, 'the copy', a, c)
            own = blocks(it, c)
            it.destroy(c)
            same(it, 'the original after the copy is destroyed', a, ref)
            released(it, 'destructor', own)
            own = blocks(it, a)
            it.destroy(a)
            released(it, 'destructor of the original', own)
        elif how == 'assign':
            b = build(it, 'b')
            it.tested += members(b)
            old = blocks(it, b)
            op(it, b, a, False)
            same(it, 'the target', b, ref)
            same(it, 'the source', a, ref)
            apart(it, 'the target', a, b)
            released(it, 'old contents of the target', old)
            it.destroy(a)
            same(it, 'the target after the source is destroyed', b, ref)
            own = blocks(it, b)
            it.destroy(b)
            released(it, 'destructor', own)
        elif how == 'self':
            op(it, a, a, False)
            same(it, 'after assignment to itself', a, ref)
            it.destroy(a)
        elif how == 'empty':
            e, f = default(it, a.cls), default(it, a.cls)
            c = ctor(it, e, False)
            op(it, f, a, False)
            same(it, 'assigned to an empty object', f, ref)
            old = blocks(it, a)
            op(it, a, e, False)
            released(it, 'old contents of the target', old)
            it.destroy(a)
            for x in (c, e, f):
                it.destroy(x)
            ctx.check('nothing is released twice', z3.BoolVal(True))
        elif how == 'move':
            c = ctor(it, a, True)
            it.tested += members(c)
            same(it, 'the new object', c, ref)
            it.destroy(a)
            same(it, 'after the old one is destroyed', c, ref)
            own = blocks(it, c)
            it.destroy(c)
            released(it, 'destructor', own)
        elif how == 'move assign':
            b = build(it, 'b')
            it.tested += members(b)
            old = blocks(it, b)
            op(it, b, a, True)
            same(it, 'the target', b, ref)
            released(it, 'old contents of the target', old)
            it.destroy(a)
            same(it, 'after the source is destroyed', b, ref)
            op(it, b, b, True)
            same(it, 'after a move to itself', b, ref)
            it.destroy(b)
    return Unit('%s: %s' % (nm, how), run, ['%s: copy, assignment, destructor' % nm], timeout=200)


CLASSES = [('Structure', 'nblist', s_structure, False), ('BasicStructureInfo', 'nblist', s_info, False), ('Supercell', 'nblist', s_supercell, False),
           ('BinLinkedList', 'nblist', s_bins, False), ('RB_Chebyshev', 'mtpr', s_rb, True), ('RQ_Chebyshev', 'mtpr', s_rq, True),
           ('ChebyshevPoly', 'mtp', s_cheb, True), ('MtpQ', 'mtp', s_q, True),
           ('NeighborList of 2 atoms', 'nblist', s_nl(dict(a=2, b=1)), False), ('MtpParam', 'param', s_param, True),
           ('PairTildeR', 'deepmd', s_pair(dict(a=1, b=2)), False), ('TildeR', 'deepmd', s_tilde(dict(a=1, b=2)), False)]


def units(tier):
    out = []
    for nm, part, build, mv in CLASSES:
        source(part)
        for how in ['copy', 'assign', 'self', 'empty'] + (['move', 'move assign'] if mv else []):
            out.append(unit_for(nm, part, build, how, mv))
    return out


DRIVER = r'''
#include <vector>
#include <memory>
#include <random>
#include <cstdio>
#include <cmath>
#include <cassert>
#include <cstdlib>
#include <string>
#include <fstream>
#include <utility>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#include "@S@/nblist/include/structure.h"
#include "@S@/nblist/include/binLinkedList.h"
#include "@S@/nblist/include/neighborList.h"
#include "@S@/descriptor/deepmd/include/se.h"
#include "@S@/descriptor/mtp/include/mtpMRadial.h"
#include "@S@/descriptor/mtpr/include/basis.h"
#include "@S@/descriptor/mtpr/include/mtpParam.h"
using namespace matersdk;
typedef std::vector<double> V;
typedef std::mt19937 G;
static double u(G& g, double a, double b) { return a + (b - a) * (g() % 100003) / 100003.0; }
template <class T> static void put(V& o, const T* p, int n) { o.push_back(n); for (int i = 0; i < n; i++) o.push_back((double)p[i]); }

static Structure<double> crystal(G& g) {
    int n = 1 + g() % 4;
    double b[3][3] = {{4 + u(g, 0, 2), 0, 0}, {u(g, -1, 1), 4 + u(g, 0, 2), 0}, {u(g, -1, 1), u(g, -1, 1), 4 + u(g, 0, 2)}};
    int z[4] = {42, 16, 42, 16};
    double x[4][3];
    for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) x[i][k] = (i * 0.21 + 0.1 + u(g, 0, 0.05));
    return Structure<double>(n, b, z, x, false);
}
static V fp(const Structure<double>& s) {
    V o; int n = s.get_num_atoms();
    o.push_back(n);
    for (int i = 0; i < 3; i++) put(o, s.get_basis_vectors()[i], 3);
    put(o, s.get_atomic_numbers(), n);
    for (int i = 0; i < n; i++) put(o, s.get_cart_coords()[i], 3);
    put(o, s.get_pseudo_origin(), 3);
    return o;
}
static V fp(const Supercell<double>& s) {
    V o = fp(s.get_structure());
    put(o, s.get_scaling_matrix(), 3); o.push_back(s.get_prim_num_atoms()); put(o, s.get_prim_cell_idx_xyz(), 3);
    o.push_back(s.get_prim_cell_idx()); o.push_back(s.get_num_atoms()); put(o, s.get_owned_atom_idxs(), s.get_prim_num_atoms());
    return o;
}
static V fp(const BinLinkedList<double>& s) {
    V o = fp(s.get_supercell());
    put(o, s.get_bin_size_xyz(), 3); put(o, s.get_num_bin_xyz(), 3); put(o, s.get_min_limit_xyz(), 3);
    for (int i = 0; i < s.get_supercell().get_prim_num_atoms(); i++) {
        o.push_back(s.get_bin_idx(i));
        std::vector<int> a = s.get_neigh_atoms(i);
        put(o, a.data(), a.size());
    }
    return o;
}
static V fp(const NeighborList<double>& s) {
    V o = fp(s.get_binLinkedList());
    o.push_back(s.get_num_center_atoms()); o.push_back(s.get_rcut());
    for (int i = 0; i < s.get_num_center_atoms(); i++) put(o, s.get_neighbor_lists()[i].data(), s.get_neighbor_lists()[i].size());
    return o;
}
template <class T> static V fpt(const T& s) {
    V o; int n = s.get_num_center_atoms(), m = s.get_num_neigh_atoms();
    o.push_back(n); o.push_back(m);
    double*** r = s.generate();
    for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) { put(o, r[i][j], 4); free(r[i][j]); } free(r[i]); }
    free(r);
    return o;
}
static V fp(const deepPotSE::PairTildeR<double>& s) { V o = fpt(s); o.push_back(s.get_max_num_neigh_atoms()); return o; }
static V fp(const deepPotSE::TildeR<double>& s) { return fpt(s); }
static V fp(const mtpr::RB_Chebyshev<double>& s) { V o; put(o, s.vals(), s.size()); put(o, s.ders2uu(), s.size()); put(o, s.ders2r(), s.size()); o.push_back(s.rmax()); o.push_back(s.rmin()); return o; }
static V fp(const mtpr::RQ_Chebyshev<double>& s) { V o; put(o, s.vals(), s.size()); put(o, s.ders2r(), s.size()); o.push_back(s.rmax()); o.push_back(s.rmin()); return o; }
static V fp(const mtp::ChebyshevPoly<double>& s) { V o; put(o, s.get_result(), s.size()); put(o, s.get_deriv2xi(), s.size()); put(o, s.get_deriv2r(), s.size()); return o; }
static V fp(const mtp::MtpQ<double>& s) { V o; put(o, s.get_result(), s.size()); put(o, s.get_deriv2r(), s.size()); return o; }
static V fp(const mtpr::MtpParam& s) {
    V o; o.push_back(s.alpha_moments_count());
    for (int i = 0; i < s.alpha_index_basic_count(); i++) put(o, s.alpha_index_basic()[i], 4);
    for (int i = 0; i < s.alpha_index_times_count(); i++) put(o, s.alpha_index_times()[i], 4);
    put(o, s.alpha_moment_mapping(), s.alpha_scalar_moments());
    return o;
}
static bool zero_block = false;
static double PAR[3];
static bool PBC[3] = {true, true, true};
template <class T> struct Make;
template <> struct Make<Structure<double>> { static Structure<double>* f(G& g) { Structure<double>* p = new Structure<double>(crystal(g)); if (g() % 2) { int s[3] = {3, 1 + 2 * int(g() % 2), 1 + 2 * int(g() % 2)}; p->make_supercell(s); } return p; } };
template <> struct Make<Supercell<double>> { static Supercell<double>* f(G& g) { int s[3] = {1 + 2 * int(g() % 2), 1 + 2 * int(g() % 2), 3}; return new Supercell<double>(crystal(g), s); } };
template <> struct Make<BinLinkedList<double>> { static BinLinkedList<double>* f(G& g) { return new BinLinkedList<double>(crystal(g), u(g, 2, 3.5), PBC); } };
template <> struct Make<NeighborList<double>> { static NeighborList<double>* f(G& g) { return new NeighborList<double>(crystal(g), u(g, 2, 3.5), PBC, g() % 2); } };
template <> struct Make<deepPotSE::PairTildeR<double>> { static deepPotSE::PairTildeR<double>* f(G& g) {
    NeighborList<double> nl(crystal(g), u(g, 2, 3.5), PBC, true); return new deepPotSE::PairTildeR<double>(nl, 42, g() % 2 ? 42 : 16, 40 + g() % 9, 0.5); } };
template <> struct Make<deepPotSE::TildeR<double>> { static deepPotSE::TildeR<double>* f(G& g) {
    NeighborList<double> nl(crystal(g), u(g, 2, 3.5), PBC, true); int c[6] = {42, 16, 8, 1, 2, 3}, m[6] = {40, 42, 41, 5, 4, 3}; int k = 1 + g() % 6, l = 1 + g() % 6;
    return new deepPotSE::TildeR<double>(nl, k, c, l, c, m, 0.5); } };
#define RADIAL(C) template <> struct Make<C> { static C* f(G& g) { int k = 1 + g() % 6; double a = u(g, 4, 7), b = u(g, 0.5, 2); PAR[0] = k; PAR[1] = a; PAR[2] = b; C* p = new C(k, a, b); if (g() % 4) p->build(u(g, 2, 4)); return p; } };
RADIAL(mtpr::RB_Chebyshev<double>) RADIAL(mtpr::RQ_Chebyshev<double>) RADIAL(mtp::ChebyshevPoly<double>) RADIAL(mtp::MtpQ<double>)
template <> struct Make<mtpr::MtpParam> { static mtpr::MtpParam* f(G& g) {
    int nb = 1 + g() % 5, nt = g() % 5, ns = 1 + g() % 5;
    zero_block |= nt == 0;
    { std::ofstream o("p.mtp");
      for (int i = 0; i < 10; i++) o << "header\n";
      o << "alpha_moments_count = " << g() % 30 << "\nalpha_index_basic_count = " << nb << "\nalpha_index_basic = {";
      for (int i = 0; i < nb; i++) o << (i ? ", " : "") << "{" << g() % 9 << ", " << g() % 9 << ", " << g() % 9 << ", " << g() % 9 << "}";
      o << "}\nalpha_index_times_count = " << nt << "\nalpha_index_times = {";
      for (int i = 0; i < nt; i++) o << (i ? ", " : "") << "{" << g() % 9 << ", " << g() % 9 << ", " << g() % 9 << ", " << g() % 9 << "}";
      o << "}\nalpha_scalar_moments = " << ns << "\nalpha_moment_mapping = {";
      for (int i = 0; i < ns; i++) o << (i ? ", " : "") << g() % 30;
      o << "}\n"; }
    return new mtpr::MtpParam("p.mtp"); } };

template <class T, bool B> struct Build { static V f(T&, double, const V&) { return V(); } };
/* the value the object has to take: that of a new one with the same parameters */
template <class T> struct Build<T, true> { static V f(T& x, double r, const V& p) { T y((int)p[0], p[1], p[2]); y.build(r); x.build(r); return fp(y); } };
template <class T, bool M> struct Move { static T* c(T& a) { return new T(a); } static void a(T& x, T& y) { x = y; } };
template <class T> struct Move<T, true> { static T* c(T& a) { return new T(std::move(a)); } static void a(T& x, T& y) { x = std::move(y); } };

/* slots hold an object and what it has to look like; st: 0 none, 1 value known, 2 empty or moved from */
template <class T, bool M, bool B, bool LEAK> static void run(const char* nm, unsigned seed, int steps) {
    G g(seed);
    { std::unique_ptr<T> w(Make<T>::f(g)); if (w) { V x = fp(*w); } }
    size_t before = __sanitizer_get_current_allocated_bytes();
    bool emp = false;
    zero_block = false;
    {
        std::unique_ptr<T> o[4]; V e[4], pa[4]; int st[4] = {0, 0, 0, 0};
        char line[64];
        for (int q = 0; q < steps; q++) {
            int i = g() % 4, j = g() % 4, k = g() % 8;
            if (k == 1 && g() % 2) k = 0;
            snprintf(line, 64, "%s step %d op %d %d %d", nm, q, k, i, j);
            fprintf(stderr, "%s\n", line);
            if (k == 0) { o[i].reset(Make<T>::f(g)); e[i] = fp(*o[i]); st[i] = 1; pa[i] = V(PAR, PAR + 3); }
            else if (k == 1) { o[i].reset(new T()); st[i] = 2; e[i].clear(); }
            else if (k == 2) { o[i].reset(); st[i] = 0; e[i].clear(); }
            else if (!st[j]) continue;
            if (k > 2 && st[j] == 2) emp = true;        /* zero-sized blocks of empty objects are not counted */
            if (k <= 2) {}
            else if (k == 3) { std::unique_ptr<T> t(new T(*o[j])); o[i] = std::move(t); e[i] = V(e[j]); st[i] = st[j]; pa[i] = V(pa[j]); }
            else if (k == 4) { if (!st[i]) continue; *o[i] = *o[j]; e[i] = V(e[j]); st[i] = st[j]; pa[i] = V(pa[j]); }
            else if (k == 5) { *o[j] = *o[j]; }
            else if (k == 6) { if (!M || i == j) continue; V x(e[j]); int s = st[j];
                if (st[i] && g() % 2) Move<T, M>::a(*o[i], *o[j]); else { std::unique_ptr<T> t(Move<T, M>::c(*o[j])); o[i] = std::move(t); }
                e[i] = x; st[i] = s; pa[i] = V(pa[j]); st[j] = 2; e[j].clear(); if (g() % 2) { o[j].reset(); st[j] = 0; } }
            else if (k == 7) { if (!B || st[j] != 1) continue; e[j] = Build<T, B>::f(*o[j], u(g, 2, 4), pa[j]); }
            for (int a = 0; a < 4; a++) if (st[a] == 1 && fp(*o[a]) != e[a]) {
                printf("BAD %s: after the operation the object in slot %d no longer has its value\n", line, a); fflush(stdout); return; }
        }
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    if (LEAK && !emp && !zero_block && after > before) printf("BAD %s: %zu bytes still allocated after all objects are gone\n", nm, after - before);
    else printf("ok %s\n", nm);
    fflush(stdout);
}
int main() {
    unsigned s; int n, c;
    while (scanf("%d %u %d", &c, &s, &n) == 3) {
        if (c == 0) run<Structure<double>, false, false, true>("Structure", s, n);
        if (c == 1) run<Supercell<double>, false, false, true>("Supercell", s, n);
        if (c == 2) run<BinLinkedList<double>, false, false, true>("BinLinkedList", s, n);
        if (c == 3) run<NeighborList<double>, false, false, true>("NeighborList", s, n);
        if (c == 4) run<deepPotSE::PairTildeR<double>, false, false, true>("PairTildeR", s, n);
        if (c == 5) run<deepPotSE::TildeR<double>, false, false, true>("TildeR", s, n);
        if (c == 6) run<mtpr::RB_Chebyshev<double>, true, true, true>("RB_Chebyshev", s, n);
        if (c == 7) run<mtpr::RQ_Chebyshev<double>, true, true, true>("RQ_Chebyshev", s, n);
        if (c == 8) run<mtp::ChebyshevPoly<double>, true, true, true>("ChebyshevPoly", s, n);
        if (c == 9) run<mtp::MtpQ<double>, true, true, true>("MtpQ", s, n);
        if (c == 10) run<mtpr::MtpParam, true, false, true>("MtpParam", s, n);
    }
}
'''
NAMES = ['Structure', 'Supercell', 'BinLinkedList', 'NeighborList', 'PairTildeR', 'TildeR', 'RB_Chebyshev', 'RQ_Chebyshev', 'ChebyshevPoly', 'MtpQ', 'MtpParam']


def bounded(b):
    rng = random.Random(b.seed)
    drv = cdrv.Driver(DRIVER, sources=['@S@/descriptor/mtpr/src/mtpParam.cc'])
    n = 12 if not b.thorough else 150
    for c, nm in enumerate(NAMES):
        jobs = [(c, rng.randrange(1 << 30), rng.choice([6, 12, 30] if c in (2, 3, 4, 5) else [12, 40, 80])) for _ in range(3 * n if c not in (2, 3, 4, 5) else n // 2)]
        out, err = drv.run(''.join('%d %d %d\n' % j for j in jobs), timeout=300)
        if err == 'timeout':
            raise Unsupported('driver took too long')
        if err:
            j = jobs[min(len(out), len(jobs) - 1)]
            b.bad('a sequence of copies and assignments makes the code abort: ' + err, {'class': nm, 'seed': j[1], 'steps': j[2], 'last operation': drv.last})
            continue
        for j, line in zip(jobs, out):
            if line.startswith('BAD'):
                b.bad(line[4:], {'class': nm, 'seed': j[1], 'steps': j[2]})
            else:
                b.ok((nm, j[1] % 97), {'class': nm, 'seed': j[1], 'steps': j[2]})


if __name__ == '__main__':
    import sys
    import props.C09 as m
    sys.exit(main(m))
