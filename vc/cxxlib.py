"""Access to the real C++ sources: one translation unit that instantiates every template class for double."""
import os
from .cxx import *
from .core import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
S = REPO + '/source/'
_HDR = {
    'nblist': (['nblist/include/neighborList.h'],
               ['template class matersdk::Structure<double>;', 'template class matersdk::Supercell<double>;',
                'template class matersdk::BinLinkedList<double>;', 'template class matersdk::NeighborList<double>;']),
    'deepmd': (['nblist/include/neighborList.h', 'descriptor/deepmd/include/se.h',
                'descriptor/deepmd/include/envMatrix.h', 'descriptor/deepmd/include/se4pw.h'],
               ['template class matersdk::deepPotSE::SwitchFunc<double>;',
                'template double matersdk::deepPotSE::smooth_func(const double&, const double&, const double&);',
                'template double matersdk::deepPotSE::recip(const double&);',
                'template class matersdk::deepPotSE::EnvMatrix<double>;',
                'template class matersdk::deepPotSE::Se4pw<double>;',
                'template class matersdk::deepPotSE::PairTildeR<double>;',
                'template class matersdk::deepPotSE::TildeR<double>;']),
    'mtpr': (['descriptor/mtpr/include/basis.h'],
             ['template class matersdk::mtpr::SwitchFunction<double>;',
              'template class matersdk::mtpr::RB_Chebyshev<double>;',
              'template class matersdk::mtpr::RQ_Chebyshev<double>;']),
    'mtp': (['descriptor/mtp/include/mtpMRadial.h'],
            ['template class matersdk::mtp::MtpSwitchFunc1<double>;', 'template class matersdk::mtp::MtpSwitchFunc2<double>;',
             'template class matersdk::mtp::ChebyshevPoly<double>;', 'template class matersdk::mtp::MtpQ<double>;']),
    'param': (['descriptor/mtpr/src/mtpParam.cc'], []),
    'core': (['core/include/vecx.h', 'core/include/vec3Operation.h', 'core/include/arrayUtils.h',
              'core/include/AlignedArray.h'],
             ['template class matersdk::AlignedArray<double>;']),
}
_cache = {}


def tu(*parts, extra=''):
    key = (parts, extra)
    if key not in _cache:
        inc, inst = [], []
        for p in parts:
            h, i = _HDR[p]
            for x in h:
                if x not in inc:
                    inc.append(x)
            inst += i
        text = '#include <cstdlib>\n#include <cstdio>\n' + ''.join('#include "%s%s"\n' % (S, h) for h in inc) + '\n'.join(inst) + '\n' + extra + '\n'
        _cache[key] = TU(text)
    return _cache[key]


def R(name):
    return z3.Real(name)


def N(name):
    return z3.Int(name)


def find_ctor(t, cls, nargs, pred=None):
    nm = cls.split('::')[-1].split('<')[0]
    c = []
    for f in t.byname.get(cls + '::' + nm, []):
        if f['kind'] == 'CXXConstructorDecl' and body_of(f) is not None and len(params_of(f)) == nargs and not f.get('isImplicit'):
            if pred is None or pred([qt(p) for p in params_of(f)]):
                if not any(g['type']['qualType'] == f['type']['qualType'] for g in c):
                    c.append(f)
    if len(c) != 1:
        raise Unsupported('%d matching constructors of %s' % (len(c), cls))
    return c[0]


def lvs(it, fn, args):
    return [(ValLV(a) if qt(p).rstrip().endswith('&') and not isinstance(a, LV) else a) for a, p in zip(args, params_of(fn))]


def construct(it, cls, *args, pred=None):
    fn = find_ctor(it.tu, cls, len(args), pred)
    o = it.new_obj(cls)
    it.call(fn, o, lvs(it, fn, args))
    return o


def method(it, o, name, *args, ptypes=None, const=None):
    fn = it.tu.find(o.cls + '::' + name, len(args), ptypes, const)
    v = it.call(fn, o, lvs(it, fn, args))
    return v.get() if isinstance(v, LV) else v


def func(it, name, *args, ptypes=None):
    fn = it.tu.find(name, len(args), ptypes)
    v = it.call(fn, None, lvs(it, fn, args))
    return v.get() if isinstance(v, LV) else v


def inarray(it, name, elem, shape, readonly=True):
    """an input block with unconstrained contents: returns (pointer, z3 array)"""
    shape = tuple(I(s) for s in shape)
    size = shape[0]
    for d in shape[1:]:
        size = size * d
    sort = sort_of(elem)
    a = zarray(name, len(shape), sort)
    r = Region(name, elem, simp(size), (), shape if len(shape) > 1 else None, array_base(a), sort)
    r.readonly = readonly
    r.birth = 0
    return Ptr(r), a


def outarray(it, name, elem, shape):
    p, a = inarray(it, name, elem, shape, readonly=False)
    return p, a


def vecarr(it, name, vals, readonly=True, elem='double'):
    r = Region(name, elem, z3.IntVal(len(vals)), (), None, lambda idx: None, sort_of(elem))
    r.birth = 0
    for k, v in enumerate(vals):
        r.store.ups.append(('pt', (z3.IntVal(k),), v))
    r.readonly = readonly
    return Ptr(r)


def ld(it, ptr, *idx):
    """read p[i][j]... through the interpreter (bounds checked), following pointers"""
    for i in idx:
        ptr = it.load(Ptr(ptr.region, ptr.args, simp(ptr.off + I(i))), 0)
    return ptr
