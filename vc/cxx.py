"""VC generator for the real C++ sources: the translation unit is type-checked by clang on every run, its typed AST
(with template instantiations) is taken as JSON, and function bodies are executed symbolically statement by
statement.  Nothing is rewritten by hand; what the extraction drops is listed in ASSUMPTIONS."""
import re
import json, subprocess, os, tempfile, itertools
import z3
from .core import Ctx, Unsupported, PathEnd, explore, SQRT
from .store import *
from .store import _eqs

ASSUMPTIONS = [
    'C++ floating point is treated as exact real arithmetic (no rounding, overflow, NaN or infinity)',
    'C++ machine integers are treated as mathematical integers (no overflow/wrap-around)',
    'malloc/new succeed and return fresh, disjoint blocks',
    'printf/cout output is ignored',
    'the clang 18 front end is trusted to produce the typed AST of the source that is built',
]

CLANG = ['clang++', '-std=c++17', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
         '-ast-dump-filter=matersdk']


class TU:
    def __init__(self, text, flags=()):
        d = tempfile.mkdtemp(prefix='vcxx')
        src = os.path.join(d, 'tu.cc')
        with open(src, 'w') as f:
            f.write(text)
        r = subprocess.run(CLANG + list(flags) + [src], capture_output=True, text=True)
        os.unlink(src)
        os.rmdir(d)
        if r.returncode != 0 or not r.stdout:
            raise Unsupported('clang rejected the translation unit: ' + r.stderr[-2000:])
        s, dec, i = r.stdout, json.JSONDecoder(), 0
        self.docs = []
        while True:
            while i < len(s) and s[i].isspace():
                i += 1
            if i >= len(s):
                break
            o, i = dec.raw_decode(s, i)
            self.docs.append(o)
        self.fn = {}         # id -> function node (with _q qualified name)
        self.byname = {}     # qualified name -> [function nodes with body]
        self.rec = {}        # qualified record name -> record node
        self.recid = {}
        self.fields = {}     # record qname -> [field nodes]
        self.gvars = {}      # id -> namespace-scope constant
        self.line = 0
        for o in self.docs:
            self._lines(o)
        for o in self.docs:
            self._index(o, [], False)

    def _lines(self, n):
        """clang prints 'line' only when it changes: carry it along in document order"""
        if not isinstance(n, dict):
            return
        for key in ('loc', 'range'):
            v = n.get(key)
            if key == 'loc' and isinstance(v, dict):
                self._loc(v)
            elif isinstance(v, dict):
                for k2 in ('begin', 'end'):
                    if isinstance(v.get(k2), dict):
                        self._loc(v[k2])
                        if k2 == 'begin':
                            n['_line'] = self.line
        for c in n.get('inner', ()):
            self._lines(c)

    def _loc(self, v):
        if 'expansionLoc' in v:
            for k in ('spellingLoc', 'expansionLoc'):
                if isinstance(v.get(k), dict):
                    self._loc(v[k])
            return
        if 'line' in v:
            self.line = v['line']

    def _index(self, n, scope, dep):
        k = n.get('kind')
        if k == 'VarDecl' and n.get('inner') and 'const' in n.get('type', {}).get('qualType', ''):
            self.gvars[n['id']] = n
        if k == 'NamespaceDecl':
            for c in n.get('inner', ()):
                self._index(c, scope + [n.get('name', '')], dep)
        elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            first = True
            for c in n.get('inner', ()):
                ck = c.get('kind')
                if ck in ('CXXRecordDecl', 'FunctionDecl', 'CXXMethodDecl') and first:
                    first = False
                    continue       # the dependent pattern
                if ck in ('ClassTemplateSpecializationDecl', 'FunctionDecl', 'CXXMethodDecl'):
                    self._index(c, scope, dep)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                args = [c.get('type', {}).get('qualType', '?') for c in n.get('inner', ()) if c.get('kind') == 'TemplateArgument']
                nm += '<' + ', '.join(args) + '>'
            q = '::'.join([s for s in scope if s] + [nm])
            n['_q'] = q
            if n.get('completeDefinition') or q not in self.rec:
                if not (q in self.rec and len(self.rec[q].get('inner', ())) > len(n.get('inner', ()))):
                    self.rec[q] = n
                    self.fields[q] = [c for c in n.get('inner', ()) if c.get('kind') == 'FieldDecl']
            self.recid[n['id']] = q
            for c in n.get('inner', ()):
                self._index(c, scope + [nm], dep)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            q = '::'.join([s for s in scope if s] + [n.get('name', '')])
            if n.get('parentDeclContextId') in self.recid and not any('<' in s for s in scope):
                q = self.recid[n['parentDeclContextId']] + '::' + n.get('name', '')
            n['_q'] = q
            self.fn[n['id']] = n
            if body_of(n) is not None or k == 'CXXConstructorDecl':
                self.byname.setdefault(q, []).append(n)
        elif k == 'VarDecl':
            pass

    def find(self, q, nparams=None, ptypes=None, const=None):
        cands = [f for f in self.byname.get(q, []) if body_of(f) is not None]
        if nparams is not None:
            cands = [f for f in cands if len(params_of(f)) == nparams]
        if ptypes is not None:
            cands = [f for f in cands if all(t in p['type']['qualType'] for t, p in zip(ptypes, params_of(f)))]
        if const is not None:
            cands = [f for f in cands if f['type']['qualType'].rstrip().endswith('const') == const]
        ded = {}
        for f in cands:
            ded.setdefault((f['type']['qualType'], f.get('_line')), f)
        cands = list(ded.values())
        if len(cands) > 1:
            by = {f['type']['qualType'] for f in cands}
            if len(by) == 1:
                cands = cands[-1:]
        if len(cands) != 1:
            raise Unsupported('%d definitions of %s' % (len(cands), q))
        return cands[0]


def body_of(f):
    for c in f.get('inner', ()):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def params_of(f):
    return [c for c in f.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


FLOATS = ('double', 'float', 'long double')
SIZES = {'double': 8, 'float': 4, 'int': 4, 'char': 1, 'bool': 1, 'long': 8, 'unsigned long': 8, 'unsigned int': 4,
         'long long': 8}


def strip(t):
    t = t.replace('const ', '').replace(' const', '').replace('volatile ', '').strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


def is_float(t):
    return strip(t) in FLOATS


def is_ptr(t):
    return strip(t).rstrip().endswith('*')


def sizeof(t):
    t = strip(t)
    if t.endswith('*'):
        return 8
    if t in SIZES:
        return SIZES[t]
    raise Unsupported('sizeof ' + t)


def sort_of(t):
    t = strip(t)
    if t in FLOATS:
        return 'real'
    if t == 'bool':
        return 'bool'
    return 'int'


class Cell:
    __slots__ = ('val', 'name', 'typ', 'birth')

    def __init__(self, val, name='', typ='', birth=0):
        self.val, self.name, self.typ, self.birth = val, name, typ, birth


class Obj:
    """a class instance; fields are Cells (their values may be nested Obj or Ptr to an array-member region)"""

    def __init__(self, cls):
        self.cls = cls
        self.f = {}


class Vec:
    """std::vector<T> modelled by (length, region)"""

    def __init__(self, elem):
        self.elem = elem
        self.len = Cell(z3.IntVal(0), 'vec.len')
        self.ptr = None
        self.mult = None            # ghost: how often each value is in the vector


class FnRef:
    def __init__(self, decl):
        self.decl = decl


class Opaque:
    def __init__(self, what):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class LV:
    pass


class CellLV(LV):
    def __init__(self, it, cell):
        self.it, self.cell = it, cell

    def get(self):
        v = self.cell.val
        if v is None:
            # reading an uninitialised scalar: any value
            v = self.it.ctx.fresh(sort_of(self.cell.typ), 'uninit_' + self.cell.name)
            self.it.setcell(self.cell, v)
        return v

    def set(self, v):
        self.it.setcell(self.cell, v)


class MemLV(LV):
    def __init__(self, it, ptr, line):
        self.it, self.ptr, self.line = it, ptr, line

    def get(self):
        return self.it.load(self.ptr, self.line)

    def set(self, v):
        self.it.storemem(self.ptr, v, self.line)


class ValLV(LV):
    """temporary materialised as an lvalue"""

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.vars = {}
        self.names = {}


class Interp:
    def __init__(self, tu, ctx, contracts=None, loops=None, safety=True):
        self.tu, self.ctx = tu, ctx
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.safety = safety
        self.trail = []
        self.mapvars = []
        self.suppress = 0
        self.readlog = None
        self.frames = []
        self.clock = itertools.count(1)
        self.inlined = set()
        self.called_contracts = set()
        self.depth = 0
        self.frame_ok = None      # set of regions a loop body may modify, or None
        self.loopstack = []
        self.mapbounds = []
        self.shape_hint = None
        self.objs = []                  # every object made, for ownership queries
        self.ext = {}               # library functions given by a contract: name -> fn(it, args, node)
        self.trip_candidates = []
        self.merge_ifs = False
        self.radix = []

    # ------------------------------------------------------------ state with undo
    def setcell(self, c, v):
        self.trail.append(('c', c, c.val))
        c.val = v

    def setstore(self, st, ups, base=None):
        self.trail.append(('s', st, st.ups, st.base))
        st.ups = ups
        if base is not None:
            st.base = base

    def undo(self, mark):
        while len(self.trail) > mark:
            r = self.trail.pop()
            if r[0] == 'c':
                r[1].val = r[2]
            elif r[0] == 's':
                r[1].ups, r[1].base = r[2], r[3]
            elif r[0] == 'a':
                setattr(r[1], r[2], r[3])

    def setattr(self, o, name, v):
        self.trail.append(('a', o, name, getattr(o, name)))
        setattr(o, name, v)

    def obl(self, name, goal, kind='safety'):
        if self.suppress:
            return
        self.ctx.check(name, goal, kind)

    # ------------------------------------------------------------ memory
    def new_region(self, name, elem, size, shape=None, base=None):
        r = Region(name, elem, size, tuple(self.mapvars), shape, base, sort_of(elem))
        r.birth = next(self.clock)
        return r

    def alloc_bytes(self, nbytes, name='malloc'):
        r = Region(name, None, nbytes, tuple(self.mapvars))
        r.birth = next(self.clock)
        return Ptr(r, tuple(self.mapvars))

    def typed(self, ptr, elem):
        r = ptr.region
        if r is None or r.elem is not None:
            return ptr
        r.elem = elem
        r.store.sort = sort_of(elem)
        r.size = div_exact(r.size, sizeof(elem))
        if self.shape_hint is not None:
            self.shape_hint(self, r)
        return ptr

    def addr(self, ptr, line, write=False):
        r = ptr.region
        if r is None:
            self.obl('line %s: null pointer dereference' % line, False)
            raise PathEnd()
        if r.elem is None:
            raise Unsupported('untyped memory access')
        if self.safety:
            if r.size is not None:
                size = subst(r.size, list(zip(r.params, ptr.args))) if r.params else r.size
                g = simp(z3.And(ptr.off >= 0, ptr.off < size))
                if not z3.is_true(g) and not self.radix_bound(ptr.off, size):
                    self.obl('line %s: access to %s in bounds' % (line, r.name), g)
            fr = r.freed.read(self.ctx, ptr.args or (z3.IntVal(0),))
            if not z3.is_false(simp(fr)):
                self.obl('line %s: %s not freed' % (line, r.name), z3.Not(fr))
        if r.shape is not None and len(r.shape) > 1:
            idx = self.delin(r, ptr, line)
        else:
            idx = (ptr.off,)
        args = tuple(ptr.args)
        if r.pshape is not None:
            args = self.delin(r, Ptr(None, (), args[0]), line, r.pshape)
        return r, args + idx

    def radix_bound(self, off, size):
        """mixed-radix lemma: digits 0 <= x_k < d_k give 0 <= offset < d_0*...*d_n"""
        for shape in self.radix:
            prod = I(1)
            for d in shape:
                prod = prod * I(d)
            if not peq(size, prod):
                continue
            got = []
            keep = self.suppress, self.obl
            self.obl = lambda name, goal, kind='safety': got.append(goal)
            try:
                self.delin(None, Ptr(None, (), off), 0, shape)
            except Unsupported:
                continue
            finally:
                del self.obl
            if self.ctx.entails(z3.And(*got)) if got else True:
                self.ctx.assume(z3.And(off >= 0, off < size))     # the lemma's conclusion
                return True
        return False

    def delin(self, r, ptr, line, shape=None):
        shape = shape or r.shape
        strides = []
        m, c = (), 1
        for d in reversed(shape[1:]):
            p = poly(I(d))
            if len(p.d) != 1:
                # an opaque dimension: treat as atom by naming it through a fresh constant is the contract's job
                raise Unsupported('dimension of %s is not a monomial' % r.name)
            (mm, cc), = p.d.items()
            from .cas import _mm
            m = _mm(m, mm)
            c *= int(cc)
            strides.append((m, c))
        strides.reverse()
        p = poly(ptr.off)
        from .cas import Poly
        idx = []
        for (m, c) in strides:
            q, p = poly_divmod(p, m, c)
            idx.append(simp(poly_term(q)))
        idx.append(simp(poly_term(p)))
        for k, (i, d) in enumerate(zip(idx, shape)):
            g = simp(z3.And(i >= 0, i < d))
            if not z3.is_true(g):
                self.obl('line %s: index %d of %s within its extent' % (line, k, r.name if r else '?'), g, kind='digit')
        return tuple(idx)

    def load(self, ptr, line):
        r, idx = self.addr(ptr, line)
        if self.readlog is not None:
            self.readlog.append((r, idx, len(r.store.ups)))
        v = r.store.read(self.ctx, idx)
        if v is None:
            if is_ptr(r.elem):
                if self.suppress:
                    raise PathEnd()     # discovery pass: the final pass meets this path again, if it exists
                raise Unsupported('uninitialised pointer read from ' + r.name)
            v = self.ctx.fresh(sort_of(r.elem), 'uninit_' + r.name)
        return v

    def storemem(self, ptr, v, line):
        r, idx = self.addr(ptr, line, True)
        if r.readonly:
            self.obl('line %s: write to %s, which must not be modified' % (line, r.name), False, 'frame')
        if self.frame_ok is not None and r not in self.frame_ok and (r.birth is None or r.birth < self.loop_birth):
            raise Unsupported('loop writes %s outside its modifies clause' % r.name)
        if sort_of(r.elem) == 'real' and z3.is_expr(v) and z3.is_int(v):
            v = z3.ToReal(v)
        self.setstore(r.store, r.store.ups + [('pt', idx, simp(v) if z3.is_expr(v) else v)])

    def fill(self, ptr, n, v, line):
        """n elements from ptr set to v"""
        r = ptr.region
        if r is None or r.elem is None:
            raise Unsupported('fill of untyped memory')
        if sort_of(r.elem) == 'real' and z3.is_int(v):
            v = z3.ToReal(v)
        size = subst(r.size, list(zip(r.params, ptr.args))) if r.params else r.size
        self.obl('line %s: block fill of %s in bounds' % (line, r.name), z3.And(ptr.off >= 0, ptr.off + n <= size))
        whole = z3.is_true(simp(ptr.off == 0)) and (peq(n, size) or self.ctx.entails(n == size))
        rank = len(r.shape) if r.shape else 1
        vs = [z3.Int('fill!%d_%d' % (next(self.ctx.cnt), k)) for k in range(rank)]
        if whole:
            dims = r.shape if r.shape else (size,)
            guard = z3.And(*[z3.And(x >= 0, x < I(d)) for x, d in zip(vs, dims)])
        elif rank == 1:
            guard = z3.And(vs[0] >= ptr.off, vs[0] < ptr.off + n)
        else:
            raise Unsupported('partial fill of a multi-dimensional block')
        if self.frame_ok is not None and r not in self.frame_ok and (r.birth is None or r.birth < self.loop_birth):
            raise Unsupported('loop writes %s outside its modifies clause' % r.name)
        self.setstore(r.store, r.store.ups + [('bulk', vs, guard, tuple(ptr.args) + tuple(vs), v)])

    def free(self, ptr, line):
        if ptr.region is None:
            return
        r = ptr.region
        g = simp(ptr.off == 0)
        if not z3.is_true(g):
            self.obl('line %s: free of an interior pointer to %s' % (line, r.name), g)
        a = ptr.args or (z3.IntVal(0),)
        fr = simp(r.freed.read(self.ctx, a))
        if not z3.is_false(fr):
            self.obl('line %s: double free of %s' % (line, r.name), z3.Not(fr))
        self.setstore(r.freed, r.freed.ups + [('pt', a, z3.BoolVal(True))])

    # ------------------------------------------------------------ calls
    def call(self, fn, this, args, node=None):
        """args: list of values (or LV for reference parameters)"""
        q = fn['_q']
        key = None
        for k in (q + '/%d' % len(args), q):
            if k in self.contracts:
                key = k
        if key is not None and self.depth > 0:
            self.called_contracts.add(key)
            return self.contracts[key](self, this, args)
        b = body_of(fn)
        if b is None:
            raise Unsupported('no body for ' + q)
        if self.depth > 25:
            raise Unsupported('recursion without contract: ' + q)
        if self.depth > 0:
            self.inlined.add(q)
        fr = Frame(fn, this)
        for p, a in zip(params_of(fn), args):
            self.bind_param(fr, p, a)
        self.frames.append(fr)
        self.depth += 1
        try:
            if fn['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(fn, this)
            self.block(b)
            rt = fn['type']['qualType'].split('(')[0].strip()
            if fn['kind'] not in ('CXXConstructorDecl', 'CXXDestructorDecl') and rt != 'void':
                if q.endswith('operator=') or True:
                    self.obl('%s: control reaches the end of a non-void function' % short(q), False, 'noreturn')
                    return this if q.endswith('operator=') else None
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.frames.pop()

    def bind_param(self, fr, p, a):
        t = qt(p)
        if t.rstrip().endswith('&'):
            if isinstance(a, LV):
                fr.vars[p['id']] = a
            else:
                fr.vars[p['id']] = ValLV(a)
        else:
            v = a.get() if isinstance(a, LV) else a
            if isinstance(v, Obj):
                v = self.copy_obj(v)
            v = self.coerce(v, t)
            c = Cell(v, p.get('name', ''), t, next(self.clock))
            fr.vars[p['id']] = CellLV(self, c)
        fr.names[p.get('name', '')] = fr.vars[p['id']]

    def coerce(self, v, t):
        if z3.is_expr(v):
            if is_float(t) and z3.is_int(v):
                return z3.ToReal(v)
            if strip(t) == 'bool' and z3.is_int(v):
                return v != 0
            if sort_of(t) == 'int' and z3.is_bool(v) and strip(t) in SIZES:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def new_obj(self, cls):
        o = Obj(cls)
        for f in self.tu.fields.get(cls, []):
            o.f[f['name']] = self.field_cell(f, cls)
        self.objs.append(o)
        return o

    def rec_name(self, t):
        t = strip(t)
        if t in self.tu.rec:
            return t
        for q in self.tu.rec:
            if q.endswith('::' + t) or q == t:
                return q
        if '::' in t.split('<')[0]:
            head, *rest = t.split('<', 1)
            u = head.split('::')[-1] + ('<' + rest[0] if rest else '')
            for q in self.tu.rec:
                if q.endswith('::' + u) or q == u:
                    return q
        return None

    def field_cell(self, f, cls):
        t = qt(f)
        nm = f['name']
        ar = arr_type(t)
        if ar:
            r = self.new_region(nm, ar[0], z3.IntVal(ar[1]))
            return Cell(Ptr(r, tuple(self.mapvars)), nm, t, next(self.clock))
        rn = self.rec_name(t) if not is_ptr(t) else None
        if rn:
            return Cell(self.new_obj(rn), nm, t, next(self.clock))
        v = vec_type(t)
        if v:
            return Cell(Vec(v), nm, t, next(self.clock))
        return Cell(None, nm, t, next(self.clock))

    def ctor_inits(self, fn, this):
        done = set()
        for c in fn.get('inner', ()):
            if c.get('kind') == 'CXXCtorInitializer':
                nm = (c.get('anyInit') or {}).get('name')
                if nm is None:
                    continue
                done.add(nm)
                inner = c.get('inner', [])
                if not inner:
                    continue
                e = inner[0]
                if e.get('kind') == 'CXXDefaultInitExpr':
                    e = self.default_init(this.cls, nm) or e
                    if e.get('kind') == 'CXXDefaultInitExpr':
                        continue
                cell = this.f[nm]
                self.init_cell(cell, e)
        for f in self.tu.fields.get(this.cls, []):
            if f['name'] not in done and f.get('hasInClassInitializer'):
                e = self.default_init(this.cls, f['name'])
                if e is not None:
                    self.init_cell(this.f[f['name']], e)

    def default_init(self, cls, nm):
        for f in self.tu.fields.get(cls, []):
            if f['name'] == nm:
                for c in f.get('inner', ()):
                    if 'kind' in c and not c['kind'].endswith('Comment'):
                        return c
        return None

    def init_cell(self, cell, e):
        if arr_type(cell.typ):
            if e.get('kind') in ('InitListExpr',):
                r = cell.val
                for k, c in enumerate(e.get('inner', [])):
                    self.storemem(Ptr(r.region, r.args, z3.IntVal(k)), self.rv(c), e.get('_line'))
            return
        if isinstance(cell.val, Obj) and e.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
            self.construct(e, cell.val)
            return
        if isinstance(cell.val, Vec):
            v = self.rv(e)
            if isinstance(v, Vec):
                self.setcell(cell, v)
            return
        v = self.rv(e)
        self.setcell(cell, self.coerce(v, cell.typ))

    def copy_obj(self, o):
        """implicit (member-wise) or user-defined copy construction"""
        fn = self.copy_ctor(o.cls)
        n = self.new_obj(o.cls)
        if fn is not None:
            d = self.depth
            self.depth = max(1, d)
            try:
                self.call(fn, n, [ValLV(o)])
            finally:
                self.depth = d
            return n
        for k, c in o.f.items():
            self.setcell(n.f[k], self.copy_val(c.val, n.f[k]))
        return n

    def copy_val(self, v, cell):
        if isinstance(v, Obj):
            return self.copy_obj(v)
        if arr_type(cell.typ):
            dst = cell.val
            for k in range(arr_type(cell.typ)[1]):
                kk = z3.IntVal(k)
                x = v.region.store.read(self.ctx, tuple(v.args) + (kk,))
                if x is not None:
                    self.storemem(Ptr(dst.region, dst.args, kk), x, 0)
            return dst
        if isinstance(v, Vec):
            raise Unsupported('implicit vector copy')
        return v

    def copy_ctor(self, cls):
        for f in self.tu.byname.get(cls + '::' + cls.split('::')[-1].split('<')[0], []):
            ps = params_of(f)
            if body_of(f) is not None and not f.get('isImplicit') and len(ps) == 1 and qt(ps[0]).rstrip().endswith('&') \
               and not qt(ps[0]).rstrip().endswith('&&') and self.rec_name(qt(ps[0])) == cls:
                return f
        return None

    def construct(self, node, obj):
        """run the constructor named by a CXXConstructExpr on obj"""
        ctor_t = (node.get('ctorType') or {}).get('qualType', '')
        args = [c for c in node.get('inner', ())]
        cls = obj.cls
        name = cls.split('::')[-1].split('<')[0]
        cands = [f for f in self.tu.byname.get(cls + '::' + name, []) if f['kind'] == 'CXXConstructorDecl']
        best = None
        for f in cands:
            ft = f['type']
            if ctor_t in (ft.get('qualType'), ft.get('desugaredQualType')) and body_of(f) is not None:
                best = f
        if best is None:
            for f in cands:
                ps = params_of(f)
                if body_of(f) is not None and not f.get('isImplicit') and len(ps) == len(args) and \
                        self.norm_t(f['type']['qualType']) == self.norm_t(ctor_t):
                    best = f
        if best is not None:
            self.call(best, obj, [self.arg(a, p) for a, p in zip(args, params_of(best))])
            return obj
        # implicit copy / move / default
        if len(args) == 1:
            src = self.lv_or_val(args[0])
            src = src.get() if isinstance(src, LV) else src
            if isinstance(src, Obj) and src.cls == cls:
                for k, c in src.f.items():
                    self.setcell(obj.f[k], self.copy_val(c.val, obj.f[k]))
                return obj
        if not args:
            for f in self.tu.fields.get(cls, []):
                e = self.default_init(cls, f['name'])
                if e is not None:
                    self.init_cell(obj.f[f['name']], e)
            return obj
        raise Unsupported('constructor %s %s' % (cls, ctor_t))

    def norm_t(self, t):
        return t.replace('CoordType', 'double').replace(' ', '')

    def arg(self, node, p):
        t = qt(p)
        if node.get('kind') == 'CXXDefaultArgExpr' and not node.get('inner') and p.get('inner'):
            node = [c for c in p['inner'] if c.get('kind')][-1]
        if t.rstrip().endswith('&'):
            x = self.lv_or_val(node)
            return x if isinstance(x, LV) else ValLV(x)
        return self.rv(node)

    # ------------------------------------------------------------ statements
    def block(self, node):
        for c in node.get('inner', ()):
            self.stmt(c)

    def stmt(self, n):
        if self.ctx.tick:
            self.ctx.tick()
        k = n.get('kind')
        if k is None or k == 'NullStmt':
            return
        if k == 'CompoundStmt':
            return self.block(n)
        if k == 'DeclStmt':
            for c in n.get('inner', ()):
                if c.get('kind') == 'VarDecl':
                    self.vardecl(c)
                else:
                    raise Unsupported('declaration ' + str(c.get('kind')))
            return
        if k == 'ReturnStmt':
            inner = [c for c in n.get('inner', ()) if c]
            if not inner:
                raise Ret(None)
            rt = self.frames[-1].fn['type']['qualType'].split('(')[0].strip()
            if rt.endswith('&'):
                raise Ret(self.lv_or_val(inner[0]))
            v = self.rv(inner[0])
            raise Ret(self.coerce(v, rt) if z3.is_expr(v) else v)
        if k == 'IfStmt':
            inner = [c for c in n['inner']]
            cond = self.truth(self.rv(inner[0]))
            if self.merge_ifs and self.merge_if(cond, inner[1], inner[2] if len(inner) > 2 else None):
                return
            if self.ctx.branch(cond):
                self.stmt(inner[1])
            elif len(inner) > 2:
                self.stmt(inner[2])
            return
        if k == 'ForStmt':
            return self.for_stmt(n)
        if k == 'WhileStmt':
            return self.while_stmt(n)
        if k == 'CXXForRangeStmt':
            return self.range_for(n)
        if k == 'BreakStmt':
            raise Brk()
        if k == 'ContinueStmt':
            raise Cont()
        self.ev(n)

    def merge_if(self, cond, then, els):
        """if-conversion: both branches are executed and their effects joined by conditionals"""
        bad = {'ReturnStmt', 'BreakStmt', 'ContinueStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'DeclStmt', 'SwitchStmt', 'CXXThrowExpr'}

        def clean(n):
            return n.get('kind') not in bad and all(clean(c) for c in n.get('inner', ()))
        if not clean(then) or (els is not None and not clean(els)):
            return False
        if self.ctx.entails(cond) or self.ctx.entails(z3.Not(cond)):
            return False
        eff = []
        for c, br in ((cond, then), (simp(z3.Not(cond)), els)):
            if br is None:
                eff.append(({}, []))
                continue

            def run():
                self.ctx.assume(c)
                m = len(self.trail)
                self.stmt(br)
                cells, order, base = {}, [], {}
                for r in self.trail[m:]:
                    if r[0] == 'c':
                        cells[id(r[1])] = (r[1], r[1].val)
                    else:
                        if id(r[1]) not in base:
                            base[id(r[1])] = len(r[2])
                            order.append(r[1])
                        if r[1].base is not r[3]:
                            return None
                return cells, [(st, list(st.ups[base[id(st)]:])) for st in order]
            ps = self.local_paths(run)
            if len(ps) != 1 or ps[0][1] is None:
                return False
            cells, sts = ps[0][1]
            if any(not z3.is_expr(v) for _, v in cells.values()) or any(u[0] != 'pt' or not z3.is_expr(u[2]) for _, us in sts for u in us):
                return False
            eff.append((cells, sts))
        for k in {**eff[0][0], **eff[1][0]}:
            c = (eff[0][0].get(k) or eff[1][0].get(k))[0]
            a = eff[0][0][k][1] if k in eff[0][0] else c.val
            b = eff[1][0][k][1] if k in eff[1][0] else c.val
            if a is None or b is None:
                return False
            eff[0][0][k] = (c, a)
            eff[1][0][k] = (c, b)
        for k, (c, a) in eff[0][0].items():
            self.setcell(c, simp(z3.If(cond, a, eff[1][0][k][1])))
        for pos, (_, sts) in zip((True, False), eff):
            for st, us in sts:
                for u in us:
                    old = st.read(self.ctx, u[1])
                    if old is None:
                        old = self.ctx.fresh('real' if z3.is_real(u[2]) else 'bool' if z3.is_bool(u[2]) else 'int', 'uninit')
                    v = z3.If(cond, u[2], old) if pos else z3.If(cond, old, u[2])
                    self.setstore(st, st.ups + [('pt', u[1], simp(v))])
        return True

    def vardecl(self, c):
        t = qt(c)
        fr = self.frames[-1]
        init = [x for x in c.get('inner', ()) if 'kind' in x and not x['kind'].endswith('Comment') and not x['kind'].endswith('Attr')]
        nm = c.get('name', '')
        if t.rstrip().endswith('&'):
            x = self.lv_or_val(init[0])
            fr.vars[c['id']] = x if isinstance(x, LV) else ValLV(x)
            fr.names[nm] = fr.vars[c['id']]
            return
        ar = arr_type(t)
        cell = Cell(None, nm, t, next(self.clock))
        lv = CellLV(self, cell)
        if ar:
            r = self.new_region(nm, ar[0], z3.IntVal(ar[1]))
            cell.val = Ptr(r, tuple(self.mapvars))
            fr.vars[c['id']] = lv
            fr.names[nm] = lv
            if init and init[0].get('kind') == 'InitListExpr':
                for k, e in enumerate(init[0].get('inner', [])):
                    self.storemem(Ptr(r, cell.val.args, z3.IntVal(k)), self.rv(e), c.get('_line'))
            return
        md = arr_dims(t)
        if md:
            dims = [self.dim(d) for d in md[1]]
            size = dims[0]
            for d in dims[1:]:
                size = size * d
            r = self.new_region(nm, md[0], simp(size), tuple(dims) if len(dims) > 1 else None)
            for d in dims:
                if not z3.is_int_value(d):
                    self.obl('line %s: extent of %s is positive' % (c.get('_line'), nm), d > 0)
            cell.val = Ptr(r, tuple(self.mapvars))
            fr.vars[c['id']] = lv
            fr.names[nm] = lv
            if init and init[0].get('kind') == 'InitListExpr':
                raise Unsupported('initialiser of a multi-dimensional array')
            return
        rn = self.rec_name(t) if not is_ptr(t) else None
        if rn:
            if init:
                v = self.rv(init[0])
                cell.val = v
            else:
                cell.val = self.new_obj(rn)
            fr.vars[c['id']] = lv
            fr.names[nm] = lv
            return
        if vec_type(t):
            cell.val = self.rv(init[0]) if init else Vec(vec_type(t))
            if not isinstance(cell.val, Vec):
                raise Unsupported('vector initialiser')
            fr.vars[c['id']] = lv
            fr.names[nm] = lv
            return
        if init:
            v = self.rv(init[0])
            if isinstance(v, Ptr) and v.region is not None:
                v.region.name = nm if v.region.name == 'malloc' else v.region.name
            cell.val = self.coerce(v, t)
        fr.vars[c['id']] = lv
        fr.names[nm] = lv

    def dim(self, d):
        d = d.strip()
        if d.isdigit():
            return z3.IntVal(int(d))
        for fr in (self.frames[-1],):
            lv = fr.names.get(d)
            if lv is not None:
                return simp(lv.get())
        raise Unsupported('array extent ' + d)

    # ------------------------------------------------------------ loops
    def loop_key(self, n):
        fn = self.frames[-1].fn
        if '_loops' not in fn:
            ls = []

            def w(x):
                if isinstance(x, dict):
                    if x.get('kind') in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'):
                        ls.append(x['id'])
                    for c in x.get('inner', ()):
                        w(c)
            w(body_of(fn))
            fn['_loops'] = ls
        return fn['_q'], fn['_loops'].index(n['id'])

    def for_stmt(self, n):
        init, _, cond, inc, body = (n['inner'] + [None] * 5)[:5]
        if init and init.get('kind'):
            self.stmt(init)
        self.loop(n, cond, inc, body)

    def while_stmt(self, n):
        inner = n['inner']
        self.loop(n, inner[0], None, inner[-1])

    def range_for(self, n):
        raise Unsupported('range-for')

    def loop(self, n, cond, inc, body):
        key = self.loop_key(n)
        spec = self.loops.get(key)
        if spec is None:
            spec = self.loops.get((key[0], 'any'))
        if spec is None and 'resolve' in self.loops:
            spec = self.loops['resolve'](self, n, body)
        iv = self.induction(n)
        # 1. concrete unrolling
        it = 0
        mark = len(self.trail)
        if spec is None or getattr(spec, 'try_unroll', False):
            done = self.try_unroll(cond, inc, body)
            if done:
                return
        if spec is not None:
            return self.contract_loop(n, key, spec, cond, inc, body)
        dflt = self.loops.get('*')
        if iv is None:
            if dflt is not None:
                return self.contract_loop(n, key, dflt, cond, inc, body)
            raise Unsupported('loop without contract at line %s' % n.get('_line'))
        nob = len(self.ctx.obls)
        try:
            return self.map_loop(n, iv, cond, body)
        except Unsupported:
            if dflt is None:
                raise
        self.undo(mark)
        del self.ctx.obls[nob:]
        return self.contract_loop(n, key, dflt, cond, inc, body)

    def try_unroll(self, cond, inc, body, limit=40):
        """unroll while the condition is syntactically decided; returns False (no effect) otherwise"""
        c = simp(self.truth(self.rv(cond)))
        if not (z3.is_true(c) or z3.is_false(c)):
            return False
        k = 0
        while True:
            c = simp(self.truth(self.rv(cond)))
            if z3.is_false(c):
                return True
            if not z3.is_true(c):
                raise Unsupported('loop condition became symbolic while unrolling')
            try:
                self.stmt(body)
            except Brk:
                return True
            except Cont:
                pass
            if inc and inc.get('kind'):
                self.ev(inc)
            k += 1
            if k > limit:
                raise Unsupported('unrolling limit')

    def induction(self, n):
        """(decl id, lo value, hi-exclusive node+adj) for canonical counting loops"""
        if n['kind'] != 'ForStmt':
            return None
        init, _, cond, inc, body = (n['inner'] + [None] * 5)[:5]
        if not init or init.get('kind') != 'DeclStmt':
            return None
        vd = init['inner'][0]
        c = unparen(cond)
        if not c or c.get('kind') != 'BinaryOperator' or c.get('opcode') not in ('<', '<=', '!='):
            return None
        if declref(c['inner'][0]) != vd['id']:
            return None
        i = unparen(inc)
        if not i:
            return None
        ok = (i.get('kind') == 'UnaryOperator' and i.get('opcode') == '++' and declref(i['inner'][0]) == vd['id']) or \
             (i.get('kind') == 'CompoundAssignOperator' and i.get('opcode') == '+=' and declref(i['inner'][0]) == vd['id']
              and unparen(i['inner'][1]).get('value') == '1')
        if not ok:
            return None
        if assigns(body, vd['id']):
            return None
        return vd['id'], c

    def local_paths(self, run):
        """explore every path of run() from the current state; yields (path-condition delta, outcome)"""
        ctx = self.ctx
        outer = (ctx.prefix, ctx.n, ctx.taken, ctx.alts)
        work = [[]]
        out = []
        npc = len(ctx.pc)
        try:
            while work:
                p = work.pop()
                ctx.prefix, ctx.n, ctx.taken, ctx.alts = p, 0, [], []
                mark = len(self.trail)
                ctx.solver.push()
                try:
                    res = run()
                    ok = True
                except PathEnd:
                    ok = False
                if ok:
                    out.append((list(ctx.pc[npc:]), res))
                self.undo(mark)
                ctx.solver.pop()
                del ctx.pc[npc:]
                work.extend(ctx.alts)
                if len(out) > 200:
                    raise Unsupported('too many paths in a loop body')
        finally:
            ctx.prefix, ctx.n, ctx.taken, ctx.alts = outer
        return out

    def map_loop(self, n, iv, cond, body):
        """Independent-iteration rule: the body is executed once for an arbitrary iteration; its effects are
        generalised to all iterations after checking that no iteration reads what another one writes."""
        ctx = self.ctx
        vid, cnode = iv
        icell = self.frames[-1].vars[vid].cell
        lo = icell.val
        birth = next(self.clock)
        i = ctx.fresh('int', icell.name)
        mark0 = len(self.trail)

        def bound(ival):
            m = len(self.trail)
            self.setcell(icell, ival)
            h = self.rv(cnode['inner'][1])
            self.undo(m)
            return h + 1 if cnode['opcode'] == '<=' else h
        hi0 = simp(bound(i))

        def one(pre, final):
            """run the body once; returns effects"""
            self.setcell(icell, i)
            for c, v in pre:
                self.setcell(c, v)
            m = len(self.trail)
            ctx.assume(i >= lo)
            ctx.assume(i < hi0)
            saved = self.readlog
            self.readlog = []
            pushed = final
            if final:
                self.mapvars.append(i)
                self.mapbounds.append((lo, hi0))
            try:
                try:
                    self.stmt(body)
                except Cont:
                    pass
                except Brk:
                    raise Unsupported('break in a loop without contract')
                except Ret:
                    raise Unsupported('return in a loop without contract')
                reads = self.readlog
            finally:
                self.readlog = saved
                if pushed:
                    self.mapvars.pop()
                    self.mapbounds.pop()
            cells, stores = {}, {}
            for r in self.trail[m:]:
                if r[0] == 'c' and r[1].birth < birth and r[1] is not icell:
                    cells.setdefault(id(r[1]), (r[1], r[2]))
                elif r[0] == 's':
                    stores.setdefault(id(r[1]), (r[1], r[2], r[3]))
                elif r[0] == 'a' and r[1].len.birth < birth:
                    raise Unsupported('loop replaces the storage of a vector: needs a loop contract')
            if saved is not None:
                saved.extend(reads)
            return ({k: (c, old, c.val) for k, (c, old) in cells.items()},
                    {k: (s, oldups, oldbase, s.ups, s.base) for k, (s, oldups, oldbase) in stores.items()}, reads)

        self.suppress += 1
        try:
            A = self.local_paths(lambda: one([], False))
            self.undo(mark0)
            written = {}
            for _, (cells, stores, reads) in A:
                for k, (c, old, new) in cells.items():
                    written[k] = c
            pre = []
            fresh = {}
            for k, c in written.items():
                v = c.val
                if v is None:
                    v = ctx.fresh(sort_of(c.typ), c.name)
                if not z3.is_expr(v):
                    raise Unsupported('loop changes non-scalar variable %s' % c.name)
                fresh[k] = ctx.fresh('real' if z3.is_real(v) else 'bool' if z3.is_bool(v) else 'int', c.name)
                pre.append((c, fresh[k]))
            kind = {}
            if written:
                B = self.local_paths(lambda: one(pre, False))
                self.undo(mark0)
                for k, c in written.items():
                    deltas = []
                    temp = True
                    for pc, (cells, stores, reads) in B:
                        new = cells[k][2] if k in cells else fresh[k]
                        if k not in cells or mentions(new, list(fresh.values())):
                            temp = False
                        if z3.is_arith(fresh[k]) and z3.is_expr(new):
                            deltas.append(simp(new - fresh[k]))
                    if temp:
                        kind[k] = ('temp',)
                    elif deltas and all(peq(d, deltas[0]) for d in deltas) and not mentions(deltas[0], [i] + list(fresh.values())):
                        kind[k] = ('ind', deltas[0])
                    else:
                        raise Unsupported('line %s: loop-carried variable %s needs a loop contract' % (n.get('_line'), c.name))
        finally:
            self.suppress -= 1
        pre = []
        temps = []
        for k, c in written.items():
            if kind[k][0] == 'ind':
                base = c.val
                if base is None:
                    raise Unsupported('uninitialised counter ' + c.name)
                pre.append((c, simp(base + kind[k][1] * (i - lo))))
            else:
                t = ctx.fresh('real' if z3.is_real(fresh[k]) else 'bool' if z3.is_bool(fresh[k]) else 'int', c.name)
                temps.append(t)
                pre.append((c, t))
        stamp = next(ctx.cnt)
        C = self.local_paths(lambda: one(pre, True))
        self.undo(mark0)
        rng = z3.And(i >= lo, i < hi0)
        # collect region updates per store
        per = {}
        for pc, (cells, stores, reads) in C:
            g = z3.And(rng, *[p for p in pc])
            for k, (s, oldups, oldbase, ups, base) in stores.items():
                if base is not oldbase or ups[:len(oldups)] != oldups:
                    raise Unsupported('loop body replaces a block')
                ent = per.setdefault(k, (s, oldups, []))
                for u in ups[len(oldups):]:
                    ent[2].append((g, u))
        # independence of iterations
        j = ctx.fresh('int', icell.name + "'")
        for pc, (cells, stores, reads) in C:
            for (r, idx, nups) in reads:
                s = r.store
                if id(s) not in per or r.birth is None and id(s) not in per:
                    continue
                if r.birth is not None and r.birth > birth:
                    continue
                oldn = len(per[id(s)][1])
                own = stores.get(id(s))
                # resolved by an earlier write of the same iteration?
                if own is not None and nups > oldn:
                    if any(u[0] == 'pt' and _eqs(u[1], idx) is True for u in own[3][oldn:nups]):
                        continue
                    if any(u[0] == 'bulk' and ctx.entails(z3.Implies(z3.And(*([rng] + pc)), self._bulk_cond(u, idx)))
                           for u in own[3][oldn:nups]):
                        continue
                for g, u in per[id(s)][2]:
                    widx = u[1] if u[0] == 'pt' else u[3]
                    gg = g if u[0] == 'pt' else z3.And(g, u[2])
                    vs = [i] + (list(u[1]) if u[0] == 'bulk' else [])
                    ren = [(v, (j if v is i else ctx.fresh('int', 'w'))) for v in vs]
                    w2 = subst(tuple(widx), ren)
                    g2 = subst(gg, ren)
                    clash = z3.And(rng, g2, j != i, *([a == b for a, b in zip(w2, idx)] + list(pc)))
                    if ctx.feasible(clash):
                        raise Unsupported('line %s: an iteration reads %s written by another iteration: needs a loop contract'
                                          % (n.get('_line'), r.name))
        # apply
        stampno = stamp
        for k, (s, oldups, ups) in per.items():
            new = []
            havoc = False
            for g, u in ups:
                if u[0] == 'pt':
                    b = ('bulk', [i], g, u[1], u[2])
                else:
                    b = ('bulk', [i] + list(u[1]), z3.And(g, u[2]), u[3], u[4])
                if mentions(b[4], temps) or mentions(b[2], temps) or mentions(tuple(b[3]), temps):
                    raise Unsupported('stale temporary escapes the loop')
                self.check_no_fresh(b[4], stampno, i, b[1])
                new.append(b)
            for b in new:
                if not self.invertible(b):
                    havoc = True
            if havoc:
                # every iteration overwrites the same cells: contents unknown afterwards (sound over-approximation)
                if any(not z3.is_expr(b[4]) for b in new):
                    raise Unsupported('pointer overwritten by several iterations')
                arr = zarray('havoc!%d' % next(ctx.cnt), s.rank, s.sort or 'int')
                old = s.copy()
                self.setstore(s, [], array_base(arr))
            else:
                self.setstore(s, oldups + new)
        for k, c in written.items():
            if kind[k][0] == 'ind':
                trips = z3.If(hi0 > lo, hi0 - lo, z3.IntVal(0)) if not ctx.entails(subst(hi0, [(i, lo)]) >= lo) else hi0 - lo
                trips = self.known_trips(trips)
                if mentions(trips, [i]):
                    raise Unsupported('loop bound depends on the loop variable')
                self.setcell(c, simp(c.val + kind[k][1] * trips))
            else:
                self.setcell(c, ctx.fresh('real' if z3.is_real(fresh[k]) else 'bool' if z3.is_bool(fresh[k]) else 'int', 'havoc!' + c.name))

    def known_trips(self, trips):
        for c in self.trip_candidates:
            if peq(trips, c) or self.ctx.entails(trips == c):
                return c
        return trips

    def _bulk_cond(self, u, idx):
        from .store import _solve_bulk
        c, _ = _solve_bulk(u, idx)
        return z3.BoolVal(c) if isinstance(c, bool) else c

    def invertible(self, b):
        todo = list(b[1])
        comps = list(b[3])
        progress = True
        while todo and progress:
            progress = False
            for w in comps:
                inv = [v for v in todo if mentions(w, [v])]
                if len(inv) == 1:
                    p = poly(w)
                    if p.d.get(((inv[0].get_id(), 1),)) in (1, -1):
                        todo.remove(inv[0])
                        progress = True
        return not todo

    def check_no_fresh(self, v, stamp, i, vs):
        """a value written by the loop may not contain constants invented inside the body"""
        if z3.is_expr(v):
            ok = {x.get_id() for x in vs}
            st, seen = [v], set()
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in str(x) and x.get_id() not in ok:
                    try:
                        k = int(str(x).split('!')[1].split('_')[0])
                    except ValueError:
                        k = -1
                    if k > stamp:
                        raise Unsupported('loop stores a value that is only specified by a callee contract: ' + str(x))
                st.extend(x.children())

    def exact_obls(self, L, spec, nm, what):
        if not spec.exact:
            return
        for name, r, size, f, *width in spec.exact(L):
            q = tuple(self.ctx.fresh('int', 'q') for _ in range(1 + len(width)))
            inside = z3.And(*[z3.And(x >= 0, x < w) for x, w in zip(q, [size] + width)])
            v = r.store.read(self.ctx, q)
            if v is None:
                if not self.ctx.feasible(inside):
                    continue                    # nothing is claimed yet
                raise Unsupported('contents of ' + name)
            self.obl('%s: contents of %s %s' % (nm, name, what), z3.Implies(inside, v == f(*q)), 'inv')

    def contract_loop(self, n, key, spec, cond, inc, body):
        """loop with an inductive invariant from the contract file"""
        ctx = self.ctx
        L = LoopState(self, n)
        L.node, L.body = n, body
        nm = '%s loop %s (line %s)' % (short(key[0]), key[1], n.get('_line'))
        iv = self.induction(n)
        if iv:
            L.icell = self.frames[-1].vars[iv[0]].cell
            L.lo = L.icell.val
        L.entry = {}
        birth = next(self.clock)
        if spec.setup:
            spec.setup(L)
        for name, f in (x[:2] for x in spec.inv(L)):
            self.obl('%s: invariant "%s" holds on entry' % (nm, name), f, 'inv')
        self.exact_obls(L, spec, nm, 'holds on entry')
        # havoc
        cells = [] 
        for d in assigned_decls(body) | (assigned_decls(inc) if inc else set()):
            lv = self.frames[-1].vars.get(d)
            if isinstance(lv, CellLV) and lv.cell.birth < birth:
                cells.append(lv.cell)
        for c in spec.havoc_cells(L) if spec.havoc_cells else []:
            cells.append(c)
        for c in cells:
            v = c.val
            if v is not None and not z3.is_expr(v):
                raise Unsupported('loop changes non-scalar ' + c.name)
            self.setcell(c, ctx.fresh(('real' if z3.is_real(v) else 'bool' if z3.is_bool(v) else 'int') if v is not None else sort_of(c.typ), c.name))
        regions = spec.modifies(L) if spec.modifies else L.written()
        for r in regions:
            arr = zarray('%s!%d' % (r.name, next(ctx.cnt)), r.store.rank, r.store.sort)
            self.setstore(r.store, [], array_base(arr))
        for d in mentioned_decls(body):
            lv = self.frames[-1].vars.get(d)
            v = lv.cell.val if isinstance(lv, CellLV) else None
            if isinstance(v, Vec) and v.len not in cells and not is_ptr(v.elem):
                # a vector the loop may change: contents and length unknown
                self.setcell(v.len, ctx.fresh('int', 'len'))
                ctx.assume(v.len.val >= 0)
                nr = self.new_region('vec', v.elem, None)
                nr.birth = birth
                nr.store.base = array_base(zarray('vec!%d' % next(ctx.cnt), nr.store.rank, nr.store.sort or 'int'))
                self.setattr(v, 'ptr', Ptr(nr, tuple(self.mapvars)))
        if L.icell is not None:
            ctx.assume(L.icell.val >= L.lo)
        for name, f in (x[:2] for x in spec.inv(L)):
            ctx.assume(f)
        if spec.exact:
            for _, r, size, f, *width in spec.exact(L):
                vs = [ctx.fresh('int', 'at') for _ in range(1 + len(width))]
                e = f(*vs)
                if not z3.is_expr(e):
                    raise Unsupported('contents that are not numbers')
                # f speaks about the state at the head of the loop: evaluated here, not when the block is read
                f = lambda *idx, e=e, vs=vs: z3.substitute(e, *[(v, I_(x)) for v, x in zip(vs, idx)])
                if width:
                    rest = zarray('%s!%d' % (r.name, next(ctx.cnt)), r.store.rank, r.store.sort)
                    self.setstore(r.store, [], lambda idx, f=f, rest=rest, size=size: z3.If(idx[0] < size, f(*idx), z3.Select(rest, *idx)))
                else:
                    self.setstore(r.store, [], lambda idx, f=f: f(idx[-1]))
                regions = list(regions) + ([r] if r not in regions else [])
        c = self.truth(self.rv(cond))
        if ctx.choose():
            ctx.assume(c)
            if not ctx.feasible():
                raise PathEnd()
            saved = (self.frame_ok, getattr(self, 'loop_birth', None))
            self.frame_ok, self.loop_birth = set(regions) & (saved[0] if saved[0] is not None else set(regions)), birth
            if saved[0] is not None:
                for r in regions:
                    if r.birth is not None and r.birth >= saved[1]:
                        self.frame_ok.add(r)
            L2 = L
            if spec.before_body:
                spec.before_body(L)
            try:
                self.stmt(body)
            except Cont:
                pass
            except Brk:
                if not spec.allow_break:
                    raise Unsupported('break in contract loop')
                # leaving through break: continue after the loop with the current state
                self.frame_ok, self.loop_birth = saved
                return
            # NOTE: a return inside the body propagates: the path continues to the function's postcondition
            self.frame_ok, self.loop_birth = saved
            if inc and inc.get('kind'):
                self.ev(inc)
            if spec.lemma:
                spec.lemma(L)
            self.exact_obls(L, spec, nm, 'is preserved')
            for item in spec.inv(L):
                name, f = item[0], item[1]
                if len(item) > 2:
                    # case split on the given condition (sound: cond / not cond)
                    for lab, cnd, sub in item[2]:
                        g = z3.substitute(f, *sub) if sub else f
                        self.obl('%s: invariant "%s" is preserved (%s)' % (nm, name, lab), z3.Implies(cnd, g), 'inv')
                    continue
                self.obl('%s: invariant "%s" is preserved' % (nm, name), f, 'inv')
            raise PathEnd()
        ctx.assume(z3.Not(c))
        if L.icell is not None and iv is not None:
            # the counter leaves the loop at its bound
            cn = iv[1]
            h = self.rv(cn['inner'][1])
            hi = h + 1 if cn['opcode'] == '<=' else h
            if spec.exit_at_bound:
                ctx.assume(z3.Or(L.icell.val == hi, z3.And(L.icell.val == L.lo, L.lo >= hi)))
        if not ctx.feasible():
            raise PathEnd()
        if spec.rebind:
            for c, t in spec.rebind(L):
                self.obl('%s: %s has its specified value at loop exit' % (nm, c.name), c.val == t, 'inv')
                ctx.assume(c.val == t)
                self.setcell(c, t)
        if spec.after:
            spec.after(L)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, Ptr):
            return z3.BoolVal(v.region is not None)
        if z3.is_bool(v):
            return v
        if z3.is_arith(v):
            return v != 0
        raise Unsupported('condition of type %s' % type(v).__name__)

    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, LV):
            v = v.get()
        return v

    def lv_or_val(self, n):
        return self.ev(n)

    def ev(self, n):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + str(k) + ' at line %s' % n.get('_line'))
        return m(n)

    def _inner(self, n):
        return self.ev(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = _inner
    e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_CXXRewrittenBinaryOperator = _inner

    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'):
            return self.ev(n['inner'][0])
        raise Unsupported('default argument')

    def e_CXXDefaultInitExpr(self, n):
        return self.ev(n['inner'][0])

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_FloatingLiteral(self, n):
        from fractions import Fraction
        from decimal import Decimal
        f = Fraction(Decimal(n['value']))
        return z3.RealVal(str(f))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def e_CharacterLiteral(self, n):
        return z3.IntVal(n['value'])

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, n):
        return Opaque('string')

    e_PredefinedExpr = e_SourceLocExpr = e_StringLiteral

    def e_CXXThisExpr(self, n):
        return ThisPtr(self.frames[-1].this)

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FnRef(d)
        for fr in (self.frames[-1],):
            if d['id'] in fr.vars:
                return fr.vars[d['id']]
        if d['kind'] == 'EnumConstantDecl':
            raise Unsupported('enum')
        if d['kind'] == 'VarDecl':
            g = self.tu.gvars.get(d['id'])
            if g is not None and qt(g).strip() in ('const double', 'const float', 'const int', 'const bool'):
                return ValLV(self.rv(g['inner'][-1]))
            return Opaque(d.get('name'))
        raise Unsupported('reference to ' + str(d.get('name')))

    def e_MemberExpr(self, n):
        b = self.ev(n['inner'][0])
        if isinstance(b, LV):
            b = b.get()
        if isinstance(b, ThisPtr):
            b = b.obj
        if isinstance(b, ObjPtr):
            b = b.obj
        if isinstance(b, Ptr) and b.region is None:
            self.obl('line %s: null object pointer dereferenced' % n.get('_line'), False)
            raise PathEnd()
        if isinstance(b, (Vec,)):
            return BoundM(b, n)
        if isinstance(b, Obj):
            if n['name'] in b.f:
                c = b.f[n['name']]
                return CellLV(self, c)
            return BoundM(b, n)
        if isinstance(b, Pair):
            return CellLV(self, b.c[0 if n['name'] == 'first' else 1])
        raise Unsupported('member %s of %s' % (n.get('name'), type(b).__name__))

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        v = self.ev(n['inner'][0])
        if ck == 'LValueToRValue':
            return v.get() if isinstance(v, LV) else v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UserDefinedConversion', 'ConstructorConversion', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'BuiltinFnToFnPtr'):
            return v
        if isinstance(v, LV):
            v = v.get()
        if ck == 'ArrayToPointerDecay':
            return v
        if ck == 'IntegralToFloating':
            return z3.ToReal(v) if z3.is_int(v) else z3.If(v, z3.RealVal(1), z3.RealVal(0)) if z3.is_bool(v) else v
        if ck == 'FloatingToIntegral':
            return simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
        if ck == 'IntegralCast':
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        if ck == 'FloatingCast':
            return v
        if ck == 'NullToPointer':
            return NULL
        if ck == 'IntegralToBoolean':
            return v != 0 if not z3.is_bool(v) else v
        if ck == 'FloatingToBoolean':
            return v != 0
        if ck == 'PointerToBoolean':
            return self.truth(v)
        if ck == 'BitCast':
            t = strip(qt(n))
            m = re.fullmatch(r'(\w+) ?\(\*\)\[(\d+)\]', t)
            if m and isinstance(v, Ptr) and v.region is not None and v.region.elem is None:
                v = self.typed(v, m.group(1))
                w = z3.IntVal(int(m.group(2)))
                v.region.shape = (div_exact(v.region.size, int(m.group(2))), w)
                return v
            if isinstance(v, Ptr) and t.endswith('*') and strip(t[:-1]) != 'void':
                return self.typed(v, strip(t[:-1]))
            return v
        if ck == 'ToVoid':
            return v
        raise Unsupported('cast ' + str(ck))

    def e_CStyleCastExpr(self, n):
        return self.e_ImplicitCastExpr(n)

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CStyleCastExpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = (n.get('argType') or {})
        t = t.get('desugaredQualType') or t.get('qualType')
        if n.get('name') == 'sizeof' and t:
            return z3.IntVal(sizeof(t))
        raise Unsupported('sizeof expression')

    def e_InitListExpr(self, n):
        inner = n.get('inner', [])
        if len(inner) == 1:
            return self.rv(inner[0])
        raise Unsupported('initialiser list')

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = self.truth(self.rv(c))
        if self.ctx.branch(cv):
            return self.ev(a)
        return self.ev(b)

    def e_UnaryOperator(self, n):
        op = n['opcode']
        x = self.ev(n['inner'][0])
        if op in ('++', '--'):
            old = x.get()
            if isinstance(old, Ptr):
                new = Ptr(old.region, old.args, simp(old.off + (1 if op == '++' else -1)))
            else:
                new = simp(old + 1 if op == '++' else old - 1)
            x.set(new)
            return old if n.get('isPostfix') else x
        if op == '*':
            v = x.get() if isinstance(x, LV) else x
            if isinstance(v, ThisPtr):
                return ValLV(v.obj)
            if isinstance(v, ObjPtr):
                return ObjDeref(self, v)
            return MemLV(self, v, n.get('_line'))
        if op == '&':
            if isinstance(x, MemLV):
                return x.ptr
            v = x.get() if isinstance(x, LV) else x
            if isinstance(v, Obj):
                return ThisPtr(v)
            raise Unsupported('address-of')
        v = x.get() if isinstance(x, LV) else x
        if op == '-':
            return simp(-v)
        if op == '+':
            return v
        if op == '!':
            return z3.Not(self.truth(v))
        if op == '~' and z3.is_int_value(simp(v)):
            return z3.IntVal(~simp(v).as_long())
        raise Unsupported('unary ' + op)

    def e_ArraySubscriptExpr(self, n):
        b = self.rv(n['inner'][0])
        i = self.rv(n['inner'][1])
        if isinstance(b, Ptr):
            md = arr_dims(qt(n))
            if md:
                for d in md[1]:
                    i = i * self.dim(d)
                return ValLV(Ptr(b.region, b.args, simp(b.off + i)))
            return MemLV(self, Ptr(b.region, b.args, simp(b.off + i)), n.get('_line'))
        raise Unsupported('subscript of %s' % type(b).__name__)

    def arith(self, op, a, b, n):
        if isinstance(a, (Ptr, ThisPtr, ObjPtr)) or isinstance(b, (Ptr, ThisPtr, ObjPtr)):
            return self.ptr_arith(op, a, b)
        if z3.is_bool(a) and op not in ('==', '!='):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b) and op not in ('==', '!='):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(a) != z3.is_bool(b):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(a) else a
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(b) else b
        if z3.is_expr(a) and z3.is_expr(b) and z3.is_arith(a) and z3.is_arith(b) and z3.is_real(a) != z3.is_real(b):
            a = z3.ToReal(a) if z3.is_int(a) else a
            b = z3.ToReal(b) if z3.is_int(b) else b
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if z3.is_int(a):
                q = a / b      # z3 int division: floor for positive divisor
                return simp(z3.If(a >= 0, q, -((-a) / b)))
            return a / b
        if op == '%':
            r = a % b
            return simp(z3.If(a >= 0, r, -((-a) % b)))
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        if op == '>=':
            return a >= b
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        raise Unsupported('operator ' + op)

    def ptr_arith(self, op, a, b):
        if op in ('+', '-') and isinstance(a, Ptr) and z3.is_expr(b):
            return Ptr(a.region, a.args, simp(a.off + b if op == '+' else a.off - b))
        if op == '+' and isinstance(b, Ptr):
            return Ptr(b.region, b.args, simp(b.off + a))
        if op in ('==', '!='):
            ra = a.obj if isinstance(a, (ThisPtr, ObjPtr)) else a.region
            rb = b.obj if isinstance(b, (ThisPtr, ObjPtr)) else b.region
            if ra is None or rb is None or ra is not rb:
                eq = z3.BoolVal(ra is rb)
            elif isinstance(a, Ptr):
                eq = z3.And(a.off == b.off, *[x == y for x, y in zip(a.args, b.args)])
            else:
                eq = z3.BoolVal(True)
            return eq if op == '==' else z3.Not(eq)
        raise Unsupported('pointer operator ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        x, y = n['inner']
        if op == '=':
            l = self.ev(x)
            v = self.rv(y)
            if isinstance(v, Obj):
                raise Unsupported('plain object assignment')
            if isinstance(v, Ptr) and v.region is not None and v.region.name == 'malloc':
                c = getattr(l, 'cell', None)
                v.region.name = c.name if c is not None else 'malloc'
            v = self.coerce(v, qt(x))
            l.set(simp(v) if z3.is_expr(v) else v)
            return l
        if op == ',':
            self.ev(x)
            return self.ev(y)
        if op in ('&&', '||'):
            a = self.truth(self.rv(x))
            sa = simp(a)
            if z3.is_false(sa) and op == '&&':
                return sa
            if z3.is_true(sa) and op == '||':
                return sa
            if pure(y):
                b = self.truth(self.rv(y))
                return simp(z3.And(a, b) if op == '&&' else z3.Or(a, b))
            if op == '&&':
                return self.truth(self.rv(y)) if self.ctx.branch(a) else z3.BoolVal(False)
            return z3.BoolVal(True) if self.ctx.branch(a) else self.truth(self.rv(y))
        a, b = self.rv(x), self.rv(y)
        r = self.arith(op, a, b, n)
        return simp(r) if z3.is_expr(r) and (z3.is_int(r) or z3.is_bool(r)) else r

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l = self.ev(n['inner'][0])
        b = self.rv(n['inner'][1])
        a = l.get()
        v = self.arith(op, a, b, n)
        l.set(simp(self.coerce(v, qt(n['inner'][0]))) if z3.is_expr(v) else v)
        return l

    # calls
    def e_CallExpr(self, n):
        f = self.ev(n['inner'][0])
        args = n['inner'][1:]
        if not isinstance(f, FnRef):
            raise Unsupported('indirect call')
        name = f.decl.get('name')
        fid = f.decl['id']
        if fid in self.tu.fn or self._fn_by_type(f.decl) is not None:
            fn = self.resolve(fid, f.decl)
            return self.call(fn, None, [self.arg(a, p) for a, p in zip(args, params_of(fn))], n)
        return self.builtin(name, args, n, f.decl)

    def _fn_by_type(self, d):
        return None

    def resolve(self, fid, decl):
        fn = self.tu.fn.get(fid)
        if fn is None:
            raise Unsupported('unknown function ' + str(decl.get('name')))
        if body_of(fn) is None:
            q = fn['_q']
            if q in self.contracts or q + '/%d' % len(params_of(fn)) in self.contracts:
                return fn
            c = [g for g in self.tu.byname.get(q, []) if g['type']['qualType'] == fn['type']['qualType'] and body_of(g) is not None]
            if c:
                return c[0]
        return fn

    def builtin(self, name, args, n, decl):
        line = n.get('_line')
        if name in self.ext:
            return self.ext[name](self, [self.rv(a) for a in args], n)
        if name == 'fill' and len(args) == 3:
            p, q, v = (self.rv(a) for a in args)
            if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.region is q.region):
                raise Unsupported('std::fill over something else than a block')
            self.fill(p, simp(q.off - p.off), v, line)
            return None
        if name == 'malloc':
            return self.alloc_bytes(self.rv(args[0]))
        if name == 'calloc':
            a, b = self.rv(args[0]), self.rv(args[1])
            p = self.alloc_bytes(simp(a * b))
            p.region.store.base = lambda idx: z3.RealVal(0) if p.region.store.sort == 'real' else z3.IntVal(0)
            return p
        if name == 'free':
            self.free(self.rv(args[0]), line)
            return None
        if name == 'memset':
            p = self.rv(args[0])
            v = simp(self.rv(args[1]))
            nb = self.rv(args[2])
            if not z3.is_int_value(v) or v.as_long() not in (0, -1):
                raise Unsupported('memset value')
            if p.region is None:
                return p
            if v.as_long() == -1 and sort_of(p.region.elem) != 'int':
                raise Unsupported('memset -1')
            self.fill(p, div_exact(nb, sizeof(p.region.elem)), v, line)
            return p
        if name in ('pow', 'powf'):
            a, b = self.rv(args[0]), simp(self.rv(args[1]))
            a = z3.ToReal(a) if z3.is_int(a) else a
            e = None
            if z3.is_int_value(b):
                e = b.as_long()
            elif z3.is_rational_value(b) and b.denominator_as_long() == 1:
                e = b.numerator_as_long()
            if e is None or abs(e) > 12:
                raise Unsupported('pow with a symbolic exponent')
            if e == 0:
                return z3.RealVal(1)
            r = a
            for _ in range(abs(e) - 1):
                r = r * a
            return r if e > 0 else z3.RealVal(1) / r
        if name in ('sqrt', 'sqrtf'):
            a = self.rv(args[0])
            return self.ctx.sqrt(z3.ToReal(a) if z3.is_int(a) else a)
        if name in ('floor', 'ceil'):
            a = self.rv(args[0])
            a = z3.ToReal(a) if z3.is_int(a) else a
            return z3.ToReal(z3.ToInt(a)) if name == 'floor' else -z3.ToReal(z3.ToInt(-a))
        if name in ('abs', 'fabs'):
            a = self.rv(args[0])
            return z3.If(a >= 0, a, -a)
        if name in ('max', 'min'):
            a, b = self.rv(args[0]), self.rv(args[1])
            return z3.If(a >= b, a, b) if name == 'max' else z3.If(a <= b, a, b)
        if name in ('printf', 'puts', 'fflush'):
            return z3.IntVal(0)
        if name == '__assert_fail':
            self.obl('line %s: assert holds' % line, False, 'assert')
            raise PathEnd()
        if name in ('move', 'forward'):
            return self.ev(args[0])
        if name == 'swap':
            a, b = self.ev(args[0]), self.ev(args[1])
            x, y = a.get(), b.get()
            a.set(y)
            b.set(x)
            return None
        raise Unsupported('call of %s' % name)

    def e_CXXMemberCallExpr(self, n):
        m = unparen(n['inner'][0])
        args = n['inner'][1:]
        b = self.e_MemberExpr(m)
        if not isinstance(b, BoundM):
            raise Unsupported('member call')
        if isinstance(b.obj, Vec):
            return self.vec_call(b.obj, m['name'], args, n)
        fid = m.get('referencedMemberDecl')
        fn = self.resolve(fid, m)
        return self.call(fn, b.obj, [self.arg(a, p) for a, p in zip(args, params_of(fn))], n)

    def vec_call(self, v, name, args, n):
        if name == 'size':
            return v.len.val
        if name == 'empty':
            return v.len.val == 0
        if name == 'clear':
            self.setcell(v.len, z3.IntVal(0))
            return None
        if name == 'push_back':
            x = self.rv(args[0])
            if v.ptr is None:
                v.ptr = Ptr(self.new_region('vec', v.elem, None))
            r = v.ptr.region
            if v.mult is not None:
                old = v.mult.store.read(self.ctx, (x,))
                self.setstore(v.mult.store, v.mult.store.ups + [('pt', (x,), simp(old + 1))])
            self.setstore(r.store, r.store.ups + [('pt', tuple(v.ptr.args) + (v.len.val,), x)])
            self.setcell(v.len, simp(v.len.val + 1))
            return None
        if name == 'begin':
            return Ptr(v.ptr.region, v.ptr.args, z3.IntVal(0)) if v.ptr is not None else self.empty_vec(v)
        if name == 'end':
            return Ptr(v.ptr.region, v.ptr.args, v.len.val) if v.ptr is not None else self.empty_vec(v)
        if name == 'resize':
            k = self.rv(args[0])
            x = self.rv(args[1]) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else None
            self.obl('line %s: vector length not negative' % n.get('_line'), k >= 0)
            old = v.len.val
            r = self.new_region('vec', v.elem, None)
            zero = z3.RealVal(0) if sort_of(v.elem) == 'real' else z3.IntVal(0)
            x = zero if x is None else self.coerce(x, v.elem)
            if v.ptr is None or z3.is_true(simp(old == 0)):
                base = lambda idx: x
            else:
                src, args_ = v.ptr.region.store.copy(), tuple(v.ptr.args)
                base = lambda idx: z3.If(idx[-1] < old, src.read(self.ctx, args_ + (idx[-1],)), x)
            r.store.base = base
            self.setattr(v, 'ptr', Ptr(r, tuple(self.mapvars)))
            self.setcell(v.len, k)
            return None
        raise Unsupported('vector::' + name)

    def empty_vec(self, v):
        raise Unsupported('iterator of an empty vector')

    def vec_copy(self, v):
        w = Vec(v.elem)
        w.len = Cell(v.len.val, 'vec.len', 'int', next(self.clock))
        if v.ptr is not None:
            r = self.new_region('vec', v.elem, None)
            src, args_ = v.ptr.region.store.copy(), tuple(v.ptr.args)
            if is_ptr(v.elem):
                raise Unsupported('copy of a vector of pointers')
            r.store.base = lambda idx: src.read(self.ctx, args_ + (idx[-1],))
            w.ptr = Ptr(r, tuple(self.mapvars))
        if v.mult is not None:
            w.mult = v.mult
        return w

    def e_CXXOperatorCallExpr(self, n):
        inner = n['inner']
        f = self.ev(inner[0])
        args = inner[1:]
        name = f.decl.get('name')
        fid = f.decl['id']
        if fid in self.tu.fn:
            fn = self.resolve(fid, f.decl)
            if fn['kind'] == 'CXXMethodDecl':
                this = self.ev(args[0])
                this = this.get() if isinstance(this, LV) else this
                if isinstance(this, (ThisPtr,)):
                    this = this.obj
                if name == 'operator=' and (fn.get('isImplicit') or fn.get('explicitlyDefaulted')):
                    src = self.rv(args[1])
                    for k, c in src.f.items():
                        v = c.val
                        if isinstance(v, Obj):
                            raise Unsupported('nested implicit assignment')
                        self.setcell(this.f[k], self.copy_val(v, this.f[k]))
                    return ValLV(this)
                r = self.call(fn, this, [self.arg(a, p) for a, p in zip(args[1:], params_of(fn))], n)
                return ValLV(this) if name == 'operator=' else r
            return self.call(fn, None, [self.arg(a, p) for a, p in zip(args, params_of(fn))], n)
        a0 = self.ev(args[0])
        v0 = a0.get() if isinstance(a0, LV) else a0
        if name == 'operator[]' and isinstance(v0, Vec):
            i = self.rv(args[1])
            self.obl('line %s: vector index in range' % n.get('_line'), z3.And(i >= 0, i < v0.len.val))
            if v0.ptr is None:
                raise Unsupported('index of an empty vector')
            return MemLV(self, Ptr(v0.ptr.region, v0.ptr.args, i), n.get('_line'))
        if name == 'operator=' and isinstance(v0, Vec) and isinstance(a0, LV):
            src = self.rv(args[1])
            if not isinstance(src, Vec):
                raise Unsupported('assignment to a vector')
            a0.set(self.vec_copy(src))
            return a0
        if name == 'operator<<':
            for a in args[1:]:
                try:
                    self.ev(a)
                except Unsupported:
                    pass
            return v0
        if name == 'operator=' and isinstance(v0, Obj):
            src = self.rv(args[1])
            for k, c in src.f.items():
                if isinstance(c.val, Obj):
                    raise Unsupported('nested implicit assignment')
                self.setcell(v0.f[k], self.copy_val(c.val, v0.f[k]))
            return ValLV(v0)
        raise Unsupported('operator call ' + str(name))

    def e_CXXConstructExpr(self, n):
        t = qt(n)
        rn = self.rec_name(t)
        if rn is None:
            v = vec_type(t)
            inn = [c for c in n.get('inner', ()) if c.get('kind') != 'CXXDefaultArgExpr']
            if v and not inn:
                return Vec(v)
            if len(inn) == 1:
                x = self.ev(inn[0])
                y = x.get() if isinstance(x, LV) else x
                if v and isinstance(y, Vec) and isinstance(x, LV) and not n.get('elidable'):
                    return self.vec_copy(y)
                if not v or isinstance(y, Vec):
                    return x
                inn = inn + [None]
            if v and len(inn) == 2:
                k = self.rv(inn[0])
                x = self.rv(inn[1]) if inn[1] is not None else (z3.RealVal(0) if sort_of(v) == 'real' else z3.IntVal(0))
                if not (z3.is_expr(k) and z3.is_int(k) and z3.is_expr(x)):
                    raise Unsupported('construction of ' + t)
                self.obl('line %s: vector length not negative' % n.get('_line'), k >= 0)
                w = Vec(v)
                w.len = Cell(k, 'vec.len', 'int', next(self.clock))
                r = self.new_region('vec', v, None)
                x = self.coerce(x, v)
                r.store.base = lambda idx: x
                w.ptr = Ptr(r, tuple(self.mapvars))
                return w
            raise Unsupported('construction of ' + t)
        inner = n.get('inner', [])
        if n.get('elidable') and len(inner) == 1:
            v = self.ev(inner[0])
            return v
        o = self.new_obj(rn)
        return self.construct(n, o)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n):
        t = qt(n)
        base = strip(strip(t)[:-1])
        if n.get('isArray'):
            cnt = self.rv(n['inner'][0])
            v = vec_type(base)
            if v is not None and z3.is_int_value(simp(cnt)) and simp(cnt).as_long() <= 8 and not self.mapvars:
                return self.new_vectors(base, v, cnt)
            r = self.new_region('new', base, cnt)
            return Ptr(r, tuple(self.mapvars))
        rn = self.rec_name(base)
        if rn is None:
            raise Unsupported('new ' + base)
        o = self.new_obj(rn)
        for c in n.get('inner', ()):
            if c.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                self.construct(c, o)
        return ObjPtr(o, self)

    def new_vectors(self, base, v, cnt):
        c = simp(cnt)
        l = [Vec(v) for _ in range(c.as_long())]
        for w in l:
            w.len.birth = next(self.clock)
        r = self.new_region('new', base, cnt)

        def at(idx):
            k = simp(idx[-1])
            if not z3.is_int_value(k) or not 0 <= k.as_long() < len(l):
                raise Unsupported('one of several vectors')
            return l[k.as_long()]
        r.store.base = at
        return Ptr(r)

    def e_CXXDeleteExpr(self, n):
        v = self.rv(n['inner'][0])
        if isinstance(v, Ptr):
            if v.region is not None:
                self.free(v, n.get('_line'))
            return None
        if isinstance(v, ObjPtr):
            g = v.deleted.val
            if not z3.is_false(simp(g)):
                self.obl('line %s: double delete' % n.get('_line'), z3.Not(g))
            self.setcell(v.deleted, z3.BoolVal(True))
            self.destroy(v.obj)
            return None
        raise Unsupported('delete')

    def destroy(self, o):
        nm = o.cls.split('::')[-1].split('<')[0]
        for f in self.tu.byname.get(o.cls + '::~' + nm, []):
            if body_of(f) is not None and not f.get('isImplicit'):
                d = self.depth
                self.depth = max(1, d)
                try:
                    self.call(f, o, [])
                finally:
                    self.depth = d
                break
        for c in reversed(list(o.f.values())):          # member objects, in reverse order of declaration
            if isinstance(c.val, Obj):
                self.destroy(c.val)


class ThisPtr:
    def __init__(self, obj):
        self.obj = obj


class ObjPtr:
    def __init__(self, obj, it):
        self.obj = obj
        self.deleted = Cell(z3.BoolVal(False), 'deleted', 'bool', next(it.clock))


class ObjDeref(LV):
    def __init__(self, it, p):
        self.it, self.p = it, p

    def get(self):
        return self.p.obj

    def set(self, v):
        raise Unsupported('assignment through an object pointer')


class BoundM:
    def __init__(self, obj, node):
        self.obj, self.node = obj, node


class Pair:
    def __init__(self, a, b):
        self.c = (Cell(a, 'first'), Cell(b, 'second'))


def I_(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class LoopSpec:
    def __init__(self, inv, modifies=None, havoc_cells=None, setup=None, lemma=None, before_body=None, allow_break=False,
                 exit_at_bound=True, try_unroll=False, rebind=None, after=None, exact=None):
        self.inv, self.modifies, self.havoc_cells, self.setup = inv, modifies, havoc_cells, setup
        self.lemma, self.before_body, self.allow_break = lemma, before_body, allow_break
        self.exit_at_bound, self.try_unroll = exit_at_bound, try_unroll
        self.rebind, self.after = rebind, after
        self.exact = exact          # L -> [(name, region, n, f)]: contents f(i) of the first n elements, as a function of the state


class LoopState:
    """what an invariant may talk about: the loop counter, named variables, memory"""

    def __init__(self, it, node):
        self.it, self.ctx = it, it.ctx
        self.icell, self.lo = None, None
        self.memo = {}

    @property
    def k(self):
        if self.icell is None:
            raise Unsupported('loop is not a counting loop')
        return self.icell.val

    def lv(self, name):
        for fr in reversed(self.it.frames[-1:]):
            if name in fr.names:
                return fr.names[name]
        raise Unsupported('contract refers to variable %s, which is not there' % name)

    def var(self, name):
        return self.lv(name).get()

    def region(self, name):
        p = self.var(name)
        if not isinstance(p, Ptr) or p.region is None:
            raise Unsupported('contract refers to block %s' % name)
        return p.region

    def this(self, name):
        c = self.it.frames[-1].this.f.get(name)
        if c is None:
            raise Unsupported('contract refers to field ' + name)
        return c.val

    def written(self):
        """blocks the body assigns through a named pointer (anything else it writes is rejected by the frame check)"""
        out = []
        for base in written_bases(self.body):
            lv = None
            if base[0] == 'v':
                lv = self.it.frames[-1].vars.get(base[1])
            elif self.it.frames[-1].this is not None and base[1] in self.it.frames[-1].this.f:
                lv = CellLV(self.it, self.it.frames[-1].this.f[base[1]])
            if lv is None:
                continue
            p = lv.get() if not (isinstance(lv, CellLV) and lv.cell.val is None) else None
            if isinstance(p, Ptr) and p.region is not None and p.region not in out:
                out.append(p.region)
        return out

    def rd(self, ptr, *idx):
        """contents of a block at a logical index (no obligations)"""
        return ptr.region.store.read(self.ctx, tuple(ptr.args) + tuple(I(x) for x in idx))


def rd(it, ptr, *idx):
    args = tuple(ptr.args)
    if ptr.region.pshape is not None:
        args = it.delin(ptr.region, Ptr(None, (), args[0]), 0, ptr.region.pshape)
    return ptr.region.store.read(it.ctx, args + tuple(I(x) for x in idx))


def arr_type(t):
    t = strip(t)
    if t.endswith(']') and t.count('[') == 1 and '(' not in t:
        e, k = t[:-1].split('[')
        if k.strip().isdigit():
            return e.strip(), int(k)
    return None


def arr_dims(t):
    t = strip(t)
    if t.endswith(']') and '(' not in t and '<' not in t:
        e, rest = t.split('[', 1)
        return e.strip(), ['' + d for d in rest[:-1].split('][')]
    return None


def vla_type(t):
    return strip(t).endswith(']')


def vec_type(t):
    t = strip(t)
    for p in ('std::vector<', 'vector<'):
        if t.startswith(p):
            inner = t[len(p):-1]
            d = 0
            for i, c in enumerate(inner):
                d += c == '<'
                d -= c == '>'
                if c == ',' and d == 0:
                    inner = inner[:i]
                    break
            return inner.strip()
    return None


def unparen(n):
    while n and n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') and n.get('inner'):
        n = n['inner'][0]
    return n


def declref(n):
    n = unparen(n)
    if n and n.get('kind') == 'DeclRefExpr':
        return n['referencedDecl']['id']
    return None


def mentioned_decls(n):
    out = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl'):
                out.add(x['referencedDecl']['id'])
            st.extend(x.get('inner', ()))
    return sorted(out)


def assigned_decls(n):
    out = set()

    def w(x):
        if not isinstance(x, dict):
            return
        k = x.get('kind')
        if (k == 'BinaryOperator' and x.get('opcode') == '=') or k == 'CompoundAssignOperator' or \
           (k == 'UnaryOperator' and x.get('opcode') in ('++', '--')):
            d = declref(x['inner'][0])
            if d:
                out.add(d)
        for c in x.get('inner', ()):
            w(c)
    w(n)
    return out


def written_bases(n):
    """[('v', decl id) | ('m', member name)] of the pointers through which n assigns"""
    out = []

    def base(x):
        x = unparen(x)
        while x and x.get('kind') in ('ArraySubscriptExpr', 'UnaryOperator', 'BinaryOperator', 'CStyleCastExpr'):
            if x['kind'] == 'UnaryOperator' and x.get('opcode') != '*':
                return None
            x = unparen(x['inner'][0])
        if x and x.get('kind') == 'DeclRefExpr':
            return 'v', x['referencedDecl']['id']
        if x and x.get('kind') == 'MemberExpr':
            return 'm', x.get('name')
        return None

    def w(x):
        if not isinstance(x, dict):
            return
        k = x.get('kind')
        if (k == 'BinaryOperator' and x.get('opcode') == '=') or k == 'CompoundAssignOperator' or \
           (k == 'UnaryOperator' and x.get('opcode') in ('++', '--')):
            t = unparen(x['inner'][0])
            if t and t.get('kind') in ('ArraySubscriptExpr', 'UnaryOperator'):
                b = base(t)
                if b and b not in out:
                    out.append(b)
        for c in x.get('inner', ()):
            w(c)
    w(n)
    return out


def assigns(n, did):
    return did in assigned_decls(n)


def pure(n):
    k = n.get('kind')
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CompoundAssignOperator', 'ConditionalOperator'):
        return False
    if k == 'BinaryOperator' and n.get('opcode') == '=':
        return False
    if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
        return False
    return all(pure(c) for c in n.get('inner', ()) if isinstance(c, dict))


def short(q):
    return q.replace('matersdk::', '')
