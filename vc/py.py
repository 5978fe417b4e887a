"""Python front end: symbolic execution of the real functions of the repository (parsed from the source on every run).

Loops over symbolic ranges are summarised: the body is executed once for an arbitrary iteration with every
loop-carried value unknown; each carried value must then follow one of the schemes last-value / prefix sum /
counter / running maximum / one write per cell / append (the loop invariant is the closed form of the scheme), and the
body is executed once more under that invariant to emit its obligations.  Anything else is 'outside the verified
subset' (undecided), never a violation.  `if` inside a summarised loop is if-converted.

Not modelled: floating-point rounding, NaN, overflow of numpy integers, generators, exceptions raised by callees."""
import warnings, ast, os, itertools
import copy as _copy
import z3
from fractions import Fraction
from .core import Ctx, Unsupported, PathEnd, SQRT, _walk, Obligation
from .pyv import *
from . import pyv

REPO = os.environ.get('VERIF_REPO', '/repo')


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Raised(Exception):
    """the interpreted program raises"""
    def __init__(self, name, args=()):
        self.name, self.xargs = name, args


class Mod:
    cache = {}

    @classmethod
    def load(cls, rel):
        p = os.path.join(REPO, rel)
        if p not in cls.cache:
            cls.cache[p] = Mod(p, rel)
        return cls.cache[p]

    def __init__(self, path, rel):
        self.path, self.rel = path, rel
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.tree = ast.parse(open(path).read())
        except (OSError, SyntaxError) as e:
            raise Unsupported('cannot read %s: %s' % (rel, e))
        self.defs, self.vals = {}, {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('ext', a.name)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.defs[a.asname or a.name] = ('from', s.level, s.module, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('val', s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(s.body)

    def get(self, it, name):
        if name in self.vals:
            return self.vals[name]
        d = self.defs.get(name)
        if d is None:
            return None
        if isinstance(d, ast.FunctionDef):
            v = Fn(d, self, None)
        elif isinstance(d, ast.ClassDef):
            v = Cls(d, self)
        elif d[0] == 'ext':
            v = Ext(d[1])
        elif d[0] == 'val':
            v = it.eval(d[1], Env(self, {}))
            if isinstance(v, (PList, PDict)):
                return v
        else:
            _, lvl, m, n = d
            if lvl:
                base = os.path.dirname(self.rel)
                for _ in range(lvl - 1):
                    base = os.path.dirname(base)
                f = os.path.join(base, *(m.split('.') if m else []))
            else:
                f = m.replace('.', '/')
            for cand in (f + '.py', f + '/__init__.py'):
                if os.path.exists(os.path.join(REPO, cand)):
                    v = Mod.load(cand).get(it, n)
                    if v is None and os.path.exists(os.path.join(REPO, f, n + '.py')):
                        v = Mod.load(f + '/' + n + '.py')
                    break
            else:
                v = Ext(m + '.' + n)
        if not isinstance(v, (PList, PDict)):
            self.vals[name] = v
        return v


class Ext:
    """something outside the repository, known by its dotted name"""
    def __init__(self, name):
        self.name = name


class Fn:
    def __init__(self, node, mod, cls, closure=None, bound=None):
        self.node, self.mod, self.cls, self.closure, self.bound = node, mod, cls, closure, bound

    @property
    def qual(self):
        n = getattr(self.node, 'name', '<lambda>')
        return (self.cls.name + '.' if self.cls else '') + n


def _is_setter(s):
    return any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in s.decorator_list)


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.attrs = {}

    def members(self):
        return {s.name: s for s in self.node.body if isinstance(s, ast.FunctionDef) and not _is_setter(s)}

    def setter(self, it, name):
        for s in self.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name and _is_setter(s):
                return s, self
        for b in self.bases(it):
            if isinstance(b, Cls):
                r = b.setter(it, name)
                if r:
                    return r
        return None

    def bases(self, it):
        out = []
        for b in self.node.bases:
            try:
                v = it.eval(b, Env(self.mod, {}))
            except Unsupported:
                continue
            if isinstance(v, (Cls, Ext)):
                out.append(v)
        return out

    def find(self, it, name):
        m = self.members()
        if name in m:
            return m[name], self
        for b in self.bases(it):
            if isinstance(b, Cls):
                r = b.find(it, name)
                if r:
                    return r
        return None

    def extbases(self, it):
        out = []
        for b in self.bases(it):
            if isinstance(b, Ext):
                out.append(b)
            else:
                out += b.extbases(it)
        return out


class Bound:
    """bound method"""
    def __init__(self, fn, this):
        self.fn, self.this = fn, this


class Prim:
    """built-in callable of the model"""
    def __init__(self, f):
        self.f = f


class Env:
    def __init__(self, mod, vars, outer=None):
        self.mod, self.vars, self.outer = mod, vars, outer
        self.born = next(pyv._clock)


UNDEF = object()


class Interp:
    def __init__(self, ctx, contracts=None, externals=None, unroll=40):
        self.ctx = ctx
        self.contracts = contracts or {}
        self.ext = externals or {}
        self.gh = Ghosts(self)
        self.guards = []
        self.journal = []
        self.wlog = []
        self.mute = 0
        self.merge = 0
        self.unroll = unroll
        self.inlined = set()
        self.depth = 0
        self.effects = []
        self.loopvars = {}
        self.lemmas = []
        self.textmode = False
        self.augload = False

    # ------------------------------------------------------------ logic
    def guarded(self, f):
        return z3.Implies(z3.And(*self.guards), f) if self.guards else f

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.ctx.assume(self.guarded(f))

    def entails(self, f):
        f = num(f)
        s = z3.simplify(f)
        if z3.is_true(s):
            return True
        if z3.is_false(s) and not self.guards:
            return False
        return self.ctx.entails(self.guarded(f))

    def entails_full(self, f):
        g = self.guarded(num(f))
        fs = self.gh.facts([g])
        return self.ctx.entails(z3.Implies(z3.And(*fs), g) if fs else g)

    def check(self, name, goal, kind='post'):
        if self.mute:
            return
        goal = self.guarded(num(goal))
        if kind == 'safety' and z3.is_true(z3.simplify(goal)):
            goal = z3.BoolVal(True)
        fs = self.gh.facts([goal] + [h for h in self.ctx.pc if not z3.is_quantifier(h)])
        fs += [l for l in self.lemmas]
        self.ctx.obls.append(Obligation(name, list(self.ctx.pc) + fs, goal, self.ctx.unit, kind))

    def same(self, a, b):
        a, b = num(a), num(b)
        return a.eq(b) or self.entails(a == b)

    # ------------------------------------------------------------ mutable state
    def setslot(self, obj, slot, val):
        for j in self.journal:
            if getattr(obj, 'born', 0) <= j.stamp and (id(obj), slot) not in j:
                j[(id(obj), slot)] = (obj, slot, self.getslot(obj, slot))
        self._put(obj, slot, val)

    def _put(self, obj, slot, val):
        if isinstance(obj, Env):
            if val is UNDEF:
                obj.vars.pop(slot, None)
            else:
                obj.vars[slot] = val
        elif isinstance(obj, Obj):
            if val is UNDEF:
                obj.f.pop(slot, None)
            else:
                obj.f[slot] = val
        else:
            setattr(obj, slot, val)

    def getslot(self, obj, slot):
        if isinstance(obj, Env):
            return obj.vars.get(slot, UNDEF)
        if isinstance(obj, Obj):
            return obj.f.get(slot, UNDEF)
        return getattr(obj, slot)

    def attempt(self, run):
        """run(), undo its effects; returns {(id, slot): (obj, slot, new value)} and the outcome (signal)"""
        j = Journal()
        self.journal.append(j)
        sig = None
        try:
            run()
        except (Ret, Brk, Cont) as e:
            sig = e
        finally:
            self.journal.pop()
            new = {k: (o, s, self.getslot(o, s)) for k, (o, s, _) in j.items()}
            for o, s, old in j.values():
                self._put(o, s, old)
        return new, j, sig

    def log_write(self, arr, pred, fixed):
        for w in self.wlog[-1:]:       # enclosing loops get it through reexport
            w.append((arr, pred, fixed, list(self.guards)))

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.outer
        v = env.mod.get(self, name) if env.mod else None
        if v is not None:
            return v
        if name in BUILTINS:
            p = Prim(lambda it, a, k, f=BUILTINS[name]: f(it, *a, **k))
            p.pyname = name
            return p
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        if name in EXC:
            return Ext('builtins.' + name)
        if name in self.ext:
            return Ext(name)
        raise Unsupported('name ' + name)

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, Prim):
            return f.f(self, list(args), kw)
        if isinstance(f, Bound):
            return self.callfn(f.fn, [f.this] + list(args), kw)
        if isinstance(f, Fn):
            return self.callfn(f, list(args), kw)
        if isinstance(f, Cls):
            return self.construct(f, list(args), kw)
        if isinstance(f, Ext):
            h = self.ext.get(f.name) or EXTERNALS.get(f.name)
            if h is None:
                raise Unsupported('call of external ' + f.name)
            return h(self, *args, **kw)
        if callable(f):
            return f(self, *args, **kw)
        raise Unsupported('call of %s' % type(f).__name__)

    def construct(self, c, args, kw):
        if c.name in self.contracts:
            return self.contracts[c.name](self, *args, **kw)
        o = Obj(c)
        m = c.find(self, '__init__')
        if m:
            self.callfn(Fn(m[0], m[1].mod, m[1]), [o] + args, kw)
        elif c.extbases(self) and not all(b.name in ('abc.ABC', 'builtins.object', 'object') for b in c.extbases(self)):
            raise Unsupported('construction of ' + c.name)
        return o

    def callfn(self, fn, args, kw):
        q = fn.qual
        if q in self.contracts:
            return self.contracts[q](self, *args, **kw)
        node = fn.node
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('call depth')
        if not isinstance(node, ast.Lambda):
            self.inlined.add(q)
        env = Env(fn.mod, {}, fn.closure)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defs = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
        vals = {}
        rest = list(args)
        for n in names:
            if rest:
                vals[n] = rest.pop(0)
        if rest:
            if a.vararg is None:
                raise Raised('TypeError')
            vals[a.vararg.arg] = tuple(rest)
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in names and k not in vals or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Raised('TypeError', ('unexpected keyword ' + k,))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict(extra)
        for n, d in list(zip(names, defs)) + list(zip([x.arg for x in a.kwonlyargs], a.kw_defaults)):
            if n not in vals:
                if d is None:
                    raise Raised('TypeError', ('missing argument ' + n,))
                vals[n] = self.eval(d, Env(fn.mod, {}, fn.closure))
        env.vars.update(vals)
        env.cls = fn.cls
        if isinstance(node, ast.Lambda):
            r = self.eval(node.body, env)
        else:
            try:
                self.block(node.body, env)
                r = None
            except Ret as e:
                r = e.v
        self.depth -= 1
        return r

    def method(self, o, name, *args, **kw):
        return self.call(self.getattr(o, name), args, kw)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.hooks:
                h = o.hooks[name]
                return h(self, o)
            if name in o.f:
                return o.f[name]
            if isinstance(o.cls, Cls):
                if name == '__class__':
                    return o.cls
                m = o.cls.find(self, name)
                if m:
                    node, cls = m
                    deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in node.decorator_list]
                    fn = Fn(node, cls.mod, cls)
                    if 'staticmethod' in deco:
                        return fn
                    if 'classmethod' in deco:
                        return Bound(fn, o.cls)
                    if 'property' in deco:
                        return self.callfn(fn, [o], {})
                    return Bound(fn, o)
                v = self.clsattr(o.cls, name)
                if v is not None:
                    return v
            raise Unsupported('attribute %s of %s' % (name, getattr(o.cls, 'name', o.cls)))
        if isinstance(o, Cls):
            if name == '__name__':
                return o.name
            m = o.find(self, name)
            if m:
                node, cls = m
                deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in node.decorator_list]
                fn = Fn(node, cls.mod, cls)
                return Bound(fn, o) if 'classmethod' in deco else fn
            v = self.clsattr(o, name)
            if v is not None:
                return v
            raise Unsupported('class attribute %s.%s' % (o.name, name))
        if isinstance(o, Ext):
            full = o.name + '.' + name
            full = full.replace('numpy.', 'np.', 1) if full.startswith('numpy.') else full
            if full in NPCONST:
                return NPCONST[full]
            return Ext(full)
        if isinstance(o, Mod):
            return o.get(self, name)
        if isinstance(o, SArr):
            return arr_attr(self, o, name)
        if isinstance(o, Prim) and getattr(o, 'pyname', '') == 'dict':
            return Ext('dict.' + name)
        if isinstance(o, TextBuf):
            if name == 'split':
                return Prim(lambda it, a, k: textbuf_split(it, o, a, k))
            raise Unsupported('string method ' + name)
        if isinstance(o, PList):
            return Prim(lambda it, a, k: list_method(it, o, name, a, k))
        if isinstance(o, PDict):
            return Prim(lambda it, a, k: dict_method(it, o, name, a, k))
        if isinstance(o, str):
            return Prim(lambda it, a, k: str_method(it, o, name, a, k))
        if hasattr(o, 'py_attr'):
            return o.py_attr(self, name)
        if isz(o) or isinstance(o, (int, Fraction, float)):
            if name == 'shape':
                return ()
            if name in ('item', 'copy'):
                return Prim(lambda it, a, k: o)
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))

    def clsattr(self, c, name):
        if name in c.attrs:
            return c.attrs[name]
        for s in c.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                v = c.attrs[name] = self.eval(s.value, Env(c.mod, {}))
                if isinstance(v, PDict):
                    v.registry_of = c
                return v
        # registries filled by decorators: cls.registry[name] = subclass
        for b in c.bases(self):
            if isinstance(b, Cls):
                v = self.clsattr(b, name)
                if v is not None:
                    return v
        return None

    def registry(self, c, key):
        """classes registered with @Descriptor.register('key')"""
        for n, d in c.mod.defs.items():
            if isinstance(d, ast.ClassDef):
                for dec in d.decorator_list:
                    if isinstance(dec, ast.Call) and isinstance(dec.func, ast.Attribute) and dec.func.attr == 'register' \
                            and isinstance(dec.func.value, ast.Name) and dec.func.value.id == c.name \
                            and isinstance(dec.args[0], ast.Constant) and dec.args[0].value == key:
                        return Cls(d, c.mod)
        return None

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for k, s in enumerate(stmts):
            if isinstance(s, ast.If):
                rest = stmts[k + 1:]
                if self.do_if(s, rest, env):
                    return
            else:
                self.stmt(s, env)

    def do_if(self, s, rest, env):
        c = self.truth(self.eval(s.test, env))
        if not isinstance(c, bool):
            if self.entails(c):
                c = True
            elif self.entails(z3.Not(c)):
                c = False
            elif self.gh.schemas and self.merge:
                if self.entails_full(c):
                    c = True
                elif self.entails_full(z3.Not(c)):
                    c = False
        if isinstance(c, bool):
            self.block(s.body if c else s.orelse, env)
            return False
        if not self.merge:
            self.block(s.body if self.ctx.branch(c) else s.orelse, env)
            return False
        jumps = any(isinstance(x, (ast.Return, ast.Continue, ast.Break, ast.Raise)) for b in (s.body, s.orelse) for st in b for x in ast.walk(st))
        bodies = (list(s.body) + (rest if jumps else []), list(s.orelse) + (rest if jumps else []))
        outs = []
        for lit, b in zip((c, z3.Not(c)), bodies):
            self.guards.append(lit)
            try:
                outs.append(self.attempt(lambda: self.block(b, env)))
            finally:
                self.guards.pop()
        (na, ja, sa), (nb, jb, sb) = outs
        self.merge_states(c, na, ja, nb, jb)
        if jumps:
            if type(sa) is not type(sb):
                raise Unsupported('branches leave the block differently')
            if isinstance(sa, Ret):
                raise Ret(self.mergev(c, sa.v, sb.v))
            if sa is not None:
                raise sa
            return True
        return False

    def merge_states(self, c, na, ja, nb, jb):
        for k in list(na) + [k for k in nb if k not in na]:
            o, s, _ = na.get(k) or nb[k]
            cur = self.getslot(o, s)
            a = na[k][2] if k in na else cur
            b = nb[k][2] if k in nb else cur
            self.setslot(o, s, self.mergev(c, a, b))

    def mergev(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Opt) or isinstance(b, Opt):
            a, b = (x if isinstance(x, Opt) else Opt(z3.BoolVal(True), x) for x in (a, b))
            na, nb = z3.is_false(num(a.cond)), z3.is_false(num(b.cond))
            return Opt(z3.simplify(z3.If(c, a.cond, b.cond)), b.val if na else a.val if nb else self.mergev(c, a.val, b.val))
        sc = (int, Fraction, float, bool)
        if (isz(a) or isinstance(a, sc)) and (isz(b) or isinstance(b, sc)):
            if not isz(a) and not isz(b) and a == b and type(a) == type(b):
                return a
            return ite(c, num(a), num(b))
        if isinstance(a, AppendLog) and isinstance(b, AppendLog) and a.token is b.token:
            k = 0
            while k < len(a.items) and k < len(b.items) and a.items[k] is b.items[k]:
                k += 1
            items = a.items[:k] + [(z3.And(c, g), v) for g, v in a.items[k:]] + [(z3.And(z3.Not(c), g), v) for g, v in b.items[k:]]
            return AppendLog(a.token, items)
        if callable(a) and callable(b) and not isinstance(a, (Fn, Cls, Prim)):      # array contents
            return lambda idx: ite(c, a(idx), b(idx))
        if isinstance(a, SArr) and isinstance(b, SArr) and len(a.shape) == len(b.shape):
            if isinstance(a, SArr):
                ga, gb = a.snap(), b.snap()
                return SArr(tuple(x if self.same(x, y) else ite(c, num(x), num(y)) for x, y in zip(a.shape, b.shape)), lambda idx: ite(c, ga(idx), gb(idx)), 'f' if 'f' in (a.dtype, b.dtype) else a.dtype)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            return type(a)(self.mergev(c, x, y) for x, y in zip(a, b))
        if isinstance(a, PList) and isinstance(b, PList):
            return PList(self.mergev(c, a.val, b.val))
        if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
            return {k: self.mergev(c, a[k], b[k]) for k in a}
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and set(a.f) == set(b.f) and set(a.hooks) == set(b.hooks) and set(a.hooks) <= {'str'}:
            return Obj(a.cls, {k: self.mergev(c, a.f[k], b.f[k]) for k in a.f}, a.hooks)
        if isinstance(a, Text) and isinstance(b, Text) and len(a.parts) == len(b.parts):
            out = []
            for x, y in zip(a.parts, b.parts):
                if isinstance(x, str) and x == y:
                    out.append(x)
                elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                    v = self.mergev(c, x[1], y[1])
                    if isinstance(v, Poison):
                        return v
                    out.append((x[0], v))
                else:
                    return Poison()
            return Text(out)
        if a == b if not isz(a) and not isz(b) else False:
            return a
        return Poison()

    def stmt(self, s, env):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.eval(s.value, env)
        elif t is ast.Assign:
            v = self.eval(s.value, env)
            if self.textmode and isinstance(v, str) and v == '':
                v = TextBuf([])
            for tg in s.targets:
                self.assign(tg, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                v = self.eval(s.value, env)
                if self.textmode and isinstance(v, str) and v == '':
                    v = TextBuf([])
                self.assign(s.target, v, env)
        elif t is ast.AugAssign:
            self.augload = True
            old = self.eval(_load(s.target), env)
            self.augload = False
            v = self.eval(s.value, env)
            if isinstance(old, TextBuf):
                if not isinstance(s.op, ast.Add) or not (isinstance(v, Obj) and v.cls == 'line') or old.shared:
                    raise Unsupported('string accumulation')
                list_method(self, old, 'append', [v], {})
                return
            if isinstance(old, PList):
                list_method(self, old, 'extend', [v], {})
                return
            r = self.binop(s.op, old, v)
            if isinstance(old, SArr) and isinstance(r, SArr) and not isinstance(s.target, ast.Subscript):
                g = r.snap()
                old.root_write(self, lambda b: z3.BoolVal(True), g, {})
                return
            self.assign(s.target, r, env)
        elif t is ast.Return:
            raise Ret(self.eval(s.value, env) if s.value is not None else None)
        elif t is ast.For:
            self.loop(s, env)
        elif t is ast.While:
            n = 0
            while True:
                c = self.truth(self.eval(s.test, env))
                if not isinstance(c, bool):
                    if self.entails(c):
                        c = True
                    elif self.entails(z3.Not(c)):
                        c = False
                    else:
                        raise Unsupported('while with symbolic condition')
                if not c:
                    break
                n += 1
                if n > self.unroll:
                    raise Unsupported('while loop')
                try:
                    self.block(s.body, env)
                except Brk:
                    break
                except Cont:
                    continue
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cont()
        elif t is ast.Pass or t in (ast.Import, ast.ImportFrom, ast.Global):
            if t is ast.Import:
                for a in s.names:
                    self.setslot(env, a.asname or a.name.split('.')[0], Ext(a.name))
        elif t is ast.Assert:
            c = self.truth(self.eval(s.test, env))
            if c is False and not self.guards:
                raise Raised('AssertionError', ())
            self.check('assertion line %d holds' % s.lineno, c, 'safety')
            if not self.mute:
                self.assume(c)
        elif t is ast.If:
            self.block([s], env)
        elif t is ast.FunctionDef:
            self.setslot(env, s.name, Fn(s, env.mod, None, env))
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    self.setslot(env, tg.id, UNDEF)
                else:
                    raise Unsupported('del')
        elif t is ast.With:
            for w in s.items:
                v = self.eval(w.context_expr, env)
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, v, env)
            self.block(s.body, env)
        elif t is ast.Raise:
            nm = ''
            if s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                nm = e.id if isinstance(e, ast.Name) else getattr(e, 'attr', '?')
            raise Raised(nm)
        elif t is ast.Try:
            try:
                self.block(s.body, env)
            except Raised as e:
                for h in s.handlers:
                    names = [] if h.type is None else [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)]
                    if not names or e.name in names or 'Exception' in names:
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
            self.block(s.finalbody, env)
        else:
            raise Unsupported('statement %s line %s' % (t.__name__, getattr(s, 'lineno', '?')))

    def assign(self, tg, v, env):
        if isinstance(v, Poison):
            pass
        if isinstance(tg, ast.Name):
            self.setslot(env, tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vs = self.tolist(v, len(tg.elts))
            if len(vs) != len(tg.elts):
                raise Raised('ValueError')
            for t, x in zip(tg.elts, vs):
                self.assign(t, x, env)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env)
            if isinstance(o, Obj):
                if tg.attr == '__class__':
                    o.cls = v
                    return
                st = o.cls.setter(self, tg.attr) if isinstance(o.cls, Cls) else None
                if st:
                    self.callfn(Fn(st[0], st[1].mod, st[1]), [o, v], {})
                else:
                    self.setslot(o, tg.attr, v)
            else:
                raise Unsupported('attribute assignment')
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env)
            self.setitem(o, self.evalidx(tg.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, key, v):
        if isinstance(o, SArr):
            return arr_set(self, o, key, v)
        if isinstance(o, PDict):
            key = conc(key)
            if isinstance(o.val, dict) and not isz(key) and not isinstance(key, SymStr):
                d = dict(o.val)
                d[key] = v
                self.setslot(o, 'val', d)
                return
        if isinstance(o, PList) and isinstance(o.val, list):
            k = conc(key)
            if isinstance(k, int):
                if not -len(o.val) <= k < len(o.val):
                    raise Raised('IndexError')
                l = list(o.val)
                l[k] = v
                self.setslot(o, 'val', l)
                return
        if isinstance(o, Obj) and 'setitem' in o.hooks:
            return o.hooks['setitem'](self, o, key, v)
        raise Unsupported('item assignment to %s' % type(o).__name__)

    # ------------------------------------------------------------ loops
    def seq(self, v):
        """-> python list (concrete length) or SSeq"""
        if isinstance(v, PList):
            v = v.val
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, SSeq):
            if isinstance(v.n, int):
                return [v.get(z3.IntVal(k)) for k in range(v.n)]
            return v
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise Raised('TypeError')
            n = v.shape[0]
            g = lambda k: arr_get(self, v, (k,), safe=True)
            if isinstance(n, int):
                return [g(z3.IntVal(k)) for k in range(n)]
            return SSeq(n, g)
        if isinstance(v, PDict) and isinstance(v.val, dict):
            return list(v.val.keys())
        if isinstance(v, str):
            return list(v)
        if hasattr(v, 'py_seq'):
            return v.py_seq(self)
        if isinstance(v, Obj) and 'iter' in v.hooks:
            return v.hooks['iter'](self, v)
        raise Unsupported('iteration over %s' % type(v).__name__)

    def tolist(self, v, n=None):
        s = self.seq(v)
        if isinstance(s, SSeq):
            if n is not None and self.entails(num(s.n) == n):
                return [s.get(z3.IntVal(k)) for k in range(n)]
            raise Unsupported('sequence of symbolic length where a concrete one is needed')
        return s

    def loop(self, s, env):
        it = self.seq(self.eval(s.iter, env))
        if isinstance(it, SSeq):
            n = conc(it.n)
            if not isinstance(n, int):
                return self.symloop(s, it, env)
            it = [it.get(z3.IntVal(k)) for k in range(n)]
        if len(it) > 2000:
            raise Unsupported('long concrete loop')
        for x in it:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                continue
        self.block(s.orelse, env)

    def symloop(self, s, seq, env):
        if s.orelse:
            raise Unsupported('for-else')
        n = num(seq.n)
        i = self.ctx.fresh('int', 'i')
        rng = z3.And(i >= 0, i < n)

        def body():
            self.assign(s.target, seq.get(i), env)
            try:
                self.block(s.body, env)
            except Cont:
                pass
            except Brk:
                raise Unsupported('break in a symbolic loop')

        jumps = [x for st in s.body for x in ast.walk(st) if isinstance(x, (ast.Return, ast.Break))]
        if jumps:
            t = self.until_break(s, seq, i, rng, env)
            if t is not None:
                self.symloop(*t, env)
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name):
                        self.setslot(env, x.id, Poison())
                return
            return self.search_loop(s, seq, i, rng, env)

        def trial(preset):
            """one arbitrary iteration from the state `preset` ({key: (obj, slot, value)}); returns changed slots, writes"""
            j = Journal()
            self.journal.append(j)
            w = []
            self.wlog.append(w)
            self.mute += 1
            self.merge += 1
            self.guards.append(rng)
            try:
                for o, sl, v in preset.values():
                    self.setslot(o, sl, v)
                body()
                new = {k: (o, sl, self.getslot(o, sl)) for k, (o, sl, _) in j.items()}
            finally:
                self.guards.pop()
                self.merge -= 1
                self.mute -= 1
                self.wlog.pop()
                self.journal.pop()
                for o, sl, old in j.values():
                    self._put(o, sl, old)
            return new, w

        tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        changed, _ = trial({})
        for rnd in range(4):
            havoc = {}
            fresh = {}
            for key, (o, sl, _) in changed.items():
                old = self.getslot(o, sl)
                if old is UNDEF or isinstance(o, Env) and o is env and sl in tnames:
                    continue
                hv = self.havoc(o, sl, old)
                havoc[key] = (o, sl, hv[0])
                fresh[key] = hv[1]
            new, writes = trial(havoc)
            extra = [k for k in new if k not in changed]
            if not extra:
                break
            changed = new
        else:
            raise Unsupported('loop state does not settle')
        syms = {}
        for key, f in fresh.items():
            for x in f:
                syms[x.get_id() if z3.is_expr(x) else x.get_id()] = key
        # scalars first
        closed = {}          # key -> function of the iteration index giving the value at its start
        pend = [k for k in new if k in havoc]
        subs = []
        progress = True
        while progress:
            progress = False
            for k in list(pend):
                o, sl, e = new[k]
                r = self.close_scalar(k, o, sl, e, havoc[k][2], i, n, subs, fresh, syms)
                if r is not None:
                    closed[k] = r
                    pend.remove(k)
                    if isz(havoc[k][2]):
                        subs.append((havoc[k][2], num(r(i))))
                    progress = True
        # arrays and lists
        for k in list(pend):
            o, sl, e = new[k]
            if isinstance(o, SArr) and sl == 'content':
                r = self.close_array(o, e, fresh[k][0], i, n, [w for w in writes if w[0] is o], subs, syms, k)
            elif isinstance(e, AppendLog):
                r = self.close_list(e, self.getslot(o, sl), i, n, subs, syms)
            elif isinstance(o, PDict):
                r = None
            else:
                r = None
            if r is None:
                raise Unsupported('loop at line %d: no closed form for %s' % (s.lineno, sl))
            closed[k] = r
            pend.remove(k)
        # the body once more, under the invariant, for its obligations
        if not self.mute:
            j = Journal()
            self.journal.append(j)
            self.merge += 1
            self.guards.append(rng)
            try:
                for k, r in closed.items():
                    o, sl, _ = new[k]
                    self.setslot(o, sl, r(i))
                body()
            finally:
                self.guards.pop()
                self.merge -= 1
                self.journal.pop()
                for o, sl, old in j.values():
                    self._put(o, sl, old)
        # effect on the write log of an enclosing loop: same regions, this loop's index eliminated where fixed
        for w in writes:
            self.reexport(w, i, n, rng, subs)
        for k, r in closed.items():
            o, sl, _ = new[k]
            self.setslot(o, sl, r(n))
        for k, (o, sl, e) in new.items():
            if k in closed:
                continue
            # defined only inside the loop (or the loop target): value of the last iteration, if any
            if isinstance(o, Env):
                try:
                    v = subst_value(subst_value(e, subs) if subs else e, [(i, n - 1)]) if not isinstance(e, (Poison, AppendLog)) else Poison()
                except Exception:
                    v = Poison()
                self.setslot(o, sl, v if self.entails(n > 0) else Poison())

    def reexport(self, w, i, n, rng, subs):
        arr, pred, fixed, guards = w
        sb = subs
        fx = {}
        for d, t in fixed.items():
            t = sub(num(t), sb)
            if not free_has(t, i):
                fx[d] = t
        ph = _fresh_idx(len(arr.shape))

        def p(b, pred=pred):
            t = sub(num(pred(tuple(ph))), sb)
            if not free_has(t, i):
                return z3.substitute(t, *zip(ph, b))
            # i eliminated through a coordinate that fixes it
            for d, q in fixed.items():
                inv = self.invert(sub(num(q), sb), i, n)
                if inv is not None:
                    val, ok = inv(ph[d])
                    return z3.substitute(z3.And(ok, z3.substitute(t, (i, val))), *zip(ph, b))
            return z3.BoolVal(True)
        for lg in self.wlog[-1:]:
            lg.append((arr, p, fx, list(self.guards)))

    def havoc(self, o, sl, old):
        if isinstance(o, SArr) and sl == 'content':
            so = {'f': RealS, 'i': IntS, 'b': BoolS}[o.dtype]
            F = z3.Function('A!%d' % next(self.ctx.cnt), *([IntS] * o.ndim), so)
            if o.ndim == 0:
                raise Unsupported('0-d array')
            return (lambda idx: F(*idx)), [F]
        if isinstance(o, PList) and sl == 'val':
            return AppendLog(object(), []), []
        if isinstance(o, PDict) and isinstance(old, dict):
            d, fs = {}, []
            for k, v in old.items():
                x, f = self.havoc(None, None, v)
                d[k] = x
                fs += f
            return d, fs
        if isz(old) or isinstance(old, (int, Fraction, float, bool)):
            k = kind(old)
            x = self.ctx.fresh({'b': 'bool', 'i': 'int', 'f': 'real'}[k], 'hv')
            return x, [x]
        if isinstance(old, SArr):
            so = {'f': RealS, 'i': IntS, 'b': BoolS}[old.dtype]
            F = z3.Function('A!%d' % next(self.ctx.cnt), *([IntS] * old.ndim), so)
            return SArr(old.shape, lambda idx: F(*idx), old.dtype), [F]
        p = Poison()
        return p, []

    def mentions(self, e, syms):
        """does the value mention a loop-carried unknown"""
        if isinstance(e, Poison):
            return True
        if isz(e):
            for x in _walk(e, set()):
                if z3.is_app(x):
                    if x.num_args() == 0 and x.get_id() in syms:
                        return True
                    if x.num_args() > 0 and x.decl().get_id() in syms:
                        return True
                    if x.num_args() > 0:
                        d = self.gh.by_decl.get(x.decl().get_id())
                        if d is not None and self._fam_dep(d[0], syms):
                            return True
            return False
        if isinstance(e, (int, float, Fraction, str, bool)) or e is None:
            return False
        if isinstance(e, SArr):
            ph = _fresh_idx(e.ndim)
            return self.mentions(e.snap()(tuple(ph)), syms) or any(self.mentions(num(x), syms) for x in e.shape)
        if isinstance(e, (list, tuple)):
            return any(self.mentions(x, syms) for x in e)
        if isinstance(e, PList):
            return self.mentions(e.val, syms)
        if isinstance(e, SSeq):
            return self.mentions(e.get(_fresh_idx(1)[0]), syms) or self.mentions(num(e.n), syms)
        if isinstance(e, PDict):
            return self.mentions(list(e.val.values()), syms) if isinstance(e.val, dict) else True
        if isinstance(e, SymStr):
            return self.mentions(e.key, syms)
        if isinstance(e, Text):
            return any(self.mentions(p[1], syms) for p in e.parts if not isinstance(p, str))
        if isinstance(e, Obj):
            return self.mentions(list(e.f.values()), syms)
        if isinstance(e, (Fn, Cls, Ext, Prim, Bound, Mod)):
            return False
        return True

    def _fam_dep(self, f, syms):
        return self.mentions(f.body, syms) or self.mentions(num(f.n), syms)

    def close_scalar(self, key, o, sl, e, hv, i, n, subs, fresh, syms):
        old = self.getslot(o, sl)
        if isinstance(o, PDict) and isinstance(e, dict) and isinstance(hv, dict):
            if list(e) != list(hv):
                raise Unsupported('dict keys change in a loop')
            cl = {}
            for k in e:
                r = self.close1(e[k], hv[k], old[k], i, n, subs, syms)
                if r is None:
                    return None
                cl[k] = r
                if isz(hv[k]):
                    subs.append((hv[k], cast(num(r(i)), kind(hv[k]))))
            return lambda j: {k: cl[k](j) for k in cl}
        if isinstance(o, SArr) and sl == 'content' or isinstance(e, AppendLog):
            return None
        return self.close1(e, hv, old, i, n, subs, syms)

    def close1(self, e, hv, old, i, n, subs, syms):
        if isinstance(e, Poison):
            return None
        if isinstance(hv, SArr) or isinstance(e, SArr):
            e2 = subst_value(e, subs) if subs else e
            if self.mentions(e2, syms):
                return None
            return self._last(e2, old, i)
        if not (isz(hv)):
            if self.mentions(e, syms):
                return None
            return self._last(e, old, i)
        e = z3.simplify(sub(num(e), subs)) if subs else z3.simplify(num(e))
        if e.eq(hv):
            return lambda j: old
        if not self.mentions(e, syms):
            return self._last(e, old, i)
        others = {k: v for k, v in syms.items() if k != hv.get_id()}
        if self.mentions(e, others):
            return None
        k = kind(hv)
        if k in 'if':
            d = e - hv
            ds = z3.simplify(d, som=True)
            if self.mentions(ds, syms):
                ds = self._delta(e, hv)
            if ds is not None and not self.mentions(ds, syms):
                if kind(ds) != k:
                    ds = cast(ds, k)
                g, _ = self.gh.sum(n, lambda j: z3.substitute(ds, (i, num(j))))
                o0 = cast(old, k)
                zero = isinstance(conc(o0), (int, Fraction)) and conc(o0) == 0
                return lambda j: cast(g(j), k) if zero else o0 + cast(g(j), k)
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                for v, other, pos in ((e.arg(1), e.arg(2), True), (e.arg(2), e.arg(1), False)):
                    if other.eq(hv) and not self.mentions(v, syms):
                        self.guards.append(z3.And(i >= 0, i < n))
                        ok = self.entails(e == z3.If(v > hv, v, hv))
                        self.guards.pop()
                        if ok:
                            init = conc(old)
                            if isz(init):
                                return None
                            g, _ = self.gh.maximum(n, lambda j: z3.substitute(v, (i, num(j))), init)
                            return lambda j: g(j)
        if k == 'b':
            # flag := flag or c(i) / flag and c(i)
            pass
        return None

    def _delta(self, e, hv):
        """push the difference through if-then-else"""
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            a, b = self._delta(e.arg(1), hv), self._delta(e.arg(2), hv)
            if a is None or b is None:
                return None
            return z3.If(e.arg(0), a, b)
        d = z3.simplify(e - hv, som=True)
        return d if not free_has(d, hv) else None

    def _last(self, e, old, i):
        def f(j):
            j = num(j)
            v = subst_value(e, [(i, j - 1)])
            if self.entails(j > 0):
                return v
            try:
                return self.mergev(j > 0, v, old)
            except Unsupported:
                return Poison()
        return f

    def invert(self, t, i, n):
        """t(i) injective on the range -> function b |-> (iteration, condition that it exists)"""
        t = z3.simplify(t)
        if t.eq(i):
            return lambda b: (b, z3.And(b >= 0, b < n))
        d = z3.simplify(t - i)
        if not free_has(d, i):
            return lambda b: (b - d, z3.And(b - d >= 0, b - d < n))
        if z3.is_app(t) and t.num_args() > 0:
            q = self.gh.by_decl.get(t.decl().get_id())
            if q is not None and t.arg(t.num_args() - 1).eq(i) and not any(free_has(t.arg(k), i) for k in range(t.num_args() - 1)):
                f, w = q
                args = [t.arg(k) for k in range(t.num_args() - 1)]
                if f.kind == 'perm' and self.same(f.nn(args), n):
                    g = f.g if w == 'f' else f.f
                    return lambda b: (g(*args, b), z3.And(b >= 0, b < n))
                if f.kind == 'cnt' and w == 'f' and self.same(f.nn(args), n):
                    inv = lambda b: (f.g(*args, b), z3.And(b >= 0, b < f.f(*args, n)))
                    inv.guard = lambda j: f.at(args, j)
                    return inv
        return None

    def close_array(self, arr, content, F, i, n, writes, subs, syms, key):
        old = arr.snap()
        nd = arr.ndim
        ph = _fresh_idx(nd)
        T = cast(content(tuple(ph)), arr.dtype)
        T = sub(T, subs)
        if not writes:
            return lambda j: content if False else (lambda idx: old(idx))
        classes = []
        for (_, pred, fixed, guards) in writes:
            inv = None
            for d in sorted(fixed):
                t = sub(num(fixed[d]), subs)
                if free_has(t, i):
                    r = self.invert(t, i, n)
                    if r is not None:
                        gd = getattr(r, 'guard', None)
                        if gd is not None:
                            extra = [sub(g, subs) for g in guards]
                            if not self.entails_full(z3.Implies(z3.And(*extra, sub(num(pred(tuple(ph))), subs)), gd(i))):
                                continue
                        inv = (d, r, t)
                        break
            if inv is None:
                return None
            classes.append((inv, pred, guards))
        cls, seen = [], []
        for (d, r, t), pred, guards in classes:
            P = sub(num(pred(tuple(ph))), subs)
            cls.append((d, r, t, P))
        # a class: cell b is written in iteration r(b[d])
        uniq = []
        for d, r, t, P in cls:
            for u in uniq:
                if u[0] == d and u[2].eq(t):
                    u[3] = z3.Or(u[3], P)
                    break
            else:
                uniq.append([d, r, t, P])
        # two classes that can hit the same cell must agree on the iteration
        for a, b in itertools.combinations(uniq, 2):
            va, oa = a[1](ph[a[0]])
            vb, ob = b[1](ph[b[0]])
            Pa, Pb = z3.substitute(a[3], (i, va)), z3.substitute(b[3], (i, vb))
            if not self.entails_full(z3.Implies(z3.And(oa, ob, Pa, Pb), va == vb)):
                return None
        # reads of the array itself: only cells of the present iteration, whose earlier content is the initial one
        reads = []
        for x in _walk(T, set()):
            if z3.is_app(x) and x.decl().eq(F):
                reads.append(x)
        for x in reads:
            idx = [x.arg(k) for k in range(nd)]
            if all(p.eq(q) for p, q in zip(idx, ph)):
                continue
            ok = False
            for d, r, t, P in uniq:
                if len(uniq) == 1 and self.entails_full(z3.Implies(z3.And(i >= 0, i < n), idx[d] == t)):
                    ok = True
            if not ok:
                return None
        T0 = T
        for x in sorted(reads, key=lambda y: y.get_id()):
            idx = tuple(x.arg(k) for k in range(nd))
            T0 = z3.substitute(T0, (x, old(idx)))
        rest = {k: v for k, v in syms.items()}
        if self.mentions(T0, rest):
            return None

        def at(j):
            def f(idx):
                idx = tuple(num(x) for x in idx)
                res = old(idx)
                for d, r, t, P in reversed(uniq):
                    val, ok = r(idx[d])
                    sb = list(zip(ph, idx)) + [(i, val)]
                    cond = z3.And(ok, val < num(j) if not num(j).eq(n) else z3.BoolVal(True), z3.substitute(P, *sb))
                    res = ite(cond, cast(z3.substitute(T0, *sb), arr.dtype), res)
                return res
            return f
        return at

    def close_list(self, log, old, i, n, subs, syms):
        items = [(z3.simplify(sub(g, subs)) if isz(g) else g, subst_value(v, subs) if subs else v) for g, v in log.items]
        if any(self.mentions(v, syms) or self.mentions(num(g), syms) for g, v in items):
            return None
        ob = old
        L0 = len(ob) if isinstance(ob, list) else ob.n
        obget = (lambda k: pick_list(self, ob, k)) if isinstance(ob, list) else ob.get
        if not items:
            return lambda j: ob

        def mk(cnt, elem, inv=None):
            def f(j):
                j = num(j)
                tot = conc(z3.simplify(num(L0) + cnt(j)))

                def get(k):
                    if isinstance(L0, int) and L0 == 0:
                        return elem(k)
                    if self.entails(k < num(L0)):
                        return obget(k)
                    if self.entails(k >= num(L0)):
                        return elem(k - num(L0))
                    return self.mergev(k < num(L0), obget(k), elem(k - num(L0)))
                out = SSeq(tot, get)
                out.segs = segs_of(ob) + [(conc(z3.simplify(cnt(j))), lambda k: elem(num(k)))]
                return out
            return f
        if len(items) == 1:
            g, v = items[0]
            g = num(g)
            always = z3.Implies(z3.And(i >= 0, i < n), g)
            if z3.is_true(z3.simplify(g)) or self.entails(always) or self.gh.schemas and self.entails_full(always):
                return mk(lambda j: j, lambda k: subst_value(v, [(i, k)]))
            cnt, sel, _ = self.gh.count(n, lambda j: z3.substitute(g, (i, num(j))))
            return mk(lambda j: cnt(j), lambda k: subst_value(v, [(i, sel(k))]))
        gs = [num(g) for g, _ in items]
        if all(self.entails(z3.Implies(z3.And(i >= 0, i < n), z3.Not(z3.And(a, b)))) for a, b in itertools.combinations(gs, 2)):
            # alternatives of a case distinction: at most one item per iteration
            def val(t):
                out = subst_value(items[-1][1], [(i, t)])
                for g, v in reversed(items[:-1]):
                    out = self.mergev(z3.substitute(num(g), (i, t)), subst_value(v, [(i, t)]), out)
                return out
            if self.entails(z3.Implies(z3.And(i >= 0, i < n), z3.Or(*gs))):
                return mk(lambda j: j, lambda k: val(k))
            cnt, sel, _ = self.gh.count(n, lambda j: z3.substitute(z3.Or(*gs), (i, num(j))))
            return mk(lambda j: cnt(j), lambda k: val(sel(k)))
        if all(z3.is_true(z3.simplify(num(g))) for g, _ in items):
            m = len(items)

            def elem(k):
                q, r = k / m, k % m
                out = subst_value(items[m - 1][1], [(i, q)])
                for t in range(m - 2, -1, -1):
                    out = self.mergev(r == t, subst_value(items[t][1], [(i, q)]), out)
                return out
            return mk(lambda j: j * m, elem)
        return None

    def until_break(self, s, seq, i, rng, env):
        """`for ..: if A: S elif B: break else: T` with tests that do not depend on what the loop changes: the same loop over the
        iterations before the first break, break removed"""
        if len(s.body) > 1:
            return self.until_break_mid(s, seq, i, rng, env)
        if len(s.body) != 1 or not isinstance(s.body[0], ast.If):
            return None
        node = s.body[0]
        conds = []
        changed = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        found = None
        while True:
            if any(isinstance(x, ast.Name) and x.id in changed for x in ast.walk(node.test)) or any(isinstance(x, (ast.Call,)) and not (isinstance(x.func, ast.Name) and x.func.id in ('range', 'len')) for x in ast.walk(node.test)):
                return None
            if len(node.body) == 1 and isinstance(node.body[0], ast.Break):
                found = list(conds), node.test
                break
            conds.append(node.test)
            if len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If):
                node = node.orelse[0]
            elif len(node.orelse) == 1 and isinstance(node.orelse[0], ast.Break):
                found = list(conds), None
                break
            else:
                return None
        if sum(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s)) != 1:
            return None
        before, last = found
        saved = {x.id: env.vars.get(x.id, UNDEF) for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        self.mute += 1
        self.guards.append(rng)
        try:
            self.assign(s.target, seq.get(i), env)
            cs = [z3.Not(num(self.truth(self.eval(c, env)))) for c in before]
            if last is not None:
                cs.append(num(self.truth(self.eval(last, env))))
        finally:
            self.guards.pop()
            self.mute -= 1
            for k, v in saved.items():
                if v is UNDEF:
                    env.vars.pop(k, None)
                else:
                    env.vars[k] = v
        cond = z3.And(*cs) if len(cs) > 1 else cs[0]
        n = num(seq.n)
        cnt, sel, _ = self.gh.count(n, lambda t: z3.substitute(cond, (i, num(t))))
        if self.entails_full(z3.Implies(z3.And(cond, rng), z3.BoolVal(False))):
            K = n
        else:
            K = z3.If(cnt(n) > 0, sel(z3.IntVal(0)), n)
        s2 = _copy.deepcopy(s)
        for x in ast.walk(s2):
            for f in ('body', 'orelse'):
                b = getattr(x, f, None)
                if isinstance(b, list):
                    setattr(x, f, [ast.copy_location(ast.Pass(), y) if isinstance(y, ast.Break) else y for y in b])
        return s2, SSeq(z3.simplify(K), seq.get)

    def until_break_mid(self, s, seq, i, rng, env):
        """`for ..: P; if B: break; R` where P only computes locals from the loop variable: the loop without the break over the
        iterations before the first one in which B holds"""
        at = [k for k, x in enumerate(s.body) if isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Break) and not x.orelse]
        if len(at) != 1 or sum(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s)) != 1:
            return None
        pre, test = s.body[:at[0]], s.body[at[0]].test

        def pure(st):
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                return all(isinstance(t, ast.Name) for t in ts)
            if isinstance(st, ast.If):
                return all(pure(x) for x in st.body + st.orelse)
            return isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
        if not all(pure(x) for x in pre):
            return None
        stored = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        saved = {x: env.vars.get(x, UNDEF) for x in stored}
        self.mute += 1
        self.merge += 1
        self.guards.append(rng)
        try:
            for x in stored:
                env.vars[x] = Poison()
            self.assign(s.target, seq.get(i), env)
            self.block(pre, env)
            cond = num(self.truth(self.eval(test, env)))
        except Unsupported:
            return None
        finally:
            self.guards.pop()
            self.merge -= 1
            self.mute -= 1
            for k, v in saved.items():
                if v is UNDEF:
                    env.vars.pop(k, None)
                else:
                    env.vars[k] = v
        n = num(seq.n)
        cnt, sel, _ = self.gh.count(n, lambda t: z3.substitute(cond, (i, num(t))))
        if self.entails_full(z3.Implies(z3.And(cond, rng), z3.BoolVal(False))):
            K = n
        else:
            K = z3.If(cnt(n) > 0, sel(z3.IntVal(0)), n)
        s2 = _copy.copy(s)
        s2.body = s.body[:at[0]] + s.body[at[0] + 1:]
        return s2, SSeq(z3.simplify(K), seq.get)

    def search_loop(self, s, seq, i, rng, env):
        """loop that only returns (at the first hit), or breaks out without having changed anything"""
        n = num(seq.n)
        brk = any(isinstance(x, ast.Break) for st in s.body for x in ast.walk(st))
        body = [_MissJumps().visit(_copy.deepcopy(st)) for st in s.body] + [_miss()]
        for st in body:
            ast.fix_missing_locations(st)

        def once():
            self.merge += 1
            self.guards.append(rng)
            j = Journal()
            self.journal.append(j)
            try:
                self.assign(s.target, seq.get(i), env)
                self.block(body, env)
                raise Unsupported('search loop')
            except Ret as e:
                return e.v, {k: (o, sl, self.getslot(o, sl)) for k, (o, sl, _) in j.items()}
            finally:
                self.journal.pop()
                for o, sl, old in j.values():
                    self._put(o, sl, old)
                self.guards.pop()
                self.merge -= 1
        tn = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        self.mute += 1
        try:
            v, ch = once()
        finally:
            self.mute -= 1
        v = v if isinstance(v, Opt) else Opt(z3.BoolVal(True), v)
        for o, sl, new in ch.values():
            if not (isinstance(o, Env) and (sl in tn or self.getslot(o, sl) is UNDEF)):
                raise Unsupported('search loop with state')
        if not self.mute:
            once()
        cond = num(v.cond)
        cnt, sel, _ = self.gh.count(n, lambda t: z3.substitute(cond, (i, num(t))))
        hit = cnt(n) > 0
        if self.mute or self.guards or self.merge:
            if self.entails_full(z3.Not(hit)):
                return
            if not self.entails_full(hit):
                raise Unsupported('search loop inside a summarised context')
            out = True
        else:
            out = self.ctx.branch(hit)
        if out:
            if brk and v.val is BROKE:
                return
            raise Ret(subst_value(v.val, [(i, sel(z3.IntVal(0)))]))

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction)):
            return bool(v)
        if isz(v):
            b = conc(boolean(v))
            return b
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (tuple, list)):
            return len(v) > 0
        if isinstance(v, PList):
            n = v.val
            if isinstance(n, list):
                return len(n) > 0
            if isinstance(n, SSeq):
                return conc(num(n.n) > 0)
        if isinstance(v, PDict) and isinstance(v.val, dict):
            return len(v.val) > 0
        if isinstance(v, SArr):
            if v.ndim == 0 or all(isinstance(x, int) and x == 1 for x in v.shape):
                return self.truth(v.get(*([0] * v.ndim)))
            raise Unsupported('truth value of an array')
        if isinstance(v, (Obj, Cls, Fn)):
            return True
        raise Unsupported('truth of %s' % type(v).__name__)

    def eval(self, e, env):
        t = type(e)
        if t is ast.Constant:
            v = e.value
            if isinstance(v, float):
                return Fraction(repr(v))
            return v
        if t is ast.Name:
            v = self.lookup(e.id, env)
            if isinstance(v, Poison):
                raise Unsupported('value of %s after a loop is not tracked' % e.id)
            if isinstance(v, TextBuf) and not self.augload:
                v.shared = True
            return v
        if t is ast.Attribute:
            o = self.eval(e.value, env)
            v = self.getattr(o, e.attr)
            if isinstance(v, Poison):
                raise Unsupported('value of %s is not tracked' % e.attr)
            return v
        if t is ast.Call:
            return self.evalcall(e, env)
        if t is ast.BinOp:
            return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))
        if t is ast.UnaryOp:
            v = self.eval(e.operand, env)
            if isinstance(e.op, ast.Not):
                c = self.truth(v)
                return (not c) if isinstance(c, bool) else z3.Not(c)
            if isinstance(e.op, ast.USub):
                return elementwise(self, lambda a: -num_arith(a), v) if isinstance(v, SArr) else (-v if not isz(v) else -num_arith(v))
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert):
                return elementwise(self, lambda a: z3.Not(boolean(a)), v, dtype='b') if isinstance(v, SArr) else z3.Not(boolean(v))
        if t is ast.BoolOp:
            isand = isinstance(e.op, ast.And)
            acc = None
            for k, x in enumerate(e.values):
                v = self.eval(x, env)
                c = self.truth(v)
                if isinstance(c, bool):
                    if c != isand:
                        return v if acc is None else (z3.BoolVal(c) if not isinstance(v, bool) else v)
                    last = v
                    continue
                if k < len(e.values) - 1 and not self.merge and any(isinstance(y, (ast.Call, ast.Subscript)) for z in e.values[k + 1:] for y in ast.walk(z)):
                    if self.ctx.branch(c) != isand:
                        return not isand
                    last = isand
                    continue
                acc = c if acc is None else (z3.And(acc, c) if isand else z3.Or(acc, c))
                last = acc
            return last
        if t is ast.Compare:
            l = self.eval(e.left, env)
            res = None
            for op, c in zip(e.ops, e.comparators):
                r = self.eval(c, env)
                x = self.compare(op, l, r)
                res = x if res is None else (x if res is True else res if res is False else (res if x is True else z3.And(num(res), num(x))))
                l = r
            return res
        if t is ast.IfExp:
            c = self.truth(self.eval(e.test, env))
            if isinstance(c, bool):
                return self.eval(e.body if c else e.orelse, env)
            if not self.merge:
                return self.eval(e.body if self.ctx.branch(c) else e.orelse, env)
            self.guards.append(c)
            a = self.eval(e.body, env)
            self.guards[-1] = z3.Not(c)
            b = self.eval(e.orelse, env)
            self.guards.pop()
            return self.mergev(c, a, b)
        if t in (ast.List, ast.Tuple):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += self.tolist(self.eval(x.value, env))
                else:
                    out.append(self.eval(x, env))
            return PList(out) if t is ast.List else tuple(out)
        if t is ast.Dict:
            d = {}
            for k, v in zip(e.keys, e.values):
                kk = conc(self.eval(k, env))
                if isz(kk) or isinstance(kk, SymStr):
                    raise Unsupported('symbolic dict key')
                d[kk] = self.eval(v, env)
            return PDict(d)
        if t is ast.Subscript:
            return self.getitem(self.eval(e.value, env), self.evalidx(e.slice, env))
        if t in (ast.ListComp, ast.GeneratorExp):
            return PList(self.comp(e.elt, e.generators, env))
        if t is ast.SetComp:
            raise Unsupported('set comprehension')
        if t is ast.DictComp:
            return self.dictcomp(e, env)
        if t is ast.Lambda:
            return Fn(e, env.mod, getattr(env, 'cls', None), env)
        if t is ast.JoinedStr:
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    x = self.eval(v.value, env)
                    spec = self.eval(v.format_spec, env) if v.format_spec is not None else ''
                    parts.append(fmt(self, x, spec))
            return text(parts)
        if t is ast.Starred:
            raise Unsupported('starred')
        raise Unsupported('expression %s line %s' % (t.__name__, getattr(e, 'lineno', '?')))

    def evalidx(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.evalidx(x, env) for x in s.elts)
        return self.eval(s, env)

    def evalcall(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return Super(env)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.tolist(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                kw.update(d.val)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def comp(self, elt, gens, env, nested=False):
        g = gens[0]
        it = self.seq(self.eval(g.iter, env))
        inner = Env(env.mod, {}, env)
        inner.cls = getattr(env, 'cls', None)
        if (len(gens) > 1 or nested) and isinstance(it, SSeq):
            for c in range(9):
                if self.entails_full(num(it.n) == c):
                    it = [it.get(z3.IntVal(k)) for k in range(c)]
                    break
        if isinstance(it, list):
            out = []
            for x in it:
                self.assign(g.target, x, inner)
                ok = True
                for c in g.ifs:
                    b = self.truth(self.eval(c, inner))
                    if not isinstance(b, bool):
                        if self.entails(b):
                            b = True
                        elif self.entails(z3.Not(b)):
                            b = False
                        elif self.merge:
                            raise Unsupported('filter of unknown truth over a concrete list')
                        else:
                            b = self.ctx.branch(b)
                    ok = ok and b
                    if not ok:
                        break
                if ok:
                    if len(gens) > 1:
                        r = self.comp(elt, gens[1:], inner, True)
                        if not isinstance(r, list):
                            raise Unsupported('nested symbolic comprehension')
                        out += r
                    else:
                        out.append(self.eval(elt, inner))
            return out
        if len(gens) > 1:
            raise Unsupported('nested symbolic comprehension')
        n = num(it.n)
        i = self.ctx.fresh('int', 'i')
        self.guards.append(z3.And(i >= 0, i < n))
        self.merge += 1
        try:
            self.assign(g.target, it.get(i), inner)
            cond = z3.BoolVal(True)
            for c in g.ifs:
                b = num(self.truth(self.eval(c, inner)))
                cond = z3.And(cond, b)
                self.guards.append(b)
            v = self.eval(elt, inner)
            for c in g.ifs:
                self.guards.pop()
        finally:
            self.merge -= 1
            self.guards.pop()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            r = SSeq(it.n, lambda k: subst_value(v, [(i, num(k))]))
            if isz(v):
                inv = self.invert(v, i, n)
                if inv is not None:
                    r.inv = inv
            return r
        cnt, sel, _ = self.gh.count(n, lambda j: z3.substitute(cond, (i, num(j))))
        return SSeq(cnt(n), lambda k: subst_value(v, [(i, sel(k))]))

    def dictcomp(self, e, env):
        g = e.generators[0]
        it = self.seq(self.eval(g.iter, env))
        if isinstance(it, list):
            d = {}
            inner = Env(env.mod, {}, env)
            for x in it:
                self.assign(g.target, x, inner)
                if all(self.truth(self.eval(c, inner)) is True for c in g.ifs):
                    k = conc(self.eval(e.key, inner))
                    if isz(k):
                        raise Unsupported('symbolic dict key')
                    d[k] = self.eval(e.value, inner)
                elif any(not isinstance(self.truth(self.eval(c, inner)), bool) for c in g.ifs):
                    raise Unsupported('symbolic filter')
            return PDict(d)
        if g.ifs or len(e.generators) > 1:
            raise Unsupported('filtered symbolic dict')
        n = num(it.n)
        i = self.ctx.fresh('int', 'i')
        inner = Env(env.mod, {}, env)
        self.guards.append(z3.And(i >= 0, i < n))
        self.merge += 1
        try:
            self.assign(g.target, it.get(i), inner)
            k = num(self.eval(e.key, inner))
            v = self.eval(e.value, inner)
        finally:
            self.merge -= 1
            self.guards.pop()
        inv = self.invert(k, i, n)
        if inv is None:
            raise Unsupported('dict keys not invertible')

        def lookup(q):
            val, ok = inv(num(q))
            self.check('key in dictionary', ok, 'safety')
            return subst_value(v, [(i, val)])
        return PDict(SMap(n, lookup))

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, SArr) or isinstance(b, SArr):
            a = asarr_if_list(self, a)
            b = asarr_if_list(self, b)
            if isinstance(op, ast.MatMult):
                return np_dot(self, a, b)
            return elementwise(self, lambda x, y: scalar_op(self, op, x, y), a, b)
        t = type(op)
        if isinstance(a, (str, Text)) or isinstance(b, (str, Text)):
            if t is ast.Add and isinstance(a, (str, Text)) and isinstance(b, (str, Text)):
                return text([a, b])
            if t is ast.Mod:
                return percent(self, a, b)
            if t is ast.Mult and isinstance(a, str) and isinstance(b, int):
                return a * b
            raise Unsupported('string operator')
        if isinstance(a, PList) or isinstance(b, PList) or isinstance(a, SSeq):
            return list_op(self, t, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        if isinstance(a, Obj) and 'binop' in a.hooks:
            return a.hooks['binop'](self, op, a, b)
        return scalar_op(self, op, a, b)

    def compare(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = a is b or (a is None and b is None)
            if isz(a) and isinstance(b, bool) or isinstance(a, bool) and isz(b):
                r = num(a) == num(b)
                return r if t is ast.Is else z3.Not(r)
            return r if t is ast.Is else not r
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if t is ast.In else ((not r) if isinstance(r, bool) else z3.Not(r))
        if isinstance(a, SArr) or isinstance(b, SArr):
            a, b = asarr_if_list(self, a), asarr_if_list(self, b)
            return elementwise(self, lambda x, y: cmp_op(t, x, y), a, b, dtype='b')
        if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)) or a is None or b is None:
            if isinstance(a, SymStr) or isinstance(b, SymStr):
                return symstr_cmp(self, t, a, b)
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                r = z3.And(*[num(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b)])
                return conc(r if t is ast.Eq else z3.Not(r))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and 'eq' in x.hooks and isinstance(y, str) and t in (ast.Eq, ast.NotEq):
                    r = x.hooks['eq'](self, x, y)
                    return conc(r if t is ast.Eq else z3.Not(num(r)))
            if isinstance(a, (Obj, Text)) and isinstance(b, str) or isinstance(b, (Obj, Text)) and isinstance(a, str) or isinstance(a, PList) and isinstance(b, str) and isinstance(a, TextBuf):
                raise Unsupported('comparison of strings')
            if t is ast.Eq:
                return a == b
            if t is ast.NotEq:
                return a != b
            raise Unsupported('comparison of strings')
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return symstr_cmp(self, t, a, b)
        if isinstance(a, (PList, Obj, Cls, Ext)) or isinstance(b, (PList, Obj, Cls, Ext)):
            if isinstance(a, PList) and isinstance(b, PList) and isinstance(a.val, list) and isinstance(b.val, list):
                if len(a.val) != len(b.val):
                    return t is ast.NotEq
                r = z3.And(*[num(self.compare(ast.Eq(), x, y)) for x, y in zip(a.val, b.val)]) if a.val else z3.BoolVal(True)
                return conc(r if t is ast.Eq else z3.Not(r))
            if isinstance(a, Obj) and isinstance(b, Obj) and t in (ast.Eq, ast.NotEq):
                return (a is b) == (t is ast.Eq)
            raise Unsupported('comparison of objects')
        if hasattr(a, 'py_eq'):
            return a.py_eq(self, t, b)
        return cmp_op(t, a, b)

    def contains(self, c, x):
        if isinstance(c, Obj) and 'contains' in c.hooks:
            if not isinstance(x, str):
                raise Unsupported('substring search')
            return c.hooks['contains'](self, c, x)
        if hasattr(c, 'py_contains'):
            return c.py_contains(self, x)
        if isinstance(c, (str,)) and isinstance(x, str):
            return x in c
        if isinstance(c, PDict) and isinstance(c.val, dict):
            c = list(c.val.keys())
        s = self.seq(c)
        if isinstance(s, list):
            rs = [self.compare(ast.Eq(), y, x) for y in s]
            if all(isinstance(r, bool) for r in rs):
                return any(rs)
            return z3.Or(*[num(r) for r in rs])
        if getattr(c, 'rng', None) is not None:
            lo, hi = c.rng
            return z3.And(num(x) >= lo, num(x) < hi)
        raise Unsupported('membership in a symbolic sequence')

    def getitem(self, o, key):
        if isinstance(o, SArr):
            return arr_get(self, o, key)
        if isinstance(o, (PList, tuple, list, SSeq)):
            return list_get(self, o, key)
        if isinstance(o, PDict):
            if isinstance(o.val, SMap):
                return o.val.lookup(key)
            if isinstance(key, SymStr):
                return self.symkey(o, key)
            key = conc(key)
            if isz(key):
                return self.symkey(o, key)
            if key not in o.val:
                reg = getattr(o, 'registry_of', None)
                c = self.registry(reg, key) if reg is not None else None
                if c is not None:
                    return c
                raise Raised('KeyError')
            return o.val[key]
        if isinstance(o, str):
            k = conc(key) if not isinstance(key, slice) else slice(*[conc(x) for x in (key.start, key.stop, key.step)])
            return o[k]
        if hasattr(o, 'py_getitem'):
            return o.py_getitem(self, key)
        if isinstance(o, Cls) or isinstance(o, Ext):
            return o
        if isinstance(o, Obj) and 'getitem' in o.hooks:
            return o.hooks['getitem'](self, o, key)
        raise Unsupported('subscript of %s' % type(o).__name__)

    def symkey(self, d, key):
        """lookup of a symbolic key in a concrete table"""
        if isinstance(key, SymStr):
            if key.kind == 'element':
                # the table must send the symbol of Z to Z for every element: checked exhaustively
                from .elements import SYMBOL
                miss = [z for z, s in SYMBOL.items() if s not in d.val]
                kk = num(key.key)
                self.check('element known to the table', z3.And(kk >= 0, kk <= 118, *[kk != z for z in miss]), 'safety')
                if all(d.val.get(s) == z for z, s in SYMBOL.items() if s in d.val) and len(d.val) >= 100:
                    return key.key
                tab = {z: d.val[s] for z, s in SYMBOL.items() if s in d.val}
                r = num(key.key)
                out = None
                for z, v in tab.items():
                    out = num(v) if out is None else z3.If(r == z, num(v), out)
                return out
            raise Unsupported('lookup of a symbolic string')
        k = num(key)
        if not d.val:
            raise Raised('KeyError')
        self.check('key in dictionary', z3.Or(*[k == num(q) for q in d.val]), 'safety')
        vals = list(d.val.items())
        if all(isinstance(v, str) for _, v in vals):
            from .elements import SYMBOL
            if all(SYMBOL.get(q) == v for q, v in vals):
                return SymStr('element', k)
        out = vals[0][1]
        for q, v in vals[1:]:
            out = self.mergev(k == num(q), v, out)
        return out


def textbuf_split(it, o, a, k):
    """every line appended ends with a newline: the pieces are the lines and a final empty string"""
    if len(a) != 1 or a[0] != '\n' or k:
        raise Unsupported('split')
    v = o.val
    n = len(v) if isinstance(v, list) else v.n
    empty = Obj('line', dict(i=z3.IntVal(-1)), v[0].hooks if isinstance(v, list) and v else v.get(z3.IntVal(0)).hooks)
    g = (lambda q: pick_list(it, v, q)) if isinstance(v, list) else v.get

    def at(q):
        if it.entails(num(q) < num(n)):
            return g(q)
        x = g(q)
        if isinstance(x, Obj) and x.cls == 'line':
            return Obj('line', dict(i=z3.If(num(q) < num(n), num(x.f['i']), z3.IntVal(-1))), x.hooks)
        return it.mergev(num(q) < num(n), x, empty)
    return PList(SSeq(num(n) + 1, at))


class TextBuf(PList):
    """string under construction: the lines appended so far; frozen once it has been read"""
    def __init__(self, val):
        PList.__init__(self, val)
        self.shared = False


class Super:
    def __init__(self, env):
        self.env = env

    def py_attr(self, it, name):
        cls = self.env.cls
        this = self.env.vars.get('self')
        for b in cls.bases(it):
            if isinstance(b, Cls):
                m = b.find(it, name)
                if m:
                    return Bound(Fn(m[0], m[1].mod, m[1]), this)
        if name == '__init__':
            return Prim(lambda it, a, k: None)
        raise Unsupported('super().' + name)


class Poison:
    pass


def _load(t):
    import copy
    t = copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


class Opt:
    """a returned value that exists only under a condition"""
    def __init__(self, cond, val):
        self.cond, self.val = cond, val


BROKE = object()


def _miss(kind='miss'):
    r = ast.parse('return None').body[0]
    r.value = ast.Constant(value=Opt(z3.BoolVal(False), None) if kind == 'miss' else Opt(z3.BoolVal(True), BROKE))
    return r


class _MissJumps(ast.NodeTransformer):
    """continue / break of the search loop itself become outcomes of its body"""
    def visit_For(self, n):
        return n
    visit_While = visit_FunctionDef = visit_For

    def visit_Continue(self, n):
        return ast.copy_location(_miss(), n)

    def visit_Break(self, n):
        return ast.copy_location(_miss('brk'), n)


_MISS = None
EXC = {'ValueError', 'IndexError', 'KeyError', 'AttributeError', 'Exception', 'NotImplementedError', 'TypeError', 'AssertionError', 'object', 'RuntimeError'}


class Text:
    """string with symbolic parts: list of str | (spec, value)"""
    def __init__(self, parts):
        self.parts = parts

    def map_value(self, f):
        return Text([p if isinstance(p, str) else (p[0], f(p[1])) for p in self.parts])

    def py_attr(self, it, name):
        return Prim(lambda it, a, k: text_method(it, self, name, a, k))


def text(parts):
    out = []
    for p in parts:
        for q in (p.parts if isinstance(p, Text) else [p]):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            else:
                out.append(q)
    if all(isinstance(x, str) for x in out):
        return ''.join(out)
    return Text(out)


def fmt(it, x, spec):
    x = conc(x)
    if isinstance(x, (str, int)) and not isinstance(x, bool):
        return format(x, spec)
    if isinstance(x, bool) or x is None:
        return str(x)
    if isinstance(x, Text) and not spec:
        return x
    return Text([(spec, x)])


def percent(it, f, args):
    args = args if isinstance(args, tuple) else (args,)
    if all(isinstance(conc(a), (int, str)) for a in args) and isinstance(f, str):
        return f % tuple(conc(a) for a in args)
    if isinstance(f, str):
        import re
        ps = re.split(r'(%0?[0-9]*d|%s)', f)
        if not any('%' in x for x in ps[::2]) and len(ps) // 2 == len(args):
            out = [ps[0]]
            for x, a, lit in zip(ps[1::2], args, ps[2::2]):
                a = conc(a)
                if x != '%s' and not (isinstance(a, int) or isz(a) and a.sort() == IntS) or x == '%s' and not (isinstance(a, (int, str, Text)) or isz(a) and a.sort() == IntS):
                    raise Unsupported('% formatting')
                out += [fmt(it, a, x[1:] if x != '%s' else ''), lit]
            return text([x for x in out if x != ''])
    raise Unsupported('% formatting')


def text_method(it, t, name, a, k):
    raise Unsupported('Text.' + name)


def str_method(it, s, name, a, k):
    if name == 'format':
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if field == '':
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                raise Unsupported('format field ' + field)
            parts.append(fmt(it, v, spec or ''))
        return text(parts)
    if name == 'join':
        l = it.tolist(a[0])
        out = []
        for q, x in enumerate(l):
            if q:
                out.append(s)
            out.append(x)
        return text(out)
    args = [conc(x) for x in a]
    if all(isinstance(x, (str, int, type(None))) for x in args) and name in ('split', 'strip', 'upper', 'lower', 'replace', 'startswith', 'endswith', 'rstrip', 'lstrip', 'find', 'isdigit', 'count', 'zfill', 'title', 'capitalize', 'splitlines'):
        r = getattr(s, name)(*args, **k)
        return PList(r) if isinstance(r, list) else r
    raise Unsupported('str.' + name)


def symstr_cmp(it, t, a, b):
    if isinstance(a, SymStr) and isinstance(b, SymStr) and a.kind == b.kind:
        r = num(a.key) == num(b.key)
    else:
        s, c = (a, b) if isinstance(a, SymStr) else (b, a)
        if callable(s.kind) and isinstance(c, str):
            r = s.kind(s.key, c)
        elif s.kind == 'element' and isinstance(c, str):
            from .elements import SYMBOL
            zs = [z for z, q in SYMBOL.items() if q == c]
            r = num(s.key) == zs[0] if zs else z3.BoolVal(False)
        else:
            raise Unsupported('comparison of symbolic strings')
    return r if t is ast.Eq else z3.Not(r)


# ---------------------------------------------------------------- scalars
def num_arith(v):
    v = num(v)
    return integer(v) if z3.is_bool(v) else v


def scalar_op(it, op, a, b):
    t = type(op)
    pn = (int, Fraction, float, bool)
    if isinstance(a, pn) and isinstance(b, pn):
        a = Fraction(repr(a)) if isinstance(a, float) else a
        b = Fraction(repr(b)) if isinstance(b, float) else b
        try:
            if t is ast.Add:
                return a + b
            if t is ast.Sub:
                return a - b
            if t is ast.Mult:
                return a * b
            if t is ast.Div:
                return Fraction(a) / Fraction(b)
            if t is ast.FloorDiv:
                return a // b
            if t is ast.Mod:
                return a % b
            if t is ast.Pow and isinstance(b, int):
                return a ** b if b >= 0 else Fraction(1) / (Fraction(a) ** -b)
            if t is ast.BitAnd:
                return a & b
            if t is ast.BitOr:
                return a | b
        except ZeroDivisionError:
            raise Raised('ZeroDivisionError')
    if not (isz(a) or isinstance(a, pn)) or not (isz(b) or isinstance(b, pn)):
        raise Unsupported('operator on %s and %s' % (type(a).__name__, type(b).__name__))
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        x, y = num(a), num(b)
        if z3.is_bool(x) and z3.is_bool(y):
            return z3.And(x, y) if t is ast.BitAnd else z3.Or(x, y) if t is ast.BitOr else z3.Xor(x, y)
        raise Unsupported('bitwise operator')
    if t is ast.Pow:
        e = conc(b)
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if isinstance(e, int) and abs(e) <= 8:
            x = num_arith(a)
            if e < 0:
                x = 1 / real(x)
                e = -e
            if e == 0:
                return z3.RealVal(1) if z3.is_real(x) else z3.IntVal(1)
            r = x
            for _ in range(e - 1):
                r = r * x
            return r
        if e == Fraction(1, 2):
            return it.ctx.sqrt(real(a))
        raise Unsupported('power')
    if t is ast.Div:
        return real(a) / real(b)
    x, y = pair(num_arith(a), num_arith(b))
    if t is ast.Add:
        return x + y
    if t is ast.Sub:
        return x - y
    if t is ast.Mult:
        return x * y
    if t in (ast.FloorDiv, ast.Mod):
        c = conc(y)
        if z3.is_int(x) and isinstance(c, int) and c > 0:
            return x / y if t is ast.FloorDiv else x % y
        if z3.is_int(x) and it.entails(y > 0):
            q, r = divmod_sym(it, x, y)
            return q if t is ast.FloorDiv else r
        raise Unsupported('floor division')
    raise Unsupported('operator ' + t.__name__)


DIV = z3.Function('idiv', IntS, IntS, IntS)
MOD = z3.Function('imod', IntS, IntS, IntS)


def divmod_sym(it, k, n):
    """(k div n, k mod n) for a positive symbolic n"""
    k, n = num(k), num(n)
    c = conc(n)
    if isinstance(c, int):
        if c == 1:
            return k, z3.IntVal(0)
        s = z3.simplify(k, som=True)
        q, r = [], []
        for t in (s.children() if z3.is_add(s) else [s]):
            f = t.children() if z3.is_mul(t) else [t]
            v = conc(f[0])
            if isinstance(v, int) and v % c == 0:
                p = z3.IntVal(v // c)
                for x in f[1:]:
                    p = p * x
                q.append(p)
            else:
                r.append(t)
        if q:
            Rr = z3.Sum(*r) if len(r) > 1 else (r[0] if r else z3.IntVal(0))
            if it.entails(z3.And(Rr >= 0, Rr < n)):
                return z3.simplify(z3.Sum(*q) if len(q) > 1 else q[0]), z3.simplify(Rr)
        return k / n, k % n
    s = z3.simplify(k, som=True)
    # k = q*n + r with provable 0 <= r < n
    if z3.is_add(s):
        terms = s.children()
    else:
        terms = [s]
    q, r = [], []
    for t in terms:
        f = t.children() if z3.is_mul(t) else [t]
        hit = next((x for x in f if x.eq(n)), None)
        if hit is not None:
            rest = list(f)
            rest.remove(hit)
            p = z3.IntVal(1)
            for x in rest:
                p = p * x
            q.append(p)
        else:
            r.append(t)
    Q = z3.Sum(*q) if len(q) > 1 else (q[0] if q else z3.IntVal(0))
    Rr = z3.Sum(*r) if len(r) > 1 else (r[0] if r else z3.IntVal(0))
    if it.entails(z3.And(Rr >= 0, Rr < n)):
        return z3.simplify(Q), z3.simplify(Rr)
    a, b = DIV(k, n), MOD(k, n)
    it.ctx.assume(z3.Implies(n > 0, z3.And(k == n * a + b, b >= 0, b < n)))
    return a, b


def cmp_op(t, a, b):
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        raise Unsupported('symbolic string comparison')
    pn = (int, Fraction, float, bool)
    if isinstance(a, pn) and isinstance(b, pn):
        import operator as o
        return {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[t](a, b)
    x, y = num(a), num(b)
    if z3.is_bool(x) and z3.is_bool(y):
        if t is ast.Eq:
            return x == y
        if t is ast.NotEq:
            return x != y
        x, y = integer(x), integer(y)
    x, y = pair(num_arith(x), num_arith(y))
    return {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
            ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[t]()


from .pynp import *          # noqa: E402  (array, list and builtin models; needs the names above)
from .pyv import _fresh_idx  # noqa: E402
