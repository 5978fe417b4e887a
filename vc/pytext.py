"""Text files as a sequence of lines, lines as a sequence of tokens: contents are uninterpreted.

src: prefix of the uninterpreted functions: NT(i) tokens in line i, FLT(i,k) / INT(i,k) value of token k, HAS_c(i): the upper-case
line contains c, THAS_c(i,k): the upper-case token does."""
import z3
from .core import *
from .pyv import *
from .py import Prim, Raised
from fractions import Fraction


class Src:
    def __init__(self, name):
        self.name = name
        self.NT = z3.Function(name + '.NT', IntS, IntS)
        self.FLT = z3.Function(name + '.FLT', IntS, IntS, RealS)
        self.INT = z3.Function(name + '.INT', IntS, IntS, IntS)
        self.STR = z3.Function(name + '.STR', IntS, IntS, RealS)           # value without a trailing comma
        self.COMMA = z3.Function(name + '.COMMA', IntS, IntS, BoolS)
        self.NC = z3.Function(name + '.NC', IntS, IntS)                     # comma-separated pieces of a line
        self.PNT = z3.Function(name + '.PNT', IntS, IntS, IntS)
        self.PFLT = z3.Function(name + '.PFLT', IntS, IntS, IntS, RealS)

    def has(self, content):
        return z3.Function('%s.HAS<%s>' % (self.name, content), IntS, BoolS)

    def hasc(self, content):
        """contains, upper and lower case distinguished"""
        return z3.Function('%s.HASC<%s>' % (self.name, content), IntS, BoolS)

    def thas(self, content):
        return z3.Function('%s.THAS<%s>' % (self.name, content), IntS, IntS, BoolS)

    def phas(self, content):
        return z3.Function('%s.PHAS<%s>' % (self.name, content), IntS, IntS, BoolS)

    def piece(self, i, c):
        s = self
        h = {'strip': _self, 'upper': lambda it, o: Prim(lambda it, a, k: Obj('upiece', dict(o.f), dict(contains=lambda it, o, x: s.phas(x)(o.f['i'], o.f['c'])))),
             'split': lambda it, o: Prim(lambda it, a, k: _nosep(a, k) or PList(SSeq(s.PNT(o.f['i'], o.f['c']), lambda q: Obj('ptoken', dict(i=o.f['i'], c=o.f['c'], k=num(q)), PTOK(s)))))}
        return Obj('piece', dict(i=num(i), c=num(c)), h)

    def tok(self, i, k):
        return Obj('token', dict(i=num(i), k=num(k)), TOK(self))

    def line(self, i):
        return Obj('line', dict(i=num(i)), LINE(self))

    def lines(self, lo, n):
        return SSeq(n, lambda k: self.line(num(lo) + num(k)))


def _strip0(it, o):
    def f(it, a, k):
        if a or k:
            raise Unsupported('strip')
        return o
    return Prim(f)


def _self(it, o):
    return Prim(lambda it, a, k: o)


_cache = {}


def _nosep(a, k):
    if a or k:
        raise Unsupported('split at a separator')


def PTOK(s):
    return {'strip': _self, 'float': lambda it, o: s.PFLT(o.f['i'], o.f['c'], o.f['k'])}


def _tokitem(s):
    def f(it, o, key):
        if isinstance(key, slice):
            if key.start is None and conc(key.stop) == -1 and key.step is None:
                it.check('drops a comma', s.COMMA(o.f['i'], o.f['k']), 'safety')
                return Obj('stripped', dict(o.f), {'strip': _self, 'float': lambda it, o: s.STR(o.f['i'], o.f['k'])})
        elif conc(key) == -1:
            return Obj('char', dict(o.f), {'eq': lambda it, o, x: s.COMMA(o.f['i'], o.f['k']) if x == ',' else _uns()})
        raise Unsupported('part of a token')
    return f


def _uns():
    raise Unsupported('character test')


def _rstrip(s):
    def g(it, o):
        def f(it, a, k):
            if list(a) != [',']:
                raise Unsupported('strip')
            return Obj('stripped', dict(o.f), {'strip': _self, 'float': lambda it, o: s.STR(o.f['i'], o.f['k'])})
        return Prim(f)
    return g


def TOK(s):
    if ('t', s.name) not in _cache:
        h = {'int': lambda it, o: s.INT(o.f['i'], o.f['k']), 'float': lambda it, o: s.FLT(o.f['i'], o.f['k']), 'strip': _strip0, 'rstrip': _rstrip(s), 'getitem': _tokitem(s), 'upper': lambda it, o: Prim(lambda it, a, k: Obj('utoken', dict(o.f), dict(contains=lambda it, o, x: s.thas(x)(o.f['i'], o.f['k']))))}
        _cache['t', s.name] = h
    return _cache['t', s.name]


def LINE(s):
    if ('l', s.name) not in _cache:
        def split(it, o):
            def f(it, a, k):
                i = o.f['i']
                if list(a) == [','] and not k:
                    return PList(SSeq(s.NC(i), lambda q: s.piece(i, q)))
                _nosep(a, k)
                return PList(SSeq(s.NT(i), lambda q: s.tok(i, q)))
            return Prim(f)
        h = {'strip': _self, 'split': split, 'contains': lambda it, o, x: s.hasc(x)(o.f['i']), 'upper': lambda it, o: Prim(lambda it, a, k: Obj('uline', dict(o.f), dict(contains=lambda it, o, x: s.has(x)(o.f['i']))))}
        _cache['l', s.name] = h
    return _cache['l', s.name]


def text_obj(s, lo, n):
    """a string made of n lines of the source, from line lo on; as the pieces of split('\\n')"""
    def split(it, o):
        def f(it, a, k):
            if len(a) != 1 or a[0] != '\n' or k:
                raise Unsupported('split')
            return PList(s.lines(o.f['lo'], o.f['n']))
        return Prim(f)
    return Obj('text', dict(lo=num(lo), n=num(n)), dict(split=split))


def file_obj(it, s, T):
    """an open text file of T lines"""
    f = Obj('file', dict(pos=z3.IntVal(0)))

    def readline(it, o):
        def g(it, a, k):
            p = num(o.f['pos'])
            it.check('read within the file', p < T, 'safety')
            it.setslot(o, 'pos', p + 1)
            return s.line(p)
        return Prim(g)
    f.hooks.update(iter=lambda it, o: s.lines(0, T), readline=readline,
                   readlines=lambda it, o: Prim(lambda it, a, k: PList(s.lines(0, T))))
    return f


def install(it, s, T, path):
    """open(path) and linecache.getline(path, k) read the source"""
    def op(it, p, mode='r', **k):
        it.check('the file asked for', p is path or p == path)
        if mode != 'r':
            raise Unsupported('open for ' + str(mode))
        return file_obj(it, s, T)

    def getline(it, p, n, *a):
        it.check('the file asked for', p is path or p == path)
        it.check('line inside the file', z3.And(num(n) >= 1, num(n) <= T), 'safety')
        return s.line(num(n) - 1)
    it.ext['open'] = op
    it.ext['linecache.getline'] = getline
    it.textmode = True


def located(it, s, T, content, exact=False):
    """(count, k -> 0-based index of the k-th line containing content)"""
    h = s.hasc(content) if exact else s.has(content)
    cnt, sel, _ = it.gh.count(T, lambda i: h(i))
    return cnt(T), sel


def span(it, buf):
    """(first line, number of lines) of a string built from consecutive lines; obligations that they are consecutive"""
    if isinstance(buf, Obj) and buf.cls == 'text':
        return buf.f['lo'], buf.f['n']
    v = buf.val
    if isinstance(v, list):
        raise Unsupported('text of fixed length')
    lo = v.get(z3.IntVal(0)).f['i']
    j = it.ctx.fresh('int', 'ln')
    it.check('the text consists of consecutive lines', z3.Implies(z3.And(j >= 0, j < num(v.n)), v.get(j).f['i'] == lo + j))
    return lo, num(v.n)


# ------------------------------------------------------------------ writing
# A written text is a list of pieces, one per write; a piece is a str or a Text: literal parts and (format, value) holes.
def pieces(x):
    from .py import Text
    return [x] if isinstance(x, str) else x.parts if isinstance(x, Text) else None


def out_files(it, paths=None):
    """open(path, 'w' or 'a') starts a log of the pieces written; returns {path: list}"""
    files = {}

    def op(it, p, mode='r', **k):
        if mode not in ('w', 'a', 'wt', 'at'):
            raise Unsupported('open for ' + str(mode))
        if paths is not None:
            it.check('the file asked for', any(p is q or isinstance(p, str) and p == q for q in paths))
        key = p if isinstance(p, str) else id(p)
        if key in files and mode[0] == 'a':
            out = files[key]
        else:
            out = files[key] = PList([])
        o = Obj('ofile', dict(out=out))

        def write(it, o):
            def g(it, a, k):
                from .pynp import list_method
                if pieces(a[0]) is None:
                    raise Unsupported('write of %s' % type(a[0]).__name__)
                list_method(it, o.f['out'], 'append', [a[0]], {})
                return None
            return Prim(g)
        o.hooks['write'] = write
        o.hooks['close'] = lambda it, o: Prim(lambda it, a, k: None)
        return o
    it.ext['open'] = op
    it.textmode = True
    return files


SPEC = __import__('re').compile(r'^(?:([ ]?)([<>^=]))?[ +-]?(\d*)(?:\.(\d+))?([dfFeEgs]?)$')


class Hole:
    """one formatted value: spec, value; err() bounds |printed - value|"""
    def __init__(self, spec, value):
        self.spec, self.value = spec, value
        m = SPEC.match(spec)
        if not m:
            raise Unsupported('format ' + spec)
        self.type = m.group(5)
        self.prec = int(m.group(4)) if m.group(4) is not None else None
        self.width = int(m.group(3) or 0)

    def digits(self):
        """(kind, p): 'abs' p decimals, 'rel' p significant after the first, 'exact'"""
        if self.type in ('d', 's', ''):
            return ('exact', 0) if self.prec is None else ('rel', self.prec - 1)
        if self.type in ('f', 'F'):
            return ('abs', 6 if self.prec is None else self.prec)
        if self.type in ('e', 'E'):
            return ('rel', 6 if self.prec is None else self.prec)
        return ('rel', (6 if self.prec is None else self.prec) - 1)


def lines_of(parts):
    """split literal/hole parts at newlines: list of lines, each a list of parts; last entry: what follows the last newline"""
    out, cur = [], []
    for p in parts:
        if isinstance(p, str):
            q = p.split('\n')
            for x in q[:-1]:
                if x:
                    cur.append(x)
                out.append(cur)
                cur = []
            if q[-1]:
                cur.append(q[-1])
        else:
            cur.append(p)
    return out + [cur]


def tokens(line):
    """blank-separated tokens of a line given as parts: str, Hole, or a list of both when they touch"""
    out, cur = [], []
    for p in line:
        if isinstance(p, str):
            i = 0
            while i < len(p):
                if p[i].isspace():
                    if cur:
                        out.append(cur)
                        cur = []
                    i += 1
                else:
                    j = i
                    while j < len(p) and not p[j].isspace():
                        j += 1
                    cur.append(p[i:j])
                    i = j
        else:
            cur.append(Hole(*p))
    if cur:
        out.append(cur)
    return [t[0] if len(t) == 1 else t for t in out]


def upper_literals(line):
    return ' '.join(p.upper() for p in line if isinstance(p, str))


# ------------------------------------------------------------------ what was written, as a text to be read
class Written:
    """lines of a written file: segments (first line, number of lines, i -> parts of line i of the segment)"""
    def __init__(self, it, out):
        segs, carry = [], []
        for n, get in segs_of(out.val):
            if isinstance(n, int):
                for k in range(n):
                    ls = lines_of(carry + pieces(get(z3.IntVal(k))))
                    for l in ls[:-1]:
                        segs.append((1, lambda i, l=l: l))
                    carry = ls[-1]
                continue
            q = it.ctx.fresh('int', 'w')
            ls = lines_of(pieces(get(q)))
            if carry or len(ls) != 2 or ls[-1]:
                raise Unsupported('writes that are no whole lines')
            segs.append((n, lambda i, get=get: lines_of(pieces(get(i)))[0]))
        self.unfinished = bool(carry)
        if carry:
            segs.append((1, lambda i, l=carry: l))
        self.it, self.segs = it, []
        at = z3.IntVal(0)
        for n, g in segs:
            self.segs.append((at, num(n), g))
            at = z3.simplify(at + num(n))
        self.n = at

    def parts(self, i):
        i = num(i)
        for lo, n, g in self.segs:
            if self.it.entails(z3.And(i >= lo, i < lo + n)):
                return g(i - lo)
        raise Unsupported('line of a written file')

    def having(self, content):
        """0-based positions of the lines whose upper-case text contains content (segments of symbolic length: none may)"""
        out = []
        for lo, n, g in self.segs:
            q = self.it.ctx.fresh('int', 'w')
            has = content in upper_literals(g(q))
            if has and conc(n) != 1:
                raise Unsupported('heading inside a block')
            if has:
                out.append(lo)
        return out

    def tok(self, i, k):
        return self.tokobj(tokens(self.parts(i))[k])

    def tokobj(self, t):
        it = self.it

        def val(t, what):
            if isinstance(t, str):
                try:
                    return int(t) if what == 'int' else Fraction(t)
                except ValueError:
                    raise Raised('ValueError')
            if not isinstance(t, Hole):
                it.check('numbers are separated by blanks', False)
                raise Unsupported('touching tokens')
            return printed(it, t)
        return Obj('wtoken', dict(t=t), {'int': lambda it, o: val(t, 'int'), 'float': lambda it, o: val(t, 'float'), 'strip': _self})

    def line(self, i):
        def split(it, o):
            def f(it, a, k):
                _nosep(a, k)
                return PList([self.tokobj(t) for t in tokens(self.parts(o.f['i']))])
            return Prim(f)
        return Obj('wline', dict(i=num(i)), {'split': split, 'strip': _self})

    def lines(self):
        return SSeq(self.n, lambda k: self.line(k))

    def install(self, it, path):
        def op(it, p, mode='r', **k):
            it.check('the file asked for', p == path)
            if mode != 'r':
                raise Unsupported('open for ' + str(mode))
            f = Obj('file', dict(pos=z3.IntVal(0)))

            def readline(it, o):
                def g(it, a, k):
                    p = num(o.f['pos'])
                    it.check('read within the file', p < self.n, 'safety')
                    it.setslot(o, 'pos', p + 1)
                    return self.line(p)
                return Prim(g)
            f.hooks.update(iter=lambda it, o: self.lines(), readline=readline, readlines=lambda it, o: Prim(lambda it, a, k: PList(self.lines())))
            return f
        it.ext['open'] = op


RF = z3.Function('PRINTED', IntS, RealS, RealS)


def _near(p, v):
    r = RF(p, v)
    p = p.as_long()
    if p >= 0:
        half = z3.RealVal(Fraction(1, 2 * 10 ** p))
        return z3.And(r - v <= half, v - r <= half)
    half = z3.RealVal(Fraction(1, 2 * 10 ** (-p - 1)))
    m = z3.If(v >= 0, v, -v)
    return z3.And(r - v <= half * m, v - r <= half * m)


def printed(it, h):
    """the number a formatted value denotes: within half a unit of the last digit printed"""
    v = h.value
    kd, p = h.digits()
    if kd == 'exact':
        return v
    v = real(v)
    if not any(d.eq(RF) for d, _ in it.gh.schemas):
        it.gh.schemas.append((RF, _near))
    return RF(z3.IntVal(p if kd == 'abs' else -p - 1), v)
