"""d/dx of z3 real terms (used in lemmas: 'the derivative the code reports is the derivative of the value it reports')"""
import z3
from .core import SQRT, Unsupported


def ddx(e, x):
    memo = {}

    def d(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        memo[k] = r = _d(t)
        return r

    def _d(t):
        if t.eq(x):
            return z3.RealVal(1)
        if z3.is_rational_value(t) or z3.is_int(t):
            return z3.RealVal(0)
        if not z3.is_app(t):
            raise Unsupported('cannot differentiate ' + str(t.sexpr()[:80]))
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return z3.RealVal(0)
            if t.decl().eq(SQRT):
                return d(ch[0]) / (2 * t)
            if not mentions_(t, x):
                return z3.RealVal(0)
        if k == z3.Z3_OP_SELECT and not mentions_(t, x):
            return z3.RealVal(0)
        if k == z3.Z3_OP_ADD:
            return z3.Sum([d(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            r = d(ch[0])
            for c in ch[1:]:
                r = r - d(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -d(ch[0])
        if k == z3.Z3_OP_MUL:
            tot = z3.RealVal(0)
            for i in range(len(ch)):
                if z3.is_rational_value(ch[i]):
                    continue
                p = d(ch[i])
                for j, c in enumerate(ch):
                    if j != i:
                        p = p * c
                tot = tot + p
            return tot
        if k == z3.Z3_OP_DIV:
            a, b = ch
            return (d(a) * b - a * d(b)) / (b * b)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            n = ch[1]
            return n * ch[0] ** (z3.simplify(n - 1)) * d(ch[0])
        if k == z3.Z3_OP_ITE:
            return z3.If(ch[0], d(ch[1]), d(ch[2]))
        if k == z3.Z3_OP_TO_REAL:
            return z3.RealVal(0)
        raise Unsupported('cannot differentiate ' + t.decl().name())
    return z3.simplify(d(e))


def mentions_(t, x):
    st, seen = [t], set()
    while st:
        y = st.pop()
        if y.eq(x):
            return True
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        st.extend(y.children())
    return False
