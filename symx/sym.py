"""Symbolic reals: hash-consed expression DAG with a canonical polynomial form.

Values are mathematical reals.  A `Sym` is a node of an expression DAG; the
canonical form of a node is a Laurent polynomial with rational coefficients over
atoms (variables, exp/sqrt/log/... applications keyed by the canonical form of
their arguments, inverses of non-monomial polynomials).  Comparisons give a
`SymBool`; coercing one to bool asks the path explorer (explore.py).
"""
from fractions import Fraction
import math
import numbers

import numpy as _np


class Unsupported(Exception):
    """The encoding does not cover an operation: no verdict for this harness."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


CUR = None     # current explorer (set by explore.py)


def cur():
    if CUR is None:
        raise Unsupported('symbolic branch outside of an exploration')
    return CUR


# ---------------------------------------------------------------- atoms

class Atom:
    def isint_atom(self):
        return self.kind == 'floor' or (self.kind == 'var' and bool(self.isint))

    __slots__ = ('id', 'kind', 'key', 'args', 'name', 'pos', 'nonneg', 'isint', 'node')

    def __init__(self, kind, key, args, name):
        self.kind = kind
        self.key = key
        self.args = args
        self.name = name
        self.pos = False
        self.nonneg = False
        self.isint = False
        self.node = None


class World:
    """All hash-consing tables; a fresh one per harness configuration."""

    def __init__(self):
        self.nodes = {}
        self.atoms = {}
        self.atomlist = []
        self.bools = {}
        self.linear = {}
        self.nid = 0
        self.uf_diff = {}
        self.vars = {}

    def atom(self, kind, key, args, name=None):
        k = (kind, key)
        a = self.atoms.get(k)
        if a is None:
            a = Atom(kind, key, args, name)
            a.id = len(self.atomlist)
            if a.name is None:
                a.name = '%s!%d' % (kind, a.id)
            self.atoms[k] = a
            self.atomlist.append(a)
        return a


W = World()


def reset_world():
    global W
    W = World()
    Sym._consts = {}
    _const_zero()


# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> int|Fraction ; monomial: tuple of (atom id, exponent)

def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def p_const(c):
    return {(): c} if c != 0 else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = _norm(v + c)
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: _norm(c * k) for m, c in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = _norm(x[1] + y[1])
            if e != 0:
                out.append((x[0], e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


P_LIMIT = 300000


class TooBig(Unsupported):
    pass


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > P_LIMIT * 4:
        raise TooBig('polynomial product too large')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            v = r.get(m)
            r[m] = c if v is None else v + c
    r = {m: _norm(c) for m, c in r.items() if c != 0}
    return p_reduce(r)


def p_reduce(p):
    """Rewrite powers of sqrt/abs/inv atoms: s^2 -> radicand, |p|^2 -> p^2,
    inv(q)^-1 -> q."""
    al = W.atomlist
    bad = False
    for m in p:
        for (a, e) in m:
            k = al[a].kind
            if k in ('sqrt', 'abs'):
                if e != 1:
                    bad = True
                    break
            elif k == 'inv':
                if e < 0:
                    bad = True
                    break
        if bad:
            break
    if not bad:
        return p
    out = {}
    for m, c in p.items():
        fac = {(): c}
        rest = []
        for (a, e) in m:
            at = al[a]
            if at.kind in ('sqrt', 'abs') and e != 1:
                q, r = divmod(e, 2)
                base = at.args[0] if at.kind == 'sqrt' else p_mul(at.args[0], at.args[0])
                if q > 0:
                    fac = p_mul(fac, p_pow(base, q))
                elif q < 0:
                    fac = p_mul(fac, p_pow(p_inv(base), -q))
                if r:
                    rest.append((a, 1))
            elif at.kind == 'inv' and e < 0:
                fac = p_mul(fac, p_pow(at.args[0], -e))
            else:
                rest.append((a, e))
        out = p_add(out, p_mul({tuple(rest): 1}, fac))
    return out


def p_pow(p, n):
    if n < 0:
        return p_pow(p_inv(p), -n)
    r = {(): 1}
    b = p
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_constval(p):
    return p.get((), 0)


def p_content(p):
    """Leading coefficient, for normalisation up to scale."""
    return p[min(p)]


def p_inv(p):
    if not p:
        raise ZeroDivisionError('symbolic inverse of zero')
    if len(p) == 1:
        (m, c), = p.items()
        return p_reduce({tuple((a, -e) for a, e in m): _norm(Fraction(1) / c)})
    lead = p_content(p)
    q = p_scale(p, Fraction(1) / lead)
    # factor out the monomial gcd
    common = None
    for m in q:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items() if a in d or e < 0}
            common = {a: e for a, e in common.items()}
    # only strip atoms present (with positive min exponent) in all, or negative anywhere
    neg = {}
    for m in q:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    strip = dict(neg)
    if common:
        for a, e in common.items():
            if e > 0 and a not in strip and all(dict(m).get(a, 0) > 0 for m in q):
                strip[a] = min(dict(m).get(a, 0) for m in q)
    al = W.atomlist
    strip = {a: e for a, e in strip.items() if al[a].kind not in ('sqrt', 'abs')}
    sm = ()
    if strip:
        sm = tuple(sorted(strip.items()))
        ism = tuple((a, -e) for a, e in sm)
        q = {m_mul(m, ism): c for m, c in q.items()}
        lead2 = p_content(q)
        if lead2 != 1:
            q = p_scale(q, Fraction(1) / lead2)
            lead = lead * lead2
    at = W.atom('inv', p_key(q), (q,))
    m = m_mul(((at.id, 1),), tuple((a, -e) for a, e in sm))
    return p_reduce({m: _norm(Fraction(1) / lead)})


def p_atoms(p, out=None):
    out = set() if out is None else out
    for m in p:
        for a, _ in m:
            out.add(a)
    return out


def p_clear(p):
    """Multiply by a product of powers of (nonzero) atoms/denominators so that the
    result has no inverse atoms and no negative exponents; the result is zero
    iff p is (on the domain where the denominators are nonzero)."""
    al = W.atomlist
    for _ in range(200):
        low = {}
        invs = {}
        for m in p:
            for a, e in m:
                if al[a].kind == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
                elif e < 0:
                    low[a] = min(low.get(a, 0), e)
        if not low and not invs:
            return p
        if low:
            mul = tuple(sorted((a, -e) for a, e in low.items()))
            p = p_reduce({m_mul(m, mul): c for m, c in p.items()})
            continue
        # clear the inverse atom with the largest id first (innermost last)
        a = max(invs)
        n = invs[a]
        q = al[a].args[0]
        out = {}
        for m, c in p.items():
            e = 0
            rest = []
            for x in m:
                if x[0] == a:
                    e = x[1]
                else:
                    rest.append(x)
            out = p_add(out, p_mul({tuple(rest): c}, p_pow(q, n - e)))
        p = out
    raise Unsupported('denominator clearing did not terminate')


# ---------------------------------------------------------------- floats -> reals

def to_rat(x):
    """The intended real of a concrete number: floats with a short decimal
    expansion mean that decimal; others are taken exactly."""
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, (_np.bool_,)):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('non-finite constant %r' % x)
        if x == int(x) and abs(x) < 2 ** 53:
            return int(x)
        return _norm(Fraction(repr(x)))
    raise Unsupported('constant of type %s' % type(x).__name__)


# ---------------------------------------------------------------- nodes

class Sym:
    __slots__ = ('op', 'args', 'c', 'id', '_poly', 'isint', '__weakref__')
    _consts = {}

    def __init__(self, op, args, c=None):
        self.op = op
        self.args = args
        self.c = c
        self._poly = None
        self.isint = False
        W.nid += 1
        self.id = W.nid

    # ---- construction
    @staticmethod
    def const(c):
        c = to_rat(c)
        k = Sym._consts.get(c)
        if k is None:
            k = Sym('const', (), c)
            k.isint = isinstance(c, int)
            Sym._consts[c] = k
        return k

    @staticmethod
    def mk(op, *args):
        key = (op,) + tuple(a.id if isinstance(a, (Sym, SymBool)) else a for a in args)
        n = W.nodes.get(key)
        if n is None:
            n = Sym(op, args)
            W.nodes[key] = n
        return n

    @staticmethod
    def var(name, pos=False, nonneg=False, isint=False):
        at = W.atom('var', name, (), name)
        if at.node is None:
            at.pos, at.nonneg, at.isint = pos, nonneg or pos, isint
            n = Sym('var', (at,))
            n.isint = isint
            at.node = n
            W.vars[name] = n
        return at.node

    @property
    def poly(self):
        p = self._poly
        if p is None:
            p = _poly(self)
        return p

    # ---- numeric protocol
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.c is not None:
            if o.c is not None:
                return Sym.const(self.c + o.c)
            if self.c == 0:
                return o
        elif o.c is not None and o.c == 0:
            return self
        if self is NAN or o is NAN:
            return NAN
        r = Sym.mk('add', self, o) if self.id <= o.id else Sym.mk('add', o, self)
        r.isint = self.isint and o.isint
        return r
    __radd__ = __add__

    def __neg__(self):
        if self.c is not None:
            return Sym.const(-self.c)
        return self * -1

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if o is self and self is not NAN:
            return ZERO()
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self is NAN or o is NAN:
            return NAN
        a, b = self, o
        if a.c is not None:
            if b.c is not None:
                return Sym.const(a.c * b.c)
            a, b = b, a
        if b.c is not None:
            if b.c == 0:
                return ZERO()
            if b.c == 1:
                return a
            if a.op == 'mul' and a.args[1].c is not None:
                return a.args[0] * Sym.const(_norm(a.args[1].c * b.c))
            r = Sym.mk('mul', a, b)
            r.isint = a.isint and b.isint
            return r
        if a.id > b.id:
            a, b = b, a
        r = Sym.mk('mul', a, b)
        r.isint = a.isint and b.isint
        return r
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return floor(div(self, o))

    def __rfloordiv__(self, o):
        return floor(div(lift(o), self))

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self - o * floor(div(self, o))

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rdivmod__(self, o):
        return divmod(lift(o), self)

    def __pow__(self, n, mod=None):
        n = lift(n)
        if n is None:
            return NotImplemented
        if n.c is not None:
            c = n.c
            if isinstance(c, int):
                return ipow(self, c)
            if c.denominator == 2:
                s = sqrt(self)
                return ipow(s, c.numerator)
            if self.c is not None or True:
                return exp(n * log(self))
        return exp(n * log(self))

    def __rpow__(self, b):
        return lift(b) ** self

    def __abs__(self):
        return sabs(self)

    # ---- numpy object-array hooks
    def sqrt(self): return sqrt(self)
    def exp(self): return exp(self)
    def log(self): return log(self)
    def log1p(self): return log(self + 1)
    def expm1(self): return exp(self) - 1
    def log2(self): return log(self) / log(Sym.const(2))
    def log10(self): return log(self) / log(Sym.const(10))
    def exp2(self): return exp(self * log(Sym.const(2)))
    def sin(self): return trig('sin', self)
    def cos(self): return trig('cos', self)
    def tan(self): return trig('sin', self) / trig('cos', self)
    def fabs(self): return sabs(self)
    def absolute(self): return sabs(self)
    def square(self): return self * self
    def floor(self): return floor(self)
    def ceil(self): return -floor(-self)
    def rint(self): return rint(self)
    def trunc(self): return trunc(self)
    def conjugate(self): return self
    def conj(self): return self
    def tanh(self):
        e = exp(2 * self)
        return (e - 1) / (e + 1)
    def __floor__(self): return floor(self)
    def __ceil__(self): return -floor(-self)
    def __trunc__(self): return trunc(self)
    def __round__(self, nd=None):
        if self.c is not None:
            return Sym.const(round(Fraction(self.c), nd)) if nd else Sym.const(round(Fraction(self.c)))
        if nd:
            k = 10 ** nd
            return rint(self * k) / k
        return rint(self)

    @property
    def real(self): return self
    @property
    def imag(self): return ZERO()
    @property
    def T(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self):
        return _np.dtype('int64') if self.isint else _np.dtype('float64')

    def item(self, *a): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self):
        return (_unpickle_sym, (self.id,), None)
    def astype(self, dt, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def any(self, *a, **k): return self != 0
    def all(self, *a, **k): return self != 0
    def dot(self, o): return self * o
    def tolist(self): return self
    def ravel(self, *a):
        r = _np.empty(1, dtype=object)
        r[0] = self
        return _varr(r)
    flatten = ravel
    def reshape(self, *s):
        return self.ravel().reshape(*s)
    def view(self, *a): return self
    def is_integer(self):
        return self == floor(self)

    # ---- comparisons
    def __lt__(self, o): return cmp('lt', self, o)
    def __le__(self, o): return cmp('le', self, o)
    def __gt__(self, o): return cmp('lt', o, self)
    def __ge__(self, o): return cmp('le', o, self)
    def __eq__(self, o):
        if o is self and self is not NAN:
            return True
        return cmp('eq', self, o)
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)
    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        return hash(self.id)

    # ---- coercions
    def __bool__(self):
        if self.c is not None:
            return self.c != 0
        return bool(self != 0)

    def __index__(self):
        return concretize(self, strict=True)

    def __int__(self):
        return concretize(trunc(self))

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        p = self.poly
        if p_isconst(p):
            return float(p_constval(p))
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        return 'Sym(%s)' % show(self)

    def __str__(self):
        return show(self)

    def __format__(self, spec):
        return show(self)


def _unpickle_sym(i):
    for n in list(W.nodes.values()):
        if n.id == i:
            return n
    for n in list(Sym._consts.values()):
        if n.id == i:
            return n
    for n in W.vars.values():
        if n.id == i:
            return n
    raise Unsupported('unpickle')


def _const_zero():
    global _Z, _ONE, NAN
    _Z = Sym.const(0)
    _ONE = Sym.const(1)
    NAN = Sym('nan', ())


def ZERO():
    return _Z


def ONE():
    return _ONE


_varr = lambda a: a       # set by fnp


def lift(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, (int, float, Fraction, _np.number, _np.bool_)):
        if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
            if o != o:
                return NAN
            return PINF if o > 0 else MINF
        return Sym.const(o)
    if isinstance(o, SymBool):
        return ite(o, ONE(), ZERO())
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return lift(o[()])
    return None


class _Inf(Sym):
    """Symbolic infinity: only usable as a bound in comparisons/returns."""
    def __init__(self, s):
        self.op = 'inf'
        self.args = (s,)
        self.c = None
        self._poly = None
        self.isint = False
        self.id = -1 if s > 0 else -2
        self.s = s
    __slots__ = ('s',)
    def __add__(self, o): return self
    __radd__ = __add__
    def __neg__(self): return MINF if self.s > 0 else PINF
    def __sub__(self, o): return self
    def __rsub__(self, o): return -self
    def __mul__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        if bool(l > 0):
            return self
        if bool(l < 0):
            return -self
        return NAN
    __rmul__ = __mul__
    def __float__(self): return math.inf * self.s
    def __eq__(self, o): return o is self or (isinstance(o, float) and o == math.inf * self.s)
    def __ne__(self, o): return not self.__eq__(o)
    def __lt__(self, o): return False if (o is self or self.s > 0) else True
    def __le__(self, o): return True if o is self else self.s < 0
    def __gt__(self, o): return False if (o is self or self.s < 0) else True
    def __ge__(self, o): return True if o is self else self.s > 0
    def __hash__(self): return self.s
    def __bool__(self): return True
    def __repr__(self): return 'inf' if self.s > 0 else '-inf'


PINF = _Inf(1)
MINF = _Inf(-1)


def ipow(x, n):
    if n == 0:
        return ONE()
    if x.c is not None:
        if n < 0:
            return Sym.const(_norm(Fraction(1) / Fraction(x.c) ** (-n)))
        return Sym.const(x.c ** n)
    if n == 1:
        return x
    if n == 2:
        return x * x
    if n < 0:
        return div(ONE(), ipow(x, -n))
    r = Sym.mk('pow', x, n)
    r.isint = x.isint
    return r


def div(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(b, _Inf):
        return ZERO()
    if isinstance(a, _Inf):
        return a
    if b.c is not None:
        if b.c == 0:
            return NAN
        return a * Sym.const(_norm(Fraction(1) / b.c))
    p = b.poly
    if p_isconst(p):
        v = p_constval(p)
        return NAN if v == 0 else a * Sym.const(_norm(Fraction(1) / v))
    if not _known_nonzero(b):
        if bool(b == 0):
            return NAN
    if a.c is not None and a.c == 0:
        return ZERO()
    return Sym.mk('div', a, b)


def _known_nonzero(b):
    p = b.poly
    if len(p) == 1:
        (m, _), = p.items()
        al = W.atomlist
        return all(al[a].pos or al[a].kind in ('exp', 'inv') for a, _ in m)
    if p_sign(p) is not None:
        al = W.atomlist       # every monomial of one sign, one of them strictly
        return any(all(al[a].pos or al[a].kind == 'exp' for a, _ in m) for m in p)
    return False


def _m_nonneg(m):
    al = W.atomlist
    for a, e in m:
        at = al[a]
        if at.pos or at.nonneg or at.kind in ('exp', 'sqrt', 'abs'):
            continue
        if isinstance(e, int) and e % 2 == 0:
            continue
        return False
    return True


def p_sign(p):
    """'+' if obviously > 0 or >= 0 for every monomial, '-' likewise, else None."""
    s = None
    for m, c in p.items():
        if not _m_nonneg(m):
            return None
        t = '+' if c > 0 else '-'
        if s is None:
            s = t
        elif s != t:
            return None
    return s


def p_clipped(p):
    """p = f(|r| +- r) with f >= 0, the normal form of a value clipped at zero"""
    al = W.atomlist
    cand = {a for m in p for a, e in m if e == 1 and al[a].kind == 'abs'}
    for a in cand:
        f, rest = {}, {}
        for m, c in p.items():
            if any(x == a for x, _ in m):
                f[tuple((x, e) for x, e in m if x != a)] = c
            else:
                rest[m] = c
        if p_sign(f) != '+':
            continue
        fr = p_mul(f, al[a].args[0])
        if fr == rest or fr == {m: -c for m, c in rest.items()}:
            return True
    return False


def sqrt(x):
    x = lift(x)
    if x is NAN:
        return NAN
    if isinstance(x, _Inf):
        return x
    p = x.poly
    if p_isconst(p):
        c = Fraction(p_constval(p))
        if c < 0:
            return NAN
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Sym.const(_norm(Fraction(a, b)))
        return Sym.mk('sqrt', x)
    if p_sign(p) != '+' and not p_clipped(p):
        if bool(x < 0):
            return NAN
    return Sym.mk('sqrt', x)


def exp(x):
    x = lift(x)
    if x is NAN:
        return NAN
    if isinstance(x, _Inf):
        return x if x.s > 0 else ZERO()
    p = x.poly
    if not p:
        return ONE()
    return Sym.mk('exp', x)


def log(x):
    x = lift(x)
    if x is NAN:
        return NAN
    if isinstance(x, _Inf):
        return x if x.s > 0 else NAN
    p = x.poly
    if p == {(): 1}:
        return ZERO()
    if p_isconst(p):
        c = p_constval(p)
        if c < 0:
            return NAN
        if c == 0:
            return MINF
    elif not (p_sign(p) == '+' and _known_nonzero(x)):
        if bool(x <= 0):
            return NAN if not bool(x == 0) else MINF
    return Sym.mk('log', x)


def trig(k, x):
    x = lift(x)
    if x is NAN:
        return NAN
    if not x.poly:
        return ZERO() if k == 'sin' else ONE()
    return Sym.mk(k, x)


def sabs(x):
    if x is NAN:
        return NAN
    if isinstance(x, _Inf):
        return PINF
    if x.c is not None:
        return Sym.const(abs(x.c))
    s = p_sign(x.poly)
    if s == '+':
        return x
    if s == '-':
        return -x
    if not x.poly:
        return ZERO()
    if CUR is not None and getattr(CUR, 'fork_ite', False):
        return x if bool(x >= 0) else -x
    r = Sym.mk('abs', x)
    r.isint = x.isint
    return r


def floor(x):
    if x is NAN:
        return NAN
    if isinstance(x, _Inf):
        return x
    if x.c is not None:
        return Sym.const(math.floor(x.c))
    if x.isint:
        return x
    p = x.poly
    if p_isconst(p):
        return Sym.const(math.floor(p_constval(p)))
    if len(p) <= 6:
        # integer parts come out, and the argument is rebuilt from its canonical form
        al = W.atomlist
        ip, fp = {}, {}
        for m, c in p.items():
            i = isinstance(c, int) and all(al[a].isint_atom() and isinstance(e, int) and e > 0 for a, e in m)
            (ip if i else fp)[m] = c
        if not fp:
            r = _node_of_poly(ip)
            r.isint = True
            return r
        if all(al[a].kind != 'ite' for m in fp for a, _ in m):
            r = Sym.mk('floor', _node_of_poly(fp))
            r.isint = True
            if CUR is not None and getattr(CUR, 'floor_split', False):
                r = Sym.const(CUR.choose_int(r))
            if ip:
                r = r + _node_of_poly(ip)
                r.isint = True
            return r
    r = Sym.mk('floor', x)
    r.isint = True
    if CUR is not None and getattr(CUR, 'floor_split', False):
        r = Sym.const(CUR.choose_int(r))
    return r


def trunc(x):
    if x.c is not None:
        return Sym.const(math.trunc(x.c))
    if x.isint:
        return x
    return ite(x >= 0, floor(x), -floor(-x))


def rint(x):
    if x.c is not None:
        return Sym.const(round(Fraction(x.c)))
    if x.isint:
        return x
    f = floor(x + Fraction(1, 2))
    h = floor(x) - x == Fraction(-1, 2)
    return ite(h, 2 * floor((f) / 2), f)


def uf(name, *args):
    """Uninterpreted function application (congruent by canonical argument)."""
    args = [lift(a) for a in args]
    if any(a is NAN for a in args):
        return NAN
    return Sym.mk('uf', name, *args)


def ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if a.c is not None and b.c is not None and a.c == b.c:
        return a
    if CUR is not None and getattr(CUR, 'fork_ite', False):
        return a if bool(c) else b
    if isinstance(a, _Inf) or isinstance(b, _Inf) or a is NAN or b is NAN:
        return a if bool(c) else b
    r = Sym.mk('ite', c, a, b)
    r.isint = a.isint and b.isint
    return r


def smin(a, b):
    a, b = lift(a), lift(b)
    return ite(a <= b, a, b)


def smax(a, b):
    a, b = lift(a), lift(b)
    return ite(a >= b, a, b)


# ---------------------------------------------------------------- booleans

class SymBool:
    __slots__ = ('op', 'args', 'id')

    def __init__(self, op, args):
        self.op, self.args = op, args
        W.nid += 1
        self.id = W.nid

    @staticmethod
    def mk(op, *args):
        key = (op,) + tuple(a.id if isinstance(a, (Sym, SymBool)) else a for a in args)
        n = W.bools.get(key)
        if n is None:
            n = SymBool(op, args)
            W.bools[key] = n
        return n

    def __bool__(self):
        return cur().decide(self)

    def __and__(self, o): return band(self, o)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o)
    __ror__ = __or__
    def __xor__(self, o): return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__
    def __invert__(self): return bnot(self)
    def logical_not(self): return bnot(self)
    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else bnot(self)
        if isinstance(o, SymBool):
            if o is self:
                return True
            return bnot(self ^ o)
        return lift(self) == o
    def __ne__(self, o): return bnot(self == o)
    def __hash__(self): return hash(self.id)
    def __add__(self, o): return lift(self) + o
    __radd__ = __add__
    def __mul__(self, o): return lift(self) * o
    __rmul__ = __mul__
    def __sub__(self, o): return lift(self) - o
    def __rsub__(self, o): return lift(o) - lift(self)
    def __neg__(self): return -lift(self)
    def __lt__(self, o): return lift(self) < o
    def __le__(self, o): return lift(self) <= o
    def __gt__(self, o): return lift(self) > o
    def __ge__(self, o): return lift(self) >= o
    def __int__(self): return 1 if bool(self) else 0
    __index__ = __int__
    def __float__(self): return 1.0 if bool(self) else 0.0
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def astype(self, dt, **k): return lift(self)
    def item(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def __repr__(self): return 'SymBool(%s)' % bshow(self)
    __str__ = __repr__


def cmp(op, a, b):
    a, b = lift(a), lift(b)
    if a is None or b is None:
        if op == 'eq':
            return False
        return NotImplemented
    if a is NAN or b is NAN:
        return False
    if isinstance(a, _Inf) or isinstance(b, _Inf):
        va = a.s if isinstance(a, _Inf) else 0
        vb = b.s if isinstance(b, _Inf) else 0
        return {'lt': va < vb, 'le': va <= vb, 'eq': va == vb}[op]
    if a.c is not None and b.c is not None:
        return {'lt': a.c < b.c, 'le': a.c <= b.c, 'eq': a.c == b.c}[op]
    if a is b:
        return op != 'lt'
    d = (a - b)
    p = d.poly
    if p_isconst(p):
        v = p_constval(p)
        return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op]
    # trivially decidable by exponentials etc. is left to the solver
    if len(p) <= 8:
        q = _simple_sign(p)
        if q is not None:
            return SymBool.mk(op, *q)
    return SymBool.mk(op, a, b)


def _simple_sign(p):
    """(l, r) with l - r having the sign of p: common powers of positive atoms
    are divided out; None when other negative powers remain."""
    al = W.atomlist
    low = {}
    first = True
    for m in p:
        d = dict(m)
        for a in set(low) | set(d):
            if al[a].pos or al[a].kind == 'exp':
                if first:
                    low[a] = d.get(a, 0)
                else:
                    low[a] = min(low.get(a, 0), d.get(a, 0))
        first = False
    pos, neg = {}, {}
    for m, c in p.items():
        d = dict(m)
        for a, e in low.items():
            if e:
                d[a] = d.get(a, 0) - e
        mm = []
        for a in sorted(d):
            e = d[a]
            if e == 0:
                continue
            if not isinstance(e, int) and e.denominator == 1:
                e = int(e)
            if e < 0 or not isinstance(e, int):
                return None
            if al[a].kind in ('ite', 'nan'):
                return None
            mm.append((a, e))
        if sum(e for _, e in mm) > 2:
            return None
        (pos if c > 0 else neg)[tuple(mm)] = abs(c)
    return _node_of_poly(pos), _node_of_poly(neg)


def is_linear(b):
    """a Boolean combination of linear comparisons over plain variables"""
    v = W.linear.get(b.id)
    if v is None:
        if b.op in ('lt', 'le', 'eq'):
            v = _lin(b.args[0]) and _lin(b.args[1])
        elif b.op in ('not', 'and', 'or'):
            v = all(is_linear(a) for a in b.args)
        else:
            v = False
        W.linear[b.id] = v
    return v


def _lin(n):
    al = W.atomlist
    p = n.poly
    if len(p) > 12:
        return False
    for m in p:
        if len(m) > 1:
            return False
        for a, e in m:
            at = al[a]
            if e != 1 or at.kind not in ('var', 'floor'):
                return False
            if at.kind == 'floor' and not all(len(q) <= 1 and all(al[c].kind == 'var' and f == 1 for c, f in q)
                                              for q in at.args[0]):
                return False
    return True


def bnot(x):
    if isinstance(x, (bool, _np.bool_)):
        return not x
    if x.op == 'not':
        return x.args[0]
    return SymBool.mk('not', x)


def band(a, b):
    if isinstance(a, (bool, _np.bool_)):
        return b if a else False
    if isinstance(b, (bool, _np.bool_)):
        return a if b else False
    if a is b:
        return a
    return SymBool.mk('and', a, b)


def bor(a, b):
    if isinstance(a, (bool, _np.bool_)):
        return True if a else b
    if isinstance(b, (bool, _np.bool_)):
        return True if b else a
    if a is b:
        return a
    return SymBool.mk('or', a, b)


def concretize(x, strict=False):
    """An integer value of x, forking over all feasible ones."""
    if x.c is not None:
        if isinstance(x.c, int):
            return x.c
        if strict:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return math.trunc(x.c)
    p = x.poly
    if p_isconst(p):
        v = p_constval(p)
        return int(v) if isinstance(v, int) else math.trunc(v)
    if strict and not x.isint:
        raise TypeError("'float' object cannot be interpreted as an integer")
    return cur().choose_int(x)


# ---------------------------------------------------------------- canonical form

def _poly(root):
    stack = [root]
    while stack:
        n = stack[-1]
        if n._poly is not None:
            stack.pop()
            continue
        todo = [a for a in n.args if isinstance(a, Sym) and a._poly is None]
        if todo:
            stack.extend(todo)
            continue
        n._poly = _poly1(n)
        if len(n._poly) > P_LIMIT:
            raise TooBig('polynomial with %d terms' % len(n._poly))
        stack.pop()
    return root._poly


def _poly1(n):
    op = n.op
    if op == 'const':
        return p_const(n.c)
    if op == 'var':
        return {((n.args[0].id, 1),): 1}
    if op == 'add':
        return p_add(n.args[0]._poly, n.args[1]._poly)
    if op == 'mul':
        if n.args[1].c is not None:
            return p_scale(n.args[0]._poly, n.args[1].c)
        return p_mul(n.args[0]._poly, n.args[1]._poly)
    if op == 'pow':
        return p_pow(n.args[0]._poly, n.args[1])
    if op == 'div':
        return p_mul(n.args[0]._poly, p_inv(n.args[1]._poly))
    if op == 'exp':
        return _p_exp(n.args[0]._poly)
    if op == 'sqrt':
        return _p_sqrt(n.args[0]._poly)
    if op == 'abs':
        p = n.args[0]._poly
        if p_isconst(p):
            return p_const(abs(p_constval(p)))
        if len(p) == 1:
            (m, c), = p.items()
            return _abs_mono(m, abs(c))
        lead = p_content(p)
        q = p_scale(p, Fraction(1) / lead)
        at = W.atom('abs', p_key(q), (q,))
        at.nonneg = True
        return {((at.id, 1),): abs(lead)}
    if op == 'log':
        return _p_log(n.args[0]._poly)
    if op in ('sin', 'cos'):
        p = n.args[0]._poly
        if not p:
            return {} if op == 'sin' else {(): 1}
        sg = 1
        if p_content(p) < 0:
            p = p_scale(p, -1)
            sg = -1 if op == 'sin' else 1
        at = W.atom(op, p_key(p), (p,))
        return {((at.id, 1),): sg}
    if op == 'floor':
        p = n.args[0]._poly
        if p_isconst(p):
            return p_const(math.floor(p_constval(p)))
        at = W.atom('floor', p_key(p), (p,))
        at.isint = True
        return {((at.id, 1),): 1}
    if op == 'uf':
        ks = tuple(p_key(a._poly) for a in n.args[1:])
        at = W.atom('uf', (n.args[0],) + ks, (n.args[0],) + tuple(a._poly for a in n.args[1:]))
        return {((at.id, 1),): 1}
    if op == 'ite':
        c, a, b = n.args
        pa, pb = a.poly, b.poly
        if pa == pb:
            return pa
        sw = False
        while c.op == 'not':
            c = c.args[0]
            sw = not sw
        key = None
        if c.op in ('lt', 'le'):
            p = (c.args[0] - c.args[1]).poly
            if p and not p_isconst(p):
                qa, qb = (pb, pa) if sw else (pa, pb)
                d = p_add(qa, p_scale(qb, -1))
                k = _ratio(d, p)
                if k is not None:
                    # a = b + k p where p < 0: b + k min(p, 0)
                    lead = p_content(p)
                    q = p_scale(p, Fraction(1) / lead)
                    at = W.atom('abs', p_key(q), (q,))
                    at.nonneg = True
                    ab = {((at.id, 1),): abs(lead)}
                    return p_add(qb, p_scale(p_add(p, p_scale(ab, -1)), Fraction(k) / 2))
                lead = p_content(p)
                q = p_scale(p, Fraction(1) / lead)
                o = c.op
                if lead < 0:        # p < 0  <=>  q > 0  <=>  not q <= 0
                    o = 'le' if o == 'lt' else 'lt'
                    qa, qb = qb, qa
                key = (o, p_key(q), p_key(qa), p_key(qb))
        at = W.atom('ite', key or n.id, n.args)
        return {((at.id, 1),): 1}
    if op == 'nan':
        at = W.atom('nan', n.id, ())
        return {((at.id, 1),): 1}
    raise Unsupported('canonical form of %s' % op)


def _ratio(d, p):
    """k with d = k p, or None"""
    if len(d) != len(p):
        return None
    k = None
    for m, c in d.items():
        e = p.get(m)
        if e is None:
            return None
        r = Fraction(c) / Fraction(e)
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def _abs_mono(m, c):
    """|c * m| split into atoms."""
    out = {(): c}
    al = W.atomlist
    for a, e in m:
        at = al[a]
        if at.pos or at.nonneg or at.kind in ('exp', 'sqrt', 'abs') or (isinstance(e, int) and e % 2 == 0):
            out = p_mul(out, {((a, e),): 1})
        else:
            base = {((a, 1),): 1}
            ab = W.atom('abs', p_key(base), (base,))
            ab.nonneg = True
            if e > 0:
                out = p_mul(out, p_pow({((ab.id, 1),): 1}, e))
            else:
                # |x|^-e, odd: |x| * x^(e-1)
                out = p_mul(out, {((ab.id, 1),): 1})
                out = p_mul(out, {((a, e - 1),): 1})
    return out


def _p_exp(p):
    r = {(): 1}
    for m, c in sorted(p.items()):
        base = {m: 1}
        at = W.atom('exp', p_key(base), (base,))
        at.pos = True
        r = p_mul(r, {((at.id, c),): 1})
    return r


def _isq(n):
    """largest s with s*s | n (n>0), by small primes"""
    s = 1
    f = 2
    m = n
    while f * f <= m and f < 2000:
        while m % (f * f) == 0:
            m //= f * f
            s *= f
        if m % f == 0:
            m //= f
        f += 1
    r = math.isqrt(m)
    if r * r == m:
        s *= r
    return s


def _p_sqrt(p):
    if not p:
        return {}
    al = W.atomlist
    if len(p) == 1:
        (m, c), = p.items()
        c = Fraction(c)
        if c > 0:
            # sqrt(n/d) = sqrt(n*d)/d
            nd = c.numerator * c.denominator
            s = _isq(nd)
            coef = Fraction(s, c.denominator)
            rem = nd // (s * s)
            out = {(): _norm(coef)}
            if rem != 1:
                at = W.atom('sqrt', ((), rem), ({(): rem},))
                at.pos = True
                out = p_mul(out, {((at.id, 1),): 1})
            if all(al[a].pos or al[a].nonneg or al[a].kind in ('exp', 'sqrt', 'abs') or
                   (isinstance(e, int) and e % 2 == 0) for a, e in m):
                for a, e in m:
                    at = al[a]
                    if at.kind == 'exp':
                        out = p_mul(out, {((a, _norm(Fraction(e) / 2)),): 1})
                        continue
                    q, r = divmod(e, 2)
                    posa = at.pos or at.nonneg or at.kind in ('sqrt', 'abs')
                    if q:
                        out = p_mul(out, _abs_mono(((a, q),), 1))
                    if r:
                        if at.kind in ('sqrt', 'abs'):
                            base = {((a, 1),): 1}
                        else:
                            base = {((a, 1),): 1}
                        assert posa
                        sa = W.atom('sqrt', p_key(base), (base,))
                        sa.nonneg = True
                        sa.pos = at.pos
                        out = p_mul(out, {((sa.id, 1),): 1})
                return out
    # perfect squares (a+b)^2 etc: try the exact square root of a sum of two/three terms
    r = _poly_sqrt(p)
    if r is not None:
        n = _node_of_poly(r)
        return sabs(n).poly
    # content: make it independent of positive rational scaling
    lead = abs(Fraction(p_content(p)))
    q = p_scale(p, Fraction(1) / lead)
    at = W.atom('sqrt', p_key(q), (q,))
    at.nonneg = True
    return p_mul(_p_sqrt({(): _norm(lead)}), {((at.id, 1),): 1})


def _poly_sqrt(p):
    """Exact polynomial square root (up to sign) for perfect squares of
    polynomials with few terms, else None."""
    if len(p) > 60:
        return None
    al = W.atomlist
    def half(m, c):
        if Fraction(c) <= 0:
            return None
        c = Fraction(c)
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        o = []
        for x, e in m:
            if not isinstance(e, int) or e % 2:
                return None
            o.append((x, e // 2))
        return tuple(o), _norm(Fraction(a, b))
    sq = []
    for m, c in p.items():
        h = half(m, c)
        if h:
            sq.append(h)
    k = len(sq)
    if k == 0 or k > 6:
        return None
    # p should have at most k(k+1)/2 terms; determine signs by cross terms with first
    from itertools import product
    for signs in product((1, -1), repeat=k - 1):
        r = {}
        for (m, c), s in zip(sq, (1,) + signs):
            r = p_add(r, {m: c * s})
        if p_mul(r, r) == p:
            return r
    return None


def _node_of_poly(p):
    al = W.atomlist
    r = ZERO()
    for m, c in p.items():
        t = Sym.const(c)
        for a, e in m:
            t = t * atom_node(al[a]) ** e
        r = r + t
    return r


def atom_node(at):
    if at.kind == 'var':
        return at.node
    if at.kind == 'exp':
        return exp(_node_of_poly(at.args[0]))
    if at.kind == 'sqrt':
        return Sym.mk('sqrt', _node_of_poly(at.args[0]))
    if at.kind == 'abs':
        return Sym.mk('abs', _node_of_poly(at.args[0]))
    if at.kind == 'inv':
        return Sym.mk('div', ONE(), _node_of_poly(at.args[0]))
    if at.kind == 'log':
        return Sym.mk('log', _node_of_poly(at.args[0]))
    if at.kind in ('sin', 'cos', 'floor'):
        return Sym.mk(at.kind, _node_of_poly(at.args[0]))
    if at.kind == 'uf':
        return Sym.mk('uf', at.args[0], *[_node_of_poly(q) for q in at.args[1:]])
    if at.kind == 'ite':
        return Sym.mk('ite', *at.args)
    raise Unsupported('atom_node ' + at.kind)


def _p_log(p):
    al = W.atomlist
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(al[a].pos or al[a].kind == 'exp' for a, e in m):
            out = {}
            if c != 1:
                c = Fraction(c)
                for v, s in ((c.numerator, 1), (c.denominator, -1)):
                    if v != 1:
                        out = p_add(out, _log_int(v, s))
            for a, e in m:
                at = al[a]
                if at.kind == 'exp':
                    out = p_add(out, p_scale(at.args[0], e))
                elif at.kind == 'sqrt':
                    out = p_add(out, p_scale(_p_log(at.args[0]), Fraction(e) / 2))
                else:
                    base = {((a, 1),): 1}
                    la = W.atom('log', p_key(base), (base,))
                    out = p_add(out, {((la.id, 1),): e})
            return out
    if len(p) == 1:
        (m, c), = p.items()
        # log of sqrt(q) = log(q)/2 (q > 0 was established by the caller)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and al[m[0][0]].kind == 'sqrt':
            return p_scale(_p_log(al[m[0][0]].args[0]), Fraction(1, 2))
    at = W.atom('log', p_key(p), (p,))
    return {((at.id, 1),): 1}


def _log_int(v, s):
    out = {}
    f = 2
    while f * f <= v and f < 2000:
        while v % f == 0:
            base = {(): f}
            at = W.atom('log', p_key(base), (base,))
            out = p_add(out, {((at.id, 1),): s})
            v //= f
        f += 1
    if v != 1:
        base = {(): v}
        at = W.atom('log', p_key(base), (base,))
        out = p_add(out, {((at.id, 1),): s})
    return out


# ---------------------------------------------------------------- differentiation

def diff(x, v, memo=None):
    """Symbolic derivative of node x with respect to variable node v."""
    memo = {} if memo is None else memo
    stack = [x]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        ch = [a for a in n.args if isinstance(a, Sym) and a.id not in memo]
        if ch:
            stack.extend(ch)
            continue
        memo[n.id] = _diff1(n, v, memo)
        stack.pop()
    return memo[x.id]


def _diff1(n, v, memo):
    op = n.op
    if n is v:
        return ONE()
    if op in ('const', 'var'):
        return ZERO()
    d = lambda i: memo[n.args[i].id]
    if op == 'add':
        return d(0) + d(1)
    if op == 'mul':
        return d(0) * n.args[1] + n.args[0] * d(1)
    if op == 'pow':
        return n.args[1] * ipow(n.args[0], n.args[1] - 1) * d(0)
    if op == 'div':
        return d(0) / n.args[1] - n * d(1) / n.args[1]
    if op == 'exp':
        return n * d(0)
    if op == 'sqrt':
        return d(0) / (2 * n) if not (d(0).c == 0) else ZERO()
    if op == 'log':
        return d(0) / n.args[0]
    if op == 'sin':
        return trig('cos', n.args[0]) * d(0)
    if op == 'cos':
        return -trig('sin', n.args[0]) * d(0)
    if op == 'ite':
        return ite(n.args[0], d(1), d(2))
    if op == 'abs':
        if d(0).c == 0:
            return ZERO()
        return ite(n.args[0] >= 0, d(0), -d(0))
    if op == 'floor':
        return ZERO()
    if op == 'uf':
        rule = W.uf_diff.get(n.args[0])
        r = ZERO()
        for i, a in enumerate(n.args[1:]):
            da = memo[a.id]
            if da.c == 0:
                continue
            if rule is None:
                r = r + uf('d%d_%s' % (i, n.args[0]), *n.args[1:]) * da
            else:
                r = r + rule(i, *n.args[1:]) * da
        return r
    raise Unsupported('derivative of %s' % op)


# ---------------------------------------------------------------- printing / eval

def show(n, depth=4):
    if n is NAN:
        return 'nan'
    if n.c is not None:
        return str(n.c)
    if n.op == 'var':
        return n.args[0].name
    if depth == 0:
        return '..'
    if n.op == 'uf':
        return '%s(%s)' % (n.args[0], ','.join(show(a, depth - 1) for a in n.args[1:]))
    s = {'add': '+', 'mul': '*', 'div': '/'}.get(n.op)
    if s:
        return '(' + s.join(show(a, depth - 1) for a in n.args) + ')'
    return '%s(%s)' % (n.op, ','.join(
        show(a, depth - 1) if isinstance(a, Sym) else bshow(a) if isinstance(a, SymBool) else str(a)
        for a in n.args))


def bshow(b):
    if isinstance(b, bool):
        return str(b)
    if b.op in ('lt', 'le', 'eq'):
        return '%s %s %s' % (show(b.args[0]), {'lt': '<', 'le': '<=', 'eq': '=='}[b.op], show(b.args[1]))
    return '%s(%s)' % (b.op, ','.join(bshow(a) for a in b.args))


def feval(root, env, ufs=None):
    """Numeric value of a node under an assignment of variables (floats)."""
    memo = {}
    return _feval(root, env, memo, ufs)


def _feval(root, env, memo, ufs=None):
    stack = [root]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        ch = [a for a in n.args if isinstance(a, (Sym, SymBool)) and a.id not in memo]
        if ch:
            stack.extend(ch)
            continue
        g = [memo[a.id] if isinstance(a, (Sym, SymBool)) else a for a in n.args]
        op = n.op
        if op == 'const':
            r = n.c
        elif op == 'var':
            r = env[n.args[0].name]
        elif op == 'add':
            r = g[0] + g[1]
        elif op == 'mul':
            r = g[0] * g[1]
        elif op == 'pow':
            r = g[0] ** g[1]
        elif op == 'div':
            r = Fraction(g[0]) / Fraction(g[1]) if isinstance(g[0], (int, Fraction)) and isinstance(g[1], (int, Fraction)) and g[1] else (g[0] / g[1] if g[1] else float('nan'))
        elif op == 'exp':
            r = math.exp(g[0])
        elif op == 'sqrt':
            r = math.sqrt(g[0]) if g[0] >= 0 else float('nan')
        elif op == 'log':
            r = math.log(g[0]) if g[0] > 0 else float('nan')
        elif op == 'sin':
            r = math.sin(g[0])
        elif op == 'cos':
            r = math.cos(g[0])
        elif op == 'abs':
            r = abs(g[0])
        elif op == 'floor':
            r = math.floor(g[0])
        elif op == 'ite':
            r = g[1] if g[0] else g[2]
        elif op == 'lt':
            r = g[0] < g[1]
        elif op == 'le':
            r = g[0] <= g[1]
        elif op == 'eq':
            r = g[0] == g[1]
        elif op == 'not':
            r = not g[0]
        elif op == 'and':
            r = g[0] and g[1]
        elif op == 'or':
            r = g[0] or g[1]
        elif op == 'uf':
            if ufs is None or g[0] not in ufs:
                raise Unsupported('feval uf ' + g[0])
            r = ufs[g[0]](*[float(x) for x in g[1:]])
        else:
            raise Unsupported('feval ' + op)
        memo[n.id] = r
        stack.pop()
    return memo[root.id]


_const_zero()
