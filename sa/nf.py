"""Scalar normal forms ("value numbers") used by the static analyser.

A Poly is a finite sum of monomials over *atoms* with Gaussian-rational
coefficients.  A monomial may carry summation binders (index notation), so that
array reductions written with sum / einsum / tensordot / dot / vmap / psum /
Allreduce all end up with one canonical representative.  Conditionals are encoded
with 0/1 indicator atoms (multilinear, idempotent), which makes if / where /
lax.cond / min / max coincide.

Nothing in here executes repository code: the objects are terms produced by the
abstract evaluator (interp.py) from the syntax tree.
"""
import math
from fractions import Fraction
import itertools

F = Fraction
_fresh = itertools.count(1)
NORM = {}      # normalised weight arrays: name -> dims


def fresh_id():
    return next(_fresh)


# ---------------------------------------------------------------------------
# Gaussian rationals
class CQ:
    __slots__ = ("re", "im")

    def __init__(self, re=0, im=0):
        self.re = re if isinstance(re, Fraction) else F(re)
        self.im = im if isinstance(im, Fraction) else F(im)

    def __add__(self, o):
        return CQ(self.re + o.re, self.im + o.im)

    def __sub__(self, o):
        return CQ(self.re - o.re, self.im - o.im)

    def __neg__(self):
        return CQ(-self.re, -self.im)

    def __mul__(self, o):
        return CQ(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def conj(self):
        return CQ(self.re, -self.im)

    def inv(self):
        n = self.re * self.re + self.im * self.im
        return CQ(self.re / n, -self.im / n)

    def __bool__(self):
        return bool(self.re) or bool(self.im)

    def __eq__(self, o):
        return isinstance(o, CQ) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        if not self.im:
            return str(self.re)
        if not self.re:
            return "%sj" % self.im
        return "(%s%+sj)" % (self.re, self.im) if False else "(%s+%sj)" % (self.re, self.im)

    @property
    def isreal(self):
        return not self.im


CQ0, CQ1, CQI = CQ(0), CQ(1), CQ(0, 1)


def to_cq(v):
    if isinstance(v, CQ):
        return v
    if isinstance(v, bool):
        return CQ(int(v))
    if isinstance(v, (int, Fraction)):
        return CQ(v)
    if isinstance(v, float):
        return CQ(F(repr(v)) if v == v and abs(v) != float("inf") else F(0))
    if isinstance(v, complex):
        return CQ(F(repr(v.real)), F(repr(v.imag)))
    raise TypeError(v)


# ---------------------------------------------------------------------------
class Dim:
    """A named axis extent. size is a Poly (may be constant)."""
    _cache = {}

    def __init__(self, name, size=None):
        self.name = name
        self._size = size

    @property
    def size(self):
        if self._size is None:
            self._size = sym("|%s|" % self.name, props="ipn")
        return self._size

    @property
    def const(self):
        c = self.size.const_value()
        if c is not None and c.isreal and c.re.denominator == 1:
            return int(c.re)
        return None

    def __repr__(self):
        return self.name

    @staticmethod
    def named(name):
        if name not in Dim._cache:
            Dim._cache[name] = Dim(name)
        return Dim._cache[name]

    @staticmethod
    def of_const(n):
        k = "#%d" % n
        if k not in Dim._cache:
            Dim._cache[k] = Dim(k, const(n))
        return Dim._cache[k]

    @staticmethod
    def of_size(p):
        """dimension whose extent is the given poly"""
        c = p.const_value()
        if c is not None:
            return Dim.of_const(int(c.re))
        # |name| symbols map back to their named dims
        if len(p.terms) == 1:
            (m, co), = p.terms.items()
            if co == CQ1 and not m.binders and len(m.factors) == 1:
                a, e = m.factors[0]
                if e == 1 and a.kind == "sym" and a.name.startswith("|") and not a.args:
                    return Dim.named(a.name[1:-1])
        k = "<%s>" % p.key
        if k not in Dim._cache:
            Dim._cache[k] = Dim(k, p)
        return Dim._cache[k]


# ---------------------------------------------------------------------------
class Node:
    """Base protocol of everything that can be an argument of an atom."""
    __slots__ = ()
    # attributes: key, fv (frozenset of free var ids), unk (bool), level (int)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.key == o.key)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)


class K(Node):
    """constant node (string/None/...)"""
    __slots__ = ("val", "key", "fv", "unk", "level")

    def __init__(self, val):
        self.val = val
        self.key = "'%r" % (val,)
        self.fv = frozenset()
        self.unk = False
        self.level = 0

    def subst(self, m):
        return self

    def conjugate(self):
        return self

    def atoms(self):
        return iter(())

    def __repr__(self):
        return self.key


class Seq(Node):
    __slots__ = ("items", "key", "fv", "unk", "level")

    def __init__(self, items):
        self.items = tuple(items)
        self.key = "[" + ",".join(i.key for i in self.items) + "]"
        self.fv = frozenset().union(*[i.fv for i in self.items]) if self.items else frozenset()
        self.unk = any(i.unk for i in self.items)
        self.level = max([i.level for i in self.items], default=0)

    def subst(self, m):
        if not (self.fv & m.keys()):
            return self
        return Seq([i.subst(m) for i in self.items])

    def atoms(self):
        for i in self.items:
            yield from i.atoms()

    def __repr__(self):
        return self.key


# ---------------------------------------------------------------------------
class Atom(Node):
    """kinds:
       var   : summation / axis index variable       name=id, args=(), dim
       sym   : (indexed) symbol                      name, args=index polys
       fn    : function application                  name, args=nodes
       lt0   : indicator [p<0]                       args=(poly,)
       eq0   : indicator [p==0]                      args=(poly,)
       delta : kronecker delta of two index polys    args=(poly,poly)
       base  : opaque base of a non-expandable power args=(poly,)
       prime : prime number (for roots)              name=p
       props : r real, n nonneg, p positive, i integer, u unknown (unmodelled)
               N sum over all its index vars is one (normalised weights)
    """
    __slots__ = ("kind", "name", "args", "conj", "props", "dim", "key", "fv", "unk", "level")

    def __init__(self, kind, name, args=(), conj=False, props="", dim=None):
        self.kind = kind
        self.name = name
        self.args = tuple(args)
        if "p" in props or "n" in props or "i" in props:
            props = props if "r" in props else props + "r"
        if "p" in props and "n" not in props:
            props += "n"
        self.props = props
        self.conj = conj and "r" not in props
        self.dim = dim
        if kind == "var":
            self.key = "v%s" % (name,) if not isinstance(name, tuple) else "$%d.%d" % name
            self.fv = frozenset([name])
            self.level = name[0] if isinstance(name, tuple) else 0
            self.unk = False
        else:
            self.key = "%s%s:%s(%s)" % ("~" if self.conj else "", kind, name, ",".join(a.key for a in self.args)) \
                if kind != "sym" else "%s%s[%s]" % ("~" if self.conj else "", name, ",".join(a.key for a in self.args))
            self.fv = frozenset().union(*[a.fv for a in self.args]) if self.args else frozenset()
            self.unk = ("u" in props) or any(a.unk for a in self.args)
            self.level = max([a.level for a in self.args], default=0)

    def __repr__(self):
        return self.key

    @property
    def real(self):
        return "r" in self.props or self.kind in ("var", "lt0", "eq0", "delta", "prime")

    @property
    def nonneg(self):
        return "n" in self.props or self.kind in ("lt0", "eq0", "delta", "prime") or self.kind == "var"

    @property
    def positive(self):
        return "p" in self.props or self.kind == "prime"

    @property
    def integer(self):
        return "i" in self.props or self.kind in ("var", "lt0", "eq0", "delta")

    def conjugate(self):
        if self.real:
            return self.as_poly()
        if self.kind == "fn" and self.name in ("exp", "log", "sin", "cos", "cosh", "sinh", "tanh", "log1p"):
            return fn(self.name, self.args[0].conjugate())
        if self.kind == "base":
            return base_atom_poly(self.args[0].conjugate())
        return Atom(self.kind, self.name, self.args, not self.conj, self.props, self.dim).as_poly()

    def as_poly(self):
        return Poly({Mono(((self, F(1)),), ()): CQ1})

    def subst(self, m):
        """-> Poly"""
        if not (self.fv & m.keys()):
            return self.as_poly()
        if self.kind == "var":
            r = m[self.name]
            return r if isinstance(r, Poly) else r.as_poly()
        args = [a.subst(m) for a in self.args]
        if self.kind == "lt0":
            return ind_lt0(args[0])
        if self.kind == "eq0":
            return ind_eq0(args[0])
        if self.kind == "delta":
            return delta(args[0], args[1])
        if self.kind == "base":
            return base_atom_poly(args[0])
        if self.kind == "fn":
            return fn(self.name, *args, conj=self.conj, props=self.props)
        return Atom(self.kind, self.name, args, self.conj, self.props, self.dim).as_poly()

    def atoms(self):
        yield self
        for a in self.args:
            yield from a.atoms()


def base_atom_poly(p):
    """poly for base(p)^1: simply p itself (base atoms only matter with exponents)"""
    return p


class Mono:
    __slots__ = ("factors", "binders", "key", "fv", "unk", "level", "_h")
    # binders: tuple of Dim; bound var ids are (level, pos)

    def __init__(self, factors, binders=(), level=None):
        self.factors = factors
        self.binders = binders
        inner = max([a.level for a, _ in factors], default=0)
        if binders:
            self.level = level
            bound = {(level, i) for i in range(len(binders))}
        else:
            self.level = inner
            bound = ()
        self.key = ("S{%s}" % ",".join(d.name for d in binders) if binders else "") + \
            "*".join(a.key if e == 1 else "%s^%s" % (a.key, e) for a, e in factors)
        fv = frozenset().union(*[a.fv for a, _ in factors]) if factors else frozenset()
        self.fv = fv - frozenset(bound) if bound else fv
        self.unk = any(a.unk for a, _ in factors)
        self._h = hash(self.key)

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return self._h

    def open(self):
        """-> list of (atom-poly source, exp), dict of fresh var -> Dim"""
        if not self.binders:
            return self.factors, {}
        m, nb = {}, {}
        for i, d in enumerate(self.binders):
            v = Atom("var", fresh_id(), dim=d)
            m[(self.level, i)] = v.as_poly()
            nb[v.name] = (v, d)
        fs = []
        for a, e in self.factors:
            if a.fv & m.keys():
                # renaming of variables: structure is preserved, result is a single atom
                p = a.subst(m)
                fs.append((p, e))
            else:
                fs.append((a, e))
        return fs, nb


MONO1 = Mono((), ())


class Poly(Node):
    __slots__ = ("terms", "_key", "_fv", "_unk", "_level")

    def __init__(self, terms):
        self.terms = {m: c for m, c in terms.items() if c}
        self._key = None
        self._fv = None
        self._unk = None
        self._level = None

    @property
    def key(self):
        if self._key is None:
            if not self.terms:
                self._key = "0"
            else:
                self._key = "{" + "+".join("%r*%s" % (self.terms[m], m.key) for m in
                                           sorted(self.terms, key=lambda m: m.key)) + "}"
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            self._fv = frozenset().union(*[m.fv for m in self.terms]) if self.terms else frozenset()
        return self._fv

    @property
    def unk(self):
        if self._unk is None:
            self._unk = any(m.unk for m in self.terms)
        return self._unk

    @property
    def level(self):
        if self._level is None:
            self._level = max([m.level for m in self.terms], default=0)
        return self._level

    def __repr__(self):
        return pretty(self)

    def atoms(self):
        for m in self.terms:
            for a, _ in m.factors:
                yield from a.atoms()

    # -- predicates
    def const_value(self):
        if not self.terms:
            return CQ0
        if len(self.terms) == 1 and MONO1 in self.terms:
            return self.terms[MONO1]
        return None

    def int_value(self):
        c = self.const_value()
        if c is not None and c.isreal and c.re.denominator == 1:
            return int(c.re)
        return None

    def is_zero(self):
        return not self.terms

    def single_atom(self):
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == CQ1 and not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1:
                return m.factors[0][0]
        return None

    def is_real(self):
        return self.conjugate() == self

    def is_integer(self):
        for m, c in self.terms.items():
            if not (c.isreal and c.re.denominator == 1):
                return False
            for a, e in m.factors:
                if not a.integer or e < 0 or e.denominator != 1:
                    return False
        return True

    def is_nonneg(self):
        for m, c in self.terms.items():
            if not (c.isreal and c.re >= 0):
                return False
            for a, e in m.factors:
                if a.nonneg or (a.real and e.denominator == 1 and e % 2 == 0):
                    continue
                # x * conj(x)
                if not a.real and any(b.key == a.conjugate().single_atom().key and eb == e
                                      for b, eb in m.factors if a.conjugate().single_atom() is not None):
                    continue
                return False
        return True

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.terms:
            return o
        if not o.terms:
            return self
        t = dict(self.terms)
        for m, c in o.terms.items():
            t[m] = t[m] + c if m in t else c
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.terms.items()})

    def __mul__(self, o):
        o = P(o)
        c = self.const_value()
        if c is not None:
            return o.scale(c)
        c = o.const_value()
        if c is not None:
            return self.scale(c)
        acc = ZERO
        out = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                r = mono_mul(m1, m2)
                cc = c1 * c2
                if isinstance(r, Mono):
                    out[r] = out[r] + cc if r in out else cc
                else:
                    acc = acc + r.scale(cc)
        return Poly(out) + acc

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = P(o)
        if self == o and not o.is_zero():
            return ONE
        return self * o.pow(F(-1))

    def __rtruediv__(self, o):
        return P(o) / self

    def pow(self, e):
        e = F(e)
        if e == 0:
            return ONE
        if e == 1:
            return self
        if not self.terms:
            return ZERO if e > 0 else fn("div0")
        if e.denominator == 1 and 0 < e <= 8:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        # single monomial
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if not m.binders:
                coeff = _const_pow(c, e)
                if coeff is not None:
                    keep = []
                    rest = []
                    fs = list(m.factors)
                    for a, x in fs:
                        if e.denominator == 1 or a.nonneg or (a.kind == "base" and x.denominator != 1):
                            keep.append((a, x * e))
                        else:
                            rest.append((a, x))
                    # x*conj(x) pairs are nonnegative: keep them in one base
                    r = build_mono(keep, {})
                    if rest:
                        if len(rest) == 1 and rest[0][0].real and rest[0][1] == 2 and e == F(1, 2):
                            r = r * fabs_real(rest[0][0].as_poly())
                        else:
                            rp = build_mono(rest, {})
                            r = r * build_mono([(Atom("base", "", (rp,), props=_base_props(rp, e)), e)], {})
                    return coeff * r
        # content extraction
        p, content = self, ONE
        if e.denominator == 1:
            lead = p.terms[min(p.terms, key=lambda m: m.key)]
            p = p.scale(lead.inv())
            content = const(lead).pow(e) if e > 0 else Poly({MONO1: _cq_intpow(lead, int(e))})
            g = _common_factors(p)
            if g:
                gm = build_mono(g, {})
                p = p * gm.pow(-1)
                content = content * build_mono([(a, x * e) for a, x in g], {})
                if p.const_value() is not None or len(p.terms) == 1:
                    return content * p.pow(e)
        else:
            # rational positive content of first coefficient
            lead = p.terms[min(p.terms, key=lambda m: m.key)]
            if lead.isreal and lead.re > 0 and lead.re != 1:
                p = p.scale(lead.inv())
                cp = _const_pow(lead, e)
                content = cp
        return content * build_mono([(Atom("base", "", (p,), props=_base_props(p, e)), e)], {})

    def conjugate(self):
        acc = {}
        rest = ZERO
        for m, c in self.terms.items():
            if all(a.real for a, _ in m.factors):
                acc[m] = acc.get(m, CQ0) + c.conj()
                continue
            fs, nb = m.open()
            r = ONE
            lst = []
            for a, e in fs:
                if isinstance(a, Poly):
                    ap = a.single_atom()
                    a = ap if ap is not None else a
                if isinstance(a, Atom):
                    cp = a.conjugate() if a.kind != "base" else None
                    if a.kind == "base":
                        q = a.args[0].conjugate()
                        lst.append((Atom("base", "", (q,), props=_base_props(q, e)), e))
                        continue
                    sa = cp.single_atom()
                    if sa is not None:
                        lst.append((sa, e))
                    else:
                        r = r * cp.pow(e)
                else:
                    r = r * a.conjugate().pow(e)
            r = mul_under_binders(lst, nb, r)
            rest = rest + r.scale(c.conj())
        return Poly(acc) + rest

    def subst(self, m):
        if not (self.fv & m.keys()):
            return self
        acc = {}
        rest = ZERO
        for mo, c in self.terms.items():
            if not (mo.fv & m.keys()):
                acc[mo] = acc.get(mo, CQ0) + c
                continue
            fs, nb = mo.open()
            r = ONE
            lst = []
            for a, e in fs:
                if isinstance(a, Poly):
                    p = a.subst(m)
                elif a.kind == "base":
                    q = a.args[0].subst(m)
                    if q == a.args[0]:
                        lst.append((a, e))
                    else:
                        r = r * q.pow(e)
                    continue
                else:
                    p = a.subst(m)
                sa = p.single_atom()
                if sa is not None:
                    lst.append((sa, e))
                else:
                    r = r * p.pow(e)
            rest = rest + mul_under_binders(lst, nb, r).scale(c)
        return Poly(acc) + rest


def _cq_intpow(c, n):
    if n < 0:
        c = c.inv()
        n = -n
    r = CQ1
    for _ in range(n):
        r = r * c
    return r


def _base_props(p, e):
    if p.is_real():
        return "rn" if e.denominator != 1 else "r"
    return ""


def _factorint(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _const_pow(c, e):
    """c**e for a constant, as a Poly, or None"""
    if e.denominator == 1:
        return Poly({MONO1: _cq_intpow(c, int(e))})
    if c == CQ1:
        return ONE
    if c.isreal and c.re > 0:
        fs = {}
        for p, k in _factorint(c.re.numerator).items():
            fs[p] = fs.get(p, 0) + k
        for p, k in _factorint(c.re.denominator).items():
            fs[p] = fs.get(p, 0) - k
        coeff = F(1)
        lst = []
        for p, k in fs.items():
            x = k * e
            n = x.numerator // x.denominator
            coeff *= F(p) ** n
            if x - n:
                lst.append((Atom("prime", p), x - n))
        return build_mono(lst, {}).scale(CQ(coeff))
    return None


def _common_factors(p):
    common = None
    for m in p.terms:
        if m.binders:
            return []
        d = {a: e for a, e in m.factors}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (d[a] > 0) == (e > 0)}
        if not common:
            return []
    return [(a, e) for a, e in common.items() if e]


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return x.as_poly()
    return const(x)


def const(x):
    c = to_cq(x)
    return Poly({MONO1: c})


ZERO = Poly({})
ONE = Poly({MONO1: CQ1})
I = Poly({MONO1: CQI})


def sym(name, idx=(), props=""):
    return Atom("sym", name, tuple(P(i) for i in idx), props=props).as_poly()


def var(dim):
    return Atom("var", fresh_id(), dim=dim)


# ---------------------------------------------------------------------------
def mono_mul(m1, m2):
    if not m1.binders and not m2.binders:
        simple = True
        for a, _ in itertools.chain(m1.factors, m2.factors):
            if a.kind in ("lt0", "eq0", "delta", "prime", "base") or (a.kind == "fn" and a.name == "exp"):
                simple = False
                break
        if simple:
            d = {}
            for a, e in itertools.chain(m1.factors, m2.factors):
                d[a] = d.get(a, 0) + e
            return Mono(tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].key)), ())
    f1, b1 = m1.open()
    f2, b2 = m2.open()
    return _build(list(f1) + list(f2), {**b1, **b2})


def build_mono(factors, binders):
    r = _build(factors, binders)
    return r if isinstance(r, Poly) else Poly({r: CQ1})


def mul_under_binders(lst, nb, r):
    """Sum_{nb} prod(lst) * r   (r: Poly possibly mentioning the nb vars)"""
    if not nb:
        return build_mono(lst, {}) * r
    if r.const_value() is not None:
        return build_mono(lst, nb).scale(r.const_value())
    out = ZERO
    for m, c in r.terms.items():
        fs, b2 = m.open()
        out = out + build_mono(list(lst) + list(fs), {**nb, **b2}).scale(c)
    return out


def _build(factors, binders):
    """factors: list of (Atom | single-atom Poly | Poly, exp); binders {id: (varatom, Dim)}
    -> Mono or Poly (coefficient 1 Mono)"""
    coeff = ONE
    d = {}
    exparg = None
    work = list(factors)
    extra = None
    while work:
        a, e = work.pop()
        if isinstance(a, Poly):
            sa = a.single_atom()
            if sa is None:
                c = a.const_value()
                if c is not None:
                    coeff = coeff * a.pow(e)
                    continue
                p = a.pow(e)
                extra = p if extra is None else extra * p
                continue
            a = sa
        if a.kind == "fn" and a.name == "exp" and not a.conj:
            t = a.args[0].scale(CQ(e))
            exparg = t if exparg is None else exparg + t
            continue
        if a.kind in ("lt0", "eq0", "delta"):
            if e <= 0:
                e = F(1) if e == 0 else e
            d[a] = F(1)
            continue
        d[a] = d.get(a, F(0)) + e
    # base atoms with positive integer exponents get expanded, primes reduced
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.kind == "base" and e.denominator == 1 and e > 0:
            del d[a]
            p = a.args[0].pow(e)
            extra = p if extra is None else extra * p
        elif a.kind == "base" and e.denominator != 1:
            n = e.numerator // e.denominator
            if n >= 1:
                d[a] = e - n
                p = a.args[0].pow(n)
                extra = p if extra is None else extra * p
        elif a.kind == "prime":
            n = e.numerator // e.denominator
            if n:
                coeff = coeff.scale(CQ(F(a.name) ** n))
                e = e - n
            if e:
                d[a] = e
            else:
                del d[a]
    if exparg is not None and not exparg.is_zero():
        p = fn("exp", exparg)
        sa = p.single_atom()
        if sa is not None:
            d[sa] = d.get(sa, F(0)) + 1
        else:
            extra = p if extra is None else extra * p
    # contradictory / implied indicators
    inds = [a for a in d if a.kind in ("lt0", "eq0")]
    if len(inds) > 1:
        keys = {(a.kind, a.args[0].key) for a in inds}
        for a in inds:
            p = a.args[0]
            n = (-p).key
            if a.kind == "lt0":
                if ("lt0", n) in keys or ("eq0", p.key) in keys or ("eq0", n) in keys:
                    return ZERO
            for b in inds:
                if a is b or a.kind != "eq0" or b.kind != "eq0":
                    continue
                diff = (p - b.args[0]).const_value()
                if diff is not None and diff:
                    return ZERO
    # deltas over bound variables
    changed = True
    while changed and binders:
        changed = False
        for a in list(d):
            if a.kind != "delta":
                continue
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                sa = x.single_atom()
                if sa is not None and sa.kind == "var" and sa.name in binders and sa.name not in y.fv:
                    del d[a]
                    vid = sa.name
                    nb = {k: v for k, v in binders.items() if k != vid}
                    fs = []
                    for b, e in d.items():
                        fs.append((b.subst({vid: y}) if b.kind != "base" else b.args[0].subst({vid: y}).pow(e), e if b.kind != "base" else F(1)))
                    if extra is not None:
                        fs.append((extra.subst({vid: y}), F(1)))
                    r = _build(fs, nb)
                    r = r if isinstance(r, Poly) else Poly({r: CQ1})
                    return coeff * r
    if extra is not None:
        base = list(d.items())
        if binders:
            return coeff * mul_under_binders(base, binders, extra)
        r = _build(base, {})
        r = r if isinstance(r, Poly) else Poly({r: CQ1})
        return coeff * r * extra
    if binders:
        # normalised weights
        for a in list(d):
            if a.kind == "sym" and "N" in a.props and d.get(a) == 1:
                ids = []
                ok = True
                for ix in a.args:
                    sa = ix.single_atom()
                    if sa is None or sa.kind != "var" or sa.name not in binders:
                        ok = False
                        break
                    ids.append(sa.name)
                if ok and len(set(ids)) == len(ids) and not any((b.fv & set(ids)) for b in d if b is not a):
                    del d[a]
                    binders = {k: v for k, v in binders.items() if k not in ids}
        used = frozenset().union(*[a.fv for a in d]) if d else frozenset()
        for k in list(binders):
            if k not in used:
                coeff = coeff * binders[k][1].size
                binders = {q: v for q, v in binders.items() if q != k}
    if not binders:
        m = Mono(tuple(sorted(d.items(), key=lambda t: t[0].key)), ())
    else:
        m = _canon(d, binders)
    if coeff == ONE:
        return m
    return coeff * Poly({m: CQ1})


def _canon(d, binders):
    level = 1 + max([a.level for a in d], default=0)
    ids = list(binders)
    # colour refinement
    colour = {i: binders[i][1].name for i in ids}
    if len(ids) > 1:
        for _ in range(3):
            new = {}
            for i in ids:
                sig = []
                for a, e in d.items():
                    if i in a.fv:
                        sig.append(_mask(a, i, colour) + "^%s" % e)
                new[i] = colour[i] + "|" + "&".join(sorted(sig))
            if len(set(new.values())) == len(set(colour.values())):
                colour = new
                break
            colour = new
        # compress colours
        order = sorted(set(colour.values()))
        colour = {i: order.index(colour[i]) for i in ids}
        groups = {}
        for i in ids:
            groups.setdefault(colour[i], []).append(i)
        gl = [groups[k] for k in sorted(groups)]
    else:
        gl = [ids]
    n = 1
    for g in gl:
        for j in range(2, len(g) + 1):
            n *= j
    best = None
    perms = itertools.product(*[itertools.permutations(g) for g in gl]) if n <= 720 else [tuple(tuple(g) for g in gl)]
    for pr in perms:
        seq = [i for g in pr for i in g]
        ren = {i: Atom("var", (level, pos), dim=binders[i][1]).as_poly() for pos, i in enumerate(seq)}
        fs = []
        for a, e in d.items():
            if a.fv & ren.keys():
                b = _rename_atom(a, ren)
                fs.append((b, e))
            else:
                fs.append((a, e))
        fs.sort(key=lambda t: t[0].key)
        dims = tuple(binders[i][1] for i in seq)
        m = Mono(tuple(fs), dims, level)
        if best is None or m.key < best.key:
            best = m
    return best


def _rename_atom(a, ren):
    """variable renaming; keeps the head atom (no simplification of the head)"""
    if a.kind == "var":
        return ren[a.name].single_atom() if a.name in ren else a
    return Atom(a.kind, a.name, [x.subst(ren) for x in a.args], a.conj, a.props, a.dim)


def _mask(a, i, colour):
    k = a.key
    import re

    def rep(mm):
        t = mm.group(0)[1:]
        try:
            t = int(t)
        except ValueError:
            return mm.group(0)
        if t == i:
            return "@"
        if t in colour:
            return "<%s>" % colour[t]
        return mm.group(0)
    return re.sub(r"v\d+", rep, k)


# ---------------------------------------------------------------------------
def fabs_real(p):
    sa = p.single_atom()
    if sa is not None and sa.nonneg:
        return p
    return fn("abs", p)


def sum_over(p, v):
    """Sum_{v} p   v: var atom"""
    if p.is_zero():
        return p
    out = ZERO
    n = v.dim.const
    for m, c in p.terms.items():
        if n is not None and n <= 32 and v.name in m.fv and any(
                x.kind in ("eq0", "lt0") and v.name in x.fv for a, _ in m.factors for x in a.atoms()):
            t = Poly({m: c})
            for k in range(n):
                out = out + t.subst({v.name: const(k)})
            continue
        fs, nb = m.open()
        nb = dict(nb)
        nb[v.name] = (v, v.dim)
        out = out + build_mono(list(fs), nb).scale(c)
    return out


def delta(a, b):
    d = a - b
    c = d.const_value()
    if c is not None:
        return ONE if not c else ZERO
    x, y = (a, b) if a.key <= b.key else (b, a)
    return Atom("delta", "", (x, y)).as_poly()


def _lead_sign_normal(p):
    """scale p by a positive rational so that leading coefficient is +-1"""
    lead = p.terms[min((m for m in p.terms if m.key != ""), key=lambda m: m.key, default=MONO1)]
    if lead.isreal and lead.re != 0:
        return p.scale(CQ(1 / abs(lead.re))), (1 if lead.re > 0 else -1)
    return p, 0


def numeric(p):
    """value of a real term without symbols (roots and exponentials of numbers), or None"""
    tot = 0.0
    for m, c in p.terms.items():
        if m.binders or not c.isreal:
            return None
        v = float(c.re)
        for a, e in m.factors:
            if a.kind == "prime":
                x = float(a.name)
            elif a.kind == "base":
                x = numeric(a.args[0])
            elif a.kind == "fn" and a.name in ("exp", "log", "sqrt") and len(a.args) == 1 and isinstance(a.args[0], Poly):
                x = numeric(a.args[0])
                if x is None or abs(x) > 300 or (a.name != "exp" and x <= 0):
                    return None
                x = getattr(math, a.name)(x)
            else:
                return None
            if x is None or (x <= 0 and e != int(e)) or (x == 0 and e < 0):
                return None
            v *= x ** float(e)
        tot += v
    return tot


def ind_lt0(p):
    """indicator of p<0"""
    c = p.const_value()
    if c is not None:
        if c.isreal:
            return ONE if c.re < 0 else ZERO
    c = numeric(p)
    if c is not None and abs(c) > 1e-7:
        return ONE if c < 0 else ZERO
    # ranges of index variables
    lo, hi = bounds(p)
    if hi is not None and hi < 0:
        return ONE
    if lo is not None and lo >= 0:
        return ZERO
    if p.is_nonneg():
        return ZERO
    r = _range_cmp(p)
    if r is not None:
        return r
    # log u < d  <->  u < exp d   (u positive)
    q, s = _lead_sign_normal(p)
    if s == 0:
        return Atom("lt0", "", (p,)).as_poly()
    if q.is_integer():
        # p<0 over integers; canonical orientation: leading coeff positive
        if s > 0:
            return Atom("lt0", "", (q,)).as_poly()
        # -x<0  <-> x>0 <-> x>=1 <-> not (x-1<0)   with x=-q
        x = (-q) - 1
        return ONE - Atom("lt0", "", (x,)).as_poly()
    if s > 0:
        return Atom("lt0", "", (q,)).as_poly()
    x = -q
    # q<0 <-> x>0 <-> not(x<0) and not(x==0)
    return ONE - Atom("lt0", "", (x,)).as_poly() - ind_eq0(x)


def ind_eq0(p):
    c = p.const_value()
    if c is not None:
        return ZERO if c else ONE
    c = numeric(p)
    if c is not None and abs(c) > 1e-7:
        return ZERO
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return ZERO
    q, s = _lead_sign_normal(p)
    if s < 0:
        q = -q
    # boolean-valued poly: [b==1] = b, [b==0] = 1-b
    if _is_boolean(q):
        return ONE - q
    if _is_boolean(q + 1):
        return q + 1
    if _is_boolean(-q):
        return ONE + q
    return Atom("eq0", "", (q,)).as_poly()


def _is_boolean(p):
    """syntactic check that p is a 0/1 indicator polynomial"""
    if not p.terms:
        return True
    for m, c in p.terms.items():
        if m.binders:
            return False
        for a, e in m.factors:
            if a.kind not in ("lt0", "eq0", "delta") and "b" not in a.props:
                return False
        if not c.isreal or c.re.denominator != 1:
            return False
    # evaluate on all assignments of its indicator atoms (<=6)
    at = sorted({a for m in p.terms for a, _ in m.factors}, key=lambda a: a.key)
    if not at:
        return p.const_value() in (CQ0, CQ1)
    if len(at) > 6:
        return False
    excl = [(i, j) for i, a in enumerate(at) if a.kind == "lt0" for j, b in enumerate(at) if b.kind == "eq0" and b.args == a.args]
    for bits in itertools.product((0, 1), repeat=len(at)):
        if any(bits[i] and bits[j] for i, j in excl):
            continue
        val = dict(zip(at, bits))
        s = 0
        for m, c in p.terms.items():
            t = c.re
            for a, e in m.factors:
                t *= val[a]
            s += t
        if s not in (0, 1):
            return False
    return True


def ite(c, a, b):
    """c boolean poly"""
    if a == b:
        return a
    return c * a + (ONE - c) * b


def bounds(p):
    """constant integer bounds (lo,hi) if derivable from constant-extent index vars"""
    lo = hi = F(0)
    for m, c in p.terms.items():
        if not m.factors and not m.binders:
            if not c.isreal:
                return None, None
            if lo is not None:
                lo += c.re
            if hi is not None:
                hi += c.re
            continue
        if m.binders or not c.isreal:
            return None, None
        a = m.factors[0][0]
        if len(m.factors) != 1 or m.factors[0][1] != 1:
            if not all(b.nonneg and e > 0 for b, e in m.factors):
                return None, None
            alo, ahi = (F(1) if all(b.positive and b.integer and e.denominator == 1 for b, e in m.factors) else F(0)), None
        elif a.kind == "var" and a.dim is not None and a.dim.const is not None:
            alo, ahi = F(0), F(a.dim.const - 1)
        elif a.kind in ("lt0", "eq0", "delta") or "b" in a.props:
            alo, ahi = F(0), F(1)
        elif a.kind == "var" or a.nonneg:
            alo, ahi = (F(1) if (a.positive and a.integer) else F(0)), None
        else:
            return None, None
        x, y = (alo, ahi) if c.re > 0 else (ahi, alo)
        lo = lo + c.re * x if (lo is not None and x is not None) else None
        hi = hi + c.re * y if (hi is not None and y is not None) else None
    return lo, hi


def _range_cmp(p):
    """v - size < 0 is true for an index variable of that dim (and v+1-size<=0...)"""
    vs = [(m, c) for m, c in p.terms.items() if not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1
          and m.factors[0][0].kind == "var"]
    for m, c in vs:
        a = m.factors[0][0]
        if a.dim is None:
            continue
        rest = p - Poly({m: c})
        # p = c*v + rest with 0 <= v <= size-1
        if c == CQ1:
            top = rest + a.dim.size - 1
            t = top.const_value()
            if t is not None and t.isreal and t.re < 0:
                return ONE
            lo, hi = bounds(top)
            if hi is not None and hi < 0:
                return ONE
        if c == CQ(-1):
            # p = -v + rest >= rest - size + 1
            low = rest - a.dim.size + 1
            t = low.const_value()
            if t is not None and t.isreal and t.re >= 0:
                return ZERO
    return None


def max_of(a, b):
    d = a - b
    return ite(ind_lt0(d), b, a)


def min_of(a, b):
    d = a - b
    return ite(ind_lt0(d), a, b)


def floordiv(p, q):
    cq_ = q.const_value()
    cp = p.const_value()
    if cq_ is not None and cq_ == CQ1:
        return p if p.is_integer() else fn("floor", p)
    if cq_ is not None and cp is not None and cq_.isreal and cp.isreal and cq_.re != 0:
        v = cp.re / cq_.re
        return const(v.numerator // v.denominator)
    # multiples of q
    quo = ZERO
    rem = ZERO
    if len(q.terms) == 1:
        (mq, cq1), = q.terms.items()
        if not mq.binders:
            for m, c in p.terms.items():
                t = Poly({m: c}) * q.pow(-1)
                if t.is_integer():
                    quo = quo + t
                else:
                    if cq_ is not None and cq_.isreal and not m.factors and c.isreal and c.re.denominator == 1 and cq_.re.denominator == 1:
                        n = int(c.re) // int(cq_.re)
                        quo = quo + n
                        rem = rem + const(int(c.re) - n * int(cq_.re))
                    elif cq_ is not None and cq_.isreal and cq_.re.denominator == 1 and c.isreal and c.re.denominator == 1 and all(a.integer for a, _ in m.factors):
                        n = int(c.re) // int(cq_.re)
                        quo = quo + Poly({m: CQ(n)})
                        rem = rem + Poly({m: CQ(int(c.re) - n * int(cq_.re))})
                    else:
                        rem = rem + Poly({m: c})
        else:
            rem = p
    else:
        # polynomial multiple: try p - k*q for small structure
        t = _poly_quotient(p, q)
        if t is not None:
            quo, rem = t
        else:
            rem = p
    if rem.is_zero():
        return quo
    # 0 <= rem < q ?
    if _in_range(rem, q):
        return quo
    if not (rem.is_integer() and q.is_integer()):
        return quo + fn("floordiv", rem, q, props="i")
    _, s = _lead_sign_normal(rem)
    if s < 0:
        # floor(-a/q) = -floor((a-1)/q) - 1 ... for a=-rem ; valid for integers, q>0
        return quo - floordiv(-rem - 1, q) - 1
    return quo + fn("floordiv", rem, q, props="i")


def _poly_quotient(p, q):
    lead = min((m for m in q.terms if m.key != ""), key=lambda m: m.key, default=None)
    if lead is None or lead not in p.terms:
        return None
    k = p.terms[lead] * q.terms[lead].inv()
    if not k.isreal or k.re.denominator != 1:
        return None
    return const(k), p - q.scale(k)


def _in_range(rem, q):
    """provable 0 <= rem < q"""
    lo, _ = bounds(rem)
    if not (lo is not None and lo >= 0) and not rem.is_nonneg():
        return False
    d = ind_lt0(rem - q)
    return d == ONE


def mod(p, q):
    return p - q * floordiv(p, q)


REALFN = {"abs", "floordiv", "real", "angle", "uniform", "normal"}
_FOLD_TRUE = object()


def fn(name, *args, conj=False, props=""):
    """smart constructor for function atoms"""
    args = tuple(P(a) if isinstance(a, (int, float, complex, Fraction)) and not isinstance(a, bool) else a for a in args)
    if name == "floordiv" and len(args) == 2 and isinstance(args[0], Poly):
        if not (args[0].single_atom() is None and False):
            r = None
            # avoid infinite recursion: only re-normalise when something simplifies
            if not getattr(fn, "_busy", False):
                fn._busy = True
                try:
                    r = floordiv(args[0], args[1])
                finally:
                    fn._busy = False
                return r
    if name == "exp":
        a = args[0]
        if a.is_zero():
            return ONE
        # exp(k*log x) for positive x
        r = ONE
        rest = {}
        for m, c in a.terms.items():
            if not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1 and c.isreal and c.re.denominator == 1:
                at = m.factors[0][0]
                if at.kind == "fn" and at.name == "log":
                    r = r * at.args[0].pow(c.re)
                    continue
            rest[m] = c
        if len(rest) != len(a.terms):
            return r * fn("exp", Poly(rest))
        if a.is_real() and "p" not in props:
            props = "p"
    elif name == "log":
        a = args[0]
        c = a.const_value()
        if c is not None and c == CQ1:
            return ZERO
        if len(a.terms) == 1:
            (m, c), = a.terms.items()
            if not m.binders:
                pos = [(x, e) for x, e in m.factors if x.positive or (x.kind == "fn" and x.name == "exp")]
                if pos and (len(pos) + (0 if c == CQ1 else 1) > 1 or pos[0][1] != 1 or (pos[0][0].kind == "fn" and pos[0][0].name == "exp")):
                    others = [(x, e) for x, e in m.factors if not (x.positive or (x.kind == "fn" and x.name == "exp"))]
                    r = ZERO
                    for x, e in pos:
                        if x.kind == "fn" and x.name == "exp":
                            r = r + x.args[0].scale(CQ(e))
                        else:
                            r = r + fn("log", x.as_poly()).scale(CQ(e))
                    restp = build_mono(others, {}).scale(c)
                    if restp != ONE:
                        r = r + fn("log", restp)
                    return r
        if "p" not in props and _all_positive(a):
            props = "r"
    elif name == "log1p":
        return fn("log", ONE + args[0])
    elif name == "expm1":
        return fn("exp", args[0]) - 1
    elif name == "sqrt":
        return args[0].pow(F(1, 2))
    elif name == "cosh":
        return (fn("exp", args[0]) + fn("exp", -args[0])).scale(CQ(F(1, 2)))
    elif name == "sinh":
        return (fn("exp", args[0]) - fn("exp", -args[0])).scale(CQ(F(1, 2)))
    elif name == "abs":
        a = args[0]
        c = a.const_value()
        if c is not None and c.isreal:
            return const(abs(c.re))
        if a.is_real():
            if a.is_nonneg():
                return a
            q, s = _lead_sign_normal(a)
            if len(a.terms) == 1:
                (m, c), = a.terms.items()
                if not m.binders:
                    r = const(abs(c.re)) if c.isreal else None
                    if r is not None and (len(m.factors) > 1 or c != CQ1):
                        for x, e in m.factors:
                            r = r * fn("abs", x.as_poly()).pow(e)
                        return r
            if s < 0:
                a = -a
            return Atom("fn", "abs", (a,), props="rn").as_poly()
        return (a * a.conjugate()).pow(F(1, 2))
    elif name == "pow":
        b, e = args
        ce = e.const_value()
        if ce is not None and ce.isreal:
            return b.pow(ce.re)
        if b.const_value() == CQ1:
            return ONE
        if b.is_integer() and e.is_integer():
            props = props + "i"
        if b.is_nonneg():
            props = props + ("p" if (b.const_value() is not None or _all_positive(b)) else "n")
        # x**(a+k) = x**a * x**k for integer constants k
        k = e.terms.get(MONO1)
        if k is not None and k.isreal and k.re.denominator == 1:
            return b.pow(k.re) * fn("pow", b, e - k.re)
    elif name == "floor":
        if args[0].is_integer():
            return args[0]
        props = "i"
    elif name == "signbit":
        return ind_lt0(args[0])
    elif name == "sign":
        a = args[0]
        l = ind_lt0(a)
        return ONE - l - l - ind_eq0(a)
    if name in REALFN and "r" not in props:
        props += "r"
    return Atom("fn", name, args, conj, props).as_poly()


def _all_positive(a):
    if not a.terms:
        return False
    strict = False
    for m, c in a.terms.items():
        if not (c.isreal and c.re > 0):
            return False
        if all(x.positive for x, _ in m.factors):
            strict = True
        elif not all(x.nonneg for x, _ in m.factors):
            return False
    return strict


# ---------------------------------------------------------------------------
def _neg_bases(p):
    out = {}
    for m in p.terms:
        for a, e in m.factors:
            if a.kind == "base" and e.denominator == 1 and e < 0 and not m.binders:
                out[a] = min(out.get(a, F(0)), e)
    return out


def equal(p, q):
    """decide p == q (cross-multiplying rational functions, reducing eq-indicators)"""
    d = p - q
    if d.is_zero():
        return True
    for _ in range(4):
        nb = _neg_bases(d)
        if not nb:
            break
        out = ZERO
        mult = [(a, -e) for a, e in nb.items()]
        for m, c in d.terms.items():
            have = dict(m.factors)
            t = Poly({m: c})
            if not m.binders:
                stripped = [(a, e) for a, e in m.factors if a not in nb]
                t = build_mono(stripped, {}).scale(c)
                for a, e in mult:
                    k = have.get(a, F(0)) + e
                    if k:
                        t = t * a.args[0].pow(k)
            else:
                for a, e in mult:
                    t = t * a.args[0].pow(e)
            out = out + t
        d = out
        if d.is_zero():
            return True
    # eq0(x - e) * poly : substitute
    out = ZERO
    changed = False
    for m, c in d.terms.items():
        eqs = [a for a, _ in m.factors if a.kind == "eq0"]
        done = False
        for a in eqs:
            s = _solve_linear(a.args[0])
            if s is None:
                continue
            x, val = s
            others = [(b, e) for b, e in m.factors if b is not a]
            if any(x in set(b.atoms()) for b, _ in others) and not m.binders:
                r = ONE
                for b, e in others:
                    r = r * replace_atom(b.as_poly() if b.kind != "base" else b.args[0], x, val).pow(e)
                out = out + r * a.as_poly().scale(c)
                changed = done = True
                break
        if not done:
            out = out + Poly({m: c})
    if changed:
        return equal(out, ZERO) if not out.is_zero() else True
    return False


def _solve_linear(p):
    for m, c in sorted(p.terms.items(), key=lambda t: t[0].key, reverse=True):
        if not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1:
            x = m.factors[0][0]
            if x.kind in ("sym", "fn", "var"):
                rest = p - Poly({m: c})
                if x not in set(rest.atoms()):
                    return x, rest.scale(-c.inv())
    return None


def replace_atom(p, x, val):
    """replace every occurrence of atom x (by key) in poly p by poly val"""
    def go_node(n):
        if isinstance(n, Poly):
            return replace_atom(n, x, val)
        if isinstance(n, Seq):
            return Seq([go_node(i) for i in n.items])
        if isinstance(n, Node) and hasattr(n, "map_polys"):
            return n.map_polys(lambda q: replace_atom(q, x, val))
        return n

    def go_atom(a):
        if a.kind == x.kind and a.key == x.key:
            return val
        if not x.real and a.kind == x.kind and a.conjugate().single_atom() is not None and a.conjugate().single_atom().key == x.key:
            return val.conjugate()
        if not any(b.key == x.key or b.key == ("~" + x.key) or ("~" + b.key) == x.key for b in a.atoms()):
            return a.as_poly()
        args = [go_node(b) for b in a.args]
        if a.kind == "lt0":
            return ind_lt0(args[0])
        if a.kind == "eq0":
            return ind_eq0(args[0])
        if a.kind == "delta":
            return delta(*args)
        if a.kind == "fn":
            return fn(a.name, *args, conj=a.conj, props=a.props)
        return Atom(a.kind, a.name, args, a.conj, a.props, a.dim).as_poly()

    out = ZERO
    for m, c in p.terms.items():
        fs, nb = m.open()
        r = ONE
        lst = []
        for a, e in fs:
            if isinstance(a, Poly):
                if a.single_atom() is None:
                    r = r * replace_atom(a, x, val).pow(e)
                    continue
                a = a.single_atom()
            if a.kind == "base":
                r = r * replace_atom(a.args[0], x, val).pow(e)
                continue
            q = go_atom(a)
            sa = q.single_atom()
            if sa is not None:
                lst.append((sa, e))
            else:
                r = r * q.pow(e)
        out = out + mul_under_binders(lst, nb, r).scale(c)
    return out


def pretty(p, maxlen=600):
    if not p.terms:
        return "0"
    parts = []
    for m in sorted(p.terms, key=lambda m: m.key):
        c = p.terms[m]
        fs = []
        for a, e in m.factors:
            fs.append(pretty_atom(a) if e == 1 else "%s^%s" % (pretty_atom(a), e))
        s = "*".join(fs)
        if m.binders:
            s = "Sum_{%s}(%s)" % (",".join("%s:%s" % ("$%d.%d" % (m.level, i), d.name) for i, d in enumerate(m.binders)), s)
        if c != CQ1 or not s:
            s = "%r%s" % (c, "*" + s if s else "")
        parts.append(s)
    r = " + ".join(parts)
    return r if len(r) <= maxlen else r[:maxlen] + "..."


def pretty_atom(a):
    if a.kind == "var":
        return a.key
    if a.kind == "lt0":
        return "[%s<0]" % pretty(a.args[0])
    if a.kind == "eq0":
        return "[%s==0]" % pretty(a.args[0])
    if a.kind == "base":
        return "(%s)" % pretty(a.args[0])
    body = ",".join(pretty(x) if isinstance(x, Poly) else repr(x) for x in a.args)
    s = ("conj " if a.conj else "") + str(a.name)
    if a.kind == "sym":
        return s + ("[%s]" % body if a.args else "")
    return "%s(%s)" % (s, body)


def rewrite(p, match):
    """bottom-up rewriting: match(atom) -> Poly or None"""
    memo = {}

    def go_node(n):
        if isinstance(n, Poly):
            return go(n)
        if isinstance(n, Seq):
            return Seq([go_node(i) for i in n.items])
        if hasattr(n, "map_polys"):
            return n.map_polys(go)
        return n

    def go_atom(a):
        if a.kind == "var" or a.kind == "prime":
            r = match(a)
            return r if r is not None else a.as_poly()
        args = [go_node(b) for b in a.args]
        if all(x is y or x == y for x, y in zip(args, a.args)):
            q = a.as_poly()
        elif a.kind == "lt0":
            q = ind_lt0(args[0])
        elif a.kind == "eq0":
            q = ind_eq0(args[0])
        elif a.kind == "delta":
            q = delta(*args)
        elif a.kind == "fn":
            q = fn(a.name, *args, conj=a.conj, props=a.props)
        else:
            q = Atom(a.kind, a.name, args, a.conj, a.props, a.dim).as_poly()
        s = q.single_atom()
        if s is None:
            return q
        r = match(s)
        if r is not None:
            return r
        if s.kind in ("sym", "fn") and not s.real:
            c = s.conjugate().single_atom()
            if c is not None:
                r = match(c)
                if r is not None:
                    return r.conjugate()
        return q

    def go(p):
        out = ZERO
        for m, c in p.terms.items():
            fs, nb = m.open()
            r = ONE
            lst = []
            for a, e in fs:
                if isinstance(a, Poly):
                    a = a.single_atom()
                if a.kind == "base":
                    r = r * go(a.args[0]).pow(e)
                    continue
                q = go_atom(a)
                sa = q.single_atom()
                if sa is not None:
                    lst.append((sa, e))
                else:
                    r = r * q.pow(e)
            out = out + mul_under_binders(lst, nb, r).scale(c)
        return out
    return go(p)


def replace_fn(p, name, f):
    """replace every symbol atom name[args] (whatever its indices) by f(args)"""
    if not any(a.kind == "sym" and a.name == name for a in p.atoms()):
        return p

    def match(a):
        if a.kind == "sym" and a.name == name and not a.conj:
            return f([x for x in a.args])
        return None
    return rewrite(p, match)
