"""Identity testing of normal forms.

Two value-graph terms with different normal forms may still denote the same function
(the normal form is not complete for all of arithmetic).  Before a difference is
reported it therefore has to be *witnessed*: all symbols are interpreted by random but
consistent numbers, index extents by 2 or 3, uninterpreted functions by a random
oracle, and the two terms have to evaluate differently.  Only terms are evaluated here,
never repository code.
"""
import itertools
import cmath
import hashlib
import math
from fractions import Fraction

from .nf import *
from . import nf
from .tensor import Tensor

INTERPRETED = {"exp", "log", "sin", "cos", "tan", "tanh", "abs", "real", "imag", "angle", "floor", "floordiv", "pow",
               "log1p", "expm1", "sqrt", "cosh", "sinh", "arctan", "round", "trunc", "truth", "ceil", "BitAnd", "BitOr", "BitXor"}


SEQ_FNS = {"max", "min", "prod", "sort", "argsort"}


class BadPoint(Exception):
    pass


RANK = None      # process index variable, set by lib
NORM = nf.NORM = getattr(nf, "NORM", {})


def _r(x):
    if isinstance(x, complex):
        def f(v):
            if v == 0 or abs(v) < 1e-12:
                return 0.0
            return float("%.7e" % v)
        return (f(x.real), f(x.imag))
    return x


class Valuation:
    def __init__(self, seed, mode=0, sizes=None, values=None):
        self.seed, self.mode = seed, mode
        self.sizes = sizes or {}
        self.values = values or {}
        self.cache = {}
        self.plans = {}
        self.syms = {}
        self.ids, self.canon, self.memo = {}, {}, {}
        self.genv = {}         # values of variables that are free in extents (process rank)

    def rnd(self, *key):
        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return [int.from_bytes(h[4 * i:4 * i + 4], "big") / 2.0 ** 32 for i in range(4)]

    def number(self, key, props):
        u = self.rnd(key)
        if "b" in props:
            return complex(int(u[0] < .5))
        if "i" in props:
            lo = 1 if "p" in props else (0 if "n" in props else -1)
            return complex(lo + int(u[0] * 4))
        if self.mode == 1:
            pool = [0.5, 1.0, 2.0, 3.0] if "p" in props else ([0.0, 1.0, 2.0, .5] if "n" in props else [-1.0, 0.0, 1.0, 2.0])
            x = pool[int(u[0] * 4)]
            if "r" in props or "n" in props or "p" in props:
                return complex(x)
            return complex(x, [-1.0, 0.0, 1.0, 0.0][int(u[1] * 4)])
        if "p" in props or "n" in props:
            return complex(.2 + 1.3 * u[0])
        if "r" in props:
            return complex(3 * u[0] - 1.5)
        return complex(2 * u[0] - 1, 2 * u[1] - 1)

    def dim_size(self, d):
        if d.const is not None:
            return d.const
        v = self.poly(d.size, self.genv)
        n = int(round(v.real))
        if n < 0 or n > 12 or abs(v - n) > 1e-9:
            raise BadPoint()
        return n

    # ---------------------------------------------------------------
    def poly(self, p, env):
        tot = 0j
        for m, c in p.terms.items():
            tot += complex(float(c.re), float(c.im)) * self.mono(m, env)
        if cmath.isnan(tot) or cmath.isinf(tot):
            raise BadPoint()
        return tot

    def mono(self, m, env):
        if not m.binders:
            return self.factors(m.factors, env)
        # independent groups of binders are summed separately
        groups = self.plans.get(id(m))
        if groups is None:
            groups = self.plans[id(m)] = (m, _groups(m))
        out = 1 + 0j
        for bs, fs in groups[1]:
            if not bs:
                out *= self.factors(fs, env)
            else:
                fvs = set()
                for a, _ in fs:
                    fvs |= a.fv
                ck = (id(fs), self.own(), tuple(sorted((str(v), env[v]) for v in fvs if v in env and not (isinstance(v, tuple) and v[0] == m.level and v[1] in bs))))
                if ck not in self.cache:
                    self.cache[ck] = self._sum(m, bs, fs, env)
                out *= self.cache[ck]
            if out == 0:
                return 0j
        return out

    def own(self):
        return self.genv.get(RANK.name) if RANK is not None else None

    def _sum(self, m, bs, fs, env):
        if RANK is not None and RANK.name in self.genv:
            # extents that depend on the process follow the process that is summed over
            rb = [i for i in bs if m.binders[i] == RANK.dim]
            if len(rb) == 1 and len(bs) > 1 and any(m.binders[i].const is None and RANK.name in m.binders[i].size.fv for i in bs):
                rest = tuple(i for i in bs if i != rb[0])
                own = self.genv[RANK.name]
                tot = 0j
                try:
                    for k in range(self.dim_size(RANK.dim)):
                        self.genv[RANK.name] = k
                        e = dict(env)
                        e[(m.level, rb[0])] = k
                        tot += self._sum(m, rest, fs, e)
                finally:
                    self.genv[RANK.name] = own
                return tot
        tot = 0j
        sizes = [self.dim_size(m.binders[i]) for i in bs]
        n = 1
        for s in sizes:
            n *= s
        if n > 20000:
            raise BadPoint()
        e = dict(env)

        def rec(i):
            nonlocal tot
            if i == len(bs):
                tot += self.factors(fs, e)
                return
            for k in range(sizes[i]):
                e[(m.level, bs[i])] = k
                rec(i + 1)
        rec(0)
        return tot

    def factors(self, fs, env):
        r = 1 + 0j
        rest = []
        for a, e in fs:
            if a.kind in ("lt0", "eq0", "delta"):
                v = self.atom(a, env)
                if v == 0:
                    return 0j
            else:
                rest.append((a, e))
        for a, e in rest:
            v = self.atom(a, env)
            if e == 1:
                r *= v
            elif e.denominator == 1:
                if v == 0 and e < 0:
                    raise BadPoint()
                r *= v ** int(e)
            else:
                if v == 0:
                    if e < 0:
                        raise BadPoint()
                    return 0j
                r *= cmath.exp(float(e) * cmath.log(v))
        return r

    def atom(self, a, env):
        k = a.kind
        if k == "var":
            if a.name not in env:
                raise BadPoint()
            return complex(env[a.name])
        if k not in ("lt0", "eq0", "fn"):
            return self._atom(a, env)
        c = self.ids.get(id(a))
        if c is None:
            c = self.ids[id(a)] = (a, self.canon.setdefault(a.key, len(self.canon)), tuple(sorted(a.fv, key=str)))
        ck = (c[1], self.own()) + tuple(env.get(v) for v in c[2])
        r = self.memo.get(ck)
        if r is None:
            try:
                r = self._atom(a, env)
            except BadPoint:
                r = BadPoint
            self.memo[ck] = r
        if r is BadPoint:
            raise BadPoint()
        return r

    def _atom(self, a, env):
        k = a.kind
        if k == "lt0":
            v = self.poly(a.args[0], env)
            if abs(v.real) < 1e-9:
                return 0j
            return 1 + 0j if v.real < 0 else 0j
        if k == "eq0":
            return 1 + 0j if abs(self.poly(a.args[0], env)) < 1e-9 else 0j
        if k == "delta":
            return 1 + 0j if abs(self.poly(a.args[0], env) - self.poly(a.args[1], env)) < 1e-9 else 0j
        if k == "base":
            return self.poly(a.args[0], env)
        if k == "prime":
            return complex(a.name)
        if k == "sym":
            ix = tuple(_r(self.node(x, env)) for x in a.args)
            v = self.symbol(a.name, ix, a.props)
            return v.conjugate() if a.conj else v
        v = self.function(a, env)
        return v.conjugate() if a.conj else v

    def symbol(self, name, ix, props):
        if name in self.values:
            f = self.values[name]
            return complex(f(*[x[0] if isinstance(x, tuple) else x for x in ix]) if callable(f) else f)
        if name.startswith("|") and name.endswith("|"):
            return complex(self.sizes.get(name[1:-1], 2 + int(self.rnd("size", name)[0] * 2)))
        sk = (name, ix)
        if sk in self.syms:
            return self.syms[sk]
        v = self.number((name, ix), props)
        if "N" in props and name in NORM:
            key = ("norm", name)
            if key not in self.cache:
                dims = NORM[name]
                tot = 0

                def rec(i, acc):
                    nonlocal tot
                    if i == len(dims):
                        tot += self.number((name, tuple(_r(complex(x)) for x in acc)), props)
                        return
                    for k in range(self.dim_size(dims[i])):
                        rec(i + 1, acc + [k])
                rec(0, [])
                self.cache[key] = tot
            v = v / self.cache[key]
        self.syms[sk] = v
        return v

    def function(self, a, env):
        n = a.name
        if n in INTERPRETED and all(isinstance(x, Poly) for x in a.args):
            x = [self.poly(y, env) for y in a.args]
            try:
                return self.math(n, x)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise BadPoint()
        if n in SEQ_FNS and a.args and hasattr(a.args[0], "v") and hasattr(a.args[0], "items") and len(a.args[0].items) == 1 \
                and isinstance(a.args[0].items[0], Poly):
            b = a.args[0]
            vals = []
            for q in range(self.dim_size(b.v.dim)):
                e = dict(env)
                e[b.v.name] = q
                vals.append(self.poly(b.items[0], e))
            if n == "prod":
                r = 1 + 0j
                for x in vals:
                    r *= x
                return r
            if not vals:
                raise BadPoint()
            if n in ("max", "min"):
                return (max if n == "max" else min)(vals, key=lambda z: z.real)
            ix = int(round(self.poly(a.args[1], env).real))
            order = sorted(range(len(vals)), key=lambda q: (round(vals[q].real, 9), q))
            if not 0 <= ix < len(vals):
                raise BadPoint()
            return vals[order[ix]] if n == "sort" else complex(order[ix])
        key = (n,) + tuple(_r(self.node(x, env)) for x in a.args)
        if n == "uniform":
            return complex(self.rnd(("fn",) + key)[0])
        if n == "randint":
            lo, hi = [self.node(x, env) for x in a.args[1:3]]
            if isinstance(lo, complex) and isinstance(hi, complex):
                lo, hi = int(round(lo.real)), int(math.floor(hi.real + 1e-9))
                if hi <= lo:
                    raise BadPoint()
                return complex(lo + int(self.rnd(("fn",) + key)[0] * (hi - lo)))
        return self.number(("fn",) + key, a.props)

    def math(self, n, x):
        z = x[0]
        if n in ("exp", "log", "sin", "cos", "tan", "tanh", "cosh", "sinh", "sqrt"):
            if n == "log" and z == 0:
                raise BadPoint()
            return getattr(cmath, n)(z)
        if n == "arctan":
            return cmath.atan(z)
        if n == "abs":
            return complex(abs(z))
        if n == "real":
            return complex(z.real)
        if n == "imag":
            return complex(z.imag)
        if n == "angle":
            return complex(cmath.phase(z))
        if n == "floor":
            return complex(math.floor(z.real + 1e-9))
        if n == "ceil":
            return complex(math.ceil(z.real - 1e-9))
        if n == "trunc":
            return complex(math.trunc(z.real + (1e-9 if z.real > 0 else -1e-9)))
        if n == "round":
            return complex(round(z.real))
        if n in ("BitAnd", "BitOr", "BitXor"):
            a, b = [int(round(y.real)) for y in x]
            return complex(a & b if n == "BitAnd" else (a | b if n == "BitOr" else a ^ b))
        if n in ("mod", "remainder") and len(x) == 2:
            return complex(x[0].real - x[1].real * math.floor(x[0].real / x[1].real + 1e-9))
        if n == "floordiv":
            return complex(math.floor(z.real / x[1].real + 1e-9))
        if n == "truth":
            return complex(abs(z) > 1e-12)
        if n == "pow":
            e = x[1]
            if z == 0:
                if e.real > 0:
                    return 0j
                if e == 0:
                    return 1 + 0j
                raise BadPoint()
            if abs(e.imag) < 1e-12 and abs(e.real - round(e.real)) < 1e-12:
                return z ** int(round(e.real))
            return cmath.exp(e * cmath.log(z))
        raise BadPoint()

    def node(self, x, env):
        if isinstance(x, Poly):
            return self.poly(x, env)
        if isinstance(x, Tensor):
            if not x.axes:
                return self.poly(x.body, env)
            out = []

            def rec(vs, e):
                if not vs:
                    out.append(_r(self.poly(x.body, e)))
                    return
                for k in range(self.dim_size(vs[0].dim)):
                    e2 = dict(e)
                    e2[vs[0].name] = k
                    rec(vs[1:], e2)
            shp = []
            for ax in x.axes:
                s = 1
                for v in ax:
                    s *= self.dim_size(v.dim)
                shp.append(s)
            rec([v for ax in x.axes for v in ax], dict(env))
            if len(out) > 4000:
                raise BadPoint()
            return ("T", tuple(shp), tuple(out))
        if isinstance(x, K):
            return x.key
        if isinstance(x, Seq):
            return tuple(_r(self.node(i, env)) for i in x.items)
        if hasattr(x, "v") and hasattr(x, "items"):   # SeqB
            out = []
            for k in range(self.dim_size(x.v.dim)):
                e = dict(env)
                e[x.v.name] = k
                out.append(tuple(_r(self.node(i, e)) for i in x.items))
            return ("B", tuple(out))
        if hasattr(x, "names"):
            return self.node(x.n, env)
        return x.key


def _groups(m):
    """connected components of the binders of a monomial (linked by common factors)"""
    nb = len(m.binders)
    comp = list(range(nb))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    mine = []
    for a, e in m.factors:
        bs = [v[1] for v in a.fv if isinstance(v, tuple) and v[0] == m.level]
        mine.append(bs)
        for b in bs[1:]:
            comp[find(b)] = find(bs[0])
    out = {}
    for i in range(nb):
        out.setdefault(find(i), ([], []))[0].append(i)
    free = ([], [])
    for bs, f in zip(mine, m.factors):
        (out[find(bs[0])] if bs else free)[1].append(f)
    r = list(out.values())
    if free[1]:
        r.insert(0, free)
    return r


def fn_names(node):
    """uninterpreted function names occurring in a node"""
    return {a.name for a in node.atoms() if a.kind == "fn" and a.name not in INTERPRETED
            and not (a.name in SEQ_FNS and a.args and hasattr(a.args[0], "v") and hasattr(a.args[0], "items"))}


def sym_names(node):
    return {a.name for a in node.atoms() if a.kind == "sym"}


def free_dims(polys):
    out = {}
    for p in polys:
        for a in p.atoms():
            if a.kind == "var" and not isinstance(a.name, tuple):
                out[a.name] = a.dim
    return out


def critical(p, q, sizes, values):
    """valuations on both sides of the case distinctions the terms make on extents and scalar symbols: [(sizes, values)]"""
    got, want, out, seen = set(), set(), [], set()
    for which, t in ((got, p), (want, q)):
        for a in t.atoms():
            if a.kind in ("lt0", "eq0") and isinstance(a.args[0], Poly) and a.key not in seen:
                which.add(a)
    for a in sorted(got | want, key=lambda x: x.key):
        ts = a.args[0].terms
        lone = [m for m in ts if m.factors]
        if len(lone) != 1 or lone[0].binders or len(lone[0].factors) != 1:
            continue
        x, e = lone[0].factors[0]
        if x.kind != "sym" or x.args or e != 1 or not ts[lone[0]].isreal or any(not c.isreal for c in ts.values()):
            continue
        c0 = [c.re for m, c in ts.items() if not m.factors]
        t = -(c0[0] if c0 else 0) / ts[lone[0]].re
        for d in (0, -1, 1):
            z = t + d
            if x.name.startswith("|"):
                n = x.name[1:-1]
                z = int(z // 1)
                if (sizes and n in sizes) or z < 1 or z > 6 or (n, z) in seen:
                    continue
                seen.add((n, z))
                out.append(({n: z}, {}))
            else:
                if (values and x.name in values) or (x.name, z) in seen or ("i" in x.props and z != int(z)) or ("n" in x.props and z < 0) or ("p" in x.props and z <= 0):
                    continue
                seen.add((x.name, z))
                out.append(({}, {x.name: float(z)}))
    return out[:9]


def witness(p, q, seeds=6, sizes=None, values=None, constraint=None):
    """search a valuation separating the scalar terms p and q.
    -> (status, text) with status 'differ' | 'agree' | 'unknown'"""
    dims = {}
    for n, d in free_dims([p, q]).items():
        if n in p.fv or n in q.fv:
            dims[n] = d
    ok = 0
    extra = critical(p, q, sizes, values)
    for s in range(seeds + len(extra)):
        if s < seeds:
            V = Valuation(s, mode=s % 2, sizes=sizes, values=values)
        else:
            z, v = extra[s - seeds]
            V = Valuation(s, mode=s % 2, sizes={**(sizes or {}), **z}, values={**(values or {}), **v})
        pts = 0
        if RANK is not None:
            V.genv[RANK.name] = int(V.rnd("rank")[0] * V.dim_size(RANK.dim))
        try:
            ext = {n: V.dim_size(d) for n, d in dims.items()}
        except BadPoint:
            continue
        if any(not e for e in ext.values()):
            continue
        order = sorted(dims, key=str)
        tot = 1
        for n in order:
            tot *= ext[n]
        allp = None
        if dims and tot <= 64 and s < 3:
            allp = list(itertools.product(*[range(ext[n]) for n in order]))
        for t in range(len(allp) if allp is not None else 24):
            env = {}
            for j, n in enumerate(order):
                env[n] = allp[t][j] if allp is not None else int(V.rnd("env", t, j)[0] * ext[n])
            env.update(V.genv)
            try:
                a, b = V.poly(p, env), V.poly(q, env)
            except (BadPoint, OverflowError, ZeroDivisionError):
                continue
            pts += 1
            if abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)):
                ctx = ", ".join("%s=%d" % (dims[n].name, env[n]) for n in sorted(dims, key=str))
                return "differ", "valuation #%d (%s): %s vs required %s" % (s, ctx or "-", _show(a), _show(b))
            if not dims and t > 0:
                break
        if pts:
            ok += 1
    if ok >= 2:
        return "agree", "%d valuations" % ok
    return "unknown", "no admissible valuation"


def _show(z):
    if abs(z.imag) < 1e-12:
        return "%.6g" % z.real
    return "%.6g%+.6gi" % (z.real, z.imag)


def value(p, env=None, sizes=None, values=None, rank=None, seed=0):
    """value of a term in one interpretation"""
    V = Valuation(seed, sizes=sizes, values=values)
    if RANK is not None:
        V.genv[RANK.name] = rank or 0
    e = dict(env or {})
    e.update(V.genv)
    return V.poly(p, e)
