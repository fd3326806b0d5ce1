import itertools
from .common import *

TITLE = "POVM operators and observables represent the given quantum operators"
P = "jVMC.operator.povm."
D = Dim.of_const
IM = nf.I


# matrices as nested lists of terms ------------------------------------------------------------------
def mat(t):
    if t.axes is None:
        raise Unknown("matrix of unknown shape")
    if t.rank == 0:
        return t.body
    n = t.axis_size(0).int_value()
    if n is None:
        raise Unknown("extent of an axis")
    return [mat(t.index_axis(0, const(i))) for i in range(n)]


def tens(m):
    return Tensor((), m) if isinstance(m, Poly) else L.T.stack_literal([tens(x) for x in m])


def cm(rows):
    return [cm(r) if isinstance(r, (list, tuple)) else r if isinstance(r, Poly) else const(r) for r in rows]


def mm(a, b):
    out = []
    for i in range(len(a)):
        row = []
        for j in range(len(b[0])):
            x = ZERO
            for k in range(len(b)):
                if not a[i][k].is_zero() and not b[k][j].is_zero():
                    x = x + a[i][k] * b[k][j]
            row.append(x)
        out.append(row)
    return out


def dag(a):
    return [[a[j][i].conjugate() for j in range(len(a))] for i in range(len(a[0]))]


def tr(a):
    return sum((a[i][i] for i in range(len(a))), ZERO)


def add(a, b, c=1):
    return [[x + y * c for x, y in zip(p, q)] for p, q in zip(a, b)]


def scale(a, c):
    return [[x * c for x in p] for p in a]


def kron(a, b):
    return [[a[i // len(b)][j // len(b[0])] * b[i % len(b)][j % len(b[0])] for j in range(len(a[0]) * len(b[0]))] for i in range(len(a) * len(b))]


X = cm([[0, 1], [1, 0]])
Y = cm([[0, -IM], [IM, 0]])
Z = cm([[1, 0], [0, -1]])
ID4 = cm([[int(i == j) for j in range(4)] for i in range(4)])


def omega(mode, A, M, Ti, a, b=None):
    """entry of the documented map of a matrix A for measurement operators M with inverse overlap Ti"""
    n = len(M)
    if mode == "obs":
        return sum((Ti[a][c] * tr(mm(M[c], A)) for c in range(n)), ZERO)
    Ad = dag(A)
    out = ZERO
    for c in range(n):
        if Ti[b][c].is_zero():
            continue
        mc, ma = M[c], M[a]
        if mode == "uni":
            x = IM * (-1) * tr(mm(A, add(mm(mc, ma), mm(ma, mc), -1)))
        elif mode == "imag":
            x = const(-1) * tr(mm(A, add(mm(mc, ma), mm(ma, mc))))
        else:
            x = tr(mm(mm(mm(A, mc), Ad), ma)) - const(F(1, 2)) * tr(mm(mm(Ad, A), add(mm(mc, ma), mm(ma, mc))))
        out = out + Ti[b][c] * x
    return out


def herm(name, n=2):
    def e(i, j):
        if i == j:
            return sym("%sd%d" % (name, i), props="r")
        x, y = sym("%sr%d%d" % (name, min(i, j), max(i, j)), props="r"), sym("%si%d%d" % (name, min(i, j), max(i, j)), props="r")
        return x + IM * y if i < j else x - IM * y
    return [[e(i, j) for j in range(n)] for i in range(n)]


def symm(name, n):
    return [[sym("%s%d%d" % (name, min(i, j), max(i, j)), props="r") for j in range(n)] for i in range(n)]


def numeric_povm():
    """measurement operators and a symmetric matrix with rational entries, without further structure"""
    r = iter([3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4, 6, 2, 6, 4, 3, 3, 8, 3, 2, 7, 9, 5])
    M = []
    for a in range(4):
        p, q, x, y = [const(F(next(r), 7)) for _ in range(4)]
        M.append([[p, x + IM * y], [x - IM * y, q]])
    v = {}
    Ti = [[None] * 4 for _ in range(4)]
    for i in range(4):
        for j in range(i, 4):
            Ti[i][j] = Ti[j][i] = const(F(next(r) - 4 + (7 if i == j else 0), 3))
    return M, Ti


def pyth(p):
    """normal form modulo cos^2 + sin^2 = 1"""
    for _ in range(50):
        out, changed = ZERO, False
        for m, c in p.terms.items():
            rest, extra = [], ONE
            if m.binders:
                return p
            for a, e in m.factors:
                if a.kind == "fn" and a.name == "cos" and isinstance(e, (int, F)) and e >= 2 and F(e).denominator == 1:
                    s = fn("sin", *a.args)
                    extra = extra * (ONE - s * s)
                    if e > 2:
                        extra = extra * fn("cos", *a.args).pow(F(e) - 2)
                    changed = True
                else:
                    extra = extra * a.as_poly().pow(F(e))
            out = out + extra * Poly({nf.MONO1: c})
        p = out
        if not changed:
            return p
    return p


def run(ctx):
    def entries(I, got, want, label, **kw):
        """compare nested lists entry by entry"""
        if isinstance(want, Poly):
            return [compare(I, Tensor((), got), Tensor((), want), label=label, **kw)]
        if not isinstance(got, list) or len(got) != len(want):
            return [flaw(I, "%s: %s entries instead of %d" % (label, len(got) if isinstance(got, list) else "no", len(want)))]
        r = []
        for i, (x, y) in enumerate(zip(got, want)):
            r += entries(I, x, y, "%s[%d]" % (label, i), **kw)
        return r

    # the map from matrices
    W = where(ctx, P + "matrix_to_povm")
    MODES = {"unitary": "uni", "uni": "uni", "dissipative": "dis", "dis": "dis", "observable": "obs", "obs": "obs", "imaginary": "imag", "imag": "imag"}

    def conv(mode, generic):
        I = ctx.interp()
        kind = MODES[mode]
        if generic:
            M, Ti = [herm("M%d" % a) for a in range(3)], symm("Ti", 3)
            A = herm("A") if kind != "dis" else [[sym("A%d%d" % (i, j)) for j in range(2)] for i in range(2)]
        else:
            M, Ti = numeric_povm()
            A = cm([[2, F(1, 3) - 3 * IM], [F(1, 3) + 3 * IM, 5]]) if kind != "dis" else cm([[2 + IM, F(1, 3)], [-1 + 4 * IM, 3]])
        r = I.num_of(I.call(fnv(ctx, I, P + "matrix_to_povm"), [tens(A), tens(M), tens(Ti)], dict(mode=Const(mode))))
        n = len(M)
        want = [omega(kind, A, M, Ti, a) for a in range(n)] if kind == "obs" else [[omega(kind, A, M, Ti, a, b) for b in range(n)] for a in range(n)]
        ctx.done(I)
        return conj(entries(I, mat(r), want, "%s map" % mode))
    for mode in MODES:
        ctx.ob("map/%s" % mode, "conversion of a matrix", W, lambda m=mode: conv(m, False))
        if len(mode) > 4 or mode == "imaginary":
            ctx.ob("map/%s/symbolic" % mode, "conversion of a matrix", W, lambda m=mode: conv(m, True))

    # predefined operators
    PRE = {"get_dissipators": ("dis", {"decayup": scale(add(X, scale(Y, IM)), const(F(1, 2))), "decaydown": scale(add(X, scale(Y, -IM)), const(F(1, 2))), "dephasing": Z}),
           "get_unitaries": ("uni", {"X": X, "Y": Y, "Z": Z, "XX": kron(X, X), "YY": kron(Y, Y), "ZZ": kron(Z, Z)}),
           "get_observables": ("obs", {"X": X, "Y": Y, "Z": Z})}

    def predefined(q, name):
        kind, table = PRE[q]
        M, Ti = numeric_povm()
        A = table[name]
        calls = []

        def conversion(I, a, k):
            """matrix_to_povm, which is analysed on its own"""
            a = list(a) + [k[x] for x in ("A", "M", "T_inv")[len(a):] if x in k]
            mode = k.get("mode", a[3] if len(a) > 3 else Const("unitary"))
            calls.append((a, mode))
            n = I.num_of(a[1]).axis_size(0).int_value()
            if n is None or not isinstance(mode, Const) or mode.val not in MODES:
                raise Unknown("call of matrix_to_povm")
            v = [var(D(n)) for _ in range(1 if MODES[mode.val] == "obs" else 2)]
            return T(v, fn("CONV", const(len(calls) - 1), *[x.as_poly() for x in v], props="r"))
        I = ctx.interp(overrides={P + "matrix_to_povm": PyFn(conversion, "matrix_to_povm")})
        r = I.call(fnv(ctx, I, P + q), [tens(M), tens(Ti)], {})
        ctx.done(I)
        ks = strkeys(I, r)
        if ks is not None and not set(table) <= ks:
            return flaw(I, "%s offers %s" % (q, sorted(ks)))
        t = I.num_of(I.getitem(r, Const(name)))
        if len(A) == 4:
            M, Ti = [kron(M[i], M[j]) for i in range(4) for j in range(4)], kron(Ti, Ti)
        n = len(M)
        rs = []
        for i, (a, mode) in enumerate(calls):
            v = [var(D(n)) for _ in range(1 if kind == "obs" else 2)]
            if compare(I, t, T(v, fn("CONV", const(i), *[x.as_poly() for x in v], props="r")), allow=("CONV",)).status == HOLDS:
                if MODES[mode.val] != kind:
                    return flaw(I, "%s of %s is converted in mode %s" % (name, q, mode.val))
                for x, want, what in zip(a, (A, M, Ti), ("matrix", "measurement operators", "inverse overlap matrix")):
                    rs += entries(I, mat(I.num_of(x)), want, "%s for %s of %s" % (what, name, q))
                return conj(rs)
        if calls and len(A) == 4:
            return dunno("%s of %s is not the result of one conversion" % (name, q))
        pts = [(a,) for a in range(n)] if kind == "obs" else [(a, b) for a in range(n) for b in range(n)]
        if n == 16:
            pts = [(0, 1), (3, 9)]
        for p in pts:
            x = t
            for i in p:
                x = x.index_axis(0, const(i))
            rs.append(compare(I, x, Tensor((), omega(kind, A, M, Ti, *p)), label="%s of %s, entry %s" % (name, q, p)))
        return conj(rs)
    for q, (_, table) in PRE.items():
        for name in table:
            ctx.ob("%s/%s" % (q, name), "predefined operator", where(ctx, P + q), lambda q=q, n=name: predefined(q, n))

    # measurement operators
    def sic(th, ph):
        I = ctx.interp()
        t, p = [Tensor((), sym(q, props="r")) if v is None else num(v) for q, v in (("theta", th), ("phi", ph))]
        r = I.call(fnv(ctx, I, P + "get_M"), [t, p, Const("SIC")], {})
        M = mat(I.num_of(r))
        ctx.done(I)
        if len(M) != 4:
            return flaw(I, "%d measurement operators" % len(M))
        red = lambda m: pyth(m) if isinstance(m, Poly) else [red(x) for x in m]
        M = red(M)
        rs = entries(I, red(dag(M[0])), M[0], "adjoint of the first operator")
        tot = M[0]
        for x in M[1:]:
            rs += entries(I, red(dag(x)), x, "adjoint of an operator")
            tot = add(tot, x)
        rs += entries(I, red(tot), cm([[1, 0], [0, 1]]), "sum of the measurement operators")
        for a in range(4):
            for b in range(a, 4):
                rs.append(compare(I, Tensor((), pyth(tr(mm(M[a], M[b])))), num(F(3 if a == b else 1, 12)), label="overlap of the operators %d and %d" % (a, b)))
        return conj(rs)
    ctx.ob("SIC/default angles", "symmetric informationally complete POVM", where(ctx, P + "get_M"), lambda: sic(0, 0))
    ctx.ob("SIC/any angles", "symmetric informationally complete POVM", where(ctx, P + "get_M"), lambda: sic(None, None))

    # product states
    h = const(2).pow(F(-1, 2))
    STATES = {"z_up": [ONE, ZERO], "z_down": [ZERO, ONE], "x_up": [h, h], "x_down": [h, -h], "y_up": [h, IM * h], "y_down": [h, -IM * h]}

    def dist(name):
        I = ctx.interp()
        M = [herm("M%d" % a) for a in range(4)]
        pv = StubObj("povm", {"M": tens(M), "__isa__": ()})
        r = I.num_of(I.call(fnv(ctx, I, P + "get_1_particle_distributions"), [Const(name), pv], {}))
        v = [[x] for x in STATES[name]]
        ctx.done(I)
        return conj(entries(I, mat(r), [tr(mm(dag(v), mm(m, v))) for m in M], "distribution of %s" % name))
    for name in STATES:
        ctx.ob("distribution/%s" % name, "outcome probabilities", where(ctx, P + "get_1_particle_distributions"), lambda n=name: dist(n))

    # the collection of operators
    def povm_obj(I, L_=3, dim="1D"):
        return I.call(cls(ctx, P + "POVM"), [pdict(I, {"dim": Const(dim), "L": num(L_)})], {})

    def symbolic_povm():
        M = array("M", [D(4), D(2), D(2)])
        ov = {P + "get_M": PyFn(lambda I, a, k: M, "get_M")}

        def table(tag, names):
            return PyFn(lambda I, a, k: pdict(I, {n: T2(tag + n, I.node(a[0]), I.node(a[1])) for n in names}), tag)

        def T2(nm, *nodes):
            a, b = var(D(4)), var(D(4))
            return T([a, b], fn("OP" + nm, a.as_poly(), b.as_poly(), *nodes, props="r"))
        ov[P + "get_dissipators"] = table("D", ("decayup", "dephasing"))
        ov[P + "get_unitaries"] = table("U", ("X", "ZZ"))
        ov[P + "get_observables"] = table("O", ("X", "Z"))
        return M, T2, ctx.interp(overrides=ov)

    def collection():
        M, T2, I = symbolic_povm()
        o = povm_obj(I)
        rs = []
        t = I.num_of(I.getattr(o, "T"))
        for a in range(4):
            for b in range(4):
                w = ZERO
                for i in range(2):
                    for j in range(2):
                        w = w + at(M, a, i, j) * at(M, b, j, i)
                rs.append(compare(I, t.index_axis(0, const(a)).index_axis(0, const(b)), Tensor((), w), label="overlap matrix (%d, %d)" % (a, b)))
        ti = I.getattr(o, "T_inv")
        rs.append(compare(I, I.num_of(ti), I.num_of(I.call(Lib("np.linalg.inv"), [t], {})), allow=("inv",), label="inverse overlap matrix"))
        nodes = [I.node(M), I.node(ti)]

        def expect(extra, what):
            ops = I.getattr(o, "operators")
            want = {"decayup": T2("Ddecayup", *nodes), "dephasing": T2("Ddephasing", *nodes), "X": T2("UX", *nodes), "ZZ": T2("UZZ", *nodes)}
            want.update(extra)
            ks = strkeys(I, ops)
            if ks is not None and ks != set(want):
                rs.append(flaw(I, "operators %s: available are %s" % (what, sorted(ks))))
                return
            for k, v in want.items():
                rs.append(compare(I, I.num_of(I.getitem(ops, Const(k))), v, allow=("OP" + x for x in ()), label="operator %s %s" % (k, what)))
        expect({}, "initially")
        extra = {}
        for kind, name in (("unitary", "u1"), ("dissipator", "d1"), ("imaginary", "i1"), ("unitary", "u2")):
            extra[name] = array("new_" + name, [D(4), D(4)], props="r")
            I.call(I.getattr(o, "add_" + kind), [Const(name), extra[name]], {})
            expect(dict(extra), "after add_%s" % kind)
        for kind in ("unitary", "dissipator", "imaginary"):
            for name in ("X", "decayup", "u1", "d1", "i1"):
                sub = ctx.interp
                try:
                    I.call(I.getattr(o, "add_" + kind), [Const(name), array("again", [D(4), D(4)], props="r")], {})
                except Raised:
                    continue
                rs.append(flaw(I, "add_%s replaces the existing operator %s" % (kind, name)))
        obs = I.getattr(o, "observables")
        for k in ("X", "Z"):
            rs.append(compare(I, I.num_of(I.getitem(obs, Const(k))), T2("O" + k, *nodes), label="observable %s" % k))
        ctx.done(I)
        return conj(rs)
    ctx.ob("collection", "available operators", where(ctx, P + "POVM"), collection)

    # connected configurations of an operator
    def connected(ops, nsite, shape=None, confs=None, twice=None):
        I = ctx.interp()
        names = sorted({(o[0], len(o[1])) for o in ops + (twice or [])})
        tab = {n: array("W" + n, [D(4 ** k), D(4 ** k)], props="r") for n, k in names}
        pv = StubObj("povm", {"__isa__": ("POVM",), "operators": pdict(I, tab)})
        o = I.call(cls(ctx, P + "POVMOperator"), [pv], {})

        def put(l, base):
            for i, (n, sites) in enumerate(l):
                I.call(I.getattr(o, "add"), [pdict(I, {"name": Const(n), "strength": Tensor((), sym("g%d" % (base + i), props="r")), "sites": Tup([num(q) for q in sites])})], {})

        def check(l, what):
            rs = []
            for c in (confs or [(0, 1, 2, 3)[:nsite], (3, 3, 0, 2)[:nsite]]):
                x = tens(cm(list(c)))
                if shape:
                    x = L.T.reshape(x, [const(q) for q in shape])
                r = I.unpack(I.call(I.call(I.getattr(o, "compile"), [], {}), [x], {}), 2)
                sp, me = [I.num_of(q) for q in r]
                me = mat(me)
                if shape:
                    sp = L.T.reshape(sp, [const(len(me)), const(nsite)])
                sp = mat(sp)
                got = {}
                if len(sp) != len(me):
                    return [flaw(I, "%d connected configurations and %d matrix elements" % (len(sp), len(me)))]
                for q, m in zip(sp, me):
                    key = tuple(z.int_value() for z in q)
                    if None in key:
                        return [dunno("connected configuration %s" % (q,))]
                    got[key] = got.get(key, ZERO) + m
                for t in itertools.product(range(4), repeat=nsite):
                    w = ZERO
                    for i, (n, sites) in enumerate(l):
                        if all(t[q] == c[q] for q in range(nsite) if q not in sites):
                            a = b = 0
                            for q in sites:
                                a, b = 4 * a + c[q], 4 * b + t[q]
                            w = w + sym("g%d" % i, props="r") * at(tab[n], a, b)
                    rs.append(compare(I, Tensor((), got.pop(t, ZERO)), Tensor((), w), label="%s: element from %s to %s" % (what, c, t)))
                for t, m in got.items():
                    if not m.is_zero():
                        rs.append(flaw(I, "%s: connects %s to %s" % (what, c, t)))
            return rs
        put(ops, 0)
        rs = check(ops, "operators on %s" % [o_[1] for o_ in ops])
        if twice:
            put(twice, len(ops))
            rs += check(ops + twice, "after adding operators on %s" % [o_[1] for o_ in twice])
        ctx.done(I)
        return conj(rs)
    CASES = {"one site": ([("A", (0,)), ("A", (1,)), ("B", (1,))], 2), "two sites": ([("P", (0, 1)), ("P", (1, 0))], 2),
             "mixed": ([("P", (0, 1)), ("A", (0,)), ("B", (1,))], 2), "mixed chain": ([("A", (0,)), ("A", (1,)), ("A", (2,)), ("P", (0, 1)), ("P", (1, 2)), ("P", (2, 0))], 3),
             "distant": ([("P", (0, 2)), ("B", (2,)), ("A", (1,))], 3), "repeated": ([("P", (0, 1)), ("P", (0, 1)), ("Q", (0, 1)), ("A", (0,)), ("A", (0,))], 2)}
    CASES["three sites"] = ([("R", (2, 0, 1)), ("A", (1,)), ("P", (2, 0)), ("B", (2,)), ("P", (0, 2))], 3)
    W = where(ctx, P + "POVMOperator.compile")
    for nm, (l, n) in CASES.items():
        ctx.ob("connected/%s" % nm, "connected configurations", W, lambda l=l, n=n, m=nm: connected(l, n, confs=[(0, 1, 2)] if m == "three sites" else None))
    ctx.ob("connected/lattice", "connected configurations", W, lambda: connected([("P", (0, 3)), ("A", (2,))], 4, shape=(2, 2), confs=[(0, 1, 2, 3)]))
    ctx.ob("connected/added later", "connected configurations", W, lambda: connected([("A", (0,)), ("A", (1,))], 2, twice=[("P", (1, 0)), ("B", (0,))]))

    # observables per configuration
    def observable(dim, n):
        M, T2, I = symbolic_povm()
        o = povm_obj(I, n, dim)
        sites = [n] if dim == "1D" else [n, n]
        st = data("s", "dev", "batch", *[D(q) for q in sites], props="rin")
        ob = array("ob", [D(4)], props="r")
        r = I.unpack(I.call(I.getattr(o, "evaluate_observable"), [ob, st], {}), 2)
        ctx.done(I)
        d, b = V_("dev"), V_("batch")
        pts = list(itertools.product(*[range(q) for q in sites]))

        def val(p):
            return at(ob, at(st, d, b, *p))
        tot = sum((val(p) for p in pts), ZERO) * const(F(1, len(pts)))
        rs = [compare(I, I.num_of(r[0]), T([d, b], tot), label="average over the sites")]
        c = r[1]
        for k in range(n):
            got = I.num_of(I.getitem(c, num(k)))
            alts = []
            for ax in range(len(sites)):
                w = ZERO
                for p in pts:
                    q = list(p)
                    q[ax] = (q[ax] + k) % n
                    w = w + val(p) * val(tuple(q))
                alts.append(compare(I, got, T([d, b], w * const(F(1, len(pts)))), label="correlation at distance %d" % k))
            good = [x for x in alts if x.status == HOLDS]
            und = [x for x in alts if x.status == UNDECIDED]
            rs.append((good or und or alts)[0])
        return conj(rs)
    for dim, n in (("1D", 3), ("1D", 4), ("2D", 2), ("2D", 3)):
        ctx.ob("observable/%s/%d" % (dim, n), "observables of a configuration", where(ctx, P + "POVM.evaluate_observable"), lambda a=dim, b=n: observable(a, b))
    ctx.floor("obligations", len(ctx.obs), 45)
