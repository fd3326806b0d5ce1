from .common import *

TITLE = "Operator strings act as the weighted products of their local factors"
M = "jVMC.operator.branch_free."


def apply_string(conf, coef, factors):
    """specification: rightmost factor first; (idx, map(x), mat(x), fermionic)"""
    conf = list(conf)
    for idx, mp, mt, fermi in reversed(factors):
        x = conf[idx]
        coef = coef * mt(x)
        if fermi:
            for j in range(idx + 1, len(conf)):
                coef = coef * (ONE - conf[j].scale(CQ(2)))
        conf[idx] = mp(x)
    return coef, conf


def G(conf):
    return fn("G", *conf)


class Env_:
    def __init__(self, ctx, shape=(3,), ldim=2, I=None):
        self.ctx, self.I = ctx, I or ctx.interp()
        self.ldim = ldim
        self.s = array("s", [Dim.of_const(n) for n in shape], props="rinb" if ldim == 2 else "rin")
        self.shape = shape
        self.tables = {}
        n = 1
        for k in shape:
            n *= k
        self.conf = []
        for i in range(n):
            ix, r = [], i
            for k in reversed(shape):
                ix.insert(0, r % k)
                r //= k
            self.conf.append(at(self.s, *ix))
        self.values = {}
        if ldim != 2:
            self.values["s"] = lambda *ix: (int(sum((j + 1) * (a + 1) for j, a in enumerate(ix))) * 7 + 1) % ldim

    def generic(self, name, idx, diag=False, fermionic=False):
        """a local operator with arbitrary table"""
        d = Dim.of_const(self.ldim)
        mat = array("m" + name, [d])
        if diag:
            v = var(d)
            mp = Tensor([(v,)], v.as_poly())
        else:
            mp = array("map" + name, [d], props="rinb")
        kw = dict(idx=num(idx), map=mp, matEls=mat, diag=Const(diag))
        if fermionic:
            kw["fermionic"] = Const(True)
        o = self.I.call(cls(self.ctx, M + "LocalOp"), [], kw)
        return o, (idx, (lambda x: x) if diag else (lambda x: sym("map" + name, [x], "rinb")), lambda x: sym("m" + name, [x]), fermionic)

    def mul(self, a, b):
        return self.I.binop(ast.Mult(), a, b)

    def string(self, *ops):
        return self.I.call(cls(self.ctx, M + "OpStr"), list(ops), {})

    def builtin(self, name, idx):
        return self.I.call(fnv(self.ctx, self.I, M + name), [num(idx)], {})

    def operator(self, strings, **kw):
        o = self.I.call(cls(self.ctx, M + "BranchFreeOperator"), [], kw)
        for s in strings:
            self.I.call(self.I.getattr(o, "add"), [s], {})
        return o

    def action(self, o, args=()):
        """sum over connected configurations of  matrix element * G(configuration)"""
        I = self.I
        f = I.call(I.getattr(o, "compile"), [], {})
        a = list(args)
        if isinstance(f, Tup):
            pre = I.call(f.items[1], a, {})
            a = list(pre.items)
            f = f.items[0]
        r = I.call(f, [self.s] + a, {})
        sp, me = I.unpack(r, 2)
        self.ctx.done(I)
        me = I.array_of(me) if not isinstance(me, Tensor) else me
        n = me.axis_size(0).int_value()
        if n is None:
            raise Unknown("number of connected configurations")
        tot = ZERO
        for k in range(n):
            c = sp.index_axis(0, const(k))
            conf = []
            for i in range(len(self.conf)):
                ix, q = [], i
                for z in reversed(self.shape):
                    ix.insert(0, q % z)
                    q //= z
                conf.append(at(c, *ix))
            tot = tot + at(me, k) * G(conf)
        return Tensor((), tot)

    def check(self, strings, spec, args=(), label="", **kw):
        got = self.action(self.operator(strings, **kw), args)
        want = ZERO
        for coef, factors in spec:
            c, conf = apply_string(self.conf, coef, factors)
            want = want + c * G(conf)
        return compare(self.I, got, Tensor((), want), label=label, values=self.values)


TAB = {   # local action  |x> -> mat[x] |map[x]>
    "Id": ([0, 1], [1, 1], False), "Sx": ([1, 0], [1, 1], False), "Sz": ([0, 1], [-1, 1], False),
    "Sp": ([1, 1], [1, 0], False), "Sm": ([0, 0], [0, 1], False),
    "number": ([0, 1], [0, 1], False), "creation": ([1, 1], [1, 0], True), "annihilation": ([0, 0], [0, 1], True),
    # sigma^y is stored by rows: <s| sigma^y |s'>
    "Sy": ([1, 0], [1j, -1j], False),
}


def tab(name, idx):
    mp, mt, f = TAB[name]

    def pick(vals):
        return lambda x: (ONE - x).scale(to_cq(vals[0])) + x.scale(to_cq(vals[1]))
    return (idx, pick(mp), pick(mt), f)


def run(ctx):
    wh = where(ctx, M + "BranchFreeOperator.compile")

    for name in TAB:
        def go(name=name):
            rs = []
            for idx in (0, 1, 2):
                e = Env_(ctx)
                rs.append(e.check([e.string(e.builtin(name, idx))], [(ONE, [tab(name, idx)])], label="%s(%d)" % (name, idx)))
            return conj(rs)
        ctx.ob("local/" + name, "operator-action", where(ctx, M + name), go)

    def strings():
        rs = []
        e = Env_(ctx)
        A, a = e.generic("A", 0)
        B, b = e.generic("B", 2)
        C, c = e.generic("C", 1)
        rs.append(e.check([e.string(A, B, C)], [(ONE, [a, b, c])], label="A0*B2*C1"))
        e = Env_(ctx)
        A, a = e.generic("A", 1)
        B, b = e.generic("B", 1)
        rs.append(e.check([e.string(A, B)], [(ONE, [a, b])], label="two factors on one site"))
        e = Env_(ctx)
        A, a = e.generic("A", 0)
        B, b = e.generic("B", 1)
        C, c = e.generic("C", 2)
        rs.append(e.check([e.string(A), e.string(B, C, A), e.string(C, A)], [(ONE, [a]), (ONE, [b, c, a]), (ONE, [c, a])], label="strings of different length"))
        return conj(rs)
    ctx.ob("strings/order", "operator-action", wh, strings)

    def diag():
        rs = []
        for n in (1, 2, 3):
            e = Env_(ctx)
            A, a = e.generic("A", 0, diag=True)
            B, b = e.generic("B", 1, diag=True)
            C, c = e.generic("C", 2)
            D, d = e.generic("D", 2, diag=True)
            st = [e.string(C), e.string(A), e.string(C, A), e.string(B, A), e.string(D, B)][:2 + n]
            sp = [(ONE, [c]), (ONE, [a]), (ONE, [c, a]), (ONE, [b, a]), (ONE, [d, b])][:2 + n]
            rs.append(e.check(st, sp, label="%d diagonal strings" % max(n, 1)))
        return conj(rs)
    ctx.ob("strings/diagonal", "operator-action", where(ctx, M + "BranchFreeOperator"), diag)

    def products():
        rs = []
        e = Env_(ctx)
        A, a = e.generic("A", 0)
        B, b = e.generic("B", 1)
        C, c = e.generic("C", 2)
        x, y = Tensor((), sym("x")), Tensor((), sym("y"))
        X, Y = sym("x"), sym("y")
        m = e.mul
        forms = [("A*B", m(A, B), ONE, [a, b]), ("A*(B*C)", m(A, m(B, C)), ONE, [a, b, c]), ("(A*B)*C", m(m(A, B), C), ONE, [a, b, c]),
                 ("x*A", m(x, A), X, [a]), ("x*(A*B)", m(x, m(A, B)), X, [a, b]), ("(x*A)*B", m(m(x, A), B), X, [a, b]),
                 ("A*(x*B)", m(A, m(x, B)), X, [a, b]), ("(x*A)*(y*B)", m(m(x, A), m(y, B)), X * Y, [a, b]),
                 ("y*(x*A)", m(y, m(x, A)), X * Y, [a]), ("(A*B)*x", m(m(A, B), x), X, [a, b]),
                 ("OpStr(x,A,y,B)", e.string(x, A, y, B), X * Y, [a, b]), ("OpStr(x,y,z,A)", e.string(x, y, Tensor((), sym("z")), A), X * Y * sym("z"), [a]),
                 ("(x*(A*B))*(y*C)", m(m(x, m(A, B)), m(y, C)), X * Y, [a, b, c]),
                 ("scal_opstr(x,(A,B))", e.I.call(fnv(ctx, e.I, M + "scal_opstr"), [x, e.I.libmod._tuple(e.I, [e.I.list([A, B])], {})], {}), X, [a, b]),
                 ("scal_opstr(x,y*A)", e.I.call(fnv(ctx, e.I, M + "scal_opstr"), [x, m(y, A)], {}), X * Y, [a])]
        for lab, st, co, fs in forms:
            rs.append(e.check([st], [(co, fs)], label=lab))
        return conj(rs)
    ctx.ob("strings/prefactors", "operator-action", where(ctx, M + "OpStr.__new__"), products)

    def functions():
        rs = []
        e = Env_(ctx)
        A, a = e.generic("A", 0)
        B, b = e.generic("B", 1)
        f = PyFn(lambda I, args, k: Tensor((), fn("f", *[I.node(x) for x in args])), "f")
        g = PyFn(lambda I, args, k: Tensor((), fn("g", *[I.node(x) for x in args])), "g")
        t = Tensor((), sym("t", props="r"))
        ft, gt = fn("f", e.I.node(t)), fn("g", e.I.node(t))
        x = Tensor((), sym("x"))
        m = e.mul
        rs.append(e.check([m(f, A), e.string(B)], [(ft, [a]), (ONE, [b])], args=[t], label="f(t) A + B"))
        rs.append(e.check([e.string(B), m(g, A), m(f, m(A, B))], [(ONE, [b]), (gt, [a]), (ft, [a, b])], args=[t], label="B + g(t) A + f(t) A B"))
        rs.append(e.check([m(f, m(g, A))], [(ft * gt, [a])], args=[t], label="f(t) g(t) A"))
        rs.append(e.check([m(m(f, A), m(g, B))], [(ft * gt, [a, b])], args=[t], label="(f(t) A)(g(t) B)"))
        rs.append(e.check([m(x, m(g, A))], [(sym("x") * gt, [a])], args=[t], label="x g(t) A"))
        rs.append(e.check([m(x, A), m(f, B)], [(sym("x"), [a]), (ft, [b])], args=[t], label="x A + f(t) B"))
        return conj(rs)
    ctx.ob("strings/time-dependent", "operator-action", where(ctx, M + "OpStr.__rmul__"), functions)

    def fermions():
        rs = []
        for i in range(3):
            e = Env_(ctx)
            A, a = e.generic("A", i, fermionic=True)
            rs.append(e.check([e.string(A)], [(ONE, [a])], label="fermionic factor on site %d" % i))
        e = Env_(ctx)
        A, a = e.generic("A", 0, fermionic=True)
        B, b = e.generic("B", 2, fermionic=True)
        C, c = e.generic("C", 1)
        rs.append(e.check([e.string(A, C, B), e.string(C)], [(ONE, [a, c, b]), (ONE, [c])], label="mixed string"))
        return conj(rs)
    ctx.ob("fermions/sign", "operator-action", where(ctx, M + "BranchFreeOperator"), fermions)

    def car():
        rs = []
        e0 = Env_(ctx)
        for i in range(3):
            for j in range(3):
                for p, q, val in (("creation", "annihilation", int(i == j)), ("annihilation", "annihilation", 0), ("creation", "creation", 0)):
                    e = Env_(ctx)
                    P_, Q_ = e.builtin(p, i), e.builtin(q, j)
                    got = e.action(e.operator([e.string(P_, Q_), e.string(Q_, P_)]))
                    rs.append(compare(e.I, got, Tensor((), G(e.conf).scale(CQ(val))), label="{%s_%d,%s_%d}" % (p, i, q, j)))
        return conj(rs)
    ctx.ob("fermions/anticommutators", "operator-action", where(ctx, M + "creation"), car)

    def lattice2d():
        rs = []
        e = Env_(ctx, shape=(2, 2))
        A, a = e.generic("A", 1, fermionic=True)
        B, b = e.generic("B", 2)
        rs.append(e.check([e.string(A, B), e.string(B)], [(ONE, [a, b]), (ONE, [b])], label="2D lattice"))
        return conj(rs)
    ctx.ob("lattice/2D", "operator-action", where(ctx, M + "BranchFreeOperator"), lattice2d)

    def ldim3():
        e = Env_(ctx, ldim=3)
        A, a = e.generic("A", 0)
        B, b = e.generic("B", 2)
        return e.check([e.string(A, B), e.string(B)], [(ONE, [a, b]), (ONE, [b])], label="local dimension 3", lDim=num(3))
    ctx.ob("lattice/lDim3", "operator-action", where(ctx, M + "Id"), ldim3)

    def recompiled(how="add"):
        """adding a string after a first use takes effect"""
        e = Env_(ctx)
        A, a = e.generic("A", 0)
        B, b = e.generic("B", 1)
        o = e.operator([e.string(A)])
        e.action(o)
        if how == "add":
            e.I.call(e.I.getattr(o, "add"), [e.string(B)], {})
        else:
            o = e.I.call(e.I.getattr(o, "__iadd__"), [e.string(B)], {})
        got = e.action(o)
        want = ZERO
        for f in ([a], [b]):
            c, conf = apply_string(e.conf, ONE, f)
            want = want + c * G(conf)
        fl = e.I.getattr(o, "compiled")
        rs = [compare(e.I, got, Tensor((), want), label="after add")]
        return conj(rs)
    ctx.ob("strings/add", "operator-action", where(ctx, M + "BranchFreeOperator.add"), recompiled)
    ctx.ob("strings/augmented-add", "operator-action", where(ctx, M + "BranchFreeOperator.__iadd__"), lambda: recompiled("iadd"))

    def parallel():
        """prefactors evaluated by several processes keep their string"""
        rs = []
        for size, lead in ((1, 0), (2, 1), (3, 2), (4, 0)):
            n = 51
            pieces = []
            for r in range(size):
                e = Env_(ctx, shape=(1,))
                I = e.I
                I.lib = dict(I.lib)
                I.lib["mpi4py.MPI.COMM_WORLD.Get_size"] = lambda I, a, k, size=size: num(size)
                I.lib["mpi4py.MPI.COMM_WORLD.Get_rank"] = lambda I, a, k, r=r: num(r)
                got = []
                I.lib["mpi4py.MPI.COMM_WORLD.allgather"] = lambda I, a, k: (got.append(a[0]), I.list([a[0]]))[1]
                A, a = e.generic("A", 0)
                t = Tensor((), sym("t", props="r"))
                st = [e.string(A) for _ in range(lead)]
                for q in range(n):
                    st.append(e.mul(PyFn(lambda I, args, k, q=q: Tensor((), fn("f%d" % q, *[I.node(x) for x in args])), "f"), A))
                    if q % 17 == 3:
                        st.append(e.string(A))
                o = e.operator(st)
                c = I.call(I.getattr(o, "compile"), [], {})
                res = I.call(c.items[1], [t], {})
                ctx.done(I)
                if not got:
                    pieces = [res.items[0]]
                    break
                pieces.append(I.array_of(got[0]) if not isinstance(got[0], Tensor) else got[0])
            vals = []
            for p in pieces:
                m = p.axis_size(0).int_value()
                if m is None:
                    raise Unknown("prefactor array of unknown length")
                vals += [at(p, k) for k in range(m)]
            want = [ONE] * lead
            for q in range(n):
                want.append(fn("f%d" % q, e.I.node(t)))
                if q % 17 == 3:
                    want.append(ONE)
            if len(vals) != len(want):
                rs.append(bad("%d processes: %d prefactors for %d strings" % (size, len(vals), len(want))))
                continue
            for k, (g, w) in enumerate(zip(vals, want)):
                rs.append(compare(e.I, Tensor((), g), Tensor((), w), label="%d processes, string %d" % (size, k), allow=["f%d" % q for q in range(n)]))
        return conj(rs)
    ctx.ob("strings/parallel-prefactors", "operator-action", wh, parallel)

    def documented(name):
        """<s|O|s'> as documented for the connected configurations"""
        e = Env_(ctx, shape=(1,))
        rows = {"Sp": [0, 1], "creation": [0, 1], "Sm": [1, 0], "annihilation": [1, 0]}[name]
        got = e.action(e.operator([e.string(e.builtin(name, 0))]))
        s = e.conf[0]
        want = ((ONE - s).scale(CQ(rows[0])) + s.scale(CQ(rows[1]))) * G([ONE - s])
        return compare(e.I, got, Tensor((), want), label="row convention of " + name)
    for name in ("Sp", "Sm", "creation", "annihilation"):
        ctx.ob("row-convention/" + name, "operator-action", where(ctx, M + name), lambda name=name: documented(name))
    ctx.floor("obligations", len(ctx.obs), 20)
    ctx.assumptions += ["lattices with up to four sites, strings with up to three factors and generic (uninterpreted) local tables stand for all sizes: "
                        "the tables, prefactors and configurations themselves are symbolic",
                        "occupation numbers of fermionic modes are 0/1"]
