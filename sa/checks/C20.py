from .common import *
from .h5 import Disk, Data
from fractions import Fraction as Fr

TITLE = "Output files hold what was written, row by row with its time"
O = "jVMC.util.output_manager.OutputManager"
M = "jVMC.mpi_wrapper."
FN = "out.hdf5"


def run(ctx):
    nop = PyFn(lambda I, a, k: NONE, "nop")

    class Proc:
        """one process: interpreter with a concrete rank that shares a disk, and the messages of the root process"""

        def __init__(self, rank, disk, mail=None):
            self.rank, self.disk, self.mail, self.sent = rank, disk, mail, []
            self.printed = []
            clock = []
            self.clock = clock

            def bcast(I, a, k):
                Disk.sure(None, I)
                v = a[0] if a else k.get("obj", NONE)
                root = k.get("root", a[1] if len(a) > 1 else num(0))
                return self.exchange(I, I.int_of(root), v)

            def Bcast(I, a, k):
                Disk.sure(None, I)
                b = a[0]
                its = L.seq_items(I, b)
                if its is not None:
                    b = its[0]
                root = k.get("root", a[1] if len(a) > 1 else num(0))
                r = self.exchange(I, I.int_of(root), b)
                if r is not b:
                    I.rebind(b, I.num_of(r))
                return NONE
            comm = StubObj("comm", {"bcast": PyFn(bcast, "bcast"), "Bcast": PyFn(Bcast, "Bcast"), "Barrier": nop, "barrier": nop,
                                    "Get_rank": PyFn(lambda I, a, k: num(rank), "rank"), "Get_size": PyFn(lambda I, a, k: num(2), "size")})
            self.I = I = ctx.interp(overrides={M + "rank": num(rank), M + "commSize": num(2), M + "comm": comm})
            disk.install(I)

            def tick(I, a, k):
                clock.append(sym("T%d" % len(clock), props="r"))
                return Tensor((), clock[-1])

            def pr(I, a, k):
                Disk.sure(None, I)
                self.printed.append(a)
                return NONE
            for q in ("time.perf_counter", "time.time"):
                I.lib[q] = tick
            I.lib["print"] = pr

        def exchange(self, I, root, v):
            n = len(self.sent)
            self.sent.append(v)
            if root == self.rank or root is None:
                return v
            if self.mail is None or n >= len(self.mail):
                raise Raised("the process waits for a message that is not sent")
            return self.mail[n]

        def new(self, *a, **k):
            self.o = self.I.call(cls(ctx, O), list(a), k)
            return self

        def do(self, name, *a, **k):
            return self.I.call(self.I.getattr(self.o, name), list(a), k)

    def rows(P, path, want, label):
        """a dataset holds exactly the given rows"""
        f = P.disk.files.get(FN, {})
        p = tuple(x for x in path.split("/") if x)
        d = f.get(p)
        if not isinstance(d, Data):
            return flaw(P.I, "%s: there is no dataset %s" % (label, path))
        r = d.rows
        if r is None:
            v = d.value
            if v.axes is None or not v.rank or v.axis_size(0).int_value() != len(want):
                return dunno("%s: content of %s" % (label, path))
            r = [v.index_axis(0, const(i)) for i in range(len(want))]
        if len(r) != len(want):
            return flaw(P.I, "%s: %s has %d rows instead of %d" % (label, path, len(r), len(want)))
        rs = []
        for i, (x, y) in enumerate(zip(r, want)):
            if x is None:
                rs.append(flaw(P.I, "%s: row %d of %s was not written" % (label, i, path)))
            else:
                rs.append(compare(P.I, x, y, label="%s: row %d of %s" % (label, i, path)))
        return conj(rs)

    def value(i, tag, shape):
        return array("%s%d" % (tag, i), shape, props="r")
    n = Dim.named("n")
    t = [Tensor((), sym("t%d" % i, props="r")) for i in range(6)]

    def write(P, what, i, tm=None):
        """one call of a write method; -> {relative path: value}"""
        tm = t[i] if tm is None else tm
        I = P.I
        if what == "observables":
            v = {("energy", "mean"): value(i, "em", [Dim.of_const(2)]), ("energy", "variance"): value(i, "ev", [Dim.of_const(2)]), ("magn", "mean"): value(i, "mm", [])}
            d = {}
            for (a, b), x in v.items():
                d.setdefault(a, {})[b] = x
            P.do("write_observables", tm, **{a: pdict(I, b) for a, b in d.items()})
            r = {"observables/%s/%s" % q: x for q, x in v.items()}
        elif what == "metadata":
            v = {"snr": value(i, "snr", [n]), "err": value(i, "er", [])}
            P.do("write_metadata", tm, **v)
            r = {"metadata/" + q: x for q, x in v.items()}
        else:
            v = value(i, "w", [n])
            P.do("write_network_checkpoint", tm, v)
            r = {"network_checkpoints/checkpoints": v}
        r[sorted(r)[0].split("/")[0] + "/times"] = tm
        return r

    KINDS = ("observables", "metadata", "network_checkpoints")

    def history(script, append=False, group=None, old=False):
        """script: list of (group or None, kind); afterwards all groups hold their own rows in the order of writing"""
        disk = Disk()
        want = {}
        P0 = Proc(0, disk)
        if old:
            P0.new(Const(FN), *([Const(group)] if group else []))
            for k in KINDS:
                for q, v in write(P0, k, 5).items():
                    want.setdefault((group or "") + "/" + q, []).append(v)
            if not append:
                want = {}
            P0 = Proc(0, disk)
        P1 = Proc(1, Disk())
        for P in (P0, P1):
            w = want if P is P0 else {}
            kw = {}
            if append:
                kw["append"] = Const(True)
            P.new(Const(FN), *([Const(group)] if group else []), **kw)
            cur = group or ""
            for i, (g, kind) in enumerate(script):
                if g is not None:
                    P.do("set_group", Const(g))
                    cur = "" if g == "/" else g
                for q, v in write(P, kind, i).items():
                    w.setdefault(cur + "/" + q, []).append(v)
            ctx.done(P.I)
        rs = [rows(P0, q, v, "after %s" % [k for _, k in script]) for q, v in want.items()]
        have = {"/".join(p) for p, d in disk.files.get(FN, {}).items() if isinstance(d, Data)}
        extra = have - {q.strip("/") for q in want}
        if extra:
            rs.append(flaw(P0.I, "unexpected datasets %s" % sorted(extra)))
        if P1.disk.opened:
            rs.append(flaw(P1.I, "another process than the first accesses the file: %s" % (P1.disk.opened,)))
        return conj(rs)
    W = where(ctx, O)
    for kind in KINDS:
        ctx.ob("rows/%s" % kind, "written rows", where(ctx, O + ".write_" + kind.rstrip("s") if kind.startswith("net") else O + ".write_" + kind), lambda k=kind: history([(None, k)] * 3))
        ctx.ob("rows/%s/group" % kind, "written rows", W, lambda k=kind: history([(None, k)] * 2, group="run"))
    mix = [(None, "observables"), (None, "metadata"), (None, "network_checkpoints"), (None, "observables"), (None, "network_checkpoints")]
    ctx.ob("rows/mixed", "written rows", W, lambda: history(mix))
    ctx.ob("rows/groups", "written rows", where(ctx, O + ".set_group"), lambda: history([("a", "observables"), ("b", "observables"), ("a", "observables"), ("/", "observables"), ("b", "metadata")]))
    ctx.ob("rows/append", "open modes", where(ctx, O + ".set_group"), lambda: conj([history(mix, append=True, old=True), history(mix, append=True, group="run", old=True), history(mix, append=True)]))
    ctx.ob("rows/replace", "open modes", where(ctx, O + ".set_group"), lambda: conj([history([(None, "metadata"), ("x", "metadata")], old=True), history([(None, "metadata"), ("x", "metadata")], group="run", old=True)]))

    def checkpoint(times, query, want, group=None, later=False):
        disk = Disk()
        P0 = Proc(0, disk).new(Const(FN), *([Const(group)] if group else []))
        vals = []
        for i, x in enumerate(times):
            vals.append(write(P0, "network_checkpoints", i, num(x))["network_checkpoints/checkpoints"])
        P0.I.overrides["dtype:*"] = Lib("np.float64")
        kw = {k: num(v) for k, v in query.items()}
        if later:
            P0 = Proc(0, disk).new(Const(FN), *([Const(group)] if group else []), append=Const(True))
        for i in range(len(times)):
            P0.I.overrides["dtype:w%d" % i] = Lib("np.float64")
        r0 = P0.I.unpack(P0.do("get_network_checkpoint", **kw), 2)
        P1 = Proc(1, Disk(), mail=P0.sent).new(Const(FN), *([Const(group)] if group else []))
        r1 = P1.I.unpack(P1.do("get_network_checkpoint", **kw), 2)
        rs = []
        for P, r in ((P0, r0), (P1, r1)):
            ctx.done(P.I)
            lab = "checkpoint for %s with times %s on process %d" % (query, [str(x) for x in times], P.rank)
            rs.append(compare(P.I, P.I.num_of(r[0]), num(times[want]), label=lab + ": time"))
            rs.append(compare(P.I, P.I.num_of(r[1]), vals[want], label=lab + ": weights"))
        if len(P0.sent) != len(P1.sent):
            rs.append(flaw(P1.I, "process 0 takes part in %d and process 1 in %d broadcasts" % (len(P0.sent), len(P1.sent))))
        return conj(rs)
    W = where(ctx, O + ".get_network_checkpoint")
    ts = [Fr(0), Fr(1, 2), Fr(2), Fr(3)]
    for q, w in (({}, 3), ({"idx": 0}, 0), ({"idx": 2}, 2), ({"time": Fr(3, 5)}, 1), ({"time": Fr(0)}, 0), ({"time": Fr(9)}, 3), ({"time": Fr(5, 3)}, 2), ({"idx": -2}, 2)):
        ctx.ob("checkpoint/%s" % (",".join("%s=%s" % x for x in q.items()) or "latest"), "restored checkpoint", W, lambda q=q, w=w: checkpoint(ts, q, w))
    ctx.ob("checkpoint/group", "restored checkpoint", W, lambda: checkpoint(ts[:2], {}, 1, group="run", later=True))

    def single(meth, path, kw, writer, group=None):
        rs = []
        for rank in (0, 1):
            disk = Disk()
            Proc(0, disk).new(Const(FN))
            P = Proc(rank, disk).new(Const(FN), append=Const(True))
            if group:
                P.do("set_group", Const(group)) if rank == 0 else None
            disk.opened = []
            v = {"a": value(0, "x", [n]), "b": value(1, "y", [Dim.of_const(2)]), "c": num(Fr(3, 2)), "d": I_list(P)}
            for nm, x in v.items():
                P.do(meth, Const(nm), x, **dict(kw))
            ctx.done(P.I)
            f = disk.files[FN]
            have = {"/".join(p): d for p, d in f.items() if isinstance(d, Data)}
            if rank != writer:
                if disk.opened:
                    rs.append(flaw(P.I, "%s for process %d accesses the file on process %d" % (meth, writer, rank)))
                continue
            if set(have) != {path + q for q in v}:
                rs.append(flaw(P.I, "%s writes the datasets %s, expected %s" % (meth, sorted(have), sorted(path + q for q in v))))
                continue
            for nm, x in v.items():
                d = have[path + nm]
                if d.value is None:
                    rs.append(dunno("content of %s" % nm))
                else:
                    rs.append(compare(P.I, d.value, P.I.num_of(x), label="%s: dataset %s" % (meth, nm)))
        return conj(rs)

    def I_list(P):
        return P.I.list([num(1), num(Fr(1, 2)), num(-3)])
    for meth, path in (("write_error_data", "error_data/"), ("write_dataset", "")):
        for r in (0, 1):
            ctx.ob("single/%s/%d" % (meth, r), "written dataset", where(ctx, O + "." + meth), lambda m=meth, p=path, r=r: single(m, p, {"mpiRank": num(r)} if r else {}, r))
    ctx.ob("single/write_dataset/group", "written dataset", where(ctx, O + ".write_dataset"), lambda: single("write_dataset", "grp/", {"groupname": Const("grp")}, 0))
    ctx.ob("single/in group", "written dataset", where(ctx, O + ".write_dataset"), lambda: conj([single("write_dataset", "", {}, 0, group="run"), single("write_error_data", "error_data/", {}, 0, group="run")]))

    def timing():
        P = Proc(0, Disk()).new(Const(FN))
        I = P.I
        o = P.o

        def rec(name):
            r = I.getitem(I.getattr(o, "timings"), Const(name))
            return [I.num_of(I.getitem(r, Const(q))) for q in ("total", "newest", "count")]
        spans = []
        rs = []
        want = {"a": [], "b": [], "c": []}
        k = 0
        ops = [("start", "a"), ("stop", "a"), ("start", "b"), ("start", "a"), ("stop", "b"), ("stop", "a"), ("add", "c"), ("add", "a"), ("start", "a"), ("stop", "a")]
        begin = {}
        for i, (op, nm) in enumerate(ops):
            if op == "add":
                x = sym("e%d" % i, props="r")
                P.do("add_timing", Const(nm), Tensor((), x))
                want[nm].append(x)
            else:
                n0 = len(P.clock)
                P.do(op + "_timing", Const(nm))
                if len(P.clock) != n0 + 1:
                    return dunno("clock readings")
                if op == "start":
                    begin[nm] = P.clock[-1]
                else:
                    want[nm].append(P.clock[-1] - begin[nm])
            if want[nm]:
                got = rec(nm)
                for q, g, w in zip(("total", "newest", "count"), got, (sum(want[nm], ZERO), want[nm][-1], const(len(want[nm])))):
                    rs.append(compare(I, g, Tensor((), w), label="%s of timing %s after %s" % (q, nm, ops[:i + 1])))
        # the report shows what was added since the last one
        shown = []
        first = {q: sum(v, ZERO) for q, v in want.items()}
        I.lib["print"] = nop.f
        P.do("print_timings")
        for q in want:
            x = sym("late" + q, props="r")
            P.do("add_timing", Const(q), Tensor((), x))
            got = I.num_of(rec(q)[0])
            rs.append(compare(I, got, Tensor((), first[q] + x), label="total of timing %s after a report" % q))
        for q in want:
            r = I.getitem(I.getattr(o, "timings"), Const(q))
            try:
                lt = I.num_of(I.getitem(r, Const("last_total")))
            except Raised:
                continue
            rs.append(compare(I, lt, Tensor((), first[q]), label="total of timing %s at the last report" % q))
        ctx.done(I)
        return conj(rs)
    ctx.ob("timing", "accumulated times", where(ctx, O + ".stop_timing"), timing)

    def printing():
        rs = []
        for rank in (0, 1):
            P = Proc(rank, Disk()).new(Const(FN))
            P.do("print", Const("hello"))
            ctx.done(P.I)
            if len(P.printed) != (1 if rank == 0 else 0):
                rs.append(flaw(P.I, "print writes %d times on process %d" % (len(P.printed), rank)))
        return conj(rs)
    ctx.ob("printing", "output of one process", where(ctx, O + ".print"), printing)
    ctx.floor("obligations", len(ctx.obs), 27)
