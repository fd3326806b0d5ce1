"""processes with concrete ranks: every process is interpreted on its own, results of collective operations are symbols shared by all
processes, and the sequences of collective operations are compared"""
import functools
from .common import *
from .. import evalnf

PRE = "mpi4py.MPI.COMM_WORLD."


class Pending(Exception):
    pass


class Proc:
    def __init__(self, ctx, r, P, mail):
        self.r, self.P, self.mail = r, P, mail
        self.log = []
        self.overrides = {}
        self.I = I = ctx.interp()
        I.lib = dict(I.lib)
        h = {"Get_rank": lambda I, a, k: num(r), "Get_size": lambda I, a, k: num(P)}
        for nm in ("Allreduce", "allreduce", "bcast", "Bcast", "Barrier", "barrier", "allgather", "gather", "reduce", "Reduce", "scatter", "alltoall", "Allgather", "Ibarrier", "exscan", "scan"):
            h[nm] = functools.partial(self.collective, op=nm)       # (a partial function: looks at its keywords itself)
        for q, f in h.items():
            I.lib[PRE + q] = f

    def abstract_eigh(self):
        """eigendecompositions as symbols named after the matrix: equal names for equal matrices"""
        import hashlib

        def eigh(I, a, k):
            t = I.num_of(a[0])
            if t.axes is None or t.rank != 2:
                raise Unknown("eigh")
            h = hashlib.sha1(t.key.encode()).hexdigest()[:12]
            d = Dim.of_size(t.axis_size(0))
            return Tup([array("EW" + h, [d], props="r"), array("EV" + h, [d, Dim.of_size(t.axis_size(1))], props="r" if t.body.is_real() else "")])

        def norm(I, a, k):
            t = I.num_of(a[0])
            return Tensor((), sym("NRM" + hashlib.sha1((t.key + repr(sorted((q, I.node(v).key) for q, v in k.items()))).encode()).hexdigest()[:12], props="rn"))
        self.I.lib["np.linalg.eigh"] = functools.partial(eigh)
        self.I.lib["np.linalg.norm"] = functools.partial(norm)

    # data that differs between processes
    def data(self, name, *dims, props=""):
        return array(name, [Dim.of_const(d) if isinstance(d, int) else d for d in dims], props=props, extra=[const(self.r)])

    def shape(self, I, v):
        if isinstance(v, Tensor):
            if v.axes is None:
                return "?"
            return tuple(v.axis_size(i).key for i in range(v.rank))
        if isinstance(v, Const):
            return "const"
        return type(v).__name__

    def root(self, I, a, k, pos):
        v = k.get("root", a[pos] if len(a) > pos else None)
        if v is None:
            return 0
        n = I.int_of(v)
        if n is None:
            raise Unknown("root process")
        return n

    def collective(self, I, a, k, op):
        n = len(self.log)
        e = dict(op=op.lower() if op in ("barrier", "Barrier") else op, guard=I.guard, where=I.where(), root=None, shape=None, red=None)
        e["value"] = None
        self.log.append(e)
        if I.guard == ZERO:
            return NONE
        if e["op"] == "barrier":
            return NONE
        if op in ("Allreduce", "allreduce"):
            send = a[0] if a else k.get("sendbuf", k.get("sendobj"))
            its = L.seq_items(I, send)
            if its is not None and op == "Allreduce":
                send = its[0]
            t = I.num_of(send)
            red = k.get("op", a[2 if op == "Allreduce" else 1] if len(a) > (2 if op == "Allreduce" else 1) else None)
            e["red"] = "sum" if L.is_sum(I, red) else I.node(red).key
            e["shape"] = self.shape(I, t)
            r = self.fresh("RED%d" % n, t)
            e["value"] = t
            parts = [t if i == self.r else self.mail.get(i, [])[n]["value"] if n < len(self.mail.get(i, [])) else t for i in range(self.P)]
            if e["red"] == "sum" and all(isinstance(x, Tensor) and x.axes == () and not x.unk and all(q.startswith("|") for q in evalnf.sym_names(x)) and not evalnf.fn_names(x) for x in parts):
                tot = ZERO                                          # counters: the same on all processes, no symbol needed
                for x in parts:
                    tot = tot + x.body
                r = Tensor((), tot)
            if op == "allreduce":
                return r
            recv = a[1] if len(a) > 1 else k["recvbuf"]
            its = L.seq_items(I, recv)
            if its is not None:
                recv = its[0]
            recv = recv if isinstance(recv, Tensor) else I.num_of(recv)
            e["shape"] = (e["shape"], self.shape(I, recv))
            I.rebind(recv, r)
            return NONE
        if op in ("bcast", "Bcast"):
            v = a[0] if a else k.get("obj", k.get("buf", NONE))
            e["root"] = root = self.root(I, a, k, 1)
            if op == "bcast":
                e["value"] = v
                if root == self.r:
                    return v
                w = self.post(n, root)
                if not isinstance(w, (Tensor, Const)):
                    raise Unknown("broadcast of %s" % type(w).__name__)
                return w
            its = L.seq_items(I, v)
            cnt = None
            if its is not None:
                v = its[0]
                cnt = I.num_of(its[1]).body.key if len(its) > 1 and isinstance(its[1], Tensor) else None
            e["shape"] = (self.shape(I, v), cnt)
            e["value"] = v
            if root != self.r:
                w = self.post(n, root)
                I.rebind(v, I.num_of(w))
            return NONE
        if op == "allgather":
            v = a[0] if a else k.get("sendobj")
            e["value"] = v
            out = []
            for i in range(self.P):
                w = v if i == self.r else self.post(n, i, v)
                if isinstance(w, Tensor) and w.axes is not None:
                    w = self.fresh("GAT%d_%d" % (n, i), w)
                elif not isinstance(w, Const):
                    raise Unknown("gathered object")
                out.append(w)
            return I.list(out)
        raise Unknown("collective operation %s" % op)

    def fresh(self, name, t):
        o = t.opened() if t.axes is not None else None
        if o is None:
            return opaque(sym(name))
        return array(name, [Dim.of_size(t.axis_size(i)) for i in range(t.rank)], props="r" if t.body.is_real() else "")

    def post(self, n, root, default=None):
        box = self.mail.get(root)
        if box is not None and n < len(box) and box[n]["op"] != self.log[n]["op"]:
            if default is not None:
                return default
            raise Raised("%s on process %d meets %s on process %d" % (self.log[n]["op"], self.r, box[n]["op"], root))
        if box is not None and n < len(box) and box[n]["value"] is not None:
            return box[n]["value"]
        if box is not None and n >= len(box) and default is None:
            raise Raised("process %d waits for a message that process %d does not send" % (self.r, root))
        if default is not None:
            return default
        raise Pending()


def simulate(ctx, P, body, passes=6):
    """body(proc) -> list of values that have to agree on all processes.  Returns a verdict."""
    mail = {}
    old = None
    for it in range(passes):
        procs, res, why = [], [], []
        for r in range(P):
            p = Proc(ctx, r, P, mail)
            try:
                v = body(p)
                w = None
            except Pending:
                v, w = None, "pending"
            except Raised as ex:
                v, w = None, ("raise", ex.msg)
            procs.append(p)
            res.append(v)
            why.append(w)
            mail[r] = p.log
        sig = [[(e["op"], e["root"], e["shape"], e["guard"].key, p.shape(p.I, e["value"])) for e in p.log] for p in procs] + [[w for w in why]]
        if sig == old and "pending" not in why:
            break
        old = sig
    else:
        return dunno("communication does not settle")
    for p in procs:
        ctx.done(p.I)
    taint = [p.I for p in procs if p.I.tainted]
    I0 = procs[0].I

    def fl(msg):
        return flaw(taint[0] if taint else I0, msg)
    p0 = procs[0]
    for p in procs[1:]:
        for n in range(max(len(p.log), len(p0.log))):
            if n >= len(p0.log) or n >= len(p.log):
                q, o = (p, p0) if n < len(p.log) else (p0, p)
                return fl("process %d takes part in %s at %s, process %d does not%s" % (q.r, q.log[n]["op"], q.log[n]["where"], o.r,
                          "" if why[o.r] is None else " (%s)" % (why[o.r],)))
            a, b = p0.log[n], p.log[n]
            for f, txt in (("op", "operation"), ("root", "root process"), ("red", "reduction"), ("shape", "size of the data")):
                if a[f] != b[f]:
                    return fl("%s differs between processes 0 and %d: %s at %s, %s at %s" % (txt, p.r, a[f], a["where"], b[f], b["where"]))
            if a["guard"] != b["guard"] and not nf.equal(a["guard"], b["guard"]):
                return fl("%s at %s: whether a process takes part depends on data that differ between processes" % (a["op"], a["where"]))
        if (why[p.r] is None) != (why[0] is None):
            return fl("process %d fails, process %d does not: %s" % ((p.r, 0, why[p.r]) if why[p.r] else (0, p.r, why[0])))
    for e in p0.log:
        if isinstance(e["shape"], tuple) and len(e["shape"]) == 2 and e["op"] == "Allreduce" and e["shape"][0] != e["shape"][1]:
            return fl("buffers of Allreduce at %s have different size: %s" % (e["where"], e["shape"]))
    if why[0] is not None:
        return fl("fails: %s" % (why[0],))
    rs = []
    for p in procs[1:]:
        for i, (x, y) in enumerate(zip(res[0], res[p.r])):
            if isinstance(x, Const) and isinstance(y, Const):
                if x.val != y.val:
                    return fl("result %d differs between processes 0 and %d" % (i, p.r))
                continue
            tx, ty = I0.num_of(x), p.I.num_of(y)
            if tx.axes is None or ty.axes is None:
                if tx.key == ty.key and not tx.unk:
                    continue
            rs.append(compare(taint[0] if taint else p.I, ty, tx, label="result %d on process %d and process 0" % (i, p.r)))
    if taint:
        return dunno("; ".join(taint[0].notes[-2:]))
    return conj(rs + [ok("%d collective operations on %d processes" % (len(p0.log), P))])
