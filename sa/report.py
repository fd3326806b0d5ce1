"""Obligations, verdicts, evidence."""
import hashlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

from .nf import *
from . import nf
from .tensor import Tensor, ShapeError, Unsupported, array, num, scalar
from .interp import (Interp, Const, Tup, Ref, Choice, PyFn, StubObj, Comp, ClsV, Fn, Unknown, Raised, Tree, ConcatVec, V)
from .loader import Program, AnchorMissing
from . import evalnf

HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self, status, detail=""):
        self.status, self.detail = status, detail


def ok(detail=""):
    return Result(HOLDS, detail)


def bad(detail):
    return Result(VIOLATED, detail)


def dunno(detail):
    return Result(UNDECIDED, detail)


def conj(results):
    """conjunction: a violation dominates, then undecided"""
    rs = list(results)
    for s in (VIOLATED, UNDECIDED):
        d = [r.detail for r in rs if r.status == s]
        if d:
            return Result(s, "; ".join(d[:3]))
    return ok("; ".join(r.detail for r in rs if r.detail)[:400])


# ---------------------------------------------------------------------------
def compare(I, got, want, allow=(), label="", sizes=None, values=None, tainted=None, seeds=6):
    """value produced by the analysed source vs specification term"""
    pre = (label + ": ") if label else ""
    t = I.tainted if (I is not None and tainted is None) else bool(tainted)
    r = _compare(I, got, want, set(allow), pre, (sizes, seeds), values)
    if r.status == VIOLATED and t:
        return dunno(pre + "analysis lost precision (%s)" % "; ".join(I.notes[-3:]))
    return r


def _compare(I, got, want, allow, pre, sizes, values):
    if isinstance(want, Poly):
        want = Tensor((), want)
    if isinstance(got, Poly):
        got = Tensor((), got)
    if isinstance(want, (int, float, complex)) and not isinstance(want, bool):
        want = num(want)
    if isinstance(want, (bool, str)) or want is None:
        want = Const(want)
    if isinstance(want, (tuple, list)):
        items = seq_items_of(I, got)
        if items is None:
            if is_unknown(I, got):
                return dunno(pre + "unknown sequence")
            return bad(pre + "expected a sequence of %d values, found %r" % (len(want), got))
        if any(not isinstance(x, V) and not isinstance(x, Tensor) for x in items):
            return dunno(pre + "sequence of unknown shape")
        if len(items) != len(want):
            return bad(pre + "expected %d values, found %d" % (len(want), len(items)))
        return conj([_compare(I, g, w, allow, "%s[%d] " % (pre, k), sizes, values) for k, (g, w) in enumerate(zip(items, want)) if w is not ANY])
    if want is ANY:
        return ok()
    if isinstance(want, Const):
        if isinstance(got, Const):
            return ok() if got.val == want.val and type(got.val) is type(want.val) else bad(pre + "%r instead of %r" % (got.val, want.val))
        if isinstance(want.val, bool) and isinstance(got, Tensor):
            return _compare(I, got, num(int(want.val)), allow, pre, sizes, values)
        if is_unknown(I, got):
            return dunno(pre + "unknown value")
        if isinstance(got, (Tensor, Choice)):
            return dunno(pre + "%r vs constant %r" % (got, want.val)) if isinstance(got, Choice) else bad(pre + "%r instead of %r" % (got, want.val))
        return bad(pre + "%r instead of %r" % (got, want.val))
    if isinstance(want, Tensor):
        if isinstance(got, Choice):
            # every alternative reachable under its guard has to agree
            rs = []
            for g in (got.a, got.b):
                rs.append(_compare(I, g, want, allow, pre, sizes, values))
            if all(r.status == HOLDS for r in rs):
                return ok()
            try:
                m = I.num_of(got)
            except Exception:
                m = None
            if isinstance(m, Tensor):
                return _compare(I, m, want, allow, pre, sizes, values)
            if any(r.status == UNDECIDED for r in rs):
                return dunno("; ".join(r.detail for r in rs if r.status == UNDECIDED))
            return bad("; ".join(r.detail for r in rs if r.status == VIOLATED))
        if isinstance(got, (Tup,)) or (isinstance(got, Ref) and got.kind == "list"):
            try:
                got = I.array_of(got)
            except Exception as e:
                return dunno(pre + "not an array: %s" % e)
        if isinstance(got, Const):
            if isinstance(got.val, bool):
                got = num(int(got.val))
            elif isinstance(got.val, (int, float, complex)):
                got = num(got.val)
            else:
                return bad(pre + "%r instead of %s" % (got.val, short(want)))
        if not isinstance(got, Tensor):
            return dunno(pre + "value of kind %s" % type(got).__name__)
        return compare_tensors(got, want, allow, pre, sizes, values)
    return dunno(pre + "cannot compare with %r" % (want,))


class _Any:
    pass


ANY = _Any()


def seq_items_of(I, v):
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, Ref) and v.kind == "list":
        return I.content(v)
    if isinstance(v, Tensor) and v.axes is not None and v.rank >= 1:
        n = v.axis_size(0).int_value()
        if n is not None:
            return [v.index_axis(0, const(k)) for k in range(n)]
    return None


def is_unknown(I, v):
    try:
        n = I.node(v)
    except Exception:
        return True
    return n.unk or "'?" in n.key


def short(t, n=260):
    s = repr(t)
    return s if len(s) <= n else s[:n] + "..."


def compare_tensors(got, want, allow, pre, sizes=None, values=None):
    sizes, seeds = sizes if isinstance(sizes, tuple) else (sizes, 6)
    if got.key == want.key:
        return ok()
    if got.unk:
        return dunno(pre + "term contains unmodelled operations: %s" % short(got))
    loose = [x for x in evalnf.sym_names(got) if x.startswith("%")]
    if loose:
        return dunno(pre + "depends on a value that is carried by a loop: %s" % short(got))
    extra = evalnf.fn_names(got) - evalnf.fn_names(want) - set(allow)
    foreign = evalnf.sym_names(got) - evalnf.sym_names(want) - set(allow)
    if got.axes is None and want.axes is not None:
        if extra:
            return dunno(pre + "rank unknown, uninterpreted %s" % sorted(extra))
        if want.rank == 0:
            got = Tensor((), got.body)
        else:
            return dunno(pre + "rank unknown: %s" % short(got))
    if want.axes is None:
        want = Tensor((), want.body)
        got = Tensor((), got.body) if got.axes is None else got
    if got.rank != want.rank:
        if extra:
            return dunno(pre + "rank %d vs %d with uninterpreted %s" % (got.rank, want.rank, sorted(extra)))
        return bad(pre + "array of rank %d instead of %d: %s vs required %s" % (got.rank, want.rank, short(got), short(want)))
    w = want.opened()
    g = got
    for k in range(w.rank):
        a, b = g.axis_size(k), w.axis_size(k)
        if not nf.equal(a, b):
            st, txt = evalnf.witness(a, b, sizes=sizes, values=values)
            if st == "differ":
                if extra:
                    return dunno(pre + "axis %d size with uninterpreted %s" % (k, sorted(extra)))
                return bad(pre + "axis %d has extent %s instead of %s" % (k, a, b))
            if st == "unknown":
                return dunno(pre + "axis %d extents %s / %s" % (k, a, b))
    # common index variables
    body = g
    for k in range(w.rank):
        pos = ZERO
        for v in w.axes[k]:
            pos = pos * v.dim.size + v.as_poly()
        body = body.index_axis(0, pos)
    p, q = body.body, w.body
    if p == q or nf.equal(p, q):
        return ok()
    st, txt = evalnf.witness(p, q, sizes=sizes, values=values, seeds=seeds)
    if st == "agree":
        return ok("identity by %s" % txt)
    if st == "unknown":
        return dunno(pre + txt)
    if extra:
        return dunno(pre + "uninterpreted %s in %s" % (sorted(extra), short(got)))
    return bad(pre + "computes %s, required %s [%s]" % (pretty(p, 260), pretty(q, 260), txt))


# ---------------------------------------------------------------------------
class Ctx:
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.todo, self.inline = [], False
        self.obs = []
        self.active = []           # dict(key, rule, where, status, detail)
        self.functions = set()
        self.sites = 0
        self.assumptions = []
        self.errors = []
        self.floors = []

    def anchor(self, qual):
        """public entry point that must exist"""
        return self.prog.func(qual)

    def interp(self, overrides=None, devices_current=True):
        I = Interp(self.prog, overrides)
        self.active.append(I)
        if devices_current:
            I.overrides.setdefault("jVMC.global_defs.pmap_devices_updated", PyFn(lambda I, a, k: Const(True), "devices_current"))
        return I

    def ob(self, key, rule, where, thunk):
        """registers an obligation; it is evaluated by evaluate()"""
        o = dict(key=key, rule=rule, where=where, status=UNDECIDED, detail="not evaluated", t=0)
        self.obs.append(o)
        self.todo.append((o, thunk))
        if self.inline:
            self.evaluate()
            return Result(o["status"], o["detail"])
        return None

    def evaluate(self, jobs=None, limit=None, memory=None, deadline=None):
        """one forked process per obligation: bounded time and memory, nothing shared between obligations"""
        todo, self.todo = self.todo, []
        if self.inline:
            for o, thunk in todo:
                o.update(self.decide(thunk))
            return
        jobs = jobs or int(os.environ.get("SA_JOBS", "6"))
        limit = limit or float(os.environ.get("SA_LIMIT", "240"))
        memory = memory or int(float(os.environ.get("SA_MEM", "4")) * 2 ** 30)
        deadline = time.time() + (deadline or float(os.environ.get("SA_DEADLINE", "720")))
        running, missing = {}, []
        sys.stdout.flush()
        sys.stderr.flush()
        queue = list(todo)
        while queue or running:
            while queue and len(running) < jobs and time.time() < deadline:
                o, thunk = queue.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 1
                    try:
                        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                        nf0 = set(self.functions)
                        s0 = self.sites
                        try:
                            res = self.decide(thunk)
                        except AnchorMissing as e:
                            res = dict(missing=str(e))
                        res["functions"] = sorted(self.functions - nf0)
                        res["sites"] = self.sites - s0
                        data = json.dumps(res).encode()
                        while data:
                            data = data[os.write(w, data):]
                        code = 0
                    except BaseException:
                        pass
                    os._exit(code)
                os.close(w)
                running[r] = (pid, o, time.time(), [])
            if not running:
                break
            ready, _, _ = select.select(list(running), [], [], 0.5)
            for r in ready:
                pid, o, t0, buf = running[r]
                d = os.read(r, 65536)
                if d:
                    buf.append(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    res = json.loads(b"".join(buf).decode())
                except ValueError:
                    o.update(status=UNDECIDED, detail="analysis ran out of memory", t=round(time.time() - t0, 3))
                    continue
                self.functions |= set(res.pop("functions"))
                self.sites += res.pop("sites")
                if "missing" in res:
                    missing.append(res["missing"])
                else:
                    o.update(res)
            now = time.time()
            for r in list(running):
                pid, o, t0, buf = running[r]
                if now - t0 > limit or now > deadline + 30:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del running[r]
                    o.update(status=UNDECIDED, detail="analysis exceeded its time limit", t=round(now - t0, 3))
            if now > deadline and not running:
                break
        for o, _ in queue:
            o.update(status=UNDECIDED, detail="analysis exceeded its time limit")
        if missing:
            raise AnchorMissing(missing[0])

    def decide(self, thunk):
        t0 = time.time()
        self.active = []
        try:
            r = thunk()
            if r is None:
                r = ok()
        except AnchorMissing as e:
            r = dunno("%s not found" % e)
        except (Unknown, Unsupported, ShapeError) as e:
            r = dunno("%s: %s" % (type(e).__name__, e))
        except Raised as e:
            # valid use of the interface that fails on every path
            r = dunno("raises: %s" % (e,)) if any(I.tainted for I in self.active) else bad("fails: %s" % (e,))
        except RecursionError:
            r = dunno("recursion limit")
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            r = dunno("engine: %s: %s" % (type(e).__name__, e))
        except MemoryError:
            r = dunno("analysis ran out of memory")
        return dict(status=r.status, detail=r.detail, t=round(time.time() - t0, 3))

    def done(self, I):
        for f in I.visited:
            self.functions.add(f if isinstance(f, str) else f.qual)
        self.sites += len(I.events)

    def floor(self, what, n, minimum):
        """guards against a check that silently analyses nothing"""
        self.floors.append((what, n, minimum))


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                f = line[len("finding: "):]
                head, _, what = f.partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split())
                out[(kv["property"], kv["key"])] = what
    return out


def finish(ctx, t0, seed, title):
    kf = known_findings()
    viol, known, und = [], [], []
    for o in ctx.obs:
        if o["status"] == VIOLATED:
            w = kf.get((ctx.pid, o["key"]))
            if w is not None:
                known.append((o, w))
            else:
                viol.append(o)
        elif o["status"] == UNDECIDED:
            und.append(o)
    n = len(ctx.obs)
    holds = sum(o["status"] == HOLDS for o in ctx.obs)
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo/jVMC (sha256 of analysed sources %s). %d obligations generated from the property, "
                           "%d discharged, %d violated, %d undecided; %d repository functions were evaluated abstractly." %
                           (ctx.prog.digest.hexdigest()[:16], n, holds, len(viol) + len(known), len(und), len(ctx.functions)),
            "obligations": n, "discharged": holds, "violated": len(viol), "known_findings": len(known), "undecided": len(und),
            "functions_analysed": sorted(ctx.functions),
            "call_sites": ctx.sites,
            "rules": sorted({o["rule"] for o in ctx.obs}),
            "details": [{k: o[k] for k in ("key", "rule", "where", "status", "detail", "t")} for o in ctx.obs],
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": ctx.assumptions,
        "violations": len(viol),
    }
    evp = os.path.join(VERIF, "evidence", ctx.pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    for o, w in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (ctx.pid, o["key"], w))
    for o in und:
        print("UNDECIDED property=%s %s at %s: %s" % (ctx.pid, o["key"], o["where"], o["detail"][:300]))
    code = 0
    for what, k, m in ctx.floors:
        if k < m:
            print("ERROR property=%s analysed only %d %s (expected at least %d)" % (ctx.pid, k, what, m))
            code = 2
    if viol:
        rp = os.path.join(VERIF, "evidence", ctx.pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s: %s\n" % (ctx.pid, title))
            for o in viol:
                f.write("\nrule: %s\nconstruct: %s\nat: %s\n%s\n" % (o["rule"], o["key"], o["where"], o["detail"]))
            f.write("\nre-run: cd /verif && python3 check.py %s quick\n" % ctx.pid)
        for o in viol:
            print("  %s [%s] at %s: %s" % (o["key"], o["rule"], o["where"], o["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        code = 1
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d hold, %d violated, %d known, %d undecided, %d functions, %.1fs" %
          (ctx.pid, n, holds, len(viol), len(known), len(und), len(ctx.functions), time.time() - t0))
    return code
