from .samp import *
from .. import evalnf
import itertools

TITLE = "Built-in update proposals are valid, symmetric and reach every configuration"
FINE = 60        # grid that stands for a uniform number in [0, 1)


class Draws(evalnf.Valuation):
    """random draws take the values of a script; new draws extend it with their first value"""

    def start(self, script, state):
        self.script, self.known, self.ranges = script, {}, []
        self.values["s"] = state
        self.memo.clear()
        self.cache.clear()
        self.syms.clear()

    def drawn(self, key, lo, hi):
        if key not in self.known:
            n = len(self.known)
            self.known[key] = n
            self.ranges.append((lo, hi))
            if n == len(self.script):
                self.script.append(lo)
        return self.script[self.known[key]]

    def function(self, a, env):
        if a.name in ("randint", "uniform"):
            key = (a.name,) + tuple(evalnf._r(self.node(x, env)) for x in a.args)
            if a.name == "uniform":
                return complex((self.drawn(key, 0, FINE) + .5) / FINE)
            lo, hi = [self.node(x, env) for x in a.args[1:3]]
            if isinstance(lo, complex) and isinstance(hi, complex):
                lo, hi = int(round(lo.real)), int(hi.real + 1e-9)
                if hi <= lo:
                    raise evalnf.BadPoint()
                return complex(self.drawn(key, lo, hi))
            raise evalnf.BadPoint()
        if a.name in ("normal", "categorical", "permutation", "choice", "gumbel", "exponential"):
            raise evalnf.BadPoint()
        return evalnf.Valuation.function(self, a, env)


def run(ctx):
    def proposal(name, shape, ldim, sector):
        I = ctx.interp()
        s = array("s", [Dim.of_const(n) for n in shape], props="rin")
        r = I.num_of(I.call(fnv(ctx, I, SM + name), [KEY, s, NONE], {}))
        ctx.done(I)
        if I.tainted or r.unk or r.axes is None:
            return dunno("%s" % "; ".join(I.notes[-2:]))
        try:
            got = [int(round(evalnf.Valuation(1).poly(r.axis_size(i), {}).real)) for i in range(r.rank)]
        except evalnf.BadPoint:
            return dunno("shape of the proposed configuration")
        if tuple(got) != tuple(shape):
            return flaw(I, "a configuration of shape %s becomes one of shape %s" % (tuple(shape), tuple(got)))
        pts = list(itertools.product(*[range(n) for n in shape]))
        cells = []
        for pt in pts:
            q = r
            for x in pt:
                q = q.index_axis(0, const(x))
            cells.append(q.body)
        V = Draws(1)
        states = [c for c in itertools.product(range(ldim), repeat=len(pts)) if sector(c)]
        known = set(states)
        Tm, n = {}, 0
        for st in states:
            table = dict(zip(pts, st))
            state = lambda *ix: table[tuple(int(round(complex(x).real)) for x in ix)]
            script = []
            while True:
                V.start(script, state)
                try:
                    new = tuple(int(round(V.poly(c, {}).real)) if abs(V.poly(c, {}) - round(V.poly(c, {}).real)) < 1e-9 else None for c in cells)
                except evalnf.BadPoint:
                    return dunno("%s on lattice %s: proposed configuration not understood" % (name, shape))
                n += 1
                p = 1.0
                for lo, hi in V.ranges:
                    p /= hi - lo
                if new not in known:
                    return flaw(I, "%s on lattice %s: configuration %s becomes %s" % (name, shape, st, new))
                Tm[st, new] = Tm.get((st, new), 0) + p
                del script[len(V.ranges):]
                while script and script[-1] + 1 >= V.ranges[len(script) - 1][1]:
                    script.pop()
                if not script:
                    break
                script[-1] += 1
        for (x, y), p in sorted(Tm.items()):
            if abs(p - Tm.get((y, x), 0)) > 1e-9:
                return flaw(I, "%s on lattice %s: %s is proposed from %s with probability %.4g, the reverse with %.4g" % (
                    name, shape, y, x, p, Tm.get((y, x), 0)))
        seen, todo = {states[0]}, [states[0]]
        nb = {}
        for x, y in Tm:
            nb.setdefault(x, []).append(y)
        while todo:
            for y in nb.get(todo.pop(), []):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if len(seen) != len(states):
            miss = sorted(known - seen)[0]
            return flaw(I, "%s on lattice %s: configuration %s cannot be reached from %s" % (name, shape, miss, states[0]))
        return ok("%d configurations, %d draws" % (len(states), n))
    anywhere = lambda c: True
    zero = lambda c: 2 * sum(c) == len(c)
    thorough = ctx.tier == "thorough"
    spin = [(1,), (2,), (3,), (4,), (1, 3), (2, 2), (3, 1), (2, 3)] + ([(3, 2), (2, 2, 2), (8,)] if thorough else [])
    for nm in ("propose_spin_flip", "propose_spin_flip_Z2"):
        for sh in spin:
            ctx.ob("%s/%s" % (nm, "x".join(map(str, sh))), "proposal", where(ctx, SM + nm), lambda nm=nm, sh=sh: proposal(nm, sh, 2, anywhere))
    nm = "propose_POVM_outcome"
    for sh in [(1,), (2,), (3,), (1, 2), (2, 2)] + ([(4,), (3, 1), (1, 2, 2)] if thorough else []):
        ctx.ob("%s/%s" % (nm, "x".join(map(str, sh))), "proposal", where(ctx, SM + nm), lambda sh=sh: proposal(nm, sh, 4, anywhere))
    zm = "propose_spin_flip_zeroMag"
    for sh in [(1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2)] + ([(2, 4), (4, 2)] if thorough else []):
        ctx.ob("%s/%s" % (zm, "x".join(map(str, sh))), "proposal", where(ctx, SM + zm), lambda sh=sh: proposal(zm, sh, 2, zero))
    ctx.floor("obligations", len(ctx.obs), 28)
