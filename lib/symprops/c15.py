"""C15: threshold sharing."""
import itertools
from symprops.common import *

KIND = "full"
MODS = ["bip", "ents"]
FUNCTIONS = ["tools::sss::{shamir_evaluation_points, Polynomial::{random, evaluate, public}, PublicPolynomial::{evaluate, coeff0}, "
             "shamir_split, interpolation_coeff, shamir_join_scalars, shamir_join_points}"]


def poly_at(coeffs, x):
    r = Poly({})
    for c in reversed(coeffs):
        r = r * x + c
    return r


class Share(Job):
    """Threshold t, shares at n points: 1..n as the crate chooses them, or arbitrary distinct non-zero ones."""
    scenario = "sss"

    def __init__(self, t, n, subsets, free=False):
        self.t, self.n, self.free, self.subsets = t, n, free, subsets
        self.name = "threshold %d of %d%s" % (t, n, ", arbitrary points" if free else "")
        self.ins = [In("secret", "s", 0, ORDER - 1)]
        self.ins += [In("rand%d" % i, "u", 1, ORDER - 1, role="draw") for i in range(2 * (t - 1))]
        if free:
            self.ins += [In("x%d" % i, "s", 1, ORDER - 1) for i in range(n)]
            self.fixed = ()
        self.max_paths = 12 if free else 4

    def args(self, v):
        d = dict(secret=jsc(v["secret"]), t=self.t, subsets=self.subsets)
        if self.free:
            d["ids"] = [jsc(v["x%d" % i]) for i in range(self.n)]
        else:
            d["n"] = self.n
        return d

    def feasible(self, v):
        xs = [v["x%d" % i] for i in range(self.n)] if self.free else []
        return len(set(xs)) == len(xs)

    def tracked(self, v):
        return not self.free or all(v["x%d" % i] >= 1 << 32 for i in range(self.n))

    def seeds(self, rnd):
        out = []
        for s in (rnd.randrange(1 << 60, ORDER), ORDER - 1, 0):
            v = dict(secret=s)
            for i in range(2 * (self.t - 1)):
                v["rand%d" % i] = rnd.randrange(1 << 60, ORDER)
            if self.free:
                xs = sorted(rnd.randrange(1 << 60, ORDER) for _ in range(self.n))
                if s == ORDER - 1:
                    xs.reverse()
                if s == 0:
                    rnd.shuffle(xs)
                for i, x in enumerate(xs):
                    v["x%d" % i] = x
            out.append(v)
        return out

    def untracked_values(self, v):
        return {ORDER}

    def goals(self, st, V, v):
        o, t = st.out, self.t
        ids = [A("x%d" % i) if self.free else Poly.c(i + 1) for i in range(self.n)]
        co = [A("secret")] + [A("rand%d" % i) for i in range(t - 1)]
        co2 = [A("secret")] + [A("rand%d" % (t - 1 + i)) for i in range(t - 1)]
        g = [g_eq(st, "number of points", sum(k.startswith("id") for k in o), self.n)]
        if g[0].got() != g[0].want():
            return g
        for i, x in enumerate(ids):
            g += [g_scalar(st, "point %d" % i, o["id%d" % i][0], x),
                  g_scalar(st, "share %d" % i, o["share%d" % i][0], poly_at(co, x)),
                  g_pt(st, "public share %d" % i, o["point%d" % i][0], {"G": poly_at(co, x)})]
            if "split%d" % i in o:
                g.append(g_scalar(st, "split %d" % i, o["split%d" % i][0], poly_at(co2, x)))
        g += [g_eq(st, "the split has one share for each point", o["split_all"][1], "1"),
              g_pt(st, "public polynomial at 0", o["coeff0"][0], {"G": A("secret")}),
              g_pt(st, "public polynomial after its wire form", o["back0"][0], {"G": poly_at(co, ids[0])})]
        for k in range(len(self.subsets)):
            g += [g_scalar(st, "joined shares %d" % k, o["joined%d" % k][0], A("secret")),
                  g_pt(st, "joined points %d" % k, o["joined_point%d" % k][0], {"G": A("secret")})]
        return g


def subsets(n, t, extra=()):
    return [list(s) for s in itertools.combinations(range(n), t)] + [list(x) for x in extra]


def jobs(tier):
    out = []
    top = 5 if tier == "quick" else 7
    for n in range(1, top + 1):
        for t in range(1, n + 1):
            subs = subsets(n, t)
            if len(subs) > 10:
                subs = subs[::len(subs) // 10]
            # order of the parties, and more shares than the threshold
            subs = subs + [list(reversed(subs[-1]))] + [list(range(n))]
            out.append(Share(t, n, subs))
    for n, t in ((8, 3), (10, 10), (16, 2)) if tier == "quick" else ((8, 3), (10, 10), (16, 2), (20, 20), (32, 5), (64, 3)):
        out.append(Share(t, n, [list(range(t)), list(range(n - t, n)), list(range(0, n, n // t))[:t]]))
    for t, n in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)) if tier == "quick" else ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (3, 4), (4, 4)):
        out.append(Share(t, n, subsets(n, t), free=True))
    return out
