"""C01 at the sizes the protocols use (512-bit operands, 1024-bit results); engine K decides the 64-bit case."""
from symprops.common import *

MODS = ["ops"]
FUNCTIONS = ["uint::secret_signed::SecretSigned::{new_from_unsigned, new_positive, abs_value, abs, neg, to_wide, mul_wide_public, checked_*, operators, sum}",
             "uint::public_signed::PublicSigned::*", "uint::secret_unsigned::SecretUnsigned::{new, to_wide}"]
B = 512


def g_signed_out(st, name, val, spec, bound=None):
    """(node, 'neg bound'): the value is exactly spec, the bound covers it."""
    node, rest = val
    f = rest.split()
    if node == 0:
        return [Goal(name, lambda: False, lambda: False, lambda: "a value", lambda: rest)]
    neg, b = f[0] == "1", int(f[1])
    s = spec if not neg else -spec
    conc = st.conc[node]
    # zero has no sign
    gs = [Goal(name, g_int(st, name, node, s).prove, lambda: (-conc if neg else conc) == spec.ev(st.env),
               lambda: "%x" % spec.ev(st.env), lambda: "%s%x" % ("-" if neg else "", conc)),
          g_conds(st, name + " fits its bound", [Cond("ge0", (1 << b) - 1 - spec), Cond("ge0", spec + (1 << b) - 1)])]
    if bound is not None:
        gs.append(g_eq(st, "bound of " + name, b, bound))
    return gs


class Ops(Job):
    scenario = "uint_ops"
    max_paths = 64

    def __init__(self, bx, by, bound):
        self.bx, self.by, self.b = bx, by, bound
        self.name = "operations:%d,%d,%d" % (bx, by, bound)
        self.ins = [In("x", "u", 0, (1 << bx) - 1, signed=True), In("y", "u", 0, (1 << by) - 1, signed=True),
                    In("raw", "u", 0, (1 << B) - 1)]
        self.addok = max(bx, by) + 1 < B
        self.mulok = bx + by < B
        # the second addition of the sum
        self.opok = max(bx, by) + 3 < B

    def args(self, v):
        d = dict(x=jsigned(v["x"], self.bx, 8), y=jsigned(v["y"], self.by, 8), raw=hx(v["raw"], 64), bound=self.b)
        if self.opok:
            d["operators"] = 1
        if self.mulok:
            d["products"] = 1
        return d

    def seeds(self, rnd):
        def r(b):
            return rnd.randrange(1 << b >> 1, 1 << b)
        out = []
        raws = [r(B), r(B - 1), r(min(self.b, B)), (1 << B) - r(min(self.b, B - 1)), rnd.randrange(1 << 33, 1 << 40)]
        for k, (a, b) in enumerate([(1, 1), (-1, 1), (1, -1), (-1, -1), (1, 1), (1, -1)]):
            out.append(dict(x=a * r(self.bx), y=b * r(self.by), raw=raws[k % len(raws)]))
        tx, ty = (1 << self.bx) - 1, (1 << self.by) - 1
        for x, y, w in [(tx, ty, 0), (-tx, -ty, 1), (tx, -ty, 1 << self.b & (1 << B) - 1), (-tx, ty, (1 << self.b) - 1 & (1 << B) - 1),
                        (0, 0, (1 << B) - 1), (1, -1, 1 << (B - 1)), (0, ty, (1 << B - 1) - 1), (-1, ty, (1 << B) - (1 << min(self.b, B - 1)))]:
            out.append(dict(x=x if abs(x) <= tx else tx, y=y if abs(y) <= ty else ty, raw=w))
        return out

    def some(self, st, name, ok, spec, bound=None):
        v = st.out[name]
        if not ok:
            return [g_eq(st, name + " is refused", v[1], "none")]
        return g_signed_out(st, name, v, spec, bound)

    def goals(self, st, V, v):
        o = st.out
        x, y, raw = V["x"], V["y"], V["raw"]
        bx, by = self.bx, self.by
        g = []

        def s(name, spec, bound=None):
            g.extend(g_signed_out(st, name, o[name], spec, bound))
        for n in ("x", "xp", "to_public", "wide", "wide_pub"):
            s(n, x, bx)
        for n in ("neg", "neg_owned", "neg_pub"):
            s(n, -x, bx)
        g.append(g_int(st, "abs", o["abs"][0], x if v["x"] >= 0 else -x))
        g.append(g_eq(st, "bound of abs", o["abs_bound"][1], str(bx)))
        for n, spec in (("add", x + y), ("add_pub", x + y), ("sub", x - y)):
            g += self.some(st, n, self.addok, spec)
        for n in ("mul", "mul_pub"):
            g += self.some(st, n, self.mulok, x * y)
        s("mul_wide", x * y)
        if self.opok:
            for n, spec in (("op_add", x + y), ("op_add_ref", x + y), ("op_add_pub", x + y), ("op_sub", x - y), ("op_sum", 2 * x + y),
                            ("op_sum2", x + y), ("op_sum1", x)):
                s(n, spec)
        if self.mulok:
            for n in ("op_mul", "op_mul_ref", "op_mul_pub", "op_mul_pub_ref"):
                s(n, x * y)
        # construction
        r = v["raw"]
        neg = r >> (B - 1)
        sv, sp = (r - (1 << B), raw - (1 << B)) if neg else (r, raw)
        ok = self.b < B and abs(sv) < 1 << self.b
        for n in ("from_pub", "from_sec"):
            g += self.some(st, n, ok, sp, self.b)
        for n in ("pos_pub", "pos_sec"):
            g += self.some(st, n, self.b < B and r < 1 << self.b and not neg, raw, self.b)
        ok = self.b <= B and r < 1 << self.b
        g.append(g_eq(st, "unsigned: accepted", o["unsigned"][1] != "none", ok))
        if ok:
            for n in ("unsigned", "unsigned_wide"):
                g.append(g_int(st, n, o[n][0], raw, width=0))
                g.append(g_eq(st, "bound of " + n, o[n][1].split()[1], str(self.b)))
        return g


def jobs(tier):
    l = [(250, 200, 300), (255, 256, 511), (256, 256, 512), (256, 255, 510), (255, 256, 513), (510, 1, 256), (511, 511, 64), (510, 510, 1),
         (509, 64, 448), (100, 411, 65), (100, 412, 63), (1, 510, 128), (64, 64, 127)]
    return [Ops(*a) for a in l]
