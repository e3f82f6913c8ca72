"""C13: assembly of the recoverable ECDSA signature."""
from symprops.common import *
from symprops.zk import pmul, padd, FM, GEN

MODS = ["sig"]
FUNCTIONS = ["curve::ecdsa::RecoverableSignature::{from_scalars, to_backend}", "curve::arithmetic::{Point, Scalar}::to_backend, to_be_bytes"]
B = 6


def lift(x, odd):
    """A point with this abscissa, or None."""
    y2 = (x ** 3 - 3 * x + B) % FM
    y = pow(y2, (FM + 1) // 4, FM)
    if y * y % FM != y2:
        return None
    return x, y if y & 1 == odd else FM - y


class Signature(Job):
    """R is any point; the key is the one for which (x(R), s) signs m, or, with `e`, off by e in one place."""
    scenario = "signature"
    fixed = ("R",)
    max_paths = 16

    def __init__(self, mode):
        self.mode = mode
        self.name = {"": "valid", "r": "other first scalar", "s": "other second scalar", "m": "other message", "q": "other key",
                     "r0": "first scalar zero", "s0": "second scalar zero", "q0": "key at infinity"}[mode]
        self.ins = [In("R", "p"), In("s", "s", 1, ORDER - 1), In("m", "s", 0, ORDER - 1)]
        if mode in "rsmq" and mode:
            self.ins.append(In("e", "s", 1, ORDER - 1))

    def point(self, v, n):
        return "%02x%048x" % (2 + (v[n] & 1), v[n] >> 1)

    def args(self, v):
        d = dict(R="0x" + self.point(v, "R"), s=jsc(v["s"]), m=jsc(v["m"]), mode=self.mode)
        if "e" in v:
            d["e"] = jsc(v["e"])
        return d

    def seeds(self, rnd):
        out = []
        pts = []
        for k in range(4):
            p = pmul(rnd.randrange(1, ORDER))
            pts.append(p[0] << 1 | p[1] & 1)
        # abscissas above the order: the scalar is reduced
        x = ORDER + rnd.randrange(FM - ORDER - 1000)
        for odd in (0, 1):
            while lift(x, odd) is None:
                x += 1
            pts.append(x << 1 | odd)
            x += 1
        # a reduced abscissa that is also one of a point
        for k, p in enumerate(pts):
            s = rnd.randrange(1, ORDER // 2) if k % 2 else rnd.randrange(ORDER // 2 + 1, ORDER)
            out.append(dict(R=p, s=s, m=rnd.randrange(1 << 40, ORDER)))
            out.append(dict(R=p, s=ORDER - s, m=rnd.randrange(1 << 40, ORDER)))
        out += [dict(R=pts[0], s=ORDER // 2, m=5 << 40), dict(R=pts[1], s=ORDER // 2 + 1, m=3 << 40), dict(R=pts[0], s=1, m=0),
                dict(R=pts[3], s=ORDER - 1, m=ORDER - 1)]
        if len(self.ins) > 3:
            for v in out:
                v["e"] = rnd.randrange(1 << 40, ORDER)
        return out

    def feasible(self, v):
        # changed by a multiple of the order, or into the other valid signature
        if self.mode == "s" and (2 * v["s"] + v["e"]) % ORDER == 0:
            return False
        return v["s"] % ORDER and v.get("e", 1) % ORDER and (v["R"] >> 1) % ORDER != 0

    def goals(self, st, V, v):
        o = st.out
        some = o["some"][1] == "1"
        if self.mode:
            return [g_eq(st, "a signature is returned", some, False)]
        g = [g_eq(st, "a signature is returned", some, True)]
        if not some:
            return g
        s = V["s"]
        rp = st.val[o["r_in"][0]][1]
        rn = o["r"][0]
        g.append(Goal("first scalar", lambda: equal(st, st.val[rn][1], rp), lambda: st.conc[rn] == rp.ev(st.env) % ORDER,
                      lambda: "%x" % (rp.ev(st.env) % ORDER), lambda: "%x" % st.conc[rn]))
        # the smaller of the two
        low = v["s"] <= ORDER // 2
        g.append(g_scalar(st, "second scalar", o["s"][0], s if low else -s))
        g.append(g_conds(st, "second scalar in the lower half", [Cond("ge0", ORDER // 2 - s if low else s - ORDER // 2 - 1)]))
        g.append(g_eq(st, "the key can be recovered", o["recovers"][1], "1"))
        if o["recovers"][1] == "1":
            k, q = o["recovered"][0], o["key"][0]
            g.append(Goal("the recovered key", lambda: same(st, k, q), lambda: st.conc[k] == st.conc[q],
                          lambda: "%x" % st.conc[q], lambda: "%x" % st.conc[k]))
            rid = int(o["id"][1])
            g.append(g_eq(st, "recovery identifier", rid, int((v["R"] & 1) != (not low)) + (2 if v["R"] >> 1 >= ORDER else 0)))
        return g


def equal(st, a, b):
    """Equal scalars: as terms, or because the path compared them."""
    d = st.snorm(a - b)
    return not d.d or any(st.implied(st.mod_zero(x, ORDER, True, "eq"), use_pc=st.pc) for x in (d, st.snorm(-d)))


def same(st, k, q):
    d = st.pcomb(st.val[k][1], st.val[q][1], -1)
    if not any(st.snorm(e).d for e in d.values()):
        return True
    # or the code compared the two
    d = {x: st.snorm(e) for x, e in d.items()}
    key = st.peq_key({x: e for x, e in d.items() if e.d})
    return any(c.kind == "op" and c.key == key and c.pol for c in st.pc)


def jobs(tier):
    return [Signature(m) for m in ("", "r", "s", "m", "q", "r0", "s0", "q0")]
