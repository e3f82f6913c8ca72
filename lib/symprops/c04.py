from sym_run import *

FUNCTIONS = ["params::conversion::*"]
UB, WB = 511, 1023


class ScalarToInt(Job):
    name = "scalar"
    scenario = "conv"
    ins = [In("s", "s", 0, ORDER - 1)]

    def args(self, v):
        return dict(s=jsc(v["s"]))

    def seeds(self, rnd):
        return [dict(s=x) for x in (rnd.randrange(ORDER), 0, 1, ORDER // 2, ORDER // 2 + 1, ORDER - 1)]

    def goals(self, st, V, v):
        s, o = V["s"], st.out
        half = ORDER // 2
        n = o["secret_signed_from_scalar"][0]
        w = st.val[n][2]
        got = st.val[n][1]
        c = st.conc[n]
        c = c - (1 << w) if c >> (w - 1) else c
        k = (c - v["s"]) // ORDER
        spec = s + k * ORDER
        return [
            g_int(st, "public_signed_from_scalar", o["public_signed_from_scalar"][0], s),
            g_scalar(st, "scalar_from_signed(public_signed_from_scalar)", o["ps_round"][0], s),
            g_scalar(st, "secret_scalar_from_signed(secret_signed_from_scalar)", o["ss_round"][0], s),
            g_int(st, "secret_signed_from_scalar (residue)", n, spec),
            g_conds(st, "secret_signed_from_scalar (smallest absolute value)",
                    [Cond("ge0", half - spec), Cond("ge0", spec + half)]),
        ]


class IntToScalar(Job):
    scenario = "conv"

    def __init__(self, key, bound, limbs):
        self.key, self.bound, self.limbs = key, bound, limbs
        self.name = "signed" if key == "x" else "wide_signed"
        self.ins = [In(key, "u", 0, (1 << bound) - 1, signed=True)]

    def args(self, v):
        return {self.key: jsigned(v[self.key], self.bound, self.limbs)}

    def seeds(self, rnd):
        top = (1 << self.bound) - 1
        out = []
        for x in (rnd.randrange(top), top, ORDER, ORDER - 1, 2 * ORDER, ORDER + 1, 1, rnd.randrange(ORDER), 1 << 64, 1 << 191,
                  1 << 192):
            out += [{self.key: x}, {self.key: -x}]
        return out + [{self.key: 0}]

    def goals(self, st, V, v):
        x, o = V[self.key], st.out
        w = "" if self.key == "x" else "wide_"
        return [g_scalar(st, n, o[n][0], x) for n in ("scalar_from_%ssigned" % w, "secret_scalar_from_%ssigned" % w)]


def jobs(tier):
    return [ScalarToInt(), IntToScalar("x", UB, 8), IntToScalar("y", WB, 16)]
