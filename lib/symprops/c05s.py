"""The hash-derived residues of C05 (the rest is decided by engine K)."""
from symprops.common import *

FUNCTIONS = ["paillier::rsa::PublicModulus::invertible_residue_from_xof_reader", "uint::traits::FromXofReader"]


class Residue(ModJob):
    name = "hash-derived residue"
    scenario = "xof_residue"
    ins = [modulus_in(), In("x1", "u", 0, (1 << 512) - 1), In("x2", "u", 0, (1 << 512) - 1)]

    def args(self, v):
        return dict(pk=pk_wire(v["N"]))

    def oracle(self, v):
        return [jint(v["x1"], 8) + jint(v["x2"], 8)]

    def seeds(self, rnd):
        out = []
        for m in self.MODULI:
            p = PRIMES[0] if m == self.MODULI[0] else PRIMES[2]
            big = (1 << 512) - 1 - rnd.getrandbits(400)
            ok = rnd.randrange(m >> 8, m)
            out += [dict(N=m, x1=ok, x2=rnd.randrange(m >> 8, m)), dict(N=m, x1=big, x2=ok),
                    dict(N=m, x1=p * rnd.getrandbits(200), x2=ok), dict(N=m, x1=m, x2=ok)]
        return out

    def feasible(self, v):
        # the third read is beyond the programmed answer
        return v["N"] in self.MODULI and any(v[x] < v["N"] and math.gcd(v[x], v["N"]) == 1 for x in ("x1", "x2"))

    def setup(self, st, v):
        self.n = self.key_setup(st)

    def tracked(self, v):
        return v["N"] not in (v["x1"], v["x2"])

    def goals(self, st, V, v):
        r = st.out["r"][0]
        rp = st.val[r][1]
        nv = v["N"]
        return [g_conds(st, "the residue is below the modulus", [Cond("ge0", self.n - rp - 1), Cond("ge0", rp)]),
                Goal("the residue is invertible", lambda: True, lambda: math.gcd(st.conc[r], nv) == 1)]


class XofScalar(Job):
    """The function from hash output to scalars, on chosen outputs (the curve's own integer type is not tracked)."""
    name = "hash-derived scalar"
    scenario = "xof_scalar"
    ins = [In("lo", "u", 0, (1 << 192) - 1, role="arg"), In("hi", "u", 0, (1 << 192) - 1, role="arg")]

    def args(self, v):
        return {}

    def oracle(self, v):
        return [hx(v["lo"], 24) + hx(v["hi"], 24) + "5a"]

    def seeds(self, rnd):
        m = 1 << 192
        return [dict(lo=a, hi=b) for a, b in [(ORDER - 1, 0), (ORDER + 1, 0), (0, 1), (1, 0), (m - 1, m - 1), (m - 1, 0)] +
                [(rnd.randrange(m), rnd.randrange(m)) for _ in range(6)]]

    def tracked(self, v):
        return False

    def goals(self, st, V, v):
        return [g_eq(st, "the scalar is the reduction of both words", st.conc[st.out["r"][0]], ((v["hi"] << 192) + v["lo"]) % ORDER),
                g_eq(st, "exactly two words are read", st.out["next"][1], str(0x5a))]


def jobs(tier):
    return [Residue(), XofScalar()]
