from symprops.common import *

FUNCTIONS = ["paillier::ring_pedersen::{RPParams::commit, commit_zero_value, commit_zero_randomizer, to_wire, "
             "random_with_secret, RPParamsWire::to_precomputed, RPCommitment::{mul, pow, to_wire}, RPCommitmentWire}",
             "uint::traits::Exponentiable for every exponent type"]
B, BW, BX = (1 << 511) - 1, (1 << 1023) - 1, (1 << 1279) - 1


class Commit(ModJob):
    name = "commit"
    scenario = "pedersen"
    ins = [modulus_in(), In("s", "u", 1, None), In("t", "u", 1, None),
           In("a", "u", 0, B, signed=True), In("b", "u", 0, B, signed=True), In("aw", "u", 0, BW, signed=True),
           In("bw", "u", 0, BW, signed=True), In("bx", "u", 0, BX, signed=True), In("au", "u", 0, (1 << 510) - 1),
           In("e", "u", 0, B, signed=True)]

    def args(self, v):
        return dict(rp=dict(modulus=mod_wire(v["N"]), base_randomizer="0x" + jint(v["t"], 8), base_value="0x" + jint(v["s"], 8)),
                    a=jsigned(v["a"], 511, 8), b=jsigned(v["b"], 511, 8), aw=jsigned(v["aw"], 1023, 16),
                    bw=jsigned(v["bw"], 1023, 16), bx=jsigned(v["bx"], 1279, 20), au=hx(v["au"]), e=jsigned(v["e"], 511, 8))

    def seeds(self, rnd):
        out = ModJob.seeds(self, rnd)
        for v in out:
            v["s"], v["t"] = rnd.randrange(v["N"] >> 8, v["N"]), rnd.randrange(v["N"] >> 8, v["N"])
        return out

    def feasible(self, v):
        return ModJob.feasible(self, v) and all(math.gcd(v[x], v["N"]) == 1 and v[x] < v["N"] for x in "st")

    def setup(self, st, v):
        self.n = self.key_setup(st)
        st.facts += [Cond("ge0", self.n - A("s") - 1), Cond("ge0", self.n - A("t") - 1)]

    def goals(self, st, V, v):
        n, o = self.n, st.out
        s, t = A("s"), A("t")
        a, b, aw, bw, bx, au, e = (V[x] for x in ("a", "b", "aw", "bw", "bx", "au", "e"))
        g = []

        def com(name, x, y):
            bases = ([(s, x)] if x is not None else []) + ([(t, y)] if y is not None else [])
            g.append(g_res(st, name, o[name][0], bases, n))
        com("commit_pub", a, b)
        com("commit_sec", a, b)
        com("commit_wide", aw, bw)
        com("commit_wide_sec", aw, bw)
        com("commit_mixed", a, bw)
        com("commit_extra", a, bx)
        com("commit_extra_sec", aw, bx)
        com("commit_unsigned", au, b)
        com("zero_value", None, b)
        com("zero_value_pub", None, bw)
        com("zero_randomizer", a, None)
        com("zero_randomizer_pub", aw, None)
        com("mul", a + aw, b + bw)
        com("pow", a * e, b * e)
        com("pow_sec", a * e, b * e)
        com("commit2", a, b)
        g += [g_eq(st, "commitment equals its wire form", o["wire_eq"][1], "1"),
              g_eq(st, "commitment equals its serialized form", o["wire2_eq"][1], "1"),
              g_int(st, "modulus after the wire", o["modulus"][0], n),
              g_int(st, "modulus of the wire form", o["modulus_wire"][0], n),
              g_res(st, "base s after the wire", o["s"][0], [(s, 1)], n),
              g_res(st, "base t after the wire", o["t"][0], [(t, 1)], n),
              g_int(st, "wire: modulus", o["rp.modulus"][0], n),
              g_int(st, "wire: s", o["rp.base_value"][0], s),
              g_int(st, "wire: t", o["rp.base_randomizer"][0], t)]
        return g


def jobs(tier):
    return [Commit()]
