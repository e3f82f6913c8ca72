from symprops.common import *

FUNCTIONS = ["paillier::encryption::{Add, Sub, Mul for Ciphertext; homomorphic_*; Randomizer::to_masked; to_wire; "
             "CiphertextWire::to_precomputed; PartialEq}"]
B = (1 << 511) - 1


class Homo(ModJob):
    name = "arithmetic"
    scenario = "homo"
    ins = [modulus_in(), In("m1", "u", 0, B, signed=True), In("m2", "u", 0, B, signed=True), In("k", "u", 0, B, signed=True),
           In("kw", "u", 0, (1 << 1023) - 1, signed=True), In("e", "u", 0, B, signed=True),
           In("rand0", "u", 1, None, role="arg"), In("rand1", "u", 1, None, role="arg")]

    def args(self, v):
        d = {k: jsigned(v[k], 511, 8) for k in ("m1", "m2", "k", "e")}
        return dict(d, pk=pk_wire(v["N"]), kw=jsigned(v["kw"], 1023, 16), r1=hx(v["rand0"]), r2=hx(v["rand1"]))

    def seeds(self, rnd):
        out = ModJob.seeds(self, rnd)
        for v in out:
            v["rand0"], v["rand1"] = rnd.randrange(v["N"] >> 8, v["N"]), rnd.randrange(v["N"] >> 8, v["N"])
        return out

    def setup(self, st, v):
        self.n = self.key_setup(st)

    def goals(self, st, V, v):
        n, o = self.n, st.out
        n2 = n * n
        r1, r2 = A("rand0"), A("rand1")
        m1, m2, k, kw, e = (V[x] for x in ("m1", "m2", "k", "kw", "e"))
        g = []

        def enc(name, m, rs):
            g.append(g_res(st, name, o[name + ".ciphertext"][0], [(1 + m * n, 1)] + [(r, x * n) for r, x in rs], n2))
        for x in ("add", "add_owned_ref", "add_ref"):
            enc(x, m1 + m2, [(r1, Poly.c(1)), (r2, Poly.c(1))])
        enc("sub", m1 - m2, [(r1, Poly.c(1)), (r2, Poly.c(-1))])
        for x in ("mul_public", "mul_public_ref", "mul_secret", "mul_secret_ref"):
            enc(x, m1 * k, [(r1, k)])
        for x in ("mul_wide", "mul_wide_secret"):
            enc(x, m1 * kw, [(r1, kw)])
        for x in ("wire", "wire2"):
            enc(x, m1, [(r1, Poly.c(1))])
        g.append(g_res(st, "masked randomizer", o["masked"][0], [(r1, e), (r2, 1)], n))
        g += [g_eq(st, "ciphertext equals its wire form", o["wire_eq"][1], "1"),
              g_eq(st, "key kept by the wire form", o["same_pk"][1], "1")]
        return g


class TwoKeys(ModJob):
    """Operations on ciphertexts of two keys are refused unless the keys are equal."""
    scenario = "homo_two_keys"
    fixed = ("N", "N2")
    ins = [modulus_in(), modulus_in("N2"), In("c1", "u", 0, (1 << 1024) - 1), In("c2", "u", 0, (1 << 1024) - 1)]

    def __init__(self, op):
        self.op = op
        self.name = "two_keys:" + op

    def args(self, v):
        return dict(pk=pk_wire(v["N"]), pk2=pk_wire(v["N2"]), c1="0x" + jint(v["c1"], 16), c2="0x" + jint(v["c2"], 16),
                    op=self.op)

    def feasible(self, v):
        return v["N"] in self.MODULI and v["N2"] in self.MODULI

    def seeds(self, rnd):
        out = []
        for i in range(2):
            for d in range(2):
                m = self.MODULI[i], self.MODULI[(i + d) % 2]
                out.append(dict(N=m[0], N2=m[1], c1=rnd.randrange(m[0] ** 2), c2=rnd.randrange(m[1] ** 2)))
        return out

    def setup(self, st, v):
        self.n = self.key_setup(st)
        n2 = A("N2")
        st.squares[(n2 * n2).key()] = n2

    def tracked(self, v):
        return True

    def goals(self, st, V, v):
        # equal values are one variable for the recorder
        same = v["N"] == v["N2"]
        n = A("N2")
        c2 = -1 if self.op == "sub" else 1
        return [g_conds(st, "accepted only under one key", [] if same else [Cond("eq0", A("N") - A("N2"))]),
                g_res(st, "result", st.out["res.ciphertext"][0], [(A("c1"), 1), (A("c2"), c2)], n * n)]

    def panic_goals(self, st, V, v, where):
        return [g_conds(st, "refused only under two keys", [Cond("eq0", A("N") - A("N2"), False)])]


class OtherKey(TwoKeys):
    """Decryption under another key is refused."""
    scenario = "decrypt_other_key"
    fixed = ("p", "q", "N2")
    ins = prime_ins() + [modulus_in("N2"), In("c1", "u", 0, (1 << 1024) - 1)]

    def __init__(self, op):
        self.op = op
        self.name = "other_key:" + op

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]), pk2=pk_wire(v["N2"]), c1="0x" + jint(v["c1"], 16), op=self.op)

    def feasible(self, v):
        return (v["p"], v["q"]) in [(PRIMES[0], PRIMES[1]), (PRIMES[2], PRIMES[3])] and v["N2"] in self.MODULI

    def seeds(self, rnd):
        out = []
        for i in range(2):
            for d in range(2):
                p, q = PRIMES[2 * i], PRIMES[2 * i + 1]
                n2 = self.MODULI[(i + d) % 2]
                out.append(dict(p=p, q=q, N2=n2, c1=rnd.randrange(n2 ** 2)))
        return out

    def setup(self, st, v):
        KeyJob.key_setup(self, st)

    def goals(self, st, V, v):
        return [g_conds(st, "accepted only under one key", [Cond("eq0", A("p") * A("q") - A("N2"))])]

    def panic_goals(self, st, V, v, where):
        return [g_conds(st, "refused only under two keys", [Cond("eq0", A("p") * A("q") - A("N2"), False)])]


def jobs(tier):
    return [Homo()] + [TwoKeys(x) for x in ("add", "add_ref", "add_owned_ref", "sub")] + [
        OtherKey(x) for x in ("decrypt", "derive")]
