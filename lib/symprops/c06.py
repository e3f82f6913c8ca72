from symprops.common import *

FUNCTIONS = ["paillier::encryption::{Ciphertext::new*_with_randomizer*, decrypt, derive_randomizer, to_wire, eq}",
             "paillier::keys::{SecretKeyPaillier::new, PublicKeyPaillier::new, random_invertible_residue}",
             "paillier::rsa::*", "uint::{SecretSigned, PublicSigned, SecretUnsigned, traits::Exponentiable}"]


class Decrypt(KeyJob):
    name = "decrypt"
    scenario = "decrypt"
    ins = prime_ins() + [In("m", "u", 0, (1 << 511) - 1, signed=True), In("mw", "u", 0, (1 << 1023) - 1, signed=True),
                         In("rand0", "u", 0, None, role="arg")]

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]), m=jsigned(v["m"], 511, 8), wide=jsigned(v["mw"], 1023, 16),
                    rho=hx(v["rand0"]))

    def seeds(self, rnd):
        out = []
        for v in KeyJob.seeds(self, rnd):
            n = v["p"] * v["q"]
            v["rand0"] = rnd.randrange(n >> 8, n)
            out.append(v)
            # plaintexts close to half of the modulus and small ones
            for m in ((n - 1) // 2, (n - 1) // 2 - rnd.getrandbits(500), rnd.getrandbits(480)):
                s = 1 if v["m"] >= 0 else -1
                out.append(dict(v, m=s * min(m, (1 << 511) - 1), mw=(1 if v["mw"] > 0 else -1) * m * 3))
        return out

    def setup(self, st, v):
        self.n, self.phi = self.key_setup(st)

    def goals(self, st, V, v):
        n, o = self.n, st.out
        n2 = n * n
        rho = A("rand0")

        def enc(m):
            return [(1 + m * n, 1), (rho, n)]
        g = [g_res(st, "encryption", o["c.ciphertext"][0], enc(V["m"]), n2),
             g_cong(st, "decrypted plaintext", o["dec"][0], V["m"], n),
             g_signed_range(st, "decrypted plaintext range", o["dec"][0], n - 1),
             g_cong(st, "decrypted wide plaintext", o["dec_wide"][0], V["mw"], n),
             g_signed_range(st, "decrypted wide plaintext range", o["dec_wide"][0], n - 1),
             g_res(st, "derived randomizer", o["rho"][0], [(rho, 1)], n),
             g_res(st, "re-encryption", o["again.ciphertext"][0], enc(V["m"]), n2),
             g_eq(st, "re-encryption equals the ciphertext", o["again_eq"][1], "1")]
        return g


class Encrypt(ModJob):
    """Secret, public, wide and narrow encryption agree with (1+N)^m rho^N, whatever the odd modulus."""
    name = "encrypt"
    scenario = "encrypt"
    ins = [modulus_in(), In("m", "u", 0, (1 << 511) - 1, signed=True), In("mw", "u", 0, (1 << 1023) - 1, signed=True),
           In("rand0", "u", 0, None, role="arg"), In("masked", "u", 0, (1 << 512) - 1)]

    def args(self, v):
        return dict(pk=pk_wire(v["N"]), m=jsigned(v["m"], 511, 8), mw=jsigned(v["mw"], 1023, 16), rho=hx(v["rand0"]),
                    masked="0x" + jint(v["masked"], 8))

    def seeds(self, rnd):
        out = ModJob.seeds(self, rnd)
        for v in out:
            v["rand0"] = rnd.randrange(v["N"] >> 8, v["N"])
        return out

    def setup(self, st, v):
        self.n = self.key_setup(st)

    def goals(self, st, V, v):
        n, o = self.n, st.out
        rho, mk = A("rand0"), A("masked")
        g = []
        for out, m, r in (("secret", "m", rho), ("wide", "m", rho), ("public", "m", mk), ("public_wide", "m", mk),
                          ("wide2", "mw", rho), ("public_wide2", "mw", mk)):
            g.append(g_res(st, out + " encryption", o[out + ".ciphertext"][0], [(1 + V[m] * n, 1), (r, n)], n * n))
        return g


def jobs(tier):
    return [Decrypt(), Encrypt()]
