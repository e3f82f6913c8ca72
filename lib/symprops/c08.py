from symprops.common import *

FUNCTIONS = ["paillier::rsa::{SecretPrimes, SecretPrimesWire, PublicModulus, PublicModulusWire}::*",
             "paillier::keys::{SecretKeyPaillier, SecretKeyPaillierWire, PublicKeyPaillier, PublicKeyPaillierWire}::*",
             "paillier::ring_pedersen::{RPSecret, RPParams::random_with_secret}"]


def g_zero_mod(st, name, got, poly, m):
    """poly is a multiple of m (both over the path's atoms)."""
    return Goal(name, lambda: not st.reduce_ring(st.norm_rules(poly), m).d,
                lambda: poly.ev(st.env) % m.ev(st.env) == 0, lambda: "a multiple of the modulus", lambda: got)


def g_msq(st, name, node, other):
    """node^2 is the residue `other` on this path."""
    f, g = st.val[node][1], st.val[other][1]
    key = st.meq_key(st.fpow(f, Poly.c(2)), g)
    mv = f.m.ev(st.env)
    return Goal(name, lambda: key == () or any(c.key == key and c.pol for c in st.pc),
                lambda: (st.conc[node] ** 2 - st.conc[other]) % mv == 0, lambda: "%x" % st.conc[other],
                lambda: "%x" % (st.conc[node] ** 2 % mv))


class Keys(KeyJob):
    name = "derived key material"
    scenario = "keys"
    ins = prime_ins()

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]))

    def seeds(self, rnd):
        return [dict(p=PRIMES[i], q=PRIMES[j]) for i, j in ((0, 1), (1, 0), (2, 3), (4, 5))]

    def setup(self, st, v):
        self.n, self.phi = self.key_setup(st)

    def goals(self, st, V, v):
        n, phi, o = self.n, self.phi, st.out
        p, q = A("p"), A("q")
        g = [g_int(st, k, o[k][0], n) for k in ("modulus", "modulus_signed", "modulus_nonzero", "modulus_wide",
                                                "wire_modulus", "wire_public", "pk_into_wire")]
        g += [g_int(st, "p", o["p"][0], p), g_int(st, "q", o["q"][0], q), g_int(st, "totient", o["totient"][0], phi),
              g_eq(st, "bound of p", o["p"][1], "256"), g_eq(st, "bound of q", o["q"][1], "256"),
              g_eq(st, "bound of the modulus", o["modulus_signed"][1], "512"),
              g_res(st, "inverse totient", o["inv_totient"][0], [(phi, -1)], n),
              g_res(st, "modulus modulo its square", o["n_mod_n2"][0], [(n, 1)], n * n),
              g_int(st, "wire p", o["wire_secret.primes.p"][0], p), g_int(st, "wire q", o["wire_secret.primes.q"][0], q),
              g_eq(st, "public keys agree", o["pk_eq"][1], "1")]
        i = st.val[o["inv_modulus"][0]][1]
        g += [g_zero_mod(st, "inverse modulus", "%x" % st.conc[o["inv_modulus"][0]], i * n - 1, phi),
              g_conds(st, "inverse modulus range", [Cond("ge0", phi - i - 1), Cond("ge0", i)])]
        return g


class Rns(KeyJob):
    name = "splitting and joining"
    scenario = "rns"
    ins = prime_ins() + [In("x", "u", 0, (1 << 512) - 1)]

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]), x=hx(v["x"]))

    def seeds(self, rnd):
        out = []
        for i, j in ((0, 1), (1, 0), (2, 3), (5, 4)):
            n = PRIMES[i] * PRIMES[j]
            xs = [pow(rnd.randrange(n >> 8, n), 2, n), rnd.randrange(n >> 8, n), n - 1 - rnd.getrandbits(200),
                  PRIMES[i] * rnd.getrandbits(250), PRIMES[j] * rnd.getrandbits(250), rnd.getrandbits(200)]
            out += [dict(p=PRIMES[i], q=PRIMES[j], x=x) for x in xs]
        return out

    def feasible(self, v):
        return KeyJob.feasible(self, v) and v["x"] < v["p"] * v["q"]

    def setup(self, st, v):
        self.n, self.phi = self.key_setup(st)
        st.facts.append(Cond("ge0", self.n - A("x") - 1))

    def goals(self, st, V, v):
        o = st.out
        p, q, x = A("p"), A("q"), A("x")
        g = [g_res(st, "part modulo p", o["a"][0], [(x, 1)], p), g_res(st, "part modulo q", o["b"][0], [(x, 1)], q),
             g_int(st, "joined parts", o["join"][0], x)]

        def is_sq(y, m):
            return pow(y % m, (m - 1) // 2, m) in (0, 1)
        some = o["sqrt"][1] == "1"
        g.append(g_eq(st, "a root is returned exactly for squares", some, is_sq(v["x"], v["p"]) and is_sq(v["x"], v["q"])))
        if some:
            g += [g_msq(st, "root modulo p", o["sa"][0], o["a"][0]), g_msq(st, "root modulo q", o["sb"][0], o["b"][0])]
            j = o["sqrt_join"][0]
            jp = st.val[j][1]
            for nm, r, m in (("p", "sa", p), ("q", "sb", q)):
                f = st.val[o[r][0]][1]

                def prove(f=f, m=m):
                    h = st.from_poly(st.expand(jp, m), m)
                    return st.meq_key(h, f) == ()
                g.append(Goal("joined root modulo " + nm, prove,
                              lambda r=r, m=m: (st.conc[j] - st.conc[o[r][0]]) % m.ev(st.env) == 0,
                              lambda r=r: "%x" % st.conc[o[r][0]], lambda: "%x" % st.conc[j]))
            g.append(g_conds(st, "joined root range", [Cond("ge0", self.n - jp - 1), Cond("ge0", jp)]))
        return g


class Squares(KeyJob):
    """Every square has a root: p = 4h+3, x = y^2 mod N."""
    name = "a root is returned for every square"
    scenario = "rns_square"
    ins = [In("hp", "u", 3 << 252, (1 << 254) - 1), In("hq", "u", 3 << 252, (1 << 254) - 1), In("y", "u", 1, (1 << 512) - 1)]
    fixed = ("hp", "hq")

    def request_values(self, v):
        return 4 * v["hp"] + 3, 4 * v["hq"] + 3

    def args(self, v):
        p, q = self.request_values(v)
        return dict(sk=sk_wire(p, q), y=hx(v["y"]))

    def seeds(self, rnd):
        out = []
        for i, j in ((0, 1), (3, 2)):
            n = PRIMES[i] * PRIMES[j]
            out += [dict(hp=PRIMES[i] >> 2, hq=PRIMES[j] >> 2, y=y) for y in (rnd.randrange(n >> 8, n), rnd.getrandbits(300))]
        return out

    def feasible(self, v):
        p, q = self.request_values(v)
        return p in PRIMES and q in PRIMES and p != q and math.gcd(v["y"], p * q) == 1 and v["y"] < p * q

    def setup(self, st, v):
        p, q = 4 * A("hp") + 3, 4 * A("hq") + 3
        self.p, self.q = p, q
        st.orders = [(p, p - 1), (q, q - 1)]
        st.named = {4 * v["hp"] + 3: p, 4 * v["hq"] + 3: q}
        st.facts.append(Cond("ge0", p * q - A("y") - 1))

    def untracked_values(self, v):
        return {ORDER, 4 * v["hp"] + 3, 4 * v["hq"] + 3}

    def goals(self, st, V, v):
        o = st.out
        y = A("y")
        g = [g_eq(st, "a root is returned", o["sqrt"][1], "1"),
             g_res(st, "part modulo p", o["a"][0], [(y, 2)], self.p), g_res(st, "part modulo q", o["b"][0], [(y, 2)], self.q)]
        if o["sqrt"][1] == "1":
            g += [g_msq(st, "root modulo p", o["sa"][0], o["a"][0]), g_msq(st, "root modulo q", o["sb"][0], o["b"][0])]
        return g


def jacobi(a, n):
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


class NonSquare(KeyJob):
    name = "sampled residues"
    scenario = "nonsquare"
    ins = prime_ins() + [In("rand0", "u", 1, None, role="draw"), In("rand1", "u", 1, None, role="draw")]
    max_paths = 8

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]))

    def seeds(self, rnd):
        out = []
        for i, j in ((0, 1), (1, 0), (2, 3), (4, 5)):
            n = PRIMES[i] * PRIMES[j]
            out += [dict(p=PRIMES[i], q=PRIMES[j], rand0=rnd.randrange(n >> 8, n), rand1=rnd.randrange(n >> 8, n),
                         _seed=s) for s in (1, 2, 3, 4, 5)]
        return out

    def setup(self, st, v):
        self.n, self.phi = self.key_setup(st)

    def goals(self, st, V, v):
        o, n = st.out, self.n
        p, q = A("p"), A("q")
        w = o["w"][0]
        nv = n.ev(st.env)
        y = A("rand0")
        wp = st.val[w][1]
        g = [Goal("non-square residue", lambda: True, lambda: jacobi(st.conc[w], nv) == -1 and math.gcd(st.conc[w], nv) == 1,
                  lambda: "Jacobi symbol -1, invertible", lambda: "%x" % st.conc[w]),
             g_conds(st, "non-square residue range", [Cond("ge0", n - wp - 1), Cond("ge0", wp)]),
             g_int(st, "invertible residue", o["r"][0], A("rand1"))]

        def prove():
            # a square modulo one factor, the negative of the same square modulo the other (-1 is no square: p = q = 3 mod 4)
            a, b = st.expand(wp, p), st.expand(wp, q)
            return a in (y * y, -(y * y)) and not (a + b).d
        g.append(Goal("a square modulo one factor only", prove, lambda: True))
        return g


class Setup(KeyJob):
    name = "setup from a secret"
    scenario = "setup_from_secret"
    ins = prime_ins() + [In("lambda", "u", 0, (1 << 510) - 1), In("rand0", "u", 1, None, role="draw"),
                         In("rand1", "u", 1, None, role="draw")]

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]), **{"lambda": hx(v["lambda"])})

    def seeds(self, rnd):
        out = []
        for i, j in ((0, 1), (1, 0), (2, 3)):
            p, q = PRIMES[i], PRIMES[j]
            n = p * q
            out.append(dict(p=p, q=q, rand0=rnd.randrange(n >> 8, n), rand1=rnd.randrange(n >> 8, (p - 1) * (q - 1)),
                            **{"lambda": rnd.randrange(n >> 3)}))
        return out

    def feasible(self, v):
        return KeyJob.feasible(self, v) and math.gcd(v["rand0"], v["p"] * v["q"]) == 1 and v["rand1"] < (v["p"] - 1) * (v["q"] - 1)

    def setup(self, st, v):
        self.n, self.phi = self.key_setup(st)

    def goals(self, st, V, v):
        o, n = st.out, self.n
        y, la = A("rand0"), A("lambda")
        return [g_int(st, "modulus", o["modulus"][0], n), g_int(st, "modulus of the secret", o["secret_modulus"][0], n),
                g_int(st, "totient", o["totient"][0], self.phi), g_int(st, "lambda", o["lambda"][0], la),
                g_res(st, "t is a square", o["t"][0], [(y, 2)], n), g_res(st, "s is t^lambda", o["s"][0], [(y, 2 * la)], n),
                g_int(st, "residue modulo the totient", o["residue"][0], A("rand1")),
                g_res(st, "wire t", o["rp.base_randomizer"][0], [(y, 2)], n),
                g_res(st, "wire s", o["rp.base_value"][0], [(y, 2 * la)], n), g_int(st, "wire modulus", o["rp.modulus"][0], n)]


def jobs(tier):
    return [Keys(), Rns(), Squares(), NonSquare(), Setup()]
