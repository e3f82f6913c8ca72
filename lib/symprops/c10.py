"""Honest proofs are accepted: every path of creation followed by verification, for all witnesses and masks."""
from symprops.zk import *

MODS = ["zk"]
FUNCTIONS = ["zk::{sch, elog, enc_elg, aff_g, aff_g_star, dec, fac, mod_, prm}::*Proof::{new, verify} and everything they call"]


class Honest(Verify):
    tampers = False
    rnds = ()           # randomizers given by the scenario: (name, modulus)
    draws = ()          # masks: (name, exponent, factors of the scale)
    hashed = True
    wit = ()            # witnesses: (name, exponent of the range)

    def __init__(self):
        Verify.__init__(self)

    def zins(self):
        r = [In("h1", "s", 1, ORDER - 1, role="hash")] if self.hashed else []
        r += [In(n, "u", 0, 1 << (e - 1), signed=True) for n, e in self.wit]
        r += [In(n, "u", 1, None, role="arg") for n, m in self.rnds]
        r += [In(n, "u", 0, None if sc else (1 << e) - 1, role="draw") for n, e, sc in self.draws]
        return r

    def scale(self, v, sc):
        r = 1
        for x in sc:
            r *= v[x] if isinstance(x, str) else x
        return r

    def bounds(self, v):
        return {n: self.scale(v, sc) << e for n, e, sc in self.draws}

    def mask(self, n):
        e, sc = next((e, sc) for m, e, sc in self.draws if m == n)
        s = Poly.c(1)
        for x in sc:
            s = s * (A(x) if isinstance(x, str) else x)
        return A(n) - s * (1 << (e - 1)) + 1

    def fresh(self, rnd, sign):
        v = {m: self.MODULI[k] for k, m in enumerate(self.mods)}
        us = {x[0]: x for x in self.units}
        rn, dr = dict(self.rnds), {n: (e, sc) for n, e, sc in self.draws}
        for i in self.ins:
            n = i.name
            if n in v:
                continue
            if n in us:
                m = v[us[n][1]]
                v[n] = rnd.randrange(m ** us[n][2] >> 8, m ** us[n][2])
            elif n in rn:
                v[n] = rnd.randrange(v[rn[n]] >> 8, v[rn[n]])
            elif n in dr:
                e, sc = dr[n]
                m = self.scale(v, sc) << e
                # around the middle: no mask is in the slack
                v[n] = rnd.randrange(m >> 2, 3 * (m >> 2))
            else:
                v[n] = rnd.randrange(max(i.lo, i.hi >> 2), i.hi) * sign.get(n, 1)
        return v

    def extra_seeds(self, rnd, out):
        r = []
        for n, e in self.wit:
            for x in ((1 << (e - 1)), -(1 << (e - 1)) + 1, 0, 1, -1):
                r.append(dict(out[0], **{n: x}))
        for n, e, sc in self.draws:
            m = self.scale(out[0], sc) << e
            for x in (0, m - 1, (m >> 1) - 1, m >> 1):
                r.append(dict(out[0], **{n: x}))
        return r

    def feasible(self, v):
        return (Verify.feasible(self, v) and all(math.gcd(v[n], v[m]) == 1 and v[n] < v[m] for n, m in self.rnds) and
                all(v[n] < self.scale(v, sc) << e for n, e, sc in self.draws) and
                all(v[n] > -(1 << (e - 1)) for n, e in self.wit))

    def derive(self, v):
        return v

    def slack(self, V, v):
        return []

    def bits_of(self, st):
        return []

    def tested(self, c):
        return True

    def goals(self, st, V, v):
        env = dict(st.env)
        for i in self.ins:
            env.setdefault(i.name, abs(v[i.name]))
        ok, direct = st.out["ok"][1], st.out["ok_direct"][1]
        g = [g_eq(st, "acceptance of the proof that was sent", ok, direct)]
        if ok == "1":
            self.accepts = getattr(self, "accepts", 0) + 1
            # every equation the verification tested is an identity
            left = [c for c in st.pc if c.kind == "op" and c.key and c.key[0] not in ("coprime", "unit") and self.tested(c)]
            g.append(Goal("every verification equation holds identically", lambda: not left, lambda: True,
                          lambda: "identities", lambda: repr(left)[:400]))
        else:
            cs = self.slack(V, v)
            g.append(Goal("rejected only when a response is out of its range", lambda: any(self.refuted(st, c) for c in cs),
                          lambda: any(not c.holds(env) for c in cs), lambda: "acceptance", lambda: "rejection"))
        return g


class SchNew(Honest):
    name, scenario = "sch", "sch_new"

    def zins(self):
        return Honest.zins(self) + [In("x", "s", 1, ORDER - 1)]

    def args(self, v):
        return dict(x=jsc(v["x"]), aux=self.aux)


class ElogNew(Honest):
    name, scenario = "elog", "elog_new"
    points = ("cap_x", "h")

    def zins(self):
        return Honest.zins(self) + [In("y", "s", 1, ORDER - 1), In("lambda", "s", 1, ORDER - 1)]

    def args(self, v):
        return dict(y=jsc(v["y"]), cap_x=jp(v, "cap_x"), h=jp(v, "h"), aux=self.aux, **{"lambda": jsc(v["lambda"])})


class EncElgNew(Honest):
    name, scenario = "enc_elg", "enc_elg_new"
    mods = ("N0", "NH")
    units = RP
    points = ("cap_a",)
    wit = (("x", L),)
    rnds = (("rand0", "N0"),)
    draws = (("rand1", L + EPS, ()), ("rand2", L, ("NH",)), ("rand5", L + EPS, ("NH",)))

    def zins(self):
        return Honest.zins(self) + [In("b", "s", 1, ORDER - 1)]

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), rp=jrp(v), x=jsigned(v["x"], L, U), b=jsc(v["b"]), rho=hx(v["rand0"]),
                    cap_a=jp(v, "cap_a"), aux=self.aux)

    def slack(self, V, v):
        return [Range("z1", self.mask("rand1") + V["h1"] * V["x"], L + EPS)]


class AffGNew(Honest):
    name, scenario = "aff_g", "aff_g_new"
    mods = ("N0", "N1", "NH")
    units = RP + (("cap_c", "N0", 2),)
    wit = (("x", L), ("y", LP))
    rnds = (("rand0", "N0"), ("rand1", "N1"))
    draws = (("rand2", L + EPS, ()), ("rand3", LP + EPS, ()), ("rand6", L + EPS, ("NH",)), ("rand7", L, ("NH",)),
             ("rand8", L + EPS, ("NH",)), ("rand9", L, ("NH",)))

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), pk1=pk_wire(v["N1"]), rp=jrp(v), x=jsigned(v["x"], L, U), y=jsigned(v["y"], LP, U),
                    rho=hx(v["rand0"]), rho_y=hx(v["rand1"]), cap_c=jru(v["cap_c"], W), aux=self.aux)

    def slack(self, V, v):
        return [Range("z1", self.mask("rand2") + V["h1"] * V["x"], L + EPS),
                Range("z2", self.mask("rand3") - V["h1"] * V["y"], LP + EPS)]


class BitsNew(Honest):
    hashed = False
    base = "?"
    per = ()        # masks of one iteration: (exponent or None for a randomizer)

    def __init__(self, bits):
        self.bits = bits
        self.name = self.base + ":" + "".join("01"[b] for b in bits)
        n = len(self.rnds)
        self.draws = tuple(("rand%d" % (n + k * len(self.per) + j), e, ()) for k in range(SEC)
                           for j, e in enumerate(self.per) if e)
        Honest.__init__(self)

    def oracle(self, v):
        return [hx(sum(int(b) << (7 - k) for k, b in enumerate(self.bits)), 1)]

    def at(self, k, j):
        return self.mask("rand%d" % (len(self.rnds) + k * len(self.per) + j))


class AffGStarNew(BitsNew):
    base, scenario = "aff_g_star", "aff_g_star_new"
    mods = ("N0", "N1")
    units = (("cap_c", "N0", 2),)
    wit = (("x", L), ("y", LP))
    rnds = (("rand0", "N0"), ("rand1", "N1"))
    per = (L + EPS, LP + EPS, None, None)

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), pk1=pk_wire(v["N1"]), x=jsigned(v["x"], L, U), y=jsigned(v["y"], LP, U),
                    rho=hx(v["rand0"]), mu=hx(v["rand1"]), cap_c=jru(v["cap_c"], W), aux=self.aux)

    def slack(self, V, v):
        r = []
        for k, b in enumerate(self.bits):
            r += [Range("z%d" % k, self.at(k, 0) + V["x"] * int(b), L + EPS), Range("y%d" % k, self.at(k, 1) - V["y"] * int(b), LP + EPS)]
        return r


class DecNew(BitsNew):
    base, scenario = "dec", "dec_new"
    mods = ("N0", "NH")
    units = RP + (("cap_k", "N0", 2),)
    points = ("cap_g",)
    rnds = (("rand0", "N0"),)

    def __init__(self, bits, parties):
        self.parties = parties
        self.yb = LP + EPS + 1 + (parties - 1).bit_length()
        self.wit = (("x", L), ("y", self.yb))
        self.per = (L + EPS, self.yb + EPS, None)
        BitsNew.__init__(self, bits)
        self.name += ":%d" % parties

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), rp=jrp(v), x=jsigned(v["x"], L, U), y=jsigned(v["y"], self.yb, U), rho=hx(v["rand0"]),
                    cap_k=jru(v["cap_k"], W), cap_g=jp(v, "cap_g"), num_parties=self.parties, aux=self.aux)

    def slack(self, V, v):
        r = []
        for k, b in enumerate(self.bits):
            r += [Range("z%d" % k, self.at(k, 0) + V["x"] * int(b), L + EPS),
                  Range("w%d" % k, self.at(k, 1) + V["y"] * int(b), self.yb + EPS)]
        return r


class SecretKeyNew(Honest):
    """The prover's key is given by its primes."""
    hashed = False
    keys = ((0, 1), (1, 0), (4, 5))
    key = (0, 1)
    MODULI = [PRIMES[2] * PRIMES[3]]

    def __init__(self):
        Honest.__init__(self)
        self.ins = prime_ins() + self.ins
        self.fixed = self.fixed + ("p", "q")

    def fresh(self, rnd, sign):
        v = dict(p=PRIMES[self.key[0]], q=PRIMES[self.key[1]])
        ins = self.ins
        self.ins = [i for i in ins if i.name not in "pq"]
        w = Honest.fresh(self, rnd, sign)
        self.ins = ins
        v.update(w)
        return v

    def setup(self, st, v):
        Honest.setup(self, st, v)
        sq = dict(st.squares)
        self.n, self.phi = KeyJob.key_setup(self, st)
        st.squares.update(sq)

    def feasible(self, v):
        return (v["p"], v["q"]) == (PRIMES[self.key[0]], PRIMES[self.key[1]]) and Honest.feasible(self, v)

    def scale(self, v, sc):
        return Honest.scale(self, dict(v, N=PRIMES[self.key[0]] * PRIMES[self.key[1]]), sc)


class FacNew(SecretKeyNew):
    name, scenario = "fac", "fac_new"
    mods = ("NH",)
    units = RP
    draws = (("rand0", L + EPS, (1 << (PB - 2),)), ("rand1", L + EPS, (1 << (PB - 2),)), ("rand2", L, ("NH",)), ("rand3", L, ("NH",)),
             ("rand4", L + EPS, ("NH", "N")), ("rand5", L + EPS, ("NH",)), ("rand6", L + EPS, ("NH",)))
    OFF = (1 << 63) - 1

    def zins(self):
        return [In("eraw", "u", 1, (1 << 64) - 1, role="var")] + Honest.zins(self)

    def oracle(self, v):
        return [hx(v["eraw"], 8)]

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]), rp=jrp(v), aux=self.aux)

    def slack(self, V, v):
        e = V["eraw"] - self.OFF
        return [Range("z1", self.mask("rand0") + e * A("p"), L + EPS + PB - 2),
                Range("z2", self.mask("rand1") + e * A("q"), L + EPS + PB - 2)]


class PrmNew(SecretKeyNew):
    """The setup is made from a secret: t = r^2, s = t^lambda."""
    scenario = "prm_new"
    mods = ()

    def __init__(self, bits):
        self.bits = bits
        self.name = "prm:" + "".join("01"[b] for b in bits)
        SecretKeyNew.__init__(self)
        self.ins += [In("lambda", "u", 1, (1 << 510) - 1), In("rand0", "u", 1, None, role="draw"),
                     In("rand1", "u", 1, None, role="draw"), In("rand2", "u", 1, None, role="draw")]

    def fresh(self, rnd, sign):
        p, q = (PRIMES[x] for x in self.key)
        n, phi = p * q, (p - 1) * (q - 1)
        return dict(p=p, q=q, rand0=rnd.randrange(n >> 8, n), rand1=rnd.randrange(phi >> 8, phi), rand2=rnd.randrange(phi >> 8, phi),
                    **{"lambda": rnd.randrange(n >> 8, 1 << 510)})

    def extra_seeds(self, rnd, out):
        v = out[0]
        phi = (v["p"] - 1) * (v["q"] - 1)
        # around the wrap of the totient
        return [dict(v, rand1=x) for x in (phi - v["lambda"], phi - v["lambda"] - 1, phi - 1, 1, 0) if 0 <= x < phi]

    def feasible(self, v):
        p, q = (PRIMES[x] for x in self.key)
        return (v["p"], v["q"]) == (p, q) and math.gcd(v["rand0"], p * q) == 1 and v["rand0"] < p * q and all(
            v[x] < (p - 1) * (q - 1) for x in ("rand1", "rand2"))

    def oracle(self, v):
        return [hx(sum(int(b) << (7 - k) for k, b in enumerate(self.bits)), 1)]

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]), aux=self.aux, **{"lambda": hx(v["lambda"])})


class ModNew(SecretKeyNew):
    """Challenges and the non-square are draws; square roots are taken with the factors."""
    scenario = "mod_new"
    mods = ()

    def __init__(self, k):
        self.k = k
        self.key = ((0, 1), (1, 0), (2, 3), (4, 5))[k % 4]
        self.name = "mod:%d" % k
        SecretKeyNew.__init__(self)
        self.ins += [In("rand0", "u", 1, None, role="draw"), In("y0", "u", 1, None), In("y1", "u", 1, None)]

    def fresh(self, rnd, sign):
        p, q = (PRIMES[x] for x in self.key)
        n = p * q
        return dict(p=p, q=q, **{x: rnd.randrange(n >> 8, n) for x in ("rand0", "y0", "y1")})

    def extra_seeds(self, rnd, out):
        return [dict(self.fresh(rnd, {}), _seed=s) for s in range(2, 14)]

    def feasible(self, v):
        p, q = (PRIMES[x] for x in self.key)
        return (v["p"], v["q"]) == (p, q) and all(math.gcd(v[x], p * q) == 1 and v[x] < p * q for x in ("rand0", "y0", "y1"))

    def oracle(self, v):
        return ["".join(jint(v[y], U) for y in ("y0", "y1"))]

    def tested(self, c):
        # residues modulo one prime are compared by the search for square roots only
        return not any(m in repr(c.key[1:2]) for m in ("('p',", "('q',"))

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]), aux=self.aux)


def jobs(tier):
    js = [SchNew(), ElogNew(), EncElgNew(), AffGNew(), FacNew()]
    js += [ModNew(k) for k in range(2 if tier == "quick" else 4)]
    every = [(a, b) for a in (False, True) for b in (False, True)]
    js += [AffGStarNew(b) for b in (every if tier == "thorough" else every[1:3])]
    for b, n in ([((True, False), 2), ((True, True), 3)] if tier == "quick" else [(b, n) for b in every for n in (2, 3, 4, 5, 9)]):
        js.append(DecNew(b, n))
    js += [PrmNew(b) for b in every]
    return js
