"""Keys and helpers shared by the algebraic properties."""
import math
from sym_run import *

PRIMES = [0xc1bb77736557d74e0f7402388c98bc06d12bc24e0901bb1d653019ad548f482b,
          0xe27f4c79fc5aac128490e9d83bb72f987d141ca9eab8e647db3d169553cf3407,
          0xeaa18a7b57d806ebcd2cf047750ade56b9b9bc0c22ca41d74b751d6af08f1417,
          0xfd52958ad4c978cf4afa988fa85e6ea1b89fb8add965ceb3f241f05989333c43,
          0xc998ff967972196995c8de6284b5bf11a36ae4d26bd3767468e33bd0e61a5a7f,
          0xf48b3df1e5896f8d2cc0e43e1a588912a8bd9d1ef1405356df45ef8cb620aabb]
LO, HI = 3 << 254, (1 << 256) - 1      # primes are generated with their two top bits set
A = Poly.a


def prime_ins(p="p", q="q"):
    return [In(p, "u", LO, HI), In(q, "u", LO, HI)]


def sk_wire(p, q):
    return dict(primes=dict(p="0x" + jint(p, 4), q="0x" + jint(q, 4)))


def mod_wire(n):
    return "0x" + jint(n, 8)


def pk_wire(n):
    return dict(modulus=mod_wire(n))


class KeyJob(Job):
    """A job over one Paillier key with symbolic primes p, q."""
    keys = ((0, 1), (1, 0))
    fixed = ("p", "q")

    def key_setup(self, st):
        p, q = A("p"), A("q")
        n = p * q
        phi = (p - 1) * (q - 1)
        st.squares = {(n * n).key(): n}
        st.orders = [(n * n, n * phi), (n, phi)]
        return n, phi

    def seeds(self, rnd):
        out = []
        base = Job.seeds(self, rnd)
        for i, v in enumerate(base):
            v["p"], v["q"] = (PRIMES[x] for x in self.keys[i % len(self.keys)])
            out.append(v)
        return out

    def feasible(self, v):
        return v["p"] in PRIMES and v["q"] in PRIMES and v["p"] != v["q"] and all(
            math.gcd(v[i.name], v["p"] * v["q"]) == 1 for i in self.ins if i.role == "arg")


class ModJob(Job):
    """A job over one modulus, an arbitrary odd integer of the right size."""
    fixed = ("N",)
    MODULI = [PRIMES[0] * PRIMES[1], PRIMES[2] * PRIMES[3]]

    def key_setup(self, st):
        n = A("N")
        st.squares = {(n * n).key(): n}
        return n

    def seeds(self, rnd):
        out = Job.seeds(self, rnd)
        for i, v in enumerate(out):
            v["N"] = self.MODULI[i % 2]
        return out

    def feasible(self, v):
        return v["N"] in self.MODULI and all(math.gcd(v[i.name], v["N"]) == 1 for i in self.ins if i.role == "arg")


def modulus_in(name="N"):
    return In(name, "u", LO * LO, (1 << 512) - 1)


def g_cong(st, name, node, spec, m, width=None):
    """The node (two's complement of `width`) is congruent to spec modulo m."""
    conc = st.conc[node]
    w = width or st.val[node][2]
    c = conc - (1 << w) if w and conc >> (w - 1) else conc

    def check():
        return (c - spec.ev(st.env)) % m.ev(st.env) == 0

    def prove():
        p = st.val[node][1]
        k = (p.ev(st.env) - c) >> w
        p = p - (k << w)
        return not st.reduce_ring(st.norm_rules(p - spec), m).d
    return Goal(name, prove, check, lambda: "%x (mod)" % (spec.ev(st.env) % m.ev(st.env)), lambda: "%x" % (c % m.ev(st.env)))


def g_signed_range(st, name, node, twice_bound):
    """2*|value| <= twice_bound."""
    conc = st.conc[node]
    w = st.val[node][2]
    p = st.val[node][1]
    c = conc - (1 << w) if conc >> (w - 1) else conc
    k = (p.ev(st.env) - c) >> w
    p = p - (k << w)
    return g_conds(st, name, [Cond("ge0", twice_bound - 2 * p), Cond("ge0", twice_bound + 2 * p)])


def g_pt(st, name, node, spec, coords=None):
    """The point is the sum of spec[base] * base; coords: affine coordinates of the bases other than G."""
    from symprops.zk import pmul, padd
    spec = {k: x if isinstance(x, Poly) else Poly.c(x) for k, x in spec.items()}
    conc = st.conc[node]

    def want():
        r = None
        for k, e in spec.items():
            r = padd(r, pmul(e.ev(st.env), *([] if k == "G" else [coords[k]])))
        return "0" if r is None else "%x" % ((2 + (r[1] & 1)) << 192 | r[0])

    def prove():
        d = st.pcomb(st.val[node][1], spec, -1)
        return all(st.szero(e) for e in d.values())
    return Goal(name, prove, lambda: conc.lstrip("0") == want().lstrip("0"), want, lambda: conc)


# Safe primes for keys that are configuration rather than input
MORE_PRIMES = PRIMES + [
    0xf0a9cffff8e548e60f87a63c86557df999211053c2e5de14eca404586a408f77, 0xe45574d5d3061f349dcd5d1ba9ce45e1cec1fa2a5b63ae1b58186be2022b9963,
    0xfc5aa6dfe1d220be90f2081031341bf35e9e74404cd93967d698a286f61021e3, 0xc0f66a3b323376c1835bb72e54a1179268cf30c07769e5f96c0b43186013b67f,
    0xfa66780c76325854bd1f10ce6cbdceac559cabba8abbe1571bcf904ff1006a93, 0xd410eb059a215a5797da6f0d4bc331d9ec9d17ca0cf22917adfd240cc336bb0f,
    0xec4a969fdef2b80d1eea360c9ac69499414611ac87d11cae1f461844acbbe107, 0xccfa0fe1d5cc266c3aec9926b0ae6601794061fb4773679bc6827fb5bc53564f,
    0xe6d58ab3ef36a8e108e627f1ccdee28a03cf04a1d42fc02bfdf5500d6c463473, 0xfded4fdb8c81dd2d48347f8aa8d9ec153b55162a7e774beb24ffb36c6eee6c33,
    0xd50aa76ebc71c2b5c0e95edce781e0db38576da08b4a940aba29e5a32fdefd5b, 0xd5f76dae3236fb6f03018c66b44e410a354e4149cae2e2e15e80387aa158fc83]
