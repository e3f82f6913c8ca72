"""C02 at the sizes the protocols use; engine K decides the 64-bit case."""
from symprops.common import *
from symprops.c01s import g_signed_out

MODS = ["ops"]
FUNCTIONS = ["uint::public_signed::PublicSigned::{is_in_exponent_range, from_xof_reader_in_exponent_range}",
             "uint::secret_signed::SecretSigned::{ensure_exponent_range, assert_exponent_range, random_in_exponent_range, "
             "random_in_exponent_range_scaled, random_in_exponent_range_scaled_wide}", "uint::traits::FromXofReader"]
B = 512


class Ranges(Job):
    scenario = "ranges"
    max_paths = 64

    def __init__(self, bound, exps):
        self.bound, self.exps = bound, exps
        self.name = "membership:%d:%s" % (bound, "-".join(map(str, exps)))
        self.ins = [In("x", "u", 0, (1 << bound) - 1, signed=True)]

    def args(self, v):
        return dict(x=jsigned(v["x"], self.bound, 8), exps=self.exps)

    def seeds(self, rnd):
        out = []
        top = (1 << self.bound) - 1
        for e in self.exps:
            h = 1 << (e - 1)
            for x in (h - 1, h, h + 1, rnd.randrange(h), rnd.randrange(h) + h, 2 * h - 1, 2 * h):
                out += [dict(x=s * x) for s in (1, -1) if x <= top]
        return out + [dict(x=0), dict(x=1), dict(x=-1), dict(x=top), dict(x=-top)]

    def goals(self, st, V, v):
        g = []
        x = V["x"]
        for e in self.exps:
            h = 1 << (e - 1)
            inside = -h < v["x"] <= h
            cs = [Cond("ge0", h - x), Cond("ge0", x + h - 1)]
            # on a path, the answer is the same for every value
            n = "membership in +-2^%d" % e
            pub, sec = st.out["pub%d" % e][1] == "1", st.out["sec%d" % e]
            got = sec[1] != "none"

            def prove(cs=cs, inside=inside):
                if inside:
                    return all(st.implied(c, use_pc=st.pc) for c in cs)
                return any(st.implied(c.neg(), use_pc=st.pc) for c in cs)
            g.append(Goal(n, prove, lambda pub=pub, inside=inside: pub == inside, lambda inside=inside: str(inside), lambda pub=pub: str(pub)))
            # the secret form also needs room for the new bound
            want = inside and e < B - 1
            g.append(Goal(n + " (secret)", (lambda: True) if not e < B - 1 else prove, lambda got=got, want=want: got == want,
                          lambda want=want: str(want), lambda got=got: str(got)))
            if got:
                g += g_signed_out(st, "the value kept", sec, x)
        return g


class AssertRange(Job):
    scenario = "assert_range"

    def __init__(self, bound, exp):
        self.bound, self.e = bound, exp
        self.name = "assertion:%d:%d" % (bound, exp)
        self.ins = [In("x", "u", 0, (1 << bound) - 1, signed=True)]

    def args(self, v):
        return dict(x=jsigned(v["x"], self.bound, 8), exp=self.e)

    def seeds(self, rnd):
        h = 1 << (self.e - 1)
        top = (1 << self.bound) - 1
        return [dict(x=s * x) for x in (h - 1, h, h + 1, rnd.randrange(h), rnd.randrange(h) + h, 2 * h) for s in (1, -1) if x <= top]

    def conds(self, V):
        h = 1 << (self.e - 1)
        return [Cond("ge0", h - V["x"]), Cond("ge0", V["x"] + h - 1)]

    def goals(self, st, V, v):
        return [g_conds(st, "passes only inside", self.conds(V))]

    def panic_goals(self, st, V, v, where):
        cs = self.conds(V)
        return [Goal("refuses only outside", lambda: any(st.implied(c.neg(), use_pc=st.pc) for c in cs),
                     lambda: any(not st.cond_val(c) for c in cs), lambda: "acceptance", lambda: "a panic at " + where)]


class Samples(Job):
    scenario = "samples"
    max_paths = 40

    def __init__(self, exp, sb, swb):
        self.e, self.sb, self.swb = exp, sb, swb
        self.name = "samples:%d:%d:%d" % (exp, sb, swb)
        self.ins = [In("scale", "u", 1, (1 << sb) - 1), In("scale_wide", "u", 1, (1 << swb) - 1),
                    In("rand0", "u", 0, (1 << exp) - 1, role="draw"), In("rand1", "u", 0, None, role="draw"),
                    In("rand2", "u", 0, None, role="draw"), In("h", "u", 0, (1 << exp) - 1)]

    def args(self, v):
        return dict(exp=self.e, scale=hx(v["scale"]), scale_wide=hx(v["scale_wide"]))

    def oracle(self, v):
        n = (self.e + 7) // 8
        # the bits above the exponent are junk
        junk = ((1 << 8 * n - self.e) - 1) << self.e
        return [hx(v["h"] | junk, n) + "a7"]

    def feasible(self, v):
        return v["rand1"] < v["scale"] << self.e and v["rand2"] < v["scale_wide"] << self.e

    def seeds(self, rnd):
        out = []
        m = 1 << self.e
        for k in range(8):
            s, sw = (rnd.randrange(1 << b >> 1, 1 << b) for b in (self.sb, self.swb))
            if k == 4:
                s, sw = (1 << self.sb) - 1, (1 << self.swb) - 1
            if k == 5:
                s, sw = 1 << self.sb - 1, 1 << self.swb - 1
            f = {0: lambda n: rnd.randrange(n >> 2, n >> 1), 1: lambda n: rnd.randrange(n >> 1, n), 2: lambda n: n - 1, 3: lambda n: 0,
                 4: lambda n: (n >> 1), 5: lambda n: (n >> 1) - 1}.get(k, lambda n: rnd.randrange(n))
            out.append(dict(scale=s, scale_wide=sw, rand0=f(m), rand1=f(s << self.e), rand2=f(sw << self.e), h=f(m)))
        return out

    def tracked(self, v):
        vs = [v[i.name] for i in self.ins]
        return all(x >= 1 << 32 for x in vs) and len(set(vs)) == len(vs)

    def goals(self, st, V, v):
        o, h = st.out, 1 << (self.e - 1)
        g = []
        for n, r, s in (("plain", "rand0", Poly.c(1)), ("scaled", "rand1", V["scale"]), ("scaled_wide", "rand2", V["scale_wide"])):
            spec = V[r] - s * h + 1
            g += g_signed_out(st, n + " sample", o[n], spec)
            if n == "plain":
                g.append(g_conds(st, n + " sample in its interval", [Cond("ge0", h - spec), Cond("ge0", spec + h - 1)]))
        # the hash output is not masked symbolically: exactly its low bits count
        if "hash" in o:
            f = o["hash"][1].split()
            got = st.conc[o["hash"][0]] * (-1 if f[0] == "1" else 1)
            g.append(g_eq(st, "hash-derived sample", got, v["h"] - h + 1))
            g.append(g_eq(st, "bytes read", o["next"][1], str(0xa7)))
        return g


def jobs(tier):
    l = [Ranges(B - 1, [1, 2, 8, 63, 64, 65]), Ranges(B - 1, [127, 128, 129, 192, 256]), Ranges(B - 1, [257, 320, 448, 510]),
         Ranges(B - 1, [509, 510, 511]), Ranges(200, [199, 200, 201, 320]), Ranges(64, [63, 64, 65, 66]), Ranges(65, [64, 66]), Ranges(320, [64, 320, 321])]
    l += [AssertRange(B - 1, e) for e in (64, 128, 192, 320, 448, 509, 511)] + [AssertRange(100, 64), AssertRange(64, 64)]
    l += [Samples(*a) for a in ((64, 254, 700), (192, 511, 1000), (320, 512, 900), (448, 512, 800), (65, 64, 65), (100, 400, 512), (511, 512, 700), (63, 63, 513))]
    return l
