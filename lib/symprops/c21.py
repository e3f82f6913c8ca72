"""C21: the secret container."""
from symprops.common import *

MODS = ["secrets"]
FUNCTIONS = ["tools::secret::Secret<T>: every operator, sum, selection, negation, division, remainder, power, serde, Debug",
             "uint::{SecretSigned, SecretUnsigned}: Debug"]


def dbg_goals(st):
    g = []
    for k, x in st.out.items():
        if k.startswith("debug:"):
            g.append(g_eq(st, "%s does not depend on the content" % k.replace(":", " output of a "), x[1], "1"))
    g.append(g_eq(st, "the formatter does not read a secret", st.shown, []))
    return g


class SecretUint(Job):
    name = "integers"
    scenario = "secret_uint"
    # no overflow or underflow in the operators that panic on them
    ins = [In("x", "u", 1 << 200, (1 << 255) - 1), In("y", "u", 1 << 33, (1 << 199) - 1), In("n", "u", 1 << 33, (1 << 190) - 1)]

    def args(self, v):
        return {k: jint(v[k], 8) for k in ("x", "y", "n")}

    def goals(self, st, V, v):
        x, y, n, o = V["x"], V["y"], V["n"], st.out
        g = []

        def e(name, spec, width=512):
            g.append(g_int(st, name, o[name][0], spec, width))
        for k in ("clone", "back", "x", "wire", "select0"):
            e(k, x)
        for k in ("y", "select1"):
            e(k, y)
        e("wide", x, 1024)
        e("wneg", -x)
        e("wadd", x + y)
        e("wsub", x - y)
        e("wmul", x * y)
        for k in range(8):
            e("add%d" % k, x + y)
            e("mul%d" % k, x * y)
        for k in range(2):
            e("sub%d" % k, x - y)
            q, r = st.out["div%d" % k][0], st.out["rem%d" % k][0]
            cq, cr = st.conc[q], st.conc[r]

            def prove(q=q, r=r):
                pq, pr = st.val[q][1], st.val[r][1]
                return (not (pq * n + pr - x).d and st.implied(Cond("ge0", pr), use_pc=st.pc)
                        and st.implied(Cond("ge0", n - pr - 1), use_pc=st.pc))
            g.append(Goal("quotient and remainder %d" % k, prove, lambda cq=cq, cr=cr: (cq, cr) == divmod(v["x"], v["n"]),
                          lambda: "%x, %x" % divmod(v["x"], v["n"]), lambda cq=cq, cr=cr: "%x, %x" % (cq, cr)))
        return g + dbg_goals(st)


class SecretScalar(Job):
    name = "scalars"
    scenario = "secret_scalar"
    ins = [In(k, "s", 0, ORDER - 1) for k in "xyz"]

    def args(self, v):
        return {k: jsc(v[k]) for k in "xyz"}

    def seeds(self, rnd):
        r = lambda: rnd.randrange(ORDER)
        a = r()
        return [dict(x=r(), y=r(), z=r()), dict(x=a, y=ORDER - a, z=r()), dict(x=0, y=r(), z=r()), dict(x=ORDER - 1, y=1, z=0),
                dict(x=a, y=a, z=a)]

    def setup(self, st, v):
        pass

    def goals(self, st, V, v):
        x, y, z, o = V["x"], V["y"], V["z"], st.out
        g = []

        def e(name, spec):
            g.append(g_scalar(st, name, o[name][0], spec))
        for k in ("clone", "x", "back", "select0"):
            e(k, x)
        for k in ("y", "select1"):
            e(k, y)
        e("neg", -x)
        for k in range(8):
            e("add%d" % k, x + y)
            e("mul%d" % k, x * y)
        e("sub0", x - y)
        e("sub1", x - y)
        tot = Poly({})
        for n in range(6):
            e("sum%d" % n, tot)
            e("sumref%d" % n, tot)
            if n < 5:
                tot = tot + (x, y, z, x, y)[n]
        names = {k: o[k][0] for k in ("gen", "pmul0", "pmul1", "pmul2", "pmul3")}
        for k, nid in names.items():
            g.append(g_gen(st, k, nid, x if k == "gen" else x * z))
        return g + dbg_goals(st)


def g_gen(st, name, node, spec):
    """The point is spec times the generator."""
    d = st.val[node][1]

    def prove():
        d2 = {k: st.snorm(e) for k, e in d.items()}
        d2 = {k: e for k, e in d2.items() if e.d}
        return set(d2) <= {"G"} and not st.snorm(d2.get("G", Poly({})) - spec).d

    def check():
        return not any(k != "G" for k in d) and (d.get("G", Poly({})) - spec).ev(st.env) % ORDER == 0
    return Goal(name, prove, check, lambda: "(%r) * G" % spec, lambda: repr(d))


class SecretResidue(ModJob):
    name = "residues"
    scenario = "secret_residue"
    ins = [modulus_in(), In("x", "u", 1, None), In("y", "u", 1, None), In("e", "u", 0, (1 << 300) - 1, signed=True)]

    def seeds(self, rnd):
        out = []
        for s in (1, -1, 1, -1):
            n = self.MODULI[len(out) % 2]
            out.append(dict(N=n, x=rnd.randrange(n >> 4, n), y=rnd.randrange(n >> 4, n), e=s * rnd.randrange(1 << 300)))
        return out

    def feasible(self, v):
        return v["N"] in self.MODULI and all(0 < v[k] < v["N"] and math.gcd(v[k], v["N"]) == 1 for k in "xy")

    def args(self, v):
        return dict(pk=pk_wire(v["N"]), x=jint(v["x"], 8), y=jint(v["y"], 8), e=jsigned(v["e"], 300, 8))

    def setup(self, st, v):
        n = self.key_setup(st)
        self.n = n
        st.facts += [Cond("ge0", n - A("x") - 1), Cond("ge0", n - A("y") - 1)]

    def goals(self, st, V, v):
        x, y, e, n, o = V["x"], V["y"], V["e"], self.n, st.out
        g = []

        def r(name, bases):
            g.append(g_res(st, name, o[name][0], bases, n))
        for k in ("x", "select0", "cneg0"):
            r(k, [(x, 1)])
        g.append(g_int(st, "retrieve", o["retrieve"][0], x))
        r("select1", [(y, 1)])
        for k in ("neg", "cneg1"):
            r(k, [(-x, 1)])
        r("add", [(x + y, 1)])
        r("sub", [(x - y, 1)])
        for k in ("mul", "mul_val"):
            r(k, [(x, 1), (y, 1)])
        for k in ("pow_pub", "pow_sec"):
            r(k, [(x, e)])
        return g + dbg_goals(st)


class SecretKeys(KeyJob):
    name = "keys and randomizers"
    scenario = "secret_keys"
    ins = prime_ins() + [In("rho", "u", 1 << 200, (1 << 500) - 1, role="arg"), In("lambda", "u", 1 << 200, (1 << 480) - 1)]

    def args(self, v):
        return dict(sk=sk_wire(v["p"], v["q"]), rho=jint(v["rho"], 8), **{"lambda": jint(v["lambda"], 8)})

    def setup(self, st, v):
        self.key_setup(st)

    def goals(self, st, V, v):
        p, q = v["p"], v["q"]
        n = p * q
        # the public key may be printed
        pub = (A("p") * A("q"), A("p") * A("q") * A("p") * A("q"))
        bad = [x for x in st.shown if st.conc[x] not in (n, n * n)]

        def prove():
            return all(any(not (st.val[x][1] - k).d for k in pub) if st.val[x][0] == "u" else
                       st.val[x][0] == "m" and any(st.meq_key(st.val[x][1], st.from_poly(k, st.val[x][1].m)) == () for k in pub)
                       for x in st.shown)
        g = [Goal("the formatter reads nothing but the public key", prove, lambda: not bad, lambda: "the public key",
                  lambda: ", ".join("%x" % st.conc[x] for x in bad)[:600])]
        for k, x in st.out.items():
            if k.startswith("text:"):
                # no run of a secret number's digits
                leaks = [s for s in (p, q, v["rho"], v["lambda"]) for h in ["%x" % s, str(s)]
                         if any(h[i:i + 16] in x[1] for i in range(0, len(h) - 16, 8))]
                g.append(g_eq(st, "digits of a secret in the debug output of a " + k[5:], leaks, []))
        return g


def jobs(tier):
    return [SecretUint(), SecretScalar(), SecretResidue(), SecretKeys()]
