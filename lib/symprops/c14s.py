"""C14 for larger part counts; engine K decides one to four parts."""
from symprops.common import *

MODS = ["ops"]
FUNCTIONS = ["curve::arithmetic::secret_split", "tools::secret::Secret<Scalar> sum and subtraction"]


class Split(Job):
    scenario = "split"

    def __init__(self, num):
        self.num = num
        self.name = "%d parts" % num
        self.ins = [In("s", "s", 0, ORDER - 1)] + [In("rand%d" % i, "u", 1, ORDER - 1, role="draw") for i in range(num - 1)]

    def args(self, v):
        return dict(s=jsc(v["s"]), num=self.num)

    def seeds(self, rnd):
        out = []
        for s in (rnd.randrange(ORDER), 0, 1, ORDER - 1, rnd.randrange(ORDER)):
            v = dict(s=s)
            for i in range(self.num - 1):
                v["rand%d" % i] = rnd.randrange(1 << 60, ORDER)
            out.append(v)
        if self.num > 1:
            # the other parts already sum to the scalar; one of them is the scalar
            v = dict(out[0])
            v["s"] = sum(v["rand%d" % i] for i in range(self.num - 1)) % ORDER
            w = dict(out[0])
            w["s"] = w["rand0"]
            out += [v, w]
        return out

    def untracked_values(self, v):
        return {ORDER}

    def goals(self, st, V, v):
        n = self.num
        g = [g_eq(st, "number of parts", st.out["num"][1], str(n))]
        parts = [st.out["part%d" % i][0] for i in range(n) if "part%d" % i in st.out]
        conc = [st.conc[x] if x else 0 for x in parts]
        tot = sum(conc) % ORDER
        pol = Poly({})
        for x in parts:
            pol = pol + st.val[x][1]
        g.append(Goal("sum of the parts", lambda: not st.snorm(pol - V["s"]).d, lambda: tot == v["s"] % ORDER,
                      lambda: "%x" % v["s"], lambda: "%x" % tot))
        # all parts but one are the source's numbers, each used once
        draws = ["rand%d" % i for i in range(n - 1)]

        def free():
            left = [x for x in parts]
            for d in draws:
                k = [x for x in left if not st.snorm(st.val[x][1] - Poly.a(d)).d]
                if not k:
                    return False
                left.remove(k[0])
            return len(left) == 1

        def cfree():
            left = list(conc)
            for d in draws:
                if v[d] not in left:
                    return False
                left.remove(v[d])
            return len(left) == 1
        g.append(Goal("all parts but one are fresh", free, cfree, lambda: "the source's %d numbers and one more" % (n - 1),
                      lambda: repr(["%x" % c for c in conc])))
        return g


def jobs(tier):
    return [Split(n) for n in ((1, 2, 3, 4, 5, 8, 13) if tier == "quick" else range(1, 21))]
