"""C23: BIP32 derivation of verifying keys."""
from symprops.common import *
from symprops.zk import penc
from symprops.c16 import Threshold, IDS, some

KIND = "full"
MODS = ["bip", "ents"]
FUNCTIONS = ["curve::bip32::{derive_tweaks, apply_tweaks_public, DeriveChildKey for VerifyingKey}", "entities::threshold::ThresholdKeyShare::{derive_bip32, derive_verifying_key_bip32}"]
HARD = 1 << 31


class Derive(Job):
    """The key is k*G; the tweaks of the steps are t0, t1, ..."""
    scenario = "bip_derive"
    max_paths = 8

    def __init__(self, n, hard=None, zero=None):
        self.n, self.hard, self.zero = n, hard, zero
        self.name = "path of %d" % n + (", step %d hardened" % hard if hard is not None else "") + (
            ", no child after step %d" % zero if zero is not None else "")
        self.ins = [In("K", "p", 1, ORDER - 1)] + [In("t%d" % i, "s", 1, ORDER - 1) for i in range(n) if i != zero]

    def cc(self, i):
        return hashlib.sha256(b"chain code %d" % i).digest()

    def number(self, i):
        return (17 * i + 5 if i % 3 else 0x7fffffff - i) | (HARD if i == self.hard else 0)

    def args(self, v):
        t = [v["t%d" % i] if i != self.zero else -(v["K"] + sum(v["t%d" % j] for j in range(i))) % ORDER for i in range(self.n)]
        return dict(K="0x" + penc(v["K"]), path=[dict(n=self.number(i), t=hx(t[i], 32), c=self.cc(i).hex()) for i in range(self.n)])

    def point(self, v, n):
        return penc(v[n])

    def setup(self, st, v):
        st.dlog["K"] = {"G": A("K")}

    def goals(self, st, V, v):
        o = st.out
        # the first step that is hardened or leads to the identity
        bad, acc = None, v["K"]
        for i in range(self.n):
            acc = (acc + v.get("t%d" % i, -acc)) % ORDER
            if bad is None and (i == self.hard or acc == 0):
                bad = i
        steps = self.n if bad is None else bad + 1
        g = [g_eq(st, "a child is returned", o["ok"][1], "1" if bad is None else "0"),
             g_eq(st, "number of steps", sum(k.startswith("step") for k in o), steps)]
        e = A("K")
        for i in range(min(steps, sum(k.startswith("step") for k in o))):
            node, x = o["step%d" % i]
            cc = o["initial"][1] if i == 0 else self.cc(i - 1).hex()
            g.append(g_pt(st, "key of step %d" % i, node, {"G": e}))
            g.append(g_eq(st, "chain code and number of step %d" % i, x, "%s:%d" % (cc, self.number(i))))
            if "t%d" % i in v:
                e = e + A("t%d" % i)
        if bad is None and "child" in o:
            g.append(g_pt(st, "child", o["child"][0], {"G": e}))
        return g


def jobs(tier):
    out = [Derive(n) for n in ((0, 1, 2, 3, 4, 5, 6, 8, 16) if tier == "quick" else tuple(range(13)) + (16, 24, 32, 64))]
    out += [Derive(1, hard=0), Derive(3, hard=0), Derive(3, hard=1), Derive(4, hard=3)]
    out += [Threshold(t, IDS[:n], some(IDS[:n], t, 1), path=p)
            for n, t, p in (((1, 1, 1), (3, 2, 2), (2, 2, 4)) if tier == "quick" else ((1, 1, 1), (3, 2, 2), (2, 2, 4), (4, 3, 3), (3, 3, 8)))]
    return out + [Derive(1, zero=0), Derive(3, zero=1), Derive(4, zero=3)]
