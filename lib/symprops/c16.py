"""C16: threshold key shares, signing shares and child keys."""
import itertools
from symprops.common import *
from symprops.c15 import poly_at

KIND = "full"
MODS = ["bip", "ents"]
FUNCTIONS = ["entities::threshold::ThresholdKeyShare::{new_centralized, share_id, threshold, verifying_key, to_key_share, from_key_share, "
             "derive_bip32, derive_verifying_key_bip32}", "entities::full::KeyShare::{new, new_centralized, verifying_key, all_parties, "
             "owner, public_shares}", "curve::bip32::{derive_tweaks, apply_tweaks_public}", "tools::sss::*"]


def lagrange(xs, x):
    r = 1
    for y in xs:
        if y != x:
            r = r * y * pow(y - x, -1, ORDER) % ORDER
    return r


def g_text(st, name, key, want):
    return g_eq(st, name, st.out[key][1] if key in st.out else None, want)


def debug_list(xs):
    return "[" + ", ".join(str(x) for x in xs) + "]"


class Kept(Job):
    """Helpers over logged shares."""

    def absent(self, st, keys):
        return [g_eq(st, "%s is produced" % k, k in st.out, True) for k in keys if k not in st.out]

    def g_threshold(self, st, n, owner, t, ids, xs, secrets, key, zero):
        """secrets: {id: Poly}; key: Poly, the shared secret."""
        o = st.out
        miss = self.absent(st, [n + ".secret"] + ["%s.id%d" % (n, i) for i in ids] + ["%s.public%d" % (n, i) for i in ids])
        if miss:
            return miss
        g = [g_text(st, n + " owner", n + ".owner", str(owner)), g_text(st, n + " threshold", n + ".threshold", str(t)),
             g_text(st, n + " parties", n + ".parties", "%s/%s" % (debug_list(ids), debug_list(ids))),
             g_scalar(st, n + " secret share", o[n + ".secret"][0], secrets[owner])]
        for i, x in zip(ids, xs):
            g += [g_scalar(st, "%s point of %d" % (n, i), o["%s.id%d" % (n, i)][0], Poly.c(x)),
                  g_pt(st, "%s public share of %d" % (n, i), o["%s.public%d" % (n, i)][0], {"G": secrets[i]})]
        return g + self.g_key(st, n, key, zero)

    def g_key(self, st, n, key, zero):
        if zero:
            return [g_text(st, n + " has no key", n + ".vk", "none")]
        if (n + ".vk") not in st.out or st.out[n + ".vk"][1] == "none":
            return [g_eq(st, n + " has a key", False, True)]
        return [g_pt(st, n + " verifying key", st.out[n + ".vk"][0], {"G": key})]

    def g_share(self, st, n, owner, ids, secrets, key):
        o = st.out
        miss = self.absent(st, [n + ".secret", n + ".vk"] + ["%s.public%d" % (n, i) for i in ids])
        if miss:
            return miss
        g = [g_text(st, n + " owner", n + ".owner", str(owner)), g_text(st, n + " parties", n + ".parties", debug_list(ids)),
             g_scalar(st, n + " secret share", o[n + ".secret"][0], secrets[owner]),
             g_pt(st, n + " verifying key", o[n + ".vk"][0], {"G": key})]
        return g + [g_pt(st, "%s public share of %d" % (n, i), o["%s.public%d" % (n, i)][0], {"G": secrets[i]}) for i in ids]


class Threshold(Kept):
    scenario = "threshold"
    max_paths = 16

    def __init__(self, t, ids, subs, given=True, path=0):
        self.t, self.ids, self.subs, self.given, self.path = t, sorted(ids), subs, given, path
        self.name = "%d of %d%s%s" % (t, len(ids), "" if given else ", generated key", ", path of %d" % path if path else "")
        self.order = ids
        d = 0 if given else 1
        self.ins = [In("secret", "s", 1, ORDER - 1)] if given else [In("rand0", "u", 0, ORDER - 1, role="draw")]
        self.ins += [In("rand%d" % (d + i), "u", 1, ORDER - 1, role="draw") for i in range(t - 1)]
        self.ins += [In("t%d" % i, "s", 1, ORDER - 1) for i in range(path)]
        self.draws = ["rand%d" % (d + i) for i in range(t - 1)]

    def args(self, v):
        d = dict(ids=self.order, t=self.t, subsets=[sorted(s) for s in self.subs])
        if self.given:
            d["secret"] = jsc(v["secret"])
        if self.path:
            d["path"] = [dict(n=i, t=hx(v["t%d" % i], 32), c=hashlib.sha256(b"%d" % i).hexdigest()) for i in range(self.path)]
        return d

    def tracked(self, v):
        vs = [v[i.name] for i in self.ins]
        return all(x >= 1 << 32 for x in vs) and len(set(vs)) == len(vs)

    def seeds(self, rnd):
        out = []
        for k in range(2):
            out.append({i.name: rnd.randrange(1 << 60, ORDER) for i in self.ins})
        if not self.given:
            out.append(dict(out[0], rand0=0))
        return out

    def untracked_values(self, v):
        return {ORDER}

    def goals(self, st, V, v):
        t, ids, n = self.t, self.ids, len(self.ids)
        if t > n:
            return [g_text(st, "refused", "shares", "0")]
        key = A("secret" if self.given else "rand0")
        kv = v["secret" if self.given else "rand0"] % ORDER
        co = [key] + [A(d) for d in self.draws]
        xs = {i: k + 1 for k, i in enumerate(ids)}
        sec = {i: poly_at(co, Poly.c(xs[i])) for i in ids}
        g = [g_text(st, "created", "shares", "1"), g_text(st, "holders", "holders", debug_list(ids))]
        if not g[0].check():
            return g
        for i in ids:
            g += self.g_threshold(st, "t%d" % i, i, t, ids, [xs[j] for j in ids], sec, key, kv == 0)
        g += self.converted(st, "s", sec, xs, key, kv == 0, back=True)
        if not self.path or kv == 0:
            return g
        tw = [v["t%d" % i] for i in range(self.path)]
        T = Poly({})
        for i in range(self.path):
            T = T + A("t%d" % i)

        def hits_zero(x):
            return any((x + sum(tw[:j])) % ORDER == 0 for j in range(len(tw) + 1))
        bad_key = hits_zero(kv)
        bad = bad_key or any(hits_zero(sec[i].ev(v) % ORDER) for i in ids)
        for nm in ["child"] + ["d%d.direct" % i for i in ids]:
            if bad_key:
                g.append(g_text(st, nm + ": no child", nm, "none"))
            elif st.out[nm][1] == "none":
                g.append(g_eq(st, nm + " exists", False, True))
            else:
                g.append(g_pt(st, nm, st.out[nm][0], {"G": key + T}))
        for i in ids:
            g.append(g_text(st, "share of %d derived" % i, "d%d.ok" % i, "0" if bad else "1"))
        if not bad:
            dsec = {i: sec[i] + T for i in ids}
            for i in ids:
                g += self.g_threshold(st, "d%d" % i, i, t, ids, [xs[j] for j in ids], dsec, key + T, False)
            g += self.converted(st, "ds", dsec, xs, key + T, False)
        return g

    def converted(self, st, pre, sec, xs, key, zero, back=False):
        g = []
        for k, sub in enumerate(self.subs):
            sub = sorted(sub)
            if zero or not set(sub) <= set(self.ids):
                g += [g_text(st, "conversion %d of %d refused" % (k, i), "%s%d.%d.err" % (pre, k, i), "1") for i in sub if i in self.ids]
                continue
            add = {i: sec[i] * lagrange([xs[j] for j in sub], xs[i]) for i in sub}
            for i in sub:
                n = "%s%d.%d" % (pre, k, i)
                g += self.g_share(st, n, i, sub, add, key)
                if back:
                    pts = list(range(1, len(sub) + 1))
                    bs = {j: add[j] * pow(lagrange(pts, x), -1, ORDER) for x, j in zip(pts, sub)}
                    g += self.g_threshold(st, n + ".back", i, len(sub), sub, pts, bs, key, False)
        return g


class Additive(Kept):
    """n-of-n shares of a given or a generated key, and their threshold form."""
    scenario = "shares"
    max_paths = 6

    def __init__(self, ids, given=True):
        self.ids, self.order, self.given = sorted(ids), ids, given
        self.name = "%d additive shares%s" % (len(ids), "" if given else ", generated key")
        self.ins = [In("secret", "s", 1, ORDER - 1)] if given else [In("rand0", "u", 1, ORDER - 1, role="draw")]
        d = 0 if given else 1
        self.ins += [In("rand%d" % (d + i), "u", 1, ORDER - 1, role="draw") for i in range(len(ids) - 1)]

    def args(self, v):
        d = dict(ids=self.order)
        if self.given:
            d["secret"] = jsc(v["secret"])
        return d

    tracked = Threshold.tracked

    def untracked_values(self, v):
        return {ORDER}

    def seeds(self, rnd):
        out = [{i.name: rnd.randrange(1 << 60, ORDER) for i in self.ins} for _ in range(3)]
        if len(self.ids) > 1:
            w = out[2]
            k, *rest = [i.name for i in self.ins]
            w[k] = sum(w[x] for x in rest) % ORDER          # the last share is zero
        return out

    def goals(self, st, V, v):
        o, ids = st.out, self.ids
        key = A("secret" if self.given else "rand0")
        g = [g_text(st, "holders", "holders", debug_list(ids))]
        miss = self.absent(st, ["a%d.secret" % i for i in ids])
        if miss or not g[0].check():
            return g + miss
        sec = {i: st.val[o["a%d.secret" % i][0]][1] for i in ids}
        tot = Poly({})
        for i in ids:
            tot = tot + sec[i]
        cs = sum(st.conc[o["a%d.secret" % i][0]] for i in ids) % ORDER
        g.append(Goal("the shares sum to the key", lambda: st.szero(tot - key), lambda: cs == key.ev(st.env) % ORDER,
                      lambda: "%x" % key.ev(st.env), lambda: "%x" % cs))
        pts = list(range(1, len(ids) + 1))
        bs = {j: sec[j] * pow(lagrange(pts, x), -1, ORDER) for x, j in zip(pts, ids)}
        for i in ids:
            g += self.g_share(st, "a%d" % i, i, ids, sec, key)
            g += self.g_threshold(st, "a%d.back" % i, i, len(ids), ids, pts, bs, key, False)
        return g


def some(ids, t, k):
    s = [list(x) for x in itertools.combinations(ids, t)]
    return s if len(s) <= k else s[::len(s) // k][:k] + [s[-1]]


IDS = [17, 3, 250, 4, 99, 31, 8, 120]


def jobs(tier):
    out = []
    top, k = (4, 4) if tier == "quick" else (6, 12)
    for n in range(1, top + 1):
        for t in range(1, n + 1):
            out.append(Threshold(t, IDS[:n], some(IDS[:n], t, k)))
    out += [Threshold(2, IDS[:3], some(IDS[:3], 2, 3), given=False), Threshold(3, IDS[:2], []),
            Threshold(2, IDS[:3], [[17, 3], [17, 77]]), Threshold(3, IDS[:8], [IDS[:3], IDS[5:8]]),
            Threshold(5, IDS[:5], [IDS[:5]])]
    for n, t, p in ((2, 1, 1), (2, 2, 1), (3, 2, 1), (3, 2, 3), (4, 3, 2)) + (() if tier == "quick" else ((5, 3, 4), (3, 3, 8), (6, 2, 2))):
        out.append(Threshold(t, IDS[:n], some(IDS[:n], t, 3), path=p))
    for n in (1, 2, 3, 4, 5) if tier == "quick" else range(1, 9):
        out += [Additive(IDS[:n]), Additive(IDS[:n], given=False)]
    return out
