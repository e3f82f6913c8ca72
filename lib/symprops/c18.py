"""C18: resharing, key refresh and updates of key shares."""
import base64
import itertools
from symprops.common import *
from symprops.c15 import poly_at
from symprops.c16 import Kept, IDS, debug_list, g_text, lagrange
from symprops.c17 import us
from symprops.zk import penc

KIND = "full"
MODS = ["bip", "ents", "prot"]
FUNCTIONS = ["protocols::key_resharing::{KeyResharing::make_round, Round1}", "entities::full::KeyShare::update", "tools::sss::*",
             "protocols::key_refresh::{KeyRefresh::make_round, Round1, Round2, Round3}"]


class Reshare(Kept):
    """steps: [(senders, new holders, new threshold)] from t-of-old shares of a given key."""
    scenario = "resharing"
    max_paths = 12

    def __init__(self, t, old, steps):
        self.t, self.old, self.steps = t, sorted(old), [(sorted(s), sorted(n), k) for s, n, k in steps]
        self.name = "%d of %d, " % (t, len(old)) + ", ".join("%d send to %d of %d" % (len(s), k, len(n)) for s, n, k in steps)
        nd = t - 1 + sum(len(s) * (k - 1) for s, n, k in steps)
        self.ins = [In("secret", "s", 1, ORDER - 1)] + [In("rand%d" % i, "u", 1, ORDER - 1, role="draw") for i in range(nd)]

    def args(self, v):
        return dict(old=self.old, t=self.t, secret=jsc(v["secret"]), steps=[dict(senders=s, new=n, t=k) for s, n, k in self.steps])

    def tracked(self, v):
        vs = [v[i.name] for i in self.ins]
        return all(x >= 1 << 32 for x in vs) and len(set(vs)) == len(vs)

    def untracked_values(self, v):
        return {ORDER}

    def seeds(self, rnd):
        return [{i.name: rnd.randrange(1 << 60, ORDER) for i in self.ins} for _ in range(2)]

    def goals(self, st, V, v):
        o = st.out
        key = A("secret")
        draws = iter("rand%d" % i for i in range(len(self.ins) - 1))
        co = [key] + [A(next(draws)) for _ in range(self.t - 1)]
        xs = {i: k + 1 for k, i in enumerate(self.old)}
        sec = {i: poly_at(co, Poly.c(xs[i])) for i in self.old}
        g = [g_text(st, "no faults", "faults", "0"), g_text(st, "nobody fails", "failed", "{}"), g_text(st, "all steps done", "done", "yes"),
             g_eq(st, "transitions", "illegal_transition" in o or "illegal_result" in o, False)]
        if not all(x.check() for x in g):
            return g
        for n, (senders, new, nt) in enumerate(self.steps):
            polys = {}
            for s in senders:
                polys[s] = [sec[s]] + [A(next(draws)) for _ in range(nt - 1)]
            lam = {s: lagrange([xs[j] for j in senders], xs[s]) for s in senders}
            nxs = {i: k + 1 for k, i in enumerate(new)}
            nsec = {}
            for i in new:
                e = Poly({})
                for s in senders:
                    e = e + poly_at(polys[s], Poly.c(nxs[i])) * lam[s]
                nsec[i] = e
            for i in senders:
                if i not in new:
                    g.append(g_text(st, "step %d: %d ends without a share" % (n, i), "r%d.%d" % (n, i), "none"))
            for i in new:
                g += self.g_threshold(st, "r%d.%d" % (n, i), i, nt, new, [nxs[j] for j in new], nsec, key, False)
            sec, xs = nsec, nxs
        return g


class Update(Kept):
    """A share with symbolic changes; fault: which check is to refuse."""
    scenario = "update"
    max_paths = 6

    def __init__(self, ids, fault=None, at=0):
        self.ids, self.fault, self.at = sorted(ids), fault, at
        self.name = "update of %d shares, holder %d%s" % (len(ids), at, ", " + fault if fault else "")
        n = len(ids)
        self.ins = [In("x%d" % i, "s", 0, ORDER - 1) for i in range(n)] + [In("d%d" % i, "s", 0, ORDER - 1) for i in range(n)]

    def values(self, v):
        n = len(self.ids)
        return [v["x%d" % i] for i in range(n)], [v["d%d" % i] for i in range(n)]

    def args(self, v):
        x, d = self.values(v)
        ids = list(self.ids)
        cids, owner, cowner = list(ids), ids[self.at], ids[self.at]
        if self.fault == "other owner":
            cowner = ids[self.at - 1]
        elif self.fault == "one missing":
            cids, d = cids[:-1], d[:-1]
        elif self.fault == "one more":
            cids, d = cids + [255], d + [1]
        elif self.fault == "another holder":
            cids[-1] = 255
        return dict(owner=owner, change_owner=cowner, x=[[i, jsc(k)] for i, k in zip(ids, x)], d=[[i, jsc(k)] for i, k in zip(cids, d)])

    def tracked(self, v):
        x, d = self.values(v)
        return all(k >= 1 << 32 for k in x + d) and len(set(x + d)) == len(x + d)

    def feasible(self, v):
        return sum(self.values(v)[0]) % ORDER != 0 and sum(self.values(v)[1]) % ORDER == 0

    def seeds(self, rnd):
        out = [{i.name: rnd.randrange(1 << 60, ORDER) for i in self.ins} for _ in range(2)]
        n = len(self.ids)
        out.append(dict(out[0], **{"d%d" % i: -out[0]["x%d" % i] % ORDER for i in range(1)}))
        for v in out:
            v["d%d" % (n - 1)] = -sum(v["d%d" % i] for i in range(n - 1)) % ORDER
        out.append(dict(out[0], **{"d%d" % i: 0 for i in range(n)}))
        return out

    def goals(self, st, V, v):
        if self.fault:
            return [g_text(st, "refused", "after", "error")]
        g = [g_text(st, "accepted", "after", "share")]
        if not g[0].check():
            return g
        sec = {i: A("x%d" % k) + A("d%d" % k) for k, i in enumerate(self.ids)}
        key = Poly({})
        for i in self.ids:
            key = key + sec[i]
        return g + self.g_share(st, "a", self.ids[self.at], self.ids, sec, key)


def all_orders(st, primes):
    """The multiplicative orders modulo every product of two of the primes, and modulo its square."""
    st.squares, st.orders = {}, []
    for p, q in itertools.combinations(primes, 2):
        n, phi = p * q, (p - 1) * (q - 1)
        st.squares[Poly.c(n * n).key()] = Poly.c(n)
        st.orders += [(Poly.c(n * n), Poly.c(n * phi)), (Poly.c(n), Poly.c(phi))]


class Aux(Kept):
    """Auxiliary data of several parties: every party's own data fits what the others hold of it."""

    def g_aux(self, st, ids, prefix="aux"):
        o = st.out
        g = self.absent(st, ["%s%d.json" % (prefix, i) for i in ids])
        if g:
            return g
        aux = {i: json.loads(o["%s%d.json" % (prefix, i)][1]) for i in ids}
        first = aux[ids[0]]["public"]
        for i in ids:
            g.append(g_eq(st, "owner of the data of %d" % i, aux[i]["owner"], i))
            g.append(g_eq(st, "holders in the data of %d" % i, [x[0] for x in aux[i]["public"]], ids))
            g.append(g_eq(st, "the public data of %d are those of %d" % (i, ids[0]), aux[i]["public"] == first, True))
            pr = aux[i]["secret"]["paillier_sk"]["primes"]
            mine = [x[1] for x in first if x[0] == i]
            g.append(g_eq(st, "the modulus of %d" % i, mine and int(mine[0]["paillier_pk"]["modulus"], 16), int(pr["p"], 16) * int(pr["q"], 16)))
        ms = [int(x[1][k]["modulus"], 16) for x in first for k in ("paillier_pk", "rp_params")]
        g.append(g_eq(st, "all moduli differ", len(set(ms)), 2 * len(ids)))
        return g

    def seeds(self, rnd):
        return [dict(_seed=7), dict(_seed=8)]

    def setup(self, st, v):
        all_orders(st, self.primes)

    def args(self, v):
        return dict(ids=self.ids, primes=[hx(p) for p in self.primes])


class Refresh(Aux):
    scenario = "key_refresh"
    max_paths = 3
    follow = False
    ins = []

    def __init__(self, ids):
        self.ids = sorted(ids)
        self.name = "refresh among %d" % len(ids)
        self.primes = MORE_PRIMES[:4 * len(ids)]

    def goals(self, st, V, v):
        o, ids = st.out, self.ids
        g = [g_text(st, "no faults", "faults", "0"), g_text(st, "nobody fails", "failed", "{}"), g_text(st, "everyone finishes", "finished", us(debug_list(ids))),
             g_eq(st, "transitions", "illegal_transition" in o or "illegal_result" in o, False)]
        g += self.absent(st, ["c%d.secret" % i for i in ids] + ["c%d.public%d" % (i, j) for i in ids for j in ids])
        if not all(x.check() for x in g):
            return g
        sec = {i: st.val[o["c%d.secret" % i][0]][1] for i in ids}
        conc = {i: st.conc[o["c%d.secret" % i][0]] % ORDER for i in ids}
        tot = Poly({})
        for i in ids:
            tot = tot + sec[i]
        g.append(Goal("the changes cancel", lambda: st.szero(tot), lambda: sum(conc.values()) % ORDER == 0, lambda: "0",
                      lambda: "%x" % (sum(conc.values()) % ORDER)))
        for i in ids:
            g += [g_text(st, "owner of %d" % i, "c%d.owner" % i, str(i)), g_text(st, "holders of %d" % i, "c%d.parties" % i, us(debug_list(ids)))]
            g += [g_pt(st, "change of %d held by %d" % (j, i), o["c%d.public%d" % (i, j)][0], {"G": sec[j]}) for j in ids]
            if len(ids) > 1:
                g.append(g_eq(st, "the share of %d changes" % i, conc[i] != 0 and len(sec[i].atoms()) >= len(ids), True))
        return g + self.g_aux(st, ids)


class AuxGen(Aux):
    scenario = "aux_gen"
    max_paths = 3
    follow = False
    ins = []

    def __init__(self, ids):
        self.ids = sorted(ids)
        self.name = "auxiliary data of %d" % len(ids)
        self.primes = MORE_PRIMES[:4 * len(ids)]

    def goals(self, st, V, v):
        o, ids = st.out, self.ids
        g = [g_text(st, "no faults", "faults", "0"), g_text(st, "nobody fails", "failed", "{}"), g_text(st, "everyone finishes", "finished", us(debug_list(ids))),
             g_eq(st, "transitions", "illegal_transition" in o or "illegal_result" in o, False)]
        if not all(x.check() for x in g):
            return g
        return g + self.g_aux(st, ids)


def jobs(tier):
    I = IDS
    out = [Reshare(1, I[:1], [(I[:1], I[:1], 1)]), Reshare(1, I[:1], [(I[:1], I[1:3], 2)]),
           Reshare(2, I[:3], [(I[:2], I[:3], 2)]), Reshare(2, I[:3], [(I[:3], I[1:4], 2)]), Reshare(2, I[:3], [(I[1:3], I[3:5], 1)]),
           Reshare(2, I[:3], [([I[0], I[2]], I[:4], 3)]), Reshare(3, I[:3], [(I[:3], I[2:7], 4)]), Reshare(2, I[:2], [(I[:2], I[:1], 1)]),
           Reshare(2, I[:3], [(I[:2], I[1:4], 2), (I[1:3], I[3:6], 3)])]
    out += [Update(I[:n], at=k) for n in ((3,) if tier == "quick" else (2, 3, 4, 6)) for k in range(n)]
    out += [Update(I[:3], f, 1) for f in ("other owner", "one missing", "one more", "another holder")]
    out += [Refresh(I[:n]) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))] + [AuxGen(I[:n]) for n in ((2, 3) if tier == "quick" else (1, 2, 3, 4))]
    if tier != "quick":
        out += [Reshare(t, I[:n], [(list(s), I[k:k + m], nt)]) for n in (2, 3, 4) for t in range(1, n + 1) for s in itertools.combinations(I[:n], t)
                for k, m in ((0, 3), (2, 3), (4, 4)) for nt in range(1, m + 1)]
    return out
