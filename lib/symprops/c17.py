"""C17: key generation."""
import itertools
from symprops.common import *
from symprops.c16 import Kept, IDS, debug_list, g_text

KIND = "full"
MODS = ["bip", "ents", "prot"]
FUNCTIONS = ["protocols::key_init::{KeyInit::make_round, Round1, Round2, Round3, PublicData::hash}", "entities::full::KeyShare::{new, verifying_key}",
             "zk::sch::{SchSecret, SchCommitment, SchProof}"]


def us(x):
    return str(x).replace(" ", "_")


class KeyInit(Kept):
    scenario = "key_init"
    max_paths = 8

    def __init__(self, ids):
        self.ids, self.order = sorted(ids), ids
        self.name = "%d parties" % len(ids)
        self.ins = [In("rand%d" % i, "u", 1, ORDER - 1, role="draw") for i in range(2 * len(ids))]

    def args(self, v):
        return dict(ids=self.order)

    def tracked(self, v):
        vs = [v[i.name] for i in self.ins]
        return all(x >= 1 << 32 for x in vs) and len(set(vs)) == len(vs)

    def untracked_values(self, v):
        return {ORDER}

    def seeds(self, rnd):
        out = [{i.name: rnd.randrange(1 << 60, ORDER) for i in self.ins} for _ in range(2)]
        # all shares cancel, wherever they come in the order of drawing
        w = dict(out[0])
        half = len(self.ids)
        if half > 1:
            for ks in ([2 * i for i in range(half)], list(range(half))):
                z = dict(w)
                z["rand%d" % ks[-1]] = -sum(z["rand%d" % k] for k in ks[:-1]) % ORDER
                out.append(z)
        return out

    def goals(self, st, V, v):
        o, ids = st.out, self.ids
        conc = []
        if o["failed"][1] != "{}":
            # Legitimate only if the shares add up to zero.
            z = [d for d in self.seeds_zero(v)]
            return [g_eq(st, "the parties stop because the shares cancel", bool(z) and o["failed"][1].count("add_up_to_zero") == len(ids)
                         and o["finished"][1] == "[]" and o["faults"][1] == "0", True)]
        g = [g_text(st, "no faults", "faults", "0"), g_text(st, "everyone finishes", "finished", us(debug_list(ids)))]
        g += [g_eq(st, "transitions", "illegal_transition" in o or "illegal_result" in o, False)]
        g += self.absent(st, ["k%d.secret" % i for i in ids])
        if len(g) > 3 or not all(x.check() for x in g):
            return g
        sec = {i: st.val[o["k%d.secret" % i][0]][1] for i in ids}
        key = Poly({})
        for i in ids:
            key = key + sec[i]
        for i in ids:
            g += self.g_share(st, "k%d" % i, i, ids, sec, key)
        own = [[x.name for x in self.ins if (sec[i] - A(x.name)).d == {}] for i in ids]
        g.append(g_eq(st, "every share is a draw of its own", all(own) and len({tuple(x) for x in own}) == len(ids), True))
        return g

    def seeds_zero(self, v):
        n = len(self.ids)
        names = [i.name for i in self.ins]
        for ks in itertools.combinations(names, n):
            if sum(v[k] for k in ks) % ORDER == 0:
                yield ks


def jobs(tier):
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6)
    return [KeyInit(IDS[:n]) for n in ns]
