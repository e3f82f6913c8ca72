"""The transcripts of the challenges: recorded symbolically, shown injective in every leaf and apart from each other."""
import z3
from symprops.zk import *

MODS = ["zk"]
FUNCTIONS = ["zk::{sch, elog, enc_elg, aff_g, aff_g_star, dec, fac, mod_, prm}::*Proof::verify and their challenges",
             "tools::hashing::{Hasher, Chain, Hashable}", "paillier::{keys, encryption, ring_pedersen} wire forms"]

AUXN = (0xd6e8feb86659fd93a5a5a5a5deadbeef00112233445566778899aabbccddeef1, 0xc2b2ae3d27d4eb4f165667b19e3779f90123456789abcdef0f1e2d3c4b5a6978)
# shapes of the caller's data: number of bytes, number of 256-bit numbers
SHAPES = [(5, 0), (0, 0), (1, 0), (2, 0), (16, 0), (21, 0), (0, 1), (5, 1), (5, 2), (37, 0), (0, 2), (64, 0)]
# other moduli
SPARE = [PRIMES[0] * PRIMES[3], PRIMES[1] * PRIMES[4], PRIMES[2] * PRIMES[5]]


def aux_of(shape, k=0):
    n, m = shape
    return bytes((37 * i + 11 + 101 * k) % 251 + 1 for i in range(n)), [x ^ (k * 0x1111111111111111111111) for x in AUXN[:m]]


class Transcripts(Job):
    """The transcript of one proof type: every leaf is recovered from it, whatever the leaves are."""
    wants = ()      # challenge conditions

    def __init__(self, base):
        self.base = base
        self.name = base.name
        self.scenario = base.scenario
        self.ins = base.ins

    def leaves(self):
        """Commitments, public inputs and setup: everything but the responses and the challenge."""
        b = self.base
        resp = RESPONSES.get(b.name.split(":")[0], ())
        return [i.name for i in b.ins if i.name not in ("h1", "e", "eraw") and not any(
            i.name == r or (r.endswith("*") and i.name[:-1] == r[:-1]) for r in resp)]

    def request(self, v, shape, k=0):
        b = self.base
        a = b.args
        x, n = aux_of(shape, k)
        x = v.get("_aux", x)
        n = v.get("_auxn", n)

        def args(v):
            d = a(v)
            d["aux"] = x.hex()
            if n:
                d["auxn"] = ["0x%064x" % y for y in n]
            return d
        return dict(b=b, args=args)

    def once(self, r, v, shape=(5, 0), k=0):
        """One run: (programmed transcripts, state)."""
        b = self.base
        old = b.args
        b.args = self.request(v, shape, k)["args"]
        try:
            req, log, end = r.execute(b, v)
        finally:
            b.args = old
        r.count_ops(log)
        if end != "ok":
            return None, None, req, end
        st = r.state(b, v)
        try:
            st.interp(log)
        except Exception as e:  # noqa: BLE001
            r.undecided.append("%s: %s" % (self.name, str(e)[:200]))
            st.tr = []
            for l in log:
                if l.startswith("T "):
                    f = l.split(" ")
                    st.tr.append((f[2] == "1", f[3], f[4].split(",")))
        return [t for t in st.tr if t[0]], st, req, end

    def run(self, r):
        t0 = time.time()
        b = self.base
        rec = dict(job=self.name, scenario=self.scenario, paths=0, runs=0, goals=0, proved=0, closed=0)
        r.jobs.append(rec)
        self.rec = rec
        v = b.derive(b.fresh(r.rnd, {}))
        tr, st, req, end = self.once(r, v)
        rec["runs"] += 1
        if not tr:
            r.undecided.append("%s: no challenge was derived (%s)" % (self.name, end))
            return
        rec["paths"] += 1
        v["_z"] = 0
        for x in self.leaves():
            self.leaf(r, v, tr, st, x, req)
        self.caller(r, v, tr, st, req)
        self.carried(r, v)
        rec["seconds"] = round(time.time() - t0, 1)

    # ---------------------------------------------------------------- leaves
    def terms(self, st, t):
        """The chunks as z3 terms over the leaves: (side 1, side 2)."""
        out = []
        for c in t[2]:
            if c[0] == "=":
                continue
            val = st.val[int(c[1:].split("/")[0])]
            if val[0] == "p":
                if len(val[1]) == 1 and list(val[1].values())[0] == Poly.c(1):
                    out.append(Poly.a(list(val[1])[0]))
            elif val[0] in "us" and isinstance(val[1], Poly):
                out.append(val[1])
            elif val[0] == "m":
                try:
                    out.append(st.from_fp(val[1]) if hasattr(st, "from_fp") else None)
                except Exception:  # noqa: BLE001
                    pass
        return [p for p in out if isinstance(p, Poly)]

    def zterm(self, p, side):
        r = z3.IntVal(0)
        for mono, c in p.d.items():
            t = z3.IntVal(c)
            for a in mono:
                a, e = a if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], int) else (a, 1)
                for _ in range(e):
                    t = t * z3.Int("%s_%d" % (a, side))
            r = r + t
        return r

    def leaf(self, r, v, tr, st, x, req):
        rec = self.rec
        for k, t in enumerate(tr):
            rec["goals"] += 1
            s = z3.Solver()
            s.set("timeout", 10000)
            for p in self.terms(st, t):
                s.add(self.zterm(p, 1) == self.zterm(p, 2))
            s.add(z3.Int(x + "_1") != z3.Int(x + "_2"))
            t0 = time.time()
            q = s.check()
            r.stats.queries += 1
            r.stats.solver_s += time.time() - t0
            if q == z3.unsat:
                rec["proved"] += 1
                continue
            # replayed: does any change of the leaf reach the transcript?
            same = []
            for w in self.changes(x, v, r):
                tr2, st2, req2, end = self.once(r, w)
                rec["runs"] += 1
                if not tr2:
                    continue
                if tr2[min(k, len(tr2) - 1)][1] == t[1]:
                    same.append((w, req2))
            if same:
                r.violation("%s:%s is not bound" % (self.name, x), "two statements that differ in %s have the same transcript: %x and %x" % (
                    x, abs(v[x]), abs(same[0][0][x])), req, dict(other_request=same[0][1]))
            else:
                r.undecided.append("%s: %s is in the transcript in a form that the solver does not recover" % (self.name, x))

    def changes(self, x, v, r):
        b = self.base
        us = {u[0]: u for u in getattr(b, "units", ())}
        if x in getattr(b, "mods", ()):
            return [dict(v, **{x: m}) for m in SPARE]
        i = next(i for i in b.ins if i.name == x)
        if i.kind in "ps":
            return [dict(v, **{x: r.rnd.randrange(ORDER >> 8, ORDER)}) for _ in range(2)] + [dict(v, **{x: (ORDER - v[x]) % ORDER})]
        m = v[us[x][1]] ** us[x][2] if x in us else getattr(b, "N", 1 << 500)
        out = [r.rnd.randrange(m >> 8, m) for _ in range(2)] + [v[x] ^ (1 << k) for k in (0, 63, 64, 128, m.bit_length() - 8)]
        out += [m - v[x]]
        return [dict(v, **{x: y}) for y in out if 0 < y < m]

    # ---------------------------------------------------------------- the caller's data
    def caller(self, r, v, tr, st, req):
        """Different data of the caller, of equal or different shape, never give the same transcript."""
        rec = self.rec
        runs = []
        for sh in SHAPES:
            t, s, rq, end = self.once(r, v, sh)
            t2, s2, rq2, end2 = self.once(r, v, sh, 1)
            rec["runs"] += 2
            if not t or not t2 or len(t) != len(t2):
                r.undecided.append("%s: no challenge for auxiliary data of shape %r" % (self.name, sh))
                continue
            runs.append((sh, t[0], t2[0], rq, s))
        # runs with small leaves: do the lengths of the chunks depend on the values?
        for sh, a, c, rq, s in runs:
            if sh == (0, 0):
                continue
            self.goal(r, "%s: the auxiliary data reach the transcript (%r)" % (self.name, sh), a[1] != c[1], rq)
            # each byte and number for itself
            x, n = aux_of(sh)
            for k in range(min(len(x), 6)):
                y = bytearray(x)
                y[k] ^= 0x40
                t3, _, rq3, _ = self.once(r, dict(v, _aux=bytes(y)), sh)
                rec["runs"] += 1
                if t3:
                    self.goal(r, "%s: byte %d of the auxiliary data reaches the transcript (%r)" % (self.name, k, sh), t3[0][1] != a[1], rq3)
            for k in range(len(n)):
                for bit in (0, 60, 130, 255):
                    m = list(n)
                    m[k] ^= 1 << bit
                    t3, _, rq3, _ = self.once(r, dict(v, _auxn=m), sh)
                    rec["runs"] += 1
                    if t3:
                        self.goal(r, "%s: number %d of the auxiliary data reaches the transcript (%r)" % (self.name, k, sh), t3[0][1] != a[1], rq3)
        self.runs = [(sh, self.vector(a, c)) for sh, a, c, rq, s in runs]
        for i in range(len(runs)):
            for j in range(i):
                rec["goals"] += 1
                q, model = self.collide(r, self.runs[i][1], self.runs[j][1])
                if q == z3.unsat:
                    rec["proved"] += 1
                elif q == z3.sat and self.literal(runs[i][0], runs[j][0]):
                    # the model's values are the caller's bytes and the leaves: shown by the two byte patterns
                    r.violation("%s: auxiliary data of shapes %r and %r collide" % (self.name, runs[i][0], runs[j][0]),
                                "the transcripts coincide for the values of the model", runs[i][3], dict(model=model, other_request=runs[j][3]))
                else:
                    r.undecided.append("%s: shapes %r and %r are not told apart by the solver" % (self.name, runs[i][0], runs[j][0]))

    def literal(self, a, b):
        return a[1] == 0 and b[1] == 0

    def goal(self, r, name, ok, req):
        self.rec["goals"] += 1
        if ok:
            self.rec["proved"] += 1
        else:
            r.violation(name, "the transcript does not change", req)

    def vector(self, t, other):
        """The transcript as a list of (length, value or None for free bytes); what differs from the other run is free."""
        out = []
        for c, d in zip(t[2], other[2]):
            if c[0] != "=":
                out.append((int(c.split("/")[1]), None))
            elif c == d:
                out.append(((len(c) - 1) // 2, int(c[1:], 16) if len(c) > 1 else 0))
            else:
                out.append(((len(c) - 1) // 2, None))
        return [x for x in out if x[0]]

    def collide(self, r, a, b):
        return collide(r, a, b, False)

    # ---------------------------------------------------------------- the carried challenge
    def carried(self, r, v):
        """A carried challenge other than the derived one is not accepted."""
        b = self.base
        tries = []
        if "e" in v:
            tries = [dict(v, e=x) for x in ((v["e"] ^ 1, v["e"] ^ (1 << 40), 1, ORDER - v["e"]) if "h1" in v else
                                            (v["e"] ^ 1, -v["e"], v["e"] ^ (1 << 40)))]
        elif hasattr(b, "bits"):
            for n in (0, 1, 2, 3, 8, 9, 16):
                w = dict(v, _tamper="shape", _bits=(list(b.bits) + [False] * 16)[:n])
                if n != len(b.bits):
                    tries.append(w)
                tries.append(dict(w, _bits=[not x for x in w["_bits"]]) if n else w)
        for w in tries:
            w["_tamper"] = "e"
            tr, st, req, end = self.once(r, w)
            self.rec["runs"] += 1
            if st is None:
                continue
            self.rec["goals"] += 1
            if st.out.get("ok", (0, "0"))[1] == "1":
                r.violation("%s: another challenge is accepted" % self.name, "a proof whose carried challenge is not the derived one is accepted", req)
            else:
                self.rec["proved"] += 1


def collide(r, a, b, prefix):
    """Can the two byte strings (the shorter's length of them, if prefix) be equal?"""
    la, lb = sum(x[0] for x in a), sum(x[0] for x in b)
    if not prefix and la != lb:
        r.stats.queries += 1
        return z3.unsat, None
    n = min(la, lb)

    def vec(t, tag):
        parts = []
        for k, (l, c) in enumerate(t):
            parts.append(z3.BitVecVal(c, 8 * l) if c is not None else z3.BitVec("%s%d" % (tag, k), 8 * l))
        x = parts[0] if len(parts) == 1 else z3.Concat(*parts)
        w = x.size()
        return z3.Extract(w - 1, w - 8 * n, x)
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(vec(a, "a") == vec(b, "b"))
    t0 = time.time()
    q = s.check()
    r.stats.queries += 1
    r.stats.solver_s += time.time() - t0
    return q, str(s.model())[:2000] if q == z3.sat else None


RESPONSES = {
    "sch": ("z",), "elog": ("z", "u"), "enc_elg": ("z1", "z2", "z3", "w"), "aff_g": ("z1", "z2", "z3", "z4", "w", "w_y"),
    "fac": ("z1", "z2", "w1", "w2", "v"), "dec": ("z*", "w*", "nu0", "nu1"), "aff_g_star": ("z*", "y*", "w*", "l*"), "prm": ("z*",),
    "mod": ("x*", "y*", "z*"),
}


class ModTranscript(Mod):
    """As the verification job, with the modulus an input."""

    def __init__(self):
        Mod.__init__(self)
        self.name = "mod"
        self.mods = ("N",)
        self.ins = [modulus_in("N")] + self.ins

    def fresh(self, rnd, sign):
        return dict(Mod.fresh(self, rnd, sign), N=PRIMES[0] * PRIMES[1])

    def args(self, v):
        return Mod.args(self, dict(v, _N=v["N"]))

    def feasible(self, v):
        return True


class Separate(Job):
    """Transcripts of different proof types differ, whatever the auxiliary data."""
    name = "between the proof types"
    ins = []

    def __init__(self, bases):
        self.bases = bases

    def run(self, r):
        t0 = time.time()
        rec = dict(job=self.name, scenario="all", paths=0, runs=0, goals=0, proved=0, closed=0)
        r.jobs.append(rec)
        got = []
        for t in self.bases:
            b = t.base
            v = b.derive(b.fresh(r.rnd, {}))
            a, _, req, end = t.once(r, v, (5, 0))
            c, _, _, _ = t.once(r, v, (5, 0), 1)
            e, _, _, _ = t.once(r, v, (21, 1))
            rec["runs"] += 3
            if not a or not c or not e:
                r.undecided.append("%s: no challenge was derived (%s)" % (t.name, end))
                continue
            rec["paths"] += 1
            # up to where the auxiliary data begin
            va, ve = t.vector(a[0], c[0]), t.vector(e[0], e[0])
            pre = []
            for x, y in zip(va, ve):
                if x != y:
                    break
                pre.append(x)
            got.append((t.name, pre, req))
        for i in range(len(got)):
            for j in range(i):
                rec["goals"] += 1
                a, b = got[i], got[j]
                q, model = collide(r, a[1], b[1], True) if a[1] and b[1] else (z3.sat, "no common part before the auxiliary data")
                if q == z3.unsat:
                    rec["proved"] += 1
                elif q == z3.sat:
                    r.violation("%s and %s share transcripts" % (a[0], b[0]), "up to the auxiliary data the transcripts can coincide",
                                a[2], dict(model=model, other_request=b[2]))
                else:
                    r.undecided.append("%s and %s: unknown" % (a[0], b[0]))
        rec["seconds"] = round(time.time() - t0, 1)


def jobs(tier):
    bases = [Sch(), Elog(), EncElg(), AffG(), Fac(), AffGStar(), Prm(), Dec(), ModTranscript()]
    ts = [Transcripts(b) for b in bases]
    if tier == "thorough":
        every = [(a, b) for a in (False, True) for b in (False, True)]
        ts += [Transcripts(c(b)) for c in (AffGStar, Prm, Dec) for b in every if b != (True, False)]
        ts += [Transcripts(Dec((True, True), n)) for n in (3, 5)]
    return ts + [Separate(ts[:9])]
