"""The specification of the nine proofs, and the jobs that run their verification on arbitrary elements."""
import base64
from symprops.common import *
from symx import Undecided

# ------------------------------------------------------------------ the curve of the tracked instantiation
FM = 0xfffffffffffffc7f
GEN = (11619086278950426528, 2765382488766937725)


def padd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % FM == 0:
            return None
        l = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, FM) % FM
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, FM) % FM
    x = (l * l - a[0] - b[0]) % FM
    return x, (l * (a[0] - x) - a[1]) % FM


def pmul(k, p=GEN):
    r = None
    k %= ORDER
    while k:
        if k & 1:
            r = padd(r, p)
        p = padd(p, p)
        k >>= 1
    return r


def penc(k):
    """The compressed encoding of k times the generator."""
    p = pmul(k)
    return "00" * 25 if p is None else "%02x%048x" % (2 + (p[1] & 1), p[0])


# ------------------------------------------------------------------ conditions of the relations
L, LP, EPS, PB = 64, 320, 128, 256
SEC = 2
U, W, X = 8, 16, 20             # limbs


class Eq:
    """A product of powers that is 1 modulo `m`; `solve` names the input it is solved for (exponent -1)."""

    def __init__(self, name, bases, m, solve):
        self.name, self.bases, self.m, self.solve = name, bases, m, solve

    def holds(self, env):
        m = self.m.ev(env)
        try:
            return fp_conc(self.bases, env, m) == 1 % m
        except ValueError:
            l = fp_conc([(b, e) for b, e in self.bases if ev(e, env) > 0], env, m)
            r = fp_conc([(b, -e) for b, e in self.bases if ev(e, env) < 0], env, m)
            return l == r

    def value(self, env):
        return fp_conc([(b, e) for b, e in self.bases if not (isinstance(b, Poly) and b == A(self.solve))], env, self.m.ev(env))

    def cond(self, st):
        k = st.meq_key(fp(st, self.bases, self.m), FP({}, self.m))
        return [] if k == () else [Cond("op", None, True, "", k)]


def ev(e, env):
    return e.ev(env) if isinstance(e, Poly) else e


class EqPt:
    """A linear combination of points (by name, "G" is the generator) that is the identity."""

    def __init__(self, name, comb, solve):
        self.name, self.comb, self.solve = name, {k: e if isinstance(e, Poly) else Poly.c(e) for k, e in comb.items()}, solve

    def value(self, env):
        return sum(ev(e, env) * (1 if k == "G" else env[k]) for k, e in self.comb.items() if k != self.solve) % ORDER

    def holds(self, env):
        return self.value(env) == env[self.solve]

    def cond(self, st):
        d = {}
        for k, e in self.comb.items():
            for k2, e2 in st.dlog.get(k, {k: Poly.c(1)}).items():
                d[k2] = d.get(k2, Poly({})) + e * e2
        d = {k: v for k, v in ((k, st.snorm(v)) for k, v in d.items()) if v.d}
        if not d:
            return []
        if set(d) == {"G"}:
            return [st.mod_zero(d["G"], ORDER, True, "spec")]
        return [Cond("op", None, True, "", st.peq_key(d))]


class Range:
    solve = None

    def __init__(self, name, p, e):
        self.name, self.p, self.e = name, p, e

    def conds(self):
        return [Cond("ge0", self.p + (1 << (self.e - 1)) - 1), Cond("ge0", (1 << (self.e - 1)) - self.p)]

    def holds(self, env):
        return all(c.p.ev(env) >= 0 for c in self.conds())

    def cond(self, st):
        return self.conds()


class EqInt:
    solve = None

    def __init__(self, name, a, b):
        self.name, self.d = name, a - b

    def holds(self, env):
        return self.d.ev(env) == 0

    def cond(self, st):
        return [Cond("eq0", self.d)] if self.d.d else []


class Fact:
    """A condition on concrete structure (lengths, challenge bits)."""
    solve = None

    def __init__(self, name, ok):
        self.name, self.ok = name, ok

    def holds(self, env):
        return self.ok

    def cond(self, st):
        return [] if self.ok else [Cond("op", None, True, "", ("never", self.name))]


class Coprime(Fact):
    def __init__(self, name, a, m):
        self.name, self.a, self.m = name, a, m

    def holds(self, env):
        return math.gcd(ev(self.a, env), ev(self.m, env)) == 1

    def cond(self, st):
        return []


def enc(z, w, n, sign=1):
    """Enc(z; w) as bases."""
    return [(1 + z * n, sign), (w, n * sign)]


class Verify(Job):
    """Verification of a proof whose responses are free and whose commitments solve the equations."""
    mods = ()           # (modulus name, ...)
    units = ()          # inputs that are residues: (name, modulus name, power)
    points = ()
    tampers = True
    aux = "6162636465"
    max_paths = 200

    def zins(self):
        return []

    def __init__(self):
        ins = [modulus_in(m) for m in self.mods]
        for n, m, k in self.units:
            ins.append(In(n, "u", 1, (1 << (512 * k)) - 1))
        ins += [In(p, "p", 1, ORDER - 1) for p in self.points]
        self.ins = ins + self.zins()
        self.fixed = tuple(self.mods) + tuple(u[0] for u in self.units) + tuple(self.points)
        self.pts = set(self.points)

    MODULI = [PRIMES[0] * PRIMES[1], PRIMES[2] * PRIMES[3], PRIMES[4] * PRIMES[5]]

    def seeds(self, rnd):
        out = []
        sg = [i.name for i in self.ins if i.signed]
        combos = [{n: 1 for n in sg}]
        if sg:
            combos += [{n: -1 for n in sg}] + [{n: (-1 if n == x else 1) for n in sg} for x in sg]
        for c in combos:
            out.append(self.derive(self.fresh(rnd, c)))
        if self.tampers:
            base = out[0]
            for n in self.tamperable():
                w = dict(base)
                w["_tamper"] = n
                w[n] = self.other(n, base, rnd)
                if self.is_public(n):
                    # everything else stays as in the accepted proof
                    pass
                out.append(w)
        return out + self.extra_seeds(rnd, out)

    def extra_seeds(self, rnd, out):
        """Responses at and beyond the ends of their ranges, with commitments that satisfy the equations."""
        r = []
        for c in self.relation(self.plain(), out[0]):
            if not isinstance(c, Range):
                continue
            n, = c.p.atoms()
            h = 1 << (c.e - 1)
            for x in (h, h + 1, 1 - h, -h, 2 * h, -2 * h, 2 * h + 1, 4 * h):
                r.append(self.derive(dict(out[0], **{n: x})))
        return r

    def is_public(self, n):
        return False

    def tamperable(self):
        return [i.name for i in self.ins if i.name not in self.mods]

    def other(self, n, v, rnd):
        i = next(x for x in self.ins if x.name == n)
        u = {x[0]: x for x in self.units}.get(n)
        if u:
            m = v[u[1]]
            return rnd.randrange(m ** u[2] >> 8, m ** u[2])
        if n in self.pts or i.kind == "s":
            return rnd.randrange(ORDER >> 8, ORDER)
        return v[n] + 1 if v[n] >= 0 else v[n] - 1

    def fresh(self, rnd, sign):
        v = {m: self.MODULI[k] for k, m in enumerate(self.mods)}
        us = {x[0]: x for x in self.units}
        for i in self.ins:
            n = i.name
            if n in v:
                continue
            if n in us:
                m = v[us[n][1]]
                v[n] = rnd.randrange(m ** us[n][2] >> 8, m ** us[n][2])
            else:
                hi = i.typ or i.hi
                v[n] = rnd.randrange(max(i.lo, hi >> 2), (hi >> 1) + (hi >> 3)) * sign.get(n, 1)
        return v

    def feasible(self, v):
        us = {x[0]: x for x in self.units}
        return all(v[m] == self.MODULI[k] for k, m in enumerate(self.mods)) and all(
            math.gcd(v[n], v[u[1]]) == 1 and v[n] < v[u[1]] ** u[2] for n, u in us.items())

    def derive(self, v):
        """Solves the equations for the commitments."""
        if v.get("_tamper"):
            return v
        v = dict(v)
        if "e" in v and "h1" in v and "_tie" in v:
            v["e"] = v["h1"]
        env = dict(v)
        for c in self.relation(self.plain(), v):
            if c.solve:
                v[c.solve] = env[c.solve] = c.value(env)
        return v

    def plain(self):
        return {i.name: A(i.name) for i in self.ins}

    def conds(self, V, v):
        return self.relation(V, v)

    def tracked(self, v):
        vs = [abs(v[i.name]) for i in self.ins if i.role == "var" and i.name != "e"]
        return all(x >= 1 << 32 for x in vs) and len(set(vs)) == len(vs)

    def untracked_values(self, v):
        return set()

    def setup(self, st, v):
        st.squares = {}
        for m in self.mods:
            n = A(m)
            st.squares[(n * n).key()] = n

    def point(self, v, n):
        return penc(v[n])

    def oracle(self, v):
        return [hx(v["h1"], 24) + hx(0, 24)] if "h1" in v else []

    def accepted(self, st):
        return st.out.get("ok", (0, "0"))[1] == "1"

    mode = "sound"

    def goals(self, st, V, v):
        env = dict(st.env)
        for i in self.ins:
            env.setdefault(i.name, abs(v[i.name]))
        cs = self.conds(V, v)
        ok = self.accepted(st)
        self.accepts = getattr(self, "accepts", 0) + ok
        bad = [c.name for c in cs if not c.holds(env)]
        if ok:
            if self.mode == "complete":
                return []
            out = []
            for c in cs:
                g = Goal("accepts only if: " + c.name, lambda c=c: self.implied(st, c), lambda c=c: c.holds(env),
                         lambda: "to hold", lambda: "violated in an accepted proof")
                if isinstance(c, (Range, EqInt)):
                    g.conds = c.cond(st)
                out.append(g)
            return out
        if self.mode == "sound":
            return []
        return [Goal("rejects only if a condition fails", lambda: any(self.refuted(st, c) for c in cs), lambda: bool(bad),
                     lambda: "acceptance, as every condition holds", lambda: "rejection")]

    def panic_goals(self, st, V, v, where):
        if v.get("_panic_ok"):
            return []
        return None

    def implied(self, st, c):
        return all(st.implied(x, use_pc=st.pc) for x in c.cond(st))

    def refuted(self, st, c):
        for x in c.cond(st):
            if x.kind == "op":
                if x.key[0] == "never" or any(y.kind == "op" and y.key == x.key and not y.pol for y in st.pc):
                    return True
            elif st.implied(x.neg(), use_pc=st.pc):
                return True
        return False


class Scalars(Verify):
    """Challenges that are scalars: the carried one and the computed one."""

    def zins(self):
        return [In("h1", "s", 1, ORDER - 1, role="hash"), In("e", "s", 1, ORDER - 1)]

    def fresh(self, rnd, sign):
        v = Verify.fresh(self, rnd, sign)
        v["e"] = v["h1"]
        return v


# json of the parts
def jp(v, n):
    return "0x" + penc(v[n])


def jct(x):
    return dict(ciphertext="0x" + jint(x, W), phantom=None)


def jru(x, limbs=U):
    return "0x" + jint(x, limbs)


def jz(x, limbs, bound=None):
    return jsigned(x, bound if bound is not None else 64 * limbs - 1, limbs)


def jrp(v):
    return dict(modulus=mod_wire(v["NH"]), base_randomizer=jru(v["t"]), base_value=jru(v["s"]))


RP = (("s", "NH", 1), ("t", "NH", 1))


def sgn(name, bits, limbs=None, **kw):
    """A response of a range of so many bits, in a type of so many limbs."""
    return In(name, "u", 0, (1 << (64 * limbs - 1 if limbs else bits)) - 1, signed=True, typ=(1 << bits) - 1, **kw)


class Sch(Scalars):
    name = "sch"
    scenario = "sch_verify"
    points = ("cap_x", "cap_a")

    def zins(self):
        return Scalars.zins(self) + [In("z", "s", 1, ORDER - 1)]

    def args(self, v):
        return dict(proof=dict(challenge=jsc(v["e"]), proof=jsc(v["z"])), cap_a=jp(v, "cap_a"), cap_x=jp(v, "cap_x"),
                    aux=self.aux)

    def relation(self, V, v):
        return [EqInt("the carried challenge", V["e"], V["h1"]),
                EqPt("g^z = A + e X", {"G": V["z"], "cap_a": -1, "cap_x": -V["h1"]}, "cap_a")]


class Elog(Scalars):
    name = "elog"
    scenario = "elog_verify"
    points = ("cap_l", "cap_m", "cap_x", "cap_y", "h", "cap_a", "cap_n", "cap_b")

    def zins(self):
        return Scalars.zins(self) + [In("z", "s", 1, ORDER - 1), In("u", "s", 1, ORDER - 1)]

    def args(self, v):
        d = {k: jp(v, k) for k in ("cap_l", "cap_m", "cap_x", "cap_y", "h")}
        return dict(d, aux=self.aux, proof=dict(e=jsc(v["e"]), z=jsc(v["z"]), u=jsc(v["u"]),
                    **{k: jp(v, k) for k in ("cap_a", "cap_n", "cap_b")}))

    def relation(self, V, v):
        e = V["h1"]
        return [EqInt("the carried challenge", V["e"], e),
                EqPt("g^z = A + e L", {"G": V["z"], "cap_a": -1, "cap_l": -e}, "cap_a"),
                EqPt("g^u X^z = N + e M", {"G": V["u"], "cap_x": V["z"], "cap_n": -1, "cap_m": -e}, "cap_n"),
                EqPt("h^u = B + e Y", {"h": V["u"], "cap_b": -1, "cap_y": -e}, "cap_b")]


class EncElg(Scalars):
    name = "enc_elg"
    scenario = "enc_elg_verify"
    mods = ("N0", "NH")
    units = RP + (("cap_c", "N0", 2), ("z2", "N0", 1), ("cap_d", "N0", 2), ("cap_s", "NH", 1), ("cap_t", "NH", 1))
    points = ("cap_a", "cap_b", "cap_x", "cap_y", "cap_z")

    def zins(self):
        return Scalars.zins(self) + [sgn("z1", L + EPS - 1, U), In("w", "s", 1, ORDER - 1), sgn("z3", 64 * W - 1)]

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), rp=jrp(v), aux=self.aux, cap_c=jru(v["cap_c"], W),
                    **{k: jp(v, k) for k in ("cap_a", "cap_b", "cap_x")},
                    proof=dict(e=jsc(v["e"]), cap_s=jru(v["cap_s"]), cap_d=jct(v["cap_d"]), cap_y=jp(v, "cap_y"),
                               cap_z=jp(v, "cap_z"), cap_t=jru(v["cap_t"]), z1=jz(v["z1"], U), w=jsc(v["w"]),
                               z2=jru(v["z2"]), z3=jz(v["z3"], W)))

    def relation(self, V, v):
        e, z1, n0, nh = V["h1"], V["z1"], A("N0"), A("NH")
        return [EqInt("the carried challenge", V["e"], e), Range("z1 in range", z1, L + EPS),
                Eq("Enc(z1;z2) = D C^e", enc(z1, A("z2"), n0) + [(A("cap_d"), -1), (A("cap_c"), -e)], n0 * n0, "cap_d"),
                EqPt("A^w g^z1 = Y + e X", {"cap_a": V["w"], "G": z1, "cap_y": -1, "cap_x": -e}, "cap_y"),
                EqPt("g^w = Z + e B", {"G": V["w"], "cap_z": -1, "cap_b": -e}, "cap_z"),
                Eq("s^z1 t^z3 = T S^e", [(A("s"), z1), (A("t"), V["z3"]), (A("cap_t"), -1), (A("cap_s"), -e)], nh, "cap_t")]


class AffG(Scalars):
    name = "aff_g"
    scenario = "aff_g_verify"
    mods = ("N0", "N1", "NH")
    units = RP + tuple((x, "N0", 2) for x in ("cap_c", "cap_d", "cap_a")) + tuple((x, "N1", 2) for x in ("cap_y", "cap_b_y")) + (
        ("w", "N0", 1), ("w_y", "N1", 1)) + tuple((x, "NH", 1) for x in ("cap_e", "cap_s", "cap_f", "cap_t"))
    points = ("cap_x", "cap_b_x")

    def zins(self):
        return Scalars.zins(self) + [sgn("z1", L + EPS - 1, U), sgn("z2", LP + EPS - 1, U), sgn("z3", 64 * W - 1), sgn("z4", 64 * W - 1)]

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), pk1=pk_wire(v["N1"]), rp=jrp(v), aux=self.aux, cap_x=jp(v, "cap_x"),
                    **{k: jru(v[k], W) for k in ("cap_c", "cap_d", "cap_y")},
                    proof=dict(e=jsc(v["e"]), cap_a=jct(v["cap_a"]), cap_b_x=jp(v, "cap_b_x"), cap_b_y=jct(v["cap_b_y"]),
                               **{k: jru(v[k]) for k in ("cap_e", "cap_s", "cap_f", "cap_t", "w", "w_y")},
                               z1=jz(v["z1"], U), z2=jz(v["z2"], U), z3=jz(v["z3"], W), z4=jz(v["z4"], W)))

    def relation(self, V, v):
        e, z1, z2, z3, z4 = V["h1"], V["z1"], V["z2"], V["z3"], V["z4"]
        n0, n1, nh, s, t = A("N0"), A("N1"), A("NH"), A("s"), A("t")
        return [EqInt("the carried challenge", V["e"], e), Range("z1 in range", z1, L + EPS), Range("z2 in range", z2, LP + EPS),
                Eq("C^z1 Enc0(z2;w) = A D^e", [(A("cap_c"), z1)] + enc(z2, A("w"), n0) + [(A("cap_a"), -1), (A("cap_d"), -e)],
                   n0 * n0, "cap_a"),
                EqPt("g^z1 = B_x + e X", {"G": z1, "cap_b_x": -1, "cap_x": -e}, "cap_b_x"),
                Eq("Enc1(z2;w_y) = B_y Y^-e", enc(z2, A("w_y"), n1) + [(A("cap_b_y"), -1), (A("cap_y"), e)], n1 * n1, "cap_b_y"),
                Eq("s^z1 t^z3 = E S^e", [(s, z1), (t, z3), (A("cap_e"), -1), (A("cap_s"), -e)], nh, "cap_e"),
                Eq("s^z2 t^z4 = F T^e", [(s, z2), (t, z4), (A("cap_f"), -1), (A("cap_t"), -e)], nh, "cap_f")]


class Fac(Verify):
    name = "fac"
    scenario = "fac_verify"
    mods = ("N0", "NH")
    units = RP + tuple((x, "NH", 1) for x in ("cap_p", "cap_q", "cap_a", "cap_b", "cap_t"))

    def zins(self):
        zb = L + EPS + PB - 2 - 1
        return [In("eraw", "u", 1, (1 << 64) - 1, role="var"), sgn("e", 63), sgn("z1", zb, W), sgn("z2", zb, W), sgn("w1", 64 * W - 1),
                sgn("w2", 64 * W - 1), sgn("v", 64 * X - 1)]

    OFF = (1 << 63) - 1

    def fresh(self, rnd, sign):
        v = Verify.fresh(self, rnd, sign)
        v["eraw"] = v["e"] + self.OFF
        return v

    def oracle(self, v):
        return [hx(v["eraw"], 8)]

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), rp=jrp(v), aux=self.aux,
                    proof=dict(e=jz(v["e"], U, 64), **{k: jru(v[k]) for k in ("cap_p", "cap_q", "cap_a", "cap_b", "cap_t")},
                               **{k: jz(v[k], W) for k in ("z1", "z2", "w1", "w2")}, v=jz(v["v"], X)))

    def relation(self, V, v):
        e = V["eraw"] - self.OFF
        z1, z2, n0, nh, s, t = V["z1"], V["z2"], A("N0"), A("NH"), A("s"), A("t")
        q = A("cap_q")
        return [EqInt("the carried challenge", V["e"], e), Range("z1 in range", z1, L + EPS + PB - 2),
                Range("z2 in range", z2, L + EPS + PB - 2),
                Eq("s^z1 t^w1 = A P^e", [(s, z1), (t, V["w1"]), (A("cap_a"), -1), (A("cap_p"), -e)], nh, "cap_a"),
                Eq("s^z2 t^w2 = B Q^e", [(s, z2), (t, V["w2"]), (A("cap_b"), -1), (q, -e)], nh, "cap_b"),
                Eq("Q^z1 t^v = T (s^N0)^e", [(q, z1), (t, V["v"]), (A("cap_t"), -1), (s, -e * n0)], nh, "cap_t")]


class Bits(Verify):
    """Challenges that are bit strings: every one is tried, the bits being part of the path."""
    per_unit, per_point = (), ()

    def __init__(self, bits=(True, False)):
        self.bits = bits
        self.name = "%s:%s" % (self.base, "".join("01"[b] for b in bits))
        self.units = tuple(self.units0) + tuple((n + str(k), m, p) for k in range(SEC) for n, m, p in self.per_unit)
        self.points = tuple(self.points0) + tuple(n + str(k) for k in range(SEC) for n in self.per_point)
        Verify.__init__(self)

    def byte(self, bits):
        r = 0
        for k, b in enumerate(bits):
            r |= int(b) << (7 - k)
        return r

    def oracle(self, v):
        return [hx(self.byte(self.bits), 1)]

    def carried(self, v):
        return list(v.get("_bits", self.bits))

    def items(self, v, make, what):
        """The list of commitments or elements, as the shape of this run has it."""
        idx = v.get("_" + what, list(range(SEC)))
        return [make(v, str(k)) for k in idx]

    def shape(self, v):
        c = v.get("_com", [0, 1]), v.get("_elem", [0, 1])
        return [Fact("the carried challenge", tuple(self.carried(v)) == tuple(self.bits)),
                Fact("as many commitments as challenge bits", len(c[0]) == SEC),
                Fact("as many elements as challenge bits", len(c[1]) == SEC)]

    def extra_seeds(self, rnd, out):
        base = dict(out[0], _tamper="shape")
        r = Verify.extra_seeds(self, rnd, out)
        for k in range(SEC):
            b = list(self.bits)
            b[k] = not b[k]
            r.append(dict(base, _bits=b))
        for d in ([], [0], [1], [0, 1, 1], [0, 1, 0], [1, 0], [0, 0], [1, 1], [0, 1, 0, 1]):
            for w in (("_com",), ("_elem",), ("_com", "_elem")):
                r.append(dict(base, **{x: d for x in w}))
        for n in (0, 1, 3, 8, 9, 16):
            r.append(dict(base, _bits=(list(self.bits) + [False] * 16)[:n]))
            if n < 3:
                r.append(dict(base, _bits=(list(self.bits) + [False] * 16)[:n], _com=list(range(n)), _elem=list(range(n))))
        return r

    def idx(self, v):
        c, e = v.get("_com", [0, 1]), v.get("_elem", [0, 1])
        return list(zip(self.bits, c, e))


def jbits(bits):
    b = bytearray((len(bits) + 7) // 8)
    for k, x in enumerate(bits):
        b[k // 8] |= int(x) << (7 - k % 8)
    return dict(bits=len(bits), byte_vec=base64.b64encode(bytes(b)).decode().rstrip("="))


class Dec(Bits):
    base = "dec"
    scenario = "dec_verify"
    mods = ("N0", "NH")
    units0 = RP + (("cap_k", "N0", 2), ("cap_d", "N0", 2))
    points0 = ("cap_x", "cap_s", "cap_g")
    per_unit = (("a", "N0", 2), ("nu", "N0", 1))
    per_point = ("b", "c")

    def __init__(self, bits=(True, False), parties=2):
        self.parties = parties
        self.wb = LP + EPS + 1 + (parties - 1).bit_length() + EPS
        Bits.__init__(self, bits)
        self.name += ":%d" % parties

    def zins(self):
        return [x for k in range(SEC) for x in (sgn("z%d" % k, L + EPS - 1, U), sgn("w%d" % k, self.wb - 1, W))]

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), rp=jrp(v), aux=self.aux, num_parties=self.parties,
                    **{k: jru(v[k], W) for k in ("cap_k", "cap_d")}, **{k: jp(v, k) for k in self.points0},
                    proof=dict(e=jbits(self.carried(v)),
                               commitments=self.items(v, lambda v, k: dict(cap_a=jct(v["a" + k]), cap_b=jp(v, "b" + k),
                                                                           cap_c=jp(v, "c" + k)), "com"),
                               elements=self.items(v, lambda v, k: dict(z=jz(v["z" + k], U), w=jz(v["w" + k], W),
                                                                        nu=jru(v["nu" + k])), "elem")))

    def relation(self, V, v):
        r = self.shape(v)
        n0 = A("N0")
        for b, c, k in self.idx(v):
            b, z, w = int(b), V["z%d" % k], V["w%d" % k]
            A_, B, C = "a%d" % c, "b%d" % c, "c%d" % c
            r += [Eq("%d: Enc(w;nu) K^-z = A D^e" % k, enc(w, A("nu%d" % k), n0) + [(A("cap_k"), -z), (A(A_), -1), (A("cap_d"), -b)],
                     n0 * n0, A_),
                  EqPt("%d: g^z = C + e X" % k, {"G": z, C: -1, "cap_x": -b}, C),
                  EqPt("%d: G^w = B + e S" % k, {"cap_g": w, B: -1, "cap_s": -b}, B),
                  Range("%d: z in range" % k, z, L + EPS), Range("%d: w in range" % k, w, self.wb)]
        return r


class AffGStar(Bits):
    base = "aff_g_star"
    scenario = "aff_g_star_verify"
    mods = ("N0", "N1")
    units0 = (("cap_c", "N0", 2), ("cap_d", "N0", 2), ("cap_y", "N1", 2))
    points0 = ("cap_x",)
    per_unit = (("a", "N0", 2), ("b", "N1", 2), ("w", "N0", 1), ("l", "N1", 1))
    per_point = ("r",)

    def zins(self):
        return [x for k in range(SEC) for x in (sgn("z%d" % k, L + EPS - 1, U), sgn("y%d" % k, LP + EPS - 1, U))]

    def args(self, v):
        return dict(pk0=pk_wire(v["N0"]), pk1=pk_wire(v["N1"]), aux=self.aux, cap_x=jp(v, "cap_x"),
                    **{k: jru(v[k], W) for k in ("cap_c", "cap_d", "cap_y")},
                    proof=dict(e=jbits(self.carried(v)),
                               commitments=self.items(v, lambda v, k: dict(cap_a=jct(v["a" + k]), cap_r=jp(v, "r" + k),
                                                                           cap_b=jct(v["b" + k])), "com"),
                               elements=self.items(v, lambda v, k: dict(z=jz(v["z" + k], U), z_prime=jz(v["y" + k], U),
                                                                        w=jru(v["w" + k]), **{"lambda": jru(v["l" + k])}), "elem")))

    def relation(self, V, v):
        r = self.shape(v)
        n0, n1 = A("N0"), A("N1")
        for b, c, k in self.idx(v):
            b, z, y = int(b), V["z%d" % k], V["y%d" % k]
            r += [Range("%d: z in range" % k, z, L + EPS), Range("%d: z' in range" % k, y, LP + EPS),
                  Eq("%d: C^z Enc0(z';w) = A D^e" % k, [(A("cap_c"), z)] + enc(y, A("w%d" % k), n0) +
                     [(A("a%d" % c), -1), (A("cap_d"), -b)], n0 * n0, "a%d" % c),
                  EqPt("%d: g^z = R + e X" % k, {"G": z, "r%d" % c: -1, "cap_x": -b}, "r%d" % c),
                  Eq("%d: Enc1(z';lambda) = B Y^-e" % k, enc(y, A("l%d" % k), n1) + [(A("b%d" % c), -1), (A("cap_y"), b)],
                     n1 * n1, "b%d" % c)]
        return r


class Prm(Bits):
    base = "prm"
    scenario = "prm_verify"
    mods = ("NH",)
    units0 = RP
    points0 = ()
    per_unit = (("a", "NH", 1),)

    def zins(self):
        return [In("z%d" % k, "u", 1, (1 << 511) - 1) for k in range(SEC)]

    def args(self, v):
        return dict(rp=jrp(v), aux=self.aux,
                    proof=dict(challenge=jbits(self.carried(v)), commitment=self.items(v, lambda v, k: jru(v["a" + k]), "com"),
                               proof=self.items(v, lambda v, k: jru(v["z" + k]), "elem")))

    def relation(self, V, v):
        r = self.shape(v)
        for b, c, k in self.idx(v):
            a = "a%d" % c
            r.append(Eq("%d: t^z = A s^e" % k, [(A("t"), V["z%d" % k]), (A(a), -1), (A("s"), -int(b))], A("NH"), a))
        return r


class Mod(Verify):
    """The modulus is a constant (its primality is tested by the code); roots are computed with its factors."""
    scenario = "mod_verify"

    def __init__(self, flags=((False, True), (True, False)), prime=False):
        self.flags = flags
        self.name = "mod:" + "".join("01"[x] for f in flags for x in f)
        self.N = PRIMES[0] * PRIMES[1]
        self.phi = (PRIMES[0] - 1) * (PRIMES[1] - 1)
        Verify.__init__(self)
        self.ins = [In("w", "u", 1, (1 << 512) - 1)] + [In("%s%d" % (c, k), "u", 1, (1 << 512) - 1) for k in range(SEC) for c in "xyz"]
        self.fixed = tuple(i.name for i in self.ins)

    def fresh(self, rnd, sign):
        return {i.name: rnd.randrange(self.N >> 8, self.N) for i in self.ins}

    def derive(self, v):
        if v.get("_tamper"):
            return v
        v = dict(v)
        n = self.N
        for k, (a, b) in enumerate(self.flags):
            y = pow(v["x%d" % k], 4, n) * (pow(v["w"], -1, n) if b else 1) * (-1 if a else 1) % n
            v["y%d" % k] = y
            v["z%d" % k] = pow(y, pow(n, -1, self.phi), n)
        return v

    def feasible(self, v):
        return all(v[i.name] < self.N and math.gcd(v[i.name], self.N) == 1 for i in self.ins)

    def other(self, n, v, rnd):
        return rnd.randrange(self.N >> 8, self.N)

    def oracle(self, v):
        return ["".join(jint(v["y%d" % k], U) for k in range(SEC))]

    def args(self, v):
        ys = v.get("_carried", [v["y%d" % k] for k in range(SEC)])
        fl = v.get("_flags", self.flags)
        return dict(pk0=pk_wire(v.get("_N", self.N)), aux=self.aux,
                    proof=dict(commitment=jru(v["w"]), challenge=[jru(y) for y in ys],
                               proof=[dict(x=jru(v["x%d" % k]), a=fl[k][0], b=fl[k][1], z=jru(v["z%d" % k]))
                                      for k in v.get("_elem", range(SEC))]))

    def setup(self, st, v):
        pass

    def relation(self, V, v):
        m = Poly.c(v.get("_N", self.N))
        el = list(v.get("_elem", range(SEC)))
        r = [Fact("the carried challenge", v.get("_carried", [v["y0"], v["y1"]]) == [v["y0"], v["y1"]]),
             Fact("as many elements as challenges", len(el) == SEC),
             Fact("the modulus is composite", v.get("_N", self.N) not in self.PRIME),
             Coprime("w is invertible", A("w"), m)]
        fl = v.get("_flags", self.flags)
        for k, j in enumerate(el[:SEC]):
            a, b = fl[j]
            y = A("y%d" % k)
            r += [Eq("%d: z^N = y" % k, [(A("z%d" % j), m), (y, -1)], m, None), Coprime("%d: y is invertible" % k, y, m),
                  Eq("%d: x^4 = (-1)^a w^b y" % k, [(A("x%d" % j), 4), (y, -1)] + ([(A("w"), -1)] if b else []) +
                     ([(-1, 1)] if a else []), m, None)]
        return r

    PRIME = {(1 << 512) - 569}

    def tracked(self, v):
        return not v.get("_tamper") and Verify.tracked(self, v)

    def extra_seeds(self, rnd, out):
        base = dict(out[0], _tamper="shape")
        r = [dict(base, _elem=e) for e in ([], [0], [1], [0, 1, 1], [1, 0], [0, 0], [1, 1], [0, 1, 0, 1])]
        ys = [base["y0"], base["y1"]]
        r += [dict(base, _carried=c) for c in ([], ys[:1], ys[1:], ys + ys[:1], ys[::-1], [ys[0]] * 2)]
        r += [dict(base, _carried=ys[:n], _elem=list(range(n))) for n in (0, 1)]
        for k in range(SEC):
            for j in range(2):
                f = [list(x) for x in self.flags]
                f[k][j] = not f[k][j]
                r.append(dict(base, _flags=f))
        # w that shares a factor with the modulus
        for p in (PRIMES[0], PRIMES[1]):
            r.append(dict(base, w=p * (rnd.getrandbits(250) | 1 << 249)))
        # a prime modulus: z and x as the equations need them
        n = list(self.PRIME)[0]
        w = dict(base, _N=n)
        for k, (a, b) in enumerate(self.flags):
            x = rnd.randrange(n >> 8, n)
            y = pow(x, 4, n) * (pow(w["w"], -1, n) if b else 1) * (-1 if a else 1) % n
            w.update({"x%d" % k: x, "y%d" % k: y, "z%d" % k: pow(y, pow(n, -1, n - 1), n)})
        r.append(w)
        return r


def all_jobs(tier, mode):
    jobs = [Sch(), Elog(), EncElg(), AffG(), Fac()]
    every = [(a, b) for a in (False, True) for b in (False, True)]
    for b in (every if tier == "thorough" else every[1:]):
        jobs += [AffGStar(b), Prm(b)]
    for b, n in ([((True, False), 2), ((False, True), 3), ((True, True), 5)] if tier == "quick" else
                 [(b, n) for b in every for n in (2, 3, 4, 5, 9)]):
        jobs.append(Dec(b, n))
    f = [((False, False), (False, True)), ((True, False), (True, True))]
    jobs += [Mod(x) for x in f]
    for j in jobs:
        j.mode = mode
    return jobs
