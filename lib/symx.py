"""Symbolic execution over the log of the tracked instantiation: polynomials over integer atoms, residues as formal
products with polynomial exponents, points as linear forms; path conditions and goals decided by z3."""
import subprocess
import json
import time
import z3


# ---------------------------------------------------------------------------------------------- polynomials
class Poly:
    """Integer polynomial over atoms (strings); immutable by convention."""
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = None

    @staticmethod
    def c(n):
        return Poly({(): n} if n else {})

    @staticmethod
    def a(name):
        return Poly({((name, 1),): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        o = _p(o)
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-_p(o))

    def __rsub__(self, o):
        return _p(o) - self

    def __mul__(self, o):
        o = _p(o)
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return Poly(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = Poly.c(1)
        for _ in range(n):
            r = r * self
        return r

    def const(self):
        """The value if constant, else None."""
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def atoms(self):
        return {a for m in self.d for a, _ in m}

    def linear(self):
        return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in self.d)

    def ev(self, env):
        t = 0
        for m, c in self.d.items():
            for a, e in m:
                c = c * env[a] ** e
            t += c
        return t

    def mod(self, n):
        """Coefficients reduced modulo n, into the symmetric range."""
        d = {}
        for m, c in self.d.items():
            c %= n
            if c > n // 2:
                c -= n
            if c:
                d[m] = c
        return Poly(d)

    def subst(self, name, val):
        if all(a != name for m in self.d for a, _ in m):
            return self
        r = Poly({})
        for m, c in self.d.items():
            e = dict(m).get(name, 0)
            rest = tuple(x for x in m if x[0] != name)
            t = Poly({rest: c})
            r = r + (t * val ** e if e else t)
        return r

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items()):
            s = "*".join(a if e == 1 else "%s^%d" % (a, e) for a, e in m)
            out.append((("%x" % c if abs(c) > 9999 else str(c)) + ("*" + s if s else "")) if (c != 1 or not s) else s)
        return " + ".join(out)


def _p(x):
    return x if isinstance(x, Poly) else Poly.c(x)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def mono_div(a, b):
    """a / b as a monomial, or None."""
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v:
            d[x] = v
        else:
            del d[x]
    return tuple(sorted(d.items()))


def mono_rank(m):
    return (sum(e for _, e in m), m)


def divmod_poly(a, b):
    """Quotient and remainder of a by b (graded lexicographic leading term, integer coefficients)."""
    if not b.d:
        return Poly({}), a
    lm = max(b.d, key=mono_rank)
    lc = b.d[lm]
    q, r = Poly({}), Poly({})
    a = Poly(dict(a.d))
    n = 0
    while a.d and n < 400:
        n += 1
        m = max(a.d, key=mono_rank)
        c = a.d[m]
        t = mono_div(m, lm)
        if t is not None and c % lc == 0:
            tp = Poly({t: c // lc})
            q = q + tp
            a = a - tp * b
        else:
            r = r + Poly({m: c})
            a = a - Poly({m: c})
    return q, r + a


def exact_div(a, b):
    q, r = divmod_poly(a, b)
    return q if not r.d else None


# ---------------------------------------------------------------------------------------------- conditions
class Cond:
    """kind: 'ge0' (P >= 0), 'eq0' (P == 0), 'op' (opaque, by key).  pol: the side the execution took."""
    __slots__ = ("kind", "p", "pol", "src", "key")

    def __init__(self, kind, p, pol=True, src="", key=None):
        self.kind, self.p, self.pol, self.src = kind, p, pol, src
        self.key = key if key is not None else (kind, p.key())

    def neg(self):
        return Cond(self.kind, self.p, not self.pol, self.src, self.key)

    def __repr__(self):
        return "%s%s(%s)" % ("" if self.pol else "not ", self.kind, self.p if self.p is not None else self.key)


INF = 1 << 8192         # stands for infinity in intervals


class Undecided(Exception):
    pass


class Engine:
    """The binary, as a line-based server."""

    def __init__(self, path):
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1 << 20)
        self.runs = 0

    def run(self, req):
        self.runs += 1
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise RuntimeError("the tracked binary died in scenario %s" % req.get("scenario"))
            l = l.rstrip("\n")
            if l.startswith("END "):
                return out, l[4:]
            out.append(l)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}

    def count(self, k, n=1):
        self.by[k] = self.by.get(k, 0) + n


ORDER = 0xffffffff1a0a85df      # the order of the curve used by the tracked instantiation


class FP:
    """A residue: product of bases to polynomial exponents, in the ring modulo `m` (a Poly)."""
    __slots__ = ("b", "m")

    def __init__(self, b, m):
        self.b, self.m = b, m

    def key(self):
        return (self.m.key(), tuple(sorted(((repr(k), v.key()) for k, v in self.b.items()))))

    def __repr__(self):
        return "{" + ", ".join("%s^(%s)" % (k if isinstance(k, str) else k[1], v) for k, v in self.b.items()) + "}"


class State:
    """One executed path, interpreted."""

    def __init__(self, stats, inputs, bind=None, ranges=None, facts=(), orders=None, units=(), dlog=None,
                 timeout_ms=3000, late=()):
        self.late = set(late)        # inputs that become atoms where they are drawn
        self.st = stats
        self.env = {}                # atom -> concrete value
        self.rng = {}                # atom -> (lo, hi) inclusive
        self.facts = list(facts)     # conditions that always hold (definitions, declared relations)
        self.pcset = set()
        self.pc = []                 # what the execution branched on, in order
        self.val = {}                # node -> ('u', Poly, width) | ('m', FP) | ('s', Poly) | ('p', dict)
        self.conc = {}               # node -> concrete integer / bytes hex
        self.ty = {}
        self.out = {}
        self.tr = []                 # transcripts
        self.reads = []
        self.shown = []
        self.bits = []               # bit-length queries (n, node, result)
        self.bind = dict(bind or {})
        self.orders = list(orders or [])  # (ring Poly, order Poly)
        self.subst_exp = []          # rewrites used in exponents: (name, Poly)
        self.rules = []              # (lead monomial, Poly): polynomial rewriting everywhere in exponents
        self.ringof = {}             # atom -> FP it is the canonical representative of
        self.dlog = dict(dlog or {})
        self.cons = {}
        self.timeout = timeout_ms
        self.in_ranges = dict(ranges or {})
        for n, v in inputs.items():
            if n not in self.bind and n not in self.late:
                lo, hi = self.in_ranges.get(n, (0, None))
                self.atom(n, v, lo, hi)
        self.zcache = {}
        self.zcc = {}
        self.zb = {}

    # ---- atoms
    def atom(self, name, value, lo=0, hi=None):
        self.env[name] = value
        if hi is None:
            hi = None
        self.rng[name] = (lo, hi)
        return Poly.a(name)

    def cons_atom(self, kind, key, value, lo, hi):
        k = (kind, key)
        if k in self.cons:
            return Poly.a(self.cons[k]), False
        name = "%s%d" % (kind, len(self.cons))
        self.cons[k] = name
        self.atom(name, value, lo, hi)
        return Poly.a(name), True

    def interval(self, p):
        lo = hi = 0
        for m, c in p.d.items():
            l = h = 1
            for a, e in m:
                al, ah = self.rng[a]
                if ah is None:
                    ah = INF
                if al is None:
                    al = -INF
                if al >= 0:
                    x, y = al ** e, (ah ** e if ah < INF else ah)
                elif e == 1:
                    x, y = al, ah
                else:
                    mx = max(abs(al), abs(ah)) ** e
                    x, y = (0 if e % 2 == 0 else -mx), mx
                cand = [_mul(l, x), _mul(l, y), _mul(h, x), _mul(h, y)]
                l, h = min(cand), max(cand)
            if c >= 0:
                lo, hi = lo + _mul(c, l), hi + _mul(c, h)
            else:
                lo, hi = lo + _mul(c, h), hi + _mul(c, l)
        return max(lo, -INF), min(hi, INF)

    # ---- z3
    def zvar(self, name, sort):
        k = (name, sort)
        if k not in self.zcache:
            self.zcache[k] = z3.Int(name) if sort == "i" else z3.Real(name)
        return self.zcache[k]

    def zpoly(self, p, sort, mons):
        ts = []
        for m, c in p.d.items():
            if not m:
                t = z3.IntVal(c) if sort != "r" else z3.RealVal(c)
            elif sort == "r":
                t = z3.RealVal(c)
                for a, e in m:
                    for _ in range(e):
                        t = t * self.zvar(a, "r")
            else:
                if len(m) == 1 and m[0][1] == 1:
                    v = self.zvar(m[0][0], "i")
                else:
                    v = self.zvar("*".join("%s^%d" % x for x in m), "i")
                    mons[m] = v
                t = v * c if c != 1 else v
            ts.append(t)
        if not ts:
            return z3.IntVal(0) if sort != "r" else z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def zcond(self, c, sort, mons):
        k = (c.key, c.pol, sort)
        if k not in self.zcc:
            m = {}
            self.zcc[k] = (self.zcond_(c, sort, m), m)
        e, m = self.zcc[k]
        mons.update(m)
        return e

    def zcond_(self, c, sort, mons):
        if c.kind == "op":
            f = z3.Bool("op:%s" % (hash(c.key) & 0xffffffffffff))
        else:
            e = self.zpoly(c.p, sort, mons)
            f = (e >= 0) if c.kind == "ge0" else (e == 0)
        return f if c.pol else z3.Not(f)

    def bounds_of(self, name, sort):
        lo, hi = self.rng[name]
        k = (name, sort, lo, hi)
        if k in self.zb:
            return self.zb[k]
        v = self.zvar(name, sort)
        self.zb[k] = r = []
        if lo is not None:
            r.append(v >= lo)
        if hi is not None:
            r.append(v <= hi)
        return r

    def solve(self, conds, want_model=False, relax=True, timeout=None):
        """'unsat' | 'sat' | 'unknown', model (dict atom -> int)"""
        timeout = timeout or self.timeout
        lin = all(c.kind == "op" or c.p.linear() for c in conds)
        ats = set()
        for c in conds:
            if c.p is not None:
                ats |= c.p.atoms()
        modes = ["i"] if lin or not relax else ["i", "r"]
        res, model = "unknown", None
        for mode in modes:
            s = z3.Solver()
            s.set("timeout", timeout)
            mons = {}
            for c in conds:
                s.add(self.zcond(c, mode, mons))
            for a in ats:
                s.add(*self.bounds_of(a, mode))
            for m, v in mons.items():
                lo, hi = self.interval(Poly({m: 1}))
                if lo > -INF:
                    s.add(v >= lo)
                if hi < INF:
                    s.add(v <= hi)
            t = time.time()
            r = str(s.check())
            self.st.solver_s += time.time() - t
            self.st.queries += 1
            if r == "unsat":
                return "unsat", None
            if r == "sat" and mode == "i":
                res = "sat" if lin or not mons else "sat?"
                if want_model:
                    mo = s.model()
                    model = {}
                    for a in ats:
                        x = mo.eval(self.zvar(a, "i"), model_completion=True)
                        model[a] = x.as_long()
        return res, model

    def relevant(self, goal_atoms, conds, hops=2):
        at = set(goal_atoms)
        chosen = []
        left = [(c, c.p.atoms() if c.p is not None else set()) for c in conds]
        for _ in range(hops):
            add = [x for x in left if x[1] & at]
            if not add:
                break
            chosen += [c for c, _ in add]
            left = [x for x in left if not (x[1] & at)]
            for _, s in add:
                at |= s
        return chosen

    def implied(self, c, extra=(), use_pc=None):
        """Is `c` implied by the declared facts (and the path condition `use_pc`)?"""
        if c.kind == "op":
            for x in list(extra) + list(use_pc or []):
                if x.kind == "op" and x.key == c.key and x.pol == c.pol:
                    return True
            return False
        # intervals first
        lo, hi = self.interval(c.p)
        if c.kind == "ge0":
            if lo >= 0:
                return c.pol
            if hi < 0:
                return not c.pol
        else:
            if lo > 0 or hi < 0:
                return not c.pol
            if not c.p.d:
                return c.pol
        base = list(self.facts) + list(extra) + list(use_pc or [])
        base = [b for b in base if b.kind != "op"]
        for hops in (1, 3):
            rel = self.relevant(c.p.atoms(), base, hops)
            r, _ = self.solve(rel + [c.neg()])
            if r == "unsat":
                return True
        return False

    # ---- integers
    def exact(self, v, src=""):
        """The exact value of a u-node: a polynomial, with the wrap count recorded as a path condition if needed."""
        p, w = v[1], v[2]
        if w is None:
            return p
        lo, hi = self.interval(p)
        if lo >= 0 and hi < (1 << w):
            return p
        k = (p.ev(self.env)) >> w
        r = p - (k << w) if k else p
        lo, hi = self.interval(r)
        if lo < 0:
            self.branch(Cond("ge0", r, True, src + " wrap"))
        if hi >= (1 << w):
            self.branch(Cond("ge0", ((1 << w) - 1) - r, True, src + " wrap"))
        return r

    def branch(self, c):
        val = self.ceval(c)
        assert val == c.pol, "inconsistent condition %r" % c
        self.add_pc(c)

    def add_pc(self, c):
        k = (c.key, c.pol)
        if k not in self.pcset:
            self.pcset.add(k)
            self.pc.append(c)

    def ceval(self, c):
        x = c.p.ev(self.env)
        return (x >= 0) if c.kind == "ge0" else (x == 0)

    def cond_val(self, c):
        return self.ceval(c) == c.pol

    def quo(self, A, m, src, concretize=True):
        """A mod m as an exact polynomial."""
        r = A
        lo, hi = self.interval(A)
        mc = m.const()
        if mc is not None and lo >= 0 and hi < mc:
            return A
        if mc is None and self.implied(Cond("ge0", A)) and self.implied(Cond("ge0", m - A - 1)):
            return A
        q = A.ev(self.env) // m.ev(self.env)
        if concretize and -4 <= q <= 4 and (mc is None or lo <= -INF or hi >= INF
                                            or (hi - lo) <= 8 * mc):
            r = A - m * q
            self.branch(Cond("ge0", r, True, src + " quotient"))
            self.branch(Cond("ge0", m - r - 1, True, src + " quotient"))
            return r
        ql, qh = self.qbounds(A, m)
        qa, fresh = self.cons_atom("q", (A.key(), m.key()), q, ql, qh)
        r = A - m * qa
        if fresh:
            self.facts.append(Cond("ge0", r))
            self.facts.append(Cond("ge0", m - r - 1))
        return r

    # ---- residues
    def reduce_ring(self, p, m):
        """A polynomial modulo the ring's modulus."""
        mc = m.const()
        if mc is not None:
            return p.mod(mc)
        if len(m.d) == 1:
            (mm, c), = m.d.items()
            if c == 1:
                return Poly({k: v for k, v in p.d.items() if mono_div(k, mm) is None})
        return divmod_poly(p, m)[1]

    def norm_rules(self, e):
        """Rewriting with the definitions of modular inverses."""
        for lead, rep in self.rules:
            e = self.rewrite(e, lead, rep)
        return e

    def rewrite(self, e, lead, rep):
        for _ in range(8):
            hit = False
            d = Poly({})
            for mm, c in e.d.items():
                t = mono_div(mm, lead)
                if t is None:
                    d = d + Poly({mm: c})
                else:
                    d = d + Poly({t: c}) * rep
                    hit = True
            e = d
            if not hit:
                break
        return e

    def norm_exp(self, e, base, m):
        for n, r in self.subst_exp:
            e = e.subst(n, r)
        e = self.norm_rules(e)
        if base == "-1":
            return Poly.c(e.const() % 2) if e.const() is not None else e
        if base == "G":
            n = self.gen_order(m)
            if n is not None:
                return self.reduce_ring(e, n)
            return e
        for ring, order in self.orders:
            if ring == m:
                o = order
                for n, r in self.subst_exp:
                    o = o.subst(n, r)
                e = divmod_poly(e, o)[1]
                for k, lead, rep in getattr(self, "ordrules", ()):
                    if k == order.key():
                        e = divmod_poly(self.rewrite(e, lead, rep), o)[1]
        return e

    def gen_order(self, m):
        """n if the ring's modulus is n^2"""
        return self.squares.get(m.key()) if hasattr(self, "squares") else None

    def mk(self, bases, m):
        """Normalizes a formal product."""
        b = {}
        stack = list(bases.items())
        while stack:
            k, e = stack.pop()
            if not e.d:
                continue
            if isinstance(k, tuple) and k[0] == "i":
                p = self.reduce_ring(k[2], m)
                c = p.const()
                if c == 1:
                    continue
                if c == 0 and (e.const() or 0) > 0:
                    return FP({("i", "0", Poly({})): Poly.c(1)}, m)
                if c == -1:
                    k = "-1"
                elif len(p.d) == 1 and c is None:
                    (mm, co), = p.d.items()
                    if len(mm) > 1 or mm[0][1] > 1 or co != 1:
                        for a, x in mm:
                            stack.append((("i", a, Poly.a(a)), e * x))
                        if co != 1:
                            stack.append((("i", str(co), Poly.c(co)), e))
                        continue
                    k = ("i", repr(p), p)
                else:
                    g = None
                    n = self.gen_order(m)
                    if n is not None:
                        g = exact_div(p - 1, n)
                    if g is not None:
                        stack.append(("G", g * e))
                        continue
                    k = ("i", repr(p), p)
                if isinstance(k, tuple) and len(p.d) == 1:
                    a = list(p.atoms())
                    if len(a) == 1 and a[0] in self.ringof:
                        f = self.project(self.ringof[a[0]], m)
                        if f is not None:
                            for k2, e2 in f.b.items():
                                stack.append((k2, e2 * e))
                            continue
            b[k] = b.get(k, Poly({})) + e
        # cancellations between polynomials
        changed = True
        while changed:
            changed = False
            negs = [(k, e) for k, e in b.items() if isinstance(k, tuple) and k[0] == "i" and (e.const() or 0) < 0]
            for k, e in negs:
                for k2, e2 in list(b.items()):
                    if k2 != k and isinstance(k2, tuple) and k2[0] == "i" and (e2.const() or 0) > 0:
                        q = exact_div(k2[2], k[2])
                        if q is not None and q.d:
                            b2 = dict(b)
                            b2[k2] = e2 - 1
                            b2[k] = e + 1
                            kk = ("i", repr(q), q)
                            b2[kk] = b2.get(kk, Poly({})) + 1
                            b = {x: y for x, y in b2.items() if y.d}
                            changed = True
                            break
                if changed:
                    break
        n = self.gen_order(m)
        if n is not None and self.ringof:
            # x = y modulo n makes x^n = y^n modulo n^2
            again = {}
            for k in list(b):
                if not (isinstance(k, tuple) and k[0] == "i" and b[k].d):
                    continue
                if len(k[2].d) > 1:
                    p = self.reduce_ring(k[2], n)
                    if p != k[2] and len(p.d) < len(k[2].d) and exact_div(b[k], n) is not None:
                        e = b.pop(k)
                        k = ("i", repr(p), p)
                        again[k] = again.get(k, Poly({})) + e
                    continue
                if len(k[2].d) == 1:
                    a = list(k[2].atoms())
                    f = self.ringof.get(a[0]) if len(a) == 1 and k[2] == Poly.a(a[0]) else None
                    if f is not None and f.m == n and b[k].d and exact_div(b[k], n) is not None:
                        e = b.pop(k)
                        for k2, e2 in f.b.items():
                            again[k2] = again.get(k2, Poly({})) + e2 * e
            if again:
                for k, e in again.items():
                    b[k] = b.get(k, Poly({})) + e
                return self.mk(b, m)
        r = {}
        for k, e in b.items():
            e = self.norm_exp(e, k, m)
            if e.d:
                r[k] = e
        return FP(r, m)

    def project(self, f, m):
        """A residue modulo f.m seen modulo m, when m divides f.m."""
        if f.m == m:
            return f
        if exact_div(f.m, m) is None:
            return None
        b = {k: e for k, e in f.b.items() if not (k == "G" and self.gen_order(f.m) == m)}
        if any(k == "G" for k in b):
            return None
        return self.mk(b, m)

    def as_poly(self, f):
        """The residue as an integer polynomial, if it is one."""
        r = Poly.c(1)
        for k, e in f.b.items():
            c = e.const()
            if k == "-1":
                if c is None:
                    return None
                r = -r if c % 2 else r
            elif k == "G":
                n = self.gen_order(f.m)
                r = r * (1 + e * n)
            elif k[0] == "i":
                if c is None or c < 0 or c > 4:
                    return None
                r = r * k[2] ** c
            else:
                return None
            if len(r.d) > 60:
                return None
        return self.reduce_ring(r, f.m)

    def from_poly(self, p, m):
        return self.mk({("i", repr(p), p): Poly.c(1)}, m)

    def fmul(self, a, b, m):
        d = dict(a.b)
        for k, e in b.b.items():
            d[k] = d.get(k, Poly({})) + e
        return self.mk(d, m)

    def fpow(self, a, e):
        return self.mk({k: x * e for k, x in a.b.items()}, a.m)

    def expand(self, p, m):
        """A polynomial modulo m, with the residues that its monomials stand for in place of their names."""
        r = Poly({})
        for mm, c in p.d.items():
            t = Poly({mm: 1})
            y = self.as_poly(self.from_poly(t, m)) if mm else None
            r = r + (t if y is None else y) * c
        return self.reduce_ring(r, m)

    def fadd(self, a, b, sign, m, concrete, args=None):
        x, y = self.as_poly(a), self.as_poly(b)
        if args is not None and sign < 0 and a.key() == b.key():
            return self.from_poly(Poly({}), m)
        if args is not None and (x is None or y is None) and not any(k == "G" for f in (a, b) for k in f.b):
            # a residue without a polynomial goes by the name of its canonical integer
            x = self.ret_value(a, args[0], "sum") if x is None else x
            y = self.ret_value(b, args[1], "sum") if y is None else y
        if x is not None and y is not None:
            return self.from_poly(self.reduce_ring(x + y * sign, m), m)
        if sign < 0 and a.key() == b.key():
            return self.from_poly(Poly({}), m)
        key = ("sum", sign, a.key(), b.key()) if sign < 0 or a.key() <= b.key() else ("sum", sign, b.key(), a.key())
        return self.mk({("o", "sum%x" % (hash(key) & 0xffffffff), key): Poly.c(1)}, m)

    def meq_key(self, a, b):
        """The relation a == b as a canonical key (empty tuple: identically true)."""
        inv = {k: -e for k, e in b.b.items()}
        d = dict(a.b)
        for k, e in inv.items():
            d[k] = d.get(k, Poly({})) + e
        f = self.mk(d, a.m)
        if not f.b:
            return ()
        k1 = f.key()
        k2 = self.fpow(f, -1).key()
        return ("meq",) + min(k1, k2)

    def ret_value(self, f, value, src):
        """The canonical integer of a residue."""
        p = self.as_poly(f)
        if p is not None:
            return self.quo(p, f.m, src)
        lo, hi = self.interval(f.m)
        a, fresh = self.cons_atom("r", f.key(), value, 0, hi - 1 if hi < INF else None)
        if fresh:
            self.ringof[a.key()[0][0][0][0]] = f
            self.facts.append(Cond("ge0", f.m - a - 1))
        return a

    # ---- scalars
    def smod(self, p):
        return p.mod(ORDER)

    # ---- points
    def pcomb(self, a, b, s):
        d = dict(a)
        for k, e in b.items():
            d[k] = self.smod(d.get(k, Poly({})) + e * s)
        return {k: e for k, e in d.items() if e.d}

    # ---- the log
    def interp(self, lines):
        for l in lines:
            k = l[0]
            if k == "N":
                self.node(l)
            elif k == "E":
                self.event(l)
            elif k == "B":
                _, n, nid, r = l.split()
                self.bits.append((int(n), int(nid), int(r), len(self.pc)))
            elif k == "O":
                f = l.split(" ", 3)
                nid, ex = int(f[2]), f[3] if len(f) > 3 else ""
                if nid == 0 and ex.startswith("0x"):
                    # a value the recorder does not track: its bytes
                    nid = "=" + f[1]
                    self.conc[nid] = int(ex, 16)
                    self.val[nid] = ("u", Poly.c(int(ex, 16)), 4 * (len(ex) - 2))
                    self.ty[nid] = "u"
                self.out[f[1]] = (nid, ex)
            elif k == "T":
                f = l.split(" ")
                self.tr.append((f[2] == "1", f[3], f[4].split(",")))
            elif k == "D":
                self.shown.append(int(l.split()[1]))
            elif k == "R":
                f = l.split(" ")
                self.reads.append((int(f[1]), f[2]))

    def u(self, n):
        v = self.val[n]
        if v[0] == "u":
            return v
        raise Undecided("node %d is not an integer: %r" % (n, v))

    def ex(self, n, src=""):
        v = self.u(n)
        p = self.exact(v, src)
        if p is not v[1]:
            self.val[n] = ("u", p, v[2])
        return p

    def opaque_u(self, op, args, value, w):
        key = (op, tuple(self.val[a][1].key() if self.val[a][0] in "us" else repr(self.val[a][1]) for a in args))
        a, _ = self.cons_atom("o_" + op, key, value, 0, (1 << w) - 1)
        self.st.count("opaque:" + op)
        return a

    def node(self, l):
        f = l.split(" ")
        nid, op, ty = int(f[1]), f[2], f[3]
        args = [int(x) for x in f[4].split(",")] if f[4] != "-" else []
        hexv = f[5]
        extra = f[6] if len(f) > 6 else ""
        self.ty[nid] = ty
        if ty == "p":
            self.conc[nid] = hexv
            self.val[nid] = ("p", self.pnode(op, args, hexv, extra))
            return
        value = int(hexv, 16)
        self.conc[nid] = value
        if ty == "s":
            self.val[nid] = ("s", self.snode(op, args, value, extra))
            chk = self.val[nid][1].ev(self.env) % ORDER
            assert chk == value, ("scalar term does not evaluate to the concrete value", l)
            return
        if ty[0] == "m":
            m = self.ex(int(ty[1:]))
            self.val[nid] = ("m", self.mnode(op, args, value, extra, m))
            return
        w = int(ty[1:]) if len(ty) > 1 else None
        self.val[nid] = self.unode(op, args, value, extra, w)
        p = self.val[nid][1]
        v = p.ev(self.env)
        if w is not None:
            v %= 1 << w
        assert v == value, ("integer term does not evaluate to the concrete value", l, repr(p))

    def unode(self, op, args, value, extra, w):
        src = op
        if op == "const":
            return ("u", Poly.c(value), w)
        if op in ("var", "rand", "randbits"):
            name = extra
            if op == "var" and name in self.bind:
                return ("u", self.bind[name], w)
            if op == "var" and name not in self.env and getattr(self, "untracked", "") == "const":
                self.st.count("constants from untracked bytes")
                nm = getattr(self, "named", {}).get(value)
                return ("u", Poly.c(value) if nm is None else nm, w)
            if name not in self.env:
                lo, hi = self.in_ranges.get(name, (0, None))
                if hi is None:
                    if op == "rand":
                        m = self.ex(args[0])
                        h = self.interval(m)[1]
                        hi = h - 1 if h < INF else None
                    elif w:
                        hi = (1 << w) - 1
                self.atom(name, value, lo, hi)
                if op == "rand":
                    self.facts.append(Cond("ge0", self.ex(args[0]) - Poly.a(name) - 1))
            assert self.env[name] == value, (name, self.env[name], value)
            return ("u", Poly.a(name), w)
        if op == "ext":
            return ("u", self.ex(args[0], src), w)
        if op == "ofs":
            p = self.val[args[0]][1]
            return ("u", self.quo(p, Poly.c(ORDER), "ofs"), w)
        if op == "ret":
            return ("u", self.ret_value(self.val[args[0]][1], value, "ret"), w)
        if op in ("add", "sub", "mul", "neg", "not", "shl"):
            a = self.u(args[0])[1]
            if op == "neg":
                r = -a
            elif op == "not":
                r = -1 - a
            elif op == "shl":
                s = int(extra)
                r = a * (1 << s) if s < w else Poly({})
            else:
                b = self.u(args[1])[1]
                r = a + b if op == "add" else a - b if op == "sub" else a * b
            # keep the numbers small: a constant multiple of 2^w is nothing
            if () in r.d and r.d[()] >= 1 << (w + 1):
                r = r - ((r.d[()] >> w) << w)
            if any(mm and abs(c) > 1 << (w - 1) for mm, c in r.d.items()):
                half = 1 << (w - 1)
                d = {}
                for mm, c in r.d.items():
                    if mm and abs(c) > half:
                        c = (c + half) % (1 << w) - half
                    if c:
                        d[mm] = c
                r = Poly(d)
            return ("u", r, w)
        if op == "mulw":
            return ("u", self.ex(args[0], src) * self.ex(args[1], src), w)
        if op == "shr":
            s = int(extra)
            a = self.ex(args[0], src)
            if s >= (w or 0) and w:
                return ("u", Poly.c(0), w)
            return ("u", self.div(a, Poly.c(1 << s), "shr"), w)
        if op == "div":
            return ("u", self.div(self.ex(args[0], src), self.ex(args[1], src), "div"), w)
        if op == "rem":
            return ("u", self.quo(self.ex(args[0], src), self.ex(args[1], src), "rem"), w)
        if op in ("addm", "subm", "mulm"):
            a, b, m = (self.ex(x, src) for x in args)
            r = a + b if op == "addm" else a - b if op == "subm" else a * b
            return ("u", self.quo(r, m, op), w)
        if op in ("and", "or", "xor"):
            x, y = self.u(args[0]), self.u(args[1])
            for p, q, qn in ((x, y, args[1]), (y, x, args[0])):
                c = p[1].const()
                if c is None:
                    continue
                c %= 1 << w
                if op == "and":
                    if c == 0:
                        return ("u", Poly.c(0), w)
                    if (c & (c + 1)) == 0:
                        n = c.bit_length()
                        if n == w:
                            return q
                        return ("u", self.quo(self.ex(qn, src), Poly.c(1 << n), "and", concretize=False), w)
                    top = (1 << w) - c
                    if (top & (top - 1)) == 0:
                        # the high bits: the value less its low bits
                        v = self.ex(qn, src)
                        return ("u", v - self.quo(v, Poly.c(top), "and", concretize=False), w)
                if op in ("or", "xor") and c == 0:
                    return q
            return ("u", self.opaque_u(op, args, value, w), w)
        if op == "invm":
            a, m = self.ex(args[0]), self.ex(args[1])
            i, fresh = self.cons_atom("inv", (a.key(), m.key()), value, 0, self.hi(m))
            if fresh:
                mv = m.ev(self.env)
                k, _ = self.cons_atom("invk", (a.key(), m.key()), (value * a.ev(self.env) - 1) // mv, None, None)
                self.facts.append(Cond("eq0", i * a - 1 - k * m))
                self.facts.append(Cond("ge0", m - i - 1))
                self.invs = getattr(self, "invs", [])
                self.invs.append((i, a, k, m))
                la = self.lead(a)
                red = divmod_poly(a, m)[1]
                if red.d:
                    # the same relation with `a` reduced modulo m, for exponents taken modulo m
                    lm = max(red.d, key=mono_rank)
                    if abs(red.d[lm]) == 1:
                        rest = red - Poly({lm: red.d[lm]})
                        self.ordrules = getattr(self, "ordrules", [])
                        self.ordrules.append((m.key(), mono_mul(i.key()[0][0], lm), (1 - i * rest) * red.d[lm]))
                if la is not None:
                    self.rules.append((mono_mul(i.key()[0][0], la), 1 + k * m))
            return ("u", i, w)
        if op == "xcoord":
            d = self.val[args[0]][1]
            # a point and its negative have the same abscissa
            key = min(tuple(sorted((k, e.key()) for k, e in x.items())) for x in (
                {k: self.snorm(e) for k, e in d.items()}, {k: self.snorm(-e) for k, e in d.items()}))
            a, _ = self.cons_atom("xc", key, value, 0, (1 << 64) - 1)
            return ("u", a, w)
        if op in ("gcd", "sqrt"):
            return ("u", self.opaque_u(op, args, value, w), w)
        raise Undecided("integer operation %s" % op)

    def hi(self, m):
        h = self.interval(m)[1]
        return h - 1 if h < INF else None

    def lead(self, p):
        return list(p.d)[0] if len(p.d) == 1 and list(p.d.values())[0] == 1 else None

    def qbounds(self, a, m):
        """Bounds of the floor of a / m for a positive m."""
        lo, hi = self.interval(a)
        ml, mh = self.interval(m)
        if ml <= 0:
            return (0 if lo >= 0 else None), (None if hi >= INF else max(hi, 0))
        ql = None if lo <= -INF else (lo // mh if lo >= 0 and mh < INF else 0 if lo >= 0 else lo // ml)
        qh = None if hi >= INF else (hi // ml if hi >= 0 else -1)
        return ql, qh

    def div(self, a, m, src):
        q = exact_div(a, m)
        mc = m.const()
        if q is not None:
            return q
        av, mv = a.ev(self.env), m.ev(self.env)
        lo, hi = self.interval(a)
        ql, qh = self.qbounds(a, m)
        if ql is not None and ql == qh:
            return Poly.c(ql)
        if mc is not None and mc > 0:
            # a multiple of m plus a rest of known quotient
            whole = Poly({k: c - c % mc for k, c in a.d.items() if c - c % mc})
            if whole.d:
                rl, rh = self.qbounds(a - whole, m)
                if rl is not None and rl == rh:
                    return Poly({k: c // mc for k, c in whole.d.items()}) + rl
        qa, fresh = self.cons_atom("q", (a.key(), m.key()), av // mv, ql, qh)
        if fresh:
            self.facts.append(Cond("ge0", a - m * qa))
            self.facts.append(Cond("ge0", m - (a - m * qa) - 1))
        return qa

    def mnode(self, op, args, value, extra, m):
        if op == "const":
            mv = m.ev(self.env)
            v = value - mv if value > mv // 2 else value
            return self.from_poly(Poly.c(v), m)
        if op == "new":
            return self.from_poly(self.ex(args[0], "new"), m)
        a = self.val[args[0]][1]
        if op in ("pow", "powtrunc"):
            e = self.ex(args[1], "pow")
            if op == "powtrunc":
                n = int(extra)
                e = self.quo(e, Poly.c(1 << n), "powtrunc", concretize=False)
            return self.fpow(a, e)
        if op == "inv":
            return self.fpow(a, Poly.c(-1))
        if op == "sq":
            return self.fpow(a, Poly.c(2))
        if op == "neg":
            p = self.as_poly(a)
            if p is not None and not any(k == "G" for k in a.b):
                return self.from_poly(-p, m)
            return self.fmul(a, FP({"-1": Poly.c(1)}, m), m)
        if op == "half":
            return self.mk({("o", "half%x" % (hash(a.key()) & 0xffffffff), ("half", a.key())): Poly.c(1)}, m)
        b = self.val[args[1]][1]
        if op == "mul":
            return self.fmul(a, b, m)
        return self.fadd(a, b, 1 if op == "add" else -1, m, value, (self.conc[args[0]], self.conc[args[1]]))

    def snode(self, op, args, value, extra):
        if op == "const":
            return Poly.c(value)
        if op in ("var", "srand", "hash"):
            if op == "var" and extra in self.bind:
                return self.bind[extra]
            if extra not in self.env:
                lo, hi = self.in_ranges.get(extra, (0, ORDER - 1))
                self.atom(extra, value, lo, hi)
            return Poly.a(extra)
        if op == "sof":
            return self.smod(self.ex(args[0], "sof"))
        x = self.val[args[0]][1]
        if op == "neg":
            return self.smod(-x)
        if op == "inv":
            c = x.const()
            if c is not None:
                return Poly.c(pow(c, -1, ORDER)).mod(ORDER)
            a, fresh = self.cons_atom("sinv", x.key(), value, 0, ORDER - 1)
            if fresh:
                self.sinv = getattr(self, "sinv", {})
                self.sinv[list(a.atoms())[0]] = x
            return a
        y = self.val[args[1]][1]
        r = x + y if op == "add" else x - y if op == "sub" else x * y
        return self.snorm(r)

    def snorm(self, r):
        """Scalars modulo the order and modulo x * inv(x) = 1."""
        r = self.smod(r)
        for a, x in getattr(self, "sinv", {}).items():
            if not any(a == n for mm in r.d for n, _ in mm):
                continue
            lm = max(x.d, key=mono_rank)
            lead = mono_mul(lm, ((a, 1),))
            lc = pow(x.d[lm], -1, ORDER)
            rest = Poly({k: v for k, v in x.d.items() if k != lm})
            for _ in range(6):
                hit = False
                d = Poly({})
                for mm, c in r.d.items():
                    t = mono_div(mm, lead)
                    if t is None:
                        d = d + Poly({mm: c})
                    else:
                        hit = True
                        d = d + Poly({t: c * lc % ORDER}) * (1 - rest * Poly.a(a))
                r = self.smod(d)
                if not hit:
                    break
        return r

    def szero(self, r):
        """Whether the scalar is zero whenever the inverses it is made of exist: the denominators are cleared."""
        r = self.snorm(r)
        for a, x in reversed(list(getattr(self, "sinv", {}).items())):
            deg = max([e for mm in r.d for n, e in mm if n == a] or [0])
            if not deg:
                continue
            pw = [Poly.c(1)]
            for _ in range(deg):
                pw.append(self.smod(pw[-1] * x))
            out = Poly({})
            for mm, c in r.d.items():
                k = sum(e for n, e in mm if n == a)
                out = out + Poly({tuple((n, e) for n, e in mm if n != a): c}) * pw[deg - k]
            r = self.smod(out)
        return not r.d

    def pnode(self, op, args, hexv, extra):
        if op == "gen":
            return {"G": Poly.c(1)}
        if op == "const":
            if hexv in ("0", ""):
                return {}
            return {"pt:" + hexv: Poly.c(1)}
        if op == "var":
            if extra in self.dlog:
                return dict(self.dlog[extra])
            return {extra: Poly.c(1)}
        a = self.val[args[0]][1]
        if op == "pneg":
            return self.pcomb({}, a, -1)
        if op == "pmul":
            s = self.val[args[1]][1]
            r = {k: self.snorm(e * s) for k, e in a.items()}
            return {k: e for k, e in r.items() if e.d}
        b = self.val[args[1]][1]
        r = self.pcomb(a, b, 1 if op == "padd" else -1)
        return {k: e for k, e in ((k, self.snorm(e)) for k, e in r.items()) if e.d}

    # ---- events
    def event(self, l):
        f = l.split(" ")
        kind = f[1]
        args = [int(x) for x in f[2].split(",")]
        res = f[3] == "1"
        extra = f[4] if len(f) > 4 else ""
        src = kind
        if kind == "limbs":
            self.st.count("limb accesses")
            return
        if kind in ("eq", "lt"):
            a, b = self.ex(args[0], src), self.ex(args[1], src)
            c = Cond("eq0", a - b, res, src) if kind == "eq" else Cond("ge0", b - a - 1, res, src)
        elif kind == "bit":
            i = int(extra)
            a = self.ex(args[0], src)
            w = self.u(args[0])[2]
            if w and i == w - 1:
                c = Cond("ge0", a - (1 << i), res, src)
            else:
                h = self.div(a, Poly.c(1 << i), "bit")
                b = self.quo(h, Poly.c(2), "bit", concretize=False)
                c = Cond("ge0", b - 1, res, src)
        elif kind in ("addok", "mulok"):
            a, b = self.ex(args[0], src), self.ex(args[1], src)
            r = a + b if kind == "addok" else a * b
            c = Cond("ge0", ((1 << int(extra)) - 1) - r, res, src)
        elif kind == "subok":
            a, b = self.ex(args[0], src), self.ex(args[1], src)
            c = Cond("ge0", a - b, res, src)
        elif kind == "nonzero":
            c = Cond("eq0", self.ex(args[0], src), not res, src)
        elif kind == "fits":
            c = Cond("ge0", ((1 << int(extra)) - 1) - self.ex(args[0], src), res, src)
        elif kind == "srange":
            c = Cond("ge0", ORDER - 1 - self.ex(args[0], src), res, src)
        elif kind in ("seq", "shigh", "slt", "sodd"):
            a = self.val[args[0]][1]
            if kind == "seq":
                d = self.snorm(a - self.val[args[1]][1])
                if d.const() is not None:
                    return
                if res and self.szero(d):
                    return
                c = self.mod_zero(d, ORDER, res, "seq")
            elif kind == "shigh":
                c = Cond("ge0", self.quo(a, Poly.c(ORDER), "shigh") - (ORDER // 2) - 1, res, src)
            elif kind == "slt":
                x, y = (self.quo(self.val[n][1], Poly.c(ORDER), "slt") for n in args)
                c = Cond("ge0", y - x - 1, res, src)
            else:
                b = self.quo(self.quo(a, Poly.c(ORDER), "sodd"), Poly.c(2), "sodd", concretize=False)
                c = Cond("ge0", b - 1, res, src)
        elif kind == "peq":
            d = self.pcomb(self.val[args[0]][1], self.val[args[1]][1], -1)
            d = {k: v for k, v in ((k, self.snorm(v)) for k, v in d.items()) if v.d}
            if not d or all(self.szero(v) for v in d.values()):
                assert res
                return
            if set(d) == {"G"}:
                c = self.mod_zero(d["G"], ORDER, res, "peq")
            else:
                c = Cond("op", None, res, "peq", self.peq_key(d))
        elif kind == "yodd":
            c = Cond("op", None, res, "yodd", ("yodd", tuple(sorted((k, e.key()) for k, e in self.val[args[0]][1].items()))))
        elif kind == "meq":
            k = self.meq_key(self.val[args[0]][1], self.val[args[1]][1])
            if k == ():
                assert res, "residues with equal terms compare different: %s" % l
                return
            c = Cond("op", None, res, "meq", k)
        elif kind == "unit":
            a = self.val[args[0]][1]
            c = Cond("op", None, res, "unit", ("unit",) + a.key())
        elif kind == "coprime":
            a, b = self.ex(args[0]), self.ex(args[1])
            c = Cond("op", None, res, "coprime", ("coprime", a.key(), b.key()))
        else:
            raise Undecided("event %s" % kind)
        if c.kind != "op":
            if c.p.const() is not None:
                return
            assert self.cond_val(c), ("event contradicts its term", l, repr(c))
        self.add_pc(c)

    def peq_key(self, d):
        k0 = sorted(d)[0]
        if d[k0].const() is not None:
            iv = pow(d[k0].const(), -1, ORDER)
            d = {k: (v * iv).mod(ORDER) for k, v in d.items()}
        else:
            neg = {k: (-v).mod(ORDER) for k, v in d.items()}
            d = min(d, neg, key=lambda x: tuple(sorted((k, v.key()) for k, v in x.items())))
        return ("peq", tuple(sorted((k, v.key()) for k, v in d.items())))

    def mod_zero(self, d, n, res, src):
        """d == 0 mod n, as a condition over the exact remainder."""
        r = self.quo(d, Poly.c(n), src)
        return Cond("eq0", r, res, src)


def _mul(a, b):
    return a * b
