"""Engine S: runs scenarios of the tracked instantiation, explores their paths with z3, proves goals on every path."""
import hashlib
import importlib
import multiprocessing
import json
import os
import random
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import sym_build  # noqa: E402
from symx import Poly, Cond, Engine, FP, Stats, State, ORDER, Undecided  # noqa: E402

VERIF = os.path.dirname(HERE)


def hx(v, n=None):
    s = format(v, "x")
    if len(s) % 2:
        s = "0" + s
    return s.zfill(2 * n) if n else s


def jint(v, limbs):
    """A plain integer of so many limbs."""
    return hx(v, 8 * limbs)


def jsc(v):
    return "0x" + hx(v, 24)


def jsigned(v, bound, limbs):
    n = 8 * limbs
    return dict(bound=bound, is_negative=v < 0, abs_bytes="0x" + hx(abs(v), n))


class In:
    """A symbolic input: a magnitude in [lo, hi], with a sign if `signed`."""

    def __init__(self, name, kind="u", lo=0, hi=None, signed=False, role="var", typ=None):
        self.typ = typ      # values are first chosen up to here
        self.name, self.kind, self.lo, self.hi, self.signed, self.role = name, kind, lo, hi, signed, role


class Goal:
    def __init__(self, name, prove, check, want="", got=""):
        self.name, self.prove, self.check, self.want, self.got = name, prove, check, want, got


def fp(st, bases, m):
    """A residue as a product of (Poly base or int, Poly exponent), through the normalizer."""
    b = {}
    for base, e in bases:
        base = base if isinstance(base, Poly) else Poly.c(base)
        e = e if isinstance(e, Poly) else Poly.c(e)
        k = ("i", repr(base), base)
        b[k] = b.get(k, Poly({})) + e
    return st.mk(b, m)


def fp_conc(bases, env, m):
    r = 1
    for base, e in bases:
        bv = base.ev(env) if isinstance(base, Poly) else base
        ev = e.ev(env) if isinstance(e, Poly) else e
        r = r * pow(bv, ev, m) % m
    return r


def g_int(st, name, node, spec, width=None):
    """The integer node has exactly this value (modulo 2^width: two's complement)."""
    conc = st.conc[node]
    w = width or st.val[node][2]

    def check():
        v = spec.ev(st.env)
        return conc == (v % (1 << w) if w else v)

    def prove():
        p = st.val[node][1]
        d = p - spec
        if w and not d.mod(1 << w).d:
            return True
        if not d.d:
            return True
        k = d.ev(st.env) >> w if w else 0
        return st.implied(Cond("eq0", d - (k << w if w else 0)), use_pc=st.pc)
    return Goal(name, prove, check, lambda: "%x" % (spec.ev(st.env) % (1 << w) if w else spec.ev(st.env)),
                lambda: "%x" % conc)


def g_signed(st, name, node, spec):
    return g_int(st, name, node, spec)


def g_res(st, name, node, bases, m):
    """The node (a residue, or the canonical integer of one) equals the product of powers modulo m."""
    conc = st.conc[node]

    def check():
        mv = m.ev(st.env)
        return conc % mv == fp_conc(bases, st.env, mv) and conc < mv

    def prove():
        f = fp(st, bases, m)
        v = st.val[node]
        if v[0] == "m":
            g = v[1]
        else:
            p = v[1]
            if st.ty.get(node, "")[0] == "m":
                return False
            g = st.from_poly(p, m)
            # canonical: below the modulus
            if not (st.implied(Cond("ge0", m - p - 1), use_pc=st.pc) and st.implied(Cond("ge0", p), use_pc=st.pc)):
                return False
        return g.m == m and st.meq_key(g, f) == ()
    return Goal(name, prove, check, lambda: "%x" % fp_conc(bases, st.env, m.ev(st.env)), lambda: "%x" % conc)


def g_scalar(st, name, node, spec):
    conc = st.conc[node]

    def check():
        return conc == spec.ev(st.env) % ORDER

    def prove():
        v = st.val[node]
        return st.szero(v[1] - spec)
    return Goal(name, prove, check, lambda: "%x" % (spec.ev(st.env) % ORDER), lambda: "%x" % conc)


def g_conds(st, name, conds):
    def check():
        return all(st.cond_val(c) for c in conds)

    def prove():
        return all(st.implied(c, use_pc=st.pc) for c in conds)
    return Goal(name, prove, check, lambda: repr(conds)[:300], lambda: "violated")


def g_eq(st, name, got, want):
    """A concrete fact that must hold on every path."""
    return Goal(name, lambda: True, lambda: got == want, lambda: repr(want), lambda: repr(got))


def g_point(st, name, node, spec):
    """spec: dict base -> Poly"""
    def norm(d):
        return {k: v for k, v in ((k, st.snorm(v)) for k, v in d.items()) if v.d}

    def prove():
        d = st.pcomb(st.val[node][1], spec, -1)
        return not norm(d)
    return Goal(name, prove, lambda: True, lambda: repr(spec), lambda: repr(st.val[node][1]))


class Violation(Exception):
    def __init__(self, name, desc, extra=None):
        self.name, self.desc, self.extra = name, desc, extra or {}


class Job:
    """One scenario with symbolic inputs.  Subclasses define ins, args, goals."""
    name = "?"
    scenario = "?"
    ins = []
    max_paths = 24
    follow = True            # look for the other paths
    max_flips = 4000
    consts = {}
    drawn = {}               # the numbers the code gives to the draws, where they differ from those in ins

    def bounds(self, v):
        """The bounds of the draws, by which they are recognized (draws of one bound: by their order)."""
        return {}

    def args(self, v):
        raise NotImplementedError

    def inputs(self, v):
        return {}

    def oracle(self, v):
        return []

    def setup(self, st, v):
        pass

    def goals(self, st, V, v):
        return []

    def panic_goals(self, st, V, v, where):
        """What must hold where the code panics; None: it must not panic."""
        return None

    def derive(self, v):
        """Completes values changed by the exploration."""
        return v

    def seeds(self, rnd):
        """Initial values: all positive, all negative, each one flipped."""
        sg = [i.name for i in self.ins if i.signed]
        combos = [{n: 1 for n in sg}]
        if sg:
            combos.append({n: -1 for n in sg})
            if len(sg) > 1:
                combos += [{n: (-1 if n == x else 1) for n in sg} for x in sg]
        out = []
        for c in combos:
            v = {}
            for i in self.ins:
                hi = i.hi if i.hi is not None else 1 << 64
                m = rnd.randrange(max(i.lo, hi >> 2), hi + 1)
                v[i.name] = m * c.get(i.name, 1)
            out.append(v)
        return out

    def feasible(self, v):
        return True

    def untracked_values(self, v):
        return {ORDER}


class Runner:
    def __init__(self, prop, tier, binary, limit, engine=True):
        self.prop, self.tier = prop, tier
        self.runs = 0
        if engine:
            self.eng = Engine(binary)
        self.stats = Stats()
        self.violations = []
        self.undecided = []
        self.jobs = []
        self.deadline = time.time() + limit
        self.rnd = random.Random(20241119)
        self.ops = {}
        self.consts = set()

    def request(self, job, v):
        vars_ = []
        for i in job.ins:
            if i.role == "var":
                n = 24 if i.kind == "s" else None
                if i.kind == "p":
                    vars_.append([i.name, "p", job.point(v, i.name)])
                    continue
                vars_.append([i.name, i.kind, hx(abs(v[i.name]), n)])
        inputs = {job.drawn.get(i.name, i.name): hx(abs(v[i.name])) for i in job.ins if i.role == "draw"}
        inputs.update(job.inputs(v))
        return dict(scenario=job.scenario, vars=vars_, inputs=inputs, oracle=job.oracle(v), args=job.args(v), seed=v.get("_seed", 1))

    def violation(self, name, desc, req, extra=None):
        os.makedirs(os.path.join(VERIF, "build", "replay"), exist_ok=True)
        p = os.path.join(VERIF, "build", "replay", "%s-%s.json" % (self.prop, name.replace("/", "_").replace(":", "_")))
        json.dump(dict(property=self.prop, violation=name, what=desc, request=req, binary=self.eng_path,
                       how="the request, one line on the standard input of the binary, replays the run",
                       **(extra or {})), open(p, "w"), indent=1)
        if name not in [x[0] for x in self.violations]:
            self.violations.append((name, desc, p))

    def state(self, job, v):
        rng = {i.name: (i.lo, i.hi) for i in job.ins}
        env = {i.name: abs(v[i.name]) for i in job.ins}
        st = State(self.stats, env, ranges=rng, late=[i.name for i in job.ins if i.role != "var"])
        st.squares = {}
        st.untracked = "const"
        for k, x in job.consts.items():
            st.bind[k] = Poly.c(x)
        job.setup(st, v)
        return st

    def tracked(self, job, v):
        if hasattr(job, "tracked"):
            return job.tracked(v)
        vs = [abs(v[i.name]) for i in job.ins]
        return all(x >= 1 << 32 for x in vs) and len(set(vs)) == len(vs) and not (set(vs) & job.untracked_values(v))

    def execute(self, job, v):
        req = self.request(job, v)
        log, end = self.eng.run(req)
        if job.drawn:
            back = {x: k for k, x in job.drawn.items()}
            for k, l in enumerate(log):
                f = l.split(" ")
                if f[0] == "N" and f[2] == "rand" and len(f) > 6:
                    log[k] = " ".join(f[:6] + [back.get(f[6], f[6])] + f[7:])
        return req, log, end

    def probe(self, job, v):
        """Recognizes the draws of a job by their bounds."""
        want = job.bounds(v)
        if not want:
            return
        ins, job.ins = job.ins, [i for i in job.ins if i.role != "draw"]
        try:
            _, log, end = self.execute(job, v)
        except RuntimeError:
            return
        finally:
            job.ins = ins
        conc, have = {}, []
        for l in log:
            f = l.split(" ")
            if f[0] == "N" and f[3] != "p":
                conc[f[1]] = f[5]
                if f[2] == "rand" and len(f) > 6:
                    a = conc.get(f[4].split(",")[0])
                    have.append((f[6], int(a, 16) if a else None))
        names = [n for n, _ in have]
        free = list(have)
        drawn = {}
        for n, m in want.items():
            k = next((k for k, x in enumerate(free) if x[1] == m), None)
            if k is None:
                return
            drawn[n] = free.pop(k)[0]
        # the others keep their numbers as far as possible
        rest = [i.name for i in ins if i.role == "draw" and i.name not in drawn]
        if any(n in drawn.values() for n in rest) or any(n not in names for n in want):
            return
        # a renaming of all draws of the run
        left = [n for n in names if n not in drawn]
        right = [n for n in names if n not in drawn.values()]
        drawn.update(zip(left, right))
        job.drawn = {k: x for k, x in drawn.items() if k != x}

    def sym(self, job, v):
        """Signed polynomials of the inputs."""
        return {i.name: Poly.a(i.name) * (1 if v[i.name] >= 0 else -1) for i in job.ins}

    def explore(self, job):
        t0 = time.time()
        rec = dict(job=job.name, scenario=job.scenario, paths=0, runs=0, goals=0, proved=0, closed=0, flips_sat=0,
                   flips_unknown=0, known_path=0, exhausted=True)
        self.jobs.append(rec)
        queue = [(v, None) for v in job.seeds(self.rnd)]
        seen, tried = set(), set()
        if queue:
            self.probe(job, queue[0][0])
        while queue:
            v, want = queue.pop(0)
            if rec["runs"] >= job.max_paths * 3 or rec["paths"] >= job.max_paths or time.time() > self.deadline:
                rec["exhausted"] = False
                break
            rec["runs"] += 1
            try:
                req, log, end = self.execute(job, v)
            except RuntimeError as e:
                self.violation(job.name + ":abort", "the code aborts the process: %s" % e, self.request(job, v))
                return
            if "NO-SCENARIO" in end:
                self.undecided.append("%s: the private constructor it needs is not as expected" % job.name)
                rec["exhausted"] = False
                return
            if "SCENARIO-INPUT" in end:
                if want is None:
                    raise RuntimeError("bad request in %s: %s" % (job.name, end))
                rec["outside_bounds"] = rec.get("outside_bounds", 0) + 1
                continue
            signs = tuple(v[i.name] >= 0 for i in job.ins if i.signed)
            st = self.state(job, v)
            try:
                st.interp(log)
            except Exception as e:  # noqa: BLE001
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                self.undecided.append("%s: %s: %s" % (job.name, type(e).__name__, str(e)[:300]))
                rec["exhausted"] = False
                # the concrete half of the specification is still checked
            self.count_ops(log)
            V = self.sym(job, v)
            panicked = end.startswith("panic")
            if panicked and job.panic_goals(st, V, v, end[6:]) is None:
                self.violation(job.name + ":panic", "panics at %s" % end[6:], req)
                rec["paths"] += 1
            else:
                try:
                    goals = job.panic_goals(st, V, v, end[6:]) if panicked else job.goals(st, V, v)
                except Violation as e:
                    self.violation(job.name + ":" + e.name, e.desc, req, e.extra)
                    continue
                except KeyError as e:
                    self.undecided.append("%s: the output %s is missing" % (job.name, e))
                    goals = []
                for g in goals:
                    if not g.check():
                        self.violation(job.name + ":" + g.name, "%s is %s, the specification gives %s" % (
                            g.name, g.got(), g.want()), req)
                if not self.tracked(job, v) or any(l[0] == "L" for l in log):
                    # values that the recorder cannot tell from program constants: the concrete run only
                    rec["concrete_only"] = rec.get("concrete_only", 0) + 1
                    continue
                sig = (signs, tuple((c.key, c.pol) for c in st.pc), tuple(sorted((k, x[1]) for k, x in st.out.items() if x[0] == 0)))
                h = hashlib.sha256(repr(sig).encode()).hexdigest()
                if h in seen:
                    if want is not None:
                        rec["known_path"] += 1
                    continue
                seen.add(h)
                rec["paths"] += 1
                if job.follow:
                    self.bitlens(job, v, st, log, end, rec)
                for g in goals:
                    rec["goals"] += 1
                    try:
                        ok = g.prove()
                    except Exception as e:  # noqa: BLE001
                        if os.environ.get("VERIF_DEBUG"):
                            traceback.print_exc()
                        ok = False
                    if ok:
                        rec["proved"] += 1
                    else:
                        self.undecided.append("%s: %s not proved on a path of %d conditions" % (job.name, g.name, len(st.pc)))
                        self.refute(job, v, st, g, queue)
            if job.follow:
                self.flips(job, v, st, signs, queue, tried, rec)
            else:
                rec["exhausted"] = False
        if getattr(job, "accepts", 1) == 0:
            self.undecided.append("%s: no run was accepted" % job.name)
        rec["seconds"] = round(time.time() - t0, 1)

    def bit_range(self, st, val, res, tight):
        """Bounds on the bit length of a node's value under the path condition."""
        p, w = val[1], val[2] or 4096
        lo, hi = st.interval(p)
        if lo < 0 or hi >= 1 << w:
            k = (p.ev(st.env)) >> w
            p = p - (k << w)
            lo, hi = st.interval(p)
            if not (st.implied(Cond("ge0", p), use_pc=st.pc) and st.implied(Cond("ge0", (1 << w) - 1 - p), use_pc=st.pc)):
                return 0, w, p
        lo = max(lo, 0)
        h = min(int(min(hi, (1 << w) - 1)).bit_length(), w)
        if not tight:
            return 0, h, p
        low, high = res, h
        if low < high and st.implied(Cond("ge0", (1 << low) - 1 - p), use_pc=st.pc):
            high = low
        while low < high:
            mid = (low + high) // 2
            if st.implied(Cond("ge0", (1 << mid) - 1 - p), use_pc=st.pc):
                high = mid
            else:
                low = mid + 1
        l = int(lo).bit_length()
        if l < res and st.implied(Cond("ge0", p - (1 << (res - 1))), use_pc=st.pc):
            l = res
        return l, high, p

    def bitlens(self, job, v, st, log, end, rec):
        """Bit-length queries: the run is repeated with the answers at the ends of their ranges; where that changes the
        run, the range for which it does not becomes a condition of the path."""
        if not st.bits:
            return
        rec["bit_length_queries"] = rec.get("bit_length_queries", 0) + len(st.bits)
        if self.bitruns(job, v, st, log, end, self.bit_groups(st, False)):
            return
        gs = self.bit_groups(st, True)
        if self.bitruns(job, v, st, log, end, gs):
            return
        conds = []
        for g in gs:
            for side in ("lo", "hi"):
                other = "hi" if side == "lo" else "lo"
                x, good = g[side], g["res"]
                if x == good or self.bit_same(job, v, log, end, [(g, x)]):
                    continue
                bad = x
                while abs(bad - good) > 1:
                    mid = (bad + good) // 2
                    if self.bit_same(job, v, log, end, [(g, mid)]):
                        good = mid
                    else:
                        bad = mid
                g[side] = good
                conds.append((g["at"], Cond("ge0", g["p"] - (1 << (good - 1)) if side == "lo" else (1 << good) - 1 - g["p"])))
        if not self.bitruns(job, v, st, log, end, gs):
            rec["bit_length_dependent"] = rec.get("bit_length_dependent", 0) + 1
            self.undecided.append("%s: a path depends on a bit length" % job.name)
            return
        rec["bit_length_conditions"] = rec.get("bit_length_conditions", 0) + len(conds)
        for at, c in sorted(conds, key=lambda x: -x[0]):
            st.pc.insert(at, c)
            st.pcset.add((c.key, c.pol))

    def bit_groups(self, st, tight):
        """The bit-length queries by the value they are about, with the range of the answer."""
        groups = {}
        for n, nid, res, at in st.bits:
            if st.val.get(nid, ("",))[0] != "u":
                continue
            k = (st.val[nid][1].key(), st.val[nid][2], res)
            if k not in groups:
                lo, hi, p = self.bit_range(st, st.val[nid], res, tight)
                groups[k] = dict(lo=lo, hi=hi, p=p, res=res, at=at, q=[])
            groups[k]["q"].append(n)
        return list(groups.values())

    def bit_same(self, job, v, log, end, answers):
        req = self.request(job, v)
        for g, x in answers:
            for n in g["q"]:
                req["inputs"]["bits%d" % n] = "%04x" % x
        log2, end2 = self.eng.run(req)

        def keep(l):
            return [x for x in l if x[0] != "B" and not x.startswith("E fits")]
        return end2 == end and keep(log2) == keep(log)

    def bitruns(self, job, v, st, log, end, gs):
        return all(self.bit_same(job, v, log, end, [(g, g[k]) for g in gs]) for k in ("lo", "hi"))

    def refute(self, job, v, st, g, queue):
        """Points of this path where an unproved goal might fail: tried concretely."""
        fixed = set(getattr(job, "fixed", ()))
        pts = []
        for c in getattr(g, "conds", ()):
            # a point of the path where the condition fails, from the solver
            def fix(x):
                p = x.p
                for n in fixed:
                    p = p.subst(n, Poly.c(st.env[n]))
                return Cond(x.kind, p, x.pol)
            base = [x for x in st.facts + st.pc if x.kind != "op"]
            rel = st.relevant(c.p.atoms(), base, 3)
            r, model = st.solve([fix(x) for x in rel + [c.neg()]], want_model=True)
            if model:
                w = dict(v)
                for i in job.ins:
                    if i.name in model and i.name not in fixed:
                        w[i.name] = model[i.name] * (1 if v[i.name] >= 0 else -1)
                pts.append(w)
        for _ in range(3):
            w = dict(v)
            for i in job.ins:
                if i.name in fixed:
                    continue
                hi = i.hi if i.hi is not None else 1 << 64
                w[i.name] = self.rnd.randrange(i.lo, hi + 1) * (1 if v[i.name] >= 0 else -1)
            pts.append(w)
        for w in pts:
            w = job.derive(w)
            if job.feasible(w):
                queue.append((w, None))

    def flips(self, job, v, st, signs, queue, tried, rec):
        names = {i.name for i in job.ins}
        for k, c in enumerate(st.pc):
            if c.kind == "op":
                continue
            if not (c.p.atoms() & self.closure(st, names)):
                continue
            prefix = (signs, tuple((x.key, x.pol) for x in st.pc[:k]), c.key, not c.pol)
            h = hashlib.sha256(repr(prefix).encode()).hexdigest()
            if h in tried:
                continue
            tried.add(h)
            if len(tried) > job.max_flips or time.time() > self.deadline:
                rec["exhausted"] = False
                return
            base = [x for x in st.facts + st.pc[:k] if x.kind != "op"]
            rel = st.relevant(c.p.atoms(), base, 3)
            if not (c.p.atoms() & names - set(getattr(job, "fixed", ()))) and not (c.p.atoms() & set(st.cons.values())):
                # a branch on the key alone: closed for every key, or left to the keys that are tried
                r, _ = st.solve(st.relevant(c.p.atoms(), base, 3) + [c.neg()])
                k2 = "closed" if r == "unsat" else "branches_on_the_key"
                rec[k2] = rec.get(k2, 0) + 1
                continue
            big = [Cond("ge0", Poly.a(i.name) - (1 << 32)) for i in job.ins
                   if i.name in c.p.atoms() or any(i.name in x.p.atoms() for x in rel)]
            r, model = st.solve(rel + big + [c.neg()], want_model=True)
            if r == "unsat" and big:
                r, model = st.solve(rel + [c.neg()], want_model=True)
            if r != "unsat" and getattr(job, "fixed", ()):
                # another path: looked for under this run's key
                def fix(x):
                    p = x.p
                    for n in job.fixed:
                        p = p.subst(n, Poly.c(st.env[n]))
                    return Cond(x.kind, p, x.pol)
                fx = [fix(x) for x in rel + [c.neg()]]
                r, model = st.solve(fx + big, want_model=True)
                if r == "unsat" and big:
                    r, model = st.solve(fx, want_model=True)
                if r == "unsat":
                    rec["closed_for_the_key"] = rec.get("closed_for_the_key", 0) + 1
                    continue
            if r == "unsat":
                rec["closed"] += 1
            elif model is None:
                rec["flips_unknown"] += 1
                rec["exhausted"] = False
            else:
                rec["flips_sat"] += 1
                w = dict(v)
                for n in names & set(model):
                    w[n] = model[n] * (1 if v[n] >= 0 else -1)
                w = job.derive(w)
                if job.feasible(w):
                    queue.append((w, c))
                else:
                    # again under this run's key
                    key = {i.name for i in job.ins if i.name in ("p", "q") or i.name[:1] == "N"}
                    w2 = None
                    if key:
                        def fix2(x):
                            p = x.p
                            for n in key:
                                p = p.subst(n, Poly.c(st.env[n]))
                            return Cond(x.kind, p, x.pol)
                        fx = [fix2(x) for x in rel + [c.neg()]]
                        for extra in ((big, []) if big else ([],)):
                            r, model = st.solve(fx + [fix2(x) for x in extra], want_model=True)
                            if r == "unsat" or model is None:
                                continue
                            w2 = dict(v)
                            for n in names & set(model) - key:
                                w2[n] = model[n] * (1 if v[n] >= 0 else -1)
                            w2 = job.derive(w2)
                            if job.feasible(w2):
                                break
                            w2 = None
                    if w2 is not None:
                        rec["for_the_key"] = rec.get("for_the_key", 0) + 1
                        queue.append((w2, c))
                    else:
                        rec["outside_bounds"] = rec.get("outside_bounds", 0) + 1

    def closure(self, st, names):
        return names | set(st.cons.values())

    def count_ops(self, log):
        for l in log:
            f = l.split(" ", 4)
            if f[0] == "N":
                k = f[2] + ":" + f[3][:1]
                self.ops[k] = self.ops.get(k, 0) + 1
            elif f[0] == "E":
                self.ops["branch " + f[1]] = self.ops.get("branch " + f[1], 0) + 1

    def coverage(self, t0, build_s):
        un = sorted(set(self.undecided))
        return dict(jobs=self.jobs, executed_runs=self.runs, paths=sum(j["paths"] for j in self.jobs),
                    goals=sum(j["goals"] for j in self.jobs), goals_proved=sum(j["proved"] for j in self.jobs),
                    path_flips_closed_by_solver=sum(j["closed"] for j in self.jobs),
                    solver_queries=self.stats.queries, solver_s=round(self.stats.solver_s, 2),
                    encoded_operations=dict(sorted(self.ops.items())), opaque=self.stats.by,
                    undecided=un[:60], undecided_count=len(un), build_s=round(build_s, 1),
                    wall_s=round(time.time() - t0, 1))


def work(a):
    """One job, in its own process."""
    prop, tier, name, k, binary, end = a
    job = importlib.import_module("symprops." + name).jobs(tier)[k]
    r = Runner(prop, tier, binary, end)
    r.eng_path = binary
    problems = []
    try:
        if hasattr(job, "run"):
            job.run(r)
        else:
            r.explore(job)
    except Exception as e:  # noqa: BLE001
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        problems.append("%s: %s: %s" % (getattr(job, "name", job), type(e).__name__, str(e)[:400]))
    return dict(violations=r.violations, undecided=r.undecided, jobs=r.jobs, ops=r.ops, runs=r.eng.runs, problems=problems,
                queries=r.stats.queries, solver_s=r.stats.solver_s, by=r.stats.by)


def run(prop, tier, module=None, budget=None, **kw):
    t0 = time.time()
    budget = budget or (150 if tier == "quick" else 700)
    name = module or prop.lower()
    mod = importlib.import_module("symprops." + name)
    try:
        binary = sym_build.prepare(getattr(mod, "KIND", "core"), getattr(mod, "MODS", ()))
    except sym_build.BuildError as e:
        return dict(violations=[], problems=[str(e)], coverage={})
    build_s = time.time() - t0
    total = Runner(prop, tier, binary, 0, engine=False)
    problems = []
    n = len(mod.jobs(tier))
    cores = max(1, min(n, (os.cpu_count() or 2) - 1))
    # time for each job such that all of them fit
    each = budget if n <= cores else budget * cores / n
    waves = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(cores, mp_context=waves) as ex:
        fs = [ex.submit(work, (prop, tier, name, k, binary, each)) for k in range(n)]
        for f in fs:
            try:
                d = f.result()
            except Exception as e:  # noqa: BLE001
                problems.append("a worker failed: %s: %s" % (type(e).__name__, str(e)[:300]))
                continue
            for x in d["violations"]:
                if x[0] not in [y[0] for y in total.violations]:
                    total.violations.append(x)
            total.undecided += d["undecided"]
            total.jobs += d["jobs"]
            problems += d["problems"]
            total.runs += d["runs"]
            total.stats.queries += d["queries"]
            total.stats.solver_s += d["solver_s"]
            for k, x in d["ops"].items():
                total.ops[k] = total.ops.get(k, 0) + x
            for k, x in d["by"].items():
                total.stats.by[k] = total.stats.by.get(k, 0) + x
    cov = total.coverage(t0, build_s)
    cov["functions_encoded"] = getattr(mod, "FUNCTIONS", [])
    return dict(violations=total.violations, problems=problems, coverage=cov)
