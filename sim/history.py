"""Long seeded histories in one process: inputs, operations, variables, traced functions,
protocol switches and failures, interleaved, with every result checked against numpy on
the values its operands actually had.

The specification is a list of actions, each with a seed of its own; an action that finds
nothing to act on does nothing.  So any sublist of a history is again a history, which is
what minimisation needs.
"""
import random

import numpy as np

from . import boot
from .boot import Sim, SimConfig, make_protocol, tf, tfe
from .families import family
from .progs import POOLKIND, SIM_ERRORS, Bad, Meta, enc_py, gen_sched, is_injected, judge, mk_sched, static_shape, tb

WORLDS = {
    "pond": ("pond", ["pond", "pond", "pond100"]),
    "securenn": ("securenn", ["securenn", "securenn"]),
    "aby3": ("aby3", ["aby3", "aby3", "aby3-128"]),
}

PROFILES = {
    # kind -> weight
    "T11": {"input": 3, "op": 9, "repeat": 5, "vary": 8, "fill": 5, "recheck": 3, "world": 3, "back": 3, "deffn": 2, "refn": 3, "callfn": 4, "assign": 2, "var": 1, "illegal": 2, "nested": 1, "withs": 2},
    "T12": {"input": 3, "op": 3, "assign": 9, "var": 4, "read": 6, "recheck": 2, "repeat": 2, "accfn": 2, "callacc": 6, "varop": 4, "vary": 2, "deffn": 1, "callfn": 2},
    "T13": {"input": 4, "op": 1, "deffn": 4, "callfn": 10, "refn": 1, "accfn": 2, "callacc": 4, "var": 2, "recheck": 1},
    "T21": {"input": 4, "op": 8, "repeat": 3, "vary": 2, "recheck": 2, "assign": 2, "var": 1, "deffn": 1, "callfn": 4},
}


def gen_history(profile, seed, n=None, nworlds=1, protocols=None, sched=None, faults=0.0, crash=0.0):
    rng = random.Random(seed)
    names = protocols or ["pond", "securenn", "aby3"]
    if rng.random() < 0.4:
        names = [rng.choice(names)]  # several deployments of one protocol
    first = rng.choice(names)
    w = PROFILES[profile]
    kinds, ws = list(w), list(w.values())
    acts = [{"k": "world", "r": rng.getrandbits(40), "name": first}]
    acts += [{"k": "input", "r": rng.getrandbits(40)} for _ in range(2)]
    if "var" in w:
        acts += [{"k": "var", "r": rng.getrandbits(40)} for _ in range(2 if profile == "T12" else 1)]
    for _ in range(n or rng.randrange(8, 22)):
        a = {"k": rng.choices(kinds, ws)[0], "r": rng.getrandbits(40)}
        if a["k"] == "world":
            a["name"] = rng.choice(names)
        if rng.random() < faults:
            a["fault"] = {"at": rng.choice([rng.randrange(1, 6), rng.randrange(1, 60), rng.randrange(1, 400)]), "kind": rng.choice(["connection_lost", "abort", "alloc_fail"])}
            if rng.random() < 0.3:
                a["fault"]["again"] = [rng.randrange(1, 120) for _ in range(rng.randrange(1, 4))]
        elif rng.random() < crash:
            a["crash"] = {"party": rng.randrange(1, 4), "at": rng.choice([0, rng.randrange(0, 40), rng.randrange(0, 400)])}
        acts.append(a)
    s = {"seed": seed, "profile": profile, "acts": acts}
    if sched or (sched is None and rng.random() < 0.5):
        s["sched"] = gen_sched(rng)
    return s


def shrink_history(s):
    acts = s["acts"]
    out = []
    n = len(acts)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            c = acts[:i] + acts[i + size:]
            if c and len(c) < n:
                out.append(dict(s, acts=c))
        size //= 2
    for i, a in enumerate(acts):
        if a.get("fault") or a.get("crash"):
            out.append(dict(s, acts=acts[:i] + [{k: v for k, v in a.items() if k not in ("fault", "crash")}] + acts[i + 1:]))
    if s.get("sched"):
        out.append(dict(s, sched=None))
        out.append(dict(s, sched=dict(s["sched"], max_delay=0, slow={}, partitions=[])))
    return out


class Val:
    def __init__(self, t, kind, scaled, seen, var=None, src=""):
        self.t = t
        self.kind = kind
        self.scaled = scaled
        self.seen = seen  # decoded when it was made; a variable: last assigned
        self.var = var
        self.src = src
        self.meta = Meta(kind, np.shape(seen), scaled, seen, None)


class World:
    def __init__(self, no, fam, protname, cfg, prot):
        self.no = no
        self.fam = fam
        self.protname = protname
        self.cfg = cfg
        self.prot = prot
        self.vals = []
        self.calls = []
        self.fns = []
        self.accs = []
        self.debug = cfg.debug


class History:
    def __init__(self, spec, salt=0, audit=None):
        self.spec = spec
        self.sim = Sim(spec["seed"] * 11 + salt, max_ops=3000000)
        if spec.get("sched"):
            self.sim.scheduler = mk_sched(spec["sched"])
        self.sim.hash_values = True
        self.worlds = []
        self.fills = []
        self.w = None
        self.problem = None
        self.res = {"cov": set(), "retries": 0, "errors_seen": 0, "acts": {}, "crashed": 0, "checked": 0, "illegal": 0}
        self.where = ""

    # -- plumbing ------------------------------------------------------------
    def attempt(self, f):
        """Run f; after an injected fault, run it again."""
        last = None
        for k in range(6):
            try:
                return f()
            except SIM_ERRORS as e:
                if not is_injected(e):
                    raise
                self.res["retries"] += 1
                last = e
                self.sim.down.clear()
                self.crash_at = None
        raise last

    def decode(self, v):
        w = self.w
        with self.sim.pause():
            t = v.var.read_value() if v.var is not None else v.t
            r = w.fam.reveal(w.prot, t)
            cs = w.fam.copies(w.prot, r)
            for c in cs[1:]:
                if c.shape != cs[0].shape or not np.array_equal(c, cs[0]):
                    raise Bad("disagree", "%s: the servers hold different copies of %s" % (self.where, v.src))
            return w.fam.num(w.fam.native(w.prot, r))

    def placed(self, t, src):
        """Every share and copy is with the server it belongs to, and of the protocol's own word size."""
        w = self.w
        if "100" in w.protname or not w.fam.is_tensor(t) or len(t.unwrapped) not in (2, 3):
            return
        names = [s.device_name for s in (getattr(w.prot, "servers", None) or (w.prot.server_0, w.prot.server_1))]
        for i, u in enumerate(t.unwrapped):
            for x in u if isinstance(u, (list, tuple)) else [u]:
                d = getattr(x.value, "device", None)
                self.problem_if(d and d != names[i], "placement", "part %d of %s is on %s, its server is %s" % (i, src, d, names[i]))
                n = getattr(x.factory, "nbits", None)
                self.problem_if("aby3" in w.protname and n in (64, 128) and n != (128 if "128" in w.protname else 64), "words",
                                "%s has %s-bit words in a deployment of the other size" % (src, n))

    def note(self, t, kind, scaled, src, var=None):
        with self.sim.pause():
            self.placed(t, src)
        v = Val(t, kind, scaled, None, var, src)
        v.seen = self.decode(v)
        v.meta = Meta(kind, np.shape(v.seen), scaled, v.seen, None)
        v.meta.prot = self.w.protname
        self.w.vals.append(v)
        if len(self.w.vals) > 40:
            keep = [x for x in self.w.vals if x.var is not None]
            rest = [x for x in self.w.vals if x.var is None]
            self.w.vals = keep + rest[-25:]
        return v

    def problem_if(self, cond, sig, msg, det=None):
        if cond:
            raise Bad(sig, self.where + ": " + msg, det)

    # -- checks --------------------------------------------------------------
    def check_op(self, op, vals, p, outs, src, opnds=None):
        w = self.w
        ctx = w.fam.ctx(w.prot, w.protname)
        sf = w.fam.sf(w.protname)
        ops = opnds if opnds is not None else [np.asarray(enc_py(v.seen, self.py_scale(vals), sf)) if v.kind == "py" else v.seen for v in vals]
        ks = [v.kind for v in vals]
        nsc = sum(1 for v in vals if v.kind != "py" and v.scaled)
        if "py" in ks and nsc:
            nsc += 1
        p = dict(p, _sf=sf, _nscaled=nsc, _prot=w.protname)
        want = op.ref(ops, p)
        wants = list(want) if op.multi else [want]
        self.res["checked"] += 1
        if op.check:
            why = op.check(ops, p, outs)
            if why:
                sig, why = why if isinstance(why, tuple) else ("mismatch:%s" % op.name, why)
                raise Bad(sig, "%s: %s: %s" % (self.where, src, why))
            return
        res = {"problems": []}
        for o, r in zip(outs, wants):
            r = w.fam.num(r)
            tol = 0.0 if op.tol == "exact" else op.tol(ctx, ops, r, p)
            judge(res, o, r, tol, op.name, src, None, op.tol != "exact", ctx, op.boolres)
        if res["problems"]:
            sig, msg, det = res["problems"][0]
            raise Bad(sig, self.where + ": " + msg, det)

    def py_scale(self, vals):
        o = [v for v in vals if v.kind != "py"]
        return o[0].scaled

    # -- choosing ------------------------------------------------------------
    def pick_op(self, rng, need=None, fresh_ok=True):
        """An operation and operands from the pool it is defined on."""
        w = self.w
        ops = [o for o in w.fam.ops if o.name not in ("maxpool2d_same_negative",) and o.weight > 0]
        lim = min(w.fam.limit(w.protname), 1e6)
        for _ in range(40):
            op = rng.choices(ops, [o.weight * (3 if o.name.endswith("_nd") else 1) for o in ops])[0]
            dom = w.fam.domain(op, w.protname)
            doms = dom if isinstance(dom, tuple) and isinstance(dom[0], (tuple, type(None))) and len(op.kinds) > 1 else [dom] * len(op.kinds)
            vals = []
            for pos, ks in enumerate(op.kinds):
                sc = op.scaled[pos] if isinstance(op.scaled, tuple) else op.scaled
                c = [v for v in w.vals if v.kind in ks and (sc is None or v.scaled == sc) and np.ndim(v.seen) >= op.minrank and np.size(v.seen) <= 64
                     and (doms[pos] is None or (np.size(v.seen) and np.min(v.seen) >= doms[pos][0] and np.max(v.seen) <= doms[pos][1]))]
                if need is not None and pos == 0:
                    c = [v for v in c if v in need]
                if not c:
                    vals = None
                    break
                vals.append(rng.choice(c[-8:]) if rng.random() < 0.6 else rng.choice(c))
            if not vals:
                continue
            if self.sizes(op, vals):
                continue
            p = op.params(rng, [v.meta for v in vals])
            if p is None:
                continue
            ks = [v.kind for v in vals]
            kind = op.outkind(ks) if op.outkind else ks[0]
            if kind is None:
                continue
            if op.outkind is None and "py" in ks:
                continue
            try:
                r = op.ref([v.seen for v in vals], dict(p, _sf=w.fam.sf(w.protname), _prot=w.protname))
            except Exception:
                continue
            outs = list(r) if op.multi else [r]
            if w.fam.big(outs, lim):
                continue
            if op.name == "split":
                p["_n"] = len(outs)
            scaled = op.scale([v.meta for v in vals]) if callable(op.scale) else vals[0].scaled
            oks = kind if isinstance(kind, list) else [kind] * len(outs)
            return op, vals, p, oks, scaled
        return None

    def sizes(self, op, vals):
        if op.name == "conv2d":
            return any(np.ndim(v.seen) != 4 for v in vals)
        return False

    def describe(self, op, vals, p):
        return "%s(%s)%s" % (op.name, ", ".join("%s%s" % (v.kind + ("-variable" if v.var is not None else ""), list(np.shape(v.seen))) for v in vals), p or "")

    # -- actions -------------------------------------------------------------
    def act_world(self, rng, a):
        name, prots = WORLDS[a.get("name") or rng.choice(list(WORLDS))]
        protname = rng.choice(prots)
        if self.spec["profile"] in ("T13",) and "100" in protname:
            protname = "pond"
        debug = self.spec["profile"] in ("T11", "T12", "T21") and rng.random() < 0.2
        names = ["server0", "server1", "server2"]
        if rng.random() < 0.5:
            rng.shuffle(names)
        cfg = SimConfig(tuple(names), debug_mode=debug)
        tfe.set_config(cfg)
        prot = self.attempt(lambda: make_protocol(protname))
        tfe.set_protocol(prot)
        self.w = World(len(self.worlds), family(name), protname, cfg, prot)
        self.worlds.append(self.w)
        self.res["cov"].add("world|%s|%s" % (protname, debug))

    def act_back(self, rng, a):
        if len(self.worlds) < 2:
            return
        self.w = rng.choice([x for x in self.worlds if x is not self.w])
        tfe.set_config(self.w.cfg)
        tfe.set_protocol(self.w.prot)
        if self.w.vals:
            self.act_recheck(rng, a)

    def draw_input(self, rng, kinds=None, shape=None, scaled=None):
        w = self.w
        kinds = kinds or [k for k in w.fam.kinds_for(w.protname) if k not in ("py",)]
        k = rng.choice(kinds)
        pref = [list(np.shape(v.seen)) for v in w.vals]
        if shape is None:
            shape = rng.choice(pref) if pref and rng.random() < 0.5 else [rng.choice([1, 2, 2, 3]) for _ in range(rng.randrange(0, 4))]
        scaled = (rng.random() < 0.85) if scaled is None else scaled
        hi = rng.choice([1.0, 3.0, 8.0])
        inp = {"kind": k, "shape": list(shape), "scaled": scaled, "lo": -hi if scaled else -9, "hi": hi if scaled else 9,
               "vseed": rng.getrandbits(40), "style": rng.choice(["uniform", "int", "grid", "edge"]), "owner": rng.choice(["server0", "server1", "server2", "owner-a"])}
        if not scaled and rng.random() < 0.5:
            inp["lo"], inp["hi"] = 0, 1
        if k == "privin2" and not shape:
            inp["kind"] = "privin"
        return inp

    def place(self, inp):
        w = self.w
        v = w.fam.make_value(inp)
        t = self.attempt(lambda: w.fam.build_input(w.prot, inp, v))
        x = self.note(t, POOLKIND[inp["kind"]], inp["scaled"], "input %s" % inp["kind"], var=t if "var" in inp["kind"] else None)
        ulp = 1.0 / w.fam.sf(w.protname) if inp["scaled"] else 0.0
        ok = x.seen.shape == np.shape(v) and np.all(np.abs(x.seen - v) <= 1.0001 * ulp + 1e-9)
        self.problem_if(not ok, "mismatch:input", "%s%s decodes to %s, not %s" % (inp["kind"], inp["shape"], brief(x.seen), brief(v)))
        return x

    def act_input(self, rng, a):
        self.place(self.draw_input(rng))

    def act_var(self, rng, a):
        kinds = [k for k in self.w.fam.kinds_for(self.w.protname) if "var" in k]
        self.place(self.draw_input(rng, kinds))

    def apply(self, op, vals, p, oks, scaled, remember=True):
        w = self.w
        src = self.describe(op, vals, p)
        ts = [v.t for v in vals]
        try:
            out = self.attempt(lambda: op.call(w.prot, ts, dict(p)))
        except SIM_ERRORS:
            raise
        except Bad:
            raise
        except Exception as e:
            raise Bad("refused:%s:%s" % (op.name, type(e).__name__), "%s: %s raised %s: %s" % (self.where, src, type(e).__name__, str(e)[:300]), tb()) from e
        outs = list(out) if op.multi else [out]
        new = []
        before = [v.seen for v in vals]
        for t, k in zip(outs, oks):
            v = Val(t, k, False if k in ("bool", "pubbool") else scaled, None, None, src)
            with self.sim.pause():
                self.placed(t, src)
            v.seen = self.decode(v)
            v.meta = Meta(k, np.shape(v.seen), v.scaled, v.seen, None)
            v.meta.prot = w.protname
            new.append(v)
        self.check_op(op, vals, p, [v.seen for v in new], src, None)
        if remember:
            for v in new:
                if np.size(v.seen) <= 64 and (not np.size(v.seen) or np.max(np.abs(v.seen)) < 50):
                    w.vals.append(v)
            w.calls.append((op, vals, p, oks, scaled))
            w.calls = w.calls[-12:]
        self.res["cov"].add("%s|%s|%s" % (op.name, "+".join(v.kind + ("*" if v.var is not None else "") for v in vals), w.protname))

    def act_op(self, rng, a):
        c = self.pick_op(rng)
        if c:
            self.apply(*c)

    def act_varop(self, rng, a):
        need = [v for v in self.w.vals if v.var is not None]
        c = self.pick_op(rng, need=need) if need else None
        if c:
            self.apply(*c)

    def act_repeat(self, rng, a):
        if self.w.calls:
            op, vals, p, oks, scaled = rng.choice(self.w.calls)
            lim = 300
            try:
                r = op.ref([v.seen for v in vals], dict(p, _sf=self.w.fam.sf(self.w.protname), _prot=self.w.protname))
            except Exception:
                return
            outs = list(r) if op.multi else [r]
            dom = self.w.fam.domain(op, self.w.protname)
            doms = dom if isinstance(dom, tuple) and isinstance(dom[0], (tuple, type(None))) and len(op.kinds) > 1 else [dom] * len(op.kinds)
            for v, d in zip(vals, doms):
                if d is not None and np.size(v.seen) and (np.min(v.seen) < d[0] or np.max(v.seen) > d[1]):
                    return
            if self.w.fam.big(outs, lim):
                return
            if op.name == "maxpool2d" and p.get("padding") == "SAME" and any(np.size(v.seen) and np.min(v.seen) < 0 for v in vals):
                return
            self.apply(op, vals, p, oks, scaled, remember=False)

    def fits(self, op, vals, p):
        """Whether the operation is defined on these operands, and its result small enough to keep."""
        w = self.w
        if self.sizes(op, vals):
            return False
        dom = w.fam.domain(op, w.protname)
        doms = dom if isinstance(dom, tuple) and isinstance(dom[0], (tuple, type(None))) and len(op.kinds) > 1 else [dom] * len(op.kinds)
        for v, d in zip(vals, doms):
            if d is not None and np.size(v.seen) and (np.min(v.seen) < d[0] or np.max(v.seen) > d[1]):
                return False
        if op.name == "maxpool2d" and p.get("padding") == "SAME" and any(np.size(v.seen) and np.min(v.seen) < 0 for v in vals):
            return False
        try:
            r = op.ref([v.seen for v in vals], dict(p, _sf=w.fam.sf(w.protname), _prot=w.protname))
        except Exception:
            return False
        outs = list(r) if op.multi else [r]
        return not w.fam.big(outs, min(300, w.fam.limit(w.protname))) and outs

    def act_vary(self, rng, a):
        """An earlier call again, with other parameters or with another tensor like its operand."""
        w = self.w
        if not w.calls:
            return
        op, vals, p, oks, scaled = rng.choice(w.calls)
        if rng.random() < 0.5:
            p = op.params(rng, [v.meta for v in vals])
            if p is None:
                return
        else:
            i = rng.randrange(len(vals))
            v = vals[i]
            c = [x for x in w.vals if x is not v and x.kind == v.kind and x.scaled == v.scaled and np.shape(x.seen) == np.shape(v.seen)]
            if c and rng.random() < 0.6:
                x = rng.choice(c)
            elif v.kind == "py":
                return
            else:
                ks = [k for k in w.fam.kinds_for(w.protname) if POOLKIND[k] == v.kind]
                if not ks:
                    return
                x = self.place(self.draw_input(rng, ks, list(np.shape(v.seen)), v.scaled))
            vals = vals[:i] + [x] + vals[i + 1:]
        outs = self.fits(op, vals, p)
        if not outs:
            return
        if op.name == "split":
            p = dict(p, _n=len(outs))
        ks = [v.kind for v in vals]
        kind = op.outkind(ks) if op.outkind else ks[0]
        oks = kind if isinstance(kind, list) else [kind] * len(outs)
        scaled = op.scale([v.meta for v in vals]) if callable(op.scale) else vals[0].scaled
        self.apply(op, vals, p, oks, scaled)

    def act_fill(self, rng, a):
        """Zeros and ones made by the protocol itself: calls without any tensor argument."""
        w = self.w
        if not w.protname.startswith("aby3"):
            return
        from tf_encrypted.protocol.aby3.aby3_tensors import ShareType
        from tf_encrypted.tensor import factories

        name = rng.choice(["zeros", "ones"]) if hasattr(w.prot, "ones") else "zeros"
        pub = rng.random() < 0.5
        sc = rng.random() < 0.6
        shape = rng.choice([[2], [2, 3], [1]])
        if self.fills and rng.random() < 0.7:
            name, pub, sc, shape = rng.choice(self.fills)
        self.fills.append((name, pub, sc, shape))
        st = ShareType.PUBLIC if pub else ShareType.ARITHMETIC
        f = getattr(w.prot, name)
        t = self.attempt(lambda: f(shape, sc, st))
        v = self.note(t, "pub" if pub else "priv", sc, "%s(%s)" % (name, shape))
        want = np.full(shape, 1.0 if name == "ones" else 0.0)
        self.res["checked"] += 1
        self.problem_if(v.seen.shape != want.shape or not np.array_equal(v.seen, want), "fill", "%s decodes to %s" % (v.src, brief(v.seen)))
        self.res["cov"].add("%s|%s|%s" % (name, pub, sc))

    def act_refn(self, rng, a):
        """The program of a traced function once more: in a second function that captures
        all operands, or step by step outside of any."""
        w = self.w
        if not w.fns:
            return
        f, args, captured, steps = rng.choice(w.fns)
        for how in rng.sample(["eager", "trace", "trace"], 3):
            if how == "eager":
                # the first step only: its operands exist
                op, vals, p, oks, scaled, res = steps[0]
                if all(v.t is not None for v in vals) and self.fits(op, vals, p):
                    self.apply(op, vals, p, oks, scaled)
                continue
            keep = args[:1] if rng.random() < 0.3 else []
            rest = [v for v in args + captured if v not in keep]
            w.fns.append((self.trace(keep, steps), keep, rest, steps))
            w.fns = w.fns[-4:]
            self.call_fn(rng, w.fns[-1], keep)

    def act_recheck(self, rng, a):
        for v in rng.sample(self.w.vals, min(4, len(self.w.vals))):
            now = self.decode(v)
            ok = now.shape == v.seen.shape and np.array_equal(now, v.seen)
            self.res["checked"] += 1
            self.problem_if(not ok, "changed:%s" % ("variable" if v.var is not None else "value"),
                            "%s was %s and is now %s without having been assigned" % (v.src, brief(v.seen), brief(now)))

    def act_read(self, rng, a):
        vs = [v for v in self.w.vals if v.var is not None]
        if not vs:
            return
        v = rng.choice(vs)
        w = self.w
        t = self.attempt(lambda: v.var.read_value())
        x = Val(t, v.kind, v.scaled, None, None, "a read of " + v.src)
        now = self.decode(x)
        self.res["checked"] += 1
        self.problem_if(not (now.shape == v.seen.shape and np.array_equal(now, v.seen)), "read", "read_value of %s gives %s, last assigned was %s" % (v.src, brief(now), brief(v.seen)))
        x.seen = now
        x.meta = v.meta
        w.vals.append(x)
        y = Val(v.t, v.kind, v.scaled, None, None, "direct use of " + v.src)
        now = self.decode(y)
        self.problem_if(not (now.shape == v.seen.shape and np.array_equal(now, v.seen)), "stale", "using %s directly gives %s, last assigned was %s" % (v.src, brief(now), brief(v.seen)))

    def check_vars(self):
        for v in self.w.vals:
            if v.var is not None:
                now = self.decode(v)
                self.res["checked"] += 1
                self.problem_if(not (now.shape == v.seen.shape and np.array_equal(now, v.seen)), "variable",
                                "%s holds %s, last assigned was %s" % (v.src, brief(now), brief(v.seen)))

    def act_assign(self, rng, a):
        w = self.w
        vs = [v for v in w.vals if v.var is not None]
        if not vs:
            return
        v = rng.choice(vs)
        c = [x for x in w.vals if x.kind == v.kind and x.scaled == v.scaled and np.shape(x.seen) == np.shape(v.seen) and x is not v]
        if not c or rng.random() < 0.4:
            ks = [k for k in w.fam.kinds_for(w.protname) if POOLKIND[k] == v.kind]
            c = [self.place(self.draw_input(rng, ks, list(np.shape(v.seen)), v.scaled))]
        x = rng.choice(c)
        new = np.array(x.seen)
        self.attempt(lambda: w.prot.assign(v.var, x.t))
        v.seen = new
        v.meta = Meta(v.kind, np.shape(new), v.scaled, new, None)
        v.meta.prot = w.protname
        self.res["cov"].add("assign|%s|%s|%s" % (v.kind, "var" if x.var is not None else x.src.split("(")[0].split(" ")[0], w.protname))
        self.check_vars()

    def act_illegal(self, rng, a):
        """A call that cannot work; whatever it does must not affect later ones."""
        w = self.w
        if len(w.vals) < 1:
            return
        x = rng.choice(w.vals)
        bad = rng.choice(["matmul", "add", "reshape", "concat", "type"])
        if "128" in w.protname:
            bad = "type"  # the 128-bit kernels end the process on shapes that do not fit
        self.res["illegal"] += 1
        try:
            if bad == "matmul":
                y = w.prot.define_private_variable(np.ones((7, 11)))
                w.prot.matmul(x.t, y)
            elif bad == "add":
                y = w.prot.define_private_variable(np.ones((7, 11, 13)))
                w.prot.add(x.t, y)
            elif bad == "reshape":
                w.prot.reshape(x.t, [97, 101])
            elif bad == "concat":
                w.prot.concat([x.t, w.prot.define_private_variable(np.ones((7, 11, 13)))], axis=0)
            else:
                w.prot.mul(x.t, object())
        except SIM_ERRORS as e:
            if not is_injected(e):
                pass
        except Exception:
            pass

    def act_nested(self, rng, a):
        """A block under another protocol, with `with`."""
        if len(self.worlds) < 2:
            return
        other = rng.choice([x for x in self.worlds if x is not self.w])
        mine = self.w
        from tf_encrypted import config as cfgm

        tfe.set_config(other.cfg)
        try:
            with other.prot:
                self.w = other
                self.act_op(rng, a)
                if rng.random() < 0.3:
                    self.act_illegal(rng, a)
        finally:
            self.w = mine
            tfe.set_config(mine.cfg)
            tfe.set_protocol(mine.prot)
        self.act_recheck(rng, a)

    def act_withs(self, rng, a):
        """Blocks of protocols inside one another, some left by an exception."""
        tries = [0]

        class Left(Exception):
            pass

        def block(depth):
            cur = tfe.get_protocol()
            w = rng.choice(self.worlds)
            raised = rng.random() < 0.4
            how = rng.randrange(3)
            try:
                with w.prot as p:
                    self.problem_if(tfe.get_protocol() is not w.prot or p is not w.prot, "with", "inside a block the protocol is not the block's")
                    while depth < 4 and rng.random() < 0.5:
                        block(depth + 1)
                        self.problem_if(tfe.get_protocol() is not w.prot, "with", "after an inner block, the protocol is not the outer block's")
                    if raised and how == 0:
                        raise Left()
                    if raised and how == 1:
                        w.prot.reshape(object(), [97, 101])
                    if raised:
                        raise KeyboardInterrupt()
            except Bad:
                raise
            except (Exception, KeyboardInterrupt):
                if not raised:
                    raise
            tries[0] += 1
            self.res["checked"] += 1
            self.problem_if(tfe.get_protocol() is not cur, "with", "after a block%s the protocol is not the one of before it" % (" left by an exception" if raised else ""))

        for _ in range(rng.randrange(1, 4)):
            block(0)
        tfe.set_config(self.w.cfg)
        tfe.set_protocol(self.w.prot)

    # traced functions ---------------------------------------------------------
    def act_deffn(self, rng, a):
        """A traced program of one to three operations on arguments and captured values."""
        w = self.w
        if "100" in w.protname:
            return
        steps = []
        base = list(w.vals)
        if not base:
            return
        mark = len(w.vals)
        vals0 = w.vals
        ops = []
        symbolic = []
        try:
            w.vals = list(base)
            for _ in range(rng.randrange(1, 4)):
                c = self.pick_op(rng, need=symbolic if symbolic and rng.random() < 0.7 else None)
                if not c:
                    continue
                op, vals, p, oks, scaled = c
                if op.name in w.fam.nofn:
                    continue
                ref = op.ref([v.seen for v in vals], dict(p, _sf=w.fam.sf(w.protname), _prot=w.protname))
                refs = list(ref) if op.multi else [ref]
                res = []
                for r, k in zip(refs, oks):
                    v = Val(None, k, False if k in ("bool", "pubbool") else scaled, w.fam.num(r), None, "step")
                    v.meta.prot = w.protname
                    if np.size(v.seen) <= 64 and (not np.size(v.seen) or np.max(np.abs(v.seen)) < 50):
                        w.vals.append(v)
                        symbolic.append(v)
                    res.append(v)
                steps.append((op, vals, p, oks, scaled, res))
        finally:
            w.vals = vals0
        if not steps:
            return
        args, captured = [], []
        for op, vals, p, oks, scaled, res in steps:
            for v in vals:
                if v.t is not None and v.kind != "py" and v not in args and v not in captured:
                    (captured if rng.random() < 0.2 else args).append(v)
        if not args:
            args, captured = captured[:1], captured[1:]
        if not args:
            return
        f = self.trace(args, steps)
        w.fns.append((f, args, captured, steps))
        w.fns = w.fns[-4:]
        self.call_fn(rng, w.fns[-1], args)

    def trace(self, args, steps):
        w = self.w
        prot = w.prot

        def body(*ts):
            at = {id(v): t for v, t in zip(args, ts)}
            outs = []
            for op, vals, p, oks, scaled, res in steps:
                xs = [at.get(id(v), v.t) for v in vals]
                o = op.call(prot, xs, dict(p))
                o = list(o) if op.multi else [o]
                for v, t in zip(res, o):
                    at[id(v)] = t
                outs.extend(o)
            return [w.fam.reveal(prot, t) for t in outs]

        return tfe.function(tf.autograph.experimental.do_not_convert(body))

    def call_fn(self, rng, fn, actual):
        f, args, captured, steps = fn
        w = self.w
        seen = {id(v): x.seen for v, x in zip(args, actual)}
        for v in captured:
            seen[id(v)] = v.seen
        src = "traced " + "; ".join(self.describe(op, vals, p) for op, vals, p, _, _, _ in steps)
        # values may leave the range the operations are defined on: do not call then
        for op, vals, p, oks, scaled, res in steps:
            ops = [seen.get(id(v), v.seen) for v in vals]
            dom = w.fam.domain(op, w.protname)
            doms = dom if isinstance(dom, tuple) and isinstance(dom[0], (tuple, type(None))) and len(op.kinds) > 1 else [dom] * len(op.kinds)
            for o, d in zip(ops, doms):
                if d is not None and np.size(o) and (np.min(o) < d[0] or np.max(o) > d[1]):
                    return
            if op.name == "maxpool2d" and p.get("padding") == "SAME" and np.size(ops[0]) and np.min(ops[0]) < 0:
                return
            r = op.ref(ops, dict(p, _sf=w.fam.sf(w.protname), _prot=w.protname))
            rs = list(r) if op.multi else [r]
            if w.fam.big(rs, min(w.fam.limit(w.protname), 1e6)):
                return
            for v, q in zip(res, rs):
                seen[id(v)] = w.fam.num(q)
        try:
            outs = self.attempt(lambda: f(*[x.t for x in actual]))
        except SIM_ERRORS:
            raise
        except Exception as e:
            raise Bad("refused:function:%s" % type(e).__name__, "%s: %s raised %s: %s" % (self.where, src, type(e).__name__, str(e)[:300]), tb()) from e
        got = []
        for t in outs:
            v = Val(t, "pub", True, None, None, src)
            got.append(self.decode(v))
        it = iter(got)
        have = {id(v): x.seen for v, x in zip(args, actual)}
        for v in captured:
            have[id(v)] = v.seen
        for op, vals, p, oks, scaled, res in steps:
            outs_ = []
            for v in res:
                d = next(it)
                have[id(v)] = d
                outs_.append(d)
            sf = w.fam.sf(w.protname)
            opnds = [np.asarray(enc_py(v.seen, self.py_scale(vals), sf)) if v.kind == "py" else have[id(v)] for v in vals]
            self.check_op(op, vals, p, outs_, src, opnds)
        self.res["cov"].add("fn|%s|%s" % ("+".join(s[0].name for s in steps), w.protname))

    def act_callfn(self, rng, a):
        w = self.w
        if not w.fns:
            return
        fn = rng.choice(w.fns)
        f, args, captured, steps = fn
        actual = []
        for v in args:
            c = [x for x in w.vals if x.t is not None and x.kind == v.kind and x.scaled == v.scaled and np.shape(x.seen) == np.shape(v.seen)]
            if (not c or rng.random() < 0.5) and v.kind in ("pub", "priv"):
                ks = [k for k in w.fam.kinds_for(w.protname) if POOLKIND[k] == v.kind]
                inp = self.draw_input(rng, ks, list(np.shape(v.seen)), v.scaled)
                if np.size(v.seen):
                    inp["lo"], inp["hi"] = float(np.min(v.seen)), float(np.max(v.seen))
                    if not v.scaled:
                        inp["lo"], inp["hi"] = int(inp["lo"]), int(inp["hi"])
                    inp["style"] = "uniform"
                actual.append(self.place(inp))
            else:
                actual.append(rng.choice(c) if c else v)
        self.call_fn(rng, fn, actual)

    def act_accfn(self, rng, a):
        """A traced function that reads and assigns variables."""
        w = self.w
        if "100" in w.protname or w.debug:
            return
        vs = [v for v in w.vals if v.var is not None and v.scaled]
        if not vs:
            return
        v = rng.choice(vs)
        same = [u for u in vs if u is not v and u.kind == v.kind and np.shape(u.seen) == np.shape(v.seen)]
        u = rng.choice(same) if same and rng.random() < 0.5 else None
        prot = w.prot
        direct = rng.random() < 0.3

        def body(x):
            before = v.var.read_value()
            cur = v.t if direct else before
            prot.assign(v.var, cur + x)
            mid = v.var.read_value()
            if u is not None:
                prot.assign(u.var, before)
                prot.assign(v.var, mid - u.var.read_value())
            after = v.var.read_value()
            return [w.fam.reveal(prot, before), w.fam.reveal(prot, mid), w.fam.reveal(prot, after)]

        f = tfe.function(tf.autograph.experimental.do_not_convert(body))
        w.accs.append((f, v, u))
        w.accs = w.accs[-3:]
        self.act_callacc(rng, a)

    def act_callacc(self, rng, a):
        w = self.w
        if not w.accs:
            return
        f, v, u = rng.choice(w.accs)
        ks = [k for k in w.fam.kinds_for(w.protname) if POOLKIND[k] == v.kind]
        x = self.place(self.draw_input(rng, ks, list(np.shape(v.seen)), True))
        # a failed call may have assigned already: it is not repeated, faults are withheld
        keep, self.sim.fail_at = self.sim.fail_at, {}
        try:
            outs = f(x.t)
        finally:
            self.sim.fail_at = keep
        before = v.seen
        mid = before + x.seen
        after = mid if u is None else mid - before
        src = "traced function assigning %s" % v.src
        for name, t, want in zip(("value before", "value after the first assignment", "value at the end"), outs, (before, mid, after)):
            got = self.decode(Val(t, "pub", True, None, None, src))
            ok = got.shape == want.shape and np.allclose(got, want, rtol=0, atol=1e-9)
            self.problem_if(not ok, "accfn", "%s: %s is %s, should be %s" % (src, name, brief(got), brief(want)))
        for z, want in ((v, after), (u, before)):
            if z is not None:
                # sums of doubles and of fixed-point numbers may differ in the last place
                z.seen = self.decode(z)
                ok = z.seen.shape == want.shape and np.allclose(z.seen, want, rtol=0, atol=1e-9)
                self.problem_if(not ok, "variable", "%s holds %s after a traced function assigned %s" % (z.src, brief(z.seen), brief(want)))
                z.meta = Meta(z.kind, np.shape(z.seen), z.scaled, z.seen, None)
                z.meta.prot = w.protname
        self.res["cov"].add("accfn|%s|%s|%s" % (v.kind, u is not None, w.protname))
        self.check_vars()

    # -- run -----------------------------------------------------------------
    def run(self):
        sim = self.sim
        self.crash_at = None

        def crasher(s, op_type, inputs, outputs, where, moved):
            if self.crash_at is not None and s.ops >= self.crash_at[0]:
                s.down = {boot.dev(self.crash_at[1])}
                if not self.crash_at[2]:
                    self.crash_at[2] = True
                    s.count("party_crashed")

        sim.listeners.append(crasher)
        with sim:
            boot.reset_library_state()
            try:
                for i, a in enumerate(self.spec["acts"]):
                    if self.w is None and a["k"] != "world":
                        continue
                    self.where = "action %d (%s)" % (i, a["k"])
                    self.res["acts"][a["k"]] = self.res["acts"].get(a["k"], 0) + 1
                    sim.fail_at = {}
                    sim.down.clear()
                    if a.get("fault"):
                        at = sim.ops + a["fault"]["at"]
                        sim.fail_at[at] = a["fault"]["kind"]
                        for gap in a["fault"].get("again", ()):
                            at += gap
                            sim.fail_at[at] = a["fault"]["kind"]
                    if a.get("crash"):
                        self.crash_at = [sim.ops + a["crash"]["at"], a["crash"]["party"], False]
                    if self.w is not None and a["k"] not in ("world", "back"):
                        pass
                    getattr(self, "act_" + a["k"])(random.Random(a["r"]), a)
                    self.crash_at = None
                sim.fail_at = {}
                sim.down.clear()
                self.where = "at the end"
                for w in self.worlds:
                    self.w = w
                    tfe.set_config(w.cfg)
                    tfe.set_protocol(w.prot)
                    self.act_recheck(random.Random(1), None)
            except Bad as b:
                self.problem = (b.sig, str(b), b.detail)
            except Exception as e:
                self.problem = ("error:%s" % type(e).__name__, "%s failed with %s: %s" % (self.where, type(e).__name__, str(e)[:400]), tb())
        return self


def brief(x):
    return np.array2string(np.asarray(x).reshape(-1)[:6], precision=6) + str(list(np.shape(x)))


def decide_history(spec, known=()):
    h = History(spec).run()
    sim = h.sim
    out = {"violation": None, "ops": sim.ops, "messages": sim.messages, "trace": sim.digest.hexdigest()[:24], "faults": dict(sim.injected),
           "ticks": 0, "cov": sorted(h.res["cov"]), "probes": {"act_" + k: n for k, n in h.res["acts"].items()}, "nontrivial": h.res["checked"] > 0, "detail": None}
    out["probes"]["checks_made"] = h.res["checked"]
    out["probes"]["worlds"] = len(h.worlds)
    if h.res["retries"]:
        out["probes"]["retried_after_fault"] = h.res["retries"]
    sch = sim.scheduler
    if sch:
        out["ticks"] = sch.now
        out["sched"] = "%x" % sch.order
        out["faults"]["message_delayed"] = sch.delayed
        if sch.cut:
            out["faults"]["partition_hit"] = sch.cut
        if sch.slow:
            out["faults"]["slow_party"] = 1
    if h.problem:
        sig, msg, det = h.problem
        if isinstance(det, dict) and det.get("wrap"):
            clean = dict(spec, acts=[{k: v for k, v in a.items() if k not in ("fault", "crash")} for a in spec["acts"]])
            again = sum(1 for s in (101, 202, 303) if (History(clean, s).run().problem or (None,))[0] == sig)
            if not again:
                out["probes"]["truncation_wrap_tolerated"] = 1
                return out
        out["violation"], out["sig"] = msg, sig
        if isinstance(det, str):
            out["tb"] = det
    return out
