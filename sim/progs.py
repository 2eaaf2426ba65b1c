"""Seeded programs over secret-shared tensors, run in a simulated deployment.

`gen_program` draws a program (inputs of every kind, a chain of operations, an execution
mode, a schedule and faults) from one seed.  `run_program` executes it against the real
library and checks every operation against numpy on the operands' actual values.
"""
import contextlib
import hashlib
import random

import numpy as np

from .boot import *  # noqa: F401,F403
from .boot import Sim, fresh, tf, tfe
from . import graph

SIM_ERRORS = (tf.errors.UnavailableError, tf.errors.AbortedError, tf.errors.ResourceExhaustedError)


def is_injected(e):
    return isinstance(e, SIM_ERRORS) and "sim:" in str(e)


class Meta:
    def __init__(self, kind, shape, scaled, val, src):
        self.kind = kind
        self.shape = list(shape)
        self.scaled = scaled
        self.val = val
        self.src = src


POOLKIND = {"const": "pub", "pubvar": "pub", "pubin": "pub", "pubvar_tf": "pub", "privvar": "priv",
            "privvar_tf": "priv", "privin": "priv", "privin2": "priv", "maskin": "mask", "py": "py",
            "privvar_from_pub": "priv", "privvar_from_priv": "priv", "boolpriv": "bool", "boolpub": "pubbool", "bpriv": "bpriv",
            "boolconst": "pubbool"}


def make_value(inp):
    r = np.random.Generator(np.random.PCG64(inp["vseed"]))
    shape = tuple(inp["shape"])
    lo, hi = inp["lo"], inp["hi"]
    if inp["kind"] == "py":
        if inp.get("int"):
            return int(r.integers(int(np.ceil(lo)), int(np.floor(hi)) + 1))
        return float(np.round(r.uniform(lo, hi), 3))
    if inp.get("bool"):
        return r.integers(0, 2, shape).astype(bool)
    if not inp["scaled"]:
        return r.integers(int(np.ceil(lo)), int(np.floor(hi)) + 1, shape).astype(np.int64)
    style = inp.get("style", "uniform")
    v = r.uniform(lo, hi, shape)
    if style == "int":
        v = np.clip(np.round(v), np.ceil(lo), np.floor(hi)) if np.floor(hi) >= np.ceil(lo) else v
    elif style == "grid":
        v = np.round(v * 4) / 4
        v = np.clip(v, lo, hi)
    elif style == "edge":
        pick = r.integers(0, 4, shape)
        v = np.where(pick == 0, lo, np.where(pick == 1, hi, np.where(pick == 2, np.clip(0.0, lo, hi), v)))
    elif style == "tiny":
        v = np.clip(v / 64.0, lo, hi)
    elif style == "same":
        v = np.full(shape, v.flat[0] if v.size else 0.0)
    return np.asarray(v, dtype=np.float64)


def shape_for(rng, op, pos, others):
    n = op.name
    if n == "matmul" and getattr(op, "batch", False) and rng.random() < 0.3:
        if pos == 0:
            return [rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 4)]
    if n == "matmul" and pos == 1 and len(others[0].shape) > 2:
        return list(others[0].shape[:-2]) + [others[0].shape[-1], rng.randrange(1, 4)]
    if n == "matmul":
        if pos == 0:
            return [rng.randrange(1, 5), rng.randrange(1, 6)]
        return [others[0].shape[1] if len(others[0].shape) == 2 else rng.randrange(1, 5), rng.randrange(1, 5)]
    if n == "conv2d":
        if pos == 0:
            return [rng.randrange(1, 3), rng.randrange(1, 4), rng.randrange(3, 6), rng.randrange(3, 6)]
        c = others[0].shape[1] if len(others[0].shape) == 4 else 1
        return [rng.randrange(1, 4), rng.randrange(1, 4), c, rng.randrange(1, 4)]
    if n == "im2patches":
        return [rng.randrange(1, 3), 1, rng.randrange(2, 6), rng.randrange(2, 6)]
    if n.startswith(("avgpool2d", "maxpool2d", "im2col")):
        return [rng.randrange(1, 3), rng.randrange(1, 3), rng.randrange(2, 6), rng.randrange(2, 6)]
    if n == "space_to_batch":
        return [rng.randrange(1, 3), rng.randrange(2, 5), rng.randrange(2, 5), rng.randrange(1, 3)]
    if n == "batch_to_space":
        return [4 * rng.randrange(1, 3), rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 3)]
    if n == "squeeze":
        s = [rng.choice([1, 1, 2, 3]) for _ in range(rng.randrange(1, 4))]
        return s
    if n in ("maximum", "cmp_swap") and pos == 1:
        return list(others[0].shape)
    if n in ("stack", "concat") and pos == 1:
        s = list(others[0].shape)
        if n == "concat" and s and rng.random() < 0.6:
            s[rng.randrange(len(s))] = rng.randrange(1, 4)
        return s
    if pos == 1 and rng.random() < 0.75:
        s = list(others[0].shape)
        c = rng.random()
        if c < 0.5:
            return s
        if c < 0.7:
            return [1 if rng.random() < 0.5 else d for d in s]
        if c < 0.85:
            return s[rng.randrange(len(s) + 1):] if s else s
        return ([rng.randrange(1, 4)] + s) if len(s) < 4 else s
    r = rng.choices([0, 1, 2, 3, 4], [1, 3, 5, 3, 2])[0]
    r = max(r, op.minrank)
    if rng.random() < 0.15:  # equal dimensions: a wrong axis or order keeps the shape
        return [rng.choice([2, 2, 3])] * max(r, min(3, r + 1))
    return [rng.choice([1, 2, 2, 3, 3, 4, 5]) for _ in range(r)]


class Family:
    """What differs between protocols for the generator and the runner."""

    ops = []
    nofn = ()
    judge = None
    new_input = None

    def domain(self, op, prot):
        return op.domain

    def make_value(self, inp):
        return make_value(inp)

    def tweak(self, rng, inp, prot, op):
        """Last change to a drawn input."""

    def big(self, outs, lim):
        return any(np.size(o) > 400 or (np.size(o) and (not np.all(np.isfinite(o)) or np.max(np.abs(o)) > lim)) for o in outs)
    input_kinds = {}
    lim = 400.0
    unscaled_lim = 900

    def build_input(self, prot, inp, val):
        raise NotImplementedError

    def ctx(self, prot):
        raise NotImplementedError

    def num(self, v):
        return np.asarray(v, dtype=np.float64)


def gen_program(family, seed, only=None, nsteps=None, protocols=("pond",), modes=None, faults=True, unscaled=True,
                scheds=True):
    rng = random.Random(seed)
    protname = rng.choice(protocols)
    inputs, steps = [], []
    pool = []  # Meta per value
    ops = [o for o in family.ops if only is None or o.name in only]
    weights = [o.weight for o in ops]
    n = nsteps or rng.randrange(1, 4)
    sf = family.sf(protname)
    lim = family.limit(protname)

    def new_input(kind_ok, shape, dom, scaled):
        cands = [k for k in family.kinds_for(protname) if POOLKIND[k] in kind_ok]
        if not cands:
            return None
        k = rng.choice(cands)
        if "maskin" in cands and rng.random() < 0.15:
            k = "maskin"
        if family.new_input:
            inp = family.new_input(rng, k, shape, dom, protname)
            v = family.make_value(inp)
            inputs.append(inp)
            m = Meta(POOLKIND[k], np.shape(v), False, family.num(v), ("in", len(inputs) - 1))
            m.prot = protname
            return m
        if k == "py":
            shape = []
        if dom is None:
            hi = rng.choice([1.0, 3.0, 8.0, family.wide(protname)])
            lo = -hi
        else:
            lo, hi = dom
        if scaled is None:
            scaled = not (unscaled and rng.random() < 0.15)
        if dom is None and not scaled:
            lo, hi = -12, 12
        inp = {"kind": k, "shape": list(shape), "scaled": bool(scaled), "lo": lo, "hi": hi,
               "vseed": rng.getrandbits(40), "style": rng.choice(["uniform", "uniform", "int", "grid", "edge", "tiny", "same"]),
               "owner": rng.choice(["server0", "server1", "server2", "owner-a", "owner-b"])}
        if k in ("boolpriv", "boolpub", "boolconst"):
            inp["bool"] = True
            inp["scaled"] = scaled = False
        if k == "py":
            inp["int"] = (not scaled) or rng.random() < 0.5
        family.tweak(rng, inp, protname, curop[0])
        v = family.make_value(inp)
        if k == "privin2" and len(shape) == 0:
            inp["kind"] = k = "privin"
        inputs.append(inp)
        m = Meta(POOLKIND[k], np.shape(v), scaled, family.num(v), ("in", len(inputs) - 1))
        m.prot = protname
        return m

    curop = [None]
    tries = 0
    while len(steps) < n and tries < 80:
        tries += 1
        op = rng.choices(ops, weights)[0]
        odom = family.domain(op, protname)
        doms = odom if isinstance(odom, tuple) and isinstance(odom[0], (tuple, type(None))) \
            and len(op.kinds) > 1 else [odom] * len(op.kinds)
        saved = len(inputs), len(pool)
        args, metas = [], []
        curop[0] = op
        good = True
        for pos, ks in enumerate(op.kinds):
            dom = doms[pos]
            sc = op.scaled[pos] if isinstance(op.scaled, tuple) else op.scaled
            cands = [i for i, m in enumerate(pool) if m.kind in ks and (sc is None or m.scaled == sc)
                     and len(m.shape) >= op.minrank
                     and (dom is None or (m.val.size and m.val.min() >= dom[0] and m.val.max() <= dom[1]))]
            if pos == 1 and metas and metas[0].kind == "py":
                cands = [i for i in cands if pool[i].kind != "py"]
            if cands and rng.random() < (0.6 if steps else 0.3):
                # prefer recent results so that operations chain
                i = cands[-1] if rng.random() < 0.5 else rng.choice(cands)
                args.append(i)
                metas.append(pool[i])
            else:
                ks2 = ks if not (pos == 1 and metas[0].kind == "py") else (set(ks) - {"py"})
                want = sc
                if want is None and pos == 1 and rng.random() < 0.85 and metas[0].kind != "py":
                    want = metas[0].scaled
                if op.name in ("stack", "concat") and pos == 1:
                    ks2 = {metas[0].kind}
                m = new_input(ks2, shape_for(rng, op, pos, metas), dom, want)
                if m is None:
                    good = False
                    break
                pool.append(m)
                args.append(len(pool) - 1)
                metas.append(m)
        if not good:
            del inputs[saved[0]:], pool[saved[1]:]
            continue
        p = op.params(rng, metas)
        kinds = [m.kind for m in metas]
        ok = op.outkind(kinds) if op.outkind else metas[0].kind
        if p is None or ok is None:
            del inputs[saved[0]:], pool[saved[1]:]
            continue
        p2 = dict(p, _sf=sf, _prot=protname)
        try:
            res = op.ref([m.val for m in metas], p2)
        except Exception:
            del inputs[saved[0]:], pool[saved[1]:]
            continue
        outs = list(res) if op.multi else [res]
        if callable(op.scale):
            scaled = op.scale(metas)
        else:
            scaled = metas[0].scaled if metas[0].kind != "py" else metas[1].scaled
        if family.big(outs, lim):
            del inputs[saved[0]:], pool[saved[1]:]
            continue
        if op.name == "split":
            p["_n"] = len(outs)
        steps.append({"op": op.name, "args": args, "p": p, "n": len(outs)})
        oks = ok if isinstance(ok, list) else [ok] * len(outs)
        for o, k in zip(outs, oks):
            mm = Meta(k, np.shape(o), False if k in ("bool", "pubbool") else scaled, family.num(o), ("step", len(steps) - 1))
            mm.prot = protname
            pool.append(mm)
    # masked results: revealing them does not use the mask, multiplying does
    if only is None and any(o.name == "square" for o in ops) and rng.random() < 0.8:
        used = {a for st in steps for a in st["args"]}
        for i, m in list(enumerate(pool)):
            if m.kind == "mask" and i not in used and m.src[0] == "step" and not family.big([m.val ** 2], lim):
                steps.append({"op": "square", "args": [i], "p": {}, "n": 1})
                mm = Meta("priv", m.shape, m.scaled, m.val ** 2, ("step", len(steps) - 1))
                mm.prot = protname
                pool.append(mm)
                break
    # the pool order mixes inputs and results: record it
    spec = {"seed": seed, "prot": protname, "inputs": inputs, "steps": steps,
            "order": [list(m.src) for m in pool]}
    mode = rng.choices(*zip(*(modes or family.modes(protname))))[0]
    if mode == "function" and any(st["op"] in family.nofn for st in steps):
        mode = "eager"
    spec["mode"] = mode
    if mode == "function" and scheds:
        spec["sched"] = gen_sched(rng)
    spec["faults"] = []
    if faults and rng.random() < 0.35:
        for _ in range(rng.randrange(1, 3)):
            spec["faults"].append({"at": rng.randrange(5, 900) if rng.random() < 0.5 else rng.randrange(5, 120),
                                   "kind": rng.choice(["connection_lost", "step_aborted", "alloc_fail"])})
    return spec


def gen_sched(rng):
    s = {"seed": rng.getrandbits(32), "max_delay": rng.choice([0, 3, 40, 200]), "policy": rng.choice(["random", "random", "sticky", "fifo"])}
    if rng.random() < 0.4:
        s["slow"] = {str(rng.randrange(0, 4)): rng.choice([5, 30])}
    if rng.random() < 0.4:
        a, b = rng.sample(range(0, 4), 2)
        t = rng.randrange(0, 150)
        s["partitions"] = [[a, b, t, t + rng.randrange(50, 1500)]]
    return s


def mk_sched(s):
    from .boot import dev

    return graph.Scheduler(
        s["seed"], max_delay=s["max_delay"], policy=s["policy"],
        slow={dev(int(k)): v for k, v in (s.get("slow") or {}).items()},
        partitions=[(dev(a), dev(b), t0, t1) for a, b, t0, t1 in (s.get("partitions") or [])],
    )


def shrink_program(spec):
    out = []
    s = dict(spec)
    if s.get("faults"):
        out.append(dict(s, faults=[]))
        for i in range(len(s["faults"])):
            out.append(dict(s, faults=s["faults"][:i] + s["faults"][i + 1:]))
    # drop trailing steps
    order = s["order"]
    if len(s["steps"]) > 1:
        last = len(s["steps"]) - 1
        out.append(drop(s, last))
        for k in range(last):
            d = drop(s, k)
            if d is not None:
                out.append(d)
    if s["mode"] == "function" and s.get("sched"):
        sc = s["sched"]
        out.append(dict(s, sched=dict(sc, max_delay=0, slow={}, partitions=[])))
        if sc.get("partitions"):
            out.append(dict(s, sched=dict(sc, partitions=[])))
        if sc.get("slow"):
            out.append(dict(s, sched=dict(sc, slow={})))
    if s["mode"] != "eager":
        out.append(dict(s, mode="eager", sched=None))
    for i, inp in enumerate(s["inputs"]):
        if inp.get("style") not in ("int", None):
            out.append(dict(s, inputs=s["inputs"][:i] + [dict(inp, style="int")] + s["inputs"][i + 1:]))
    return [o for o in out if o is not None]


def drop(s, k):
    """Remove step k if nothing uses its results; also unused inputs."""
    order = [tuple(o) for o in s["order"]]
    used = set()
    for j, st in enumerate(s["steps"]):
        if j != k:
            used.update(st["args"])
    gone = [i for i, o in enumerate(order) if o == ("step", k)]
    if any(i in used for i in gone):
        return None
    gone += [i for i, o in enumerate(order) if o[0] == "in" and i not in used]
    remap, norder, ninputs = {}, [], []
    nsteps = [dict(st) for j, st in enumerate(s["steps"]) if j != k]
    for i, o in enumerate(order):
        if i in gone:
            continue
        remap[i] = len(norder)
        if o[0] == "in":
            ninputs.append(s["inputs"][o[1]])
            norder.append(["in", len(ninputs) - 1])
        else:
            norder.append(["step", o[1] - (1 if o[1] > k else 0)])
    for st in nsteps:
        st["args"] = [remap[a] for a in st["args"]]
    return dict(s, inputs=ninputs, steps=nsteps, order=norder)


# --------------------------------------------------------------------------


class Bad(Exception):
    def __init__(self, sig, msg, detail=None):
        super().__init__(msg)
        self.sig = sig
        self.detail = detail


def static_shape(t):
    try:
        return list(t.shape.as_list())
    except Exception:
        try:
            return list(t.shape)
        except Exception:
            return None


def run_program(family, spec, salt=0, listeners=(), hook=None, audit=None):
    """One execution.  -> dict with problems (list), values, counters."""
    byname = {o.name: o for o in family.ops}
    res = {"problems": [], "cov": [], "retries": 0}
    sim = Sim(spec["seed"] * 7 + salt)
    for f in spec.get("faults") or []:
        sim.fail_at[f["at"]] = {"connection_lost": "connection_lost", "step_aborted": "abort", "alloc_fail": "alloc_fail"}[f["kind"]]
    sim.hash_values = True
    sim.listeners = list(listeners)
    if spec.get("sched"):
        sim.scheduler = mk_sched(spec["sched"])
    mode = spec["mode"]
    with sim, (audit or contextlib.nullcontext()):
        def attempt(what, f):
            last = None
            for k in range(8):
                try:
                    return f()
                except SIM_ERRORS as e:
                    if not is_injected(e):
                        raise
                    res["retries"] += 1
                    last = e
            raise last

        cfg, prot = attempt("setup", lambda: fresh(spec["prot"], debug=(mode == "debug"), **spec.get("protargs", {})))
        ctx = family.ctx(prot, spec["prot"])
        sf = family.sf(spec["prot"])
        if hook:
            hook(sim, cfg, prot)

        vals = [family.make_value(i) for i in spec["inputs"]]

        def put_inputs():
            return [attempt("input", lambda i=i, v=v: family.build_input(prot, i, v)) for i, v in zip(spec["inputs"], vals)]

        order = [tuple(o) for o in spec["order"]]

        def execute(tin):
            pool = [None] * len(order)
            for j, o in enumerate(order):
                if o[0] == "in":
                    pool[j] = tin[o[1]]
            tags = [None] * len(order)
            for k, st in enumerate(spec["steps"]):
                op = byname[st["op"]]
                xs = [pool[a] for a in st["args"]]
                if audit and mode not in ("function", "graph"):
                    audit.check_now(sim, "before " + st["op"])
                try:
                    if mode in ("function", "graph"):
                        out = op.call(prot, xs, dict(st["p"]))
                    else:
                        out = attempt(st["op"], lambda: op.call(prot, xs, dict(st["p"])))
                except SIM_ERRORS:
                    raise
                except Exception as e:
                    raise Bad("refused:%s:%s" % (st["op"], type(e).__name__),
                              "%s on %s raised %s: %s" % (st["op"], describe(spec, order, st), type(e).__name__, str(e)[:400]),
                              detail=tb()) from e
                outs = list(out) if op.multi else [out]
                slots = [j for j, o in enumerate(order) if o == ("step", k)]
                if len(outs) != len(slots):
                    raise Bad("arity:%s" % st["op"], "%s returned %d results, expected %d" % (st["op"], len(outs), len(slots)))
                for j, t in zip(slots, outs):
                    pool[j] = t
                    tags[j] = st["op"]
            return pool

        def decode_all(pool, reveal_only=False):
            out = []
            for t in pool:
                out.append(family.reveal(prot, t))
            return out

        try:
            tin = put_inputs()
            if mode in ("function", "graph"):
                args = [t for t in tin if family.is_tensor(t)]
                box = {}

                def body(*ts):
                    it = iter(ts)
                    ti = [next(it) if family.is_tensor(t) else t for t in tin]
                    try:
                        pool = execute(ti)
                    except Bad as b:
                        box["bad"] = b
                        raise
                    box["shapes"] = [static_shape(t) if family.is_tensor(t) else None for t in pool]
                    return [family.reveal(prot, t) for t in pool if family.is_tensor(t)]

                f = tfe.function(tf.autograph.experimental.do_not_convert(body))
                if mode == "graph":
                    keep = sim.scheduler
                    sim.scheduler = None
                try:
                    revealed = attempt("function", lambda: f(*args))
                except SIM_ERRORS:
                    raise
                except Exception:
                    if "bad" in box:
                        raise box["bad"]
                    raise
                if audit:
                    audit.check_graph(sim, "in the traced program")
                shapes = box.get("shapes")
                it = iter(revealed)
                rv, pos = [], 0
                for j, o in enumerate(order):
                    if o[0] == "in" and not family.is_tensor(tin[o[1]]):
                        rv.append(vals[o[1]])
                    else:
                        rv.append(next(it))
                if spec.get("twice"):
                    # a second call must compute the same thing from the same inputs
                    again = attempt("function", lambda: f(*args))
                    it = iter(again)
                    rv2 = [None if (o[0] == "in" and not family.is_tensor(tin[o[1]])) else next(it) for o in order]
                else:
                    rv2 = None
            else:
                pool = execute(tin)
                shapes = [static_shape(t) if family.is_tensor(t) else None for t in pool]
                rv = attempt("reveal", lambda: decode_all(pool))
                rv2 = None
                if audit:
                    audit.check_now(sim, "at the end")
            for which, values in (("", rv), ("second call: ", rv2)):
                if values is None:
                    continue
                dec = []
                for j, t in enumerate(values):
                    if t is None or not family.is_tensor(t):
                        dec.append(family.num(vals[order[j][1]]))
                        continue
                    copies = attempt("decode", lambda: family.copies(prot, t))
                    for c in copies[1:]:
                        if c.shape != copies[0].shape or not np.array_equal(c, copies[0]):
                            raise Bad("disagree:%s" % opname(spec, order, j),
                                      which + "parties hold different copies of the revealed value of %s" % opname(spec, order, j))
                    v = attempt("decode", lambda: family.native(prot, t))
                    dec.append(family.num(v))
                check_values(family, spec, order, byname, vals, dec, shapes, ctx, sf, res, which)
        except Bad as b:
            res["problems"].append((b.sig, str(b), b.detail))
        except (StopIteration, KeyboardInterrupt):
            raise
        except Exception as e:  # not an operation of the program: inputs, revealing
            res["problems"].append(("error:%s" % type(e).__name__, "the program failed with %s: %s" % (type(e).__name__, str(e)[:500]), tb()))
        res["ops"] = sim.ops
        res["messages"] = sim.messages
        res["trace"] = sim.digest.hexdigest()[:24]
        faults = dict(sim.injected)
        if sim.scheduler:
            sch = sim.scheduler
            res["ticks"] = sch.now
            res["sched"] = "%x" % sch.order
            faults["message_delayed"] = sch.delayed
            if sch.cut:
                faults["partition_hit"] = sch.cut
            if sch.slow:
                faults["slow_party"] = 1
        res["faults"] = faults
    return res


def tb():
    import traceback

    return traceback.format_exc()[-1800:]


def opname(spec, order, j):
    o = order[j]
    if o[0] == "in":
        return "input:" + spec["inputs"][o[1]]["kind"]
    return spec["steps"][o[1]]["op"]


def describe(spec, order, st):
    d = []
    for a in st["args"]:
        o = order[a]
        if o[0] == "in":
            i = spec["inputs"][o[1]]
            d.append("%s%s%s" % (i["kind"], i["shape"], "" if i["scaled"] else "(unscaled)"))
        else:
            d.append("result of " + spec["steps"][o[1]]["op"])
    return "(%s) with %s [%s, %s]" % (", ".join(d), {k: v for k, v in st["p"].items()}, spec["prot"], spec["mode"])


def kind_of(spec, order, j, byname):
    o = order[j]
    if o[0] == "in":
        return POOLKIND[spec["inputs"][o[1]]["kind"]]
    st = spec["steps"][o[1]]
    op = byname[st["op"]]
    ks = [kind_of(spec, order, a, byname) for a in st["args"]]
    r = op.outkind(ks) if op.outkind else ks[0]
    return r if not isinstance(r, list) else r[[i for i, q in enumerate(order) if q == o].index(j)]


def scaled_of(spec, order, j, byname):
    o = order[j]
    if o[0] == "in":
        return spec["inputs"][o[1]]["scaled"]
    st = spec["steps"][o[1]]
    op = byname[st["op"]]
    ms = [Meta(kind_of(spec, order, a, byname), [], scaled_of(spec, order, a, byname), None, None) for a in st["args"]]
    if kind_of(spec, order, j, byname) in ("bool", "pubbool"):
        return False
    if callable(op.scale):
        return op.scale(ms)
    return ms[0].scaled if ms[0].kind != "py" else ms[1].scaled


def check_values(family, spec, order, byname, vals, dec, shapes, ctx, sf, res, which):
    for j, o in enumerate(order):
        if o[0] == "in":
            inp = spec["inputs"][o[1]]
            if inp["kind"] == "py":
                continue
            want = family.num(vals[o[1]])
            tol = 1.0001 * ctx["ulp"] if inp["scaled"] else 0.0
            (family.judge or judge)(res, dec[j], want, tol, "input:" + inp["kind"], which + "input %s %s" % (inp["kind"], inp["shape"]), spec, False, ctx, False)
    for k, st in enumerate(spec["steps"]):
        op = byname[st["op"]]
        ops = []
        for a in st["args"]:
            o = order[a]
            if o[0] == "in" and spec["inputs"][o[1]]["kind"] == "py":
                v = vals[o[1]]
                # a python number is encoded with the other operand's scaling
                other = [b for b in st["args"] if b != a]
                s = scaled_of(spec, order, other[0], byname)
                ops.append(np.asarray(enc_py(v, s, sf)))
            else:
                ops.append(dec[a])
        ks = [kind_of(spec, order, a, byname) for a in st["args"]]
        ss = [scaled_of(spec, order, a, byname) if x != "py" else None for a, x in zip(st["args"], ks)]
        nsc = sum(1 for s in ss if s)
        if "py" in ks and nsc:
            nsc += 1
        p = dict(st["p"], _sf=sf, _nscaled=nsc, _prot=spec["prot"])
        want = op.ref(ops, p)
        wants = list(want) if op.multi else [want]
        slots = [j for j, o in enumerate(order) if o == ("step", k)]
        if op.check:
            why = op.check(ops, p, [dec[j] for j in slots])
            if why:
                sig, why = why if isinstance(why, tuple) else ("mismatch:%s" % st["op"], why)
                res["problems"].append((sig, which + "%s%s: %s" % (st["op"], describe(spec, order, st), why), None))
                continue
        for n, (j, w) in enumerate(zip(slots, wants)):
            w = family.num(w)
            if op.check and n == len(slots) - 1:
                w = dec[j]  # decided above
            if op.tol == "exact":
                tol = 0.0
            else:
                tol = op.tol(ctx, ops, w, p)
            d = which + "%s%s" % (st["op"], describe(spec, order, st))
            if shapes and shapes[j] is not None and list(w.shape) != shapes[j]:
                res["problems"].append(("shape:%s" % st["op"], "%s: reported shape %s, should be %s" % (d, shapes[j], list(w.shape)), None))
            composite = op.tol != "exact"
            (family.judge or judge)(res, dec[j], w, tol, st["op"], d, spec, composite, ctx, boolres=op.boolres)
        res["cov"].append("%s|%s|%s|%s|%s|r%s" % (st["op"], "+".join(ks), "".join("s" if s else "u" for s in ss), spec["prot"], spec["mode"],
                                               "".join(str(np.ndim(x)) for x in ops)))


def enc_py(v, scaled, sf):
    if scaled:
        return float(int(v * sf)) / sf
    return float(int(v))


def judge(res, got, want, tol, what, desc, spec, composite, ctx, boolres):
    if got.shape != want.shape:
        res["problems"].append(("shape:%s" % what, "%s: value of shape %s, should be %s" % (desc, got.shape, want.shape), None))
        return
    if not got.size:
        return
    err = np.abs(got - want)
    lim = tol + 1e-9 * np.maximum(1.0, np.abs(want))
    bad = ~(err <= lim)
    if bad.any():
        e = float(np.max(np.where(np.isfinite(err), err, np.inf)))
        i = tuple(int(q) for q in np.unravel_index(int(np.argmax(bad)), bad.shape))
        huge = bool(np.all(err[bad] > ctx.get("wrap_min", np.inf)))
        frac = float(bad.mean())
        sig = "mismatch:%s" % what
        res["problems"].append((sig, "%s: element %s is %r, should be %r within %g (%d of %d elements, worst error %g)" % (
            desc, list(i), float(got[i]), float(want[i]), float(np.max(np.broadcast_to(lim, want.shape)[i])), int(bad.sum()), bad.size, e),
            {"wrap": bool(composite and (huge or ctx.get("composite_wrap"))), "frac": frac}))


def decide(family, spec, hook=None, listeners=(), audit=None):
    """Run, and tell a wrap of the probabilistic truncation from a defect."""
    r = run_program(family, spec, hook=hook, listeners=listeners, audit=audit)
    out = {"violation": None, "ops": r["ops"], "messages": r["messages"], "trace": r["trace"], "faults": r["faults"],
           "ticks": r.get("ticks", 0), "cov": r["cov"], "sched": r.get("sched"), "probes": {}, "nontrivial": bool(spec["steps"]),
           "detail": None}
    if r["retries"]:
        out["probes"]["retried_after_fault"] = 1
        out["probes"]["completed_after_fault"] = 1
    out["probes"]["mode_" + spec["mode"]] = 1
    for sig, msg, det in r["problems"]:
        if isinstance(det, dict) and det.get("wrap"):
            again = 0
            for salt in (101, 202, 303):
                r2 = run_program(family, dict(spec, faults=[]), salt=salt)
                if any(s == sig for s, _, _ in r2["problems"]):
                    again += 1
            if again == 0:
                out["probes"]["truncation_wrap_tolerated"] = out["probes"].get("truncation_wrap_tolerated", 0) + 1
                continue
        out["violation"] = msg
        out["sig"] = sig
        out["detail"] = det if not isinstance(det, str) else None
        if isinstance(det, str):
            out["tb"] = det
        break
    return out


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]
