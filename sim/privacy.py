"""Does any party's view depend on a secret?

One simulated program is executed many times with the same schedule, the same faults and
fresh party randomness: half of the times with secrets A, half with secrets B.  Every
tensor of rank one or more may be repeated N times along its first axis, so that one
execution already gives N samples of every message.  A long list of features is computed
from each party's view; a feature decides "the view depends on the secret" only if it
separates the A-executions from the B-executions completely, over `PAIRS` executions
each: a real-valued feature by being larger in every A than in every B (or the other way
round), a categorical one by being the same in all A, the same in all B, and different.
If the views are equally distributed the chance of that is 2/C(2n, n) for any single
feature: about 6e-14 for n = 24.  Executions stop as soon as no feature is left.
"""
import contextlib
import random

from .boot import *  # noqa: F401,F403
from .boot import MASTER, Sim, dev, fresh, np, tf, tfe
from .progs import POOLKIND, Meta, SIM_ERRORS, is_injected, gen_program, mk_sched, tb
from .view import TELLING, Views

PAIRS = 24
SECRET = ("priv", "mask", "bool", "bpriv")
OWN = {"server0": "owner-b", "server1": "owner-a", "server2": "owner-b"}
OPENS = ("reveal",)  # operations that are meant to open a value
NOROW = ("privvar_from_pub",)


# --------------------------------------------------------------------------
# programs


def is_secret(inp):
    return POOLKIND[inp["kind"]] in SECRET


def rows(v, n):
    v = np.asarray(v)
    return np.repeat(v[:1], n, axis=0)


def replay_ref(family, spec, vals):
    """Values of every slot of the program, or None if something does not fit."""
    byname = {o.name: o for o in family.ops}
    sf = family.sf(spec["prot"])
    order = [tuple(o) for o in spec["order"]]
    pool = [family.num(vals[o[1]]) if o[0] == "in" else None for o in order]
    for k, st in enumerate(spec["steps"]):
        op = byname[st["op"]]
        p = dict(st["p"], _sf=sf, _prot=spec["prot"])
        xs = [pool[a] for a in st["args"]]
        odom = family.domain(op, spec["prot"])
        doms = odom if isinstance(odom, tuple) and isinstance(odom[0], (tuple, type(None))) and len(op.kinds) > 1 else [odom] * len(op.kinds)
        for x, d in zip(xs, doms):
            if d is not None and x.size and (x.min() < d[0] or x.max() > d[1]):
                return None
        try:
            r = op.ref(xs, p)
        except Exception:
            return None
        outs = list(r) if op.multi else [r]
        slots = [j for j, o in enumerate(order) if o == ("step", k)]
        if len(slots) != len(outs):
            return None
        for j, v in zip(slots, outs):
            pool[j] = family.num(v)
    return pool


def batchable(family, spec, flags):
    """Every slot is either the same whatever the number of rows or has N equal rows."""
    def run(n):
        vals = []
        for i, f in zip(spec["inputs"], flags):
            v = family.make_value(i)
            vals.append(rows(v, n) if f else v)
        return replay_ref(family, spec, vals)

    a, b = run(2), run(3)
    if a is None or b is None:
        return False
    order = [tuple(o) for o in spec["order"]]
    for k, st in enumerate(spec["steps"]):  # a maximum over N rows takes too long
        if "max" in st["op"] and any(a[x].shape != b[x].shape for x in st["args"]) \
                and all(a[j].shape == b[j].shape for j, o in enumerate(order) if o == ("step", k)):
            return False
    seen = False
    for x, y in zip(a, b):
        if x.shape == y.shape:
            if not np.array_equal(x, y):
                return False
            continue
        if x.ndim != y.ndim or x.ndim == 0 or x.shape[0] * 3 != y.shape[0] * 2 or x.shape[1:] != y.shape[1:]:
            return False
        if x.shape[0] != 2:
            return False
        if not (np.array_equal(x[:1], x[1:]) and np.array_equal(x[:1], y[1:2])):
            return False
        seen = True
    return seen


def small(family, spec, pool):
    lim = family.limit(spec["prot"])
    return pool is not None and not any(family.big([x], lim) for x in pool)


def gen_extreme(family, rng, protocols):
    """A product close to the largest or smallest value the encoding allows: masks must cover all of it."""
    c = {"pond": 43.0, "pond100": 110.0}
    prots = [p for p in protocols if p in c]
    if not prots:
        return None
    for _ in range(40):
        spec = gen_program(family, rng.getrandbits(48), protocols=prots, only={"mul"}, nsteps=1)
        if len(spec["steps"]) != 1 or len(spec["inputs"]) != 2 or not all(i["scaled"] and i["kind"] != "py" and i["shape"] for i in spec["inputs"]):
            continue
        if not is_secret(spec["inputs"][0]) or spec["inputs"][0]["kind"] in NOROW or spec["inputs"][1]["kind"] in NOROW:
            continue
        for i in spec["inputs"]:
            i.update(lo=c[spec["prot"]], hi=c[spec["prot"]], style="uniform")
            if is_secret(i):
                i["owner"] = OWN.get(i["owner"], i["owner"])
        spec["inputs"][0]["flip"] = True
        spec["vseed_b"] = 0
        spec["rows"] = [True, True]
        if not batchable(family, spec, spec["rows"]):
            continue
        spec["N"] = 1021
        return spec
    return None


# programs of many operations; unless rows are repeated each needs many executions
HEAVY = {"softmax", "softmax_wide", "argmax", "sort", "exp", "exp_neg", "exp2", "log", "reciprocal", "reciprocal_neg", "inv_sqrt", "prod",
         "polynomial_piecewise", "multi_polynomial", "reduce_max_with_argmax", "maxpool2d_with_argmax", "maxpool2d", "sigmoid", "reduce_max"}


def gen_core(seed, index, core, protocols, families, tier):
    """Two of three programs: one interactive building block, each in turn; the others: any program."""
    rng = random.Random(seed)
    while True:
        s = None
        if index % 3 < 2:
            name, op = core[(index // 3 * 2 + index % 3) % len(core)]
            s = gen_private(family_of(name), rng.getrandbits(48), protocols[name], only={op}, nsteps=1, unbatched=0.25, tier=tier)
        if s is None:
            name = rng.choice(families)
            s = gen_private(family_of(name), rng.getrandbits(48), protocols[name], tier=tier)
        if s:
            s["family"] = name
            if tier == "thorough":
                s["maxops"] = 5000000
            return s


def family_of(name):
    from .families import family

    return family(name)


def gen_private(family, seed, protocols, batched=None, tries=60, only=None, modes=None, unbatched=0.3, nsteps=None, tier=None):
    rng = random.Random(seed)
    if only is None and rng.random() < 0.05:
        spec = gen_extreme(family, rng, protocols)
        if spec:
            return spec
    want_batch = rng.random() >= unbatched if batched is None else batched
    for t in range(tries):
        spec = gen_program(family, rng.getrandbits(48), protocols=protocols, only=only, modes=modes, nsteps=nsteps or rng.choice([1, 1, 1, 2, 2, 3]))
        if any(st["op"] in OPENS for st in spec["steps"]):
            continue
        if not spec["steps"] or not any(is_secret(i) for i in spec["inputs"]):
            continue
        for i in spec["inputs"]:
            if is_secret(i):
                if i["kind"] in NOROW:
                    i["kind"] = "privvar"
                i["owner"] = OWN.get(i["owner"], i["owner"])
        spec["vseed_b"] = rng.getrandbits(40)
        vb = values(family, spec, "B")
        if not small(family, spec, replay_ref(family, spec, vb)):
            continue
        if all(np.array_equal(a, b) for a, b in zip(values(family, spec, "A"), vb)):
            continue
        flags = [False] * len(spec["inputs"])
        if want_batch:
            good = False
            for _ in range(6):
                flags = [i["kind"] != "py" and len(np.shape(family.make_value(i))) > 0 and (rng.random() < (0.93 if is_secret(i) else 0.8))
                         for i in spec["inputs"]]
                if any(f for f, i in zip(flags, spec["inputs"]) if is_secret(i)) and batchable(family, spec, flags):
                    good = True
                    break
            if not good:
                continue
        spec["rows"] = flags
        spec["N"] = 1021 if want_batch else 0
        if tier == "quick" and not want_batch and any(st["op"] in HEAVY for st in spec["steps"]):
            continue
        return spec
    return None


def values(family, spec, which, call=0):
    out = []
    for k, i in enumerate(spec["inputs"]):
        if call and is_secret(i):
            i = dict(i, vseed=(i["vseed"] + 7919 * call) % (1 << 40))
        if which == "B" and is_secret(i):
            i = dict(i, vseed=(i["vseed"] * 31 + spec["vseed_b"] + k) % (1 << 40))
        out.append(-family.make_value(i) if which == "B" and i.get("flip") else family.make_value(i))
    return out


# --------------------------------------------------------------------------
# one execution

MAXRESULTS = 150


def pick_results(items, seed):
    """a sample of the values a party computes itself; the same one in every execution of a program"""
    if len(items) <= MAXRESULTS:
        return items
    rng = random.Random(seed ^ 0x10ca1)
    chosen = set()
    for part, most in (([k for k, it in enumerate(items) if it.last], 50),
                       ([k for k, it in enumerate(items) if it.op in TELLING], 50),
                       ([k for k, it in enumerate(items) if it.direct], 30),
                       (range(len(items)), MAXRESULTS)):
        part = [k for k in part if k not in chosen]
        most = min(most, MAXRESULTS - len(chosen))
        chosen.update(part if len(part) <= most else rng.sample(part, most))
    return [items[k] for k in sorted(chosen)]


def execute(family, spec, which, entropy, extra=None, hook=None):
    """-> Views, dict of counters"""
    byname = {o.name: o for o in family.ops}
    info = {"retries": 0, "faults": {}, "refused": None}
    sim = Sim(spec["seed"] * 7 + 3)
    for f in spec.get("faults") or []:
        sim.fail_at[f["at"]] = {"connection_lost": "connection_lost", "step_aborted": "abort", "alloc_fail": "alloc_fail"}[f["kind"]]
    if spec.get("sched"):
        sim.scheduler = mk_sched(spec["sched"])
    views = Views()
    N = spec["N"]
    calls = spec.get("calls", 1)
    with sim:
        ENTROPY.reseed(entropy)
        views.attach(sim)

        def attempt(f):
            last = None
            for n in range(8):
                try:
                    views.tag = (views.tag[0], views.tag[1], n)
                    return f()
                except SIM_ERRORS as e:
                    if not is_injected(e):
                        raise
                    info["retries"] += 1
                    last = e
            raise last

        views.stage = "setup"
        cfg, prot = attempt(lambda: fresh(spec["prot"], debug=(spec["mode"] == "debug"), **spec.get("protargs", {})))
        if hook:
            hook(sim, cfg, prot)
        order = [tuple(o) for o in spec["order"]]

        def put(call):
            out = []
            views.stage = "input"
            for k, (i, v, f) in enumerate(zip(spec["inputs"], values(family, spec, which, call), spec["rows"])):
                views.tag = (call, "input %d" % k, 0)
                v = np.repeat(v[:1], N, axis=0) if f else v
                views.stage = "secret" if is_secret(i) else "input"
                out.append(attempt(lambda: family.build_input(prot, i, v)))
            return out

        kept = []

        def execute_steps(ti, call=0):
            pool = [ti[o[1]] if o[0] == "in" else None for o in order]
            for k, st in enumerate(spec["steps"]):
                op = byname[st["op"]]
                xs = [pool[a] for a in st["args"]]
                if spec["mode"] == "function":
                    out = op.call(prot, xs, dict(st["p"]))
                else:
                    views.tag = (call, "step %d" % k, 0)
                    out = attempt(lambda: op.call(prot, xs, dict(st["p"])))
                outs = list(out) if op.multi else [out]
                slots = [j for j, o in enumerate(order) if o == ("step", k)]
                for j, t in zip(slots, outs):
                    pool[j] = t
            if extra:
                extra(prot, pool)
            return pool

        if spec["mode"] == "function":
            tin = put(0)

            def body(*ts):
                it = iter(ts)
                ti = [next(it) if family.is_tensor(t) else t for t in tin]
                return [t for t in execute_steps(ti) if family.is_tensor(t)]

            f = tfe.function(tf.autograph.experimental.do_not_convert(body))
            for call in range(calls):
                if call:
                    tin = put(call)
                views.stage = "compute"
                views.tag = (call, "traced", 0)
                args = [t for t in tin if family.is_tensor(t)]
                kept.append((tin, attempt(lambda: f(*args))))
        else:
            for call in range(calls):
                tin = put(call)
                views.stage = "compute"
                kept.append((tin, execute_steps(tin, call)))
        views.finish(sim, lambda items: pick_results(items, spec["seed"]))
        del kept
        info["ops"] = sim.ops
        info["messages"] = sim.messages
        info["trace"] = sim.digest.hexdigest()[:24]
        info["faults"] = dict(sim.injected)
        if sim.scheduler:
            info["ticks"] = sim.scheduler.now
            info["sched"] = "%x" % sim.scheduler.order
            info["faults"]["message_delayed"] = sim.scheduler.delayed
            if sim.scheduler.cut:
                info["faults"]["partition_hit"] = sim.scheduler.cut
            if sim.scheduler.slow:
                info["faults"]["slow_party"] = 1
        info["parties"] = {p.device_name: p.name for p in cfg.players}
        info["prot"] = type(prot).__name__
    return views, info


# --------------------------------------------------------------------------
# features of one view


def words(a):
    if a.dtype == np.float64:
        return a.view(np.int64)
    if a.dtype == np.float32:
        return a.view(np.int32).astype(np.int64)
    return a.astype(np.int64)


def columns(a, n):
    """array -> (n, k) samples by position, or None if it is not repeated by row"""
    if not n:
        return None
    for ax, s in enumerate(a.shape):
        if s and s % n == 0:
            q = s // n
            b = np.moveaxis(a, ax, 0)
            b = b.reshape((n, q) + b.shape[1:]) if ax == 0 or q == 1 else b.reshape((n, q) + b.shape[1:])
            return b.reshape(n, -1)
    return None


MAXCOL = 192  # columns of one message that are looked at
MAXALL = 900  # columns of one view


class Flat:
    """The samples of one party's view."""

    def __init__(self, items, n, rng, classes=None):
        self.n = n
        classes = {} if classes is None else classes
        self.names = []
        W, WN, R, RN, self.single, self.sn = [], [], [], [], [], []
        self.shape = []
        self.index = []
        self.groups = []  # residue messages: slices of R
        for k, it in enumerate(items):
            if is_seed_arr(it.arr):
                continue
            a = it.arr
            self.shape.append((it.op, it.kind, str(a.dtype), a.shape, it.src))
            c = columns(a, n)
            if c is None:
                if n == 0 or a.size <= 64:
                    f = a.reshape(-1)
                    pick = range(f.size) if f.size <= MAXCOL else sorted(rng.sample(range(f.size), MAXCOL))
                    for j in pick:
                        self.single.append(int(words(f[j:j + 1])[0]))
                        self.sn.append((k, j))
                continue
            if c.shape[1] > MAXCOL:
                c = c[:, same_pick(rng, c.shape[1], MAXCOL)]
            small_ = a.dtype in (np.int32, np.int8, np.uint8, np.int16)
            if a.dtype == np.int64:
                # prime fields live in 64-bit words; decided by the first execution
                small_ = classes.setdefault(k, bool(c.size and c.min() >= 0 and 1 < c.max() < 4096))
            if small_:
                RN.append((k, c.shape[1]))
                R.append(c.astype(np.int64))
            else:
                WN.append((k, c.shape[1]))
                W.append(words(np.ascontiguousarray(c)) if a.dtype != np.bool_ else c.astype(np.int64))
        self.W, self.wn = cat(W, WN, n, rng)
        self.R, self.rn = cat(R, RN, n, rng)
        self.items = items

    def structure(self):
        return tuple(self.shape)

    def find_moduli(self):
        """message -> modulus its residues are probably of"""
        top = {}
        for c, (k, j) in enumerate(self.rn):
            top[k] = max(top.get(k, 1), int(self.R[:, c].max()))
        return {k: next((q for q in moduli() if q > t), None) for k, t in top.items()}


def same_pick(rng, n, k):
    """k of n columns; the same for all messages with n of them"""
    base = rng.__dict__.setdefault("base", rng.getrandbits(32))
    return sorted(random.Random(base * 131 + n).sample(range(n), k))


def is_seed_arr(a):
    return a.dtype == np.int32 and a.shape == (8,)


def cat(arrs, names, n, rng):
    tot = sum(a.shape[1] for a in arrs)
    nm = []
    keep = []
    share = max(1, MAXALL // max(1, len(arrs)))
    for a, (k, c) in zip(arrs, names):
        if tot > MAXALL and c > share:
            a = a[:, same_pick(rng, c, share)]
        keep.append(a)
        nm.extend((k, j) for j in range(a.shape[1]))
    if not keep:
        return np.zeros((n, 0), np.int64), []
    m = np.concatenate(keep, 1)
    if m.shape[1] > 2 * MAXALL:
        pick = sorted(rng.sample(range(m.shape[1]), 2 * MAXALL))
        m = m[:, pick]
        nm = [nm[i] for i in pick]
    return np.ascontiguousarray(m), nm


def bitint(col):
    return int.from_bytes(np.packbits(col.astype(np.uint8)).tobytes(), "big")


def relations(cols, n):
    """affine relations over GF(2): for each column the hash of how it follows from earlier ones, or 0"""
    ones = bitint(np.ones(n, np.uint8))
    basis = {}
    out = []
    for idx, v in enumerate([ones] + cols):
        m = 1 << idx
        while v:
            h = v.bit_length()
            b = basis.get(h)
            if b is None:
                basis[h] = (v, m)
                break
            v ^= b[0]
            m ^= b[1]
        out.append(0 if v else hash(m) or 1)
    return out[1:]


def pair_relations(M, modulus):
    """columns equal up to sign and a constant, modulo 2^64 or 2^64-1 or m"""
    out = np.zeros(M.shape[1], np.int64)
    if modulus == 1 << 64:
        U = M.astype(np.uint64) if M.dtype != np.uint64 else M
        D = U - U[:1]
        NG = (np.uint64(0) - D)
        fold = lambda x, y, s: int((int(x) + s * int(y)) % modulus)
    else:
        m = modulus
        if m == (1 << 64) - 1:
            U = M.astype(np.uint64)
            base = U[:1]
            D = U - base - (U < base).astype(np.uint64)
            NG = np.where(D == 0, np.uint64(0), np.uint64(m) - D)
        else:
            U = M % m
            D = (U - U[:1]) % m
            NG = (-D) % m
        fold = lambda x, y, s: int((int(x) + s * int(y)) % m)
    seen = {}
    for j in range(M.shape[1]):
        d = D[:, j]
        if not d.any():
            continue
        kd, kn = hash(np.ascontiguousarray(d).tobytes()), hash(np.ascontiguousarray(NG[:, j]).tobytes())
        if kd in seen:
            r = seen[kd]
            out[j] = hash((r, 1, fold(U[0, j], U[0, r], -1))) or 1
        elif kn in seen:
            r = seen[kn]
            out[j] = hash((r, -1, fold(U[0, j], U[0, r], 1))) or 1
        else:
            seen[kd] = j
    return out


CANDMOD = None


def moduli():
    global CANDMOD
    if CANDMOD is None:
        c = {37, 67, 101, 107, 131}
        try:
            from tf_encrypted.tensor import int100 as _i  # noqa: F401
            from tf_encrypted.tensor.int100 import int100factory  # noqa: F401

            src = _i.int100factory
            for name in ("moduli", "m"):
                v = getattr(src, name, None)
                if v:
                    c.update(int(q) for q in v)
        except Exception:
            pass
        c.update([1201, 1433, 1217, 1237, 1321, 1103, 1129, 1367, 1093, 1039])
        CANDMOD = sorted(c)
    return CANDMOD


def features(flat, fseed, need=None):
    """-> list of (name, kind, array); same order and lengths for equal structures; only those in need"""
    n = flat.n
    out = []

    def want(name):
        return need is None or name in need

    def rnd(name):
        return random.Random("%d %s" % (fseed, name))

    if flat.single and want("value"):
        out.append(("value", "cat", np.array(flat.single, np.int64)))
    if n == 0:
        return out + [f for f in few_features(flat, rnd("few")) if want(f[0])]
    W, R = flat.W, flat.R
    if W.shape[1]:
        U = W.view(np.uint64)
        if want("bits"):
            means = np.empty((64, W.shape[1]))
            for j in range(64):
                means[j] = ((U >> np.uint64(j)) & np.uint64(1)).mean(0)
            out.append(("bits", "real", means.reshape(-1)))
        if want("zero"):
            out.append(("zero", "real", (W == 0).mean(0)))
        if want("pair"):
            out.append(("pair", "cat", pair_relations(W, 1 << 64)))
        if want("pairodd"):
            out.append(("pairodd", "cat", pair_relations(W, (1 << 64) - 1)))
        ent = {}
        for c, (k, j) in enumerate(flat.wn):
            ent.setdefault(k, []).append(c)
        ks = sorted(ent)
        # one column of each message at a common position
        for t in range(3):
            name = "linear%d" % t
            if not want(name):
                continue
            rng = rnd(name)
            sl = (0, 63, rng.randrange(64))[t]
            q = rng.randrange(64)
            line = [ent[k][q % len(ent[k])] for k in ks]
            cols = line if len(line) <= 260 else sorted(rng.sample(line, 260))
            out.append((name, "cat", np.array(relations([bitint((U[:, c] >> np.uint64(sl)) & np.uint64(1)) for c in cols], n), np.int64)))
        # products of bits
        for t in range(2):
            name = "product%d" % t
            if not (want(name) or want("both%d" % t) or want("xor%d" % t)):
                continue
            rng = rnd(name)
            sl = 0 if t == 0 else rng.randrange(64)
            q = rng.randrange(64)
            line = [ent[k][q % len(ent[k])] for k in ks]
            if len(line) > 24:
                w0 = rng.randrange(12, len(line) - 12)
                line = line[:12] + line[w0:w0 + 12]
            b = [(U[:, c] >> np.uint64(sl)) & np.uint64(1) for c in line]
            if want(name):
                cols = [bitint(x) for x in b]
                quad = [cols[i] & cols[j] for i in range(len(cols)) for j in range(i)]
                out.append((name, "cat", np.array(relations(cols + quad, n), np.int64)))
            idx = [(rng.randrange(len(b)), rng.randrange(len(b))) for _ in range(80)]
            if want("both%d" % t):
                out.append(("both%d" % t, "real", np.array([(b[i] & b[j]).mean() for i, j in idx])))
            if want("xor%d" % t):
                out.append(("xor%d" % t, "real", np.array([(b[i] ^ b[j]).mean() for i, j in idx])))
        # all bits of a few words
        if want("cross"):
            rng = rnd("cross")
            q = rng.randrange(64)
            line = [ent[k][q % len(ent[k])] for k in ks]
            if len(line) > 10:
                w0 = rng.randrange(3, len(line) - 6)
                line = line[:3] + line[w0:w0 + 7]
            cols = [bitint((U[:, c] >> np.uint64(s)) & np.uint64(1)) for c in line for s in range(64)]
            out.append(("cross", "cat", np.array(relations(cols, n), np.int64)))
        if want("equal"):
            e_ = []
            for k in ks:
                c = np.sort(W[:, ent[k]], 1)
                eq = c[:, 1:] == c[:, :-1]
                e_.append(eq.mean() if eq.size else 0.0)
            out.append(("equal", "real", np.array(e_)))
        # order of pairs of words
        rng = rnd("less")
        idx = [(rng.randrange(W.shape[1]), rng.randrange(W.shape[1])) for _ in range(200)]
        if want("less"):
            out.append(("less", "real", np.array([(U[:, i] < U[:, j]).mean() for i, j in idx])))
        if want("below"):
            out.append(("below", "real", np.array([(W[:, i] < W[:, j]).mean() for i, j in idx])))
    if R.shape[1]:
        if want("rbits"):
            rb = [((R >> j) & 1).mean(0) for j in range(12)]
            out.append(("rbits", "real", np.concatenate(rb)))
        if want("rzero"):
            out.append(("rzero", "real", (R == 0).mean(0)))
        if want("rone"):
            out.append(("rone", "real", (R == 1).mean(0)))
        ent = {}
        for c, (k, j) in enumerate(flat.rn):
            ent.setdefault(k, []).append(c)
        if want("rowzero"):
            rows_ = []
            for k in sorted(ent):
                z = (R[:, ent[k]] == 0)
                rows_.append(z.any(1).mean())
                rows_.append(z.all(1).mean())
            out.append(("rowzero", "real", np.array(rows_)))
        if want("distinct"):
            # how often values of one row of one message agree
            d_ = []
            for k in sorted(ent):
                M = np.sort(R[:, ent[k]], 1)
                eq = M[:, 1:] == M[:, :-1]
                d_.append(eq.mean() if eq.size else 0.0)
                nz = eq & (M[:, 1:] != 0)
                d_.append(nz.mean() if eq.size else 0.0)
            out.append(("distinct", "real", np.array(d_)))
        cand = moduli()
        for m in cand:
            cs = [c for k in sorted(ent) for c in ent[k] if flat.mods.get(k) == m]
            if len(cs) > 1 and want("rpair%d" % m):
                res = np.zeros(R.shape[1], np.int64)
                res[cs] = pair_relations(R[:, cs], m)
                out.append(("rpair%d" % m, "cat", res))
            if m in (37, 107) and len(cs) > 2 and want("rlinear%d" % m):
                q = rnd("rlinear").randrange(64)
                line = [ent[k][q % len(ent[k])] for k in sorted(ent) if flat.mods.get(k) == m][:90]
                out.append(("rlinear%d" % m, "cat", linear_mod(R[:, line], m)))
    return out


def linear_mod(M, p):
    """for each column: hash of its expression by earlier ones modulo p, or 0"""
    n, c = M.shape
    M = np.concatenate([np.ones((n, 1), np.int64), M % p], 1)
    basis = []  # (pivot row, vector with pivot 1, combination)
    out = []
    for j in range(c + 1):
        v = M[:, j].copy()
        m = np.zeros(c + 1, np.int64)
        m[j] = 1
        for pr, bv, bm in basis:
            f = v[pr]
            if f:
                v = (v - f * bv) % p
                m = (m - f * bm) % p
        nz = np.flatnonzero(v)
        if len(nz):
            inv = pow(int(v[nz[0]]), -1, p)
            basis.append((nz[0], v * inv % p, m * inv % p))
            out.append(0)
        else:
            out.append(hash(m.tobytes()) or 1)
    return np.array(out[1:], np.int64)


MAXFEW = 900


def few_features(flat, rng):
    """few samples: single bits, sums and differences of pairs"""
    v = np.array(flat.single, np.int64)
    if len(v) > MAXFEW:
        v = v[sorted(rng.sample(range(len(v)), MAXFEW))]
    out = []
    if not len(v):
        return out
    u = v.view(np.uint64)
    bits = ((u[:, None] >> np.arange(64, dtype=np.uint64)) & np.uint64(1)).astype(np.float64)
    out.append(("bits", "real", bits.reshape(-1)))
    i, j = np.triu_indices(len(v), 1)
    with np.errstate(over="ignore"):
        out.append(("sum", "cat", (u[i] + u[j]).view(np.int64)))
        out.append(("difference", "cat", (u[i] - u[j]).view(np.int64)))
        out.append(("xorwords", "cat", (u[i] ^ u[j]).view(np.int64)))
        # three at a time
        t = rng_triples(rng, len(v))
        if len(t):
            a, b, c = t.T
            for sa in (u[b] + u[c], u[b] - u[c], u[b] ^ u[c], np.uint64(0) - u[b] - u[c]):
                out.append(("three", "cat", (u[a] + sa).view(np.int64)))
            out.append(("threexor", "cat", (u[a] ^ u[b] ^ u[c]).view(np.int64)))
    return out


def rng_triples(rng, n):
    if n < 3:
        return np.zeros((0, 3), int)
    if n <= 60:
        return np.array([(a, b, c) for a in range(n) for b in range(a) for c in range(b)])
    g = np.random.Generator(np.random.PCG64(rng.getrandbits(40)))
    # close to each other, and any
    a = g.integers(0, n, 60000)
    b = np.clip(a + g.integers(-12, 13, 60000), 0, n - 1)
    c = np.clip(a + g.integers(-12, 13, 60000), 0, n - 1)
    return np.stack([a, b, c], 1)


# --------------------------------------------------------------------------
# the test


class Separation:
    """Which features have separated A from B in every execution so far."""

    def __init__(self):
        self.f = None
        self.pushed = {"A": 0, "B": 0}

    def push(self, feats, which, n):
        self.pushed[which] += 1
        if self.f is None:
            self.f = []
            for name, kind, a in feats:
                self.f.append({"name": name, "kind": kind, "A": None, "B": None, "idx": np.arange(len(a)), "len": len(a)})
        byname = {name: (kind, a) for name, kind, a in feats}
        for e in self.f:
            if not len(e["idx"]):
                continue
            if e["name"] not in byname:
                raise Misaligned("feature %s missing" % e["name"])
            name, (kind, a) = e["name"], byname[e["name"]]
            if e["len"] != len(a):
                raise Misaligned("feature %s differs" % name)
            x = a[e["idx"]]
            if kind == "real":
                if e[which] is None:
                    e[which] = (x.copy(), x.copy())
                else:
                    lo, hi = e[which]
                    e[which] = (np.minimum(lo, x), np.maximum(hi, x))
            else:
                if e[which] is None:
                    e[which] = x.copy()
                    e.setdefault("ok" + which, np.ones(len(x), bool))
                else:
                    e["ok" + which] &= e[which] == x

    def narrow(self, n, first):
        left = 0
        for e in self.f:
            if not len(e["idx"]):
                continue
            if e["A"] is None or e["B"] is None:
                left += len(e["idx"])
                continue
            if e["kind"] == "real":
                (la, ha), (lb, hb) = e["A"], e["B"]
                keep = (ha < lb) | (hb < la)
                if first and n and e["name"] not in ("distinct", "equal"):
                    p = (la + lb) / 2
                    sd = np.sqrt(np.maximum(p * (1 - p), 0.25 / n) * 2 / n)
                    keep &= np.abs(la - lb) > 5 * sd
                e["A"] = (la[keep], ha[keep])
                e["B"] = (lb[keep], hb[keep])
            else:
                keep = e["okA"] & e["okB"] & (e["A"] != e["B"])
                e["A"], e["B"] = e["A"][keep], e["B"][keep]
                e["okA"], e["okB"] = e["okA"][keep], e["okB"][keep]
            e["idx"] = e["idx"][keep]
            left += len(e["idx"])
        return left

    def need(self):
        return None if self.f is None else {e["name"] for e in self.f if len(e["idx"])}

    def left(self):
        return [(e["name"], int(i)) for e in self.f for i in e["idx"]]


class Misaligned(Exception):
    pass


def watched(info, spec):
    """parties whose view must not depend on the secrets: device -> name"""
    w = {d: n for d, n in info["parties"].items() if not n.startswith("owner")}
    secrets = [i for i in spec["inputs"] if is_secret(i)]
    if spec["mode"] != "function" and all(i["kind"] in ("privin", "maskin", "win", "bin_") for i in secrets) and not any(
            i["kind"] in ("win", "bin_") and i.get("word") == 128 for i in secrets):
        w[dev(0)] = MASTER
    return w


def locate(flat, name, i):
    """which message a feature is about"""
    try:
        if name in ("value", "bits", "zero", "pair", "pairodd"):
            if flat.n == 0:
                k, j = flat.sn[i // 64 if name == "bits" else i]
            else:
                k, j = flat.sn[i] if name == "value" else flat.wn[i % len(flat.wn)]
        elif name in ("rbits", "rzero", "rone") or name.startswith("rpair"):
            k, j = flat.rn[i % len(flat.rn)]
        else:
            return ""
        op, kind, dt, shape, src = next(s for q, s in enumerate([
            (it.op, it.kind, str(it.arr.dtype), it.arr.shape, it.src) for it in flat.items]) if q == k)
        what = {"msg": "message no. %d of the view, into %s", "draw": "random draw no. %d of the view, by %s",
                "result": "value no. %d computed from the view, by %s"}[kind] % (k, op)
        return " [%s, %s%s]" % (what, dt, list(shape))
    except Exception:
        return ""


MAXOPS = 30000  # nodes executed in all executions of one program; more once few features are left


def compare(family, spec, extra=None, pairs=PAIRS, prepare=None):
    """-> (problem or None, info)"""
    tests = {}
    structs = {}
    tot = {"executions": 0, "columns": 0, "features": 0, "ops": 0, "messages": 0, "faults": {}, "retries": 0, "ticks": 0, "traces": []}
    fseed = spec["seed"] ^ 0x7711
    smis = {}
    uni = {}
    classes, modset = {}, {}
    first_info = None
    n = spec["N"]
    last = {}
    for k in range(pairs):
        left = 0
        for which in ("A", "B"):
            v, info = execute(family, spec, which, (spec["seed"] * 1009 + k * 2 + (which == "B")) & ((1 << 60) - 1), extra=extra)
            tot["executions"] += 1
            tot["ops"] += info["ops"]
            tot["messages"] += info["messages"]
            tot["retries"] += info["retries"]
            tot["ticks"] += info.get("ticks", 0)
            if first_info is None:
                first_info = info
                tot["traces"] = info["trace"]
                tot["sched"] = info.get("sched")
            for f, c in info["faults"].items():
                tot["faults"][f] = tot["faults"].get(f, 0) + c
            w = watched(info, spec)
            for d, name in sorted(w.items()):
                flat = Flat(v.items.get(d, []), n, random.Random(fseed), classes.setdefault(name, {}))
                if name not in modset:
                    modset[name] = flat.find_moduli()
                flat.mods = modset[name]
                st = flat.structure()
                smis.setdefault(name, {"A": [], "B": []})[which].append(hash(st))
                ref = structs.setdefault(name, st)
                if st != ref:
                    continue
                t = tests.setdefault(name, Separation())
                feats = features(flat, fseed, t.need())
                tot["columns"] += flat.W.shape[1] + flat.R.shape[1] + len(flat.single)
                tot["features"] += sum(len(a) for _, _, a in feats)
                last[name] = flat
                try:
                    t.push(feats, which, n)
                except Misaligned:
                    pass
                if k < 2:
                    bad = biased(v, d, n) if n else set()
                    key = name
                    uni[key] = bad if key not in uni else (uni[key] & bad)
        for name, t in tests.items():
            if t.f is not None:
                left += t.narrow(n, k == 0)
        for name, s in smis.items():
            a, b = set(s["A"]), set(s["B"])
            if len(a) == 1 and len(b) == 1 and a != b:
                left += 1
        if k == 0 and any(uni.values()):
            left += 1
        if not left:
            break
        if tot["ops"] > spec.get("maxops", MAXOPS) * (5 if k >= 5 else 1):
            tot["cut"] = 1
            break
    else:
        for name in sorted(tests):
            f = tests[name].left() if tests[name].f else []
            if f and min(tests[name].pushed.values()) < pairs - 4:
                tot["unaligned"] = 1  # too few executions looked alike to tell
                f = []
            if f:
                names = sorted({q for q, _ in f})
                return ("leak:" + "+".join(names[:1]), "what %s sees tells two secrets apart: %d features (%s) separate %d executions with one from %d with the other%s" % (
                    name, len(f), ", ".join(names), pairs, pairs, locate(last[name], *f[0]))), tot, first_info
        for name in sorted(smis):
            a, b = set(smis[name]["A"]), set(smis[name]["B"])
            if len(a) == 1 and len(b) == 1 and a != b:
                return ("leak:structure", "the messages %s gets differ in number, kind or shape between two secrets" % name), tot, first_info
    for name in sorted(uni):
        if uni[name] and not tot.get("cut"):
            b = sorted(uni[name])[0]
            return ("share:not-uniform", "share of an input reaching %s is not uniform: %s" % (name, b)), tot, first_info
    return None, tot, first_info


def biased(views, device, n):
    """input shares delivered to a server: bits that are not fair coins"""
    bad = set()
    k = -1
    for it in views.items.get(device, []):
        k += 1
        if it.stage != "secret" or it.arr.dtype not in (np.int64, np.bool_) or it.kind != "msg":
            continue
        c = columns(it.arr, n)
        if c is None:
            continue
        nb = 1 if it.arr.dtype == np.bool_ else 64
        u = c.astype(np.int64).view(np.uint64) if nb > 1 else c.astype(np.uint64)
        for j in range(nb):
            m = ((u >> np.uint64(j)) & np.uint64(1)).mean(0)
            z = np.abs(m - 0.5) * 2 * np.sqrt(n)
            for q in np.flatnonzero(z > 7):
                bad.add("bit %d of element %d of message %d (into %s)" % (j, q, k, it.op))
    return bad


# --------------------------------------------------------------------------


MAXVOLUME = 60000000  # elements produced in one execution


def plan_rows(family, spec, extra=None):
    """As many rows as are affordable; none if the program computes along the rows."""
    if not spec["N"]:
        return spec
    got = {}
    for n in (3, 5):
        v, info = execute(family, dict(spec, N=n), "A", 1, extra=extra)
        got[n] = (v.volume, info["ops"] - info["retries"])
    row = max(1, (got[5][0] - got[3][0]) // 2)
    if got[3][1] == got[5][1] or spec.get("faults"):
        for n in (1021, 509, 251):
            if n * row <= MAXVOLUME and row * 2 <= got[3][0] + 64:
                return dict(spec, N=n)
    return dict(spec, N=0, rows=[False] * len(spec["rows"]))


def decide_private(family, spec, extra=None):
    out = {"violation": None, "cov": [], "nontrivial": False, "faults": {}, "probes": {}}
    try:
        spec = plan_rows(family, spec, extra)
        problem, tot, info = compare(family, spec, extra=extra)
    except Exception as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        out["probes"]["program_refused"] = 1
        out["tb"] = tb()
        out["refused"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        return out
    out.update(ops=tot["ops"], messages=tot["messages"], trace=tot["traces"], faults=tot["faults"], ticks=tot["ticks"], sched=tot.get("sched"))
    out["nontrivial"] = tot["columns"] > 0
    out["probes"].update({"mode_" + spec["mode"]: 1, "batched" if spec["N"] else "single": 1, "executions": tot["executions"],
                          "message_columns": tot["columns"], "features": tot["features"]})
    if tot["retries"]:
        out["probes"]["retried_after_fault"] = 1
    if tot.get("cut"):
        out["probes"]["cut_short"] = 1
    if tot.get("unaligned"):
        out["probes"]["executions_not_alike"] = 1
    for st in spec["steps"]:
        out["cov"].append("%s|%s|%s|%s" % (st["op"], spec["prot"], spec["mode"], "rows" if spec["N"] else "single"))
    if problem:
        out["sig"], out["violation"] = problem
        out["violation"] += " (%s on %s, %s)" % (", ".join(st["op"] for st in spec["steps"]), spec["prot"], spec["mode"])
        out["sig"] += ":" + "+".join(sorted({st["op"] for st in spec["steps"]}))
    return out
