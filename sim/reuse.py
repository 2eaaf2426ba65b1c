"""Is any masking randomness used twice?

Histories of one deployment: a program is called several times with new secrets, eagerly,
in debug mode or traced once and called again, with operations that fail half-way and are
repeated.  Two kinds of checks:

* over the record of all random draws of a history: a seed is expanded for one purpose only
  (one operation attempt, one shape and range, once on each party), except for a fresh seed
  of one sharing, which its dealer may expand as well as the party it is for; what fresh
  draws return never repeats;
* over the views of the parties, as in privacy.py: with fresh secrets in every call, two
  messages under the same mask differ by something that tells the secrets apart.  All rows
  of a batch hold the same secret, so a message which is the same in all rows while being
  different from execution to execution has one mask for all rows.
"""
import random

from .boot import np
from .privacy import (Flat, compare, execute, gen_private, plan_rows, replay_ref, small, values, watched, is_secret)
from .progs import tb


def gen_history(family, seed, protocols, tries=60):
    rng = random.Random(seed)
    for _ in range(tries):
        spec = gen_private(family, rng.getrandbits(48), protocols, unbatched=0.1)
        if spec is None or spec["inputs"][0].get("flip"):
            continue
        spec["calls"] = rng.choice([2, 2, 2, 3])
        if all(small(family, spec, replay_ref(family, spec, values(family, spec, w, c))) for w in "AB" for c in range(spec["calls"])):
            return spec
    return None


def draws_problem(views, names):
    """-> (sig, text) or None; over one history"""
    by = {}
    for d in views.draws:
        if d.seed is not None:
            by.setdefault(d.seed, []).append(d)
    n = 0

    def at(d):
        return "%s in %s of call %d%s" % (names.get(d.where, d.where), d.tag[1] or "set-up", d.tag[0] + 1, " (attempt %d)" % (d.tag[2] + 1) if d.tag[2] else "")

    for seed, ds in by.items():
        first = ds[0]
        n += len(ds)
        seen = {}
        for d in ds:
            if d.op != first.op or d.t.shape != first.t.shape or d.t.dtype != first.t.dtype or any(
                    not np.array_equal(a, b) for a, b in zip(d.args, first.args)):
                return "seed:two-purposes", "one seed is expanded to %s%s by %s and to %s%s by %s" % (
                    first.t.dtype, list(first.t.shape), at(first), d.t.dtype, list(d.t.shape), at(d)), n
            if d.tag != first.tag and d.t.size:
                return "seed:two-operations", "one seed is expanded in two operations: by %s, and by %s" % (at(first), at(d)), n
            k = d.where
            if k in seen and not d.fresh and d.t.size:
                return "seed:twice", "a party expands one seed twice in an operation: %s" % at(d), n
            seen[k] = d
    fresh = {}
    for d in views.draws:
        if d.seed is None and d.t.nbytes >= 16 and len(np.unique(d.t)) > 1:
            k = d.t.tobytes()
            if k in fresh and d.t.nbytes >= 64:
                return "draw:repeated", "two draws of fresh randomness gave the same %s%s: by %s and by %s" % (
                    d.t.dtype, list(d.t.shape), at(fresh[k]), at(d)), n
            fresh[k] = d
    return None, None, n


def rows_with_one_mask(family, spec, info, runs, names, seed):
    """messages that are constant along the rows of a batch, but not across executions"""
    n = spec["N"]
    allrows = all(f for f, i in zip(spec["rows"], spec["inputs"]) if is_secret(i))
    flats = []
    for v in runs:
        flats.append({d: Flat(v.items.get(d, []), n, random.Random(seed)) for d in names})
    for d, name in sorted(names.items()):
        fs = [f[d] for f in flats]
        if any(f.structure() != fs[0].structure() for f in fs):
            continue
        for part, idx in (("W", "wn"), ("R", "rn")):
            ms = [getattr(f, part) for f in fs]
            if any(m.shape != ms[0].shape for m in ms) or not ms[0].shape[1]:
                continue
            const = np.ones(ms[0].shape[1], bool)
            for m in ms:
                const &= (m == m[:1]).all(0)
            first = np.stack([m[0] for m in ms])
            moving = np.array([len(np.unique(first[:, j])) for j in range(first.shape[1])])
            # the same in every row of every execution, different in all executions
            bad = const & (moving == len(ms))
            for j in np.flatnonzero(bad):
                k = getattr(fs[0], idx)[j][0]
                it = fs[0].items[k]
                if it.kind == "msg" or (it.kind == "result" and allrows):
                    return "mask:one-for-all-rows", "all %d rows of a value on %s carry the same mask (%s no. %d, %s %s, %s%s)" % (
                        n, name, "message" if it.kind == "msg" else "result", k, "into" if it.kind == "msg" else "by", it.op, it.arr.dtype, list(it.arr.shape))
    return None


def decide_reuse(family, spec):
    out = {"violation": None, "cov": [], "nontrivial": False, "faults": {}, "probes": {}}
    ndraws = 0
    try:
        spec = plan_rows(family, spec)
        problem = None
        runs = []
        names = {}
        for k in range(4):
            v, info = execute(family, spec, "A", (spec["seed"] * 77 + k) & ((1 << 60) - 1))
            names = watched(info, spec)
            if k == 0:
                s, text, ndraws = draws_problem(v, info["parties"])
                if s:
                    problem = (s, text)
                    break
            if spec["N"]:
                runs.append(v)
        if problem is None and spec["N"]:
            problem = rows_with_one_mask(family, spec, info, runs, names, spec["seed"])
        tot = None
        if problem is None:
            problem, tot, info = compare(family, spec)
        else:
            tot = {"executions": 1, "columns": 0, "features": 0, "ops": info["ops"], "messages": info["messages"], "faults": info["faults"],
                   "retries": info["retries"], "ticks": info.get("ticks", 0), "traces": info["trace"], "sched": info.get("sched")}
    except Exception as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        out["probes"]["program_refused"] = 1
        out["tb"] = tb()
        out["refused"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        return out
    out.update(ops=tot["ops"], messages=tot["messages"], trace=tot["traces"], faults=tot["faults"], ticks=tot["ticks"], sched=tot.get("sched"))
    out["nontrivial"] = ndraws > 0 or tot["columns"] > 0
    out["probes"].update({"mode_" + spec["mode"]: 1, "batched" if spec["N"] else "single": 1, "executions": tot["executions"],
                          "seed_expansions": ndraws, "message_columns": tot["columns"], "calls": spec["calls"]})
    if tot["retries"]:
        out["probes"]["retried_after_fault"] = 1
    for st in spec["steps"]:
        out["cov"].append("%s|%s|%s|%s" % (st["op"], spec["prot"], spec["mode"], "rows" if spec["N"] else "single"))
    if problem:
        out["sig"], out["violation"] = problem
        out["violation"] += " (%s on %s, %s, %d calls)" % (", ".join(st["op"] for st in spec["steps"]), spec["prot"], spec["mode"], spec["calls"])
        out["sig"] += ":" + "+".join(sorted({st["op"] for st in spec["steps"]}))
    return out
