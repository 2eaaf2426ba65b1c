"""Copies and replicated shares agree, on the servers they belong to, at every step."""
import random

from sim.consist import Audit
from sim.families import PROTOCOLS
from sim.families import family
from sim.progs import gen_program
from sim.progs import run_program
from sim.progs import shrink_program

META = {
    "runs": {"quick": 900, "thorough": 30000},
    "rule": "a run counts when tensors were audited in it; distinct means distinct program, mode, schedule and fault list",
    "run_timeout": 180,
    "recycle": 60,
    "faults": ["connection_lost", "abort", "alloc_fail", "message_delayed", "partition_hit", "slow_party"],
    "probes": ["retried_after_fault", "mode_eager", "mode_debug", "mode_function", "tensors_audited", "copies_compared", "family_pond", "family_securenn", "family_aby3", "family_words", "family_approx"],
    "real": ["tf_encrypted.protocol (Pond, SecureNN, ABY3)", "tf_encrypted.tensor", "tf_encrypted.operations.secure_random (native, rebuilt)", "TensorFlow kernels"],
    "stubs": ["cluster: one process, one logical device per party", "OS entropy: seeded stream behind libsodium's implementation hook", "TensorFlow's executor, for tfe.function: node-by-node seeded scheduler"],
    "measure": "operation | operand kinds | scaling | protocol | mode | ranks; schedules by a rolling hash of the node order",
}


def gen(seed, index, tier):
    name = random.Random(seed ^ 0x5151).choice(["pond", "securenn", "aby3", "aby3", "words", "words", "approx"])
    s = gen_program(family(name), seed, protocols=PROTOCOLS[name])
    s["family"] = name
    return s


def run(spec):
    audit = Audit()

    def hook(sim, cfg, prot):
        sim.graph_runs = []

    r = run_program(family(spec["family"]), spec, hook=hook, audit=audit)
    out = {"violation": None, "ops": r["ops"], "messages": r["messages"], "trace": r["trace"], "faults": r["faults"],
           "ticks": r.get("ticks", 0), "cov": r["cov"], "sched": r.get("sched"), "nontrivial": audit.tensors > 0,
           "probes": {"mode_" + spec["mode"]: 1, "tensors_audited": audit.tensors, "copies_compared": audit.compared, "not_visible": audit.unseen,
                      "family_" + spec["family"]: 1}}
    if r["retries"]:
        out["probes"]["retried_after_fault"] = 1
    if r["problems"]:
        out["probes"]["program_with_problems"] = 1
    for name, why in audit.refused:
        if audit.problem is None:
            audit.problem = ("refused-parts:%s" % name, "a legal program made a %s of parts its class refuses: %s" % (name, why[:200]))
    if audit.problem:
        out["sig"], out["violation"] = audit.problem
        return out
    for sig, msg, _ in r["problems"]:
        if sig.startswith("disagree:"):
            out["sig"], out["violation"] = sig, msg
    return out


shrink = shrink_program
