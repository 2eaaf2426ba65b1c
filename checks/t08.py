"""Masking randomness is never used twice."""
import random

from sim.families import PROTOCOLS
from sim.families import family
from sim.reuse import decide_reuse
from sim.reuse import gen_history
from sim.progs import shrink_program

META = {
    "runs": {"quick": 120, "thorough": 12000},
    "rule": "a run counts when at least one message column was compared between secrets; distinct means distinct program, mode, schedule and fault list",
    "run_timeout": 150,
    "hang": "inconclusive",
    "recycle": 40,
    "faults": ["connection_lost", "abort", "alloc_fail", "message_delayed", "partition_hit", "slow_party"],
    "probes": ["retried_after_fault", "mode_eager", "mode_debug", "mode_function", "batched", "single", "executions", "message_columns", "seed_expansions", "calls"],
    "real": ["tf_encrypted.protocol (Pond, SecureNN, ABY3)", "tf_encrypted.tensor", "tf_encrypted.operations.secure_random (native, rebuilt)", "TensorFlow kernels"],
    "stubs": ["cluster: one process, one logical device per party", "OS entropy: seeded stream behind libsodium's implementation hook", "TensorFlow's executor, for tfe.function: node-by-node seeded scheduler"],
    "measure": "operation | protocol | mode | batched or single; schedules by a rolling hash of the node order",
}


def gen(seed, index, tier):
    rng = random.Random(seed ^ 0x808)
    while True:
        name = rng.choice(["pond", "securenn", "aby3", "aby3", "aby3"])
        s = gen_history(family(name), rng.getrandbits(48), PROTOCOLS[name])
        if s:
            s["family"] = name
            return s


def run(spec):
    return decide_reuse(family(spec["family"]), spec)


shrink = shrink_program
