"""Variables hold exactly the last value assigned."""
from sim.history import decide_history
from sim.history import gen_history
from sim.history import shrink_history

META = {
    "runs": {"quick": 900, "thorough": 20000},
    "rule": "a run counts when at least one value was checked in it; distinct means distinct list of actions, schedule and faults",
    "run_timeout": 200,
    "recycle": 60,
    "faults": ["connection_lost", "abort", "alloc_fail", "message_delayed", "partition_hit", "slow_party"],
    "probes": ["act_assign", "act_read", "act_varop", "act_callacc", "act_callfn", "act_repeat", "act_recheck", "retried_after_fault"],
    "real": ["tf_encrypted.protocol (Pond, SecureNN, ABY3)", "tf_encrypted.tensor", "TensorFlow kernels and variables"],
    "stubs": ["cluster: one process, one logical device per party", "OS entropy: seeded stream behind libsodium's implementation hook", "TensorFlow's executor, for tfe.function: node-by-node seeded scheduler"],
    "measure": "action or operation | operand kinds | protocol; schedules by a rolling hash of the node order",
}


def gen(seed, index, tier):
    return gen_history("T12", seed, faults=0.1)


def run(spec):
    return decide_history(spec)


shrink = shrink_history
