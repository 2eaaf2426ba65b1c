"""No ABY3 server's view depends on the secrets."""
from sim.families import PROTOCOLS
from sim.families import family
from sim.privacy import decide_private
from sim.privacy import gen_core
from sim.progs import shrink_program

META = {
    "runs": {"quick": 90, "thorough": 12000},
    "rule": "a run counts when at least one message column was compared between secrets; distinct means distinct program, mode, schedule and fault list",
    "run_timeout": 150,
    "hang": "inconclusive",
    "recycle": 40,
    "faults": ["connection_lost", "abort", "alloc_fail", "message_delayed", "partition_hit", "slow_party"],
    "probes": ["retried_after_fault", "mode_eager", "mode_debug", "mode_function", "batched", "single", "executions", "message_columns", "features"],
    "real": ["tf_encrypted.protocol (ABY3)", "tf_encrypted.tensor", "tf_encrypted.operations.secure_random (native, rebuilt)", "TensorFlow kernels"],
    "stubs": ["cluster: one process, one logical device per party", "OS entropy: seeded stream behind libsodium's implementation hook", "TensorFlow's executor, for tfe.function: node-by-node seeded scheduler"],
    "measure": "operation | protocol | mode | batched or single; schedules by a rolling hash of the node order",
}


CORE = [("words", "b2a"), ("aby3", "mul"), ("words", "a2b"), ("aby3", "matmul"), ("words", "mul_ab"), ("aby3", "truncate"), ("words", "bit_extract"),
        ("aby3", "mul_trunc2"), ("words", "b2a_single"), ("aby3", "truncate_msb0"), ("words", "and"), ("aby3", "conv2d"), ("words", "ppa"),
        ("words", "b2a"), ("aby3", "square"), ("words", "carry"), ("words", "select_bits"), ("approx", "relu"), ("words", "or"),
        ("aby3", "truncate_msb0"), ("words", "msb"), ("words", "less_than"), ("words", "equal_zero"), ("approx", "maximum"), ("words", "b2a"),
        ("aby3", "to_private"), ("words", "select"), ("aby3", "mul_nd")]


def gen(seed, index, tier):
    return gen_core(seed, index, CORE, PROTOCOLS, ["aby3", "words", "words", "approx"], tier)


def run(spec):
    return decide_private(family(spec["family"]), spec)


shrink = shrink_program
