"""No Pond or SecureNN server's view depends on the secrets."""
from sim.families import PROTOCOLS
from sim.families import family
from sim.privacy import decide_private
from sim.privacy import gen_core
from sim.progs import shrink_program

META = {
    "runs": {"quick": 150, "thorough": 12000},
    "rule": "a run counts when at least one message column was compared between secrets; distinct means distinct program, mode, schedule and fault list",
    "run_timeout": 150,
    "hang": "inconclusive",
    "recycle": 40,
    "faults": ["connection_lost", "abort", "alloc_fail", "message_delayed", "partition_hit", "slow_party"],
    "probes": ["retried_after_fault", "mode_eager", "mode_debug", "mode_function", "batched", "single", "executions", "message_columns", "features"],
    "real": ["tf_encrypted.protocol (Pond, SecureNN)", "tf_encrypted.tensor", "tf_encrypted.operations.secure_random (native, rebuilt)", "TensorFlow kernels"],
    "stubs": ["cluster: one process, one logical device per party", "OS entropy: seeded stream behind libsodium's implementation hook", "TensorFlow's executor, for tfe.function: node-by-node seeded scheduler"],
    "measure": "operation | protocol | mode | batched or single; schedules by a rolling hash of the node order",
}


CORE = [("pond", "mul"), ("pond", "matmul"), ("securenn", "greater"), ("pond", "square"), ("securenn", "lsb"), ("pond", "conv2d"),
        ("securenn", "msb"), ("pond", "mask"), ("securenn", "equal_zero"), ("pond", "avgpool2d"), ("securenn", "relu"), ("pond", "div"),
        ("securenn", "select"), ("securenn", "bitwise_and"), ("securenn", "maximum"), ("pond", "add"), ("pond", "sub"), ("securenn", "bitwise_xor"),
        ("securenn", "less_equal")]


def gen(seed, index, tier):
    return gen_core(seed, index, CORE, PROTOCOLS, ["pond", "pond", "securenn"], tier)


def run(spec):
    return decide_private(family(spec["family"]), spec)


shrink = shrink_program
