"""Cluster configurations survive saving, and say where everything is placed."""
from sim.cluster import decide_cluster
from sim.cluster import gen_cluster
from sim.cluster import shrink_cluster

META = {
    "runs": {"quick": 3000, "thorough": 60000},
    "rule": "a run counts when it made at least one check; distinct means distinct list of actions and faults",
    "run_timeout": 60,
    "recycle": 200,
    "faults": ["party_crashed", "disk_full", "disk_error"],
    "probes": ["checks_made", "act_save", "act_load", "act_ask", "act_place", "act_servers", "act_local"],
    "real": ["tf_encrypted.config", "tf_encrypted.player", "protocol set-up, inputs and local operations (traced, not executed)", "json"],
    "stubs": ["disk: in-memory files behind the config module's open", "tf.distribute.Server and experimental_connect_to_host: recorded, not started"],
    "measure": "action | outcome",
}


def gen(seed, index, tier):
    return gen_cluster(seed)


def run(spec):
    return decide_cluster(spec)


shrink = shrink_cluster
