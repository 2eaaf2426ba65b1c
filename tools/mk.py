"""Writes properties.jsonl and MANIFEST.json from one table.  python3 tools/mk.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


POND = "tf_encrypted/protocol/pond/pond.py"
TRI = "tf_encrypted/protocol/pond/triple_sources.py"
SNN = "tf_encrypted/protocol/securenn/securenn.py"
ODD = "tf_encrypted/protocol/securenn/odd_tensor.py"
ABY = "tf_encrypted/protocol/aby3/aby3.py"
FP = "tf_encrypted/protocol/aby3/fp.py"
NAT = "tf_encrypted/tensor/native.py"
I100 = "tf_encrypted/tensor/int100.py"
FIX = "tf_encrypted/tensor/fixed.py"
PROT = "tf_encrypted/protocol/protocol.py"

prop("T01", "Two-server (Pond) computations give the plaintext result",
     "Every operation of the two-server protocol, applied to any mix of public, private, masked and plain-number operands of any legal shape, decodes to what the same operation gives on the plain values, within the fixed-point rounding of that operation, and has the shape the plain operation would have. This holds eagerly, in debug mode and inside a traced function, for the 64- and 100-bit encodings, whatever the order in which parties act and messages arrive, and after an operation that failed part-way is repeated.",
     ["inputs", "programs", "schedules", "configurations", "fault_sequences"],
     "all programs over the protocol's operations, all operand kinds, shapes, values in range, encodings, execution modes, message orders and transient faults",
     "The unit tests run each operation on one or two shapes with two operand kinds in one mode without faults; combinations (broadcasting, masked operands, chained operations, repeated calls, retried operations) are not sampled.",
     [POND, TRI, NAT, I100, FIX, PROT, "tf_encrypted/convert/register.py"],
     [("pairwise dispatch on operand kinds", POND), ("Beaver triples", TRI), ("fixed-point truncation", POND), ("encoding", FIX)],
     ["decoded value of the revealed result on each server", "static shape of the result"])

prop("T02", "SecureNN comparisons and non-linear operations are exact",
     "Comparisons, equality tests, most-significant bit, selection, bit decomposition, boolean operations, maximum, arg-max, exact ReLU and max-pooling of the three-party two-server protocol give exactly the plaintext answer for every private or public operand in the supported range, including equal, negative, zero and boundary values. The result does not depend on message order, execution mode, or an earlier attempt that failed part-way.",
     ["inputs", "programs", "schedules", "fault_sequences", "configurations"],
     "all values in range, all operand kinds and shapes, all message orders and transient faults",
     "The tests compare a handful of hand-picked numbers; the comparison protocol is randomised per element, so a fault in one branch of its random choices shows up only for particular values together with particular randomness.",
     [SNN, ODD, "tf_encrypted/tensor/shared.py", NAT],
     [("private compare over a small prime field", SNN), ("share conversion to an odd ring", SNN), ("odd-ring arithmetic", ODD)],
     ["decoded value of the revealed result on each server"])

prop("T03", "ABY3 arithmetic and tensor manipulation give the plaintext result",
     "Every arithmetic, linear-algebra, convolution and shape operation of the three-server replicated protocol, applied to any mix of private, public and plain-number operands of any legal shape, decodes to what the same operation gives on the plain values, within the fixed-point rounding of that operation, and has the shape the plain operation would have. This holds eagerly, in debug mode and inside a traced function, for the 64- and 128-bit encodings, whatever the order in which parties act, and after an operation that failed part-way is repeated.",
     ["inputs", "programs", "schedules", "configurations", "fault_sequences"],
     "all programs over the protocol's operations, all operand kinds, shapes, values in range, encodings, modes, message orders and transient faults",
     "The tests fix one shape, one pair of operand kinds and one or two values for each operation.",
     [ABY, "tf_encrypted/protocol/aby3/aby3_tensors.py", NAT, "tf_encrypted/tensor/int128.py", FIX, PROT],
     [("dispatch on operand kinds", ABY), ("zero sharing and resharing in multiplication", ABY), ("three-party truncation", ABY)],
     ["decoded value of the revealed result on each server", "static shape"])

prop("T04", "ABY3 boolean sharing, conversions and comparisons are exact",
     "Boolean operations, shifts, bit manipulation, binary addition, conversion between arithmetic and boolean sharing, bit extraction, comparisons and selection of the three-server protocol give exactly the plaintext bits for every operand, bit width and supported method, including negative, equal and extreme values. The result does not depend on message order, execution mode, or an earlier attempt that failed part-way.",
     ["inputs", "programs", "schedules", "configurations", "fault_sequences"],
     "all bit patterns, widths, methods and topologies, all message orders and transient faults",
     "The tests try a few small integers per conversion; carries across the whole word, sign boundaries and non-default widths are not reached.",
     [ABY, NAT, "tf_encrypted/tensor/int128.py", "tf_encrypted/tensor/boolfactory.py"],
     [("parallel prefix adder", ABY), ("oblivious transfer in bit conversion", ABY), ("bit extraction", ABY)],
     ["decoded value of the revealed result on each server"])

prop("T05", "ABY3 approximated functions stay within their stated error",
     "Sigmoid, ReLU, exponentials, logarithm, reciprocal, inverse square root, softmax, polynomials, maximum, arg-max, pooling, sorting and products of the three-server protocol stay within a fixed error bound of the true function for every input in the documented range, and the selecting ones (ReLU, maximum, arg-max, sorting) pick the right element. The result does not depend on message order, execution mode, or an earlier attempt that failed part-way.",
     ["inputs", "programs", "schedules", "configurations", "fault_sequences"],
     "all inputs in the documented range, all shapes, axes and approximation methods, message orders and transient faults",
     "The tests check a few points with loose tolerances; errors confined to a piece boundary, a particular axis, a size that is not a power of two or one approximation method are missed.",
     [ABY, FP],
     [("piecewise polynomials", ABY), ("normalisation and Newton iterations", FP), ("comparison trees and sorting networks", ABY)],
     ["decoded value of the revealed result on each server"])

prop("T06", "No Pond or SecureNN server learns a private value before it is revealed",
     "Everything a compute server, or the triple-producing server, receives or generates while private values are shared, masked, multiplied, compared or otherwise computed on has a distribution that does not depend on those values; only an explicit reveal or an output addressed to a party changes that. Shares that reach different servers are uniformly random over the whole ring on their own.",
     ["inputs", "programs", "schedules", "histories", "configurations"],
     "all programs over private values, all secrets, all servers, all encodings",
     "Tests look at revealed results only; a protocol that leaks a share, sends both shares to one server, or uses a mask that is too small or used twice computes the same results.",
     [POND, TRI, SNN, ODD, "tf_encrypted/protocol/pond/pond.py", I100, NAT],
     [("additive sharing with a uniform share", POND), ("Beaver masking", TRI), ("blinded comparison", SNN)],
     ["tensors that cross from one party's device to another", "random draws on a party's device"])

prop("T07", "No ABY3 server learns a private value before it is revealed",
     "Everything one server of the three-server protocol receives or generates while private values are shared, multiplied, truncated, converted, compared, shuffled or otherwise computed on has a distribution that does not depend on those values; only an explicit reveal or an output addressed to a party changes that. Each server holds two of three shares which are jointly uniform, and the third never reaches it.",
     ["inputs", "programs", "schedules", "histories", "configurations"],
     "all programs over private values, all secrets, all servers, all encodings",
     "Tests look at revealed results only; a missing re-randomisation, a share sent to the wrong server, or randomness shared with the wrong pair of servers leaves every result unchanged.",
     [ABY, "tf_encrypted/operations/secure_random/secure_random.py", NAT],
     [("zero sharing added before resharing", ABY), ("pairwise keys known to exactly two servers", ABY), ("blinding in oblivious transfer and truncation", ABY)],
     ["tensors that cross from one party's device to another", "random draws on a party's device"])

prop("T08", "Masking randomness is never used twice",
     "Along every history of operations of one deployment, the randomness that masks secret data is fresh: two operations, two calls of the same operation, two elements of one result, and two multiplications by different values never share a mask, and no seed is expanded twice for different purposes. Values masked twice are masked independently, so that combining two messages never cancels the mask.",
     ["histories", "programs", "configurations", "schedules"],
     "all histories of operations, repeated operations, broadcasts and retried attempts",
     "Reused masks never change a result, so no assertion on results can notice them.",
     [ABY, POND, TRI, SNN, "tf_encrypted/operations/secure_random/secure_random.py"],
     [("nonces advanced after every use", ABY), ("one triple for each multiplication", TRI), ("fresh seed for every sharing", POND)],
     ["seeds given to the random generator, and what it produced", "messages between servers"])

prop("T10", "All parties hold consistent copies and shares at all times",
     "After every operation, all servers hold identical copies of every public value, and every replicated share of a private value is identical on the two servers that hold it; each share and copy is placed on the server it belongs to. This holds for inputs, constants, variables, intermediate and final results, in every execution mode and after failed attempts.",
     ["programs", "inputs", "histories", "schedules", "fault_sequences"],
     "all programs and histories, all servers, at every intermediate step",
     "Tests decode one server's copy; a result that is right on that server and stale, mis-shaped or differently rounded on another passes.",
     [ABY, POND, SNN],
     [("every server computes its own copy", POND), ("replicated shares", ABY)],
     ["each server's copy or shares of every intermediate value, and the device it is on"])

prop("T11", "Earlier or concurrent programs never change what a program computes",
     "A program's result depends only on its own inputs: results cached from earlier calls, an earlier protocol, cluster or graph, other functions traced in between, or calls that failed never show up in it. The same call with different arguments, and an equal call on another tensor, protocol or graph, give their own results; repeating a call gives the same value again.",
     ["histories", "programs", "configurations"],
     "all sequences of operations, protocol switches, traced and eager calls and failures in one process",
     "Each test runs in a fresh protocol and calls an operation once; stale cache entries need a history.",
     [PROT, POND, ABY, SNN, "tf_encrypted/__init__.py"],
     [("memoisation key", PROT), ("global protocol and its method registry", "tf_encrypted/__init__.py")],
     ["decoded results of each call of a long history"])

prop("T12", "Variables hold exactly the last value assigned",
     "Reading a public or private variable returns the initial value until the first completed assignment and the last assigned value afterwards, on every server, no matter how reads, assignments, computations and traced calls interleave. Assigning never changes any other variable or value already read, never mixes old and new shares, and an assignment that fails is either fully visible or can be repeated to become so.",
     ["histories", "schedules", "crash_points", "fault_sequences", "configurations"],
     "all histories of assignments and reads over several variables of every kind, all interleavings in traced functions, failures at every point",
     "The tests assign once and read once.",
     [POND, ABY, NAT, I100, "tf_encrypted/tensor/int128.py"],
     [("assignment per share on the owning server", POND), ("read_value", ABY)],
     ["value read by each server after each step of the history"])

prop("T13", "Traced programs equal eager ones under every schedule",
     "A program traced into a graph and executed by distributed parties gives the eager result for every order in which parties execute their ready steps, every message delay, a temporarily partitioned or slow party, and for every call: repeated calls with new inputs compute with the new inputs. It always finishes once messages are delivered; it never depends on timing.",
     ["schedules", "programs", "histories", "fault_sequences"],
     "all interleavings of the parties' steps and all message delays permitted by the dependencies",
     "TensorFlow's executor picks one schedule in one process; the tests see one interleaving, and mostly call a traced function once.",
     [POND, ABY, PROT, "tf_encrypted/__init__.py"],
     [("data and control dependencies in the traced graph", POND), ("tracing wrapper", "tf_encrypted/protocol/protocol.py")],
     ["decoded result of every call under a seeded schedule"])

prop("T14", "Queued and served requests are answered in order, once, with their own data",
     "Values put into a secret-shared queue come out in the order they went in, each exactly once, with the two shares of one value always paired and each share on its own server; enqueueing into a full queue and dequeueing from an empty one wait, and nothing else does; a queue never holds more than its capacity; queues with different names, and queues without a name, do not affect each other; a named queue and what is in it stay available to everybody who opened it when one of its users goes away. A model served through queues runs exactly the number of steps asked for, calling the step function after each, and answers requests in the order in which they were sent, each once, with the model's prediction for that request's own input, for any number of clients sending and collecting concurrently (several clients share the queues: an answer goes to whoever collects it next), and after the server was restarted between steps.",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "all interleavings of producers, consumers and the serving loop over all parties, slow parties and delays",
     "The one queue test enqueues once and dequeues once in one thread; the serving loop has no test.",
     ["tf_encrypted/queue/fifo.py", "tf_encrypted/serving/queues.py", POND],
     [("one FIFO per server share", POND), ("input and output queues and the step function", "tf_encrypted/serving/queues.py")],
     ["sequence of dequeued values; answers by client"])

prop("T15", "Shares written to disk are read back intact or an error is raised",
     "A private tensor written to files and read back decodes to the written value, in batches of the requested size in file order, whatever its shape and encoding, and appended data follow what was there. If the disk is full, a write fails, is cut short, or a file is missing, truncated or corrupted, the writer or reader raises an error; wrong data is never returned as if it were good.",
     ["inputs", "crash_points", "fault_sequences", "histories", "configurations"],
     "all shapes, batch sizes, append histories; disk errors, short and torn writes, full disk, crashes between the servers' writes",
     "The tests write one small tensor to a healthy disk.",
     [ABY, "tf_encrypted/operations/tf_i128_ops.py", "tf_encrypted/operations/aux/aux_ops.py", "operations/aux", NAT],
     [("one file per share, CSV records or serialised tensors", ABY)],
     ["bytes on disk, error or decoded data of the reader"])

prop("T16", "Data pipelines deliver every record to the right party unchanged",
     "Data providers, readers and private iterators deliver each record of the source with its own values in the documented order, batch by batch, with no record lost, repeated or mixed with another, and repeated passes deliver the same set; a shuffle delivers a permutation. Data of an owner is turned into shares on that owner's machine and is never placed elsewhere in the clear.",
     ["inputs", "histories", "configurations", "schedules"],
     "all record counts, batch sizes, owners, passes, and shuffles",
     "Tests read a single batch of two lines.",
     ["tf_encrypted/protocol/aby3/aby3.py", "tf_encrypted/protocol/pond/pond.py", "tf_encrypted/private_model.py"],
     [("input providers run on the owner's device", POND), ("private iteration and blinded shuffle", ABY)],
     ["decoded batches", "devices of plaintext tensors"])

prop("T17", "Private training equals plaintext training",
     "Layers, losses, gradients and optimisers of the encrypted Keras interface compute, within the accumulated fixed-point error, what plain training computes on the same data, the activations being the documented approximations: every layer's gradients with respect to weights and inputs, every loss and the gradient it hands to the model (for the cross-entropies (prediction - target) / batch size with respect to the logits), every optimiser step. Training visits every batch of the data exactly once in every epoch, in order, and the learned weights do not depend on message order.",
     ["inputs", "programs", "histories", "configurations", "schedules"],
     "all layer stacks, batch sizes, losses, optimisers, numbers of steps and epochs",
     "The tests train one layer for one step with one loss or only check that training runs.",
     ["tf_encrypted/keras/models/sequential.py", "tf_encrypted/keras/layers", "tf_encrypted/keras/losses.py", "tf_encrypted/keras/optimizers.py"],
     [("backward of each layer", "tf_encrypted/keras/layers"), ("loss gradients", "tf_encrypted/keras/losses.py"), ("optimizer update", "tf_encrypted/keras/optimizers.py")],
     ["weights after each step", "loss values", "gradients"])

prop("T18", "Private inference equals the plaintext model",
     'A model built from encrypted layers (by a list, by adding them one after another, from a configuration, or cloned from a plain Keras model) predicts, within the fixed-point error of its layers and of the documented approximations, what the plain model predicts with the same weights, for every supported layer, option, data format and input, eagerly, in debug mode and traced; its layers report the shapes of what they give. Weights set, read back, saved, restored and copied to another model are the ones used afterwards, and evaluation covers exactly the samples given.',
     ["inputs", "programs", "configurations", "histories"],
     "all stacks of supported layers and options, all protocols, all inputs in range",
     "The tests clone a few fixed two-layer models.",
     ["tf_encrypted/keras/models", "tf_encrypted/keras/layers", "tf_encrypted/keras/activations.py", "tf_encrypted/convert/convert.py", "tf_encrypted/convert/register.py"],
     [("layer forward", "tf_encrypted/keras/layers"), ("model cloning", "tf_encrypted/keras/models/sequential.py"), ("graph conversion", "tf_encrypted/convert/register.py")],
     ["decoded predictions and weights"])

prop("T19", "Secure randomness is uniform, deterministic in its seed and never repeats",
     "Random tensors cover the requested range uniformly with no value favoured or missing, for every type, shape and range; seeded expansion of the same seed gives the same tensor on every machine and different seeds give unrelated tensors. Fresh draws and fresh seeds never repeat, and come from the cryptographic source only.",
     ["inputs", "configurations", "histories"],
     "all types, ranges, shapes and seeds, all histories of draws",
     "The tests draw one small tensor and look at its range.",
     ["tf_encrypted/operations/secure_random/secure_random.py", "operations/secure_random", NAT, I100, ODD],
     [("libsodium stream cipher with rejection sampling", "operations/secure_random"), ("factories' samplers", NAT)],
     ["sampled tensors", "entropy requests"])

prop("T20", "Cluster configurations survive saving and drive placement",
     "A cluster configuration written to a file and loaded again, by any party and after any sequence of saves, describes the same players with the same names, order and addresses; a save that fails or is cut short by a crash is never loaded as a different cluster. Every party that loads it agrees which machine each player is, servers start at their player's own address, operations of a player are placed on that player's device, and asking for players by name gives exactly those players in the order asked.",
     ["configurations", "histories", "crash_points", "fault_sequences"],
     "all player lists, hosts, ports, orders of adding players, and crashes while saving",
     "The tests save one fixed configuration.",
     ["tf_encrypted/config.py", "tf_encrypted/player.py"],
     [("JSON round trip", "tf_encrypted/config.py"), ("device names from job and index", "tf_encrypted/config.py")],
     ["players of the loaded configuration", "device of each player's tensors"])

prop("T21", "A failed party or lost message is an error, never a wrong answer",
     "If a party crashes or becomes unreachable, a message is lost, or an operation is aborted at any point of a computation, the computation raises an error and no wrong result is delivered. Once the fault is gone, repeating the computation in the same process succeeds with the right result and is not influenced by what the failed attempt left behind.",
     ["crash_points", "fault_sequences", "histories", "programs"],
     "every operation index as failure point, every party, repeated failures, restarts",
     "Tests run without faults.",
     [POND, ABY, SNN, PROT, NAT],
     [("errors propagate from the executing operation", POND), ("results are cached only when complete", PROT)],
     ["outcome of every attempt"])

CHECKS = {}  # id -> level note


def check(id, note, level="exploration"):
    CHECKS[id] = (level, note)


NOTE = ("Seeded search over {}; every run is one seed, repeatable bit for bit. Assurance is that of the sampled runs; "
        "trusts TensorFlow's kernels, numpy as the reference and the seams listed in DESIGN.md.")
NA = {}
exec(open(os.path.join(HERE, "tools", "claimed.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none: the simulator uses seams the code already has (configuration of players, TensorFlow op callbacks, libsodium's implementation hook)",
              "enable": "nothing to enable", "source_commits": []},
    "checks": [
        {"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"],
         "technique": "deterministic simulation with fault injection (seeded search)", "level": CHECKS[p["id"]][0], "level_note": CHECKS[p["id"]][1]}
        for p in P if p["id"] in CHECKS],
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check under construction; not claimed yet")} for p in P if p["id"] not in CHECKS],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties,", len(m["checks"]), "claimed")
