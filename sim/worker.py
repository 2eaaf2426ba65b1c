"""Worker process: executes runs of one property and reports one JSON line each."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

OUT = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # whatever the code under test prints must not corrupt the protocol
sys.stdout = sys.stderr


def emit(obj):
    OUT.write(json.dumps(obj) + "\n")
    OUT.flush()


def derive(base, prop, index):
    h = hashlib.sha256(("%s/%s/%s" % (base, prop, index)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def execute(mod, spec):
    t = time.time()
    try:
        res = mod.run(spec)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: B902  anything escaping counts against the run
        res = {
            "violation": "unexpected %s: %s" % (type(e).__name__, str(e)[:600]),
            "sig": "exception:%s" % type(e).__name__,
            "tb": traceback.format_exc()[-3000:],
        }
    res.setdefault("violation", None)
    res["wall"] = round(time.time() - t, 3)
    return res


def main():
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    emit({"ready": True})
    for line in sys.stdin:
        job = json.loads(line)
        if job.get("cmd") == "quit":
            break
        emit({"start": job["index"]})
        if "spec" in job:
            spec = job["spec"]
        else:
            spec = mod.gen(derive(job["base"], sys.argv[1], job["index"]), job["index"], job["tier"])
        res = execute(mod, spec)
        emit({"index": job["index"], "spec": spec, "res": res})


main()
