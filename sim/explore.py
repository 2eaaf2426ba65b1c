"""Development aid: run n specs in this process and group the problems."""
import collections
import hashlib
import importlib
import sys
import time
import traceback

prop, n = sys.argv[1], int(sys.argv[2])
off = int(sys.argv[3]) if len(sys.argv) > 3 else 0
mod = importlib.import_module("checks." + prop.lower())
groups = collections.OrderedDict()
t0 = time.time()
slow = []
for i in range(off, off + n):
    h = hashlib.sha256(("%s/%s/%s" % (1, prop.upper(), i)).encode()).digest()
    spec = mod.gen(int.from_bytes(h[:6], "big"), i, "quick")
    t = time.time()
    try:
        r = mod.run(spec)
    except Exception as e:
        r = {"violation": "%s: %s" % (type(e).__name__, str(e)[:300]), "sig": "exc:" + type(e).__name__, "tb": traceback.format_exc()[-1500:]}
    slow.append((time.time() - t, i))
    if r.get("violation"):
        groups.setdefault(r["sig"], []).append((i, r["violation"], r.get("tb")))
for s, v in groups.items():
    print("##", s, len(v))
    for i, m, tbk in v[:20]:
        print("   ", i, m[:700])
    if v[0][2] and "-v" in sys.argv:
        print(v[0][2][-900:])
slow.sort(reverse=True)
print("total", time.time() - t0, "slowest", slow[:5])
