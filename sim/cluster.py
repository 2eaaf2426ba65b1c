"""Histories of cluster configurations: parties that save, copy, load and use them while
disks fail and processes crash.

The seams: `open` as seen by tf_encrypted.config (a simulated disk), TensorFlow's server
and cluster connection (recorded, not started), and TensorFlow graphs, in which operations
carry the device of their player without being executed.
"""
import builtins
import errno
import json
import random
from collections import OrderedDict

from . import boot
from .boot import np, tf, tfe

NAMES = ["server0", "server1", "server2", "master", "crypto-producer", "input-provider", "result-receiver", "weights-provider",
         "client", "client1", "client10", "a", "b", "ab", "Server0", "server 3", "\u00fcber", "0", "s\"q", "x.y"]


class Crash(BaseException):
    """The process is gone."""


class Disk:
    """What survives a crash: name -> text.  Everything else goes to the real `open`."""

    ROOT = "/simdisk/"

    def __init__(self):
        self.files = {}
        self.fault = None  # (kind, after so many characters)
        self.hits = {}

    def hit(self, k):
        self.hits[k] = self.hits.get(k, 0) + 1

    def open(self, name, mode="r", *a, **k):
        if not (isinstance(name, str) and name.startswith(self.ROOT)):
            return builtins.open(name, mode, *a, **k)
        return File(self, name, mode)


class File:
    def __init__(self, disk, name, mode):
        self.disk, self.name, self.mode = disk, name, mode.replace("t", "")
        self.pos = 0
        self.closed = False
        f = disk.fault
        if f and f[0] == "open_error":
            disk.hit("disk_error")
            raise OSError(errno.EACCES, "simulated")
        if self.mode[0] == "r":
            if name not in disk.files:
                raise FileNotFoundError(errno.ENOENT, "simulated", name)
        elif self.mode[0] == "w":
            disk.files[name] = ""
        elif self.mode[0] == "a":
            disk.files.setdefault(name, "")
            self.pos = len(disk.files[name])
        elif self.mode[0] == "x" and name in disk.files:
            raise FileExistsError(errno.EEXIST, "simulated", name)
        self.buf = ""
        self.done = 0

    def write(self, s):
        self.buf += s
        return len(s)

    def flush(self):
        d = self.disk
        s, self.buf = self.buf, ""
        f = d.fault
        if f and f[0] in ("full", "crash", "io_error") and self.done + len(s) > f[1]:
            keep = s[:max(0, f[1] - self.done)]
            self._put(keep)
            if f[0] == "crash":
                d.hit("party_crashed")
                raise Crash()
            d.hit("disk_full" if f[0] == "full" else "disk_error")
            raise OSError(errno.ENOSPC if f[0] == "full" else errno.EIO, "simulated")
        self._put(s)

    def _put(self, s):
        t = self.disk.files[self.name]
        self.disk.files[self.name] = t[:self.pos] + s + t[self.pos + len(s):]
        self.pos += len(s)
        self.done += len(s)

    def read(self, n=-1):
        f = self.disk.fault
        if f and f[0] == "read_error":
            self.disk.hit("disk_error")
            raise OSError(errno.EIO, "simulated")
        t = self.disk.files[self.name][self.pos:]
        t = t if n is None or n < 0 else t[:n]
        self.pos += len(t)
        return t

    def truncate(self, n=None):
        self.disk.files[self.name] = self.disk.files[self.name][:self.pos if n is None else n]

    def seek(self, p, w=0):
        self.flush()
        self.pos = p

    def close(self):
        if not self.closed:
            self.closed = True
            if self.mode[0] != "r" or "+" in self.mode:
                self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def fileno(self):
        raise OSError(errno.EBADF, "simulated")


class Bad(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig


def gen_cluster(seed):
    rng = random.Random(seed)
    kinds = ["edit", "save", "save", "load", "load", "ask", "ask", "place", "servers", "local", "local"]
    acts = [{"k": "edit", "r": rng.getrandbits(40)}, {"k": "save", "r": rng.getrandbits(40)}]
    for _ in range(rng.randrange(5, 16)):
        a = {"k": rng.choice(kinds), "r": rng.getrandbits(40)}
        if a["k"] in ("save", "load") and rng.random() < 0.35:
            a["fault"] = rng.choice(["full", "crash", "crash", "io_error", "open_error", "read_error"])
            a["at"] = rng.choice([0, 1, rng.randrange(0, 40), rng.randrange(0, 200)])
        acts.append(a)
    return {"seed": seed, "acts": acts}


def shrink_cluster(s):
    acts = s["acts"]
    out = []
    size = max(1, len(acts) // 2)
    while size >= 1:
        for i in range(0, len(acts), size):
            out.append(dict(s, acts=acts[:i] + acts[i + size:]))
        if size == 1:
            break
        size //= 2
    for i, a in enumerate(acts):
        if a.get("fault"):
            out.append(dict(s, acts=acts[:i] + [{k: v for k, v in a.items() if k != "fault"}] + acts[i + 1:]))
    return [o for o in out if o["acts"] and len(o["acts"]) <= len(acts)]


class World:
    def __init__(self, spec):
        self.spec = spec
        self.disk = Disk()
        self.now = None  # hostmap being edited: list of (name, host)
        self.stored = {}  # file -> list of acceptable contents; None among them: an error is acceptable
        self.parties = {}  # party -> (RemoteConfig, hostmap it must describe)
        self.checked = 0
        self.cov = set()
        self.where = ""

    def must(self, cond, sig, msg):
        self.checked += 1
        if not cond:
            raise Bad(sig, "%s: %s" % (self.where, msg))

    # -- actions --
    def act_edit(self, rng, a):
        if self.now is None or rng.random() < 0.4:
            names = rng.sample(NAMES, rng.randrange(1, 9))
            self.now = [(n, self.host(rng)) for n in names]
            return
        m = list(self.now)
        k = rng.choice(["add", "drop", "move", "host", "shuffle", "swap"])
        if k == "add":
            n = rng.choice([n for n in NAMES if n not in dict(m)] or ["z"])
            if n not in dict(m):
                m.insert(rng.randrange(len(m) + 1), (n, self.host(rng)))
        elif k == "drop" and len(m) > 1:
            m.pop(rng.randrange(len(m)))
        elif k == "host":
            i = rng.randrange(len(m))
            m[i] = (m[i][0], self.host(rng))
        elif k == "shuffle":
            rng.shuffle(m)
        elif k == "swap" and len(m) > 1:  # two players trade machines
            i, j = rng.sample(range(len(m)), 2)
            m[i], m[j] = (m[i][0], m[j][1]), (m[j][0], m[i][1])
        else:
            m.reverse()
        self.now = m

    def host(self, rng):
        return rng.choice(["10.0.0.%d:4440" % rng.randrange(1, 30), "localhost:%d" % rng.randrange(1024, 1060), "host-%d.example.org:%d" % (rng.randrange(9), rng.randrange(1, 99)),
                           "[::1]:%d" % rng.randrange(1, 99)])

    def remote(self, m, plain=False):
        return tfe.RemoteConfig(dict(m) if plain else OrderedDict(m))

    def act_save(self, rng, a):
        if not self.now:
            return
        f = Disk.ROOT + rng.choice(["config.json", "config.json", "b.json"])
        cfg = self.remote(self.now, rng.random() < 0.2)
        self.describes(cfg, self.now, "the configuration made from a host map")
        old = self.stored.get(f, [None])
        kind = a.get("fault")
        self.disk.fault = (kind, a["at"]) if kind else None
        try:
            cfg.save(f)
            ok = True
        except Crash:
            ok = False
        except OSError:
            ok = False
            self.must(kind is not None, "save:error", "saving raised an error on a healthy disk")
        finally:
            self.disk.fault = None
        if ok:
            self.stored[f] = [list(self.now)]
        else:
            self.stored[f] = [None, list(self.now)] + [o for o in old if o is not None]
        self.cov.add("save|%s|%s" % (kind, ok))

    def act_load(self, rng, a):
        if not self.stored:
            return
        f = rng.choice(sorted(self.stored))
        kind = a.get("fault")
        self.disk.fault = (kind, a["at"]) if kind else None
        try:
            cfg = tfe.RemoteConfig.load(f)
        except Crash:
            return
        except Exception as e:
            self.must(None in self.stored[f] or (kind in ("open_error", "read_error") and isinstance(e, OSError)), "load:error",
                      "a configuration that was saved cannot be loaded: %s: %s" % (type(e).__name__, e))
            self.cov.add("load|error|%s" % kind)
            return
        finally:
            self.disk.fault = None
        m = self.table(cfg)
        self.must(m in self.stored[f], "load:differs", "the file was saved with %s, and loads as %s" % (self.stored[f], m))
        self.describes(cfg, m, "the loaded configuration")
        self.parties[rng.choice(["p", "q", "r"])] = (cfg, m)
        self.cov.add("load|ok|%d" % len(m))

    def table(self, cfg):
        return [(p.name, p.host) for p in cfg.players]

    def describes(self, cfg, m, what):
        ps = list(cfg.players)
        self.must(self.table(cfg) == m, "players", "%s has players %s, should be %s" % (what, self.table(cfg), m))
        self.must(list(cfg.hosts) == [h for _, h in m], "hosts", "%s has hosts %s, should be %s" % (what, cfg.hosts, m))
        self.must(list(cfg.hostmap.items()) == m, "hostmap", "%s has the host map %s, should be %s" % (what, list(cfg.hostmap.items()), m))
        for i, p in enumerate(ps):
            d = tf.DeviceSpec.from_string(p.device_name)
            # task i of the cluster is the i-th host
            self.must(p.index == i and d.task == i and d.job and d.device_type == "CPU" and d.device_index == 0 and d.replica in (0, None), "device",
                      "%s: player %s, number %d, is index %s on %s" % (what, p.name, i, p.index, p.device_name))

    def some(self, rng):
        if not self.parties:
            self.act_edit(rng, {}) if not self.now else None
            cfg = self.remote(self.now)
            return cfg, list(self.now)
        return self.parties[rng.choice(sorted(self.parties))]

    def act_ask(self, rng, a):
        cfg, m = self.some(rng)
        known = [n for n, _ in m]
        n = rng.choice(NAMES)
        p = cfg.get_player(n)
        if n in known:
            self.must(p is not None and p.name == n and p.host == dict(m)[n] and p.index == known.index(n), "get_player", "player %r is %s" % (n, p and (p.name, p.host, p.index)))
            self.must(cfg.get_player(p) is p, "get_player", "a player object is not found as itself")
        else:
            self.must(p is None or p.name == n, "get_player:unknown", "player %r is not known but gives %s" % (n, p and (p.name, p.host)))
            try:
                q = cfg.start_server(n, start=False)
                self.must(q is None, "start_server:unknown", "a server was started for the unknown player %r" % n)
            except Bad:
                raise
            except Exception:
                pass
        want = rng.sample(known, rng.randrange(0, len(known) + 1))
        ask = want if rng.random() < 0.5 or any("," in x or x != x.strip() for x in want) else rng.choice([", ", ","]).join(want)
        if not want and not isinstance(ask, list):
            ask = []
        got = [q.name for q in cfg.get_players(ask)]
        self.must(got == want, "get_players", "asked for players %r, got %s" % (ask, got))
        self.cov.add("ask|%s|%d" % (isinstance(ask, str), len(want)))

    def act_servers(self, rng, a):
        """Every party starts its server and connects: all of them agree who is where."""
        started = {}
        joined = []

        class Server:
            target = "grpc://simulated"

            def __init__(s, cluster, job_name=None, task_index=None, start=None, **k):
                started["last"] = (tf.train.ClusterSpec(cluster).as_dict(), job_name, task_index)

        keep = tf.distribute.Server, tf.config.experimental_connect_to_host
        tf.distribute.Server = Server
        tf.config.experimental_connect_to_host = lambda remote_host=None, job_name="worker": joined.append((list(remote_host), job_name))
        try:
            cfg, m = self.some(rng)
            for n, h in m:
                cfg.start_server(n, start=rng.random() < 0.5)
                cluster, job, task = started["last"]
                hosts = cluster.get(job)
                self.must(hosts is not None and task < len(hosts) and hosts[task] == h, "start_server",
                          "the server of %s (%s) is started as %s task %s of %s" % (n, h, job, task, cluster))
                d = tf.DeviceSpec.from_string(cfg.get_player(n).device_name)
                self.must(d.job == job and d.task == task, "start_server", "%s is started as %s/%s, its operations go to %s" % (n, job, task, cfg.get_player(n).device_name))
            cfg.connect_servers()
            hosts, job = joined[-1]
            for n, h in m:
                d = tf.DeviceSpec.from_string(cfg.get_player(n).device_name)
                self.must(d.job == job and hosts[d.task] == h, "connect", "operations of %s go to %s of job %s, which is %s and not %s" % (n, d.task, job, hosts, h))
        finally:
            tf.distribute.Server, tf.config.experimental_connect_to_host = keep
        self.cov.add("servers|%d" % len(m))

    def act_local(self, rng, a):
        """LocalConfig: players are added on first use, names stay distinct."""
        auto = rng.random() < 0.7
        start = rng.sample(NAMES, rng.randrange(0, 5))
        cfg = tfe.LocalConfig(start, auto_add_unknown_players=auto) if start or rng.random() < 0.5 else tfe.LocalConfig(auto_add_unknown_players=auto)
        have = list(start)
        seen = {}
        for _ in range(rng.randrange(1, 10)):
            k = rng.choice(["get", "get", "get", "add", "many"])
            if k == "get":
                n = rng.choice(NAMES)
                p = cfg.get_player(n)
                if n not in have and not auto:
                    self.must(p is None, "local:unknown", "player %r is not known but gives %s" % (n, p and p.name))
                    continue
                if n not in have:
                    have.append(n)
                self.must(p is not None and p.name == n and p.index == have.index(n), "local:get", "player %r is %s of %s" % (n, p and (p.name, p.index), have))
                self.must(seen.setdefault(n, p) is p and cfg.get_player(p) is p, "local:same", "player %r is another object than before" % n)
            elif k == "add":
                n = rng.choice([x for x in NAMES if x not in have] or ["zz"])
                if n in have:
                    continue
                p = cfg.add_player(n)
                have.append(n)
                self.must(p.name == n and p.index == len(have) - 1, "local:add", "added player %r is %s" % (n, (p.name, p.index)))
            else:
                want = rng.sample(have, rng.randrange(0, len(have) + 1))
                got = [q.name for q in cfg.get_players(list(want))]
                self.must(got == want, "get_players", "asked for players %r, got %s" % (want, got))
            self.must([p.name for p in cfg.players] == have, "local:players", "players are %s, should be %s" % ([p.name for p in cfg.players], have))
        self.cov.add("local|%s|%d" % (auto, len(have)))

    def act_place(self, rng, a):
        """A small computation over the configuration: whose machine holds what."""
        cfg, m = self.some(rng)
        known = [n for n, _ in m]
        if len(known) < 3:
            return
        prot = rng.choice(["pond", "securenn", "aby3"])
        roles = rng.sample(known, 3)
        owner = rng.choice(known)
        receiver = rng.choice(known)
        dev = {n: cfg.get_player(n).device_name for n in known}
        secret = rng.randrange(100000, 900000) + 0.5
        tfe.set_config(cfg)
        with tf.Graph().as_default() as g:
            if prot == "pond":
                p = tfe.protocol.Pond(roles[0], roles[1], tfe.protocol.pond.OnlineTripleSource(roles[2]) if rng.random() < 0.5 else None) \
                    if "server2" in known else tfe.protocol.Pond(roles[0], roles[1], tfe.protocol.pond.OnlineTripleSource(roles[2]))
            elif prot == "securenn":
                p = tfe.protocol.SecureNN(*[cfg.get_player(r) for r in roles])
            else:
                p = tfe.protocol.ABY3(*roles)
            tfe.set_protocol(p)
            made = [0]

            def provide():
                made[0] += 1
                return tf.constant([[secret, 1.0], [2.0, 3.0]], tf.float64, name="the_secret")

            byname = rng.random() < 0.5
            x = p.define_private_input(owner if byname else cfg.get_player(owner), provide)
            shares = [s for u in x.unwrapped for s in (u if isinstance(u, (list, tuple)) else [u])]
            wheres = [dev[r] for r in roles] if prot == "aby3" else [dev[r] for r in roles[:2]]
            got = [s.device if isinstance(s.device, str) else "" for s in shares]
            want = [wheres[i // 2] for i in range(6)] if prot == "aby3" else wheres
            for i, (gd, wd) in enumerate(zip(got, want)):
                self.must(gd == wd, "place:share", "share %d of an input of %s under %s(%s) is on %r, not on %r" % (i, owner, prot, roles, gd, wd))
            for op in g.get_operations():
                if op.name.split("/")[-1].startswith("the_secret"):
                    self.must(op.device == dev[owner], "place:secret", "the plain value of %s is made on %r, not on %r" % (owner, op.device, dev[owner]))
            y = x + x
            for s, wd in zip([s for u in y.unwrapped for s in (u if isinstance(u, (list, tuple)) else [u])], want):
                self.must(s.device == wd, "place:sum", "a share of a sum is on %r, not on %r" % (s.device, wd))
            z = y.reveal()
            for s, wd in zip(z.unwrapped, wheres):
                self.must(s.device == wd, "place:public", "a copy of a public value is on %r, not on %r" % (s.device, wd))
        tfe.set_protocol(None)
        self.cov.add("place|%s|%s" % (prot, byname))

    def run(self):
        from tf_encrypted import config as cm

        cm.open = self.disk.open
        keep = tfe.get_config()
        try:
            for i, a in enumerate(self.spec["acts"]):
                self.where = "action %d (%s)" % (i, a["k"])
                getattr(self, "act_" + a["k"])(random.Random(a["r"]), a)
        finally:
            del cm.open
            tfe.set_config(keep)
            boot.reset_library_state()


def decide_cluster(spec):
    import hashlib

    w = World(spec)
    out = {"violation": None, "faults": {}, "probes": {}, "nontrivial": True, "messages": 0, "ticks": 0}
    try:
        w.run()
    except Bad as b:
        out["violation"], out["sig"] = str(b), b.sig
    except Exception as e:
        from .progs import tb

        out["violation"], out["sig"], out["tb"] = "%s failed with %s: %s" % (w.where, type(e).__name__, str(e)[:400]), "error:%s" % type(e).__name__, tb()
    out["ops"] = w.checked
    out["cov"] = sorted(w.cov)
    out["faults"] = dict(w.disk.hits)
    out["nontrivial"] = w.checked > 0
    out["probes"] = {"checks_made": w.checked}
    out["trace"] = hashlib.sha256(repr((sorted(w.disk.files.items()), w.checked, sorted(w.cov), out["violation"])).encode()).hexdigest()[:24]
    for a in spec["acts"]:
        out["probes"]["act_" + a["k"]] = out["probes"].get("act_" + a["k"], 0) + 1
    return out
