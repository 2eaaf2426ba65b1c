"""Histories of draws from the random sources, under simulated entropy.

The operating system's entropy is libsodium's own hook fed by a seeded stream, so that a
whole history of draws is repeatable, can be repeated with everything but the entropy
changed, and with nothing but the entropy changed.  Draws are made from eager code, from
traced functions run by TensorFlow's own executor (which merges and folds operations),
from several devices and from several threads.  The kernels also split big draws over
four threads; which thread asks for entropy first is not controlled, and nothing that is
checked or recorded depends on it.

Every bound on a frequency is at least nine standard deviations from what is expected.
"""
import hashlib
import random
import threading

from . import boot
from .boot import ENTROPY, np, tf, tfe

SIGMAS = 9.0


class Bad(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig


def sr():
    from tf_encrypted.operations import secure_random

    return secure_random


# ---------------------------------------------------------------------------
# sources: name -> (lo, hi, draw(shape, seed or None) -> int array, object if >64 bit)

NATIVE = {"int8": tf.int8, "int16": tf.int16, "int32": tf.int32, "int64": tf.int64}


def join128(v):
    lo = v[..., 0].astype(np.uint64).astype(object)
    hi = v[..., 1].astype(object)
    return hi * (1 << 64) + lo


def crt(res, moduli):
    m = 1
    for q in moduli:
        m *= q
    x = 0
    for r, q in zip(res, moduli):
        w = m // q
        x = x + r.astype(object) * (w * pow(w, -1, q))
    return x % m, m


def factory(name):
    from tf_encrypted import tensor as T

    if name == "bool":
        return T.int1factory
    if name == "prime":
        return T.native_factory(tf.int32, 107)
    if name.startswith("prime:"):
        _, ty, q = name.split(":")
        return T.native_factory(NATIVE[ty], int(q))
    if name == "odd32":
        from tf_encrypted.protocol.securenn.odd_tensor import oddint32_factory

        return oddint32_factory
    if name == "odd64":
        from tf_encrypted.protocol.securenn.odd_tensor import oddint64_factory

        return oddint64_factory
    return getattr(T, name + "factory")


def moduli():
    t = factory("int100").tensor(np.array([0]))
    return None if t is None else len(t.backing)


def raw(t):
    """The tensors a drawn value consists of."""
    if hasattr(t, "backing"):
        return list(t.backing)
    if hasattr(t, "value"):
        return [t.value]
    return [t]


_MODULI = []


def int100_moduli():
    if not _MODULI:
        from tf_encrypted.tensor import int100factory

        # residues of -1 are modulus-1, whatever the representation
        t = int100factory.tensor(np.array([-1]))
        _MODULI.extend(int(b.numpy().reshape(-1)[0]) + 1 for b in t.backing)
    return _MODULI


def ints(src, vals):
    k = src["k"]
    vals = [np.asarray(v) for v in vals]
    if k == "op128" or src.get("f") == "int128":
        return join128(vals[0])
    if src.get("f") == "int100":
        return crt(vals, int100_moduli())[0]
    if src.get("f") == "bool":
        return vals[0].astype(np.int64)
    return vals[0]


def bounds(src):
    """Half-open range the values of a source cover."""
    k = src["k"]
    if k in ("op", "op128"):
        return int(src["lo"]), int(src["hi"])
    f = src["f"]
    if k == "bounded":
        return 0, 1 << src["b"]
    if k == "bits":
        return 0, 2
    if f == "bool":
        return 0, 2
    if f == "int100":
        m = 1
        for q in int100_moduli():
            m *= q
        return 0, m
    if f.startswith("prime"):
        q = 107 if f == "prime" else int(f.split(":")[2])
        return (int(src["lo"]) if src.get("lo") is not None else 0), q
    n = {"odd32": 32, "odd64": 64}.get(f) or int(f[3:])
    lo, hi = -(1 << (n - 1)), (1 << (n - 1))
    if src.get("lo") is not None:
        return int(src["lo"]), int(src["hi"])
    return lo, hi


def as128(v):
    v &= (1 << 128) - 1
    lo, hi = v & ((1 << 64) - 1), v >> 64
    sg = lambda u: u - (1 << 64) if u >> 63 else u
    return tf.constant([sg(lo), sg(hi)], tf.int64)


def draw(src, shape, seed=None):
    """Tensors of one draw; `seed` given only to seeded sources."""
    k = src["k"]
    if k == "op":
        d = NATIVE[src["t"]]
        if seed is None:
            return [sr().random_uniform(shape, minval=int(src["lo"]), maxval=int(src["hi"]), dtype=d)]
        return [sr().seeded_random_uniform(shape, minval=int(src["lo"]), maxval=int(src["hi"]), dtype=d, seed=seed)]
    if k == "op128":
        lo, hi = int(src["lo"]), int(src["hi"])
        enc = lambda v: (tf.constant(v, tf.int64) if src.get("scalar") and -(1 << 63) <= v < (1 << 63) else as128(v))
        if seed is None:
            return [sr().i128_random_uniform(shape, enc(lo), enc(hi))]
        return [sr().i128_seeded_random_uniform(shape, seed, enc(lo), enc(hi))]
    f = factory(src["f"])
    if k == "bounded":
        if seed is not None:
            return raw(f.sample_seeded_bounded(shape, seed, src["b"]))
        return raw(f.sample_bounded(shape, src["b"]))
    if k == "bits":
        return raw(f.sample_bits(shape))
    kw = {}
    if src.get("lo") is not None:
        kw["minval"] = int(src["lo"])
        if src.get("hi") is not None:
            kw["maxval"] = int(src["hi"])
        if src["f"] == "int128":
            kw = {a: as128(b) for a, b in kw.items()}
    if seed is None:
        return raw(f.sample_uniform(shape, **kw))
    return raw(f.sample_seeded_uniform(shape, seed, **kw))


def can_seed(src):
    if src["k"] in ("op", "op128"):
        return True
    if src["k"] == "bounded":
        return src["f"] == "int128"
    return src["k"] == "uniform" and not src["f"].startswith("odd")


def gen_range(rng, bits):
    """A half-open range within the signed type of so many bits."""
    lo0, hi0 = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    k = rng.randrange(9)
    if k == 0:
        return lo0, hi0
    if k == 1:  # three quarters of everything: a remainder alone would favour a third of it
        return lo0, lo0 + 3 * (1 << (bits - 2))
    if k == 2:  # just more than half: almost half of all candidates are refused
        return lo0, min(hi0, lo0 + (1 << (bits - 1)) + 1 + rng.randrange(3))
    if k == 3:
        span = rng.randrange(1, min(200, hi0 - lo0))
        lo = rng.randrange(lo0, hi0 - span + 1)
        return lo, lo + span
    if k == 4:
        return 0, rng.choice([2, 3, 5, 7, 10, 100, 107, 127])
    if k == 5:
        return 0, 1 << rng.randrange(0, bits - 1)
    if k == 6:
        return -rng.randrange(1, 100), rng.randrange(1, 100)
    if k == 7:
        span = rng.randrange((1 << (bits - 1)), (1 << bits) - 1)
        return lo0, lo0 + span
    lo = rng.randrange(lo0, hi0)
    return lo, rng.randrange(lo + 1, hi0 + 1)


def gen_src(rng, seeded=None):
    k = rng.choice(["op", "op", "op", "op128", "uniform", "uniform", "uniform", "bounded", "bits"])
    if seeded and k in ("bits",):
        k = "uniform"
    if k == "op":
        t = rng.choice(list(NATIVE))
        lo, hi = gen_range(rng, int(t[3:]))
        return {"k": k, "t": t, "lo": str(lo), "hi": str(hi)}
    if k == "op128":
        lo, hi = gen_range(rng, 128)
        if rng.random() < 0.3:
            lo, hi = gen_range(rng, 64)
        return {"k": k, "lo": str(lo), "hi": str(hi), "scalar": rng.random() < 0.5}
    if k == "uniform":
        fs = ["int8", "int16", "int32", "int64", "int64", "int128", "int128", "int100", "bool", "prime", "prime:int32:65537", "prime:int64:107", "prime:int64:%d" % ((1 << 61) - 1), "prime:int32:1201"]
        if not seeded:
            fs += ["odd32", "odd64"]
        f = rng.choice(fs)
        s = {"k": k, "f": f}
        if f in ("int8", "int16", "int32", "int64", "int128") and rng.random() < 0.5:
            lo, hi = gen_range(rng, int(f[3:]))
            s.update(lo=str(lo), hi=str(hi))
        elif f.startswith("prime") and rng.random() < 0.3:
            s.update(lo="1")
        return s
    if k == "bounded":
        f = rng.choice(["int128"] if seeded else ["int16", "int32", "int64", "int64", "int100", "int100", "int128", "prime"])
        top = {"int16": 14, "int32": 30, "int64": 62, "int100": 100, "int128": 128, "prime": 6}[f]
        return {"k": k, "f": f, "b": rng.randrange(1, top + 1)}
    return {"k": k, "f": rng.choice(["int16", "int32", "int64", "int128", "prime"])}


def name_of(src):
    return src["k"] + ":" + (src.get("t") or src.get("f") or "128")


# ---------------------------------------------------------------------------
# what uniform, unrelated and unrepeated mean


def limit(n, p):
    return SIGMAS * (n * p * (1 - p)) ** 0.5 + SIGMAS * 2


def count_check(sig, what, n, p, c):
    if abs(c - n * p) > limit(n, p):
        raise Bad(sig, "%s: %d of %d, expected about %.1f" % (what, c, n, n * p))


def buckets(u, span, k):
    """Bucket number of every offset, k buckets of equal width over [0, span)."""
    if span > (1 << 52):
        sh = span.bit_length() - 40
        v = (u >> sh) if u.dtype == object else np.array([int(x) >> sh for x in u], object)
        s = span / float(1 << sh)
        return np.minimum((v.astype(np.float64) * k / s).astype(np.int64), k - 1)
    return np.minimum(u.astype(np.float64) * k // span, k - 1).astype(np.int64)


def offsets(vals, lo, hi, what):
    flat = np.asarray(vals, dtype=object).reshape(-1) - lo
    span = hi - lo
    if len(flat):
        a, b = min(flat), max(flat)
        if a < 0 or b >= span:
            raise Bad("range", "%s gave %d, outside of [%d, %d)" % (what, (a if a < 0 else b) + lo, lo, hi))
    return flat if span > (1 << 62) else flat.astype(np.int64)


KNOWN = set()  # listed findings this run met


def uniform_check(u, span, what):
    n = len(u)
    if n < 64:
        return
    if span <= 4096 and n >= 20 * span:
        c = np.bincount(u.astype(np.int64), minlength=span)
        if span == 256 and what.startswith("uniform:int8") and c[255] == 0 and n / span > limit(n, 1 / span):
            KNOWN.add("whole-range:greatest-missing")
            span, c = 255, c[:255]
        for v in np.nonzero(np.abs(c - n / span) > limit(n, 1 / span))[0]:
            raise Bad("uniform", "%s: offset %d of %d came %d times in %d draws, expected about %.1f" % (what, v, span, c[v], n, n / span))
        if n / span > 60 and (c == 0).any():
            raise Bad("uniform", "%s: offset %d of %d never came in %d draws" % (what, int(np.nonzero(c == 0)[0][0]), span, n))
    if span == 1:
        return
    k = min(span, 24)
    b = buckets(u, span, k)
    exact = k == span or span > 1 << 20
    if exact:
        c = np.bincount(b, minlength=k)
        for v in range(k):
            count_check("uniform", "%s: values in part %d of %d of the range" % (what, v, k), n, 1 / k, c[v])
        # neighbours and position within a block must not matter
        pair = (b[1:] - b[:-1]) % k
        c = np.bincount(pair, minlength=k)
        for v in range(k):
            # overlapping pairs: the differences of neighbours are pairwise independent for uniform draws
            count_check("neighbours", "%s: neighbours %d parts of the range apart" % (what, v), n - 1, 1 / k, c[v])
        for per in (4, 8, 16, 64):
            if n < 64 * per:
                continue
            for j in (0, 1, per - 2, per - 1):
                s = b[j::per]
                count_check("position", "%s: values in the lower half at positions %d mod %d" % (what, j, per), len(s), ((k + 1) // 2) / k, int((s < (k + 1) // 2).sum()))
    if span > 1 << 20:
        low = (u & 0xFFFF).astype(np.int64) if span & (span - 1) == 0 or span > 1 << 40 else None
        if low is not None:
            for j in range(16):
                count_check("uniform", "%s: bit %d of the offset" % (what, j), n, 0.5, int(((low >> j) & 1).sum()))
        if span > 1 << 40:
            for q in (3, 5, 7, 11):
                c = np.bincount((u % q).astype(np.int64), minlength=q)
                for v in range(q):
                    count_check("uniform", "%s: offsets leaving %d modulo %d" % (what, v, q), n, 1 / q, c[v])
            if u.dtype == object:
                for j in range(16, span.bit_length() - 24, 7):
                    count_check("uniform", "%s: bit %d of the offset" % (what, j), n, 0.5, int(((u >> j) & 1).astype(np.int64).sum()))
    twins_check(u, span, what)


def twins_check(u, span, what):
    """No more equal values than chance makes."""
    n = len(u)
    mean = n * (n - 1) / 2.0 / span
    if mean > 0.3 * n:
        return
    d = n - len(np.unique(u)) if u.dtype != object else n - len(set(u.tolist()))
    if d > mean + SIGMAS * 2 * mean ** 0.5 + 12 * (mean > 1e-9) + (2 if mean > 1e-12 else 0):
        raise Bad("repeats", "%s: %d of %d values are copies of others, expected about %.3g" % (what, d, n, mean))


def unrelated(a, b, span, what):
    """Two independent draws over the same range."""
    n = min(len(a), len(b))
    a, b = a[:n], b[:n]
    if n == 0 or span == 1:
        return
    same = int(np.sum(a == b))
    p = 1.0 / span
    m = n * p
    if same > m + SIGMAS * (m * (1 - p)) ** 0.5 + 8 and (same < n or n * np.log2(float(min(span, 1 << 60))) > 60):
        raise Bad("related", "%s: %d of %d values are the same" % (what, same, n))
    if m < 1e-12 and same:
        raise Bad("related", "%s: %d of %d values are the same" % (what, same, n))
    if n >= 200 and (span <= 24 or span > 1 << 30):
        k = min(span, 12)
        d = (a - b) % span
        if span > 24:
            d = buckets(d, span, k)
        c = np.bincount(d.astype(np.int64), minlength=k)
        for v in range(k):
            count_check("related", "%s: differences in part %d of %d" % (what, v, k), n, 1 / k, c[v])


# ---------------------------------------------------------------------------
# acts

SHAPES = [[], [1], [2, 3], [7], [3, 1, 5], [64], [65], [8, 16], [1, 1], [2, 2, 2, 2]]


def seed_of(rng):
    return [rng.randrange(-(1 << 31), 1 << 31) for _ in range(8)]


class History:
    def __init__(self, spec):
        self.spec = spec
        self.checked = 0
        self.drawn = 0
        self.cov = set()
        self.log = hashlib.sha256()
        self.probes = {}
        self.faults = {}

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def get(self, src, shape, how, rng, seed=None, note=True):
        """One draw in the way asked for."""
        n = int(np.prod(shape)) if shape else 1
        with boot_device(rng.randrange(4)):
            if how == "function":
                f = tf.function(lambda: draw(src, shape, None if seed is None else tf.constant(seed, tf.int32)))
                ts = f()
            elif how == "seed_arg":
                f = tf.function(lambda s: draw(src, shape, s))
                ts = f(tf.constant(seed, tf.int32))
            elif how == "thread":
                box = []
                t = threading.Thread(target=lambda: box.append(draw(src, shape, None if seed is None else tf.constant(seed, tf.int32))))
                t.start()
                t.join()
                if not box:
                    raise RuntimeError("draw failed in a thread")
                ts = box[0]
            else:
                ts = draw(src, shape, None if seed is None else tf.constant(seed, tf.int32))
        v = np.asarray(ints(src, [t.numpy() for t in ts]))
        if list(v.shape) != list(shape):
            raise Bad("shape", "%s of shape %s has shape %s" % (name_of(src), shape, list(v.shape)))
        lo, hi = bounds(src)
        u = offsets(v, lo, hi, name_of(src))
        if src.get("f", "").startswith("odd") and np.any(v == -1):
            raise Bad("range", "%s gave -1, which no odd tensor may hold" % name_of(src))
        self.checked += 1
        self.drawn += n
        if note and seed is not None:  # what fresh entropy gives depends on the kernels' threads
            self.log.update(repr(u.tolist()[:4096]).encode())
        return u, hi - lo

    def how(self, rng):
        return rng.choice(["eager", "eager", "eager", "function", "thread"])

    def act_draw(self, rng, a):
        src = a["src"]
        lo, hi = bounds(src)
        big = hi - lo > (1 << 62) or src.get("f") == "int100"
        n = a["n"] // (4 if big else 1)
        shape = [n] if rng.random() < 0.5 else [8, n // 8]
        seed = seed_of(rng) if can_seed(src) and rng.random() < 0.5 else None
        if seed is None and src["k"] in ("op", "op128") and n > 3000:
            # a big unseeded draw: several threads
            self.probe("threaded_draws")
            u, span = self.get(src, shape, "eager", rng, note=False)
        else:
            u, span = self.get(src, shape, self.how(rng), rng, seed)
        uniform_check(u, span, name_of(src) + " over [%d, %d)" % (lo, hi))
        self.cov.add("draw|%s|%s|%d" % (name_of(src), seed is not None, span.bit_length()))

    def act_small(self, rng, a):
        """Many shapes, many ranges: shape and bounds only."""
        for _ in range(12):
            src = gen_src(rng)
            shape = rng.choice(SHAPES)
            seed = seed_of(rng) if can_seed(src) and rng.random() < 0.5 else None
            u, span = self.get(src, shape, self.how(rng) if rng.random() < 0.2 else "eager", rng, seed)
            self.cov.add("small|%s|%d|%d" % (name_of(src), len(shape), min(span.bit_length(), 129)))

    def act_seeded(self, rng, a):
        """One seed, many machines and moments."""
        src = a["src"]
        shape = rng.choice(SHAPES + [[100], [33, 4]])
        seed = seed_of(rng) if rng.random() < 0.8 else [rng.choice([0, 1, -1])] * 8
        us = []
        for i in range(4):
            if rng.random() < 0.5:
                self.get(gen_src(rng), rng.choice(SHAPES), "eager", rng)
            if rng.random() < 0.4:
                other = gen_src(rng, seeded=True)
                if can_seed(other):
                    self.get(other, rng.choice(SHAPES), "eager", rng, seed_of(rng))
            if rng.random() < 0.3:
                ENTROPY.reseed(rng.randrange(1 << 60))
                tf.random.set_seed(rng.randrange(1000))
                np.random.seed(rng.randrange(1000))
            how = ["eager", "function", "seed_arg", "thread"][i] if i else "eager"
            u, span = self.get(src, shape, how, rng, seed)
            us.append(u)
            if not np.array_equal(us[0], u):
                raise Bad("seeded", "%s: the same seed, range and shape %s gave other values (%s)" % (name_of(src), shape, how))
        if int(np.prod(shape)) >= 60 or True:
            flip = list(seed)
            j = rng.randrange(8)
            bit = rng.randrange(32)
            x = (flip[j] & 0xFFFFFFFF) ^ (1 << bit)
            flip[j] = x - (1 << 32) if x >> 31 else x
            big = [200]
            u, span = self.get(src, big, "eager", rng, seed)
            w, _ = self.get(src, big, "eager", rng, flip)
            unrelated(u, w, span, "%s with seeds that differ in bit %d of word %d" % (name_of(src), bit, j))
        self.cov.add("seeded|%s|%s" % (name_of(src), len(shape)))

    def act_fresh(self, rng, a):
        """Draws and seeds nobody asked to be equal."""
        src = a["src"]
        shape = rng.choice([[60], [200], [15, 20], [4]])
        kind = rng.choice(["calls", "one_function", "loop", "two_functions", "graph_while", "devices"])
        if a.get("seeds"):
            one = lambda: [sr().secure_seed()]
        else:
            one = lambda: draw(src, shape)
        outs = []
        if kind == "calls":
            for _ in range(5):
                outs.append(one())
        elif kind == "devices":
            for i in range(5):
                with boot_device(i):
                    outs.append(one())
        elif kind == "one_function":
            f = tf.function(lambda: [one(), one(), one()])
            for _ in range(3):
                outs += f()
        elif kind == "two_functions":
            f, g = tf.function(one), tf.function(one)
            outs = [f(), g(), f(), g(), one()]
        elif kind == "loop":
            f = tf.function(one)
            outs = [f() for _ in range(6)]
        else:
            def body(i, acc):
                vs = one()
                return i + 1, tuple(tuple_write(x, i, v) for x, v in zip(acc, vs))

            def whole():
                first = one()
                accs = tuple(tf.TensorArray(v.dtype, size=4, element_shape=v.shape) for v in first)
                _, accs = tf.while_loop(lambda i, acc: i < 4, body, (0, accs))
                return [x.stack() for x in accs]

            stacked = [x.numpy() for x in tf.function(whole)()]
            outs = [[tf.constant(x[i]) for x in stacked] for i in range(4)]
        if a.get("seeds"):
            vs = [np.asarray(o[0].numpy()).astype(np.int64) & 0xFFFFFFFF for o in outs]
            self.probe("seeds_drawn", len(vs))
            for i in range(len(vs)):
                if vs[i].shape != (8,):
                    raise Bad("shape", "a seed has shape %s" % (vs[i].shape,))
                for j in range(i):
                    if (vs[i] == vs[j]).sum() > 1:
                        raise Bad("fresh", "two fresh seeds (%s, draws %d and %d) share %d of 8 words" % (kind, j, i, int((vs[i] == vs[j]).sum())))
        else:
            lo, hi = bounds(src)
            us = [offsets(ints(src, [t.numpy() for t in o]), lo, hi, name_of(src)) for o in outs]
            for i in range(len(us)):
                for j in range(i):
                    unrelated(us[i], us[j], hi - lo, "%s drawn afresh (%s, draws %d and %d)" % (name_of(src), kind, j, i))
        self.checked += len(outs)
        self.cov.add("fresh|%s|%s" % ("seeds" if a.get("seeds") else name_of(src), kind))

    def act_sharded(self, rng, a):
        """A draw so big that the kernels split it: no part may repeat another."""
        t = a["t"]
        seed = seed_of(rng) if rng.random() < 0.3 else None
        n = a["n"]
        if t == "128":
            src = {"k": "op128", "lo": str(-(1 << 127)), "hi": str((1 << 127) - 1)}
        else:
            b = int(t[3:])
            src = {"k": "op", "t": t, "lo": str(-(1 << (b - 1))), "hi": str((1 << (b - 1)) - 1)}
            if a.get("reject") and b >= 32:
                src["hi"] = str(1 + rng.randrange(9))
        before = ENTROPY.calls
        ts = draw(src, [n], None if seed is None else tf.constant(seed, tf.int32))
        self.probe("entropy_requests", ENTROPY.calls - before)
        v = ts[0].numpy()
        self.checked += 1
        self.drawn += n
        size = v.dtype.itemsize * (2 if t == "128" else 1)
        if a.get("reject") or size >= 8:
            w = v.reshape(n, -1)
            if size >= 8:
                keys = np.ascontiguousarray(w).view([("a", w.dtype)] * 1 if w.shape[1] == 1 else [("a", w.dtype), ("b", w.dtype)]).reshape(-1)
                d = len(keys) - len(np.unique(keys))
                if d > 0 and n * n / 2.0 / 2.0 ** (8 * size - 1) < 1e-7:
                    raise Bad("repeats", "%s, %d values at once: %d are copies of others" % (name_of(src), n, d))
                self.cov.add("sharded|%s|%d" % (t, n.bit_length()))
                return
        # small values: compare every window of sixteen bytes with every other
        raw_ = np.ascontiguousarray(v).view(np.uint8)
        m = len(raw_) - 16
        win = np.lib.stride_tricks.as_strided(raw_, (m, 16), (1, 1))[::v.dtype.itemsize]
        win = np.ascontiguousarray(win).view([("a", np.uint64), ("b", np.uint64)]).reshape(-1)
        d = len(win) - len(np.unique(win))
        if d > 0:
            raise Bad("repeats", "%s, %d values at once: %d windows of sixteen bytes are copies of others" % (name_of(src), n, d))
        self.cov.add("sharded|%s|%d|%s" % (t, n.bit_length(), bool(a.get("reject"))))

    def act_source(self, rng, a):
        """A protocol's secrets depend on the entropy, on all of it and on nothing else."""
        seeds = (a["r"] & 0xFFFFFF, a["r"] >> 24 & 0xFFFFFF)
        one = self.secrets(a, seeds[0], 1)
        two = self.secrets(a, seeds[0], 2)
        three = self.secrets(a, seeds[1] + (1 << 30), 1)
        self.probe("protocol_programs")
        key = lambda v: (sorted if a["prog"] in ("input", "variable") else list)(x.tobytes() for x in v)
        if key(one) != key(two):
            raise Bad("source", "%s/%s: the same entropy, but another state of the insecure generators, gives other shares" % (a["prot"], a["prog"]))
        for i, (x, y) in enumerate(zip(one, three)):
            if x.shape != y.shape:
                continue
            x, y = x.reshape(-1), y.reshape(-1)
            if x.dtype == np.int64 and len(x) and (x == y).mean() > 0.2:
                raise Bad("source", "%s/%s: with other entropy, part %d of a share has %d of %d values unchanged" % (a["prot"], a["prog"], i, int((x == y).sum()), len(x)))
            if x.dtype in (np.int32, np.int16) and len(x) >= 32 and (x == y).mean() > 0.5:
                raise Bad("source", "%s/%s: with other entropy, part %d of a share has %d of %d values unchanged" % (a["prot"], a["prog"], i, int((x == y).sum()), len(x)))
        # and the shares of different things are unrelated to one another
        big = [x.reshape(-1) for x in one if x.dtype == np.int64 and x.size >= 8]
        self.checked += 3
        self.cov.add("source|%s|%s|%d" % (a["prot"], a["prog"], len(big)))

    def secrets(self, a, entropy, other):
        from .boot import fresh

        rng = random.Random(a["r"])
        boot.seed_everything(entropy)
        tf.random.set_seed(other)
        np.random.seed(other)
        if a["prog"] in ("input", "variable"):
            random.seed(other)  # may decide who gets the seed, nothing else
        cfg, prot = fresh(a["prot"])
        x0 = np.round(np.array([[rng.uniform(-8, 8) for _ in range(4)] for _ in range(8)]), 1)
        y0 = np.round(np.array([[rng.uniform(-8, 8) for _ in range(4)] for _ in range(8)]), 1)
        out = []

        def keep(v):
            for s in v.unwrapped:
                for t in s if isinstance(s, (list, tuple)) else [s]:
                    for b in raw(t):
                        out.append(np.asarray(b.numpy()))

        p = a["prog"]
        if p == "variable":
            x = tfe.define_private_variable(x0)
        else:
            x = tfe.define_private_input("client", lambda: tf.constant(x0))
        keep(x)
        if p == "add":
            keep(x + tfe.define_private_variable(y0))
        elif p == "mul":
            keep(x * tfe.define_private_variable(y0))
        elif p == "matmul":
            keep(tfe.matmul(x, tfe.transpose(tfe.define_private_variable(y0))))
        elif p == "square":
            keep(tfe.square(x))
        elif p == "compare" and a["prot"].startswith(("aby3", "securenn")):
            keep(tfe.relu(x))
        return out

    def act_edges(self, rng, a):
        """The source below gives the ends of what it was asked for: the factories must
        stay within their own range, use all of it, and keep different draws different."""
        import sys

        mod = sys.modules[sr().seeded_random_uniform.__module__]
        real = getattr(mod, "secure_random_module", None)
        if real is None:
            return
        pick = a["pick"]

        def value(lo, hi, dtype):
            c = {"lo": lo, "hi": hi - 1, "lo1": min(lo + 1, hi - 1), "hi1": max(hi - 2, lo), "m1": -1, "m2": -2, "z": 0, "one": 1}[pick]
            return min(max(c, lo), hi - 1)

        calls = [0]

        class Edge:
            def __getattr__(s, n):
                return getattr(real, n)

            def secure_seeded_random_uniform(s, shape, seed, minval, maxval, name=None):
                calls[0] += 1
                return tf.fill(shape, tf.constant(value(int(minval), int(maxval), 0), minval.dtype))

            def secure_random_uniform(s, shape, minval, maxval, name=None):
                return s.secure_seeded_random_uniform(shape, None, minval, maxval)

            def i128_secure_seeded_random_uniform(s, shape, seed, minval, maxval, name=None):
                calls[0] += 1
                b = []
                for v in (minval, maxval):
                    v = np.asarray(v)
                    b.append(int(v) if v.ndim == 0 else int(join128(v.reshape(1, 2))[0]))
                return tf.broadcast_to(as128(value(b[0], b[1], 0)), list(shape) + [2])

        mod.secure_random_module = Edge()
        try:
            for src in a["srcs"]:
                before = calls[0]
                u, span = self.get(src, [3], "eager", rng)
                if calls[0] == before:
                    continue
                self.probe("edge_draws")
                u = [int(x) for x in u]
                if src["k"] in ("bounded", "bits") and src["f"] not in ("int128",):
                    if pick == "lo" and u[0] != 0:
                        raise Bad("edges", "%s of %s bits: the least draw is %d" % (name_of(src), src.get("b", 1), u[0]))
                    if pick == "hi" and u[0] != span - 1:
                        raise Bad("edges", "%s of %s bits: the greatest draw is %d" % (name_of(src), src.get("b", 1), u[0]))
                if src["f"].startswith("odd"):
                    # asked to leave out -1: what is next to it must stay next to it
                    self.cov.add("edge|%s|%s|%d" % (src["f"], pick, u[0]))
                self.cov.add("edge|%s|%s" % (name_of(src), pick))
        finally:
            mod.secure_random_module = real

    def act_refuse(self, rng, a):
        """Ranges that do not exist are refused, not drawn from."""
        t = rng.choice(list(NATIVE))
        lo = rng.randrange(-100, 100)
        hi = lo - rng.randrange(0, 100)
        if hi < -128:
            hi = -128
        try:
            src = {"k": "op", "t": t, "lo": str(lo), "hi": str(hi)} if rng.random() < 0.7 else {"k": "op128", "lo": str(lo), "hi": str(hi), "scalar": rng.random() < 0.5}
            ts = draw(src, [4], tf.constant(seed_of(rng), tf.int32) if rng.random() < 0.5 else None)
            ts[0].numpy()
        except (tf.errors.InvalidArgumentError, ValueError):
            self.checked += 1
            self.probe("refused")
            self.cov.add("refuse|%s" % t)
            return
        raise Bad("refuse", "the empty range [%d, %d) gave values" % (lo, hi))

    def run(self):
        boot.seed_everything(self.spec["seed"])
        for i, a in enumerate(self.spec["acts"]):
            self.where = "action %d (%s)" % (i, a["k"])
            getattr(self, "act_" + a["k"])(random.Random(a["r"]), a)
            self.probe("act_" + a["k"])


def tuple_write(arr, i, v):
    return arr.write(i, v)


def boot_device(i):
    return tf.device(boot.dev(i % boot.N_DEVICES))


def gen_randomness(seed):
    rng = random.Random(seed)
    acts = []
    for _ in range(rng.randrange(2, 5)):
        k = rng.choice(["draw", "draw", "draw", "small", "seeded", "seeded", "fresh", "fresh", "fresh", "sharded", "source", "edges", "refuse"])
        a = {"k": k, "r": rng.randrange(1 << 48)}
        if k == "draw":
            a["src"] = gen_src(rng)
            a["n"] = rng.choice([2048, 8192, 8192, 32768])
        elif k == "seeded":
            while True:
                s = gen_src(rng, seeded=True)
                if can_seed(s):
                    break
            a["src"] = s
        elif k == "fresh":
            a["src"] = gen_src(rng)
            a["seeds"] = rng.random() < 0.35
        elif k == "sharded":
            a["t"] = rng.choice(["int8", "int16", "int32", "int64", "int64", "128"])
            a["n"] = rng.choice([5000, 20000, 50000, 100000])
            a["reject"] = rng.random() < 0.4
        elif k == "source":
            a["prot"] = rng.choice(["pond", "pond-ni", "pond100", "securenn", "aby3", "aby3", "aby3-128"])
            a["prog"] = rng.choice(["input", "variable", "add", "mul", "matmul", "square", "compare"])
        elif k == "edges":
            a["pick"] = rng.choice(["lo", "hi", "lo1", "hi1", "m1", "m2", "z", "one"])
            a["srcs"] = []
            for _ in range(6):
                s = gen_src(rng)
                if s["k"] in ("uniform", "bounded", "bits") and not (s.get("hi")):
                    a["srcs"].append(s)
            a["srcs"] += [{"k": "uniform", "f": rng.choice(["odd32", "odd64"])}]
        acts.append(a)
    return {"seed": rng.randrange(1 << 40), "acts": acts}


def shrink_randomness(spec):
    acts = spec["acts"]
    for i in range(len(acts)):
        if len(acts) > 1:
            yield dict(spec, acts=acts[:i] + acts[i + 1:])
    for i, a in enumerate(acts):
        if a["k"] == "edges" and len(a["srcs"]) > 1:
            for j in range(len(a["srcs"])):
                yield dict(spec, acts=acts[:i] + [dict(a, srcs=[a["srcs"][j]])] + acts[i + 1:])
        if a["k"] in ("draw", "sharded") and a["n"] > 2048:
            yield dict(spec, acts=acts[:i] + [dict(a, n=a["n"] // 4)] + acts[i + 1:])


def decide_randomness(spec):
    KNOWN.clear()
    h = History(spec)
    out = {"violation": None, "faults": {}, "probes": {}, "nontrivial": True, "messages": 0, "ticks": 0}
    try:
        h.run()
    except Bad as b:
        out["violation"], out["sig"] = "%s: %s" % (h.where, b), b.sig
    except Exception as e:
        from .progs import tb

        out["violation"], out["sig"], out["tb"] = "%s failed with %s: %s" % (h.where, type(e).__name__, str(e)[:400]), "error:%s" % type(e).__name__, tb()
    finally:
        boot.reset_library_state()
    out["ops"] = h.drawn
    out["cov"] = sorted(h.cov)
    out["faults"] = h.faults
    out["probes"] = dict(h.probes, checks_made=h.checked)
    out["nontrivial"] = h.checked > 0
    out["known"] = sorted(KNOWN)
    out["trace"] = hashlib.sha256(repr((h.log.hexdigest(), h.checked, sorted(h.cov), out["violation"])).encode()).hexdigest()[:24]
    return out
