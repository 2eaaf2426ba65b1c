"""ABY3 boolean sharing: every value is a machine word, compared bit for bit."""
from .progs import *  # noqa: F401,F403
from .progs import POOLKIND, Family
from .boot import np, tf, tfe
from .ops_common import Op, bshape, nop
from tf_encrypted.protocol.protocol import TFETensor
from tf_encrypted.protocol.protocol import TFEPublicTensor
from tf_encrypted.tensor import factories

POOLKIND.update({"wconst": "pub", "wvar_pub": "pub", "wvar": "priv", "win": "priv", "bvar": "bpriv", "bin_": "bpriv", "boolvar": "bool", "boolcst": "pubbool"})

toint = np.frompyfunc(int, 1, 1)


def O(x):
    x = np.asarray(x)
    r = np.empty(x.shape, object)
    f = x.reshape(-1)
    r.reshape(-1)[:] = [int(v) for v in f]
    return r


def signed(v, w):
    m = (1 << w) - 1
    f = np.frompyfunc(lambda a: ((int(a) & m) ^ (1 << (w - 1))) - (1 << (w - 1)), 1, 1)
    return O(f(np.asarray(v, dtype=object)))


def umap(f, *xs):
    return O(np.frompyfunc(f, len(xs), 1)(*[np.asarray(x, dtype=object) for x in xs]))


def W(p):
    return 128 if "128" in p["_prot"] else 64


def low(v, n):
    return umap(lambda a: int(a) & ((1 << n) - 1), v)


def word(f):
    """reference of an operation on words: result reduced to the word size"""
    return lambda a, p: signed(umap(lambda *q: f(*q, p), *a), W(p))


def bitf(f):
    return lambda a, p: umap(lambda *q: int(f(*q, p)) & 1, *a)


def width(ms):
    return 128 if "128" in getattr(ms[0], "prot", "") else 64


def p_b(rng, ms):
    return {} if bshape(ms[0].shape, ms[1].shape) is not None else None


def p_b_scale(rng, ms):
    return p_b(rng, ms)


def p_step(rng, ms):
    w = width(ms)
    return {"n": rng.choice([0, 1, w // 2, w - 1, rng.randrange(w), rng.randrange(w)])}


def p_lstep(rng, ms):
    return {"n": rng.choice([1, 3, rng.randrange(1, width(ms))])}


def nb(rng, w, kog=True):
    return rng.choice([None, None, w, 1, 2, rng.randrange(1, w), rng.randrange(1, w), 16, w - 1])


def p_ppa(rng, ms):
    if ms[0].shape != ms[1].shape:
        return None
    return {"nbits": nb(rng, width(ms)), "top": rng.choice(["kogge_stone", "sklansky"])}


def p_carry(rng, ms):
    if ms[0].shape != ms[1].shape:
        return None
    w = width(ms)
    return {"pos": rng.choice([None, 0, 1, w // 2 - 1, rng.randrange(w), rng.randrange(w), w - 1])}


def p_a2b(rng, ms):
    return {"nbits": nb(rng, width(ms))}


def p_b2a(rng, ms):
    w = width(ms)
    m = rng.choice(["ppa", "ppa", "single"])
    if m == "ppa":
        return {"nbits": rng.choice([None, w]), "method": m}
    return {"nbits": rng.choice([rng.randrange(1, 17), rng.randrange(1, 51), 16]), "method": m}


def low_check(key):
    def f(a, p, outs, ref):
        n = p[key] or W(p)
        x, y = low(outs[0], n), low(ref, n)
        if x.shape != y.shape:
            return "shape %s, should be %s" % (x.shape, y.shape)
        bad = x != y
        if np.any(bad):
            i = np.argwhere(np.atleast_1d(bad))[0]
            return "low %d bits of element %s are %x, should be %x" % (n, list(i), np.atleast_1d(x)[tuple(i)], np.atleast_1d(y)[tuple(i)])
        return None

    return f


def r_ppa(a, p):
    return signed(umap(lambda x, y: x + y, *a), W(p))


def r_carry(a, p):
    pos = W(p) - 1 if p["pos"] is None else p["pos"]
    m = (1 << (pos + 1)) - 1
    return umap(lambda x, y: ((x & m) + (y & m)) >> (pos + 1), *a)


def r_b2a(a, p):
    n = p["nbits"] or W(p)
    return signed(low(a[0], n), W(p))


def p_stride(rng, ms):
    return {"start": rng.randrange(4), "stride": rng.choice([1, 2, 3, 4, 8])}


def gatherbits(x, start, stride, w):
    x &= (1 << w) - 1
    r, i = 0, 0
    for d in range(start, w, stride):
        r |= ((x >> d) & 1) << i
        i += 1
    return r


def r_split(a, p):
    w = W(p)
    return O(np.stack([signed(umap(lambda v: gatherbits(v, s, p["stride"], w), a[0]), w) for s in range(p["stride"])]))


def r_bits(a, p):
    n = p["n"]
    return O(np.stack([umap(lambda v: (v >> i) & 1, a[0]) for i in range(n)], -1))


def rev(x, w):
    x &= (1 << w) - 1
    return int(format(x, "0%db" % w)[::-1], 2)


def xind(x, w):
    x &= (1 << w) - 1
    r, d = 0, 0
    while x:
        if x & 1:
            r ^= d
        x >>= 1
        d += 1
    return r


def p_select(rng, ms):
    s = bshape(ms[1].shape, ms[2].shape)
    return {} if s is not None and ms[0].shape == s else None


def p_mulab(rng, ms):
    return {} if bshape(ms[0].shape, ms[1].shape) is not None else None


def p_cmp(rng, ms):
    if bshape(ms[0].shape, ms[1].shape) is None or ms[0].scaled != ms[1].scaled:
        return None
    return {"op": rng.random() < 0.5}


def p_pow2(rng, ms):
    s = ms[0].shape
    return {} if s and s[-1] <= 5 else None


def r_pow2(a, p):
    e = umap(lambda *b: 1 << sum(int(v) << i for i, v in enumerate(b)), *[a[0][..., i] for i in range(a[0].shape[-1])])
    return signed(e, W(p))


B, PR, PU, BO, PB = "bpriv", "priv", "pub", "bool", "pubbool"


def bk(ks):
    """kind of a boolean operation's result; None if the kinds do not go together"""
    if all(k in (BO, PB) for k in ks):
        return BO if BO in ks else None
    if all(k in (B, PU) for k in ks):
        return B if B in ks else PU
    return None


def bk_priv(ks):
    r = bk(ks)
    return r if r in (B, BO) else None


def has_priv(ks):
    return BO if PR in ks else None


def wb(f):
    def ref(a, p):
        return signed(umap(f, *a), W(p)) if not p.get("_bits") else umap(lambda *q: f(*q) & 1, *a)

    return ref


CMP = [("equal", lambda x, y: x == y, "=="), ("greater_than", lambda x, y: x > y, ">"), ("greater_equal", lambda x, y: x >= y, ">="),
       ("less_than", lambda x, y: x < y, "<"), ("less_equal", lambda x, y: x <= y, "<=")]


def cmp_call(name, sym):
    def call(t, x, p):
        if p["op"] and sym != "==":
            a, b = x
            return {">": lambda: a > b, ">=": lambda: a >= b, "<": lambda: a < b, "<=": lambda: a <= b}[sym]()
        return getattr(t, name)(x[0], x[1])

    return call


def not_bits(a, p):
    return a


ALLW = {B, PU, BO, PB}
WORDS = [
    Op("xor", [ALLW, ALLW], p_b, lambda t, x, p: t.xor(x[0], x[1]), word(lambda x, y, p: x ^ y), outkind=bk, weight=2),
    Op("and", [ALLW, ALLW], p_b, lambda t, x, p: t.and_(x[0], x[1]), word(lambda x, y, p: x & y), outkind=bk_priv, weight=2),
    Op("or", [{B, BO}, {B, BO}], p_b, lambda t, x, p: t.or_(x[0], x[1]), word(lambda x, y, p: x | y), outkind=bk_priv, weight=1),
    Op("not", [{B}], nop, lambda t, x, p: t.not_(x[0]), word(lambda x, p: ~x), weight=0.7),
    Op("not_bit", [{BO}], nop, lambda t, x, p: t.not_(x[0]), bitf(lambda x, p: 1 - x), weight=0.7),
    Op("lshift", [{B, PR}], p_step, lambda t, x, p: t.lshift(x[0], p["n"]), word(lambda x, p: x << p["n"]), weight=1),
    Op("rshift", [{B, PU}], p_step, lambda t, x, p: t.rshift(x[0], p["n"]), word(lambda x, p: x >> p["n"]), weight=1),
    Op("logical_rshift", [{B}], p_step, lambda t, x, p: t.logical_rshift(x[0], p["n"]), word(lambda x, p: (x & ((1 << W(p)) - 1)) >> p["n"]), weight=1),
    Op("ppa", [{B}, {B}], p_ppa, lambda t, x, p: t.ppa(x[0], x[1], p["nbits"], p["top"]), r_ppa, weight=3, check="nbits"),
    Op("carry", [{B, PU}, {B, PU}], p_carry, lambda t, x, p: t.carry(x[0], x[1], p["pos"]), r_carry, outkind=lambda ks: "cbit" if B in ks else None, weight=2),
    Op("a2b", [{PR}], p_a2b, lambda t, x, p: t.a2b(x[0], p["nbits"]), word(lambda x, p: x), outkind=lambda ks: B, weight=3, check="nbits"),
    Op("b2a", [{B}], p_b2a, lambda t, x, p: t.b2a(x[0], p["nbits"], p["method"]), r_b2a, outkind=lambda ks: PR, weight=3, minrank=1),
    Op("b2a_single", [{BO}], nop, lambda t, x, p: t.b2a_single(x[0]), lambda a, p: O(a[0]), outkind=lambda ks: PR, weight=1),
    Op("mul_ab", [{PR, PU}, {BO}], p_mulab, lambda t, x, p: t.mul_ab(x[0], x[1]), word(lambda x, y, p: x * y), outkind=lambda ks: PR, weight=2),
    Op("bit_extract", [{PR, B}], p_step, lambda t, x, p: t.bit_extract(x[0], p["n"]), bitf(lambda x, p: x >> p["n"]), outkind=lambda ks: BO, weight=3),
    Op("msb", [{PR, B}], nop, lambda t, x, p: t.msb(x[0]), bitf(lambda x, p: x < 0), outkind=lambda ks: BO, weight=1.5),
    Op("equal_zero", [{PR}], nop, lambda t, x, p: t.equal_zero(x[0]), bitf(lambda x, p: x == 0), outkind=lambda ks: BO, weight=1.5),
    Op("bit_gather", [{B, PU}], p_stride, lambda t, x, p: t.bit_gather(x[0], p["start"], p["stride"]),
       word(lambda x, p: gatherbits(x, p["start"], p["stride"], W(p))), weight=1),
    Op("bit_split_and_gather", [{B, PU}], lambda rng, ms: {"stride": rng.choice([1, 2, 4])} if len(ms[0].shape) < 4 else None,
       lambda t, x, p: t.bit_split_and_gather(x[0], p["stride"]), r_split, weight=1),
    Op("bits", [{B}], lambda rng, ms: {"n": rng.choice([1, 5, 16, rng.randrange(1, 64), 64])} if len(ms[0].shape) < 4 else None,
       lambda t, x, p: t.bits(x[0], p["n"]), r_bits, outkind=lambda ks: BO, weight=1),
    Op("bit_reverse", [{B}], nop, lambda t, x, p: t.bit_reverse(x[0]), word(lambda x, p: rev(x, W(p))), weight=1),
    Op("xor_indices", [{B}], nop, lambda t, x, p: t.xor_indices(x[0]), word(lambda x, p: xind(x, W(p))), weight=1),
    Op("cast_word", [{BO}], nop, lambda t, x, p: t.cast(x[0], t.default_factory), lambda a, p: O(a[0]), outkind=lambda ks: B, weight=1),
    Op("select", [{BO}, {PR, PU}, {PR, PU}], p_select, lambda t, x, p: t.select(x[0], x[1], x[2]), word(lambda b, x, y, p: y if b else x),
       outkind=lambda ks: PR, weight=2.5),
    Op("select_bits", [{BO}, {BO}, {BO}], p_select, lambda t, x, p: t.select(x[0], x[1], x[2]), bitf(lambda b, x, y, p: y if b else x),
       outkind=lambda ks: BO, weight=1),
    Op("pow2_from_bits", [{BO}], p_pow2, lambda t, x, p: t.pow2_from_bits(x[0]), r_pow2, outkind=lambda ks: PR, weight=0.7, minrank=1),
] + [
    Op(n, [{PR, PU}, {PR, PU}], p_cmp, cmp_call(n, s), bitf(lambda x, y, p, f=f: f(x, y)), outkind=has_priv, weight=1.3,
       domain="cmp") for n, f, s in CMP
]
for _o in WORDS:
    _o.scale = (lambda ms: False)
    if isinstance(_o.check, str):
        _o.check = (lambda key, ref: (lambda a, p, outs: low_check(key)(a, p, outs, ref(a, p))))(_o.check, _o.ref)


class WordFamily(Family):
    ops = WORDS

    def kinds_for(self, p):
        return ["wconst", "wvar_pub", "wvar", "wvar", "win", "bvar", "bvar", "bin_", "boolvar", "boolvar", "boolcst"]

    def num(self, v):
        return O(v)

    def sf(self, p):
        return 1

    def limit(self, p):
        return 2.0 ** 200

    def wide(self, p):
        return 1.0

    def big(self, outs, lim):
        return any(np.size(o) > 300 for o in outs)

    def modes(self, p):
        return [("eager", 5), ("debug", 3), ("function", 3)]

    def ctx(self, prot, p):
        return {"ulp": 0.0, "trunc": 0.0}

    def is_tensor(self, t):
        return isinstance(t, TFETensor)

    def domain(self, op, p):
        if op.domain == "cmp":
            w = 128 if "128" in p else 64
            return (-(1 << (w - 2)), (1 << (w - 2)) - 1)
        return op.domain

    def new_input(self, rng, k, shape, dom, prot):
        inp = {"kind": k, "shape": list(shape), "scaled": False, "vseed": rng.getrandbits(40), "word": 128 if "128" in prot else 64,
               "style": rng.choice(["full", "full", "edge", "small", "sparse", "pow"]),
               "owner": rng.choice(["server0", "server1", "server2", "owner-a"])}
        if k in ("boolvar", "boolcst"):
            inp["word"] = 1
        if dom:
            inp["bound"] = inp["word"] - 2
        return inp

    def make_value(self, inp):
        r = random.Random(inp["vseed"])
        w = inp.get("bound", inp["word"] - 1)
        n = int(np.prod(inp["shape"])) if inp["shape"] else 1
        out = []
        if inp["word"] == 1:
            out = [r.getrandbits(1) for _ in range(n)]
        else:
            lo, hi = -(1 << w), (1 << w) - 1
            first = None
            for _ in range(n):
                st = inp["style"]
                if st == "full":
                    v = r.randrange(lo, hi + 1)
                elif st == "small":
                    v = r.randrange(-4, 5)
                elif st == "edge":
                    v = r.choice([lo, hi, 0, -1, 1, lo + 1, hi - 1])
                elif st == "sparse":
                    v = sum(1 << r.randrange(w) for _ in range(2)) * r.choice([1, -1])
                else:
                    v = (1 << r.randrange(w)) - r.choice([0, 1])
                    v = v if r.random() < 0.5 else -v
                if first is not None and r.random() < 0.15:
                    v = first
                first = v
                out.append(max(lo, min(hi, v)))
        a = np.empty(n, object)
        a[:] = out
        return a.reshape(inp["shape"])

    def native_value(self, inp, v):
        if inp["word"] == 1:
            return v.astype(bool)
        return v.astype(np.int64) if inp["word"] == 64 else v

    def build_input(self, prot, i, v):
        k = i["kind"]
        v = self.native_value(i, v)
        if k == "wconst":
            return prot.define_constant(v, apply_scaling=False)
        if k == "wvar_pub":
            return prot.define_public_variable(v, apply_scaling=False)
        if k == "boolcst":
            return prot.define_constant(v, apply_scaling=False, factory=factories[tf.bool])
        if k == "wvar" or (k == "win" and i["word"] == 128):
            return prot.define_private_variable(v, apply_scaling=False)
        if k == "win":
            return prot.define_private_input(i["owner"], lambda: tf.constant(v), apply_scaling=False)
        if k == "bvar" or (k == "bin_" and i["word"] == 128):
            return prot.define_private_variable(v, apply_scaling=False, share_type="BOOLEAN_SHARING" if False else BOOLEAN)
        if k == "bin_":
            return prot.define_private_input(i["owner"], lambda: tf.constant(v), apply_scaling=False, share_type=BOOLEAN)
        if k == "boolvar":
            return prot.define_private_variable(v, apply_scaling=False, share_type=BOOLEAN, factory=factories[tf.bool])
        raise KeyError(k)

    def reveal(self, prot, t):
        if not self.is_tensor(t) or isinstance(t, TFEPublicTensor):
            return t
        return t.reveal()

    def raw(self, u):
        v = u.value
        v = v.numpy() if hasattr(v, "numpy") else np.asarray(v)
        if u.factory.nbits == 128:
            m = (1 << 64) - 1
            return signed(umap(lambda a, b: ((int(b) & m) << 64) | (int(a) & m), v[..., 0], v[..., 1]), 128)
        return O(v)

    def copies(self, prot, t):
        return [self.raw(u) for u in t.unwrapped]

    def native(self, prot, t):
        return self.raw(t.unwrapped[0])

    @staticmethod
    def judge(res, got, want, tol, what, desc, spec, composite, ctx, boolres):
        if got.shape != want.shape:
            res["problems"].append(("shape:%s" % what, "%s: value of shape %s, should be %s" % (desc, got.shape, want.shape), None))
            return
        bad = np.asarray(got != want, dtype=bool)
        if bad.any():
            i = tuple(int(q) for q in np.unravel_index(int(np.argmax(bad)), bad.shape))
            res["problems"].append(("mismatch:%s" % what, "%s: element %s is %d (0x%x), should be %d (%d of %d elements)" % (
                desc, list(i), got[i], int(got[i]) & ((1 << 128) - 1), want[i], int(bad.sum()), bad.size), None))


from tf_encrypted.protocol.aby3.aby3 import ShareType  # noqa: E402

BOOLEAN = ShareType.BOOLEAN
WORD_FAMILY = WordFamily()
