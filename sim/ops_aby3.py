"""ABY3 operations on fixed-point values and integers (arithmetic sharing)."""
import numpy as np

from .ops_common import *  # noqa: F401,F403
from .ops_common import (Op, bshape, enc, mkindex, nop, p_axis, p_broadcast, p_concat, p_expand, p_gather, p_index, p_pad,
                         p_pool, p_reduce, p_reshape, p_slice, p_split, p_squeeze, p_stack, p_tile, p_transpose, patches,
                         r_avgpool, r_conv, r_maxpool, r_split, seq, sl, windows)

PUB, PRIV = "pub", "priv"
ALL = {PUB, PRIV}
AP = {PUB, PRIV, "py"}


def out_bin(ks):
    ks = [k for k in ks if k != "py"]
    return PUB if all(k == PUB for k in ks) else PRIV


def keep(ks):
    return ks[0]


def one_private(ks):
    return PRIV if PRIV in ks else None


def p_addlike(rng, ms):
    if ms[0].kind == "py" and ms[1].kind == "py":
        return None
    if ms[0].kind == "py" or ms[1].kind == "py":
        return {"fn": rng.random() < 0.3}
    if ms[0].scaled != ms[1].scaled:
        return None
    return dict(p_broadcast(rng, ms) or {}, fn=rng.random() < 0.3) if p_broadcast(rng, ms) is not None else None


def p_mullike(rng, ms):
    if ms[0].kind == "py" and ms[1].kind == "py":
        return None
    return p_broadcast(rng, ms) if "py" not in (ms[0].kind, ms[1].kind) else {}


def mul_scale(ms):
    return any(m.scaled for m in ms if m.kind != "py")


def mul_tol(c, a, r, p):
    return c["trunc"] * c["ulp"] if p["_nscaled"] >= 2 else 0.0


def p_broadcast_same(rng, ms):
    if ms[0].scaled != ms[1].scaled or ms[0].shape != ms[1].shape:
        return None
    return {}


def p_mm(rng, ms):
    a, b = ms[0].shape, ms[1].shape
    if len(a) < 2 or len(b) < 2 or a[-1] != b[-2]:
        return None
    if bshape(a[:-2], b[:-2]) is None or (len(a) != len(b)):
        return None
    if a[:-2] != b[:-2]:
        return None
    return {}


def p_div(rng, ms):
    k = rng.random()
    if k < 0.3:
        return {"y": rng.choice([2, 4, 3, 7, 10, -4, -3])}
    return {"y": rng.choice([2.0, 0.5, 0.25, -3.25, 7.5, 8.0])}


def p_reverse(rng, ms):
    r = len(ms[0].shape)
    if not r:
        return None
    return {"axis": sorted(rng.sample(range(r), rng.randrange(1, r + 1)))}


def p_im2col(rng, ms):
    s = ms[0].shape
    if len(s) != 4:
        return None
    kh = rng.randrange(1, min(3, s[2]) + 1)
    kw = rng.randrange(1, min(3, s[3]) + 1)
    return {"k": [kh, kw], "strides": [rng.randrange(1, 3)] * 2, "padding": rng.choice(["SAME", "VALID"])}


def r_im2col(a, p):
    pt = patches(a[0], *p["k"], *p["strides"], p["padding"])  # n c i j a b
    n, c, oh, ow, kh, kw = pt.shape
    return pt.transpose(1, 4, 5, 2, 3, 0).reshape(c * kh * kw, oh * ow * n)


def p_patches(rng, ms):
    p = p_im2col(rng, ms)
    if p is not None and (ms[0].shape[1] != 1):
        return None
    return p


def r_im2patches(a, p):
    pt = patches(a[0], *p["k"], *p["strides"], p["padding"])  # n c i j a b
    n, c, oh, ow, kh, kw = pt.shape
    return pt.transpose(0, 4, 5, 1, 2, 3).reshape(n, kh * kw * c, oh, ow)


def p_scatter(rng, ms):
    s = ms[0].shape
    if len(s) < 1:
        return None
    n = s[0]
    big = n + rng.randrange(0, 4)
    idx = rng.sample(range(big), n)
    return {"idx": [[i] for i in idx], "shape": [big] + list(s[1:])}


def r_scatter(a, p):
    z = np.zeros(p["shape"])
    for k, (i,) in enumerate(p["idx"]):
        z[i] += a[0][k]
    return z


def p_expandz(rng, ms):
    s = ms[0].shape
    if len(s) < 2:
        return None
    return {"stride": rng.randrange(1, 4)}


def r_expandz(a, p):
    x, st = a[0], p["stride"]
    z = np.zeros([(x.shape[0] - 1) * st + 1, (x.shape[1] - 1) * st + 1] + list(x.shape[2:]))
    z[::st, ::st] = x
    return z


def p_pow(rng, ms):
    return {"p": rng.randrange(1, 5)}


def t_pow(c, a, r, p):
    x = np.abs(a[0])
    # every product loses at most `trunc` units, amplified by the remaining factors
    return c["trunc"] * c["ulp"] * 4 * np.maximum(1.0, x) ** max(p["p"] - 1, 0) * p["p"]


def div_tol(c, a, r, p):
    y = p["y"]
    if y > 0 and np.log2(y) == int(np.log2(y)):
        return 2.0 * c["ulp"]
    return np.abs(a[0]) * c["ulp"] + (1 + c["trunc"]) * c["ulp"]


def p_lshift(rng, ms):
    return {"n": rng.randrange(0, 4)}


def p_nd(rng, ms):
    """A numpy array or a TensorFlow tensor as the other operand."""
    s = list(ms[0].shape)
    if rng.random() < 0.3 and s:
        s = s[1:]
    v = np.array([rng.randrange(-24, 25) / 8.0 if ms[0].scaled else rng.randrange(-3, 4) for _ in range(int(np.prod(s)))]).reshape(s)
    return {"v": v.tolist(), "s": s, "tf": rng.random() < 0.4, "left": rng.random() < 0.4}


def nd(p):
    v = np.array(p["v"], dtype=np.float64).reshape(p["s"])
    if not p["tf"]:
        return v
    import tensorflow as tf

    return tf.constant(v)


def nd_call(name):
    def call(t, x, p):
        f = getattr(t, name)
        return f(nd(p), x[0]) if p["left"] else f(x[0], nd(p))
    return call


def nd_ref(f):
    def ref(a, p):
        v = np.array(p["v"]).reshape(p["s"])
        return f(v, a[0]) if p["left"] else f(a[0], v)
    return ref


AB3 = [
    Op("add_nd", [ALL], p_nd, nd_call("add"), nd_ref(np.add), outkind=keep),
    Op("sub_nd", [ALL], p_nd, nd_call("sub"), nd_ref(np.subtract), outkind=keep),
    Op("mul_nd", [ALL], p_nd, nd_call("mul"), nd_ref(np.multiply), outkind=keep, weight=1.5,
       tol=lambda c, a, r, p: c["trunc"] * c["ulp"] if p["_nscaled"] else 0.0),
    Op("add", [AP, AP], p_addlike, lambda t, x, p: t.add(x[0], x[1]) if p.get("fn") else x[0] + x[1],
       lambda a, p: a[0] + a[1], outkind=out_bin, weight=2.5),
    Op("sub", [AP, AP], p_addlike, lambda t, x, p: t.sub(x[0], x[1]) if p.get("fn") else x[0] - x[1],
       lambda a, p: a[0] - a[1], outkind=out_bin, weight=2.5),
    Op("mul", [AP, AP], p_mullike, lambda t, x, p: x[0] * x[1], lambda a, p: a[0] * a[1], tol=mul_tol,
       scale=mul_scale, outkind=out_bin, weight=4),
    Op("mul_trunc2", [{PRIV}, {PRIV}], p_mullike, lambda t, x, p: t.mul_trunc2(x[0], x[1]), lambda a, p: a[0] * a[1], tol=mul_tol,
       scale=mul_scale, outkind=out_bin, weight=1.5, scaled=True),
    Op("matmul", [ALL, ALL], p_mm, lambda t, x, p: t.matmul(x[0], x[1]), lambda a, p: a[0] @ a[1],
       tol=mul_tol, scale=mul_scale, outkind=one_private, weight=6),
    Op("square", [ALL], nop, lambda t, x, p: t.square(x[0]), lambda a, p: a[0] ** 2,
       tol=lambda c, a, r, p: c["trunc"] * c["ulp"] if p["_nscaled"] else 0.0, outkind=keep, weight=1.5),
    Op("pow", [{PRIV}], p_pow, lambda t, x, p: t.pow(x[0], p["p"]), lambda a, p: a[0] ** p["p"], tol=t_pow,
       outkind=keep, weight=1.0, scaled=True, domain=(-4.0, 4.0)),
    Op("negative", [ALL], nop, lambda t, x, p: t.negative(x[0]), lambda a, p: -a[0], outkind=keep),
    Op("add_n", [ALL, ALL], p_addlike, lambda t, x, p: t.add_n([x[0], x[1], x[0]]), lambda a, p: a[0] * 2 + a[1], outkind=out_bin),
    Op("div", [ALL], p_div, lambda t, x, p: x[0] / p["y"], lambda a, p: a[0] / p["y"], tol=div_tol, outkind=keep, scaled=True, weight=1.5),
    Op("div_pub", [ALL, {PUB}], p_broadcast, lambda t, x, p: t.div(x[0], x[1]), lambda a, p: a[0] / a[1],
       tol=lambda c, a, r, p: np.abs(a[0]) * c["ulp"] + (1 + c["trunc"]) * c["ulp"], outkind=keep, scaled=True,
       domain=(None, (0.25, 8))),
    Op("lshift", [{PRIV}], p_lshift, lambda t, x, p: x[0] << p["n"], lambda a, p: a[0] * 2 ** p["n"], outkind=keep),
    Op("reduce_sum", [ALL], p_reduce, lambda t, x, p: t.reduce_sum(x[0], axis=p["axis"], keepdims=bool(p["keepdims"])),
       lambda a, p: a[0].sum(axis=p["axis"], keepdims=bool(p["keepdims"])), outkind=keep, weight=1.5),
    Op("transpose", [ALL], p_transpose, lambda t, x, p: t.transpose(x[0], perm=p["perm"]),
       lambda a, p: a[0].transpose(p["perm"]), outkind=keep, weight=1.5),
    Op("reshape", [ALL], p_reshape, lambda t, x, p: t.reshape(x[0], p["shape"]), lambda a, p: a[0].reshape(p["shape"]), outkind=keep),
    Op("expand_dims", [ALL], p_expand, lambda t, x, p: t.expand_dims(x[0], axis=p["axis"]),
       lambda a, p: np.expand_dims(a[0], p["axis"]), outkind=keep),
    Op("squeeze", [ALL], p_squeeze, lambda t, x, p: t.squeeze(x[0], axis=p["axis"]),
       lambda a, p: np.squeeze(a[0], None if p["axis"] is None else tuple(p["axis"])), outkind=keep, weight=1.5),
    Op("strided_slice", [ALL], p_slice, lambda t, x, p: t.strided_slice(x[0], p["b"], p["e"], p["s"]),
       lambda a, p: a[0][sl(p)], outkind=keep),
    Op("index", [ALL], p_index, lambda t, x, p: x[0][mkindex(p)], lambda a, p: a[0][mkindex(p)], outkind=keep),
    Op("gather", [ALL], p_gather, lambda t, x, p: t.gather(x[0], p["idx"], axis=p["axis"]),
       lambda a, p: np.take(a[0], p["idx"], p["axis"]), outkind=keep),
    Op("split", [ALL], p_split, lambda t, x, p: t.split(x[0], p["n"], axis=p["axis"]), r_split, outkind=keep, multi=True),
    Op("stack", [ALL, ALL], p_stack, lambda t, x, p: t.stack(seq(x, p), axis=p["axis"]),
       lambda a, p: np.stack(seq(a, p), p["axis"]), outkind=lambda ks: ks[0] if ks[0] == ks[1] else None, weight=1.5),
    Op("concat", [ALL, ALL], p_concat, lambda t, x, p: t.concat(seq(x, p), axis=p["axis"]),
       lambda a, p: np.concatenate(seq(a, p), p["axis"]), outkind=lambda ks: ks[0] if ks[0] == ks[1] else None, weight=1.5),
    Op("pad", [ALL], p_pad, lambda t, x, p: t.pad(x[0], p["pads"]), lambda a, p: np.pad(a[0], p["pads"]), outkind=keep),
    Op("tile", [ALL], p_tile, lambda t, x, p: t.tile(x[0], p["m"]), lambda a, p: np.tile(a[0], p["m"]), outkind=keep),
    Op("reverse", [{PRIV}], p_reverse, lambda t, x, p: t.reverse(x[0], p["axis"]), lambda a, p: np.flip(a[0], p["axis"]), outkind=keep),
    Op("scatter_nd", [{PRIV}], p_scatter, lambda t, x, p: t.scatter_nd(p["idx"], x[0], p["shape"]), r_scatter, outkind=keep),
    Op("expand", [{PRIV}], p_expandz, lambda t, x, p: t.expand(x[0], p["stride"]), r_expandz, outkind=keep, minrank=2),
    Op("reveal", [{PRIV}], nop, lambda t, x, p: t.reveal(x[0]), lambda a, p: a[0], outkind=lambda ks: PUB),
    Op("to_private", [{PUB}], nop, lambda t, x, p: to_private(x[0]), lambda a, p: a[0], outkind=lambda ks: PRIV, weight=0.5),
    Op("conv2d", [ALL, ALL], p_conv, lambda t, x, p: t.conv2d(x[0], x[1], [p["strides"]] * 2, p["padding"]), r_conv,  # noqa: F405
       tol=mul_tol, scale=mul_scale, outkind=one_private, weight=5),
    Op("im2col", [ALL], p_im2col, lambda t, x, p: t.im2col(x[0], p["k"][0], p["k"][1], p["strides"], p["padding"]), r_im2col, outkind=keep, weight=2),
    Op("im2patches", [{PRIV}], p_patches, lambda t, x, p: t.im2patches(x[0], p["k"], p["strides"], p["padding"]), r_im2patches, outkind=keep, weight=3),
    Op("avgpool2d", [ALL], p_pool, lambda t, x, p: t.avgpool2d(x[0], tuple(p["pool"]), tuple(p["strides"]), p["padding"]),
       r_avgpool, tol=lambda c, a, r, p: (1 + c["trunc"] + np.max(np.abs(a[0])) * p["pool"][0] * p["pool"][1]) * c["ulp"],
       outkind=keep, scaled=True, weight=2),
    Op("truncate_msb0", [{PRIV}], lambda rng, ms: {"method": rng.choice(["secureq8", "cheetah"]), "n": rng.randrange(1, 6)},
       lambda t, x, p: t.truncate_msb0(x[0], method=p["method"], amount=p["n"]), lambda a, p: a[0] / 2 ** p["n"],
       tol=lambda c, a, r, p: 2 * c["ulp"], outkind=keep, scaled=True, domain=(0.0, 60.0), weight=2),
    Op("truncate", [{PRIV}], lambda rng, ms: {"method": rng.choice(["heuristic", "local", "heuristic"]), "n": rng.randrange(1, 6)},
       lambda t, x, p: t.truncate(x[0], method=p["method"], amount=p["n"]), lambda a, p: a[0] / 2 ** p["n"],
       tol=lambda c, a, r, p: 2 * c["ulp"], outkind=keep, scaled=True, weight=2),
]


def to_private(x):
    from tf_encrypted.protocol.aby3.aby3_tensors import ShareType

    return x.to_private(ShareType.ARITHMETIC)


# -- approximated functions ------------------------------------------------------


F32 = 3e-7  # coefficients pass through single precision on their way in


def piecewise(x, cuts, coeffs, sf):
    out = 0.0 * x
    lo = -np.inf
    for k, co in enumerate(coeffs):
        hi = enc(cuts[k], sf) if k < len(cuts) else np.inf
        v = sum(w * x ** i for i, w in enumerate(co))
        out = np.where((x > lo) & (x <= hi), v, out)
        lo = hi
    return out


SIG3 = ((-2.5, 2.5), ((1e-4,), (0.50, 0.17), (1 - 1e-4,)))
SIG5 = ((-4, -1.5, 1.5, 4), ((1e-4,), (0.281, 0.066), (0.5, 0.212), (0.719, 0.066), (1 - 1e-4,)))


def r_sigmoid(a, p):
    c, co = SIG3 if p["t"].startswith("3") else SIG5
    return piecewise(a[0], c, co, p["_sf"])


def lin_tol(c, a, r, p):
    x = np.abs(a[0])
    return (3 + c["trunc"] + x) * c["ulp"] + F32 * (1 + x)


def poly_tol(coeffs):
    def f(c, a, r, p):
        x = np.maximum(1.0, np.abs(a[0]))
        t = 4 * c["ulp"] + F32
        for k, w in enumerate(coeffs(p)):
            if k:
                t = t + (abs(w) + 1) * (4 * c["trunc"] * c["ulp"] * k * x ** max(k - 1, 0) + c["ulp"] * x ** k + F32 * x ** k) + c["trunc"] * c["ulp"]
        return t
    return f


def p_poly(rng, ms):
    n = rng.randrange(1, 5)
    return {"c": [rng.choice([0, 1, 2, -3, 0.5, -1.25, 0.3, 1.7, -0.01]) for _ in range(n + 1)]}


def p_mpoly(rng, ms):
    return {"c": [[rng.choice([0.0, 1.0, -3.0, 0.5, -1.25, 0.3]) for _ in range(rng.randrange(2, 4))] for _ in range(rng.randrange(1, 4))]}


def p_pwpoly(rng, ms):
    n = rng.randrange(1, 4)
    cuts = sorted(rng.sample([-3.0, -2.0, -1.5, -0.25, 0.0, 0.5, 1.0, 2.5, 3.0], n))
    return {"cuts": cuts, "c": [[rng.choice([0.0, 1.0, -2.0, 0.5, -1.25, 0.3]) for _ in range(rng.randrange(2, 4))] for _ in range(n + 1)]}


def worst(p):
    n = max(len(c) for c in p["c"])
    return [max(abs(c[i]) if i < len(c) else 0 for c in p["c"]) for i in range(n)]


LOGC = [-3.35674972, 12.79333646, -26.18955259, 30.24596692, -17.30367641, 3.82474222]


def p_max(rng, ms):
    p = p_reduce(rng, ms)
    if p is None or not ms[0].shape:
        return None
    p["method"] = rng.choice(["tree", "network"])
    p["keepdims"] = bool(p["keepdims"])
    return p


def p_argmax(rng, ms):
    r = len(ms[0].shape)
    if not r:
        return None
    return {"axis": rng.randrange(r), "style": "onehot", "keepdims": rng.random() < 0.4}


def r_maxarg(a, p):
    x, ax = a[0], p["axis"]
    m = x.max(axis=ax, keepdims=True)
    # the last of equal maxima, or the first: accepted below
    idx = np.argmax(x, axis=ax)
    oh = np.moveaxis(np.eye(x.shape[ax])[idx], -1, ax)
    return [m if p.get("keepdims") else np.squeeze(m, ax), oh]


def c_onehot(x, ax, oh):
    """A one-hot selection of a maximal element along the axis, or why it is not."""
    if oh.shape != x.shape:
        return "the arg-max has shape %s, should be %s" % (oh.shape, x.shape)
    if not np.all((oh == 0) | (oh == 1)) or not np.all(oh.sum(axis=ax) == 1):
        return "the arg-max is not a one-hot selection"
    if not np.array_equal((oh * x).sum(axis=ax), x.max(axis=ax)):
        return "the arg-max selects an element that is not the maximum"
    return None


def p_sort(rng, ms):
    r = len(ms[0].shape)
    if not r:
        return None
    return {"axis": axis_of(rng, r), "acc": rng.random() < 0.6}  # noqa: F405


def r_sort(a, p):
    z = np.sort(a[0], axis=p["axis"])
    return z if p["acc"] else np.flip(z, p["axis"])


def p_maxpool(rng, ms):
    p = p_pool(rng, ms)
    if p is not None and p["padding"] == "SAME" and ms[0].val.size and ms[0].val.min() < 0:
        p["padding"] = "VALID"  # the library pads with zeros: see the known finding
    return p


def r_maxpool_true(a, p):
    return r_maxpool(a, dict(p, fill=-np.inf))


def p_pool_same(rng, ms):
    p = p_pool(rng, ms)
    if p is None or not (ms[0].val.size and ms[0].val.max() < 0):
        return None
    return dict(p, padding="SAME")


def c_pool_same_negative(a, p, outs):
    want = r_maxpool_true(a, p)
    if outs[0].shape == want.shape and np.allclose(outs[0], want):
        return None
    zeros = patches(a[0], *p["pool"], *p["strides"], "SAME", fill=0.0).max(axis=(4, 5))
    if outs[0].shape == zeros.shape and np.allclose(outs[0], zeros):
        return ("maxpool2d:same-padding-counts-as-zero", "windows that reach over the border give 0, should give their negative maximum")
    return "wrong maximum"


def r_pool_arg(a, p):
    x = a[0]
    fill = 0.0
    pt = patches(x, *p["pool"], *p["strides"], p["padding"], fill=fill)
    n, c, oh, ow, kh, kw = pt.shape
    q = pt.reshape(n, c, oh, ow, kh * kw)
    return [q.max(-1), np.eye(kh * kw)[q.argmax(-1)]]


def c_pool_arg(a, p, outs):
    pt = patches(a[0], *p["pool"], *p["strides"], p["padding"], fill=0.0)
    n, c, oh, ow, kh, kw = pt.shape
    return c_onehot(pt.reshape(n, c, oh, ow, kh * kw), 4, outs[1])


def p_exp(rng, ms):
    v = ms[0].val
    t = rng.choice(["mp-spdz", "mp-spdz", "as2019", "infinity"])
    sg = None
    if t == "mp-spdz" and v.size:
        if v.min() > 0 and rng.random() < 0.5:
            sg = 1
        if v.max() < 0 and rng.random() < 0.5:
            sg = -1
    return {"t": t, "sign": sg}


def t_exp(c, a, r, p):
    x = a[0]
    if p["t"] == "infinity":
        # (1 + x/128)^128, seven squarings, and the error of the approximation itself
        return np.abs(np.exp(x) - (1 + x / 128) ** 128) + 128 * 4 * c["ulp"] * np.maximum(1, np.exp(x)) * 2 + 1e-6
    rel = 2e-3 if c["ulp"] > 1e-6 else 2e-4
    return rel * np.exp(x) + 24 * c["ulp"] * np.maximum(1.0, np.exp(x) * 2)


def t_exp2(c, a, r, p):
    rel = 2e-3 if c["ulp"] > 1e-6 else 2e-4
    return rel * r + 24 * c["ulp"] * np.maximum(1.0, 2 * r)


def p_prod(rng, ms):
    r = len(ms[0].shape)
    if not r:
        return None
    return {"axis": axis_of(rng, r), "keepdims": rng.random() < 0.4}  # noqa: F405


def p_max_pub(rng, ms):
    if "128" in getattr(ms[0], "prot", ""):
        return None  # 128-bit tensors have no maximum
    return p_max(rng, ms)


def r_softmax(a, p):
    e = np.exp(a[0] - a[0].max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


NOFN = ("sort", "reduce_max", "softmax", "softmax_wide")  # a loop in the graph: not traceable with this TensorFlow

APPROX = [
    Op("sigmoid", [{PRIV}], lambda rng, ms: {"t": rng.choice(["3_piecewise_linear", "5_piecewise_linear"])},
       lambda t, x, p: t.sigmoid(x[0], p["t"]), r_sigmoid, tol=lin_tol, scaled=True, domain=(-9.0, 9.0), weight=2),
    Op("relu", [{PRIV}], nop, lambda t, x, p: t.relu(x[0]), lambda a, p: np.maximum(a[0], 0), weight=2),
    Op("relu_with_cmp", [{PRIV}], nop, lambda t, x, p: t.relu_with_cmp(x[0]), lambda a, p: [np.maximum(a[0], 0), (a[0] > 0).astype(float)],
       multi=True, outkind=lambda ks: [PRIV, "bool"]),
    Op("reciprocal", [{PRIV}], lambda rng, ms: {"nonsigned": bool(ms[0].val.size and ms[0].val.min() > 0 and rng.random() < 0.5)},
       lambda t, x, p: t.reciprocal(x[0], nonsigned=p["nonsigned"]), lambda a, p: 1 / a[0],
       tol=lambda c, a, r, p: 1e-3 * np.abs(r) + 40 * c["ulp"] * np.maximum(1.0, np.abs(r)), scaled=True, domain=(0.05, 40.0), weight=1.5),
    Op("reciprocal_neg", [{PRIV}], nop, lambda t, x, p: t.reciprocal(x[0]), lambda a, p: 1 / a[0],
       tol=lambda c, a, r, p: 1e-3 * np.abs(r) + 40 * c["ulp"] * np.maximum(1.0, np.abs(r)), scaled=True, domain=(-40.0, -0.05)),
    Op("reciprocal_pub", [{PUB}], nop, lambda t, x, p: t.reciprocal(x[0]), lambda a, p: 1 / a[0],
       tol=lambda c, a, r, p: 1.01 * c["ulp"], scaled=True, domain=(0.05, 40.0), weight=0.5),
    Op("sqrt_pub", [{PUB}], nop, lambda t, x, p: t.sqrt(x[0]), lambda a, p: np.sqrt(a[0]),
       tol=lambda c, a, r, p: 1.01 * c["ulp"], scaled=True, domain=(0.0, 60.0), weight=0.5),
    Op("inv_sqrt", [{PRIV}], nop, lambda t, x, p: t.inv_sqrt(x[0]), lambda a, p: 1 / np.sqrt(a[0]),
       tol=lambda c, a, r, p: 2e-3 * r + 40 * c["ulp"] * np.maximum(1.0, r), scaled=True, domain=(0.05, 60.0), weight=1.5),
    Op("exp", [{PRIV}], p_exp, lambda t, x, p: t.exp(x[0], approx_type=p["t"], sign=p["sign"]), lambda a, p: np.exp(a[0]), tol=t_exp,
       scaled=True, domain=(-6.0, 3.5), weight=2),
    Op("exp_neg", [{PRIV}], p_exp, lambda t, x, p: t.exp(x[0], approx_type=p["t"], sign=p["sign"]), lambda a, p: np.exp(a[0]), tol=t_exp,
       scaled=True, domain=(-6.0, -0.01), weight=1),
    Op("exp2", [{PRIV}], lambda rng, ms: {"t": rng.choice(["mp-spdz", "as2019"])}, lambda t, x, p: t.exp2(x[0], approx_type=p["t"]),
       lambda a, p: 2.0 ** a[0], tol=t_exp2, scaled=True, domain=(-8.0, 6.0), weight=1.5),
    Op("log", [{PRIV}], nop, lambda t, x, p: t.log(x[0]), lambda a, p: sum(w * a[0] ** i for i, w in enumerate(LOGC)),
       tol=lambda c, a, r, p: poly_tol(lambda q: LOGC)(c, a, r, p), scaled=True, domain=(0.3, 1.3), weight=1),
    Op("polynomial", [{PRIV}], p_poly, lambda t, x, p: t.polynomial(x[0], list(p["c"])),
       lambda a, p: sum(w * a[0] ** i for i, w in enumerate(p["c"])), tol=poly_tol(lambda p: p["c"]), scaled=True, domain=(-3.0, 3.0), weight=1.5),
    Op("multi_polynomial", [{PRIV}], p_mpoly, lambda t, x, p: t.multi_polynomial(x[0], p["c"]),
       lambda a, p: np.stack([sum(w * a[0] ** i for i, w in enumerate(c)) for c in p["c"]]), tol=lambda c, a, r, p: np.max(poly_tol(worst)(c, a, r, p)),
       scaled=True, domain=(-3.0, 3.0), weight=1),
    Op("polynomial_piecewise", [{PRIV}], p_pwpoly, lambda t, x, p: t.polynomial_piecewise(x[0], list(p["cuts"]), p["c"]),
       lambda a, p: piecewise(a[0], p["cuts"], p["c"], p["_sf"]), tol=poly_tol(worst), scaled=True, domain=(-4.0, 4.0), weight=1.5),
    Op("softmax", [{PRIV}], lambda rng, ms: {"t": rng.choice(["mp-spdz", "mp-spdz", "as2019"]), "m": rng.choice(["network", "tree"])},
       lambda t, x, p: t.softmax(x[0], approx_type=p["t"], max_method=p["m"]), r_softmax,
       tol=lambda c, a, r, p: 4e-3, scaled=True, domain=(-3.4, 3.4), minrank=1, weight=1),
    Op("softmax_wide", [{PRIV}], lambda rng, ms: {"m": rng.choice(["network", "tree"])},
       lambda t, x, p: t.softmax(x[0], max_method=p["m"]), r_softmax,
       tol=lambda c, a, r, p: 4e-3, scaled=True, domain=(-7.0, 7.0), minrank=1, weight=0.7),
    Op("maximum", [{PRIV}, {PRIV}], p_broadcast_same, lambda t, x, p: t.maximum(x[0], x[1]), lambda a, p: np.maximum(a[0], a[1]), weight=1.5),
    Op("cmp_swap", [{PRIV}, {PRIV}], p_broadcast_same, lambda t, x, p: list(t.cmp_swap(x[0], x[1])),
       lambda a, p: [np.minimum(a[0], a[1]), np.maximum(a[0], a[1])], multi=True, weight=1),
    Op("reduce_max", [{PRIV}], p_max, lambda t, x, p: t.reduce_max(x[0], axis=p["axis"], keepdims=p["keepdims"], method=p["method"]),
       lambda a, p: a[0].max(axis=p["axis"], keepdims=p["keepdims"]), weight=2.5, minrank=1),
    Op("reduce_max_pub", [{PUB}], p_max_pub, lambda t, x, p: t.reduce_max(x[0], axis=p["axis"], keepdims=p["keepdims"]),
       lambda a, p: a[0].max(axis=p["axis"], keepdims=p["keepdims"]), weight=0.7, minrank=1),
    Op("reduce_max_with_argmax", [{PRIV}], p_argmax,
       lambda t, x, p: list(t.reduce_max_with_argmax(x[0], axis=p["axis"], keepdims=p["keepdims"], output_style=p["style"])), r_maxarg,
       multi=True, outkind=lambda ks: [PRIV, "bool"], weight=2, minrank=1, check=lambda a, p, outs: c_onehot(a[0], p["axis"], outs[1])),
    Op("argmax", [{PRIV}], p_argmax, lambda t, x, p: t.argmax(x[0], axis=p["axis"]), lambda a, p: r_maxarg(a, p)[1],
       outkind=lambda ks: "bool", minrank=1, check=lambda a, p, outs: c_onehot(a[0], p["axis"], outs[0])),
    Op("sort", [{PRIV}], p_sort, lambda t, x, p: t.sort(x[0], p["axis"], acc=p["acc"]), r_sort, minrank=1, weight=2),
    Op("prod", [{PRIV}], p_prod, lambda t, x, p: t.prod(x[0], axis=p["axis"], keepdims=p["keepdims"]),
       lambda a, p: a[0].prod(axis=p["axis"], keepdims=p["keepdims"]),
       tol=lambda c, a, r, p: 0.0 if not p["_nscaled"] else c["trunc"] * c["ulp"] * a[0].shape[p["axis"]] * 2.1 ** a[0].shape[p["axis"]],
       domain=(-2.0, 2.0), minrank=1, weight=1.5),
    Op("maxpool2d", [{PRIV}], p_maxpool, lambda t, x, p: t.maxpool2d(x[0], tuple(p["pool"]), tuple(p["strides"]), p["padding"]), r_maxpool_true, weight=2.5),
    Op("maxpool2d_same_negative", [{PRIV}], p_pool_same, lambda t, x, p: t.maxpool2d(x[0], tuple(p["pool"]), tuple(p["strides"]), p["padding"]),
       r_maxpool_true, weight=0.15, domain=(-6.0, -0.5), check=c_pool_same_negative),
    Op("maxpool2d_with_argmax", [{PRIV}], p_maxpool, lambda t, x, p: list(t.maxpool2d_with_argmax(x[0], tuple(p["pool"]), tuple(p["strides"]), p["padding"])),
       r_pool_arg, multi=True, outkind=lambda ks: [PRIV, "bool"], weight=2, check=c_pool_arg),
]
for _o in AB3:
    if _o.name == "matmul":
        _o.batch = True
