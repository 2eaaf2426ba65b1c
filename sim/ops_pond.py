"""Pond and SecureNN operations."""
import numpy as np

from .ops_common import *  # noqa: F401,F403
from .ops_common import Op, enc, mkindex, nop, poly_bound, r_poly, seq, sl

PUB, PRIV, MASK = "pub", "priv", "mask"
ALL = {PUB, PRIV, MASK}
PYS = {"py"}


def tfe():
    import tf_encrypted

    return tf_encrypted


def out_bin(ks):
    ks = [k for k in ks if k != "py"]
    if not ks:
        return PUB
    return PUB if all(k == PUB for k in ks) else PRIV


def keep(ks):
    return ks[0]


def unmask(ks):
    return PUB if ks[0] == PUB else PRIV


def perm_t(x, perm):
    return x.transpose() if perm is None else x.transpose(perm)


SIG = {0: 0.5, 1: 0.2159198015, 3: -0.0082176259, 5: 0.0001825597, 7: -0.0000018848, 9: 0.0000000072}
REL = {0: 0.44015372000819103, 1: 0.5, 2: 0.11217537671414643, 4: -0.0013660836712429923,
       6: 9.009136367360004e-06, 8: -2.1097433984e-08}
TANH = {0: 0.0, 1: 0.852721056, 3: -0.12494112, 5: 0.010654528, 7: -0.000423424}
LOG = {0: -3.35674972, 1: 12.79333646, 2: -26.18955259, 3: 30.24596692, 4: -17.30367641, 5: 3.82474222}


def poly_op(name, coeffs, lo, hi):
    return Op(
        name, [ALL], nop,
        lambda t, x, p: getattr(t, name)(x[0]),
        lambda a, p: r_poly(a[0], coeffs, p["_sf"]),
        tol=lambda c, a, r, p: poly_bound(a[0], coeffs, c["ulp"]),
        domain=(lo, hi), outkind=lambda ks: PUB if ks[0] == PUB else PRIV, scaled=True, weight=0.6,
    )


def p_div(rng, ms):
    k = rng.random()
    if k < 0.4:
        return {"y": rng.choice([2, 3, -4, 7, 10])}
    return {"y": rng.choice([2.0, 0.5, -3.25, 7.5])}


def t_div(c, a, r, p):
    return np.abs(a[0]) * c["ulp"] + 2 * c["ulp"]


def p_recip(rng, ms):
    return {}


def sqrt_ref(a, p):
    return np.sqrt(a[0])


def add_like(f):
    return lambda t, x, p: f(x[0], x[1])


def p_addlike(rng, ms):
    if ms[0].kind == "py" and ms[1].kind == "py":
        return None
    if ms[0].kind == "py" or ms[1].kind == "py":
        return {}
    if ms[0].scaled != ms[1].scaled:
        return None
    return p_broadcast(rng, ms)  # noqa: F405


def p_mullike(rng, ms):
    if ms[0].kind == "py" and ms[1].kind == "py":
        return None
    return p_broadcast(rng, ms) if "py" not in (ms[0].kind, ms[1].kind) else {}  # noqa: F405


def mul_scale(ms):
    s = [m.scaled for m in ms if m.kind != "py"]
    return any(s)


def mul_tol(c, a, r, p):
    return c["trunc"] * c["ulp"] if p["_nscaled"] >= 2 else 0.0


AP = ALL | PYS

POND = [
    Op("add", [AP, AP], p_addlike, lambda t, x, p: t.add(x[0], x[1]) if p.get("fn") else x[0] + x[1],
       lambda a, p: a[0] + a[1], outkind=out_bin, weight=2),
    Op("sub", [AP, AP], p_addlike, lambda t, x, p: x[0] - x[1], lambda a, p: a[0] - a[1], outkind=out_bin, weight=2),
    Op("mul", [AP, AP], p_mullike, lambda t, x, p: x[0] * x[1], lambda a, p: a[0] * a[1], tol=mul_tol,
       scale=mul_scale, outkind=out_bin, weight=3),
    Op("matmul", [ALL, ALL], p_matmul, lambda t, x, p: t.matmul(x[0], x[1]), lambda a, p: a[0] @ a[1],  # noqa: F405
       tol=mul_tol, scale=mul_scale, outkind=out_bin, weight=5),
    Op("square", [ALL], nop, lambda t, x, p: t.square(x[0]), lambda a, p: a[0] ** 2,
       tol=lambda c, a, r, p: c["trunc"] * c["ulp"] if p["_nscaled"] else 0.0, outkind=out_bin, weight=2),
    Op("negative", [ALL], nop, lambda t, x, p: t.negative(x[0]), lambda a, p: -a[0], outkind=keep),
    Op("reduce_sum", [ALL], p_reduce, lambda t, x, p: t.reduce_sum(x[0], axis=p["axis"], keepdims=p["keepdims"]),  # noqa: F405
       lambda a, p: a[0].sum(axis=p["axis"], keepdims=bool(p["keepdims"])), outkind=unmask, weight=1.5),
    Op("cumsum", [ALL], p_cumsum,  # noqa: F405
       lambda t, x, p: t.cumsum(x[0], axis=p["axis"], exclusive=p["exclusive"], reverse=p["reverse"]),
       lambda a, p: r_cumsum(a[0], p), outkind=unmask),
    Op("transpose", [ALL], p_transpose, lambda t, x, p: t.transpose(x[0], perm=p["perm"]),  # noqa: F405
       lambda a, p: a[0].transpose(p["perm"]), outkind=keep, weight=1.5),
    Op("reshape", [ALL], p_reshape, lambda t, x, p: t.reshape(x[0], p["shape"]),  # noqa: F405
       lambda a, p: a[0].reshape(p["shape"]), outkind=keep),
    Op("expand_dims", [ALL], p_expand, lambda t, x, p: t.expand_dims(x[0], axis=p["axis"]),  # noqa: F405
       lambda a, p: np.expand_dims(a[0], p["axis"]), outkind=keep),
    Op("squeeze", [ALL], p_squeeze, lambda t, x, p: t.squeeze(x[0], axis=p["axis"]),  # noqa: F405
       lambda a, p: np.squeeze(a[0], None if p["axis"] is None else tuple(p["axis"])), outkind=keep, weight=2),
    Op("strided_slice", [ALL], p_slice, lambda t, x, p: t.strided_slice(x[0], p["b"], p["e"], p["s"]),  # noqa: F405
       lambda a, p: a[0][sl(p)], outkind=keep, weight=1.5),
    Op("index", [ALL], p_index, lambda t, x, p: x[0][mkindex(p)], lambda a, p: a[0][mkindex(p)],  # noqa: F405
       outkind=keep),
    Op("gather", [ALL], p_gather, lambda t, x, p: t.gather(x[0], p["idx"], axis=p["axis"]),  # noqa: F405
       lambda a, p: np.take(a[0], p["idx"], p["axis"]), outkind=keep),
    Op("split", [ALL], p_split, lambda t, x, p: t.split(x[0], p["n"], axis=p["axis"]), r_split,  # noqa: F405
       outkind=keep, multi=True),
    Op("stack", [ALL, ALL], p_stack, lambda t, x, p: t.stack(seq(x, p), axis=p["axis"]),  # noqa: F405
       lambda a, p: np.stack(seq(a, p), p["axis"]), outkind=lambda ks: ks[0] if ks[0] == ks[1] else None, weight=2),
    Op("concat", [ALL, ALL], p_concat, lambda t, x, p: t.concat(seq(x, p), axis=p["axis"]),  # noqa: F405
       lambda a, p: np.concatenate(seq(a, p), p["axis"]),
       outkind=lambda ks: ks[0] if ks[0] == ks[1] else None, weight=2),
    Op("pad", [{PUB, PRIV}], p_pad, lambda t, x, p: t.pad(x[0], p["pads"]),  # noqa: F405
       lambda a, p: np.pad(a[0], p["pads"]), outkind=keep, scaled=True),
    Op("mask", [{PRIV}], nop, lambda t, x, p: t.mask(x[0]), lambda a, p: a[0], outkind=lambda ks: MASK, weight=2),
    Op("identity", [{PUB, PRIV}], nop, lambda t, x, p: t.identity(x[0]), lambda a, p: a[0], outkind=keep, weight=0.5),
    Op("reveal", [{PRIV, MASK}], nop, lambda t, x, p: t.reveal(x[0]), lambda a, p: a[0], outkind=lambda ks: PUB),
    Op("conv2d", [ALL, ALL], p_conv, lambda t, x, p: t.conv2d(x[0], x[1], (p["strides"], p["strides"]), p["padding"]), r_conv,  # noqa: F405
       tol=mul_tol, scale=mul_scale, outkind=lambda ks: conv_kind(ks), weight=6),
    Op("avgpool2d", [ALL], p_pool, lambda t, x, p: t.avgpool2d(x[0], tuple(p["pool"]), tuple(p["strides"]), p["padding"]),  # noqa: F405
       r_avgpool, tol=lambda c, a, r, p: (2 + c["trunc"] + np.max(np.abs(a[0])) * p["pool"][0] * p["pool"][1]) * c["ulp"],
       outkind=unmask, scaled=True, weight=2),
    Op("div", [ALL], p_div, lambda t, x, p: x[0] / p["y"] if p.get("op") else t.div(x[0], p["y"]),
       lambda a, p: a[0] / p["y"], tol=t_div, outkind=unmask, scaled=True),
    Op("div_pub", [ALL, {PUB}], p_broadcast, lambda t, x, p: t.div(x[0], x[1]), lambda a, p: a[0] / a[1],  # noqa: F405
       tol=lambda c, a, r, p: np.max(np.abs(a[0])) * c["ulp"] + 2 * c["ulp"], outkind=unmask, scaled=True,
       domain=(None, (0.25, 8))),
    Op("reciprocal", [{PUB}], nop, lambda t, x, p: t.reciprocal(x[0]), lambda a, p: 1 / a[0],
       tol=lambda c, a, r, p: 1.01 * c["ulp"], outkind=keep, scaled=True, domain=(0.2, 8)),
    Op("sqrt", [{PUB}], nop, lambda t, x, p: t.sqrt(x[0]), sqrt_ref, tol=lambda c, a, r, p: 1.01 * c["ulp"],
       outkind=keep, scaled=True, domain=(0.0, 60)),
    Op("equal", [{PUB}, {PUB}], p_addlike, lambda t, x, p: t.equal(x[0], x[1]),  # noqa: F405
       lambda a, p: (a[0] == a[1]).astype(float), outkind=keep, scale=lambda ms: False),
    Op("add_n", [{PUB, PRIV}, {PUB, PRIV}], p_addlike, lambda t, x, p: t.add_n([x[0], x[1], x[0]]),
       lambda a, p: a[0] * 2 + a[1], outkind=out_bin),
    Op("space_to_batch", [ALL], lambda rng, ms: p_s2b(rng, ms),
       lambda t, x, p: t.space_to_batch(x[0], [2, 2], p["pads"]), lambda a, p: r_s2b(a[0], p["pads"]), outkind=unmask, weight=3),
    Op("batch_to_space", [ALL], lambda rng, ms: p_b2s(rng, ms),
       lambda t, x, p: t.batch_to_space(x[0], [2, 2], p["crops"]), lambda a, p: r_b2s(a[0], p["crops"]), outkind=unmask, weight=3),
    poly_op("sigmoid", SIG, -2.0, 2.0),
    poly_op("tanh", TANH, -2.0, 2.0),
    poly_op("relu", REL, -2.0, 2.0),
    poly_op("log", LOG, 0.3, 1.3),
]


def conv_kind(ks):
    if ks == [PUB, PUB]:
        return PUB
    if PUB in ks:
        return None  # the library refuses public x private
    return PRIV


def r_cumsum(x, p):
    ax = p["axis"]
    y = np.flip(x, ax) if p["reverse"] else x
    z = np.cumsum(y, ax)
    if p["exclusive"]:
        z = z - y
    return np.flip(z, ax) if p["reverse"] else z


def p_s2b(rng, ms):
    s = ms[0].shape
    if len(s) != 4:
        return None
    pads = [[rng.randrange(2), 0], [rng.randrange(2), 0]]
    for i in (0, 1):
        pads[i][1] = (s[1 + i] + pads[i][0]) % 2
    return {"pads": pads}


def r_s2b(x, pads):
    x = np.pad(x, [(0, 0)] + [tuple(q) for q in pads] + [(0, 0)])
    n, h, w, c = x.shape
    y = x.reshape(n, h // 2, 2, w // 2, 2, c).transpose(2, 4, 0, 1, 3, 5)
    return y.reshape(n * 4, h // 2, w // 2, c)


def p_b2s(rng, ms):
    s = ms[0].shape
    if len(s) != 4 or s[0] % 4:
        return None
    return {"crops": [[rng.randrange(2), 0], [0, rng.randrange(2)]]}


def r_b2s(x, crops):
    n4, h, w, c = x.shape
    n = n4 // 4
    y = x.reshape(2, 2, n, h, w, c).transpose(2, 3, 0, 4, 1, 5).reshape(n, h * 2, w * 2, c)
    (a, b), (d, e) = crops
    return y[:, a:h * 2 - b, d:w * 2 - e]
