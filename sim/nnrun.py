"""Runs of encrypted Keras models: inference (T18) and training (T17)."""
import contextlib
import hashlib
import random

from . import boot
from .boot import np, tf, tfe
from .boot import Sim, fresh
from .nn import Bad, Band, Ref, Skip, backward, build_layer, describe, forward, gen_stack, gen_weights, grid, keras_layer, reveal, values
from .progs import gen_sched, is_injected, mk_sched, tb

SIM_ERRORS = (tf.errors.UnavailableError, tf.errors.AbortedError, tf.errors.ResourceExhaustedError)
COSTLY = {"relu", "sigmoid", "softmax", "tanh"}


def costly(layers):
    n = 0
    for s in layers:
        if s["t"] in ("ReLU", "MaxPooling2D", "GlobalMaxPooling2D") or s.get("act") in COSTLY:
            n += 1
    return n


def untraceable(layers):
    return any(s.get("act") == "softmax" or s["t"] in ("GlobalMaxPooling2D", "MaxPooling2D") for s in layers)


class Run:
    def __init__(self, spec, salt=0):
        self.spec = spec
        self.prot_name = spec["prot"]
        self.checked = 0
        self.retried = 0
        self.skipped = 0
        self.cov = set()
        self.probes = {}
        self.where = ""
        self.outs = hashlib.sha256()
        self.sim = Sim(spec["seed"] * 7 + salt)
        self.sim.hash_values = False
        if spec.get("sched"):
            self.sim.scheduler = mk_sched(spec["sched"])

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    # -- helpers -----------------------------------------------------------------

    def attempt(self, f):
        """One step of a client who repeats it when the cluster failed."""
        for fa in self.spec.get("faults") or []:
            if not fa.get("_done"):
                self.sim.fail_at[self.sim.ops + fa["at"]] = {"connection_lost": "connection_lost", "step_aborted": "abort", "alloc_fail": "alloc_fail"}[fa["kind"]]
        for _ in range(6):
            try:
                r = f()
                self.sim.fail_at.clear()
                return r
            except SIM_ERRORS as e:
                if not is_injected(e):
                    raise
                self.retried += 1
        return f()

    def secret(self, prot, v, how):
        if how == "variable":
            return prot.define_private_variable(v)
        if how == "tensor":
            return prot.define_private_variable(tf.constant(v))
        return prot.define_private_input("client", lambda: tf.constant(v))

    def model(self, layers=None, weights=None, how="nested"):
        spec = self.spec
        layers = spec["layers"] if layers is None else layers
        m = tfe.keras.Sequential()
        if spec.get("ctor"):
            m = tfe.keras.Sequential([build_layer(s, spec["shape"] if i == 0 else None) for i, s in enumerate(layers)])
        else:
            for i, s in enumerate(layers):
                m.add(build_layer(s, spec["shape"] if i == 0 else None))
        if weights is not None:
            self.put(m, weights, how)
        return m

    def put(self, m, weights, how):
        """Give the model these weights, one way or another."""
        ws = [[np.array(w) for w in layer] for layer in weights]
        if how == "private":
            pub = [s["t"] == "BatchNormalization" for s in self.spec["layers"]]
            ws = [[(tfe.define_public_variable(w) if p else tfe.define_private_variable(w)) for w in layer] for layer, p in zip(ws, pub)]
        if not any(ws):
            return
        if how == "flat":
            m.set_weights([w for layer in ws for w in layer])
        elif how == "layers":
            for la, w in zip(m.layers, ws):
                if w:
                    la.set_weights(w)
        elif how == "twice":
            other = self.model(None)
            if ws[0]:
                other.set_weights(ws)
                m.set_weights(ws)
            else:
                other.set_weights([w for la in ws for w in la])
                m.set_weights([w for la in ws for w in la])
        elif ws[0]:
            m.set_weights(ws)
        else:  # the first list decides how the argument is understood
            m.set_weights([w for layer in ws for w in layer])

    def fwd(self, weights, x):
        def f(r):
            ws = [[r.enc(w) for w in layer] for layer in weights]
            v = r.enc(x)
            for s, w in zip(self.spec["layers"], ws):
                v, _ = forward(r, s, w, v)
            return {"prediction": v}
        return f

    def band(self, f):
        return Band(self.prot_name, f, self.spec["seed"] % (1 << 40))

    def kinks_matter(self):
        return any(s.get("act") == "sigmoid" for s in self.spec["layers"]) and self.prot_name.startswith("aby3")

    def judge(self, band, name, got, sig, kinks=True):
        self.outs.update(np.ascontiguousarray(got).tobytes())
        if kinks and band.tie:
            self.skipped += 1
            return
        try:
            band.check(name, got, sig, describe(self.spec))
        except Skip:
            self.skipped += 1
            return
        self.checked += 1

    def sig(self):
        t = [s["t"] for s in self.spec["layers"]]
        return t[0] if len(t) == 1 else "model"

    # -- inference -------------------------------------------------------------

    def start(self):
        sp = self.spec
        cfg, prot = fresh(sp["prot"], names=("server0", "server1", "server2", "client"), debug=sp["mode"] == "debug")
        return prot

    def act_forward(self):
        sp = self.spec
        prot = self.start()
        _, x, W = values(sp)
        m = self.model(None, W, sp["how"])
        X = self.secret(prot, x, sp["xkind"])
        if sp["mode"] == "function":
            f = tfe.function(lambda t: m(t).reveal().to_native())
            y = self.attempt(lambda: f(X).numpy())
        else:
            y = self.attempt(lambda: reveal(m(X)))
        self.judge(self.band(self.fwd(W, x)), "prediction", y, "forward:" + self.sig(), self.kinks_matter())
        shape = list(sp["shape"])
        for s, la in zip(sp["layers"], m.layers):
            got = la.compute_output_shape(list(shape))
            want = list(_out(s, shape))
            if got is None or [int(g) for g in got] != want:
                raise Bad("output-shape:" + s["t"], "%s: compute_output_shape(%s) of %s is %s, its output has shape %s" % (describe(sp), shape, s["t"], got, want))
            shape = want
        self.checked += 1

    def act_predict(self):
        sp = self.spec
        prot = self.start()
        rng, x, W = values(sp)
        m = self.model(None, W, sp["how"])
        for k, call in enumerate(sp["calls"]):
            xs = grid(rng, [call["n"]] + list(sp["shape"][1:]))
            if call.get("new"):
                W = gen_weights(rng, sp)
                self.put(m, W, call["how"])
            X = self.secret(prot, xs, sp["xkind"])
            kw = {} if call["batch"] is None else {"batch_size": call["batch"]}
            if call["reveal"] is not None:
                kw["reveal"] = call["reveal"]
            y = self.attempt(lambda: m.predict(X, **kw))
            if call["reveal"] is False:
                if not isinstance(y, tfe.protocol.protocol.TFEPrivateTensor):
                    raise Bad("predict:revealed", "%s: predict(reveal=False) number %d gave %s" % (describe(sp), k + 1, type(y).__name__))
                y = reveal(y)
            elif isinstance(y, tfe.protocol.protocol.TFETensor):
                raise Bad("predict:not-revealed", "%s: predict number %d gave %s" % (describe(sp), k + 1, type(y).__name__))
            self.judge(self.band(self.fwd(W, xs)), "prediction", np.asarray(y), "predict:" + self.sig(), self.kinks_matter())

    def keras_model(self, W):
        sp = self.spec
        km = tf.keras.Sequential()
        for i, s in enumerate(sp["layers"]):
            km.add(keras_layer(s, sp["shape"] if i == 0 else None))
        for s, la, w in zip(sp["layers"], km.layers, W):
            if w:
                la.set_weights([np.asarray(v, dtype=np.float32) for v in w])
        return km

    def act_clone(self):
        sp = self.spec
        _, x, W = values(sp)
        with self.sim.pause():
            tf.keras.backend.clear_session()
            km = self.keras_model(W)
            ky = km(x.astype(np.float32)).numpy()
        prot = self.start()
        if sp["via"] == "clone":
            m = tfe.keras.models.clone_model(km)
        else:
            conf = km.get_config()
            m = tfe.keras.models.model_from_config(conf) if sp["via"] == "config" else tfe.keras.Sequential.from_config(conf)
            flat = [w for layer in W for w in layer]
            if flat:
                m.set_weights([np.array(w) for w in flat])
        X = self.secret(prot, x, sp["xkind"])
        y = self.attempt(lambda: reveal(m(X)))
        b = self.band(self.fwd(W, x))
        exact = not any(s.get("act") in ("sigmoid", "tanh") for s in sp["layers"])
        if exact and np.max(np.abs(b.want["prediction"] - ky)) > 1e-3:
            raise AssertionError("the reference disagrees with Keras by %g" % np.max(np.abs(b.want["prediction"] - ky)))
        self.judge(b, "prediction", y, "clone:" + self.sig(), self.kinks_matter())

    def act_evaluate(self):
        sp = self.spec
        prot = self.start()
        rng, x, W = values(sp)
        m = self.model(None, W, sp["how"])
        xs = grid(rng, [sp["n"]] + list(sp["shape"][1:]))
        b = self.band(self.fwd(W, xs))
        p = b.want["prediction"]
        if sp["metric"] == "categorical_accuracy":
            t = np.eye(p.shape[1])[rng.integers(0, p.shape[1], p.shape[0])]
            so = np.sort(p, axis=1)
            near = p.shape[1] > 1 and np.any(so[:, -1] - so[:, -2] <= 2 * np.max(b.lim("prediction")))
            used = sp["n"] if sp["steps"] is None else min(sp["n"], sp["steps"] * (sp["batch"] or sp["n"]))
            want = np.mean(p.argmax(1)[:used] == t.argmax(1)[:used])
        else:
            t = rng.integers(0, 2, p.shape).astype(np.float64)
            near = np.any(np.abs(p - 0.5) <= 2 * np.max(b.lim("prediction")))
            used = sp["n"] if sp["steps"] is None else min(sp["n"], sp["steps"] * (sp["batch"] or sp["n"]))
            want = np.mean((p > 0.5)[:used] == (t > 0.5)[:used])
        X, Y = self.secret(prot, xs, sp["xkind"]), self.secret(prot, t, "variable")
        kw = {} if sp["batch"] is None else {"batch_size": sp["batch"]}
        if sp["steps"] is not None:
            kw["steps"] = sp["steps"]
        got = self.attempt(lambda: m.evaluate(X, Y, metrics=[sp["metric"]], **kw))
        if near or (self.kinks_matter() and b.tie):
            self.skipped += 1
            return
        g = float(np.asarray(got[sp["metric"]]))
        if abs(g - want) > 1e-5:
            raise Bad("evaluate", "%s: %s over %d of %d samples in batches of %s is %r, should be %r" % (describe(sp), sp["metric"], used, sp["n"], sp["batch"], g, want))
        self.checked += 1

    # -- training ------------------------------------------------------------------

    def both(self, W, x, dy):
        """Reference of one pass forward and back."""
        def f(r):
            ws = [[r.enc(w) for w in layer] for layer in W]
            v = r.enc(x)
            caches = []
            for s, w in zip(self.spec["layers"], ws):
                v, c = forward(r, s, w, v)
                caches.append(c)
            out = {"output": v}
            d = r.enc(dy)
            for i in range(len(ws) - 1, -1, -1):
                g, d = backward(r, self.spec["layers"][i], ws[i], caches[i], d)
                for j, q in enumerate(g):
                    out["gradient of weight %d of layer %d" % (j, i)] = q
                out["gradient of the input of layer %d" % i] = d
            return out
        return f

    def act_grads(self):
        sp = self.spec
        prot = self.start()
        rng, x, W = values(sp)
        m = self.model(None, W, sp["how"])
        shape = list(sp["shape"])
        for s in sp["layers"]:
            shape = _out(s, shape)
        dy = grid(rng, shape)
        X, D = self.secret(prot, x, sp["xkind"]), self.secret(prot, dy, sp["xkind"])
        names = []

        def go(X, D):
            outs = [m(X)]
            names[:] = ["output"]
            d = D
            for i in range(len(sp["layers"]) - 1, -1, -1):
                g, d = m.layers[i].backward(d)
                for j, q in enumerate(g):
                    names.append("gradient of weight %d of layer %d" % (j, i))
                    outs.append(q)
                names.append("gradient of the input of layer %d" % i)
                outs.append(d)
            return outs

        try:
            if sp["mode"] == "function":
                f = tfe.function(lambda a, b: [o.reveal().to_native() for o in go(a, b)])
                got = self.attempt(lambda: [v.numpy() for v in f(X, D)])
            else:
                got = self.attempt(lambda: [reveal(o) for o in go(X, D)])
        except AssertionError as e:
            if "Different shapes" in str(e):  # refused aloud
                self.skipped += 1
                self.probe("refused")
                return
            raise
        b = self.band(self.both(W, x, dy))
        for n, v in zip(names, got):
            if n.startswith("gradient of weight"):
                v = v.reshape(np.shape(b.want[n])) if np.size(v) == np.size(b.want[n]) else v
            i = int(n.split()[-1]) if n != "output" else None
            kind = "forward" if i is None else "%s:%s" % ("dw" if "weight" in n else "dx", sp["layers"][i]["t"])
            self.judge(b, n, v, kind)
        b2 = set(b.want) - set(names)
        if b2:
            raise Bad("missing-gradient", "%s: no %s" % (describe(sp), sorted(b2)[0]))

    def loss_ref(self, r, p, y, what="both"):
        sp = self.spec
        L = sp["loss"]
        n = y.shape[0]
        if L["k"] == "mse":
            val = r.scal(r.tr((y - p) ** 2).sum(axis=0), 1.0 / n)
            return val, r.scal(r.scal(p - y, 2), 1.0 / n)
        if L["k"] == "bce":
            q = r.sigmoid(p) if L["logits"] else p
            val = r.scal(-(r.tr(y * r.log(q)) + r.tr((1 - y) * r.log(1 - q))).sum(axis=0), 1.0 / n)
        else:
            q = r.softmax(p) if L["logits"] else p
            val = r.scal(-r.tr(y * r.log(q)).sum(), 1.0 / n)
        g = q - y
        if not L.get("lazy"):
            g = r.scal(g, 1.0 / n)
        return val, g

    def make_loss(self):
        L = self.spec["loss"]
        K = tfe.keras.losses
        if L["k"] == "mse":
            return K.MeanSquaredError()
        cls = K.BinaryCrossentropy if L["k"] == "bce" else K.CategoricalCrossentropy
        kw = {}
        if L["logits"]:
            kw["from_logits"] = True
        if L.get("lazy"):
            kw["lazy_normalization"] = True
        return cls(**kw)

    def act_loss(self):
        sp = self.spec
        prot = self.start()
        rng = np.random.Generator(np.random.PCG64(sp["seed"] + 17))
        L = sp["loss"]
        shape = sp["shape"]
        if L["k"] == "mse":
            p, y = grid(rng, shape, -3, 3), grid(rng, shape, -3, 3)
        elif L["k"] == "bce":
            p = grid(rng, shape, -3, 3) if L["logits"] else grid(rng, shape, 0.125, 0.875)
            y = rng.integers(0, 2, shape).astype(float)
        else:
            p = grid(rng, shape, -2, 2) if L["logits"] else grid(rng, shape, 0.125, 0.875)
            y = np.eye(shape[1])[rng.integers(0, shape[1], shape[0])]
        P, Y = self.secret(prot, p, sp["xkind"]), self.secret(prot, y, sp["xkind"])
        loss = self.make_loss()
        if sp["mode"] == "function":
            f = tfe.function(lambda a, b: [loss(a, b).reveal().to_native(), loss.grad(a, b).reveal().to_native()])
            v, g = [t.numpy() for t in self.attempt(lambda: f(Y, P))]
        else:
            v = self.attempt(lambda: reveal(loss(Y, P)))
            g = self.attempt(lambda: reveal(loss.grad(Y, P)))

        def ref(r):
            a, b = self.loss_ref(r, r.enc(p), r.enc(y))
            return {"loss": a, "gradient": b}
        b = self.band(ref)
        name = "%s%s" % (L["k"], "-logits" if L.get("logits") else "")
        self.judge(b, "loss", v, "loss:" + name)
        self.judge(b, "gradient", g, "loss-gradient:" + name)

    def make_opt(self):
        o = self.spec["opt"]
        K = tfe.keras.optimizers
        if o["k"] == "sgd":
            return K.SGD(o["lr"], **({} if o["mom"] == 0 else {"momentum": o["mom"]}))
        return {"amsgrad": K.AMSgrad, "adam": K.Adam}[o["k"]](o["lr"], beta1=o["b1"], beta2=o["b2"])

    def opt_init(self, W):
        o = self.spec["opt"]
        z = [np.zeros(w.shape) for w in W]
        st = {"V": list(z), "M": list(z), "H": list(z), "t": 0}
        return st

    def opt_step(self, r, st, W, G):
        o = self.spec["opt"]
        st["t"] += 1
        out = []
        for i, (w, g) in enumerate(zip(W, G)):
            if o["k"] == "sgd":
                v = r.scal(st["V"][i], o["mom"]) if o["mom"] else 0.0
                v = v + r.scal(g, o["lr"])
                st["V"][i] = v
                out.append(w - v)
                continue
            m = r.scal(st["M"][i], o["b1"]) + r.scal(g, 1 - o["b1"])
            v = r.scal(st["V"][i], o["b2"]) + r.tr(r.scal(g, 1 - o["b2"]) * g)
            st["M"][i], st["V"][i] = m, v
            if o["k"] == "amsgrad":
                r.kink(np.where(st["H"][i] == 0, 1e6, st["H"][i] - v) * 0 + 1e6)
                st["H"][i] = np.maximum(st["H"][i], v)
                h, mm = st["H"][i], m
            else:
                p1, p2 = o["b1"] ** st["t"], o["b2"] ** st["t"]
                e = 2 * st["t"] * r.ulp
                mm = r.tr(m / (1 - r.n(p1, e)))
                h = r.tr(v / (1 - r.n(p2, e)))
            iv = 1 / np.sqrt(np.maximum(h + r.ulp, 1e-6))
            iv = r.n(iv, 4e-4 * iv + 8 * r.ulp * np.maximum(1.0, iv))
            out.append(w - r.tr(r.scal(mm, o["lr"]) * iv))
        return out

    def act_opt(self):
        sp = self.spec
        prot = self.start()
        rng = np.random.Generator(np.random.PCG64(sp["seed"] + 17))
        W0 = [grid(rng, s, -2, 2) for s in sp["wshapes"]]
        Gs = [[np.sign(rng.uniform(-1, 1, s)) * grid(rng, s, 1.0, 3.0) for s in sp["wshapes"]] for _ in range(sp["steps"])]
        opt = self.make_opt()
        if sp.get("byname"):
            self.probe("by_name")
        ws = [tfe.define_private_variable(w) for w in W0]
        opt.compile([ws])
        if sp["mode"] == "function":
            def stp(gs):
                opt.apply_gradients(ws, gs)
                return tf.constant(0)
            step = tfe.function(stp)
        else:
            def step(gs):
                opt.apply_gradients(ws, gs)

        def ref(r):
            st = self.opt_init(W0)
            w = [r.enc(v) for v in W0]
            out = {}
            for k, G in enumerate(Gs):
                w = self.opt_step(r, st, w, [r.enc(g) for g in G])
                for i, v in enumerate(w):
                    out["weight %d after step %d" % (i, k + 1)] = v
            return out
        b = self.band(ref)
        for k, G in enumerate(Gs):
            step([self.secret(prot, g, "variable") for g in G])
            for i, w in enumerate(ws):
                self.judge(b, "weight %d after step %d" % (i, k + 1), reveal(w), "optimizer:" + sp["opt"]["k"])

    def act_fit(self):
        sp = self.spec
        prot = self.start()
        rng, _, W = values(sp)
        n = sp["n"]
        xs = grid(rng, [n] + list(sp["shape"][1:]))
        shape = [n] + list(sp["shape"][1:])
        for s in sp["layers"]:
            shape = _out(s, shape)
        if sp["loss"]["k"] == "mse":
            ys = grid(rng, shape)
        elif sp["loss"]["k"] == "bce":
            ys = rng.integers(0, 2, shape).astype(float)
        else:
            ys = np.eye(shape[1])[rng.integers(0, shape[1], shape[0])]
        m = self.model(None, W, sp["how"])
        m.compile(self.make_opt(), self.make_loss())
        losses = []
        bs = sp["batch"]
        batches = [(i, min(i + (bs or 32), n)) for i in range(0, n, bs or 32)]
        seen = []
        if sp["data"] == "tensor":
            X, Y = self.secret(prot, xs, "variable"), self.secret(prot, ys, "variable")
            if sp["steps"] is not None:
                batches = batches[: sp["steps"]]
            plan = batches * sp["epochs"]
        else:
            per = sp["steps"] or len(batches)
            order = [batches[k % len(batches)] for k in range(per * sp["epochs"] if sp["steps"] else per)]
            plan = order

            def feed():
                for a, b in order:
                    yield self.secret(prot, xs[a:b], "variable"), self.secret(prot, ys[a:b], "variable")
            X, Y = feed(), None
        if sp["via"] == "fit":
            kw = {"epochs": sp["epochs"], "verbose": 0}
            if bs is not None and sp["data"] == "tensor":
                kw["batch_size"] = bs
            if sp["steps"] is not None:
                kw["steps_per_epoch"] = sp["steps"]
            with contextlib.redirect_stdout(None):
                m.fit(X, Y, **kw)
        else:
            for a, b in plan:
                v = m.fit_batch(self.secret(prot, xs[a:b], "variable"), self.secret(prot, ys[a:b], "variable"))
                losses.append(np.asarray(v))

        def ref(r):
            ws = [[r.enc(w) for w in layer] for layer in W]
            st = [self.opt_init(layer) for layer in W]
            out = {}
            for k, (a, b) in enumerate(plan):
                v = r.enc(xs[a:b])
                caches = []
                for s, w in zip(sp["layers"], ws):
                    v, c = forward(r, s, w, v)
                    caches.append(c)
                out["loss of step %d" % (k + 1)], d = self.loss_ref(r, v, r.enc(ys[a:b]))
                for i in range(len(ws) - 1, -1, -1):
                    g, d = backward(r, sp["layers"][i], ws[i], caches[i], d)
                    if ws[i]:
                        ws[i] = self.opt_step(r, st[i], ws[i], g)
            for i, layer in enumerate(ws):
                for j, w in enumerate(layer):
                    out["weight %d of layer %d" % (j, i)] = w
            return out
        b = self.band(ref)
        for k, v in enumerate(losses):
            self.judge(b, "loss of step %d" % (k + 1), v, "training-loss")
        for i, la in enumerate(m.layers):
            for j, w in enumerate(la.weights):
                name = "weight %d of layer %d" % (j, i)
                v = reveal(w)
                if np.size(v) == np.size(b.want[name]):
                    v = v.reshape(np.shape(b.want[name]))
                self.judge(b, name, v, "trained-weights")

    def run(self):
        with self.sim:
            self.where = self.spec["act"]
            getattr(self, "act_" + self.spec["act"])()


def _out(s, shape):
    from .nn import out_shape

    return out_shape(s, shape)


# -- generation --------------------------------------------------------------------


def gen_common(rng, prot):
    s = {"seed": rng.getrandbits(40), "prot": prot, "mode": "debug" if rng.random() < 0.35 else "eager",
         "how": rng.choice(["nested", "nested", "flat", "private", "layers", "twice"]), "xkind": rng.choice(["variable", "tensor", "input"]),
         "ctor": rng.random() < 0.4}
    return s


def gen_faults(rng, hi):
    if rng.random() < 0.7:
        return []
    return [{"at": rng.randrange(1, hi), "kind": rng.choice(["connection_lost", "step_aborted", "alloc_fail"])} for _ in range(rng.randrange(1, 3))]


def gen_infer(seed):
    rng = random.Random(seed)
    prot = rng.choice(["aby3"] * 5 + ["aby3-128", "pond", "pond", "pond", "pond100", "securenn"])
    act = rng.choice(["forward"] * 4 + ["predict"] * 3 + ["clone"] * 3 + ["evaluate"])
    s = gen_common(rng, prot)
    s["act"] = act
    while True:
        s["shape"], s["layers"] = gen_stack(rng, prot, False, deep=3 if rng.random() < 0.7 else 2)
        if act == "clone":
            if any(q.get("df") == "channels_first" or (q["t"] == "BatchNormalization" and len(s["shape"]) == 4 and q["axis"] == 1) for q in s["layers"]):
                continue
            if any(q["t"] in ("Conv2D", "DepthwiseConv2D") and q["s"][0] != q["s"][1] for q in s["layers"]):
                continue
        if act == "evaluate":
            sh = list(s["shape"])
            for q in s["layers"]:
                sh = _out(q, sh)
            if len(sh) != 2:
                continue
        break
    if act == "forward" and prot != "pond100" and not untraceable(s["layers"]) and costly(s["layers"]) <= (1 if rng.random() < 0.3 else 0) and rng.random() < 0.35:
        s["mode"] = "function"
    if act in ("predict", "evaluate"):
        s["mode"] = "debug"
        if prot != "pond100" and not untraceable(s["layers"]) and costly(s["layers"]) == 0 and rng.random() < 0.5:
            s["mode"] = "function"
    if act == "predict":
        s["calls"] = [{"n": rng.randrange(1, 6), "batch": rng.choice([None, 1, 2, 3, 5]), "reveal": rng.choice([None, True, False]),
                       "new": rng.random() < 0.5, "how": rng.choice(["nested", "flat", "private"])} for _ in range(rng.randrange(1, 4))]
        s["how"] = rng.choice(["nested", "flat"])
    if act == "clone":
        s["via"] = rng.choice(["clone", "clone", "config", "class"])
    if act == "evaluate":
        s["n"], s["batch"] = rng.randrange(1, 7), rng.choice([None, 1, 2, 3, 4])
        s["metric"] = rng.choice(["categorical_accuracy", "binary_accuracy"])
        s["steps"] = rng.choice([None, None, 1, 2])
    if s["mode"] == "function":
        s["sched"] = gen_sched(rng)
    if act in ("forward", "predict", "clone") and s["mode"] != "function":
        s["faults"] = gen_faults(rng, 3000)
    return s


def gen_loss(rng, prot, last=None):
    aby = prot.startswith("aby3")
    k = rng.choice(["mse", "mse", "bce", "cce"] if aby else ["mse", "mse", "bce"])
    L = {"k": k, "logits": rng.random() < 0.5}
    if k == "mse":
        L = {"k": k}
    elif rng.random() < 0.3:
        L["lazy"] = True
    return L


def gen_opt(rng, prot, fit=False):
    aby = prot.startswith("aby3")
    k = rng.choice(["sgd", "amsgrad", "adam"]) if aby and not fit else "sgd"
    if k == "sgd":
        return {"k": k, "lr": rng.choice([0.5, 0.25, 0.1, 0.03]), "mom": rng.choice([0.0, 0.0, 0.5, 0.9])}
    return {"k": k, "lr": rng.choice([0.5, 0.1, 0.03]), "b1": rng.choice([0.25, 0.5, 0.9]), "b2": rng.choice([0.5, 0.75, 0.9])}


def gen_train(seed):
    rng = random.Random(seed)
    prot = rng.choice(["aby3"] * 8 + ["aby3-128", "pond", "pond"])
    act = rng.choice(["grads"] * 5 + ["loss"] * 2 + ["opt"] * 2 + ["fit"] * 4)
    s = gen_common(rng, prot)
    s["act"] = act
    s["how"] = rng.choice(["nested", "flat"])
    if act in ("grads", "fit"):
        while True:
            s["shape"], s["layers"] = gen_stack(rng, prot, True, deep=3 if act == "grads" else 2, image=False if prot.startswith("pond") else None if act == "grads" or rng.random() < 0.25 else False)
            if act == "fit":
                sh = list(s["shape"])
                for q in s["layers"]:
                    sh = _out(q, sh)
                if not any(q["t"] in ("Dense", "Conv2D") for q in s["layers"]):
                    continue
                L = gen_loss(rng, prot)
                lazy = bool(L.get("lazy"))
                if L["k"] in ("bce", "cce"):
                    if len(sh) != 2 or any(q["t"] in ("Conv2D",) for q in s["layers"]):
                        continue
                    if L["k"] == "cce" and sh[1] < 2:
                        continue
                    L["logits"] = True
                    last = s["layers"][-1]
                    if L["k"] == "bce" and last["t"] == "Dense" and rng.random() < 0.5:
                        last["act"] = "sigmoid"
                        L["logits"] = False
                for q in s["layers"]:
                    q.pop("lazy", None)
                    if lazy and q["t"] in ("Dense", "Conv2D"):
                        q["lazy"] = True
                s["loss"] = L
            break
        if act == "grads" and not untraceable(s["layers"]) and costly(s["layers"]) == 0 and rng.random() < 0.3:
            s["mode"] = "function"
            s["sched"] = gen_sched(rng)
    if act == "fit":
        s["opt"] = gen_opt(rng, prot, True)
        s["n"], s["batch"], s["epochs"] = rng.randrange(2, 8), rng.choice([None, 1, 2, 3, 4]), rng.choice([1, 1, 2, 3])
        s["data"] = rng.choice(["tensor", "tensor", "generator"])
        s["via"] = rng.choice(["fit", "fit", "batches"])
        s["steps"] = None
        if s["data"] == "generator":
            s["steps"] = rng.choice([None, 1, 2, 3])
            if s["steps"] is None:
                s["epochs"] = 1
        elif s["epochs"] == 1 and rng.random() < 0.25:
            s["steps"] = rng.choice([1, 2])
        while -(-s["n"] // (s["batch"] or 32)) * s["epochs"] > 7:
            s["n"] -= 1
        s["mode"] = "debug"
        if costly(s["layers"]) == 0 and s["loss"]["k"] == "mse" and not untraceable(s["layers"]) and len(s["layers"]) <= 2 and rng.random() < 0.4:
            s["mode"] = "function"
            s["sched"] = gen_sched(rng)
    if act == "loss":
        s["loss"] = gen_loss(rng, prot)
        s["shape"] = [rng.randrange(1, 6), rng.randrange(1, 5)]
        if s["loss"]["k"] == "cce":
            s["shape"][1] = rng.randrange(2, 5)
        s["layers"] = []
        if s["loss"]["k"] == "mse" and rng.random() < 0.5:
            s["mode"] = "function"
            s["sched"] = gen_sched(rng)
    if act == "opt":
        s["opt"] = gen_opt(rng, prot)
        s["wshapes"] = [rng.choice([[3], [2, 2], [1], [2, 3]]) for _ in range(rng.randrange(1, 4))]
        s["steps"] = rng.randrange(1, 5)
        s["shape"], s["layers"] = [], []
        if s["opt"]["k"] == "sgd" and rng.random() < 0.5:
            s["mode"] = "function"
            s["sched"] = gen_sched(rng)
    if act in ("grads", "loss") and s["mode"] != "function":
        s["faults"] = gen_faults(rng, 3000)
    return s


def shrink_nn(spec):
    n = len(spec["layers"])
    if spec.get("faults"):
        yield dict(spec, faults=[])
    if n > 1:
        yield dict(spec, layers=spec["layers"][:-1])
        s = spec["layers"][0]
        yield dict(spec, shape=_out(s, spec["shape"]), layers=spec["layers"][1:])
    for k, v in (("ctor", False), ("how", "nested"), ("xkind", "variable"), ("epochs", 1), ("steps", None)):
        if k in spec and spec[k] != v and not (k == "steps" and spec["act"] == "opt"):
            yield dict(spec, **{k: v})
    if spec["act"] == "opt" and spec["steps"] > 1:
        yield dict(spec, steps=spec["steps"] - 1)
    if len(spec.get("calls") or []) > 1:
        for i in range(len(spec["calls"])):
            yield dict(spec, calls=spec["calls"][:i] + spec["calls"][i + 1:])
    if spec.get("n", 1) > 1:
        yield dict(spec, n=spec["n"] - 1)
    for i, s in enumerate(spec["layers"]):
        for k, v in (("act", None), ("bias", False), ("lazy", False)):
            if s.get(k) not in (v, None) and s["t"] != "Activation":
                yield dict(spec, layers=spec["layers"][:i] + [dict(s, **{k: v})] + spec["layers"][i + 1:])


def decide_nn(spec):
    def once(salt):
        r = Run(spec, salt)
        bad = None
        try:
            r.run()
        except Bad as b:
            bad = (str(b), b.sig, None)
        except AssertionError as e:
            if "reference disagrees" in str(e):
                raise
            bad = ("%s: %s: %s" % (describe(spec), type(e).__name__, str(e)[:400]), "error:%s:AssertionError" % spec["act"], tb())
        except Exception as e:
            bad = ("%s: %s: %s" % (describe(spec), type(e).__name__, str(e)[:400]), "error:%s:%s" % (spec["act"], type(e).__name__), tb())
        finally:
            boot.reset_library_state()
        return r, bad
    r, bad = once(0)
    out = {"violation": None, "faults": dict(r.sim.injected), "messages": r.sim.messages}
    if bad:
        out["violation"], out["sig"] = bad[0], bad[1]
        if bad[2]:
            out["tb"] = bad[2]
    sch = r.sim.scheduler
    out["ops"] = r.sim.ops
    out["ticks"] = sch.now if sch else 0
    out["sched"] = "%x" % sch.order if sch else None
    out["cov"] = sorted({"%s|%s|%s|%s" % (spec["prot"], spec["act"], spec["mode"], "-".join(
        "%s.%s.%s.%s" % (s["t"], s.get("act"), s.get("df", "")[9:], s.get("pad")) for s in spec["layers"]))}
        | {"%s|%s" % (spec["prot"], s["t"]) for s in spec["layers"]})
    out["probes"] = dict(r.probes, checks_made=r.checked)
    out["probes"]["act_" + spec["act"]] = 1
    out["probes"]["mode_" + spec["mode"]] = 1
    if r.skipped:
        out["probes"]["not_judged"] = r.skipped
    if r.retried:
        out["probes"]["completed_after_fault"] = 1
    out["nontrivial"] = r.checked > 0
    out["trace"] = hashlib.sha256((r.sim.digest.hexdigest() + r.outs.hexdigest() + repr(out["violation"])).encode()).hexdigest()[:24]
    return out
