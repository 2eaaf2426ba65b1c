from .progs import *  # noqa: F401,F403
from .progs import Family
from .boot import np, tf, tfe
from .ops_pond import POND
from tf_encrypted.protocol.protocol import TFETensor


class PondFamily(Family):
    ops = POND

    def kinds_for(self, prot):
        return ["const", "pubvar", "pubvar_tf", "pubin", "privvar", "privvar", "privvar_tf", "privvar_from_pub", "privin", "privin2", "maskin", "py"]

    def sf(self, p):
        b, f = self.bf(p)
        return b ** f

    def bf(self, p):
        if "100" in p:
            return 2, 16
        if p.endswith("-ni"):
            return 2, 13
        return 3, 8

    def limit(self, p):
        return 300.0

    def wide(self, p):
        return 40.0

    def modes(self, p):
        if "100" in p:
            return [("eager", 7), ("debug", 3)]
        return [("eager", 5), ("debug", 3), ("function", 4)]

    def ctx(self, prot, p):
        c = {"ulp": 1.0 / self.sf(p), "trunc": 2.0, "composite_wrap": False}
        c["wrap_min"] = 2 ** 12 if p.endswith("-ni") else np.inf
        c["composite_wrap"] = p.endswith("-ni")
        return c

    def is_tensor(self, t):
        return isinstance(t, TFETensor)

    def build_input(self, prot, i, v):
        k = i["kind"]
        sc = i["scaled"]
        if k == "py":
            return v
        if k == "const":
            return prot.define_constant(v, apply_scaling=sc)
        if k == "pubvar":
            return prot.define_public_variable(v, apply_scaling=sc)
        if k == "pubvar_tf":
            return prot.define_public_variable(tf.constant(v), apply_scaling=sc)
        if k == "privvar":
            return prot.define_private_variable(v, apply_scaling=sc)
        if k == "privvar_tf":
            return prot.define_private_variable(tf.constant(v), apply_scaling=sc)
        if k == "privvar_from_pub":
            return prot.define_private_variable(prot.define_constant(v, apply_scaling=sc), apply_scaling=sc)
        if k == "pubin":
            return prot.define_public_input(i["owner"], lambda: tf.constant(v), apply_scaling=sc)
        if k == "privin":
            return prot.define_private_input(i["owner"], lambda: tf.constant(v), apply_scaling=sc)
        if k == "privin2":
            return prot.define_private_input(i["owner"], lambda: [tf.constant(v), tf.constant(v[..., :1])], apply_scaling=sc)[0]
        if k == "maskin":
            return prot.define_private_input(i["owner"], lambda: tf.constant(v), apply_scaling=sc, masked=True)
        raise KeyError(k)

    def reveal(self, prot, t):
        from tf_encrypted.protocol.pond import PondPublicTensor

        if not self.is_tensor(t):
            return t
        if isinstance(t, PondPublicTensor):
            return t
        return t.reveal()

    def copies(self, prot, t):
        return [np.asarray(u.to_native()) for u in t.unwrapped]

    def native(self, prot, t):
        return np.asarray(t.to_native())


POND_FAMILY = PondFamily()
