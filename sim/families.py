"""All families of programs by name."""


def family(name):
    if name == "pond":
        from .family_pond import POND_FAMILY

        return POND_FAMILY
    if name == "securenn":
        from .family_securenn import SNN_FAMILY

        return SNN_FAMILY
    if name == "aby3":
        from .family_aby3 import ABY3_FAMILY

        return ABY3_FAMILY
    if name == "approx":
        from .family_aby3 import APPROX_FAMILY

        return APPROX_FAMILY
    if name == "words":
        from .family_words import WORD_FAMILY

        return WORD_FAMILY
    raise KeyError(name)


PROTOCOLS = {
    "pond": ("pond", "pond-ni", "pond", "pond-ni", "pond100", "pond100-ni"),
    "securenn": ("securenn",) * 6 + ("securenn-ni",) * 6 + ("securenn100",),
    "aby3": ("aby3", "aby3", "aby3-128"),
    "approx": ("aby3", "aby3", "aby3-128"),
    "words": ("aby3", "aby3", "aby3-128"),
}
