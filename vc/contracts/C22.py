from sfw import *
FUNCTIONS = ["randomized.minimize_sfw", "utils.sample_batches"]
ASSUMPTIONS = SFW_BASE


def one(E, v):
    E.explore("minimize_sfw[%s, batch_size=1]" % v, lambda E: SFWSpec(E, "C22", v, "callable", False).run())


def many(E, v):
    E.explore("minimize_sfw[%s, any batch_size]" % v, lambda E: SFWSpec(E, "C22", v, "callable", True).run())


def sampling(E):
    E.explore("sample_batches", lambda E: BatchSpec(E).run())


CONTRACTS = [sampling] + split(one, "one", VARIANTS) + split(many, "many", VARIANTS)
