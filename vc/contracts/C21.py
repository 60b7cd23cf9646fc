from vr import *
FUNCTIONS = ["randomized.minimize_vrtos", "randomized._factory_sparse_vrtos"]
ASSUMPTIONS = VR_BASE


def vrtos(E):
    E.path_jobs = 5
    E.explore("minimize_vrtos", lambda E: Vrtos(E).run())


CONTRACTS = [vrtos]
