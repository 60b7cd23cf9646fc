from vr import *
FUNCTIONS = ["randomized.minimize_svrg"]
ASSUMPTIONS = VR_BASE


def svrg(E):
    E.explore("minimize_svrg", lambda E: Saga(E, "C20", "minimize_svrg").run())


CONTRACTS = [svrg]
