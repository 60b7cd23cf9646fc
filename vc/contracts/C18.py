from pdhg import *
FUNCTIONS = ["splitting.minimize_primal_dual"]
ASSUMPTIONS = BASE + ["Moreau: v - t prox_h(v/t, 1/t) is the prox of the conjugate of h at v with step t",
                      "L.matvec and L.rmatvec are functions of the contents of their argument; aslinearoperator preserves them"]
CASES = {"search": dict(), "fixed": dict(line_search=False), "search-ratio": dict(given=True), "identity": dict(op="identity"), "no-L": dict(op=None, line_search=False)}


def pd(E, c): E.explore("minimize_primal_dual[%s]" % c, lambda E: PDSpec(E, "C18", **CASES[c]).run())


CONTRACTS = split(pd, "primal_dual", CASES)
