EX = ("exploration", "bounded stand-in: executable contracts on the real code",
      "pre/postconditions of the property evaluated on the real code for generated inputs; bounded, nothing counted as proved")
PR = lambda note: ("proof", "contract-based deductive verification: verification conditions generated from the current source, discharged by z3/cvc5",
                   note + "; floats treated as mathematical reals, library calls by assumed contracts (listed in the evidence); "
                   "the same contracts also run on the real code (bounded) to find failing inputs")
LEVELS = {"C%02d" % i: EX for i in range(1, 30)}
for i, n in {
    "C01": "membership and the variational inequality of every projection, for all lengths and radii",
    "C02": "optimality of every oracle over its set, for all lengths",
    "C03": "optimality of the swap for an arbitrary active set",
    "C04": "values and proximal operators for all lengths, groups and weights",
    "C09": "values for all data sizes, dense and sparse",
    "C10": "gradients are the symbolic derivatives of the values, all data sizes",
    "C11": "Hessian-vector products are the symbolic derivatives of the gradient",
    "C13": "every iterate, callback argument and result is a convex combination of points of the set, for all objectives, sets, dimensions and numbers of iterations",
    "C14": "active-set invariant for all objectives, vertices and numbers of iterations",
    "C15": "step sizes, certificate and stopping of the vanilla variant, for all objectives, oracles and numbers of iterations",
    "C16": "iterates, steps, line search and certificates, for all objectives, proximal operators and numbers of iterations",
    "C17": "certificate and line search for all objectives, proximal operators and numbers of iterations",
    "C18": "steps, line search and success, for all objectives, proximal operators, linear operators and numbers of iterations",
    "C26": "callback, budget and tolerance of the four deterministic solvers, for all inputs and numbers of iterations (stochastic solvers: bounded)",
    "C25": "the functions under contract: losses, gradients, Hessian products, projections, oracles, proximal operators and the four deterministic solvers leave their arguments unchanged and do not truncate on integer data (stochastic solvers and total variation: bounded)",
    "C27": "Trace, for every number of calls and frequency",
    "C28": "objective/gradient building for every history of evaluations, argument passing, and the initial Lipschitz estimate",
    "C24": "the support matrix and the CSR kernels, for every sparsity pattern, block map and vector",
    "C07": "values of the total-variation penalties and the difference operator of the 2-D image, for all shapes and images",
    "C08": "L1 and fused-lasso block operators for every sparse support; the group operator for an arbitrary partition (the factory's own partition loops: bounded)",
    "C22": "the aggregate, directions and active sets of all variants for every data set and batch size (pairwise linear-minimisation variant: bounded)",
    "C23": "step formulas and membership of the iterate for all variants, step rules and batch sizes",
    "C19": "SAGA's iterates, memory, averages, block weights and warm-up, for every sparse data set, block partition, order of samples and number of epochs (no prox / dense data: bounded)",
    "C20": "SVRG's snapshots, iterates and block weights, for every sparse data set, block partition, order of samples and number of epochs (no prox / dense data: bounded)",
    "C21": "VRTOS's two prox steps, dual rows, weighted average, memory and warm-up, for every sparse data set, two block partitions, order of samples and number of epochs (no prox / dense data: bounded)",
    "C12": "formula and validity of the Lipschitz constants",
}.items():
    LEVELS[i] = PR(n)
NOT_APPLICABLE = []
