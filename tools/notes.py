E_ = "explicit-state model checking of the real code over a bounded space of executions, enumerated exhaustively (no sampling): "
TECH = {
    "C01": E_ + "every input word over a small alphabet x weight x step x group structure or image shape; each result judged by the optimality conditions of its problem",
    "C02": E_ + "every input word x radius x set; each result judged by the variational inequality that characterises the projection",
    "C03": E_ + "every direction x feasible point x active set (and insertion order); each answer judged against the support function of the set",
    "C04": E_ + "every small matrix x targets x point x margin around every branch of the evaluation x format; judged against the documented formula in 80-bit arithmetic",
    "C05": E_ + "every small matrix x loss x regularisation x format; judged against eigenvalues and the defining inequality on all pairs of grid points",
    "C06": E_ + "every group structure x support x vector x weight; judged against the penalty's own operator on each touched block, untouched blocks byte for byte",
    "C08": E_ + "every problem of a family x set x start x step rule, the whole iterate history of each run monitored against the certified optimum and the method's rate",
    "C09": E_ + "every problem of a family x term x start x step rule x variant, the whole iterate history of each run monitored against descent, the rate and the certified minimiser",
    "C10": E_ + "every problem of a family x pair of terms x start x step configuration, each run judged against a certified minimiser and the optimality residual",
    "C11": E_ + "every problem of a family x pair of terms x linear operator (and representation) x step configuration, each run judged against a certified minimiser",
    "C19": E_ + "every public operation x every combination of representations of its arguments, run differentially against the base representation",
    "C25": E_ + "every enumerated input and sampling order is executed compiled (child process) and interpreted and compared number by number",
    "C26": E_ + "every problem of a family is handed to every solver that can express it (stochastic ones under enumerated sampling orders) and compared with a certified minimiser",
}
NOTE = {}
NOT_APPLICABLE = {}
