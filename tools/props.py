import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Proximal operators of the penalties return the exact minimiser",
 "For every penalty (L1 norm, group L1, fused lasso / 1-D total variation, nuclear norm, 2-D total variation), every finite input vector, every penalty weight and every positive step size, the proximal operator returns the unique minimiser of penalty(x) + ||x - v||^2 / (2 step), and evaluating the penalty returns its documented value. The row-wise and column-wise 1-D total variation variants solve the same problem on every row or column. The 2-D total variation operator, which is iterative, either returns the minimiser to its tolerance or warns.",
 ["inputs"],"all vectors, weights, step sizes, group structures and matrix shapes",
 "Tests draw a few Gaussian vectors of one fixed size with weight 1 and check one inequality, so ties, plateaus, zeros, group boundaries, sizes, extreme steps and strided inputs are not reached.",
 ["copt/penalty.py","copt/tv_prox.py"],
 [("closed-form soft thresholding","copt/penalty.py L1Norm.prox, GroupL1.prox, TraceNorm.prox"),("Condat's taut-string algorithm","copt/tv_prox.py _prox_tv1d"),("proximal Dykstra","copt/tv_prox.py c_prox_tv2d")],
 ["return value of prox(v, step) and of penalty(x)"])
p("C02","Projections return the nearest feasible point",
 "For every constraint set (L-infinity ball, L2 ball, L1 ball, simplex, nuclear-norm ball), every finite input vector and every positive radius, the projection returns the unique point of the set nearest to the input in Euclidean norm; feasible inputs come back unchanged. Where the set can be evaluated as an indicator, it is 0 on the set and infinite off it.",
 ["inputs"],"all vectors, radii and matrix shapes, including points inside, on the boundary of, and far outside the set",
 "Only the nuclear ball's projection is tested, on ten Gaussian points; the simplex, L2 and L-infinity projections have no test, and ties, boundary and zero inputs are never sampled.",
 ["copt/constraint.py"],
 [("sort-and-threshold projection","copt/constraint.py euclidean_proj_simplex, euclidean_proj_l1ball"),("clipping / rescaling / SVD","copt/constraint.py LinfBall.prox, L2Ball.prox, TraceBall.prox")],
 ["return value of prox(v, step) and of constraint(x)"])
p("C03","Linear minimisation oracles return an optimal feasible move",
 "For every direction u and feasible point x, a constraint's linear oracle returns a move d such that x + d lies in the set and maximises the inner product with u over the set, a representation that identifies the chosen vertex, and a maximum step of 1. The pairwise oracle's move goes from the active vertex with the smallest inner product with u to the best vertex of the set, and its maximum step is that active vertex's weight.",
 ["inputs"],"all directions (ties, zeros and negative ones included), all feasible points, all active sets, all constraint sets offering the oracle",
 "The oracles are tested only through a few full solver runs whose final accuracy is checked loosely; an oracle that is wrong on ties, on zero or all-negative gradients or for one sign still passes.",
 ["copt/constraint.py"],
 [("vertex selection","copt/constraint.py L1Ball.lmo, L1Ball.lmo_pairwise, SimplexConstraint.lmo, TraceBall.lmo")],
 ["the tuple returned by lmo / lmo_pairwise"],
 [("active_set","weight of each vertex in the convex combination equal to the iterate","argument of lmo_pairwise")])
p("C04","Losses return their documented value, gradient and curvature everywhere",
 "For every data matrix (dense or sparse), target vector, regularisation strength and point, the logistic, squared and Huber losses return the documented value and exactly its gradient, to floating-point accuracy and without overflow or loss of precision however large the margins are. Value-only and value-and-gradient evaluation agree, the logistic loss's Hessian product is the derivative of its gradient, and the per-sample derivatives handed to stochastic solvers are the derivatives of the unregularised per-sample losses. Targets outside [0,1] or of the wrong length are rejected by the logistic loss.",
 ["inputs"],"all matrices, formats, targets, regularisation strengths and points, including margins from 0 to +-1e3 and the exact switch points of the piecewise formulas",
 "Tests compare with finite differences (1e-6) at one Gaussian point, unregularised; large margins, the branch boundaries, fractional and extreme targets, regularised Hessians and per-sample derivatives are not reached.",
 ["copt/loss.py","copt/utils.py"],
 [("piecewise stable log-sigmoid and sigmoid","copt/loss.py LogLoss.logsig, LogLoss.expit_b, LogLoss.partial_deriv"),("value/gradient assembly","copt/loss.py *.f_grad"),("Hessian products","copt/loss.py LogLoss.hessian_mv")],
 ["f(x), f.f_grad(x), f.hessian_mv(x)(s), f.partial_deriv(p, y)"])
p("C05","Reported smoothness constants are valid and tight",
 "For every data matrix and regularisation strength, the smoothness constant a loss reports bounds the ratio of gradient change to point change for every pair of points, and is no larger than the smallest constant valid for that loss's curvature bound (largest eigenvalue of the scaled Gram matrix plus regularisation). The per-sample constant bounds the same ratio for every individual sample's loss. The initial estimate used by line searches is positive and finite and, for these losses, makes one gradient step of the implied length not increase the objective.",
 ["inputs"],"all data matrices and formats (single-row, single-column and all-zero ones included), regularisation strengths and pairs of points",
 "Tests only use these constants as step sizes on one Gaussian matrix, so an underestimate shows only if that run diverges and an overestimate never.",
 ["copt/loss.py","copt/utils.py"],
 [("largest singular value","copt/loss.py lipschitz"),("largest row norm","copt/loss.py max_lipschitz, copt/utils.py get_max_lipschitz"),("tenfold growth until descent","copt/utils.py init_lipschitz")],
 ["loss.lipschitz, loss.max_lipschitz, utils.get_max_lipschitz, utils.init_lipschitz"])
p("C06","Block-wise proximal operators agree with the penalty they decompose",
 "For every penalty offering a block-wise operator for stochastic solvers, every number of features and every admissible group structure, the accompanying block structure assigns each feature to exactly one block. Applying the operator for a sample touches exactly the blocks in that sample's support and applies to each of them the penalty's own proximal operator with the step scaled by that block's weight; unpenalised features are untouched. The two halves of the fused lasso together penalise every pair of neighbouring features exactly once.",
 ["inputs","configurations"],"all feature counts, group structures (gaps, singletons, leading and trailing unpenalised features), sample supports, block weights, steps and vectors",
 "One test compares two block matrices; the operators are otherwise exercised only at convergence of full solver runs on one sparse matrix with a handful of groupings.",
 ["copt/penalty.py"],
 [("block structure construction","copt/penalty.py L1Norm.prox_factory, GroupL1.prox_factory, FusedLasso.prox_1_factory, FusedLasso.prox_2_factory")],
 ["the (operator, block matrix) pair returned by the factories"])
p("C07","Frank-Wolfe iterates stay feasible and the active set stays exact",
 "Started from a feasible point, Frank-Wolfe only ever evaluates its oracle at, and returns, points of the constraint set, whatever the objective answers and whichever built-in or admissible user step rule is used. In the pairwise variant the active set at all times holds strictly positive weights summing to one whose weighted vertices add up to the iterate, and a vertex whose weight drops to zero leaves it. A step longer than the away vertex's weight is rejected with an error instead of leaving the set.",
 ["histories","inputs"],"all histories of objective/gradient answers, step rules and constraint sets, over all iterations",
 "Tests look only at the final iterate of convex runs from one start; drop steps, re-added vertices, ties, non-convex or inconsistent oracle answers and intermediate iterates are not examined.",
 ["copt/frank_wolfe.py","copt/constraint.py"],
 [("convex-combination update","copt/frank_wolfe.py minimize_frank_wolfe"),("active set maintenance","copt/frank_wolfe.py update_active_set"),("step clipping","copt/frank_wolfe.py backtracking_step_size")],
 ["arguments of the user-supplied lmo, result.x, result.active_set"],
 [("active_set","vertex weights","copt/frank_wolfe.py minimize_frank_wolfe")])
p("C08","Frank-Wolfe makes progress and its certificate bounds the suboptimality",
 "When Frank-Wolfe stops because its tolerance is met, the returned certificate is at most the tolerance and bounds the objective's distance from the constrained minimum for every convex objective. For every convex problem, with the backtracking, Demyanov-Rubinov, oblivious 2/(k+2) or exact line-search step, every move has the length its rule prescribes, the objective error after k iterations stays below the method's known O(1/k) bound, and the pairwise variant with those adaptive steps drives the certificate to the requested tolerance instead of stalling.",
 ["inputs","configurations"],"all convex smooth objectives, starting points of the constraint set, step rules, variants and tolerances",
 "Tests require a gradient-mapping norm below 0.2-0.4 after hundreds of iterations on one Gaussian data set, which a slow, stalling or wrongly certified run can pass.",
 ["copt/frank_wolfe.py","copt/constraint.py"],
 [("certificate and stopping test","copt/frank_wolfe.py minimize_frank_wolfe"),("adaptive Lipschitz estimate","copt/frank_wolfe.py backtracking_step_size")],
 ["result.x, result.certificate, result.nit"])
p("C09","Proximal gradient descends, converges, and success means stationary",
 "For every convex smooth loss and every proximal term, plain proximal gradient with backtracking or a step of at most 1/L never increases the composite objective, and both the plain and the accelerated method stay below their known O(1/k) and O(1/k^2) bounds on the objective error. Whenever success is reported, the norm of the gradient mapping at the returned point is below the tolerance up to a constant factor, and the reported certificate is that norm up to the same factor.",
 ["inputs","configurations"],"all smooth convex losses, proximal terms, starting points, step rules, backtracking parameters and tolerances, plain and accelerated",
 "Tests check final accuracy on one Gaussian data set with one starting point; monotonicity, rates, the meaning of success at every tolerance and unusual backtracking parameters are not checked.",
 ["copt/proximal_gradient.py","copt/utils.py"],
 [("backtracking sufficient-decrease loop","copt/proximal_gradient.py minimize_proximal_gradient"),("momentum sequence","copt/proximal_gradient.py accelerated branch"),("certificate and stopping test","copt/proximal_gradient.py")],
 ["iterates seen by the callback, result.x, result.success, result.certificate"])
p("C10","Three-operator splitting's success means the three-term problem is solved",
 "For every convex smooth loss and every pair of proximal terms (including one or both absent), three-operator splitting, with line search from any starting step or with a fixed step of at most 1/L, converges to the minimiser of the three-term objective. Whenever success is reported, the optimality residual at the returned point is below the tolerance up to a constant factor.",
 ["inputs","configurations"],"all losses, pairs of proximal terms, starting points, initial steps, line-search settings and tolerances",
 "Tests look at the reported certificate (the solver's own word) on one data set and compare with another solver on two problems.",
 ["copt/splitting.py"],
 [("Davis-Yin iteration and dual update","copt/splitting.py minimize_three_split"),("line search","copt/splitting.py minimize_three_split")],
 ["result.x, result.success, result.certificate, iterates seen by the callback"])
p("C11","Primal-dual splitting solves the problem for every linear operator",
 "For every convex smooth loss, pair of proximal terms and linear operator (dense, sparse or matrix-free, square or not, of any norm, with or without a kernel), primal-dual splitting with line search, or with fixed steps satisfying the method's step-size condition, converges to the minimiser of f(x) + g(x) + h(Lx). Whenever success is reported the returned point is a solution up to the tolerance, not merely a slow one.",
 ["inputs","configurations"],"all losses, proximal terms, linear operators and their representations, starting points and step sizes",
 "Tests use the identity or one difference matrix with one loss and a 1e-3 to 1e-2 relative comparison; scaled, rank-deficient, rectangular or matrix-free operators are not reached.",
 ["copt/splitting.py"],
 [("primal and dual updates through the Moreau identity","copt/splitting.py minimize_primal_dual"),("Malitsky-Pock line search","copt/splitting.py minimize_primal_dual")],
 ["result.x, result.success, result.certificate"])
p("C12","SAGA and SVRG apply the variance-reduced update for every sampling order",
 "For every data matrix, loss derivative, regularisation, block-wise proximal operator and order in which samples are drawn, each inner step of SAGA and SVRG moves exactly the coordinates of the blocks touched by the sample, along the variance-reduced gradient estimate with the inverse-frequency block weights, followed by the block-wise proximal step with the same weights. Starting at a solution SVRG stays there, and with a small enough step both reach the solution of the regularised finite sum for every sampling order when every block occurs in some sample.",
 ["schedules","inputs"],"all sampling orders, sparsity patterns (empty rows and columns included), block structures, starting points and step sizes",
 "Tests run hundreds of epochs on one random sparse matrix with one random order and check only the limit, which a wrong intermediate update, a stale buffer or a wrong block weight can leave unchanged.",
 ["copt/randomized.py"],
 [("inner loops","copt/randomized.py _saga_epoch, _svrg_epoch"),("extended support","copt/randomized.py _support_matrix"),("diagonal reweighting","copt/randomized.py minimize_saga, minimize_svrg")],
 ["iterate after every epoch, seen by the callback and in result.x"],
 [("memory gradients and their average","table of last seen sample derivatives","copt/randomized.py minimize_saga")])
p("C13","VRTOS applies the variance-reduced three-operator update for every order",
 "For every data matrix, pair of block-wise proximal operators with arbitrary different block structures and every sampling order, each inner step of the variance-reduced three-operator method performs the documented update on exactly the coordinates of the touched blocks and leaves all others alone. With a small enough step it reaches the minimiser of the finite sum plus both penalties for every sampling order when every feature occurs in some sample, and the reported certificate is the distance between its three copies of the iterate.",
 ["schedules","inputs"],"all sampling orders, sparsity patterns (empty rows and columns included), pairs of block structures, starting points and step sizes",
 "Tests check only the limit for a few groupings on one random matrix and one random order.",
 ["copt/randomized.py"],
 [("inner loop","copt/randomized.py _factory_sparse_vrtos"),("block weights","copt/randomized.py _factory_sparse_vrtos")],
 ["iterates seen by the callback, result.x, result.certificate"])
p("C14","Stochastic Frank-Wolfe stays feasible and tracks its gradient estimate",
 "Started from a feasible point, every variant of stochastic Frank-Wolfe keeps its iterate in the constraint set for every sequence of sampled batches and every step rule it offers, with finite iterates. The direction passed to the linear oracle is, at every step, exactly the negative of the variant's documented gradient estimator computed from the samples seen so far, and the iterate moves towards the oracle's answer by the variant's documented step. In the pairwise variant the active set stays an exact convex decomposition of the iterate.",
 ["schedules","inputs"],"all sample sequences, batch sizes, variants, step rules, data matrices (empty rows included) and starting points",
 "Tests only check that runs do not raise; neither feasibility nor the estimators nor the result is asserted for any sampling sequence.",
 ["copt/randomized.py","copt/utils.py"],
 [("gradient aggregate update","copt/randomized.py minimize_sfw"),("step-size schedules","copt/randomized.py step_size_sfw, step_size_DR"),("batch sampling","copt/utils.py sample_batches")],
 ["arguments of the user-supplied lmo, iterates seen by the callback, result.x"],
 [("per-sample dual variables and their aggregate","running gradient estimate","copt/randomized.py minimize_sfw")])
p("C15","Callbacks see every iterate, can stop the run, and change nothing else",
 "A solver that documents stopping through its callback returns right after the callback first answers False, with a result whose solution is the iterate the callback was shown. A callback that answers anything else leaves the iterates, the result and the number of iterations exactly as without a callback. The sequence of iterates shown to it is the solver's iterate sequence, in order, without gaps or repetitions within the loop.",
 ["histories","configurations"],"all solvers and configurations, all positions at which the callback answers False, all callback answers",
 "One test stops each of four solvers at the first call only and looks at nothing but the iteration count.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py"],
 [("callback protocol","every minimize_* function")],
 ["callback invocations, result"])
p("C16","The iteration limit only truncates a run, and success is never claimed early",
 "With iteration limit k every solver performs at most the documented number of iterations, reports an iteration count not exceeding k, and produces exactly the first iterates of the run with any larger limit. Success is reported only if the solver's own stopping test held for the returned point, and a run that ended by exhausting its limit does not report success.",
 ["histories","configurations"],"all solvers, configurations, limits and tolerances",
 "Tests run with a single limit and never compare runs, so off-by-one limits, state that depends on the limit, and wrong success flags go unseen.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py"],
 [("main loops and stopping tests","every minimize_* function")],
 ["result.x, result.nit, result.success, iterates seen by the callback, number of objective evaluations"])
p("C17","No call modifies the caller's data",
 "No solver, loss, penalty, constraint or utility modifies any array, sparse matrix, list or option the caller passes in (starting point, data, targets, proximal arguments, vectors given to proximal operators, projections and oracles), and no later activity changes an array already returned. Iterates recorded from a callback by the tracing utility, and results returned, are not overwritten by later iterations or calls.",
 ["histories","inputs"],"all public functions, argument types and layouts, and all later calls",
 "No test compares an argument before and after a call.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py","copt/penalty.py","copt/constraint.py","copt/loss.py","copt/tv_prox.py","copt/utils.py"],
 [("defensive copies of the starting point","every minimize_* function"),("copies in operators","copt/penalty.py, copt/tv_prox.py")],
 ["byte content of every argument and of every returned array before and after"])
p("C18","Solver calls are independent of each other",
 "The result of a call depends only on its arguments and on the random draws made for it: repeating it, running other calls before it, starting another call from inside its callback, objective, proximal operator or oracle, or running it concurrently with another call in another thread, never changes what it returns. Nor does a call leave process-wide state changed behind it (the seed of the global random stream, warning filters, numpy's error handling) on which other calls depend.",
 ["schedules","histories"],"all pairs of public calls, all nesting points, and all thread interleavings",
 "Tests run one call at a time in a fixed order and compare nothing across calls.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py","copt/penalty.py","copt/constraint.py","copt/loss.py","copt/tv_prox.py","copt/utils.py"],
 [("all working state is local to the call","every minimize_* function"),("stateless operators","copt/penalty.py, copt/constraint.py, copt/loss.py")],
 ["results of the calls"])
p("C19","Results do not depend on how the same numbers are represented",
 "Giving a solver the same starting point as a list, tuple, integer, float, read-only, strided or non-contiguous array, or the same data (matrix, targets, linear operator, groups) as a dense array or any sparse format and in any number type that holds them, yields the same result up to rounding. The same holds for losses with respect to their data matrix format and for proximal operators, projections and oracles with respect to the memory layout and number type of their input (the total variation operators accept floating point only).",
 ["inputs","configurations"],"all combinations of container, dtype, memory layout and sparse format for the same numerical input, for every public entry point that accepts them",
 "Apart from one list-valued start for Frank-Wolfe and sparse formats for one stochastic solver (run without looking at the result) tests use contiguous float arrays only.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py","copt/penalty.py","copt/constraint.py","copt/loss.py","copt/tv_prox.py"],
 [("argument conversion","head of every minimize_* function")],
 ["result.x across representations"])
p("C20","Sparse kernels, extended supports and batch draws are exact in any order",
 "For every sparse matrix, row subset (repeated and empty rows included) and vector, the fast row-subset products equal the dense products. A batch draw fills every batch with distinct in-range samples for every outcome of the generator, and loops marked parallel give the same result for every execution order of their iterations.",
 ["inputs","schedules"],"all matrices, row subsets, vectors, batch configurations, generator outcomes and execution orders of parallel loops",
 "Tests check two products on one random matrix; nothing checks batch draws, repeated or empty rows or iteration order.",
 ["copt/utils.py","copt/randomized.py","copt/loss.py"],
 [("CSR kernels","copt/utils.py fast_csr_vm, fast_csr_mv, safe_sparse_add"),("batch sampling","copt/utils.py sample_batches"),("parallel per-sample derivative","copt/loss.py LogLoss.partial_deriv")],
 ["return values"])
p("C21","Dataset loading survives interruption at any point",
 "If fetching or unpacking a dataset is interrupted at any point (crash, network failure, corrupted download), or any of its files are lost, a later call returns the complete, correct dataset, fetching again what is missing, and never returns partial or wrong data or fails because of what the interrupted call left behind. Requests for the train, test and full subsets, in any order, return the corresponding samples and labels of the dataset asked for; unknown subsets are rejected.",
 ["crash_points","histories","fault_sequences"],"all interruption points of a load, all sequences of loads of the different subsets and datasets, all download faults",
 "The loaders need the network and have no tests at all.",
 ["copt/datasets.py"],
 [("cache presence test, download and extraction","copt/datasets.py _load_dataset, load_url, load_kdd10, load_kdd12, load_criteo")],
 ["return value of the loaders, content of the data directory"])
p("C22","All ways of supplying the gradient are equivalent",
 "Giving the gradient together with the objective, as a separate callable, or not at all (finite differences) makes solvers that document the option follow the same iterates, up to the finite-difference error, for every objective, starting point and step rule. Extra arguments for the objective (and, in three-operator splitting, for the proximal operators) reach it and its gradient unchanged on every evaluation, and the value and gradient used together always belong to the same point.",
 ["configurations","histories","inputs"],"all gradient options, extra arguments, objectives and evaluation histories",
 "Tests always let the objective return both values; the documented finite-difference and separate-callable options are never run.",
 ["copt/utils.py","copt/frank_wolfe.py","copt/proximal_gradient.py"],
 [("gradient adapter","copt/utils.py build_func_grad")],
 ["calls to the user-supplied objective and gradient, result.x"])
p("C23","The tracing utility records the exact history it is asked for",
 "Used as a callback of any solver that exposes an iterate, the trace keeps, for every period, exactly the iterates (or, given a function, that function's values) of calls number 0, p, 2p, ... in order, one entry per list per recorded call, with non-decreasing times, and the recorded iterates are snapshots that never change later. It never stops a solver or alters its run. The certificates that proximal gradient traces on request are those of its iterations, one each and in order, and neither this request nor any level of verbosity alters a run.",
 ["histories","configurations"],"all periods, functions, solvers and call histories",
 "Tests pass a trace to solvers but never look at what it recorded.",
 ["copt/utils.py"],
 [("recording","copt/utils.py Trace.__call__")],
 ["trace_x, trace_fx, trace_time, trace_step_size"])
p("C24","Line searches terminate, and accept only steps with sufficient decrease",
 "For every history of objective values and gradients, including non-convex, inconsistent or adversarial ones, each iteration of a backtracking solver uses a bounded number of objective evaluations and the solver returns after its iteration limit. Every step a line search accepts without warning satisfies that method's sufficient-decrease inequality at the point it moves to, and the values and gradients used in the next iteration are those of the point actually moved to, also after the search is exhausted.",
 ["histories","fault_sequences"],"all histories of objective/gradient answers, line-search limits and factors",
 "Tests only see well-behaved convex objectives whose line searches succeed within a few trials.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py"],
 [("backtracking loops","copt/frank_wolfe.py backtracking_step_size, copt/proximal_gradient.py, copt/splitting.py")],
 ["sequence of points at which the objective is evaluated, iterates seen by the callback"])
p("C25","Compiled and interpreted execution agree",
 "Every numerical kernel and stochastic solver gives the same result, up to rounding, whether or not the optional just-in-time compiler is installed, for the same inputs and random draws.",
 ["configurations","inputs"],"both execution modes, all kernel inputs",
 "The test environment runs one mode only, and the tests never compare modes.",
 ["copt/utils.py","copt/tv_prox.py","copt/penalty.py","copt/loss.py","copt/randomized.py"],
 [("optional njit decorator and its fallback","copt/utils.py")],
 ["return values in both modes"])
p("C26","All applicable solvers agree on the minimiser",
 "For every problem that several solvers can express, all of them, deterministic and stochastic, return the same minimiser of the stated objective to the accuracy their settings promise, with the same meaning of loss scaling, regularisation strength and penalty weight.",
 ["inputs","configurations"],"all finite-sum problems with an L1, group or fused penalty or an L1-ball, simplex or nuclear-ball constraint, and all solvers that accept them",
 "Tests compare solvers pairwise on four problems built from one random matrix.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py","copt/loss.py","copt/penalty.py","copt/constraint.py"],
 [("the solvers","every minimize_* function")],
 ["result.x"])
p("C27","The PyTorch adapter returns the loss and its flat gradient",
 "For every differentiable PyTorch loss and variable shape, the adapted function returns the loss value and the gradient flattened in the variable's own element order, and only the value when the gradient is not wanted.",
 ["inputs"],"all losses, shapes, dtypes and devices",
 "PyTorch is not installed and no test imports the adapter.",
 ["copt/utils_pytorch.py"],
 [("adapter","copt/utils_pytorch.py make_func_and_grad")],
 ["return value of the adapted function"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
print(len(P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
