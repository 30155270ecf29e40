import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=[],obs=[]):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p("C01","The objective is never called outside the user's bounds",
 "When a search is given lower and upper bounds, every point at which the library calls the user's objective (candidates, initial value, numerical gradient, uncertainty re-evaluations, distance-to-minimum computation) lies inside those bounds up to rounding, and so does every reported solution once mapped back to the user's space. This holds for every algorithm, scaling, step size and sequence of objective values.",
 ["histories","configurations","inputs"],"all algorithms x bound/scaling/transform kinds x options, all objective-answer histories, arbitrarily large step sizes",
 "Tests run a few seeds on smooth functions with the optimum well inside the box; whether a point leaves the box depends on the answer history (which drives mean and step size), on options such as gradient or uncertainty handling, and on extreme genotype magnitudes.",
 ["src/pwq_bound_strategy.cc","include/libcmaes/genopheno.h","src/esostrategy.cc","src/cmastrategy.cc","include/libcmaes/scaling.h"],
 [("periodic fold + quadratic boundary map","src/pwq_bound_strategy.cc"),("pheno() applied to every ask() population","src/cmastrategy.cc optimize()"),("clamp in numerical gradient","src/esostrategy.cc gradf()")],
 obs=["arguments of the user's objective","best/worst candidates mapped through the public phenotype map"])
p("C02","Genotype and phenotype maps are consistent, bounded and mutually inverse",
 "For every bound box (widths within 1e-150 to 1e100) and scaling, the phenotype of any finite genotype is finite and inside the box, is unchanged by mapping it to genotype and back, and feasible points are their own image away from the borders; outside the box the map is the published one (quadratic near each border, mirrored and continued periodically), so it is continuous everywhere. Mapping a single vector, a matrix column, or a coordinate next to other coordinates gives the same result, and dropping dimensions from a map leaves the maps of the remaining dimensions unchanged.",
 ["inputs","configurations","histories"],"all boxes, scalings, custom transforms, genotype points including far outside the box, all sequences of dimension removals",
 "The unit tests map a handful of points of two boxes; the guarantee is over all boxes and all reals, with breakpoints (fold, mirror, quadratic zone) that tests do not hit systematically.",
 ["include/libcmaes/genopheno.h","src/pwq_bound_strategy.cc","include/libcmaes/pwq_bound_strategy.h","include/libcmaes/scaling.h","include/libcmaes/noboundstrategy.h","include/libcmaes/eo_matrix.h"],
 [("to_f_representation / to_internal_representation","src/pwq_bound_strategy.cc"),("scale_to_f / scale_to_internal","include/libcmaes/scaling.h"),("pheno()/geno() for vectors and matrices","include/libcmaes/genopheno.h")],
 obs=["return values of the public pheno()/geno() maps"])
p("C03","Reported evaluation and iteration counts equal what really happened",
 "At every progress notification and at the end of a run, the number of objective evaluations reported by the solution object equals the number of calls actually made to the user's objective by that run, and the reported iteration count equals the number of completed generations. This includes calls made for initial values, numerical gradients, uncertainty handling, elitism and the final distance estimate.",
 ["histories","configurations"],"all option combinations and answer histories of a run (a restart begins a new run)",
 "Tests never count the calls independently; accounting errors only show for particular option combinations and histories (for example which generation re-evaluates how many candidates).",
 ["src/esostrategy.cc","src/cmastrategy.cc","src/ipopcmastrategy.cc","include/libcmaes/cmasolutions.h"],
 [("update_fevals()/inc_iter()","src/esostrategy.cc"),("initial evaluation and edm accounting","src/cmastrategy.cc optimize(), src/esostrategy.cc gradf()")],
 obs=["fevals(), niter() in progress callbacks and returned solutions","independent counter inside the objective"])
p("C04","A run stops exactly when an enabled stopping criterion first holds",
 "A run ends at the first generation boundary at which an enabled stopping criterion (evaluation or iteration budget, target value, function or parameter tolerance, equal values, stagnation, automatic iteration limit, ineffective axes or coordinates, step-size blow-up, ill-conditioning) holds for the values it has seen, and not before; the reported status names that criterion and its success/error sign. Criteria switched off by the user never end a run, and once a run has stopped, asking again without new data keeps answering the same.",
 ["histories","configurations"],"all histories of objective values and all subsets of enabled criteria, tolerances and budgets",
 "Tests run to convergence and look at the final value; they never check that the run did not stop earlier or later, nor most of the criteria.",
 ["src/cmastopcriteria.cc","include/libcmaes/cmastopcriteria.h","src/cmastrategy.cc","src/cmasolutions.cc"],
 [("ordered map of criteria and stop()","src/cmastopcriteria.cc"),("histories of best, k-th best and median values","src/cmasolutions.cc update_best_candidates()"),("stop()","src/cmastrategy.cc")],
 obs=["run_status(), number of generations, progress callback views"])
p("C05","Every recorded solution is truthful and the extremes are the true ones",
 "After each generation every stored candidate carries exactly the value the objective returned for its point, candidates are ordered from best to worst, the reported best candidate is the best of that generation, and the best-seen and worst-seen candidates are the true best and worst of the whole run so far. No candidate is lost, duplicated or paired with another candidate's value (uncertainty handling may order by combined rank; elitism may substitute its reference point).",
 ["histories","configurations"],"all answer histories (with ties, equal values, infinities) for all algorithms and options",
 "Tests only look at the final best value on smooth functions; pairing and extreme-tracking errors need particular orderings, ties or a best value found before the last generation.",
 ["src/esostrategy.cc","src/cmasolutions.cc","include/libcmaes/cmasolutions.h","include/libcmaes/candidate.h","src/cmastrategy.cc"],
 [("eval() stores value and point per slot","src/esostrategy.cc"),("stable sort","include/libcmaes/cmasolutions.h"),("update_best_candidates()","src/cmasolutions.cc")],
 obs=["candidates, best_candidate, best/worst seen through public getters vs a log of objective calls"])
p("C06","The search depends on objective values only through their order",
 "Replacing the objective by any strictly increasing transformation of it, with value-based stopping tests switched off, produces bit-for-bit the same sequence of evaluated points and the same search distribution at every generation. This holds for every algorithm and option that uses neither derivatives nor sums of values (the tie-break of uncertainty handling is only invariant under increasing affine maps).",
 ["histories","configurations","inputs"],"all ranking histories and order-preserving relabelings of values, including infinities and huge or tiny gaps",
 "No test compares two runs; invariance breaks only for specific value magnitudes, ties or histories.",
 ["src/covarianceupdate.cc","src/acovarianceupdate.cc","src/vdcmaupdate.cc","src/esostrategy.cc","src/cmastrategy.cc","include/libcmaes/cmasolutions.h"],
 [("rank-based weights only","src/covarianceupdate.cc, src/acovarianceupdate.cc, src/vdcmaupdate.cc"),("stable ordering of ties","include/libcmaes/cmasolutions.h")],
 obs=["objective arguments, mean, step size, covariance per generation"])
p("C07","Each generation updates the distribution by the published equations",
 "For every algorithm variant (full, active, diagonal, diagonal-active, low-rank) and every dimension and population size, one generation moves mean, step size (path-length or two-point rule) and covariance exactly as the published update with its published constants prescribes for the ranked candidates. Options (fixed parameters, noisy mode, two-point adaptation) change the constants only in the documented way.",
 ["histories","configurations"],"all ranking histories, variants, dimensions, population sizes and option combinations",
 "Tests only check that smooth functions are eventually solved; CMA-ES still converges with badly wrong constants or terms.",
 ["src/covarianceupdate.cc","src/acovarianceupdate.cc","src/vdcmaupdate.cc","src/cmaparameters.cc","src/esostrategy.cc"],
 [("update() of the three variants","src/covarianceupdate.cc, src/acovarianceupdate.cc, src/vdcmaupdate.cc"),("constants","src/cmaparameters.cc"),("two-point rule","src/esostrategy.cc tpa_update()")],
 obs=["xmean(), sigma(), full_cov() before/after each generation and the candidates"])
p("C08","The search distribution stays valid under every objective",
 "Whatever values the objective returns, as long as no error status is reported the mean stays finite, the step size stays finite and positive, and the covariance stays symmetric, finite and positive definite, and no access outside any vector or matrix happens. An invalid distribution is never used silently to produce candidates. (Default stopping criteria on, initial step size above the floating-point resolution of the starting point.)",
 ["histories","configurations"],"all answer histories including constant, alternating, infinite and adversarial ones, all variants and small or odd population sizes",
 "Tests use smooth functions; degenerate covariances need adversarial rankings or extreme sizes.",
 ["src/covarianceupdate.cc","src/acovarianceupdate.cc","src/vdcmaupdate.cc","include/libcmaes/eigenmvn.h","src/cmastrategy.cc","src/cmaparameters.cc"],
 [("learning rates summing to at most one, bounded negative update","src/cmaparameters.cc, src/acovarianceupdate.cc"),("ill-conditioning stop","src/cmastopcriteria.cc")],
 obs=["cov()/sepcov()/sigma()/xmean() each generation"])
p("C09","Same seed and inputs give the same run, whatever else the process does",
 "Two searches with the same non-zero seed (below 2^32), starting point, settings and objective evaluate the same points in the same order and return the same result, for every algorithm including the restarting ones and uncertainty handling. Creating, stepping or destroying other searches before or in between, in any interleaving, does not change either of them, and different seeds give different samples.",
 ["schedules","histories","configurations"],"all interleavings of the steps of two searches, all algorithms and options",
 "Tests run one search at a time and never compare two runs.",
 ["include/libcmaes/eigenmvn.h","src/bipopcmastrategy.cc","src/esostrategy.cc","src/cmasolutions.cc","src/cmastrategy.cc","include/libcmaes/parameters.h"],
 [("seeded generator per sampler","include/libcmaes/eigenmvn.h, src/cmastrategy.cc"),("restart and uncertainty random streams","src/bipopcmastrategy.cc, src/esostrategy.cc")],
 obs=["log of evaluated points and final solution"])
p("C10","Parallel evaluation is indistinguishable from sequential evaluation",
 "With parallel objective evaluation enabled, under every schedule of the worker threads each candidate is evaluated exactly once, every value is stored with its own point, no two threads touch the same storage, and the whole run (points, values, counts, final distribution) is identical to the sequential run. The same holds for the numerical gradient, for the mapping of large populations and for training and using the built-in ranking surrogate.",
 ["schedules","configurations"],"all interleavings of worker threads at objective-call boundaries, team sizes 1-3, work distributions",
 "Tests switch parallel evaluation on for convergence only; a wrong pairing or shared scratch buffer needs a particular overlap.",
 ["src/esostrategy.cc","include/libcmaes/genopheno.h"],
 [("parallel for over candidates","src/esostrategy.cc eval(), gradf()"),("parallel for over columns","include/libcmaes/genopheno.h")],
 obs=["objective calls, solution state; scheduler shim below the OpenMP runtime interface"])
p("C11","Restarting searches follow their schedule and return the best run",
 "A restarting search runs at most the configured number of runs from a fresh distribution, doubling the population at each increasing-population restart (and, in the two-regime variant, interleaving small-population runs while they have used less budget), with every run after the first behaving exactly as a fresh search with that population and settings. It starts no new run once the total evaluation budget is spent and returns the run with the best final value. Small-population runs draw a population between half the default and half the current large one and a step size between 0.02 and 2, and each may use at most half of what the large runs used; a user stop ends the current run only.",
 ["histories","configurations"],"all outcome histories of the runs (which run is best, how each ends), restart counts, budgets and algorithm variants",
 "Tests only check that the final value is good enough on functions the first run usually solves.",
 ["src/ipopcmastrategy.cc","src/bipopcmastrategy.cc","src/cmaparameters.cc","src/cmastrategy.cc"],
 [("lambda_inc / reset_search_state / capture_best_solution","src/ipopcmastrategy.cc"),("regimes r1/r2 and budgets","src/bipopcmastrategy.cc"),("initialize_parameters","src/cmaparameters.cc")],
 obs=["number of candidates per generation, fresh-state views in progress callbacks, returned solution"])
p("C12","Parameters fixed by the user never move",
 "A coordinate fixed by the user (its value is given in genotype space, as documented) has exactly its fixed value in every stored candidate and in the mean, and its image in the user's space in every point given to the objective, at every generation and restart, for every algorithm, bound and scaling; the other coordinates keep being searched. Unfixing a coordinate makes it move again, and the last value given for a coordinate is the one used.",
 ["histories","configurations"],"all fix/unfix histories, subsets of coordinates, algorithms, bounds/scalings and answer histories",
 "No test fixes a parameter except through the profile-likelihood code on one function.",
 ["src/cmastrategy.cc","src/cmasolutions.cc","src/cmaparameters.cc","include/libcmaes/parameters.h"],
 [("reset of fixed rows in ask()","src/cmastrategy.cc"),("initial mean","src/cmasolutions.cc"),("fixed map","include/libcmaes/parameters.h")],
 obs=["objective arguments, candidates, xmean()"])
p("C13","Elitist modes keep and re-inject the right reference solution",
 "With elitism on best seen, whenever fewer than half (rounded down) of a later generation's candidates improve on the best point seen so far, that point is part of the generation's selection; with initial-point elitism the same holds for the starting point, whose value is evaluated once at the start. With elitism off (or turned off again) no point is ever substituted, and the elitist restart re-runs from the best seen point only when that point beats the final one and is at least three generations old; that re-run evaluates the point it starts from. (Not combined with uncertainty handling.)",
 ["histories","configurations"],"all answer histories, elitism modes and sequences of mode changes",
 "Tests never check which candidates are in a generation.",
 ["src/esostrategy.cc","src/cmastrategy.cc","include/libcmaes/cmaparameters.h"],
 [("re-injection block of eval()","src/esostrategy.cc"),("initial candidate and restart in optimize()","src/cmastrategy.cc"),("set_elitism","include/libcmaes/cmaparameters.h")],
 obs=["candidates of each generation vs objective log"])
p("C14","Maximizing f is exactly minimizing -f",
 "A search set to maximize an objective evaluates the same points, follows the same distribution and stops at the same generation as a search minimizing the negated objective, for every algorithm, option and history of values; its internal values are the negated ones. Switching maximization off restores plain minimization.",
 ["histories","configurations"],"all answer histories, algorithms and options",
 "No test uses maximization on more than one function and none compares with the negated problem.",
 ["src/esostrategy.cc","include/libcmaes/parameters.h","src/cmastrategy.cc"],
 [("sign-flipping objective wrapper","src/esostrategy.cc constructor")],
 obs=["objective call log and solutions of both runs"])
p("C15","Uncertainty handling re-evaluates and re-ranks as specified",
 "With uncertainty handling on, each generation re-evaluates a prefix of its candidates, max(0.1 lambda, 2) of them (rounded down, or up by chance), at slightly perturbed points, orders the generation by the sum of each candidate's ranks in the two evaluations (ties by rank change, then by value sum), keeps each candidate's original value and point, and enlarges the step size exactly when the measured uncertainty is positive. With noise-free equal evaluations the order equals the plain order.",
 ["histories","configurations"],"all pairs of first/second evaluation rankings up to the population bound",
 "Tests only check that noisy functions are roughly solved.",
 ["src/esostrategy.cc","src/cmastrategy.cc","src/cmaparameters.cc"],
 [("uncertainty_handling(), perform_uh()","src/esostrategy.cc"),("step-size factor","src/cmastrategy.cc tell(), src/cmaparameters.cc")],
 obs=["order of candidates after a generation, objective calls, step size vs reference"])
p("C16","Gradient use is correct: true derivatives, injected point, distance estimate",
 "With gradient injection on, one candidate of each generation is the mean moved along minus the covariance-scaled gradient (user-supplied, or numerically estimated, composed with the parameter transform) by the prescribed length, unless the gradient is zero or the point would not be finite; all other candidates are sampled as without it. The numerical gradient approximates the derivative at the mean within the bounds, and the expected distance to the minimum reported at the end follows its published formula.",
 ["histories","configurations","inputs"],"variants, bounds/scalings, user vs numerical gradient, answer histories, mean at or near bounds",
 "Tests only check convergence with gradient on a few functions.",
 ["src/cmastrategy.cc","src/esostrategy.cc"],
 [("gradient block of ask()","src/cmastrategy.cc"),("gradf(), gradgp(), edm()","src/esostrategy.cc")],
 obs=["population of each generation with and without gradient, edm()"])
p("C17","Surrogate-assisted searches use true values and a bounded training set",
 "A surrogate-assisted search only calls the model after it has been trained on the true evaluations known so far, its training set always holds exactly the most recent truly evaluated candidates up to the configured size with their true values, and the reported evaluation count equals the true objective calls. Each generation is ranked by value before the update, and the new mean is the weighted mean of that ranking. A generation that does not exploit the model evaluates every candidate truly; a pre-selecting generation truly evaluates the configured number of distinct candidates, the model's best included, ranks them before all others, and leaves the others in the model's order. Reported model errors are fractions of misranked pairs.",
 ["histories","configurations"],"all answer histories of objective and model up to the bound, population/pre-selection/training-set sizes and exploitation settings",
 "The surrogate test only checks convergence of one function with one model.",
 ["src/surrogatestrategy.cc","include/libcmaes/surrogatestrategy.h","include/libcmaes/surrcmaes.h"],
 [("add_to_training_set, do_train","src/surrogatestrategy.cc, include/libcmaes/surrogatestrategy.h"),("eval/tell of both strategies","src/surrogatestrategy.cc")],
 obs=["training set, model callbacks, objective log, candidates"])
p("C18","Settings mean what they say: last call wins, names select their algorithm",
 "After any sequence of configuration calls, the search uses the last value given to each setting (starting point, budgets, tolerances, target, seed, elitism, criteria, fixed parameters, algorithm, two-point mode) and equals a search configured directly with those final values. Every documented algorithm name selects the algorithm of that name, unknown names change nothing, and defaults are the documented ones.",
 ["histories","configurations"],"all sequences of configuration calls up to the depth bound",
 "Tests configure each object once.",
 ["include/libcmaes/parameters.h","include/libcmaes/cmaparameters.h","src/cmaparameters.cc"],
 [("setters","include/libcmaes/parameters.h, include/libcmaes/cmaparameters.h"),("name table","include/libcmaes/cmaparameters.h")],
 obs=["public getters and the behaviour of a search run with the object"])
p("C19","Driving ask, evaluate, tell and stop by hand equals optimize()",
 "A user loop calling ask, evaluation, tell, iteration increment and stop test in order evaluates the same points and ends with the same solution and status as the built-in optimization call; passing those steps as custom functions, or letting the one-call entry point choose the strategy for the selected algorithm, is equivalent too. Asking returns exactly the configured number of candidates of the right dimension, and evaluation uses the phenotypes it is given.",
 ["histories","configurations"],"all algorithms, transforms, options and answer histories",
 "Only one example drives the loop by hand, and nothing compares the two.",
 ["src/cmastrategy.cc","src/esostrategy.cc","include/libcmaes/esoptimizer.h","include/libcmaes/cmaes.h","include/libcmaes/cmastrategy.h"],
 [("optimize() loop","src/cmastrategy.cc"),("cmaes() dispatch","include/libcmaes/cmaes.h")],
 obs=["objective log, solutions"])
p("C20","Profile likelihood and contour intervals bracket the minimum correctly",
 "A profile-likelihood interval of a parameter brackets the supplied minimum, its recorded points carry the objective's true values there, the points of one search all lie on one side of the minimum, and each end (curve mode off, search not cut short by its iteration limit) either has the requested rise within a tenth of it, or lies at a bound with less than that rise; the interval is the pair of recorded points nearest to the requested rise, the errors are its distances to the minimum, and the value at each point is the minimum over the other parameters. A solution stores the latest requested interval of each parameter and is otherwise untouched. A contour holds the four ends of the two intervals for the requested rise, its points follow each other once around the minimum and no objective call leaves the bounds. Optimizing with one or more parameters held fixed, given in any order, in either space, up to all of them, never moves those parameters in any objective call or in the result, returns all dimensions in order with the true value and evaluation count, and leaves the supplied solution unchanged.",
 ["inputs","configurations","histories"],"objective families, minima positions, parameter indices and pairs, rises, sample sizes, bounds/scalings",
 "The unit tests check two functions and one index each.",
 ["src/errstats.cc","include/libcmaes/errstats.h","include/libcmaes/pli.h","include/libcmaes/contour.h","include/libcmaes/eo_matrix.h"],
 [("profile_likelihood_search, take_linear_step, optimize_vpk","src/errstats.cc")],
 obs=["returned interval object, contour points, objective log"])
p("C21","Derived statistics agree with the search distribution",
 "The full covariance, correlations (matrix and single entry), standard deviations, errors and eigen-decomposition reported by a solution are those of its current distribution: symmetric, correlations in [-1,1] with unit diagonal and equal entry by entry to the matrix form, deviations equal to the roots of the covariance diagonal mapped to the user's space, errors those deviations times the square root of the step size, eigenvalues/vectors reconstructing the covariance they were computed from, and eigen-extremes matching. Printing or reading a solution never changes it.",
 ["histories","configurations"],"all ranking histories and variants",
 "Tests do not read these accessors except in one correlation test.",
 ["src/cmasolutions.cc","include/libcmaes/cmasolutions.h"],
 [("full_cov(), corr(), stds(), update_eigenv()","src/cmasolutions.cc, include/libcmaes/cmasolutions.h")],
 obs=["public getters"])
p("C22","Progress, plotting and custom callbacks see every generation once, in order",
 "The progress callback is invoked exactly once before the first and after every generation with the up-to-date state, and a non-zero return ends the (current) run at that point; the plot file, when requested, gets exactly one well-formed record with the state's values for each notification that does not end the run, in both formats, readable by the time of the next notification. Callbacks and plotting never change the course of the search.",
 ["histories","configurations"],"all generations at which a callback can stop, algorithms and formats, answer histories",
 "No test inspects callbacks or plot files.",
 ["src/cmastrategy.cc","include/libcmaes/esostrategy.h","include/libcmaes/cmaes.h"],
 [("stop() and plot()","src/cmastrategy.cc")],
 obs=["callback log, plot file in a scratch folder"])
p("C23","Every generation is sampled from the current search distribution",
 "Each sampled candidate equals the current mean plus the current step size times a square root of the current covariance applied to a standard normal vector that depends only on the seed and generation, not on the state; lazy updates may only delay the covariance factor by the documented number of generations, never the mean or step size. The standard normal vectors have zero mean and unit variance and differ between candidates and generations.",
 ["histories","configurations"],"all ranking histories, variants, dimensions, population sizes, lazy updates",
 "Tests cannot tell a mis-scaled or stale sample from a slower run.",
 ["src/cmastrategy.cc","include/libcmaes/eigenmvn.h"],
 [("ask()","src/cmastrategy.cc"),("samples(), samples_ind()","include/libcmaes/eigenmvn.h")],
 obs=["population returned by ask and mean, step size, covariance before it"])
p("C24","The Python binding runs the same search as the C++ library",
 "For every algorithm, transform, setting (and sequence of settings) exposed in Python, including the surrogate entry points and lcmaes_interface, a search run through the binding evaluates the same points and returns the same solution, statistics and status as the C++ call with the same inputs, and each exposed getter returns the quantity it is named after; returned lists and arrays stay valid after their solution is gone. An exception raised by the Python objective at any call, or a value of a wrong type, reaches the Python caller, ends the search at that call and leaves later runs unaffected.",
 ["configurations","histories"],"bound classes x algorithms x settings x answer histories",
 "The three Python tests print results of a few runs without comparing.",
 ["python/lcmaes.cc"],
 [("boost.python wrappers","python/lcmaes.cc")],
 obs=["Python API results vs a C++ reference run"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
