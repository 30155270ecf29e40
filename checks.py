import os
GP=["gp0.cc","gp1.cc","gp2.cc","gp3.cc"]
def part(name,*src,**k): return dict(name=name,src=list(src)+GP,**k)
WRAP="-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"
PYI="-I/usr/include/python3.12 -I/usr/lib/python3/dist-packages/numpy/core/include"
CHECKS={
 "C06":dict(parts=[part("order","c06.cc",note="all ranking histories, replayed under strictly increasing transformations")],bounds="every weak order x level shift to depth 1-4, lambda 2-5, 10 option sets, 5 algorithms, each replayed under a family of strictly increasing tables (affine, exponential, cubic, denormal, huge, rank); segment scripts over restarts for all 15 algorithms; 170-generation runs"),
 "C14":dict(parts=[part("max","c14.cc",note="all ranking histories, maximize f against minimize -f")],bounds="every weak order x level shift to depth 2-3 x 14 option sets x 5 algorithms; segment scripts for 15 algorithms; resumed searches; toggling; 170-generation runs"),
 "C03":dict(parts=[part("count","c03.cc",note="all ranking histories and restart scripts, counts compared with the objective's own counter")],bounds="every strict ranking history to depth 2-4 x 18 option sets x 5 algorithms x both ways of driving; all 4^4 segment scripts over restarts for 15 algorithms; 170-generation runs in dimensions 6-25, lambda 5-101"),
 "C19":dict(parts=[part("ways","c19.cc",note="all ranking histories, four ways of driving the search compared")],bounds="every weak order x shift to depth 2-3 x 15 option sets x 5 algorithms x by number / by name; all segment scripts for 15 algorithms; 160-generation runs and shapes to dimension 25, lambda 101"),
 "C05":dict(parts=[part("hist","c05.cc",note="all ranking histories")],bounds="every weak order (ties) x level shift to depth 2-5 for lambda 2-6 x 10 option sets x 5 algorithms; all two-level splits of 7-12 candidates; 170-generation runs, dimensions 6-25, lambda to 101"),
 "C07":dict(parts=[part("update","c07.cc",note="all ranking histories; every generation of the real search compared with the reference update equations")],bounds="every ranking history to depth 1-6 (lambda 2-6) x options, one-step reference re-synchronised each generation (relative 1e-9); grid dimension 1-60 x lambda 2-60 x 4 families; dimensions 999-1100; segment scripts to 60 generations"),
 "C04":dict(parts=[part("stop","c04.cc",note="all value histories / objective scripts x criteria subsets; every stop answer compared with independent criteria")],bounds="every history of value levels to depth 3-4 under each single criterion, pairs and budgets; exact-threshold scripts for each criterion (history windows, medians, tolerances at / just below / above the limit); all segment scripts of 4 families to 420 generations; automatic iteration limits"),
 "C01":dict(parts=[part("bounds","c01.cc",note="all ranking histories and border-seeking scripts; every objective call and reported point checked")],bounds="every strict ranking history to depth 2-3 (lambda 3-5) for each of the 5 basic algorithms x 10 transforms x 6 boxes x options (elitism, TPA, uncertainty, gradient, edm, initial value, lazy, maximize); border-seeking objective scripts (4 kinds, all 2-segment sequences) and restart scripts for all 15 algorithms; thorough: one level deeper, longer scripts"),
 "C02":dict(parts=[dict(name="maps",src=["c02.cc"],note="exhaustive grids of boxes, scalings, points, matrix shapes and removed dimensions")],bounds="all pairs of boxes x scalings x points of a grid around every breakpoint (borders, border zones, mirror points, period ends, magnitudes to 1e300), each against the published map; vectors, matrices (1-130 columns), all ordered sequences of removed dimensions up to dimension 4"),
 "C08":dict(parts=[part("valid","c08b.cc",note="long objective scripts from ordinary and extreme starting points, restarts"),part("mem","c08.cc",flavour="asan",note="all assignments of extreme values (infinities, NaN) to candidates and gradient calls; address/undefined sanitizers and index assertions on")],bounds="every assignment of {finite, +inf, -inf, NaN, max, denormal} to the calls of the first generations (lambda 2-4), gradients included, under address/UB sanitizers and index assertions; objective scripts to several hundred generations from ordinary and extreme starts; restarts"),
 "C12":dict(parts=[part("fixed","c12.cc",note="all ranking histories, fixed subsets, and sequences of (un)fixing calls")],bounds="every strict ranking history to depth 2-3 x all fixed subsets of 3 coordinates x 10 transforms x 9 option sets x 5 algorithms; all sequences of 3-4 fix/unfix calls; restart scripts for 15 algorithms; 150-generation runs with 1, half and all-but-one coordinates fixed"),
 "C13":dict(parts=[part("elite","c13.cc",note="all ranking histories with all initial values; every stored generation and restart decision judged by an independent model")],bounds="every weak order x level shift to depth 2-5 (lambda 2-5) x 4 initial values x 6 elitism settings x options; every trend history of 10 generations for the restart rule; 150-generation runs"),
 "C15":dict(parts=[part("uh","c15.cc",note="all pairs of first and second evaluation rankings; order, values and step size judged by an independent model")],bounds="all pairs (first ranking, rank of each re-evaluation) for lambda 2-6, to depth 3 for small lambda; ties; noise-free; lambda 8-47 with rotated and swapped ranks over 6 generations; 120-generation runs with three noise levels"),
 "C16":dict(parts=[part("grad","c16.cc",note="all ranking histories x gradients; injected point, other candidates, derivatives on grids, distance estimate, against independent formulas")],bounds="every ranking history to depth 2-3 x 7 gradient answers x options x 5 algorithms; numerical derivatives on grids of points (interior, borders) x transforms; final distance estimates over dimensions and populations"),
 "C18":dict(parts=[part("set","c18.cc",note="all sequences of configuration calls to the depth bound, each compared with the direct configuration of its final values; all pairs of algorithm names; defaults")],bounds="all sequences of 2-3 calls (thorough 3-4) out of about 60 configuration calls, each against the direct configuration of its final values (state and a short run); all pairs of algorithm names; defaults for dimension 1-40"),
 "C11":dict(parts=[part("restarts","c11.cc",note="all outcome/ending histories of the runs; each run replayed in a fresh plain search; schedule, budget and returned run against an independent model")],bounds="every history of run outcomes (final level x ending) for 1-5 restarts x 10 restarting algorithms x budgets x options, each run replayed in a fresh plain search; endings by criteria; starts from a solution; 300 seeds for the small-run draws"),
 "C21":dict(parts=[part("stats","c21.cc",note="all ranking histories; every derived statistic of every reached state recomputed from the reported distribution; read/unread twins")],bounds="every strict ranking history to depth 2-3 x 10 option sets x 5 algorithms; 50-150-generation runs for dimensions 1-12; finished and restarted searches; read/unread twins"),
 "C23":dict(parts=[part("samples","c23.cc",note="all ranking histories; standardized samples compared with another history of the same seed; moments over all enumerated seeds")],bounds="every strict ranking history to depth 2-6 (lambda 2-5) x 11 option sets x 5 algorithms against another history of the same seed; 60-generation runs, dimensions to 100 with lazy updates; moments over 400-8000 enumerated seeds"),
 "C22":dict(parts=[part("callbacks","c22.cc",note="all ranking histories x every notification at which the callback ends the run; plot file read back at every notification; own step functions")],bounds="every ranking history to depth 2-4 x every notification at which the callback ends the run x 3 plot modes x 4 ways of driving; endings by criterion; restarts; 170-generation badly conditioned and flat runs; passive twins"),
 "C10":dict(parts=[part("threads","c10.cc","ompshim.cc",flavour="race",plain=["ompshim.cc"],link=WRAP,note="all schedules of the team members at objective-call boundaries under a replaced OpenMP runtime; every other access of a parallel region recorded per member and checked for conflicts")],bounds="all schedules of teams of 2-4 members at objective-call boundaries (all partitions and orders to lambda 5-6; bounded re-orderings beyond), every shared access between the boundaries recorded and checked for conflicts; populations to 130; gradient; maps; ranking SVM training and prediction"),
 "C09":dict(parts=[part("repro","c09.cc",link="-pthread -Wl,--wrap=time",note="all interleavings of the steps of two searches and of other process-wide actions, each compared bit for bit with the solo run")],bounds="all interleavings of the steps of two searches (3 generations each) for all pairs of the 5 algorithms and options, at generation and at ask/eval/tell granularity; all sequences of other process-wide actions (rand, srand, other searches created, stepped, destroyed) between steps; whole runs of 15 algorithms with poisoned memory and shifted clock; 200+ seeds pairwise"),
 "C17":dict(parts=[part("surrogate","c17.cc",surrogate=True,note="all answer histories of objective and model (values, model policies) to the depth bound, both strategies, restarts; training sets, model uses, counts, ranking and mean judged from the harness's own evaluation log")],bounds="every history of objective values and model policies to the depth bound, both strategies, 4 transforms, training-set sizes, lifelengths, switches; restarts; the built-in ranking SVM"),
 "C20":dict(parts=[part("intervals","c20.cc",errstats=True,note="all ordered subsets of held parameters, objective families, optima positions, transforms, rises and sample sizes; every objective call recorded, every returned point re-evaluated and compared with exact profiles")],bounds="objective families x optimum positions x transforms x rises x sample sizes x algorithms; all ordered subsets of held parameters (dimension to 4) in both spaces; contours with all bound situations"),
 "C24":dict(parts=[dict(name="python",src=["c24.cc"],flavour="omp",surrogate=True,cflags=PYI+' -DVERIF_REPO_DIR="%s"'%os.environ.get("VERIF_REPO","/repo"),extra=[("python/lcmaes.cc",PYI)],link="-pthread -fopenmp -lboost_python312 -lpython3.12",note="embedded interpreter: binding and C++ reference driven with the same inputs and answers")],bounds="all sequences of 1-2 (thorough 3) setter calls x algorithms x transforms; all value histories of the first calls from a small alphabet; an exception or wrong type at every call up to 13 (40); lifetimes of returned arrays; lcmaes_interface"),
}
for _i in ("C01","C03","C04","C05","C06","C07","C08","C09","C10","C12","C13","C14","C15","C16","C19","C21","C22","C23"):
    CHECKS[_i]["bounds"]+="; interactions of settings: a strength-3 covering array over 19 settings (every feasible combination of values of any three of them, about 430 configurations), each under all pairs of objective families"
CHECKS["C08"]["bounds"]+=" (strength 2 under the sanitizers, 36 generations); periodic patterns of undefined and infinite values in populations up to 70; searches driven by hand"
CHECKS["C13"]["bounds"]+="; every pair of mode settings"
CHECKS["C04"]["bounds"]+="; every sequence of four switches of three criteria"
CHECKS["C19"]["bounds"]+="; searches resumed from a solution, 12 algorithms"
