From 30d60c8e1ca486ef3c219e587dcada172e835fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:32 +0000
Subject: [PATCH 01/71] fix: elitist reinjection must not overwrite a candidate
 better than the reference

---
 src/esostrategy.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0c570c1..ced4de9 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -136,7 +136,19 @@ namespace libcmaes
 #ifdef HAVE_DEBUG
 	    std::cout << "reinjecting solution=" << ref_fvalue << std::endl;
 #endif
-	    _solutions._candidates.at(1) = ref_candidate;
+	    // replace the worst candidate, not one that improves on the reference, nor one that tpa needs.
+	    int worst = -1;
+	    for (int r=0;r<candidates.cols();r++)
+	      {
+		if (_parameters._tpa == 2 && (r == _solutions._tpa_p1 || r == _solutions._tpa_p2))
+		  continue;
+		if (worst == -1 || _solutions._candidates.at(r).get_fvalue() > _solutions._candidates.at(worst).get_fvalue())
+		  worst = r;
+	      }
+	    if (worst == -1)
+	      worst = 1;
+	    ref_candidate.set_id(worst);
+	    _solutions._candidates.at(worst) = ref_candidate;
 	  }
       }
     
-- 
2.43.0


From 5498b67a8a713062aeb249cf9cae4fb26b5af4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 02/71] fix: names sepaipop and sepabipop select their
 algorithms

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index da9f038..0b37bb0 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -328,7 +328,7 @@ namespace libcmaes
     };
 
   template<class TGenoPheno>
-    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepipop",10},{"sepbipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
+    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepaipop",10},{"sepabipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
 }
 
 #endif
-- 
2.43.0


From e398c7f7e32d928073b34c897c5f980b79be6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 03/71] fix: set_seed(0) draws a seed, and a non-zero seed is
 always taken

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index be42b04..a0ea93d 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -276,7 +276,7 @@ namespace libcmaes
        */
       void set_seed(const int &seed)
       {
-	if (_seed == 0)
+	if (seed == 0)
 	  _seed = static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
 	else _seed = seed;
       }
-- 
2.43.0


From f92e37b1458a29a68c6af09a38c2644055344b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 04/71] fix: set_elitism(0) switches every elitist mode off

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 0b37bb0..41cde8a 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -243,7 +243,7 @@ namespace libcmaes
       inline void set_elitism(const int &e)
       {
 	if (e == 0)
-	  _elitist = _initial_elitist = _initial_elitist_on_restart;
+	  _elitist = _initial_elitist = _initial_elitist_on_restart = false;
 	else if (e == 1)
 	  {
 	    _elitist = true;
-- 
2.43.0


From fef851d5b7234f7374bfc10bef1793e732efabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 05/71] fix: the last set_stopping_criteria call for a
 criterion wins

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 41cde8a..17af439 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -270,7 +270,7 @@ namespace libcmaes
       inline void set_stopping_criteria(const int &criteria,
 					const bool &active)
       {
-	_stoppingcrit.insert(std::pair<int,bool>(criteria,active));
+	_stoppingcrit[criteria] = active;
       }
 
       /**
-- 
2.43.0


From 750fb9f65f112415cc6d8ef846e060b1a24d8214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 06/71] fix: the last set_fixed_p call for a coordinate wins

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index a0ea93d..f8e7192 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -194,7 +194,7 @@ namespace libcmaes
        */
       void set_fixed_p(const int &index, const double &value)
       {
-	_fixed_p.insert(std::pair<int,double>(index,value));
+	_fixed_p[index] = value;
       }
       
       /**
-- 
2.43.0


From 26695a61b3a6001c42ff7a4ac882e9bd07a5fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 07/71] fix: uncertainty handling compares both rank sums

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index ced4de9..37ca3d8 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -310,7 +310,7 @@ namespace libcmaes
 	      [lreev,meandelta](RankedCandidate const &c1, RankedCandidate const &c2)
 	      { 
 		int s1 = c1._r1 + c1._r2;
-		int s2 = c2._r2 + c2._r2;
+		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
 		    if (c1._delta == c2._delta)
-- 
2.43.0


From 782cb54e3ac46b140d35018a5d62a7a5305296f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 08/71] fix: uncertainty handling breaks ties by a consistent
 order on the size of the rank change

---
 src/esostrategy.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 37ca3d8..c7fd6d8 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -313,16 +313,13 @@ namespace libcmaes
 		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
-		    if (c1._delta == c2._delta)
+		    double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
+		    double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
+		    if (c1d == c2d)
 		      return c1.get_fvalue() + c1._fvalue_mut < c2.get_fvalue() + c2._fvalue_mut;
-		    else
-		      {
-			double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
-			double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
-			return c1d < c2d;
-		      }
+		    else return c1d < c2d;
 		  }
-		else return c1._r1 + c1._r2 < c2._r1 + c2._r2;
+		else return s1 < s2;
 	      });
     std::vector<Candidate> ncandidates;
     vit = _solutions._candidates_uh.begin();
-- 
2.43.0


From 151ef1dcfa6bc0b40c1fbb3744bf30b19838f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 09/71] fix: lazy update delays the eigendecomposition only,
 samples always use the current mean

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index cc8814c..0390686 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -154,11 +154,11 @@ namespace libcmaes
     if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
       {
 	eostrat<TGenoPheno>::_solutions._updated_eigen = false;
+	_esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	if (eostrat<TGenoPheno>::_niter == 0 || !eostrat<TGenoPheno>::_parameters._lazy_update
 	    || eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._eigeniter > eostrat<TGenoPheno>::_parameters._lazy_value)
 	  {
 	    eostrat<TGenoPheno>::_solutions._eigeniter = eostrat<TGenoPheno>::_niter;
-	    _esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	    _esolver.setCovar(eostrat<TGenoPheno>::_solutions._cov);
 	    eostrat<TGenoPheno>::_solutions._updated_eigen = true;
 	  }
-- 
2.43.0


From 9a0e2aa78fec5a0a04a4fd74cf6701e9d5abb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 10/71] fix: every sampler owns its random generator, so that
 searches do not interfere

---
 include/libcmaes/eigenmvn.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/libcmaes/eigenmvn.h b/include/libcmaes/eigenmvn.h
index 6cddf5e..8a43e15 100644
--- a/include/libcmaes/eigenmvn.h
+++ b/include/libcmaes/eigenmvn.h
@@ -49,19 +49,15 @@ namespace Eigen {
     template<typename Scalar>
       struct scalar_normal_dist_op
       {
-	static std::mt19937 rng;                        // The uniform pseudo-random algorithm
+	std::mt19937 *rng;                             // The uniform pseudo-random algorithm, owned by the sampler
 	mutable std::normal_distribution<Scalar> norm; // gaussian combinator
 	
-	EIGEN_EMPTY_STRUCT_CTOR(scalar_normal_dist_op)
+	explicit scalar_normal_dist_op(std::mt19937 &r):rng(&r) {}
 
 	template<typename Index>
-	inline const Scalar operator() (Index, Index = 0) const { return norm(rng); }
-	inline void seed(const uint64_t &s) { rng.seed(s); }
+	inline const Scalar operator() (Index, Index = 0) const { return norm(*rng); }
       };
 
-    template<typename Scalar>
-      std::mt19937 scalar_normal_dist_op<Scalar>::rng;
-      
     template<typename Scalar>
       struct functor_traits<scalar_normal_dist_op<Scalar> >
       { enum { Cost = 50 * NumTraits<Scalar>::MulCost, PacketAccess = false, IsRepeatable = false }; };
@@ -76,7 +72,7 @@ namespace Eigen {
     class EigenMultivariateNormal
   {
     Matrix< Scalar, Dynamic, 1> _mean;
-    internal::scalar_normal_dist_op<Scalar> randN; // Gaussian functor
+    std::mt19937 _rng; // random generator, one per sampler so that samplers do not interfere
     bool _use_cholesky;
 
   public:
@@ -95,13 +91,13 @@ namespace Eigen {
 			    const uint64_t &seed=std::mt19937::default_seed)
       :_use_cholesky(use_cholesky)
       {
-	randN.seed(seed);
+	_rng.seed(seed);
       }
   EigenMultivariateNormal(const Matrix<Scalar,Dynamic,1>& mean,const Matrix<Scalar,Dynamic,Dynamic>& covar,
 			  const bool &use_cholesky=false,const uint64_t &seed=std::mt19937::default_seed)
       :_use_cholesky(use_cholesky)
     {
-      randN.seed(seed);
+      _rng.seed(seed);
       setMean(mean);
       setCovar(covar);
     }
@@ -143,12 +139,12 @@ namespace Eigen {
     /// as columns in a Dynamic by nn matrix
     Matrix<Scalar,Dynamic,-1> samples(int nn, double factor)
       {
-	return ((_transform * Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN))*factor).colwise() + _mean;
+	return ((_transform * Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,internal::scalar_normal_dist_op<Scalar>(_rng)))*factor).colwise() + _mean;
       }
 
     Matrix<Scalar,Dynamic,-1> samples_ind(int nn, double factor)
       {
-	dMat pop = (Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN))*factor;
+	dMat pop = (Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,internal::scalar_normal_dist_op<Scalar>(_rng)))*factor;
 	for (int i=0;i<pop.cols();i++)
 	  {
 	    pop.col(i) = pop.col(i).cwiseProduct(_transform) + _mean;
@@ -158,7 +154,7 @@ namespace Eigen {
 
     Matrix<Scalar,Dynamic,-1> samples_ind(int nn)
       {
-	return (Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN));
+	return (Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,internal::scalar_normal_dist_op<Scalar>(_rng)));
       }
     
   }; // end class EigenMultivariateNormal
-- 
2.43.0


From af9c2841ca4bf07488bd894bf36f5bb2324334f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 11/71] fix: uncertainty handling is seeded by the seed of the
 search

---
 src/esostrategy.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index c7fd6d8..ccf42dc 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -52,8 +52,8 @@ namespace libcmaes
     _solutions = TSolutions(_parameters);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(static_cast<std::mt19937::result_type>(parameters._seed));
+	_uhesolver = Eigen::EigenMultivariateNormal<double>(false,_uhgen());
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
@@ -68,8 +68,8 @@ namespace libcmaes
     start_from_solution(solutions);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(static_cast<std::mt19937::result_type>(parameters._seed));
+	_uhesolver = Eigen::EigenMultivariateNormal<double>(false,_uhgen());
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
-- 
2.43.0


From 8a1f3581768513d946c5950ba5c5ddd7098411fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 12/71] fix: BIPOP regimes are seeded by the seed of the search

---
 src/bipopcmastrategy.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index a6ee42f..e9d3931 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -33,9 +33,7 @@ namespace libcmaes
 								   CMAParameters<TGenoPheno> &parameters)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(static_cast<std::mt19937::result_type>(parameters._seed));
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
@@ -50,9 +48,7 @@ namespace libcmaes
 								   const CMASolutions &solutions)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters,solutions),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(static_cast<std::mt19937::result_type>(parameters._seed));
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
-- 
2.43.0


From 1be67d333d392982d6ec7d87a82c74da007398bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 13/71] fix: BIPOP started from a solution initializes its step
 size and budget

---
 src/bipopcmastrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index e9d3931..5ab0c15 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -53,6 +53,8 @@ namespace libcmaes
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
     //CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = CMASolutions(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters);
+    _sigma_init = parameters._sigma_init;
+    _max_fevals = parameters._max_fevals;
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
-- 
2.43.0


From e0b78f6d4e9069d68eb7c421eebabe9492dbd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:58 +0000
Subject: [PATCH 14/71] fix: uncertainty handling re-evaluates within bounds
 and does not move fixed parameters

---
 src/esostrategy.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index ccf42dc..ef0ea0a 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -357,13 +357,15 @@ namespace libcmaes
 	  _solutions._lambda_reev = 1;
 	
 	// mutate candidates.
-	if (phenocandidates.size())
-	  candidates_uh = phenocandidates.block(0,0,phenocandidates.rows(),_solutions._lambda_reev);
-	else candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
+	candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
 	if (_solutions._sepcov.size())
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	for (auto it=_parameters._fixed_p.begin();it!=_parameters._fixed_p.end();++it)
+	  candidates_uh.row((*it).first) = candidates.block((*it).first,0,1,_solutions._lambda_reev); // fixed parameters are not mutated.
+	if (phenocandidates.size())
+	  candidates_uh = _parameters._gp.pheno(candidates_uh); // mutated points remain within bounds.
 	}
 
   template<class TParameters,class TSolutions,class TStopCriteria>
-- 
2.43.0


From bc6e13bc498be68302b94b18c4747b8484e8fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:58 +0000
Subject: [PATCH 15/71] fix: numerical gradient stays within the bounds of the
 phenotype, takes a backward step at the upper bound and leaves fixed
 parameters alone

---
 src/esostrategy.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index ef0ea0a..93b82ad 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -182,16 +182,25 @@ namespace libcmaes
     dVec vgradf(_parameters._dim);
     dVec epsilon = 1e-8 * (dVec::Constant(_parameters._dim,1.0) + x.cwiseAbs());
     double fx = _func(x.data(),_parameters._dim);
+    const auto boundstrategy = _parameters._gp.get_boundstrategy();
 #pragma omp parallel for if (_parameters._mt_feval)
     for (int i=0;i<_parameters._dim;i++)
       {
+	if (_parameters._fixed_p.find(i) != _parameters._fixed_p.end())
+	  {
+	    vgradf(i,0) = 0.0; // fixed parameters do not move.
+	    continue;
+	  }
+	// forward difference, backward when it would leave the bounds in phenotype space.
+	double lb = boundstrategy.getPhenoLBound(i);
+	double ub = boundstrategy.getPhenoUBound(i);
+	double step = (x(i) + epsilon(i) > ub) ? -epsilon(i) : epsilon(i);
 	dVec ei1 = x;
-	ei1(i,0) += epsilon(i);
-	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getUBound(i));
-	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
+	ei1(i,0) = std::min(std::max(x(i) + step,lb),ub);
+	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/step;
 	vgradf(i,0) = gradi;
       }
-    update_fevals(_parameters._dim+1); // numerical gradient increases the budget.
+    update_fevals(_parameters._dim-_parameters._fixed_p.size()+1); // numerical gradient increases the budget.
     return vgradf;
   }
 
-- 
2.43.0


From c9b5ec44b45c52b2129b3b8380774b2f05512013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:58 +0000
Subject: [PATCH 16/71] fix: a maximization started from a solution maximizes

---
 src/esostrategy.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 93b82ad..9187692 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -64,6 +64,11 @@ namespace libcmaes
 								 const TSolutions &solutions)
     :_func(func),_nevals(0),_niter(0),_parameters(parameters)
   {
+    if (parameters._maximize)
+      {
+	_funcaux = _func;
+	_func = [&](const double *x, const int N) { return -1.0*_funcaux(x,N); };
+      }
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     start_from_solution(solutions);
     if (parameters._uh)
-- 
2.43.0


From 637c3c78d62fe89be84cb5a7bc4accf4702309b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:58 +0000
Subject: [PATCH 17/71] fix: a search started from a solution honours the
 stopping criteria settings

---
 src/cmastrategy.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 0390686..585c715 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -133,7 +133,16 @@ namespace libcmaes
     _esolver = Eigen::EigenMultivariateNormal<double>(false,eostrat<TGenoPheno>::_parameters._seed); // seeding the multivariate normal generator.
     LOG_IF(INFO,!eostrat<TGenoPheno>::_parameters._quiet) << "CMA-ES / dim=" << eostrat<TGenoPheno>::_parameters._dim << " / lambda=" << eostrat<TGenoPheno>::_parameters._lambda << " / sigma0=" << eostrat<TGenoPheno>::_solutions._sigma << " / mu=" << eostrat<TGenoPheno>::_parameters._mu << " / mueff=" << eostrat<TGenoPheno>::_parameters._muw << " / c1=" << eostrat<TGenoPheno>::_parameters._c1 << " / cmu=" << eostrat<TGenoPheno>::_parameters._cmu << " / lazy_update=" << eostrat<TGenoPheno>::_parameters._lazy_update << std::endl;
     if (!eostrat<TGenoPheno>::_parameters._fplot.empty())
-      _fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+      {
+	_fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+	_fplotstream->precision(std::numeric_limits<double>::digits10);
+      }
+    auto mit=eostrat<TGenoPheno>::_parameters._stoppingcrit.begin();
+    while(mit!=eostrat<TGenoPheno>::_parameters._stoppingcrit.end())
+      {
+	_stopcriteria.set_criteria_active((*mit).first,(*mit).second);
+	++mit;
+      }
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
-- 
2.43.0


From 229877ba46b235a645360bc180749c06e468e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:58 +0000
Subject: [PATCH 18/71] fix: resetting a solution with a diagonal covariance

---
 src/cmasolutions.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a46e414..05cfa1c 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -209,13 +209,16 @@ namespace libcmaes
     //_leigenvalues.setZero(); // beware.
     //_leigenvectors.setZero();
     //_cov /= 1e-3;//_sigma;
-    _cov = dMat::Identity(_csqinv.rows(),_csqinv.cols());
+    int n = _xmean.size();
+    if (_sepcov.size())
+      _sepcov = dMat::Constant(n,1,1.0);
+    else _cov = dMat::Identity(n,n);
     //std::cout << "cov: " << _cov << std::endl;
     _niter = 0;
     _nevals = 0;
     //_sigma = 1.0/static_cast<double>(_csqinv.rows());
-    _psigma = dVec::Zero(_cov.rows());
-    _pc = dVec::Zero(_cov.rows());
+    _psigma = dVec::Zero(n);
+    _pc = dVec::Zero(n);
     _k_best_candidates_hist.clear();
     _bfvalues.clear();
     _median_fvalues.clear();
-- 
2.43.0


From ab50ff477f24f096b2b353deee441b50178062ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:58 +0000
Subject: [PATCH 19/71] fix: the initial mean holds the fixed values of fixed
 parameters with scaling too

---
 src/cmasolutions.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 05cfa1c..a6c7a45 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -53,6 +53,10 @@ namespace libcmaes
 	_xmean = 0.5*(dVec::Random(p._dim) + dVec::Constant(p._dim,1.0)); // scale to [0,1].
 	_xmean = _xmean.cwiseProduct(p._x0max - p._x0min) + p._x0min; // scale to bounds.
       }
+    // if scaling, need to apply to xmean.
+    if (!p._gp._scalingstrategy._id)
+      p._gp._scalingstrategy.scale_to_internal(_xmean,_xmean);
+    // fixed parameters are in genotype.
     if (!p._fixed_p.empty())
       {
 	auto fpmit = p._fixed_p.begin();
@@ -62,9 +66,6 @@ namespace libcmaes
 	    ++fpmit;
 	  }
       }
-    // if scaling, need to apply to xmean.
-    if (!p._gp._scalingstrategy._id)
-      p._gp._scalingstrategy.scale_to_internal(_xmean,_xmean);
     if (static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init > 0.0)
       _sigma = static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init;
     else static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init = _sigma = 1.0/static_cast<double>(p._dim); // XXX: sqrt(trace(cov)/dim)
-- 
2.43.0


From 68f23a201885ac3fd5bb80d9e1ef0b03a0e9592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:58 +0000
Subject: [PATCH 20/71] fix: elitist restart starts from the best seen point
 with scaling too, keeps custom functions and the user's starting point

---
 src/cmastrategy.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 585c715..4b2912e 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -383,12 +383,15 @@ namespace libcmaes
 	    LOG_IF(INFO,!eostrat<TGenoPheno>::_parameters._quiet) << "Starting elitist on restart: bfvalue=" << eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_fvalue() << " / biter=" << eostrat<TGenoPheno>::_solutions._best_seen_iter << std::endl;
 	    this->set_initial_elitist(true);
 
-	    // reinit solution and re-optimize.
-	    eostrat<TGenoPheno>::_parameters.set_x0(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec_ref());
+	    // reinit solution and re-optimize, from the best seen point (in genotype).
+	    dVec xbest = eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec();
+	    int nevals = eostrat<TGenoPheno>::_solutions._nevals;
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
-	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
+	    eostrat<TGenoPheno>::_solutions._xmean = xbest;
+	    eostrat<TGenoPheno>::_solutions._nevals = nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-	    optimize();
+	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::optimize(evalf,askf,tellf);
+	    this->set_initial_elitist(false);
 	  }
       }
     
-- 
2.43.0


From a4acf316f9ea2d8f8eafe3007c5e70563346c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 21/71] fix: expected distance to minimum uses the covariance
 of the search, for every algorithm

---
 src/esostrategy.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 9187692..f05e366 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -224,11 +224,16 @@ namespace libcmaes
     dVec gradff = gradf(_parameters._gp.pheno(_solutions._xmean));
     dVec gradgpf = gradgp(_solutions._xmean);
     gradff = gradff.cwiseProduct(gradgpf);
-    dMat gradmn;
-    if (!_parameters._sep)
-      gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
-    else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
-    double gradn = _solutions._sigma * gradmn.norm();
+    double sqgradn; // squared norm of the gradient in the metric of the covariance.
+    if (_parameters._vd)
+      {
+	dVec dgradff = _solutions._sepcov.cwiseProduct(gradff);
+	sqgradn = dgradff.squaredNorm() + pow(_solutions._v.dot(dgradff),2);
+      }
+    else if (_parameters._sep)
+      sqgradn = gradff.dot(dVec(_solutions._sepcov.cwiseProduct(gradff)));
+    else sqgradn = gradff.dot(_solutions._cov * gradff);
+    double gradn = _solutions._sigma * sqrt(sqgradn);
     edm *= gradn;
     _solutions._edm = edm;
     return edm;
-- 
2.43.0


From 56d7428505a8bbae3ef1fb9a925dde2a7f6c3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 22/71] fix: gradient injection follows the covariance of
 VD-CMA

---
 src/cmastrategy.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 4b2912e..55755c2 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -224,6 +224,15 @@ namespace libcmaes
 		double normq = q.squaredNorm();
 		nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim / normq)) * eostrat<TGenoPheno>::_solutions._cov * grad_at_mean;
 	      }
+	    else if (eostrat<TGenoPheno>::_parameters._vd)
+	      {
+		// covariance is D*(I+v*v^T)*D, with D in _sepcov.
+		dVec q = eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean);
+		double vq = eostrat<TGenoPheno>::_solutions._v.dot(q);
+		double normq = q.squaredNorm() + vq*vq;
+		q += vq * eostrat<TGenoPheno>::_solutions._v;
+		nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim / normq)) * eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(q);
+	      }
 	    else nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim) / ((eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseProduct(grad_at_mean)).norm())) * eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean);
 	    pop.col(0) = nx;
 	  }
-- 
2.43.0


From 73b27cb3ebf7546c85922a619dc3572eeef0650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 23/71] fix: two-point adaptation scales its points by the
 covariance of VD-CMA

---
 src/cmastrategy.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 55755c2..e75c394 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -245,6 +245,13 @@ namespace libcmaes
 	double mean_shift_norm = 1.0;
 	if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
 	  mean_shift_norm = (_esolver._eigenSolver.eigenvalues().cwiseSqrt().cwiseInverse().cwiseProduct(_esolver._eigenSolver.eigenvectors().transpose()*mean_shift)).norm() / eostrat<TGenoPheno>::_solutions._sigma;
+	else if (eostrat<TGenoPheno>::_parameters._vd)
+	  {
+	    // covariance is D*(I+v*v^T)*D, with D in _sepcov.
+	    dVec y = eostrat<TGenoPheno>::_solutions._sepcov.cwiseInverse().cwiseProduct(mean_shift);
+	    double vy = eostrat<TGenoPheno>::_solutions._v.dot(y);
+	    mean_shift_norm = std::sqrt(y.squaredNorm() - vy*vy / (1.0+eostrat<TGenoPheno>::_solutions._v.squaredNorm())) / eostrat<TGenoPheno>::_solutions._sigma;
+	  }
 	else mean_shift_norm = eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseInverse().cwiseProduct(mean_shift).norm() / eostrat<TGenoPheno>::_solutions._sigma;
 	//std::cout << "mean_shift_norm=" << mean_shift_norm << " / sqrt(N)=" << std::sqrt(std::sqrt(eostrat<TGenoPheno>::_parameters._dim)) << std::endl;
 
-- 
2.43.0


From c3a05025ec04d1dfd269da4c11728af02b58cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 24/71] fix: algorithm and option specific constants are
 applied once and survive restarts and re-initialization

---
 include/libcmaes/cmaparameters.h |  4 ++-
 src/cmaparameters.cc             | 53 ++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 17af439..35afa99 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -284,7 +284,7 @@ namespace libcmaes
        * \brief sets dsigma value, use with care.
        * @param d dsigma
        */
-      void set_tpa_dsigma(const double &d) { _dsigma = d; }
+      void set_tpa_dsigma(const double &d) { _dsigma = _tpa_dsigma = d; }
       
     private:
       int _mu; /**< number of candidate solutions used to update the distribution parameters. */
@@ -318,6 +318,8 @@ namespace libcmaes
       // sep cma (diagonal cov).
       bool _sep = false; /**< whether to use diagonal covariance matrix. */
       bool _vd = false;
+      bool _noisy = false; /**< whether constants are adapted to noisy objective functions. */
+      double _tpa_dsigma = -1.0; /**< custom dsigma, if positive. */
       
       bool _elitist = false; /**< re-inject the best-ever seen solution. */
       bool _initial_elitist = false; /**< re-inject x0. */
diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 9565984..17caf8a 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -115,23 +115,56 @@ namespace libcmaes
     // uncertainty handling.
     this->_rlambda = std::max(0.1,2.0/Parameters<TGenoPheno>::_lambda);
     this->_alphathuh = 1 + 2.0/(Parameters<TGenoPheno>::_dim+10.0);
+
+    // constants that depend on the options and algorithm.
+    if (_noisy)
+      {
+	static double factor = 0.2;
+	_c1 *= factor;
+	_cmu = std::min(1.0-_c1,2.0*factor*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw));
+      }
+    if (_sep)
+      {
+	_c1 *= (Parameters<TGenoPheno>::_dim+2.0)/3.0;
+	_cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
+	_lazy_value = 1.0/(_c1+_cmu)/Parameters<TGenoPheno>::_dim/10.0;
+	_cc = (1.0+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim) + _muw/static_cast<double>(Parameters<TGenoPheno>::_dim))/(std::sqrt(Parameters<TGenoPheno>::_dim)+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim)+2.0*_muw/static_cast<double>(Parameters<TGenoPheno>::_dim));
+	_fact_pc = sqrt(_cc * (2.0 - _cc) * _muw);
+      }
+    if (_vd)
+      {
+	_csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
+	_c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
+	_cmu = std::min(1.0-_c1,(Parameters<TGenoPheno>::_dim-5)/6.0*(2.0*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw)));
+	_dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1);
+	_fact_ps = sqrt(_csigma*(2.0-_csigma)*_muw);
+      }
+    if (_tpa_dsigma > 0.0)
+      _dsigma = _tpa_dsigma;
+    else if (this->_tpa == 2)
+      _dsigma = 4 - 3.6 / std::sqrt(Parameters<TGenoPheno>::_dim);
+    if (!Parameters<TGenoPheno>::_fixed_p.empty())
+      {
+	double ndim = Parameters<TGenoPheno>::_dim-Parameters<TGenoPheno>::_fixed_p.size();
+	_chi = sqrt(ndim)*(1.0-1.0/(4.0*ndim) + 1.0/(21.0*ndim*ndim));
+	_lazy_value = 1.0/(_c1+_cmu)/ndim/10.0;
+      }
   }
   
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::set_noisy()
   {
-    static double factor = 0.2;
     static double lfactor = 5.0; // lambda factor.
     Parameters<TGenoPheno>::_lambda *= lfactor;
+    _noisy = true;
     initialize_parameters(); // reinit parameters.
-    _c1 *= factor;
-    _cmu = std::min(1.0-_c1,2.0*factor*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw));
   }
 
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::set_tpa(const int &b)
   {
     this->_tpa = b;
+    _tpa_dsigma = -1.0;
     if (this->_tpa == 2)
       _dsigma = 4 - 3.6 / std::sqrt(Parameters<TGenoPheno>::_dim);
     else if (!this->_vd)
@@ -152,10 +185,8 @@ namespace libcmaes
   void CMAParameters<TGenoPheno>::set_sep()
   {
     _sep = true;
-    _c1 *= (Parameters<TGenoPheno>::_dim+2.0)/3.0;
-    _cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
-    _lazy_value = 1.0/(_c1+_cmu)/Parameters<TGenoPheno>::_dim/10.0;
-    _cc = (1.0+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim) + _muw/static_cast<double>(Parameters<TGenoPheno>::_dim))/(std::sqrt(Parameters<TGenoPheno>::_dim)+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim)+2.0*_muw/static_cast<double>(Parameters<TGenoPheno>::_dim));
+    _vd = false;
+    initialize_parameters();
   }
   
   template <class TGenoPheno>
@@ -167,12 +198,8 @@ namespace libcmaes
 	return;
       }
     _vd = true;
-    _csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
-    _c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
-    _cmu = std::min(1.0-_c1,(Parameters<TGenoPheno>::_dim-5)/6.0*(2.0*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw)));
-    if (this->_tpa == 0)
-      _dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1);
-    _fact_ps = sqrt(_csigma*(2.0-_csigma)*_muw);
+    _sep = false;
+    initialize_parameters();
   }
 
   template <class TGenoPheno>
-- 
2.43.0


From ade4284e9bdf73188f003f63717b6cbd0c5c67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 25/71] fix: selecting an algorithm by name replaces the
 previous selection, unknown names change nothing

---
 include/libcmaes/cmaparameters.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 35afa99..032c127 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -142,11 +142,20 @@ namespace libcmaes
 	std::map<std::string,int>::const_iterator mit;
 	if ((mit = Parameters<TGenoPheno>::_algos.find(algo))!=Parameters<TGenoPheno>::_algos.end())
 	  Parameters<TGenoPheno>::_algo = (*mit).second;
-	else LOG(ERROR) << "unknown algorithm " << algo << std::endl;
+	else
+	  {
+	    LOG(ERROR) << "unknown algorithm " << algo << std::endl;
+	    return;
+	  }
 	if (algo.find("sep")!=std::string::npos)
 	  set_sep();
-	if (algo.find("vd")!=std::string::npos)
+	else if (algo.find("vd")!=std::string::npos)
 	  set_vd();
+	else if (_sep || _vd) // back to a full covariance matrix.
+	  {
+	    _sep = _vd = false;
+	    initialize_parameters();
+	  }
       }
 
       /**
-- 
2.43.0


From 87283b5f2ab487616e8addda4d301e9bd0a97ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 26/71] fix: tolerance on parameters compares the evolution
 path and deviations times the step size factor

---
 src/cmastopcriteria.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 89310a9..0251536 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -166,16 +166,15 @@ namespace libcmaes
       {
 	double tolx = std::max(cmap._xtol,1e-12);
 	double factor = cmas._sigma / cmap._sigma_init;
-	double tfactor = tolx * factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (cmas._pc[i]>=tfactor)
+	  if (fabs(cmas._pc[i])*factor>=tolx)
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
 	for (int i=0;i<covrows;i++)
-	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))>=tfactor)
-	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))>=tfactor))
+	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))*factor>=tolx)
+	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))*factor>=tolx))
 	    return CONT;
 	LOG_IF(INFO,!cmap._quiet) << "stopping criteria tolX\n";
 	return TOLX;
-- 
2.43.0


From 737de26ade152400fe87db60b54792d2edd1710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:19 +0000
Subject: [PATCH 27/71] fix: BIPOP starts no new run once the total budget of
 function calls is spent

---
 src/bipopcmastrategy.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index 5ab0c15..a9bd943 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -75,9 +75,11 @@ namespace libcmaes
   {
     std::array<int,2> budgets = {{0,0}}; // 0: r1, 1: r2
     CMASolutions best_run;
+    // do not start a new run once the total budget of function calls is spent.
+    auto budget_spent = [this]() { return _max_fevals > 0 && CMAStrategy<TCovarianceUpdate,TGenoPheno>::_nevals >= _max_fevals; };
     for (int r=0;r<CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._nrestarts;r++)
       {
-	while(budgets[0]>budgets[1])
+	while(budgets[0]>budgets[1] && !budget_spent())
 	  {
 	    r2();
 	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters.set_max_fevals(0.5*budgets[0]);
@@ -86,6 +88,8 @@ namespace libcmaes
 	    budgets[1] += CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter * CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda;
 	    IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(best_run);
 	  }
+	if (budget_spent())
+	  break;
 	if (r > 0) // use lambda_def on first call.
 	  {
 	    r1();
-- 
2.43.0


From 40cbdcb648eacde99811e1e360049adb1c2ada2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:19 +0000
Subject: [PATCH 28/71] fix: the default linear scaling is the identity in
 every dimension

---
 include/libcmaes/scaling.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 86aedb1..a308b78 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -122,12 +122,19 @@ namespace libcmaes
     void scale_to_internal(dVec &x,
 			   const dVec &y) const
     {
-      x = y.cwiseProduct(_scaling) + _shift;
+      if (_id)
+	x = y;
+      else x = y.cwiseProduct(_scaling) + _shift;
     }
 
     void scale_to_f(const dVec &x,
 		    dVec &y) const
     {
+      if (_id)
+	{
+	  y = x;
+	  return;
+	}
       y = x - _shift;
       y = y.cwiseQuotient(_scaling);
     }
-- 
2.43.0


From 79443f208cd94de4ab45183e1832012c56f6806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:19 +0000
Subject: [PATCH 29/71] fix: mapping to genotype without bounds: matrices, and
 custom functions on top of a scaling

---
 include/libcmaes/genopheno.h       | 2 +-
 include/libcmaes/noboundstrategy.h | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 7c1b4ef..3f8c9b6 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -311,7 +311,7 @@ namespace libcmaes
       else
 	{
 	  dVec ncandidate(candidate.rows());
-	  _genof(scand.data(),scand.data(),candidate.rows());
+	  _genof(scand.data(),ncandidate.data(),candidate.rows());
 	  return ncandidate;
 	}
     }
diff --git a/include/libcmaes/noboundstrategy.h b/include/libcmaes/noboundstrategy.h
index 6cefa6b..3109a29 100644
--- a/include/libcmaes/noboundstrategy.h
+++ b/include/libcmaes/noboundstrategy.h
@@ -52,8 +52,12 @@ namespace libcmaes
 
     void to_f_representation(const dVec &x, dVec &y) const
     {
-      (void)x;
-      (void)y;
+      y = x;
+    }
+
+    void to_internal_representation(dVec &x, const dVec &y) const
+    {
+      x = y;
     }
 
     void remove_dimensions(const std::vector<int> &k)
-- 
2.43.0


From 1e28e9423fb49d74bcf86d17d0834dcc1255c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:53 +0000
Subject: [PATCH 30/71] fix: pwq bounds map points far away, or with equal
 bounds, into the bounds

---
 src/pwq_bound_strategy.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 5fb94c7..32445d7 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -26,9 +26,7 @@
  */
 
 #include <libcmaes/pwq_bound_strategy.h>
-#include <libcmaes/llogging.h>
-#include <limits>
-#include <iostream>
+#include <cmath>
 
 namespace libcmaes
 {
@@ -96,19 +94,25 @@ namespace libcmaes
     x_s = x;
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
+	if (_r[i] == 0.0) // lower and upper bounds are equal.
+	  {
+	    x_s[i] = _lbounds[i];
+	    continue;
+	  }
 	if (x_s[i] < _xlow[i])
-	  x_s[i] += _r[i] * (1.0 + static_cast<int>((_xlow[i]-x_s[i])/_r[i])); // shift up.
+	  x_s[i] += _r[i] * (1.0 + std::floor((_xlow[i]-x_s[i])/_r[i])); // shift up.
 	if (x_s[i] > _xup[i])
-	  x_s[i] -= _r[i] * (1.0 + static_cast<int>((x_s[i]-_xup[i])/_r[i])); // shift down;
+	  x_s[i] -= _r[i] * (1.0 + std::floor((x_s[i]-_xup[i])/_r[i])); // shift down;
 	if (x_s[i] < _lbounds[i] - _al[i])
 	  x_s[i] += 2.0 * (_lbounds[i] - _al[i] - x_s[i]);
 	if (x_s[i] > _ubounds[i] + _au[i])
 	  x_s[i] -= 2.0 * (x_s[i] - _ubounds[i] - _au[i]);
 
-	if ((x_s[i] < _lbounds[i] - _al[i] - 1e-15) || (x_s[i] > _ubounds[i] + _au[i] + 1e-15))
-	  {
-	    LOG(FATAL) << "error in shifting pwq bounds in dimension " << i << ": lb=" << _lbounds[i] << " / ub=" << _ubounds[i] << " / al=" << _al[i] << " / au=" << _au[i] << " / x_s=" << x_s[i] << " / x=" << x[i] << " / xlow=" << _xlow[i] << " / xup=" << _xup[i] << " / r=" << _r[i] << std::endl;
-	  }
+	// rounding of very large values must not leave the feasible domain.
+	if (x_s[i] < _lbounds[i] - _al[i])
+	  x_s[i] = _lbounds[i] - _al[i];
+	if (x_s[i] > _ubounds[i] + _au[i])
+	  x_s[i] = _ubounds[i] + _au[i];
       }
   }
 
-- 
2.43.0


From 08cc382e66e74847f3791cb2a0d92bf22cecd591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:53 +0000
Subject: [PATCH 31/71] fix: pwq bounds without bounds given are the identity

---
 include/libcmaes/pwq_bound_strategy.h | 13 +++++++------
 src/pwq_bound_strategy.cc             | 10 ++++++++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/libcmaes/pwq_bound_strategy.h b/include/libcmaes/pwq_bound_strategy.h
index dc5d555..124fd79 100644
--- a/include/libcmaes/pwq_bound_strategy.h
+++ b/include/libcmaes/pwq_bound_strategy.h
@@ -24,6 +24,7 @@
 
 #include <libcmaes/eo_matrix.h>
 #include <libcmaes/cmaes_export.h>
+#include <limits>
 #include <vector>
 
 namespace libcmaes
@@ -31,7 +32,7 @@ namespace libcmaes
   class CMAES_EXPORT pwqBoundStrategy
   {
   public:
-    pwqBoundStrategy(); // dummy constructor, required for non-pointer default object in GenoPheno.
+    pwqBoundStrategy(); // no bounds, required for non-pointer default object in GenoPheno.
     pwqBoundStrategy(const double *lbounds, const double *ubounds, const int &dim);
     pwqBoundStrategy(const double *lbounds, const double *ubounds,
 		     const double *plbounds, const double *pubounds, const int &dim);
@@ -45,10 +46,10 @@ namespace libcmaes
 
     void shift_into_feasible(const dVec &x, dVec &x_s) const;
 
-    double getLBound(const int &k) const { return _lbounds[k]; }
-    double getUBound(const int &k) const { return _ubounds[k]; }
-    double getPhenoLBound(const int &k) const { return _phenolbounds[k]; }
-    double getPhenoUBound(const int &k) const { return _phenoubounds[k]; }
+    double getLBound(const int &k) const { return _id ? -std::numeric_limits<double>::max() : _lbounds[k]; }
+    double getUBound(const int &k) const { return _id ? std::numeric_limits<double>::max() : _ubounds[k]; }
+    double getPhenoLBound(const int &k) const { return _id ? -std::numeric_limits<double>::max() : _phenolbounds[k]; }
+    double getPhenoUBound(const int &k) const { return _id ? std::numeric_limits<double>::max() : _phenoubounds[k]; }
 
     double getAL(const int &k) const { return _al[k]; }
     double getAU(const int &k) const { return _au[k]; }
@@ -70,7 +71,7 @@ namespace libcmaes
     dVec _r;
     dVec _phenolbounds; /**< differ from _lbounds when another geno/pheno transform applies before bounds. */
     dVec _phenoubounds; /**< differ from _ubounds when another geno/pheno transform applies before bounds. */
-    bool _id = false;
+    bool _id = false; /**< no bounds. */
   };
 }
 
diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 32445d7..827d868 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -31,6 +31,7 @@
 namespace libcmaes
 {
   pwqBoundStrategy::pwqBoundStrategy()
+    :_id(true)
   {
   }
   
@@ -79,6 +80,11 @@ namespace libcmaes
 
   void pwqBoundStrategy::to_f_representation(const dVec &x, dVec &y) const
   {
+    if (_id)
+      {
+	y = x;
+	return;
+      }
     shift_into_feasible(x,y);
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
@@ -92,6 +98,8 @@ namespace libcmaes
   void pwqBoundStrategy::shift_into_feasible(const dVec &x, dVec &x_s) const
   {
     x_s = x;
+    if (_id)
+      return;
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
 	if (_r[i] == 0.0) // lower and upper bounds are equal.
@@ -119,6 +127,8 @@ namespace libcmaes
   void pwqBoundStrategy::to_internal_representation(dVec &x, const dVec &y) const
   {
     x = y;
+    if (_id)
+      return;
     for (int i=0;i<y.rows();i++)
       {
 	if (x[i] < _lbounds[i] + _al[i])
-- 
2.43.0


From 110567d684b0b1e3a1fc7f549270fe239116d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:53 +0000
Subject: [PATCH 32/71] fix: bounds with a scaling vector: phenotype bounds are
 the user's, a negative scaling swaps the internal ones

---
 include/libcmaes/genopheno.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 3f8c9b6..654be35 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -358,7 +358,9 @@ namespace libcmaes
       dVec nlbounds, nubounds;
       _scalingstrategy.scale_to_internal(nlbounds,vlbounds);
       _scalingstrategy.scale_to_internal(nubounds,vubounds);
-      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),scaling.size());
+      dVec ilbounds = nlbounds.cwiseMin(nubounds); // a negative scaling swaps the bounds.
+      dVec iubounds = nlbounds.cwiseMax(nubounds);
+      _boundstrategy = pwqBoundStrategy(ilbounds.data(),iubounds.data(),lbounds,ubounds,scaling.size());
     }
 }
 
-- 
2.43.0


From 08f76a5137c9138b8ad30b3978e4112e98078dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:53 +0000
Subject: [PATCH 33/71] fix: removing several dimensions from a geno/pheno
 transform removes the given ones

---
 include/libcmaes/scaling.h | 7 ++++++-
 src/pwq_bound_strategy.cc  | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index a308b78..e070c82 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -28,7 +28,10 @@
 #define LSCALING_H
 
 #include <libcmaes/eo_matrix.h>
+#include <algorithm>
+#include <functional>
 #include <limits>
+#include <vector>
 #include <iostream>
 
 namespace libcmaes
@@ -143,7 +146,9 @@ namespace libcmaes
 
     void remove_dimensions(const std::vector<int> &k)
     {
-      for (const int i: k)
+      std::vector<int> sk(k);
+      std::sort(sk.begin(),sk.end(),std::greater<int>()); // highest first, so that indices remain valid.
+      for (const int i: sk)
 	{
 	  removeElement(_scaling,i);
 	  removeElement(_shift,i);
diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 827d868..a27b263 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -26,7 +26,9 @@
  */
 
 #include <libcmaes/pwq_bound_strategy.h>
+#include <algorithm>
 #include <cmath>
+#include <functional>
 
 namespace libcmaes
 {
@@ -140,7 +142,9 @@ namespace libcmaes
 
   void pwqBoundStrategy::remove_dimensions(const std::vector<int> &k)
   {
-    for (const int i: k)
+    std::vector<int> sk(k);
+    std::sort(sk.begin(),sk.end(),std::greater<int>()); // highest first, so that indices remain valid.
+    for (const int i: sk)
       {
 	removeElement(_lbounds,i);
 	removeElement(_ubounds,i);
-- 
2.43.0


From 6dbda135b46cfe81f97edbc0b6f2ae9e6daf42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:03 +0000
Subject: [PATCH 34/71] fix: maximization follows the opposite of the user's
 gradient

---
 src/esostrategy.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index f05e366..9534f76 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -183,7 +183,10 @@ namespace libcmaes
   dVec ESOStrategy<TParameters,TSolutions,TStopCriteria>::gradf(const dVec &x)
   {
     if (_gfunc != nullptr)
-      return _gfunc(x.data(),_parameters._dim);
+      {
+	dVec ggradf = _gfunc(x.data(),_parameters._dim);
+	return _parameters._maximize ? dVec(-ggradf) : ggradf; // the search minimizes the opposite of a maximized function.
+      }
     dVec vgradf(_parameters._dim);
     dVec epsilon = 1e-8 * (dVec::Constant(_parameters._dim,1.0) + x.cwiseAbs());
     double fx = _func(x.data(),_parameters._dim);
-- 
2.43.0


From 060d986a21ae864b315f85431992983abfad4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:03 +0000
Subject: [PATCH 35/71] fix: every algorithm of the one-call entry point uses
 the custom plot function

---
 include/libcmaes/cmaes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index f7e49e1..41180e6 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -250,6 +250,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -274,6 +275,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		sepcmaes.set_gradient_func(gfunc);
 	      sepcmaes.set_progress_func(pfunc);
+	      sepcmaes.set_plot_func(pffunc);
 	      sepcmaes.optimize();
 	      return sepcmaes.get_solutions();
 	    }
@@ -298,6 +300,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		ipop.set_gradient_func(gfunc);
 	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
 	      ipop.optimize();
 	      return ipop.get_solutions();
 	    }
@@ -322,6 +325,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
-- 
2.43.0


From 711dc290ac96324e1c6cfb46868adf2ebdfcd428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:03 +0000
Subject: [PATCH 36/71] fix: separable algorithms of the one-call entry point
 start from the given solution

---
 include/libcmaes/cmaes.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index 41180e6..02276b3 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -184,7 +184,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.size() == 0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -209,7 +209,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.size() == 0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -234,7 +234,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.size() == 0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -259,7 +259,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.size() == 0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -284,7 +284,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.size() == 0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -309,7 +309,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.size() == 0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
-- 
2.43.0


From eb259b1d9311d67538b4e424096bee150db7ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:03 +0000
Subject: [PATCH 37/71] fix: pwq bounds map points into the bounds when their
 distance in periods overflows

---
 src/pwq_bound_strategy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index a27b263..8137c2d 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -118,8 +118,8 @@ namespace libcmaes
 	if (x_s[i] > _ubounds[i] + _au[i])
 	  x_s[i] -= 2.0 * (x_s[i] - _ubounds[i] - _au[i]);
 
-	// rounding of very large values must not leave the feasible domain.
-	if (x_s[i] < _lbounds[i] - _al[i])
+	// rounding or overflow of very large values must not leave the feasible domain.
+	if (!(x_s[i] >= _lbounds[i] - _al[i]))
 	  x_s[i] = _lbounds[i] - _al[i];
 	if (x_s[i] > _ubounds[i] + _au[i])
 	  x_s[i] = _ubounds[i] + _au[i];
-- 
2.43.0


From 469d2789ded97770818b19e8fe29f11d9f4a575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:14 +0000
Subject: [PATCH 38/71] fix: gradient injection never injects a non-finite
 point

---
 src/cmastrategy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index e75c394..f3b5199 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -234,7 +234,8 @@ namespace libcmaes
 		nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim / normq)) * eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(q);
 	      }
 	    else nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim) / ((eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseProduct(grad_at_mean)).norm())) * eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean);
-	    pop.col(0) = nx;
+	    if (nx.allFinite()) // e.g. the function has no finite difference at the mean.
+	      pop.col(0) = nx;
 	  }
       }
 
-- 
2.43.0


From 153a9575e05e0e286c27dc0dab6303475c35688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:59 +0000
Subject: [PATCH 39/71] fix: the age of the best seen candidate is never read
 uninitialized

---
 include/libcmaes/cmasolutions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index 23aca8a..607d796 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -526,7 +526,7 @@ namespace libcmaes
     double _edm = 0.0; /**< expected vertical distance to the minimum. */
 
     Candidate _best_seen_candidate; /**< best seen candidate along the run. */
-    int _best_seen_iter;
+    int _best_seen_iter = 0; /**< iteration at which the best seen candidate was found. */
     Candidate _worst_seen_candidate;
     Candidate _initial_candidate;
     
-- 
2.43.0


From d39aeb399ba2a98444e124caba396a6d314f23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:33 +0000
Subject: [PATCH 40/71] fix: selecting another algorithm drops the separable or
 vd mode of the previous one

---
 include/libcmaes/cmaparameters.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 032c127..64d63a6 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -119,7 +119,15 @@ namespace libcmaes
        */
       void set_algo(const int &algo)
       {
+	const bool was_sep = this->_algo >= 6 && this->_algo <= 11; // from sepCMAES to sepaBIPOP_CMAES
+	const bool was_vd = this->_algo >= 12 && this->_algo <= 14; // from VD_CMAES to VD_BIPOP_CMAES
 	this->_algo = algo;
+	if ((_sep && was_sep && (algo < 6 || algo > 11))
+	    || (_vd && was_vd && (algo < 12 || algo > 14))) // replaces a separable or vd algorithm.
+	  {
+	    _sep = _vd = false;
+	    initialize_parameters();
+	  }
 	/*if (this->_tpa != 0
 	    && (this->_algo == 6 // sepCMAES
 		|| this->_algo == 7 //sepIPOP_CMAES
-- 
2.43.0


From cac73435b8da25aba3ec1160fd049c87989d53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:41 +0000
Subject: [PATCH 41/71] fix: restarting searches end and keep the best run when
 runs are stopped before their first generation

---
 src/bipopcmastrategy.cc | 2 ++
 src/ipopcmastrategy.cc  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index a9bd943..945f197 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -87,6 +87,8 @@ namespace libcmaes
 	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::optimize(evalf,askf,tellf);
 	    budgets[1] += CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter * CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda;
 	    IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(best_run);
+	    if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter == 0)
+	      break; // the run ended before its first generation and spent nothing of its budget.
 	  }
 	if (budget_spent())
 	  break;
diff --git a/src/ipopcmastrategy.cc b/src/ipopcmastrategy.cc
index b6faf8b..ac495ac 100644
--- a/src/ipopcmastrategy.cc
+++ b/src/ipopcmastrategy.cc
@@ -102,7 +102,8 @@ namespace libcmaes
   template <class TCovarianceUpdate, class TGenoPheno>
   void IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(CMASolutions &best_run)
   {
-    if (best_run._candidates.empty() || CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions.best_candidate().get_fvalue() < best_run.best_candidate().get_fvalue())
+    if (best_run._candidates.empty() || best_run._niter == 0 // no value yet
+	|| CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions.best_candidate().get_fvalue() < best_run.best_candidate().get_fvalue())
       best_run = CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions;
   }
 
-- 
2.43.0


From a829729003b86608ac068227d66e51c74e1f2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:15 +0000
Subject: [PATCH 42/71] fix: the correlation of two parameters does not depend
 on the magnitude of the mean

---
 src/cmasolutions.cc | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a6c7a45..8913ca6 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -169,24 +169,14 @@ namespace libcmaes
       return 1.0;
     if (_cov.size() > 0) //  ful cov
       {
-	CMAParameters<> cp; // fake parameter with identity gp, since correlation is independent from unit
-	dVec st = stds(cp);
-	return _cov(i,j)/(st(i)*st(j));
+	return _cov(i,j)/std::sqrt(_cov(i,i)*_cov(j,j));
       }
     else if (_v.size() > 0) // vd
       {
-	CMAParameters<> cp(std::vector<double>(_v.size()),1.0);
-	cp.set_str_algo("vdcma");
-	cp.set_vd();
-	dVec st = stds(cp);
-	dVec sc(2);
-	dVec v(2);
-	sc(0) = _sepcov(i,0);
-	sc(1) = _sepcov(j,0);
-	v(0) = _v(i);
-	v(1) = _v(j);
-	dMat c = sc.asDiagonal()*(dMat::Identity(2,2)+v*v.transpose())*(sc.asDiagonal()); // compute cov matrix for i & j
-	return c(0,1)/(st(i)*st(j));
+	// covariance is D*(I+v*v^T)*D, with D in _sepcov.
+	double ci = _sepcov(i,0)*_sepcov(i,0)*(1.0+_v(i)*_v(i));
+	double cj = _sepcov(j,0)*_sepcov(j,0)*(1.0+_v(j)*_v(j));
+	return _sepcov(i,0)*_v(i)*_sepcov(j,0)*_v(j)/std::sqrt(ci*cj);
       }
     else // sep 
       {
-- 
2.43.0


From 8d95a36213db51fd02428fb56ab680a1269897f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 43/71] fix: a search started from a solution uses its own
 population size

---
 include/libcmaes/cmasolutions.h |  7 +++++++
 include/libcmaes/esostrategy.h  |  1 +
 src/cmasolutions.cc             | 11 ++++++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index 607d796..2983a64 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -166,6 +166,13 @@ namespace libcmaes
      * Note: experimental.
      */
     void reset();
+
+    /**
+     * \brief sets the number of candidates, and what depends on it.
+     * @param lambda number of candidates
+     * @param max_hist max size of the history, automatic if not positive
+     */
+    void set_population(const int &lambda, const int &max_hist);
     
     /**
      * \brief re-arrange solution object such that parameter 'k' is fixed (i.e. removed).
diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 5bd1aa4..76b0c60 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -156,6 +156,7 @@ namespace libcmaes
       _parameters.set_x0(sol.best_candidate().get_x_dvec());
       _solutions = sol;
       _solutions.reset();
+      _solutions.set_population(_parameters._lambda,_parameters._max_hist);
     }
 
     /**
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 8913ca6..b4f906a 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -72,9 +72,7 @@ namespace libcmaes
     
     _psigma = dVec::Zero(p._dim);
     _pc = dVec::Zero(p._dim);
-    _candidates.resize(p._lambda);
-    _kcand = std::min(p._lambda-1,static_cast<int>(1.0+ceil(0.1+p._lambda/4.0)));
-    _max_hist = (p._max_hist > 0) ? p._max_hist : static_cast<int>(10+ceil(30*p._dim/p._lambda));
+    set_population(p._lambda,p._max_hist);
     
     if (static_cast<CMAParameters<TGenoPheno>&>(p)._vd)
       {
@@ -84,6 +82,13 @@ namespace libcmaes
       }
   }
 
+  void CMASolutions::set_population(const int &lambda, const int &max_hist)
+  {
+    _candidates.resize(lambda);
+    _kcand = std::min(lambda-1,static_cast<int>(1.0+ceil(0.1+lambda/4.0)));
+    _max_hist = (max_hist > 0) ? max_hist : static_cast<int>(10+ceil(30*_xmean.size()/lambda));
+  }
+
   CMASolutions::~CMASolutions()
   {
   }
-- 
2.43.0


From 59bebae4a2cc5ab50250cb0cc11931a1167be99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:58 +0000
Subject: [PATCH 44/71] fix: restarts of a search started from a solution begin
 at that solution's best point when scaling

---
 include/libcmaes/esostrategy.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 76b0c60..0c2aa78 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -153,7 +153,9 @@ namespace libcmaes
      */
     void start_from_solution(const TSolutions &sol)
     {
-      _parameters.set_x0(sol.best_candidate().get_x_dvec());
+      dVec x0; // starting point of later restarts, not scaled yet.
+      _parameters._gp.get_scalingstrategy().scale_to_f(sol.best_candidate().get_x_dvec(),x0);
+      _parameters.set_x0(x0);
       _solutions = sol;
       _solutions.reset();
       _solutions.set_population(_parameters._lambda,_parameters._max_hist);
-- 
2.43.0


From 9da0be347c4ee9e5ffbe4c39e310a84a9379a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:59 +0000
Subject: [PATCH 45/71] fix: training the ranking surrogate does not share its
 random generator among threads

---
 include/libcmaes/surrogates/rankingsvm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogates/rankingsvm.hpp b/include/libcmaes/surrogates/rankingsvm.hpp
index 03e30fb..bca7cce 100644
--- a/include/libcmaes/surrogates/rankingsvm.hpp
+++ b/include/libcmaes/surrogates/rankingsvm.hpp
@@ -258,6 +258,11 @@ class RankingSVM
     // initialization of temporary variables
     dVec sum_alphas = dVec::Zero(_dKij.cols());
     dMat div_dKij = dMat::Zero(_dKij.rows(),_dKij.cols());
+    for (int i=0;i<_dKij.rows();i++) // the random generator is not shared among threads.
+      {
+	double fact = _udist(_rng);
+	_alpha(i) = _C(i) * (0.95 + 0.05*fact);
+      }
 #pragma omp parallel
     {
 #pragma omp for
@@ -267,8 +272,6 @@ class RankingSVM
 	    {
 	      _dKij(i,j) = _K(i,j) - _K(i,j+1) - _K(i+1,j) + _K(i+1,j+1);
 	    }
-	  double fact = _udist(_rng);
-	  _alpha(i) = _C(i) * (0.95 + 0.05*fact);
 	}
 #pragma omp for
       for (int i=0;i<_dKij.rows();i++)
-- 
2.43.0


From 9300ec66458a054e256b905b6dc8fbd4c224aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:43 +0000
Subject: [PATCH 46/71] fix: the simple surrogate strategy trains its model
 before using it

---
 include/libcmaes/surrogatestrategy.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index c119adf..8dd8bc2 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -73,7 +73,7 @@ namespace libcmaes
      * @return training status
      */
     int train(const std::vector<Candidate> &candidates,
-	      const dMat &cov) { return _train(candidates,cov); }
+	      const dMat &cov) { _trained = true; return _train(candidates,cov); }
 
     /**
      * \brief predict from a surrogate model
@@ -182,6 +182,7 @@ namespace libcmaes
     inline void reset_training_set()
     {
       _tset.clear();
+      _trained = false;
       _train_err = _test_err = 0.0;
       _smooth_test_err = 0.5;
     }
@@ -196,6 +197,7 @@ namespace libcmaes
     bool _exploit = true; /**< whether to exploit or test the surrogate. */
     int _l = 200; /**< number of training samples. set to floor(30*sqrt(n)) in constructor. */
     std::vector<Candidate> _tset; /**< current training set. */
+    bool _trained = false; /**< whether the surrogate has been trained. */
     CSurrFunc _train; /**< custom training function. */
     SurrFunc _predict; /**< custom prediction function. */
     double _train_err = 0.0; /**< current surrogate training error. */
@@ -269,7 +271,7 @@ namespace libcmaes
     {
       if (!SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::_exploit && (int)this->_tset.size() >= this->_l)
 	return true;
-      return ((this->_niter == 0 || this->_niter % this->_nsteps == 0) && (int)this->_tset.size() >= this->_l);
+      return ((!this->_trained || this->_niter == 0 || this->_niter % this->_nsteps == 0) && (int)this->_tset.size() >= this->_l);
     }
 
     public:
-- 
2.43.0


From e3b4ecaea926d01167f180de3e21b4e9fa4aa42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:43 +0000
Subject: [PATCH 47/71] fix: the simple surrogate strategy trains with the
 diagonal covariance of diagonal algorithms

---
 src/surrogatestrategy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index cfd677b..1a842af 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -176,8 +176,9 @@ namespace libcmaes
     // train surrogate as required.
     if (do_train())
       {
-	this->train(this->_tset,
-		    eostrat<TGenoPheno>::_solutions._csqinv);
+	if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
+	  this->train(this->_tset,eostrat<TGenoPheno>::_solutions._csqinv);
+	else this->train(this->_tset,eostrat<TGenoPheno>::_solutions._sepcsqinv);
       }
   }
   
-- 
2.43.0


From f5e7683c5ec7b41abbf8975a3e4f0706b61e06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:43 +0000
Subject: [PATCH 48/71] fix: the pre-selection of surrogate searches is
 reproducible from the seed

---
 include/libcmaes/surrogatestrategy.h | 1 -
 src/surrogatestrategy.cc             | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index 8dd8bc2..acba494 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -424,7 +424,6 @@ namespace libcmaes
 
     private:
     // random numbers for selection sampling
-    std::random_device _rd;
     std::normal_distribution<double> _norm_sel0;
     std::normal_distribution<double> _norm_sel1;
     std::mt19937 _gen0;
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 1a842af..595c00f 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -216,8 +216,8 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::init_rd()
   {
-    _gen0 = std::mt19937(_rd());
-    _gen1 = std::mt19937(_rd());
+    _gen0 = std::mt19937(static_cast<std::mt19937::result_type>(eostrat<TGenoPheno>::_parameters._seed));
+    _gen1 = std::mt19937(_gen0());
     _norm_sel0 = std::normal_distribution<double>(0.0,_theta_sel0*_theta_sel0);
     _norm_sel1 = std::normal_distribution<double>(0.0,_theta_sel1*_theta_sel1);
   }
-- 
2.43.0


From aed80405163dc8b2ad025f0b2b50ba24ee39ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:55 +0000
Subject: [PATCH 49/71] fix: the deviations of the surrogate's selection
 sampling take effect when set

---
 include/libcmaes/surrogatestrategy.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index acba494..9ab5bf3 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -396,7 +396,11 @@ namespace libcmaes
      * \brief sets the standard deviation of selection sampling step 0
      * @param s standard deviation
      */
-    void set_theta_sel0(const double &s) { _theta_sel0 = s; }
+    void set_theta_sel0(const double &s)
+    {
+      _theta_sel0 = s;
+      _norm_sel0 = std::normal_distribution<double>(0.0,_theta_sel0*_theta_sel0);
+    }
     
     /**
      * \brief returns the standard deviation of selection sampling step 0
@@ -408,7 +412,11 @@ namespace libcmaes
      * \brief sets the standard deviation of selection sampling step 1
      * @param s standard deviation
      */
-    void set_theta_sel1(const double &s) { _theta_sel1 = s; }
+    void set_theta_sel1(const double &s)
+    {
+      _theta_sel1 = s;
+      _norm_sel1 = std::normal_distribution<double>(0.0,_theta_sel1*_theta_sel1);
+    }
 
     /**
      * \brief returns the standard deviation of selection sampling step 0
-- 
2.43.0


From 22cb44886852387db8a511c31f1fda4db78dbbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 50/71] fix: the simple surrogate strategy trains its model
 after every true generation when the lifelength changes

---
 include/libcmaes/surrogatestrategy.h | 2 +-
 src/surrogatestrategy.cc             | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index 9ab5bf3..0b8c96a 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -197,7 +197,7 @@ namespace libcmaes
     bool _exploit = true; /**< whether to exploit or test the surrogate. */
     int _l = 200; /**< number of training samples. set to floor(30*sqrt(n)) in constructor. */
     std::vector<Candidate> _tset; /**< current training set. */
-    bool _trained = false; /**< whether the surrogate has been trained. */
+    bool _trained = false; /**< whether the surrogate has been trained on the current training set. */
     CSurrFunc _train; /**< custom training function. */
     SurrFunc _predict; /**< custom prediction function. */
     double _train_err = 0.0; /**< current surrogate training error. */
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 595c00f..1f3e34d 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -69,6 +69,7 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::add_to_training_set(const Candidate &c)
   {
+    _trained = false; // not on this point.
     _tset.push_back(c);
     if ((int)_tset.size() > _l)
       _tset.erase(_tset.begin());
-- 
2.43.0


From 5f57a004fe09aed61b93faa8cb6d9600b6c53e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 51/71] fix: the model error on a single point is not NaN

---
 src/surrogatestrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 1f3e34d..1a1ca40 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -80,6 +80,8 @@ namespace libcmaes
 									const dMat &cov)
   {
     double test_set_size = test_set.size();
+    if (test_set_size < 2)
+      return 0.0; // no pair to compare.
     double factor = 2.0 / static_cast<double>((test_set_size*(test_set_size-1)));
     std::vector<Candidate> ctest_set = test_set;
 
-- 
2.43.0


From 63aeab42bdf387d88ea9373be87e9c8a59ad3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 52/71] fix: setting a surrogate lifelength ends its automatic
 determination

---
 include/libcmaes/surrogatestrategy.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index 0b8c96a..92f7637 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -172,8 +172,7 @@ namespace libcmaes
     inline void set_nsteps(const int &nsteps)
     {
       _nsteps = nsteps;
-      if (_nsteps < 0)
-	_auto_nsteps = true;
+      _auto_nsteps = (_nsteps < 0);
     }
 
     /**
-- 
2.43.0


From db79e879c8ee83dc3b02f68566a2d8e6d0317822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:05 +0000
Subject: [PATCH 53/71] fix: the ACM surrogate strategy ranks the generation
 that fills its training set

---
 src/surrogatestrategy.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 1a1ca40..fd1fcbd 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -23,6 +23,7 @@
 #include <libcmaes/ipopcmastrategy.h>
 #include <libcmaes/bipopcmastrategy.h>
 #include <unordered_set>
+#include <algorithm>
 
 namespace libcmaes
 {
@@ -278,8 +279,9 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::tell()
   {
-    if (!this->_exploit || (int)this->_tset.size() < this->_l)
-      eostrat<TGenoPheno>::_solutions.sort_candidates();
+    // rank by value, the order of pre-selected candidates is kept.
+    std::stable_sort(eostrat<TGenoPheno>::_solutions._candidates.begin(),eostrat<TGenoPheno>::_solutions._candidates.end(),
+		     [](Candidate const &c1, Candidate const &c2){return c1.get_fvalue() < c2.get_fvalue();});
     
     // update function value history, as needed.
     eostrat<TGenoPheno>::_solutions.update_best_candidates();
-- 
2.43.0


From f2e5d06714984b2ac0607d1cdec20ad053ede4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:18 +0000
Subject: [PATCH 54/71] fix: optimizing with several fixed dimensions works for
 dimensions in any order

---
 src/errstats.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 45e53d3..aa0d99c 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -233,12 +233,23 @@ namespace libcmaes
   CMASolutions errstats<TGenoPheno>::optimize_vpk(FitFunc &func,
 						  const CMAParameters<TGenoPheno> &parameters,
 						  const CMASolutions &cmasol,
-						  const std::vector<int> &k,
-						  const std::vector<double> &vk,
+						  const std::vector<int> &ik,
+						  const std::vector<double> &ivk,
 						  const dVec &x0,
 						  const bool &pheno_x0,
 						  const bool &pheno_vk)
   {
+    // dimensions are removed and added back in increasing order.
+    std::map<int,double> mvk;
+    for (size_t i=0;i<ik.size();i++)
+      mvk[ik[i]] = ivk[i];
+    std::vector<int> k;
+    std::vector<double> vk;
+    for (auto &p: mvk)
+      {
+	k.push_back(p.first);
+	vk.push_back(p.second);
+      }
     dVec rx0;
     if (!pheno_x0)
       rx0 = parameters.get_gp().pheno(x0);
-- 
2.43.0


From f371b8bf571fe26ed96e6566fa53bb6f4305dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 55/71] fix: optimizing with all dimensions fixed returns that
 point and its value

---
 src/errstats.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index aa0d99c..020dd85 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -274,8 +274,13 @@ namespace libcmaes
       {
 	double fval = func(pvk.data(),pvk.size());
 	CMASolutions rcmasol;
-	rcmasol._candidates.emplace_back(fval,pvk);
-	rcmasol._best_candidates_hist.push_back(cmasol._candidates.at(0));
+	dVec gvk = dVec::Zero(x0.size());
+	for (size_t i=0;i<vk.size();i++)
+	  gvk(k[i]) = vk[i];
+	if (pheno_vk)
+	  gvk = parameters.get_gp().geno(pvk);
+	rcmasol._candidates.emplace_back(fval,gvk); // in genotype
+	rcmasol._best_candidates_hist.push_back(rcmasol._candidates.at(0));
 	rcmasol._nevals++;
 	return rcmasol;
       }
-- 
2.43.0


From 85e1f0e2d255e1159e4309708135393712d335a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 56/71] fix: profile likelihood of objectives with a negative
 minimum

---
 src/errstats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 020dd85..22ae5b2 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -103,7 +103,7 @@ namespace libcmaes
 	      }
 	      return;
 	  }
-	else if (ncitsol.best_candidate().get_fvalue() < 1e-1*minfvalue)
+	else if (ncitsol.best_candidate().get_fvalue() < minfvalue - 0.9*fabs(minfvalue))
 	  {
 	    LOG(ERROR) << "profile likelihood finds new minimum: " << ncitsol.best_candidate().get_fvalue() << std::endl;
 	    // pad and return.
-- 
2.43.0


From 562993736fe27187f468e555b463b6064ddc66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 57/71] fix: profile likelihood of a parameter whose optimum is
 zero takes steps

---
 src/errstats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 22ae5b2..9184521 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -77,7 +77,7 @@ namespace libcmaes
     CMASolutions citsol = cmasol;
     int i = 0;
     int n = 10;
-    double d = sign * xk * 0.1; // adhoc.
+    double d = sign * (xk != 0.0 ? xk : 1.0) * 0.1; // adhoc.
     bool linit = true;
     while(true)
       {
-- 
2.43.0


From 356e5a3e226f9565b6f01b4507a574d185833ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 58/71] fix: profile likelihood of solutions with a diagonal
 covariance

---
 src/errstats.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 9184521..d1dc5c3 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -79,10 +79,13 @@ namespace libcmaes
     int n = 10;
     double d = sign * (xk != 0.0 ? xk : 1.0) * 0.1; // adhoc.
     bool linit = true;
+    dMat eigenve = cmasol.eigenvectors();
+    if (eigenve.rows() != parameters.dim() || eigenve.cols() != parameters.dim() || eigenve(k,k) == 0.0)
+      eigenve = dMat::Identity(parameters.dim(),parameters.dim()); // diagonal covariance, or no step along k.
     while(true)
       {
 	// get a new xk point.
-	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,cmasol.eigenvectors(),d,x);
+	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,eigenve,d,x);
 	linit = false;
 	
 	//debug
-- 
2.43.0


From 1a66ee04222d0f8f94c859f38c103a5519b3d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 59/71] fix: profile likelihood that spends its iterations
 records the last point

---
 src/errstats.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index d1dc5c3..97f82b6 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -154,7 +154,16 @@ namespace libcmaes
 	if (curve && i == samplesize)
 	  break;
 	if (i == maxiters)
-	  break;
+	  {
+	    // pad with the last point.
+	    for (int j=curve?i:0;j<samplesize;j++)
+	      {
+		le._fvaluem[samplesize+sign*(1+j)] = ncitsol.best_candidate().get_fvalue();
+		le._xm.row(samplesize+sign*(1+j)) = phenobx.transpose();
+		le._err[samplesize+sign*(1+j)] = ncitsol._run_status;
+	      }
+	    break;
+	  }
       }
   }
 
-- 
2.43.0


From 6f5b796b69f785091c1730fb0feeb8a71dda5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 60/71] fix: profile likelihoods and contours use the requested
 deviation, not one computed before

---
 src/errstats.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 97f82b6..9b03d16 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -52,7 +52,7 @@ namespace libcmaes
     errstats<TGenoPheno>::profile_likelihood_search(func,parameters,le,cmasol,k,true,samplesize,fup,delta,maxiters,curve);  // negative direction
     
     le.setErrMinMax();
-    cmasol._pls.insert(std::pair<int,pli>(k,le));
+    cmasol._pls[k] = le;
     return le;
   }
 
@@ -365,14 +365,14 @@ namespace libcmaes
     // find first two points.
     int samplesize = 10;
     pli plx,ply;
-    if (!cmasol.get_pli(px,plx))
+    if (!cmasol.get_pli(px,plx) || plx._fup != fup)
       {
 	errstats<TGenoPheno>::profile_likelihood(func,parameters,cmasol,px,false,samplesize,fup,delta,maxiters);
 	cmasol.get_pli(px,plx); // in phenotype
       }
     
     // find second two points.
-    if (!cmasol.get_pli(py,ply))
+    if (!cmasol.get_pli(py,ply) || ply._fup != fup)
       {
 	errstats<TGenoPheno>::profile_likelihood(func,parameters,cmasol,py,false,samplesize,fup,delta,maxiters);
 	cmasol.get_pli(py,ply); // in phenotype
-- 
2.43.0


From 314d52db3d7e8455ca7ffec3a0e4c866218d6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:53 +0000
Subject: [PATCH 61/71] fix: confidence intervals are printed with the status
 of their upper end

---
 src/cmasolutions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index b4f906a..69ec3af 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -274,8 +274,8 @@ namespace libcmaes
 	for (auto it=_pls.begin();it!=_pls.end();++it)
 	  {
 	    out << "dim " << (*it).first << " in [" << (*it).second._min << "," << (*it).second._max << "] with error [" << (*it).second._errmin << "," << (*it).second._errmax << "]";
-	    if ((*it).second._err[(*it).second._minindex] || (*it).second._err[(*it).second._maxindex])
-	      out << " / status=[" << (*it).second._err[(*it).second._minindex] << "," << (*it).second._err[(*it).second._maxindex] << "]";
+	    if ((*it).second._err[(*it).second._minindex] || (*it).second._err[(*it).second._samplesize+1+(*it).second._maxindex])
+	      out << " / status=[" << (*it).second._err[(*it).second._minindex] << "," << (*it).second._err[(*it).second._samplesize+1+(*it).second._maxindex] << "]";
 	    out << " / fvalue=" << "(" << (*it).second._fvaluem((*it).second._minindex) << "," << (*it).second._fvaluem((*it).second._samplesize+1+(*it).second._maxindex) << ")\n";
 	    if (verb_level)
 	      {
-- 
2.43.0


From 58222e67e61f5286febf01b6a11da768f41c5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:39 +0000
Subject: [PATCH 62/71] fix: profile likelihood near a bound ends at the bound
 instead of wrapping around

---
 include/libcmaes/errstats.h | 13 +++++++++++++
 src/errstats.cc             | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/errstats.h b/include/libcmaes/errstats.h
index cdc8b1b..408db66 100644
--- a/include/libcmaes/errstats.h
+++ b/include/libcmaes/errstats.h
@@ -98,6 +98,7 @@ namespace libcmaes
      * @param delta tolerance around fvalue + fup for which to compute the profile likelihood
      * @param linit whether this is the first linesearch call
      * @param eigenve eigenvectors
+     * @param gbounds range of parameter k, in genotype
      * @param d step
      * @param x vector on the line
      */
@@ -110,9 +111,21 @@ namespace libcmaes
 				 const int &n,
 				 const bool &linit,
 				 const dMat &eigenve,
+				 const std::pair<double,double> &gbounds,
 				 double &d,
 				 dVec &x);
 
+    /**
+     * \brief range of parameter k, in genotype, within which its phenotype goes from one bound to the other
+     * @param parameters stochastic search parameters
+     * @param k dimension
+     * @param x vector on the line
+     * @return range, infinite without bounds
+     */
+    static std::pair<double,double> geno_bounds(const CMAParameters<TGenoPheno> &parameters,
+						const int &k,
+						const dVec &x);
+
     public:
     /**
      * \brief optimizes an objective function while fixing the value of parameters in several dimensions
diff --git a/src/errstats.cc b/src/errstats.cc
index 9b03d16..1053513 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -82,10 +82,15 @@ namespace libcmaes
     dMat eigenve = cmasol.eigenvectors();
     if (eigenve.rows() != parameters.dim() || eigenve.cols() != parameters.dim() || eigenve(k,k) == 0.0)
       eigenve = dMat::Identity(parameters.dim(),parameters.dim()); // diagonal covariance, or no step along k.
+    std::pair<double,double> gbounds = errstats<TGenoPheno>::geno_bounds(parameters,k,x);
+    if (x[k] < gbounds.first || x[k] > gbounds.second)
+      x[k] = parameters._gp.geno(parameters._gp.pheno(x))[k];
     while(true)
       {
 	// get a new xk point.
-	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,eigenve,d,x);
+	double pxk = x[k];
+	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,eigenve,gbounds,d,x);
+	bool atbound = (x[k] == pxk && (pxk == gbounds.first || pxk == gbounds.second));
 	linit = false;
 	
 	//debug
@@ -139,7 +144,7 @@ namespace libcmaes
 	//std::cerr << "iterend=" << iterend << " / nminfvalue=" << nminfvalue << std::endl;
 	//debug
 	
-	if (!curve && iterend)
+	if (!curve && (iterend || atbound))
 	  {
 	    // pad and return.
 	    for (int j=0;j<samplesize;j++)
@@ -167,6 +172,24 @@ namespace libcmaes
       }
   }
 
+  template <class TGenoPheno>
+  std::pair<double,double> errstats<TGenoPheno>::geno_bounds(const CMAParameters<TGenoPheno> &parameters,
+							     const int &k,
+							     const dVec &x)
+  {
+    const double inf = std::numeric_limits<double>::max();
+    double lb = parameters._gp.get_boundstrategy().getPhenoLBound(k);
+    double ub = parameters._gp.get_boundstrategy().getPhenoUBound(k);
+    if (lb == -inf || ub == inf)
+      return std::pair<double,double>(-inf,inf);
+    dVec phenox = parameters._gp.pheno(x);
+    phenox[k] = lb;
+    double glb = parameters._gp.geno(phenox)[k];
+    phenox[k] = ub;
+    double gub = parameters._gp.geno(phenox)[k];
+    return std::minmax(glb,gub);
+  }
+
   template <class TGenoPheno>
   void errstats<TGenoPheno>::take_linear_step(FitFunc &func,
 					      const CMAParameters<TGenoPheno> &parameters,
@@ -177,6 +200,7 @@ namespace libcmaes
 					      const int &n,
 					      const bool &linit,
 					      const dMat &eigenve,
+					      const std::pair<double,double> &gbounds,
 					      double &d,
 					      dVec &x)
   {
@@ -204,6 +228,7 @@ namespace libcmaes
 	    d /= 2.0;
 	    dv[k] = d;
 	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    xtmp[k] = std::max(gbounds.first,std::min(gbounds.second,xtmp[k]));
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
@@ -226,6 +251,7 @@ namespace libcmaes
 	    d *= 2.0;
 	    dv[k] = d;
 	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    xtmp[k] = std::max(gbounds.first,std::min(gbounds.second,xtmp[k]));
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
@@ -234,6 +260,8 @@ namespace libcmaes
 	    //std::cerr << "xtmpk=" << xtmp[k] << " / fvalue=" << fvalue << " / fdiff=" << fdiff << " / dxk=" << d << std::endl;
 	    //debug
 
+	    if (xtmp[k] == gbounds.first || xtmp[k] == gbounds.second)
+	      break;
 	    if (!linit) // first pass must reach above threshold.
 	      --i;
 	  }
-- 
2.43.0


From 4837928abc95fce783d651badcbce2e3efcfad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:10 +0000
Subject: [PATCH 63/71] fix: contour.h can be included in several units of a
 program

---
 include/libcmaes/contour.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/contour.h b/include/libcmaes/contour.h
index 19f4753..caea115 100644
--- a/include/libcmaes/contour.h
+++ b/include/libcmaes/contour.h
@@ -85,7 +85,7 @@ namespace libcmaes
     std::vector<std::pair<double,double>> _points;
   };
 
-  std::ostream& operator<<(std::ostream &out, const contour &c)
+  inline std::ostream& operator<<(std::ostream &out, const contour &c)
     {
       c.print(out);
       return out;
-- 
2.43.0


From 2b0f11dbfe54c26d23dd332e08864e4e81cf2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:33 +0000
Subject: [PATCH 64/71] fix: profile likelihood steps back from a bound by the
 step it took

---
 src/errstats.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 1053513..b5757c8 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -261,7 +261,10 @@ namespace libcmaes
 	    //debug
 
 	    if (xtmp[k] == gbounds.first || xtmp[k] == gbounds.second)
-	      break;
+	      {
+		d = (xtmp[k] - x[k]) / eigenve(k,k); // step actually taken.
+		break;
+	      }
 	    if (!linit) // first pass must reach above threshold.
 	      --i;
 	  }
-- 
2.43.0


From 090592f5007f03410de09bdfb3dfcbffd3c4aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:04 +0000
Subject: [PATCH 65/71] fix: contours do not leave the bounds looking for a
 crossing point

---
 src/errstats.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index b5757c8..0ca7642 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -537,7 +537,15 @@ namespace libcmaes
     int nfcn = 0;
     unsigned int maxitr = 15, ipt = 0;
     dVec nx;
-
+    auto inbounds = [&parameters,&par](const std::vector<double> &p) // no crossing point is looked for beyond bounds.
+      {
+	for (size_t i=0;i<par.size();i++)
+	  if (p[i] < parameters._gp.get_boundstrategy().getPhenoLBound(par[i])
+	      || p[i] > parameters._gp.get_boundstrategy().getPhenoUBound(par[i]))
+	    return false;
+	return true;
+      };
+    
     //debug
     //std::cout << "aminsv=" << aminsv << " / aim=" << aim << " / tla=" << tla << " / tlf=" << tlf << std::endl;
     //debug
@@ -562,6 +570,8 @@ namespace libcmaes
     else if (aopt < -0.5)
       aopt = 0.5;
     std::vector<double> pmiddir2 = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
+    if (!inbounds(pmiddir2))
+      return fcross();
     CMASolutions cmasol2 = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmiddir2,parameters.get_x0min());
     alsb[1] = aopt;
     flsb[1] = cmasol2.best_candidate().get_fvalue();
@@ -591,6 +601,8 @@ namespace libcmaes
 	    flsb[0] = flsb[1];
 	    aopt = alsb[0] + 0.2*(it+1);
 	    std::vector<double> pmidt = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
+	    if (!inbounds(pmidt))
+	      return fcross();
 	    CMASolutions cmasolt = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmidt,parameters.get_x0min());
 	    alsb[1] = aopt;
 	    flsb[1] = cmasolt.best_candidate().get_fvalue();
@@ -631,6 +643,8 @@ namespace libcmaes
 
     // get third point.
     std::vector<double> pmiddir3 = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
+    if (!inbounds(pmiddir3))
+      return fcross();
     CMASolutions cmasol3 = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmiddir3,parameters.get_x0min());
     alsb[2] = aopt;
     flsb[2] = cmasol3.best_candidate().get_fvalue();
@@ -728,6 +742,8 @@ namespace libcmaes
 	    //debug
 	    
 	    std::vector<double> vxk = {xstart(par[0]),xstart(par[1])};
+	    if (!inbounds(vxk))
+	      break;
 	    CMASolutions ncitsol = errstats<TGenoPheno>::optimize_vpk(func,parameters,citsol,par,vxk,parameters.get_x0min());
 	    if (ncitsol._run_status < 0)
 	      {
-- 
2.43.0


From de470b291a3e5c6fe4412cc407cb57af724d0e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:25 +0000
Subject: [PATCH 66/71] fix: Python get_solution_sepcov returns the diagonal
 covariance

---
 python/lcmaes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index cd1953b..06e7f64 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -130,7 +130,7 @@ PyObject* get_solution_sepcov_py(const CMASolutions &s)
 
 boost::python::object get_solution_sepcov(const CMASolutions &s)
 {
-  PyObject *pobj = get_solution_cov_py(s);
+  PyObject *pobj = get_solution_sepcov_py(s);
   boost::python::object boostobj(boost::python::handle<>((PyObject*)pobj));
   return boostobj;
 }
-- 
2.43.0


From e93af6031920106c00d736f542a3a0d6909aefe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:25 +0000
Subject: [PATCH 67/71] fix: Python covariance arrays own their data and have
 the covariance's size

---
 python/lcmaes.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index 06e7f64..c6fd59e 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -109,8 +109,9 @@ boost::python::list get_best_candidate_pheno(const CMASolutions &s,
 
 PyObject* get_solution_cov_py(const CMASolutions &s)
 {
-  npy_intp shape[2] = {s.dim(),s.dim()};
-  PyObject* pyArray = PyArray_SimpleNewFromData(2, shape, NPY_DOUBLE, (double*)s.cov_data());
+  npy_intp shape[2] = {s.cov_ref().rows(),s.cov_ref().cols()};
+  PyObject* pyArray = PyArray_SimpleNew(2, shape, NPY_DOUBLE); // the array outlives the solution
+  std::copy(s.cov_data(),s.cov_data()+s.cov_ref().size(),(double*)PyArray_DATA((PyArrayObject*)pyArray));
   return pyArray;
 }
 
@@ -123,8 +124,9 @@ boost::python::object get_solution_cov(const CMASolutions &s)
 
 PyObject* get_solution_sepcov_py(const CMASolutions &s)
 {
-  npy_intp shape[1] = {s.dim()};
-  PyObject* pyArray = PyArray_SimpleNewFromData(1, shape, NPY_DOUBLE, (double*)s.sepcov_data());
+  npy_intp shape[1] = {s.sepcov_ref().size()};
+  PyObject* pyArray = PyArray_SimpleNew(1, shape, NPY_DOUBLE); // the array outlives the solution
+  std::copy(s.sepcov_data(),s.sepcov_data()+s.sepcov_ref().size(),(double*)PyArray_DATA((PyArrayObject*)pyArray));
   return pyArray;
 }
 
-- 
2.43.0


From 88eb004c9fc4ea7c526958813ae3920ebefe95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:25 +0000
Subject: [PATCH 68/71] fix: Python CMASolutions.eigenvalues() returns a list
 instead of raising

---
 python/lcmaes.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index c6fd59e..c7c9dd1 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -89,6 +89,14 @@ boost::python::list get_solution_xmean(const CMASolutions &s)
   return xmean;
 }
 
+boost::python::list get_solution_eigenvalues(const CMASolutions &s)
+{
+  boost::python::list eigenvalues;
+  for (int i=0;i<s.eigenvalues().size();i++)
+    eigenvalues.append(s.eigenvalues()(i));
+  return eigenvalues;
+}
+
 boost::python::list get_candidate_x(const Candidate &c)
 {
   boost::python::list x;
@@ -436,7 +444,7 @@ BOOST_PYTHON_MODULE(lcmaes)
     .def("edm",&CMASolutions::edm,"returns the expected distance to minimum, if computed (see set_edm() in CMAParameters)")
     .def("sigma",&CMASolutions::sigma,"returns current value of step-size sigma")
     .def("fevals",&CMASolutions::fevals,"returns current number of objective function evaluations")
-    .def("eigenvalues",&CMASolutions::eigenvalues,"returns a vector of last computed eigenvalues")
+    .def("eigenvalues",get_solution_eigenvalues,"returns a vector of last computed eigenvalues")
     .def("min_eigenv",&CMASolutions::min_eigenv,"returns current min eigen value")
     .def("max_eigenv",&CMASolutions::max_eigenv,"returns current max eigen value")
     .def("run_status",&CMASolutions::run_status,"returns current optimization status code")
-- 
2.43.0


From 75bf1a5cb82b9921a6103cf2a6c7fc718f4e30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:25 +0000
Subject: [PATCH 69/71] fix: lcmaes_interface makes parameters with linear
 scaling

---
 python/lcmaes_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lcmaes_interface.py b/python/lcmaes_interface.py
index 614cab5..644d7d4 100644
--- a/python/lcmaes_interface.py
+++ b/python/lcmaes_interface.py
@@ -48,7 +48,7 @@ def to_params(x0, sigma0, str_algo=b'acmaes', fplot=None, lbounds=None, ubounds=
             p = lcmaes.make_simple_parameters(x0, sigma0)
         else:
             gp = lcmaes.make_genopheno_ls(vscaling,vshift)
-            p = lcmaes.make_parameters_ls(x0,sigma0,gp)
+            p = lcmaes.make_parameters_ls(x0,sigma0,gp,-1,0)
     p.set_str_algo(str_algo)
     if fplot and fplot != True:  # then fplot must be filename
         global fplot_current
-- 
2.43.0


From b0ce1f4cb577adbf5b0ccf74e9f829ce5349f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:06 +0000
Subject: [PATCH 70/71] fix: an exception of the objective function reaches the
 caller in OpenMP builds

---
 src/esostrategy.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 9534f76..4c6256e 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -92,8 +92,7 @@ namespace libcmaes
     std::chrono::time_point<std::chrono::system_clock> tstart = std::chrono::system_clock::now();
 #endif
     // one candidate per row.
-#pragma omp parallel for if (_parameters._mt_feval)
-    for (int r=0;r<candidates.cols();r++)
+    auto eval_candidate = [&](const int r)
       {
 	_solutions._candidates.at(r).set_x(candidates.col(r));
 	_solutions._candidates.at(r).set_id(r);
@@ -102,6 +101,17 @@ namespace libcmaes
 	else _solutions._candidates.at(r).set_fvalue(_func(candidates.col(r).data(),candidates.rows()));
 	
 	//std::cerr << "candidate x: " << _solutions._candidates.at(r)._x.transpose() << std::endl;
+      };
+    if (_parameters._mt_feval)
+      {
+#pragma omp parallel for
+	for (int r=0;r<candidates.cols();r++)
+	  eval_candidate(r);
+      }
+    else // outside of any parallel region, that exceptions of the objective function could not leave.
+      {
+	for (int r=0;r<candidates.cols();r++)
+	  eval_candidate(r);
       }
     int nfcalls = candidates.cols();
     
@@ -191,13 +201,12 @@ namespace libcmaes
     dVec epsilon = 1e-8 * (dVec::Constant(_parameters._dim,1.0) + x.cwiseAbs());
     double fx = _func(x.data(),_parameters._dim);
     const auto boundstrategy = _parameters._gp.get_boundstrategy();
-#pragma omp parallel for if (_parameters._mt_feval)
-    for (int i=0;i<_parameters._dim;i++)
+    auto grad_coordinate = [&](const int i)
       {
 	if (_parameters._fixed_p.find(i) != _parameters._fixed_p.end())
 	  {
 	    vgradf(i,0) = 0.0; // fixed parameters do not move.
-	    continue;
+	    return;
 	  }
 	// forward difference, backward when it would leave the bounds in phenotype space.
 	double lb = boundstrategy.getPhenoLBound(i);
@@ -207,6 +216,17 @@ namespace libcmaes
 	ei1(i,0) = std::min(std::max(x(i) + step,lb),ub);
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/step;
 	vgradf(i,0) = gradi;
+      };
+    if (_parameters._mt_feval)
+      {
+#pragma omp parallel for
+	for (int i=0;i<_parameters._dim;i++)
+	  grad_coordinate(i);
+      }
+    else
+      {
+	for (int i=0;i<_parameters._dim;i++)
+	  grad_coordinate(i);
       }
     update_fevals(_parameters._dim-_parameters._fixed_p.size()+1); // numerical gradient increases the budget.
     return vgradf;
-- 
2.43.0


From 5cfb72ee2cbb4132d0e338a3fb26bd7299482fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:54 +0000
Subject: [PATCH 71/71] fix: elitist reinjection needs a reference point (none
 exists when stepping by hand)

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 4c6256e..3f9aeb2 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -140,7 +140,7 @@ namespace libcmaes
 	  }
 
 	// reinject intial solution if half or more points have value above that of the initial point candidate.
-	int count = 0;
+	int count = ref_candidate.get_x_size() ? 0 : candidates.cols(); // no initial point was evaluated when stepping by hand.
 	for (int r=0;r<candidates.cols();r++)
 	  {
 	    if (_solutions._candidates.at(r).get_fvalue() < ref_fvalue)
-- 
2.43.0

