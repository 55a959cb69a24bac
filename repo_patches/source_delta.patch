From 613997a15a589760b83c6bf674d38c28d23f9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 01/50] fix: BOptimizer ignored its last template argument when
 acquiopt was given earlier

---
 src/limbo/bayes_opt/bo_base.hpp    | 5 ++++-
 src/limbo/bayes_opt/boptimizer.hpp | 2 --
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index f87bece..0c4bcbf 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -115,6 +115,8 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
+    // not used by BoBase itself, but BoBase needs to know about it because it receives the arguments of BOptimizer
+    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
     namespace bayes_opt {
 
@@ -122,7 +124,8 @@ namespace limbo {
             boost::parameter::optional<tag::initfun>,
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
-            boost::parameter::optional<tag::modelfun>>;
+            boost::parameter::optional<tag::modelfun>,
+            boost::parameter::optional<tag::acquiopt>>;
 
         // clang-format off
         template <class Params,
diff --git a/src/limbo/bayes_opt/boptimizer.hpp b/src/limbo/bayes_opt/boptimizer.hpp
index 4860d02..3733fd1 100644
--- a/src/limbo/bayes_opt/boptimizer.hpp
+++ b/src/limbo/bayes_opt/boptimizer.hpp
@@ -72,8 +72,6 @@ namespace limbo {
         };
     }
 
-    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
-
     namespace bayes_opt {
 
         using boptimizer_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
-- 
2.43.0


From 490de93a82d7da420b72647e2232cebe7ec5e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 02/50] fix: GP::load without recompute left the mean vector
 and the inverse kernel of the previous data

---
 src/limbo/model/gp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index 3bfa4db..ef8d433 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -507,6 +507,8 @@ namespace limbo {
                 else {
                     archive.load(_matrixL, "matrixL");
                     archive.load(_alpha, "alpha");
+                    this->_compute_obs_mean();
+                    _inv_kernel_updated = false;
                 }
             }
 
-- 
2.43.0


From 0310570ccdb422df857e084cbd9d343a579b86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 03/50] fix: MultiGP::recompute with a new mean but the same
 kernel kept the old predictions

---
 src/limbo/model/multi_gp.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 22bf26e..236619b 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -257,12 +257,15 @@ namespace limbo {
                 if (_gp_models.size() == 0)
                     return;
 
-                if (update_obs_mean) // if the mean is updated, we need to fully re-compute
-                    return compute(_gp_models[0].samples(), _observations, update_full_kernel);
-                else
-                    limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
-                        _gp_models[i].recompute(false, update_full_kernel);
-                    });
+                if (update_obs_mean) { // if the mean is updated, we need to fully re-compute
+                    compute(_gp_models[0].samples(), _observations, update_full_kernel);
+                    if (update_full_kernel)
+                        return;
+                }
+
+                limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
+                    _gp_models[i].recompute(false, update_full_kernel);
+                });
             }
 
             /// return the list of samples
-- 
2.43.0


From eca2f165d0a40189a50a08c8b05d71d4edf99332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 04/50] fix: GP_UCB was NaN everywhere at the first iteration

---
 src/limbo/acqui/gp_ucb.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/limbo/acqui/gp_ucb.hpp b/src/limbo/acqui/gp_ucb.hpp
index 2c10f50..b3ad401 100644
--- a/src/limbo/acqui/gp_ucb.hpp
+++ b/src/limbo/acqui/gp_ucb.hpp
@@ -46,6 +46,9 @@
 #ifndef LIMBO_ACQUI_GP_UCB_HPP
 #define LIMBO_ACQUI_GP_UCB_HPP
 
+#include <algorithm>
+#include <cmath>
+
 #include <Eigen/Core>
 
 #include <limbo/opt/optimizer.hpp>
@@ -82,7 +85,8 @@ namespace limbo {
         public:
             GP_UCB(const Model& model, int iteration) : _model(model)
             {
-                double nt = std::pow(iteration, dim_in() / 2.0 + 2.0);
+                // the bound is not defined for n = 0 (first iteration)
+                double nt = std::pow(std::max(iteration, 1), dim_in() / 2.0 + 2.0);
                 static constexpr double delta3 = Params::acqui_gpucb::delta() * 3;
                 static constexpr double pi2 = M_PI * M_PI;
                 _beta = std::sqrt(2.0 * std::log(nt * pi2 / delta3));
-- 
2.43.0


From 0cb9c9782955ad67905568444e65f2c77df1f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 05/50] fix: GridSearch could evaluate and return points
 outside of [0, 1]

---
 src/limbo/opt/grid_search.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 346568b..057a895 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -84,13 +84,13 @@ namespace limbo {
             Eigen::VectorXd _inner_search(const F& f, size_t depth, const Eigen::VectorXd& current) const
             {
                 size_t dim = current.size();
-                double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
-                double upper_lim = 1.0 + step_size;
+                int bins = Params::opt_gridsearch::bins();
                 double best_fit = -std::numeric_limits<double>::max();
                 Eigen::VectorXd current_result(dim);
-                for (double x = 0; x < upper_lim; x += step_size) {
+                // do not accumulate the step: the rounding errors can add a point outside of [0, 1]
+                for (int i = 0; i <= bins; i++) {
                     Eigen::VectorXd new_point = current;
-                    new_point[depth] = x;
+                    new_point[depth] = i / (double)bins;
                     double val;
                     if (depth == dim - 1) {
                         val = eval(f, new_point);
-- 
2.43.0


From 424a22702cacf0845c26a25397ca942934c01968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 06/50] fix: GridSampling dropped the last points of the grid
 for some numbers of bins

---
 src/limbo/init/grid_sampling.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/limbo/init/grid_sampling.hpp b/src/limbo/init/grid_sampling.hpp
index 6e184f9..ce6c662 100644
--- a/src/limbo/init/grid_sampling.hpp
+++ b/src/limbo/init/grid_sampling.hpp
@@ -80,9 +80,10 @@ namespace limbo {
             void _explore(int dim_in, const StateFunction& seval, const Eigen::VectorXd& current,
                 Opt& opt) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::init_gridsampling::bins()) {
+                // do not accumulate the step: the rounding errors can drop the last point
+                for (int i = 0; i <= Params::init_gridsampling::bins(); i++) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)Params::init_gridsampling::bins();
                     if (dim_in == current.size() - 1) {
                         opt.eval_and_add(seval, point);
                     }
-- 
2.43.0


From a63c634393b3aaaad2bee9bf16b3a56eac550339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 07/50] fix: stat::GP dropped the last points of the grid for
 some numbers of bins

---
 src/limbo/stat/gp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/limbo/stat/gp.hpp b/src/limbo/stat/gp.hpp
index b952dab..0a1cfa4 100644
--- a/src/limbo/stat/gp.hpp
+++ b/src/limbo/stat/gp.hpp
@@ -76,9 +76,10 @@ namespace limbo {
                 const BO& bo, const AggregatorFunction& afun,
                 const Eigen::VectorXd& current) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::stat_gp::bins()) {
+                // do not accumulate the step: the rounding errors can drop the last point
+                for (int i = 0; i <= Params::stat_gp::bins(); i++) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)Params::stat_gp::bins();
                     if (dim_in == current.size() - 1) {
                         auto q = bo.model().query(point);
                         double acqui = opt::fun(typename BO::acquisition_function_t(bo.model(), bo.current_iteration())(point, afun, false));
-- 
2.43.0


From 9880222a72a9b031828fd1e31dbaffc080f1f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 08/50] fix: the NLOpt wrappers returned the initial point
 unchanged when it was out of the bounds

---
 src/limbo/opt/nlopt_base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 7dc89cf..66f73bf 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,7 @@
 #else
 #include <Eigen/Core>
 
+#include <algorithm>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -86,6 +87,9 @@ namespace limbo {
                 Eigen::VectorXd::Map(&x[0], dim) = init;
 
                 if (bounded) {
+                    // NLOpt refuses to start from a point that is out of the bounds
+                    for (int i = 0; i < dim; i++)
+                        x[i] = std::min(std::max(x[i], 0.), 1.);
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
                 }
-- 
2.43.0


From ac01fa52d7e1a2d5557988f5b44b8bfd8008b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 09/50] fix: BinaryArchive used an uninitialized size when a
 file is missing

---
 src/limbo/serialize/binary_archive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/serialize/binary_archive.hpp b/src/limbo/serialize/binary_archive.hpp
index b87b41a..8ecdbcb 100644
--- a/src/limbo/serialize/binary_archive.hpp
+++ b/src/limbo/serialize/binary_archive.hpp
@@ -110,7 +110,7 @@ namespace limbo {
 
                 std::ifstream in(fname(object_name).c_str(), std::ios::in | std::ios::binary);
 
-                int size;
+                int size = 0;
                 in.read((char*)(&size), sizeof(int));
 
                 for (int i = 0; i < size; i++) {
-- 
2.43.0


From d752b9e40d0857c0f6f8fb06ab7cf0fb6238cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 10/50] fix: TextArchive could not load what it saved when it
 contains denormal numbers

---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 19d01f2..bdf7e9d 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -47,6 +47,7 @@
 #define LIMBO_SERIALIZE_TEXT_ARCHIVE_HPP
 
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -142,7 +143,7 @@ namespace limbo {
                     std::string cell;
                     std::vector<double> line;
                     while (std::getline(line_stream, cell, ' '))
-                        line.push_back(std::stod(cell));
+                        line.push_back(std::strtod(cell.c_str(), nullptr)); // std::stod throws on denormal numbers
                     v.push_back(line);
                 }
                 assert(!v.empty() && "empty file");
-- 
2.43.0


From 862887e03f2864540341f74eb8794e0cdd2fe54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 11/50] fix: the current iteration was uninitialized before the
 first call to optimize

---
 src/limbo/bayes_opt/bo_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index 0c4bcbf..a9f2457 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -205,7 +205,7 @@ namespace limbo {
             using stat_t = typename boost::mpl::if_<boost::fusion::traits::is_sequence<Stat>, Stat, boost::fusion::vector<Stat>>::type;
 
             /// default constructor
-            BoBase() : _total_iterations(0) { _make_res_dir(); }
+            BoBase() : _current_iteration(0), _total_iterations(0) { _make_res_dir(); }
 
             /// copy is disabled (dangerous and useless)
             BoBase(const BoBase& other) = delete;
-- 
2.43.0


From fc91e6fa7eb36988ac8f3014a941aca5b76fc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 12/50] fix: SPGP used an integer division in its likelihood

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 7c30585..5cf814c 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -488,7 +488,7 @@ namespace limbo {
                 Eigen::MatrixXd bet = invLmV * y;
 
                 // Calculate likelihood
-                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - _m) / 2 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
+                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + 0.5 * (n - (int)_m) * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
 
                 if (!eval_grad) {
                     if (inverse)
-- 
2.43.0


From 99feae01afaf351f8a8cd409699b25fb44de229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 13/50] fix: CBOptimizer gave a stale observation to its models
 instead of the new one

---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 3a9d620..1d6b62c 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -178,6 +178,7 @@ namespace limbo {
 
                         this->_update_stats(*this, afun);
 
+                        _split_observations();
                         _model.add_sample(this->_samples.back(), _obs[0].back());
                         if (_nb_constraints > 0)
                             _constraint_model.add_sample(this->_samples.back(), _obs[1].back());
-- 
2.43.0


From b569e8ed00d99af3c13952fa019f18934bd310f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 14/50] fix: CBOptimizer::best_sample returned another sample
 when some were infeasible, and failed without constraints

---
 .../experimental/bayes_opt/cboptimizer.hpp    | 37 ++++++++-----------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 1d6b62c..0528653 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -202,14 +202,7 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return _obs[0][std::distance(rewards.begin(), max_e)];
+                    return _obs[0][_best_index(afun)];
                 }
 
                 /// return the best sample so far (i.e. the argmax(f(x)))
@@ -219,14 +212,7 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return this->_samples[std::distance(rewards.begin(), max_e)];
+                    return this->_samples[_best_index(afun)];
                 }
 
                 const model_t& model() const { return _model; } // returns model for the objective function
@@ -238,15 +224,24 @@ namespace limbo {
                 mutable size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
-                std::vector<Eigen::VectorXd> _feasible_observations() const
+                // index of the best feasible observation (of the best observation if none is feasible)
+                template <typename AggregatorFunction>
+                size_t _best_index(const AggregatorFunction& afun) const
                 {
-                    std::vector<Eigen::VectorXd> feasible_obs;
+                    std::vector<size_t> candidates;
                     for (size_t i = 0; i < _obs[0].size(); ++i) {
-                        if (_obs[1][i].prod() > 0)
-                            feasible_obs.push_back(_obs[0][i]);
+                        if (_nb_constraints == 0 || _obs[1][i].prod() > 0)
+                            candidates.push_back(i);
+                    }
+                    if (candidates.empty()) {
+                        for (size_t i = 0; i < _obs[0].size(); ++i)
+                            candidates.push_back(i);
                     }
 
-                    return feasible_obs;
+                    auto rewards = std::vector<double>(candidates.size());
+                    std::transform(candidates.begin(), candidates.end(), rewards.begin(), [&](size_t i) { return afun(_obs[0][i]); });
+                    auto max_e = std::max_element(rewards.begin(), rewards.end());
+                    return candidates[std::distance(rewards.begin(), max_e)];
                 }
 
                 void _split_observations() const
-- 
2.43.0


From 333938a99d7e7cb30d37905b7ff133c4225100fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 15/50] fix: stat::GPLikelihood did not compile and never
 computed the likelihood

---
 src/limbo/stat/gp_likelihood.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index c60dcd2..8863ffe 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,8 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_lik() << std::endl;
+                auto model = bo.model(); // computing the likelihood modifies the model
+                (*this->_log_file) << bo.total_iterations() << " " << model.compute_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From 210f706bdd9118c499d50c06b5531133bfca6ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 16/50] fix: MultiGP::add_sample did not update the previous
 observations when the mean depends on the data

---
 src/limbo/model/multi_gp.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 236619b..6f19720 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -171,6 +171,17 @@ namespace limbo {
 
                 limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                     _gp_models[i].add_sample(sample, limbo::tools::make_vector(observation[i] - mean_vector[i]));
+
+                    // the mean function may depend on the data (e.g., mean::Data): update the previous observations,
+                    // without recomputing the kernel (this is not possible if the GP dropped some of the samples)
+                    if (_gp_models[i].samples().size() == _observations.size()) {
+                        std::vector<Eigen::VectorXd> samples = _gp_models[i].samples();
+                        std::vector<Eigen::VectorXd> obs;
+                        for (size_t j = 0; j < _observations.size(); j++)
+                            obs.push_back(limbo::tools::make_vector(_observations[j][i] - _mean_function(samples[j], *this)[i]));
+                        _gp_models[i].compute(samples, obs, false);
+                        _gp_models[i].recompute(false, false);
+                    }
                 });
             }
 
-- 
2.43.0


From e89f4f282e0d9db716eacfd313ddfc0f466adfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:27 +0000
Subject: [PATCH 17/50] fix: SparsifiedGP read past its neighbors when a sample
 has more dimensions than neighbors

---
 src/limbo/model/sparsified_gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 7538fcc..9fbeff6 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -125,6 +125,9 @@ namespace limbo {
             /// the (pre)computed distance between the ith and the jth samples
             int _get_most_dense_point(int D, int N, const Eigen::MatrixXd& distances) const
             {
+                /// a sample has no more than N - 1 neighbors
+                D = std::min(D, N - 1);
+
                 std::mutex update_mutex;
                 double min_dist = std::numeric_limits<double>::max();
                 int denser = -1;
-- 
2.43.0


From fd5e8e0576cfc8bd6c2f180d3d0e18cd3d416ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:46 +0000
Subject: [PATCH 18/50] fix: GridSearch returned an uninitialized point when no
 value is better than -DBL_MAX

---
 src/limbo/opt/grid_search.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 057a895..82dfd31 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -86,7 +86,8 @@ namespace limbo {
                 size_t dim = current.size();
                 int bins = Params::opt_gridsearch::bins();
                 double best_fit = -std::numeric_limits<double>::max();
-                Eigen::VectorXd current_result(dim);
+                // a valid point, even if nothing is better than best_fit (e.g., only -inf or nan)
+                Eigen::VectorXd current_result = current;
                 // do not accumulate the step: the rounding errors can add a point outside of [0, 1]
                 for (int i = 0; i <= bins; i++) {
                     Eigen::VectorXd new_point = current;
-- 
2.43.0


From 2c215c507205186caf0ae5b6c68d84e31f3c3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:46 +0000
Subject: [PATCH 19/50] fix: ParallelRepeater ignored the results with a value
 lower than -FLT_MAX

---
 src/limbo/opt/parallel_repeater.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/opt/parallel_repeater.hpp b/src/limbo/opt/parallel_repeater.hpp
index a3eebf8..508113b 100644
--- a/src/limbo/opt/parallel_repeater.hpp
+++ b/src/limbo/opt/parallel_repeater.hpp
@@ -99,7 +99,7 @@ namespace limbo {
                     // clang-format on
                 };
 
-                pair_t init_v = std::make_pair(init, -std::numeric_limits<float>::max());
+                pair_t init_v = std::make_pair(init, -std::numeric_limits<double>::infinity());
                 auto m = tools::par::max(init_v, Params::opt_parallelrepeater::repeats(), body, comp);
 
                 return m.first;
-- 
2.43.0


From 502f5bfa15ddb89c5f063fd4fc72d36e03dc6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:46 +0000
Subject: [PATCH 20/50] fix: Rprop stopped before convergence when a component
 of the gradient changes sign

---
 src/limbo/opt/rprop.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/rprop.hpp b/src/limbo/opt/rprop.hpp
index cb67730..9e10051 100644
--- a/src/limbo/opt/rprop.hpp
+++ b/src/limbo/opt/rprop.hpp
@@ -117,6 +117,8 @@ namespace limbo {
                         best_params = params;
                     }
                     Eigen::VectorXd grad = -opt::grad(perf);
+                    // the components that change sign are set to 0 below, but do not mean convergence
+                    double grad_norm = grad.norm();
                     grad_old = grad_old.cwiseProduct(grad);
 
                     for (int j = 0; j < grad_old.size(); ++j) {
@@ -136,7 +138,7 @@ namespace limbo {
                     }
 
                     grad_old = grad;
-                    if (grad_old.norm() < eps_stop)
+                    if (grad_norm < eps_stop)
                         break;
                 }
 
-- 
2.43.0


From d322561b9e5658d9f46189bfed45db3a8cf4aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:19 +0000
Subject: [PATCH 21/50] fix: EI and ECI can be evaluated by several threads at
 once (data race on the cached maximum)

---
 src/limbo/acqui/ei.hpp               | 27 ++++++++++++++++++---------
 src/limbo/experimental/acqui/eci.hpp | 27 ++++++++++++++++++---------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/limbo/acqui/ei.hpp b/src/limbo/acqui/ei.hpp
index c868d6d..8e7892b 100644
--- a/src/limbo/acqui/ei.hpp
+++ b/src/limbo/acqui/ei.hpp
@@ -48,6 +48,8 @@
 
 #include <Eigen/Core>
 #include <cmath>
+#include <memory>
+#include <mutex>
 #include <vector>
 
 #include <limbo/opt/optimizer.hpp>
@@ -75,7 +77,7 @@ namespace limbo {
         template <typename Params, typename Model>
         class EI {
         public:
-            EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1) {}
+            EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1), _mutex(std::make_shared<std::mutex>()) {}
 
             size_t dim_in() const { return _model.dim_in(); }
 
@@ -97,17 +99,23 @@ namespace limbo {
 
                 // Compute EI(x)
                 // First find the best so far (predicted) observation -- if needed
-                if (_nb_samples != _model.nb_samples()) {
-                    std::vector<double> rewards;
-                    for (auto s : _model.samples()) {
-                        rewards.push_back(afun(_model.mu(s)));
-                    }
+                // (the function can be evaluated by several threads at the same time)
+                double f_max;
+                {
+                    std::lock_guard<std::mutex> lock(*_mutex);
+                    if (_nb_samples != _model.nb_samples()) {
+                        std::vector<double> rewards;
+                        for (auto s : _model.samples()) {
+                            rewards.push_back(afun(_model.mu(s)));
+                        }
 
-                    _nb_samples = _model.nb_samples();
-                    _f_max = *std::max_element(rewards.begin(), rewards.end());
+                        _nb_samples = _model.nb_samples();
+                        _f_max = *std::max_element(rewards.begin(), rewards.end());
+                    }
+                    f_max = _f_max;
                 }
                 // Calculate Z and \Phi(Z) and \phi(Z)
-                double X = afun(mu) - _f_max - Params::acqui_ei::jitter();
+                double X = afun(mu) - f_max - Params::acqui_ei::jitter();
                 double Z = X / sigma;
                 double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                 double Phi = 0.5 * std::erfc(-Z / std::sqrt(2)); //0.5 * (1.0 + std::erf(Z / std::sqrt(2)));
@@ -119,6 +127,7 @@ namespace limbo {
             const Model& _model;
             int _nb_samples;
             double _f_max;
+            std::shared_ptr<std::mutex> _mutex;
         };
     }
 }
diff --git a/src/limbo/experimental/acqui/eci.hpp b/src/limbo/experimental/acqui/eci.hpp
index 14cb123..443623b 100644
--- a/src/limbo/experimental/acqui/eci.hpp
+++ b/src/limbo/experimental/acqui/eci.hpp
@@ -48,6 +48,8 @@
 
 #include <Eigen/Core>
 #include <cmath>
+#include <memory>
+#include <mutex>
 #include <vector>
 
 #include <limbo/tools/macros.hpp>
@@ -66,7 +68,7 @@ namespace limbo {
             class ECI {
             public:
                 ECI(const Model& model, const ConstraintModel& constraint_model, int iteration = 0)
-                    : _model(model), _constraint_model(constraint_model), _nb_samples(-1) {}
+                    : _model(model), _constraint_model(constraint_model), _nb_samples(-1), _mutex(std::make_shared<std::mutex>()) {}
 
                 size_t dim_in() const { return _model.dim_in(); }
 
@@ -88,17 +90,23 @@ namespace limbo {
 
                     // Compute expected constrained improvement
                     // First find the best (predicted) observation so far -- if needed
-                    if (_nb_samples != _model.nb_samples()) {
-                        std::vector<double> rewards;
-                        for (auto s : _model.samples()) {
-                            rewards.push_back(afun(_model.mu(s)));
+                    // (the function can be evaluated by several threads at the same time)
+                    double f_max;
+                    {
+                        std::lock_guard<std::mutex> lock(*_mutex);
+                        if (_nb_samples != _model.nb_samples()) {
+                            std::vector<double> rewards;
+                            for (auto s : _model.samples()) {
+                                rewards.push_back(afun(_model.mu(s)));
+                            }
+
+                            _nb_samples = _model.nb_samples();
+                            _f_max = *std::max_element(rewards.begin(), rewards.end());
                         }
-
-                        _nb_samples = _model.nb_samples();
-                        _f_max = *std::max_element(rewards.begin(), rewards.end());
+                        f_max = _f_max;
                     }
                     // Calculate Z and \Phi(Z) and \phi(Z)
-                    double X = afun(mu) - _f_max - Params::acqui_eci::jitter();
+                    double X = afun(mu) - f_max - Params::acqui_eci::jitter();
                     double Z = X / sigma;
                     double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                     double Phi = 0.5 * std::erfc(-Z / std::sqrt(2));
@@ -111,6 +119,7 @@ namespace limbo {
                 const ConstraintModel& _constraint_model;
                 int _nb_samples;
                 double _f_max;
+                std::shared_ptr<std::mutex> _mutex;
 
                 template <typename AggregatorFunction>
                 double _pf(const Eigen::VectorXd& v, const AggregatorFunction& afun) const
-- 
2.43.0


From da06921d69c24b91c2eb7a71f9dc771df0e5324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:12 +0000
Subject: [PATCH 22/50] fix: seeding random generators from several threads at
 once is not a data race

---
 src/external/rand_utils.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/external/rand_utils.hpp b/src/external/rand_utils.hpp
index 77fc779..3aef70d 100644
--- a/src/external/rand_utils.hpp
+++ b/src/external/rand_utils.hpp
@@ -101,6 +101,7 @@
 #include <chrono>
 #include <thread>
 #include <algorithm>
+#include <atomic>
 
 // Ugly platform-specific code for auto_seeded
 
@@ -453,7 +454,7 @@ namespace randutils {
             // Some people think you shouldn't use the random device much because
             // on some platforms it could be expensive to call or "use up" vital
             // system-wide entropy, so we just call it once.
-            static uint32_t random_int = std::random_device{}();
+            static std::atomic<uint32_t> random_int{std::random_device{}()};
 
             // The heap can vary from run to run as well.
             void* malloc_addr = malloc(sizeof(int));
@@ -461,9 +462,8 @@ namespace randutils {
             auto heap = hash(malloc_addr);
             auto stack = hash(&malloc_addr);
 
-            // Every call, we increment our random int.  We don't care about race
-            // conditons.  The more, the merrier.
-            random_int += 0xedf19156;
+            // Every call, we increment our random int.
+            uint32_t call_int = random_int += 0xedf19156;
 
             // Classic seed, the time.  It ought to change, especially since
             // this is (hopefully) nanosecond resolution time.
@@ -514,7 +514,7 @@ namespace randutils {
             auto pid = crushto32(RANDUTILS_GETPID);
             auto cpu = crushto32(RANDUTILS_CPU_ENTROPY);
 
-            return {{random_int, crushto32(hitime), stack, heap, self_data,
+            return {{call_int, crushto32(hitime), stack, heap, self_data,
                 self_func, exit_func, thread_id, type_id, pid, cpu}};
         }
 
-- 
2.43.0


From b6824d53db5a7e05b304728de447f1391c5e51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:27 +0000
Subject: [PATCH 23/50] fix: CBOptimizer ignored its seventh template argument

---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 0528653..5e04846 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -86,6 +86,18 @@ namespace limbo {
                 boost::parameter::optional<limbo::tag::modelfun>,
                 boost::parameter::optional<limbo::experimental::tag::constraint_modelfun>>;
 
+            /// the BoBase with the arguments of CBOptimizer (BoBase does not know constraint_modelfun and takes fewer arguments)
+            template <class Params, class Args>
+            struct cboptimizer_base {
+                using defaults = typename limbo::bayes_opt::BoBase<Params>::defaults;
+                using type = limbo::bayes_opt::BoBase<Params,
+                    statsfun<typename boost::parameter::binding<Args, limbo::tag::statsfun, typename defaults::stat_t>::type>,
+                    initfun<typename boost::parameter::binding<Args, limbo::tag::initfun, typename defaults::init_t>::type>,
+                    acquifun<typename boost::parameter::binding<Args, limbo::tag::acquifun, typename defaults::acqui_t>::type>,
+                    stopcrit<typename boost::parameter::binding<Args, limbo::tag::stopcrit, typename defaults::stop_t>::type>,
+                    modelfun<typename boost::parameter::binding<Args, limbo::tag::modelfun, typename defaults::model_t>::type>>;
+            };
+
             // clang-format off
         /**
         The classic Bayesian optimization algorithm.
@@ -117,7 +129,7 @@ namespace limbo {
           class A6 = boost::parameter::void_,
           class A7 = boost::parameter::void_>
             // clang-format on
-            class CBOptimizer : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6> {
+            class CBOptimizer : public cboptimizer_base<Params, typename cboptimizer_signature::bind<A1, A2, A3, A4, A5, A6, A7>::type>::type {
             public:
                 // defaults
                 struct defaults {
@@ -134,7 +146,7 @@ namespace limbo {
                     using constraint_model_t = limbo::model::GP<Params, kf_t, mean_t>;
                 };
                 /// link to the corresponding BoBase (useful for typedefs)
-                using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6>;
+                using base_t = typename cboptimizer_base<Params, typename cboptimizer_signature::bind<A1, A2, A3, A4, A5, A6, A7>::type>::type;
                 using model_t = typename base_t::model_t;
 
                 using acquisition_function_t = typename base_t::acquisition_function_t;
-- 
2.43.0


From b096e16305484365e0cae2a6b3d56e6ec7fd0cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:37 +0000
Subject: [PATCH 24/50] fix: Parego ignored parego_modelfun unless it was its
 first template argument

---
 src/limbo/experimental/bayes_opt/parego.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/bayes_opt/parego.hpp b/src/limbo/experimental/bayes_opt/parego.hpp
index 7b0ec27..8ee179b 100644
--- a/src/limbo/experimental/bayes_opt/parego.hpp
+++ b/src/limbo/experimental/bayes_opt/parego.hpp
@@ -59,7 +59,12 @@ namespace limbo {
 
             BOOST_PARAMETER_TEMPLATE_KEYWORD(parego_modelfun)
 
-            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>>;
+            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>,
+                boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>>;
 
             // clang-format off
             template <class Params,
-- 
2.43.0


From bdab9aa9ed3f0cb1087f9382d084781cff21945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:19 +0000
Subject: [PATCH 25/50] fix: IMGPO's model misses the last evaluations after a
 run (and aborted with hp_opt and a budget of one)

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 048257b..26ef05f 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -376,6 +376,8 @@ namespace limbo {
                         LB_old = LB;
                     }
 
+                    // the last evaluations (the only one with a budget of one) are not in the model yet
+                    _model.compute(this->_samples, this->_observations);
                     if (Params::bayes_opt_imgpo::hp_opt())
                         _model.optimize_hyperparams();
                 }
-- 
2.43.0


From a11bd2f446d69b94e6c4bc5910b238857199a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 26/50] fix: SPGP::sigma failed when the input has more than
 one dimension

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 5cf814c..d10c146 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -227,7 +227,7 @@ namespace limbo {
 	  		*/
             double sigma(const Eigen::VectorXd& v) const
             {
-                return (_predict(v, false, true).second)(0, 0);
+                return (_predict(v.transpose(), false, true).second)(0, 0);
             }
             // TODO: Deberia machear la interfaz de la GP
             Eigen::VectorXd sigma_mult(const Eigen::MatrixXd& v) const
-- 
2.43.0


From 0674842838e8058b8ba4f3edd1925d281e9494b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 27/50] fix: the initial pseudo-inputs of SPGP were not samples
 (coordinates mixed up)

---
 src/limbo/experimental/model/spgp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index d10c146..fe5d2f7 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -418,7 +418,8 @@ namespace limbo {
                     Eigen::VectorXd positions = Eigen::VectorXd::LinSpaced(_samples.rows(), 0, _samples.rows() - 1);
                     std::random_shuffle(positions.data(), positions.data() + positions.size());
                     for (size_t i = 0; i < _m; ++i)
-                        _w_init.segment(i * _dim_in, _dim_in) = _samples.row(positions[i]);
+                        for (size_t j = 0; j < _dim_in; ++j) // HyperParams reads the pseudo-inputs column by column
+                            _w_init[j * _m + i] = _samples((size_t)positions[i], j);
 
                     // Initialize hyperparameters sensibly in log space
                     _w_init.segment(_m * _dim_in, _dim_in) = -2 * ((_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).array() / 2).log(); // -2*log((max(x)-min(x))'/2)
-- 
2.43.0


From 55d1b9f73cd8057c64e833d802a2e85f032ead2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 28/50] fix: SPGP used an uninitialised jitter when it is built
 with add_sample

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index fe5d2f7..27e15a4 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -320,7 +320,7 @@ namespace limbo {
             size_t _m;
             size_t _dim_in = -1;
             size_t _dim_out = -1;
-            double _del;
+            double _del = Params::model_spgp::jitter();
             Eigen::MatrixXd _samples;
             Eigen::MatrixXd _observations;
             Eigen::MatrixXd _observations_zm;
-- 
2.43.0


From a324df35ea9b38fc253ecef86b1bce09ecc1a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 29/50] fix: SPGP::recompute did not update the mean of the
 observations

---
 src/limbo/experimental/model/spgp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 27e15a4..dcd3bcf 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -282,6 +282,9 @@ namespace limbo {
             ///  recomputes the SPGP
             void recompute(bool update_obs_mean = true)
             {
+                if (update_obs_mean)
+                    _compute_observations_zm();
+
                 _optimize_init = true;
                 _compute();
             }
-- 
2.43.0


From 4d89e4f1828d51069c8a7584a68d9e32cb072aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 30/50] fix: SPGP read out of bounds with fewer samples than
 the minimum number of pseudo-inputs

---
 src/limbo/experimental/model/spgp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index dcd3bcf..0a8f3af 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -387,6 +387,9 @@ namespace limbo {
                 _m = Params::model_spgp::samples_percent() * _samples.rows() / 100;
                 if (_m < Params::model_spgp::min_m())
                     _m = Params::model_spgp::min_m();
+                // the pseudo-inputs are initialised with different samples
+                if (_m > (size_t)_samples.rows())
+                    _m = _samples.rows();
             }
 
             void _compute(bool optimize = true)
-- 
2.43.0


From 86076703eb62deb21666207d9ff4433fd5bf8ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 31/50] fix: a NLOpt wrapper used again in another dimension
 returned the initial point

---
 src/limbo/opt/nlopt_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 66f73bf..f1b3289 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -78,7 +78,8 @@ namespace limbo {
             Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& init, bool bounded)
             {
                 int dim = init.size();
-                if (!_initialized)
+                // the same optimizer can be used for several problems
+                if (!_initialized || (int)_opt.get_dimension() != dim)
                     initialize(dim);
 
                 _opt.set_max_objective(nlopt_func<F>, (void*)&f);
-- 
2.43.0


From 7fb5bd2486c03e4dca6c00eb5a8c35b121eefd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 32/50] fix: a NLOpt wrapper stayed bounded after a bounded
 call

---
 src/limbo/opt/nlopt_base.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index f1b3289..367a8e9 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -52,6 +52,7 @@
 #include <Eigen/Core>
 
 #include <algorithm>
+#include <cmath>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -94,6 +95,11 @@ namespace limbo {
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
                 }
+                else {
+                    // the previous call could have been bounded
+                    _opt.set_lower_bounds(std::vector<double>(dim, -HUGE_VAL));
+                    _opt.set_upper_bounds(std::vector<double>(dim, HUGE_VAL));
+                }
 
                 double max;
 
-- 
2.43.0


From 4b03f483712b509a9f67b1e4486456c265715124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:13 +0000
Subject: [PATCH 33/50] fix: SPGP predicted with outdated matrices after
 optimize_hyperparams

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 0a8f3af..c056ac9 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -125,7 +125,7 @@ namespace limbo {
             void optimize_hyperparams()
             {
                 _optimize_init = true;
-                _optimize_hyperparams();
+                _compute(); // optimize, and update the matrices that depend on the hyperparameters
             }
 
             /// Compute the SPGP from samples and observations. This call needs to be explicit!
-- 
2.43.0


From 56e11972dedd7d8c50220ecb4034f69e57fd311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:19 +0000
Subject: [PATCH 34/50] fix: EHVI volume computations read a freed tree node
 when a point replaced its predecessor

---
 src/ehvi/ehvi_hvol.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ehvi/ehvi_hvol.cc b/src/ehvi/ehvi_hvol.cc
index ffe94cd..f1a5086 100644
--- a/src/ehvi/ehvi_hvol.cc
+++ b/src/ehvi/ehvi_hvol.cc
@@ -307,8 +307,9 @@ avlnode* bitree::attemptcandidate(double x, double y)
     // We have inserted the point and must now update totalS and remove dominated
     // points.
     calculateS(temp);
+    point* candidate = temp->data; // removing other nodes may move it to another node
     removedominated(temp);
-    return temp;
+    return candidate->xnode;
 }
 
 void bitree::removedominated(avlnode* node)
@@ -318,8 +319,9 @@ void bitree::removedominated(avlnode* node)
     // or reaches the end. First nondominated point's horizontal S strip is
     // recalculated.
     // Dominated points are deleted.
+    point* candidate = node->data; // removenode may move it and delete node
     avlnode* previous = getprevious(node);
-    while (previous != NULL && previous->data->y <= node->data->y) {
+    while (previous != NULL && previous->data->y <= candidate->y) {
         avlnode* goner = previous;
         previous = getprevious(previous);
         point* magic;
-- 
2.43.0


From 150eb5007c14b7f3e72ef2ed8b6d4320fd3abef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 35/50] fix: the slice-update EHVI schemes leaked their work
 arrays on every call

---
 src/ehvi/ehvi_multi.cc       | 3 +++
 src/ehvi/ehvi_sliceupdate.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ehvi/ehvi_multi.cc b/src/ehvi/ehvi_multi.cc
index fc4da0a..3cc6083 100644
--- a/src/ehvi/ehvi_multi.cc
+++ b/src/ehvi/ehvi_multi.cc
@@ -270,5 +270,8 @@ vector<double> ehvi3d_sliceupdate(deque<individual*> P, double r[DIMENSIONS],
             }
         }
     }
+    for (int i = 0; i < n; i++)
+        delete Px[i];
+    delete[] Pstruct;
     return answer;
 }
diff --git a/src/ehvi/ehvi_sliceupdate.cc b/src/ehvi/ehvi_sliceupdate.cc
index 124c202..efe491a 100644
--- a/src/ehvi/ehvi_sliceupdate.cc
+++ b/src/ehvi/ehvi_sliceupdate.cc
@@ -181,6 +181,9 @@ double ehvi3d_sliceupdate(deque<individual*> P, double r[], double mu[],
             }
         }
     }
+    for (int i = 0; i < n; i++)
+        delete Px[i];
+    delete[] Pstruct;
     return answer;
 }
 #endif
-- 
2.43.0


From 92da597b14f5b6b347fb0ed71e17107b0b894281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:03 +0000
Subject: [PATCH 36/50] fix: multi-objective optimisers had keywords of their
 own: acquiopt and modelfun were ignored, Parego lost its model

---
 src/limbo/experimental/bayes_opt/bo_multi.hpp | 19 +++++++------------
 src/limbo/experimental/bayes_opt/ehvi.hpp     | 11 +++++++----
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/bo_multi.hpp b/src/limbo/experimental/bayes_opt/bo_multi.hpp
index 446fbde..9a1e86e 100644
--- a/src/limbo/experimental/bayes_opt/bo_multi.hpp
+++ b/src/limbo/experimental/bayes_opt/bo_multi.hpp
@@ -130,18 +130,13 @@ namespace limbo {
 #endif
             }
 
-            // to be removed once moved out of experimental?
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(initfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquifun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
-
-            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
-                boost::parameter::optional<tag::initfun>,
-                boost::parameter::optional<tag::acquifun>,
-                boost::parameter::optional<tag::stopcrit>,
-                boost::parameter::optional<tag::modelfun>>;
+            // the named arguments are those of limbo: a second set of keywords would hide them
+            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>,
+                boost::parameter::optional<limbo::tag::acquiopt>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index d9e4edb..90f784d 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -67,9 +67,12 @@ namespace limbo {
     namespace experimental {
         namespace bayes_opt {
 
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
-
-            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>>;
+            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
@@ -93,7 +96,7 @@ namespace limbo {
                 };
 
                 using args = typename ehvi_signature::bind<A1, A2, A3, A4, A5, A6>::type;
-                using acqui_optimizer_t = typename boost::parameter::binding<args, tag::acquiopt, typename defaults::acquiopt_t>::type;
+                using acqui_optimizer_t = typename boost::parameter::binding<args, limbo::tag::acquiopt, typename defaults::acquiopt_t>::type;
 
                 using pareto_point_t = std::tuple<Eigen::VectorXd, Eigen::VectorXd, Eigen::VectorXd>;
                 using base_t = limbo::experimental::bayes_opt::BoMulti<Params, A1, A2, A3, A4, A5, A6>;
-- 
2.43.0


From f931a92a2ce9a67e0882298801f4ef9a2345b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:03 +0000
Subject: [PATCH 37/50] fix: the EHVI acquisition function took the predicted
 variance for the standard deviation

---
 src/limbo/experimental/acqui/ehvi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/acqui/ehvi.hpp b/src/limbo/experimental/acqui/ehvi.hpp
index fe73f82..89077e6 100644
--- a/src/limbo/experimental/acqui/ehvi.hpp
+++ b/src/limbo/experimental/acqui/ehvi.hpp
@@ -46,6 +46,7 @@
 #ifndef LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 #define LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 
+#include <cmath>
 #include <vector>
 
 #include <Eigen/Core>
@@ -73,7 +74,8 @@ namespace limbo {
                 assert(_models.size() == 2);
                 double r[3] = {_ref_point(0), _ref_point(1), _ref_point(2)};
                 double mu[3] = {afun(_models[0].mu(v)), afun(_models[1].mu(v)), 0};
-                double s[3] = {_models[0].sigma(v), _models[1].sigma(v), 0};
+                // ehvi2d wants standard deviations, sigma() is the variance
+                double s[3] = {std::sqrt(_models[0].sigma(v)), std::sqrt(_models[1].sigma(v)), 0};
                 double ehvi = ehvi2d(_pop, r, mu, s);
                 return ehvi;
             }
-- 
2.43.0


From d565336b7eeefa57bf1e61ff57497522e61c289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 38/50] fix: Ehvi handed ehvi2d points that do not dominate the
 reference point

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 90f784d..e1705f9 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -116,6 +116,9 @@ namespace limbo {
                         // copy in the ehvi structure to compute expected improvement
                         std::deque<individual*> pop;
                         for (auto x : this->pareto_data()) {
+                            // ehvi2d wants points above the reference; the others dominate nothing there
+                            if (std::get<1>(x)(0) <= Params::bayes_opt_ehvi::x_ref() || std::get<1>(x)(1) <= Params::bayes_opt_ehvi::y_ref())
+                                continue;
                             individual* ind = new individual;
                             ind->f[0] = std::get<1>(x)(0);
                             ind->f[1] = std::get<1>(x)(1);
-- 
2.43.0


From 93357da23f21dad0774ef3dd7a47241d82dbd3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:30 +0000
Subject: [PATCH 39/50] fix: the hypervolume statistic counted observations
 below the reference point as negative volume

---
 src/limbo/experimental/stat/hyper_volume.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/stat/hyper_volume.hpp b/src/limbo/experimental/stat/hyper_volume.hpp
index edd219b..6237cfd 100644
--- a/src/limbo/experimental/stat/hyper_volume.hpp
+++ b/src/limbo/experimental/stat/hyper_volume.hpp
@@ -46,6 +46,8 @@
 #ifndef LIMBO_STAT_HYPER_VOLUME_HPP
 #define LIMBO_STAT_HYPER_VOLUME_HPP
 
+#include <algorithm>
+
 #include <hv/hypervol.h>
 #include <limbo/experimental/tools/pareto.hpp>
 #include <limbo/stat/stat_base.hpp>
@@ -74,7 +76,8 @@ namespace limbo {
                         size_t dim = bo.observations()[i].size();
                         data[i] = new double[dim];
                         for (size_t k = 0; k < dim; ++k)
-                            data[i][k] = bo.observations()[i](k) + Params::stat_hyper_volume::ref(k);
+                            // below the reference point, nothing is dominated
+                            data[i][k] = std::max(0.0, bo.observations()[i](k) + Params::stat_hyper_volume::ref(k));
                     }
                     // call the hypervolume by Zitzler
                     int noObjectives = bo.observations()[0].size();
-- 
2.43.0


From 8c7410ae58abe4ec8c31e1bc6cbfa959e62b704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 40/50] fix: IMGPO: a promising node takes its evaluated value,
 and the scan of its depth restarts

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 26ef05f..0a41401 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -135,7 +135,11 @@ namespace limbo {
                             if (h >= h_max)
                                 break;
 
+                            const double b_hi_max_upper = b_hi_max;
                             while (true) {
+                                b_hi_max = b_hi_max_upper;
+                                i_max[h] = -1;
+                                b_max[h] = -inf;
                                 for (size_t i = 0; i < _tree[h].x.size(); i++) {
                                     if (_tree[h].leaf[i] == true) {
                                         double b_hi = afun(_tree[h].f[i]);
@@ -157,6 +161,7 @@ namespace limbo {
 
                                     auto tmp_sample = sfun(xxx);
                                     _tree[h].samp[i_max[h]] = true;
+                                    _tree[h].f[i_max[h]] = tmp_sample;
                                     this->add_new_sample(xxx, tmp_sample);
 
                                     // N = N+1
-- 
2.43.0


From 14f7678afb2ac2dfdd7f67f6e4276048ff4ee2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 41/50] fix: IMGPO: virtual expansion splits the nodes of the
 depth it is at

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 0a41401..4db35bd 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -195,9 +195,9 @@ namespace limbo {
                                     M2 = M;
                                     for (size_t h2 = h; h2 <= h + xi - 1; h2++) {
                                         for (size_t ii = 0; ii < std::pow(3, h2 - h); ii++) {
-                                            if (ii >= tmp_tree[h].x.size())
+                                            if (ii >= tmp_tree[h2].x.size())
                                                 break;
-                                            Eigen::VectorXd xx = tmp_tree[h].x[ii];
+                                            Eigen::VectorXd xx = tmp_tree[h2].x[ii];
                                             Eigen::VectorXd to_split = tmp_tree[h2].x_max[ii].array() - tmp_tree[h2].x_min[ii].array();
                                             size_t tmp, splitd;
                                             to_split.maxCoeff(&splitd, &tmp);
-- 
2.43.0


From 26f41420a67e21ba1e5c076360c69fd27927136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 42/50] fix: IMGPO: the user's aggregator decides which
 evaluated child is best and the lower bound

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 4db35bd..92e6da2 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -296,7 +296,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_g, fsample_g);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_g(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_g));
 
                                     // N = N+1
                                     this->_current_iteration++;
@@ -335,7 +335,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_d, fsample_d);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_d(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_d));
 
                                     // N = N+1
                                     this->_current_iteration++;
@@ -364,7 +364,7 @@ namespace limbo {
                                 _tree[h + 1].leaf.push_back(true);
 
                                 // update LB
-                                LB = afun(this->best_observation());
+                                LB = afun(this->best_observation(afun));
 
                                 // std::cout << t << " N= " << this->_current_iteration << " n= " << split_n << " fmax_hat= " << LB << " rho= " << rho_bar << " xi= " << xi_max << " h= " << depth_T << std::endl;
                             }
-- 
2.43.0


From ad68c5905af4e4bb73ce2a2bc570079c39439ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 43/50] fix: EHVI program: a point dominated by an earlier one
 is not kept

---
 src/ehvi/main.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/ehvi/main.cc b/src/ehvi/main.cc
index f78e17d..7d78778 100644
--- a/src/ehvi/main.cc
+++ b/src/ehvi/main.cc
@@ -92,6 +92,24 @@ int checkdominance(deque<individual*>& P, individual* p)
     return nr;
 }
 
+// Checks if a point of P dominates p (equal points are left to checkdominance).
+bool isdominated(const deque<individual*>& P, const individual* p)
+{
+    for (size_t i = 0; i < P.size(); i++) {
+        bool better = false, worse = false;
+        for (int k = 0; k < DIMENSIONS; k++) {
+            better = better || P[i]->f[k] > p->f[k];
+            worse = worse || P[i]->f[k] < p->f[k];
+        }
+        if (better && !worse) {
+            cerr << "The new individual is dominated by individual " << (i + 1)
+                 << "; removing." << endl;
+            return true;
+        }
+    }
+    return false;
+}
+
 // Loads a testcase from the file with the name filename.
 void loadtestcase(char* filename, deque<individual*>& testcase, double r[],
     vector<mus*>& pdf)
@@ -106,6 +124,10 @@ void loadtestcase(char* filename, deque<individual*>& testcase, double r[],
         tempvidual->f[0] = tempvidual->f[0];
         tempvidual->f[1] = tempvidual->f[1];
         tempvidual->f[2] = tempvidual->f[2];
+        if (isdominated(testcase, tempvidual)) {
+            delete tempvidual;
+            continue;
+        }
         checkdominance(testcase, tempvidual);
         testcase.push_back(tempvidual);
     }
@@ -175,6 +197,11 @@ int main(int argc, char* argv[])
             individual* tempvidual = new individual;
             cerr << "Individual " << i << " of " << n << ": ";
             cin >> tempvidual->f[0] >> tempvidual->f[1] >> tempvidual->f[2];
+            if (isdominated(testcase, tempvidual)) {
+                delete tempvidual;
+                i--;
+                continue;
+            }
             i = i - checkdominance(testcase, tempvidual);
             testcase.push_back(tempvidual);
         }
-- 
2.43.0


From 4253db52c407419e315e04a79b83693b2792bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 44/50] fix: Ehvi: one inner optimizer per parallel body

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index e1705f9..73ee78f 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -107,8 +107,6 @@ namespace limbo {
                 {
                     this->_init(feval, FirstElem(), reset);
 
-                    acqui_optimizer_t inner_opt;
-
                     while (this->_samples.size() == 0 || !this->_stop(*this, FirstElem())) {
                         this->template update_pareto_model<EvalFunction::dim_in()>();
                         this->update_pareto_data();
@@ -137,6 +135,8 @@ namespace limbo {
                         auto body = [&](int i) -> pair_t {
                             auto x = this->pareto_data()[i];
 
+                            // bodies can run in parallel and an optimizer may keep a state
+                            acqui_optimizer_t inner_opt;
                             auto acqui_optimization =
                                 [&](const Eigen::VectorXd& x, bool g) { return opt::no_grad(acqui(x)); };
 
-- 
2.43.0


From 1510d9b00a6757ad1ea25712165c98d3adbb5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:34 +0000
Subject: [PATCH 45/50] fix: Ehvi compiles when eci.hpp is included before it

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 73ee78f..5c72a24 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -124,7 +124,7 @@ namespace limbo {
                             pop.push_back(ind);
                         }
 
-                        auto acqui = acqui::Ehvi<Params, model_t>(
+                        auto acqui = limbo::acqui::Ehvi<Params, model_t>(
                             this->_models, pop,
                             Eigen::Vector3d(Params::bayes_opt_ehvi::x_ref(), Params::bayes_opt_ehvi::y_ref(), 0));
 
-- 
2.43.0


From 7fd90bca255bc01c4d87dd5061747e0b4216dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:27 +0000
Subject: [PATCH 46/50] fix: MultiGP forgets the samples that its sparsified
 models dropped

---
 src/limbo/model/multi_gp.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 6f19720..983306e 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -124,6 +124,8 @@ namespace limbo {
                 limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                     _gp_models[i].compute(samples, obs[i], compute_kernel);
                 });
+
+                _forget_dropped(samples, compute_kernel);
             }
 
             /// Do not forget to call this if you use hyper-parameters optimization!!
@@ -158,6 +160,8 @@ namespace limbo {
                     assert(observation.size() == _dim_out);
                 }
 
+                std::vector<Eigen::VectorXd> samples = _gp_models[0].samples();
+                samples.push_back(sample);
                 _observations.push_back(observation);
 
                 // recompute mean observation
@@ -173,9 +177,8 @@ namespace limbo {
                     _gp_models[i].add_sample(sample, limbo::tools::make_vector(observation[i] - mean_vector[i]));
 
                     // the mean function may depend on the data (e.g., mean::Data): update the previous observations,
-                    // without recomputing the kernel (this is not possible if the GP dropped some of the samples)
+                    // without recomputing the kernel (see below if the GP dropped some of the samples)
                     if (_gp_models[i].samples().size() == _observations.size()) {
-                        std::vector<Eigen::VectorXd> samples = _gp_models[i].samples();
                         std::vector<Eigen::VectorXd> obs;
                         for (size_t j = 0; j < _observations.size(); j++)
                             obs.push_back(limbo::tools::make_vector(_observations[j][i] - _mean_function(samples[j], *this)[i]));
@@ -183,6 +186,8 @@ namespace limbo {
                         _gp_models[i].recompute(false, false);
                     }
                 });
+
+                _forget_dropped(samples, true);
             }
 
             /**
@@ -410,6 +415,22 @@ namespace limbo {
             MeanFunction _mean_function;
             std::vector<Eigen::VectorXd> _observations;
             Eigen::VectorXd _mean_observation;
+
+            /// if the GPs dropped some of the samples (e.g., SparsifiedGP), forget them here too
+            void _forget_dropped(const std::vector<Eigen::VectorXd>& samples, bool compute_kernel)
+            {
+                const std::vector<Eigen::VectorXd> kept = _gp_models[0].samples();
+                if (kept.size() == samples.size())
+                    return;
+
+                // the GPs keep the order of the samples, and the last ones among identical samples
+                std::vector<Eigen::VectorXd> observations(kept.size());
+                for (size_t k = kept.size(), j = samples.size(); k > 0 && j > 0; j--) {
+                    if (samples[j - 1] == kept[k - 1])
+                        observations[--k] = _observations[j - 1];
+                }
+                compute(kept, observations, compute_kernel);
+            }
         };
     } // namespace model
 } // namespace limbo
-- 
2.43.0


From 1c42fa9c9ad12616af1504e127d3424db41f58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:47 +0000
Subject: [PATCH 47/50] fix: parameter listings are complete and readable
 (Python 3, commented lines)

---
 waf_tools/params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waf_tools/params.py b/waf_tools/params.py
index 0ecbdc5..35d9354 100644
--- a/waf_tools/params.py
+++ b/waf_tools/params.py
@@ -84,7 +84,7 @@ def extract_ifdef(d):
     x = filter(lambda x: not ('_HPP' in x), d)
     x = map(lambda x: x.replace('NOT #ifndef', '#ifdef'), x)
     x = map(lambda x: x.replace('\n', ''), x)
-    return x
+    return list(x)
 
 def extract_params(fname):
     params = []
@@ -112,7 +112,7 @@ def extract_params(fname):
             d = re.findall('defaults::\w+', line)[0]
             dd = d.split('::')[1]
             defaults += [dd]
-        if 'BO_PARAM(' in line and not "#define" in line and not '//' in line:
+        if 'BO_PARAM(' in line.split('//')[0] and not "#define" in line:
             namespace, struct = extract_namespace(level)
             type, name, value = extract_param(line)
             d = extract_ifdef(ifdefs)
-- 
2.43.0


From 33e25ac5bcc5cea72daaf3ce1af279dff98f5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 48/50] fix: experiments created with several outputs compile

---
 waf_tools/limbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waf_tools/limbo.py b/waf_tools/limbo.py
index 83f0cb2..2065e09 100644
--- a/waf_tools/limbo.py
+++ b/waf_tools/limbo.py
@@ -140,7 +140,7 @@ def create_exp(name, opt):
         cpp_params['CODE_BEST_SAMPLE'] = 'boptimizer.best_sample()(0)'
 
     if opt.dim_out and opt.dim_out > 1:
-        cpp_params['CODE_RES_INIT'] = 'Eigen::VectorXd res(' + str(opt.dim_in) + ')'
+        cpp_params['CODE_RES_INIT'] = 'Eigen::VectorXd res(' + str(opt.dim_out) + ');'
         cpp_params['CODE_RES_RETURN'] = 'return res;'
         cpp_params['CODE_BEST_OBS'] = 'boptimizer.best_observation().transpose()'
     else:
-- 
2.43.0


From 4de7e920609feef029d18a8930343a8bff0c22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 49/50] fix: local runs get the arguments of their own entry

---
 waf_tools/limbo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/waf_tools/limbo.py b/waf_tools/limbo.py
index 2065e09..b987531 100644
--- a/waf_tools/limbo.py
+++ b/waf_tools/limbo.py
@@ -279,8 +279,8 @@ def _sub_script_local(conf_file):
                 src_dir = bin_dir.replace('build/',  '')
                 subprocess.call('cp ' + src_dir + '/params_*.txt '  + directory, shell=True)
                 fname = e
-                fnames += [(fname, directory)]
-    return fnames,args
+                fnames += [(fname, directory, args)]
+    return fnames
 
 def run_local_one(directory, s):
     std_out = open(directory+"/stdout.txt", "w")
@@ -291,9 +291,9 @@ def run_local(conf_file, serial = True):
     if not json_ok:
         Logs.pprint('RED', 'ERROR: simplejson is not installed and as such you cannot read the json configuration file for running your experiments.')
         return
-    fnames,arguments = _sub_script_local(conf_file)
+    fnames = _sub_script_local(conf_file)
     threads = []
-    for (fname, directory) in fnames:
+    for (fname, directory, arguments) in fnames:
         s = "cd " + '"' + directory + '"' + " && " + "./" + fname + ' ' + arguments
         Logs.pprint('NORMAL', "Executing: %s" % s)
         if not serial:
-- 
2.43.0


From 1841ff6128e8c7bb015490e62906d492ba2caa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 50/50] fix: the noise given to --create reaches the created
 experiment

---
 docs/guides/framework.rst  | 2 +-
 waf_tools/exp_template.cpp | 3 +--
 waf_tools/limbo.py         | 4 ++--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/docs/guides/framework.rst b/docs/guides/framework.rst
index 052eccb..8d3dd22 100644
--- a/docs/guides/framework.rst
+++ b/docs/guides/framework.rst
@@ -36,7 +36,7 @@ If you want to customize the parameters, you can use the following options:
 
 - ``--dim_in=DIM_IN``: Number of input dimensions for the function to optimize [default: 1]
 - ``--dim_out=DIM_OUT``: Number of output dimensions for the function to optimize [default: 1]
-- ``--bayes_opt_boptimizer_noise=BAYES_OPT_BOPTIMIZER_NOISE``: Acquisition noise of the function to optimize [default: 1e-6]
+- ``--bayes_opt_boptimizer_noise=BAYES_OPT_BOPTIMIZER_NOISE``: Acquisition noise of the function to optimize [default: 0.001]
 - ``--bayes_opt_bobase_stats_enabled``: Enable statistics [default: true]
 - ``--init_randomsampling_samples=INIT_RANDOMSAMPLING_SAMPLES``: Number of samples used for the initialization [default: 10]
 - ``--stop_maxiterations_iterations=STOP_MAXITERATIONS_ITERATIONS``: Number of iterations performed before stopping the optimization [default: 190
diff --git a/waf_tools/exp_template.cpp b/waf_tools/exp_template.cpp
index a01b297..036bf0a 100644
--- a/waf_tools/exp_template.cpp
+++ b/waf_tools/exp_template.cpp
@@ -10,7 +10,6 @@ using namespace limbo;
 
 struct Params {
     struct bayes_opt_boptimizer : public defaults::bayes_opt_boptimizer {
-        @BAYES_OPT_BOPTIMIZER_NOISE
     };
 
 // depending on which internal optimizer we use, we need to import different parameters
@@ -26,7 +25,7 @@ struct Params {
 #endif
 
     struct kernel : public defaults::kernel {
-        BO_PARAM(double, noise, 0.001);
+        BO_PARAM(double, noise, @KERNEL_NOISE);
     };
 
     struct bayes_opt_bobase : public defaults::bayes_opt_bobase {
diff --git a/waf_tools/limbo.py b/waf_tools/limbo.py
index b987531..66663af 100644
--- a/waf_tools/limbo.py
+++ b/waf_tools/limbo.py
@@ -65,7 +65,7 @@ except:
 def add_create_options(opt):
     opt.add_option('--dim_in', type='int', dest='dim_in', help='Number of dimensions for the function to optimize [default: 1]')
     opt.add_option('--dim_out', type='int', dest='dim_out', help='Number of dimensions for the function to optimize [default: 1]')
-    opt.add_option('--bayes_opt_boptimizer_noise', type='float', dest='bayes_opt_boptimizer_noise', help='Acquisition noise of the function to optimize [default: 1e-6]')
+    opt.add_option('--bayes_opt_boptimizer_noise', type='float', dest='bayes_opt_boptimizer_noise', help='Acquisition noise of the function to optimize [default: 0.001]')
     opt.add_option('--bayes_opt_bobase_stats_disabled', action='store_true', dest='bayes_opt_bobase_stats_disabled', help='Disable statistics [default: false]')
     opt.add_option('--init_randomsampling_samples', type='int', dest='init_randomsampling_samples', help='Number of samples used for the initialization [default: 10]')
     opt.add_option('--stop_maxiterations_iterations', type='int', dest='stop_maxiterations_iterations', help='Number of iterations performed before stopping the optimization [default: 190]')
@@ -126,7 +126,7 @@ def create_exp(name, opt):
         cpp_tpl += line
 
     cpp_params = {}
-    cpp_params['BAYES_OPT_BOPTIMIZER_NOISE'] = '    BO_PARAM(double, noise, ' + str(opt.bayes_opt_boptimizer_noise) + ');\n    ' if opt.bayes_opt_boptimizer_noise and opt.bayes_opt_boptimizer_noise >= 0 else ''
+    cpp_params['KERNEL_NOISE'] = str(opt.bayes_opt_boptimizer_noise) if opt.bayes_opt_boptimizer_noise and opt.bayes_opt_boptimizer_noise >= 0 else '0.001'
     cpp_params['BAYES_OPT_BOBASE_STATS_DISABLED'] = '    BO_PARAM(bool, stats_enabled, false);\n    ' if opt.bayes_opt_bobase_stats_disabled else ''
     cpp_params['INIT_RANDOMSAMPLING_SAMPLES'] = '    BO_PARAM(int, samples, ' + str(opt.init_randomsampling_samples) + ');\n    ' if opt.init_randomsampling_samples and opt.init_randomsampling_samples > 0  else ''
     cpp_params['STOP_MAXITERATIONS_ITERATIONS'] = '    BO_PARAM(int, iterations, ' + str(opt.stop_maxiterations_iterations) + ');\n    ' if opt.stop_maxiterations_iterations and opt.stop_maxiterations_iterations > 0 else ''
-- 
2.43.0

