From 1646e941c08e60b7194a874ee3241deff6fa08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:09 +0000
Subject: [PATCH 01/16] fix: sample the posterior itself when there is only one
 walker

With a single walker the temperature ladder consisted of the maximum
temperature, so the recorded chain sampled the posterior tempered by a
factor of 100.
---
 src/carmcmc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index 444ab1e..99b5af5 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -93,6 +93,7 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
     
     arma::vec temp_ladder = arma::linspace<arma::vec>(0.0, log(max_temperature), nwalkers);
     temp_ladder = arma::exp(temp_ladder);
+    temp_ladder(0) = 1.0; // linspace() with a single element gives the upper end of the range
     
     Ensemble<CARp> CarEnsemble;
     // Add the parameters to the ensemble, starting with the coolest chain
-- 
2.43.0


From 2f89ec606a4480eaf498c0c22fba66a23ccbfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:09 +0000
Subject: [PATCH 02/16] fix: let the ZCAR model use its own moving average
 coefficients

ZCAR declared a second ma_coefs_ member, so the coefficients computed in
its constructor were never seen by the methods inherited from CARp and
the model had the likelihood of a plain CAR(p) process.
---
 src/include/carpack.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 5cb173f..417b2b6 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -331,7 +331,6 @@ public:
 protected:
     int p_; // Order of the CAR(p) process
     bool order_lorentzians_; // force the lorentzian centroids to be in order?
-private:
     arma::vec ma_coefs_;
 };
 
@@ -359,7 +358,6 @@ public:
     }
 private:
     double kappa_; // minimum frequency resolved by the observation times
-    arma::vec ma_coefs_;
 };
 
 /*
-- 
2.43.0


From 7adcadd6e0bbd4a6eb8640be868ede3f078fdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:09 +0000
Subject: [PATCH 03/16] fix: add virtual destructors to Step and BaseParameter

Sampler and Ensemble own steps and parameters through pointers to the
base class, so deleting them was undefined behavior.
---
 src/include/parameters.hpp | 1 +
 src/include/steps.hpp      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/include/parameters.hpp b/src/include/parameters.hpp
index 9a5f456..4b7c930 100644
--- a/src/include/parameters.hpp
+++ b/src/include/parameters.hpp
@@ -33,6 +33,7 @@ class BaseParameter {
 public:
     // Constructor
     BaseParameter() {}
+    virtual ~BaseParameter() {}
     BaseParameter(bool track, std::string label, double temperature=1.0) :
     track_(track), label_(label), temperature_(temperature) {}
     
diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index 5bb3758..7dbbc65 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -47,6 +47,7 @@ std::string to_string (const T& t) {
 // The Step class will never be instantiated directly.
 class Step {
 public:
+	virtual ~Step() {}
 	virtual void DoStep() = 0;
 	
 	// Should return the label of the parameter associated with the step instance.
-- 
2.43.0


From e1625340228cbdb3900e91c7de3f97bce64b499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:09 +0000
Subject: [PATCH 04/16] fix: start CAR(1) chains inside the prior bounds

The starting decay rate could be below the minimum frequency (it was so
most of the time for short time series), where the posterior is zero.
Draw until the log-posterior is finite, as the other models do, and
compare the logarithm of omega with the logarithm of its upper bound.
---
 src/carpack.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 682a4aa..8b575bc 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -38,7 +38,9 @@ extern RandomGenerator RandGen;
 arma::vec CAR1::StartingValue()
 {
 	double log_omega_start, car1_stdev_start, sigma;
+	arma::vec theta(4);
 
+	do {
 	// Initialize the standard deviation of the CAR(1) process
 	// by drawing from its prior
 	car1_stdev_start = RandGen.scaled_inverse_chisqr(y_.n_elem-1, arma::var(y_));
@@ -53,7 +55,7 @@ arma::vec CAR1::StartingValue()
 	
     arma::vec dt = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
 	log_omega_start = -1.0 * log(arma::median(dt) * RandGen.uniform( 1.0, 50.0 ));
-	log_omega_start = std::min(log_omega_start, max_freq_);
+	log_omega_start = std::min(log_omega_start, log(max_freq_));
 	
 	sigma = car1_stdev_start * sqrt(2.0 * exp(log_omega_start));
 	
@@ -64,8 +66,6 @@ arma::vec CAR1::StartingValue()
     measerr_scale = std::min(measerr_scale, 1.99);
     measerr_scale = std::max(measerr_scale, 0.51);
 	
-	arma::vec theta(4);
-	
 	theta << car1_stdev_start << measerr_scale << mu << log_omega_start << arma::endr;
 	
 	// Initialize the Kalman filter
@@ -77,6 +77,9 @@ arma::vec CAR1::StartingValue()
     pKFilter_->SetTimeSeries(ycent);
     pKFilter_->Filter();
 	
+	// continue until the starting values give us a finite posterior
+	} while (!arma::is_finite(LogDensity(theta)));
+	
 	return theta;
 }
 
-- 
2.43.0


From 51576d1e1bc4e7cbccd99404c7504a44a1436544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:58 +0000
Subject: [PATCH 05/16] fix: keep the data of the models consistent with their
 Kalman filter

The filters sort their copy of the data and drop duplicate times, but the
models went on using the data as they were given. For unsorted data or
duplicate times the filter was then run on mismatched values and errors
and the frequency bounds of the prior were wrong.
---
 src/include/carpack.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 417b2b6..278fe3a 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -233,6 +233,13 @@ public:
     void SetMLE(bool ignore_prior) {ignore_prior_ = ignore_prior;}
     
 protected:
+    // use the data as the Kalman filter holds them: sorted and without duplicate times
+    void UseFilterData() {
+        time_ = pKFilter_->GetTime();
+        y_ = pKFilter_->GetTimeSeries();
+        yerr_ = pKFilter_->GetTimeSeriesErr();
+        CARMA_Base::SetPrior(10.0 * sqrt(arma::var(y_)));
+    }
     // time series data
     arma::vec time_;
     arma::vec y_;
@@ -257,6 +264,7 @@ public:
          double temperature=1.0) : CARMA_Base<double>(track, name, time, y, yerr, temperature)
     {
         pKFilter_ = std::make_shared<KalmanFilter1>(time_, y_, yerr_);
+        UseFilterData();
         // Set the size of the parameter vector theta=(mu,sigma,measerr_scale,log(omega))
         value_.set_size(4);
     }
@@ -290,6 +298,7 @@ public:
          double temperature=1.0): CARMA_Base<arma::cx_vec>(track, name, time, y, yerr, temperature), p_(p)
 	{
         pKFilter_ = std::make_shared<KalmanFilterp>(time_, y_, yerr_);
+        UseFilterData();
 		value_.set_size(p_+3);
         ma_coefs_ = arma::zeros(p);
         ma_coefs_(0) = 1.0;
-- 
2.43.0


From 8721cde6553af72ea754abecdb637cd898a5c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:58 +0000
Subject: [PATCH 06/16] fix: draw all starting values from the global random
 number generator

The starting values of the autoregressive and moving average parameters
came from Armadillo's own generator, so setting the seed of the global
generator did not make a run reproducible.
---
 src/carpack.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 8b575bc..668c7c2 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -274,7 +274,9 @@ arma::vec CARp::StartingAR() {
     // Obtain initial values for Lorentzian centroids (= system frequencies) and
     // widths (= break frequencies)
     arma::vec lorentz_cent((p_+1)/2);
-    lorentz_cent.randu();
+    for (std::uint64_t i=0; i<lorentz_cent.n_elem; i++) {
+        lorentz_cent(i) = RandGen.uniform();
+    }
     lorentz_cent = log(max_freq_ / min_freq) * lorentz_cent + log(min_freq);
     lorentz_cent = arma::exp(lorentz_cent);
     
@@ -282,7 +284,9 @@ arma::vec CARp::StartingAR() {
     lorentz_cent = arma::sort(lorentz_cent, "descend");
     
     arma::vec lorentz_width((p_+1)/2);
-    lorentz_width.randu();
+    for (std::uint64_t i=0; i<lorentz_width.n_elem; i++) {
+        lorentz_width(i) = RandGen.uniform();
+    }
     lorentz_width = log(max_freq_ / min_freq) * lorentz_width + log(min_freq);
     lorentz_width = arma::exp(lorentz_width);
     
@@ -517,7 +521,9 @@ arma::vec CARMA::SetStartingValue(arma::vec init)
 // get initial guess for the moving average polynomial coefficients
 arma::vec CARMA::StartingMA() {
     arma::vec ma_quad(q_);
-    ma_quad.randn();
+    for (int i=0; i<q_; i++) {
+        ma_quad(i) = RandGen.normal(0.0, 1.0);
+    }
     return arma::abs(ma_quad);
 }
 
-- 
2.43.0


From 4b450026694c7171e801fd526c9bcdff0d230c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:58 +0000
Subject: [PATCH 07/16] fix: return no samples from a chain that has not
 recorded any

getSamples() read the first element of an empty vector.
---
 src/include/carpack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 278fe3a..9d74253 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -209,7 +209,7 @@ public:
     // Return a copy of the MCMC samples
     std::vector<std::vector<double> > getSamples() {
         int nx = samples_.size();
-        int ny = samples_[0].n_elem;
+        int ny = (nx > 0) ? samples_[0].n_elem : 0;
         std::vector<std::vector<double> > samples(nx,std::vector<double>(ny));
         for (int i = 0; i < nx; i++) {
             samples[i] = arma::conv_to<std::vector<double> >::from(samples_[i]);
-- 
2.43.0


From aa1578033af92ae0468db369424ddb43277e737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:00 +0000
Subject: [PATCH 08/16] fix: store the log-density of the value that is saved

The CARMA models hid Parameter::Save with a version taking a non-const
reference. It took the log-density from whatever the Kalman filter was last
run with, so saving a value directly stored the log-density of another one.
The inherited method evaluates the log-density of the saved value.
---
 src/include/carpack.hpp | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 9d74253..6b825a5 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -86,27 +86,6 @@ public:
         return theta_str;
     }
 
-    
-    void Save(arma::vec& new_value)
-    {
-        // new carma value ---> value_
-        value_ = new_value;
-        
-        // Update the log-posterior using this new value of theta.
-        //
-        // IMPORTANT: This assumes that the Kalman filter was calculated
-        // using the value of new_value.
-        //
-        log_posterior_ = 0.0;
-        double mu = new_value(2);
-        for (std::uint64_t i=0; i<time_.n_elem; i++) {
-            double ycent = y_(i) - pKFilter_->mean(i) - mu;
-            log_posterior_ += -0.5 * log(pKFilter_->var(i)) - 0.5 * ycent * ycent / pKFilter_->var(i);
-        }
-        log_posterior_ += LogPrior(new_value);
-
-    }
-    
     // extract the lorentzian parameters from the CARMA parameter vector
     virtual OmegaType ExtractAR(arma::vec theta) = 0;
     // extract the moving-average parameters from the CARMA parameter vector
-- 
2.43.0


From c036843bc77a5d837288a178cbd66311322de3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:40 +0000
Subject: [PATCH 09/16] fix: use integer division for loop counts in add_mle

Under Python 3 the ranges over pairs of roots raised TypeError, so adding a
maximum-likelihood estimate to a sample always failed.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index bcc5a9c..dcf653b 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -339,7 +339,7 @@ class CarmaSample(samplers.MCMCSample):
         psd_width = np.zeros(self.p)
         psd_cent = np.zeros(self.p)
 
-        for i in range(self.p / 2):
+        for i in range(self.p // 2):
             quad1 = quad_coefs[2 * i]
             quad2 = quad_coefs[2 * i + 1]
 
@@ -373,7 +373,7 @@ class CarmaSample(samplers.MCMCSample):
         else:
             quad_coefs = np.exp(MLE.x[3 + self.p:])
             ma_roots = np.empty(quad_coefs.size, dtype=complex)
-            for i in range(self.q / 2):
+            for i in range(self.q // 2):
                 quad1 = quad_coefs[2 * i]
                 quad2 = quad_coefs[2 * i + 1]
 
-- 
2.43.0


From 5d3dbd9ec6ffb9aab4676a7b63d0322cc84168a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:40 +0000
Subject: [PATCH 10/16] fix: use integer positions when thinning CAR(1) samples
 for the spectrum

Asking Car1Sample.plot_power_spectrum for a number of samples raised
IndexError because the positions were floating-point.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index dcf653b..61881d3 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -978,7 +978,7 @@ class Car1Sample(CarmaSample):
                 "nsamples must be less than the total number of MCMC samples."
 
             nsamples0 = sigmas.shape[0]
-            index = np.arange(nsamples) * (nsamples0 / nsamples)
+            index = (np.arange(nsamples) * (nsamples0 / nsamples)).astype(int)
             sigmas = sigmas[index]
             log_omegas = log_omegas[index]
 
-- 
2.43.0


From 09197e6cdefe6f82b1d91a4e192fa7d8a8fa7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:40 +0000
Subject: [PATCH 11/16] fix: keep the single-process fits of get_mle in a list

With njobs=1 the fits were a map iterator, which cannot be indexed.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 61881d3..f6a49a5 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -109,7 +109,7 @@ class CarmaModel(object):
         args = [(p, q, self.time, self.y, self.ysig)] * ntrials
 
         if njobs == 1:
-            MLEs = map(_get_mle_single, args)
+            MLEs = list(map(_get_mle_single, args))
         else:
             # use multiple processors
             pool = multiprocessing.Pool(njobs)
-- 
2.43.0


From 19425bf73f4beb8741c2a9ff50c16a8ecf5eb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:40 +0000
Subject: [PATCH 12/16] fix: honour qmax in choose_order

The inner loop ran over every q < p and ignored the requested maximum.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index f6a49a5..c3e1d99 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -162,7 +162,7 @@ class CarmaModel(object):
         if pqlist is None:
             pqlist = []
             for p in range(1, pmax+1):
-                for q in range(p):
+                for q in range(min(p, qmax + 1)):
                     pqlist.append((p, q))
 
         MLEs = []
-- 
2.43.0


From 0355c421906afbc860794947fcec616b535f6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:40 +0000
Subject: [PATCH 13/16] fix: let Car1Sample use a random draw for
 bestfit='random'

The option silently fell through to the posterior mean.
---
 src/carmcmc/carma_pack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index c3e1d99..0beec54 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -934,11 +934,17 @@ class Car1Sample(CarmaSample):
             sigsqr = np.median(self._samples['sigma']) ** 2
             mu = np.median(self._samples['mu'])
             log_omega = np.median(self._samples['log_omega'])
-        else:
+        elif bestfit == 'mean':
             # use posterior mean as the best-fit
             sigsqr = np.mean(self._samples['sigma'] ** 2)
             mu = np.mean(self._samples['mu'])
             log_omega = np.mean(self._samples['log_omega'])
+        else:
+            # use a random draw from the posterior
+            random_index = np.random.randint(0, self._samples['sigma'].shape[0])
+            sigsqr = (self._samples['sigma'][random_index] ** 2)[0]
+            mu = self._samples['mu'][random_index][0]
+            log_omega = self._samples['log_omega'][random_index][0]
 
         kfilter = carmcmcLib.KalmanFilter1(arrayToVec(self.time),
                                            arrayToVec(self.y - mu),
-- 
2.43.0


From 56a591c887ab4d959c2fc8785ebe323e80086c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:40 +0000
Subject: [PATCH 14/16] fix: accept integer times and list coefficients in
 carma_process

The output took the type of the times, truncating values for integer times,
and a full-length list of moving-average coefficients raised AttributeError.
---
 src/carmcmc/carma_pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 0beec54..d94816d 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1172,6 +1172,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         # generate a CAR(1) process
         return car1_process(time, sigsqr, -1.0 / ar_roots.item())
 
+    ma_coefs = np.asarray(ma_coefs)
     if len(ma_coefs) < p:
         # add extra zeros to end of ma_coefs
         q = len(ma_coefs)
@@ -1235,7 +1236,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     kalman_var = np.real((rotated_MA_coefs * PredictionVar * rotated_MA_coefs.H).item())
 
     # simulate the first time series value
-    y = np.empty_like(time)
+    y = np.empty(time.size)
     y[0] = np.random.normal(kalman_mean, np.sqrt(kalman_var))
 
     # Initialize the innovations, i.e., the KF residuals
-- 
2.43.0


From e8dca678145e4ae8c8f5d61ecb154a409c788b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:40 +0000
Subject: [PATCH 15/16] fix: return conditional simulations in the order of the
 requested times

The times were sorted before simulating and the values came back in sorted
order, so unsorted requests were paired with the wrong values.
---
 src/include/kfilter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 1e17728..be39d34 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -140,6 +140,8 @@ public:
         
         arma::vec ysimulated(time.n_elem);
         
+        // simulate in time order, but return the values in the order of the input times
+        arma::uvec sort_idx = arma::sort_index(time);
         time = arma::sort(time);
         unsigned int insert_idx = 0;
         arma::vec tinsert(1);
@@ -151,7 +153,7 @@ public:
             insert_idx = 0;
             // first simulate the value at time(i)
             std::pair<double, double> ypredict = this->Predict(time(i));
-            ysimulated(i) = RandGen.normal(ypredict.first, sqrt(ypredict.second));
+            ysimulated(sort_idx(i)) = RandGen.normal(ypredict.first, sqrt(ypredict.second));
             // find the index where time_[insert_idx-1] < time(i) < time_[insert_idx]
             while (time_(insert_idx) < time(i)) {
                 insert_idx++;
@@ -164,7 +166,7 @@ public:
             tinsert(0) = time(i);
             time_.insert_rows(insert_idx, tinsert);
             dt_ = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
-            yinsert(0) = ysimulated(i);
+            yinsert(0) = ysimulated(sort_idx(i));
             y_.insert_rows(insert_idx, yinsert);
             yerr_.insert_rows(insert_idx, yerr_insert);
             mean.zeros(time_.n_elem);
-- 
2.43.0


From bac0b6cb86d94f27111b1b67d4bc8abc338da558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:40 +0000
Subject: [PATCH 16/16] fix: keep predicted means and variances as floats in
 the Python filter

They took the type of the times, so integer times failed.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index d94816d..19dc5a5 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1333,8 +1333,8 @@ class KalmanFilterDeprecated(object):
         self._KalmanGain = np.zeros_like(self._StateVector)
 
         # Initialize the Kalman mean and variance. These are the forecasted values and their variances.
-        self.kalman_mean = np.empty_like(self.time)
-        self.kalman_var = np.empty_like(self.time)
+        self.kalman_mean = np.empty(self.time.size)
+        self.kalman_var = np.empty(self.time.size)
         self.kalman_mean[0] = 0.0
         self.kalman_var[0] = np.real(self._rotated_MA_coefs * self._PredictionVar * self._rotated_MA_coefs.H) \
                              + self.yvar[0]
-- 
2.43.0

