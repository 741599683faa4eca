From a1c9e94558fca2de24bf89bb97cf93a74190577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 01/88] fix: do not discard an input that was never given when
 the observer advances

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3c595aa..3a40e2c 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -156,7 +156,7 @@ ObserverBase::StateVector ZeroDelayObserver::getEstimatedState(TimeIndex k)
     if(y_.getFirstIndex() < k) y_.popFront();
 
     if(p_ > 0)
-      if(u_.getFirstIndex() < k) u_.popFront();
+      if(u_.size() > 0 && u_.getFirstIndex() < k) u_.popFront();
   }
 
   return x_();
-- 
2.43.0


From 74c74c1685a51f7730ba366903d762686092dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 02/88] fix: the time of the last input does not depend on the
 measurements

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3a40e2c..ee6defb 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -187,7 +187,7 @@ TimeSize ZeroDelayObserver::getInputsNumber() const
 TimeIndex ZeroDelayObserver::getInputTime() const
 {
 
-  BOOST_ASSERT(y_.size() > 0 && "ERROR: There is no measurements registered (past measurements are erased)");
+  BOOST_ASSERT(u_.size() > 0 && "ERROR: There is no inputs registered (past inputs are erased)");
   return u_.getLastIndex();
 }
 
-- 
2.43.0


From 26d1502a1ec07d3e9e627dfd4ad0003d66172e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 03/88] fix: setting the state back in time clears the
 measurements and the inputs, as documented

---
 src/zero-delay-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index ee6defb..b8be6e1 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -7,9 +7,11 @@ void ZeroDelayObserver::setState(const ObserverBase::StateVector & x_k, TimeInde
 {
   BOOST_ASSERT(checkStateVector(x_k) && "The size of the state vector is incorrect");
 
+  const bool backInTime = stateIsSet() && k < getCurrentTime();
+
   x_.set(x_k, k);
 
-  if(k < getCurrentTime())
+  if(backInTime)
   {
     y_.clear();
     u_.clear();
-- 
2.43.0


From 374381cbf801e3d5f6dbc2d390cfc4f460a14947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 04/88] fix: the extended Kalman filter does not reuse
 predictions made from another state or input

---
 .../observer/extended-kalman-filter.hpp       | 28 +++++++++
 src/extended-kalman-filter.cpp                | 58 ++++++++++++++++++-
 2 files changed, 84 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 73a9019..ff0e7b2 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -80,6 +80,27 @@ public:
                        bool directInputOutputFeedthrough,
                        bool directInputStateProcessFeedthrough);
 
+  /// Set the value of the state vector at time index k (see ZeroDelayObserver)
+  virtual void setState(const ObserverBase::StateVector & x_k, TimeIndex k);
+
+  /// Modify the value of the state vector at the current time (see ZeroDelayObserver)
+  virtual void setCurrentState(const ObserverBase::StateVector & x_k);
+
+  /// Removes the state estimation
+  virtual void clearStates();
+
+  /// Set the value of the input vector at time index k (see ZeroDelayObserver)
+  virtual void setInput(const ObserverBase::InputVector & u_k, TimeIndex k);
+
+  /// Set the input value at the next time index
+  virtual void pushInput(const ObserverBase::InputVector & u_k);
+
+  /// Remove all the given values of the inputs
+  virtual void clearInputs();
+
+  /// Remove all the given values of the inputs and measurements
+  virtual void clearInputsAndMeasurements();
+
   /// Set a pointer to the functor that defines the dynamics of the states
   /// and the measurement the user is responsible for the validity of the
   /// pointer during the execution of the kalman filter
@@ -126,6 +147,13 @@ protected:
   /// predicts the measurement using the functor, assumed that the predicted state is up-to-date
   virtual MeasureVector predictSensor_(TimeIndex k);
 
+  /// the predictions computed so far do not match the state and the inputs anymore
+  void invalidatePredictions_();
+
+  /// tell if the last predictions were computed with the current state, inputs and functor
+  bool statePredictionIsValid_ = false;
+  bool measurementPredictionIsValid_ = false;
+
   /// boolean that provides if theris a need of not for input for the masurement
   bool directInputOutputFeedthrough_;
 
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 79e7cde..f3f232e 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -54,6 +54,7 @@ ExtendedKalmanFilter::ExtendedKalmanFilter(Index n,
 void ExtendedKalmanFilter::setFunctor(DynamicalSystemFunctorBase * f)
 {
   f_ = f;
+  invalidatePredictions_();
   // f_->reset();
 }
 
@@ -67,11 +68,60 @@ void ExtendedKalmanFilter::clearFunctor()
   f_ = 0x0;
 }
 
+void ExtendedKalmanFilter::invalidatePredictions_()
+{
+  statePredictionIsValid_ = false;
+  measurementPredictionIsValid_ = false;
+}
+
+void ExtendedKalmanFilter::setState(const ObserverBase::StateVector & x_k, TimeIndex k)
+{
+  KalmanFilterBase::setState(x_k, k);
+  invalidatePredictions_();
+}
+
+void ExtendedKalmanFilter::setCurrentState(const ObserverBase::StateVector & x_k)
+{
+  KalmanFilterBase::setCurrentState(x_k);
+  invalidatePredictions_();
+}
+
+void ExtendedKalmanFilter::clearStates()
+{
+  KalmanFilterBase::clearStates();
+  invalidatePredictions_();
+}
+
+void ExtendedKalmanFilter::setInput(const ObserverBase::InputVector & u_k, TimeIndex k)
+{
+  KalmanFilterBase::setInput(u_k, k);
+  invalidatePredictions_();
+}
+
+void ExtendedKalmanFilter::pushInput(const ObserverBase::InputVector & u_k)
+{
+  KalmanFilterBase::pushInput(u_k);
+  invalidatePredictions_();
+}
+
+void ExtendedKalmanFilter::clearInputs()
+{
+  KalmanFilterBase::clearInputs();
+  invalidatePredictions_();
+}
+
+void ExtendedKalmanFilter::clearInputsAndMeasurements()
+{
+  KalmanFilterBase::clearInputsAndMeasurements();
+  invalidatePredictions_();
+}
+
 void ExtendedKalmanFilter::setDirectInputOutputFeedthrough(bool b)
 {
   if(p_ > 0)
   {
     directInputOutputFeedthrough_ = b;
+    invalidatePredictions_();
   }
 }
 
@@ -80,12 +130,13 @@ void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)
   if(p_ > 0)
   {
     directInputStateProcessFeedthrough_ = b;
+    invalidatePredictions_();
   }
 }
 
 ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 {
-  if(!xbar_.isSet() || xbar_.getTime() != k)
+  if(!statePredictionIsValid_ || !xbar_.isSet() || xbar_.getTime() != k)
   {
     if((p_ > 0) && (directInputStateProcessFeedthrough_))
     {
@@ -99,6 +150,8 @@ ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
     }
     BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
     xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
+    statePredictionIsValid_ = true;
+    measurementPredictionIsValid_ = false;
   }
 
   return xbar_();
@@ -107,9 +160,10 @@ ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 ObserverBase::MeasureVector ExtendedKalmanFilter::predictSensor_(TimeIndex k)
 {
 
-  if(!this->ybar_.isSet() || this->ybar_.getTime() != k)
+  if(!measurementPredictionIsValid_ || !this->ybar_.isSet() || this->ybar_.getTime() != k)
   {
     ybar_.set(simulateSensor_(xbar_(), k), k);
+    measurementPredictionIsValid_ = true;
   }
 
   return ybar_();
-- 
2.43.0


From 0a61e38ba3e6200d36531edd6f0ee3204916a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 05/88] fix: the finite difference measurement Jacobian has the
 size of the measurement tangent space

---
 .../state-observation/observer/extended-kalman-filter.hpp | 1 +
 src/extended-kalman-filter.cpp                            | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index ff0e7b2..7142855 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -174,6 +174,7 @@ protected:
     ObserverBase::StateVector dx_;
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
+    KalmanFilterBase::MeasureVectorTan dy_;
 
   } opt;
 
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index f3f232e..192cffb 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -238,7 +238,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 {
   TimeIndex k = this->x_.getTime();
 
-  opt.c_.resize(m_, nt_);
+  opt.c_.resize(mt_, nt_);
 
   updateStateAndMeasurementPrediction();
 
@@ -255,10 +255,10 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    opt.yp_ -= ybar_();
-    opt.yp_ /= dx[i];
+    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    opt.dy_ /= dx[i];
 
-    opt.c_.col(i) = opt.yp_;
+    opt.c_.col(i) = opt.dy_;
   }
 
   return opt.c_;
-- 
2.43.0


From 384ee92208677fef2b7d011cc3e203b7303c2822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 06/88] fix: symmetrize the state covariance without aliasing

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index c108803..27cb8c9 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -165,7 +165,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   pr_ *= oc_.pbar;
 
   // simmetrize the pr_ matrix
-  pr_ = (pr_ + pr_.transpose()) * 0.5;
+  pr_ = (pr_ + pr_.transpose().eval()) * 0.5;
 
   return oc_.xhat;
 }
-- 
2.43.0


From 97f4071e01bf2980c3d423d086782d86aa5a093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 07/88] fix: a Kalman step that fails leaves the state and its
 covariance unchanged

---
 .../state-observation/observer/kalman-filter-base.hpp |  1 +
 src/kalman-filter-base.cpp                            | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/state-observation/observer/kalman-filter-base.hpp b/include/state-observation/observer/kalman-filter-base.hpp
index a4b7bab..e550b96 100644
--- a/include/state-observation/observer/kalman-filter-base.hpp
+++ b/include/state-observation/observer/kalman-filter-base.hpp
@@ -366,6 +366,7 @@ protected:
   {
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW
     Matrix pbar;
+    Matrix phat;
     Vector xhat;
     Vector inoMeas;
     Matrix inoMeasCov;
diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 27cb8c9..5fcd375 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -159,13 +159,14 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   std::cout << "Xhat" << std::endl << oc_.xhat.transpose().format(CleanFmt) << std::endl;
 #endif // VERBOUS_KALMANFILTER
 
-  this->x_.set(oc_.xhat, k + 1);
-  pr_.noalias() = -oc_.kGain * c_;
-  pr_.diagonal().array() += 1;
-  pr_ *= oc_.pbar;
+  oc_.phat.noalias() = -oc_.kGain * c_;
+  oc_.phat.diagonal().array() += 1;
+  oc_.phat *= oc_.pbar;
 
   // simmetrize the pr_ matrix
-  pr_ = (pr_ + pr_.transpose().eval()) * 0.5;
+  // the covariance and the state are only modified here, once nothing can fail anymore
+  pr_ = (oc_.phat + oc_.phat.transpose()) * 0.5;
+  this->x_.set(oc_.xhat, k + 1);
 
   return oc_.xhat;
 }
-- 
2.43.0


From daa3c16b3041bc507a52d925271e163d5a858e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 08/88] fix: setting the time of the last element of a
 time-indexed array gives it that time

The first index was computed two steps too early, so that the last element ended at
index-2.
---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 6933f0e..37a1d89 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -355,7 +355,7 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 template <typename MatrixType, typename Allocator>
 inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
 {
-  return k_=index-(v_.size()+1);
+  return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-- 
2.43.0


From 2b0be8ee7cbaf6bf3cef0d3db3af28e99e876a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 09/88] fix: truncating a time-indexed array before a time
 keeps the element of that time and all the indexes

Truncating before the last index dropped the last element as well, and truncating before a
time earlier than the first one shifted the times of all the elements.
---
 include/state-observation/tools/definitions.hxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 37a1d89..78b6299 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -476,14 +476,12 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore(TimeIndex time)
 {
   if (v_.size()>0)
   {
-    if (time < getLastIndex())
+    if (time <= getLastIndex())
     {
-      for (TimeIndex i=getFirstIndex(); i<time ; ++i)
+      while (getFirstIndex() < time)
       {
-        v_.pop_front();
+        popFront();
       }
-
-      setFirstIndex(time);
     }
     else
     {
-- 
2.43.0


From f82559528734df6fc1b166fd6c9be2d12be14602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 10/88] fix: a failed insertion in an empty time-indexed array
 does not move its time index

---
 include/state-observation/tools/definitions.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 78b6299..31bf554 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -264,10 +264,12 @@ inline void IndexedMatrixArrayT<MatrixType, Allocator >::setValue(const MatrixTy
     else
     {
         checkNext_(k);
-        if (v_.size()==0)
-            k_=k;
+        const bool wasEmpty = v_.empty();
 
         v_.push_back(v);
+
+        if (wasEmpty)
+            k_=k;
     }
 }
 
-- 
2.43.0


From 96782da6242dddf4b5e00d336ab3926e63b6e9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 11/88] fix: reading a truncated file does not add records that
 were not written

The last record of a truncated file, or the end of a file without time stamps, was read as a
record filled with zeros or with the values of the previous one; a blank line replaced the
element of time zero by an empty vector.
---
 .../state-observation/tools/definitions.hxx   | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 31bf554..b3de96b 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -525,18 +525,19 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
       }
 
 
-      if (f.fail())
-        continuation=false;
-      else
+      for (Index i = 0 ; i<rows; ++i)
       {
-        for (Index i = 0 ; i<rows; ++i)
+        for (Index j = 0 ; j<cols; ++j)
         {
-          for (Index j = 0 ; j<cols; ++j)
-          {
-            f >> m(i,j);
-          }
+          f >> m(i,j);
         }
+      }
 
+      ///an incomplete record is not a record
+      if (f.fail())
+        continuation=false;
+      else
+      {
         setValue(m,k);
         ++k;
       }
@@ -578,11 +579,9 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readVectorsFromFile(const char
         ss >> k;
       }
 
-
-
       if (f.fail())
         continuation=false;
-      else
+      else if (!ss.fail()) ///a line without time stamp is not a record
       {
         std::vector<double> doublecontainer;
         double component;
@@ -605,9 +604,12 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readVectorsFromFile(const char
         {
           v(i)=doublecontainer[size_t(i)];
         }
-        setValue(v,k);
-        ++k;
-
+        ///the last line can be cut before its first value
+        if (v.size()>0 || !f.eof())
+        {
+          setValue(v,k);
+          ++k;
+        }
       }
     }
   }
-- 
2.43.0


From 679727c56ea883fd299979d65ce22c3fd4f7cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 12/88] fix: report a file that could not be written and keep
 its data in memory

A full disk or any other write error was ignored, and the data were cleared as if they had
been saved.
---
 include/state-observation/tools/definitions.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index b3de96b..8c04690 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -658,6 +658,16 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::writeInFile(const char * filena
       }
     }
 
+    f.close();
+
+    if (f.fail())
+    {
+      std::stringstream ss;
+      ss<< "Logger: File " <<filename<<" could not be written.";
+      std::runtime_error e(ss.str().c_str());
+      throw e;
+    }
+
     if (clearLog)
     {
       clear();
-- 
2.43.0


From d893c3f7e1b4bc92952e488baad93cac096e6eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:30 +0000
Subject: [PATCH 13/88] fix: the logger can push a single variable

Pushing one variable dereferenced it instead of taking its address, and threw even when the
variable was tracked.
---
 include/state-observation/tools/logger.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f465474..6782e4a 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -36,20 +36,24 @@ namespace stateObservation
     template <typename T>
     void Logger::push(const T * address)
     {
-      Tmap::iterator i= logs_.find( * address );
+      Tmap::iterator i= logs_.find( address );
 
       if (i!=logs_.end())
+      {
         update_(i);
+      }
       else
+      {
         BOOST_ASSERT(false && "The logger cannot find the data to push, please use record function");
         throw std::invalid_argument
                 ("The logger cannot find the data, please use record function");
+      }
     }
 
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push(*reference);
+      push(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From 014f27dec078ec60981a9d8f757d41bc0f6f0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:30 +0000
Subject: [PATCH 14/88] fix: changing the address of a logged variable keeps
 its records

---
 include/state-observation/tools/logger.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 6782e4a..5e3d960 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -68,10 +68,10 @@ namespace stateObservation
       }
       else
       {
-        log_s log(i->second.filename);
+        log_s log(i->second);
         log.setType<T>();
-        logs_.insert(Tpair(newAddress,log));
         logs_.erase(i);
+        logs_.insert(Tpair(newAddress,log));
       }
     }
 
-- 
2.43.0


From 81e19ea3220f4002cc44b3b19b4c820558160618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:30 +0000
Subject: [PATCH 15/88] fix: the logger accepts the unsigned variables that it
 knows how to log

---
 include/state-observation/tools/logger.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 5e3d960..bbe4c6d 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -13,6 +13,7 @@ namespace stateObservation
           && *log.type!=typeid(Vector)
           && *log.type!=typeid(Vector3)
           && *log.type!=typeid(int)
+          && *log.type!=typeid(unsigned)
           && *log.type!=typeid(long)
           && *log.type!=typeid(double)
           && *log.type!=typeid(float))
-- 
2.43.0


From 532110b1bf7362711430553bc4abea76d550c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:30 +0000
Subject: [PATCH 16/88] fix: the logger accepts the address of a variable that
 is not const

The overload taking a reference was preferred, so that the pointer itself was taken for the
variable and refused.
---
 include/state-observation/tools/logger.hpp |  5 +++++
 include/state-observation/tools/logger.hxx | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/state-observation/tools/logger.hpp b/include/state-observation/tools/logger.hpp
index 808b400..e0c8de0 100644
--- a/include/state-observation/tools/logger.hpp
+++ b/include/state-observation/tools/logger.hpp
@@ -25,6 +25,8 @@ public:
   template<typename T>
   void record(const T * address, const std::string & filename = std::string(""));
   template<typename T>
+  void record(T * address, const std::string & filename = std::string(""));
+  template<typename T>
   void record(const T & reference, const std::string & filename = std::string(""));
 
   /// updates the address of a recorded variable with a new address
@@ -41,6 +43,9 @@ public:
   template<typename T>
   void push(const T * address);
 
+  template<typename T>
+  void push(T * address);
+
   /// updates all the logs for all recorded variables
   void push();
 
diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index bbe4c6d..57283e1 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -28,6 +28,12 @@ namespace stateObservation
       logs_.insert(Tpair(address,log));
     }
 
+    template <typename T>
+    void Logger::record(T * address, const std::string& filename)
+    {
+      record(static_cast<const T *>(address),filename);
+    }
+
     template <typename T>
     void Logger::record(const T & reference, const std::string& filename)
     {
@@ -51,6 +57,12 @@ namespace stateObservation
       }
     }
 
+    template <typename T>
+    void Logger::push(T * address)
+    {
+      push(static_cast<const T *>(address));
+    }
+
     template <typename T>
     void Logger::push(const T & reference)
     {
-- 
2.43.0


From 8dfa1d15a9618881a36f6235017c62644264f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 17/88] fix: clamping the bias of the DCM leaves the unlimited
 axis alone and moves the excess in the world frame

The axis without limit received an uninitialized value when only the other one was limited, and
the excess, expressed in the local frame, was added to the DCM of the world frame.
---
 src/lipm-dcm-estimator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index a624a09..f034fbd 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -179,7 +179,7 @@ void LipmDcmEstimator::update()
   if(biasLimit_.x() > 0 || biasLimit_.y() > 0)
   {
     Vector2 localBias = getLocalBias();
-    Vector2 clampedLocalBias;
+    Vector2 clampedLocalBias = localBias;
     if(biasLimit_.x() > 0)
     {
       clampedLocalBias.x() = tools::clampScalar(localBias.x(), biasLimit_.x());
@@ -190,7 +190,7 @@ void LipmDcmEstimator::update()
     }
 
     setBias(previousOrientation_ * clampedLocalBias);
-    setUnbiasedDCM(getUnbiasedDCM() + localBias - clampedLocalBias);
+    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));
   }
 }
 
-- 
2.43.0


From aa1308b2cf617d64444bd75e64301812c482279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 18/88] fix: setting the DCM measurement error has an effect

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index f034fbd..05719c0 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -169,8 +169,8 @@ void LipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void LipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix2 R;
-  R = dblToSqDiag(std);
+  R_ = dblToSqDiag(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void LipmDcmEstimator::update()
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ee7c751..466bca7 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -162,8 +162,8 @@ void UnidimLipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void UnidimLipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix1 R;
-  R(0, 0) = square(std);
+  R_(0, 0) = square(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void UnidimLipmDcmEstimator::setInputs(double dcm, double zmp)
-- 
2.43.0


From aa13629eb4b0c8a260460a8507565d88caffcfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 19/88] fix: the bias drift set afterwards has the meaning and
 the lifetime of the one given on construction

It was not scaled by the sampling time, contrary to the constructor, and it was forgotten as soon
as the sampling time, the natural frequency or the ZMP error was set.
---
 src/lipm-dcm-estimator.cpp        | 5 ++---
 src/unidim-lipm-dcm-estimator.cpp | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 05719c0..100b4f5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -132,9 +132,8 @@ void LipmDcmEstimator::setBias(const Vector2 & bias, const Vector2 & uncertainty
 
 void LipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  /// update the corresponding part in the process noise matrix
-  Q_.bottomRightCorner<2, 2>() = dblToSqDiag(driftPerSecond);
-  filter_.setProcessCovariance(Q_);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void LipmDcmEstimator::setBiasLimit(const Vector2 & biasLimit)
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index 466bca7..c9b2738 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -130,10 +130,8 @@ void UnidimLipmDcmEstimator::setBias(double bias, double uncertainty)
 
 void UnidimLipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  Matrix2 Q = filter_.getProcessCovariance();
-  /// update the corresponding part in the process noise matrix
-  Q(1, 1) = square(driftPerSecond);
-  filter_.setProcessCovariance(Q);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void UnidimLipmDcmEstimator::setUnbiasedDCM(double dcm)
-- 
2.43.0


From 8fe922ddb8383ac5f44a8edefd8d5347986a214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 20/88] fix: a pending DCM measurement is processed before the
 orientation changes

It was processed with the rotation of the next sample when the update came late.
---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 100b4f5..337d6a5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -197,7 +197,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 1)
+    if(filter_.getMeasurementsNumber() > 0 && filter_.getMeasurementTime() > filter_.getCurrentTime())
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From 411cb01e375c863615e559b32f67237dc29175c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 21/88] fix: updating the unidimensional DCM estimator without
 a new measurement keeps its estimate

---
 .../dynamics-estimators/unidim-lipm-dcm-estimator.hpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp b/include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp
index 329882f..cca12c8 100644
--- a/include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp
+++ b/include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp
@@ -152,7 +152,8 @@ public:
   /// @return Vector2
   inline Vector2 update()
   {
-    return filter_.getEstimatedState(filter_.getMeasurementTime());
+    filter_.estimateState();
+    return filter_.getCurrentEstimatedState();
   }
 
   /// @brief Get the Unbiased DCM filtered by the estimator
-- 
2.43.0


From 858bb19e1deb2a14ea768910956cdc9e7afac7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:18 +0000
Subject: [PATCH 22/88] fix: setting again the input of a time replaces it in
 the simulator

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 22058ad..56a1657 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -28,7 +28,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
 
 void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 {
-  u_.insert(std::pair<TimeIndex, Vector>(k, u));
+  u_[k] = u;
 }
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
-- 
2.43.0


From afc8305197117825f2c5b3d3d5f2c6b68cc79090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:18 +0000
Subject: [PATCH 23/88] fix: the simulator provides the states and the
 measurements that are not simulated yet, and the first ones

Asking for a state or a measurement beyond the simulated ones stopped the simulation one step too
early and accessed a value out of range.
---
 src/dynamical-system-simulator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 56a1657..58b0401 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -33,8 +33,8 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
-  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() < k) && "ERROR: Only future measurements can be obtained");
-  if(y_.getNextIndex() < k) simulateDynamicsTo(k);
+  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
+  if(!y_.checkIndex(k)) simulateDynamicsTo(k + 1);
 
   return y_[k];
 }
@@ -42,7 +42,7 @@ Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 Vector DynamicalSystemSimulator::getState(TimeIndex k)
 {
   BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k - 1);
+  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k);
 
   return x_[k];
 }
@@ -89,7 +89,7 @@ void DynamicalSystemSimulator::simulateDynamicsTo(TimeIndex k)
 
 IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > y_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT(startingTime >= y_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
   IndexedVectorArray a;
 
   for(TimeIndex i = startingTime; i < startingTime + TimeIndex(duration); ++i)
@@ -101,7 +101,7 @@ IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex start
 
 IndexedVectorArray DynamicalSystemSimulator::getStateArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT(startingTime >= x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
 
   IndexedVectorArray a;
 
-- 
2.43.0


From c30332f08f54cd524befae08228e419db08c8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:18 +0000
Subject: [PATCH 24/88] fix: setting a state in the simulator keeps its
 measurements consistent

The measurements of the replaced states were still provided, and setting the next state made the
simulation impossible because the measurement of the previous one was missing.
---
 src/dynamical-system-simulator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 58b0401..799dfdd 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -23,6 +23,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
                && "ERROR: Only consecutive states can be set. If you want to restart a new dynamics please call "
                   "resetDynamics before");
   x_.truncateAfter(k - 1);
+  y_.truncateAfter(k - 1);
   x_.setValue(x, k);
 }
 
@@ -75,6 +76,11 @@ void DynamicalSystemSimulator::simulateDynamics()
 
   TimeIndex k(x_.getLastIndex());
   Vector u = getInput(k);
+  /// the measurements of the states that were set without being simulated
+  for(TimeIndex i = y_.getNextIndex(); y_.size() > 0 && i < k; ++i)
+  {
+    y_.setValue(f_->measureDynamics(x_[i], getInput(i), i), i);
+  }
   y_.setValue(f_->measureDynamics(x_[k], u, k), k);
   x_.setValue(f_->stateDynamics(x_[k], u, k), k + 1);
 }
-- 
2.43.0


From 7f7e911f3568b528a2302c87f2769e0c555d525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:18 +0000
Subject: [PATCH 25/88] fix: asking the simulator for an input before the first
 one is refused without reading out of range

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 799dfdd..568d1f5 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -63,9 +63,9 @@ Vector DynamicalSystemSimulator::getInput(TimeIndex k) const
   BOOST_ASSERT(u_.size() > 0 && "ERROR: the input is not set");
   std::map<TimeIndex, Vector>::const_iterator i = u_.upper_bound(k);
 
-  --i;
+  BOOST_ASSERT(i != u_.begin() && "ERROR: the input is not set for the current time");
 
-  BOOST_ASSERT(i->first <= k && "ERROR: the input is not set for the current time");
+  --i;
 
   return i->second;
 }
-- 
2.43.0


From f0e9467fc75c3d1ecd66e2d876d185b056be1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 26/88] fix: a sensor whose measurements are concatenated with
 inputs can be read with noise

---
 src/algebraic-sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index 09affd5..61ee98d 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -67,7 +67,7 @@ Vector AlgebraicSensor::computeNoisyMeasurement_()
 {
   if(!storedNoiselessMeasurement_)
   {
-    BOOST_ASSERT(checkStateVector(state_) && "The state is not set or incorrectly set");
+    BOOST_ASSERT(state_.rows() == getStateSize_() && "The state is not set or incorrectly set");
 
     if(concat_ > 0)
       noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
-- 
2.43.0


From 48210f2a2f9fe6ad490b8472fce14ff4dd4a8ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:17 +0000
Subject: [PATCH 27/88] fix: an array of measurements can be asked for before
 anything is simulated

---
 src/dynamical-system-simulator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 568d1f5..facc313 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -95,7 +95,8 @@ void DynamicalSystemSimulator::simulateDynamicsTo(TimeIndex k)
 
 IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime >= y_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT((y_.size() == 0 || startingTime >= y_.getFirstIndex())
+               && "ERROR: The starting time is too early, try later starting time");
   IndexedVectorArray a;
 
   for(TimeIndex i = startingTime; i < startingTime + TimeIndex(duration); ++i)
-- 
2.43.0


From 930df6d0c55023787037de0576c6ff15b5736355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 28/88] fix: the measurement of a state that was set and not
 simulated yet is provided

---
 src/dynamical-system-simulator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index facc313..669b193 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
 
 namespace stateObservation
@@ -35,7 +37,7 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
   BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(!y_.checkIndex(k)) simulateDynamicsTo(k + 1);
+  if(!y_.checkIndex(k)) simulateDynamicsTo(std::max<TimeIndex>(k, x_.getLastIndex()) + 1);
 
   return y_[k];
 }
-- 
2.43.0


From 50f7401be8a8f7cbccbab982444b01df7fa7f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 29/88] fix: a simulation step that fails leaves no measurement
 behind

---
 src/dynamical-system-simulator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 669b193..246c8d0 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -83,8 +83,11 @@ void DynamicalSystemSimulator::simulateDynamics()
   {
     y_.setValue(f_->measureDynamics(x_[i], getInput(i), i), i);
   }
-  y_.setValue(f_->measureDynamics(x_[k], u, k), k);
-  x_.setValue(f_->stateDynamics(x_[k], u, k), k + 1);
+  /// both are evaluated before any is recorded, in case one of them fails
+  Vector y = f_->measureDynamics(x_[k], u, k);
+  Vector x = f_->stateDynamics(x_[k], u, k);
+  y_.setValue(y, k);
+  x_.setValue(x, k + 1);
 }
 
 void DynamicalSystemSimulator::simulateDynamicsTo(TimeIndex k)
-- 
2.43.0


From 1e1707dfff69e0fa8d2b1d1d0764b543710e9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 30/88] fix: the tilt estimator processes several pending
 measurements

---
 src/tilt-estimator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tilt-estimator.cpp b/src/tilt-estimator.cpp
index 6d6c5d5..9b5ed65 100644
--- a/src/tilt-estimator.cpp
+++ b/src/tilt-estimator.cpp
@@ -42,7 +42,8 @@ ObserverBase::StateVector TiltEstimator::oneStepEstimation_()
 
   x_hat.tail<3>() /= x_hat.tail<3>().norm();
 
-  setState(x_hat, k + 1);
+  /// the measurements are discarded by the observer once they are used
+  x_.set(x_hat, k + 1);
 
   return x_hat;
 }
-- 
2.43.0


From 4212c192c7e55a6aa8c38c323c213d79ed0844d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:55 +0000
Subject: [PATCH 31/88] fix: a copied Kalman filter does not depend on the
 original

---
 .../observer/kalman-filter-base.hpp                  |  8 ++++++++
 src/extended-kalman-filter.cpp                       |  8 ++++----
 src/kalman-filter-base.cpp                           | 12 ++++++------
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/state-observation/observer/kalman-filter-base.hpp b/include/state-observation/observer/kalman-filter-base.hpp
index e550b96..1e28bc6 100644
--- a/include/state-observation/observer/kalman-filter-base.hpp
+++ b/include/state-observation/observer/kalman-filter-base.hpp
@@ -376,8 +376,16 @@ protected:
     Matrix t;
   } oc_;
 
+  /// The arithmetics given by the user, null when the filter uses its own. (A pointer to this object
+  /// would refer to the original in the copies of the filter.)
   StateVectorArithmetics * arithm_;
 
+  /// The arithmetics to use
+  inline StateVectorArithmetics * arithmetics_()
+  {
+    return arithm_ != 0x0 ? arithm_ : this;
+  }
+
 public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 192cffb..8b4f190 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -220,11 +220,11 @@ KalmanFilterBase::Amatrix // ExtendedKalmanFilter<n,m,p>::Amatrix does not work
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(this->x_(), opt.dx_, opt.x_);
+    arithmetics_()->stateSum(this->x_(), opt.dx_, opt.x_);
 
     opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k);
 
-    arithm_->stateDifference(opt.xp_, xbar_(), opt.dx_);
+    arithmetics_()->stateDifference(opt.xp_, xbar_(), opt.dx_);
 
     opt.dx_ /= dx[i];
 
@@ -251,11 +251,11 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(xbar_(), opt.dx_, opt.xp_);
+    arithmetics_()->stateSum(xbar_(), opt.dx_, opt.xp_);
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    arithmetics_()->measurementDifference(opt.yp_, ybar_(), opt.dy_);
     opt.dy_ /= dx[i];
 
     opt.c_.col(i) = opt.dy_;
diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 5fcd375..574669a 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,15 +12,15 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(0x0) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
-: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(0x0)
 {
 }
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index nt, Index m, Index mt, Index p)
-: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(0x0)
 {
 }
 
@@ -122,7 +122,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   oc_.pbar.noalias() = q_ + a_ * (pr_ * a_.transpose());
 
   // innovation Measurements
-  arithm_->measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
+  arithmetics_()->measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
   oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());
 
   Index & measurementTangentSize = mt_;
@@ -139,7 +139,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
 
   // update
 
-  arithm_->stateSum(xbar_(), innovation_, oc_.xhat);
+  arithmetics_()->stateSum(xbar_(), innovation_, oc_.xhat);
 
 #ifdef VERBOUS_KALMANFILTER
   Eigen::IOFormat CleanFmt(2, 0, " ", "\n", "", "");
@@ -411,7 +411,7 @@ Vector KalmanFilterBase::predictSensor_(TimeIndex k)
 
 void KalmanFilterBase::setStateArithmetics(StateVectorArithmetics * a)
 {
-  arithm_ = a;
+  arithm_ = (a == this) ? 0x0 : a;
 }
 
 } // namespace stateObservation
-- 
2.43.0


From 49f50c15b0893b3e313ab3f39bb5c33d2ce66d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:55 +0000
Subject: [PATCH 32/88] fix: the default IMU covariance of the flexibility
 estimator is fully initialised

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 82eb8e2..2e37a11 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -80,7 +80,7 @@ Matrix ModelBaseEKFFlexEstimatorIMU::getDefaultQ()
 
 Matrix6 ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU()
 {
-  Matrix6 R;
+  Matrix6 R = Matrix6::Zero();
 
   R.block<3, 3>(0, 0) = Matrix3::Identity() * 1.e-6; // accelerometer
   R.block<3, 3>(3, 3) = Matrix3::Identity() * 1.e-6; // gyrometer
-- 
2.43.0


From 91f266f4c3e3bfb994e27da5f988721c422d3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:01 +0000
Subject: [PATCH 33/88] fix: the measurement covariance of the flexibility
 estimator is rebuilt when the set of sensors changes

---
 src/model-base-ekf-flex-estimator-imu.cpp | 33 +++++++++--------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 2e37a11..b121b38 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -265,39 +265,30 @@ void ModelBaseEKFFlexEstimatorIMU::updateMeasurementCovarianceMatrix_()
 
   if(R_.rows() != getMeasurementSize())
   {
+    Index currIndex = 6;
 
-    Index realIndex = R_.rows();
-    R_.conservativeResize(getMeasurementSize(), getMeasurementSize());
+    /// the covariance of the IMU is kept, the other parts depend on the sensors in use
+    Matrix R = Matrix::Zero(getMeasurementSize(), getMeasurementSize());
+    R.block(0, 0, currIndex, currIndex) = R_.block(0, 0, currIndex, currIndex);
 
-    Index currIndex = 6;
     if(useFTSensors_)
     {
-      /// if the force part of the matrix is not filled
-      if(realIndex < currIndex + functor_.getContactsNumber() * 6)
+      for(Index i = 0; i < functor_.getContactsNumber(); ++i)
       {
-        R_.block(currIndex, 0, functor_.getContactsNumber() * 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, functor_.getContactsNumber() * 6).setZero();
-        for(Index i = 0; i < functor_.getContactsNumber(); ++i)
-        {
-          R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
-          currIndex += 6;
-        }
+        R.block(currIndex, currIndex, 6, 6) = forceVariance_;
+        currIndex += 6;
       }
     }
 
     if(withAbsolutePos_)
     {
-      if(realIndex < currIndex + 6)
-      {
-
-        R_.block(currIndex, 0, 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, 6).setZero();
-        R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
-
-        currIndex += 6;
-      }
+      R.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
+      currIndex += 6;
     }
+
+    R_ = R;
   }
+
   ekf_.setR(R_);
 }
 
-- 
2.43.0


From db33d5bb9df2400d2c1a09d876df60cd443ab1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 34/88] fix: Kinematics::update deduces the angular
 acceleration from the orientation and the previous angular velocity

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15b2688..e88d2a4 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1535,7 +1535,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useVelAndAcc)
+      if(accMethod == useOriAndVel)
       {
         thisAcc = -thisVel();
         thisVel = thisOri.differentiate(newOri) / dt;
-- 
2.43.0


From 4ea1a2ced0b9fc0a84642a2e9dde9dbea06aeb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 35/88] fix: Kinematics::update deduces the angular
 acceleration with the right sign

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index e88d2a4..db1544d 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1529,7 +1529,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
     {
       if(accMethod == useOrientation) // then velocity cannot use accelerations
       {
-        thisAcc = 2 * newOri.differentiate(thisOri) / (dt * dt);
+        thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
     }
 
-- 
2.43.0


From 8b127d0f2da1220e7bd2ac3f3b71a352c5577686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 36/88] fix: Kinematics::update integrates an acceleration
 without velocity as half the square of the time

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index db1544d..862dec6 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1370,7 +1370,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisPos() += thisAcc() * dt * dt / 0.5;
+            thisPos() += thisAcc() * dt * dt / 2;
           }
         }
       }
@@ -1568,7 +1568,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisOri.integrate(thisAcc() * dt * dt / 0.5);
+            thisOri.integrate(thisAcc() * dt * dt / 2);
           }
         }
       }
-- 
2.43.0


From 675d29772bd94692e8a99cb97899ef72bffa5dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:26 +0000
Subject: [PATCH 37/88] fix: the noisy next state of the elastic model is the
 state computed by this call

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 3523fd4..4c396ee 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -907,7 +907,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::stateDynamics(const Vector & x, cons
   }
 
   if(processNoise_ != 0x0)
-    return processNoise_->getNoisy(op_.xk1);
+    return processNoise_->getNoisy(xk1_);
   else
     return xk1_;
 }
-- 
2.43.0


From 37726e1d93feb6b3ca39ef44c07ee38afd02eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:26 +0000
Subject: [PATCH 38/88] fix: the elastic model can give a measurement before
 any state prediction

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 4c396ee..d38af90 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -939,7 +939,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::measureDynamics(const Vector & x, co
   op_.orientationFlexV = x.segment(state::ori, 3);
   op_.angularVelocityFlex = x.segment(state::angVel, 3);
 
-  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts[i] = x.segment(state::fc + 6 * i, 6);
+  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts.setValue(x.segment(state::fc + 6 * i, 6), i);
 
   op_.fm = x.segment(state::unmodeledForces, 3);
   op_.tm = x.segment(state::unmodeledForces + 3, 3);
-- 
2.43.0


From 8aff6b8dae2b4a7f6060dad7c7c040b4aa406973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:26 +0000
Subject: [PATCH 39/88] fix: the momenta derivatives of the elastic model use
 the configured mass

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index d38af90..094b623 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -173,9 +173,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromForces(const Vector
   computeContactWrench(op_.rFlex, op_.positionFlex, op_.contactPosV, op_.contactOriV, fc_, tc_, op_.fm, op_.tm,
                        op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = op_.f - hrp2::m * cst::gravity;
+  op_.momentaDot.segment<3>(0) = op_.f - robotMass_ * cst::gravity;
   op_.momentaDot.segment<3>(3) =
-      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * hrp2::m * cst::gravity;
+      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * robotMass_ * cst::gravity;
 
   return op_.momentaDot;
 }
@@ -237,7 +237,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
                        op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
                        op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = hrp2::m
+  op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
                                     + kine::skewSymmetric2(op_.angularVelocityFlex) * op_.rFlex * op_.positionCom
                                     + 2 * kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.velocityCom
@@ -248,7 +248,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
       + op_.rFlex * op_.inertia * op_.rFlexT * op_.angularAcceleration
       + kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.AngMomentum + op_.rFlex * op_.dotAngMomentum
       + kine::skewSymmetric(op_.positionFlex) * op_.momentaDot.segment<3>(0)
-      + hrp2::m * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
+      + robotMass_ * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
 
   return op_.momentaDot;
 }
-- 
2.43.0


From 4a6f6fbadd7189b6aa8b18d86e9ddbeef5c57d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:26 +0000
Subject: [PATCH 40/88] fix: the momenta derivatives from kinematics use the
 angular velocity

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 094b623..8fb8d5b 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -234,8 +234,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
 
   computeAccelerations(op_.positionCom, op_.velocityCom, op_.accelerationCom, op_.AngMomentum, op_.dotAngMomentum,
                        op_.inertia, op_.dotInertia, op_.contactPosV, op_.contactOriV, op_.positionFlex,
-                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
-                       op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
+                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex,
+                       op_.angularVelocityFlex, op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce,
+                       op_.addMoment);
 
   op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
-- 
2.43.0


From 2981db77e5a87a7c34a3d853a3cfbf0900b7c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 41/88] fix: the fixed-contact estimator predicts with the
 sampling period set

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 4cb4a79..841d818 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -219,6 +219,7 @@ const Vector & FixedContactEKFFlexEstimatorIMU::getFlexibilityVector()
 void FixedContactEKFFlexEstimatorIMU::setSamplingPeriod(double dt)
 {
   dt_ = dt;
+  functor_.setSamplingPeriod(dt);
 }
 
 } // namespace flexibilityEstimation
-- 
2.43.0


From 403eeb7ee8040d62806c9242db28a5445eaa49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 42/88] fix: a flexibility guess is the estimate until the next
 measurement

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 2 ++
 src/model-base-ekf-flex-estimator-imu.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 841d818..72142e0 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -120,6 +120,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   if(bstate)
   {
     ekf_.setState(x0, k_);
+    lastX_ = x0;
   }
   else
   {
@@ -132,6 +133,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
     x_s.segment(indexes::ori, 3) = x0.tail(3);
 
     ekf_.setState(x_s, k_);
+    lastX_ = x_s;
 
     ekf_.setQ(Q_);
   }
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index b121b38..7074256 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -170,6 +170,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   if(bstate)
   {
     ekf_.setState(x0, k_);
+    lastX_ = x0;
   }
   else
   {
@@ -182,6 +183,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
     x_s.segment(state::ori, 3) = x0.tail<3>();
 
     ekf_.setState(x_s, k_);
+    lastX_ = x_s;
 
     ekf_.setQ(Q_);
   }
-- 
2.43.0


From f6cdf83988e63066d76bab7ad85a03d9bfd97c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 43/88] fix: accelerations and momenta of the estimate use the
 input of the same time

---
 .../model-base-ekf-flex-estimator-imu.hpp                   | 3 ++-
 src/model-base-ekf-flex-estimator-imu.cpp                   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index adc7df6..f4b4ce8 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -67,7 +67,8 @@ public:
 
   virtual stateObservation::Vector computeAccelerations()
   {
-    return functor_.computeAccelerations(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may advance the time, to do before getting the input
+    return functor_.computeAccelerations(x, getInput());
   }
 
   void setContactModel(unsigned nb);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 7074256..2704df4 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -227,7 +227,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromForces()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromForces(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may advance the time, to do before getting the input
+    return functor_.getMomentaDotFromForces(x, getInput());
   }
   else
   {
@@ -241,7 +242,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromKinematics()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromKinematics(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may advance the time, to do before getting the input
+    return functor_.getMomentaDotFromKinematics(x, getInput());
   }
   else
   {
-- 
2.43.0


From fb09f92e7e12df9421d0340b8d9d43c1e56fa54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:17 +0000
Subject: [PATCH 44/88] fix: the limits apply to the forces and torques of
 every contact

---
 src/model-base-ekf-flex-estimator-imu.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 2704df4..3ef8ef7 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -379,13 +379,16 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
         lastX_.segment(state::ori, 3) = kine::regulateOrientationVector(lastX_.segment(state::ori, 3));
         if(limitOn_)
         {
-          for(int i = 0; i < 3; i++)
+          // Saturation for bounded forces and torques of every contact
+          for(Index c = state::fc; c < state::unmodeledForces; c += 6)
           {
-            // Saturation for bounded forces and torques
-            lastX_[Index(state::fc + 6 + i)] = std::min(lastX_[Index(state::fc + 6 + i)], limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::min(lastX_[Index(state::fc + i)], limitForces_[i]);
-            lastX_[Index(state::fc + 6 + i)] = std::max(lastX_[Index(state::fc + 6 + i)], -limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::max(lastX_[Index(state::fc + i)], -limitForces_[i]);
+            for(Index i = 0; i < 3; ++i)
+            {
+              lastX_[c + i] = std::min(lastX_[c + i], limitForces_[i]);
+              lastX_[c + i] = std::max(lastX_[c + i], -limitForces_[i]);
+              lastX_[c + 3 + i] = std::min(lastX_[c + 3 + i], limitTorques_[i]);
+              lastX_[c + 3 + i] = std::max(lastX_[c + 3 + i], -limitTorques_[i]);
+            }
           }
         }
         ekf_.setState(lastX_, ekf_.getCurrentTime());
-- 
2.43.0


From a77d43ea5dcc97205dab6bdf93694a40be487155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 45/88] fix: resetting the covariances keeps the variances set
 for the force and position sensors

---
 src/model-base-ekf-flex-estimator-imu.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 3ef8ef7..36207be 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -93,8 +93,7 @@ void ModelBaseEKFFlexEstimatorIMU::resetCovarianceMatrices()
 
   /////// std::cout << "\n\n\n ============> RESET COVARIANCE MATRIX <=============== \n\n\n" << std::endl;
 
-  R_ = Matrix::Identity(getMeasurementSize(), getMeasurementSize());
-  R_.block<6, 6>(0, 0) = getDefaultRIMU();
+  R_ = getDefaultRIMU(); // completed with the variances of the other sensors in use
 
   updateMeasurementCovarianceMatrix_();
   stateObservation::Matrix m;
-- 
2.43.0


From 01233a8d8aa5b667a791c1baf7792f5e0a08e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 46/88] fix: force and absolute position variances apply to the
 sensors in use

---
 .../model-base-ekf-flex-estimator-imu.hpp     |  4 ++
 src/model-base-ekf-flex-estimator-imu.cpp     | 37 ++++++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index f4b4ce8..dc82e6b 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -241,6 +241,10 @@ public:
 protected:
   virtual void updateMeasurementCovarianceMatrix_();
 
+  /// apply the variances of the force sensors and of the absolute position to the sensors in use
+  void updateForceCovariance_();
+  void updateAbsolutePosCovariance_();
+
   IMUElasticLocalFrameDynamicalSystem functor_;
 
   Vector x_;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 36207be..805921c 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -93,9 +93,11 @@ void ModelBaseEKFFlexEstimatorIMU::resetCovarianceMatrices()
 
   /////// std::cout << "\n\n\n ============> RESET COVARIANCE MATRIX <=============== \n\n\n" << std::endl;
 
-  R_ = getDefaultRIMU(); // completed with the variances of the other sensors in use
+  R_ = Matrix::Identity(getMeasurementSize(), getMeasurementSize());
+  R_.block<6, 6>(0, 0) = getDefaultRIMU();
 
-  updateMeasurementCovarianceMatrix_();
+  updateForceCovariance_();
+  updateAbsolutePosCovariance_();
   stateObservation::Matrix m;
   m.resize(6, 6);
   m.setIdentity();
@@ -295,6 +297,27 @@ void ModelBaseEKFFlexEstimatorIMU::updateMeasurementCovarianceMatrix_()
   ekf_.setR(R_);
 }
 
+void ModelBaseEKFFlexEstimatorIMU::updateForceCovariance_()
+{
+  if(useFTSensors_)
+  {
+    for(Index i = 0; i < functor_.getContactsNumber(); ++i)
+    {
+      R_.block<6, 6>(6 + 6 * i, 6 + 6 * i) = forceVariance_;
+    }
+  }
+  updateMeasurementCovarianceMatrix_();
+}
+
+void ModelBaseEKFFlexEstimatorIMU::updateAbsolutePosCovariance_()
+{
+  if(withAbsolutePos_)
+  {
+    R_.bottomRightCorner<6, 6>() = Matrix6::Identity() * absPosVariance_;
+  }
+  updateMeasurementCovarianceMatrix_();
+}
+
 Index ModelBaseEKFFlexEstimatorIMU::getStateSize() const
 {
   return stateSize;
@@ -588,19 +611,21 @@ void ModelBaseEKFFlexEstimatorIMU::setUnmodeledForceProcessVariance(double d)
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 {
   forceVariance_ = Matrix::Identity(6, 6) * d;
-  updateMeasurementCovarianceMatrix_();
+  updateForceCovariance_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
 {
-  forceVariance_ = v;
-  updateMeasurementCovarianceMatrix_();
+  forceVariance_ = Matrix::Zero(6, 6);
+  forceVariance_.block<3, 3>(0, 0) = v;
+  forceVariance_.block<3, 3>(3, 3) = v;
+  updateForceCovariance_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setAbsolutePosVariance(double d)
 {
   absPosVariance_ = d;
-  updateMeasurementCovarianceMatrix_();
+  updateAbsolutePosCovariance_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setRobotMass(double m)
-- 
2.43.0


From ffab9756b9a8d775a28bb5f3d411266172af07ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:15 +0000
Subject: [PATCH 47/88] fix: infinite estimates are rejected like NaN ones

---
 src/ekf-flexibility-estimator-base.cpp    | 4 ++--
 src/model-base-ekf-flex-estimator-imu.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ekf-flexibility-estimator-base.cpp b/src/ekf-flexibility-estimator-base.cpp
index c4b9b80..fc1086f 100644
--- a/src/ekf-flexibility-estimator-base.cpp
+++ b/src/ekf-flexibility-estimator-base.cpp
@@ -113,11 +113,11 @@ const Vector & EKFFlexibilityEstimatorBase::getFlexibilityVector()
 
     Vector x(ekf_.getEstimatedState(k_));
 
-    if(x == x) // detect NaN values
+    if((x - x) == (x - x)) // detect NaN and infinite values
     {
       lastX_ = x;
     }
-    else // delete NaN values
+    else // delete invalid values
     {
       ekf_.setState(lastX_, k_);
       // std::cout << "\n\n\n\n\n Need to reset covariance matrix \n\n\n\n\n" << std::endl;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 805921c..869f475 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -389,10 +389,10 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
       }
       x_ = ekf_.getEstimatedState(k_);
 #ifndef EIGEN_VERSION_LESS_THAN_3_2
-      if(!x_.hasNaN()) // detect NaN values
+      if(x_.allFinite()) // detect NaN and infinite values
       {
 #else
-      if(x_ == x_) // detect NaN values
+      if((x_ - x_) == (x_ - x_)) // detect NaN and infinite values
       {
 #endif // EIGEN_VERSION_LESS_THAN_3_2
         lastX_ = x_;
@@ -415,7 +415,7 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
         }
         ekf_.setState(lastX_, ekf_.getCurrentTime());
       }
-      else // delete NaN values
+      else // delete invalid values
       {
         ekf_.setState(lastX_, k_);
 
-- 
2.43.0


From 6645c9739e714a5190b30d8a6e997be27fccc643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:33 +0000
Subject: [PATCH 48/88] fix: a homogeneous matrix is accepted as a flexibility
 guess

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 10 +++++++---
 src/model-base-ekf-flex-estimator-imu.cpp    | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 72142e0..432fb17 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -106,7 +106,7 @@ double FixedContactEKFFlexEstimatorIMU::getVirtualMeasurementsCovariance() const
 
 void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -115,16 +115,20 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 18x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0 = x;
+  Vector x0;
 
   if(bstate)
   {
+    x0 = x;
     ekf_.setState(x0, k_);
     lastX_ = x0;
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
+    if(bhomogeneous)
+      x0 = kine::homogeneousMatrixToVector6(x);
+    else
+      x0 = x;
 
     Vector x_s = ekf_.stateVectorZero();
 
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 869f475..d8646b4 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -157,7 +157,7 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurement(const Vector & y)
 
 void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -166,16 +166,20 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 23x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0(x);
+  Vector x0;
 
   if(bstate)
   {
+    x0 = x;
     ekf_.setState(x0, k_);
     lastX_ = x0;
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
+    if(bhomogeneous)
+      x0 = kine::homogeneousMatrixToVector6(x);
+    else
+      x0 = x;
 
     Vector x_s = ekf_.stateVectorZero();
 
-- 
2.43.0


From 693ea9f5422e850a09a51d837830f4c49b970a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:10 +0000
Subject: [PATCH 49/88] fix: estimates do not use predictions older than the
 settings of the model

---
 src/ekf-flexibility-estimator-base.cpp    | 4 ++++
 src/model-base-ekf-flex-estimator-imu.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/ekf-flexibility-estimator-base.cpp b/src/ekf-flexibility-estimator-base.cpp
index fc1086f..32f6231 100644
--- a/src/ekf-flexibility-estimator-base.cpp
+++ b/src/ekf-flexibility-estimator-base.cpp
@@ -103,6 +103,8 @@ const Vector & EKFFlexibilityEstimatorBase::getFlexibilityVector()
 
     for(TimeIndex i = ekf_.getCurrentTime() + 1; i <= k_; ++i)
     {
+      /// predictions made earlier may be older than the settings of the model
+      ekf_.setCurrentState(ekf_.getCurrentEstimatedState());
       if(finiteDifferencesJacobians_)
       {
         ekf_.setA(ekf_.getAMatrixFD(dx_));
@@ -156,11 +158,13 @@ Vector EKFFlexibilityEstimatorBase::getInnovation()
 
 Vector EKFFlexibilityEstimatorBase::getPredictedMeasurement()
 {
+  ekf_.setCurrentState(ekf_.getCurrentEstimatedState());
   return ekf_.updateStateAndMeasurementPrediction();
 }
 
 Vector EKFFlexibilityEstimatorBase::getPrediction()
 {
+  ekf_.setCurrentState(ekf_.getCurrentEstimatedState());
   return ekf_.updateStatePrediction();
 }
 
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index d8646b4..12bc5ed 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -381,6 +381,8 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
       {
         if(finiteDifferencesJacobians_)
         {
+          /// predictions made earlier may be older than the settings or the last evaluation of the model
+          ekf_.setCurrentState(ekf_.getCurrentEstimatedState());
           ekf_.updateStateAndMeasurementPrediction();
 
           // ekf_.setA(ekf_.getAMatrixFD(dx_));
-- 
2.43.0


From b38cfc442cf4fc648ea2689b486d3f8cad6e5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:33 +0000
Subject: [PATCH 50/88] fix: setting the variance of the unmodeled forces keeps
 a valid covariance

---
 src/model-base-ekf-flex-estimator-imu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 12bc5ed..b6dc5a1 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -600,6 +600,9 @@ void ModelBaseEKFFlexEstimatorIMU::setUnmodeledForceVariance(double d)
     setWithUnmodeledForces(true);
   }
   P_ = ekf_.getStateCovariance();
+  /// the correlations with the former values have to be dropped, the matrix would not be positive otherwise
+  P_.middleRows<6>(state::unmodeledForces).setZero();
+  P_.middleCols<6>(state::unmodeledForces).setZero();
   P_.diagonal().segment<6>(state::unmodeledForces).setConstant(unmodeledForceVariance_);
   ekf_.setStateCovariance(P_);
 }
-- 
2.43.0


From 4f2cf0929637c5d6c0891cf001c5da6bc8647d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 51/88] fix: the recovery from an invalid estimate can be
 retried when it fails

---
 src/ekf-flexibility-estimator-base.cpp    | 2 +-
 src/model-base-ekf-flex-estimator-imu.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ekf-flexibility-estimator-base.cpp b/src/ekf-flexibility-estimator-base.cpp
index 32f6231..dea9fb2 100644
--- a/src/ekf-flexibility-estimator-base.cpp
+++ b/src/ekf-flexibility-estimator-base.cpp
@@ -121,13 +121,13 @@ const Vector & EKFFlexibilityEstimatorBase::getFlexibilityVector()
     }
     else // delete invalid values
     {
-      ekf_.setState(lastX_, k_);
       // std::cout << "\n\n\n\n\n Need to reset covariance matrix \n\n\n\n\n" << std::endl;
       //                std::cout << "k_: " << k_ << std::endl;
       if(k_ > 1) // the first iteration give always nan without initialization
       {
         resetCovarianceMatrices();
       }
+      ekf_.setState(lastX_, k_); // ends the processing of the measurement, to do last
     }
   }
   return lastX_;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index b6dc5a1..72b6c81 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -423,14 +423,14 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
       }
       else // delete invalid values
       {
-        ekf_.setState(lastX_, k_);
-
         if(k_ > 1) // the first iteration give always nan when not
                    // initialized
         {
           resetCovarianceMatrices();
           resetStateCovarianceMatrix();
         }
+
+        ekf_.setState(lastX_, k_); // ends the processing of the measurement, to do last
       }
     }
 
-- 
2.43.0


From ae27d9243f20a343736e1a1c20cb8c42746f88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:52 +0000
Subject: [PATCH 52/88] fix: bound the rotation vector whatever its length

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 862dec6..43a3784 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -106,12 +106,10 @@ inline void integrateKinematics(Vector3 & position,
 /// gets close to 2pi
 inline Vector regulateOrientationVector(const Vector3 & v)
 {
-  double n2 = v.squaredNorm();
-  if(n2 > std::pow(3. / 2. * M_PI, 2))
+  double n = v.stableNorm();
+  if(n > 3. / 2. * M_PI)
   {
-    double n = sqrt(n2);
-    unsigned k = unsigned(ceil((n - M_PI) / (2 * M_PI)));
-    return (v / n) * (n - k * 2 * M_PI);
+    return (v / n) * std::remainder(n, 2 * M_PI);
   }
   else
   {
-- 
2.43.0


From 72a4d12b628ad53cbcc215db26ddedd8e7bb92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 53/88] fix: the kinetics observer accepts to remove a contact
 that exists

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 08bfdf0..b59c629 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -964,7 +964,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(!contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
-- 
2.43.0


From 1479594838b41e6d401602a322235f8c01462c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 54/88] fix: clearing the contacts of the kinetics observer
 keeps their slots

---
 src/kinetics-observer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index b59c629..24a6d8a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -975,7 +975,11 @@ void KineticsObserver::removeContact(int contactNbr)
 
 void KineticsObserver::clearContacts()
 {
-  contacts_.clear();
+  for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    i->isSet = false;
+    i->withRealSensor = false;
+  }
   numberOfContactRealSensors_ = 0;
 }
 
-- 
2.43.0


From cefa524c32cc063a5f369185faf69381784cc017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 55/88] fix: the number of contacts is that of the contacts
 currently set

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 24a6d8a..ea3fb3d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -985,7 +985,7 @@ void KineticsObserver::clearContacts()
 
 Index KineticsObserver::getNumberOfContacts() const
 {
-  return contacts_.size();
+  return Index(getListOfContacts().size());
 }
 
 std::vector<int> KineticsObserver::getListOfContacts() const
-- 
2.43.0


From fb1b9c1079cb13c49a46732bf8c6a74d5d0a9a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 56/88] fix: contact sensors are counted anew at each iteration
 of the kinetics observer

---
 src/kinetics-observer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index ea3fb3d..a2ed563 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1295,6 +1295,10 @@ void KineticsObserver::startNewIteration_()
     ++k_data_;
     numberOfContactRealSensors_ = 0;
     currentIMUSensorNumber_ = 0;
+    for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+    {
+      i->withRealSensor = false;
+    }
   }
 }
 
-- 
2.43.0


From f9acc1a4c4146ef8fd39ced93f4fd176a7a50a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 57/88] fix: automatic IMU numbers are the first ones not used
 yet in the iteration

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a2ed563..75cfe4e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -508,7 +508,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
@@ -566,7 +566,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
-- 
2.43.0


From 9aae5202ae519121f215a1db44f90647053435fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 58/88] fix: IMU velocities are differentiated over the time
 since their last sample

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 75cfe4e..6170342 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -544,7 +544,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
@@ -603,7 +603,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
-- 
2.43.0


From 4a7332c17222a7b4e3b7725b2debbc317fa49131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 59/88] fix: measurements given without a covariance use the
 default one of the sensor

---
 src/kinetics-observer.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 6170342..da8e74a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -522,10 +522,10 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
 
   imu.acceleroGyro.head<3>() = accelero;
   imu.acceleroGyro.tail<3>() = gyrometer;
+  imu.covMatrixAccelero = acceleroCovMatDefault_;
+  imu.covMatrixGyro = gyroCovMatDefault_;
   if(imuSensors_[num].time == 0) /// this is the first value for the IMU
   {
-    imu.covMatrixAccelero = acceleroCovMatDefault_;
-    imu.covMatrixGyro = gyroCovMatDefault_;
     imu.kinematics = localKine;
     BOOST_ASSERT(imu.kinematics.position.isSet() && imu.kinematics.orientation.isSet()
                  && "The kinematics of the IMU is incorrectly initialized");
@@ -642,10 +642,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
 
-  if(!contacts_[contactNumber].sensorCovMatrix.isSet())
-  {
-    contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
-  }
+  contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
 
   if(!(contacts_[contactNumber].withRealSensor))
   {
@@ -727,10 +724,7 @@ void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose)
   absPoseSensor_.time = k_data_;
   absPoseSensor_.pose = pose;
 
-  if(!(absPoseSensor_.covMatrix.isSet()))
-  {
-    absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
-  }
+  absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
 }
 
 void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose, const Matrix6 & CovarianceMatrix)
-- 
2.43.0


From 3eaa9c74f9b0ec7d8f133b2740eb62f1d5c6d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 60/88] fix: the gyro bias option switches the gyro bias

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index da8e74a..d825150 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -497,7 +497,7 @@ void KineticsObserver::setWithAccelerationEstimation(bool b)
 
 void KineticsObserver::setWithGyroBias(bool b)
 {
-  withAccelerationEstimation_ = b;
+  withGyroBias_ = b;
 }
 
 int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer, const Kinematics & localKine, int num)
-- 
2.43.0


From 2f11361c52042340504ccfb205665ecc64aed319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 61/88] fix: gyrometer measurements include the estimated bias

---
 src/kinetics-observer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d825150..317c52b 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1608,6 +1608,11 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
       /// gyrometer
       y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal).noalias() =
           globalOri.transpose() * globalKine.angVel();
+      if(withGyroBias_)
+      {
+        y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal) +=
+            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(i - imuSensors_.begin())));
+      }
     }
   }
 
-- 
2.43.0


From a21cd092b2bb97e796f34aca798c0090c69a02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 62/88] fix: components of the state which are not estimated
 have a zero difference

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 317c52b..9587e25 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1442,7 +1442,7 @@ void KineticsObserver::stateDifference(const Vector & stateVector1, const Vector
 {
   Orientation & o1 = opt_.ori1;
   Orientation & o2 = opt_.ori2;
-  difference.resize(stateTangentSize_);
+  difference.setZero(stateTangentSize_);
   difference.segment<sizePos>(posIndexTangent()).noalias() =
       stateVector1.segment<sizePos>(posIndex()) - stateVector2.segment<sizePos>(posIndex());
   o1.fromVector4(stateVector1.segment<sizeOri>(oriIndex()));
-- 
2.43.0


From 9a5f41d38bcc07ca421b54fa3f974383d25d3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 63/88] fix: the linear stiffness of a contact does not depend
 on its damping

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 9587e25..eaf8170 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -892,7 +892,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   contact.absPose = pose;
 
-  if(linearDamping != Matrix3::Zero())
+  if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
   }
-- 
2.43.0


From a1d568d85c41775b8b1e883204a7b45e2029dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 64/88] fix: count the centrifugal acceleration of the center
 of mass once

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index eaf8170..30ba28a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1367,7 +1367,7 @@ void KineticsObserver::computeAccelerations_(Kinematics & stateKine,
 {
   Matrix3 Rt = stateKine.orientation.toMatrix3().transpose();
   Vector3 Rtw = Rt * stateKine.angVel();
-  Vector3 corioCentri = 2 * Rtw.cross(comd_() + Rtw.cross(com_()));
+  Vector3 corioCentri = Rtw.cross(2 * comd_() + Rtw.cross(com_()));
 
   angAcc = stateKine.orientation
            * ((I_() + mass_ * kine::skewSymmetric2(com_())).inverse()
-- 
2.43.0


From 1c508de473929d943c5da9a1c32293926d3e88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 65/88] fix: the kinetics observer has a center of mass before
 the first one is given

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 30ba28a..2c45f4f 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -161,6 +161,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
 
+  com_.set(Vector3::Zero(), k_data_);
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
   comd_.set(Vector3::Zero(), k_data_);
-- 
2.43.0


From ccdbd1ef18ba4e1d7129cb612ee105fcc322e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 66/88] fix: read only the contact pose when it is asked for

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2c45f4f..96830f1 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -374,7 +374,7 @@ Vector6 KineticsObserver::getContactWrench(int contactNbr) const
 
 kine::Kinematics KineticsObserver::getContactPosition(int contactNbr) const
 {
-  return Kinematics(stateVector_.segment<sizeStateKine>(contactKineIndex(contactNbr)), flagsContactKine);
+  return Kinematics(stateVector_.segment<sizeContactKine>(contactKineIndex(contactNbr)), flagsContactKine);
 }
 
 Vector6 KineticsObserver::getUnmodeledWrench() const
-- 
2.43.0


From b3c093c60c1d8d19f1ac36dd19922439a28fc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 67/88] fix: the default IMU of the gyro bias is the first one

---
 .../state-observation/dynamics-estimators/kinetics-observer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e776636..f7fd952 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -463,7 +463,7 @@ public:
   ///
   /// @param numberOfIMU number id of the IMU
   /// @param resetCovariance set if the covariance of the IMU bias should be reset
-  void setGyroBias(const Vector3 &, unsigned numberOfIMU = 1, bool resetCovariance = true);
+  void setGyroBias(const Vector3 &, unsigned numberOfIMU = 0, bool resetCovariance = true);
 
   /// @brief Set the State Unmodeled Wrench
   /// @details this modifies the current guess for external unmodeled Wrench. This is different from
-- 
2.43.0


From 8a8838e5125695c617351a1072f0249e02dbd638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 68/88] fix: covariances of parts of the state are reset in the
 tangent space

---
 src/kinetics-observer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 96830f1..a56a49e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -423,7 +423,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndex());
+    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndexTangent());
 
     if(resetForces)
     {
@@ -431,7 +431,8 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
       {
         if(i->isSet)
         {
-          setBlockStateCovariance<sizeContact>(stateCovariance, contactInitCovMatDefault_, contactIndex(i));
+          setBlockStateCovariance<sizeContactTangent>(stateCovariance, contactInitCovMatDefault_,
+                                                      contactIndexTangent(i));
         }
       }
     }
@@ -447,7 +448,7 @@ void KineticsObserver::setGyroBias(const Vector3 & bias, unsigned numberOfIMU, b
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));
+    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -461,7 +462,7 @@ void KineticsObserver::setStateUnmodeledWrench(const Vector6 & wrench, bool rese
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndex());
+    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndexTangent());
 
     ekf_.setStateCovariance(stateCovariance);
   }
-- 
2.43.0


From 287353c7874fcb72902ab0db6b0988f2419a42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 69/88] fix: a contact does not inherit the data of the
 previous one with the same number

---
 src/kinetics-observer.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a56a49e..d924129 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -47,6 +47,19 @@ inline void STATE_OBSERVATION_DLLAPI
   m(2, 1) = m(1, 2) = e3;
 }
 
+/// the velocities which are not given yet are considered to be zero
+inline void STATE_OBSERVATION_DLLAPI setMissingVelocitiesToZero(kine::Kinematics & k)
+{
+  if(!k.linVel.isSet())
+  {
+    k.linVel.set().setZero();
+  }
+  if(!k.angVel.isSet())
+  {
+    k.angVel.set().setZero();
+  }
+}
+
 const double KineticsObserver::defaultMass = 50;
 
 const double KineticsObserver::statePoseInitVarianceDefault = 1e-4;
@@ -640,6 +653,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    setMissingVelocitiesToZero(contacts_[contactNumber].localKine);
   }
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
@@ -673,6 +687,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    setMissingVelocitiesToZero(contacts_[contactNumber].localKine);
   }
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
@@ -707,6 +722,7 @@ void KineticsObserver::updateContactWithNoSensor(const Kinematics & localKine, u
   else /// the contact is newlyset
   {
     contacts_[contactNumber].localKine = localKine;
+    setMissingVelocitiesToZero(contacts_[contactNumber].localKine);
   }
 
   contacts_[contactNumber].time = k_data_;
@@ -893,6 +909,8 @@ int KineticsObserver::addContact(const Kinematics & pose,
   contact.stateIndexTangent = contactsIndexTangent() + contactNumber * sizeContactTangent;
 
   contact.absPose = pose;
+  contact.time = -1; /// this contact has not been updated yet
+  contact.localKine.reset();
 
   if(linearStiffness != Matrix3::Zero())
   {
-- 
2.43.0


From eb5a045cfea192214f942c5e79df058e56de9897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 70/88] fix: the filter of the kinetics observer starts from
 the pose of the contact added

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d924129..ecc72c9 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -950,6 +950,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   /// update the state vector
   stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();
+  ekf_.setState(stateVector_, k_est_);
 
   /// sets the initial covariance matrix
   Matrix stateCovMat = ekf_.getStateCovariance();
-- 
2.43.0


From 45ed315b52f7498eb6d238c3cb65f2ab530d9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 71/88] fix: the initial orientation of the kinetics observer
 is a unit quaternion

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index ecc72c9..8e335c5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -144,6 +144,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   ekf_.setStateArithmetics(this);
 
   stateVector_.setZero();
+  stateVector_.segment<sizeOri>(oriIndex()) = Orientation::zeroRotation().toVector4();
   oldStateVector_ = stateVector_;
 
   ekf_.setState(stateVector_, k_est_);
-- 
2.43.0


From 85e6a5867f49783bdb64cee05bf4bca18556b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 72/88] fix: resetting the state covariance includes all the
 gyro biases

---
 src/kinetics-observer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 8e335c5..82c1a73 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1153,10 +1153,7 @@ void KineticsObserver::resetStateCovarianceMat()
   resetStateKinematicsCovMat();
   for(unsigned i = 0; i < imuSensors_.size(); ++i)
   {
-    if(imuSensors_[i].time == k_data_)
-    {
-      resetStateGyroBiasCovMat(i);
-    }
+    resetStateGyroBiasCovMat(i);
   }
   resetStateUnmodeledWrenchCovMat();
   resetStateContactsCovMat();
-- 
2.43.0


From b640e2c254e9d903a8493c141ffc548fe8e6d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 73/88] fix: the kinetics observer returns to its last valid
 state when the estimate is invalid

---
 src/kinetics-observer.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 82c1a73..07819bb 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -332,19 +332,16 @@ const Vector & KineticsObserver::update()
       ekf_.setC(computeCMatrix_());
     }
 
+    oldStateVector_ = stateVector_;
     stateVector_ = ekf_.getEstimatedState(k_data_);
 
-    if(stateVector_.hasNaN())
+    if(!stateVector_.allFinite())
     {
 #ifndef NDEBUG
       std::cout << "Kinetics observer: NaN value detected" << std::endl;
 #endif
       stateVector_ = stateNaNCorrection_();
     }
-    else
-    {
-      oldStateVector_ = stateVector_;
-    }
 
     ++k_est_; // the timestamp of the state we estimated
 
@@ -1296,8 +1293,10 @@ void KineticsObserver::useFiniteDifferencesJacobians(bool b)
 
 Vector KineticsObserver::stateNaNCorrection_()
 {
-  /// TODO implement this function
-  assert(false && "NaN Correction not yet implemented. Please Contact mehdi.benallegue@gmail.com");
+  /// restart from the last valid state with the initial uncertainty
+  ekf_.setState(oldStateVector_, k_data_);
+  ekf_.setStateCovariance(ekf_.getPmatrixZero());
+  resetStateCovarianceMat();
   return oldStateVector_;
 }
 
-- 
2.43.0


From 111509a458dceeaabf26d82a7efbbb6a54f4385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 74/88] fix: the default process covariance of contact wrenches
 is not the initial one

---
 src/kinetics-observer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 07819bb..d688ba8 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -137,8 +137,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   unmodeledWrenchProcessCovMat_(Matrix6::Identity() * unmodeledWrenchProcessVarianceDefault),
   contactPositionProcessCovMat_(Matrix3::Identity() * contactPositionProcessVarianceDefault),
   contactOrientationProcessCovMat_(Matrix3::Identity() * contactOrientationProcessVarianceDefault),
-  contactForceProcessCovMat_(Matrix3::Identity() * contactForceInitVarianceDefault),
-  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueInitVarianceDefault)
+  contactForceProcessCovMat_(Matrix3::Identity() * contactForceProcessVarianceDefault),
+  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueProcessVarianceDefault)
 {
   ekf_.setFunctor(this);
   ekf_.setStateArithmetics(this);
@@ -174,6 +174,9 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   contactProcessCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = contactTorqueProcessCovMat_;
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
+  contactInitCovMatDefault_.block<sizeForce, sizeForce>(6, 6) = Matrix3::Identity() * contactForceInitVarianceDefault;
+  contactInitCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) =
+      Matrix3::Identity() * contactTorqueInitVarianceDefault;
 
   com_.set(Vector3::Zero(), k_data_);
   I_.set(Matrix3::Identity(), k_data_);
-- 
2.43.0


From d27c9cad2ee0eff01045067fcc30d26cf0ab08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 75/88] fix: resetting the inputs of the kinetics observer also
 resets their number

---
 src/kinetics-observer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d688ba8..912a556 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1273,15 +1273,18 @@ void KineticsObserver::resetInputs()
 {
   for(VectorIMUIterator i = imuSensors_.begin(); i != imuSensors_.end(); ++i)
   {
-    i->time = k_est_;
+    i->time = 0;
   }
 
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
-    i->time = k_est_;
+    i->time = -1;
+    i->withRealSensor = false;
   }
 
   absPoseSensor_.time = k_est_;
+  numberOfContactRealSensors_ = 0;
+  currentIMUSensorNumber_ = 0;
 }
 
 void KineticsObserver::setFiniteDifferenceStep(const Vector & v)
-- 
2.43.0


From d70ca3f33d9669f41240798a568925409ce6e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 76/88] fix: accelerations can be estimated before the first
 update of a contact

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 912a556..a029337 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1372,7 +1372,7 @@ void KineticsObserver::addUnmodeledAndContactWrench_(const Vector & stateVector,
 
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
-    if(i->isSet)
+    if(i->isSet && i->localKine.orientation.isSet()) /// a new contact has no kinematics before its first update
     {
       Kinematics & localKinei = i->localKine;
       Vector3 localForcei = localKinei.orientation * stateVector.segment<sizeForce>(contactForceIndex(i));
-- 
2.43.0


From bf90d7e61911e1c1bcdba7fb34660f1006333805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 77/88] fix: the contact wrenches depend on the rest pose of
 the contact

---
 .../dynamics-estimators/kinetics-observer.hpp |  2 +-
 src/kinetics-observer.cpp                     | 30 +++++--------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index f7fd952..ceec8be 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -928,7 +928,7 @@ protected:
                              Kinematics & stateKine,
                              Kinematics & contactPose,
                              Vector3 & Force,
-                             Vector3 torque);
+                             Vector3 & torque);
 
   /// Sets a noise which disturbs the state dynamics
   virtual void setProcessNoise(NoiseBase *);
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a029337..13a7e9d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1406,7 +1406,7 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
                                              Kinematics & stateKine,
                                              Kinematics & contactPose,
                                              Vector3 & force,
-                                             Vector3 torque)
+                                             Vector3 & torque)
 {
   Contact & contact = *i;
 
@@ -1561,30 +1561,14 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
   {
     if(i->isSet)
     {
-      Kinematics & localKine = i->localKine;
+      /// the rest pose of the contact in the global frame
+      Kinematics contactPose(x.segment<sizeContactKine>(contactKineIndex(i)), flagsContactKine);
 
-      Matrix3 & Kpt = i->linearStiffness;
-      Matrix3 & Kdt = i->linearDamping;
-      Matrix3 & Kpr = i->angularStiffness;
-      Matrix3 & Kdr = i->angularDamping;
+      Vector3 force, torque;
+      computeContactForces_(i, stateKine, contactPose, force, torque);
 
-      /// the posiiton of the contact in the global frame
-      Kinematics globalKine;
-
-      globalKine.setToProductNoAlias(stateKine, localKine);
-
-      /// The error between the current kinematics and the rest kinematics
-      /// of the flexibility
-      Kinematics errorKine;
-      errorKine.setToProductNoAlias(globalKine, localKine.getInverse());
-
-      /// Inverse of the orientation of the foot in the global frame
-      Orientation Rcit(globalKine.orientation.inverse());
-
-      x.segment<sizeForce>(contactForceIndex(i)) = -(Rcit * (Kpt * errorKine.position() + Kdt * errorKine.linVel()));
-
-      x.segment<sizeTorque>(contactTorqueIndex(i)) = -(
-          Rcit * (Kpr * kine::vectorComponent(errorKine.orientation.toQuaternion()) * 0.5 + Kdr * errorKine.angVel()));
+      x.segment<sizeForce>(contactForceIndex(i)) = force;
+      x.segment<sizeTorque>(contactTorqueIndex(i)) = torque;
     }
   }
 
-- 
2.43.0


From dd3cc772b974fece64dad93ee34a89ed4758410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 78/88] fix: the contact torque does not depend on the sign of
 the quaternions

---
 src/kinetics-observer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 13a7e9d..75f8ebf 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1416,13 +1416,18 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
 
   Matrix3 globKineOriInverse = globalKine.orientation.toMatrix3().transpose();
 
+  /// of the two quaternions of the deformation, take the one of the shortest rotation
+  Quaternion deformation = globalKine.orientation.toQuaternion() * contactPose.orientation.toQuaternion().inverse();
+  if(deformation.w() < 0)
+  {
+    deformation.coeffs() = -deformation.coeffs();
+  }
+
   force = globKineOriInverse
           * (contact.linearStiffness * (contactPose.position() - globalKine.position())
              - contact.linearDamping * globalKine.linVel());
   torque = globKineOriInverse
-           * (-0.5 * contact.angularStiffness
-                  * (globalKine.orientation.toQuaternion() * contactPose.orientation.toQuaternion().inverse()).vec()
-              - contact.angularDamping * globalKine.angVel());
+           * (-0.5 * contact.angularStiffness * deformation.vec() - contact.angularDamping * globalKine.angVel());
 }
 
 void KineticsObserver::stateSum(const Vector & stateVector, const Vector & tangentVector, Vector & sum)
-- 
2.43.0


From 2b82c67c1062fec5bd9c24e06ecbd4d0f79c7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 79/88] fix: define the setter of the process covariance of the
 kinematics

---
 src/kinetics-observer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 75f8ebf..5b0ab4f 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1035,6 +1035,13 @@ void KineticsObserver::setKinematicsInitCovarianceDefault(const Matrix & P_kine)
   stateKinematicsInitCovMat_ = P_kine;
 }
 
+void KineticsObserver::setKinematicsProcessCovariance(const Matrix & P_kine)
+{
+  Matrix P = ekf_.getProcessCovariance();
+  setBlockStateCovariance<sizeStateKineTangent>(P, P_kine, kineIndexTangent());
+  ekf_.setProcessCovariance(P);
+}
+
 void KineticsObserver::setGyroBiasStateCovariance(const Matrix3 & covMat, unsigned imuNumber)
 {
   Matrix P = ekf_.getStateCovariance();
-- 
2.43.0


From f887c90e802dbacdd509a1e2798d0f617f16ef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:11 +0000
Subject: [PATCH 80/88] fix: a state given to the kinetics observer has no
 accelerations of the previous one

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 5b0ab4f..50190d4 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -486,6 +486,7 @@ void KineticsObserver::setStateVector(const Vector & v, bool resetCovariance)
 {
   stateVector_ = v;
   ekf_.setState(v, k_est_);
+  stateKinematics_.reset();
   updateKine_();
 
   if(resetCovariance)
-- 
2.43.0


From 2c549c24bd3b36c4e8856ea34b52506d7e2fa149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 81/88] fix: the first inertial parameters are not
 differentiated from the default ones

---
 src/kinetics-observer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 50190d4..4f2873e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -774,7 +774,7 @@ void KineticsObserver::setInertiaMatrix(const Matrix3 & I)
 {
   startNewIteration_();
 
-  if(I_.getTime() < k_data_)
+  if(I_.getTime() > 0 && I_.getTime() < k_data_)
   {
     Id_.set(tools::derivate(I_(), I, dt_ * double(k_data_ - I_.getTime())), k_data_);
   }
@@ -799,7 +799,7 @@ void KineticsObserver::setInertiaMatrix(const Vector6 & Iv)
   startNewIteration_();
   namespace t = tools;
 
-  if(I_.getTime() < k_data_)
+  if(I_.getTime() > 0 && I_.getTime() < k_data_)
   {
     Id_.set();
     Id_.setIndex(k_data_);
@@ -827,7 +827,7 @@ void KineticsObserver::setCenterOfMass(const Vector3 & com, const Vector3 & com_
   startNewIteration_();
   com_.set(com, k_data_);
 
-  if(comd_.getTime() < k_data_)
+  if(comd_.getTime() > 0 && comd_.getTime() < k_data_)
   {
     comdd_.set(tools::derivate(comd_(), com_dot, dt_ * double(k_data_ - comd_.getTime())), k_data_);
   }
@@ -838,7 +838,7 @@ void KineticsObserver::setCenterOfMass(const Vector3 & com)
 {
   startNewIteration_();
 
-  if(com_.getTime() < k_data_)
+  if(com_.getTime() > 0 && com_.getTime() < k_data_)
   {
     double dt = dt_ * double(k_data_ - com_.getTime());
     Vector3 com_dot = tools::derivate(com_(), com, dt);
@@ -861,7 +861,7 @@ void KineticsObserver::setAngularMomentum(const Vector3 & sigma, const Vector3 &
 void KineticsObserver::setAngularMomentum(const Vector3 & sigma)
 {
   startNewIteration_();
-  if(sigma_.getTime() < k_data_)
+  if(sigma_.getTime() > 0 && sigma_.getTime() < k_data_)
   {
     sigmad_.set(tools::derivate(sigma_(), sigma, dt_ * double(k_data_ - sigma_.getTime())), k_data_);
   }
-- 
2.43.0


From f9692ca02da7b567e841097b0900a7fc99c0abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 82/88] fix: the accelerations of the measurement model are
 written where they are read

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 4f2873e..c11c8ef 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1608,8 +1608,8 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
   stateKine.linAcc.set(true);
   stateKine.angAcc.set(true);
 
-  Vector3 & linacc = (Vector3 &)(stateKine.linAcc);
-  Vector3 & angacc = (Vector3 &)(stateKine.angAcc);
+  Vector3 & linacc = stateKine.linAcc(); /// reference (Vector3&)
+  Vector3 & angacc = stateKine.angAcc(); /// reference
 
   computeAccelerations_(stateKine, forceLocal, torqueLocal, linacc, angacc);
 
-- 
2.43.0


From aa69ffc7b180c68a18669f7717a826e354b0b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 83/88] fix: the noises of the kinetics observer disturb its
 model

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index c11c8ef..1d1399d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1587,7 +1587,7 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
 
   if(processNoise_ != 0x0)
   {
-    processNoise_->getNoisy(x);
+    x = processNoise_->getNoisy(x);
   }
 
   return x;
@@ -1652,7 +1652,7 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
 
   if(measurementNoise_ != 0x0)
   {
-    measurementNoise_->getNoisy(y);
+    y = measurementNoise_->getNoisy(y);
   }
 
   return y;
-- 
2.43.0


From 172ea20f3ba333855fb19d1f4aefb11933bc3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 84/88] fix: a measurement predicted before the sensor set
 changed is not used after

---
 .../observer/extended-kalman-filter.hpp                  | 4 ++++
 src/extended-kalman-filter.cpp                           | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 7142855..e14f1f7 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -101,6 +101,10 @@ public:
   /// Remove all the given values of the inputs and measurements
   virtual void clearInputsAndMeasurements();
 
+  /// Changes the dimension of the measurement vector (see KalmanFilterBase)
+  using KalmanFilterBase::setMeasureSize;
+  virtual void setMeasureSize(Index m, Index mt);
+
   /// Set a pointer to the functor that defines the dynamics of the states
   /// and the measurement the user is responsible for the validity of the
   /// pointer during the execution of the kalman filter
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 8b4f190..3782dbb 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -116,6 +116,15 @@ void ExtendedKalmanFilter::clearInputsAndMeasurements()
   invalidatePredictions_();
 }
 
+void ExtendedKalmanFilter::setMeasureSize(Index m, Index mt)
+{
+  if((m != m_) || (mt != mt_))
+  {
+    measurementPredictionIsValid_ = false;
+  }
+  KalmanFilterBase::setMeasureSize(m, mt);
+}
+
 void ExtendedKalmanFilter::setDirectInputOutputFeedthrough(bool b)
 {
   if(p_ > 0)
-- 
2.43.0


From bf3a9e437e799e1e74fdbdbbd98f67d32e9dfa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 85/88] fix: a filter without inputs does not give the last
 ones to the sensor model

---
 src/extended-kalman-filter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 3782dbb..a411830 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -201,6 +201,10 @@ must set directInputOutputFeedthrough to 'false' in the constructor");
       opt.u_ = inputVectorZero();
     }
   }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
 
   return f_->measureDynamics(x, opt.u_, k);
 }
-- 
2.43.0


From f096e28733b02e435d6c15ceb61593dd45da4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 86/88] fix: times of recordings are not limited to 32 bits

---
 include/state-observation/tools/definitions.hpp | 4 ++--
 include/state-observation/tools/definitions.hxx | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/state-observation/tools/definitions.hpp b/include/state-observation/tools/definitions.hpp
index a9ed2ce..24cf3e9 100644
--- a/include/state-observation/tools/definitions.hpp
+++ b/include/state-observation/tools/definitions.hpp
@@ -469,13 +469,13 @@ public:
   inline TimeIndex getNextIndex() const;
 
   /// Set the time index of the last element
-  inline TimeIndex setLastIndex(int index);
+  inline TimeIndex setLastIndex(TimeIndex index);
 
   /// Get the time index
   inline TimeIndex getFirstIndex() const;
 
   /// set the time index of the first element
-  inline TimeIndex setFirstIndex(int index);
+  inline TimeIndex setFirstIndex(TimeIndex index);
 
   inline TimeSize size() const;
 
diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 8c04690..3e42e12 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -355,13 +355,13 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 }
 
 template <typename MatrixType, typename Allocator>
-inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
+inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(TimeIndex index)
 {
   return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setFirstIndex(int index)
+inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setFirstIndex(TimeIndex index)
 {
   return k_=index;
 }
@@ -513,7 +513,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
     Matrix m(Matrix::Zero(rows,cols));
 
     bool continuation=true;
-    int k=0;
+    TimeIndex k=0;
 
     while (continuation)
     {
@@ -564,7 +564,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readVectorsFromFile(const char
   {
     std::string s;
     Vector v;
-    int k=0;
+    TimeIndex k=0;
 
     bool continuation=true;
 
-- 
2.43.0


From b9f8caa78540cbeb56df0e610d19a3eb8afea27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:20 +0000
Subject: [PATCH 87/88] fix: mergeRoll1Pitch1WithYaw2 is defined with the
 signature it is declared with

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 43a3784..3629c6b 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -405,7 +405,7 @@ inline Matrix3 mergeTiltWithYaw(const Vector3 & Rtez, const Matrix3 & R2, const
   }
 }
 
-inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 v)
+inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 & v)
 {
   return mergeTiltWithYaw(R1.transpose() * Vector3::UnitZ(), R2, v);
 }
-- 
2.43.0


From 2ccc81a2507c65430864c4ef70389fdda1fab1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:20 +0000
Subject: [PATCH 88/88] fix: a reflection with a horizontal third axis is not a
 rotation matrix

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 3629c6b..b8b0bf1 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -497,6 +497,7 @@ inline bool isRotationMatrix(const Matrix3 & M, double precision)
   /// The test checks that it is unitary then checks that the cross product of the two first vectors gets you the last
   return (M.isUnitary()
           && (isApproxAbs(M.topLeftCorner<2, 2>().determinant(), M(2, 2), precision)
+              && isApproxAbs(M(2, 0) * M(0, 1) - M(0, 0) * M(2, 1), M(1, 2), precision)
               && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)));
 }
 
-- 
2.43.0

