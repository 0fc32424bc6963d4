From 30ced07dcc5f0748f7ee88ec6c728c048acaf7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 01/88] fix: truncateBefore removes exactly the elements before
 the given time index

---
 include/state-observation/tools/definitions.hxx | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 6933f0e..f8bb263 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -474,21 +474,9 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::truncateAfter(TimeIndex time)
 template <typename MatrixType, typename Allocator>
 void IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore(TimeIndex time)
 {
-  if (v_.size()>0)
+  while (v_.size()>0 && getFirstIndex()<time)
   {
-    if (time < getLastIndex())
-    {
-      for (TimeIndex i=getFirstIndex(); i<time ; ++i)
-      {
-        v_.pop_front();
-      }
-
-      setFirstIndex(time);
-    }
-    else
-    {
-      v_.clear();
-    }
+    popFront();
   }
 }
 
-- 
2.43.0


From 9d5dbe3d1835123c50f9c0643f7f59519460228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 02/88] fix: setLastIndex gives the last element the requested
 index

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index f8bb263..0d28427 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -355,7 +355,7 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 template <typename MatrixType, typename Allocator>
 inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
 {
-  return k_=index-(v_.size()+1);
+  return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-- 
2.43.0


From 7cdb59d70b8cd6d238da5dd9a6fc3b934d281fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:01 +0000
Subject: [PATCH 03/88] fix: setting a state in the past discards the recorded
 measurements and inputs

---
 src/zero-delay-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3c595aa..14303b2 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -7,9 +7,11 @@ void ZeroDelayObserver::setState(const ObserverBase::StateVector & x_k, TimeInde
 {
   BOOST_ASSERT(checkStateVector(x_k) && "The size of the state vector is incorrect");
 
+  const bool inThePast = x_.isSet() && k < x_.getTime();
+
   x_.set(x_k, k);
 
-  if(k < getCurrentTime())
+  if(inThePast)
   {
     y_.clear();
     u_.clear();
-- 
2.43.0


From 4fbcbfb184fdbe41402bf7f894165f949532c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:01 +0000
Subject: [PATCH 04/88] fix: getInputTime checks the recorded inputs, not the
 measurements

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 14303b2..a7fc9df 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -189,7 +189,7 @@ TimeSize ZeroDelayObserver::getInputsNumber() const
 TimeIndex ZeroDelayObserver::getInputTime() const
 {
 
-  BOOST_ASSERT(y_.size() > 0 && "ERROR: There is no measurements registered (past measurements are erased)");
+  BOOST_ASSERT(u_.size() > 0 && "ERROR: There is no inputs registered (past inputs are erased)");
   return u_.getLastIndex();
 }
 
-- 
2.43.0


From 676029c91e8d8ab19ed164fe42eb0e9bb958276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:01 +0000
Subject: [PATCH 05/88] fix: estimating without recorded inputs does not pop an
 empty input buffer

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index a7fc9df..d9a7ee8 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -158,7 +158,7 @@ ObserverBase::StateVector ZeroDelayObserver::getEstimatedState(TimeIndex k)
     if(y_.getFirstIndex() < k) y_.popFront();
 
     if(p_ > 0)
-      if(u_.getFirstIndex() < k) u_.popFront();
+      if(u_.size() > 0 && u_.getFirstIndex() < k) u_.popFront();
   }
 
   return x_();
-- 
2.43.0


From 40ddee4abc63a39d8568726cf4d4bb8f5c2fde92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:01 +0000
Subject: [PATCH 06/88] fix: simulating a measurement does not overwrite the
 last predicted measurement

---
 src/linear-kalman-filter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index af5d369..621d880 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -61,13 +61,12 @@ ObserverBase::MeasureVector LinearKalmanFilter::simulateSensor_(const StateVecto
                     "(the measurement at time k needs the input at time k which was not given) "
                     "if you don't need the input in the computation of measurement, you "
                     "must set D matrix to zero");
-    ybar_.set(c_ * x + d_ * u_[k], k);
+    return c_ * x + d_ * u_[k];
   }
   else
   {
-    ybar_.set(c_ * x, k);
+    return c_ * x;
   }
-  return ybar_();
 }
 
 LinearKalmanFilter::Bmatrix LinearKalmanFilter::getBmatrixConstant(double c) const
-- 
2.43.0


From b1163a4c503c8df50841cb4fb1b30673c4a90151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:01 +0000
Subject: [PATCH 07/88] fix: initialise the measurement tangent size of a
 default-constructed filter

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index c108803..1461b5d 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,7 +12,7 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(this) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
 : ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
-- 
2.43.0


From 325b1bed8ed12b5133bac8a5ff59aac61c63324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:50 +0000
Subject: [PATCH 08/88] fix: EKF predictions are recomputed when the state,
 input or functor they came from changed

---
 .../observer/extended-kalman-filter.hpp       | 11 ++++
 src/extended-kalman-filter.cpp                | 56 ++++++++++++++-----
 2 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 73a9019..038b7c7 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -126,6 +126,9 @@ protected:
   /// predicts the measurement using the functor, assumed that the predicted state is up-to-date
   virtual MeasureVector predictSensor_(TimeIndex k);
 
+  /// selects the input used for the measurement at time k
+  void setMeasurementInput_(TimeIndex k);
+
   /// boolean that provides if theris a need of not for input for the masurement
   bool directInputOutputFeedthrough_;
 
@@ -147,6 +150,14 @@ protected:
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
 
+    // arguments of the last state prediction and of the last measurement prediction
+    DynamicalSystemFunctorBase * fState_ = 0x0;
+    ObserverBase::StateVector xState_;
+    ObserverBase::InputVector uState_;
+    DynamicalSystemFunctorBase * fMeas_ = 0x0;
+    ObserverBase::StateVector xMeas_;
+    ObserverBase::InputVector uMeas_;
+
   } opt;
 
 public:
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 79e7cde..8d26e8f 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -2,6 +2,14 @@
 
 namespace stateObservation
 {
+namespace
+{
+bool isSameVector(const Vector & a, const Vector & b)
+{
+  return a.size() == b.size() && a == b;
+}
+} // namespace
+
 ExtendedKalmanFilter::ExtendedKalmanFilter(Index n, Index m)
 : KalmanFilterBase(n, m, 0), directInputOutputFeedthrough_(false), directInputStateProcessFeedthrough_(false), f_(0x0)
 
@@ -85,20 +93,26 @@ void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)
 
 ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 {
-  if(!xbar_.isSet() || xbar_.getTime() != k)
+  if((p_ > 0) && (directInputStateProcessFeedthrough_))
   {
-    if((p_ > 0) && (directInputStateProcessFeedthrough_))
-    {
 
-      BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
-      opt.u_ = this->u_[k - 1];
-    }
-    else
-    {
-      opt.u_ = inputVectorZero();
-    }
-    BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
+    BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
+    opt.u_ = this->u_[k - 1];
+  }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
+  BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
+
+  /// the stored prediction is valid only for the state, the input and the functor which generated it
+  if(!xbar_.isSet() || xbar_.getTime() != k || opt.fState_ != f_ || !isSameVector(opt.xState_, this->x_())
+     || !isSameVector(opt.uState_, opt.u_))
+  {
     xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
+    opt.fState_ = f_;
+    opt.xState_ = this->x_();
+    opt.uState_ = opt.u_;
   }
 
   return xbar_();
@@ -107,15 +121,22 @@ ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 ObserverBase::MeasureVector ExtendedKalmanFilter::predictSensor_(TimeIndex k)
 {
 
-  if(!this->ybar_.isSet() || this->ybar_.getTime() != k)
+  setMeasurementInput_(k);
+
+  /// the stored prediction is valid only for the state, the input and the functor which generated it
+  if(!this->ybar_.isSet() || this->ybar_.getTime() != k || opt.fMeas_ != f_ || !isSameVector(opt.xMeas_, xbar_())
+     || !isSameVector(opt.uMeas_, opt.u_))
   {
     ybar_.set(simulateSensor_(xbar_(), k), k);
+    opt.fMeas_ = f_;
+    opt.xMeas_ = xbar_();
+    opt.uMeas_ = opt.u_;
   }
 
   return ybar_();
 }
 
-ObserverBase::MeasureVector ExtendedKalmanFilter::simulateSensor_(const ObserverBase::StateVector & x, TimeIndex k)
+void ExtendedKalmanFilter::setMeasurementInput_(TimeIndex k)
 {
   BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
 
@@ -138,6 +159,15 @@ must set directInputOutputFeedthrough to 'false' in the constructor");
       opt.u_ = inputVectorZero();
     }
   }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
+}
+
+ObserverBase::MeasureVector ExtendedKalmanFilter::simulateSensor_(const ObserverBase::StateVector & x, TimeIndex k)
+{
+  setMeasurementInput_(k);
 
   return f_->measureDynamics(x, opt.u_, k);
 }
-- 
2.43.0


From 002106d82da59fc3d171298c4d94aaa0f8b626f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:50 +0000
Subject: [PATCH 09/88] fix: finite-difference measurement Jacobian uses the
 measurement difference and tangent size

---
 .../state-observation/observer/extended-kalman-filter.hpp | 1 +
 src/extended-kalman-filter.cpp                            | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 038b7c7..78118b0 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -149,6 +149,7 @@ protected:
     ObserverBase::StateVector dx_;
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
+    Vector dy_;
 
     // arguments of the last state prediction and of the last measurement prediction
     DynamicalSystemFunctorBase * fState_ = 0x0;
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 8d26e8f..2545d4e 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -214,7 +214,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 {
   TimeIndex k = this->x_.getTime();
 
-  opt.c_.resize(m_, nt_);
+  opt.c_.resize(mt_, nt_);
 
   updateStateAndMeasurementPrediction();
 
@@ -231,10 +231,10 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    opt.yp_ -= ybar_();
-    opt.yp_ /= dx[i];
+    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    opt.dy_ /= dx[i];
 
-    opt.c_.col(i) = opt.yp_;
+    opt.c_.col(i) = opt.dy_;
   }
 
   return opt.c_;
-- 
2.43.0


From 680e3b3407f4a013715dbf32162ebeeb77214816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 10/88] fix: reading a file without time stamps does not append
 a spurious last element

---
 include/state-observation/tools/definitions.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 0d28427..943dc3d 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -525,8 +525,13 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
           }
         }
 
-        setValue(m,k);
-        ++k;
+        if (f.fail())
+          continuation=false;
+        else
+        {
+          setValue(m,k);
+          ++k;
+        }
       }
     }
   }
-- 
2.43.0


From 37f5834a5ef58f926ec1e0307aa6312d55122daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 11/88] fix: Logger::push of a single variable finds it by
 address and reports only missing ones

---
 include/state-observation/tools/logger.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f465474..af60edb 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -36,20 +36,22 @@ namespace stateObservation
     template <typename T>
     void Logger::push(const T * address)
     {
-      Tmap::iterator i= logs_.find( * address );
+      Tmap::iterator i= logs_.find( address );
 
       if (i!=logs_.end())
         update_(i);
       else
+      {
         BOOST_ASSERT(false && "The logger cannot find the data to push, please use record function");
         throw std::invalid_argument
                 ("The logger cannot find the data, please use record function");
+      }
     }
 
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push(*reference);
+      push(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From 67e6af50b0f8e1f0d2a219198d4d374ce04989e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 12/88] fix: Logger::updateAddress keeps what was recorded for
 the variable

---
 include/state-observation/tools/logger.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index af60edb..b63c639 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -66,10 +66,10 @@ namespace stateObservation
       }
       else
       {
-        log_s log(i->second.filename);
+        log_s log(i->second);
         log.setType<T>();
-        logs_.insert(Tpair(newAddress,log));
         logs_.erase(i);
+        logs_.insert(Tpair(newAddress,log));
       }
     }
 
-- 
2.43.0


From e7a6f4ccb9561e6de3afd4af37f5c13f87dc7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 13/88] fix: Logger records unsigned variables, as its update
 supports

---
 include/state-observation/tools/logger.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index b63c639..92264db 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -13,6 +13,7 @@ namespace stateObservation
           && *log.type!=typeid(Vector)
           && *log.type!=typeid(Vector3)
           && *log.type!=typeid(int)
+          && *log.type!=typeid(unsigned)
           && *log.type!=typeid(long)
           && *log.type!=typeid(double)
           && *log.type!=typeid(float))
-- 
2.43.0


From 14d01094e99d20fb77b533d1ec65a752cca56e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:42 +0000
Subject: [PATCH 14/88] fix: Logger accepts pointers to non-const variables

---
 include/state-observation/tools/logger.hpp |  5 +++++
 include/state-observation/tools/logger.hxx | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/state-observation/tools/logger.hpp b/include/state-observation/tools/logger.hpp
index 808b400..e0c8de0 100644
--- a/include/state-observation/tools/logger.hpp
+++ b/include/state-observation/tools/logger.hpp
@@ -25,6 +25,8 @@ public:
   template<typename T>
   void record(const T * address, const std::string & filename = std::string(""));
   template<typename T>
+  void record(T * address, const std::string & filename = std::string(""));
+  template<typename T>
   void record(const T & reference, const std::string & filename = std::string(""));
 
   /// updates the address of a recorded variable with a new address
@@ -41,6 +43,9 @@ public:
   template<typename T>
   void push(const T * address);
 
+  template<typename T>
+  void push(T * address);
+
   /// updates all the logs for all recorded variables
   void push();
 
diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 92264db..9cd9baf 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -28,6 +28,12 @@ namespace stateObservation
       logs_.insert(Tpair(address,log));
     }
 
+    template <typename T>
+    void Logger::record(T * address, const std::string& filename)
+    {
+      record(static_cast<const T *>(address),filename);
+    }
+
     template <typename T>
     void Logger::record(const T & reference, const std::string& filename)
     {
@@ -49,6 +55,12 @@ namespace stateObservation
       }
     }
 
+    template <typename T>
+    void Logger::push(T * address)
+    {
+      push(static_cast<const T *>(address));
+    }
+
     template <typename T>
     void Logger::push(const T & reference)
     {
-- 
2.43.0


From ea7622f9a793df3f70bdef9661b5bde47aa7e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:04 +0000
Subject: [PATCH 15/88] fix: Kinematics::update integrates a lone acceleration
 as a*dt^2/2

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15b2688..7049043 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1370,7 +1370,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisPos() += thisAcc() * dt * dt / 0.5;
+            thisPos() += thisAcc() * dt * dt / 2;
           }
         }
       }
@@ -1568,7 +1568,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisOri.integrate(thisAcc() * dt * dt / 0.5);
+            thisOri.integrate(thisAcc() * dt * dt / 2);
           }
         }
       }
-- 
2.43.0


From 610e8479e98ddb206db52bc44e988885d98b73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:04 +0000
Subject: [PATCH 16/88] fix: Kinematics::update estimates the angular
 acceleration from orientation and previous velocity

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 7049043..6cfb39c 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1535,7 +1535,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useVelAndAcc)
+      if(accMethod == useOriAndVel)
       {
         thisAcc = -thisVel();
         thisVel = thisOri.differentiate(newOri) / dt;
-- 
2.43.0


From 5d7bf96cad0c9e1035a90b3e4b59e94fd124d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:04 +0000
Subject: [PATCH 17/88] fix: Kinematics::update gives the angular acceleration
 from orientations its right sign

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 6cfb39c..862dec6 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1529,7 +1529,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
     {
       if(accMethod == useOrientation) // then velocity cannot use accelerations
       {
-        thisAcc = 2 * newOri.differentiate(thisOri) / (dt * dt);
+        thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
     }
 
-- 
2.43.0


From 2754be51dd4fd0d7fb4f76dda0496f8e479263e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:14 +0000
Subject: [PATCH 18/88] fix: mergeRoll1Pitch1WithYaw2 is defined with the
 signature it is declared with

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 862dec6..5ad613d 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -407,7 +407,7 @@ inline Matrix3 mergeTiltWithYaw(const Vector3 & Rtez, const Matrix3 & R2, const
   }
 }
 
-inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 v)
+inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 & v)
 {
   return mergeTiltWithYaw(R1.transpose() * Vector3::UnitZ(), R2, v);
 }
-- 
2.43.0


From 89c47d19c99568a5ec18b93d283bc25e2d4af161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:14 +0000
Subject: [PATCH 19/88] fix: regulateRotationVector is defined

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 5ad613d..097f567 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -104,7 +104,7 @@ inline void integrateKinematics(Vector3 & position,
 
 /// Puts the orientation vector norm between 0 and Pi if it
 /// gets close to 2pi
-inline Vector regulateOrientationVector(const Vector3 & v)
+inline Vector regulateRotationVector(const Vector3 & v)
 {
   double n2 = v.squaredNorm();
   if(n2 > std::pow(3. / 2. * M_PI, 2))
@@ -119,6 +119,12 @@ inline Vector regulateOrientationVector(const Vector3 & v)
   }
 }
 
+/// same as regulateRotationVector
+inline Vector regulateOrientationVector(const Vector3 & v)
+{
+  return regulateRotationVector(v);
+}
+
 /// Transform the rotation vector into angle axis
 inline AngleAxis rotationVectorToAngleAxis(const Vector3 & v)
 {
-- 
2.43.0


From efb17759dc9704f892e760a27ea95ecde6fa2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:22 +0000
Subject: [PATCH 20/88] fix: derivateRtvMultiplicative has the sign of the
 derivative

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 097f567..c9b08d1 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -554,7 +554,7 @@ inline void derivateRotationMultiplicative(const Vector3 & deltaR, Matrix3 & dRd
 /// local frame
 inline Matrix3 derivateRtvMultiplicative(const Matrix3 & R, const Vector3 & v)
 {
-  return -R.transpose() * skewSymmetric(v);
+  return R.transpose() * skewSymmetric(v);
 }
 
 /// derivates a quaternion using finite difference to get a angular velocity vector
-- 
2.43.0


From cec3d5d0ab76bdb50145b297672b9eb201e41306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:22 +0000
Subject: [PATCH 21/88] fix: isApprox holds for two zeros

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 943dc3d..a1b0e86 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -666,7 +666,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::writeInFile(const char * filena
 
 inline bool isApprox(double a, double b, double relativePrecision)
 {
-  return fabs(a - b) < fabs(a + b) * relativePrecision;
+  return fabs(a - b) <= fabs(a + b) * relativePrecision;
 }
 
 inline bool isApproxAbs(double a, double b, double absolutePrecision)
-- 
2.43.0


From 76d43b8bb033d1b5a6ddef5632d7137daf88d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:23 +0000
Subject: [PATCH 22/88] fix: finiteTimeAccControl computes the first component
 of a vector

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 809bbd7..438c2c1 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -162,7 +162,7 @@ inline Vector STATE_OBSERVATION_DLLAPI finiteTimeAccControl(const Vector & x,
                                                             double kv = -1)
 {
   Vector xdd(x.size());
-  for(Index i = 1; i < x.size(); ++i)
+  for(Index i = 0; i < x.size(); ++i)
   {
     xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kv);
   }
-- 
2.43.0


From 3285ecfd2a178efa59c1194950c4053d1b629003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:23 +0000
Subject: [PATCH 23/88] fix: finiteTimeAccControl converges for the documented
 negative gains

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 438c2c1..800e575 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -151,8 +151,8 @@ inline double STATE_OBSERVATION_DLLAPI finiteTimeAccControl(double x, double xd,
   double sax = sqrt(fabs(x));
   double xdr = kp * signum(x) * sax;
   double y = xd - xdr;
-  double ydr = -kv * signum(y) * sqrt(fabs(y));
-  return ydr - kp * xd / (2 * sax);
+  double ydr = kv * signum(y) * sqrt(fabs(y));
+  return sax > 0 ? ydr + kp * xd / (2 * sax) : ydr;
 }
 
 /// sqme as the scalar version but for every member of the vector
-- 
2.43.0


From d1f859961635e0ceba2d464e711f9bc00abf5482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:23 +0000
Subject: [PATCH 24/88] fix: isRotationMatrix applies the given precision to
 the orthonormality test

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index c9b08d1..1812bfd 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -503,7 +503,7 @@ inline double randomAngle()
 inline bool isRotationMatrix(const Matrix3 & M, double precision)
 {
   /// The test checks that it is unitary then checks that the cross product of the two first vectors gets you the last
-  return (M.isUnitary()
+  return (M.isUnitary(std::max(precision, Eigen::NumTraits<double>::dummy_precision()))
           && (isApproxAbs(M.topLeftCorner<2, 2>().determinant(), M(2, 2), precision)
               && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)));
 }
-- 
2.43.0


From 4f823b49b5bc080fb29a6c9d2549405225a014e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:24 +0000
Subject: [PATCH 25/88] fix: twoVectorsToRotationMatrix accepts vectors
 normalized up to rounding

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 1812bfd..58783f3 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -317,7 +317,7 @@ inline Matrix4 vector6ToHomogeneousMatrix(const Vector6 & v)
 inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
 {
 
-  BOOST_ASSERT(v1.isUnitary(cst::epsilon1) && Rv1.isUnitary(cst::epsilon1)
+  BOOST_ASSERT(v1.isUnitary() && Rv1.isUnitary()
                && "The vectors v1 and Rv1 need to be normalized");
 
   double v1dotRv1 = v1.dot(Rv1);
@@ -326,7 +326,7 @@ inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
     /// the angle is zero;
     return Matrix3::Identity();
   }
-  else if(1 + v1dotRv1 < cst::epsilon1)
+  else if(1 + v1dotRv1 < 10 * cst::epsilon1)
   {
     ///it is a singularity
     throw std::invalid_argument("twoVectorsToRotationMatrix Vectors are opposite: there is an infinity of rotation "
@@ -335,8 +335,7 @@ inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
   else
   {
     Vector3 v1xRv1 = v1.cross(Rv1);
-    return Matrix3::Identity() + skewSymmetric(v1xRv1)
-           + ((1 - v1.dot(Rv1)) / v1xRv1.squaredNorm()) * skewSymmetric2(v1xRv1);
+    return Matrix3::Identity() + skewSymmetric(v1xRv1) + skewSymmetric2(v1xRv1) / (1 + v1dotRv1);
   }
 }
 
-- 
2.43.0


From 238d5efd648cfa323fe91b6688020389cf1511d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:34 +0000
Subject: [PATCH 26/88] fix: isRotationMatrix rejects every left-handed matrix

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 58783f3..32cbf19 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -504,6 +504,7 @@ inline bool isRotationMatrix(const Matrix3 & M, double precision)
   /// The test checks that it is unitary then checks that the cross product of the two first vectors gets you the last
   return (M.isUnitary(std::max(precision, Eigen::NumTraits<double>::dummy_precision()))
           && (isApproxAbs(M.topLeftCorner<2, 2>().determinant(), M(2, 2), precision)
+              && isApproxAbs(M(2, 0) * M(0, 1) - M(0, 0) * M(2, 1), M(1, 2), precision)
               && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)));
 }
 
-- 
2.43.0


From 0596012ac84ce25d99c32f8143d0940b2d366ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:24 +0000
Subject: [PATCH 27/88] fix: UnidimLipmDcmEstimator::update without new inputs
 returns the current estimate

---
 .../dynamics-estimators/unidim-lipm-dcm-estimator.hpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp b/include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp
index 329882f..cca12c8 100644
--- a/include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp
+++ b/include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp
@@ -152,7 +152,8 @@ public:
   /// @return Vector2
   inline Vector2 update()
   {
-    return filter_.getEstimatedState(filter_.getMeasurementTime());
+    filter_.estimateState();
+    return filter_.getCurrentEstimatedState();
   }
 
   /// @brief Get the Unbiased DCM filtered by the estimator
-- 
2.43.0


From 8d14e0155cc8d0851ef2ee18fa5135d2fa9ac5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:24 +0000
Subject: [PATCH 28/88] fix: DCM estimators: setDcmMeasureErrorStd reaches the
 filter

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index a624a09..cedc041 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -169,8 +169,8 @@ void LipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void LipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix2 R;
-  R = dblToSqDiag(std);
+  R_ = dblToSqDiag(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void LipmDcmEstimator::update()
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ee7c751..466bca7 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -162,8 +162,8 @@ void UnidimLipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void UnidimLipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix1 R;
-  R(0, 0) = square(std);
+  R_(0, 0) = square(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void UnidimLipmDcmEstimator::setInputs(double dcm, double zmp)
-- 
2.43.0


From 73450c008823ae284b43c2f5ddc7d0eee905bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:24 +0000
Subject: [PATCH 29/88] fix: DCM estimators: setBiasDriftPerSecond is per
 second and is kept

---
 src/lipm-dcm-estimator.cpp        | 5 ++---
 src/unidim-lipm-dcm-estimator.cpp | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index cedc041..241fcb5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -132,9 +132,8 @@ void LipmDcmEstimator::setBias(const Vector2 & bias, const Vector2 & uncertainty
 
 void LipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  /// update the corresponding part in the process noise matrix
-  Q_.bottomRightCorner<2, 2>() = dblToSqDiag(driftPerSecond);
-  filter_.setProcessCovariance(Q_);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void LipmDcmEstimator::setBiasLimit(const Vector2 & biasLimit)
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index 466bca7..c9b2738 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -130,10 +130,8 @@ void UnidimLipmDcmEstimator::setBias(double bias, double uncertainty)
 
 void UnidimLipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  Matrix2 Q = filter_.getProcessCovariance();
-  /// update the corresponding part in the process noise matrix
-  Q(1, 1) = square(driftPerSecond);
-  filter_.setProcessCovariance(Q);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void UnidimLipmDcmEstimator::setUnbiasedDCM(double dcm)
-- 
2.43.0


From 2060d358932b9dda64e69a861e4f9683f628a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 30/88] fix: LipmDcmEstimator: bias limited on one axis only
 keeps the other

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 241fcb5..245b647 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -178,7 +178,7 @@ void LipmDcmEstimator::update()
   if(biasLimit_.x() > 0 || biasLimit_.y() > 0)
   {
     Vector2 localBias = getLocalBias();
-    Vector2 clampedLocalBias;
+    Vector2 clampedLocalBias = localBias;
     if(biasLimit_.x() > 0)
     {
       clampedLocalBias.x() = tools::clampScalar(localBias.x(), biasLimit_.x());
-- 
2.43.0


From 7a4e342fa6a4813221949412373e2de507618f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 31/88] fix: LipmDcmEstimator: the excess bias is added to the
 DCM in the world frame

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 245b647..100b4f5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -189,7 +189,7 @@ void LipmDcmEstimator::update()
     }
 
     setBias(previousOrientation_ * clampedLocalBias);
-    setUnbiasedDCM(getUnbiasedDCM() + localBias - clampedLocalBias);
+    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));
   }
 }
 
-- 
2.43.0


From ccee95ce549bbf93939287e31b30d1cc60c992a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 32/88] fix: LipmDcmEstimator::setInputs filters the pending
 data with its own orientation change

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 100b4f5..337d6a5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -197,7 +197,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 1)
+    if(filter_.getMeasurementsNumber() > 0 && filter_.getMeasurementTime() > filter_.getCurrentTime())
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From 45d4b82a84914949ef758a1deb18892897456c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:08 +0000
Subject: [PATCH 33/88] fix: a copied Kalman filter uses its own state
 arithmetics

---
 .../state-observation/observer/kalman-filter-base.hpp  |  6 ++++++
 src/extended-kalman-filter.cpp                         |  8 ++++----
 src/kalman-filter-base.cpp                             | 10 +++++-----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/state-observation/observer/kalman-filter-base.hpp b/include/state-observation/observer/kalman-filter-base.hpp
index a4b7bab..5fd319d 100644
--- a/include/state-observation/observer/kalman-filter-base.hpp
+++ b/include/state-observation/observer/kalman-filter-base.hpp
@@ -375,8 +375,14 @@ protected:
     Matrix t;
   } oc_;
 
+  /// the arithmetics given by the user, null if the filter uses its own (so that a copy uses its own as well)
   StateVectorArithmetics * arithm_;
 
+  inline StateVectorArithmetics & arithmetics_()
+  {
+    return arithm_ != 0x0 ? *arithm_ : *this;
+  }
+
 public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 2545d4e..671b7b6 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -196,11 +196,11 @@ KalmanFilterBase::Amatrix // ExtendedKalmanFilter<n,m,p>::Amatrix does not work
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(this->x_(), opt.dx_, opt.x_);
+    arithmetics_().stateSum(this->x_(), opt.dx_, opt.x_);
 
     opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k);
 
-    arithm_->stateDifference(opt.xp_, xbar_(), opt.dx_);
+    arithmetics_().stateDifference(opt.xp_, xbar_(), opt.dx_);
 
     opt.dx_ /= dx[i];
 
@@ -227,11 +227,11 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(xbar_(), opt.dx_, opt.xp_);
+    arithmetics_().stateSum(xbar_(), opt.dx_, opt.xp_);
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    arithmetics_().measurementDifference(opt.yp_, ybar_(), opt.dy_);
     opt.dy_ /= dx[i];
 
     opt.c_.col(i) = opt.dy_;
diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 1461b5d..00b2030 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,15 +12,15 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(0x0) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
-: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(0x0)
 {
 }
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index nt, Index m, Index mt, Index p)
-: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(0x0)
 {
 }
 
@@ -122,7 +122,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   oc_.pbar.noalias() = q_ + a_ * (pr_ * a_.transpose());
 
   // innovation Measurements
-  arithm_->measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
+  arithmetics_().measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
   oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());
 
   Index & measurementTangentSize = mt_;
@@ -139,7 +139,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
 
   // update
 
-  arithm_->stateSum(xbar_(), innovation_, oc_.xhat);
+  arithmetics_().stateSum(xbar_(), innovation_, oc_.xhat);
 
 #ifdef VERBOUS_KALMANFILTER
   Eigen::IOFormat CleanFmt(2, 0, " ", "\n", "", "");
-- 
2.43.0


From f2ee68b876150b33d4e976be14eec98a2223e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:31 +0000
Subject: [PATCH 34/88] fix: TiltEstimator: process several pending
 measurements

---
 src/tilt-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tilt-estimator.cpp b/src/tilt-estimator.cpp
index 6d6c5d5..34978d3 100644
--- a/src/tilt-estimator.cpp
+++ b/src/tilt-estimator.cpp
@@ -42,7 +42,7 @@ ObserverBase::StateVector TiltEstimator::oneStepEstimation_()
 
   x_hat.tail<3>() /= x_hat.tail<3>().norm();
 
-  setState(x_hat, k + 1);
+  x_.set(x_hat, k + 1);
 
   return x_hat;
 }
-- 
2.43.0


From a32cbaa74b45b5537ca0d53b3b66d31f3dde5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:32 +0000
Subject: [PATCH 35/88] fix: DynamicalSystemSimulator: a new input for the same
 time replaces the previous one

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 22058ad..56a1657 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -28,7 +28,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
 
 void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 {
-  u_.insert(std::pair<TimeIndex, Vector>(k, u));
+  u_[k] = u;
 }
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
-- 
2.43.0


From 2b763daae8d3630a6e7fe826b9b4f7897761b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:32 +0000
Subject: [PATCH 36/88] fix: DynamicalSystemSimulator::getInput before the
 first recorded input is refused

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 56a1657..d0c3c36 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -62,9 +62,9 @@ Vector DynamicalSystemSimulator::getInput(TimeIndex k) const
   BOOST_ASSERT(u_.size() > 0 && "ERROR: the input is not set");
   std::map<TimeIndex, Vector>::const_iterator i = u_.upper_bound(k);
 
-  --i;
+  BOOST_ASSERT(i != u_.begin() && "ERROR: the input is not set for the current time");
 
-  BOOST_ASSERT(i->first <= k && "ERROR: the input is not set for the current time");
+  --i;
 
   return i->second;
 }
-- 
2.43.0


From 86821ea699349cb750a861b6ba5676df37c1ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:32 +0000
Subject: [PATCH 37/88] fix: DynamicalSystemSimulator: setting a state drops
 the measurements it invalidates

---
 src/dynamical-system-simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index d0c3c36..386e6de 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -23,6 +23,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
                && "ERROR: Only consecutive states can be set. If you want to restart a new dynamics please call "
                   "resetDynamics before");
   x_.truncateAfter(k - 1);
+  y_.truncateAfter(k - 1);
   x_.setValue(x, k);
 }
 
-- 
2.43.0


From 5a49b4a39b5a7d313dd73abe8a6ae5be18e727ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:32 +0000
Subject: [PATCH 38/88] fix: DynamicalSystemSimulator: simulate far enough for
 the requested state or measurement

---
 src/dynamical-system-simulator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 386e6de..01b1670 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -34,8 +34,9 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
-  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() < k) && "ERROR: Only future measurements can be obtained");
-  if(y_.getNextIndex() < k) simulateDynamicsTo(k);
+  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
+  /// the measurement of a state is taken when the simulation leaves this state
+  if(!y_.checkIndex(k)) simulateDynamicsTo(std::max(k, getCurrentTime()) + 1);
 
   return y_[k];
 }
@@ -43,7 +44,7 @@ Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 Vector DynamicalSystemSimulator::getState(TimeIndex k)
 {
   BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k - 1);
+  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k);
 
   return x_[k];
 }
@@ -90,7 +91,8 @@ void DynamicalSystemSimulator::simulateDynamicsTo(TimeIndex k)
 
 IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > y_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT((y_.size() == 0 || startingTime >= y_.getFirstIndex())
+               && "ERROR: The starting time is too early, try later starting time");
   IndexedVectorArray a;
 
   for(TimeIndex i = startingTime; i < startingTime + TimeIndex(duration); ++i)
@@ -102,7 +104,7 @@ IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex start
 
 IndexedVectorArray DynamicalSystemSimulator::getStateArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT(startingTime >= x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
 
   IndexedVectorArray a;
 
-- 
2.43.0


From b7ee363b05176d9ba94eadd6372792d86b5699a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:32 +0000
Subject: [PATCH 39/88] fix: DynamicalSystemSimulator: a state set after the
 last one keeps the measurements contiguous

---
 src/dynamical-system-simulator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 01b1670..24cdac3 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -77,6 +77,11 @@ void DynamicalSystemSimulator::simulateDynamics()
 
   TimeIndex k(x_.getLastIndex());
   Vector u = getInput(k);
+  /// the states which were set after the last measured one have to be measured as well
+  for(TimeIndex i = y_.size() > 0 ? y_.getNextIndex() : k; i < k; ++i)
+  {
+    y_.setValue(f_->measureDynamics(x_[i], getInput(i), i), i);
+  }
   y_.setValue(f_->measureDynamics(x_[k], u, k), k);
   x_.setValue(f_->stateDynamics(x_[k], u, k), k + 1);
 }
-- 
2.43.0


From a87a5091398328aa73f0f34e0939a666d1ea44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:34 +0000
Subject: [PATCH 40/88] fix: noisy measurements of a sensor with concatenated
 inputs

---
 src/algebraic-sensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index 09affd5..e767c80 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -67,7 +67,8 @@ Vector AlgebraicSensor::computeNoisyMeasurement_()
 {
   if(!storedNoiselessMeasurement_)
   {
-    BOOST_ASSERT(checkStateVector(state_) && "The state is not set or incorrectly set");
+    BOOST_ASSERT(state_.size() == getStateSize_() && directInputToOutput_.size() == concat_
+                 && "The state is not set or incorrectly set");
 
     if(concat_ > 0)
       noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
-- 
2.43.0


From 4c70322df5655e5bb7c28d698153db844b82a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:34 +0000
Subject: [PATCH 41/88] fix: sensors: no measurement from a state of another
 layout

---
 src/accelerometer-gyrometer-magnetometer.cpp | 2 ++
 src/accelerometer-gyrometer.cpp              | 2 ++
 src/algebraic-sensor.cpp                     | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/src/accelerometer-gyrometer-magnetometer.cpp b/src/accelerometer-gyrometer-magnetometer.cpp
index 17c645b..7736181 100644
--- a/src/accelerometer-gyrometer-magnetometer.cpp
+++ b/src/accelerometer-gyrometer-magnetometer.cpp
@@ -55,6 +55,8 @@ Vector AccelerometerGyrometerMagnetometer::computeNoiselessMeasurement_()
 void AccelerometerGyrometerMagnetometer::setMatrixMode(bool matrixMode)
 {
   matrixMode_ = matrixMode;
+  storedNoisyMeasurement_ = false;
+  storedNoiselessMeasurement_ = false;
   if(!matrixMode_)
     currentStateSize_ = stateSize_;
   else
diff --git a/src/accelerometer-gyrometer.cpp b/src/accelerometer-gyrometer.cpp
index ef348c5..c9b374d 100644
--- a/src/accelerometer-gyrometer.cpp
+++ b/src/accelerometer-gyrometer.cpp
@@ -49,6 +49,8 @@ Vector AccelerometerGyrometer::computeNoiselessMeasurement_()
 void AccelerometerGyrometer::setMatrixMode(bool matrixMode)
 {
   matrixMode_ = matrixMode;
+  storedNoisyMeasurement_ = false;
+  storedNoiselessMeasurement_ = false;
   if(!matrixMode_)
     currentStateSize_ = stateSize_;
   else
diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index e767c80..d8f71df 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -41,6 +41,9 @@ Vector AlgebraicSensor::getMeasurements(bool noisy)
   {
     if(!storedNoiselessMeasurement_)
     {
+      BOOST_ASSERT(state_.size() == getStateSize_() && directInputToOutput_.size() == concat_
+                   && "The state is not set or incorrectly set");
+
       if(concat_ > 0)
         noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
       else
@@ -84,6 +87,8 @@ Index AlgebraicSensor::concatenateWithInput(Index n)
 {
   concat_ = n;
   noiselessMeasurement_.resize(getMeasurementSize());
+  storedNoisyMeasurement_ = false;
+  storedNoiselessMeasurement_ = false;
   return getMeasurementSize();
 }
 } // namespace stateObservation
-- 
2.43.0


From 882550d566cdac159863dca7a5fe92bfc8e47b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:34 +0000
Subject: [PATCH 42/88] fix: sensors: a new noise applies to the current state

---
 .../sensors-simulation/algebraic-sensor.hpp                 | 3 +++
 src/algebraic-sensor.cpp                                    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/state-observation/sensors-simulation/algebraic-sensor.hpp b/include/state-observation/sensors-simulation/algebraic-sensor.hpp
index 6156ae9..0d40e98 100644
--- a/include/state-observation/sensors-simulation/algebraic-sensor.hpp
+++ b/include/state-observation/sensors-simulation/algebraic-sensor.hpp
@@ -47,6 +47,9 @@ public:
   /// Sets the value of the state at instant k
   virtual void setState(const Vector & state, TimeIndex k);
 
+  /// Sets a pointer on the noise on the measurements, the next noisy measurement uses it
+  virtual void setNoise(NoiseBase *);
+
   /// gets the current time
   virtual TimeIndex getTime() const;
 
diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index d8f71df..3f45ce8 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -16,6 +16,12 @@ void AlgebraicSensor::setState(const Vector & state, TimeIndex k)
   time_ = k;
 }
 
+void AlgebraicSensor::setNoise(NoiseBase * noise)
+{
+  SensorBase::setNoise(noise);
+  storedNoisyMeasurement_ = false;
+}
+
 Index AlgebraicSensor::getStateSize() const
 {
   return getStateSize_() + concat_;
-- 
2.43.0


From fc31afd32abbb0d1fce5dc7cd8c7bb53c277b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:34 +0000
Subject: [PATCH 43/88] fix: GaussianWhiteNoise: semi-definite covariance
 matrices

---
 src/gaussian-white-noise.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gaussian-white-noise.cpp b/src/gaussian-white-noise.cpp
index b5b74dd..394ad82 100644
--- a/src/gaussian-white-noise.cpp
+++ b/src/gaussian-white-noise.cpp
@@ -1,5 +1,6 @@
 #include <boost/assert.hpp>
 #include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
 #include <state-observation/noise/gaussian-white-noise.hpp>
 #include <state-observation/tools/probability-law-simulation.hpp>
 
@@ -32,8 +33,16 @@ void GaussianWhiteNoise::setStandardDeviation(const Matrix & std)
 void GaussianWhiteNoise::setCovarianceMatrix(const Matrix & cov)
 {
   checkMatrix_(cov);
-  Matrix L(cov.llt().matrixL());
-  std_ = L;
+  Eigen::LLT<Matrix> llt(cov);
+  if(llt.info() == Eigen::Success)
+  {
+    std_ = llt.matrixL();
+  }
+  else /// the matrix is not definite
+  {
+    Eigen::SelfAdjointEigenSolver<Matrix> eig(cov);
+    std_ = eig.eigenvectors() * eig.eigenvalues().cwiseMax(0).cwiseSqrt().asDiagonal();
+  }
 }
 
 void GaussianWhiteNoise::setBias(const Vector & bias)
-- 
2.43.0


From f7104e2e80682f7c9a89f92366624dc33653ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:18 +0000
Subject: [PATCH 44/88] fix: include guard of the IMU and magnetometer model

---
 .../dynamical-system/imu-magnetometer-dynamical-system.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
index f7d82a5..42504bf 100644
--- a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
+++ b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
@@ -11,8 +11,8 @@
  *
  */
 
-#ifndef IMU_DYNAMICAL_SYSTEM_HPP
-#define IMU_DYNAMICAL_SYSTEM_HPP
+#ifndef IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
+#define IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
 
 #include <state-observation/api.h>
 #include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
-- 
2.43.0


From 400b0318d69b1b608566dbe3b7189bd0bfc775d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 45/88] fix: BidimElasticInvPendulum: Coriolis term of the
 angular acceleration

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index 032695e..caef4a8 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -33,7 +33,7 @@ Vector BidimElasticInvPendulum::stateDynamics(const Vector & x, const Vector & u
   double thetadot = x[3];
   double thetadotdot = (1 / (m_ * (p * p + h_ * h_)))
                        * (-k_ * theta - m_ * gravityConstant * (cos(theta) * p - sin(theta) * h_)
-                          + m_ * (h_ * pdotdot - 2 * thetadot * (h_ * pdot)));
+                          + m_ * (h_ * pdotdot - 2 * thetadot * (p * pdot)));
 
   xk1[0] = p + dt_ * pdot;
   xk1[1] = theta + dt_ * thetadot;
-- 
2.43.0


From 451ddf94201c5045f70eebd9bf6741440bd3e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:35 +0000
Subject: [PATCH 46/88] fix: BidimElasticInvPendulum: elasticity is zero until
 it is set

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index caef4a8..89ee3c1 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -5,7 +5,7 @@ namespace stateObservation
 
 using stateObservation::cst::gravityConstant;
 
-BidimElasticInvPendulum::BidimElasticInvPendulum() : m_(1), h_(1), processNoise_(0x0), dt_(1)
+BidimElasticInvPendulum::BidimElasticInvPendulum() : k_(0), m_(1), h_(1), processNoise_(0x0), dt_(1)
 {
 #ifdef STATEOBSERVATION_VERBOUS_CONSTRUCTORS
   std::cout << std::endl << "IMUFixedContactDynamicalSystem Constructor" << std::endl;
-- 
2.43.0


From 91e9f54a2317dd2530d07d3f991e6c916c02bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:53 +0000
Subject: [PATCH 47/88] fix: KineticsObserver: setKinematicsProcessCovariance
 is defined

---
 src/kinetics-observer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 08bfdf0..750bce8 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1015,6 +1015,13 @@ void KineticsObserver::setKinematicsInitCovarianceDefault(const Matrix & P_kine)
   stateKinematicsInitCovMat_ = P_kine;
 }
 
+void KineticsObserver::setKinematicsProcessCovariance(const Matrix & Q_kine)
+{
+  Matrix Q = ekf_.getProcessCovariance();
+  setBlockStateCovariance<sizeStateKineTangent>(Q, Q_kine, kineIndexTangent());
+  ekf_.setProcessCovariance(Q);
+}
+
 void KineticsObserver::setGyroBiasStateCovariance(const Matrix3 & covMat, unsigned imuNumber)
 {
   Matrix P = ekf_.getStateCovariance();
-- 
2.43.0


From e75f872bf0d43316719c498ecbeec52b63427689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:21 +0000
Subject: [PATCH 48/88] fix: KineticsObserver: getNumberOfContacts counts the
 contacts which are set

---
 src/kinetics-observer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 750bce8..a6c0db3 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -981,7 +981,15 @@ void KineticsObserver::clearContacts()
 
 Index KineticsObserver::getNumberOfContacts() const
 {
-  return contacts_.size();
+  Index n = 0;
+  for(VectorContactConstIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    if(i->isSet)
+    {
+      ++n;
+    }
+  }
+  return n;
 }
 
 std::vector<int> KineticsObserver::getListOfContacts() const
-- 
2.43.0


From c934f857c28c055f79c18f64172432f924370b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:21 +0000
Subject: [PATCH 49/88] fix: KineticsObserver: removeContact accepts existing
 contacts only

---
 src/kinetics-observer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a6c0db3..cef42bd 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -964,7 +964,8 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(!contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(contactNbr >= 0 && unsigned(contactNbr) < maxContacts_ && contacts_[contactNbr].isSet
+               && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
-- 
2.43.0


From d3c510946f85fe1cc11744d55043450ffae4d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:21 +0000
Subject: [PATCH 50/88] fix: KineticsObserver: clearContacts keeps the storage
 of the contacts

---
 src/kinetics-observer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index cef42bd..bcc36c5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -976,7 +976,11 @@ void KineticsObserver::removeContact(int contactNbr)
 
 void KineticsObserver::clearContacts()
 {
-  contacts_.clear();
+  for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    i->isSet = false;
+    i->withRealSensor = false;
+  }
   numberOfContactRealSensors_ = 0;
 }
 
-- 
2.43.0


From 39ba5b54bc635216425daff895bd6aece24a4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:22 +0000
Subject: [PATCH 51/88] fix: KineticsObserver: setWithGyroBias sets the
 estimation of the bias

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index bcc36c5..30f3461 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -497,7 +497,7 @@ void KineticsObserver::setWithAccelerationEstimation(bool b)
 
 void KineticsObserver::setWithGyroBias(bool b)
 {
-  withAccelerationEstimation_ = b;
+  withGyroBias_ = b;
 }
 
 int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer, const Kinematics & localKine, int num)
-- 
2.43.0


From 21f71b02738ee35b5ff08c81c6a5d9b132f60c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:22 +0000
Subject: [PATCH 52/88] fix: KineticsObserver: the center of mass has an
 initial value

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 30f3461..400d817 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -163,6 +163,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
+  com_.set(Vector3::Zero(), k_data_);
   comd_.set(Vector3::Zero(), k_data_);
   comdd_.set(Vector3::Zero(), k_data_);
   sigma_.set(Vector3::Zero(), k_data_);
-- 
2.43.0


From e667a03dabdc20636c003dfae9fbff9a1005ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:22 +0000
Subject: [PATCH 53/88] fix: KineticsObserver: the observer works without
 inertial units

---
 .../dynamics-estimators/kinetics-observer.hxx                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hxx b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
index 1b723a0..e1297de 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hxx
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
@@ -26,7 +26,7 @@ inline unsigned KineticsObserver::gyroBiasIndex( unsigned numberOfIMU) const
 }
 inline unsigned KineticsObserver::unmodeledWrenchIndex() const
 {
-  return gyroBiasIndex(0)+ sizeGyroBias*maxImuNumber_;
+  return angVelIndex() + sizeAngVel + sizeGyroBias * maxImuNumber_;
 }
 inline unsigned KineticsObserver::unmodeledForceIndex() const
 {
@@ -134,7 +134,7 @@ inline unsigned KineticsObserver::gyroBiasIndexTangent( unsigned numberOfIMU) co
 }
 inline unsigned KineticsObserver::unmodeledWrenchIndexTangent() const
 {
-  return gyroBiasIndexTangent(0)+sizeGyroBias*maxImuNumber_;
+  return angVelIndexTangent() + sizeAngVel + sizeGyroBias * maxImuNumber_;
 }
 inline unsigned KineticsObserver::unmodeledForceIndexTangent() const
 {
-- 
2.43.0


From 55197c9f34eb2f4e671a48773ae019cc8f53d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:22 +0000
Subject: [PATCH 54/88] fix: KineticsObserver: automatic number of the inertial
 units

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 400d817..7c40eb4 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -509,7 +509,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
@@ -567,7 +567,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
-- 
2.43.0


From 275aca75df75e17d4ffc7baa931556b70a35201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 55/88] fix: KineticsObserver: the force sensors are counted in
 each iteration

---
 src/kinetics-observer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 7c40eb4..5c7d613 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1311,6 +1311,10 @@ void KineticsObserver::startNewIteration_()
   {
     ++k_data_;
     numberOfContactRealSensors_ = 0;
+    for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+    {
+      i->withRealSensor = false;
+    }
     currentIMUSensorNumber_ = 0;
   }
 }
-- 
2.43.0


From f68bb830688c3e666e4519a21f05c0b4af32849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 56/88] fix: KineticsObserver: default process covariance of
 the contact wrenches

---
 src/kinetics-observer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 5c7d613..28da7d5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -124,8 +124,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   unmodeledWrenchProcessCovMat_(Matrix6::Identity() * unmodeledWrenchProcessVarianceDefault),
   contactPositionProcessCovMat_(Matrix3::Identity() * contactPositionProcessVarianceDefault),
   contactOrientationProcessCovMat_(Matrix3::Identity() * contactOrientationProcessVarianceDefault),
-  contactForceProcessCovMat_(Matrix3::Identity() * contactForceInitVarianceDefault),
-  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueInitVarianceDefault)
+  contactForceProcessCovMat_(Matrix3::Identity() * contactForceProcessVarianceDefault),
+  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueProcessVarianceDefault)
 {
   ekf_.setFunctor(this);
   ekf_.setStateArithmetics(this);
@@ -160,6 +160,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   contactProcessCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = contactTorqueProcessCovMat_;
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
+  contactInitCovMatDefault_.block<sizeForce, sizeForce>(6, 6) = Matrix3::Identity() * contactForceInitVarianceDefault;
+  contactInitCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = Matrix3::Identity() * contactTorqueInitVarianceDefault;
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
-- 
2.43.0


From 43d2dcde0dffb3b9b78bb39a950ba51fbe3ba309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 57/88] fix: KineticsObserver: covariance resets use the
 tangent space

---
 src/kinetics-observer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 28da7d5..2fe6cc2 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -425,7 +425,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndex());
+    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndexTangent());
 
     if(resetForces)
     {
@@ -433,7 +433,8 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
       {
         if(i->isSet)
         {
-          setBlockStateCovariance<sizeContact>(stateCovariance, contactInitCovMatDefault_, contactIndex(i));
+          setBlockStateCovariance<sizeContactTangent>(stateCovariance, contactInitCovMatDefault_,
+                                                      contactIndexTangent(i));
         }
       }
     }
@@ -449,7 +450,7 @@ void KineticsObserver::setGyroBias(const Vector3 & bias, unsigned numberOfIMU, b
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));
+    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -463,7 +464,7 @@ void KineticsObserver::setStateUnmodeledWrench(const Vector6 & wrench, bool rese
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndex());
+    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndexTangent());
 
     ekf_.setStateCovariance(stateCovariance);
   }
-- 
2.43.0


From 31db6835cd4336af4dddf1c4d6eaefd60ae8908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 58/88] fix: KineticsObserver: setStateVector discards the
 accelerations of the previous state

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2fe6cc2..1288413 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -474,6 +474,7 @@ void KineticsObserver::setStateVector(const Vector & v, bool resetCovariance)
 {
   stateVector_ = v;
   ekf_.setState(v, k_est_);
+  stateKinematics_.reset();
   updateKine_();
 
   if(resetCovariance)
-- 
2.43.0


From 4c885b9899d638c1afb37f9d4ce53de4c373662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 59/88] fix: KineticsObserver: getContactPosition reads the
 pose of the contact

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 1288413..54d32c1 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -376,7 +376,7 @@ Vector6 KineticsObserver::getContactWrench(int contactNbr) const
 
 kine::Kinematics KineticsObserver::getContactPosition(int contactNbr) const
 {
-  return Kinematics(stateVector_.segment<sizeStateKine>(contactKineIndex(contactNbr)), flagsContactKine);
+  return Kinematics(stateVector_.segment<sizeContactKine>(contactKineIndex(contactNbr)), flagsContactKine);
 }
 
 Vector6 KineticsObserver::getUnmodeledWrench() const
-- 
2.43.0


From 5f4501660c289c297f49a19400e9c175822a639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 60/88] fix: KineticsObserver: addContact gives the new state
 to the filter

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 54d32c1..91b6fac 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -941,6 +941,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   /// update the state vector
   stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();
+  ekf_.setState(stateVector_, k_est_);
 
   /// sets the initial covariance matrix
   Matrix stateCovMat = ekf_.getStateCovariance();
-- 
2.43.0


From 5f0e73e5805dde176ab18c0060eb8ee2badea836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 61/88] fix: KineticsObserver: addContact uses the linear
 stiffness it is given

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 91b6fac..e0752c5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -903,7 +903,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   contact.absPose = pose;
 
-  if(linearDamping != Matrix3::Zero())
+  if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
   }
-- 
2.43.0


From 2efba0b414f233306acb6045c62bb601b2c9cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 62/88] fix: KineticsObserver: resetStateCovarianceMat resets
 the covariance of all the biases

---
 src/kinetics-observer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index e0752c5..d087316 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1159,10 +1159,7 @@ void KineticsObserver::resetStateCovarianceMat()
   resetStateKinematicsCovMat();
   for(unsigned i = 0; i < imuSensors_.size(); ++i)
   {
-    if(imuSensors_[i].time == k_data_)
-    {
-      resetStateGyroBiasCovMat(i);
-    }
+    resetStateGyroBiasCovMat(i);
   }
   resetStateUnmodeledWrenchCovMat();
   resetStateContactsCovMat();
-- 
2.43.0


From 04b90ad8a5e69b197dd443a0bebc5b86474b6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 63/88] fix: KineticsObserver: the kinematics of the inertial
 units are updated over the elapsed time

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d087316..44bce6e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -549,7 +549,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
@@ -608,7 +608,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
-- 
2.43.0


From 89a7f879f9d123bbfee5a3ee709106e2aed8a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 64/88] fix: KineticsObserver: first kinematics of a contact

---
 .../dynamics-estimators/kinetics-observer.hpp |  4 ++
 src/kinetics-observer.cpp                     | 52 ++++++++++---------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e776636..14e49a4 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -1060,6 +1060,10 @@ protected:
   /// calls the reset of the iteration
   void startNewIteration_();
 
+  /// sets the local kinematics of a contact, the velocities which are not given are computed or set to zero
+  /// the first time
+  void updateContactKine_(Contact & contact, const Kinematics & localKine);
+
   virtual Matrix computeAMatrix_();
   virtual Matrix computeCMatrix_();
 
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 44bce6e..a304785 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -624,6 +624,28 @@ void KineticsObserver::setIMUDefaultCovarianceMatrix(const Matrix3 & acceleroCov
   gyroCovMatDefault_ = gyroCov;
 }
 
+void KineticsObserver::updateContactKine_(Contact & contact, const Kinematics & localKine)
+{
+  if(contact.localKine.position.isSet()) /// the contact is not newly set
+  {
+    contact.localKine.update(localKine, dt_, Contact::localKineFlags);
+  }
+  else /// the contact is newly set
+  {
+    contact.localKine = localKine;
+    BOOST_ASSERT(contact.localKine.position.isSet() && contact.localKine.orientation.isSet()
+                 && "The kinematics of the contact is incorrectly initialized");
+    if(!contact.localKine.linVel.isSet())
+    {
+      contact.localKine.linVel.set().setZero();
+    }
+    if(!contact.localKine.angVel.isSet())
+    {
+      contact.localKine.angVel.set().setZero();
+    }
+  }
+}
+
 void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
                                                      const Kinematics & localKine,
                                                      unsigned contactNumber)
@@ -636,14 +658,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
 
@@ -672,14 +687,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
   contacts_[contactNumber].sensorCovMatrix = wrenchCovMatrix;
@@ -706,14 +714,7 @@ void KineticsObserver::updateContactWithNoSensor(const Kinematics & localKine, u
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
 
   contacts_[contactNumber].time = k_data_;
 
@@ -903,6 +904,9 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   contact.absPose = pose;
 
+  /// the kinematics of a previous contact with the same number are not those of this one
+  contact.localKine.reset();
+
   if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
-- 
2.43.0


From 013d000d232533f04861cc169b9ce8c627065a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:33 +0000
Subject: [PATCH 65/88] fix: KineticsObserver: resetInputs discards the inputs
 of the current iteration only

---
 src/kinetics-observer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a304785..fb2d412 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1283,13 +1283,19 @@ void KineticsObserver::resetInputs()
 {
   for(VectorIMUIterator i = imuSensors_.begin(); i != imuSensors_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time == k_data_)
+    {
+      i->time = k_est_;
+    }
   }
+  currentIMUSensorNumber_ = 0;
 
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
     i->time = k_est_;
+    i->withRealSensor = false;
   }
+  numberOfContactRealSensors_ = 0;
 
   absPoseSensor_.time = k_est_;
 }
-- 
2.43.0


From 363c408fcfffe6021833cb89bf321f50f02ee0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:23 +0000
Subject: [PATCH 66/88] fix: KineticsObserver: the measurement model uses the
 predicted accelerations

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index fb2d412..01437b1 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1622,8 +1622,8 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
   stateKine.linAcc.set(true);
   stateKine.angAcc.set(true);
 
-  Vector3 & linacc = (Vector3 &)(stateKine.linAcc);
-  Vector3 & angacc = (Vector3 &)(stateKine.angAcc);
+  Vector3 & linacc = stateKine.linAcc(); /// reference
+  Vector3 & angacc = stateKine.angAcc(); /// reference
 
   computeAccelerations_(stateKine, forceLocal, torqueLocal, linacc, angacc);
 
-- 
2.43.0


From a3e9efd0af211c3e4ceea074accae92c4e12dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 67/88] fix: KineticsObserver: a copy uses its own model

---
 .../dynamics-estimators/kinetics-observer.hpp              | 2 ++
 src/kinetics-observer.cpp                                  | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index 14e49a4..e1977f5 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -1210,6 +1210,8 @@ protected:
   struct Opt
   {
     Opt() : kine(kine1), ori(kine.orientation), ori1(kine1.orientation), ori2(kine2.orientation) {}
+    /// the references are to the members of this object, there is no value to copy
+    Opt(const Opt &) : Opt() {}
 
     Kinematics kine1, kine2;
     Kinematics & kine;
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 01437b1..3dae1f9 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -233,6 +233,10 @@ const Vector & KineticsObserver::update()
 {
   if(k_est_ != k_data_)
   {
+    /// the observer may be a copy of another one
+    ekf_.setFunctor(this);
+    ekf_.setStateArithmetics(this);
+
     for(VectorContactIterator i = contacts_.begin(), ie = contacts_.end(); i != ie; ++i)
     {
       if(i->isSet)
@@ -1155,6 +1159,9 @@ const ExtendedKalmanFilter & KineticsObserver::getEKF() const
 
 ExtendedKalmanFilter & KineticsObserver::getEKF()
 {
+  /// the observer may be a copy of another one
+  ekf_.setFunctor(this);
+  ekf_.setStateArithmetics(this);
   return ekf_;
 }
 
-- 
2.43.0


From 09a385ebd777e572b9f0da65c939050c92abbb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 68/88] fix: KineticsObserver: measurements given without
 covariance use the current default one

---
 src/kinetics-observer.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 3dae1f9..0e593e8 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -531,10 +531,10 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
 
   imu.acceleroGyro.head<3>() = accelero;
   imu.acceleroGyro.tail<3>() = gyrometer;
+  imu.covMatrixAccelero = acceleroCovMatDefault_;
+  imu.covMatrixGyro = gyroCovMatDefault_;
   if(imuSensors_[num].time == 0) /// this is the first value for the IMU
   {
-    imu.covMatrixAccelero = acceleroCovMatDefault_;
-    imu.covMatrixGyro = gyroCovMatDefault_;
     imu.kinematics = localKine;
     BOOST_ASSERT(imu.kinematics.position.isSet() && imu.kinematics.orientation.isSet()
                  && "The kinematics of the IMU is incorrectly initialized");
@@ -666,10 +666,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
 
-  if(!contacts_[contactNumber].sensorCovMatrix.isSet())
-  {
-    contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
-  }
+  contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
 
   if(!(contacts_[contactNumber].withRealSensor))
   {
@@ -736,11 +733,7 @@ void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose)
 
   absPoseSensor_.time = k_data_;
   absPoseSensor_.pose = pose;
-
-  if(!(absPoseSensor_.covMatrix.isSet()))
-  {
-    absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
-  }
+  absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
 }
 
 void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose, const Matrix6 & CovarianceMatrix)
-- 
2.43.0


From a3b8c160e684793394f814269b42287a97866e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:18 +0000
Subject: [PATCH 69/88] fix: KineticsObserver: stateDifference is zero on the
 disabled blocks

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 0e593e8..4fb1e40 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1477,7 +1477,7 @@ void KineticsObserver::stateDifference(const Vector & stateVector1, const Vector
 {
   Orientation & o1 = opt_.ori1;
   Orientation & o2 = opt_.ori2;
-  difference.resize(stateTangentSize_);
+  difference.setZero(stateTangentSize_);
   difference.segment<sizePos>(posIndexTangent()).noalias() =
       stateVector1.segment<sizePos>(posIndex()) - stateVector2.segment<sizePos>(posIndex());
   o1.fromVector4(stateVector1.segment<sizeOri>(oriIndex()));
-- 
2.43.0


From 32c561598748e57acc517a7456ed6182f8dc80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:18 +0000
Subject: [PATCH 70/88] fix: KineticsObserver: Coriolis and centrifugal
 accelerations of the center of mass

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 4fb1e40..4908159 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1402,7 +1402,7 @@ void KineticsObserver::computeAccelerations_(Kinematics & stateKine,
 {
   Matrix3 Rt = stateKine.orientation.toMatrix3().transpose();
   Vector3 Rtw = Rt * stateKine.angVel();
-  Vector3 corioCentri = 2 * Rtw.cross(comd_() + Rtw.cross(com_()));
+  Vector3 corioCentri = Rtw.cross(2 * comd_() + Rtw.cross(com_()));
 
   angAcc = stateKine.orientation
            * ((I_() + mass_ * kine::skewSymmetric2(com_())).inverse()
-- 
2.43.0


From e6afdf83ed427eff70b69f222350f9bc0390e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:18 +0000
Subject: [PATCH 71/88] fix: KineticsObserver: the predicted gyrometer includes
 its bias

---
 src/kinetics-observer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 4908159..e89163b 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1643,6 +1643,11 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
       /// gyrometer
       y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal).noalias() =
           globalOri.transpose() * globalKine.angVel();
+      if(withGyroBias_)
+      {
+        y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal) +=
+            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(i - imuSensors_.begin())));
+      }
     }
   }
 
-- 
2.43.0


From 5fb2318721fe6a0aac1dbb5524d5e35d51309c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:18 +0000
Subject: [PATCH 72/88] fix: KineticsObserver: contact wrenches are those of
 the flexibility at its rest pose

---
 .../dynamics-estimators/kinetics-observer.hpp |  2 +-
 src/kinetics-observer.cpp                     | 30 +++++--------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e1977f5..ba6d641 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -928,7 +928,7 @@ protected:
                              Kinematics & stateKine,
                              Kinematics & contactPose,
                              Vector3 & Force,
-                             Vector3 torque);
+                             Vector3 & torque);
 
   /// Sets a noise which disturbs the state dynamics
   virtual void setProcessNoise(NoiseBase *);
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index e89163b..f64e7a3 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1417,7 +1417,7 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
                                              Kinematics & stateKine,
                                              Kinematics & contactPose,
                                              Vector3 & force,
-                                             Vector3 torque)
+                                             Vector3 & torque)
 {
   Contact & contact = *i;
 
@@ -1572,30 +1572,14 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
   {
     if(i->isSet)
     {
-      Kinematics & localKine = i->localKine;
+      /// the rest pose of the contact in the global frame
+      Kinematics contactPose(x.segment<sizeContactKine>(contactKineIndex(i)), flagsContactKine);
 
-      Matrix3 & Kpt = i->linearStiffness;
-      Matrix3 & Kdt = i->linearDamping;
-      Matrix3 & Kpr = i->angularStiffness;
-      Matrix3 & Kdr = i->angularDamping;
+      Vector3 force, torque;
+      computeContactForces_(i, stateKine, contactPose, force, torque);
 
-      /// the posiiton of the contact in the global frame
-      Kinematics globalKine;
-
-      globalKine.setToProductNoAlias(stateKine, localKine);
-
-      /// The error between the current kinematics and the rest kinematics
-      /// of the flexibility
-      Kinematics errorKine;
-      errorKine.setToProductNoAlias(globalKine, localKine.getInverse());
-
-      /// Inverse of the orientation of the foot in the global frame
-      Orientation Rcit(globalKine.orientation.inverse());
-
-      x.segment<sizeForce>(contactForceIndex(i)) = -(Rcit * (Kpt * errorKine.position() + Kdt * errorKine.linVel()));
-
-      x.segment<sizeTorque>(contactTorqueIndex(i)) = -(
-          Rcit * (Kpr * kine::vectorComponent(errorKine.orientation.toQuaternion()) * 0.5 + Kdr * errorKine.angVel()));
+      x.segment<sizeForce>(contactForceIndex(i)) = force;
+      x.segment<sizeTorque>(contactTorqueIndex(i)) = torque;
     }
   }
 
-- 
2.43.0


From 5af5e2450ed1493008796f300014ec9148ab3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:20 +0000
Subject: [PATCH 73/88] fix: KineticsObserver: the contact torque does not
 depend on the sign of the quaternions

---
 src/kinetics-observer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index f64e7a3..0c91e89 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1430,10 +1430,15 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
   force = globKineOriInverse
           * (contact.linearStiffness * (contactPose.position() - globalKine.position())
              - contact.linearDamping * globalKine.linVel());
+
+  Quaternion oriError = globalKine.orientation.toQuaternion() * contactPose.orientation.toQuaternion().inverse();
+  if(oriError.w() < 0) /// the opposite quaternion is the same orientation
+  {
+    oriError.coeffs() = -oriError.coeffs();
+  }
+
   torque = globKineOriInverse
-           * (-0.5 * contact.angularStiffness
-                  * (globalKine.orientation.toQuaternion() * contactPose.orientation.toQuaternion().inverse()).vec()
-              - contact.angularDamping * globalKine.angVel());
+           * (-0.5 * contact.angularStiffness * oriError.vec() - contact.angularDamping * globalKine.angVel());
 }
 
 void KineticsObserver::stateSum(const Vector & stateVector, const Vector & tangentVector, Vector & sum)
-- 
2.43.0


From b2821de08e330467d40b4b9d763f3d0cfca4b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 74/88] fix: the process noise of the elastic functor is added
 to the state it just computed

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 3523fd4..4c396ee 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -907,7 +907,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::stateDynamics(const Vector & x, cons
   }
 
   if(processNoise_ != 0x0)
-    return processNoise_->getNoisy(op_.xk1);
+    return processNoise_->getNoisy(xk1_);
   else
     return xk1_;
 }
-- 
2.43.0


From 36479405d1a2f070e3f1b21a21b0a20aeafb974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 75/88] fix: measureDynamics of the elastic functor does not
 need a previous call to stateDynamics

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 4c396ee..d38af90 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -939,7 +939,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::measureDynamics(const Vector & x, co
   op_.orientationFlexV = x.segment(state::ori, 3);
   op_.angularVelocityFlex = x.segment(state::angVel, 3);
 
-  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts[i] = x.segment(state::fc + 6 * i, 6);
+  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts.setValue(x.segment(state::fc + 6 * i, 6), i);
 
   op_.fm = x.segment(state::unmodeledForces, 3);
   op_.tm = x.segment(state::unmodeledForces + 3, 3);
-- 
2.43.0


From 9662e76a0cbfab6fa77f65af5f5b33847eaa8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 76/88] fix: the momentum rates of the elastic functor use the
 mass of the robot that was set

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index d38af90..094b623 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -173,9 +173,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromForces(const Vector
   computeContactWrench(op_.rFlex, op_.positionFlex, op_.contactPosV, op_.contactOriV, fc_, tc_, op_.fm, op_.tm,
                        op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = op_.f - hrp2::m * cst::gravity;
+  op_.momentaDot.segment<3>(0) = op_.f - robotMass_ * cst::gravity;
   op_.momentaDot.segment<3>(3) =
-      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * hrp2::m * cst::gravity;
+      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * robotMass_ * cst::gravity;
 
   return op_.momentaDot;
 }
@@ -237,7 +237,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
                        op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
                        op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = hrp2::m
+  op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
                                     + kine::skewSymmetric2(op_.angularVelocityFlex) * op_.rFlex * op_.positionCom
                                     + 2 * kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.velocityCom
@@ -248,7 +248,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
       + op_.rFlex * op_.inertia * op_.rFlexT * op_.angularAcceleration
       + kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.AngMomentum + op_.rFlex * op_.dotAngMomentum
       + kine::skewSymmetric(op_.positionFlex) * op_.momentaDot.segment<3>(0)
-      + hrp2::m * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
+      + robotMass_ * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
 
   return op_.momentaDot;
 }
-- 
2.43.0


From 75c8cb02da5c5e6cf0a85bd498481919ef7830c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 77/88] fix: getMomentaDotFromKinematics uses the angular
 velocity

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 094b623..5e5cde8 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -234,7 +234,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
 
   computeAccelerations(op_.positionCom, op_.velocityCom, op_.accelerationCom, op_.AngMomentum, op_.dotAngMomentum,
                        op_.inertia, op_.dotInertia, op_.contactPosV, op_.contactOriV, op_.positionFlex,
-                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
+                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.angularVelocityFlex,
                        op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
   op_.momentaDot.segment<3>(0) = robotMass_
-- 
2.43.0


From e7a25e549dc0903781035303c1337c86a9276cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 78/88] fix: the third stage of the Runge-Kutta step does not
 exchange forces and moments

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 5e5cde8..b0de985 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -774,7 +774,7 @@ void IMUElasticLocalFrameDynamicalSystem::iterateDynamicsRK4(const Vector3 & pos
   angVelocity3 = angularVel + (dt / 2) * angAcc2;
 
   computeAccelerations(positionCom, velocityCom, accelerationCom, AngMomentum, dotAngMomentum, inertia, dotInertia,
-                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, tc, fc,
+                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, fc, tc,
                        fm, tm, addForces, addMoments);
 
   ////////////4th/////////////
-- 
2.43.0


From 573ef2252f550980bf31aec982bb0b26437c908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 79/88] fix: the default covariance of the inertial
 measurements has no uninitialised entry

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 82eb8e2..2e37a11 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -80,7 +80,7 @@ Matrix ModelBaseEKFFlexEstimatorIMU::getDefaultQ()
 
 Matrix6 ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU()
 {
-  Matrix6 R;
+  Matrix6 R = Matrix6::Zero();
 
   R.block<3, 3>(0, 0) = Matrix3::Identity() * 1.e-6; // accelerometer
   R.block<3, 3>(3, 3) = Matrix3::Identity() * 1.e-6; // gyrometer
-- 
2.43.0


From b798e3476e63616db1c2bd25c0036fe105d0a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 80/88] fix: the sampling period of the fixed contact estimator
 reaches its model

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 4cb4a79..841d818 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -219,6 +219,7 @@ const Vector & FixedContactEKFFlexEstimatorIMU::getFlexibilityVector()
 void FixedContactEKFFlexEstimatorIMU::setSamplingPeriod(double dt)
 {
   dt_ = dt;
+  functor_.setSamplingPeriod(dt);
 }
 
 } // namespace flexibilityEstimation
-- 
2.43.0


From 532faed31c32f28743a064189b24f08db04b7ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 81/88] fix: the flexibility guess can be a homogeneous matrix

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 9 ++++++---
 src/model-base-ekf-flex-estimator-imu.cpp    | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 841d818..598fea9 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -115,7 +115,12 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 18x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0 = x;
+  Vector x0;
+
+  if(bhomogeneous)
+    x0 = kine::homogeneousMatrixToVector6(x);
+  else
+    x0 = x;
 
   if(bstate)
   {
@@ -123,8 +128,6 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(indexes::pos, 3) = x0.head(3);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 2e37a11..bcc0566 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -165,7 +165,12 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 23x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0(x);
+  Vector x0;
+
+  if(bhomogeneous)
+    x0 = kine::homogeneousMatrixToVector6(x);
+  else
+    x0 = x;
 
   if(bstate)
   {
@@ -173,8 +178,6 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(state::pos, 3) = x0.head<3>();
-- 
2.43.0


From dc928a91e145b122523005412ef526d07b862381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 82/88] fix: the flexibility guess is the current estimate

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 6 ++++--
 src/model-base-ekf-flex-estimator-imu.cpp    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 598fea9..710c6d1 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -124,7 +124,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
   if(bstate)
   {
-    ekf_.setState(x0, k_);
+    lastX_ = x0;
   }
   else
   {
@@ -134,10 +134,12 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     x_s.segment(indexes::ori, 3) = x0.tail(3);
 
-    ekf_.setState(x_s, k_);
+    lastX_ = x_s;
 
     ekf_.setQ(Q_);
   }
+
+  ekf_.setState(lastX_, k_);
 }
 
 void FixedContactEKFFlexEstimatorIMU::setMeasurementNoiseCovariance(const Matrix & R)
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index bcc0566..bdf9939 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -174,7 +174,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
   if(bstate)
   {
-    ekf_.setState(x0, k_);
+    lastX_ = x0;
   }
   else
   {
@@ -184,10 +184,12 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     x_s.segment(state::ori, 3) = x0.tail<3>();
 
-    ekf_.setState(x_s, k_);
+    lastX_ = x_s;
 
     ekf_.setQ(Q_);
   }
+
+  ekf_.setState(lastX_, k_);
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setComBiasGuess(const stateObservation::Vector & x)
-- 
2.43.0


From 8d61922d48e64e7f7cfa8f543405f0aa92968b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 83/88] fix: quantities deduced from the estimate use the input
 of the same time

---
 .../model-base-ekf-flex-estimator-imu.hpp                   | 3 ++-
 src/model-base-ekf-flex-estimator-imu.cpp                   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index adc7df6..cf33b5f 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -67,7 +67,8 @@ public:
 
   virtual stateObservation::Vector computeAccelerations()
   {
-    return functor_.computeAccelerations(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may advance the time of the input
+    return functor_.computeAccelerations(x, getInput());
   }
 
   void setContactModel(unsigned nb);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index bdf9939..4736b29 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -230,7 +230,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromForces()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromForces(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may advance the time of the input
+    return functor_.getMomentaDotFromForces(x, getInput());
   }
   else
   {
@@ -244,7 +245,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromKinematics()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromKinematics(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may advance the time of the input
+    return functor_.getMomentaDotFromKinematics(x, getInput());
   }
   else
   {
-- 
2.43.0


From 1a67c774926835d63b464c26017f10675e765d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 84/88] fix: the limits of the forces and torques apply to
 every contact

---
 src/model-base-ekf-flex-estimator-imu.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 4736b29..3f4431e 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -394,10 +394,13 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
           for(int i = 0; i < 3; i++)
           {
             // Saturation for bounded forces and torques
-            lastX_[Index(state::fc + 6 + i)] = std::min(lastX_[Index(state::fc + 6 + i)], limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::min(lastX_[Index(state::fc + i)], limitForces_[i]);
-            lastX_[Index(state::fc + 6 + i)] = std::max(lastX_[Index(state::fc + 6 + i)], -limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::max(lastX_[Index(state::fc + i)], -limitForces_[i]);
+            for(Index j = state::fc; j < Index(state::fc) + 12; j += 6)
+            {
+              lastX_[j + 3 + i] = std::min(lastX_[j + 3 + i], limitTorques_[i]);
+              lastX_[j + i] = std::min(lastX_[j + i], limitForces_[i]);
+              lastX_[j + 3 + i] = std::max(lastX_[j + 3 + i], -limitTorques_[i]);
+              lastX_[j + i] = std::max(lastX_[j + i], -limitForces_[i]);
+            }
           }
         }
         ekf_.setState(lastX_, ekf_.getCurrentTime());
-- 
2.43.0


From 557eb7f0adab27cbc73d9da58e1f0dc4aabef361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:56 +0000
Subject: [PATCH 85/88] fix: the measurement covariance follows the
 measurements in use

---
 .../model-base-ekf-flex-estimator-imu.hpp     |  3 +
 src/model-base-ekf-flex-estimator-imu.cpp     | 56 ++++++++++---------
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index cf33b5f..1b6c71a 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -261,6 +261,9 @@ protected:
   Matrix forceVariance_; // force sensor variance
   double absPosVariance_;
 
+  Index forceBlocks_; // number of force sensors in R_
+  bool absPosBlock_; // whether the absolute pose is in R_
+
   bool useFTSensors_;
 
   bool withAbsolutePos_;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 3f4431e..4d67478 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -16,7 +16,7 @@ ModelBaseEKFFlexEstimatorIMU::ModelBaseEKFFlexEstimatorIMU(double dt)
                               inputSizeBase_,
                               Matrix::Constant(stateSize, 1, dxFactor)),
   functor_(dt), stateSize_(stateSize), unmodeledForceVariance_(1e-6), forceVariance_(Matrix::Identity(6, 6) * 1e-4),
-  absPosVariance_(1e-4), useFTSensors_(false), withAbsolutePos_(false), withComBias_(false),
+  absPosVariance_(1e-4), forceBlocks_(0), absPosBlock_(false), useFTSensors_(false), withAbsolutePos_(false), withComBias_(false),
   withUnmodeledForces_(false), limitOn_(true)
 {
   ekf_.setMeasureSize(functor_.getMeasurementSize());
@@ -93,8 +93,9 @@ void ModelBaseEKFFlexEstimatorIMU::resetCovarianceMatrices()
 
   /////// std::cout << "\n\n\n ============> RESET COVARIANCE MATRIX <=============== \n\n\n" << std::endl;
 
-  R_ = Matrix::Identity(getMeasurementSize(), getMeasurementSize());
-  R_.block<6, 6>(0, 0) = getDefaultRIMU();
+  R_ = getDefaultRIMU();
+  forceBlocks_ = 0;
+  absPosBlock_ = false;
 
   updateMeasurementCovarianceMatrix_();
   stateObservation::Matrix m;
@@ -207,6 +208,9 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurementNoiseCovariance(const Matrix &
   /// and have a size multiple of 6
 
   R_ = R;
+  /// the blocks provided by the user, the missing ones are added
+  forceBlocks_ = useFTSensors_ ? std::min<Index>(functor_.getContactsNumber(), R.rows() / 6 - 1) : 0;
+  absPosBlock_ = withAbsolutePos_ && R.rows() >= getMeasurementSize();
   updateMeasurementCovarianceMatrix_();
 }
 
@@ -269,41 +273,41 @@ Vector ModelBaseEKFFlexEstimatorIMU::getForcesAndMoments()
 
 void ModelBaseEKFFlexEstimatorIMU::updateMeasurementCovarianceMatrix_()
 {
+  const Index forceBlocks = useFTSensors_ ? functor_.getContactsNumber() : 0;
 
-  if(R_.rows() != getMeasurementSize())
+  if(R_.rows() != getMeasurementSize() || forceBlocks != forceBlocks_ || withAbsolutePos_ != absPosBlock_)
   {
+    const Matrix R = R_;
+    R_ = Matrix::Zero(getMeasurementSize(), getMeasurementSize());
 
-    Index realIndex = R_.rows();
-    R_.conservativeResize(getMeasurementSize(), getMeasurementSize());
+    /// the IMU and the force sensors which were already there keep their covariance
+    const Index kept = 6 + 6 * std::min(forceBlocks, forceBlocks_);
+    R_.topLeftCorner(kept, kept) = R.topLeftCorner(kept, kept);
 
-    Index currIndex = 6;
-    if(useFTSensors_)
+    /// the other force sensors get theirs
+    Index currIndex = kept;
+    for(; currIndex < 6 + 6 * forceBlocks; currIndex += 6)
     {
-      /// if the force part of the matrix is not filled
-      if(realIndex < currIndex + functor_.getContactsNumber() * 6)
-      {
-        R_.block(currIndex, 0, functor_.getContactsNumber() * 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, functor_.getContactsNumber() * 6).setZero();
-        for(Index i = 0; i < functor_.getContactsNumber(); ++i)
-        {
-          R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
-          currIndex += 6;
-        }
-      }
+      R_.block<6, 6>(currIndex, currIndex) = forceVariance_;
     }
 
     if(withAbsolutePos_)
     {
-      if(realIndex < currIndex + 6)
+      if(absPosBlock_)
       {
-
-        R_.block(currIndex, 0, 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, 6).setZero();
-        R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
-
-        currIndex += 6;
+        const Index previous = 6 + 6 * forceBlocks_;
+        R_.block<6, 6>(currIndex, currIndex) = R.block<6, 6>(previous, previous);
+        R_.block(currIndex, 0, 6, kept) = R.block(previous, 0, 6, kept);
+        R_.block(0, currIndex, kept, 6) = R.block(0, previous, kept, 6);
+      }
+      else
+      {
+        R_.block<6, 6>(currIndex, currIndex) = Matrix6::Identity() * absPosVariance_;
       }
     }
+
+    forceBlocks_ = forceBlocks;
+    absPosBlock_ = withAbsolutePos_;
   }
   ekf_.setR(R_);
 }
-- 
2.43.0


From 704fcf892df220fdc7717ba47824ebfad2c9d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:56 +0000
Subject: [PATCH 86/88] fix: the variances of the force and absolute pose
 measurements take effect when they are set

---
 .../model-base-ekf-flex-estimator-imu.hpp     |  3 +++
 src/model-base-ekf-flex-estimator-imu.cpp     | 27 ++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index 1b6c71a..ac942bc 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -241,6 +241,9 @@ public:
 protected:
   virtual void updateMeasurementCovarianceMatrix_();
 
+  /// sets the covariance of the force sensors in use to their variance
+  void resetForceCovariance_();
+
   IMUElasticLocalFrameDynamicalSystem functor_;
 
   Vector x_;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 4d67478..765feed 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -605,19 +605,38 @@ void ModelBaseEKFFlexEstimatorIMU::setUnmodeledForceProcessVariance(double d)
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 {
   forceVariance_ = Matrix::Identity(6, 6) * d;
-  updateMeasurementCovarianceMatrix_();
+  resetForceCovariance_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
 {
-  forceVariance_ = v;
-  updateMeasurementCovarianceMatrix_();
+  forceVariance_.setZero(6, 6);
+  forceVariance_.topLeftCorner<3, 3>() = v;
+  forceVariance_.bottomRightCorner<3, 3>() = v;
+  resetForceCovariance_();
+}
+
+void ModelBaseEKFFlexEstimatorIMU::resetForceCovariance_()
+{
+  for(Index i = 6; i < 6 + 6 * forceBlocks_; i += 6)
+  {
+    R_.middleRows<6>(i).setZero();
+    R_.middleCols<6>(i).setZero();
+    R_.block<6, 6>(i, i) = forceVariance_;
+  }
+  ekf_.setR(R_);
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setAbsolutePosVariance(double d)
 {
   absPosVariance_ = d;
-  updateMeasurementCovarianceMatrix_();
+  if(absPosBlock_)
+  {
+    R_.bottomRows<6>().setZero();
+    R_.rightCols<6>().setZero();
+    R_.bottomRightCorner<6, 6>() = Matrix6::Identity() * d;
+  }
+  ekf_.setR(R_);
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setRobotMass(double m)
-- 
2.43.0


From 98c322663871162b8208420f7fdb92f890eb9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 87/88] fix: the size of the flexibility guess is checked
 without converting it to a vector

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 2 +-
 src/model-base-ekf-flex-estimator-imu.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 710c6d1..45017ef 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -106,7 +106,7 @@ double FixedContactEKFFlexEstimatorIMU::getVirtualMeasurementsCovariance() const
 
 void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 765feed..5f070c0 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -157,7 +157,7 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurement(const Vector & y)
 
 void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
-- 
2.43.0


From 9a18fcad424df1a8cca3956842fec25c183baed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:50 +0000
Subject: [PATCH 88/88] fix: the flexibility estimators do not use predictions
 made with former settings of the model

---
 src/ekf-flexibility-estimator-base.cpp    | 7 +++++++
 src/extended-kalman-filter.cpp            | 3 +++
 src/model-base-ekf-flex-estimator-imu.cpp | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/src/ekf-flexibility-estimator-base.cpp b/src/ekf-flexibility-estimator-base.cpp
index c4b9b80..dcff1fe 100644
--- a/src/ekf-flexibility-estimator-base.cpp
+++ b/src/ekf-flexibility-estimator-base.cpp
@@ -101,6 +101,9 @@ const Vector & EKFFlexibilityEstimatorBase::getFlexibilityVector()
     k_ = ekf_.getMeasurementTime();
     // std::cout << "\n\n\n\n\n k " << k_ << std::endl;
 
+    /// the settings of the model may have changed since the stored predictions
+    ekf_.setFunctor(ekf_.getFunctor());
+
     for(TimeIndex i = ekf_.getCurrentTime() + 1; i <= k_; ++i)
     {
       if(finiteDifferencesJacobians_)
@@ -156,11 +159,15 @@ Vector EKFFlexibilityEstimatorBase::getInnovation()
 
 Vector EKFFlexibilityEstimatorBase::getPredictedMeasurement()
 {
+  /// the settings of the model may have changed since the stored predictions
+  ekf_.setFunctor(ekf_.getFunctor());
   return ekf_.updateStateAndMeasurementPrediction();
 }
 
 Vector EKFFlexibilityEstimatorBase::getPrediction()
 {
+  /// the settings of the model may have changed since the stored predictions
+  ekf_.setFunctor(ekf_.getFunctor());
   return ekf_.updateStatePrediction();
 }
 
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 671b7b6..731719e 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -62,6 +62,9 @@ ExtendedKalmanFilter::ExtendedKalmanFilter(Index n,
 void ExtendedKalmanFilter::setFunctor(DynamicalSystemFunctorBase * f)
 {
   f_ = f;
+  /// the stored predictions are not valid for this functor
+  opt.fState_ = 0x0;
+  opt.fMeas_ = 0x0;
   // f_->reset();
 }
 
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 5f070c0..1970126 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -366,6 +366,9 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
     {
       k_ = ekf_.getMeasurementTime();
 
+      /// the settings of the model may have changed since the stored predictions
+      ekf_.setFunctor(ekf_.getFunctor());
+
       TimeIndex i;
       for(i = ekf_.getCurrentTime() + 1; i <= k_; ++i)
       {
-- 
2.43.0

