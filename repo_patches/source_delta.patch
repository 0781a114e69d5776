From 8f76faf7f75eb286a9aecf4360f8a74fca1dbb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 01/68] fix: deriving a subvariable must not reset the
 derivative of its supervariable

The derivative of a subvariable maps to a part of the memory of the derivative
of its supervariable. Setting it to zero at creation erased values already set
on the latter (or on an overlapping subvariable).
---
 src/Variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index c0e1965..4178bf7 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -223,7 +223,10 @@ Variable::Variable(Variable * var, bool autoName)
     ss << "[" << shift_.tSize() << ":" << shift_.tSize() + size() - 1 << "]";
   }
   name_ = ss.str();
-  value_.setZero();
+  // The value of the derivative of a subvariable is a part of the value of the
+  // derivative of its supervariable, that might already be in use.
+  if(!var->isSubvariable())
+    value_.setZero();
 }
 
 VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space shift, bool autoName) const
-- 
2.43.0


From 6953483fa0bac251ca031e1950c100b802e18ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 02/68] fix: shared pointers obtained from a subvariable must
 keep it alive

basePrimitive(), primitive() and shared_from_this() of a subvariable (or of its
derivatives) returned a pointer sharing the ownership of the supervariable
instead of that of the subvariable: it was left dangling once the other pointers
on the subvariable were released.
---
 src/Variable.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 4178bf7..4b3b06b 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -268,20 +268,13 @@ Variable::Variable(make_shared_token, VariablePtr var, const Space & space, std:
 
 VariablePtr Variable::shared_from_this()
 {
+  // The object managed by a shared_ptr is always a base primitive: it owns its
+  // derivatives, and a base primitive subvariable owns (a pointer on) its
+  // supervariable.
   if(isBasePrimitive())
-  {
-    if(isSubvariable())
-      return {superVariable_->shared_from_this(), this};
-    else
-      return std::enable_shared_from_this<Variable>::shared_from_this();
-  }
+    return std::enable_shared_from_this<Variable>::shared_from_this();
   else
-  {
-    if(isSubvariable())
-      return {superVariable_->basePrimitive()->shared_from_this(), this};
-    else
-      return {basePrimitive()->shared_from_this(), this};
-  }
+    return {basePrimitive(), this};
 }
 
 } // namespace tvm
-- 
2.43.0


From 82187a0028214b33a8535da079d3426a679b7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 03/68] fix: automatic name of a subvariable of a subvariable
 uses the offset of the parent in its supervariable

---
 src/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 4b3b06b..d64c601 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -245,7 +245,7 @@ VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space
   // Create a subvariable of the supervariable base primitive
   if(autoName)
   {
-    int start = base->spaceShift().rSize() + shift.rSize();
+    int start = shift_.rSize() + shift.rSize();
     std::stringstream ss;
     ss << base->name() << "[" << start << ":" << start + space.rSize() - 1 << "]";
     sub = std::make_shared<Variable>(make_shared_token{}, base, space, ss.str(), shift_ * shift);
-- 
2.43.0


From 539a2c5c08891eebc3c9230d93eef336b89c58e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:22 +0000
Subject: [PATCH 04/68] fix: self-assignment of a VariableVector must not empty
 it

---
 src/VariableVector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 4081250..12d4324 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -14,8 +14,11 @@ VariableVector::VariableVector(const VariableVector & other) : VariableVector(ot
 
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
-  clear();
-  add(other.variables());
+  if(this != &other)
+  {
+    clear();
+    add(other.variables());
+  }
   return *this;
 }
 
-- 
2.43.0


From 14197c215c1b6bd21ec469f94513809cc7e144ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:23 +0000
Subject: [PATCH 05/68] fix: a partition must be recomputed when counts change
 without changing the union

---
 src/internal/VariableCountingVector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 29c09a4..cd225f4 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -18,7 +18,8 @@ bool VariableCountingVector::add(VariablePtr v)
   bool change = counterPair.first.add(start, dim);
   if(change)
     ++counterPair.second;
-  upToDate_ = upToDate_ && !change;
+  // With split_, the partition can change even when the union of the variables does not.
+  upToDate_ = upToDate_ && !change && !split_;
   return change;
 }
 
@@ -48,7 +49,8 @@ bool VariableCountingVector::remove(const Variable & v)
       counterPair.second += 10;
     }
   }
-  upToDate_ = upToDate_ && !change;
+  // With split_, the partition can change even when the union of the variables does not.
+  upToDate_ = upToDate_ && !change && !split_;
   return change;
 }
 
-- 
2.43.0


From 3a1b92b84b9bd549f3eacc594cfc5e46ae659bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:51 +0000
Subject: [PATCH 06/68] fix: VariableCountingVector must not keep pointers to
 variables no longer in use

---
 src/internal/VariableCountingVector.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index cd225f4..f18f1bc 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -34,13 +34,17 @@ bool VariableCountingVector::remove(const Variable & v)
   VariablePtr s = v.superVariable();
   const Space & start = v.spaceShift();
   const Space & dim = v.space();
-  auto & counterPair = count_.at(s.get());
+  auto it = count_.find(s.get());
+  if(it == count_.end())
+    throw std::out_of_range("[VariableCountingVector::remove] The variable is not present.");
+  auto & counterPair = it->second;
   bool change = counterPair.first.remove(start, dim);
   if(change)
   {
     if(counterPair.first.empty())
     {
-      counterPair.second = 0;
+      // No trace of the variable is kept, as it might be destroyed from now on.
+      count_.erase(it);
     }
     else
     {
-- 
2.43.0


From c727e1e30350f5d987b278a71aecac06ddc866f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:16 +0000
Subject: [PATCH 07/68] fix: scaling the identity does not give the identity

---
 src/internal/MatrixProperties.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 6ebc6e1..95922de 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -266,12 +266,16 @@ Shape operator-(const Shape & s)
 
 Shape operator*(double d, const Shape & s)
 {
-  if(d < 0)
-    return -s;
-  else if(d > 0)
+  if(d == 0)
+    return Shape::ZERO;
+  else if(d == 1)
     return s;
+  else if(d == -1)
+    return -s;
+  else if(s == Shape::IDENTITY || s == Shape::MINUS_IDENTITY)
+    return Shape::MULTIPLE_OF_IDENTITY;
   else
-    return Shape::ZERO;
+    return s;
 }
 
 Shape operator+(const Shape & s1, const Shape & s2)
-- 
2.43.0


From 4d1e4b90f12f2a0fcdb7e185d8cac271d4d82ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:16 +0000
Subject: [PATCH 08/68] fix: operations on matrix properties must not throw
 when invertibility or constness is unknown

---
 src/internal/MatrixProperties.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 95922de..fc2411c 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -359,28 +359,37 @@ Shape operator*(const Shape & s1, const Shape & s2)
   }
 }
 
+/** Build the properties of the result of an operation.
+ *
+ * \p c and \p i are what can be deduced of the constness and invertibility from those of the operands only: when false
+ * they mean "unknown" (and not that the result is known to be non-constant or non-invertible), and might be deduced from
+ * the shape and positiveness.
+ */
+static MatrixProperties resultProperties(const Shape & s, const Positiveness & p, const Constness & c, const Invertibility & i)
+{ return {s, p, Constness(c || deduceConstance(s)), Invertibility(i || deduceInvertibility(s, p))}; }
+
 MatrixProperties operator-(const MatrixProperties & p)
-{ return {-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()}; }
+{ return resultProperties(-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()); }
 
 MatrixProperties operator*(double d, const MatrixProperties & p)
-{ return {d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()}; }
+{ return resultProperties(d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()); }
 
 MatrixProperties operator+(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
-          p1.invertibility() + p2.invertibility()};
+  return resultProperties(p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(),
+                          p1.constness() + p2.constness(), p1.invertibility() + p2.invertibility());
 }
 
 MatrixProperties operator-(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
-          p1.invertibility() - p2.invertibility()};
+  return resultProperties(p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(),
+                          p1.constness() - p2.constness(), p1.invertibility() - p2.invertibility());
 }
 
 MatrixProperties operator*(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
-          p1.invertibility() * p2.invertibility()};
+  return resultProperties(p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(),
+                          p1.constness() * p2.constness(), p1.invertibility() * p2.invertibility());
 }
 
 } // namespace internal
-- 
2.43.0


From 2d02f409acc66e7c807c9c37e5615df7b0696ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 09/68] fix: ordering a graph whose cycle is not reachable from
 a root must raise an error

---
 src/graph/DependencyGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/DependencyGraph.cpp b/src/graph/DependencyGraph.cpp
index 898c3f5..f5025ec 100644
--- a/src/graph/DependencyGraph.cpp
+++ b/src/graph/DependencyGraph.cpp
@@ -316,6 +316,12 @@ std::pair<std::vector<size_t>, DependencyGraph::DisjointSet> DependencyGraph::or
         "[DependencyGraph::Order] Try to order a non-empty graph with no root. It contains at least one cycle.");
   }
 
+  if(ret.first.size() != n)
+  {
+    // Some nodes are not reachable from a root: each one is on a cycle or only reachable from a cycle.
+    throw std::logic_error("[DependencyGraph::Order] The graph contains at least one cycle.");
+  }
+
   return ret;
 }
 
-- 
2.43.0


From 171e34d6c3eba9bd45d3028c1ac7aa81b53ddd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:36 +0000
Subject: [PATCH 10/68] fix: all the outputs given to addInputDependency must
 be checked and recorded as inputs

---
 include/tvm/graph/abstract/Node.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/graph/abstract/Node.hpp b/include/tvm/graph/abstract/Node.hpp
index 9c5a1a6..e73ebed 100644
--- a/include/tvm/graph/abstract/Node.hpp
+++ b/include/tvm/graph/abstract/Node.hpp
@@ -144,8 +144,8 @@ void Node<T>::addInputDependency(EnumU u, std::shared_ptr<S> source, EnumO i, Ar
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, source.get(), i, args...);
 }
@@ -161,8 +161,8 @@ void Node<T>::addInputDependency(EnumU u, S & source, EnumO i, Args... args)
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, &source, i, args...);
 }
-- 
2.43.0


From e623b75fba5242fe2ead49615f0ec433bcaffe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:15 +0000
Subject: [PATCH 11/68] fix: removing a variable a function or constraint does
 not depend on must raise an error

---
 src/internal/FirstOrderProvider.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/internal/FirstOrderProvider.cpp b/src/internal/FirstOrderProvider.cpp
index a89497b..c705278 100644
--- a/src/internal/FirstOrderProvider.cpp
+++ b/src/internal/FirstOrderProvider.cpp
@@ -4,6 +4,9 @@
 
 #include <tvm/exception/exceptions.h>
 
+#include <algorithm>
+#include <stdexcept>
+
 namespace tvm
 {
 
@@ -58,10 +61,15 @@ void FirstOrderProvider::addVariable(const VariableVector & vv, bool linear)
 
 void FirstOrderProvider::removeVariable(VariablePtr v)
 {
-  variables_.remove(*v);
-  jacobian_.erase(v.get());
-  linear_.erase(v.get());
-  removeVariable_(v);
+  auto it = std::find_if(variables_.begin(), variables_.end(), [&v](const VariablePtr & x) { return *x == *v; });
+  if(it == variables_.end())
+    throw std::runtime_error("[FirstOrderProvider::removeVariable] Variable " + v->name() + " is not present.");
+
+  const VariablePtr x = *it; // v might be a different object designating the same (sub)variable
+  variables_.remove(*x);
+  jacobian_.erase(x.get());
+  linear_.erase(x.get());
+  removeVariable_(x);
 }
 
 void FirstOrderProvider::addVariable_(VariablePtr)
-- 
2.43.0


From 5057cec99ff7edcd6fd2d00e19fee44b4fb99c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:15 +0000
Subject: [PATCH 12/68] fix: the columns of JDot for a part of a variable are
 given by tangent sizes

---
 include/tvm/function/abstract/Function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/function/abstract/Function.h b/include/tvm/function/abstract/Function.h
index 81deda5..325b4b8 100644
--- a/include/tvm/function/abstract/Function.h
+++ b/include/tvm/function/abstract/Function.h
@@ -89,7 +89,7 @@ protected:
   // cache
   Eigen::VectorXd velocity_;
   Eigen::VectorXd normalAcceleration_;
-  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot> JDot_;
+  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot, true> JDot_;
 
 private:
   // we retain the variables' derivatives shared_ptr to ensure the reference is never lost
-- 
2.43.0


From 28bc7e76d458d76f1366da5e52e009f5d185d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:15 +0000
Subject: [PATCH 13/68] fix: matrices given for a same variable must be summed
 in a linear constraint

---
 src/constraint/BasicLinearConstraint.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/constraint/BasicLinearConstraint.cpp b/src/constraint/BasicLinearConstraint.cpp
index 241c4f1..bed7f14 100644
--- a/src/constraint/BasicLinearConstraint.cpp
+++ b/src/constraint/BasicLinearConstraint.cpp
@@ -206,9 +206,19 @@ void BasicLinearConstraint::add(const Eigen::MatrixXd & A, VariablePtr x)
     throw std::runtime_error("Matrix A doesn't have coherent row size.");
   if(A.cols() != x->size())
     throw std::runtime_error("Matrix A doesn't have its column size coherent with its corresponding variable.");
-  addVariable(x, true);
-  jacobian_.at(x.get()) = A;
-  jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  if(variables().contains(*x))
+  {
+    // x, or a variable containing it, was already added: contributions are summed.
+    auto J = jacobian_.at(x.get(), tvm::utils::internal::with_sub{});
+    J += A;
+    J.properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
+  else
+  {
+    addVariable(x, true);
+    jacobian_.at(x.get()) = A;
+    jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
 }
 
 } // namespace constraint
-- 
2.43.0


From 1de3eeab3b1a8a905648fcc8c2382cc431752c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 14/68] fix: critical damping for a matrix gain is 2 sqrt(kp),
 and kp must be kept

---
 src/task_dynamics/ProportionalDerivative.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 08b62f1..65bd880 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -51,7 +51,7 @@ ProportionalDerivative::ProportionalDerivative(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 std::unique_ptr<abstract::TaskDynamicsImpl> ProportionalDerivative::impl_(FunctionPtr f,
@@ -149,10 +149,11 @@ void ProportionalDerivative::Impl::gains(const Eigen::VectorXd & kp)
 void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
 {
   checkGainSize(kp);
+  kp_ = kp;
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 void ProportionalDerivative::Impl::checkGainSize(double) const
-- 
2.43.0


From 451a74585e53fabb120d2a376897c0386b620a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 15/68] fix: a proportional gain matrix with only one right
 dimension must be refused

---
 src/task_dynamics/Proportional.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 374d89b..c07216a 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -29,8 +29,9 @@ Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorX
 : TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
-     || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
-         && mpark::get<Eigen::MatrixXd>(kp).rows() != f->size()))
+     || (kp.index() == 2                                                            // Matrix gain
+         && (mpark::get<Eigen::MatrixXd>(kp).cols() != f->size()
+             || mpark::get<Eigen::MatrixXd>(kp).rows() != f->size())))
   {
     throw std::runtime_error("[task_dynamics::Proportional::Impl] Gain and function have incompatible sizes.");
   }
-- 
2.43.0


From 436f2e294676579009bb26b9011c7a1bc5a28170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 16/68] fix: a reference whose size is not the one of the
 function must be refused

---
 src/task_dynamics/Reference.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task_dynamics/Reference.cpp b/src/task_dynamics/Reference.cpp
index 49f888e..255502c 100644
--- a/src/task_dynamics/Reference.cpp
+++ b/src/task_dynamics/Reference.cpp
@@ -37,6 +37,10 @@ void Reference::Impl::setReference(const FunctionPtr & ref)
   {
     throw std::runtime_error("[task_dynamics::Reference::Impl] You cannot pass a nullptr as reference function.");
   }
+  if(ref->size() != function().size())
+  {
+    throw std::runtime_error("[task_dynamics::Reference::Impl] Reference and function have incompatible sizes.");
+  }
 
   ref_ = ref;
   addInput(ref, internal::FirstOrderProvider::Output::Value);
-- 
2.43.0


From b61854826237ae4e209b7d0ce7fcf5d300600479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:56 +0000
Subject: [PATCH 17/68] fix: an assignment must keep alive the parts of
 variables it is mapped to

---
 include/tvm/scheme/internal/MatrixAssignment.h | 2 +-
 src/scheme/Assignment.cpp                      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/scheme/internal/MatrixAssignment.h b/include/tvm/scheme/internal/MatrixAssignment.h
index 1ac89d1..1f3347c 100644
--- a/include/tvm/scheme/internal/MatrixAssignment.h
+++ b/include/tvm/scheme/internal/MatrixAssignment.h
@@ -25,7 +25,7 @@ public:
   using MatrixFunction = MatrixRef (AssignmentTarget::*)(int, int) const;
 
   CompiledAssignmentWrapper<Eigen::MatrixXd> assignment;
-  Variable * x;
+  VariablePtr x;
   Range colRange;
   MatrixFunction getTargetMatrix;
 
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70b6b5d..8324c6f 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -417,7 +417,7 @@ void Assignment::addMatrixAssignment(Variable & x, MatrixFunction M, const Range
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = createAssignment<Eigen::MatrixXd, AssignType::COPY>(from, to, flip);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x.shared_from_this(), range, M});
 }
 
 void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variables,
@@ -459,7 +459,7 @@ void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variabl
     // - use CUSTOM multiplications
     // - in particular use the nullspace custom multiplication for variable z
     // when appropriate.
-    matrixSubstitutionAssignments_.push_back({w, xi.get(), range, M});
+    matrixSubstitutionAssignments_.push_back({w, xi, range, M});
   }
 }
 
@@ -513,7 +513,7 @@ void Assignment::addZeroAssignment(Variable & x, MatrixFunction M, const Range &
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = CompiledAssignmentWrapper<Eigen::MatrixXd>::make<COPY, NONE, IDENTITY, ZERO>(to);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x.shared_from_this(), range, M});
 }
 
 void Assignment::addAssignments(const VariableVector & variables,
-- 
2.43.0


From bd2a10aa0f58d5e141b1c6cb063377a82b35f2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:16 +0000
Subject: [PATCH 18/68] fix: an anisotropic weight has the size of the source,
 also when the target is twice as big

---
 src/scheme/Assignment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 8324c6f..06d8f94 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -99,7 +99,7 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
   if(vector)
   {
     if(!requirements_->anisotropicWeight().isDefault()
-       && requirements_->anisotropicWeight().value().size() != target_.size())
+       && requirements_->anisotropicWeight().value().size() != source_->size())
       throw std::runtime_error("[Assignment::onUpdateWeights] Anisotropic weight has not the correct size.");
 
     if(useDefaultAnisotropicWeight_ && !requirements_->anisotropicWeight().isDefault()
-- 
2.43.0


From a5066c329ed973bedca4b026442be3a8b5cdd0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:33 +0000
Subject: [PATCH 19/68] fix: changing the scalar weight must also rescale the
 anisotropic one

---
 src/scheme/Assignment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 06d8f94..9fb344a 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -96,7 +96,8 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
     data_->scalarWeight_ = std::sqrt(requirements_->weight().value()) * scalarizationWeight_;
     data_->minusScalarWeight_ = -data_->scalarWeight_;
   }
-  if(vector)
+  // The anisotropic weight we use is scaled by the scalar weight.
+  if(vector || (scalar && !useDefaultAnisotropicWeight_))
   {
     if(!requirements_->anisotropicWeight().isDefault()
        && requirements_->anisotropicWeight().value().size() != source_->size())
-- 
2.43.0


From 1805cb4c0b10267d822246ec367689befdca380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:07 +0000
Subject: [PATCH 20/68] fix: the constants standing for infinite bounds must
 follow the convention of the target

---
 include/tvm/scheme/internal/Assignment.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.hpp b/include/tvm/scheme/internal/Assignment.hpp
index d231417..8bfeb14 100644
--- a/include/tvm/scheme/internal/Assignment.hpp
+++ b/include/tvm/scheme/internal/Assignment.hpp
@@ -242,16 +242,22 @@ inline void Assignment::addVectorAssignment(const From & f,
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createAssignment<Eigen::VectorXd, A>(d, to, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createMultiplicationAssignment<Eigen::VectorXd, A>(d, to, D, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
-- 
2.43.0


From 82d1c60ed658b02be9cf4c04088741b9b2b31e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 21/68] fix: the constants standing for infinite bounds must be
 divided by the diagonal, as the finite ones

---
 include/tvm/scheme/internal/Assignment.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/scheme/internal/Assignment.hpp b/include/tvm/scheme/internal/Assignment.hpp
index 8bfeb14..d371108 100644
--- a/include/tvm/scheme/internal/Assignment.hpp
+++ b/include/tvm/scheme/internal/Assignment.hpp
@@ -259,7 +259,7 @@ inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef
     flip = !flip;
 
   const VectorRef & to = retrieveTarget(target_, v);
-  auto w = createMultiplicationAssignment<Eigen::VectorXd, A>(d, to, D, flip);
+  auto w = createMultiplicationAssignment<Eigen::VectorXd, A, INVERSE_DIAGONAL>(d, to, D, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
 }
 } // namespace tvm::scheme::internal
-- 
2.43.0


From 67623dae393ced7d9924ad5895d471ff66ca464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 22/68] fix: updating the target of a bound with a diagonal
 matrix must not crash

---
 src/scheme/Assignment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 9fb344a..e531f9b 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -73,7 +73,11 @@ void Assignment::onUpdatedTarget()
   for(auto & a : matrixSubstitutionAssignments_)
     a.updateTarget(target_);
   for(auto & a : vectorAssignments_)
-    a.assignment.to((target_.*a.getTargetVector)());
+  {
+    // Some bound assignments are to internal temporary vectors and not to the target.
+    if(a.getTargetVector)
+      a.assignment.to((target_.*a.getTargetVector)());
+  }
   for(auto & a : vectorSubstitutionAssignments_)
     a.assignment.to((target_.*a.getTargetVector)());
 }
-- 
2.43.0


From 6a50d59c6d1a104e843f4089c26eb09665757dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 23/68] fix: bounds assigned to a one-sided target must be
 written in its vector

---
 src/scheme/Assignment.cpp       | 18 +++++-------------
 src/scheme/AssignmentTarget.cpp |  2 +-
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index e531f9b..3f6f25e 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -607,12 +607,7 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
 {
   auto J = source_->jacobian(*variable);
   bool gt = target_.constraintType() == Type::GREATER_THAN;
-  VectorFunction v;
-
-  if(gt)
-    v = &AssignmentTarget::l;
-  else
-    v = &AssignmentTarget::u;
+  VectorFunction v = &AssignmentTarget::b; // a one-sided target has a single vector
 
   if(substitutedVariables_.contains(*variable))
   {
@@ -631,13 +626,10 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
     else if(J.properties().isMinusIdentity())
     {
       assert(target_.constraintType() != source_->type());
-      if(J.properties().isIdentity())
-      {
-        if(first)
-          addVectorAssignment(f, v, true);
-        else
-          gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
-      }
+      if(first)
+        addVectorAssignment(f, v, true);
+      else
+        gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
     }
     else
     {
diff --git a/src/scheme/AssignmentTarget.cpp b/src/scheme/AssignmentTarget.cpp
index f2b8e9b..17a18e7 100644
--- a/src/scheme/AssignmentTarget.cpp
+++ b/src/scheme/AssignmentTarget.cpp
@@ -39,7 +39,7 @@ AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef l, VectorRef u)
 {}
 
 AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef lu, constraint::Type ct)
-: targetType_(TargetType::Linear), cstrType_(ct), range_(range), b_(lu)
+: targetType_(TargetType::Linear), cstrType_(ct), constraintRhs_(constraint::RHS::AS_GIVEN), range_(range), b_(lu)
 {
   if(!(ct == constraint::Type::GREATER_THAN || ct == constraint::Type::LOWER_THAN))
   {
-- 
2.43.0


From 39c4b85c5f8b581246b3b05b7c51253b9adab85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 24/68] fix: a substitution can be removed through the object
 used to add it

---
 src/hint/Substitutions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d1f6a76..0ae82f6 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -45,7 +45,9 @@ void Substitutions::add(const Substitution & s)
 
 void Substitutions::remove(const Substitution & s)
 {
-  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) { return &e == &s; });
+  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) {
+    return e.constraints() == s.constraints() && e.variables() == s.variables();
+  });
   if(it == substitutions_.end())
     return;
 
-- 
2.43.0


From 43d1435210b0227e11e81ef65e102f456357bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 25/68] fix: finalizing substitutions again must not keep the
 additional variables of the previous time

---
 src/hint/Substitutions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 0ae82f6..d8df6c8 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -92,6 +92,7 @@ void Substitutions::finalize()
   // Retrieve all the variables, functions and constraints
   variables_.clear();
   varSubstitutions_.clear();
+  additionalVariables_.clear();
   additionalConstraints_.clear();
   otherVariables_.clear();
   for(const auto & u : units_)
-- 
2.43.0


From ff546c4ba76dd5274d2060fd3fb0c6e6188b6f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 26/68] fix: the zero rows of a diagonal substitution are
 indexed by row, not by column

---
 include/tvm/hint/internal/DiagonalCalculator.h | 1 +
 src/hint/DiagonalCalculator.cpp                | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tvm/hint/internal/DiagonalCalculator.h b/include/tvm/hint/internal/DiagonalCalculator.h
index 2212c17..ad6ca0b 100644
--- a/include/tvm/hint/internal/DiagonalCalculator.h
+++ b/include/tvm/hint/internal/DiagonalCalculator.h
@@ -54,6 +54,7 @@ public:
     std::vector<Eigen::DenseIndex> innz_;  // indices of the non-zero rows in the resulting matrix
     std::vector<Eigen::DenseIndex> cnnz_;  // complementary to nnz in [0:col-1]
     std::vector<Eigen::DenseIndex> zeros_; // indices of the zero rows
+    std::vector<Eigen::DenseIndex> izeros_; // indices of the zero rows in the resulting matrix
 
     Eigen::VectorXd inverse_;
   };
diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index 88005e2..52ec456 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -225,7 +225,7 @@ void DiagonalCalculator::Impl::premultiplyByASharpAndSTranspose_(MatrixRef outA,
   // multiplying by S^T
   for(size_t i = 0; i < zeros_.size(); ++i)
   {
-    outS.row(static_cast<DenseIndex>(i)) = in.row(zeros_[i]);
+    outS.row(static_cast<DenseIndex>(i)) = in.row(izeros_[i]);
   }
 }
 
@@ -275,6 +275,7 @@ void DiagonalCalculator::Impl::build()
     }
     else if(appearZero[i])
     {
+      izeros_.push_back(k);
       ++k;
     }
   }
-- 
2.43.0


From 8018501a440cac5914ebc6ff93927d13b7c75c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 27/68] fix: zero constant parts of substitutions are tracked
 per constraint and per substitution

---
 src/hint/SubstitutionUnit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index ed52975..2b69d70 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -180,7 +180,7 @@ void SubstitutionUnit::update()
 
         // c_i -= A{il}*u_l
         c_.segment(m + mk, mki).noalias() -= A * u_.segment(rx.start, rx.dim);
-        cIsZero_[i] = cIsZero_[i] && uIsZero_[l];
+        cIsZero_[i] = cIsZero_[i] && uIsZero_[x2sub_[l]];
       }
       cZero = cZero && cIsZero_[i];
       mk += mki;
@@ -318,7 +318,6 @@ void SubstitutionUnit::scanSubstitutions()
       ni += v->size();
       XYdependencies_.push_back({});
       XZdependencies_.push_back({});
-      cIsZero_.push_back(false);
     }
     int mi = 0;
     for(const auto & c : s.constraints())
@@ -327,6 +326,7 @@ void SubstitutionUnit::scanSubstitutions()
       constraints_.push_back(c);
       constraintsY_.push_back({});
       CXdependencies_.push_back({});
+      cIsZero_.push_back(false);
       mi += c->size();
       for(const auto & v : tvm::internal::VariableVectorPartition(c->variables(), partition))
       {
-- 
2.43.0


From 23b952198c878e22a9f02bc0d24e9b04bfe9046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 28/68] fix: weight changes of an objective removed at the same
 time must be ignored

---
 src/solver/LeastSquareSolver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 433a135..58f4687 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -294,11 +294,16 @@ void LeastSquareSolver::process(const internal::SolverEvents & se)
 void LeastSquareSolver::updateWeights(const internal::SolverEvents & se)
 {
   const auto & we = se.weightEvents();
+  const auto & ro = se.removedObjectives();
 
   for(const auto & e : we)
   {
     auto [c, scalar, vector] = e;
 
+    // The variables of an objective about to be removed might not be in the problem anymore.
+    if(std::any_of(ro.begin(), ro.end(), [&e](const auto & o) { return o.get() == e.c; }))
+      continue;
+
     // We might have change of weights on constraints that were not added yet (because process of
     // of weight arise before processing added constraints - if we'd process the weight after, we
     // could have change of weight on removed constraints). Therefore we need to ignore constraints
-- 
2.43.0


From 1436f05e42d7f0f483655189b6ca50e8993cd2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 29/68] fix: a target matrix whose shape changes with the same
 number of coefficients needs an update of its users

---
 include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h | 2 +-
 include/tvm/solver/abstract/LeastSquareSolver.h             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h b/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
index 4c765ba..e7f8b08 100644
--- a/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
+++ b/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
@@ -234,7 +234,7 @@ template<typename Derived>
 inline bool HierarchicalLeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                              int rows,
                                                                              int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; }
 
 } // namespace abstract
 
diff --git a/include/tvm/solver/abstract/LeastSquareSolver.h b/include/tvm/solver/abstract/LeastSquareSolver.h
index a153a99..46ebdf1 100644
--- a/include/tvm/solver/abstract/LeastSquareSolver.h
+++ b/include/tvm/solver/abstract/LeastSquareSolver.h
@@ -239,7 +239,7 @@ template<typename Derived>
 inline bool LeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                  int rows,
                                                                  int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; }
 
 } // namespace abstract
 
-- 
2.43.0


From 3e4fd1cd18afe86f57cf89b943de4b6bdaed5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 30/68] fix: the minimum norm objective accounts for the size
 of the objectives of a least-squares solver

---
 src/solver/LeastSquareSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 58f4687..7623773 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -134,6 +134,7 @@ void LeastSquareSolver::setMinimumNorm()
     throw std::runtime_error("[LeastSquareSolver]: attempting to add an objective without calling startBuild first");
   }
   setMinimumNorm_();
+  objSize_ = nObj_;
 }
 
 bool LeastSquareSolver::solve()
-- 
2.43.0


From 22aed5f8d068c65721eb30da2ae77785ce7eecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 31/68] fix: the quadratic cost of the minimum norm is square
 when QLD or Quadprog use the Cholesky option

---
 src/solver/QLDLeastSquareSolver.cpp      | 2 +-
 src/solver/QuadprogLeastSquareSolver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index 48ce27a..e5d3a0b 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -104,7 +104,7 @@ void QLDLeastSquareSolver::addObjective_(LinearConstraintPtr cstr, SolvingRequir
 void QLDLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  Q_.setIdentity(variables().totalSize(), variables().totalSize());
   c_.setZero();
 }
 
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index b4b5d68..e0b108e 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -136,7 +136,7 @@ void QuadprogLeastSquareSolver::addObjective_(LinearConstraintPtr cstr,
 void QuadprogLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  Q_.setIdentity(variables().totalSize(), variables().totalSize());
   c_.setZero();
 }
 
-- 
2.43.0


From 6336740d01458dfef80656e24fa855df5fff799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 32/68] fix: rebuilding a LexLS solver that used the minimum
 norm keeps no trace of it

---
 src/solver/LexLSHierarchicalLeastSquareSolver.cpp | 4 ++--
 src/solver/LexLSLeastSquareSolver.cpp             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
index 99fc660..f4919d5 100644
--- a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
+++ b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
@@ -47,9 +47,9 @@ void LexLSHierarchicalLeastSquareSolver::initializeBuild_(const std::vector<int>
                                                           const std::vector<int> & nIneq,
                                                           bool useBounds)
 {
-  resize_(nEq, nIneq, useBounds);
-
   autoMinNorm_ = false;
+
+  resize_(nEq, nIneq, useBounds);
 }
 
 LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSquareSolver::resize_(
diff --git a/src/solver/LexLSLeastSquareSolver.cpp b/src/solver/LexLSLeastSquareSolver.cpp
index 46d12e7..b9df3b4 100644
--- a/src/solver/LexLSLeastSquareSolver.cpp
+++ b/src/solver/LexLSLeastSquareSolver.cpp
@@ -45,9 +45,9 @@ LexLSLeastSquareSolver::LexLSLeastSquareSolver(const LexLSLSSolverOptions & opti
 
 void LexLSLeastSquareSolver::initializeBuild_(int nObj, int nEq, int nIneq, bool)
 {
-  resize_(nObj, nEq, nIneq, true);
-
   autoMinNorm_ = false;
+
+  resize_(nObj, nEq, nIneq, true);
 }
 
 LexLSLeastSquareSolver::ImpactFromChanges LexLSLeastSquareSolver::resize_(int nObj, int nEq, int nIneq, bool)
-- 
2.43.0


From b84f2c3b7eb818d0f70ff8db57227eac4a1d91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 33/68] fix: starting a new build of a hierarchical solver
 resets the sizes of all levels

---
 src/solver/HierarchicalLeastSquareSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/HierarchicalLeastSquareSolver.cpp b/src/solver/HierarchicalLeastSquareSolver.cpp
index cee065a..56190a3 100644
--- a/src/solver/HierarchicalLeastSquareSolver.cpp
+++ b/src/solver/HierarchicalLeastSquareSolver.cpp
@@ -71,8 +71,8 @@ void HierarchicalLeastSquareSolver::startBuild(const VariableVector & x,
   initializeBuild_(nEq, nIneq, useBounds);
   nEq_ = nEq;
   nIneq_ = nIneq;
-  eqSize_.resize(nEq_.size(), 0);
-  ineqSize_.resize(nEq_.size(), 0);
+  eqSize_.assign(nEq_.size(), 0);
+  ineqSize_.assign(nEq_.size(), 0);
   useBounds_ = useBounds;
 }
 
-- 
2.43.0


From 1cd365fd987da925e72c4d679871fa406e58a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 34/68] fix: the damping of a hierarchical scheme is below the
 bounds when there is no other constraint at level 0

---
 src/scheme/HierarchicalLeastSquares.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index e6c9db7..2a9ea3f 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -148,7 +148,8 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
   }
   // we need to add the additional constraints due to the substitutions.
   // They are added at level 0.
-  if(subs.additionalConstraints().size() > 0 && nEq.size() == 0)
+  // The bounds are handled at level 0 as well, so that this level needs to exist for them too.
+  if((subs.additionalConstraints().size() > 0 || bounds.size() > 0) && nEq.size() == 0)
   {
     nEq.push_back(0);
     nIneq.push_back(0);
-- 
2.43.0


From c8b811cc52952dc494caa50b9a4d25d5b664356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 35/68] fix: a LexLS hierarchical solver can be rebuilt with
 fewer levels or without bounds

---
 src/solver/LexLSHierarchicalLeastSquareSolver.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
index f4919d5..9655b73 100644
--- a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
+++ b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
@@ -64,6 +64,15 @@ LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSqua
 
   // Create data for the new levels, before resizing and referencing
   impact.newLevels_ = nLvl - data_.size();
+  // Forget the levels that do not exist anymore
+  bool newStructure = impact.newLevels_ < 0 || useBounds != useBounds_;
+  for(size_t i = data_.size(); i > nLvl; --i)
+  {
+    data_.pop_back();
+    A_.pop_back();
+    l_.pop_back();
+    u_.pop_back();
+  }
   Eigen::MatrixXd dummy(1, 1);
   for(size_t i = data_.size(); i < nLvl; ++i)
   {
@@ -117,7 +126,7 @@ LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSqua
     impact.inequalityConstraints_[i] = impact.equalityConstraints_[i];
   }
 
-  if(impact.any())
+  if(impact.any() || newStructure)
   {
     std::vector<LexLS::Index> objDim;
     std::vector<LexLS::ObjectiveType> objType;
@@ -187,7 +196,9 @@ void LexLSHierarchicalLeastSquareSolver::setMinimumNorm_()
 
 void LexLSHierarchicalLeastSquareSolver::resetBounds_()
 {
-  int n = variables().totalSize();
+  // Without bounds, xl_ and xu_ might refer to memory that does not exist anymore
+  if(!useBounds_)
+    return;
   xl_.setConstant(-big_number_);
   xu_.setConstant(+big_number_);
 }
-- 
2.43.0


From 67c5416e304408e0c631524353acaf72d1d9efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 36/68] fix: a priority level handled by scalarization has the
 abilities of the last level

---
 include/tvm/scheme/internal/SchemeAbilities.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tvm/scheme/internal/SchemeAbilities.h b/include/tvm/scheme/internal/SchemeAbilities.h
index b0383ea..bd9628c 100644
--- a/include/tvm/scheme/internal/SchemeAbilities.h
+++ b/include/tvm/scheme/internal/SchemeAbilities.h
@@ -115,6 +115,8 @@ inline void SchemeAbilities::check(const ConstraintPtr & c, const RequirementsPt
                   << ") cannot be handled as a strict hierarchy level by the resolution scheme. "
                   << "Using scalarization to revert to weighted approach.";
       }
+      // Scalarization emulates the additional levels within the last level.
+      p = numberOfLevels_ - 1;
     }
     else
     {
-- 
2.43.0


From 103680075131089cf07a48927680da2218020ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 37/68] fix: the automatic damping of the weighted scheme
 follows the additions and removals of objectives

---
 include/tvm/scheme/WeightedLeastSquares.h |  3 +++
 src/scheme/WeightedLeastSquares.cpp       | 22 +++++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index ab44c3e..bcd0808 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -40,6 +40,7 @@ private:
     std::unique_ptr<solver::abstract::LeastSquareSolver> solver;
 
     int maxp = 0;
+    bool autoMinNorm = false;
 
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
@@ -118,6 +119,8 @@ public:
 protected:
   void resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const;
   void processProblem(const LinearizedControlProblem & problem, Memory * memory) const;
+  /** Does the problem have no objective while the automatic damping requires one?*/
+  bool needMinimumNorm(const LinearizedControlProblem & problem) const;
 
   void addTask(const LinearizedControlProblem & problem,
                Memory * memory,
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 990a7a6..d86ae1d 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -8,6 +8,7 @@
 #include <tvm/solver/internal/SolverEvents.h>
 #include <tvm/utils/internal/map.h>
 
+#include <algorithm>
 #include <iostream>
 
 namespace tvm
@@ -56,6 +57,12 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
         return;
       }
     }
+    // The minimum norm objective replaces the objectives when there is none: its use may start, be adapted or end.
+    if(memory->autoMinNorm || needMinimumNorm(problem))
+    {
+      resetComputationData(problem, memory);
+      return;
+    }
     while(memory->hasEvents())
     {
       auto e = memory->popEvent();
@@ -110,6 +117,15 @@ void WeightedLeastSquares::resetComputationData(const LinearizedControlProblem &
   processProblem(problem, memory);
 }
 
+bool WeightedLeastSquares::needMinimumNorm(const LinearizedControlProblem & problem) const
+{
+  const auto & constraints = problem.constraints();
+  return options_.autoDamping().value()
+         && std::all_of(constraints.begin(), constraints.end(), [&](const auto & c) {
+              return c.requirements->priorityLevel().value() == 0 || problem.substitutions().uses(c.constraint);
+            });
+}
+
 void WeightedLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
 {
   auto & solver = *memory->solver;
@@ -166,11 +182,11 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
   }
 
-  bool autoMinNorm = false;
+  memory->autoMinNorm = false;
   if(nObj == 0 && options_.autoDamping().value())
   {
     nObj = memory->variables().totalSize();
-    autoMinNorm = true;
+    memory->autoMinNorm = true;
   }
 
   // configure assignments. FIXME: can we find a better way ?
@@ -197,7 +213,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
     }
   }
 
-  if(autoMinNorm)
+  if(memory->autoMinNorm)
     solver.setMinimumNorm();
 
   // assignments for bounds
-- 
2.43.0


From d14785fa04e0622d57fee3d89168861806cc71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:16 +0000
Subject: [PATCH 38/68] fix: adding or removing a task does not replace the
 substitution functions used by the resolution schemes

---
 include/tvm/LinearizedControlProblem.h |  1 +
 src/LinearizedControlProblem.cpp       | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/tvm/LinearizedControlProblem.h b/include/tvm/LinearizedControlProblem.h
index dbabb83..b3decb1 100644
--- a/include/tvm/LinearizedControlProblem.h
+++ b/include/tvm/LinearizedControlProblem.h
@@ -101,6 +101,7 @@ protected:
 private:
   utils::internal::map<TaskWithRequirements const *, LinearConstraintWithRequirements> constraints_;
   hint::internal::Substitutions substitutions_;
+  bool substitutionsChanged_ = false;
 };
 
 template<constraint::Type T>
diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 36907a5..6ff6a22 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -73,6 +73,7 @@ void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 void LinearizedControlProblem::add(const hint::Substitution & s)
 {
   substitutions_.add(s);
+  substitutionsChanged_ = true;
   notify({scheme::internal::ProblemDefinitionEvent::Type::SubstitutionAddition, &s});
   needFinalize();
 }
@@ -80,6 +81,7 @@ void LinearizedControlProblem::add(const hint::Substitution & s)
 void LinearizedControlProblem::remove(const hint::Substitution & s)
 {
   substitutions_.remove(s);
+  substitutionsChanged_ = true;
   notify({scheme::internal::ProblemDefinitionEvent::Type::SubstitutionRemoval, &s});
   needFinalize();
 }
@@ -156,5 +158,14 @@ const tvm::utils::internal::map<TaskWithRequirements const *, LinearConstraintWi
 
 void LinearizedControlProblem::update_() { substitutions_.updateSubstitutions(); }
 
-void LinearizedControlProblem::finalize_() { substitutions_.finalize(); }
+void LinearizedControlProblem::finalize_()
+{
+  // The finalization creates new substitution functions, while the schemes keep using the ones they know until they get
+  // an event about substitutions. It must thus not happen because of any other change.
+  if(substitutionsChanged_)
+  {
+    substitutions_.finalize();
+    substitutionsChanged_ = false;
+  }
+}
 } // namespace tvm
-- 
2.43.0


From a1fd7533a4715ba57156f4ba7ae840fff7bff22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:29 +0000
Subject: [PATCH 39/68] fix: the additional constraints of the substitutions
 are part of the problem solved by the schemes

---
 src/scheme/HierarchicalLeastSquares.cpp | 6 +++++-
 src/scheme/WeightedLeastSquares.cpp     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 2a9ea3f..984ce76 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -25,7 +25,9 @@ const internal::SchemeAbilities HierarchicalLeastSquares::abilities_ = {NoLimit,
 bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
                                       internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  // Even when all the tasks are used for substitutions, the additional constraints need to be met.
+  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size())
+     || !problem.substitutions().additionalConstraints().empty())
   {
     Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
@@ -159,6 +161,8 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
     nEq[0] += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
+    for(const auto & xi : c->variables())
+      memory->addVariable(subs.substitute(xi));
   }
 
   if(options_.autoDamping().value())
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index d86ae1d..a6926ca 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -26,7 +26,9 @@ const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {2,
 bool WeightedLeastSquares::solve_(const LinearizedControlProblem & problem,
                                   internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  // Even when all the tasks are used for substitutions, the additional constraints need to be met.
+  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size())
+     || !problem.substitutions().additionalConstraints().empty())
   {
     Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
@@ -180,6 +182,8 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
     nEq += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
+    for(const auto & xi : c->variables())
+      memory->addVariable(subs.substitute(xi));
   }
 
   memory->autoMinNorm = false;
-- 
2.43.0


From ba42ea5249c66708e4618c38c581416cd10f9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 40/68] fix: solving a problem whose tasks were all removed
 does not use the result of the previous problem

---
 src/scheme/HierarchicalLeastSquares.cpp | 6 +++++-
 src/scheme/WeightedLeastSquares.cpp     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 984ce76..a619ad6 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -219,7 +219,11 @@ void HierarchicalLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::H
 }
 
 void HierarchicalLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-{ x.set(solver->result()); }
+{
+  // Without variables, the solver was not called and its result might be the one of a previous problem.
+  if(x.variables().totalSize() > 0)
+    x.set(solver->result());
+}
 
 } // namespace scheme
 
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index a6926ca..2066fb3 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -345,7 +345,11 @@ void WeightedLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::Least
 }
 
 void WeightedLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-{ x.set(solver->result()); }
+{
+  // Without variables, the solver was not called and its result might be the one of a previous problem.
+  if(x.variables().totalSize() > 0)
+    x.set(solver->result());
+}
 
 } // namespace scheme
 
-- 
2.43.0


From 89b0ff51a7c20551a7a95edaba41577260acd103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 41/68] fix: the hierarchical scheme takes into account the
 changes of a problem after the first resolution

---
 src/scheme/HierarchicalLeastSquares.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index a619ad6..1370629 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -52,10 +52,13 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
 
   Memory * memory = static_cast<Memory *>(data);
 
-  // If some events require to rebuild the data, we skip all other events.
+  // If some events require to rebuild the data, we skip all other events. As long as the solvers do not handle changes
+  // incrementally, this is the case for all the changes of the problem.
   for(const auto & e : memory->events())
   {
-    if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
+    if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
+       || e.type() == EventType::TaskAddition || e.type() == EventType::TaskRemoval
+       || e.type() == EventType::WeightChange || e.type() == EventType::AnisotropicWeightChange)
     {
       resetComputationData(problem, memory);
       return;
-- 
2.43.0


From c4157cb510d16b9ffa013705be91324c90e397fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 42/68] fix: checkJacobian checks all the columns of the
 jacobian matrices, not only the first one

---
 src/utils/checkFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 74119c3..79144d3 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -131,6 +131,7 @@ bool checkJacobian(const UpdatelessFunction & uf, const CheckOptions & opt, cons
                     << ") of the total jacobian) is not equivalent to the result of the ffd." << std::endl;
         }
       }
+      ++i;
     }
   }
 
-- 
2.43.0


From 6c5585ed40e8a9a0cde851fa9d34f568e725ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 43/68] fix: the trajectory used to check the normal
 acceleration has the given acceleration

---
 src/utils/checkFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 79144d3..1658da7 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -350,7 +350,7 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
   // we consider a constant-acceleration trajectory in variable space
   double dt = opt.step;
   VectorXd vel1 = vel0 + acc * dt;
-  VectorXd val1 = val0 + vel0 * dt + 0.5 * acc.cwiseProduct(acc) * dt * dt;
+  VectorXd val1 = val0 + vel0 * dt + 0.5 * acc * dt * dt;
 
   VectorXd v0 = uf.velocity(val0, vel0);
   VectorXd v1 = uf.velocity(val1, vel1);
-- 
2.43.0


From 0cd2a39b574e074225a19cb25c9ca1bc72344632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 44/68] fix: checkNormalAcceleration accepts functions whose
 normal acceleration is zero

---
 src/utils/checkFunction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 1658da7..334d8b9 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -356,6 +356,9 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
   VectorXd v1 = uf.velocity(val1, vel1);
   // Approximation of d2f/dt2
   VectorXd a = (v1 - v0) / dt;
+  // a, and the normal acceleration, will be obtained by difference: the precision we can expect is relative to the terms
+  // of this difference. In particular, the normal acceleration can be zero.
+  const double scale = a.norm();
 
   // Force computation of jacobian matrices
   uf.jacobian(*x[0], val0);
@@ -370,7 +373,7 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
   }
 
   const VectorXd & na = uf.normalAcceleration(val0, vel0);
-  if(na.isApprox(a, opt.prec))
+  if((na - a).norm() <= opt.prec * std::max(scale, std::min(na.norm(), a.norm())))
   {
     return true;
   }
-- 
2.43.0


From a849a28cbf54ce14149adac0c3bde398f000c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:59 +0000
Subject: [PATCH 45/68] fix: removing a task does not discard pending events
 about substitutions

---
 include/tvm/scheme/internal/ProblemComputationData.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tvm/scheme/internal/ProblemComputationData.h b/include/tvm/scheme/internal/ProblemComputationData.h
index 1e589af..aac26d5 100644
--- a/include/tvm/scheme/internal/ProblemComputationData.h
+++ b/include/tvm/scheme/internal/ProblemComputationData.h
@@ -127,7 +127,8 @@ inline void ProblemComputationData::addEvent(const ProblemDefinitionEvent & e)
   {
     for(auto it = events_.c.begin(); it != events_.c.end();)
     {
-      if(it->emitter() == e.emitter() && it->type() != ProblemDefinitionEvent::Type::TaskRemoval)
+      // Events about substitutions have another type of emitter, whose address might have been reused for the task.
+      if(it->emitter() == e.emitter() && it->type() < ProblemDefinitionEvent::Type::TaskRemoval)
       {
         // In case the addition of the same task is in the event queue: since
         // we are removing it, it is not necessary to add the removal event.
-- 
2.43.0


From 3d268b343892fced387d07d18861d9bc2910bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:59 +0000
Subject: [PATCH 46/68] fix: assigning a requirement to one with callbacks runs
 the callbacks

---
 include/tvm/requirements/abstract/SingleSolvingRequirement.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 63ce1c2..089cdd3 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -55,6 +55,10 @@ protected:
   {
     value_ = other.value();
     default_ = other.isDefault();
+    if constexpr(!Lightweight)
+    {
+      Base::run();
+    }
     return *this;
   }
 
-- 
2.43.0


From 33e3e24753bce4479f3aec4f3d97c90f7cfbab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:37 +0000
Subject: [PATCH 47/68] fix: invalid values of requirements are refused also
 when changing them

---
 include/tvm/requirements/AnisotropicWeight.h  | 14 +++++++---
 include/tvm/requirements/PriorityLevel.h      | 11 +++++---
 include/tvm/requirements/Weight.h             | 11 +++++---
 .../abstract/SingleSolvingRequirement.h       | 26 ++++++++++++++++---
 4 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/include/tvm/requirements/AnisotropicWeight.h b/include/tvm/requirements/AnisotropicWeight.h
index 0665865..2d6b935 100644
--- a/include/tvm/requirements/AnisotropicWeight.h
+++ b/include/tvm/requirements/AnisotropicWeight.h
@@ -39,17 +39,23 @@ class AnisotropicWeightBase : public abstract::SingleSolvingRequirement<Eigen::V
 {
 public:
   /** Default constructor: all elements of w are 1*/
-  AnisotropicWeightBase() : abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>(Eigen::VectorXd(), true) {}
+  AnisotropicWeightBase() : abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>(Eigen::VectorXd(), true,
+                                                                            &AnisotropicWeightBase::check)
+  {}
 
   /** Constructor for a given vector of weights \p w*/
   AnisotropicWeightBase(const Eigen::VectorXd & w)
-  : abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>(w, false)
+  : abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>(w, false, &AnisotropicWeightBase::check)
+  {}
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(AnisotropicWeightBase, Eigen::VectorXd, Lightweight)
+
+private:
+  static void check(const Eigen::VectorXd & w)
   {
     if((w.array() < 0).any())
       throw std::runtime_error("weights must be non-negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(AnisotropicWeightBase, Eigen::VectorXd, Lightweight)
 };
 
 using AnisotropicWeight = AnisotropicWeightBase<true>;
diff --git a/include/tvm/requirements/PriorityLevel.h b/include/tvm/requirements/PriorityLevel.h
index 77abe17..c91e74c 100644
--- a/include/tvm/requirements/PriorityLevel.h
+++ b/include/tvm/requirements/PriorityLevel.h
@@ -18,16 +18,19 @@ class PriorityLevelBase : public abstract::SingleSolvingRequirement<int, Lightwe
 {
 public:
   /** Default constructor p=0 */
-  PriorityLevelBase() : abstract::SingleSolvingRequirement<int, Lightweight>(0, true) {}
+  PriorityLevelBase() : abstract::SingleSolvingRequirement<int, Lightweight>(0, true, &PriorityLevelBase::check) {}
 
   /** Priority level p>=0*/
-  PriorityLevelBase(int p) : abstract::SingleSolvingRequirement<int, Lightweight>(p, false)
+  PriorityLevelBase(int p) : abstract::SingleSolvingRequirement<int, Lightweight>(p, false, &PriorityLevelBase::check) {}
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(PriorityLevelBase, int, Lightweight)
+
+private:
+  static void check(const int & p)
   {
     if(p < 0)
       throw std::runtime_error("Priority level must be non-negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(PriorityLevelBase, int, Lightweight)
 };
 
 using PriorityLevel = PriorityLevelBase<true>;
diff --git a/include/tvm/requirements/Weight.h b/include/tvm/requirements/Weight.h
index b8b33d2..a4a0d1b 100644
--- a/include/tvm/requirements/Weight.h
+++ b/include/tvm/requirements/Weight.h
@@ -24,15 +24,18 @@ class WeightBase : public abstract::SingleSolvingRequirement<double, Lightweight
 {
 public:
   /** Default weight = 1*/
-  WeightBase() : abstract::SingleSolvingRequirement<double, Lightweight>(1.0, true) {}
+  WeightBase() : abstract::SingleSolvingRequirement<double, Lightweight>(1.0, true, &WeightBase::check) {}
 
-  WeightBase(double alpha) : abstract::SingleSolvingRequirement<double, Lightweight>(alpha, false)
+  WeightBase(double alpha) : abstract::SingleSolvingRequirement<double, Lightweight>(alpha, false, &WeightBase::check) {}
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(WeightBase, double, Lightweight)
+
+private:
+  static void check(const double & alpha)
   {
     if(alpha < 0)
       throw std::runtime_error("weight must be non negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(WeightBase, double, Lightweight)
 };
 
 using Weight = WeightBase<true>;
diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 089cdd3..0b32e45 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -30,9 +30,14 @@ public:
   /** Get the current value. */
   const T & value() const { return value_; }
 
-  /** Change the current value */
+  /** Change the current value.
+   *
+   * \throws If \p val is not valid for this requirement.
+   */
   void value(const T & val)
   {
+    if(check_)
+      check_(val);
     value_ = val;
     default_ = false;
     if constexpr(!Lightweight)
@@ -45,10 +50,18 @@ public:
   bool isDefault() const { return default_; }
 
 protected:
-  SingleSolvingRequirement(const T & val, bool isDefault) : default_(isDefault), value_(val) {}
+  /** Type of a function throwing if its argument is not valid.*/
+  using Check = void (*)(const T &);
+
+  SingleSolvingRequirement(const T & val, bool isDefault, Check check = nullptr)
+  : default_(isDefault), value_(val), check_(check)
+  {
+    if(check_)
+      check_(val);
+  }
 
   SingleSolvingRequirement(const SingleSolvingRequirement<T, !Lightweight> & other)
-  : value_(other.value()), default_(other.isDefault())
+  : default_(other.isDefault()), value_(other.value()), check_(other.check_)
   {}
 
   SingleSolvingRequirement & operator=(const SingleSolvingRequirement<T, !Lightweight> & other)
@@ -72,6 +85,13 @@ protected:
   bool default_;
 
   T value_;
+
+private:
+  /** Verification of new values (no verification if null).*/
+  Check check_;
+
+  template<typename, bool>
+  friend class SingleSolvingRequirement;
 };
 
 } // namespace abstract
-- 
2.43.0


From 72dfbb525afab3c1e34f1f879333a4288289c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:08 +0000
Subject: [PATCH 48/68] fix: a task cannot be added twice to a problem

---
 src/ControlProblem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ControlProblem.cpp b/src/ControlProblem.cpp
index e263e3f..fa028db 100644
--- a/src/ControlProblem.cpp
+++ b/src/ControlProblem.cpp
@@ -18,6 +18,8 @@ TaskWithRequirementsPtr ControlProblem::add(const Task & task, const requirement
 
 void ControlProblem::add(TaskWithRequirementsPtr tr)
 {
+  if(std::find(tr_.begin(), tr_.end(), tr) != tr_.end())
+    throw std::runtime_error("[ControlProblem::add] This task is already part of the problem.");
   tr_.push_back(tr);
   addCallBackToTask(tr);
   notify(scheme::internal::ProblemDefinitionEvent(scheme::internal::ProblemDefinitionEvent::Type::TaskAddition, *tr));
-- 
2.43.0


From eeb4ee0a8747e7ffb2a3abf483d4565de6ea94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 49/68] fix: a task that cannot be removed because of its
 substitution is kept entirely

---
 include/tvm/LinearizedControlProblem.h |  3 +++
 src/LinearizedControlProblem.cpp       | 29 +++++++++++++++-----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/tvm/LinearizedControlProblem.h b/include/tvm/LinearizedControlProblem.h
index b3decb1..eb74e6a 100644
--- a/include/tvm/LinearizedControlProblem.h
+++ b/include/tvm/LinearizedControlProblem.h
@@ -99,6 +99,9 @@ protected:
   void finalize_() override;
 
 private:
+  /** Throw if \p cstr is part of a substitution that cannot be removed automatically.*/
+  void checkSubstitutionFor(const constraint::abstract::LinearConstraint & cstr);
+
   utils::internal::map<TaskWithRequirements const *, LinearConstraintWithRequirements> constraints_;
   hint::internal::Substitutions substitutions_;
   bool substitutionsChanged_ = false;
diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 6ff6a22..1f22071 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -59,12 +59,14 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 
 void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 {
-  ControlProblem::remove(tr);
   auto it = constraints_.find(&tr);
   if(it == constraints_.end())
   {
     return;
   }
+  // This can throw, and must be done before anything is changed in the problem.
+  checkSubstitutionFor(*it->second.constraint);
+  ControlProblem::remove(tr);
   removeSubstitutionFor(*it->second.constraint);
   updater_.removeInput(it->second.constraint.get());
   constraints_.erase(it);
@@ -88,22 +90,25 @@ void LinearizedControlProblem::remove(const hint::Substitution & s)
 
 const hint::internal::Substitutions & LinearizedControlProblem::substitutions() const { return substitutions_; }
 
+void LinearizedControlProblem::checkSubstitutionFor(const constraint::abstract::LinearConstraint & cstr)
+{
+  auto s = substitutions_.getSubstitutionFor(cstr);
+  if(s && !s->isSimple())
+  {
+    throw std::runtime_error(
+        "[LinearizedControlProblem::removeSubstitutionFor] This constraint is part of a non-simple substitution. "
+        "Please remove the substitution or rearrange the substitution by hand as it is not possible to decide "
+        "which variables should still be substituted after removing the constraint.");
+  }
+}
+
 void LinearizedControlProblem::removeSubstitutionFor(const constraint::abstract::LinearConstraint & cstr)
 {
+  checkSubstitutionFor(cstr);
   auto s = substitutions_.getSubstitutionFor(cstr);
   if(s)
   {
-    if(s->isSimple())
-    {
-      remove(*s);
-    }
-    else
-    {
-      throw std::runtime_error(
-          "[LinearizedControlProblem::removeSubstitutionFor] This constraint is part of a non-simple substitution. "
-          "Please remove the substitution or rearrange the substitution by hand as it is not possible to decide "
-          "which variables should still be substituted after removing the constraint.");
-    }
+    remove(*s);
   }
 }
 
-- 
2.43.0


From 5980a6ddbd56cffa527ade880e5d204448a69599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:22 +0000
Subject: [PATCH 50/68] fix: affine expressions on temporary variables (dot(x),
 subvariables) kept a dangling reference

---
 include/tvm/utils/AffineExpr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/utils/AffineExpr.h b/include/tvm/utils/AffineExpr.h
index b9cced1..c4758c0 100644
--- a/include/tvm/utils/AffineExpr.h
+++ b/include/tvm/utils/AffineExpr.h
@@ -51,8 +51,8 @@ public:
 private:
   /** The matrix expression. */
   typename internal::RefSelector_t<Derived> matrix_;
-  /** The variable */
-  const VariablePtr & var_;
+  /** The variable. It is kept by value because it might be a temporary (e.g. dot(x) or a subvariable).*/
+  VariablePtr var_;
 };
 
 /** A class representing an affine expression \f$ A_1 x_1 + A_2 x_2 + \ldots + A_k x_k + b \f$
-- 
2.43.0


From ff2d595c983beae6c862a48aae7feeeab5a33345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 51/68] fix: the jacobian built from a rectangular identity
 matrix was declared to be the identity

---
 include/tvm/function/BasicLinearFunction.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tvm/function/BasicLinearFunction.h b/include/tvm/function/BasicLinearFunction.h
index 9cca4a6..5fee973 100644
--- a/include/tvm/function/BasicLinearFunction.h
+++ b/include/tvm/function/BasicLinearFunction.h
@@ -171,6 +171,9 @@ inline void BasicLinearFunction::add(const Eigen::MatrixBase<Derived> & A, Varia
     {
       shape = Shape::DIAGONAL;
     }
+    // The types above do not ensure that the matrix is square
+    if(A.rows() != A.cols())
+      shape = Shape::GENERAL;
     jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true), shape});
   }
 }
-- 
2.43.0


From 4e0bbcb141c523d32eacd9d8245bd5653d7922ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:41 +0000
Subject: [PATCH 52/68] fix: a scheme with no priority level accepted any level

---
 include/tvm/scheme/internal/SchemeAbilities.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/internal/SchemeAbilities.h b/include/tvm/scheme/internal/SchemeAbilities.h
index bd9628c..6c0eb5c 100644
--- a/include/tvm/scheme/internal/SchemeAbilities.h
+++ b/include/tvm/scheme/internal/SchemeAbilities.h
@@ -105,9 +105,9 @@ inline void SchemeAbilities::check(const ConstraintPtr & c, const RequirementsPt
 {
   // check priority level value
   int p = req->priorityLevel().value();
-  if(numberOfLevels_ > 0 && p >= numberOfLevels_)
+  if(numberOfLevels_ != NoLimit && p >= numberOfLevels_)
   {
-    if(scalarization_)
+    if(scalarization_ && numberOfLevels_ > 0)
     {
       if(emitWarnings)
       {
-- 
2.43.0


From 9f9c3c64dd37e5f0dfb0854cb6a619fca7c4f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 53/68] fix: after refusing a requirement, the schemes solved a
 stale or unbuilt problem at the next resolution

---
 include/tvm/scheme/HierarchicalLeastSquares.h |  3 +++
 include/tvm/scheme/WeightedLeastSquares.h     |  2 ++
 src/scheme/HierarchicalLeastSquares.cpp       | 15 +++++++++++++--
 src/scheme/WeightedLeastSquares.cpp           | 15 +++++++++++++--
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/tvm/scheme/HierarchicalLeastSquares.h b/include/tvm/scheme/HierarchicalLeastSquares.h
index dace5ea..870b803 100644
--- a/include/tvm/scheme/HierarchicalLeastSquares.h
+++ b/include/tvm/scheme/HierarchicalLeastSquares.h
@@ -33,6 +33,9 @@ private:
 
     std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> solver;
 
+    // True when processing the changes of the problem was interrupted by an exception.
+    bool incomplete = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index bcd0808..6113097 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -41,6 +41,8 @@ private:
 
     int maxp = 0;
     bool autoMinNorm = false;
+    // True when processing the changes of the problem was interrupted by an exception.
+    bool incomplete = false;
 
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 1370629..07ec5f3 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -45,12 +45,19 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
-  if(!data->hasEvents())
+  Memory * memory = static_cast<Memory *>(data);
+
+  // If an exception interrupted the last update, what was done then cannot be relied upon.
+  if(memory->incomplete)
   {
+    resetComputationData(problem, memory);
     return;
   }
 
-  Memory * memory = static_cast<Memory *>(data);
+  if(!data->hasEvents())
+  {
+    return;
+  }
 
   // If some events require to rebuild the data, we skip all other events. As long as the solvers do not handle changes
   // incrementally, this is the case for all the changes of the problem.
@@ -64,6 +71,7 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
       return;
     }
   }
+  memory->incomplete = true;
   while(memory->hasEvents())
   {
     auto e = memory->popEvent();
@@ -92,6 +100,7 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
 
   memory->variables(); // update variable vector if needed
   memory->solver->process(se);
+  memory->incomplete = false;
 }
 
 std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::createComputationData_(
@@ -105,8 +114,10 @@ std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::crea
 
 void HierarchicalLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->incomplete = true;
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->incomplete = false;
 }
 
 void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 2066fb3..61fca3e 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -46,10 +46,17 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
-  if(data->hasEvents())
+  Memory * memory = static_cast<Memory *>(data);
+
+  // If an exception interrupted the last update, what was done then cannot be relied upon.
+  if(memory->incomplete)
   {
-    Memory * memory = static_cast<Memory *>(data);
+    resetComputationData(problem, memory);
+    return;
+  }
 
+  if(data->hasEvents())
+  {
     // If some events require to rebuild the data, we skip all other events.
     for(const auto & e : memory->events())
     {
@@ -65,6 +72,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
       resetComputationData(problem, memory);
       return;
     }
+    memory->incomplete = true;
     while(memory->hasEvents())
     {
       auto e = memory->popEvent();
@@ -101,6 +109,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
 
     memory->variables(); // update variable vector if needed
     memory->solver->process(se);
+    memory->incomplete = false;
   }
 }
 
@@ -115,8 +124,10 @@ std::unique_ptr<WeightedLeastSquares::Memory> WeightedLeastSquares::createComput
 
 void WeightedLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->incomplete = true;
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->incomplete = false;
 }
 
 bool WeightedLeastSquares::needMinimumNorm(const LinearizedControlProblem & problem) const
-- 
2.43.0


From fd4f439cf31e7418d355e2bb243953765d4ae7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:19 +0000
Subject: [PATCH 54/68] fix: changes of priority level or violation evaluation
 of a task were ignored by the schemes, which then failed to remove the task

---
 include/tvm/scheme/internal/ProblemDefinitionEvent.h | 6 ++++--
 src/ControlProblem.cpp                               | 6 ++++++
 src/scheme/HierarchicalLeastSquares.cpp              | 1 +
 src/scheme/WeightedLeastSquares.cpp                  | 3 ++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/tvm/scheme/internal/ProblemDefinitionEvent.h b/include/tvm/scheme/internal/ProblemDefinitionEvent.h
index 3ec725a..87d9121 100644
--- a/include/tvm/scheme/internal/ProblemDefinitionEvent.h
+++ b/include/tvm/scheme/internal/ProblemDefinitionEvent.h
@@ -24,16 +24,18 @@ public:
     AnisotropicWeightChange,
     TaskAddition,
     TaskRemoval,
+    PriorityLevelChange,       // The events on priority and violation need to be processed even if their
+    ViolationEvaluationChange, // task is removed afterwards: they change how the task is to be removed.
     SubstitutionAddition,
     SubstitutionRemoval
   };
 
   template<Type t>
-  using EmitterType = std::conditional_t<t <= Type::TaskRemoval, TaskWithRequirements, hint::Substitution>;
+  using EmitterType = std::conditional_t<t <= Type::ViolationEvaluationChange, TaskWithRequirements, hint::Substitution>;
 
   ProblemDefinitionEvent(Type type, const TaskWithRequirements & emitter)
   : type_(type), emitter_(static_cast<void const *>(&emitter))
-  { assert(type <= Type::TaskRemoval); }
+  { assert(type <= Type::ViolationEvaluationChange); }
 
   ProblemDefinitionEvent(Type type, hint::Substitution const * emitter)
   : type_(type), emitter_(static_cast<void const *>(emitter))
diff --git a/src/ControlProblem.cpp b/src/ControlProblem.cpp
index fa028db..1e4091b 100644
--- a/src/ControlProblem.cpp
+++ b/src/ControlProblem.cpp
@@ -84,6 +84,12 @@ void ControlProblem::addCallBackToTask(TaskWithRequirementsPtr tr)
   auto l2 = [this, t]() { this->notify({EventType::AnisotropicWeightChange, *t}); };
   tokens.emplace_back(tr->requirements.anisotropicWeight().registerCallback(l2));
 
+  auto l3 = [this, t]() { this->notify({EventType::PriorityLevelChange, *t}); };
+  tokens.emplace_back(tr->requirements.priorityLevel().registerCallback(l3));
+
+  auto l4 = [this, t]() { this->notify({EventType::ViolationEvaluationChange, *t}); };
+  tokens.emplace_back(tr->requirements.violationEvaluation().registerCallback(l4));
+
   callbackTokens_[t] = std::move(tokens);
 }
 
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 07ec5f3..b4b0f0d 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -64,6 +64,7 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
   for(const auto & e : memory->events())
   {
     if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
+       || e.type() == EventType::PriorityLevelChange || e.type() == EventType::ViolationEvaluationChange
        || e.type() == EventType::TaskAddition || e.type() == EventType::TaskRemoval
        || e.type() == EventType::WeightChange || e.type() == EventType::AnisotropicWeightChange)
     {
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 61fca3e..a2c88f1 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -60,7 +60,8 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     // If some events require to rebuild the data, we skip all other events.
     for(const auto & e : memory->events())
     {
-      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
+      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
+         || e.type() == EventType::PriorityLevelChange || e.type() == EventType::ViolationEvaluationChange)
       {
         resetComputationData(problem, memory);
         return;
-- 
2.43.0


From 36b26c4d1e961514dc708f820fff6cd7dfda29c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:57 +0000
Subject: [PATCH 55/68] fix: removing a task whose priority was changed
 afterwards removed the wrong kind of item from the solver

---
 include/tvm/scheme/WeightedLeastSquares.h | 12 ++++++++++
 src/scheme/WeightedLeastSquares.cpp       | 28 +++++++++++++----------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index 6113097..07c16bc 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -8,6 +8,8 @@
 #include <tvm/scheme/internal/LinearizedProblemComputationData.h>
 #include <tvm/solver/abstract/LeastSquareSolver.h>
 
+#include <map>
+
 namespace tvm
 {
 
@@ -39,6 +41,16 @@ private:
 
     std::unique_ptr<solver::abstract::LeastSquareSolver> solver;
 
+    // How the constraints were passed to the solver. This might not correspond anymore to the properties and
+    // requirements of a constraint when it is removed.
+    enum class Usage
+    {
+      Bound,
+      Constraint,
+      Objective
+    };
+    std::map<constraint::abstract::LinearConstraint const *, Usage> usage;
+
     int maxp = 0;
     bool autoMinNorm = false;
     // True when processing the changes of the problem was interrupted by an exception.
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index a2c88f1..66683a5 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -222,9 +222,11 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
     {
       // TODO check requirements
       solver.addConstraint(c.constraint);
+      memory->usage[c.constraint.get()] = Memory::Usage::Constraint;
     }
     else
     {
+      memory->usage[c.constraint.get()] = Memory::Usage::Objective;
       solver.addObjective(c.constraint, c.requirements, std::pow(*options_.scalarizationWeight(), maxp - p));
     }
   }
@@ -240,6 +242,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
     {
       // TODO check requirements
       solver.addBound(b.constraint);
+      memory->usage[b.constraint.get()] = Memory::Usage::Bound;
     }
     else
     {
@@ -282,15 +285,18 @@ void WeightedLeastSquares::addTask(const LinearizedControlProblem & problem,
   if((p == 0) && canBeUsedAsBound(c.constraint, subs, constraint::Type::DOUBLE_SIDED))
   {
     se.addBound(c.constraint);
+    memory->usage[c.constraint.get()] = Memory::Usage::Bound;
   }
   else
   {
     if(p == 0)
     {
       se.addConstraint(c.constraint);
+      memory->usage[c.constraint.get()] = Memory::Usage::Constraint;
     }
     else
     {
+      memory->usage[c.constraint.get()] = Memory::Usage::Objective;
       // We don't adapt maxp, meaning that a constraint with priority level p>max_p will get a weight<1
       se.addObjective({c.constraint, c.requirements, std::pow(*options_.scalarizationWeight(), memory->maxp - p)});
     }
@@ -326,22 +332,19 @@ void WeightedLeastSquares::removeTask(const LinearizedControlProblem & problem,
     }
   }
 
-  int p = task.requirements.priorityLevel().value();
-  if((p == 0) && canBeUsedAsBound(c.constraint, subs, constraint::Type::DOUBLE_SIDED))
-  {
-    se.removeBound(c.constraint);
-  }
-  else
+  switch(memory->usage.at(c.constraint.get()))
   {
-    if(p == 0)
-    {
+    case Memory::Usage::Bound:
+      se.removeBound(c.constraint);
+      break;
+    case Memory::Usage::Constraint:
       se.removeConstraint(c.constraint);
-    }
-    else
-    {
+      break;
+    case Memory::Usage::Objective:
       se.removeObjective(c.constraint);
-    }
+      break;
   }
+  memory->usage.erase(c.constraint.get());
   memory->removeConstraint(task);
 }
 
@@ -353,6 +356,7 @@ void WeightedLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::Least
 {
   LinearizedProblemComputationData::reset();
   this->solver = std::move(solver);
+  usage.clear();
   maxp = 0;
 }
 
-- 
2.43.0


From 61a262629fc969c1c4ef8e11bbb0d47e4162d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:39 +0000
Subject: [PATCH 56/68] fix: an event source dereferenced its destroyed
 listeners, and invalidated its iteration when one was registered during a
 notification

---
 src/event/Source.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/event/Source.cpp b/src/event/Source.cpp
index d4a8734..ef54de1 100644
--- a/src/event/Source.cpp
+++ b/src/event/Source.cpp
@@ -14,9 +14,14 @@ void Source::regist(std::shared_ptr<Listener> user, Type evt) { registrations_[e
 
 void Source::notify(Type evt)
 {
-  const auto & list = registrations_[evt];
+  // We iterate over a copy because a listener can register (itself or another one) upon receiving the event.
+  const auto list = registrations_[evt];
   for(const auto & u : list)
-    u.lock()->receive(evt, *this);
+  {
+    // The source does not keep its listeners alive: some may have been destroyed.
+    if(auto l = u.lock())
+      l->receive(evt, *this);
+  }
 }
 
 } // namespace event
-- 
2.43.0


From b2ccef1800a50975220b5797199a280dd4027af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 57/68] fix: the order of contact identifiers ignored the
 ambiguity id, comparing a robot with a frame

---
 include/tvm/robot/Contact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/robot/Contact.h b/include/tvm/robot/Contact.h
index b87df98..a0ba6aa 100644
--- a/include/tvm/robot/Contact.h
+++ b/include/tvm/robot/Contact.h
@@ -48,7 +48,7 @@ public:
           ( r1 == rhs.r1 && f1 < rhs.f1 ) ||
           ( r1 == rhs.r1 && f1 == rhs.f1 && r2 < rhs.r2 ) ||
           ( r1 == rhs.r1 && f1 == rhs.f1 && r2 == rhs.r2 && f2 < rhs.f2 ) ||
-          ( r1 == rhs.r1 && f1 == rhs.f1 && r2 == rhs.f2 && f2 == rhs.f2 && ambiguityId < rhs.ambiguityId );
+          ( r1 == rhs.r1 && f1 == rhs.f1 && r2 == rhs.r2 && f2 == rhs.f2 && ambiguityId < rhs.ambiguityId );
       // clang-format on
     }
     inline bool operator==(const Id & rhs) const
-- 
2.43.0


From 6f86e8e36f08fc4e47e3a2c83f551ef95c4faef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 58/68] fix: the points of a contact in its second frame were
 computed with the transforms in the wrong order

---
 src/robot/Contact.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/robot/Contact.cpp b/src/robot/Contact.cpp
index 16dd35b..fc8cd17 100644
--- a/src/robot/Contact.cpp
+++ b/src/robot/Contact.cpp
@@ -19,7 +19,8 @@ Contact::Contact(FramePtr f1, FramePtr f2, std::vector<sva::PTransformd> points,
   X_f2_f1_ = X_f1_f2_.inv();
   for(const auto & X_f1_p : f1Points_)
   {
-    f2Points_.emplace_back(X_f2_f1_ * X_f1_p);
+    // X_f2_p = X_f1_p * X_f2_f1
+    f2Points_.emplace_back(X_f1_p * X_f2_f1_);
   }
   addDirectDependency(Output::F1Position, f1, Frame::Output::Position);
   addDirectDependency(Output::F1Jacobian, f1, Frame::Output::Jacobian);
-- 
2.43.0


From f7c6c338be2ef003664caefea742f91c87d1c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 59/68] fix: the Jacobian, velocity and normal acceleration of
 a frame away from the origin of its body were wrong

---
 src/robot/Frame.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/robot/Frame.cpp b/src/robot/Frame.cpp
index 81cf7db..76789f7 100644
--- a/src/robot/Frame.cpp
+++ b/src/robot/Frame.cpp
@@ -61,14 +61,26 @@ void Frame::updateJacobian()
   auto partialJac = jac_.jacobian(robot_->mb(), robot_->mbc());
   jacTmp_ = partialJac;
   Eigen::Matrix3d h = -hat(robot_->mbc().bodyPosW[bodyId_].rotation().transpose() * X_b_f_.translation());
-  jacTmp_.block(3, 0, 3, jac_.dof()).noalias() += h * partialJac.block(3, 0, 3, jac_.dof());
+  jacTmp_.block(3, 0, 3, jac_.dof()).noalias() += h * partialJac.block(0, 0, 3, jac_.dof());
   jac_.fullJacobian(robot_->mb(), jacTmp_, jacobian_);
 }
 
-void Frame::updateVelocity() { velocity_ = X_b_f_ * robot_->mbc().bodyVelW[bodyId_]; }
+void Frame::updateVelocity()
+{
+  // Translation from the body to the frame, in world coordinates
+  sva::PTransformd X(Eigen::Vector3d(robot_->mbc().bodyPosW[bodyId_].rotation().transpose() * X_b_f_.translation()));
+  velocity_ = X * robot_->mbc().bodyVelW[bodyId_];
+}
 
 void Frame::updateNormalAcceleration()
-{ normalAcceleration_ = X_b_f_ * jac_.normalAcceleration(robot_->mb(), robot_->mbc(), robot_->normalAccB()); }
+{
+  // Translation from the body to the frame, in world coordinates
+  Eigen::Vector3d r = robot_->mbc().bodyPosW[bodyId_].rotation().transpose() * X_b_f_.translation();
+  const Eigen::Vector3d & w = robot_->mbc().bodyVelW[bodyId_].angular();
+  normalAcceleration_ =
+      sva::PTransformd(r) * jac_.normalAcceleration(robot_->mb(), robot_->mbc(), robot_->normalAccB());
+  normalAcceleration_.linear() += w.cross(w.cross(r));
+}
 
 const std::string & Frame::body() const { return robot_->mb().body(bodyId_).name(); }
 
-- 
2.43.0


From f80d10ceaebeaf3d4b4e05afbf1c4aea9bc05d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 60/68] fix: the columns of JDot for the joints that are not
 selected were not initialized

---
 src/robot/JointsSelector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/robot/JointsSelector.cpp b/src/robot/JointsSelector.cpp
index e8fc273..e42560f 100644
--- a/src/robot/JointsSelector.cpp
+++ b/src/robot/JointsSelector.cpp
@@ -112,11 +112,13 @@ JointsSelector::JointsSelector(FunctionPtr f,
   {
     addVariable(robot_->qFreeFlyer(), f_->linearIn(*robot_->qFreeFlyer()));
     jacobian_.at(robot_->qFreeFlyer().get()).setZero();
+    JDot_.at(robot_->qFreeFlyer().get()).setZero();
   }
   if(activeIndex.size())
   {
     addVariable(robot_->qJoints(), f_->linearIn(*robot_->qJoints()));
     jacobian_.at(robot_->qJoints().get()).setZero();
+    JDot_.at(robot_->qJoints().get()).setZero();
   }
 }
 
-- 
2.43.0


From 4eac040cdfa7fa06dc4568a1992f76c77a096e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 61/68] fix: the posture function skipped spherical joints and
 shifted the joints after them

---
 src/robot/PostureFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/PostureFunction.cpp b/src/robot/PostureFunction.cpp
index 5a3d006..750a008 100644
--- a/src/robot/PostureFunction.cpp
+++ b/src/robot/PostureFunction.cpp
@@ -77,7 +77,7 @@ void PostureFunction::updateValue()
       value_(pos) = robot_->mbc().q[jI][0] - posture_[jI][0];
       pos++;
     }
-    else if(j.dof() == 4) // spherical
+    else if(j.params() == 4) // spherical
     {
       Eigen::Matrix3d ori(
           Eigen::Quaterniond(posture_[jI][0], posture_[jI][1], posture_[jI][2], posture_[jI][3]).matrix());
-- 
2.43.0


From e3eddecc17274c9c488f29d5f7974dad8e596c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 62/68] fix: the Jacobian of a contact within a robot kept the
 part of its second frame only

---
 src/robot/GeometricContactFunction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/robot/GeometricContactFunction.cpp b/src/robot/GeometricContactFunction.cpp
index a3c1b0c..9fcf2cc 100644
--- a/src/robot/GeometricContactFunction.cpp
+++ b/src/robot/GeometricContactFunction.cpp
@@ -102,6 +102,14 @@ void GeometricContactFunction::updateNormalAcceleration()
 
 void GeometricContactFunction::updateJacobian()
 {
+  if(has_f1_ && &contact_->f1().robot() == &contact_->f2().robot())
+  {
+    // Both frames move with the same variables
+    const auto & f1 = contact_->f1();
+    const auto & f2 = contact_->f2();
+    splitJacobian(dof_ * (f1.jacobian() - f2.jacobian()), f1.robot().q());
+    return;
+  }
   if(has_f1_)
   {
     const auto & f1 = contact_->f1();
-- 
2.43.0


From 024237c73b5d88fb99537142c579ca4c213310c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 63/68] fix: the update of JDot of the CoM function overwrote
 its Jacobian

---
 src/robot/CoMFunction.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/robot/CoMFunction.cpp b/src/robot/CoMFunction.cpp
index 2a3be78..c7ba644 100644
--- a/src/robot/CoMFunction.cpp
+++ b/src/robot/CoMFunction.cpp
@@ -42,7 +42,17 @@ void CoMFunction::updateJacobian() { splitJacobian(jac_.jacobian(robot_->mb(), r
 void CoMFunction::updateNormalAcceleration()
 { normalAcceleration_ = jac_.normalAcceleration(robot_->mb(), robot_->mbc(), robot_->normalAccB()); }
 
-void CoMFunction::updateJDot() { splitJacobian(jac_.jacobianDot(robot_->mb(), robot_->mbc()), robot_->q()); }
+void CoMFunction::updateJDot()
+{
+  const auto & JDot = jac_.jacobianDot(robot_->mb(), robot_->mbc());
+  Eigen::DenseIndex s = 0;
+  for(const auto & v : robot_->q())
+  {
+    auto n = static_cast<Eigen::DenseIndex>(v->space().tSize());
+    JDot_[v.get()] = JDot.middleCols(s, n);
+    s += n;
+  }
+}
 
 } // namespace robot
 
-- 
2.43.0


From e541439229124560818c54ca75ed713ef5ed3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 64/68] fix: the limits of velocities and torques had the size
 of the configuration

---
 src/Robot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Robot.cpp b/src/Robot.cpp
index 38a24b8..953cf97 100644
--- a/src/Robot.cpp
+++ b/src/Robot.cpp
@@ -37,12 +37,12 @@ Robot::Robot(Clock & clock,
   lQBound_.resize(q_joints_->size());
   lQBound_.setConstant(-tvm::constant::big_number);
   uQBound_ = -lQBound_;
-  lVelBound_.resize(q_joints_->size());
+  lVelBound_.resize(q_joints_->space().tSize());
   lVelBound_.setConstant(-tvm::constant::big_number);
   uVelBound_ = -lVelBound_;
-  lTauBound_.resize(q_joints_->size() + q_ff_->space().tSize());
+  lTauBound_.resize(q_joints_->space().tSize() + q_ff_->space().tSize());
   lTauBound_.head(q_ff_->space().tSize()).setZero();
-  lTauBound_.tail(q_joints_->size()).setConstant(-tvm::constant::big_number);
+  lTauBound_.tail(q_joints_->space().tSize()).setConstant(-tvm::constant::big_number);
   uTauBound_ = -lTauBound_;
   /** Bounds initialization based on provided limits */
   {
-- 
2.43.0


From 26db7d938f398b4db81e49d39002c68129d4abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 65/68] fix: CoMInConvexFunction and CollisionFunction depended
 on planes and hulls that reset() lets be destroyed

---
 src/robot/CoMInConvexFunction.cpp | 6 +++---
 src/robot/CollisionFunction.cpp   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/robot/CoMInConvexFunction.cpp b/src/robot/CoMInConvexFunction.cpp
index 4141d72..376b818 100644
--- a/src/robot/CoMInConvexFunction.cpp
+++ b/src/robot/CoMInConvexFunction.cpp
@@ -30,9 +30,9 @@ CoMInConvexFunction::CoMInConvexFunction(RobotPtr robot) : robot_(robot), jac_(r
 void CoMInConvexFunction::addPlane(geometry::PlanePtr plane)
 {
   planes_.push_back(plane);
-  addInputDependency<CoMInConvexFunction>(Update::Value, *plane, geometry::Plane::Output::Position);
-  addInputDependency<CoMInConvexFunction>(Update::Velocity, *plane, geometry::Plane::Output::Velocity);
-  addInputDependency<CoMInConvexFunction>(Update::NormalAcceleration, *plane, geometry::Plane::Output::Acceleration);
+  addInputDependency<CoMInConvexFunction>(Update::Value, plane, geometry::Plane::Output::Position);
+  addInputDependency<CoMInConvexFunction>(Update::Velocity, plane, geometry::Plane::Output::Velocity);
+  addInputDependency<CoMInConvexFunction>(Update::NormalAcceleration, plane, geometry::Plane::Output::Acceleration);
   resize(static_cast<int>(planes_.size()));
 }
 
diff --git a/src/robot/CollisionFunction.cpp b/src/robot/CollisionFunction.cpp
index 4c9968f..fc5ff9c 100644
--- a/src/robot/CollisionFunction.cpp
+++ b/src/robot/CollisionFunction.cpp
@@ -60,7 +60,7 @@ CollisionFunction::CollisionData::CollisionData(CollisionFunction & fn, ConvexHu
     int rDof = r.mb().nrDof();
     if(rDof > 0)
     {
-      fn.addInputDependency<CollisionFunction>(Update::Value, *ch_[i], ConvexHull::Output::Position);
+      fn.addInputDependency<CollisionFunction>(Update::Value, ch_[i], ConvexHull::Output::Position);
       fn.addInputDependency<CollisionFunction>(Update::Jacobian, r, Robot::Output::FV);
       fn.addInputDependency<CollisionFunction>(Update::NormalAcceleration, r, Robot::Output::NormalAcceleration);
       objects_.push_back({Eigen::Vector3d::Zero(), ch_[i]->frame().rbdJacobian()});
-- 
2.43.0


From f4ed57d205c3ad9dd864a3bfc1028a596e54ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 66/68] fix: the nearest points of a collision were taken by
 number of pair, in the frames instead of the bodies

---
 src/robot/CollisionFunction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/robot/CollisionFunction.cpp b/src/robot/CollisionFunction.cpp
index fc5ff9c..bdf2d7a 100644
--- a/src/robot/CollisionFunction.cpp
+++ b/src/robot/CollisionFunction.cpp
@@ -85,7 +85,9 @@ void CollisionFunction::updateValue()
     for(size_t j = 0; j < col.objects_.size(); ++j)
     {
       auto & o = col.objects_[j];
-      o.nearestPoint_ = (sva::PTransformd(closestPoints_[i]) * col.ch_[j]->frame().position().inv()).translation();
+      const auto & r = col.ch_[j]->frame().robot();
+      const auto & X_0_b = r.mbc().bodyPosW[r.mb().bodyIndexByName(col.ch_[j]->frame().body())];
+      o.nearestPoint_ = (sva::PTransformd(closestPoints_[j]) * X_0_b.inv()).translation();
       o.jac_.point(o.nearestPoint_);
     }
 
-- 
2.43.0


From 067a4b912813599d9cee925664992ecb2bd2fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 67/68] fix: contactForce read past the forces of a linearized
 contact with several points

---
 src/robot/DynamicFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/DynamicFunction.cpp b/src/robot/DynamicFunction.cpp
index 5462afe..d46cb67 100644
--- a/src/robot/DynamicFunction.cpp
+++ b/src/robot/DynamicFunction.cpp
@@ -144,7 +144,7 @@ void DynamicFunction::addContact_(const Contact::View & contact,
       for(size_t i = 0; i < cPoints.size(); ++i)
       {
         const auto & p = cPoints[i];
-        const auto & lambda = self.forces_[nrGen * i];
+        const auto & lambda = self.forces_[i];
         const auto & generator = -generators.middleCols(nrGen * i, nrGen);
         sva::ForceVecd f_p{Eigen::Vector3d::Zero(), generator * lambda->value()};
         ret += p.transMul(f_p);
-- 
2.43.0


From 47d5e7dc772f8d405084353dbe26ad3b76d0c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:14 +0000
Subject: [PATCH 68/68] fix: removeContact left the forces of the contact in
 the equation of motion

---
 src/robot/DynamicFunction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/robot/DynamicFunction.cpp b/src/robot/DynamicFunction.cpp
index d46cb67..4450966 100644
--- a/src/robot/DynamicFunction.cpp
+++ b/src/robot/DynamicFunction.cpp
@@ -165,6 +165,10 @@ void DynamicFunction::removeContact(const Contact::Id & id)
   auto it = getContact(id);
   if(it != contacts_.end())
   {
+    for(const auto & f : it->forces_)
+    {
+      removeVariable(f);
+    }
     contacts_.erase(it);
   }
 }
-- 
2.43.0

