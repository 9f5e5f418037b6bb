From 6ee39454ba12c179bdb0ad0c219d9c9fa064d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 01/73] fix: VectorXd - Expression returned the opposite

---
 src/placo/problem/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index ad96bb3..38f134b 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -190,7 +190,7 @@ Expression Expression::operator-(const Eigen::VectorXd v) const
 
 Expression operator-(const Eigen::VectorXd v, const Expression& e)
 {
-  return e - v;
+  return (-e) + v;
 }
 
 Expression Expression::operator+(const double f) const
-- 
2.43.0


From 6da2430c5c6b63acc5fa98e7b891425cd0a2df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 02/73] fix: Expression - double read past a size 1 vector for
 multi-row expressions

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 38f134b..7ca0c3a 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -208,8 +208,8 @@ Expression operator+(double f, const Expression& e)
 
 Expression Expression::operator-(const double f) const
 {
-  Eigen::VectorXd fv(1);
-  fv(0, 0) = f;
+  Eigen::VectorXd fv(rows());
+  fv.setConstant(f);
 
   return (*this) - fv;
 }
-- 
2.43.0


From 1b1e067163e3b519fb9654597bdb9f6fcbc16005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 03/73] fix: Expression::mean() divided by the number of
 columns instead of rows

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 7ca0c3a..2fbee34 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -253,8 +253,8 @@ Expression Expression::sum()
 Expression Expression::mean()
 {
   Expression e = sum();
-  e.A /= (double)cols();
-  e.b /= (double)cols();
+  e.A /= (double)rows();
+  e.b /= (double)rows();
 
   return e;
 }
-- 
2.43.0


From e39191a1ce81326b1ca0c5e0c73a1657ab84d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 04/73] fix: use_sparsity dropped the Hessian terms coupling
 separate column intervals

---
 src/placo/problem/problem.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index ff53c15..8aace6d 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -235,8 +235,15 @@ void Problem::solve()
 
           Eigen::MatrixXd block = expression_A.block(0, interval.start, constraints, size);
 
-          P.block(interval.start, interval.start, size, size).noalias() +=
-              constraint->weight * block.transpose() * block;
+          // Off-diagonal blocks: rows can mix columns from different intervals
+          for (auto other : sparsity.intervals)
+          {
+            int other_size = 1 + other.end - other.start;
+
+            P.block(interval.start, other.start, size, other_size).noalias() +=
+                constraint->weight * block.transpose() *
+                expression_A.block(0, other.start, constraints, other_size);
+          }
         }
 
         q.block(0, 0, expression_A.cols(), 1).noalias() +=
-- 
2.43.0


From 040e780ea971f4651ed3d32c46f91c275192b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 05/73] fix: check constraint sizes before they are written in
 the equality matrix

---
 src/placo/problem/problem.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 8aace6d..df207b0 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -118,6 +118,19 @@ void Problem::solve()
 
   for (auto constraint : constraints)
   {
+    if (constraint->expression.cols() > n_variables)
+    {
+      throw QPError("Problem: Inconsistent problem size");
+    }
+    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
+    {
+      throw QPError("Problem: A or b is empty");
+    }
+    if (constraint->expression.A.rows() != constraint->expression.b.rows())
+    {
+      throw QPError("Problem: A.rows() != b.rows()");
+    }
+
     if (constraint->type == ProblemConstraint::Inequality)
     {
       constraint->is_active = false;
@@ -197,19 +210,6 @@ void Problem::solve()
   // Scanning the constraints (counting inequalities and equalities, building objectif function)
   for (auto constraint : constraints)
   {
-    if (constraint->expression.cols() > n_variables)
-    {
-      throw QPError("Problem: Inconsistent problem size");
-    }
-    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
-    {
-      throw QPError("Problem: A or b is empty");
-    }
-    if (constraint->expression.A.rows() != constraint->expression.b.rows())
-    {
-      throw QPError("Problem: A.rows() != b.rows()");
-    }
-
     if (constraint->type == ProblemConstraint::Inequality)
     {
       // If the constraint is hard, this will be the true inequality, else, this will be the inequality
-- 
2.43.0


From 6069698264d40a34faa5a6cca6b9e2cb8b50eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:03 +0000
Subject: [PATCH 06/73] fix: a failed solve overwrote the last valid solution

---
 src/placo/problem/problem.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index df207b0..472f5bd 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -330,6 +330,9 @@ void Problem::solve()
   double result =
       eiquadprog::solvers::solve_quadprog(P, q, A.transpose(), b, G.transpose(), h, qp_x, active_set, active_set_size);
 
+  // The solution is only stored in x once it is known to be valid
+  Eigen::VectorXd solution;
+
   if (determined_variables)
   {
     Eigen::VectorXd u(n_variables, 1);
@@ -337,11 +340,11 @@ void Problem::solve()
     u.topRows(determined_variables) = y;
     u.bottomRows(free_variables) = qp_x.topRows(free_variables);
     QR.matrixQ().applyThisOnTheLeft(u);
-    x = u;
+    solution = u;
   }
   else
   {
-    x = qp_x;
+    solution = qp_x;
   }
 
   // Checking that the problem is indeed feasible
@@ -353,7 +356,7 @@ void Problem::solve()
   // Checking that equality constraints were enforced, since this is not covered by above result
   if (A.rows() > 0)
   {
-    Eigen::VectorXd equality_constraints = A * x.topRows(A.cols()) + b;
+    Eigen::VectorXd equality_constraints = A * solution.topRows(A.cols()) + b;
     for (int k = 0; k < A.rows(); k++)
     {
       if (fabs(equality_constraints[k]) > 1e-6)
@@ -364,11 +367,13 @@ void Problem::solve()
   }
 
   // Checking for NaNs in solution
-  if (x.hasNaN())
+  if (solution.hasNaN())
   {
     throw QPError("Problem: NaN in the QP solution");
   }
 
+  x = solution;
+
   // Reporting on the active constraints
   for (int k = 0; k < active_set_size; k++)
   {
-- 
2.43.0


From 54a40fc4620bfb520c4399aff5f2a32d60012c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 07/73] fix: expression and variable operations with mismatched
 sizes read out of bounds instead of raising

---
 src/placo/problem/expression.cpp | 26 ++++++++++++++++++++++++++
 src/placo/problem/variable.cpp   |  5 +++++
 2 files changed, 31 insertions(+)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 2fbee34..b42ab66 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -56,6 +56,14 @@ Expression Expression::slice(int start, int rows) const
     rows = this->rows() - start;
   }
 
+  if (start < 0 || rows < 0 || start + rows > this->rows())
+  {
+    std::ostringstream oss;
+    oss << "Trying to slice " << rows << " rows from row " << start << " in an expression with " << this->rows()
+        << " rows";
+    throw std::runtime_error(oss.str());
+  }
+
   e.A = A.block(start, 0, rows, cols());
   e.b = b.block(start, 0, rows, 1);
 
@@ -167,8 +175,19 @@ Expression Expression::operator*(const Expression& other) const
   }
 }
 
+static void check_rows(int rows, int other_rows)
+{
+  if (rows != other_rows)
+  {
+    std::ostringstream oss;
+    oss << "Size mismatch between an expression with " << rows << " rows and a vector or matrix of size " << other_rows;
+    throw std::runtime_error(oss.str());
+  }
+}
+
 Expression Expression::operator+(const Eigen::VectorXd v) const
 {
+  check_rows(rows(), v.rows());
   Expression e(*this);
   e.b += v;
 
@@ -182,6 +201,7 @@ Expression operator+(const Eigen::VectorXd v, const Expression& e)
 
 Expression Expression::operator-(const Eigen::VectorXd v) const
 {
+  check_rows(rows(), v.rows());
   Expression e(*this);
   e.b -= v;
 
@@ -221,6 +241,7 @@ Expression operator-(double f, const Expression& e)
 
 Expression operator*(const Eigen::MatrixXd M, const Expression& e_)
 {
+  check_rows(e_.rows(), M.cols());
   Expression e(e_);
   e.A = M.operator*(e.A);
   e.b = M.operator*(e.b);
@@ -299,6 +320,11 @@ ProblemConstraint Expression::operator<=(const Expression& other) const
 
 Eigen::VectorXd Expression::value(Eigen::VectorXd x) const
 {
+  if (x.rows() < A.cols())
+  {
+    throw std::runtime_error("Trying to evaluate an expression with too few variable values");
+  }
+
   return A * x.block(0, 0, A.cols(), 1) + b;
 }
 
diff --git a/src/placo/problem/variable.cpp b/src/placo/problem/variable.cpp
index 7f86dfe..635bdc7 100644
--- a/src/placo/problem/variable.cpp
+++ b/src/placo/problem/variable.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include "placo/problem/variable.h"
 
 namespace placo::problem
@@ -12,6 +13,10 @@ Expression Variable::expr(int start, int rows)
   {
     rows = size() - start;
   }
+  if (start < 0 || rows < 0 || start + rows > size())
+  {
+    throw std::runtime_error("Variable: asking an expression for rows outside of the variable");
+  }
 
   Expression e;
   e.A = Eigen::MatrixXd(rows, k_end);
-- 
2.43.0


From 3e49ed87debee15232722dda9a3ce25643627412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 08/73] fix: integrator trajectory duration counted one extra
 step

---
 src/placo/problem/integrator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 809ddf9..e043774 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -40,7 +40,8 @@ double Integrator::Trajectory::value(double t, int diff)
 
 double Integrator::Trajectory::duration()
 {
-  return keyframes.size() * dt;
+  // There is one more keyframe than steps
+  return variable_value.size() * dt;
 }
 
 Integrator::Integrator()
-- 
2.43.0


From f08cbdef52e6c5423e6c96c29e558869c6fb1df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 09/73] fix: integrator did not check the initial state size
 with a custom matrix, nor the order asked to expr_t

---
 src/placo/problem/integrator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index e043774..2591925 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -53,6 +53,11 @@ Integrator::Integrator(Variable& variable_, Expression X0, Eigen::MatrixXd syste
 {
   order = system_matrix.rows() - 1;
 
+  if (X0.rows() != order)
+  {
+    throw std::runtime_error("Integrator: X0 should have " + std::to_string(order) + " rows (same as order)");
+  }
+
   N = variable->size();
 
   auto AB = AB_matrices(M, order, dt);
@@ -78,10 +83,6 @@ Integrator::Integrator(Variable& variable_, Expression X0, Eigen::MatrixXd syste
 Integrator::Integrator(Variable& variable_, Expression X0, int order, double dt)
   : Integrator(variable_, X0, upper_shift_matrix(order), dt)
 {
-  if (X0.rows() != order)
-  {
-    throw std::runtime_error("Integrator: X0 should have " + std::to_string(order) + " rows (same as order)");
-  }
 }
 
 Integrator::~Integrator()
@@ -170,6 +171,8 @@ Expression Integrator::expr(int step, int diff)
 
 Expression Integrator::expr_t(double t, int diff)
 {
+  check_diff(order, diff, true);
+
   t -= t_start;
 
   int step = std::max<int>(std::min<int>(variable->size() - 1, t / dt), 0);
-- 
2.43.0


From f3fc8693d2f9e740726f7028c8da345e47fdf11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 10/73] fix: changing the integrator t_start after a query was
 ignored until the next solve

---
 src/placo/problem/integrator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 2591925..90f844f 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -222,13 +222,15 @@ void Integrator::update_trajectory()
     throw std::runtime_error("Trying to get the trajectory with a variable that was not solved");
   }
 
+  // The time offset can be changed without solving again
+  trajectory.t_start = t_start;
+
   if (version != variable->version)
   {
     // Updating trajectory data
     trajectory.M = M;
     trajectory.dt = dt;
     trajectory.order = order;
-    trajectory.t_start = t_start;
     trajectory.variable_value = variable->value;
 
     // Updating keyframes
-- 
2.43.0


From d3d102c9c5bb0d63be0a2d503fdd46f92818281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 11/73] fix: CubicSpline::duration() read splines that were not
 computed yet

---
 src/placo/tools/cubic_spline.cpp | 376 ++++++++++++++++---------------
 1 file changed, 191 insertions(+), 185 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e7aa5d7..e58f17c 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,185 +1,191 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  return _splines[_splines.size() - 1].t_end - _splines[0].t_start;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  // Not using _splines here, since they are computed lazily
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else
+    {
+      return _points.front().dx;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 8848752bd3ffaf2357653646097e48296fd044e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 12/73] fix: acceleration of a single point CubicSpline was its
 velocity

---
 src/placo/tools/cubic_spline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e58f17c..e4d71ce 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -69,10 +69,14 @@ double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
     {
       return _points.front().x;
     }
-    else
+    else if (type == Speed)
     {
       return _points.front().dx;
     }
+    else
+    {
+      return 0.0;
+    }
   }
   else
   {
-- 
2.43.0


From 440fbcf040a964893066d20c8ff872ee1fbd3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 13/73] fix: setting Segment.end in Python changed
 Segment.start

---
 bindings/expose-tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-tools.cpp b/bindings/expose-tools.cpp
index 6ff38ad..47d9295 100644
--- a/bindings/expose-tools.cpp
+++ b/bindings/expose-tools.cpp
@@ -88,7 +88,7 @@ void exposeTools()
 
   class__<Segment>("Segment", init<Eigen::Vector2d, Eigen::Vector2d>())
       .add_property("start", &Segment::start, &Segment::start)
-      .add_property("end", &Segment::end, &Segment::start)
+      .add_property("end", &Segment::end, &Segment::end)
       .def("norm", &Segment::norm)
       .def("is_parallel", &Segment::is_parallel)
       .def("is_point_aligned", &Segment::is_point_aligned)
-- 
2.43.0


From 251fab8180fad3ecbee40a7d4e6d240ee9750297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 14/73] fix: derivative coefficients of high degree polynoms
 overflowed

---
 src/placo/tools/polynom.cpp | 4 ++--
 src/placo/tools/polynom.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/tools/polynom.cpp b/src/placo/tools/polynom.cpp
index 4c40ecd..60e5ef4 100644
--- a/src/placo/tools/polynom.cpp
+++ b/src/placo/tools/polynom.cpp
@@ -6,14 +6,14 @@ Polynom::Polynom(Eigen::VectorXd coefficients) : coefficients(coefficients)
 {
 }
 
-int Polynom::derivative_coefficient(int degree, int derivative)
+double Polynom::derivative_coefficient(int degree, int derivative)
 {
   if (derivative > degree)
   {
     return 0;
   }
 
-  int coefficient = 1;
+  double coefficient = 1;
 
   while (derivative > 0)
   {
diff --git a/src/placo/tools/polynom.h b/src/placo/tools/polynom.h
index 018bff7..187f0da 100644
--- a/src/placo/tools/polynom.h
+++ b/src/placo/tools/polynom.h
@@ -15,7 +15,7 @@ public:
    * @param derivative number of differentiations
    * @return coefficient
    */
-  static int derivative_coefficient(int degree, int derivative);
+  static double derivative_coefficient(int degree, int derivative);
 
   /**
    * @brief Computes the value of polynom
-- 
2.43.0


From f72d4551dfc7dde5720ce37a04bc09ccd1180eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:49 +0000
Subject: [PATCH 15/73] fix: hard equalities kept in the QP read out of bounds
 when slack variables were present

---
 src/placo/problem/problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 472f5bd..df59993 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -150,7 +150,7 @@ void Problem::solve()
   }
 
   // Equality constraints
-  Eigen::MatrixXd A(n_equalities, n_variables);
+  Eigen::MatrixXd A(n_equalities, n_variables + slack_variables);
   Eigen::VectorXd b(n_equalities);
   A.setZero();
   b.setZero();
@@ -173,7 +173,7 @@ void Problem::solve()
   if (rewrite_equalities && A.rows() > 0)
   {
     // Computing QR decomposition of A.T
-    QR = A.transpose().colPivHouseholderQr();
+    QR = A.leftCols(n_variables).transpose().colPivHouseholderQr();
 
     determined_variables = QR.rank();
 
-- 
2.43.0


From 6ca84bb15bbb4590a590783f3d76989e1d3d7121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:32 +0000
Subject: [PATCH 16/73] fix: a contradictory QP could return values violating
 hard inequalities without raising

---
 src/placo/problem/problem.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index df59993..86a5469 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -366,6 +366,16 @@ void Problem::solve()
     }
   }
 
+  // Checking that inequality constraints were enforced, the solver can miss that they are contradictory
+  for (int k = 0; k < G.rows(); k++)
+  {
+    double scale = 1. + fabs(h[k]) + G.row(k).cwiseAbs().dot(qp_x.cwiseAbs());
+    if (G.row(k).dot(qp_x) + h[k] < -1e-6 * scale)
+    {
+      throw QPError("Problem: Infeasible QP (inequality constraints were not enforced)");
+    }
+  }
+
   // Checking for NaNs in solution
   if (solution.hasNaN())
   {
-- 
2.43.0


From 94a58f11cef1f03a5720f510a91270fe4b683849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:04 +0000
Subject: [PATCH 17/73] fix: more hard equalities than variables corrupted
 memory with rewrite_equalities off

---
 src/placo/problem/problem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 86a5469..119638d 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -322,8 +322,14 @@ void Problem::solve()
     }
   }
 
+  // The solver does not support more equalities than variables
+  if (A.rows() > free_variables + slack_variables)
+  {
+    throw QPError("Problem: there are more equality constraints than variables");
+  }
+
   Eigen::VectorXi active_set;
-  size_t active_set_size;
+  size_t active_set_size = 0;
 
   Eigen::VectorXd qp_x(free_variables + slack_variables);
   qp_x.setZero();
-- 
2.43.0


From a30eff6a471fad98729482cc4b8a3b1ce9a3174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:30 +0000
Subject: [PATCH 18/73] fix: floats used with expressions in Python were
 truncated to single precision

---
 bindings/expose-problem.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bindings/expose-problem.cpp b/bindings/expose-problem.cpp
index 79037d9..f06583a 100644
--- a/bindings/expose-problem.cpp
+++ b/bindings/expose-problem.cpp
@@ -152,17 +152,17 @@ void exposeProblem()
       .def(self / self)
       .def(self + self)
       .def(self - self)
-      .def(self * float())
-      .def(float() * self)
+      .def(self * double())
+      .def(double() * self)
       .def(self * self)
       .def(self + other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() + self)
       .def(self - other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() - self)
-      .def(self + float())
-      .def(float() + self)
-      .def(self - float())
-      .def(float() - self)
+      .def(self + double())
+      .def(double() + self)
+      .def(self - double())
+      .def(double() - self)
       .def(other<Eigen::MatrixXd>() * self)
       .def("left_multiply", &Expression::left_multiply)
       // Compare to build constraints
@@ -171,12 +171,12 @@ void exposeProblem()
       .def(self == self)
       .def(self == other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() == self)
-      .def(self == float())
-      .def(float() == self)
-      .def(self <= float())
-      .def(float() <= self)
-      .def(self >= float())
-      .def(float() >= self)
+      .def(self == double())
+      .def(double() == self)
+      .def(self <= double())
+      .def(double() <= self)
+      .def(self >= double())
+      .def(double() >= self)
       .def(self <= other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() <= self)
       .def(self >= other<Eigen::VectorXd>())
-- 
2.43.0


From 9d4f838bc7b3352a64e1d87e7f947709b2d6ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:30 +0000
Subject: [PATCH 19/73] fix: a contradictory QP could return far away values
 that do not meet the hard constraints

---
 src/placo/problem/problem.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 119638d..e033993 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -372,13 +372,22 @@ void Problem::solve()
     }
   }
 
-  // Checking that inequality constraints were enforced, the solver can miss that they are contradictory
-  for (int k = 0; k < G.rows(); k++)
+  // Checking that hard constraints were enforced, the solver can miss that they are contradictory
+  for (auto constraint : constraints)
   {
-    double scale = 1. + fabs(h[k]) + G.row(k).cwiseAbs().dot(qp_x.cwiseAbs());
-    if (G.row(k).dot(qp_x) + h[k] < -1e-6 * scale)
+    if (constraint->priority == ProblemConstraint::Hard)
     {
-      throw QPError("Problem: Infeasible QP (inequality constraints were not enforced)");
+      const Expression& e = constraint->expression;
+      Eigen::VectorXd residual = e.A * solution.topRows(e.cols()) + e.b;
+
+      for (int k = 0; k < residual.rows(); k++)
+      {
+        double tolerance = 1e-6 * (1. + fabs(e.b[k]));
+        if (residual[k] < -tolerance || (constraint->type == ProblemConstraint::Equality && residual[k] > tolerance))
+        {
+          throw QPError("Problem: Infeasible QP (hard constraints were not enforced)");
+        }
+      }
     }
   }
 
-- 
2.43.0


From 5e522d597773fa22cb2623bbd64c8fce1eb5e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:53 +0000
Subject: [PATCH 20/73] fix: unknown joint and frame names read out of bounds
 instead of raising

---
 bindings/expose-robot-wrapper.cpp |  2 +-
 src/placo/model/robot_wrapper.cpp | 21 +++++++++++----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index 25b9ba0..a4711d9 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -56,7 +56,7 @@ void exposeRobotType(class_<RobotType, W1>& type)
       .def(
           "get_frame_hessian",
           +[](RobotType& robot, const std::string frame, const std::string joint) {
-            return robot.get_frame_hessian(robot.model.getFrameId(frame), robot.get_joint_v_offset(joint));
+            return robot.get_frame_hessian(robot.get_frame_index(frame), robot.get_joint_v_offset(joint));
           })
       .def("get_T_world_fbase", &RobotType::get_T_world_fbase)
       .def("set_T_world_fbase", &RobotType::set_T_world_fbase)
diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 152501c..af0a110 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -193,7 +193,7 @@ double RobotWrapper::get_joint(const std::string& name)
   return state.q[get_joint_offset(name)];
 }
 
-int RobotWrapper::get_joint_offset(const std::string& name)
+static pinocchio::JointIndex get_joint_index(const pinocchio::Model& model, const std::string& name)
 {
   if (!model.existJointName(name))
   {
@@ -202,26 +202,27 @@ int RobotWrapper::get_joint_offset(const std::string& name)
     throw std::runtime_error(oss.str());
   }
 
-  auto index = model.getJointId(name);
-  return model.joints[index].idx_q();
+  return model.getJointId(name);
+}
+
+int RobotWrapper::get_joint_offset(const std::string& name)
+{
+  return model.joints[get_joint_index(model, name)].idx_q();
 }
 
 int RobotWrapper::get_joint_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
-  return model.joints[index].nq();
+  return model.joints[get_joint_index(model, name)].nq();
 }
 
 int RobotWrapper::get_joint_v_offset(const std::string& name)
 {
-  auto index = model.getJointId(name);
-  return model.joints[index].idx_v();
+  return model.joints[get_joint_index(model, name)].idx_v();
 }
 
 int RobotWrapper::get_joint_v_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
-  return model.joints[index].nv();
+  return model.joints[get_joint_index(model, name)].nv();
 }
 
 double RobotWrapper::get_joint_velocity(const std::string& name)
@@ -585,7 +586,7 @@ Eigen::MatrixXd RobotWrapper::frame_jacobian_time_variation(pinocchio::FrameInde
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From d527ae989905d95b537223909a84c9b7dd41d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:54 +0000
Subject: [PATCH 21/73] fix: joint_jacobian_time_variation by name returned the
 Jacobian

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index af0a110..60775b4 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -600,7 +600,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian_time_variation(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From a26147589300856187956e621395c8ae4f9a947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 22/73] fix: torques_from_acceleration_with_fixed_frame ignored
 the coupling with the floating base

---
 src/placo/model/robot_wrapper.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 60775b4..5ae4b6c 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -734,18 +734,23 @@ Eigen::VectorXd RobotWrapper::static_gravity_compensation_torques(std::string fr
 Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::VectorXd qdd_a,
                                                                          RobotWrapper::FrameIndex frameIndex)
 {
-  auto h = non_linear_effects();
-  auto M = mass_matrix();
+  Eigen::VectorXd h = non_linear_effects();
+  Eigen::MatrixXd M = mass_matrix();
 
-  // Compute f the forces fixing the frame
   Eigen::MatrixXd J = frame_jacobian(frameIndex);
-  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * h.block(0, 0, 6, 1);
+  Eigen::MatrixXd dJ = frame_jacobian_time_variation(frameIndex);
+  Eigen::MatrixXd Ju = J.leftCols(6);
 
-  auto h_a = h.bottomRows(model.nv - 6);
-  auto M_a = M.bottomRightCorner(model.nv - 6, model.nv - 6);
+  // Compute the floating base acceleration, such that the frame doesn't accelerate
+  Eigen::VectorXd qdd(model.nv);
+  qdd << Ju.inverse() * (-J.rightCols(model.nv - 6) * qdd_a - dJ * state.qd), qdd_a;
+
+  // Compute f the forces fixing the frame, knowing that no torque can be provided by the floating base
+  Eigen::VectorXd tau = M * qdd + h;
+  Eigen::VectorXd f = Ju.transpose().inverse() * tau.head(6);
 
   // Compute the torques
-  return M_a * qdd_a + h_a - (J.transpose() * f).bottomRows(model.nv - 6);
+  return (tau - J.transpose() * f).tail(model.nv - 6);
 }
 
 Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::VectorXd qdd_a, std::string frame)
-- 
2.43.0


From 364ed587b84943f222f36904421145f8230417f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:35 +0000
Subject: [PATCH 23/73] fix: get_com_velocity ignored the given support and
 assumed 20 DoFs

---
 src/placo/humanoid/humanoid_robot.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index cd38c52..265aec3 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -140,10 +140,12 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   // CoM Jacobians
   Eigen::Matrix3Xd J_C = com_jacobian();
   Eigen::Matrix3Xd J_u_C = J_C.leftCols(6);
-  Eigen::Matrix3Xd J_a_C = J_C.rightCols(20);
+  Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
-  Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
+  RobotWrapper::FrameIndex contact_frame =
+      (support == support_side) ? support_frame : ((support == Left) ? left_foot : right_foot);
+  Eigen::MatrixXd J_contact = frame_jacobian(contact_frame, pinocchio::ReferenceFrame::LOCAL);
 
   // IMU body Jacobian
   Eigen::MatrixXd J_IMU = frame_jacobian("trunk", "local");
@@ -151,7 +153,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::MatrixXd J(6, J_contact.cols());
   J << J_contact.topRows(3), J_IMU.bottomRows(3);
   Eigen::MatrixXd J_u = J.leftCols(6);
-  Eigen::MatrixXd J_a = J.rightCols(20);
+  Eigen::MatrixXd J_a = J.rightCols(model.nv - 6);
 
   Eigen::MatrixXd J_u_inv = J_u.inverse();
 
-- 
2.43.0


From 44f95eabab4d56ac96b4ae48524f65267e533828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:58 +0000
Subject: [PATCH 24/73] fix: joint_names() included the floating base joint of
 MJCF models

---
 src/placo/model/robot_wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 5ae4b6c..215068f 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -763,8 +763,8 @@ std::vector<std::string> RobotWrapper::joint_names(bool include_floating_base)
   std::vector<std::string> joints = model.names;
   if (!include_floating_base)
   {
-    joints.erase(std::remove(joints.begin(), joints.end(), "universe"), joints.end());
-    joints.erase(std::remove(joints.begin(), joints.end(), "root_joint"), joints.end());
+    // The universe and the floating base (its name depends on the model)
+    joints.erase(joints.begin(), joints.begin() + 2);
   }
   return joints;
 }
-- 
2.43.0


From d63b4b400e7385570c610c0f41ae533ee142ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:52 +0000
Subject: [PATCH 25/73] fix: AxisAlignTask produced NaN when the axis is
 exactly aligned with its target

---
 src/placo/kinematics/axis_align_task.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/kinematics/axis_align_task.cpp b/src/placo/kinematics/axis_align_task.cpp
index 561f28e..da29bab 100644
--- a/src/placo/kinematics/axis_align_task.cpp
+++ b/src/placo/kinematics/axis_align_task.cpp
@@ -21,6 +21,11 @@ void AxisAlignTask::update()
   Eigen::Matrix3d R_world_axisframe;
   R_world_axisframe.col(0) = (T_world_frame.rotation() * axis_frame).normalized();
   R_world_axisframe.col(2) = R_world_axisframe.col(0).cross(targetAxis_world_normalized).normalized();
+  if (R_world_axisframe.col(2).isZero())
+  {
+    // The axises are already colinear, any orthogonal axis can be used
+    R_world_axisframe.col(2) = R_world_axisframe.col(0).unitOrthogonal();
+  }
   R_world_axisframe.col(1) = R_world_axisframe.col(2).cross(R_world_axisframe.col(0));
 
   // Computing the error angle we want to compensate
-- 
2.43.0


From 9a0d3bb94fbbdfbd246fe49219e3f116198a1a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:52 +0000
Subject: [PATCH 26/73] fix: YawConstraint Jacobian was wrong when the x axis
 is tilted

---
 src/placo/kinematics/yaw_constraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/yaw_constraint.cpp b/src/placo/kinematics/yaw_constraint.cpp
index f4d84fd..02ba758 100644
--- a/src/placo/kinematics/yaw_constraint.cpp
+++ b/src/placo/kinematics/yaw_constraint.cpp
@@ -30,7 +30,8 @@ void YawConstraint::add_constraint(placo::problem::Problem& problem)
   Eigen::Vector3d perp_axis = Eigen::Vector3d::UnitZ().cross(x_axis).normalized();
   Eigen::Vector3d yaw_axis = x_axis.cross(perp_axis).normalized();
 
-  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative;
+  // The yaw moves faster when the x axis is tilted, and only its horizontal part remains
+  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative / x_axis.head(2).norm();
 
   // Expression for the angle
   problem::Expression e;
-- 
2.43.0


From b654a928f61582e093918e5de63b08a192eaafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:37 +0000
Subject: [PATCH 27/73] fix: KineticEnergyRegularizationTask could not be used
 as a task in Python

---
 bindings/expose-kinematics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index a348cf4..2d7a020 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -235,7 +235,7 @@ void exposeKinematics()
       .def_readwrite("minimize", &ManipulabilityTask::minimize)
       .def_readonly("manipulability", &ManipulabilityTask::manipulability);
 
-  class__<KineticEnergyRegularizationTask, bases<RegularizationTask>>("KineticEnergyRegularizationTask");
+  class__<KineticEnergyRegularizationTask, bases<Task>>("KineticEnergyRegularizationTask");
 
   class__<Constraint, bases<tools::Prioritized>, boost::noncopyable>("KinematicsConstraint", no_init);
 
-- 
2.43.0


From c80cfa96fc37e6e537c161ed714abb512023fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:29 +0000
Subject: [PATCH 28/73] fix: AxisAlignTask used a rotation axis made of
 rounding errors when nearly aligned

---
 src/placo/kinematics/axis_align_task.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/placo/kinematics/axis_align_task.cpp b/src/placo/kinematics/axis_align_task.cpp
index da29bab..b204cc7 100644
--- a/src/placo/kinematics/axis_align_task.cpp
+++ b/src/placo/kinematics/axis_align_task.cpp
@@ -20,12 +20,13 @@ void AxisAlignTask::update()
   // the rotation about z to be the error, and about y to be zero.
   Eigen::Matrix3d R_world_axisframe;
   R_world_axisframe.col(0) = (T_world_frame.rotation() * axis_frame).normalized();
-  R_world_axisframe.col(2) = R_world_axisframe.col(0).cross(targetAxis_world_normalized).normalized();
-  if (R_world_axisframe.col(2).isZero())
+  Eigen::Vector3d rotation_axis = R_world_axisframe.col(0).cross(targetAxis_world_normalized);
+  if (rotation_axis.norm() < 1e-9)
   {
-    // The axises are already colinear, any orthogonal axis can be used
-    R_world_axisframe.col(2) = R_world_axisframe.col(0).unitOrthogonal();
+    // The axises are colinear, the cross product is only made of rounding errors: any orthogonal axis can be used
+    rotation_axis = R_world_axisframe.col(0).unitOrthogonal();
   }
+  R_world_axisframe.col(2) = rotation_axis.normalized();
   R_world_axisframe.col(1) = R_world_axisframe.col(2).cross(R_world_axisframe.col(0));
 
   // Computing the error angle we want to compensate
-- 
2.43.0


From 6551dc8261db775aec5cee390bdca9bed4e24629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:34 +0000
Subject: [PATCH 29/73] fix: feasible but ill-conditioned QPs were refused by
 the hard constraints verification

---
 src/placo/problem/problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index e033993..d52ece5 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -382,7 +382,7 @@ void Problem::solve()
 
       for (int k = 0; k < residual.rows(); k++)
       {
-        double tolerance = 1e-6 * (1. + fabs(e.b[k]));
+        double tolerance = 1e-4 * (1. + fabs(e.b[k]));
         if (residual[k] < -tolerance || (constraint->type == ProblemConstraint::Equality && residual[k] > tolerance))
         {
           throw QPError("Problem: Infeasible QP (hard constraints were not enforced)");
-- 
2.43.0


From 78419f911556060d363298150c12db9c3548ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:11 +0000
Subject: [PATCH 30/73] fix: dynamics RelativePositionTask bias acceleration
 was wrong when moving

---
 src/placo/dynamics/relative_position_task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/relative_position_task.cpp b/src/placo/dynamics/relative_position_task.cpp
index 9b35bfc..79e2abc 100644
--- a/src/placo/dynamics/relative_position_task.cpp
+++ b/src/placo/dynamics/relative_position_task.cpp
@@ -50,8 +50,8 @@ void RelativePositionTask::update()
   J += a_R_w * (Jb.block(0, 0, 3, solver->N) - Ja.block(0, 0, 3, solver->N));
 
   Eigen::Vector3d e = 2 * pinocchio::skew(a_omega_w) * a_R_w * w_dAB;
-  e += 2 * pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
-  e += a_R_w * (dJb.block(3, 0, 3, solver->N) - dJa.block(3, 0, 3, solver->N)) * solver->robot.state.qd;
+  e += pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
+  e += a_R_w * (dJb.block(0, 0, 3, solver->N) - dJa.block(0, 0, 3, solver->N)) * solver->robot.state.qd;
   e += pinocchio::skew(a_AB) * a_R_w * dJa.block(3, 0, 3, solver->N) * solver->robot.state.qd;
 
   A = mask.apply(J);
-- 
2.43.0


From 70f66a5dd68f9f76097568037b8522d8178f1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:11 +0000
Subject: [PATCH 31/73] fix: TorqueTask spring pushed away from its rest
 position

---
 src/placo/dynamics/torque_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/dynamics/torque_task.cpp b/src/placo/dynamics/torque_task.cpp
index 4c7612a..e452acb 100644
--- a/src/placo/dynamics/torque_task.cpp
+++ b/src/placo/dynamics/torque_task.cpp
@@ -36,7 +36,7 @@ void TorqueTask::update()
   {
     TargetTau target = entry.second;
     A(k, solver->robot.get_joint_v_offset(entry.first)) = 1;
-    b(k, 0) = target.torque + target.kp * solver->robot.get_joint(entry.first) -
+    b(k, 0) = target.torque - target.kp * solver->robot.get_joint(entry.first) -
               target.kd * solver->robot.get_joint_velocity(entry.first);
     k++;
   }
-- 
2.43.0


From 8a893a3b00ed27f53ced47e320de1ce925bbf2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:11 +0000
Subject: [PATCH 32/73] fix: dynamics GearTask::set_gear removed the gears of
 all the other joints

---
 src/placo/dynamics/gear_task.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/gear_task.cpp b/src/placo/dynamics/gear_task.cpp
index d5af82b..b0aac01 100644
--- a/src/placo/dynamics/gear_task.cpp
+++ b/src/placo/dynamics/gear_task.cpp
@@ -9,7 +9,9 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
-  gears.clear();
+  int target_id = solver->robot.get_joint_v_offset(target);
+  gears[target_id].clear();
+
   add_gear(target, source, ratio);
 }
 
-- 
2.43.0


From 22e7ba904f5d633702150fa4451ebaaaaa3647fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:11 +0000
Subject: [PATCH 33/73] fix: DynamicsSolver::remove_task deleted tasks it does
 not own

---
 src/placo/dynamics/dynamics_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index e112249..1edcd73 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -566,7 +566,10 @@ void DynamicsSolver::remove_task(Task& task)
 {
   tasks.erase(&task);
 
-  delete &task;
+  if (task.solver_memory)
+  {
+    delete &task;
+  }
 }
 
 void DynamicsSolver::remove_task(FrameTask& task)
-- 
2.43.0


From f8b8b96da48a0aa191020ce1693eb08da8eb8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:11 +0000
Subject: [PATCH 34/73] fix: weight_tangentials penalised the normal force of
 planar and line contacts

---
 src/placo/dynamics/contacts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 2062cd3..f76f84d 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -138,7 +138,7 @@ void Contact6D::add_constraints(Problem& problem)
   }
   if (weight_tangentials > 0)
   {
-    problem.add_constraint(f.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
@@ -212,7 +212,7 @@ void LineContact::add_constraints(Problem& problem)
   if (weight_tangentials > 0)
   {
     Expression f_surface = R_world_surface.transpose() * f;
-    problem.add_constraint(f_surface.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
-- 
2.43.0


From 62500ef221de353b5668ccab4e27e29a11025f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:39 +0000
Subject: [PATCH 35/73] fix: unilateral and weighted line contacts mixed up the
 dimensions of the wrench

---
 bindings/expose-dynamics.cpp    |  4 ++--
 src/placo/dynamics/contacts.cpp | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index f4744e1..6ccc508 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -77,8 +77,8 @@ void exposeDynamics()
       .def_readwrite("length", &LineContact::length)
       .def("zmp", &LineContact::zmp)
       .add_property(
-          "R_world_surface", +[](PointContact& contact) { return contact.R_world_surface; },
-          +[](PointContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
+          "R_world_surface", +[](LineContact& contact) { return contact.R_world_surface; },
+          +[](LineContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
 
   class__<ExternalWrenchContact, bases<Contact>>("ExternalWrenchContact", init<RobotWrapper::FrameIndex>())
       .add_property("frame_index", &ExternalWrenchContact::frame_index)
diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index f76f84d..ae723d8 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -184,7 +184,7 @@ void LineContact::add_constraints(Problem& problem)
     }
 
     // Expressing the force in the surface frame
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
 
     // The contact is unilateral
     problem.add_constraint(f_surface.slice(F_Z, 1) >= 0);
@@ -192,8 +192,9 @@ void LineContact::add_constraints(Problem& problem)
     // We want the ZMPs to remain in the contacts
     // We add constraints in the form of:
     // -l_1 f_x <= m_y <= l_1 f_x
-    problem.add_constraint(f_surface.slice(M_Y, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
-    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f_surface.slice(M_Y, 1));
+    // In a line contact, there are only two moments (M_Y and M_Z), following the forces
+    problem.add_constraint(f.slice(3, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
+    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f.slice(3, 1));
 
     // We don't slip
     problem.add_constraint(f_surface.slice(F_X, 1) <= mu * f_surface.slice(F_Z, 1));
@@ -206,12 +207,12 @@ void LineContact::add_constraints(Problem& problem)
   // Objective
   if (weight_forces > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);
   }
   if (weight_tangentials > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
@@ -223,7 +224,9 @@ void LineContact::add_constraints(Problem& problem)
 
 Eigen::Vector3d LineContact::zmp()
 {
-  return Eigen::Vector3d(-wrench(M_Y, 0) / wrench(F_Z, 0), 0, 0);
+  Eigen::Vector3d f_surface = R_world_surface.transpose() * wrench.head(3);
+
+  return Eigen::Vector3d(-wrench(3, 0) / f_surface[F_Z], 0, 0);
 }
 
 ExternalWrenchContact::ExternalWrenchContact(model::RobotWrapper::FrameIndex frame_index,
-- 
2.43.0


From 5d34d1ccfd53fd38b45be2b8e44de232ef00b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:39 +0000
Subject: [PATCH 36/73] fix: dynamics RelativeOrientationTask mixed up the
 world and reference frames

---
 .../dynamics/relative_orientation_task.cpp    | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/placo/dynamics/relative_orientation_task.cpp b/src/placo/dynamics/relative_orientation_task.cpp
index 95c1008..1721bc2 100644
--- a/src/placo/dynamics/relative_orientation_task.cpp
+++ b/src/placo/dynamics/relative_orientation_task.cpp
@@ -31,24 +31,25 @@ void RelativeOrientationTask::update()
   Eigen::Matrix3d R_world_a = T_world_a.rotation();
   Eigen::Matrix3d R_a_b_real = T_world_a.rotation().transpose() * T_world_b.rotation();
   Eigen::Matrix3d M = (R_a_b * R_a_b_real.transpose()).matrix();
-  Eigen::Vector3d orientation_error_world = R_world_a * pinocchio::log3(M);
+  Eigen::Vector3d orientation_error = pinocchio::log3(M);
 
   // Computing A and b
   Eigen::Vector3d world_omega_a = Ja * solver->robot.state.qd;
   Eigen::Vector3d world_omega_b = Jb * solver->robot.state.qd;
   Eigen::Vector3d world_omega_a_b_real = world_omega_b - world_omega_a;
-  Eigen::Vector3d velocity_error_world = R_world_a * omega_a_b - world_omega_a_b_real;
+  Eigen::Vector3d velocity_error = omega_a_b - R_world_a.transpose() * world_omega_a_b_real;
 
-  Eigen::Vector3d desired_acceleration = kp * orientation_error_world + get_kd() * velocity_error_world + domega_a_b;
+  Eigen::Vector3d desired_acceleration = kp * orientation_error + get_kd() * velocity_error + domega_a_b;
 
-  Eigen::Matrix3d Jlog;
-  pinocchio::Jlog3(M, Jlog);
+  // The angular acceleration of b in a, expressed in a, is: J * qdd + e
+  Eigen::MatrixXd J = R_world_a.transpose() * (Jb - Ja);
+  Eigen::Vector3d e =
+      R_world_a.transpose() * ((dJb - dJa) * solver->robot.state.qd - world_omega_a.cross(world_omega_a_b_real));
 
-  // Acceleration is: J * qdd + dJ * qd
-  A = mask.apply(Jlog * (Jb - Ja));
-  b = mask.apply(desired_acceleration - Jlog * (dJb * solver->robot.state.qd - dJa * solver->robot.state.qd));
-  error = mask.apply(orientation_error_world);
-  derror = mask.apply(velocity_error_world);
+  A = mask.apply(J);
+  b = mask.apply(desired_acceleration - e);
+  error = mask.apply(orientation_error);
+  derror = mask.apply(velocity_error);
 }
 
 std::string RelativeOrientationTask::type_name()
-- 
2.43.0


From f97edacf745d51604ec5043a99a3b25373314483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:49 +0000
Subject: [PATCH 37/73] fix: restore the line endings of cubic_spline.cpp

---
 src/placo/tools/cubic_spline.cpp | 390 +++++++++++++++----------------
 1 file changed, 195 insertions(+), 195 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e4d71ce..c8f677a 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,195 +1,195 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  // Not using _splines here, since they are computed lazily
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-
-  return _points.back().t - _points.front().t;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else if (type == Speed)
-    {
-      return _points.front().dx;
-    }
-    else
-    {
-      return 0.0;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  // Not using _splines here, since they are computed lazily
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else if (type == Speed)
+    {
+      return _points.front().dx;
+    }
+    else
+    {
+      return 0.0;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 677a2a6b6a4a9368d8cd4b4946465484a08d8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:02 +0000
Subject: [PATCH 38/73] fix: sign of the jerk in the ZMP velocity of LIPM
 trajectories

---
 src/placo/humanoid/lipm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/lipm.cpp b/src/placo/humanoid/lipm.cpp
index 3e9ca1b..1e95559 100644
--- a/src/placo/humanoid/lipm.cpp
+++ b/src/placo/humanoid/lipm.cpp
@@ -37,7 +37,7 @@ Eigen::VectorXd LIPM::Trajectory::zmp(double t, double omega_2)
 
 Eigen::VectorXd LIPM::Trajectory::dzmp(double t, double omega_2)
 {
-  return vel(t) + (1 / omega_2) * jerk(t);
+  return vel(t) - (1 / omega_2) * jerk(t);
 }
 
 LIPM::LIPM()
-- 
2.43.0


From d064e0a6cfb6962411b90def817f64fc1f86529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:02 +0000
Subject: [PATCH 39/73] fix: rows of the swing foot quintic fit had the wrong
 size

---
 src/placo/humanoid/swing_foot_quintic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/humanoid/swing_foot_quintic.cpp b/src/placo/humanoid/swing_foot_quintic.cpp
index 25fd927..5e38042 100644
--- a/src/placo/humanoid/swing_foot_quintic.cpp
+++ b/src/placo/humanoid/swing_foot_quintic.cpp
@@ -5,7 +5,7 @@ namespace placo::humanoid
 {
 Eigen::VectorXd quintic_pos_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << pow(t, 5), pow(t, 4), pow(t, 3), pow(t, 2), pow(t, 1), 1;
 
@@ -14,7 +14,7 @@ Eigen::VectorXd quintic_pos_times(double t)
 
 Eigen::VectorXd quintic_d_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 5 * pow(t, 4), 4 * pow(t, 3), 3 * pow(t, 2), 2 * pow(t, 1), 1, 0;
 
@@ -23,7 +23,7 @@ Eigen::VectorXd quintic_d_times(double t)
 
 Eigen::VectorXd quintic_dd_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 20 * pow(t, 3), 12 * pow(t, 2), 6 * pow(t, 1), 2, 0, 0;
 
-- 
2.43.0


From 888e768a578ee3d61a721b890de324c610a8059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:02 +0000
Subject: [PATCH 40/73] fix: swing foot quintic missed its endpoints when
 starting far from t=0

---
 src/placo/humanoid/swing_foot_quintic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/placo/humanoid/swing_foot_quintic.cpp b/src/placo/humanoid/swing_foot_quintic.cpp
index 5e38042..787425c 100644
--- a/src/placo/humanoid/swing_foot_quintic.cpp
+++ b/src/placo/humanoid/swing_foot_quintic.cpp
@@ -34,6 +34,12 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
                                                                Eigen::Vector3d start, Eigen::Vector3d target)
 {
   Trajectory trajectory;
+  trajectory.t_start = t_start;
+  trajectory.t_end = t_end;
+
+  // The polynom is a function of the time since t_start, fitting on the absolute time is numerically inaccurate
+  t_end -= t_start;
+  t_start = 0.;
 
   double t_a = t_start + (t_end - t_start) / 4.;
   double t_b = t_start + 3 * (t_end - t_start) / 4.;
@@ -90,6 +96,7 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
@@ -100,6 +107,7 @@ Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::vel(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
-- 
2.43.0


From a27c3cc0270184c6ef051bb8cf132e29438e2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 41/73] fix: footsteps crossing each other without a corner
 inside the other were not overlapping

---
 src/placo/humanoid/footsteps_planner.cpp | 31 ++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index a9262bd..d94e4c9 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -70,29 +70,40 @@ bool FootstepsPlanner::Footstep::polygon_contains(std::vector<Eigen::Vector2d>&
   return true;
 }
 
-bool FootstepsPlanner::Footstep::overlap(Footstep& other, double margin)
+static bool has_separating_edge(const std::vector<Eigen::Vector2d>& polygon, const std::vector<Eigen::Vector2d>& other)
 {
-  std::vector<Eigen::Vector2d> support1 = compute_polygon(margin);
-  std::vector<Eigen::Vector2d> support2 = other.compute_polygon(margin);
+  Eigen::Vector2d last_point = polygon[polygon.size() - 1];
 
-  for (auto pt : support1)
+  for (auto current_point : polygon)
   {
-    if (polygon_contains(support2, pt))
+    Eigen::Vector2d v = current_point - last_point;
+    Eigen::Vector2d n(v.y(), -v.x());
+
+    bool all_outside = true;
+    for (auto point : other)
     {
-      return true;
+      all_outside = all_outside && n.dot(point - last_point) < 0;
     }
-  }
-  for (auto pt : support2)
-  {
-    if (polygon_contains(support1, pt))
+    if (all_outside)
     {
       return true;
     }
+
+    last_point = current_point;
   }
 
   return false;
 }
 
+bool FootstepsPlanner::Footstep::overlap(Footstep& other, double margin)
+{
+  std::vector<Eigen::Vector2d> support1 = compute_polygon(margin);
+  std::vector<Eigen::Vector2d> support2 = other.compute_polygon(margin);
+
+  // Two convex polygons are disjoint if (and only if) an edge of one of them separates them
+  return !has_separating_edge(support1, support2) && !has_separating_edge(support2, support1);
+}
+
 bool FootstepsPlanner::Footstep::operator==(const Footstep& other)
 {
   return side == other.side && frame.isApprox(other.frame);
-- 
2.43.0


From 69f40c8aae1e2d60918460333c82736c9b7744e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 42/73] fix: support polygons were not updated when their
 footsteps were moved

---
 src/placo/humanoid/footsteps_planner.cpp | 42 ++++++++----------------
 src/placo/humanoid/footsteps_planner.h   |  6 ----
 2 files changed, 14 insertions(+), 34 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index d94e4c9..3453889 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -41,13 +41,7 @@ std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::compute_polygon(double
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon = compute_polygon();
-    computed_polygon = true;
-  }
-
-  return polygon;
+  return compute_polygon();
 }
 
 bool FootstepsPlanner::Footstep::polygon_contains(std::vector<Eigen::Vector2d>& polygon, Eigen::Vector2d point)
@@ -119,29 +113,25 @@ FootstepsPlanner::Support::Support(std::vector<Footstep> footsteps) : footsteps(
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Support::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon.clear();
+  std::vector<Eigen::Vector2d> polygon;
 
-    b_polygon poly, hull;
-    for (auto& footstep : footsteps)
+  b_polygon poly, hull;
+  for (auto& footstep : footsteps)
+  {
+    for (auto& pt : footstep.support_polygon())
     {
-      for (auto& pt : footstep.support_polygon())
-      {
-        boost::geometry::append(poly, b_point(pt.x(), pt.y()));
-      }
+      boost::geometry::append(poly, b_point(pt.x(), pt.y()));
     }
+  }
 
-    // Boost convex hull is also clockwise
-    boost::geometry::convex_hull(poly, hull);
+  // Boost convex hull is also clockwise
+  boost::geometry::convex_hull(poly, hull);
 
-    for (auto& pt : hull.outer())
-    {
-      polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
-    }
-    polygon.pop_back();
-    computed_polygon = true;
+  for (auto& pt : hull.outer())
+  {
+    polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
   }
+  polygon.pop_back();
 
   return polygon;
 }
@@ -186,9 +176,7 @@ void FootstepsPlanner::Support::apply_offset(Eigen::Vector2d offset)
   {
     footstep.frame.translation().x() += offset.x();
     footstep.frame.translation().y() += offset.y();
-    footstep.computed_polygon = false;
   }
-  computed_polygon = false;
 }
 
 HumanoidRobot::Side FootstepsPlanner::Support::side()
@@ -213,9 +201,7 @@ FootstepsPlanner::Support operator*(Eigen::Affine3d T, const FootstepsPlanner::S
   for (auto& footstep : new_support.footsteps)
   {
     footstep.frame = T * footstep.frame;
-    footstep.computed_polygon = false;
   }
-  new_support.computed_polygon = false;
 
   return new_support;
 }
diff --git a/src/placo/humanoid/footsteps_planner.h b/src/placo/humanoid/footsteps_planner.h
index 1b5ba4e..ddc99df 100644
--- a/src/placo/humanoid/footsteps_planner.h
+++ b/src/placo/humanoid/footsteps_planner.h
@@ -24,9 +24,6 @@ public:
     HumanoidRobot::Side side;
     Eigen::Affine3d frame;
 
-    std::vector<Eigen::Vector2d> polygon;
-    bool computed_polygon = false;
-
     std::vector<Eigen::Vector2d> support_polygon();
     std::vector<Eigen::Vector2d> compute_polygon(double margin = 0.);
 
@@ -63,9 +60,6 @@ public:
     bool start = false;
     bool end = false;
 
-    std::vector<Eigen::Vector2d> polygon;
-    bool computed_polygon = false;
-
     std::vector<Eigen::Vector2d> support_polygon();
 
     /**
-- 
2.43.0


From 2fdf3def09e9e3151da176439e29a20ad3e3e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 43/73] fix: transforming a support left its target DCM behind

---
 src/placo/humanoid/footsteps_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index 3453889..aa3d8d9 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -202,6 +202,8 @@ FootstepsPlanner::Support operator*(Eigen::Affine3d T, const FootstepsPlanner::S
   {
     footstep.frame = T * footstep.frame;
   }
+  new_support.target_world_dcm =
+      (T * Eigen::Vector3d(support.target_world_dcm.x(), support.target_world_dcm.y(), 0.)).head(2);
 
   return new_support;
 }
-- 
2.43.0


From 180cc79149d174b0362960f768986278d934aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 44/73] fix: naive footsteps planner stopped before reaching
 the target when the last step was clipped

---
 src/placo/humanoid/footsteps_planner_naive.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner_naive.cpp b/src/placo/humanoid/footsteps_planner_naive.cpp
index 14bbb3c..e7e6fc5 100644
--- a/src/placo/humanoid/footsteps_planner_naive.cpp
+++ b/src/placo/humanoid/footsteps_planner_naive.cpp
@@ -129,8 +129,14 @@ void FootstepsPlannerNaive::plan_impl(std::vector<FootstepsPlanner::Footstep>& f
     }
 
     // Ellipsoid clipping
-    Eigen::Vector3d step(error.x(), error.y(), error_yaw);
-    step = parameters.ellipsoid_clip(step);
+    Eigen::Vector3d target_step(error.x(), error.y(), error_yaw);
+    Eigen::Vector3d step = parameters.ellipsoid_clip(target_step);
+
+    // The foot is not at its target if the step was clipped or is still oriented toward the walking direction
+    if (dist > place_threshold || !step.isApprox(target_step))
+    {
+      arrived = false;
+    }
 
     // Computing new frame
     Eigen::Affine3d new_step;
-- 
2.43.0


From 89e181b828fc4bfaa294fc192867a89cd8821ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 45/73] fix: get_prev_support overwrote the parts of the
 trajectory

---
 src/placo/humanoid/walk_pattern_generator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2df25ab..39425b0 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -280,12 +280,13 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
-  TrajectoryPart& part = _findPart(parts, t);
-  for (int i = 0; i < n; i++)
+  int index;
+  _findPart(parts, t, &index);
+  if (index - n < 0)
   {
-    part = _findPart(parts, part.t_start - 1e-4);
+    return T * parts.front().support;
   }
-  return T * part.support;
+  return T * parts[index - n].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From 0a0f0a1c6a92333cd459a9b78667e6a1147cd3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 46/73] fix: feet velocities raised during double supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 39425b0..eace7ab 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -124,7 +124,7 @@ Eigen::Affine3d WalkPatternGenerator::Trajectory::get_T_world_foot(HumanoidRobot
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Right)
+  if (is_flying(HumanoidRobot::Left, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
@@ -134,7 +134,7 @@ Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_right(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Left)
+  if (is_flying(HumanoidRobot::Right, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
-- 
2.43.0


From 95f7fce792ee3451cf29af31cab0149feebf6cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 47/73] fix: update_supports did not use the DCM offset polygon
 of right supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index eace7ab..f373c7e 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -740,7 +740,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
       point(0) = -point(0);
       point(1) = -point(1);
     }
-    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), parameters.dcm_offset_polygon))
+    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), dcm_offset_polygon))
         .configure(ProblemConstraint::Soft, w_viability);
   }
   else
-- 
2.43.0


From db85f61984675f8832ee6d3e0433199bece1f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 48/73] fix: walk tasks reported the position errors of the
 feet as orientation errors

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 8f46098..9ccc3ec 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -150,8 +150,8 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   std::map<std::string, Eigen::Vector3d> error;
   error["left_foot_orientation"] = left_foot_task.orientation->error();
   error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_orientation"] = left_foot_task.position->error();
-  error["right_foot_orientation"] = right_foot_task.position->error();
+  error["left_foot_position"] = left_foot_task.position->error();
+  error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
   if (trunk_mode)
   {
-- 
2.43.0


From 00bd96fe15cc2f26c6d334c4b4a1f5abdf6fc5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 49/73] fix: DCM error PID of the walk tasks started from
 uninitialised values

---
 src/placo/humanoid/walk_tasks.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.h b/src/placo/humanoid/walk_tasks.h
index 38a43b6..3bf6f65 100644
--- a/src/placo/humanoid/walk_tasks.h
+++ b/src/placo/humanoid/walk_tasks.h
@@ -48,7 +48,7 @@ public:
   double K_d = 0.;
 
   double lambda = 0.01;
-  Eigen::Vector2d integral;
-  Eigen::Vector2d last_error;
+  Eigen::Vector2d integral = Eigen::Vector2d::Zero();
+  Eigen::Vector2d last_error = Eigen::Vector2d::Zero();
 };
 }  // namespace placo::humanoid
\ No newline at end of file
-- 
2.43.0


From 60be7a6733def15bbd637426ccf103b66ab9bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 50/73] fix: WalkTasks.solver returned a copy which deleted the
 tasks of the solver

---
 bindings/expose-walk-pattern-generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 705461b..2b3c4f0 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -132,8 +132,9 @@ void exposeWalkPatternGenerator()
             }
             return dict;
           })
-      .add_property(
-          "solver", +[](WalkTasks& tasks) { return *tasks.solver; })
+      .add_property("solver", make_function(
+                                  +[](WalkTasks& tasks) -> KinematicsSolver& { return *tasks.solver; },
+                                  return_value_policy<reference_existing_object>()))
       .add_property("scaled", &WalkTasks::scaled, &WalkTasks::scaled)
       .add_property("left_foot_task", &WalkTasks::left_foot_task)
       .add_property("right_foot_task", &WalkTasks::right_foot_task)
-- 
2.43.0


From a8f20c143bd3036f701efeb2911ae4fb30e42f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:20 +0000
Subject: [PATCH 51/73] fix: LIPM.x_var and LIPM.y_var could not be read in
 Python

---
 bindings/expose-walk-pattern-generator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 2b3c4f0..86d9986 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -178,8 +178,12 @@ void exposeWalkPatternGenerator()
       .add_property("timesteps", &LIPM::timesteps, &LIPM::timesteps)
       .add_property("t_start", &LIPM::t_start, &LIPM::t_start)
       .add_property("t_end", &LIPM::t_end, &LIPM::t_end)
-      .add_property("x_var", &LIPM::x_var, &LIPM::x_var)
-      .add_property("y_var", &LIPM::y_var, &LIPM::y_var)
+      .add_property("x_var", make_function(
+                                 +[](LIPM& lipm) -> problem::Variable& { return *lipm.x_var; },
+                                 return_value_policy<reference_existing_object>()))
+      .add_property("y_var", make_function(
+                                 +[](LIPM& lipm) -> problem::Variable& { return *lipm.y_var; },
+                                 return_value_policy<reference_existing_object>()))
       .add_property("x", &LIPM::x, &LIPM::x)
       .add_property("y", &LIPM::y, &LIPM::y);
 
-- 
2.43.0


From 4ddf46e2c2ddcdca53cb46a383ccb7976c281c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 52/73] fix: the double support following the first support of
 an ongoing walk had its start time

---
 src/placo/humanoid/footsteps_planner.cpp      | 1 -
 src/placo/humanoid/walk_pattern_generator.cpp | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index aa3d8d9..05f3067 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -253,7 +253,6 @@ std::vector<FootstepsPlanner::Support> FootstepsPlanner::make_supports(
       if (middle)
       {
         Support double_support({ footsteps[0], footsteps[1] });
-        double_support.t_start = t_start;
         supports.push_back(double_support);
       }
     }
diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index f373c7e..ff87c49 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -628,6 +628,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::replan_supports(Foo
     supports = FootstepsPlanner::make_supports(footsteps, current_support.t_start, false,
                                                parameters.has_double_support(), true);
     supports.erase(supports.begin());
+    supports[0].t_start = current_support.t_start;
   }
   else
   {
-- 
2.43.0


From 0953d10ed21aaec2eaacf7691ac0e4751508448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:53 +0000
Subject: [PATCH 53/73] fix: WPGTrajectory.parts could not be read in Python

---
 bindings/expose-walk-pattern-generator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 86d9986..13f2d0e 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -36,7 +36,15 @@ void exposeWalkPatternGenerator()
       .add_property("com_target_z", &WalkPatternGenerator::Trajectory::com_target_z)
       .add_property("trunk_pitch", &WalkPatternGenerator::Trajectory::trunk_pitch)
       .add_property("trunk_roll", &WalkPatternGenerator::Trajectory::trunk_roll)
-      .add_property("parts", &WalkPatternGenerator::Trajectory::parts)
+      .add_property(
+          "parts", +[](const WalkPatternGenerator::Trajectory& trajectory) {
+            boost::python::list parts;
+            for (auto& part : trajectory.parts)
+            {
+              parts.append(part);
+            }
+            return parts;
+          })
       .add_property("replan_success", &WalkPatternGenerator::Trajectory::replan_success)
       .def("get_T_world_left", &WalkPatternGenerator::Trajectory::get_T_world_left)
       .def("get_T_world_right", &WalkPatternGenerator::Trajectory::get_T_world_right)
-- 
2.43.0


From fc87462e6a1fcc16f53d8caf6ad374ada0ff8b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:11 +0000
Subject: [PATCH 54/73] fix: walk tasks errors crashed after changing the trunk
 mode

---
 src/placo/humanoid/walk_tasks.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 9ccc3ec..c872cea 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -153,11 +153,12 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   error["left_foot_position"] = left_foot_task.position->error();
   error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
-  if (trunk_mode)
+  // The trunk mode is only effective at the next update of the tasks
+  if (trunk_task != nullptr)
   {
     error["trunk_position"] = trunk_task->error();
   }
-  else
+  if (com_task != nullptr)
   {
     error["com_position"] = com_task->error();
   }
-- 
2.43.0


From 6ac59b701512a8b6cf8cff5559aaede93ba6b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:12 +0000
Subject: [PATCH 55/73] fix: walk tasks errors crashed when read before the
 first solve

---
 src/placo/humanoid/walk_tasks.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index c872cea..87d283d 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -145,22 +145,29 @@ void WalkTasks::update_tasks_and_pid(WalkPatternGenerator::Trajectory& trajector
                trajectory.get_R_world_trunk(t));
 }
 
+// The error of a task is only computed when it is updated, which might not have been done since it was created
+static Eigen::Vector3d _updated_error(Task& task)
+{
+  task.update();
+  return task.error();
+}
+
 std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
 {
   std::map<std::string, Eigen::Vector3d> error;
-  error["left_foot_orientation"] = left_foot_task.orientation->error();
-  error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_position"] = left_foot_task.position->error();
-  error["right_foot_position"] = right_foot_task.position->error();
-  error["trunk_orientation"] = trunk_orientation_task->error();
+  error["left_foot_orientation"] = _updated_error(*left_foot_task.orientation);
+  error["right_foot_orientation"] = _updated_error(*right_foot_task.orientation);
+  error["left_foot_position"] = _updated_error(*left_foot_task.position);
+  error["right_foot_position"] = _updated_error(*right_foot_task.position);
+  error["trunk_orientation"] = _updated_error(*trunk_orientation_task);
   // The trunk mode is only effective at the next update of the tasks
   if (trunk_task != nullptr)
   {
-    error["trunk_position"] = trunk_task->error();
+    error["trunk_position"] = _updated_error(*trunk_task);
   }
   if (com_task != nullptr)
   {
-    error["com_position"] = com_task->error();
+    error["com_position"] = _updated_error(*com_task);
   }
   return error;
 }
-- 
2.43.0


From 09a18b061ff72348ed355d8985c37774bd93f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:34 +0000
Subject: [PATCH 56/73] fix: the dummy walk left outdated kinematics and then
 misplaced the support

---
 src/placo/humanoid/dummy_walk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/placo/humanoid/dummy_walk.cpp b/src/placo/humanoid/dummy_walk.cpp
index ebb7718..6b4a187 100644
--- a/src/placo/humanoid/dummy_walk.cpp
+++ b/src/placo/humanoid/dummy_walk.cpp
@@ -133,5 +133,8 @@ void DummyWalk::solve()
     robot.update_kinematics();
     solver.solve(true);
   }
+
+  // The frames of the robot should be the ones of its new state
+  robot.update_kinematics();
 }
 }  // namespace placo::humanoid
\ No newline at end of file
-- 
2.43.0


From b845d6458076b3842c1a1e9565327097d4332e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:40 +0000
Subject: [PATCH 57/73] fix: an infinite QP solution was returned instead of
 raising

---
 src/placo/problem/problem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index d52ece5..5e7ae7a 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -391,10 +391,10 @@ void Problem::solve()
     }
   }
 
-  // Checking for NaNs in solution
-  if (solution.hasNaN())
+  // Checking for NaNs and infinite values in solution
+  if (!solution.allFinite())
   {
-    throw QPError("Problem: NaN in the QP solution");
+    throw QPError("Problem: NaN or infinite value in the QP solution");
   }
 
   x = solution;
-- 
2.43.0


From 40b0e6c8cdea66bb52795a3fab57ff09b72ea799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:59 +0000
Subject: [PATCH 58/73] fix: contacts_viz skips all the contacts after an
 inactive one

---
 python/placo_utils/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/placo_utils/visualization.py b/python/placo_utils/visualization.py
index cc697cb..24e76b7 100644
--- a/python/placo_utils/visualization.py
+++ b/python/placo_utils/visualization.py
@@ -286,8 +286,8 @@ def contacts_viz(solver: placo.DynamicsSolver, ratio=0.1, radius=0.005):
     frames = robot.frame_names()
     k = 0
 
-    for _ in range(solver.count_contacts()):
-        contact = solver.get_contact(k)
+    for index in range(solver.count_contacts()):
+        contact = solver.get_contact(index)
         if not contact.active:
             continue
 
-- 
2.43.0


From 32288b121b15248c2b707fcdff8c2bcf5b1996da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:59 +0000
Subject: [PATCH 59/73] fix: contacts_viz keeps an old arrow in place of a
 contact that has none

---
 python/placo_utils/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/placo_utils/visualization.py b/python/placo_utils/visualization.py
index 24e76b7..9891e94 100644
--- a/python/placo_utils/visualization.py
+++ b/python/placo_utils/visualization.py
@@ -345,6 +345,8 @@ def contacts_viz(solver: placo.DynamicsSolver, ratio=0.1, radius=0.005):
                 color=0xFF2222,
                 radius=radius,
             )
+        else:
+            continue
 
         k += 1
 
-- 
2.43.0


From 4bf21c4abbc6c379d32f46aad16e8c75f79e4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:59 +0000
Subject: [PATCH 60/73] fix: contacts_viz rotates the force of line contacts,
 already in the world

---
 python/placo_utils/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/placo_utils/visualization.py b/python/placo_utils/visualization.py
index 9891e94..347e766 100644
--- a/python/placo_utils/visualization.py
+++ b/python/placo_utils/visualization.py
@@ -321,7 +321,8 @@ def contacts_viz(solver: placo.DynamicsSolver, ratio=0.1, radius=0.005):
         elif isinstance(contact, placo.LineContact):
             frame_name = frames[contact.position_task().frame_index]
             T_world_frame = robot.get_T_world_frame(frame_name)
-            wrench = T_world_frame[:3, :3] @ contact.wrench[:3]
+            # The forces of a line contact are expressed in the world
+            wrench = contact.wrench[:3]
 
             if np.linalg.norm(wrench) < 1e-6:
                 origin = T_world_frame[:3, 3]
-- 
2.43.0


From 14783c41a212ca2fc493d026d39b8a58b7ab5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:59 +0000
Subject: [PATCH 61/73] fix: contacts_viz draws local external wrenches as if
 in the world

---
 bindings/expose-dynamics.cpp        | 5 +++++
 python/placo_utils/visualization.py | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 6ccc508..4a0f9f0 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -82,6 +82,11 @@ void exposeDynamics()
 
   class__<ExternalWrenchContact, bases<Contact>>("ExternalWrenchContact", init<RobotWrapper::FrameIndex>())
       .add_property("frame_index", &ExternalWrenchContact::frame_index)
+      .add_property(
+          "reference",
+          +[](const ExternalWrenchContact& contact) {
+            return std::string(contact.reference == pinocchio::LOCAL ? "local" : "world");
+          })
       .def_readwrite("w_ext", &ExternalWrenchContact::w_ext);
 
   class__<PuppetContact, bases<Contact>>("PuppetContact", init<>());
diff --git a/python/placo_utils/visualization.py b/python/placo_utils/visualization.py
index 347e766..786a14f 100644
--- a/python/placo_utils/visualization.py
+++ b/python/placo_utils/visualization.py
@@ -339,10 +339,14 @@ def contacts_viz(solver: placo.DynamicsSolver, ratio=0.1, radius=0.005):
         elif isinstance(contact, placo.ExternalWrenchContact):
             frame_name = frames[contact.frame_index]
             T_world_frame = robot.get_T_world_frame(frame_name)
+            force = contact.w_ext[:3]
+            if contact.reference == "local":
+                force = T_world_frame[:3, :3] @ force
+
             arrow_viz(
                 f"contact_{k}",
                 T_world_frame[:3, 3],
-                T_world_frame[:3, 3] + contact.w_ext[:3] * ratio,
+                T_world_frame[:3, 3] + force * ratio,
                 color=0xFF2222,
                 radius=radius,
             )
-- 
2.43.0


From fc3e32a532cc500a0d1ce0bf246a3280cfed3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:44 +0000
Subject: [PATCH 62/73] fix: dump_status overflows its buffer when an error is
 huge

---
 src/placo/dynamics/dynamics_solver.cpp     | 6 +++---
 src/placo/kinematics/kinematics_solver.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index 1edcd73..5eca2fa 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -371,10 +371,10 @@ void DynamicsSolver::dump_status_stream(std::ostream& stream)
       stream << "soft (weight:" << task->weight << ")";
     }
     stream << std::endl;
-    char buffer[128];
-    sprintf(buffer, "    - Error: %.06f [%s]\n", task->error.norm(), task->error_unit().c_str());
+    char buffer[512];
+    snprintf(buffer, sizeof(buffer), "    - Error: %.06f [%s]\n", task->error.norm(), task->error_unit().c_str());
     stream << buffer;
-    sprintf(buffer, "    - DError: %.06f [%s]\n", task->derror.norm(), task->error_unit().c_str());
+    snprintf(buffer, sizeof(buffer), "    - DError: %.06f [%s]\n", task->derror.norm(), task->error_unit().c_str());
     stream << buffer << std::endl;
   }
 }
diff --git a/src/placo/kinematics/kinematics_solver.cpp b/src/placo/kinematics/kinematics_solver.cpp
index 8fbd85b..c06b606 100644
--- a/src/placo/kinematics/kinematics_solver.cpp
+++ b/src/placo/kinematics/kinematics_solver.cpp
@@ -508,8 +508,8 @@ void KinematicsSolver::dump_status_stream(std::ostream& stream)
       stream << "soft (weight:" << task->weight << ")";
     }
     stream << std::endl;
-    char buffer[128];
-    sprintf(buffer, "    - Error: %.06f [%s]\n", task->error_norm(), task->error_unit().c_str());
+    char buffer[512];
+    snprintf(buffer, sizeof(buffer), "    - Error: %.06f [%s]\n", task->error_norm(), task->error_unit().c_str());
     stream << buffer << std::endl;
   }
 }
-- 
2.43.0


From bc143c00ee0ded3136406ebbfa348abc7318200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 63/73] fix: the robot of a dynamics solver was a copy in
 Python

---
 bindings/expose-dynamics.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 4a0f9f0..2841670 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -134,7 +134,9 @@ void exposeDynamics()
       .def("set_kp", &DynamicsSolver::set_kp)
       .def("set_kd", &DynamicsSolver::set_kd)
       .add_property(
-          "robot", +[](const DynamicsSolver& solver) { return solver.robot; })
+          "robot", make_function(
+                       +[](const DynamicsSolver& solver) -> RobotWrapper& { return solver.robot; },
+                       return_internal_reference<>()))
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
-- 
2.43.0


From ffe6ede85e4eaa8807b7886f266983dd69ba0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 64/73] fix: get_contact reads out of bounds for an invalid
 index

---
 bindings/expose-dynamics.cpp      | 2 +-
 bindings/expose-robot-wrapper.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 2841670..f7f5fc4 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -140,7 +140,7 @@ void exposeDynamics()
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
-          "get_contact", +[](DynamicsSolver& solver, int i) -> Contact& { return *solver.contacts[i]; },
+          "get_contact", +[](DynamicsSolver& solver, int i) -> Contact& { return *solver.contacts.at(i); },
           return_internal_reference<>())
       .def<PositionTask& (DynamicsSolver::*)(std::string, Eigen::Vector3d)>(
           "add_position_task", &DynamicsSolver::add_position_task, return_internal_reference<>())
diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index a4711d9..9fc8266 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -161,7 +161,7 @@ void exposeRobotWrapper()
       .add_property("parentA", &RobotWrapper::Collision::parentA)
       .add_property("parentB", &RobotWrapper::Collision::parentB)
       .def(
-          "get_contact", +[](RobotWrapper::Collision& collision, int index) { return collision.contacts[index]; });
+          "get_contact", +[](RobotWrapper::Collision& collision, int index) { return collision.contacts.at(index); });
 
   class__<RobotWrapper::Distance>("Distance")
       .add_property("objA", &RobotWrapper::Distance::objA)
-- 
2.43.0


From eef442fff7189ea813ec9ab5f36759fd7d4f8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 65/73] fix: solvers in Python did not keep their robot alive

---
 bindings/expose-dynamics.cpp      | 2 +-
 bindings/expose-kinematics.cpp    | 4 ++--
 bindings/expose-robot-wrapper.cpp | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index f7f5fc4..05363ae 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -93,7 +93,7 @@ void exposeDynamics()
 
   class__<TaskContact, bases<Contact>>("TaskContact", init<Task&>());
 
-  class__<DynamicsSolver>("DynamicsSolver", init<RobotWrapper&>())
+  class__<DynamicsSolver>("DynamicsSolver", init<RobotWrapper&>()[with_custodian_and_ward<1, 2>()])
       .add_property("problem", &DynamicsSolver::problem)
       .def_readwrite("damping", &DynamicsSolver::damping)
       .def_readwrite("dt", &DynamicsSolver::dt)
diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index 2d7a020..f85da87 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -19,7 +19,7 @@ BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(frametask_configure_overloads, configure,
 void exposeKinematics()
 {
   class_<KinematicsSolver> solver_class =
-      class__<KinematicsSolver>("KinematicsSolver", init<RobotWrapper&>())
+      class__<KinematicsSolver>("KinematicsSolver", init<RobotWrapper&>()[with_custodian_and_ward<1, 2>()])
           .add_property("problem", &KinematicsSolver::problem)
           .add_property("dt", &KinematicsSolver::dt, &KinematicsSolver::dt)
           .add_property("N", &KinematicsSolver::N)
@@ -27,7 +27,7 @@ void exposeKinematics()
           .add_property("robot",
                         make_function(
                             +[](const KinematicsSolver& solver) -> model::RobotWrapper& { return solver.robot; },
-                            return_value_policy<reference_existing_object>()))
+                            return_internal_reference<>()))
 
           // Position and CoM task
           .def<PositionTask& (KinematicsSolver::*)(std::string, Eigen::Vector3d)>(
diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index 9fc8266..539b60a 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -137,7 +137,8 @@ void exposeRobotType(class_<RobotType, W1>& type)
           "joint_jacobian", +[](RobotType& robot, const std::string& joint,
                                 const std::string& reference) { return robot.joint_jacobian(joint, reference); })
       .def(
-          "make_solver", +[](RobotType& robot) { return placo::kinematics::KinematicsSolver(robot); })
+          "make_solver", +[](RobotType& robot) { return placo::kinematics::KinematicsSolver(robot); },
+          with_custodian_and_ward_postcall<0, 1>())
       .def("add_q_noise", &RobotType::add_q_noise);
 }
 
-- 
2.43.0


From 46ea224d6b72ed7a186f613cbef55055060978e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 66/73] fix: walk objects in Python did not keep their robot
 and parameters alive

---
 bindings/expose-footsteps.cpp              |  5 +++--
 bindings/expose-walk-pattern-generator.cpp | 11 ++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/bindings/expose-footsteps.cpp b/bindings/expose-footsteps.cpp
index 1dca123..5e5e77e 100644
--- a/bindings/expose-footsteps.cpp
+++ b/bindings/expose-footsteps.cpp
@@ -96,12 +96,13 @@ void exposeFootsteps()
             return head;
           });
 
-  class__<FootstepsPlannerNaive, bases<FootstepsPlanner>>("FootstepsPlannerNaive", init<HumanoidParameters&>())
+  class__<FootstepsPlannerNaive, bases<FootstepsPlanner>>("FootstepsPlannerNaive",
+                                                          init<HumanoidParameters&>()[with_custodian_and_ward<1, 2>()])
       .def("plan", &FootstepsPlannerNaive::plan)
       .def("configure", &FootstepsPlannerNaive::configure);
 
   class__<FootstepsPlannerRepetitive, bases<FootstepsPlanner>>("FootstepsPlannerRepetitive",
-                                                               init<HumanoidParameters&>())
+                                                               init<HumanoidParameters&>()[with_custodian_and_ward<1, 2>()])
       .def("plan", &FootstepsPlannerRepetitive::plan)
       .def("configure", &FootstepsPlannerRepetitive::configure);
 
diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 13f2d0e..467c21a 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -72,7 +72,9 @@ void exposeWalkPatternGenerator()
       .def("apply_transform", &WalkPatternGenerator::Trajectory::apply_transform)
       .def("print_parts_timings", &WalkPatternGenerator::Trajectory::print_parts_timings);
 
-  class__<WalkPatternGenerator>("WalkPatternGenerator", init<HumanoidRobot&, HumanoidParameters&>())
+  class__<WalkPatternGenerator>(
+      "WalkPatternGenerator",
+      init<HumanoidRobot&, HumanoidParameters&>()[with_custodian_and_ward<1, 2, with_custodian_and_ward<1, 3>>()])
       .def("plan", &WalkPatternGenerator::plan)
       .def("replan", &WalkPatternGenerator::replan)
       .def("can_replan_supports", &WalkPatternGenerator::can_replan_supports)
@@ -110,7 +112,8 @@ void exposeWalkPatternGenerator()
   class__<WalkTasks>("WalkTasks", init<>())
       .def(
           "initialize_tasks", +[](WalkTasks& tasks, KinematicsSolver& solver,
-                                  HumanoidRobot& robot) { tasks.initialize_tasks(&solver, &robot); })
+                                  HumanoidRobot& robot) { tasks.initialize_tasks(&solver, &robot); },
+          with_custodian_and_ward<1, 2, with_custodian_and_ward<1, 3>>())
       .def(
           "update_tasks_from_trajectory", +[](WalkTasks& tasks, WalkPatternGenerator::Trajectory& trajectory,
                                               double t) { return tasks.update_tasks(trajectory, t); })
@@ -195,7 +198,9 @@ void exposeWalkPatternGenerator()
       .add_property("x", &LIPM::x, &LIPM::x)
       .add_property("y", &LIPM::y, &LIPM::y);
 
-  class__<DummyWalk>("DummyWalk", init<model::RobotWrapper&, humanoid::HumanoidParameters&>())
+  class__<DummyWalk>(
+      "DummyWalk",
+      init<model::RobotWrapper&, humanoid::HumanoidParameters&>()[with_custodian_and_ward<1, 2, with_custodian_and_ward<1, 3>>()])
       .def("reset", &DummyWalk::reset, (arg("support_left") = false))
       .def("update", &DummyWalk::update)
       .def("next_step", &DummyWalk::next_step)
-- 
2.43.0


From a2e51eb2294643a1959c8a56e77ed9de3d2c46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 67/73] fix: integrators, polynoms and LIPMs in Python did not
 keep their variables alive

---
 bindings/expose-problem.cpp                | 6 +++---
 bindings/expose-walk-pattern-generator.cpp | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/bindings/expose-problem.cpp b/bindings/expose-problem.cpp
index f06583a..e511ad8 100644
--- a/bindings/expose-problem.cpp
+++ b/bindings/expose-problem.cpp
@@ -83,8 +83,8 @@ void exposeProblem()
       .def("in_polygon_xy", &PolygonConstraint::in_polygon_xy)
       .staticmethod("in_polygon_xy");
 
-  class__<Integrator>("Integrator", init<Variable&, Expression, int, double>())
-      .def(init<Variable&, Eigen::VectorXd, Eigen::MatrixXd, double>())
+  class__<Integrator>("Integrator", init<Variable&, Expression, int, double>()[with_custodian_and_ward<1, 2>()])
+      .def(init<Variable&, Eigen::VectorXd, Eigen::MatrixXd, double>()[with_custodian_and_ward<1, 2>()])
       .def("upper_shift_matrix", &Integrator::upper_shift_matrix)
       .staticmethod("upper_shift_matrix")
       .add_property("t_start", &Integrator::t_start, &Integrator::t_start)
@@ -97,7 +97,7 @@ void exposeProblem()
       .def("value", &Integrator::value)
       .def("get_trajectory", &Integrator::get_trajectory);
 
-  class__<ProblemPolynom>("ProblemPolynom", init<Variable&>())
+  class__<ProblemPolynom>("ProblemPolynom", init<Variable&>()[with_custodian_and_ward<1, 2>()])
       .def("expr", &ProblemPolynom::expr, problem_polynom_expr_overloads())
       .def("get_polynom", &ProblemPolynom::get_polynom);
 
diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 467c21a..53f5a5d 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -173,7 +173,8 @@ void exposeWalkPatternGenerator()
       .def("dcm", &LIPM::Trajectory::dcm);
 
   class__<LIPM>("LIPM",
-                init<problem::Problem&, double, int, double, Eigen::Vector2d, Eigen::Vector2d, Eigen::Vector2d>())
+                init<problem::Problem&, double, int, double, Eigen::Vector2d, Eigen::Vector2d, Eigen::Vector2d>()
+                    [with_custodian_and_ward<1, 2>()])
       .def("compute_omega", &LIPM::compute_omega)
       .def("get_trajectory", &LIPM::get_trajectory)
       .def("pos", &LIPM::pos)
-- 
2.43.0


From 258337a85d22ac9b0de6720502e05a28d8919543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 68/73] fix: handles obtained from walk objects in Python did
 not keep them alive

---
 bindings/expose-walk-pattern-generator.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 53f5a5d..6decbd5 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -145,7 +145,7 @@ void exposeWalkPatternGenerator()
           })
       .add_property("solver", make_function(
                                   +[](WalkTasks& tasks) -> KinematicsSolver& { return *tasks.solver; },
-                                  return_value_policy<reference_existing_object>()))
+                                  return_internal_reference<>()))
       .add_property("scaled", &WalkTasks::scaled, &WalkTasks::scaled)
       .add_property("left_foot_task", &WalkTasks::left_foot_task)
       .add_property("right_foot_task", &WalkTasks::right_foot_task)
@@ -155,13 +155,13 @@ void exposeWalkPatternGenerator()
       .add_property("trunk_orientation_task",
                     make_function(
                         +[](WalkTasks& tasks) -> OrientationTask& { return *tasks.trunk_orientation_task; },
-                        return_value_policy<reference_existing_object>()))
+                        return_internal_reference<>()))
       .add_property("com_task", make_function(
                                     +[](WalkTasks& tasks) -> CoMTask& { return *tasks.com_task; },
-                                    return_value_policy<reference_existing_object>()))
+                                    return_internal_reference<>()))
       .add_property("trunk_task", make_function(
                                       +[](WalkTasks& tasks) -> PositionTask& { return *tasks.trunk_task; },
-                                      return_value_policy<reference_existing_object>()));
+                                      return_internal_reference<>()));
 
   class__<LIPM::Trajectory>("LIPMTrajectory", init<>())
       .def("pos", &LIPM::Trajectory::pos)
@@ -184,7 +184,7 @@ void exposeWalkPatternGenerator()
       .def("dcm", &LIPM::dcm)
       .def("zmp", &LIPM::zmp)
       .def("dzmp", &LIPM::dzmp)
-      .def("build_LIPM_from_previous", &LIPM::build_LIPM_from_previous)
+      .def("build_LIPM_from_previous", &LIPM::build_LIPM_from_previous, with_custodian_and_ward_postcall<0, 1>())
       .def("get_trajectory", &LIPM::get_trajectory)
       .add_property("dt", &LIPM::dt, &LIPM::dt)
       .add_property("timesteps", &LIPM::timesteps, &LIPM::timesteps)
@@ -192,10 +192,10 @@ void exposeWalkPatternGenerator()
       .add_property("t_end", &LIPM::t_end, &LIPM::t_end)
       .add_property("x_var", make_function(
                                  +[](LIPM& lipm) -> problem::Variable& { return *lipm.x_var; },
-                                 return_value_policy<reference_existing_object>()))
+                                 return_internal_reference<>()))
       .add_property("y_var", make_function(
                                  +[](LIPM& lipm) -> problem::Variable& { return *lipm.y_var; },
-                                 return_value_policy<reference_existing_object>()))
+                                 return_internal_reference<>()))
       .add_property("x", &LIPM::x, &LIPM::x)
       .add_property("y", &LIPM::y, &LIPM::y);
 
@@ -208,10 +208,10 @@ void exposeWalkPatternGenerator()
       .def("update_T_world_support", &DummyWalk::update_T_world_support)
       .add_property("robot", make_function(
                                  +[](DummyWalk& walk) -> model::RobotWrapper& { return walk.robot; },
-                                 return_value_policy<reference_existing_object>()))
+                                 return_internal_reference<>()))
       .add_property("parameters", make_function(
                                       +[](DummyWalk& walk) -> humanoid::HumanoidParameters& { return walk.parameters; },
-                                      return_value_policy<reference_existing_object>()))
+                                      return_internal_reference<>()))
       .add_property("solver", &DummyWalk::solver)
       .def_readwrite("support_left", &DummyWalk::support_left)
       .def_readwrite("lift_spline", &DummyWalk::lift_spline)
-- 
2.43.0


From 41bd10316fd4b259686ef62e41d82969ad3ac110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 69/73] fix: frame tasks in Python did not keep their solver
 alive

---
 bindings/expose-dynamics.cpp   | 7 ++++---
 bindings/expose-kinematics.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 05363ae..137cbe6 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -150,7 +150,8 @@ void exposeDynamics()
           "add_relative_orientation_task", &DynamicsSolver::add_relative_orientation_task,
           return_internal_reference<>())
       .def<RelativeFrameTask (DynamicsSolver::*)(std::string, std::string, Eigen::Affine3d)>(
-          "add_relative_frame_task", &DynamicsSolver::add_relative_frame_task)
+          "add_relative_frame_task", &DynamicsSolver::add_relative_frame_task,
+          with_custodian_and_ward_postcall<0, 1>())
       .def<JointsTask& (DynamicsSolver::*)()>("add_joints_task", &DynamicsSolver::add_joints_task,
                                               return_internal_reference<>())
       .def<TorqueTask& (DynamicsSolver::*)()>("add_torque_task", &DynamicsSolver::add_torque_task,
@@ -162,8 +163,8 @@ void exposeDynamics()
 
       .def<OrientationTask& (DynamicsSolver::*)(std::string, Eigen::Matrix3d)>(
           "add_orientation_task", &DynamicsSolver::add_orientation_task, return_internal_reference<>())
-      .def<FrameTask (DynamicsSolver::*)(std::string, Eigen::Affine3d)>("add_frame_task",
-                                                                        &DynamicsSolver::add_frame_task);
+      .def<FrameTask (DynamicsSolver::*)(std::string, Eigen::Affine3d)>(
+          "add_frame_task", &DynamicsSolver::add_frame_task, with_custodian_and_ward_postcall<0, 1>());
 
   class__<Task, bases<tools::Prioritized>, boost::noncopyable>("DynamicsTask", no_init)
       .def_readwrite("A", &Task::A)
diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index f85da87..79cacd8 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -46,10 +46,11 @@ void exposeKinematics()
               return_internal_reference<>())
 
           // Frame task
-          .def<FrameTask (KinematicsSolver::*)(std::string, Eigen::Affine3d)>("add_frame_task",
-                                                                              &KinematicsSolver::add_frame_task)
+          .def<FrameTask (KinematicsSolver::*)(std::string, Eigen::Affine3d)>(
+              "add_frame_task", &KinematicsSolver::add_frame_task, with_custodian_and_ward_postcall<0, 1>())
           .def<RelativeFrameTask (KinematicsSolver::*)(std::string, std::string, Eigen::Affine3d)>(
-              "add_relative_frame_task", &KinematicsSolver::add_relative_frame_task)
+              "add_relative_frame_task", &KinematicsSolver::add_relative_frame_task,
+              with_custodian_and_ward_postcall<0, 1>())
 
           // Axis align task
           .def<AxisAlignTask& (KinematicsSolver::*)(std::string, Eigen::Vector3d, Eigen::Vector3d)>(
-- 
2.43.0


From b28faf28b6f919effef179a233d65bb54e4de3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 70/73] fix: solvers in Python did not keep the tasks and
 constraints added to them alive

---
 bindings/expose-dynamics.cpp   | 9 ++++++---
 bindings/expose-kinematics.cpp | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 137cbe6..8271432 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -123,9 +123,12 @@ void exposeDynamics()
       .def("enable_torque_limits", &DynamicsSolver::enable_torque_limits)
       .def("dump_status", &DynamicsSolver::dump_status)
       .def("solve", &DynamicsSolver::solve, solve_overloads())
-      .def<void (DynamicsSolver::*)(Task&)>("add_task", &DynamicsSolver::add_task)
-      .def<void (DynamicsSolver::*)(Constraint&)>("add_constraint", &DynamicsSolver::add_constraint)
-      .def<void (DynamicsSolver::*)(Constraint&)>("add_constraint", &DynamicsSolver::add_constraint)
+      .def<void (DynamicsSolver::*)(Task&)>("add_task", &DynamicsSolver::add_task,
+           with_custodian_and_ward<1, 2>())
+      .def<void (DynamicsSolver::*)(Constraint&)>("add_constraint", &DynamicsSolver::add_constraint,
+           with_custodian_and_ward<1, 2>())
+      .def<void (DynamicsSolver::*)(Constraint&)>("add_constraint", &DynamicsSolver::add_constraint,
+           with_custodian_and_ward<1, 2>())
       .def("clear", &DynamicsSolver::clear)
       .def<void (DynamicsSolver::*)(Task&)>("remove_task", &DynamicsSolver::remove_task)
       .def<void (DynamicsSolver::*)(FrameTask&)>("remove_task", &DynamicsSolver::remove_task)
diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index 79cacd8..f0c9f8f 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -125,8 +125,10 @@ void exposeKinematics()
 
           .def("enable_joint_limits", &KinematicsSolver::enable_joint_limits)
           .def("enable_velocity_limits", &KinematicsSolver::enable_velocity_limits)
-          .def<void (KinematicsSolver::*)(Task&)>("add_task", &KinematicsSolver::add_task)
-          .def<void (KinematicsSolver::*)(Constraint&)>("add_constraint", &KinematicsSolver::add_constraint)
+          .def<void (KinematicsSolver::*)(Task&)>("add_task", &KinematicsSolver::add_task,
+               with_custodian_and_ward<1, 2>())
+          .def<void (KinematicsSolver::*)(Constraint&)>("add_constraint", &KinematicsSolver::add_constraint,
+               with_custodian_and_ward<1, 2>())
           .def<void (KinematicsSolver::*)(Task&)>("remove_task", &KinematicsSolver::remove_task)
           .def<void (KinematicsSolver::*)(FrameTask&)>("remove_task", &KinematicsSolver::remove_task)
           .def("remove_constraint", &KinematicsSolver::remove_constraint)
-- 
2.43.0


From 447b4e8eb3ffd2924c32bbdb0278c64a972d6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 71/73] fix: arrays read in Python from tasks, contacts and
 variables dangled after the next solve

---
 bindings/expose-dynamics.cpp   | 10 +++++-----
 bindings/expose-kinematics.cpp |  4 ++--
 bindings/expose-problem.cpp    |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 8271432..9e97fe5 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -45,7 +45,7 @@ void exposeDynamics()
       .def_readwrite("weight_forces", &Contact::weight_forces)
       .def_readwrite("weight_tangentials", &Contact::weight_tangentials)
       .def_readwrite("weight_moments", &Contact::weight_moments)
-      .def_readonly("wrench", &Contact::wrench);
+      .add_property("wrench", make_getter(&Contact::wrench, return_value_policy<return_by_value>()));
 
   class__<PointContact, bases<Contact>>("PointContact", init<PositionTask&, bool>())
       .def(
@@ -170,12 +170,12 @@ void exposeDynamics()
           "add_frame_task", &DynamicsSolver::add_frame_task, with_custodian_and_ward_postcall<0, 1>());
 
   class__<Task, bases<tools::Prioritized>, boost::noncopyable>("DynamicsTask", no_init)
-      .def_readwrite("A", &Task::A)
-      .def_readwrite("b", &Task::b)
+      .add_property("A", make_getter(&Task::A, return_value_policy<return_by_value>()), make_setter(&Task::A))
+      .add_property("b", make_getter(&Task::b, return_value_policy<return_by_value>()), make_setter(&Task::b))
       .add_property("kp", &Task::kp, &Task::kp)
       .add_property("kd", &Task::kd, &Task::kd)
-      .add_property("error", &Task::error)
-      .add_property("derror", &Task::derror);
+      .add_property("error", make_getter(&Task::error, return_value_policy<return_by_value>()))
+      .add_property("derror", make_getter(&Task::derror, return_value_policy<return_by_value>()));
 
   class__<PositionTask, bases<Task>>("DynamicsPositionTask", init<RobotWrapper::FrameIndex, Eigen::Vector3d>())
       .add_property("frame_index", &PositionTask::frame_index)
diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index f0c9f8f..1d4a0d0 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -135,8 +135,8 @@ void exposeKinematics()
           .def("solve", &KinematicsSolver::solve);
 
   class__<Task, bases<tools::Prioritized>, boost::noncopyable>("Task", no_init)
-      .def_readonly("A", &Task::A)
-      .def_readonly("b", &Task::b)
+      .add_property("A", make_getter(&Task::A, return_value_policy<return_by_value>()))
+      .add_property("b", make_getter(&Task::b, return_value_policy<return_by_value>()))
       .def("error", &Task::error)
       .def("error_norm", &Task::error_norm)
       .def("update", &Task::update);
diff --git a/bindings/expose-problem.cpp b/bindings/expose-problem.cpp
index e511ad8..cb1b3d9 100644
--- a/bindings/expose-problem.cpp
+++ b/bindings/expose-problem.cpp
@@ -113,7 +113,7 @@ void exposeProblem()
       .def("clear_variables", &Problem::clear_variables)
       .def("clear_constraints", &Problem::clear_constraints)
       .def("dump_status", &Problem::dump_status)
-      .add_property("x", &Problem::x)
+      .add_property("x", make_getter(&Problem::x, return_value_policy<return_by_value>()))
       .add_property("n_variables", &Problem::n_variables, &Problem::n_variables)
       .add_property("n_inequalities", &Problem::n_inequalities, &Problem::n_inequalities)
       .add_property("n_equalities", &Problem::n_equalities, &Problem::n_equalities)
@@ -129,7 +129,7 @@ void exposeProblem()
   class__<Variable>("Variable")
       .add_property("k_start", &Variable::k_start)
       .add_property("k_end", &Variable::k_end)
-      .add_property("value", &Variable::value)
+      .add_property("value", make_getter(&Variable::value, return_value_policy<return_by_value>()))
       .def("expr", &Variable::expr, expr_overloads());
 
   class__<Expression>("Expression")
-- 
2.43.0


From 090d3cc808e645fba92565cf0e1fc5a4f4ad0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 72/73] fix: arrays on the state of a robot in Python dangled
 after a step or a reset

---
 src/placo/kinematics/kinematics_solver.cpp | 4 +++-
 src/placo/model/robot_wrapper.cpp          | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/placo/kinematics/kinematics_solver.cpp b/src/placo/kinematics/kinematics_solver.cpp
index c06b606..77b6daf 100644
--- a/src/placo/kinematics/kinematics_solver.cpp
+++ b/src/placo/kinematics/kinematics_solver.cpp
@@ -408,7 +408,9 @@ Eigen::VectorXd KinematicsSolver::solve(bool apply)
     // Initial robot configuration
     auto q_save = robot.state.q;
 
-    robot.state.q = pinocchio::integrate(robot.model, robot.state.q, qd_sol);
+    // Copied and not moved, because Python can hold arrays on the vectors of the state
+    Eigen::VectorXd q = pinocchio::integrate(robot.model, robot.state.q, qd_sol);
+    robot.state.q = q;
     if (dt > 0)
     {
       auto qd_save = robot.state.qd;
diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 215068f..a82acd7 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -168,7 +168,9 @@ bool RobotWrapper::Distance::operator==(const Distance& other)
 
 void RobotWrapper::reset()
 {
-  state = neutral_state();
+  // Copied and not moved, because Python can hold arrays on the vectors of the state
+  State neutral = neutral_state();
+  state = neutral;
 }
 
 pinocchio::FrameIndex RobotWrapper::get_frame_index(const std::string& frame)
@@ -707,7 +709,9 @@ void RobotWrapper::integrate(double dt)
   }
 
   // Integrate velocity
-  state.q = pinocchio::integrate(model, state.q, state.qd * dt);
+  // Copied and not moved, because Python can hold arrays on the vectors of the state
+  Eigen::VectorXd q = pinocchio::integrate(model, state.q, state.qd * dt);
+  state.q = q;
 }
 
 Eigen::VectorXd RobotWrapper::static_gravity_compensation_torques(RobotWrapper::FrameIndex frameIndex)
-- 
2.43.0


From c33006f849a27b4b0285929840f0c24b7ce2df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 73/73] fix: the data of a robot was never released

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 src/placo/model/robot_wrapper.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index a82acd7..889277e 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -127,7 +127,7 @@ RobotWrapper::RobotWrapper(std::string model_directory, int flags, std::string u
   }
 
   // Creating data
-  data = new pinocchio::Data(model);
+  data = std::shared_ptr<pinocchio::Data>(new pinocchio::Data(model));
 
   // Assuming that motors with limits both equals to zero are not defined in the
   // URDF, setting them to the maximum possible value
diff --git a/src/placo/model/robot_wrapper.h b/src/placo/model/robot_wrapper.h
index 4362ea9..1d7f58d 100644
--- a/src/placo/model/robot_wrapper.h
+++ b/src/placo/model/robot_wrapper.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <memory>
 #include <Eigen/Dense>
 #include "pinocchio/algorithm/frames.hpp"
 #include "pinocchio/algorithm/joint-configuration.hpp"
@@ -698,7 +699,7 @@ public:
   /**
    * @brief Pinocchio model data
    */
-  pinocchio::Data* data;
+  std::shared_ptr<pinocchio::Data> data;
 
 protected:
   /**
-- 
2.43.0

