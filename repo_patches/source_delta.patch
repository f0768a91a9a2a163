From 834555e24bf28c9f2f62da48d851dac428d11a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 01/18] fix: Signal::at rejects times outside the signal and
 interpolates from the left

The range test could never be true (t both before the begin and after the
end), so an out-of-range query dereferenced end(); and the value between two
samples was extrapolated from the sample after `t`, with its slope.
---
 src/core/signal.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index a63f59d..b878f15 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -12,7 +12,7 @@
 namespace signal_tl::signal {
 
 Sample Signal::at(double t) const {
-  if (this->begin_time() > t && this->end_time() < t) {
+  if (this->empty() || !(this->begin_time() <= t && t <= this->end_time())) {
     throw std::invalid_argument(
         fmt::format("Signal is undefined for given time instance {}", t));
   }
@@ -25,7 +25,9 @@ Sample Signal::at(double t) const {
   if (it->time == t) {
     return *it;
   }
-  return Sample{t, it->interpolate(t), it->derivative};
+  // Interpolate from the closest sample timed before `t`.
+  const auto prev = std::prev(it);
+  return Sample{t, prev->interpolate(t), prev->derivative};
 }
 
 void Signal::push_back(Sample sample) {
-- 
2.43.0


From 0aa5f9cf6f035168aeb2cd26d350fe65cc14e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 02/18] fix: Signal::push_back rejects a NaN timestamp

NaN compares false with everything, so it passed the monotonicity test, and
so did every sample appended after it.
---
 src/core/signal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index b878f15..fcd39c2 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -32,7 +32,7 @@ Sample Signal::at(double t) const {
 
 void Signal::push_back(Sample sample) {
   if (!this->samples.empty()) {
-    if (sample.time <= this->end_time()) {
+    if (!(sample.time > this->end_time())) {
       throw std::invalid_argument(fmt::format(
           "Trying to append a Sample timestamped at or before the Signal end_time,"
           "i.e., time is not strictly monotonically increasing."
-- 
2.43.0


From 3a87d993dd201e97b34e6fc91a56fb554a1bd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 03/18] fix: the slope between two equal infinite samples is 0,
 not NaN

The robustness of a constant is +-inf at both ends of the trace; with a NaN
slope every sample interpolated in between became NaN, and a conjunction such
as And({Const(true), p}) evaluated to NaN.
---
 src/core/signal.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index fcd39c2..ee6ad1b 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -44,7 +44,8 @@ void Signal::push_back(Sample sample) {
     const auto v = this->samples.back().value;
     auto& last   = this->samples.back();
 
-    last.derivative = (sample.value - v) / (sample.time - t);
+    // Equal values, infinite ones included, have slope 0 (inf - inf is NaN).
+    last.derivative = (sample.value == v) ? 0.0 : (sample.value - v) / (sample.time - t);
   }
   this->samples.push_back(Sample{sample.time, sample.value, 0.0});
 }
-- 
2.43.0


From 7a166e3b8a76394dba9c7adf2794657333b411d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 04/18] fix: Signal::resize keeps the samples inside the range
 and fills both ends

The intermediate sample at `start` was appended once for every sample followed
by a later one, so resize threw for nearly every signal; and a signal that
ended before `end` was never extended.
---
 src/core/signal.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index ee6ad1b..9a8e069 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -72,8 +72,8 @@ SignalPtr Signal::simplify() const {
 SignalPtr Signal::resize(double start, double end, double fill) const {
   auto sig = std::make_shared<Signal>();
 
-  // Check if begin_time > start, then add filled value
-  if (this->begin_time() > start) {
+  // If the signal is not defined at `start`, then add filled value
+  if (this->empty() || this->begin_time() > start || this->end_time() < start) {
     sig->push_back(Sample{start, fill, 0.0});
   }
 
@@ -81,24 +81,29 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
   for (auto i = this->begin(); i != this->end(); i++) {
     const double t = i->time;
     // If current sample is timed below start, ...
-    if (std::next(i) != this->end() && std::next(i)->time > start) {
-      // and next sample is timed after `start`, append an intermediate value
-      sig->push_back(Sample{start, i->interpolate(start)});
-    } else if (start <= t && t <= end) {
+    if (t < start) {
+      if (std::next(i) != this->end() && std::next(i)->time > start) {
+        // and next sample is timed after `start`, append an intermediate value
+        sig->push_back(Sample{start, i->interpolate(start)});
+      }
+    } else if (t <= end) {
       // If the samples are within the desired time range, keep the samples.
       sig->push_back(*i);
-    } else if (t > end) {
+    } else {
       // If we are out of the range, ...
-      if (i != this->begin() && std::prev(i)->time < end) {
-        // and the previous sample is within the range, interpolate from the last.
+      if (i != this->begin() && sig->end_time() < end) {
+        // and the signal is defined at `end`, interpolate from the last.
         sig->push_back(Sample{end, std::prev(i)->interpolate(end)});
-      } else {
-        // TODO(anand): Does it make sense to terminate early?
-        break;
       }
+      break;
     }
   }
 
+  // If the signal is not defined at `end`, then add filled value
+  if (sig->end_time() < end) {
+    sig->push_back(Sample{end, fill, 0.0});
+  }
+
   return sig;
 }
 
-- 
2.43.0


From 4b4e2fa2794445fd38d9bcc8e847959a51a2857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 05/18] fix: synchronize signals that start at different times
 or do not overlap

The sample interpolated at begin_time was appended twice (once before the
loop, once in it), so synchronize threw unless both signals had a sample
there; the one for y read std::prev(x->begin()); and for disjoint or empty
signals it dereferenced end() and called back() on an empty vector. The loop
appends to both outputs in lockstep, so nothing is left to do after it.
---
 src/core/signal.cc | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 9a8e069..987fff8 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -130,22 +130,13 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
   auto xv = std::vector<Sample>{};
   auto yv = std::vector<Sample>{};
 
-  // Iterator to the first element where element.time <= begin_time.
-  // If the iterator begins after begin_time, get the prev (if it exists) and
-  // interpolate from it.
+  // Iterators to the first elements where element.time >= begin_time. If one of
+  // the signals has no sample at begin_time, the loop below interpolates it.
   constexpr auto comp_time = [](const Sample& a, const Sample& b) -> bool {
     return a.time < b.time;
   };
   auto i = std::lower_bound(x->begin(), x->end(), Sample{begin_time, 0.0}, comp_time);
-  if (i->time > begin_time && i != x->begin()) {
-    xv.push_back(Sample{
-        begin_time, std::prev(i)->interpolate(begin_time), std::prev(i)->derivative});
-  }
   auto j = std::lower_bound(y->begin(), y->end(), Sample{begin_time, 0.0}, comp_time);
-  if (j->time > begin_time && j != y->begin()) {
-    yv.push_back(Sample{
-        begin_time, std::prev(j)->interpolate(begin_time), std::prev(i)->derivative});
-  }
 
   // Now, we have to track the timestamps.
   while (i != x->end() && j != y->end()) {
@@ -169,14 +160,6 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
     }
   }
 
-  if (const double t = xv.back().time; yv.back().time < t) {
-    yv.push_back(Sample{xv.back().time, yv.back().interpolate(t)});
-  }
-
-  if (const double t = yv.back().time; xv.back().time < t) {
-    xv.push_back(Sample{yv.back().time, xv.back().interpolate(t)});
-  }
-
   return std::make_tuple(std::make_shared<Signal>(xv), std::make_shared<Signal>(yv));
 }
 
-- 
2.43.0


From 414d345258cee15c4264aef5d79bf37d38825948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 06/18] fix: Signal::end_at no longer dereferences end()

It started by reading end()->time, and ran off the front of the signal when
every sample was timed after `t`.
---
 src/include/signal_tl/signal.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/include/signal_tl/signal.hpp b/src/include/signal_tl/signal.hpp
index 9e1679c..9ad8f67 100644
--- a/src/include/signal_tl/signal.hpp
+++ b/src/include/signal_tl/signal.hpp
@@ -148,11 +148,9 @@ struct Signal {
     if (this->end_time() <= t)
       return this->end();
 
-    auto it = this->end();
-    while (it->time > t) it = std::prev(it);
-    // Now we have the pointer to the first element from the back whose .time <= t.
-    // So increment by 1 and return
-    return std::next(it);
+    // The first element with .time > t is the one after the last with .time <= t.
+    constexpr auto comp_op = [](double time, const Sample& s) { return time < s.time; };
+    return std::upper_bound(this->begin(), this->end(), t, comp_op);
   }
 
   /**
-- 
2.43.0


From b829ed0ddda13fc9c899dbc7738056a9442588f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 07/18] fix: never append a crossing point at or after the
 sample that follows it

Rounding can put the computed intersection after the current sample; it was
appended all the same, and appending the sample itself then threw.
---
 src/robust_semantics/minmax.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index adf3aea..3dc7560 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -41,7 +41,7 @@ SignalPtr compute_minmax_pair(
     if (comp(*i, *j)) {
       if (last_chosen == Chosen::Y) {
         double intercept_time = std::prev(j)->time_intersect(*std::prev(i));
-        if (intercept_time > out->end_time() && intercept_time != i->time) {
+        if (intercept_time > out->end_time() && intercept_time < i->time) {
           out->push_back(
               Sample{intercept_time, std::prev(j)->interpolate(intercept_time)});
         }
@@ -51,7 +51,7 @@ SignalPtr compute_minmax_pair(
     } else {
       if (last_chosen == Chosen::X) {
         double intercept_time = std::prev(i)->time_intersect(*std::prev(j));
-        if (intercept_time > out->end_time() && intercept_time != j->time) {
+        if (intercept_time > out->end_time() && intercept_time < j->time) {
           out->push_back(
               Sample{intercept_time, std::prev(i)->interpolate(intercept_time)});
         }
-- 
2.43.0


From 293645ca30632bd4671059d6dfd8c85927f0f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 08/18] fix: running min/max of an empty signal is empty

Signals with disjoint time ranges synchronize to empty ones, on which back()
is undefined.
---
 src/robust_semantics/minmax.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 3dc7560..79c29a2 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -90,6 +90,10 @@ compute_minmax_pair(const std::vector<SignalPtr>& xs, Compare comp, bool synchro
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
+  if (x->empty()) {
+    return std::make_shared<Signal>();
+  }
+
   auto opt = x->back();
   auto z   = std::vector<Sample>{};
   z.reserve(2 * x->size());
-- 
2.43.0


From cce8720dde3266882819bf96212b79774179d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 09/18] fix: conjunction with false and disjunction with true
 no longer throw

(a & b) & false built an And with the single operand false, which the And
constructor rejects; likewise (a | b) | true.
---
 src/core/ast.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index dc66ac7..d46a037 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -29,16 +29,15 @@ using utils::overloaded;
 namespace {
 
 Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs)) {
+    return (c_ptr->value) ? Expr{lhs} : Expr{*c_ptr};
+  }
+
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (!e.value) {
-              args = {Expr{e}};
-            }
-          },
           [&args](const AndPtr& e) {
             args.reserve(
                 args.size() +
@@ -50,16 +49,15 @@ Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
 }
 
 Expr OrHelper(const OrPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs)) {
+    return (!c_ptr->value) ? Expr{lhs} : Expr{*c_ptr};
+  }
+
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (e.value) {
-              args = {Expr{e}};
-            }
-          },
           [&args](const OrPtr& e) {
             args.reserve(
                 args.size() +
-- 
2.43.0


From 5ad919e9547946de88ed09bd3c28693c4dd547f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 10/18] fix: Interval rejects b <= a for integer bounds, and
 NaN bounds

Only the floating-point constructor checked the order of its bounds, and
there a NaN bound passed the check.
---
 src/include/signal_tl/ast.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index 54de00c..2e73403 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -156,11 +156,15 @@ struct Interval {
   Num high;
 
   Interval() : low{0.0}, high{std::numeric_limits<double>::infinity()} {};
-  Interval(unsigned long long int a, unsigned long long int b) : low{a}, high{b} {}
+  Interval(unsigned long long int a, unsigned long long int b) : low{a}, high{b} {
+    if (b <= a) {
+      throw std::invalid_argument("Interval [a,b] cannot have b <= a");
+    }
+  }
   Interval(double a, double b) : low{a}, high{b} {
     if (a < 0 || b < 0) {
       throw std::invalid_argument("Interval cannot have negative values");
-    } else if (b <= a) {
+    } else if (!(a < b)) {
       throw std::invalid_argument("Interval [a,b] cannot have b <= a");
     }
   }
-- 
2.43.0


From b56f051a71b9c43877c8bea08535967fe95d929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 11/18] fix: robustness of until is that of the strong until

The backward pass started from +inf and took the maximum with the negated
right operand, so that with both operands negative everywhere the robustness
came out positive. rho(x U y) = max(y, min(x, next)), with -inf at the end
(Donze and Maler 2010).
---
 src/robust_semantics/classic_robustness.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index d047c5a..c742ed3 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -38,14 +38,12 @@ SignalPtr compute_until(const SignalPtr& input_x, const SignalPtr& input_y) {
 
   // TODO(anand): This doesn't handle crossing signals well...
 
-  double prev      = TOP;
-  double max_right = BOTTOM;
+  double prev = BOTTOM;
 
   for (auto [i, j] = std::make_tuple(x->rbegin(), y->rbegin());
        i != x->rend() && j != y->rend();
        i++, j++) {
-    max_right = std::max(max_right, j->value);
-    prev      = std::max({j->value, std::min(i->value, prev), -max_right});
+    prev = std::max(j->value, std::min(i->value, prev));
     sigstack.push_back({i->time, prev});
   }
   std::reverse(sigstack.begin(), sigstack.end());
-- 
2.43.0


From fdaf5f4a43a75689ac89a4f6d2b1072dae137eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 12/18] fix: robustness of a constant over a trace with a
 single time instance

It was built from two samples with the same timestamp, which Signal rejects.
---
 src/robust_semantics/classic_robustness.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index c742ed3..6df11f1 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -104,7 +104,10 @@ SignalPtr compute_robustness(const ast::Expr& phi, const signal::Trace& trace, b
 
 SignalPtr RobustnessOp::operator()(const ast::Const e) const {
   const double val = (e.value) ? static_cast<double>(TOP) : static_cast<double>(BOTTOM);
-  auto samples     = std::vector<Sample>{{min_time, val, 0.0}, {max_time, val, 0.0}};
+  auto samples     = std::vector<Sample>{{min_time, val, 0.0}};
+  if (max_time != min_time) {
+    samples.push_back({max_time, val, 0.0});
+  }
   return std::make_shared<Signal>(samples);
 }
 
-- 
2.43.0


From 2349e2f03a8e23a2be666a95f12bc563e26f99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 13/18] fix: bounded temporal operators take their interval
 into account

Interval::has_value answered whether the interval is [0, inf) instead of
whether it is a proper bound, so G[a,b], F[a,b] and U[a,b] were evaluated (and
printed) as the unbounded operators. Behind that, the windowed minimum and
maximum emitted the input values, popped the window empty and then read its
front, and [a,b] was taken for [0,inf) whenever b - a exceeded the duration of
the signal, whatever a was.
---
 src/include/signal_tl/ast.hpp              |  4 +-
 src/robust_semantics/classic_robustness.cc |  4 +-
 src/robust_semantics/minmax.cc             | 57 ++++++++++------------
 3 files changed, 29 insertions(+), 36 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index 2e73403..c7661b3 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -194,13 +194,13 @@ struct Interval {
     return start_zero && end_inf;
   }
 
-  /// Check if the interval is [0, inf).
+  /// Check if the interval is not [0, inf).
   ///
   /// NOTE: Purely for backwards compatibility to a version of signal_tl that
   /// dealt with intervals as `std::pair<double, double>`, and the interval was
   /// stored inside an `std::optional` field in the Temporal operators.
   [[nodiscard]] bool has_value() const {
-    return this->is_zero_to_inf();
+    return !this->is_zero_to_inf();
   }
 };
 
diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 6df11f1..906b7ef 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -172,7 +172,7 @@ SignalPtr RobustnessOp::operator()(const ast::EventuallyPtr& e) const {
     throw std::logic_error("Eventually operator: b < a in interval [a,b]");
   } else if (b - a == 0) {
     return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_max_seq(y);
   } else {
     return compute_max_seq(y, a, b);
@@ -190,7 +190,7 @@ SignalPtr RobustnessOp::operator()(const ast::AlwaysPtr& e) const {
     throw std::logic_error("Always operator: b < a in interval [a,b]");
   } else if (b - a == 0) {
     return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_min_seq(y);
   } else {
     return compute_min_seq(y, a, b);
diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 79c29a2..4752a46 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -110,42 +110,35 @@ SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, double a, double b, Compare comp) {
-  const auto width      = b - a;
-  const auto begin_time = x->begin_time();
-  const auto end_time   = x->end_time();
-
-  auto x_ = (a == 0)
-                ? x
-                : x->resize_shift(
-                      begin_time + width, end_time + width, x->back().value, -width);
-
-  auto z       = std::make_shared<Signal>();
-  auto samples = std::deque<Sample>{x_->begin(), x_->end()};
-  auto window  = std::deque<Sample>{};
-
-  auto i = std::begin(samples);
-  // -- Read in values in [0, width)
-  for (; i->time < x->begin_time() + width; i++) {
-    mono_wedge::mono_wedge_update(window, *i, comp);
-  }
+  const auto end_time = x->end_time();
+
+  auto z      = std::vector<Sample>{};
+  auto window = std::deque<Sample>{};
+  z.reserve(x->size());
+
+  auto j = x->begin();
+  for (const auto& sample : *x) {
+    // The window is [lo, hi]. Past the end of the signal, its last value holds.
+    const auto lo = std::min(sample.time + a, end_time);
+    const auto hi = std::min(sample.time + b, end_time);
 
-  // -- Stream in the rest of the signal.
-  for (; i != samples.end(); i++) {
-    if (i->time - a > window.front().time) {
-      // Add the sample for time M.front + a
-      i = samples.insert(
-          i,
-          Sample{
-              window.front().time + a,
-              std::prev(i)->interpolate(window.front().time + a),
-              0.0});
+    // -- Read in the samples up to hi, and forget the ones before lo.
+    for (; j != x->end() && j->time <= hi; j++) {
+      mono_wedge::mono_wedge_update(window, *j, comp);
     }
-    mono_wedge::mono_wedge_update(window, *i, comp);
-    while (window.front().time <= i->time - a) { window.pop_front(); }
-    z->push_back(i->time, i->value);
+    while (!window.empty() && window.front().time < lo) { window.pop_front(); }
+
+    // -- The signal is linear in between, so only the ends of the window remain.
+    const auto first = x->at(lo);
+    const auto last  = x->at(hi);
+    auto opt         = (comp(first, last)) ? first : last;
+    if (!window.empty() && comp(window.front(), opt)) {
+      opt = window.front();
+    }
+    z.push_back({sample.time, opt.value});
   }
 
-  return z->simplify();
+  return std::make_shared<Signal>(z);
 }
 
 SignalPtr
-- 
2.43.0


From 44abafe997f48d23bfe8662eeb476f7fed2662d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 14/18] fix: parse predicates of the form (< 5 x)

The comparison was read from the state after it had been moved out of it, so
every predicate with the constant first failed with bad_optional_access.
---
 src/parser/actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 4db8b4b..f224d20 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -209,7 +209,7 @@ struct action<PredicateTerm> {
 
     if (state.predicate_type == PredicateType::TWO) {
       // For Type TWO, we need to flip the direction of the comparison
-      switch (state.comparison_type.value()) {
+      switch (comparison_type) {
         case ast::ComparisonOp::LT:
           comparison_type = ast::ComparisonOp::GT;
           break;
-- 
2.43.0


From 90b48f1573d7b805796ced10ee010ade9a19866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 15/18] fix: a parenthesised term holds exactly one expression

TermTail accepted any number of expressions: in (not a > x 5) the first one
was dropped silently, while ((> x 5)) was rejected with "should be
unreachable". The error message of the rule already asks for one expression
followed by a closing parenthesis.
---
 src/parser/actions.hpp | 3 +++
 src/parser/grammar.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index f224d20..42725f2 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -437,6 +437,9 @@ struct action<Term> {
       // Copy the pointer to the formula with the corresponding id
       state.terms.push_back(global_state.formulas.at(state.identifiers.back()));
       state.identifiers.pop_back();
+    } else if (state.terms.size() == 1) {
+      // The Term was a Term in parentheses, which has already been moved onto the
+      // vector of terms.
     } else {
       // Otherwise, it doesn't make sense that there are no results, as this
       // means that the parser failed. This should be unreachable.
diff --git a/src/parser/grammar.hpp b/src/parser/grammar.hpp
index 847a0b6..c6ac02f 100644
--- a/src/parser/grammar.hpp
+++ b/src/parser/grammar.hpp
@@ -157,7 +157,7 @@ using Expression = peg::sor<
     UntilTerm,
     Term>;
 
-using TermTail = peg::until<RParen, Expression>;
+using TermTail = peg::seq<Expression, RParen>;
 struct Term : peg::sor<peg::if_must<LParen, TermTail>, BooleanLiteral, Identifier> {};
 
 struct Assertion : peg::if_must<KwAssert, Identifier, Term> {};
-- 
2.43.0


From 55964da6332e4b33d50ebc789e362e9c39aa6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 16/18] fix: printed formulas are unambiguous

Until was printed without parentheses, so G (a U b) and (G a) U b looked the
same; and the half-open interval was misspelled for G and closed for F.
---
 src/include/signal_tl/fmt.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/signal_tl/fmt.hpp b/src/include/signal_tl/fmt.hpp
index 31136fb..41f64b7 100644
--- a/src/include/signal_tl/fmt.hpp
+++ b/src/include/signal_tl/fmt.hpp
@@ -92,7 +92,7 @@ struct fmt::formatter<signal_tl::ast::Always>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "G[{}, int) {}", a, e.arg);
+        return format_to(ctx.out(), "G[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "G[{},{}] {}", a, b, e.arg);
     }
@@ -108,7 +108,7 @@ struct fmt::formatter<signal_tl::ast::Eventually>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "F[{}, inf] {}", a, e.arg);
+        return format_to(ctx.out(), "F[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "F[{},{}] {}", a, b, e.arg);
     }
@@ -125,11 +125,11 @@ struct fmt::formatter<signal_tl::ast::Until>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "{} U[{}, inf) {}", e1, a, e2);
+        return format_to(ctx.out(), "({} U[{}, inf) {})", e1, a, e2);
       }
-      return format_to(ctx.out(), "{} U[{},{}] {}", e1, a, b, e2);
+      return format_to(ctx.out(), "({} U[{},{}] {})", e1, a, b, e2);
     }
-    return format_to(ctx.out(), "{} U {}", e1, e2);
+    return format_to(ctx.out(), "({} U {})", e1, e2);
   }
 };
 
-- 
2.43.0


From 5e8dc43cbe97be5e547e06042a9c5e6cf03fc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 17/18] fix: define the functions the public headers only
 declared

operator>> (implication) and the accessors of Specification were declared and
documented, but any use of them failed to link.
---
 src/core/ast.cc      |  4 ++++
 src/parser/parser.cc | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index d46a037..67830ed 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -88,6 +88,10 @@ Expr operator|(const Expr& lhs, const Expr& rhs) {
   return std::make_shared<Or>(std::vector{lhs, rhs});
 }
 
+Expr operator>>(const Expr& lhs, const Expr& rhs) {
+  return (~lhs) | rhs;
+}
+
 Expr operator~(const Expr& expr) {
   if (const auto e = std::get_if<Const>(&expr)) {
     return Const{!(*e).value};
diff --git a/src/parser/parser.cc b/src/parser/parser.cc
index 248a4ea..3c6541b 100644
--- a/src/parser/parser.cc
+++ b/src/parser/parser.cc
@@ -42,6 +42,30 @@ std::unique_ptr<Specification> _parse(ParseInput&& input) {
 }
 } // namespace
 
+namespace signal_tl {
+
+void Specification::add_formula(const std::string& id, ast::Expr phi) {
+  if (!this->formulas.insert({id, std::move(phi)}).second) {
+    throw std::invalid_argument("possible redefinition of Formula with id: " + id);
+  }
+}
+
+void Specification::add_assertion(const std::string& id, ast::Expr phi) {
+  if (!this->assertions.insert({id, std::move(phi)}).second) {
+    throw std::invalid_argument("possible redefinition of Assertion with id: " + id);
+  }
+}
+
+ast::Expr Specification::get_formula(std::string_view id) {
+  return this->formulas.at(std::string{id});
+}
+
+ast::Expr Specification::get_assertion(std::string_view id) {
+  return this->assertions.at(std::string{id});
+}
+
+} // namespace signal_tl
+
 namespace signal_tl::parser {
 
 std::unique_ptr<Specification> from_string(std::string_view input) {
-- 
2.43.0


From 316e2a0b6b2be493a220a2a0c2bcd40998ac3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 18/18] fix: parse real numerals independently of the host
 program's locale

---
 src/parser/actions.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 42725f2..fa9bfab 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -11,9 +11,13 @@
 
 // #define NDEBUG
 #include <cassert>
+#include <locale>
 #include <map>
 #include <memory>
 #include <optional>
+#include <sstream>
+#include <stdexcept>
+#include <string>
 #include <variant>
 #include <vector>
 
@@ -136,7 +140,14 @@ template <>
 struct action<DoubleLiteral> {
   template <typename ActionInput>
   static void apply(const ActionInput& in, GlobalParserState&, ParserState& state) {
-    double val             = std::stod(in.string());
+    // Unlike `std::stod`, don't let the locale of the host program choose the
+    // decimal point.
+    std::istringstream is{in.string()};
+    is.imbue(std::locale::classic());
+    double val = 0.0;
+    if (!(is >> val)) {
+      throw std::out_of_range("Number is out of range: " + in.string());
+    }
     state.primitive_result = PrimitiveState(val);
   }
 };
-- 
2.43.0

