From 3fa7dc3cba53c3641c7b319f39e0e0d135904c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:48 +0000
Subject: [PATCH 01/35] fix: Zone::intersectionAssign discarded the
 intersection it computed

---
 libmonaa/zone.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index e7d80e9..9677588 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -206,6 +206,6 @@ struct Zone {
 
   void intersectionAssign(Zone z) {
     assert(value.size() == z.value.size());
-    value.cwiseMin(z.value);
+    value = value.cwiseMin(z.value).eval();
   }
 };
-- 
2.43.0


From 407eedee8aa14837c26947f033cc82d03c10672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:48 +0000
Subject: [PATCH 02/35] fix: Zone::makeGuard dropped positive lower bounds
 (wrong sign of the matrix entry)

---
 libmonaa/zone.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 9677588..50d63aa 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -178,13 +178,13 @@ struct Zone {
     for (int i = 0; i < getNumOfVar(); ++i) {
       // the second element of Bound is true if the constraint is not strict,
       // i.e., LE or GE.
+      // value(0, i + 1) bounds 0 - x_i, i.e., it is the negated lower bound
       Bounds lowerBound = value(0, i + 1);
-      if (lowerBound.first > 0 or
-          (lowerBound.first == 0 and lowerBound.second == false)) {
+      if (lowerBound < Bounds(0, true)) {
         if (lowerBound.second) {
-          guard.push_back(ConstraintMaker(i) >= lowerBound.first);
+          guard.push_back(ConstraintMaker(i) >= -lowerBound.first);
         } else {
-          guard.push_back(ConstraintMaker(i) > lowerBound.first);
+          guard.push_back(ConstraintMaker(i) > -lowerBound.first);
         }
       }
       Bounds upperBound = value(i + 1, 0);
-- 
2.43.0


From f392b6085a9d56000ac09339c1179d77f094b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:48 +0000
Subject: [PATCH 03/35] fix: the intersection of an open and a closed lower
 bound at the same point is open

---
 libmonaa/interval.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index b9142e2..7fadd77 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -96,7 +96,12 @@ struct Interval {
 
 //! @brief The intersection of two intervals
 inline static Interval operator&&(const Interval &left, const Interval &right) {
-  Interval ret = Interval{std::max(left.lowerBound, right.lowerBound),
+  // A closed lower bound is weaker than the open one at the same point
+  const auto weakerLower = [](const Bounds &a, const Bounds &b) {
+    return a.first < b.first or
+           (a.first == b.first and a.second and not b.second);
+  };
+  Interval ret = Interval{std::max(left.lowerBound, right.lowerBound, weakerLower),
                           std::min(left.upperBound, right.upperBound)};
   return ret;
 }
-- 
2.43.0


From 6d27b23b9276f54693aaa20084baaf45e448c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:35 +0000
Subject: [PATCH 04/35] fix: an incomplete text record was delivered as an
 event with an undefined time

---
 libmonaa/lazy_deque.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 6606572..e7b6d3d 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -10,7 +10,9 @@
 #include "common_types.hh"
 
 static inline int getOne(FILE *file, std::pair<Alphabet, double> &p) {
-  return fscanf(file, " %c %lf\n", &p.first, &p.second);
+  const int fields = fscanf(file, " %c %lf\n", &p.first, &p.second);
+  // an incomplete record is not an event
+  return fields == 2 ? fields : EOF;
 }
 
 static inline int getOneBinary(FILE *file, std::pair<Alphabet, double> &p) {
-- 
2.43.0


From 67d751187cc6aa15a87053518c35e4a50dba0243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:48 +0000
Subject: [PATCH 05/35] fix: the KMP skip values were computed from edges of a
 vector that was growing

---
 libmonaa/kmp_skip_value.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 32f3a3b..d4bb01f 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -64,15 +64,17 @@ public:
     }
     for (auto &state : A0.states) {
       for (auto & it : state->next) {
+        std::vector<TATransition> dummyEdges;
         for (TATransition edge : it.second) {
           const auto target = edge.target;
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
             widen(edge.guard);
-            it.second.emplace_back(std::move(edge));
+            dummyEdges.emplace_back(std::move(edge));
           }
         }
+        it.second.insert(it.second.end(), dummyEdges.begin(), dummyEdges.end());
       }
     }
     A0.states.reserve(A0.states.size() + 1 + (m + 1));
-- 
2.43.0


From 4d0382c1fd361e9bbfc56b56319032ca782d1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 06/35] fix: a time restriction appended to the transitions it
 was iterating over

---
 monaa/tre.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5614a20..232f15f 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -309,6 +309,7 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     }
     for (auto state : out.states) {
       for (auto &edges : state->next) {
+        std::vector<TATransition> newTransitions;
         for (auto &edge : edges.second) {
           auto target = edge.target;
           if (target && target->isMatch) {
@@ -358,10 +359,12 @@ void TRE::toEventTA(TimedAutomaton &out) const {
                     TimedAutomaton::X(out.clockSize()) >
                     regExprWithin.second->lowerBound.first);
               }
-              edges.second.emplace_back(std::move(transition));
+              newTransitions.emplace_back(std::move(transition));
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
-- 
2.43.0


From 487a480ead6f9de09abfbbaec13777128a19cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 07/35] fix: clocks reset by a silent step were taken to be
 reset at time 0

---
 libmonaa/monaa.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index beb1c73..0860ba4 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -594,10 +594,10 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
                 continue;
               }
               IntermediateZone tmpZ = econfig.z;
-              ClockVariables newClock = 0;
-              tmpZ.alloc({word[j].second, true},
-                         ((j > 0) ? Bounds{-word[j - 1].second, false}
-                                  : Bounds{0, true}));
+              const ClockVariables newClock = tmpZ.alloc(
+                  {word[j].second, true},
+                  ((j > 0) ? Bounds{-word[j - 1].second, false}
+                           : Bounds{0, true}));
               tmpZ.tighten(edge.guard, econfig.resetTime);
               if (tmpZ.isSatisfiableCanonized()) {
                 auto tmpResetTime = econfig.resetTime;
-- 
2.43.0


From eefec548a6842c1358039d9f2d836f4992988217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 08/35] fix: the lower end bound of a match ending without $
 had the wrong sign

---
 libmonaa/monaa.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 0860ba4..e356946 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -1494,7 +1494,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
               //            std::move(lowerBeginConstraint));
 
               const Bounds upperEndConstraint = {t, true};
-              const Bounds lowerEndConstraint = {t, true};
+              const Bounds lowerEndConstraint = {-t, true};
 
               // value(2, 1) <= value(2, 0) + value(0, 1)
               const Bounds upperDeltaConstraint =
-- 
2.43.0


From 7ac38ab9e209f00f39873e05d4e0c9f3f3e99ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 09/35] fix: initial states were looked up by binary search
 although they are not sorted

---
 libmonaa/monaa.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index e356946..6efdc1a 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -709,7 +709,8 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv.at(s.get()));
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv.at(s.get()));
     }
   }
@@ -1177,7 +1178,8 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv[s.get()]);
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv[s.get()]);
     }
   }
-- 
2.43.0


From 95a386333cec2446e4880411da859ee6bff57636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 10/35] fix: an unbounded time restriction became an upper
 guard with an undefined constant

The recorded maximal constant also has to cover the lower bound.
---
 monaa/intermediate_tre.cc | 11 +++++++++--
 monaa/tre.cc              | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index def2a50..aeea08c 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -5,6 +5,7 @@
 #include "intermediate_tre.hh"
 
 #include <algorithm>
+#include <cmath>
 #include <list>
 #include <memory>
 #include <numeric>
@@ -604,7 +605,9 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
             transition.target = dummyAcceptingState.get();
             transition.guard.reserve(transition.guard.size() + 2);
             // upper bound
-            if (within.second->upperBound.second) {
+            if (std::isinf(within.second->upperBound.first)) {
+              // no upper bound
+            } else if (within.second->upperBound.second) {
               transition.guard.emplace_back(
                   TimedAutomaton::X(out.clockSize()) <=
                   within.second->upperBound.first);
@@ -633,7 +636,11 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     out.states.reserve(out.stateSize() + 2);
     out.states.emplace_back(std::move(dummyInitialState));
     out.states.emplace_back(std::move(dummyAcceptingState));
-    out.maxConstraints.emplace_back(within.second->upperBound.first);
+    out.maxConstraints.emplace_back(std::max(
+        within.second->lowerBound.first,
+        std::isinf(within.second->upperBound.first)
+            ? 0.0
+            : within.second->upperBound.first));
     break;
   }
   }
diff --git a/monaa/tre.cc b/monaa/tre.cc
index 232f15f..668724f 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <numeric>
 #include <ostream>
 
@@ -318,7 +319,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
             if (target->next.empty()) {
               edge.guard.reserve(edge.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // no upper bound
+              } else if (regExprWithin.second->upperBound.second) {
                 edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <=
                                         regExprWithin.second->upperBound.first);
               } else {
@@ -340,7 +343,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 
               transition.guard.reserve(transition.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // no upper bound
+              } else if (regExprWithin.second->upperBound.second) {
                 transition.guard.emplace_back(
                     TimedAutomaton::X(out.clockSize()) <=
                     regExprWithin.second->upperBound.first);
@@ -375,7 +380,11 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
-    out.maxConstraints.emplace_back(regExprWithin.second->upperBound.first);
+    out.maxConstraints.emplace_back(std::max(
+        regExprWithin.second->lowerBound.first,
+        std::isinf(regExprWithin.second->upperBound.first)
+            ? 0.0
+            : regExprWithin.second->upperBound.first));
     break;
   }
   }
-- 
2.43.0


From 6b769f2ec1466efe1a4a8727941b121ba086a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 11/35] fix: a repetition in signal mode copied transitions
 while iterating and never looped back

---
 monaa/intermediate_tre.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index aeea08c..ec6a055 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -551,18 +551,22 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     expr->toSignalTA(out);
     for (auto &s : out.states) {
       for (auto &edges : s->next) {
-        for (auto &edge : edges.second) {
+        std::vector<TATransition> newTransitions;
+        for (const auto &edge : edges.second) {
           TAState *target = edge.target;
           if (target && target->isMatch) {
-            edges.second.reserve(edges.second.size() +
-                                 out.initialStates.size());
-            for (auto initState : out.initialStates) {
+            for (const auto &initState : out.initialStates) {
               TATransition transition = edge;
-              edge.target = target;
-              edges.second.emplace_back(std::move(transition));
+              transition.target = initState.get();
+              for (std::size_t clock = 0; clock < out.clockSize(); clock++) {
+                transition.resetVars.push_back(clock);
+              }
+              newTransitions.emplace_back(std::move(transition));
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     break;
-- 
2.43.0


From a1057f44563faac2dbce3a80457b86ed16ffe928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 12/35] fix: a time restriction in signal mode measured from
 the end of the first segment

The dummy initial state also had no transition to the accepting state.
---
 monaa/intermediate_tre.cc | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index ec6a055..f6e3635 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -583,20 +583,6 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
   }
   case op::within: {
     within.first->toSignalTA(out);
-    // add dummy initial state
-    std::shared_ptr<TAState> dummyInitialState = std::make_shared<TAState>();
-    for (auto initialState : out.initialStates) {
-      for (const auto &initTransitionsPair : initialState->next) {
-        const Alphabet c = initTransitionsPair.first;
-        dummyInitialState->next[c].reserve(dummyInitialState->next[c].size() +
-                                           initTransitionsPair.second.size());
-        for (auto &edge : initTransitionsPair.second) {
-          TATransition transition = edge;
-          transition.resetVars.push_back(out.clockSize());
-          dummyInitialState->next[c].emplace_back(std::move(transition));
-        }
-      }
-    }
     // add dummy accepting state
     std::shared_ptr<TAState> dummyAcceptingState = std::make_shared<TAState>();
     dummyAcceptingState->isMatch = true;
@@ -636,9 +622,6 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     for (auto state : out.states) {
       state->isMatch = false;
     }
-    out.initialStates = {dummyInitialState};
-    out.states.reserve(out.stateSize() + 2);
-    out.states.emplace_back(std::move(dummyInitialState));
     out.states.emplace_back(std::move(dummyAcceptingState));
     out.maxConstraints.emplace_back(std::max(
         within.second->lowerBound.first,
-- 
2.43.0


From 6d3b104561476e613ddb925ce0b3fedf4fe0f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 13/35] fix: a time restriction in signal mode appended to the
 transitions it was iterating over

---
 monaa/intermediate_tre.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index f6e3635..86bbb90 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -588,7 +588,8 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     dummyAcceptingState->isMatch = true;
     for (auto state : out.states) {
       for (auto &edges : state->next) {
-        for (auto &edge : edges.second) {
+        std::vector<TATransition> newTransitions;
+        for (const auto &edge : edges.second) {
           auto target = edge.target;
           if (target && target->isMatch) {
             TATransition transition = edge;
@@ -614,9 +615,11 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
               transition.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >
                                             within.second->lowerBound.first);
             }
-            edges.second.emplace_back(std::move(transition));
+            newTransitions.emplace_back(std::move(transition));
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
-- 
2.43.0


From f7dd7ee4081c2c265b7edba4cd836175c052e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 14/35] fix: the product built for a conjunction in signal mode
 was thrown away

---
 monaa/intermediate_tre.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 86bbb90..bcd10cd 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -645,6 +645,7 @@ void DNFTRE::toSignalTA(TimedAutomaton &out) const {
       TimedAutomaton tmpTA, TA2;
       (*it)->toSignalTA(tmpTA);
       intersectionSignalTA(another, tmpTA, TA2);
+      another = std::move(TA2);
     }
     out.states.insert(out.states.end(), another.states.begin(),
                       another.states.end());
-- 
2.43.0


From a5257e4278e3bd6a9f9e7795c7176a423e7e649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 15/35] fix: the normalisation of a conjunction in signal mode
 did not terminate

---
 monaa/intermediate_tre.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index bcd10cd..0e6f0de 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -362,7 +362,7 @@ void DNFTRE::toNormalForm() {
     auto it = conjunctions.begin();
     decisions.push_back(
         std::make_shared<SyntacticDecision>(*((*it)->decision)));
-    for (it++; it != conjunctions.end();) {
+    for (it++; it != conjunctions.end(); it++) {
       decisions.back()->tag =
           (decisions.back()->tag == SyntacticDecision::Decision::Constant ||
            (*it)->decision->tag == SyntacticDecision::Decision::Constant)
-- 
2.43.0


From 73df0fb35f0da14bdd38a25105c00b2cc92d85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:59 +0000
Subject: [PATCH 16/35] fix: a concatenation with the empty word assigned to a
 destroyed union member

---
 monaa/intermediate_tre.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monaa/intermediate_tre.hh b/monaa/intermediate_tre.hh
index 5b6e041..a998076 100644
--- a/monaa/intermediate_tre.hh
+++ b/monaa/intermediate_tre.hh
@@ -140,22 +140,24 @@ public:
       list.~list();
       switch (tag) {
       case op::singleton: {
-        singleton = origExpr->singleton;
+        new (&singleton) std::shared_ptr<SingletonTRE>(origExpr->singleton);
         break;
       }
       case op::epsilon: {
         break;
       }
       case op::concat: {
-        list = origExpr->list;
+        new (&list) std::list<std::shared_ptr<AtomicTRE>>(origExpr->list);
         break;
       }
       case op::plus: {
-        expr = origExpr->expr;
+        new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         break;
       }
       case op::within: {
-        within = origExpr->within;
+        new (&within)
+            std::pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>(
+                origExpr->within);
         break;
       }
       }
-- 
2.43.0


From 74b9c4013eb889113f56f79b7a5864bfe8524c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:59 +0000
Subject: [PATCH 17/35] fix: a restricted separated repetition kept its old
 kind and assigned to a destroyed union member

---
 monaa/intermediate_tre.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 0e6f0de..e996452 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -310,7 +310,8 @@ void AtomicTRE::toNormalForm() {
         auto origExpr = within.first;
         auto origInterval = within.second;
         within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
-        expr = origExpr->expr;
+        tag = op::plus;
+        new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         for (auto &conjunctions : expr->list) {
           for (auto &tmpExpr : conjunctions) {
             tmpExpr = std::make_shared<AtomicTRE>(tmpExpr, origInterval);
-- 
2.43.0


From 694fedc634cae8b53e44aa049029c05732f7f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:59 +0000
Subject: [PATCH 18/35] fix: merging equal letters changed an atom that other
 disjuncts still use

---
 monaa/intermediate_tre.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index e996452..613899e 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -172,7 +172,12 @@ void AtomicTRE::toNormalForm() {
                  std::next(it) != list.end() &&
                  (*std::next(it))->tag == AtomicTRE::op::singleton &&
                  (*it)->singleton->c == (*std::next(it))->singleton->c) {
-        (*it)->singleton->intervals += (*std::next(it))->singleton->intervals;
+        // the atom can be shared with the other disjuncts
+        auto merged = std::make_shared<AtomicTRE>(
+            std::make_shared<SingletonTRE>(*((*it)->singleton)));
+        merged->decision = (*it)->decision;
+        merged->singleton->intervals += (*std::next(it))->singleton->intervals;
+        *it = merged;
         list.erase(std::next(it));
       } else {
         it++;
-- 
2.43.0


From 93036d4d1a61c369430acf58213ddf024dbd4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:59 +0000
Subject: [PATCH 19/35] fix: the part in front of a separated repetition lost
 its last element

---
 monaa/intermediate_tre.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 613899e..4fde610 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -219,8 +219,7 @@ void AtomicTRE::toNormalForm() {
       if (it != list.end()) {
         // when the subformula is splitted (not plus anymore)
         // propergate within
-        std::list<std::shared_ptr<AtomicTRE>> prevList = {list.begin(),
-                                                          std::prev(it)};
+        std::list<std::shared_ptr<AtomicTRE>> prevList = {list.begin(), it};
         std::list<std::shared_ptr<AtomicTRE>> afterList = {std::next(it),
                                                            list.end()};
         auto origDecision = (*it)->decision;
@@ -348,8 +347,7 @@ void DNFTRE::toNormalForm() {
     // When plus and mixed, we execute sparation
     if (itc != it->end()) {
       std::shared_ptr<AtomicTRE> expr = *itc;
-      std::list<std::shared_ptr<AtomicTRE>> others = {it->begin(),
-                                                      std::prev(itc)};
+      std::list<std::shared_ptr<AtomicTRE>> others = {it->begin(), itc};
       others.insert(others.end(), std::next(itc), it->end());
       for (auto &subExpr : expr->expr->list) {
         subExpr.insert(subExpr.end(), others.begin(), others.end());
-- 
2.43.0


From 380014d7c972d2f63b46c3f439e4f6ea6829588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:59 +0000
Subject: [PATCH 20/35] fix: the letters of states of earlier automata were
 remembered when translating the next one

---
 monaa/tre.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 668724f..d126548 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -447,8 +447,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 //! rename to epsilon transitions
 void renameToEpsilonTransitions(TimedAutomaton &out) {
   std::unordered_map<TAState *, std::shared_ptr<TAState>> toAccepting;
-  const auto haveToChangeToEpsilon = [](const TAState *s, const Alphabet c) {
-    static std::unordered_map<const TAState *, Alphabet> output;
+  std::unordered_map<const TAState *, Alphabet> output;
+  const auto haveToChangeToEpsilon = [&output](const TAState *s,
+                                               const Alphabet c) {
     if (c != 0) {
       if (s->next.find(c) != s->next.end()) {
         output[s] = c;
-- 
2.43.0


From 9d81ac4f1c7dbe3f39885505c5b486744dab75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:59 +0000
Subject: [PATCH 21/35] fix: silent transitions were added to the map of
 transitions while iterating over it

---
 monaa/tre.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index d126548..5feeebc 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -461,6 +461,7 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
     return false;
   };
   for (auto s : out.states) {
+    std::vector<TATransition> epsilonTransitions;
     for (auto &transitionsPair : s->next) {
       const Alphabet c = transitionsPair.first;
       for (auto it = transitionsPair.second.begin();
@@ -468,7 +469,7 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
         TAState *target = it->target;
         if (target) {
           if (haveToChangeToEpsilon(target, c)) {
-            s->next[0].push_back(*it);
+            epsilonTransitions.push_back(*it);
             if (target->isMatch) {
               auto ret = toAccepting.find(target);
               if (ret == toAccepting.end()) {
@@ -486,6 +487,10 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
         }
       }
     }
+    if (!epsilonTransitions.empty()) {
+      s->next[0].insert(s->next[0].end(), epsilonTransitions.begin(),
+                        epsilonTransitions.end());
+    }
   }
 
   for (const auto &pair : toAccepting) {
-- 
2.43.0


From b521d870c17211b149bbe54a4e01b025674667c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:59 +0000
Subject: [PATCH 22/35] fix: the number of clocks of the first pattern was used
 for every later pattern

---
 libmonaa/monaa.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 6efdc1a..a57dce1 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -75,10 +75,8 @@ struct InternalState {
   InternalState(const std::size_t numOfVar, const TAState *s,
                 const Interval &interval)
       : s(std::move(s)), z(std::move(interval)) {
-    static const std::vector<boost::variant<double, ClockVariables>>
-        zeroResetTime(numOfVar, ClockVariables(1));
     // Every clock variables are reset at t1 ( = t)
-    resetTime = zeroResetTime;
+    resetTime.assign(numOfVar, ClockVariables(1));
   }
 };
 
-- 
2.43.0


From 1a7a00025b46993a958b246c14e1e484a27a0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:09 +0000
Subject: [PATCH 23/35] fix: the product construction inserted empty silent
 transition lists into its operands

---
 libmonaa/intersection.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libmonaa/intersection.cc b/libmonaa/intersection.cc
index e952b90..e29cdf3 100644
--- a/libmonaa/intersection.cc
+++ b/libmonaa/intersection.cc
@@ -1,4 +1,12 @@
 #include "intersection.hh"
+
+//! @brief The silent transitions of a state. The state is not modified even if it has none.
+static const std::vector<TATransition> &silentTransitions(const TAState &s) {
+  static const std::vector<TATransition> noTransitions;
+  const auto it = s.next.find(0);
+  return it == s.next.end() ? noTransitions : it->second;
+}
+
 /*
   Specifications
   ==============
@@ -88,7 +96,7 @@ void intersectionTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         continue;
       }
       // Epsilon transitions
-      for (const auto &e1 : s1->next[0]) {
+      for (const auto &e1 : silentTransitions(*s1)) {
         auto nextS1 = e1.target;
         if (!nextS1) {
           continue;
@@ -96,7 +104,7 @@ void intersectionTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         addProductTransition(s1.get(), s2.get(), nextS1, s2.get(), e1,
                              emptyTransition, 0);
       }
-      for (const auto &e2 : s2->next[0]) {
+      for (const auto &e2 : silentTransitions(*s2)) {
         auto nextS2 = e2.target;
         if (!nextS2) {
           continue;
@@ -243,7 +251,7 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         continue;
       }
       // Epsilon transitions
-      for (const auto &e1 : s1->next[0]) {
+      for (const auto &e1 : silentTransitions(*s1)) {
         auto nextS1 = e1.target;
         if (!nextS1) {
           continue;
@@ -251,7 +259,7 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
         addProductTransition(s1.get(), s2.get(), nextS1, s2.get(), e1,
                              emptyTransition, 0);
       }
-      for (const auto &e2 : s2->next[0]) {
+      for (const auto &e2 : silentTransitions(*s2)) {
         auto nextS2 = e2.target;
         if (!nextS2) {
           continue;
-- 
2.43.0


From 000de12fefbf7d635ab307165ada472dd5e0a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 24/35] fix: merging accepting states gave the state of the
 empty word incoming transitions

---
 monaa/tre.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5feeebc..7622a1b 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -391,7 +391,8 @@ void TRE::toEventTA(TimedAutomaton &out) const {
   // Merge accepting states w/o outgoing transitions
   std::vector<std::shared_ptr<TAState>> terminalAcceptingStates;
   for (auto &s : out.states) {
-    if (s->isMatch && s->next.empty()) {
+    // A zero duration state stands for the empty word, so it cannot be the target of a transition.
+    if (s->isMatch && s->next.empty() && !s->zeroDuration) {
       terminalAcceptingStates.push_back(s);
     }
   }
-- 
2.43.0


From 9344bd35ccba5cb690635d6c34ee8bbe5e9af3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:38 +0000
Subject: [PATCH 25/35] fix: the product construction made transitions without
 a target for pairs that are not states of it

---
 libmonaa/intersection.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libmonaa/intersection.cc b/libmonaa/intersection.cc
index e29cdf3..739b15d 100644
--- a/libmonaa/intersection.cc
+++ b/libmonaa/intersection.cc
@@ -62,8 +62,13 @@ void intersectionTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
                                         TAState *nextS1, TAState *nextS2,
                                         const TATransition &e1,
                                         const TATransition &e2, char c) {
+    const auto target = toIState.find(std::make_pair(nextS1, nextS2));
+    if (target == toIState.end()) {
+      // the pair is not a state of the product
+      return;
+    }
     TATransition transition;
-    transition.target = toIState[std::make_pair(nextS1, nextS2)].get();
+    transition.target = target->second.get();
 
     // concat resetVars
     transition.resetVars.reserve(e1.resetVars.size() + e2.resetVars.size());
@@ -217,8 +222,13 @@ void intersectionSignalTA(const TimedAutomaton &in1, const TimedAutomaton &in2,
                                         TAState *nextS1, TAState *nextS2,
                                         const TATransition &e1,
                                         const TATransition &e2, char c) {
+    const auto target = toIState.find(std::make_pair(nextS1, nextS2));
+    if (target == toIState.end()) {
+      // the pair is not a state of the product
+      return;
+    }
     TATransition transition;
-    transition.target = toIState[std::make_pair(nextS1, nextS2)].get();
+    transition.target = target->second.get();
 
     // concat resetVars
     transition.resetVars.reserve(e1.resetVars.size() + e2.resetVars.size());
-- 
2.43.0


From 38dec63cd0ade66d537f03855da2ccad9b4d2ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:58 +0000
Subject: [PATCH 26/35] fix: removing dead states also removed states that
 reach acceptance through a loop

---
 libmonaa/zone_automaton.hh | 47 ++++++++++++++------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/libmonaa/zone_automaton.hh b/libmonaa/zone_automaton.hh
index 8bf92fe..a04d959 100644
--- a/libmonaa/zone_automaton.hh
+++ b/libmonaa/zone_automaton.hh
@@ -2,7 +2,7 @@
 
 #include "timed_automaton.hh"
 #include "zone.hh"
-#include <stack>
+#include <deque>
 #include <unordered_set>
 #include <utility>
 
@@ -57,38 +57,25 @@ struct ZoneAutomaton : public Automaton<ZAState> {
 
   //! @brief remove states unreachable to any accepting states
   void removeDeadStates() {
-    // Find states unreachable to any accepting states
-    using Config = std::pair<std::shared_ptr<ZAState>,
-                             std::unordered_set<std::shared_ptr<ZAState>>>;
-    std::stack<Config> States;
-    for (auto state : initialStates) {
-      States.push(Config(state, {}));
-    }
+    // Find the states reachable to some accepting state by a least fixed point
     std::unordered_set<std::shared_ptr<ZAState>> reachable;
-    while (!States.empty()) {
-      Config conf = States.top();
-      States.pop();
-      if (conf.first->isMatch) {
-        reachable.insert(conf.first);
-        reachable.insert(conf.second.begin(), conf.second.end());
-      }
-      for (const auto &edges : conf.first->next) {
-        for (const auto &edge : edges) {
-          if (conf.second.find(conf.first) != conf.second.end()) {
-            // We are in a loop
-            continue;
-          }
-          if (reachable.find(edge.lock()) != reachable.end()) {
-            // The next state is reachable
-            reachable.insert(conf.first);
-            reachable.insert(conf.second.begin(), conf.second.end());
-          } else {
-            // The next state may be unreachable
-            auto parents = conf.second;
-            parents.insert(conf.first);
-            States.push(Config(edge.lock(), parents));
+    for (bool changed = true; changed;) {
+      changed = false;
+      for (const auto &state : states) {
+        if (reachable.find(state) != reachable.end()) {
+          continue;
+        }
+        bool isReachable = state->isMatch;
+        for (const auto &edges : state->next) {
+          for (const auto &edge : edges) {
+            isReachable =
+                isReachable || reachable.find(edge.lock()) != reachable.end();
           }
         }
+        if (isReachable) {
+          reachable.insert(state);
+          changed = true;
+        }
       }
     }
 
-- 
2.43.0


From f7691deda70ca04dba09d6d77e1b0f0518002a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:19 +0000
Subject: [PATCH 27/35] fix: states and edges read from a DOT file without
 attributes were uninitialised

---
 monaa/timed_automaton_parser.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 00eab35..8cd5c7f 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -239,12 +239,12 @@ static inline std::ostream &operator<<(std::ostream &os,
 }
 
 struct BoostTAState {
-  bool isInit;
-  bool isMatch;
+  bool isInit = false;
+  bool isMatch = false;
 };
 
 struct BoostTATransition {
-  Alphabet c;
+  Alphabet c = 0;
   //! @note this structure is necessary because of some problem in boost graph
   ResetVars resetVars;
   std::vector<Constraint> guard;
-- 
2.43.0


From c449d0d0303948cea70dc8459fd03690398c1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:11 +0000
Subject: [PATCH 28/35] fix: a clock that is reset but never compared in a DOT
 file was not counted

---
 monaa/timed_automaton_parser.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 8cd5c7f..cce10a5 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -305,6 +305,11 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
             std::max<std::size_t>(TA.maxConstraints.size(), g.x + 1));
         TA.maxConstraints[g.x] = std::max(TA.maxConstraints[g.x], g.c);
       }
+      // clocks may be reset without appearing in any guard
+      for (const ClockVariables x : transition.resetVars) {
+        TA.maxConstraints.resize(
+            std::max<std::size_t>(TA.maxConstraints.size(), x + 1));
+      }
       stateConvMap[*first]
           ->next[boost::get(&BoostTATransition::c, BoostTA, *firstEdge)]
           .emplace_back(std::move(transition));
-- 
2.43.0


From 628ef1ad87c6914bb388dd7d591b15472891de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:56 +0000
Subject: [PATCH 29/35] fix: unusable options and automaton files ended the
 tools by an uncaught exception

---
 monaa/main.cc   | 24 ++++++++++++++++++------
 monaa/tre2ta.cc | 18 +++++++++++++-----
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index e4b8286..a327464 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -43,12 +43,17 @@ int main(int argc, char *argv[]) {
   command_line_parser parser(argc, argv);
   parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  std::vector<std::string> positionals;
+  try {
+    const auto parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
+    positionals = collect_unrecognized(parseResult.options, include_positional);
+  } catch (const error &e) {
+    die(e.what(), 1);
+  }
 
-  for (auto const &str :
-       collect_unrecognized(parseResult.options, include_positional)) {
+  for (auto const &str : positionals) {
     if (timedAutomatonFileName.empty() && tre.empty()) {
       tre = std::move(str);
     } else if (timedWordFileName == "stdin") {
@@ -118,8 +123,15 @@ int main(int argc, char *argv[]) {
     }
     // parse TA
     std::ifstream taStream(timedAutomatonFileName);
+    if (!taStream) {
+      die("Failed to open the timed automaton file", 1);
+    }
     BoostTimedAutomaton BoostTA;
-    parseBoostTA(taStream, BoostTA);
+    try {
+      parseBoostTA(taStream, BoostTA);
+    } catch (const std::exception &e) {
+      die(e.what(), 2);
+    }
     convBoostTA(BoostTA, TA);
   }
 
diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index e5c21a3..e7be17f 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -34,12 +34,17 @@ int main(int argc, char *argv[]) {
   command_line_parser parser(argc, argv);
   parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  std::vector<std::string> positionals;
+  try {
+    const auto parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
+    positionals = collect_unrecognized(parseResult.options, include_positional);
+  } catch (const error &e) {
+    die(e.what(), 1);
+  }
 
-  for (auto const &str :
-       collect_unrecognized(parseResult.options, include_positional)) {
+  for (auto const &str : positionals) {
     tre = std::move(str);
   }
 
@@ -88,6 +93,9 @@ int main(int argc, char *argv[]) {
     std::cout << TA << std::endl;
   } else {
     std::ofstream outputStream(outputFilename);
+    if (!outputStream) {
+      die("Failed to open the output file", 1);
+    }
     outputStream << TA << std::endl;
   }
 
-- 
2.43.0


From 5f980c0fc9f0e8d00ef0bb0d56cf427cf2730269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:06 +0000
Subject: [PATCH 30/35] fix: the zone construction did not end: lower bounds
 were never truncated ('((ab)%(1,5))+$')

---
 libmonaa/zone.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 50d63aa..a1ede59 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -152,13 +152,19 @@ struct Zone {
   /*
     @brief truncate the constraints compared with a constant greater than or
     equal to M
+
+    @note The lower bounds are also truncated. Otherwise, the differences of
+    the clocks that are never reset and the others grow unboundedly.
    */
   void abstractize() {
     static constexpr Bounds infinity =
         Bounds(std::numeric_limits<double>::infinity(), false);
+    const Bounds minimum = Bounds(-M.first, false);
     for (auto it = value.data(); it < value.data() + value.size(); it++) {
       if (*it >= M) {
         *it = Bounds(infinity);
+      } else if (*it < minimum) {
+        *it = minimum;
       }
     }
   }
-- 
2.43.0


From 79209b8d8d15142d2c654209edfd2bd3cada7129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:53 +0000
Subject: [PATCH 31/35] fix: matches without events were skipped ('((ac)*)$')

---
 libmonaa/sunday_skip_value.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libmonaa/sunday_skip_value.hh b/libmonaa/sunday_skip_value.hh
index baef837..183f02a 100644
--- a/libmonaa/sunday_skip_value.hh
+++ b/libmonaa/sunday_skip_value.hh
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <climits>
 #include <iostream>
@@ -28,6 +29,17 @@ public:
     ta2za(TA, ZA);
     ZA.removeDeadStates();
 
+    if (std::any_of(ZA.initialStates.begin(), ZA.initialStates.end(),
+                    [](const std::shared_ptr<ZAState> &s) { return s->isMatch; })) {
+      // A match may contain no event, and we can skip nothing
+      m = 1;
+      delta.fill(1);
+      for (char c = 1; c < CHAR_MAX; c++) {
+        endChars.insert(c);
+      }
+      return;
+    }
+
     std::vector<std::unordered_set<char>> charSet;
     bool accepted = false;
     m = 0;
-- 
2.43.0


From 18cc564fb01dadf1fa5116592becc416766ce155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:06 +0000
Subject: [PATCH 32/35] fix: a restriction whose interval contains zero lost
 the empty word ('(a*)%[0,4]$')

---
 monaa/tre.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 7622a1b..c78fe28 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -298,15 +298,18 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     bool isDummyUsed = false;
     std::shared_ptr<TAState> dummyAcceptingState =
         std::make_shared<TAState>(true);
-    // Make all the zero duration states non-initial
-    // Note: this would not work well if we allow constraints >= 0
-    out.initialStates.erase(std::remove_if(
-                              out.initialStates.begin(), out.initialStates.end(),
-                              [](auto &state) {return state->zeroDuration;}),
-                            out.initialStates.end());
-    // Make all the state non-zero duration
-    for (auto state : out.states) {
-      state->zeroDuration = false;
+    // The empty word remains only if the interval contains zero
+    if (regExprWithin.second->lowerBound != Bounds{0, true} ||
+        regExprWithin.second->upperBound < Bounds{0, true}) {
+      // Make all the zero duration states non-initial
+      out.initialStates.erase(std::remove_if(
+                                out.initialStates.begin(), out.initialStates.end(),
+                                [](auto &state) {return state->zeroDuration;}),
+                              out.initialStates.end());
+      // Make all the state non-zero duration
+      for (auto state : out.states) {
+        state->zeroDuration = false;
+      }
     }
     for (auto state : out.states) {
       for (auto &edges : state->next) {
-- 
2.43.0


From a55250c1ca1fb83961716cb0499dea526ad567c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:57 +0000
Subject: [PATCH 33/35] fix: restricting a set of intervals changed the
 intervals it shares with other sets ('((b*)a)%(1,2)' with -S)

---
 libmonaa/interval.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index 7fadd77..f44701f 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -122,8 +122,9 @@ inline static Interval operator&&(const Interval &left, const Interval &right) {
  */
 inline static void land(std::vector<std::shared_ptr<Interval>> &left,
                         const Interval &right) {
-  for (auto interval : left) {
-    (*interval) = (*interval) && right;
+  for (auto &interval : left) {
+    // the intervals can be shared with the other sets
+    interval = std::make_shared<Interval>((*interval) && right);
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
-- 
2.43.0


From 3b016d52e25f919ab7c5354518cf49c73d7bef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:57 +0000
Subject: [PATCH 34/35] fix: a restricted letter shared by two disjuncts was
 moved away ('(a*)((a*)%[3,4))' with -S crashed)

---
 monaa/intermediate_tre.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 4fde610..3a8e63c 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -293,12 +293,13 @@ void AtomicTRE::toNormalForm() {
         within.first->decision->tag, within.first->decision->chars);
     switch (within.first->tag) {
     case op::singleton: {
-      auto origExpr = within.first;
-      land(origExpr->singleton->intervals, *(within.second));
+      // within.first can be shared with the other disjuncts
+      auto restricted =
+          std::make_shared<SingletonTRE>(*(within.first->singleton));
+      land(restricted->intervals, *(within.second));
       within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
       tag = op::singleton;
-      new (&singleton)
-          std::shared_ptr<SingletonTRE>(std::move(origExpr->singleton));
+      new (&singleton) std::shared_ptr<SingletonTRE>(std::move(restricted));
       break;
     }
     case op::epsilon: {
@@ -432,7 +433,9 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!expr->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = expr->list.front().front()->singleton;
+    // the singleton can be shared with the other disjuncts
+    auto tmpTRE = std::make_shared<SingletonTRE>(
+        *(expr->list.front().front()->singleton));
     expr.reset();
     tag = op::singleton;
     new (&singleton) std::shared_ptr<SingletonTRE>(std::move(tmpTRE));
@@ -443,7 +446,8 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!within.first->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = within.first->singleton;
+    // the singleton can be shared with the other disjuncts
+    auto tmpTRE = std::make_shared<SingletonTRE>(*(within.first->singleton));
     auto tmpInterval = within.second;
     within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
     tag = op::singleton;
-- 
2.43.0


From 6d9318c0ace0aa306c3aac4205a2e308ceee9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:03 +0000
Subject: [PATCH 35/35] fix: a restriction of the empty signal to durations
 above zero was dropped ('((c*)%[2,3])c' with -S)

---
 monaa/intermediate_tre.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 3a8e63c..c3707c5 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -303,8 +303,17 @@ void AtomicTRE::toNormalForm() {
       break;
     }
     case op::epsilon: {
+      const bool containsZero = within.second->contain(0);
       within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
-      tag = op::epsilon;
+      if (containsZero) {
+        tag = op::epsilon;
+      } else {
+        // The duration of the empty signal is zero, and nothing is recognized
+        tag = op::singleton;
+        new (&singleton) std::shared_ptr<SingletonTRE>(
+            std::make_shared<SingletonTRE>(
+                0, std::vector<std::shared_ptr<Interval>>{}));
+      }
       break;
     }
     case op::plus: {
-- 
2.43.0

