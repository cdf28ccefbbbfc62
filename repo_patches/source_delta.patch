From 9c8def148b1e58c982ac7aa5c8d4ff5038f8309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 01/42] fix: include the Function and ConstantResampler headers
 in FactoryOp.cpp

---
 libs/api/src/FactoryOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index cb51796..32b1184 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -15,6 +15,7 @@
 #include "rtbot/std/And.h"
 #include "rtbot/std/AutoRegressive.h"
 #include "rtbot/std/Constant.h"
+#include "rtbot/std/ConstantResampler.h"
 #include "rtbot/std/CosineResampler.h"
 #include "rtbot/std/Count.h"
 #include "rtbot/std/CumulativeSum.h"
@@ -22,6 +23,7 @@
 #include "rtbot/std/Division.h"
 #include "rtbot/std/EqualTo.h"
 #include "rtbot/std/FiniteImpulseResponse.h"
+#include "rtbot/std/Function.h"
 #include "rtbot/std/GreaterThan.h"
 #include "rtbot/std/GreaterThanStream.h"
 #include "rtbot/std/HermiteResampler.h"
-- 
2.43.0


From 1e564af734b515453343aa877a454421bbd2947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 02/42] fix: Join emits a synchronized tuple as soon as it is
 complete, with any number of ports

---
 libs/core/include/rtbot/Join.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/include/rtbot/Join.h b/libs/core/include/rtbot/Join.h
index 1488335..eda71e4 100644
--- a/libs/core/include/rtbot/Join.h
+++ b/libs/core/include/rtbot/Join.h
@@ -82,7 +82,9 @@ class Join : public Operator<T, V> {
       }
       return this->emit(toEmit);
     }
-    return {};
+    // the outdated messages were discarded, but the remaining ones could be aligned already on a later time: try
+    // again, until the ports are synchronized or at least one of them is exhausted
+    return this->executeData();
   }
 
   virtual OperatorMessage<T, V> processData() {
-- 
2.43.0


From de349ab979c07759138ff3bb31ac211ad02822a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 03/42] fix: Linear applies the k-th coefficient to the k-th
 port with ten or more ports

---
 libs/std/include/rtbot/std/Linear.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/std/include/rtbot/std/Linear.h b/libs/std/include/rtbot/std/Linear.h
index 70b59a9..adbc436 100644
--- a/libs/std/include/rtbot/std/Linear.h
+++ b/libs/std/include/rtbot/std/Linear.h
@@ -26,14 +26,14 @@ struct Linear : public Join<T, V> {
 
   OperatorMessage<T, V> processData() override {
     OperatorMessage<T, V> outputMsgs;
-    int i = 0;
     Message<T, V> out;
     out.value = 0;
     out.time = 0;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+    // the ports are sorted lexicographically in the map (i1, i10, i2, ...), then visit them by its number
+    for (size_t i = 0; i < this->coeff.size(); i++) {
+      auto it = this->dataInputs.find(string("i") + to_string(i + 1));
       out.value = out.value + it->second.front().value * this->coeff.at(i);
       out.time = it->second.front().time;
-      i++;
     }
 
     PortMessage<T, V> v;
-- 
2.43.0


From 1d95d48e7c821b9d201c218af46cadfb695a70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 04/42] fix: Difference uses the time of the message and not
 its value

---
 libs/std/include/rtbot/std/Difference.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Difference.h b/libs/std/include/rtbot/std/Difference.h
index 35c133d..6c3b75c 100644
--- a/libs/std/include/rtbot/std/Difference.h
+++ b/libs/std/include/rtbot/std/Difference.h
@@ -31,7 +31,7 @@ struct Difference : public Operator<T, V> {
     Message<T, V> m0 = this->getDataInputMessage(inputPort, 0);
     Message<T, V> out;
     out.value = m1.value - m0.value;
-    out.time = (this->useOldestTime) ? m1.time : m0.value;
+    out.time = (this->useOldestTime) ? m1.time : m0.time;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 3e20db5d83539f5c15efaba21ec8090c15725b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 05/42] fix: keep the fractional part of the default value of a
 Variable

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 32b1184..9544010 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j["id"].get<string>(), j.value("value", (V)0));
 }
 
 template <class T, class V>
-- 
2.43.0


From 3fae117b5fee13be68b52e327371f4042303af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 06/42] fix: TimeShift keeps the time with a zero shift and
 clamps negative shifts to zero

---
 libs/std/include/rtbot/std/TimeShift.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.h b/libs/std/include/rtbot/std/TimeShift.h
index 587d0bc..03c4636 100644
--- a/libs/std/include/rtbot/std/TimeShift.h
+++ b/libs/std/include/rtbot/std/TimeShift.h
@@ -1,7 +1,7 @@
 #ifndef TIMESHIFT_H
 #define TIMESHIFT_H
 
-#include <math.h>
+#include <type_traits>
 
 #include "rtbot/Operator.h"
 
@@ -32,10 +32,10 @@ struct TimeShift : public Operator<T, V> {
     OperatorMessage<T, V> outputMsgs;
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
 
-    out.time = ((this->dt * this->times < 0) && (out.time > abs((double)(this->dt * this->times))) ||
-                (this->dt * this->times > 0))
-                   ? out.time + this->dt * this->times
-                   : 0;
+    // T is usually unsigned, so take the sign of the shift from its signed counterpart
+    auto shift = static_cast<make_signed_t<T>>(this->dt) * this->times;
+    // do not go before the origin of time
+    out.time = (shift < 0 && out.time < static_cast<T>(-shift)) ? 0 : out.time + shift;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 8bce396a9012cd08d0ef85c09220a4eb2f26bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 07/42] fix: do not truncate the dt of a TimeShift to 32 bits

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 9544010..428d0ee 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", (T)1), j.value("times", 1));
 }
 
 template <class T, class V>
-- 
2.43.0


From 9246a6745a53ef79025484945d1efcce7a337c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 08/42] fix: RelativeStrengthIndex saves and restores its
 averages

---
 .../rtbot/finance/RelativeStrengthIndex.h     | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 8f2b857..5627661 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -18,6 +18,35 @@ struct RelativeStrengthIndex : public Operator<T, V> {
     this->addOutput("o1");
   }
 
+  virtual Bytes collect() {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize the averages
+    for (const V* value : {&averageGain, &averageLoss, &prevAverageGain, &prevAverageLoss})
+      bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(value),
+                   reinterpret_cast<const unsigned char*>(value) + sizeof(V));
+
+    // Serialize initialized
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&initialized),
+                 reinterpret_cast<const unsigned char*>(&initialized) + sizeof(initialized));
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) {
+    Operator<T, V>::restore(it);
+
+    // Deserialize the averages
+    for (V* value : {&averageGain, &averageLoss, &prevAverageGain, &prevAverageLoss}) {
+      *value = *reinterpret_cast<const V*>(&(*it));
+      it += sizeof(V);
+    }
+
+    // Deserialize initialized
+    initialized = *reinterpret_cast<const bool*>(&(*it));
+    it += sizeof(initialized);
+  }
+
   string typeName() const override { return "RelativeStrengthIndex"; }
 
   OperatorMessage<T, V> processData() override {
@@ -82,10 +111,10 @@ struct RelativeStrengthIndex : public Operator<T, V> {
   }
 
  private:
-  V averageGain;
-  V averageLoss;
-  V prevAverageGain;
-  V prevAverageLoss;
+  V averageGain = 0;
+  V averageLoss = 0;
+  V prevAverageGain = 0;
+  V prevAverageLoss = 0;
   bool initialized = false;
 };
 
-- 
2.43.0


From 83318c6ee6b12ef5ac64435596b267bd8bbd5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 09/42] fix: RelativeStrengthIndex writes the period that it
 was created with

---
 libs/api/src/FactoryOp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 428d0ee..42e0de9 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -383,7 +383,8 @@ void from_json(const json& j, Identity<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize()}};
+  // it holds one message more than its period
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize() - 1}};
 }
 
 template <class T, class V>
-- 
2.43.0


From 174c6e1b204f213e9ec44a0ef03a0f290cd21469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 10/42] fix: reject a program with a missing or controlled
 entry operator

---
 libs/api/src/Program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 09443ce..a761c5f 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -65,14 +65,14 @@ void Program::init() {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator was not found");
+    throw runtime_error("Entry operator was not found");
   }
 
   if (this->all_op.at(this->entryOperator)->hasControlInputs()) {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator can not have control inputs");
+    throw runtime_error("Entry operator can not have control inputs");
   }
 }
 
-- 
2.43.0


From 696ea311915e696598247e2eeae43b809e7d44a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 11/42] fix: drop the pending messages of a deleted program

---
 libs/api/include/rtbot/FactoryOp.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 9449778..381ec4f 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -63,7 +63,11 @@ class FactoryOp {
 
   string createProgram(string const& id, string const& json_program);
 
-  bool deleteProgram(string const& id) { return (programs.erase(id) == 1) ? true : false; }
+  bool deleteProgram(string const& id) {
+    // its pending messages should not reach another program created later with the same id
+    messageBuffer.erase(id);
+    return (programs.erase(id) == 1) ? true : false;
+  }
 
   bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
-- 
2.43.0


From 13cc69702bff913185b4d08b9849c7cc6442bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 12/42] fix: consume the buffered messages also when processing
 them throws

---
 libs/api/include/rtbot/FactoryOp.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 381ec4f..e450824 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -79,9 +79,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMap(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // take the messages out of the buffer first, so they are consumed also when processing them fails
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMap(apId, messages);
         if (!result.empty()) return result;
       }
     }
@@ -92,9 +93,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMapDebug(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // take the messages out of the buffer first, so they are consumed also when processing them fails
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMapDebug(apId, messages);
         if (!result.empty()) return result;
       }
     }
-- 
2.43.0


From ca0a8463e53b207996fd61746f0585c29735691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 13/42] fix: the interpolation of a Function does not clash
 with the type of the operator

---
 libs/api/src/FactoryOp.cpp             | 4 ++--
 libs/std/include/rtbot/std/Function.md | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 42e0de9..ef8eb6b 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -418,7 +418,7 @@ void to_json(json& j, const Function<T, V>& p) {
   for (const auto& point : p.getPoints()) {
     points_array.push_back({point.first, point.second});
   }
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"type", p.getInterpolationType()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"interpolation", p.getInterpolationType()}};
 }
 
 template <class T, class V>
@@ -427,7 +427,7 @@ void from_json(const json& j, Function<T, V>& p) {
   for (const auto& point : j["points"]) {
     points.push_back({point[0].get<V>(), point[1].get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolation", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 233e237..146ca87 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -23,7 +23,7 @@ jsonschema:
         maxItems: 2
         items:
           type: number
-    type:
+    interpolation:
       type: string
       enum: ["linear", "hermite"]
       default: "linear"
-- 
2.43.0


From af07c01a8ebef7a3898a494769703126bf46b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 14/42] fix: HermiteResampler processes its first interval only
 once

---
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 2d0c84d..6df3229 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -83,6 +83,8 @@ struct HermiteResampler : public Operator<T, V> {
     PortMessage<T, V> toEmit;
 
     if (before.get() == nullptr) {
+      // make sure that the first interval is processed just once, even if no grid point falls into it
+      this->get(-1, inputPort);
       toEmit = this->lookAt(0, 1, inputPort);
       auto toAdd = this->lookAt(1, 2, inputPort);
       toEmit.insert(toEmit.end(), toAdd.begin(), toAdd.end());
-- 
2.43.0


From d7f04e78ba2807078091be64119dec18ab0f382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 15/42] fix: HermiteResampler starts at the right value no
 matter the origin of time

---
 libs/std/include/rtbot/std/HermiteResampler.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 6df3229..9f1cc4c 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -144,12 +144,13 @@ struct HermiteResampler : public Operator<T, V> {
     if (index >= 0)
       return this->getDataInputMessage(inputPort, index);
     else if (before.get() == nullptr) {
-      vector<T> x;
+      // the times are taken relative to the first one, otherwise the sums below would overflow
+      vector<V> x;
       vector<V> y;
       V average = 0;
       size_t n = this->getDataInputSize(inputPort);
       for (int i = 0; i < n; i++) {
-        x.push_back(this->getDataInputMessage(inputPort, i).time);
+        x.push_back(this->getDataInputMessage(inputPort, i).time - this->getDataInputMessage(inputPort, 0).time);
         y.push_back(this->getDataInputMessage(inputPort, i).value);
       }
       for (size_t i = 1; i < n; i++) {
@@ -159,7 +160,7 @@ struct HermiteResampler : public Operator<T, V> {
       average = average / (n - 1);
       pair<V, V> pair = this->getLineLeastSquares(x, y);
       T time = this->getDataInputMessage(inputPort, 0).time + (index * ((T)average));
-      V value = pair.second * time + pair.first;
+      V value = pair.second * (index * (V)((T)average)) + pair.first;
       before = make_unique<Message<T, V>>(Message<T, V>(time, value));
     }
     return *(before.get());
@@ -173,9 +174,9 @@ struct HermiteResampler : public Operator<T, V> {
       y is the vector of the y-axis
       the coordinates of a point are (x_i;y_i)
   */
-  pair<V, V> getLineLeastSquares(vector<T> x, vector<V> y) {
+  pair<V, V> getLineLeastSquares(vector<V> x, vector<V> y) {
     V sumY = 0, sumXY = 0, n, m;
-    T sumX = 0, sumX2 = 0;
+    V sumX = 0, sumX2 = 0;
     for (size_t i = 0; i < x.size(); i++) {
       sumX = sumX + x.at(i);
       sumY = sumY + y.at(i);
@@ -183,7 +184,7 @@ struct HermiteResampler : public Operator<T, V> {
       sumX2 = sumX2 + pow(x.at(i), 2);
     }
 
-    T denominator = (x.size() * sumX2 - pow(sumX, 2));
+    V denominator = (x.size() * sumX2 - pow(sumX, 2));
 
     if (denominator == 0) {
       m = (V)(y.at(1) - y.at(0)) / (V)(x.at(1) - x.at(0));
-- 
2.43.0


From 6c38451511b1cf89e56bcdbf641174a5057a5972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 16/42] fix: Pipeline saves and restores its inner operators

---
 libs/api/include/rtbot/Pipeline.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index bae4a10..858f5c2 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -34,6 +34,25 @@ struct Pipeline : public Operator<T, V> {
     return *this;
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize the inner operators, the order is given by the ids so it is always the same
+    for (auto& [opId, op] : all_op) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize the inner operators
+    for (auto& [opId, op] : all_op) op->restore(it);
+  }
+
   string typeName() const override { return "Pipeline"; }
 
   void receiveData(Message<T, V> msg, string inputPort = "") override {
-- 
2.43.0


From 481204ef1ea3885536f9f27f7cb87e728f7cf998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 17/42] fix: AutoRegressive applies its first coefficient to
 the most recent output

---
 libs/std/include/rtbot/std/AutoRegressive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index b40ce25..1964ea0 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -60,7 +60,7 @@ struct AutoRegressive : public Operator<T, V> {
       throw runtime_error(typeName() + " : more than 1 input port found");
     size_t n = this->getDataInputMaxSize(inputPort);
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
-    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, i).value;
+    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, n - 1 - i).value;
     OperatorMessage<T, V> toEmit;
     PortMessage<T, V> v;
     v.push_back(out);
-- 
2.43.0


From 8947bd71988f761902d71d7bbaa120ee93dcae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 18/42] fix: deleteConnection removes the given connection and
 no other

---
 libs/wrappers/javascript/src/program.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/javascript/src/program.ts b/libs/wrappers/javascript/src/program.ts
index 235cf55..10a0e17 100644
--- a/libs/wrappers/javascript/src/program.ts
+++ b/libs/wrappers/javascript/src/program.ts
@@ -62,7 +62,7 @@ export class Program {
   deleteConnection(opFrom: OperatorId, opTo: OperatorId, opFromPort: PortId = "o1", opToPort: PortId = "i1") {
     this.connections = this.connections.filter(
       ({ from, to, fromPort, toPort }) =>
-        !(from !== opFrom && to !== opTo && fromPort !== opFromPort && toPort !== opToPort)
+        !(from === opFrom && to === opTo && fromPort === opFromPort && toPort === opToPort)
     );
   }
 
-- 
2.43.0


From 0931ec366197466533930906b82b68eb281ef214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 19/42] fix: delete_by_input_key does not lock the registry
 twice

---
 apps/rtbot-rs/src/pipelines_registry.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 7eadfd7..8dbe21c 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -120,13 +120,15 @@ impl PipelinesRegistry {
     ///
     /// returns: Result<String, Err(String)>
     pub fn delete_by_input_key(&self, input_key: &str) -> Result<String, PipelineError> {
-        let pipeline = self.pipelines.lock().unwrap();
+        // the lock is released here, `delete` takes it again
+        let output_keys: Vec<String> = match self.pipelines.lock().unwrap().get(input_key) {
+            Some(outputs) => outputs.keys().cloned().collect(),
+            None => Vec::new(),
+        };
         let mut counter = 0;
-        if let Some(outputs) = pipeline.get(input_key) {
-            for (output_key, _) in outputs {
-                self.delete(input_key, output_key)?;
-                counter += 1;
-            }
+        for output_key in output_keys {
+            self.delete(input_key, &output_key)?;
+            counter += 1;
         }
         Ok(format!(
             "Deleted {} pipeline(s) associated with the input key {}",
-- 
2.43.0


From 83615899fd5c0474a18bca81a8419c7cb5509e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 20/42] fix: the entry operator of a python program reaches its
 json

---
 libs/wrappers/python/rtbot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 0aa8100..75f21fb 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -107,7 +107,7 @@ class Program:
         if self.date:
             obj["date"] = self.date
 
-        if self.date:
+        if self.entryOperator:
             obj["entryOperator"] = self.entryOperator
 
         return json.dumps(obj)
-- 
2.43.0


From d61390b89ce85d8f5f9ab8c1f703412d95a17e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 21/42] fix: a python program keeps the output of its json

---
 libs/wrappers/python/rtbot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 75f21fb..960ad13 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -73,6 +73,7 @@ class Program:
         date: Optional[str] = None,
         author: Optional[str] = None,
         license: Optional[str] = None,
+        output: Optional[dict] = None,
     ):
         # print(f"Ininitializing program with operators {operators}, connections {connections}")
         self.title = title
@@ -84,6 +85,7 @@ class Program:
         self.operators = operators if operators is not None else []
         self.connections = connections if connections is not None else []
         self.entryOperator = entryOperator
+        self.output = output
         self.id = f"{random.randrange(16**4):04x}"
 
     def toJson(self):
@@ -110,6 +112,9 @@ class Program:
         if self.entryOperator:
             obj["entryOperator"] = self.entryOperator
 
+        if self.output:
+            obj["output"] = self.output
+
         return json.dumps(obj)
 
     def validate(self):
-- 
2.43.0


From a80f9bdd84b6b004622e5b125674d520b4a19952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 22/42] fix: a python run that fails does not leave its program
 registered

---
 libs/wrappers/python/rtbot.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 960ad13..e935ea6 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -17,6 +17,13 @@ class Run(object):
         self.data = data
 
     def exec(self):
+        try:
+            return self._exec()
+        finally:
+            # also when the run fails, the program doesn't stay registered
+            api.deleteProgram(self.program.id)
+
+    def _exec(self):
         result = api.createProgram(self.program.id, self.program.toJson())
         # TODO: here we assume that the data is a list of rows, which are a list
         # of numbers, where the first element of the row is the time and the remaining
@@ -46,7 +53,6 @@ class Run(object):
                         result[key]["time"].append(int(msg.get("time")))
                         result[key]["value"].append(float(msg.get("value")))
 
-        api.deleteProgram(self.program.id)
         return result
 
 
-- 
2.43.0


From d239dccfe5e4fd748ca971563b25ff3bc943fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 23/42] fix: the columns of the debugger stop at the last
 iteration and allow silent ports

---
 apps/cli/src/tui/store.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 21eed9d..17543ab 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -81,11 +81,11 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
           columns: [headers],
         };
 
-      for (let i = iteration - 1; i < Math.min(iteration, maxIteration) + 10; i++) {
+      for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-          if (opId && r.out[opId]) {
+          if (opId && r.out[opId]?.[port ?? "o1"]) {
             const opOutput = r.out[opId]!;
             return opOutput[port ?? "o1"]!.map(
               ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
-- 
2.43.0


From f8c38f744c8d5e718f94c2b966555cac3a788db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 24/42] fix: a Join without numPorts has the two ports that its
 schema promises

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index ef8eb6b..0e4f266 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j["numPorts"].get<size_t>());
+  p = Join<T, V>(j["id"].get<string>(), j.value("numPorts", (size_t)2));
 }
 
 template <class T, class V>
-- 
2.43.0


From 895e2cb5c87234fabf8f791d03c001bee582816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 25/42] fix: the schema of LessThan accepts a value that is not
 an integer

---
 libs/std/include/rtbot/std/LessThan.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/LessThan.md b/libs/std/include/rtbot/std/LessThan.md
index ab8c8ee..a01c8ee 100644
--- a/libs/std/include/rtbot/std/LessThan.md
+++ b/libs/std/include/rtbot/std/LessThan.md
@@ -14,7 +14,7 @@ jsonschema:
       type: string
       description: The id of the operator
     value:
-      type: integer
+      type: number
       description: The reference value
   required: ["id", "value"]
 ---
-- 
2.43.0


From 9aad563d8eea1e7cb387e387ec1666bc09b6fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 26/42] fix: the schema of Linear requires its coefficients

---
 libs/std/include/rtbot/std/Linear.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Linear.md b/libs/std/include/rtbot/std/Linear.md
index 3652d7c..6ed2f90 100644
--- a/libs/std/include/rtbot/std/Linear.md
+++ b/libs/std/include/rtbot/std/Linear.md
@@ -21,7 +21,7 @@ jsonschema:
       minItems: 2
       items:
         type: number
-  required: ["id"]
+  required: ["id", "coeff"]
 ---
 
 # Linear
-- 
2.43.0


From 7d55f21471bbc52e6e4da6e08a67c95e3b801758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 27/42] fix: refuse operators and connections that lack a
 required member, instead of reading past it

---
 libs/api/src/FactoryOp.cpp | 76 +++++++++++++++++++-------------------
 libs/api/src/Pipeline.cpp  |  4 +-
 libs/api/src/Program.cpp   |  4 +-
 3 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 0e4f266..5532243 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -58,7 +58,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -68,7 +68,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -78,7 +78,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -88,7 +88,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -98,7 +98,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -108,7 +108,7 @@ void to_json(json& j, const FiniteImpulseResponse<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, FiniteImpulseResponse<T, V>& p) {
-  p = FiniteImpulseResponse<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = FiniteImpulseResponse<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j.value("numPorts", (size_t)2));
+  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", (size_t)2));
 }
 
 template <class T, class V>
@@ -128,7 +128,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -138,7 +138,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -148,7 +148,7 @@ void to_json(json& j, const Minus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Minus<T, V>& p) {
-  p = Minus<T, V>(j["id"].get<string>());
+  p = Minus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -158,7 +158,7 @@ void to_json(json& j, const And<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, And<T, V>& p) {
-  p = And<T, V>(j["id"].get<string>());
+  p = And<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -168,7 +168,7 @@ void to_json(json& j, const Or<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Or<T, V>& p) {
-  p = Or<T, V>(j["id"].get<string>());
+  p = Or<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -178,7 +178,7 @@ void to_json(json& j, const GreaterThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThanStream<T, V>& p) {
-  p = GreaterThanStream<T, V>(j["id"].get<string>());
+  p = GreaterThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -188,7 +188,7 @@ void to_json(json& j, const LessThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThanStream<T, V>& p) {
-  p = LessThanStream<T, V>(j["id"].get<string>());
+  p = LessThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -198,7 +198,7 @@ void to_json(json& j, const Division<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Division<T, V>& p) {
-  p = Division<T, V>(j["id"].get<string>());
+  p = Division<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -208,7 +208,7 @@ void to_json(json& j, const Multiplication<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Multiplication<T, V>& p) {
-  p = Multiplication<T, V>(j["id"].get<string>());
+  p = Multiplication<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -218,7 +218,7 @@ void to_json(json& j, const Plus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Plus<T, V>& p) {
-  p = Plus<T, V>(j["id"].get<string>());
+  p = Plus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -228,7 +228,7 @@ void to_json(json& j, const Linear<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Linear<T, V>& p) {
-  p = Linear<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = Linear<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -238,7 +238,7 @@ void to_json(json& j, const AutoRegressive<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, AutoRegressive<T, V>& p) {
-  p = AutoRegressive<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = AutoRegressive<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -248,7 +248,7 @@ void to_json(json& j, const GreaterThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThan<T, V>& p) {
-  p = GreaterThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = GreaterThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -258,7 +258,7 @@ void to_json(json& j, const Constant<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Constant<T, V>& p) {
-  p = Constant<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Constant<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -268,7 +268,7 @@ void to_json(json& j, const Add<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Add<T, V>& p) {
-  p = Add<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Add<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -278,7 +278,7 @@ void to_json(json& j, const LessThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThan<T, V>& p) {
-  p = LessThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = LessThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -288,7 +288,7 @@ void to_json(json& j, const EqualTo<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, EqualTo<T, V>& p) {
-  p = EqualTo<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = EqualTo<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", (V)0));
+  p = Variable<T, V>(j.at("id").get<string>(), j.value("value", (V)0));
 }
 
 template <class T, class V>
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", (T)1), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", (T)1), j.value("times", 1));
 }
 
 template <class T, class V>
@@ -318,7 +318,7 @@ void to_json(json& j, const CumulativeSum<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CumulativeSum<T, V>& p) {
-  p = CumulativeSum<T, V>(j["id"].get<string>());
+  p = CumulativeSum<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -328,7 +328,7 @@ void to_json(json& j, const Count<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Count<T, V>& p) {
-  p = Count<T, V>(j["id"].get<string>());
+  p = Count<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -338,7 +338,7 @@ void to_json(json& j, const Scale<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Scale<T, V>& p) {
-  p = Scale<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Scale<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -348,7 +348,7 @@ void to_json(json& j, const Power<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Power<T, V>& p) {
-  p = Power<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Power<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -358,7 +358,7 @@ void to_json(json& j, const Difference<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>());
+  p = Difference<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -368,7 +368,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -378,7 +378,7 @@ void to_json(json& j, const Identity<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Identity<T, V>& p) {
-  p = Identity<T, V>(j["id"].get<string>());
+  p = Identity<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -389,7 +389,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -409,7 +409,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j["id"].get<string>(), j["interval"].get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
 }
 
 template <class T, class V>
@@ -424,10 +424,10 @@ void to_json(json& j, const Function<T, V>& p) {
 template <class T, class V>
 void from_json(const json& j, Function<T, V>& p) {
   vector<pair<V, V>> points;
-  for (const auto& point : j["points"]) {
-    points.push_back({point[0].get<V>(), point[1].get<V>()});
+  for (const auto& point : j.at("points")) {
+    points.push_back({point.at(0).get<V>(), point.at(1).get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolation", "linear"));
+  p = Function<T, V>(j.at("id").get<string>(), points, j.value("interpolation", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index dccf6ea..6688242 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -28,7 +28,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 template<class T, class V>
@@ -41,7 +41,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
 
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-      it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
     }
 
     // make connections, save the used in/out ports
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index a761c5f..b53b928 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -30,7 +30,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 Program::Program(const string& json_string) {
@@ -51,7 +51,7 @@ void Program::init() {
 
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-    it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
   }
 
   // connections
-- 
2.43.0


From 29345a82785b0b3c56642079d32f0a1dfe0db465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 28/42] fix: choose the overload of createProgram that python
 and wasm bind

---
 libs/api/wasm/emscripten-bindings.cpp | 3 ++-
 libs/wrappers/python/rtbot.cpp        | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/api/wasm/emscripten-bindings.cpp b/libs/api/wasm/emscripten-bindings.cpp
index 8326827..6a121d7 100644
--- a/libs/api/wasm/emscripten-bindings.cpp
+++ b/libs/api/wasm/emscripten-bindings.cpp
@@ -56,7 +56,8 @@ EMSCRIPTEN_BINDINGS(RtBot) {
   emscripten::function("validate", &validate);
   emscripten::function("validateOperator", &validateOperator);
 
-  emscripten::function("createProgram", &createProgram);
+  // createProgram is overloaded
+  emscripten::function("createProgram", static_cast<string (*)(string const&, string const&)>(&createProgram));
   emscripten::function("deleteProgram", &deleteProgram);
 
   emscripten::function("addToMessageBuffer", &addToMessageBuffer);
diff --git a/libs/wrappers/python/rtbot.cpp b/libs/wrappers/python/rtbot.cpp
index ba9dbb5..f45715e 100644
--- a/libs/wrappers/python/rtbot.cpp
+++ b/libs/wrappers/python/rtbot.cpp
@@ -20,7 +20,9 @@ PYBIND11_MODULE(rtbotapi, m) {
   m.def("validate", &validate, "Validates json representation of an rtbot program");
   m.def("validateOperator", &validateOperator, "Validates a json representation of an rtbot operator");
 
-  m.def("createProgram", &createProgram, "Register an rtbot program in memory");
+  // createProgram is overloaded
+  m.def("createProgram", static_cast<string (*)(string const&, string const&)>(&createProgram),
+        "Register an rtbot program in memory");
   m.def("deleteProgram", &deleteProgram, "Deletes and frees the memory of a previsouly created rtbot program");
   
   m.def("addToMessageBuffer", &addToMessageBuffer);
-- 
2.43.0


From 2bbc13578671d9e0b8f197c995c18fb0a7914663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 29/42] fix: a python run reports why its program is refused
 and deletes only a program that it created

---
 libs/wrappers/python/rtbot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index e935ea6..9a7c173 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -17,14 +17,17 @@ class Run(object):
         self.data = data
 
     def exec(self):
+        result = api.createProgram(self.program.id, self.program.toJson())
+        if result != "":
+            raise Exception(json.loads(result)["error"])
+
         try:
-            return self._exec()
+            return self._sendData()
         finally:
             # also when the run fails, the program doesn't stay registered
             api.deleteProgram(self.program.id)
 
-    def _exec(self):
-        result = api.createProgram(self.program.id, self.program.toJson())
+    def _sendData(self):
         # TODO: here we assume that the data is a list of rows, which are a list
         # of numbers, where the first element of the row is the time and the remaining
         # ones correspond to the values passed to the ports and they have the order according
@@ -32,9 +35,6 @@ class Run(object):
         # Move this to receive a pandas dataframe instead
         ports = json.loads(api.getProgramEntryPorts(self.program.id))
 
-        if result != "":
-            raise Exception(json.loads(result)["error"])
-
         result = {}
 
         for row in self.data:
-- 
2.43.0


From a9f25e6cb308de94b812118f4ef5eb14bb5f036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 30/42] fix: the generated python operators quote a default
 that is a text

---
 tools/generator/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 62b1033..c887f6c 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -160,7 +160,7 @@ program
             .filter((p) => p !== "type")
             .map((k) => ({
               name: k,
-              init: s.required.indexOf(k) > -1 ? "" : ` = ${s.properties[k].default ?? "None"}`,
+              init: s.required.indexOf(k) > -1 ? "" : ` = ${JSON.stringify(s.properties[k].default) ?? "None"}`,
             })),
         })),
       });
-- 
2.43.0


From 973e583c617b87f4be207a75de7a69ef75892099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 31/42] fix: a javascript run that fails does not leave its
 program registered

---
 libs/wrappers/javascript/src/api.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index a1866f0..4586722 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -109,6 +109,16 @@ export class RtBotRun {
       if (createProgramResponse.error) throw new Error(createProgramResponse.error);
     }
 
+    try {
+      await this.sendData();
+    } finally {
+      // also when the run fails, the program doesn't stay registered
+      await RtBot.getInstance().deleteProgram(this.program.programId);
+    }
+    if (this.verbose) console.log("Done!", this.outputs);
+  }
+
+  private async sendData() {
     if (this.verbose) console.log("Sending data...");
     const entryPorts: string[] = JSON.parse(await RtBot.getInstance().getProgramEntryPorts(this.program.programId));
     // iterate over the data passed and send it to the rtbot program
@@ -146,9 +156,6 @@ export class RtBotRun {
         }
       }
     }
-
-    await RtBot.getInstance().deleteProgram(this.program.programId);
-    if (this.verbose) console.log("Done!", this.outputs);
   }
 
   getOutputs() {
-- 
2.43.0


From 1ad1876924819e4c82ae1c1538173a6d6e9a5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 32/42] fix: a sample added before the first pipeline exists
 does not panic the redis module

---
 apps/redis-module/src/commands/rtbot_xrun.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/redis-module/src/commands/rtbot_xrun.rs b/apps/redis-module/src/commands/rtbot_xrun.rs
index d8dff59..d9108bd 100644
--- a/apps/redis-module/src/commands/rtbot_xrun.rs
+++ b/apps/redis-module/src/commands/rtbot_xrun.rs
@@ -31,7 +31,11 @@ pub fn on_generic_event(
         };
         // and send it to the pipelines registered for the key
         let binding = PIPELINES_REGISTRY.read().unwrap();
-        let registry = binding.as_ref().unwrap();
+        let registry = match binding.as_ref() {
+            Some(registry) => registry,
+            // no pipeline has been created yet
+            None => return Ok(RedisValue::from(())),
+        };
         let result = registry
             .receive(_key, *timestamp as u64, vec![value])
             .unwrap();
-- 
2.43.0


From 81df526f72c7a4059723e2887c46423518490e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 33/42] fix: rtbot.run with a missing input series leaves no
 pipeline registered

---
 apps/redis-module/src/commands/rtbot_run.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index ac9db75..46c282e 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -39,13 +39,8 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         .validate(&program_parsed)
         .map_err(|err| String(err))?;
 
-    // let's create a pipeline
-    let binding = PIPELINES_REGISTRY.read().unwrap();
-    let registry = binding.as_ref().unwrap();
-
-    // create the pipeline
-    let pipeline_id = registry.create(&get_program_result, &input_key, &output_key)?;
-    // get the data from the input key
+    // get the data from the input key, before the pipeline is created: when it
+    // can't be read no pipeline should stay registered
     let input_ts = match ctx.call("ts.range", &[input_key.to_string().as_str(), "-", "+"])? {
         RedisValue::Array(s) => Ok(s),
         result => Err(String(format!(
@@ -53,6 +48,12 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
             program_key, result
         ))),
     }?;
+    // let's create a pipeline
+    let binding = PIPELINES_REGISTRY.read().unwrap();
+    let registry = binding.as_ref().unwrap();
+
+    // create the pipeline
+    let pipeline_id = registry.create(&get_program_result, &input_key, &output_key)?;
     // delete whatever is in the output key, if something
     ctx.call("del", &[output_key.as_str()])?;
     // create a new timeseries key
-- 
2.43.0


From fc393a35ce7484c82b386fcd5c938c8654b51b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 34/42] fix: the redis module writes and publishes all the
 messages a pipeline emits, not only the first

---
 apps/redis-module/src/commands/rtbot_run.rs  |  8 ++++----
 apps/redis-module/src/commands/rtbot_xrun.rs | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index 46c282e..5ea3d25 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -86,13 +86,13 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         .unwrap();
         let result = registry.receive(&input_key, *timestamp as u64, vec![value])?;
         // now for each of the registered outputs send the result
-        for (registered_output_key, message) in result {
-            if !message.is_empty() {
+        for (registered_output_key, messages) in result {
+            for message in messages {
                 // println!("Sending message {:?} to {}", message, registered_output_key);
                 // notice that here we just consider the first element in the values as
                 // the value to consider as the output to store in the output timeseries
-                let timestamp = message[0].timestamp;
-                let value = message[0].values[0];
+                let timestamp = message.timestamp;
+                let value = message.values[0];
 
                 ctx.call(
                     "ts.add",
diff --git a/apps/redis-module/src/commands/rtbot_xrun.rs b/apps/redis-module/src/commands/rtbot_xrun.rs
index d9108bd..035bdbc 100644
--- a/apps/redis-module/src/commands/rtbot_xrun.rs
+++ b/apps/redis-module/src/commands/rtbot_xrun.rs
@@ -40,12 +40,12 @@ pub fn on_generic_event(
             .receive(_key, *timestamp as u64, vec![value])
             .unwrap();
         // now for each of the registered outputs send the result
-        for (registered_output_key, message) in result {
-            if !message.is_empty() {
+        for (registered_output_key, messages) in result {
+            for message in messages {
                 // notice that here we just consider the first element in the values as
                 // the value to consider as the output to store in the output timeseries
-                let timestamp = message[0].timestamp;
-                let value = message[0].values[0];
+                let timestamp = message.timestamp;
+                let value = message.values[0];
                 if let Err(msg) = ctx.call(
                     "ts.add",
                     &[
@@ -71,7 +71,7 @@ pub fn on_generic_event(
                         format!("{}:ps", registered_output_key).as_str(),
                         // value: a comma separated string where the first element is the timestamp
                         // and the remaining ones the values
-                        format!("{},{}", message[0].timestamp, message[0].values[0]).as_str(),
+                        format!("{},{}", timestamp, value).as_str(),
                     ],
                 ) {
                     ctx.log_warning(
-- 
2.43.0


From 2da655088182376bdea0210cc6b4e230327d39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 35/42] fix: rtbot.run sends the history of a series to the new
 pipeline only, the others have received it already

---
 apps/redis-module/src/commands/rtbot_run.rs | 35 ++++++++++-----------
 apps/rtbot-rs/src/pipelines_registry.rs     | 31 ++++++++++++++++++
 2 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index 5ea3d25..b94fc1d 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -84,25 +84,22 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         .unwrap()
         .parse::<f64>()
         .unwrap();
-        let result = registry.receive(&input_key, *timestamp as u64, vec![value])?;
-        // now for each of the registered outputs send the result
-        for (registered_output_key, messages) in result {
-            for message in messages {
-                // println!("Sending message {:?} to {}", message, registered_output_key);
-                // notice that here we just consider the first element in the values as
-                // the value to consider as the output to store in the output timeseries
-                let timestamp = message.timestamp;
-                let value = message.values[0];
-
-                ctx.call(
-                    "ts.add",
-                    &[
-                        registered_output_key.as_str(),
-                        timestamp.to_string().as_str(),
-                        value.to_string().as_str(),
-                    ],
-                )?;
-            }
+        // the other pipelines of the input key have received this data already
+        let result =
+            registry.receive_in(&input_key, &output_key, *timestamp as u64, vec![value])?;
+        // now send the result to the output
+        for message in result {
+            // println!("Sending message {:?} to {}", message, output_key);
+            // notice that here we just consider the first element in the values as
+            // the value to consider as the output to store in the output timeseries
+            ctx.call(
+                "ts.add",
+                &[
+                    output_key.as_str(),
+                    message.timestamp.to_string().as_str(),
+                    message.values[0].to_string().as_str(),
+                ],
+            )?;
         }
     }
 
diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 8dbe21c..f2c0a4f 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -173,4 +173,35 @@ impl PipelinesRegistry {
         }
         Ok(result)
     }
+
+    /// Sends a message to the pipeline between the input and output keys specified,
+    /// and to no other pipeline attached to the input key.
+    ///
+    /// # Arguments
+    ///
+    /// * `input_key`: The input key
+    /// * `output_key`: The output key
+    /// * `timestamp`: The timestamp of the message
+    /// * `values`: The values of the message.
+    ///
+    /// returns: Result<Vec<RtBotMessage>, PipelineError>
+    pub fn receive_in(
+        &self,
+        input_key: &str,
+        output_key: &str,
+        timestamp: u64,
+        values: Vec<f64>,
+    ) -> Result<Vec<RtBotMessage>, PipelineError> {
+        let pipeline = self.pipelines.lock().unwrap();
+        match pipeline.get(input_key).and_then(|o| o.get(output_key)) {
+            Some(pipeline_id) => Ok(cxx_bindings::ffi::receive_message_in_pipeline(
+                pipeline_id.to_string(),
+                RtBotMessage { timestamp, values },
+            )),
+            None => Err(PipelineError::Generic(format!(
+                "There is no pipeline from key {} to key {}",
+                input_key, output_key
+            ))),
+        }
+    }
 }
-- 
2.43.0


From dec698951851fe5a154dda0440d24f7529eecdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 36/42] fix: the verbose option of the debug command is not
 taken for a progress callback

---
 apps/cli/src/commands/debug.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/commands/debug.ts b/apps/cli/src/commands/debug.ts
index 226b27a..8944d91 100644
--- a/apps/cli/src/commands/debug.ts
+++ b/apps/cli/src/commands/debug.ts
@@ -94,7 +94,7 @@ export const registerDebug = (program: Command) => {
           }
         })
         .filter((r) => r.length === 2);
-      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, verbose);
+      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, undefined, verbose);
       try {
         await rtbotRun.run();
       } catch (e: any) {
-- 
2.43.0


From d6b5958d44ac8f0c5831cd053cfae69286f94c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 37/42] fix: a Join without numPorts has two ports in the
 debugger too

---
 apps/cli/src/tui/store.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 17543ab..81f5d61 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -49,11 +49,10 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
         id: op.id,
         type: op.type,
         selected: true,
-        ports: op.numPorts
-          ? Array(op.numPorts)
-              .fill(1)
-              .map((_, i) => `o${i + 1}`)
-          : ["o1"],
+        // without numPorts it has the default of its type
+        ports: Array(op.numPorts ?? (op.type === "Join" ? 2 : 1))
+          .fill(1)
+          .map((_, i) => `o${i + 1}`),
       })),
     })),
   updateOperator: (id: string, selected: boolean) =>
-- 
2.43.0


From 996f70d291be97eb23328e9365eb30fd7e879fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 38/42] fix: rtbot-server skips a message without a usable
 timestamp or value instead of ending its input

---
 apps/rtbot-server/src/main.rs | 52 ++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/apps/rtbot-server/src/main.rs b/apps/rtbot-server/src/main.rs
index 5e99164..c0eef80 100644
--- a/apps/rtbot-server/src/main.rs
+++ b/apps/rtbot-server/src/main.rs
@@ -141,22 +141,17 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
         if let Text(payload) = msg {
             trace!("Message {:#?}", payload);
             // compute the timestamp
-            let timestamp: u64 = if let Some(mapping) = &input_ws.json_remap.timestamp {
-                let timestamp_finder = JsonPathFinder::from_str(&payload, mapping).unwrap().find();
-                timestamp_finder
-                    .as_array()
-                    .unwrap()
-                    .first()
-                    .unwrap()
-                    .as_u64()
-                    .unwrap()
+            let timestamp: Option<u64> = if let Some(mapping) = &input_ws.json_remap.timestamp {
+                find_first(&payload, mapping).and_then(|v| v.as_u64())
             } else {
-                SystemTime::now()
-                    .duration_since(UNIX_EPOCH)
-                    .unwrap()
-                    .as_millis()
-                    .try_into()
-                    .expect("Unable to cast timestamp value from 'now()' to u64")
+                Some(
+                    SystemTime::now()
+                        .duration_since(UNIX_EPOCH)
+                        .unwrap()
+                        .as_millis()
+                        .try_into()
+                        .expect("Unable to cast timestamp value from 'now()' to u64"),
+                )
             };
 
             // compute the values
@@ -165,10 +160,7 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
                 .values
                 .iter()
                 .map(|mapping| {
-                    let value_finder = JsonPathFinder::from_str(&payload, mapping).unwrap().find();
-                    if let Value::String(value_str) =
-                        value_finder.as_array().unwrap().first().unwrap()
-                    {
+                    if let Some(Value::String(value_str)) = find_first(&payload, mapping) {
                         match value_str.parse::<f64>() {
                             Ok(v) => Some(v),
                             Err(_) => {
@@ -188,9 +180,25 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
             debug!("timestamp {:?}, values {:?}", timestamp, values);
 
             // Notice we are sending here only the first parsed value
-            if let Err(e) = redis_service.add(timestamp, vec![values[0].unwrap()]).await {
-                warn!("Unable to store the data in redis: {:#?}", e);
-            };
+            match (timestamp, values.first().copied().flatten()) {
+                (Some(timestamp), Some(value)) => {
+                    if let Err(e) = redis_service.add(timestamp, vec![value]).await {
+                        warn!("Unable to store the data in redis: {:#?}", e);
+                    };
+                }
+                // a message without them must not stop the stream
+                _ => warn!("No timestamp or value in message {:#?}", payload),
+            }
         }
     }
 }
+
+/// The first match of the json path in the payload, if any
+fn find_first(payload: &str, mapping: &str) -> Option<Value> {
+    JsonPathFinder::from_str(payload, mapping)
+        .ok()?
+        .find()
+        .as_array()?
+        .first()
+        .cloned()
+}
-- 
2.43.0


From 281bcb8b78b9451f400d8f07df425b8ef750c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 39/42] fix: toMermaidJs draws connections whose ports are left
 out in the json

---
 libs/wrappers/python/rtbot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 9a7c173..d3f675e 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -178,7 +178,7 @@ class Program:
             else:
                 toOpArgs = ""
 
-            content += f'{con["from"]}("{fromType}{fromOpArgs}") --> |{con["fromPort"]}:{con["toPort"]}| {con["to"]}("{toType}{toOpArgs}");\n'
+            content += f'{con["from"]}("{fromType}{fromOpArgs}") --> |{con.get("fromPort", "o1")}:{con.get("toPort", "i1")}| {con["to"]}("{toType}{toOpArgs}");\n'
 
         return content
 
-- 
2.43.0


From 7b4ea26d5ba34faa9c001fcefeaf368444ee0b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 40/42] fix: the id of an operator inside a pipeline may
 contain a colon

---
 libs/api/include/rtbot/Pipeline.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index 858f5c2..80d4b49 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -1,8 +1,6 @@
 #ifndef PIPELINE_H
 #define PIPELINE_H
 
-#include <sstream>
-
 #include "rtbot/Operator.h"
 
 namespace rtbot {
@@ -87,11 +85,9 @@ struct Pipeline : public Operator<T, V> {
 
  private:
   static auto split2(string const& s, char delim = ':') {
-    std::istringstream is(s);
-    string word1, word2;
-    getline(is, word1, delim);
-    getline(is, word2, char(0));
-    return make_pair(word1, word2);
+    // the id may contain the delimiter, the name of a port does not
+    auto pos = s.rfind(delim);
+    return make_pair(s.substr(0, pos), s.substr(pos + 1));
   }
 };
 
-- 
2.43.0


From a0686800a1b0d7d40105ae80a572a576b5874a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 41/42] fix: a port that is listed twice in the output is
 returned once

---
 libs/api/include/rtbot/Program.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index d3d2f61..c1fff1d 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -79,12 +79,8 @@ struct Program {
         auto outResults = opResults.at(op->first);
         for (int i = 0; i < op->second.size(); i++) {
           if (outResults.count(op->second.at(i)) > 0) {
-            OperatorMessage<uint64_t, double> opReturn;
-            opReturn.emplace(op->second.at(i), outResults.at(op->second.at(i)));
-            if (toReturn.count(op->first) == 0)
-              toReturn.emplace(op->first, opReturn);
-            else
-              Operator<uint64_t, double>::mergeOutput(toReturn[op->first], opReturn);
+            // a port that is listed twice is still returned once
+            toReturn[op->first][op->second.at(i)] = outResults.at(op->second.at(i));
           }
         }
       }
-- 
2.43.0


From 4d3c06c38d013db052817830fb6516a6688b2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 42/42] fix: the debugger tells the port of an operator from a
 colon in its id

---
 apps/cli/src/tui/store.ts | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 81f5d61..04e0b7e 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -68,11 +68,9 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
       const rows = [];
       const { iteration, maxIteration } = state;
 
-      const opHeaders = operators.reduce(
-        (acc: string[], op: DebuggerOperatorDef) =>
-          op.ports.length > 1 ? [...acc, ...op.ports.map((p) => `${op.id}:${p}`)] : [...acc, op.id],
-        []
-      );
+      // the id of an operator may contain a colon: keep it apart from the port
+      const opPorts = operators.flatMap((op) => op.ports.map((port) => ({ op, port })));
+      const opHeaders = opPorts.map(({ op, port }) => (op.ports.length > 1 ? `${op.id}:${port}` : op.id));
       const headers = ["iter", ...opHeaders];
 
       if (iteration === 0)
@@ -82,11 +80,10 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
 
       for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
-        const row = opHeaders.map((h) => {
-          const [opId, port] = h.split(":");
-          if (opId && r.out[opId]?.[port ?? "o1"]) {
-            const opOutput = r.out[opId]!;
-            return opOutput[port ?? "o1"]!.map(
+        const row = opPorts.map(({ op, port }) => {
+          if (r.out[op.id]?.[port]) {
+            const opOutput = r.out[op.id]!;
+            return opOutput[port]!.map(
               ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
             ).join(", ");
           }
-- 
2.43.0

