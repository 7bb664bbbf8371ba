From 7feeb1dbdcb9b19331fc27b6ea976c0976649e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:45 +0000
Subject: [PATCH 01/20] fix: keep the meaning of bounds outside the token range
 when merging comparisons

Comparing a place with a negative constant (p < 0, p <= -1) or with a bound
every marking satisfies (p >= 0 inside a disjunction) turned into the opposite
constant when conjunctions and disjunctions were merged.
---
 include/PetriEngine/PQL/Expressions.h | 16 ++++++++++++
 src/PetriEngine/PQL/Expressions.cpp   | 35 ++++++++++++++++++---------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/include/PetriEngine/PQL/Expressions.h b/include/PetriEngine/PQL/Expressions.h
index 8f11824..f73c6b4 100644
--- a/include/PetriEngine/PQL/Expressions.h
+++ b/include/PetriEngine/PQL/Expressions.h
@@ -836,7 +836,17 @@ namespace PetriEngine {
                 void invert()
                 {
                     if(_lower == 0 && _upper == std::numeric_limits<uint32_t>::max())
+                    {
+                        set_unsatisfiable();
+                        return;
+                    }
+                    if(_lower > _upper)
+                    {
+                        // nothing satisfies the constraint, so everything satisfies its negation
+                        _lower = 0;
+                        _upper = std::numeric_limits<uint32_t>::max();
                         return;
+                    }
                     assert(_lower == 0 || _upper == std::numeric_limits<uint32_t>::max());
                     if(_lower == 0)
                     {
@@ -854,6 +864,12 @@ namespace PetriEngine {
                     }
                 }
 
+                void set_unsatisfiable()
+                {
+                    _lower = std::numeric_limits<uint32_t>::max();
+                    _upper = 0;
+                }
+
                 void intersect(const cons_t& other)
                 {
                     _lower = std::max(_lower, other._lower);
diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 8611cde..8a64a7e 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -534,7 +534,7 @@ namespace PetriEngine {
                 {
                     continue;
                 }
-                else if (c._upper != std::numeric_limits<uint32_t>::max() && c._lower != 0 && neg)
+                else if (c._upper != std::numeric_limits<uint32_t>::max() && c._lower != 0 && c._lower <= c._upper && neg)
                 {
                     throw base_error("MERGE OF CONJUNCT AND DISJUNCT NOT ALLOWED");
                 }
@@ -559,7 +559,7 @@ namespace PetriEngine {
                 auto cmp = dynamic_cast<CompareCondition*>(c.get());
                 assert(cmp);
                 auto id = dynamic_cast<UnfoldedIdentifierExpr*>((*cmp)[0].get());
-                uint32_t val;
+                int64_t val;
                 bool inverted = false;
                 EvaluationContext context;
                 if(!id)
@@ -576,30 +576,41 @@ namespace PetriEngine {
                 cons_t next;
                 next._place = id->offset();
 
+                // the constant can be outside the range of token counts
+                int64_t lower = 0;
+                int64_t upper = std::numeric_limits<uint32_t>::max();
+                bool invert = negated;
                 if(dynamic_cast<LessThanOrEqualCondition*>(c.get()))
-                    if(inverted) next._lower = val;
-                    else         next._upper = val;
+                    if(inverted) lower = val;
+                    else         upper = val;
                 else if(dynamic_cast<LessThanCondition*>(c.get()))
-                    if(inverted) next._lower = val+1;
-                    else         next._upper = val-1;
+                    if(inverted) lower = val+1;
+                    else         upper = val-1;
                 else if(dynamic_cast<EqualCondition*>(c.get()))
                 {
                     assert(!negated);
-                    next._lower = val;
-                    next._upper = val;
+                    lower = val;
+                    upper = val;
                 }
                 else if(dynamic_cast<NotEqualCondition*>(c.get()))
                 {
                     assert(negated);
-                    next._lower = val;
-                    next._upper = val;
-                    negated = false; // we already handled negation here!
+                    lower = val;
+                    upper = val;
+                    invert = false; // we already handled negation here!
                 }
                 else
                 {
                     throw base_error("UNKNOWN");
                 }
-                if(negated)
+                if(upper < 0 || lower > std::numeric_limits<uint32_t>::max())
+                    next.set_unsatisfiable();
+                else
+                {
+                    next._lower = std::max<int64_t>(lower, 0);
+                    next._upper = std::min<int64_t>(upper, std::numeric_limits<uint32_t>::max());
+                }
+                if(invert)
                     next.invert();
 
                 auto lb = std::lower_bound(std::begin(_constraints), std::end(_constraints), next);
-- 
2.43.0


From ec44a7a90691ea63b9c2749f8e7aa4f529ad5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 02/20] fix: do not cancel common factors when comparing
 products

p * 2 == p * 3 holds when p is empty; cancelling p from both sides made it
constantly false.
---
 src/PetriEngine/PQL/PushNegation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 197a4e0..ca4b20a 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -94,10 +94,6 @@ namespace PetriEngine { namespace PQL {
             if(auto p2 = std::dynamic_pointer_cast<PlusExpr>(_expr2))
                 remdup(p1, p2);
 
-        if(auto m1 = std::dynamic_pointer_cast<MultiplyExpr>(_expr1))
-            if(auto m2 = std::dynamic_pointer_cast<MultiplyExpr>(_expr2))
-                remdup(m1, m2);
-
         if(auto p1 = std::dynamic_pointer_cast<CommutativeExpr>(_expr1))
             if(auto p2 = std::dynamic_pointer_cast<CommutativeExpr>(_expr2))
                 return p1->_exprs.size() + p1->_ids.size() + p2->_exprs.size() + p2->_ids.size() == 0;
-- 
2.43.0


From 9aa4dcbaa58027198acbbf551ecd1dd2f9fb953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:37 +0000
Subject: [PATCH 03/20] fix: TAR refutation of compare conjunctions keeps
 earlier restrictions of a place

---
 src/PetriEngine/TAR/RangeContext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/TAR/RangeContext.cpp b/src/PetriEngine/TAR/RangeContext.cpp
index b6b6da4..fc8c432 100644
--- a/src/PetriEngine/TAR/RangeContext.cpp
+++ b/src/PetriEngine/TAR/RangeContext.cpp
@@ -294,8 +294,8 @@ namespace PetriEngine {
             }
             else {
                 auto& added = _ranges.find_or_add(c._place);
-                added._range._lower = std::max(c._lower, pr._range._lower);
-                added._range._upper = std::min(c._upper, pr._range._upper);
+                added._range._lower = std::max(c._lower, added._range._lower);
+                added._range._upper = std::min(c._upper, added._range._upper);
                 assert(added._range._lower <= _base[c._place]);
                 assert(added._range._upper >= _base[c._place]);
                 if(_dirty[c._place])
@@ -312,7 +312,7 @@ namespace PetriEngine {
                 return;
             }
             assert(priority > 0);
-            _ranges.find_or_add(pr._place) = pr;
+            _ranges.find_or_add(pr._place) &= pr;
             _ranges.compact();
         }
     }
-- 
2.43.0


From 8f1d8eae33bb831998a4bd120c9ed7765e1c6f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:34 +0000
Subject: [PATCH 04/20] fix: intersecting two range predicates no longer
 duplicates shared places

prvector_t::operator&=(const prvector_t&) did not advance the second
iterator after intersecting a place present in both operands, so the place
was inserted a second time and the vector was no longer one sorted range
per place.
---
 include/PetriEngine/TAR/range.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/PetriEngine/TAR/range.h b/include/PetriEngine/TAR/range.h
index e75d1ce..a523e5e 100644
--- a/include/PetriEngine/TAR/range.h
+++ b/include/PetriEngine/TAR/range.h
@@ -415,6 +415,7 @@ namespace PetriEngine {
                     } else {
                         *sit &= *oit;
                         ++sit;
+                        ++oit;
                     }
                 }
                 if (oit != other._ranges.end()) {
-- 
2.43.0


From 3e99a88eae39ed5ec056663d0bd5ecdfc1bedc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:08 +0000
Subject: [PATCH 05/20] fix: x != y no longer keeps only the equal colours of
 two multi-colour variables

restrictInEquality first restricts both variables by equality; when both
had more than one colour handleInequalityVars returned without restoring
the intervals from before, so bindings with different colours were lost.
---
 src/PetriEngine/Colored/GuardRestrictor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 06954fa..1de8c15 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -423,8 +423,10 @@ namespace PetriEngine{
             const uint32_t leftColorsAfter = variableMap[varMapIndex][var1].getContainedColors();
             if((leftColorsBefore > 1 && rightColorsBefore > 1) || leftColorsBefore == 0 || rightColorsBefore == 0){
                 //If both variables have more than one color in their interval we cannot restrict the intervals
+                //(so the intervals from before applying equality are kept)
                 //and if either side did not have any colors the varmap is not valid.
-                return;
+                variableMap[varMapIndex][var1] = variableMapCopy[varMapIndex].find(var1)->second;
+                variableMap[varMapIndex][var2] = variableMapCopy[varMapIndex].find(var2)->second;
             } else if (leftColorsBefore == 1 && rightColorsBefore == 1){
                 //if we are comparing single colors and there is an interval after equality
                 //it means the colors were equal so no interval can be kept for inequality.
-- 
2.43.0


From 24427f3ed4e4e03a9d93c20536b32089d8b66fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:33 +0000
Subject: [PATCH 06/20] fix: a constant bound in a guard is applied to the
 shifted value of the variable

For guards such as x++ < c the bound was applied to x itself, dropping
bindings for which the successor wraps around.
---
 src/PetriEngine/Colored/GuardRestrictor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 1de8c15..bab78bc 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -136,11 +136,21 @@ namespace PetriEngine{
 
                 expandIdVec(varMap, mainVarModifierMap, otherVarModifierMap, varPositions, constantMap, otherVar, idVec, rightTupleInterval.tupleSize(), index + idVec.size());
 
+                //the constant bounds the (shifted) value of the variable expression, not the variable itself
+                const int32_t varModifier = getVarModifier(otherVarModifierMap.find(var)->second.back(), index);
+                if(varModifier != 0){
+                    rightTupleInterval.applyModifier(-varModifier, var->colorType->getConstituentsSizes());
+                }
+
                 if(lessthan){
                     rightTupleInterval.constrainUpper(idVec, strict);
                 } else {
                     rightTupleInterval.constrainLower(idVec, strict);
                 }
+
+                if(varModifier != 0){
+                    rightTupleInterval.applyModifier(varModifier, var->colorType->getConstituentsSizes());
+                }
             }
         }
 
-- 
2.43.0


From 6ceb1b45f0d2b121c8228091e70a3d139e8e8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:12 +0000
Subject: [PATCH 07/20] fix: cyclic shifts of colours by more than the size of
 the colour type

ctSize + (id + modifier) went negative for modifiers below -(ctSize+id)
(e.g. four predecessors over three colours) and was then reduced as an
unsigned number.
---
 include/PetriEngine/Colored/Intervals.h       | 10 +++++++---
 src/PetriEngine/Colored/GuardRestrictor.cpp   |  8 +++-----
 src/PetriEngine/Colored/IntervalGenerator.cpp |  6 ++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/PetriEngine/Colored/Intervals.h b/include/PetriEngine/Colored/Intervals.h
index 140b343..ae13baa 100644
--- a/include/PetriEngine/Colored/Intervals.h
+++ b/include/PetriEngine/Colored/Intervals.h
@@ -308,9 +308,13 @@ namespace PetriEngine {
             }
 
             static std::pair<uint32_t,uint32_t> shiftInterval(uint32_t lower, uint32_t upper, uint32_t ctSize, int32_t modifier) {
-                int32_t lower_val = ctSize + (lower + modifier);
-                int32_t upper_val = ctSize + (upper + modifier);
-                return std::make_pair(lower_val % ctSize, upper_val % ctSize);
+                return std::make_pair(shiftColor(lower, ctSize, modifier), shiftColor(upper, ctSize, modifier));
+            }
+
+            // the color modifier steps away in the cyclic order, for modifiers of any size and sign
+            static uint32_t shiftColor(uint32_t color, uint32_t ctSize, int32_t modifier) {
+                const int64_t val = ((int64_t)color + modifier) % (int64_t)ctSize;
+                return val < 0 ? val + ctSize : val;
             }
 
             bool hasValidIntervals() const {
diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index bab78bc..16322a7 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -37,8 +37,7 @@ namespace PetriEngine{
         interval_t GuardRestrictor::getIntervalFromIds(const std::vector<uint32_t> &idVec, uint32_t ctSize, int32_t modifier) {
             interval_t interval;
             for(auto id : idVec){
-                int32_t val = ctSize + (id + modifier);
-                auto colorVal = val % ctSize;
+                auto colorVal = interval_vector_t::shiftColor(id, ctSize, modifier);
                 interval.addRange(colorVal,colorVal);
             }
             return interval;
@@ -82,7 +81,7 @@ namespace PetriEngine{
                     int32_t leftVarMod = getVarModifier(otherVarModifierMap.find(otherVar)->second.back(), index);
 
                     for(auto& id : idVec){
-                        id = (otherVar->colorType->size()+(id + leftVarMod)) % otherVar->colorType->size();
+                        id = interval_vector_t::shiftColor(id, otherVar->colorType->size(), leftVarMod);
                     }
                     index+= idVec.size() - oldSize;
                 }
@@ -110,8 +109,7 @@ namespace PetriEngine{
 
                     for(auto id : colorIdVec){
                         for(auto& interval : intervalVec){
-                            int32_t val = otherVar->colorType->size() + (id + leftVarModifier);
-                            auto colorVal = val % otherVar->colorType->size();
+                            auto colorVal = interval_vector_t::shiftColor(id, otherVar->colorType->size(), leftVarModifier);
                             interval.addRange(colorVal,colorVal);
                         }
                     }
diff --git a/src/PetriEngine/Colored/IntervalGenerator.cpp b/src/PetriEngine/Colored/IntervalGenerator.cpp
index 9c7cf86..32c979a 100644
--- a/src/PetriEngine/Colored/IntervalGenerator.cpp
+++ b/src/PetriEngine/Colored/IntervalGenerator.cpp
@@ -27,10 +27,8 @@ namespace PetriEngine {
             assert(varPosition + varColorTypes.size() <= interval.size());
             for(uint32_t i = varPosition; i < varPosition + varColorTypes.size(); i++){
                 auto ctSize = varColorTypes[i - varPosition]->size();
-                int32_t lower_val = ctSize + (interval[i]._lower + varModifier);
-                int32_t upper_val = ctSize + (interval[i]._upper + varModifier);
-                uint32_t lower = lower_val % ctSize;
-                uint32_t upper = upper_val % ctSize;
+                uint32_t lower = interval_vector_t::shiftColor(interval[i]._lower, ctSize, varModifier);
+                uint32_t upper = interval_vector_t::shiftColor(interval[i]._upper, ctSize, varModifier);
 
                 if(lower > upper ){
                     if(lower == upper+1){
-- 
2.43.0


From d2e37e5b19eb37a11c6ebe1510318f66792a65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:35 +0000
Subject: [PATCH 08/20] fix: compare and store constants of linear forms in 64
 bits

Initial markings above 2^31-1 were truncated to int when a comparison was
decided from the linear forms alone, so satisfied bounds could be reported
as false (and the reverse).
---
 include/PetriEngine/Simplification/Member.h | 14 +++++++-------
 src/PetriEngine/PQL/PotencyVisitor.cpp      | 12 ++++++------
 src/PetriEngine/PQL/Simplifier.cpp          | 12 ++++++------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/PetriEngine/Simplification/Member.h b/include/PetriEngine/Simplification/Member.h
index c30801b..cd9e03c 100644
--- a/include/PetriEngine/Simplification/Member.h
+++ b/include/PetriEngine/Simplification/Member.h
@@ -20,14 +20,14 @@ namespace PetriEngine {
             Member(std::vector<int64_t>&& vec, int64_t constant, bool canAnalyze = true)
                     : _variables(vec), _constant(constant), _canAnalyze(canAnalyze) {
             }
-            Member(int constant, bool canAnalyse = true)
+            Member(int64_t constant, bool canAnalyse = true)
                     : _constant(constant), _canAnalyze(canAnalyse) {
             }
             Member(){}
 
             virtual ~Member(){}
 
-            int constant() const    { return _constant; };
+            int64_t constant() const    { return _constant; };
             bool canAnalyze() const { return _canAnalyze; };
             size_t size() const     { return _variables.size(); }
             std::vector<int64_t>& variables() { return _variables; }
@@ -133,16 +133,16 @@ namespace PetriEngine {
             }
 
             Trivial operator<(const Member& m) const {
-                return trivialLessThan(m, std::less<int>());
+                return trivialLessThan(m, std::less<int64_t>());
             }
             Trivial operator<=(const Member& m) const {
-                return trivialLessThan(m, std::less_equal<int>());
+                return trivialLessThan(m, std::less_equal<int64_t>());
             }
             Trivial operator>(const Member& m) const {
-                return m.trivialLessThan(*this, std::less<int>());
+                return m.trivialLessThan(*this, std::less<int64_t>());
             }
             Trivial operator>=(const Member& m) const {
-                return m.trivialLessThan(*this, std::less_equal<int>());
+                return m.trivialLessThan(*this, std::less_equal<int64_t>());
             }
 
         private:
@@ -187,7 +187,7 @@ namespace PetriEngine {
                 _variables.clear();
             }
 
-            Trivial trivialLessThan(const Member& m2, std::function<bool (int, int)> compare) const {
+            Trivial trivialLessThan(const Member& m2, std::function<bool (int64_t, int64_t)> compare) const {
                 MemberType type1 = getType();
                 MemberType type2 = m2.getType();
 
diff --git a/src/PetriEngine/PQL/PotencyVisitor.cpp b/src/PetriEngine/PQL/PotencyVisitor.cpp
index 4f8cb16..8908e54 100644
--- a/src/PetriEngine/PQL/PotencyVisitor.cpp
+++ b/src/PetriEngine/PQL/PotencyVisitor.cpp
@@ -162,7 +162,7 @@ namespace PetriEngine { namespace PQL {
         AbstractProgramCollection_ptr lps;
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
-            int constant = m2.constant() - m1.constant();
+            int64_t constant = m2.constant() - m1.constant();
             m1 -= m2;
             lps = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
                                                   (_context.negated() ? Simplification::OP_GE
@@ -184,7 +184,7 @@ namespace PetriEngine { namespace PQL {
         AbstractProgramCollection_ptr lps;
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
-            int constant = m2.constant() - m1.constant();
+            int64_t constant = m2.constant() - m1.constant();
             m1 -= m2;
             lps = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
                                                   (_context.negated() ? Simplification::OP_GT
@@ -209,7 +209,7 @@ namespace PetriEngine { namespace PQL {
                 return;
             else
             {
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 if (_context.negated())
                 {
@@ -245,7 +245,7 @@ namespace PetriEngine { namespace PQL {
                 return;
             else
             {
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 if (!_context.negated())
                 {
@@ -291,7 +291,7 @@ namespace PetriEngine { namespace PQL {
             {
                 auto m2 = memberForPlace(c._place, _context);
                 Member m1(c._lower);
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 std::shared_ptr<SingleProgram> lp;
                 if (!neg)
@@ -311,7 +311,7 @@ namespace PetriEngine { namespace PQL {
             {
                 auto m1 = memberForPlace(c._place, _context);
                 Member m2(c._upper);
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 std::shared_ptr<SingleProgram> lp;
                 if (!neg)
diff --git a/src/PetriEngine/PQL/Simplifier.cpp b/src/PetriEngine/PQL/Simplifier.cpp
index 85499d9..59b24cd 100644
--- a/src/PetriEngine/PQL/Simplifier.cpp
+++ b/src/PetriEngine/PQL/Simplifier.cpp
@@ -347,7 +347,7 @@ namespace PetriEngine { namespace PQL {
             if (eval != Trivial::Indeterminate) {
                 RETURN(Retval(BooleanCondition::getShared(eval == Trivial::True)))
             } else { // if no trivial case
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -388,7 +388,7 @@ namespace PetriEngine { namespace PQL {
             if (eval != Trivial::Indeterminate) {
                 RETURN(Retval(BooleanCondition::getShared(eval == Trivial::True)))
             } else { // if no trivial case
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -430,7 +430,7 @@ namespace PetriEngine { namespace PQL {
                 RETURN(Retval(BooleanCondition::getShared(
                         _context.negated() ? (m1.constant() != m2.constant()) : (m1.constant() == m2.constant()))))
             } else {
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 neglps =
@@ -473,7 +473,7 @@ namespace PetriEngine { namespace PQL {
                 RETURN(Retval(std::make_shared<BooleanCondition>(
                         _context.negated() ? (m1.constant() == m2.constant()) : (m1.constant() != m2.constant()))))
             } else {
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps =
@@ -535,7 +535,7 @@ namespace PetriEngine { namespace PQL {
                     } else
                         nconstraints.back()._lower = 0;
                 } else { // if no trivial case
-                    int constant = m2.constant() - m1.constant();
+                    int64_t constant = m2.constant() - m1.constant();
                     m1 -= m2;
                     m2 = m1;
                     auto lp = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -558,7 +558,7 @@ namespace PetriEngine { namespace PQL {
                     } else
                         nconstraints.back()._upper = std::numeric_limits<uint32_t>::max();
                 } else { // if no trivial case
-                    int constant = m2.constant() - m1.constant();
+                    int64_t constant = m2.constant() - m1.constant();
                     m1 -= m2;
                     m2 = m1;
                     auto lp = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
-- 
2.43.0


From f579387c011eed6a820eba78eed745f544b430d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:49 +0000
Subject: [PATCH 09/20] fix: stubborn sets for queries with a unary minus

---
 src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index db53e6e..f0a00a8 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -337,12 +337,12 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        Visitor::visit(decr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        Visitor::visit(incr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::LiteralExpr *element)
-- 
2.43.0


From 69f7ddb90916d1ffbfc743099b20114114c01351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:23 +0000
Subject: [PATCH 10/20] fix: stubborn sets for products with a negative
 constant

---
 src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index f0a00a8..46612bd 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -311,7 +311,7 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
-        if ((element->places().size() + element->expressions().size()) == 1) {
+        if (element->constant() >= 0 && (element->places().size() + element->expressions().size()) == 1) {
             for (auto &i : element->places()) _stubborn.presetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else {
@@ -328,7 +328,7 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
-        if ((element->places().size() + element->expressions().size()) == 1) {
+        if (element->constant() >= 0 && (element->places().size() + element->expressions().size()) == 1) {
             for (auto &i : element->places()) _stubborn.postsetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else
-- 
2.43.0


From f5e73282ac737b78968c19bc46a515d0c084bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:12 +0000
Subject: [PATCH 11/20] fix: record values of expressions in 64 bits

---
 include/PetriEngine/PQL/PQL.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/PetriEngine/PQL/PQL.h b/include/PetriEngine/PQL/PQL.h
index 3271437..f2282ed 100644
--- a/include/PetriEngine/PQL/PQL.h
+++ b/include/PetriEngine/PQL/PQL.h
@@ -72,7 +72,7 @@ namespace PetriEngine {
 
         /** Representation of an expression */
         class Expr : public std::enable_shared_from_this<Expr>{
-            int _eval = 0;
+            int64_t _eval = 0;
         public:
             /** Virtual destructor, an expression should know it subexpressions */
             virtual ~Expr();
@@ -81,11 +81,11 @@ namespace PetriEngine {
 
             [[nodiscard]] virtual bool placeFree() const = 0;
 
-            void setEval(int eval) {
+            void setEval(int64_t eval) {
                 _eval = eval;
             }
 
-            [[nodiscard]] int getEval() const {
+            [[nodiscard]] int64_t getEval() const {
                 return _eval;
             }
 
-- 
2.43.0


From 57dda7a5032882db71d121af695388f31af89326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 12/20] fix: reject multiset sums above the largest token count
 (SequenceMultiSet::setCount, operator+=)

---
 .../ExplicitColored/SequenceMultiSet.h           | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/SequenceMultiSet.h b/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
index 9bc2918..4de906c 100644
--- a/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
+++ b/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
@@ -30,17 +30,19 @@ namespace PetriEngine::ExplicitColored {
         void setCount(const Color_t& color, MarkingCount_t count) {
             const auto it = lower_bound(color);
 
-            if (count > std::numeric_limits<sMarkingCount_t>::max() || _cardinality + count < count) {
+            const bool present = it != _counts.end() && it->first == color;
+            if (count > std::numeric_limits<sMarkingCount_t>::max()
+                || static_cast<int64_t>(_cardinality) - (present ? it->second : 0) + count > std::numeric_limits<sMarkingCount_t>::max()) {
                 throw explicit_error{ExplicitErrorType::TOO_MANY_TOKENS};
             }
 
-            _cardinality += static_cast<sMarkingCount_t>(count);
-
-            if (it != _counts.end() && it->first == color) {
+            if (present) {
                 _cardinality -= it->second;
+                _cardinality += static_cast<sMarkingCount_t>(count);
                 it->second = static_cast<sMarkingCount_t>(count);
                 return;
             }
+            _cardinality += static_cast<sMarkingCount_t>(count);
             _counts.insert(it, {color, count});
         }
 
@@ -68,11 +70,11 @@ namespace PetriEngine::ExplicitColored {
         SequenceMultiSet& operator+=(const SequenceMultiSet& other) {
             auto aIt = _counts.begin();
             auto bIt = other._counts.begin();
+            if (other._cardinality > 0 && _cardinality > std::numeric_limits<sMarkingCount_t>::max() - other._cardinality) {
+                throw explicit_error{ExplicitErrorType::TOO_MANY_TOKENS};
+            }
             while (aIt != _counts.end() && bIt != other._counts.end()) {
                 if (aIt->first == bIt->first) {
-                    if (bIt->second > 0 && _cardinality > std::numeric_limits<sMarkingCount_t>::max() - bIt->second) {
-                        throw explicit_error{ExplicitErrorType::TOO_MANY_TOKENS};
-                    }
                     aIt->second += bIt->second;
                     _cardinality += bIt->second;
                     ++aIt;
-- 
2.43.0


From c4384a5932488d71dd59796db93adfacac3c1366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 13/20] fix: scaling a multiset by zero divided by zero and
 multiplied before checking (SequenceMultiSet::operator*=)

---
 include/PetriEngine/ExplicitColored/SequenceMultiSet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/SequenceMultiSet.h b/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
index 4de906c..30a3c86 100644
--- a/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
+++ b/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
@@ -125,12 +125,12 @@ namespace PetriEngine::ExplicitColored {
         }
 
         SequenceMultiSet& operator*=(const MarkingCount_t scalar) {
+            if (scalar != 0 && _cardinality > std::numeric_limits<sMarkingCount_t>::max() / scalar) {
+                throw explicit_error{ ExplicitErrorType::TOO_MANY_TOKENS };
+            }
             for (auto& [color, count] : _counts) {
                 count *= static_cast<sMarkingCount_t>(scalar);
             }
-            if (_cardinality > std::numeric_limits<sMarkingCount_t>::max() / scalar) {
-                throw explicit_error{ ExplicitErrorType::TOO_MANY_TOKENS };
-            }
 
             _cardinality *= static_cast<sMarkingCount_t>(scalar);
             return *this;
-- 
2.43.0


From b6fdf2ff989e042be698ef764635907c289c44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 14/20] fix: trailing negative counts of the smaller side made
 multiset comparison fail (SequenceMultiSet::operator<=, >=)

---
 include/PetriEngine/ExplicitColored/SequenceMultiSet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/SequenceMultiSet.h b/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
index 30a3c86..081790f 100644
--- a/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
+++ b/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
@@ -189,7 +189,7 @@ namespace PetriEngine::ExplicitColored {
                     return false;
                 }
             }
-            while (bIt != other._counts.end() && bIt->second == 0) {
+            while (bIt != other._counts.end() && bIt->second <= 0) {
                 ++bIt;
             }
             if (bIt != other._counts.end()) {
@@ -227,7 +227,7 @@ namespace PetriEngine::ExplicitColored {
                     ++bIt;
                 }
             }
-            while (aIt != _counts.end() && aIt->second == 0) {
+            while (aIt != _counts.end() && aIt->second <= 0) {
                 ++aIt;
             }
             if (aIt != _counts.end()) {
-- 
2.43.0


From 9a104b310babc178bb9371c4cd286b878d4fd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 15/20] fix: constant tuples in arc expressions were encoded
 with the size of another component (ArcCompiler)

---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index 785a390..cb83c83 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -715,7 +715,7 @@ namespace PetriEngine::ExplicitColored {
                             hasVariable = true;
                             break;
                         }
-                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[i]));
+                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[newColorSequence.size()]));
                     }
                     if (!hasVariable) {
                         constantMultiSet.addCount(ColorSequence { newColorSequence, expr->getColorMaxes() }, expr->getSignedCount());
-- 
2.43.0


From 6c2bf28eba82f8e0e1e088d9ed13455293fa1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 16/20] fix: upper bound of an arc subtraction was not an upper
 bound (ArcExpressionSubtraction)

---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index cb83c83..14b11b9 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -139,9 +139,8 @@ namespace PetriEngine::ExplicitColored {
         }
 
         const ColoredMinimalMarking getMaximalColorMarking() const override {
-            auto rv = _lhs->getMinimalColorMarking();
-            rv.minimalMarkingMultiSet -= _rhs->getMaximalColorMarking().minimalMarkingMultiSet;
-            return rv;
+            // subtracting can only take tokens away
+            return _lhs->getMaximalColorMarking();
         }
 
         const std::set<Variable_t> & getVariables() const override {
-- 
2.43.0


From 45e75c7c9bd77f6d1bb0b38a07bd24ed6bed93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 17/20] fix: read past the transitions when no transition is
 left (ColoredSuccessorGenerator::_nextEven)

---
 .../SuccessorGenerator/ColoredSuccessorGenerator.h             | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h b/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
index 7f288ac..c0f4227 100644
--- a/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
+++ b/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
@@ -98,10 +98,10 @@ namespace PetriEngine::ExplicitColored {
         // SuccessorGenerator but only considers current transition
         std::pair<ColoredPetriNetStateEven, TraceMapStep> _nextEven(ColoredPetriNetStateEven &state) const {
             auto [tid, bid] = state.getNextPair();
-            auto totalBindings = _net._transitions[tid].totalBindings;
             Binding binding;
             //If bid is updated at the end optimizations seem to make the loop not work
             while (bid != std::numeric_limits<Binding_t>::max()) {
+                const auto totalBindings = _net._transitions[tid].totalBindings;
                 const auto nextBid = findNextValidBinding(state.marking, tid, bid, totalBindings, binding, state.id);
                 state.updatePair(tid, nextBid);
                 if (nextBid != std::numeric_limits<Binding_t>::max()) {
@@ -117,7 +117,6 @@ namespace PetriEngine::ExplicitColored {
                     });
                 }
                 std::tie(tid, bid) = state.getNextPair();
-                totalBindings = _net._transitions[tid].totalBindings;
             }
             return std::make_pair(ColoredPetriNetStateEven {{}, 0}, TraceMapStep {});
         }
-- 
2.43.0


From 2ed3daa7e6db4c03aa11ca49f18604ecfa20f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 18/20] fix: constraints on a variable of product type
 considered one component only (ColoredSuccessorGenerator)

---
 .../SuccessorGenerator/ColoredSuccessorGenerator.cpp        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp b/src/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp
index 5e0b0aa..a34f3ec 100644
--- a/src/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp
+++ b/src/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp
@@ -112,9 +112,13 @@ namespace PetriEngine::ExplicitColored{
                     values.colors.reserve(place.counts().size());
                 }
 
+                const auto& colorType = *_net._places[constraint.place].colorType;
                 for (const auto& tokens : place.counts()) {
                     auto bindingValue = addColorOffset(
-                        _net._places[constraint.place].colorType->colorCodec.decode(tokens.first, constraint.colorIndex),
+                        // a variable that ranges over the whole product type is bound to the whole token
+                        variableColorSize == colorType.colorSize
+                            ? tokens.first
+                            : colorType.colorCodec.decode(tokens.first, constraint.colorIndex),
                         -constraint.colorOffset,
                         variableColorSize
                     );
-- 
2.43.0


From 9ef772817a6c670aac662675103c57d09e91bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:31 +0000
Subject: [PATCH 19/20] fix: assigning from an empty light_deque left no room
 for an element

---
 include/utils/structures/light_deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/structures/light_deque.h b/include/utils/structures/light_deque.h
index 9f6d307..c0bbfe4 100644
--- a/include/utils/structures/light_deque.h
+++ b/include/utils/structures/light_deque.h
@@ -33,7 +33,7 @@ class light_deque
             delete[] (uint8_t*)_data;
             _front = 0;
             _back = 0;
-            _size = other.size();
+            _size = other.empty() ? 1 : other.size();
             _data = (T*)new uint8_t[_size*sizeof(T)];
             for(auto& e : other)
                 push_back(e);
-- 
2.43.0


From 9e0acaf3da040f7d949091c541619243f00bb3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:31 +0000
Subject: [PATCH 20/20] fix: a transition's potency could wrap around to zero,
 after which RandomPotencyQueue::pop could pick no queue

---
 src/PetriEngine/Structures/PotencyQueue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Structures/PotencyQueue.cpp b/src/PetriEngine/Structures/PotencyQueue.cpp
index c41af49..1960232 100644
--- a/src/PetriEngine/Structures/PotencyQueue.cpp
+++ b/src/PetriEngine/Structures/PotencyQueue.cpp
@@ -1,6 +1,9 @@
 #include "PetriEngine/Structures/PotencyQueue.h"
 #include "PetriEngine/PQL/Contexts.h"
 
+#include <algorithm>
+#include <limits>
+
 namespace PetriEngine {
     namespace Structures {
         PotencyQueue::PotencyQueue(const std::vector<MarkVal> &initPotencies) {
@@ -76,7 +79,8 @@ namespace PetriEngine {
             uint32_t dist = query->distance(*context);
 
             if (dist < _currentParentDist) {
-                _potencies[t] += _currentParentDist - dist;
+                // saturate: a potency that wraps around to zero would never be picked
+                _potencies[t] += std::min(_currentParentDist - dist, std::numeric_limits<uint32_t>::max() - _potencies[t]);
             } else if (dist > _currentParentDist && _potencies[t] != 0) {
                 if (_potencies[t] - 1 >= dist - _currentParentDist)
                     _potencies[t] -= dist - _currentParentDist;
-- 
2.43.0

