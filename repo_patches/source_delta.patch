From 78b49903d4affad5295cfbec533626638e155777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 01/43] fix: object variables over an ancestor type follow
 later additions and removals of objects

---
 src/PLASMA/PlanDatabase/base/PlanDatabase.cc | 44 +++++++++++++-------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
index 56c1c39..b008c2d 100644
--- a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
+++ b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
@@ -179,14 +179,21 @@ namespace EUROPA{
       m_objectsByType.insert(std::make_pair(type, object));
     }
 
-    // Now we must push the insertion to any connected variables.
-    ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(object->getType());
-    while (it != m_objectVariablesByObjectType.end() && it->first == object->getType()){
-      ConstrainedVariableId connectedObjectVariable = it->second.first;
-      check_error(connectedObjectVariable.isValid());
-      if(!connectedObjectVariable->isClosed())
-        connectedObjectVariable->insert(object->getKey());
-      ++it;
+    // Now we must push the insertion to any connected variables, which range over the type
+    // of the object or over one of its ancestors.
+    type = object->getType();
+    for(bool done = false; !done;){
+      ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(type);
+      while (it != m_objectVariablesByObjectType.end() && it->first == type){
+        ConstrainedVariableId connectedObjectVariable = it->second.first;
+        check_error(connectedObjectVariable.isValid());
+        if(!connectedObjectVariable->isClosed())
+          connectedObjectVariable->insert(object->getKey());
+        ++it;
+      }
+      done = !m_schema->hasParent(type);
+      if(!done)
+        type = m_schema->getParent(type);
     }
 
     publish(notifyAdded(object));
@@ -218,13 +225,20 @@ namespace EUROPA{
         ++it;
     }
 
-    // Now we must push the removal to any connected variables.
-    ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(object->getType());
-    while (it != m_objectVariablesByObjectType.end() && it->first == object->getType()){
-      ConstrainedVariableId connectedObjectVariable = it->second.first;
-      check_error(connectedObjectVariable.isValid());
-      connectedObjectVariable->remove(object->getKey());
-      ++it;
+    // Now we must push the removal to any connected variables, which range over the type
+    // of the object or over one of its ancestors.
+    std::string type = object->getType();
+    for(bool done = false; !done;){
+      ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(type);
+      while (it != m_objectVariablesByObjectType.end() && it->first == type){
+        ConstrainedVariableId connectedObjectVariable = it->second.first;
+        check_error(connectedObjectVariable.isValid());
+        connectedObjectVariable->remove(object->getKey());
+        ++it;
+      }
+      done = !m_schema->hasParent(type);
+      if(!done)
+        type = m_schema->getParent(type);
     }
 
     publish(notifyRemoved(object));
-- 
2.43.0


From f7c8faf8179553a1b5010aa557962dbfa76af4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 02/43] fix: assigning an interval domain copies the lower
 bound

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 9d7897b..e82aa0e 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -660,7 +660,7 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   Domain& IntervalDomain::operator=(const Domain& dom) {
     safeComparison(*this, dom);
     check_error(m_listener.isNoId());
-    m_lb = dom.getUpperBound();
+    m_lb = dom.getLowerBound();
     m_ub = dom.getUpperBound();
     m_closed = dom.isFinite();
     return(*this);
-- 
2.43.0


From b319a723b476d649853b89ce5aa521e89c95ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 03/43] fix: PSPlanDatabaseClient::createToken passed a null
 pointer as the token name

---
 src/PLASMA/PlanDatabase/base/DbClient.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/DbClient.cc b/src/PLASMA/PlanDatabase/base/DbClient.cc
index 2d32523..6d9722e 100644
--- a/src/PLASMA/PlanDatabase/base/DbClient.cc
+++ b/src/PLASMA/PlanDatabase/base/DbClient.cc
@@ -486,7 +486,7 @@ void DbClient::deleteToken(const TokenId token, const std::string& name) {
 
   PSToken* PSPlanDatabaseClientImpl::createToken(const std::string& predicateName, bool rejectable, bool isFact)
   {
-      TokenId tok = m_client->createToken(predicateName.c_str(),NULL, rejectable,isFact);
+      TokenId tok = m_client->createToken(predicateName, "", rejectable, isFact);
       return dynamic_cast<PSToken*>(static_cast<Token*>(tok));
   }
 
-- 
2.43.0


From f8b1374e0b088f407a936192fc1e506c61e64da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 04/43] fix: membership of an enumerated domain looks at the
 nearest smaller value too

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index e82aa0e..bfce637 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -250,11 +250,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
       // Try fast compare first, then epsilon safe version
       if (value == elem || compareEqual(value, elem))
         return true;
-      if(it != m_values.begin()) {
-        --it;
-        // Before giving up, see if prior position is within epsilon
-        return it != m_values.end() && compareEqual(value, *it);
-      }
+    }
+    // Before giving up, see if prior position is within epsilon
+    if(it != m_values.begin()) {
+      --it;
+      return compareEqual(value, *it);
     }
     return false;
   }
-- 
2.43.0


From 07bdb5d387d49b759c115a3d8d2533ac1f747864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 05/43] fix: deleting a local variable or token does not
 unregister the global one of the same name

---
 src/PLASMA/PlanDatabase/base/DbClient.cc     | 4 ++--
 src/PLASMA/PlanDatabase/base/PlanDatabase.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/DbClient.cc b/src/PLASMA/PlanDatabase/base/DbClient.cc
index 6d9722e..b4209a8 100644
--- a/src/PLASMA/PlanDatabase/base/DbClient.cc
+++ b/src/PLASMA/PlanDatabase/base/DbClient.cc
@@ -92,7 +92,7 @@ DbClient::DbClient(const PlanDatabaseId db)
   }
 
 void DbClient::deleteVariable(const ConstrainedVariableId var) {
-  if(isGlobalVariable(var->getName()))
+  if(isGlobalVariable(var->getName()) && getGlobalVariable(var->getName()) == var)
     m_planDb->unregisterGlobalVariable(var);
   publish(notifyVariableDeleted(var));
   delete static_cast<ConstrainedVariable*>(var);
@@ -145,7 +145,7 @@ void DbClient::deleteToken(const TokenId token, const std::string& name) {
   check_error(token.isValid());
   checkError(token->isInactive() || token->isFact(),
              "Attempted to delete active, non-fact token " << token->toLongString());
-  if(isGlobalToken(token->getName()))
+  if(isGlobalToken(token->getName()) && getGlobalToken(token->getName()) == token)
     m_planDb->unregisterGlobalToken(token);
   publish(notifyTokenDeleted(token, name));
 
diff --git a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
index b008c2d..9803943 100644
--- a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
+++ b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
@@ -259,7 +259,7 @@ namespace EUROPA{
     check_error(!Entity::isPurging());
     check_error(m_tokens.find(token) != m_tokens.end());
 
-    if (isGlobalToken(token->getName()))
+    if (isGlobalToken(token->getName()) && getGlobalToken(token->getName()) == token)
         unregisterGlobalToken(token);
 
     m_tokens.erase(token);
-- 
2.43.0


From 8540355d3dd9fbb33019c24ca590bb0b3aa8f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:56 +0000
Subject: [PATCH 06/43] fix: removing a token from an object drops its explicit
 assignment mark

---
 src/PLASMA/PlanDatabase/base/Object.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index d85737b..2f2ea1b 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -196,6 +196,9 @@ const std::string& Object::getName() const {
 
     m_tokens.erase(token);
 
+    // Nothing is constrained explicitly to this object any more on behalf of this token
+    m_explicitConstraints.erase(token->getKey());
+
     // A set is used to avoid duplicate deletions
     std::set<ConstraintId> constraints;
 
-- 
2.43.0


From b2df995b341ee6f95e2c73d09826692c61211b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:03 +0000
Subject: [PATCH 07/43] fix: the solver's flaw iterator skips the first flaw of
 every later flaw manager

---
 src/PLASMA/Solvers/base/Solver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index c41fe21..701fc72 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -574,8 +574,8 @@ Solver::FlawIterator::FlawIterator(const FlawManagers& flawManagers)
       //it's possible that it's returning a noId because
       //it's nearly done, so the previous call should bump it
       //into doneness.  call next to bump the meta-iterator forward.
-      if(it->done())
-        next();
+      while(m_it != m_iterators.end() && (*m_it)->done())
+        ++m_it;
 
       return retval;
     }
-- 
2.43.0


From cd8f776ebb46c3e3557bc91cb70283bd4773978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:30 +0000
Subject: [PATCH 08/43] fix: solver limits are not tripped by backing up past
 where the search started

---
 src/PLASMA/Solvers/base/Solver.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 701fc72..3b73283 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -324,12 +324,15 @@ const std::string& Solver::getName() const { return m_name;}
         return;
       }
 
+      // The search can back up past the depth at which it was started
+      const unsigned long depth = (getDepth() > m_depthFloor ? getDepth() - m_depthFloor : 0);
+
       if(m_maxSteps <= getStepCount() - m_stepCountFloor || 
-         m_maxDepth < getDepth() - m_depthFloor){
+         m_maxDepth < depth){
         debugMsg("Solver:step", 
                  "Timeout!  Max steps: " << m_maxSteps << " step (above floor) " << 
                  getStepCount() - m_stepCountFloor <<
-                 " Max depth: " << m_maxDepth << " depth (above floor) " << getDepth() - m_depthFloor);
+                 " Max depth: " << m_maxDepth << " depth (above floor) " << depth);
 
         publish(notifyTimedOut);
         m_timedOut = true;
@@ -463,6 +466,7 @@ const std::string& Solver::getName() const { return m_name;}
       }
 
       m_stepCount = 0;
+      m_stepCountFloor = 0;
       m_noFlawsFound = false;
       m_exhausted = false;
       m_timedOut = false;
@@ -491,6 +495,7 @@ const std::string& Solver::getName() const { return m_name;}
       // Now backtrack the last choice
       m_exhausted = backtrack();
       m_stepCount = 0;
+      m_stepCountFloor = 0;
       m_noFlawsFound = false;
       m_timedOut = false;
 
-- 
2.43.0


From 822e7c306087953266bbef62a4a15a4c132ce5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:57 +0000
Subject: [PATCH 09/43] fix: a flaw handler whose guard already holds when
 first considered is withdrawn when the guard stops holding

---
 src/PLASMA/Solvers/base/FlawHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/FlawHandler.cc b/src/PLASMA/Solvers/base/FlawHandler.cc
index 2cc56a8..25f32a7 100644
--- a/src/PLASMA/Solvers/base/FlawHandler.cc
+++ b/src/PLASMA/Solvers/base/FlawHandler.cc
@@ -327,7 +327,7 @@ FlawHandler::VariableListener::VariableListener(const ConstraintEngineId ce,
                                                 const FlawHandlerId flawHandler,
                                                 const std::vector<ConstrainedVariableId>& scope)
   : ConstraintEngineListener(ce),
-    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(false), m_scope(scope) {}
+    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(flawHandler->test(scope)), m_scope(scope) {}
   
 void FlawHandler::VariableListener::notifyChanged(const ConstrainedVariableId variable,
 						  const DomainListener::ChangeType&) {
-- 
2.43.0


From 752803b03409fe5b91f4cb456b692278ea531d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:21 +0000
Subject: [PATCH 10/43] fix: a deleted rule instance must leave the rules
 engine's queues

Undoing a rule deletes its child instances; doRules went on to use those
still scheduled (use after free when the guards of a nested if relax in
the same propagation).
---
 src/PLASMA/RulesEngine/base/RuleInstance.cc |  4 ++++
 src/PLASMA/RulesEngine/base/RulesEngine.cc  | 12 +++++++++---
 src/PLASMA/RulesEngine/base/RulesEngine.hh  |  5 +++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 95400d4..7aaccbb 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -145,6 +145,10 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       undo();
 
     // If there is a guard domain, delete it
+    // A deleted instance (e.g. the child of a rule being undone) may still be scheduled
+    if(m_rulesEngine.isId() && !Entity::isPurging())
+      m_rulesEngine->unschedule(m_id);
+
     if(m_guardDomain != 0)
       delete m_guardDomain;
 
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 06d38b6..ce3cf6b 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -243,6 +243,12 @@ RulesEngine::~RulesEngine(){
     m_ruleInstancesToUndo.push_back(r);
   }
 
+  void RulesEngine::unschedule(const RuleInstanceId r) {
+    // doRules may be iterating over the queues, so blank the entries out rather than erase them
+    std::replace(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), r, RuleInstanceId::noId());
+    std::replace(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), r, RuleInstanceId::noId());
+  }
+
   bool RulesEngine::doRules() {
     check_error(!m_executing);
     m_executing = true;
@@ -266,20 +272,20 @@ RulesEngine::~RulesEngine(){
 	     std::distance(m_ruleInstancesToExecute.begin(), execEnd));
     
     for(std::vector<RuleInstanceId>::const_iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it) {
-      debugMsg("RulesEngine:doRules", 
+      condDebugMsg((*it).isId(), "RulesEngine:doRules",
 	       "In vector: " << (*it)->toString() << " : " <<
 	       ((*it)->isExecuted() ? "E" : "*") <<
 	       ((*it)->test() ? "T" : "*") <<
 	       ((*it)->hasEmptyGuard() ? "G" : "*"));
     }
     for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it)
-      if(!(*it)->isExecuted() && (*it)->test()) {
+      if((*it).isId() && !(*it)->isExecuted() && (*it)->test()) {
         debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
         (*it)->execute();
         retval = true;
       }
     for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != undoEnd; ++it)
-      if((*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
+      if((*it).isId() && (*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
         debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
         (*it)->undo();
         retval = true;
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.hh b/src/PLASMA/RulesEngine/base/RulesEngine.hh
index 2b2cf61..4bc1180 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.hh
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.hh
@@ -59,6 +59,11 @@ namespace EUROPA {
     bool isPending(const RuleInstanceId r) const;
     void scheduleForExecution(const RuleInstanceId r);
     void scheduleForUndoing(const RuleInstanceId r);
+
+    /**
+     * @brief Forget a rule instance that is being deleted: it must not be executed or undone any more.
+     */
+    void unschedule(const RuleInstanceId r);
     bool doRules();
     bool hasWork() const;
     
-- 
2.43.0


From 5b4a33c5bd8d76ccc767ac06fbeb7e08d1083c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:53 +0000
Subject: [PATCH 11/43] fix: equating an enumeration with an interval reports
 that the enumeration changed

EnumeratedDomain::equate dropped the change of its own domain when the other
one stayed as it was (or when its own was emptied), so EqualConstraint skipped
its backward pass and went on with an empty domain.
---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index bfce637..1999927 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -167,8 +167,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 
 	  // Have to intersect again for the case of mixed types (enumeration and interval)
-	  if(intersect(dom) && !isEmpty())
-		  changed = dom.intersect(*this) || changed;
+	  if(intersect(dom)) {
+		  changed = true;
+		  if(!isEmpty())
+			  dom.intersect(*this);
+	  }
 
 	  return changed;
   }
-- 
2.43.0


From 89a01034d51d38bd08d567670ab091ecb9f5ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:10 +0000
Subject: [PATCH 12/43] fix: PS listeners are told the change that happened

PSConstraintEngineListener casts DomainListener::ChangeType to its own
PSChangeType, which lacked REFTIME_CHANGED: every later kind of change was
reported as its neighbour.
---
 src/PLASMA/ConstraintEngine/base/PSConstraintEngineListener.hh | 2 +-
 src/PLASMA/System/base/PSEngine.i                              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/PSConstraintEngineListener.hh b/src/PLASMA/ConstraintEngine/base/PSConstraintEngineListener.hh
index 6224676..302fc45 100644
--- a/src/PLASMA/ConstraintEngine/base/PSConstraintEngineListener.hh
+++ b/src/PLASMA/ConstraintEngine/base/PSConstraintEngineListener.hh
@@ -19,7 +19,7 @@ class PSVariable;
 
 class PSConstraintEngineListener: public ConstraintEngineListener {
 public:
-	enum PSChangeType { UPPER_BOUND_DECREASED, LOWER_BOUND_INCREASED,  BOUNDS_RESTRICTED,
+	enum PSChangeType { UPPER_BOUND_DECREASED, LOWER_BOUND_INCREASED,  REFTIME_CHANGED,  BOUNDS_RESTRICTED,
 		              VALUE_REMOVED, RESTRICT_TO_SINGLETON,  SET_TO_SINGLETON,  RESET,
 		              RELAXED, CLOSED, OPENED,  EMPTIED,  LAST_CHANGE_TYPE};
 
diff --git a/src/PLASMA/System/base/PSEngine.i b/src/PLASMA/System/base/PSEngine.i
index 290f0a7..8b14d8c 100644
--- a/src/PLASMA/System/base/PSEngine.i
+++ b/src/PLASMA/System/base/PSEngine.i
@@ -638,7 +638,7 @@ namespace EUROPA {
   class PSConstraintEngineListener
   {
   public:
-	enum PSChangeType { UPPER_BOUND_DECREASED, LOWER_BOUND_INCREASED,  BOUNDS_RESTRICTED,
+	enum PSChangeType { UPPER_BOUND_DECREASED, LOWER_BOUND_INCREASED,  REFTIME_CHANGED,  BOUNDS_RESTRICTED,
                                      VALUE_REMOVED, RESTRICT_TO_SINGLETON,  SET_TO_SINGLETON,  RESET,
                       	 			 RELAXED, CLOSED, OPENED,  EMPTIED,  LAST_CHANGE_TYPE};
 
-- 
2.43.0


From 52a621fb969235457525114d63e0db5ec2272e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 13/43] fix: eint divided by an unsigned long multiplies

---
 src/PLASMA/Utils/Number.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 3de61e7..e80f344 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -454,7 +454,7 @@ namespace EUROPA {
     inline eint operator*(const basis_type o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
     inline eint operator*(const eint o) const {return operator*(o.m_v);}
     inline eint operator/(const int o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
-    inline eint operator/(const unsigned long o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
+    inline eint operator/(const unsigned long o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const basis_type o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const eint o) const {return operator/(o.m_v);}
 
-- 
2.43.0


From 6679992607c6dd67e2dc4fedf77ee832307bd1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:00 +0000
Subject: [PATCH 14/43] fix: condAllDiff counts only closed domains and covers
 the gaps of an enumeration

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 68692eb..5b0fd21 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1241,7 +1241,8 @@ void addToUnion(Domain **unionOfDomains,
   edouble toAddMin, toAddMax, newMin, newMax;
   domToAdd.getBounds(toAddMin, toAddMax);
   (*unionOfDomains)->getBounds(newMin, newMax);
-  bool changing = false;
+  // An enumeration does not cover the values between its members.
+  bool changing = (*unionOfDomains)->isEnumerated();
   if (toAddMin < newMin) {
     newMin = toAddMin;
     changing = true;
@@ -1286,6 +1287,7 @@ void addToUnion(Domain **unionOfDomains,
     bool canProveTrue = true;
     unsigned int firstNonDynamic = 0;
     unsigned int firstDynamic = 0;
+    unsigned int closedCount = 0;
     unsigned int i = 1;
     Domain* unionOfOthers = 0;
     for ( ; i < ARG_COUNT; i++) {
@@ -1298,6 +1300,7 @@ void addToUnion(Domain **unionOfDomains,
       }
       if (firstNonDynamic == 0)
         firstNonDynamic = i;
+      ++closedCount;
       if (unionOfOthers == 0) {
         // First (non-dynamic) one: copy it to union with later ones.
         unionOfOthers = current.copy();
@@ -1314,7 +1317,7 @@ void addToUnion(Domain **unionOfDomains,
           canProveTrue = false;
         // Add members of current to unionOfOthers "usefully".
         addToUnion(&unionOfOthers, current);
-        if (unionOfOthers->isFinite() && (unionOfOthers->getSize()) < i) {
+        if (unionOfOthers->isFinite() && (unionOfOthers->getSize()) < closedCount) {
           // At least two of the variables must have same value.
           boolDom.remove(true);
           canProveTrue = false;
-- 
2.43.0


From 11e242e69a38e0e3ffd89d28eeead7a3573d0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:11 +0000
Subject: [PATCH 15/43] fix: testNeq does not remove a value from inside an
 interval

---
 .../ConstraintEngine/component/Constraints.cc     | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 5b0fd21..1f7f057 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1950,6 +1950,17 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     check_error(variables.size() == ARG_COUNT);
   }
 
+namespace {
+  /**
+   * @brief Remove the value, unless it is inside an interval, which would have to be split.
+   */
+  void removeUnlessSplitting(Domain& dom, edouble value) {
+    if(dom.isEnumerated() || !dom.isMember(value) ||
+       dom.compareEqual(value, dom.getLowerBound()) || dom.compareEqual(value, dom.getUpperBound()))
+      dom.remove(value);
+  }
+}
+
   void TestNEQ::handleExecute(){
 
     debugMsg("TestNEQ:handleExecute", "comparing " << m_arg1.toString() << " with " << m_arg2.toString());
@@ -1966,10 +1977,10 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     if(m_test.isSingleton()) {
       if(m_test.getSingletonValue() == true) { //Enforce inequality
 	if(m_arg1.isSingleton()) {
-	  m_arg2.remove(m_arg1.getSingletonValue());
+	  removeUnlessSplitting(m_arg2, m_arg1.getSingletonValue());
 	}
 	if(m_arg2.isSingleton()) {
-	  m_arg1.remove(m_arg2.getSingletonValue());
+	  removeUnlessSplitting(m_arg1, m_arg2.getSingletonValue());
 	}
       } else { //Enforce equality
 	m_arg2.intersect(m_arg1);
-- 
2.43.0


From 70c94e45530404432bc55438b9b35d55dd556331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:57 +0000
Subject: [PATCH 16/43] fix: addEq with a real summand is not emptied while it
 has solutions

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 1f7f057..e8efcf9 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -162,9 +162,10 @@ namespace EUROPA {
      * following inconsistency, not yet caught.  We handle it here
      * however, by emptying the domain if the invariant post-condition
      * is not satisfied. The motivating case for this: A:Int[-10,10] +
-     * B:Int[-10,10] == C:Real[0.01, 0.99].
+     * B:Int[-10,10] == C:Real[0.01, 0.99].  It only follows when both
+     * summands are integers.
      */
-    if (m_z.isInterval() &&
+    if (m_z.isInterval() && m_x.minDelta() == 1 && m_y.minDelta() == 1 &&
 	(!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
 	 !m_z.isMember(Infinity::plus(yMin, xMax, zMin))))
       m_z.empty();
-- 
2.43.0


From 0c71b34eb2ccb4b670c46f43c1af8f8dbf01890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 17/43] fix: report an unbounded temporal distance as infinite

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 03c106a..4b55ff3 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -1106,7 +1106,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     }
     Time lb, ub;
     m_tnet->calcDistanceBounds(*tstart, *tend, lb, ub, exact);
-    return(IntervalIntDomain(lb,ub));
+    return(IntervalIntDomain(mapToExternalInfinity(lb), mapToExternalInfinity(ub)));
   }
 
   void TemporalPropagator::getTemporalDistanceDomains(const ConstrainedVariableId first,
@@ -1126,7 +1126,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
                "size mismatch in TemporalPropagator getTemporalDistanceDomains");
     for (unsigned i=0; i<seconds.size(); i++) {
-      domains.push_back(IntervalIntDomain(lbs[i],ubs[i]));
+      domains.push_back(IntervalIntDomain(mapToExternalInfinity(lbs[i]), mapToExternalInfinity(ubs[i])));
     }
     return;
   }
-- 
2.43.0


From cfc1a92ac3351c4e6fad280ab586a6cb40e8325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 18/43] fix: forget the edges into a deleted node

---
 src/PLASMA/TemporalNetwork/base/DistanceGraph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
index ff47394..f6ffdff 100644
--- a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
+++ b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
@@ -113,6 +113,7 @@ Void DistanceGraph::deleteNode(Dnode& node)
   for (Int j=0; j < node.inCount; j++) {
     Dedge* edge = node.inArray[j];
     detachEdge(edge->from.outArray, edge->from.outCount, *edge);
+    edge->from.edgemap.erase(&node);
     eraseEdge(*edge);
   }
   node.inCount = node.outCount = 0;
-- 
2.43.0


From 4ac4823a84aee94da770caf8336171dd12d11d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 19/43] fix: keep a time point that has a ring leader in its
 ring

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 4c19bf8..008ec0f 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -969,7 +969,7 @@ Void TemporalNetwork::maintainTEQ (Time lb, Time ub, Timepoint& src, Timepoint&
       targ.ringLeader = src.ringLeader;
       src.ringLeader->ringFollowers.push_back(&targ);
     }
-    if (src.ringLeader) {
+    if (src.ringLeader == NULL) {
       // In this case targ->ringLeader must be non-null
       src.ringLeader = targ.ringLeader;
       targ.ringLeader->ringFollowers.push_back(&src);
-- 
2.43.0


From a0f62a271bc9b77e0a704bc89389634e689cd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 20/43] fix: answer just the two time points of a temporal
 constraint

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 008ec0f..d9da47d 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -355,7 +355,7 @@ Void TemporalNetwork::calcDistanceSigns(Timepoint& src,
 
 std::vector<Timepoint*>
 TemporalNetwork::getConstraintScope(TemporalConstraint& id) {
-  std::vector<Timepoint*> result(2);
+  std::vector<Timepoint*> result;
   result.push_back(&id.head);
   result.push_back(&id.foot);
   return(result);
-- 
2.43.0


From a7414d46fa269e52203c732099c22a98b64b8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:51 +0000
Subject: [PATCH 21/43] fix: a variable without a time point leaves none to
 delete

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 4b55ff3..e777075 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -61,7 +61,9 @@ TemporalPropagator::TemporalPropagator(const std::string& name,
     m_changedVariables.erase(tempVar->getKey());
     m_activeVariables.erase(tempVar->getKey());
 
-    m_variablesForDeletion.insert(tp);
+    // The variable may have lost its timepoint already, when it was deactivated
+    if(tp != NULL)
+      m_variablesForDeletion.insert(tp);
     unmap(tempVar);
   }
 
-- 
2.43.0


From c9023186b6230a16ae175fcea0cda7b246c2bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:57 +0000
Subject: [PATCH 22/43] fix: take up the relaxed domain of a variable left
 without active temporal constraints

---
 .../component/TemporalPropagator.cc            | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index e777075..64d39e1 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -100,14 +100,16 @@ TemporalPropagator::TemporalPropagator(const std::string& name,
       unmap(constraint);
     }
     const std::vector<ConstrainedVariableId>& scope = constraint->getScope();
-    if(scope.size() == 3) {
-      decrementRefCount(scope[0]);
-      decrementRefCount(scope[2]);
-    }
-    else {
-      decrementRefCount(scope[0]);
-      decrementRefCount(scope[1]);
-    }
+    const ConstrainedVariableId source = scope[0];
+    const ConstrainedVariableId target = scope[scope.size() == 3 ? 2 : 1];
+    decrementRefCount(source);
+    decrementRefCount(target);
+
+    // The variables are about to be relaxed. No notification will say so if they have no active constraint left.
+    if(getTimepoint(source) != NULL)
+      buffer(source);
+    if(getTimepoint(target) != NULL)
+      buffer(target);
   }
 
   void TemporalPropagator::handleConstraintActivated(const ConstraintId constraint){
-- 
2.43.0


From 3247822fbfb22df95d7fcd25e0539146426a3421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:05 +0000
Subject: [PATCH 23/43] fix: free each NDDL expression once when a statement
 fails

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 860fb3f..147c4bf 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -102,11 +102,11 @@ nddl
 		  ) 
 		  {
 		      if (child != NULL) { 
+                  CTX->SymbolTable->popFromCleanupStack(); // child is now owned here, even if evaluating it throws
                   boost::scoped_ptr<Expr> c(child);
 		          debugMsg("NddlInterpreter:nddl","Evaluating:" << child->toString());
                   evalExpr(CTX,child);
 		          debugMsg("NddlInterpreter:nddl","Done evaluating:" << child->toString());
-                  CTX->SymbolTable->popFromCleanupStack();
                   checkError(CTX->SymbolTable->cleanupStackSize() == 0,
                              CTX->SymbolTable->cleanupStackSize());
 		          // TODO!!: systematically deal with memory mgmt for all Exprs.
@@ -1009,9 +1009,7 @@ methodInvocation returns [Expr* result]
             
         MethodId method = CTX->SymbolTable->getMethod(mName.c_str(),v,args);
         if (method.isNoId()) {
-            delete v;
-            cleanup(args.begin(), args.end());
-            args.clear();
+            // v and args are still on the cleanup stack
             reportSemanticError(CTX,"Method "+mName+" is not defined");
         }   
         result = new ExprMethodCall(method,v,args);
@@ -1064,16 +1062,14 @@ cexpression returns [CExpr* result]
             CFunctionId func = CTX->SymbolTable->getCFunction(fName.c_str(),args);
             
             if (func.isNoId())  {
-                cleanup(args.begin(), args.end());
-                args.clear();
+                // args are still on the cleanup stack
                 reportSemanticError(CTX, "CFunction does not exist: " + fName);
             }
             try {
                 CTX->SymbolTable->checkCFunction(fName, args);
             }
             catch(const std::string& errorMsg) {
-                cleanup(args.begin(), args.end());
-                args.clear();
+                // args are still on the cleanup stack
                 reportSemanticError(CTX, errorMsg);
             }
             result = new CExprFunction(func, args);
-- 
2.43.0


From 69060e30509988432142516936df685e31032945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:12 +0000
Subject: [PATCH 24/43] fix: keep the violations found at other instants of a
 resource

---
 src/PLASMA/Resource/base/Resource.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 3f8b8ba..c20ef99 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -356,9 +356,17 @@ bool isProductionProblem(Resource::ProblemType problem) {
   /*
    * reset violations from instant inst
    */
-void Resource::resetViolations(InstantId ) {
+void Resource::resetViolations(InstantId inst) {
   // TODO: for now reset all violations, see if this can be made more efficient
   resetViolations();
+
+  // the levels before inst are not recomputed, so what is violated there is found again here
+  if (getPlanDatabase()->getConstraintEngine()->getAllowViolations()) {
+    const std::map<eint, InstantId>& instants = m_profile->getInstants();
+    for(std::map<eint, InstantId>::const_iterator it = instants.begin();
+        it != instants.end() && it->first < inst->getTime(); ++it)
+      m_detector->detect(it->second);
+  }
 }
 
   /*
@@ -370,6 +378,8 @@ void Resource::resetViolations(InstantId ) {
       ProfileIterator it(m_profile);
       while(!it.done()) {
         notifyNoLongerViolated(it.getInstant());
+        // so that detecting it is fine does not clear violations found at other instants meanwhile
+        it.getInstant()->setViolated(false);
         it.next();
       }
     }
-- 
2.43.0


From 73bda0cb1d2fb34accf1647a84b96b411e5dda22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:57 +0000
Subject: [PATCH 25/43] fix: compare all levels with a changed limit or
 capacity of a resource

---
 src/PLASMA/Resource/base/Resource.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index c20ef99..f96e809 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -137,10 +137,16 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
 
 	void Resource::detectFV(const eint& time)
 	{
+		// bring the levels up to date
+		if (!getPlanDatabase()->getConstraintEngine()->propagate())
+			return;
+
+		// the new value holds from then on
 		const std::map<eint, InstantId>& usages = m_profile->getInstants();
-		std::map<eint, InstantId>::iterator nextUsage = m_profile->getLeastInstant(time);
-		if (nextUsage != usages.end())
-			m_detector->detect(nextUsage->second);
+		for (std::map<eint, InstantId>::const_iterator it = usages.lower_bound(time); it != usages.end(); ++it) {
+			if (m_detector->detect(it->second))
+				break;
+		}
 	}
 
   void Resource::setLimit(const eint& time, const edouble& lb, const edouble &ub)
-- 
2.43.0


From 91b44d1b1cc694fb1a42511ce16ceb7efc7115c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:57 +0000
Subject: [PATCH 26/43] fix: set_limit sets the limit of a resource, not its
 capacity

---
 src/PLASMA/Resource/component/NDDL/InterpreterResources.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/component/NDDL/InterpreterResources.cc b/src/PLASMA/Resource/component/NDDL/InterpreterResources.cc
index d734a47..00fbc98 100644
--- a/src/PLASMA/Resource/component/NDDL/InterpreterResources.cc
+++ b/src/PLASMA/Resource/component/NDDL/InterpreterResources.cc
@@ -299,7 +299,7 @@ DataRef SetLimit::eval(EvalContext& , const std::vector<ConstrainedVariableId>&
 	  check_runtime_error(ubVar->isSingleton(),"SetLimit: upperBound parameter must be singleton");
 	  edouble ub = ubVar->getSingletonValue().asDouble();
 
-	  res->setCapacity(time,lb,ub);
+	  res->setLimit(time,lb,ub);
 
 	  return DataRef::null;
   }
-- 
2.43.0


From 71be0ab5bf4a19232cbcfc8b5550292711302586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:59 +0000
Subject: [PATCH 27/43] fix: stop recomputing the profile of a deleted resource

---
 src/PLASMA/Resource/base/Resource.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index f96e809..79528d4 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -79,6 +79,16 @@ Resource::~Resource() {
       delete static_cast<Transaction*>(it->first);
   }
   
+  // The propagator must not recompute a profile that is gone
+  if (!Entity::isPurging() && !m_profile.isNoId()) {
+    PropagatorId prop = getPlanDatabase()->getConstraintEngine()->getPropagatorByName("Resource");
+    if (!prop.isNoId()) {
+      ProfilePropagator* profileProp = dynamic_cast<ProfilePropagator*>(static_cast<Propagator*>(prop));
+      if (profileProp != NULL)
+        profileProp->removeProfile(m_profile);
+    }
+  }
+
   delete static_cast<Profile*>(m_profile);
   delete id_cast<ExplicitProfile>(m_limitProfile);
   delete id_cast<ExplicitProfile>(m_capacityProfile);
-- 
2.43.0


From 7a97dc0a714086b0728fde6cad7df46ef12b97ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:11 +0000
Subject: [PATCH 28/43] fix: let a deleted uses constraint leave the profile of
 its resource

---
 src/PLASMA/Resource/component/Reusable.cc | 14 ++++++++++++++
 src/PLASMA/Resource/component/Reusable.hh |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/PLASMA/Resource/component/Reusable.cc b/src/PLASMA/Resource/component/Reusable.cc
index cfa25ef..564ebba 100644
--- a/src/PLASMA/Resource/component/Reusable.cc
+++ b/src/PLASMA/Resource/component/Reusable.cc
@@ -175,6 +175,14 @@ CBReusable::CBReusable(const ObjectId parent, const std::string& type,
 
     CBReusable::~CBReusable()
     {
+      if (!Entity::isPurging()) {
+        // the constraints that are left must not come back to a resource that is gone
+        std::map<UsesId, std::pair<TransactionId, TransactionId> >::const_iterator it = m_constraintsToTransactions.begin();
+        for (;it != m_constraintsToTransactions.end(); ++it) {
+          UsesId c = it->first;
+          c->m_resource = CBReusableId::noId();
+        }
+      }
     }
 
   void CBReusable::addToProfile(const ConstraintId gc)
@@ -367,6 +375,12 @@ Uses::Uses(const std::string& name,
       return m_txns[1];
   }
 
+  // ~Constraint() does not reach handleDiscard() of this class
+  Uses::~Uses()
+  {
+    handleDiscard();
+  }
+
   void Uses::handleDiscard()
   {
     if (!Entity::isPurging()) {
diff --git a/src/PLASMA/Resource/component/Reusable.hh b/src/PLASMA/Resource/component/Reusable.hh
index 6a4c401..cc57490 100644
--- a/src/PLASMA/Resource/component/Reusable.hh
+++ b/src/PLASMA/Resource/component/Reusable.hh
@@ -91,6 +91,7 @@ namespace EUROPA {
            const std::string& propagatorName,
            const ConstraintEngineId constraintEngine,
            const std::vector<ConstrainedVariableId>& scope);
+      virtual ~Uses();
 
       static const std::string& CONSTRAINT_NAME();
       static const std::string& PROPAGATOR_NAME();
-- 
2.43.0


From 0e858e7809797abc063a6e38599b2c18fe61d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:18 +0000
Subject: [PATCH 29/43] fix: drop the violations of uses constraints at
 instants they have left

---
 src/PLASMA/Resource/component/Reusable.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/Resource/component/Reusable.cc b/src/PLASMA/Resource/component/Reusable.cc
index 564ebba..4a5b5a2 100644
--- a/src/PLASMA/Resource/component/Reusable.cc
+++ b/src/PLASMA/Resource/component/Reusable.cc
@@ -181,6 +181,8 @@ CBReusable::CBReusable(const ObjectId parent, const std::string& type,
         for (;it != m_constraintsToTransactions.end(); ++it) {
           UsesId c = it->first;
           c->m_resource = CBReusableId::noId();
+          if (!c->m_violationProblems.empty())
+            c->notifyNoLongerViolated();
         }
       }
     }
@@ -311,10 +313,10 @@ edouble getUb(ConstrainedVariableId v) {
   {
     debugMsg("CBReusable:violations", "Received notification of violation removed at time " << inst->getTime());
 
-    std::set<UsesId> constraints = getConstraintsForInstant(inst);
-    std::set<UsesId>::const_iterator it = constraints.begin();
-    for(;it != constraints.end(); ++it) {
-      UsesId c = *it;
+    // the domains may have changed since a violation was found, so the instant may be outside a constraint that has it
+    std::map<UsesId, std::pair<TransactionId, TransactionId> >::const_iterator it = m_constraintsToTransactions.begin();
+    for(;it != m_constraintsToTransactions.end(); ++it) {
+      UsesId c = it->first;
       c->notifyNoLongerViolated(inst);
     }
   }
-- 
2.43.0


From 868a66f883231d9d7cb93baff92d7dd360170724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:18 +0000
Subject: [PATCH 30/43] fix: keep a violation at one instant when a limit ends
 one at another

---
 src/PLASMA/Resource/base/Resource.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 79528d4..7111fea 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -153,7 +153,10 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
 
 		// the new value holds from then on
 		const std::map<eint, InstantId>& usages = m_profile->getInstants();
-		for (std::map<eint, InstantId>::const_iterator it = usages.lower_bound(time); it != usages.end(); ++it) {
+		std::map<eint, InstantId>::const_iterator it = usages.lower_bound(time);
+		if (it != usages.end())
+			m_detector->initialize(it->second);
+		for (; it != usages.end(); ++it) {
 			if (m_detector->detect(it->second))
 				break;
 		}
-- 
2.43.0


From e52a1be60f30664da3da4cad6d5c63f7f1502716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 31/43] fix: a token that left a flawed instant needs no
 ordering for it

---
 src/PLASMA/Resource/base/Resource.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 7111fea..eb751cd 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -502,6 +502,21 @@ void Resource::resetViolations(InstantId inst) {
     }
     if(m_flawedInstants.find(inst->getTime()) == m_flawedInstants.end())
       m_flawedInstants.insert(std::make_pair(inst->getTime(), inst));
+
+    //tokens that were flawed at this instant may have left it since
+    std::set<TokenId> present;
+    for(std::vector<TransactionId>::const_iterator it = transactions.begin();
+        it != transactions.end(); ++it)
+      present.insert(getTokenForTransaction(*it));
+    for(ResourceFlaws::iterator flawIt = m_flawedTokens.begin(); flawIt != m_flawedTokens.end();) {
+      TokenId tok = flawIt->first;
+      if(present.find(tok) == present.end() && flawIt->second.erase(inst) > 0 && flawIt->second.empty()) {
+        m_flawedTokens.erase(flawIt++);
+        notifyOrderingNoLongerRequired(tok);
+      }
+      else
+        ++flawIt;
+    }
   }
 
   void Resource::notifyNoLongerFlawed(const InstantId inst) {
-- 
2.43.0


From 5a57a3c6a6b86ca38d97083c411f18717e9648fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:02 +0000
Subject: [PATCH 32/43] fix: contains_end orders the end of the target before
 the end of the origin

---
 src/PLASMA/NDDL/component/Interpreter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c0be9b0..b1947a5 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1084,7 +1084,7 @@ void createRelation(EvalContext& context,
   }
   else if (relationName == "contains_end") {
     makeStrictPrecedenceRelation(origin, start, target, end);
-    makeRelation(precedes, origin, end, target, end);
+    makeRelation(precedes, target, end, origin, end);
   }
   else if (relationName == "starts_after") {
     makeStrictPrecedenceRelation(target, start, origin, start);
-- 
2.43.0


From 6dbe7b0ba70b3bc404a7dacc0b3cd3931089da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:02 +0000
Subject: [PATCH 33/43] fix: the relation equal of the NDDL grammar is accepted
 like equals

---
 src/PLASMA/NDDL/component/Interpreter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index b1947a5..83c07cb 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1092,7 +1092,7 @@ void createRelation(EvalContext& context,
   else if (relationName == "starts_before") {
     makeStrictPrecedenceRelation(origin, start, target, start);
   }
-  else if (relationName == "equals") {
+  else if (relationName == "equal" || relationName == "equals") {
     makeRelation(concurrent, origin, start, target, start);
     makeRelation(concurrent, target, end, origin, end);
     makeRelation(eq, origin, duration, target, duration);
-- 
2.43.0


From 2fc09dc7a0e32e2fbc32cea70d50a1dc1fc6ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:02 +0000
Subject: [PATCH 34/43] fix: replayed ends_after and ends_before relate the
 ends of the two tokens

---
 .../PlanDatabase/component/DbClientTransactionPlayer.cc   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index f854afe..94dce32 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -675,10 +675,10 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
       construct_constraint(concurrent, origin, end, target, end);
     }
     else if (strcmp(relation, "ends_after") == 0) {
-      construct_constraint(precedes, target, start, origin, end);
+      construct_constraint(precedes, target, end, origin, end);
     }
     else if (strcmp(relation, "ends_before") == 0) {
-      construct_constraint(precedes, origin, end, target, start);
+      construct_constraint(precedes, origin, end, target, end);
     }
     else if (strcmp(relation, "ends_after_start") == 0) {
       construct_constraint(precedes, target, start, origin, end);
@@ -795,10 +795,10 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
       removeTemporalConstraint(origin_token->end(), target_token->end(), "concurrent");
     }
     else if (strcmp(relation, "ends_after") == 0) {
-      removeTemporalConstraint(target_token->start(), origin_token->end(), "precedes");
+      removeTemporalConstraint(target_token->end(), origin_token->end(), "precedes");
     }
     else if (strcmp(relation, "ends_before") == 0) {
-      removeTemporalConstraint(origin_token->end(), target_token->start(), "precedes");
+      removeTemporalConstraint(origin_token->end(), target_token->end(), "precedes");
     }
     else if (strcmp(relation, "ends_after_start") == 0) {
       removeTemporalConstraint(target_token->start(), origin_token->end(), "precedes");
-- 
2.43.0


From 783e76c1c740b1a6015f7802daae56e8d7b625aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:02 +0000
Subject: [PATCH 35/43] fix: the transaction log writes infinite bounds so that
 they can be read back

---
 src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index ab7998e..709281c 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -278,6 +278,10 @@ void DbClientTransactionLog::notifyConstraintDeleted(const ConstraintId constrai
     else
       if (domain->isNumeric()) {
         // CMG: Do not use snprintf. Not supported on DEC
+        if (value >= PLUS_INFINITY)
+          return "+inf";
+        if (value <= MINUS_INFINITY)
+          return "-inf";
         std::stringstream ss;
         if (isInt(domain->getTypeName())) {
           ss << cast_int(value);
-- 
2.43.0


From 339c0eb238225460cfc9176a1aa51a5d5881cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:02 +0000
Subject: [PATCH 36/43] fix: the transaction log records the type of a
 variable, not that of its first object

---
 src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index 709281c..c14c122 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -50,11 +50,6 @@ void DbClientTransactionLog::notifyVariableCreated(const ConstrainedVariableId v
     TiXmlElement * element = allocateXmlElement("var");
     const Domain& baseDomain = variable->baseDomain();
     std::string type = baseDomain.getTypeName();
-    if (m_client->getSchema()->isObjectType(type)) {
-      ObjectId object = Entity::getTypedEntity<Object>(baseDomain.getLowerBound());
-      check_error(object.isValid());
-      type = object->getType();
-    }
     element->SetAttribute( "type", type );
     element->SetAttribute( "name", variable->getName() );
     debugMsg("notifyVariableCreated"," variable name = " << variable->getName().c_str() << " typeName = " << type << " type = " << baseDomain.getTypeName().c_str());
-- 
2.43.0


From 53d5c3851ab45a0bdd1bf8c1fee853ebc8adbd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:02 +0000
Subject: [PATCH 37/43] fix: the transaction log records that a goal may not be
 rejected

---
 src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index c14c122..c99415f 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -5,6 +5,7 @@
 #include "Object.hh"
 #include "UnifyMemento.hh"
 #include "Token.hh"
+#include "TokenVariable.hh"
 #include "DbClientTransactionLog.hh"
 
 namespace EUROPA {
@@ -113,6 +114,8 @@ void DbClientTransactionLog::notifyObjectCreated(const ObjectId object,
   void DbClientTransactionLog::notifyTokenCreated(const TokenId token){
     TiXmlElement * element = (token->isFact() ? allocateXmlElement("fact") :
                               allocateXmlElement("goal"));
+    if (!token->isFact() && !token->getState()->baseDomain().isMember(Token::REJECTED))
+      element->SetAttribute("mandatory", "true");
     TiXmlElement * instance = allocateXmlElement("predicateinstance");
     instance->SetAttribute("name", m_tokensCreated++);
     instance->SetAttribute("type", token->getPredicateName());
-- 
2.43.0


From 13c112c9b6c6cdc4fe9f53f3635aa3cd2238749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:02 +0000
Subject: [PATCH 38/43] fix: the player reads the sets of objects the
 transaction log writes

---
 .../component/DbClientTransactionPlayer.cc      | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index 94dce32..9370b07 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -1512,14 +1512,15 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
       }
       debugMsg("DbClientTransactionPlayer:xmlAsEnumeratedDomain:symbol", " thisType= " << thisType << " typeName = " <<typeName);
     }
-    //      if (strcmp(thisType.c_str(), "object") == 0) {
-    //        if (type == ANY) {
-    //          type = OBJECT;
-    //        }
-    //        if (type == OBJECT)
-    //          //!!This needs a similar type check to SYMBOL, just above (but more complex due to inheritance?)
-    //          continue;
-    //      }
+    if (strcmp(thisType.c_str(), "object") == 0) {
+      if (type == ANY) {
+        check_error(element.Attribute("type") != NULL, "missing type for a set of objects");
+        type = OBJECT;
+        typeName = element.Attribute("type");
+      }
+      if (type == OBJECT)
+        continue;
+    }
     check_error(ALWAYS_FAILS, "unknown or inappropriately mixed type(s) for value(s) in an enumerated set");
   }
   check_error(type != ANY);
-- 
2.43.0


From 5c0cdbd100c358a86e2fcd8ec4ef9ca93c3bc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:02 +0000
Subject: [PATCH 39/43] fix: the player reads sets of values of a type defined
 by the user

---
 .../PlanDatabase/component/DbClientTransactionPlayer.cc  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index 9370b07..042509b 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -1521,6 +1521,15 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
       if (type == OBJECT)
         continue;
     }
+    if (strcmp(child_el->Value(), "value") == 0) {
+      // a simple type defined by the user
+      if (type == ANY) {
+        type = FLOAT;
+        typeName = thisType;
+      }
+      if (typeName == thisType)
+        continue;
+    }
     check_error(ALWAYS_FAILS, "unknown or inappropriately mixed type(s) for value(s) in an enumerated set");
   }
   check_error(type != ANY);
-- 
2.43.0


From 8604d02a2d09d3d0c7bfc34a5e7051cf8fd70216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:02 +0000
Subject: [PATCH 40/43] fix: the player deletes the token a logged deletion
 designates

---
 .../component/DbClientTransactionPlayer.cc         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index 042509b..8b3a1ee 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -562,12 +562,16 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
 
     TokenId tok = TokenId::noId();
 
-    TiXmlElement* child = element.FirstChildElement("predicateinstance");
-    check_error(child != NULL);
+    const TiXmlElement* child = element.FirstChildElement("predicateinstance");
+    const char* name = NULL;
+    if(child != NULL) {
+      name = child->Attribute("name");
+      check_error(name != NULL);
+    }
+    else
+      child = &element; // a logged deletion, which designates the token by its path
 
-    const char* name = child->Attribute("name");
-    check_error(name != NULL);
-    std::map<std::string, TokenId>::iterator tokIt = m_tokens.find(name);
+    std::map<std::string, TokenId>::iterator tokIt = (name == NULL ? m_tokens.end() : m_tokens.find(name));
     if(tokIt != m_tokens.end()) {
       tok = tokIt->second;
       m_tokens.erase(tokIt);
-- 
2.43.0


From 2f8beaed65ad6f528298a9763914261ade941b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:02 +0000
Subject: [PATCH 41/43] fix: rewinding the deletion of a token makes that token
 again

---
 .../component/DbClientTransactionPlayer.cc           | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index 8b3a1ee..474fcf4 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -607,17 +607,19 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
     const char* path = element.Attribute("path");
     check_error(path != NULL);
     const char* name = element.Attribute("name");
-    check_error(name != NULL);
 
     for(Iterator it = start; it != end; ++it) {
-      if((strcmp((*it)->Value(), "fact") == 0 || strcmp((*it)->Value(), "goal")) &&
+      if((strcmp((*it)->Value(), "fact") == 0 || strcmp((*it)->Value(), "goal") == 0) &&
 	 (*it)->Attribute("relation") == NULL) {
 	TiXmlElement* child = (*it)->FirstChildElement();
 	check_error(child != NULL);
 	if((child->Attribute("type") != NULL && strcmp(child->Attribute("type"), type) == 0) &&
-	   (child->Attribute("path") == NULL || strcmp(child->Attribute("path"), path) == 0) &&
-	   (child->Attribute("name") != NULL && strcmp(child->Attribute("name"), name) == 0)) {
-	  playTokenCreated(**it);
+	   (child->Attribute("path") != NULL ? strcmp(child->Attribute("path"), path) == 0 :
+	    (name != NULL && child->Attribute("name") != NULL && strcmp(child->Attribute("name"), name) == 0))) {
+	  if(strcmp((*it)->Value(), "fact") == 0)
+	    playFactCreated(**it);
+	  else
+	    playTokenCreated(**it);
 	  return;
 	}
       }
-- 
2.43.0


From 0e3d57925a7a327f05cc0b3803d5f80503c0e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:51 +0000
Subject: [PATCH 42/43] fix: the transaction log writes reals with all their
 digits

---
 src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index c99415f..9f65822 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -7,6 +7,7 @@
 #include "Token.hh"
 #include "TokenVariable.hh"
 #include "DbClientTransactionLog.hh"
+#include <iomanip>
 
 namespace EUROPA {
   DbClientTransactionLog::DbClientTransactionLog(const DbClientId client, bool chronologicalBacktracking)
@@ -284,7 +285,7 @@ void DbClientTransactionLog::notifyConstraintDeleted(const ConstraintId constrai
         if (isInt(domain->getTypeName())) {
           ss << cast_int(value);
         } else {
-          ss << value;
+          ss << std::setprecision(17) << value; // enough to read the same value back
         }
         return ss.str();
       } else if (LabelStr::isString(domain->getUpperBound())) {
-- 
2.43.0


From 1c5f4cc5e640462fb815e9ab4e34ce88f9b886f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:48 +0000
Subject: [PATCH 43/43] fix: a time point is not used as the distance of a
 temporal distance

"end == x + start" and "x == end - start" posted temporalDistance with a time
point as its distance, which the temporal propagator refuses with an error.
---
 src/PLASMA/NDDL/component/Interpreter.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 83c07cb..3094b3a 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -586,7 +586,15 @@ bool isTimepoint(DataRef var) {
                   if (constraint == "addEq") {
                       check_runtime_error(!isTimepoint(left) || !isTimepoint(right) || !isTimepoint(output), "You can't add two timepoints up to make a third time point.");
 
-                      constraint = "temporalDistance";
+                      //The distance, its second argument, must not be a timepoint.
+                      const bool minus = m_operator == "-";
+                      const DataRef& first = minus ? output : left;
+                      if (!isTimepoint(right))
+                          constraint = "temporalDistance";
+                      else if (!isTimepoint(first)) {
+                          constraint = "temporalDistance";
+                          flipArguments = true;
+                      } //otherwise, leave it to addEq
                   }
               }
           } else {
@@ -602,12 +610,18 @@ bool isTimepoint(DataRef var) {
 
           //Make the constraint's arguments when return type present
           if (m_operator == "-") {
+              if (flipArguments)
+                  args.push_back(right.getValue());
               args.push_back(output.getValue());
-              args.push_back(right.getValue());
+              if (!flipArguments)
+                  args.push_back(right.getValue());
               args.push_back(left.getValue());
           } else if (m_operator == "+") {
+              if (flipArguments)
+                  args.push_back(right.getValue());
               args.push_back(left.getValue());
-              args.push_back(right.getValue());
+              if (!flipArguments)
+                  args.push_back(right.getValue());
               args.push_back(output.getValue());
           } else if (m_operator == "*") {
               args.push_back(left.getValue());
-- 
2.43.0

