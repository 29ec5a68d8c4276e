From 1d69e31e01269276cb5973a017e31b6476641ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 01/99] fix: accept COMMAND_ABORTED and COMMAND_ABORT_FAILED
 literals in plans

---
 src/xml-parser/ConstantFactory.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xml-parser/ConstantFactory.cc b/src/xml-parser/ConstantFactory.cc
index 1124371..68c2e06 100644
--- a/src/xml-parser/ConstantFactory.cc
+++ b/src/xml-parser/ConstantFactory.cc
@@ -395,6 +395,8 @@ namespace PLEXIL
     case COMMAND_FAILED:
     case COMMAND_DENIED:
     case COMMAND_SUCCESS:
+    case COMMAND_ABORTED:
+    case COMMAND_ABORT_FAILED:
       return COMMAND_HANDLE_TYPE; // is OK
 
     default:
@@ -430,6 +432,12 @@ namespace PLEXIL
     case COMMAND_SUCCESS:
       return COMMAND_SUCCESS_CONSTANT();
 
+    case COMMAND_ABORTED:
+      return COMMAND_ABORTED_CONSTANT();
+
+    case COMMAND_ABORT_FAILED:
+      return COMMAND_ABORT_FAILED_CONSTANT();
+
     default:
       reportParserExceptionWithLocation(expr,
                                         "createExpression: Invalid CommandHandleValue");
-- 
2.43.0


From 699d23aeb68028c6acbcd868172e1432f41b91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 02/99] fix: accept array variables as arguments of array query
 operators

---
 src/xml-parser/Operations.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 3c2d189..03617f9 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -748,7 +748,8 @@ namespace PLEXIL
 
     virtual bool checkArgTypes(std::vector<ValueType> const &typeVec) const
     {
-      return isArrayType(typeVec.at(0));
+      ValueType typ = typeVec.at(0);
+      return isArrayType(typ) || typ == UNKNOWN_TYPE;
     }
 
     virtual ValueType getValueType(std::vector<ValueType> const & /* typeVec */,
-- 
2.43.0


From 34f21763e5b34998bab58df6faa7b3e95c119ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 03/99] fix: initialize all members in user variable
 constructors

---
 src/expr/UserVariable.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 144f015..62087e2 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -46,10 +46,13 @@ namespace PLEXIL
   UserVariable<T>::UserVariable()
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(nullptr),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(false)
   {
   }
 
@@ -59,7 +62,8 @@ namespace PLEXIL
       m_initializer(nullptr),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(false)
   {
   }
 
@@ -67,10 +71,13 @@ namespace PLEXIL
   UserVariable<T>::UserVariable(T const &initVal)
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(new Constant<T>(initVal)),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(true)
   {
   }
 
@@ -90,6 +97,8 @@ namespace PLEXIL
   UserVariable<Boolean>::UserVariable(const Boolean &initVal)
     : Variable(),
       Notifier(),
+      m_value(false),
+      m_savedValue(false),
       m_initializer(initVal ? TRUE_EXP() : FALSE_EXP()),
       m_name(nullptr),
       m_known(false),
@@ -102,6 +111,8 @@ namespace PLEXIL
   UserVariable<T>::UserVariable(char const *name)
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(nullptr),
       m_name(strdup(name)),
       m_known(false),
-- 
2.43.0


From c83948a15b5dbbfcf267c000d00d87fd41f42856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 04/99] fix: n-ary XOR treated known arguments as unknown and
 read unset values

---
 src/expr/BooleanOperators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7d2f73..5c1ef78 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -223,7 +223,7 @@ namespace PLEXIL
     for (size_t i = 0; i < n; ++i) {
       bool temp2;
       // Return unknown if any arg is unknown
-      if (args[i]->getValue(temp2))
+      if (!args[i]->getValue(temp2))
         return false;
       temp1 = (temp1 != temp2);
     }
-- 
2.43.0


From 645e5be0294bdda6905287d3971d2cd19be95dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 05/99] fix: n-ary OR is unknown when no argument is true and
 some are unknown

---
 src/expr/BooleanOperators.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index 5c1ef78..e372ae2 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -100,7 +100,7 @@ namespace PLEXIL
   bool BooleanOr::operator()(Boolean &result, Function const &args) const
   {
     size_t const n = args.size();
-    bool anyKnown = false;
+    bool allKnown = true;
     for (size_t i = 0; i < n; ++i) {
       bool temp;
       if (args[i]->getValue(temp)) {
@@ -109,12 +109,13 @@ namespace PLEXIL
           result = true;
           return true;
         }
-        anyKnown = true; // but no true value yet
       }
+      else
+        allKnown = false; // but may still find a true value
     }
-    if (anyKnown)
+    if (allKnown)
       result = false; // or we would have returned above
-    return anyKnown;
+    return allKnown;
   }
 
   //
-- 
2.43.0


From 491177326f1aa7f1447e92520fba1803407f415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 06/99] fix: release mutexes when a node finishes directly from
 EXECUTING or FAILING

---
 src/exec/NodeImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 87d8b75..ca978d6 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1376,8 +1376,8 @@ namespace PLEXIL
   // Wrapped by AssignmentNode
   void NodeImpl::transitionToFinished()
   {
-    // If transitioning from FAILING,, Release any mutexes held by this node
-    if (m_usingMutexes && m_state == WAITING_STATE) {
+    // If transitioning from EXECUTING or FAILING, release any mutexes held by this node
+    if (m_usingMutexes && m_state != WAITING_STATE) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 0a813cac1c74df4529e7a92cd5d5565e128d891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 07/99] fix: command nodes activated their exit condition twice

---
 src/exec/CommandNode.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index cf52343..d4d3065 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -202,7 +202,6 @@ namespace PLEXIL
     activateLocalVariables();
 
     activateInvariantCondition();
-    activateExitCondition();
     activateEndCondition();
   }
 
-- 
2.43.0


From 98af284a41b1ea4c80d83dd9a1ea700668384cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 08/99] fix: retract array element assignments from the element
 which was assigned

---
 src/expr/ArrayReference.cc | 11 +++++++----
 src/expr/ArrayReference.hh |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 89087f8..570d9df 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -228,6 +228,7 @@ namespace PLEXIL
     : Assignable(),
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
+      m_savedIndex(0),
       m_saved(false)
   {
   }
@@ -268,20 +269,22 @@ namespace PLEXIL
     size_t idx;
     if (!mutableSelfCheck(idx)) {
       // unknown or invalid
+      m_savedValue.setUnknown();
       m_saved = false;
       return;
     }
     m_savedValue = m_mutableArray->getElementValue(idx);
+    m_savedIndex = idx;
     m_saved = true;
   }
 
   void MutableArrayReference::restoreSavedValue()
   {
-    size_t idx;
-    if (!mutableSelfCheck(idx) || !m_saved) 
+    // Restore the element which was saved, even if the index has changed since
+    if (!m_saved || !m_mutableArray->isKnown())
       return;
-    if (m_savedValue != m_mutableArray->getElementValue(idx)) {
-      m_mutableArray->setElement(idx, m_savedValue);
+    if (m_savedValue != m_mutableArray->getElementValue(m_savedIndex)) {
+      m_mutableArray->setElement(m_savedIndex, m_savedValue);
     }
     m_saved = false;
   }
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 309893e..5491b91 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -250,6 +250,9 @@ namespace PLEXIL {
     //! \brief Value saved by saveCurrentValue().
     Value m_savedValue;
 
+    //! \brief The index of the saved element.
+    size_t m_savedIndex;
+
     //! \brief True if saveCurrentValue() has been called, false otherwise.
     bool m_saved;
   };
-- 
2.43.0


From 82052d7780ce8420cecb10f109d38221a8f84c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 09/99] fix: report an unknown saved value as unknown when an
 assignment is retracted

---
 src/expr/ArrayVariable.cc | 2 +-
 src/expr/UserVariable.cc  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 708b10d..259f02d 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -204,7 +204,7 @@ namespace PLEXIL
 
   Value ArrayVariable::getSavedValue() const
   {
-    if (m_savedValue)
+    if (m_savedKnown && m_savedValue)
       return Value(*m_savedValue);
     return Value();
   }
diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 62087e2..ae4c717 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -404,11 +404,15 @@ namespace PLEXIL
   template <typename T>
   Value UserVariable<T>::getSavedValue() const
   {
+   if (!m_savedKnown)
+     return Value();
    return Value(m_savedValue);
   }
 
   Value UserVariable<String>::getSavedValue() const
   {
+   if (!m_savedKnown)
+     return Value();
    return Value(m_savedValue);
   }
 
-- 
2.43.0


From 9116f9a38978464e5f0801c56adf1bbb173ec313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 10/99] fix: publish the change when an array element becomes
 unknown

---
 src/expr/ArrayVariable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 259f02d..41368b1 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -285,8 +285,10 @@ namespace PLEXIL
 
   void ArrayVariable::setElementUnknown(size_t idx)
   {
-    if (m_known)
+    if (m_known && m_value->elementKnown(idx)) {
       m_value->setElementUnknown(idx);
+      publishChange();
+    }
     // else fail silently
   }
 
-- 
2.43.0


From b2451403facf5911848e9eb6a72cd06b9b47df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 11/99] fix: keep nodes removed from the pending queue
 consistent when their conditions change

---
 src/exec/NodeImpl.cc   |  1 +
 src/exec/PlexilExec.cc | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index ca978d6..f358606 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -606,6 +606,7 @@ namespace PLEXIL
       return;
 
     case QUEUE_PENDING_CHECK:     // already a candidate, silently ignore
+    case QUEUE_PENDING_TRY_CHECK: // already a candidate, silently ignore
       return;
 
     case QUEUE_TRANSITION_CHECK:  // already a candidate, silently ignore
diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aefeda2..e7606d0 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -500,9 +500,11 @@ namespace PLEXIL
           removePendingNode(node);
           addStateChangeNode(node);
         }
-        // else still eligible to transition to EXECUTING,
-        // but resources not available
-        node->setQueueStatus(QUEUE_PENDING);
+        else {
+          // Still eligible to transition to EXECUTING,
+          // but resources not available
+          node->setQueueStatus(QUEUE_PENDING);
+        }
         return false;
 
       case QUEUE_PENDING_TRY_CHECK:
@@ -556,10 +558,13 @@ namespace PLEXIL
 
         Node *temp = priorityHead;
         do {
+          // The check may remove the node from the pending queue,
+          // so get the next node first.
+          Node *following = temp->next();
           if (resourceCheckEligible(temp)) 
             // Resource(s) were released, give it a look
             priorityNodes.push_back(temp);
-          temp = temp->next();
+          temp = following;
         } while (temp && temp->getPriority() == thisPriority);
 
         // temp is at end of queue,
-- 
2.43.0


From 91acb2488a9cc07c1803264db05198519a8fc795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 12/99] fix: acquire a node's mutexes and variable all at once
 or not at all

---
 src/exec/NodeImpl.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index f358606..52699fd 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -641,10 +641,12 @@ namespace PLEXIL
   // AssignmentNode class.
   bool NodeImpl::tryResourceAcquisition()
   {
+    // Take nothing unless everything is available. Acquiring some resources
+    // and releasing them again would needlessly wake other waiting nodes.
     bool success = true;
     if (m_usingMutexes) {
       for (Mutex *m : *m_usingMutexes) {
-        success = m->acquire(this);
+        success = !m->getHolder();
         if (!success) {
           // Check for recursive acquisition on failure
           Node const *holder = dynamic_cast<Node const *>(m->getHolder());
@@ -678,14 +680,12 @@ namespace PLEXIL
              ' ' << m_nodeId << ' ' << this
              << (success ? " succeeded" : " failed"));
 
-    if (!success) {
-      // If we couldn't get all the resources, release the resources we got
-      if (m_usingMutexes) {
-        for (Mutex *m : *m_usingMutexes) {
-          if (this == dynamic_cast<Node const *>(m->getHolder()))
-            m->release(this);
+    if (m_usingMutexes) {
+      for (Mutex *m : *m_usingMutexes) {
+        if (success)
+          m->acquire(this);
+        else
           m->addWaitingNode(this); // no harm if already there
-        }
       }
     }
     return success;
-- 
2.43.0


From eafbc30dd62bcc64b811d0c2d5d2058acc14aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 13/99] fix: recheck pending nodes whose conditions changed or
 resources were released

---
 src/exec/PlexilExec.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index e7606d0..b58bf54 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -240,7 +240,7 @@ namespace PLEXIL
     //! \return True if the Exec needs to be stepped, false otherwise.
     virtual bool needsStep() const override
     {
-      return !m_candidateQueue.empty();
+      return !m_candidateQueue.empty() || pendingNodesNeedCheck();
     }
 
     //! \brief Run a single "macro step" i.e. the entire quiescence cycle.
@@ -377,7 +377,7 @@ namespace PLEXIL
              && m_assignmentsToRetract.empty()
              && m_commandsToExecute.empty()
              && m_commandsToAbort.empty()
-             && !m_candidateQueue.empty());
+             && (!m_candidateQueue.empty() || pendingNodesNeedCheck()));
       // END QUIESCENCE LOOP
 
       // Perform side effects
@@ -543,6 +543,17 @@ namespace PLEXIL
       }
     }      
 
+    //! \brief Query whether any node on the pending queue has had a
+    //! condition change, or a resource released, since it was last checked.
+    //! \return True if at least one pending node needs checking, false otherwise.
+    bool pendingNodesNeedCheck() const
+    {
+      for (Node const *node = m_pendingQueue.front(); node; node = node->next())
+        if (node->getQueueStatus() != QUEUE_PENDING)
+          return true;
+      return false;
+    }
+
     //! \brief Resolve resource conflicts among the best priority
     //! nodes on the pending queue.
     void resolveResourceConflicts()
-- 
2.43.0


From 4f3f78efef98d8952debb2e71fc79abc6cff8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 14/99] fix: clean up every condition of a plan before deleting
 any of its nodes

---
 src/exec/LibraryCallNode.cc | 14 +++++++++++---
 src/exec/LibraryCallNode.hh |  2 +-
 src/exec/ListNode.cc        |  8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/exec/LibraryCallNode.cc b/src/exec/LibraryCallNode.cc
index 1edf324..f3df0f2 100644
--- a/src/exec/LibraryCallNode.cc
+++ b/src/exec/LibraryCallNode.cc
@@ -50,6 +50,13 @@ namespace PLEXIL
                "Invalid node type " << type << " for a LibraryCallNode");
   }
 
+  LibraryCallNode::~LibraryCallNode()
+  {
+    // MUST be done here, before the alias map is destroyed.
+    cleanUpConditions();
+    cleanUpNodeBody();
+  }
+
   void LibraryCallNode::cleanUpNodeBody()
   {
     if (m_cleanedBody)
@@ -57,11 +64,12 @@ namespace PLEXIL
 
     debugMsg("LibraryCallNode:cleanUpNodeBody", " for " << m_nodeId);
 
+    // The called node may refer to the aliases, so delete it first.
+    ListNode::cleanUpNodeBody();
+
     // Aliases may point to expressions owned by m_localVariables,
-    // so delete alias map first.
+    // which are deleted after the alias map.
     delete m_aliasMap.release();
-
-    ListNode::cleanUpNodeBody();
   }
 
   void LibraryCallNode::allocateAliasMap(size_t n)
diff --git a/src/exec/LibraryCallNode.hh b/src/exec/LibraryCallNode.hh
index 46f76cc..92e75bb 100644
--- a/src/exec/LibraryCallNode.hh
+++ b/src/exec/LibraryCallNode.hh
@@ -61,7 +61,7 @@ namespace PLEXIL
 
     //! \brief Virtual destructor.
     //! \note ListNode destructor performs all the necessary calls.
-    virtual ~LibraryCallNode() = default;
+    virtual ~LibraryCallNode();
 
     //! \brief Get the type of this node.
     //! \return The type of this node.
diff --git a/src/exec/ListNode.cc b/src/exec/ListNode.cc
index 18629d6..6901af6 100644
--- a/src/exec/ListNode.cc
+++ b/src/exec/ListNode.cc
@@ -361,6 +361,10 @@ namespace PLEXIL
 
     debugMsg("ListNode:cleanUpNodeBody", " for " << m_nodeId);
 
+    // Clean up all the children's bodies before deleting any child
+    for (NodeImplPtr &child : m_children)
+      child->cleanUpNodeBody();
+
     // Delete children
     for (NodeImplPtr &child : m_children)
       delete (Node*) child.release();
@@ -373,8 +377,8 @@ namespace PLEXIL
     debugMsg("ListNode:cleanUpChildConditions", " for " << m_nodeId);
     for (NodeImplPtr &child : m_children)
       child->cleanUpConditions();
-    for (NodeImplPtr &child : m_children)
-      child->cleanUpNodeBody();
+    // Node bodies can only be cleaned up after every condition in the plan,
+    // as conditions can refer to nodes anywhere below their own node.
   }
 
   NodeImpl const *ListNode::findChild(char const *childName) const
-- 
2.43.0


From 89cdbfeeab1477ff9c2406cd9d61004b41f7ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 15/99] fix: tell nodes waiting for resources when their
 pre-condition changes

---
 src/exec/NodeImpl.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 52699fd..73bf21a 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -224,7 +224,7 @@ namespace PLEXIL
       m_garbageConditions[i] = true;
       // N.B. Ancestor-end, ancestor-exit, and ancestor-invariant belong to parent;
       // will be nullptr if this node has no parent
-      if (i != preIdx && i != postIdx && getCondition(i))
+      if (i != postIdx && getCondition(i))
         getCondition(i)->addListener(this);
     }
 
@@ -356,8 +356,10 @@ namespace PLEXIL
       switch (condIdx) {
 
       case postIdx:
-      case preIdx:
-        break; // these conditions don't need listeners
+        break; // this condition doesn't need a listener
+
+      // N.B. A node waiting for a mutex or a variable has already passed its
+      // pre-condition check, and must be told if the pre-condition changes.
 
       default:
         if (m_conditions[condIdx])
-- 
2.43.0


From 5adc080a781c39d62c5c043c948560abdf14c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 16/99] fix: choose the array element to assign when the
 assignment's value is computed

---
 src/expr/ArrayReference.cc | 15 +++++++++++++--
 src/expr/ArrayReference.hh |  4 ++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 570d9df..2251aa1 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -229,7 +229,8 @@ namespace PLEXIL
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
       m_savedIndex(0),
-      m_saved(false)
+      m_saved(false),
+      m_targetFixed(false)
   {
   }
 
@@ -251,7 +252,14 @@ namespace PLEXIL
   void MutableArrayReference::setValue(Value const &value)
   {
     size_t idx;
-    if (!mutableSelfCheck(idx))
+    if (m_targetFixed) {
+      // The element to assign was determined by saveCurrentValue()
+      m_targetFixed = false;
+      if (!m_saved || !m_mutableArray->isKnown())
+        return;
+      idx = m_savedIndex;
+    }
+    else if (!mutableSelfCheck(idx))
       return;
     m_mutableArray->setElement(idx, value);
   }
@@ -266,6 +274,8 @@ namespace PLEXIL
 
   void MutableArrayReference::saveCurrentValue()
   {
+    // The index must not be affected by assignments between now and setValue()
+    m_targetFixed = true;
     size_t idx;
     if (!mutableSelfCheck(idx)) {
       // unknown or invalid
@@ -280,6 +290,7 @@ namespace PLEXIL
 
   void MutableArrayReference::restoreSavedValue()
   {
+    m_targetFixed = false;
     // Restore the element which was saved, even if the index has changed since
     if (!m_saved || !m_mutableArray->isKnown())
       return;
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 5491b91..ca32561 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -255,6 +255,10 @@ namespace PLEXIL {
 
     //! \brief True if saveCurrentValue() has been called, false otherwise.
     bool m_saved;
+
+    //! \brief True if saveCurrentValue() has chosen the element for the
+    //!        next setValue() call.
+    bool m_targetFixed;
   };
 
 } // namespace PLEXIL
-- 
2.43.0


From a03579b90e84401c60084341d4e467106ff5b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 17/99] fix: follow lookup parameter changes in post-conditions

---
 src/exec/NodeImpl.cc | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 73bf21a..e4427f5 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -224,7 +224,7 @@ namespace PLEXIL
       m_garbageConditions[i] = true;
       // N.B. Ancestor-end, ancestor-exit, and ancestor-invariant belong to parent;
       // will be nullptr if this node has no parent
-      if (i != postIdx && getCondition(i))
+      if (getCondition(i))
         getCondition(i)->addListener(this);
     }
 
@@ -352,20 +352,13 @@ namespace PLEXIL
     //
 
     // Add listeners to local conditions
+    // N.B. A node waiting for a mutex or a variable has already passed its
+    // pre-condition check, and must be told if the pre-condition changes.
+    // Lookups only follow changes of their parameters while they are listened to,
+    // so the post-condition needs a listener as well.
     for (size_t condIdx = skipIdx; condIdx < conditionIndexMax; ++condIdx)
-      switch (condIdx) {
-
-      case postIdx:
-        break; // this condition doesn't need a listener
-
-      // N.B. A node waiting for a mutex or a variable has already passed its
-      // pre-condition check, and must be told if the pre-condition changes.
-
-      default:
-        if (m_conditions[condIdx])
-          m_conditions[condIdx]->addListener(this);
-        break;
-      }
+      if (m_conditions[condIdx])
+        m_conditions[condIdx]->addListener(this);
 
     // Attach listeners to ancestor invariant and ancestor end conditions
     // Root node doesn't need them because the default conditions are constants
-- 
2.43.0


From c8477fbcb9dddeed12816935ddb2292fdd0f93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 18/99] fix: report that a command handle was reset when the
 command is executed again

---
 src/intfc/CommandImpl.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 6ca5d64..999d402 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -433,9 +433,14 @@ namespace PLEXIL
   {
     check_error_1(!m_active);
 
-    m_commandHandle = NO_COMMAND_HANDLE;
     m_ack.activate();
     m_abortComplete.activate();
+    if (m_commandHandle != NO_COMMAND_HANDLE) {
+      // Forget the handle of the previous execution,
+      // and tell any conditions which refer to it.
+      m_commandHandle = NO_COMMAND_HANDLE;
+      m_ack.publishChange();
+    }
 
     // Check for constancy and set up internal data structures at
     // first activation.
-- 
2.43.0


From 37591652045ed1978d1e686f208145604872c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 19/99] fix: release the resources of an accepted command which
 its interface denies

---
 src/intfc/CommandImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 999d402..bdd6100 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -500,7 +500,8 @@ namespace PLEXIL
     check_error_1(m_active);
     m_active = false;
 
-    if (m_commandHandle != COMMAND_DENIED && arbiter) // handle unit tests
+    // N.B. A command the arbiter accepted may still be denied by its interface.
+    if (arbiter) // handle unit tests
       arbiter->releaseResourcesForCommand(this);
 
     m_abortComplete.deactivate();
-- 
2.43.0


From 11e9efac3860830b6e5aed068607a92e74847460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 20/99] fix: keep library call aliases following the parameters
 of their lookups

---
 src/exec/LibraryCallNode.cc | 14 ++++++++++++++
 src/exec/LibraryCallNode.hh |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/src/exec/LibraryCallNode.cc b/src/exec/LibraryCallNode.cc
index f3df0f2..f011678 100644
--- a/src/exec/LibraryCallNode.cc
+++ b/src/exec/LibraryCallNode.cc
@@ -57,6 +57,18 @@ namespace PLEXIL
     cleanUpNodeBody();
   }
 
+  void LibraryCallNode::cleanUpConditions()
+  {
+    if (m_cleanedConditions)
+      return;
+
+    if (m_aliasMap)
+      for (auto const &entry : *m_aliasMap)
+        entry.second->removeListener(this);
+
+    ListNode::cleanUpConditions();
+  }
+
   void LibraryCallNode::cleanUpNodeBody()
   {
     if (m_cleanedBody)
@@ -86,6 +98,8 @@ namespace PLEXIL
       return false; // duplicate
     (*m_aliasMap)[name] = exp;
     if (isGarbage) {
+      // Lookups only follow changes of their parameters while they are listened to.
+      exp->addListener(this);
       // Allocate a place to store alias if it doesn't already exist.
       if (!m_localVariables)
         m_localVariables.reset(new std::vector<std::unique_ptr<Expression>>());
diff --git a/src/exec/LibraryCallNode.hh b/src/exec/LibraryCallNode.hh
index 92e75bb..a9f450e 100644
--- a/src/exec/LibraryCallNode.hh
+++ b/src/exec/LibraryCallNode.hh
@@ -89,6 +89,10 @@ namespace PLEXIL
 
   protected:
 
+    //! \brief Stop listening to the aliases, and clean up the conditions.
+    //! \note Wraps ListNode method.
+    virtual void cleanUpConditions() override;
+
     //! \brief Delete any additional objects as applicable for the node type.
     //! \note Wraps ListNode method.
     virtual void cleanUpNodeBody() override;
-- 
2.43.0


From bc095e2b76fbee5d4e5012272c0d052f84ef0970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 21/99] fix: stop listening to every expression of a long
 argument list

---
 src/intfc/ExprVec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/ExprVec.cc b/src/intfc/ExprVec.cc
index a75241d..e43af0c 100644
--- a/src/intfc/ExprVec.cc
+++ b/src/intfc/ExprVec.cc
@@ -261,7 +261,7 @@ namespace PLEXIL
     virtual void removeListener(ExpressionListener *l) override
     {
       for (size_t i = 0; i < m_size; ++i)
-        exprs[i]->addListener(l);
+        exprs[i]->removeListener(l);
     }
 
     //! \brief Call a function on all subexpressions of this object.
-- 
2.43.0


From 9c02f7fa7bcb2610d65f441209c493c71be5e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 22/99] fix: string length and array size usable as operands of
 real-valued operators

---
 src/expr/ArrayOperators.cc  | 4 ++--
 src/expr/ArrayOperators.hh  | 4 ++--
 src/expr/StringOperators.cc | 2 +-
 src/expr/StringOperators.hh | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expr/ArrayOperators.cc b/src/expr/ArrayOperators.cc
index c1b34c7..0a1a545 100644
--- a/src/expr/ArrayOperators.cc
+++ b/src/expr/ArrayOperators.cc
@@ -51,7 +51,7 @@ namespace PLEXIL
     return isArrayType(typ) || typ == UNKNOWN_TYPE;
   }
 
-  bool ArraySize::operator()(Integer &result, Expression const *arg) const
+  bool ArraySize::calc(Integer &result, Expression const *arg) const
   {
     Array const *ary;
     if (!arg->getValuePointer(ary))
@@ -80,7 +80,7 @@ namespace PLEXIL
     return isArrayType(typ) || typ == UNKNOWN_TYPE;
   }
 
-  bool ArrayMaxSize::operator()(Integer &result, Expression const *arg) const
+  bool ArrayMaxSize::calc(Integer &result, Expression const *arg) const
   {
     // *** TODO: Reimplement as Expression metadata query, not expression value query ***
     Array const *ary;
diff --git a/src/expr/ArrayOperators.hh b/src/expr/ArrayOperators.hh
index 41a05c2..7ae3a9b 100644
--- a/src/expr/ArrayOperators.hh
+++ b/src/expr/ArrayOperators.hh
@@ -44,7 +44,7 @@ namespace PLEXIL
 
     bool checkArgTypes(std::vector<ValueType> const &typeVec) const;
 
-    bool operator()(Integer &result, Expression const *arg) const;
+    bool calc(Integer &result, Expression const *arg) const override;
 
     DECLARE_OPERATOR_STATIC_INSTANCE(ArraySize);
 
@@ -69,7 +69,7 @@ namespace PLEXIL
 
     bool checkArgTypes(std::vector<ValueType> const &typeVec) const;
 
-    bool operator()(Integer &result, Expression const *arg) const;
+    bool calc(Integer &result, Expression const *arg) const override;
 
     DECLARE_OPERATOR_STATIC_INSTANCE(ArrayMaxSize);
 
diff --git a/src/expr/StringOperators.cc b/src/expr/StringOperators.cc
index 7d04bce..22b22ed 100644
--- a/src/expr/StringOperators.cc
+++ b/src/expr/StringOperators.cc
@@ -111,7 +111,7 @@ namespace PLEXIL
     return typeVec.at(0) == STRING_TYPE || typeVec.at(0) == UNKNOWN_TYPE;
   }
 
-  bool StringLength::operator()(Integer &result, Expression const *arg) const
+  bool StringLength::calc(Integer &result, Expression const *arg) const
   {
     String const *str;
     if (!arg->getValuePointer(str))
diff --git a/src/expr/StringOperators.hh b/src/expr/StringOperators.hh
index 85896ba..9370248 100644
--- a/src/expr/StringOperators.hh
+++ b/src/expr/StringOperators.hh
@@ -116,7 +116,7 @@ namespace PLEXIL
     //! \param arg Const pointer to the expression.
     //! \return true if the result is known, false if not.
     //! \note Delegates to the corresponding calc() method.
-    bool operator()(Integer &result, Expression const *arg) const override;
+    bool calc(Integer &result, Expression const *arg) const override;
 
     //! \brief Singleton accessor.
     DECLARE_OPERATOR_STATIC_INSTANCE(StringLength);
-- 
2.43.0


From 103603937db11c03bfa619118782dcd09a75741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 23/99] fix: array equality no longer depends on stale contents
 of unknown elements

---
 src/value/ArrayImpl.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index f3bf677..6f1cfdc 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -284,6 +284,19 @@ namespace PLEXIL
   }
 
   // Generic equality
+  // Leftover contents of unknown elements are not compared.
+  template <typename T>
+  static bool sameElements(std::vector<bool> const &aKnown, std::vector<T> const &a,
+                           std::vector<bool> const &bKnown, std::vector<T> const &b)
+  {
+    if (aKnown != bKnown)
+      return false;
+    for (size_t i = 0; i < aKnown.size(); ++i)
+      if (aKnown[i] && a[i] != b[i])
+        return false;
+    return true;
+  }
+
   template <typename T>
   bool ArrayImpl<T>::operator==(Array const &other) const
   {
@@ -307,16 +320,14 @@ namespace PLEXIL
   template <typename T>
   bool ArrayImpl<T>::operator==(ArrayImpl<T> const &other) const
   {
-    if (!(this->getKnownVector() == other.getKnownVector()))
-      return false;
-    return m_contents == other.m_contents;
+    return sameElements(this->getKnownVector(), m_contents,
+                        other.getKnownVector(), other.m_contents);
   }
 
   bool ArrayImpl<String>::operator==(ArrayImpl<String> const &other) const
   {
-    if (!(this->getKnownVector() == other.getKnownVector()))
-      return false;
-    return m_contents == other.m_contents;
+    return sameElements(this->getKnownVector(), m_contents,
+                        other.getKnownVector(), other.m_contents);
   }
 
   template <typename T>
@@ -420,12 +431,11 @@ namespace PLEXIL
   template <typename T>
   bool operator==(ArrayImpl<T> const &arya, ArrayImpl<T> const &aryb)
   {
-    if (!(arya.getKnownVector() == aryb.getKnownVector()))
-      return false;
     std::vector<T> const *avec, *bvec;
     arya.getContentsVector(avec);
     aryb.getContentsVector(bvec);
-    return *avec == *bvec;
+    return sameElements(arya.getKnownVector(), *avec,
+                        aryb.getKnownVector(), *bvec);
   }
 
   // Generic
-- 
2.43.0


From 36ef86a32e2345fd18bd163d7c7aa1341f8b2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 24/99] fix: conversion of a not-a-number real to integer is
 unknown

---
 src/expr/ConversionOperators.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/ConversionOperators.cc b/src/expr/ConversionOperators.cc
index c790d74..1f2365e 100644
--- a/src/expr/ConversionOperators.cc
+++ b/src/expr/ConversionOperators.cc
@@ -44,9 +44,9 @@ namespace PLEXIL
   //
   static bool RealToInt(Real reel, Integer &result)
   {
-    if (reel < std::numeric_limits<Integer>::min()
-        || reel > std::numeric_limits<Integer>::max())
-      return false; // out of range
+    if (!(reel >= std::numeric_limits<Integer>::min()
+          && reel <= std::numeric_limits<Integer>::max()))
+      return false; // out of range, or not a number
     Integer tempResult = (Integer) reel;
     Real fraction = (Real) (reel - (Real) tempResult);
     // TODO: allow fraction to be +/- epsilon
-- 
2.43.0


From d933d4546dee3edb9de6df11cef795f389c70390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 25/99] fix: integer results which cannot be represented are
 unknown instead of undefined behavior

---
 src/expr/ArithmeticOperators.cc | 106 ++++++++++++++++++++++++++------
 1 file changed, 88 insertions(+), 18 deletions(-)

diff --git a/src/expr/ArithmeticOperators.cc b/src/expr/ArithmeticOperators.cc
index 075771d..757a749 100644
--- a/src/expr/ArithmeticOperators.cc
+++ b/src/expr/ArithmeticOperators.cc
@@ -29,10 +29,82 @@
 #include "PlanError.hh"
 
 #include <cmath>
+#include <limits>
 
 namespace PLEXIL
 {
 
+  //
+  // Checked arithmetic primitives.
+  // Like division by zero, an integer result which cannot be represented is unknown.
+  //
+
+  static bool narrow(int64_t val, Integer &result)
+  {
+    if (val < std::numeric_limits<Integer>::min()
+        || val > std::numeric_limits<Integer>::max())
+      return false;
+    result = (Integer) val;
+    return true;
+  }
+
+  static bool add(Integer a, Integer b, Integer &result)
+  {
+    return narrow((int64_t) a + (int64_t) b, result);
+  }
+
+  static bool add(Real a, Real b, Real &result)
+  {
+    result = a + b;
+    return true;
+  }
+
+  static bool subtract(Integer a, Integer b, Integer &result)
+  {
+    return narrow((int64_t) a - (int64_t) b, result);
+  }
+
+  static bool subtract(Real a, Real b, Real &result)
+  {
+    result = a - b;
+    return true;
+  }
+
+  static bool negate(Integer a, Integer &result)
+  {
+    return narrow(- (int64_t) a, result);
+  }
+
+  static bool negate(Real a, Real &result)
+  {
+    result = -a;
+    return true;
+  }
+
+  static bool multiply(Integer a, Integer b, Integer &result)
+  {
+    return narrow((int64_t) a * (int64_t) b, result);
+  }
+
+  static bool multiply(Real a, Real b, Real &result)
+  {
+    result = a * b;
+    return true;
+  }
+
+  // Divisor is known to be nonzero
+  static bool divide(Integer a, Integer b, Integer &result)
+  {
+    return narrow((int64_t) a / (int64_t) b, result);
+  }
+
+  static bool divide(Real a, Real b, Real &result)
+  {
+    result = a / b;
+    return true;
+  }
+
+
   // TODO:
   // - Overflow/underflow checks
 
@@ -65,8 +137,7 @@ namespace PLEXIL
     NUM temp0, temp1;
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1)))
       return false;
-    result = temp0 + temp1;
-    return true;
+    return add(temp0, temp1, result);
   }
 
   // TODO: overflow checks
@@ -79,7 +150,8 @@ namespace PLEXIL
       NUM temp;
       if (!args[i]->getValue(temp))
         return false; // unknown if any arg unknown
-      workingResult += temp;
+      if (!add(workingResult, temp, workingResult))
+        return false;
     }
     result = workingResult;
     return true;
@@ -111,8 +183,7 @@ namespace PLEXIL
     NUM temp;
     if (!arg->getValue(temp))
       return false;
-    result = -temp;
-    return true;
+    return negate(temp, result);
   }
 
   template <typename NUM>
@@ -121,8 +192,7 @@ namespace PLEXIL
     NUM temp0, temp1;
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1)))
       return false;
-    result = temp0 - temp1;
-    return true;
+    return subtract(temp0, temp1, result);
   }
 
   template <typename NUM>
@@ -136,15 +206,15 @@ namespace PLEXIL
       return false;
     if (args.size() == 1) {
       // Unary
-      result = -temp;
-      return true;
+      return negate(temp, result);
     }
     // 2 or more args
     NUM workingResult = temp;
     for (size_t i = 1; i < args.size(); ++i) {
       if (!args[i]->getValue(temp))
         return false;
-      workingResult -= temp;
+      if (!subtract(workingResult, temp, workingResult))
+        return false;
     }
     result = workingResult;
     return true;
@@ -179,8 +249,7 @@ namespace PLEXIL
     NUM temp0, temp1;
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1)))
       return false;
-    result = temp0 * temp1;
-    return true;
+    return multiply(temp0, temp1, result);
   }
 
   // TODO: overflow checks
@@ -194,7 +263,8 @@ namespace PLEXIL
     for (size_t i = 1; i < args.size(); ++i) {
       if (!args[i]->getValue(temp))
         return false;
-      workingResult *= temp;
+      if (!multiply(workingResult, temp, workingResult))
+        return false;
     }
     result = workingResult;
     return true;
@@ -224,8 +294,7 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 / temp1;
-    return true;
+    return divide(temp0, temp1, result);
   }
 
   //
@@ -252,8 +321,7 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 % temp1;
-    return true;
+    return narrow((int64_t) temp0 % (int64_t) temp1, result);
   }
 
   // Real implementation
@@ -393,7 +461,9 @@ namespace PLEXIL
     NUM temp;
     if (!arg->getValue(temp))
       return false;
-    result = (temp < 0) ? -temp : temp;
+    if (temp < 0)
+      return negate(temp, result);
+    result = temp;
     return true;
   }
 
-- 
2.43.0


From 6ddb1754617c04770653fda617540613543af87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 26/99] fix: equality comparison of dates and durations

---
 src/expr/Comparisons.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/Comparisons.cc b/src/expr/Comparisons.cc
index 356e713..5f3e52c 100644
--- a/src/expr/Comparisons.cc
+++ b/src/expr/Comparisons.cc
@@ -129,6 +129,8 @@ namespace PLEXIL
       // else fall through to Real case
 
     case REAL_TYPE:
+    case DATE_TYPE:     // represented as Real
+    case DURATION_TYPE: // represented as Real
       return compareEqual<Real>(result, argA, argB);
 
     case STRING_TYPE:
-- 
2.43.0


From 925f67af34c27fc4410b0bbe36dbf9960b713843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 27/99] fix: deserialization of arrays of 128 or more elements

---
 src/value/ArrayImpl.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index 6f1cfdc..c728637 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -937,9 +937,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
@@ -958,9 +958,9 @@ namespace PLEXIL
       return nullptr; // not a Boolean array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     this->resize(siz);
     
     buf = deserializeBoolVector(this->m_known, buf);
@@ -976,9 +976,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
-- 
2.43.0


From eb9571f49fb988a88cf20b1c5e1d2efb87889bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 28/99] fix: making an array value from elements which include
 unknowns, or integers among reals

---
 src/value/Value.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index 9ea0967..fd3bde9 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -300,7 +300,9 @@ namespace PLEXIL
         eltType = itype;
       else if (eltType == INTEGER_TYPE && itype == REAL_TYPE)
         eltType = itype; // promote int to real
-      else if (eltType != itype) {
+      else if (eltType != itype
+               && itype != UNKNOWN_TYPE // unknown element
+               && !(eltType == REAL_TYPE && itype == INTEGER_TYPE)) {
         reportPlanError("Value constructor: Inconsistent value types in vector");
         m_known = false;
       }
-- 
2.43.0


From d3ae747f0194251cdc8f31340d1efe00632759db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 29/99] fix: ordering of unknown integers and reals agrees with
 their equality

---
 src/value/Value.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index fd3bde9..2523e5f 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -1084,7 +1084,7 @@ namespace PLEXIL
       else if (REAL_TYPE == other.m_type) {
         if (m_known)
           return ((Real) integerValue) < other.realValue;
-        return true; // real unknown > int unknown
+        return false; // unknown numeric values are equal
       }
       return m_type < other.m_type;
 
@@ -1097,7 +1097,7 @@ namespace PLEXIL
       else if (INTEGER_TYPE == other.m_type) {
         if (m_known)
           return realValue < (Real) other.integerValue;
-        return false; // real unknown > int unknown
+        return false; // unknown numeric values are equal
       }
       return m_type < other.m_type;
 
-- 
2.43.0


From 2244c39fdd166e36eeccef2841239c5c2e2a0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 30/99] fix: lookups registering with a state while its value
 change is being published

---
 src/intfc/StateCacheEntry.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index b94e5ba..f8c7be0 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -379,7 +379,10 @@ namespace PLEXIL
     //! \brief Notify all subscribed Lookups of a change in value.
     void notify() const
     {
-      for (Lookup *lkup : m_lookups)
+      // A change can cause other lookups to register or unregister here,
+      // so iterate over a copy.
+      std::vector<Lookup *> const lookups(m_lookups);
+      for (Lookup *lkup : lookups)
         lkup->valueChanged();
     }
 
-- 
2.43.0


From 05927dfc78624d8e2da15a06b1d80b1ae49a69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 31/99] fix: lookup with tolerance whose value is not a number

---
 src/intfc/Lookup.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 31a0504..c6b083e 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1044,7 +1044,8 @@ namespace PLEXIL
           return valueChanged; // ??
         }
       }
-      else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()) {
+      else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()
+               && isNumericType(this->m_entry->valueType())) {
         // State, lookup value, and tolerance are all known,
         // but no thresholds have been set yet.
         // Cache current value and establish them.
-- 
2.43.0


From 02848f973fd48033e7b68d4d1eed75c90be3b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 32/99] fix: real tolerance of an integer lookup, and integer
 overflow in thresholds

---
 src/intfc/Lookup.cc | 55 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index c6b083e..07aa3a4 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -36,6 +36,7 @@
 #include "ValueType.hh"
 
 #include <cmath>  // fabs()
+#include <limits>
 #include <memory>
 
 namespace PLEXIL
@@ -565,6 +566,44 @@ namespace PLEXIL
   //! \brief Implementation class for Lookup threshold caching,
   //!        templated by value type of the threshold.
   //! \param NUM A numeric type name.
+  // Tolerance expression may be Integer or Real regardless of the lookup's type
+  static bool getTolerance(Expression const *tolerance, Real &result)
+  {
+    if (!tolerance->getValue(result))
+      return false;
+    result = fabs(result);
+    return true;
+  }
+
+  static bool getTolerance(Expression const *tolerance, Integer &result)
+  {
+    Real tol;
+    if (!getTolerance(tolerance, tol))
+      return false;
+    tol = ceil(tol); // integers can only differ by whole numbers
+    if (tol < (Real) std::numeric_limits<Integer>::max())
+      result = (Integer) tol;
+    else
+      result = std::numeric_limits<Integer>::max();
+    return true;
+  }
+
+  static Real thresholdSum(Real base, Real tol)
+  {
+    return base + tol;
+  }
+
+  // Limit result to Integer range
+  static Integer thresholdSum(Integer base, Integer tol)
+  {
+    int64_t result = (int64_t) base + (int64_t) tol;
+    if (result > std::numeric_limits<Integer>::max())
+      return std::numeric_limits<Integer>::max();
+    if (result < std::numeric_limits<Integer>::min())
+      return std::numeric_limits<Integer>::min();
+    return (Integer) result;
+  }
+
   template <typename NUM>
   class ThresholdCacheImpl : public ThresholdCache
   {
@@ -587,9 +626,7 @@ namespace PLEXIL
     {
       check_error_1(tolerance); // paranoid check
       NUM newTol;
-      if (tolerance->getValue(newTol)) {
-        if (newTol < 0)
-          newTol = -newTol;
+      if (getTolerance(tolerance, newTol)) {
         debugMsg("ThresholdCache:toleranceChanged",
                  " returning " << (newTol != m_tolerance));
         return newTol != m_tolerance;
@@ -615,9 +652,7 @@ namespace PLEXIL
       debugMsg("ThresholdCache:setThresholds", " entered");
       check_error_1(value); // paranoid check
       NUM base, tol;
-      if (tolerance->getValue(tol)) {
-        if (tol < 0)
-          tol = -tol;
+      if (getTolerance(tolerance, tol)) {
         debugMsg("ThresholdCache:setThresholds", " tolerance is " << tol);
       }
       else {
@@ -626,8 +661,9 @@ namespace PLEXIL
       }
       if (value->getValue(base)) {
         m_tolerance = tol;
-        m_low = base - tol;
-        m_high = base + tol;
+        m_base = base;
+        m_low = thresholdSum(base, -tol);
+        m_high = thresholdSum(base, tol);
         m_wasKnown = true;
         debugMsg("ThresholdCache:setThresholds",
                  " setting thresholds to [" << m_low << ", " << m_high << ']');
@@ -645,6 +681,7 @@ namespace PLEXIL
     }
 
   private:
+    NUM m_base;
     NUM m_low;
     NUM m_high;
     NUM m_tolerance;
@@ -660,7 +697,7 @@ namespace PLEXIL
   {
     Integer currentValue;
     if (value->getValue(currentValue))
-      return (currentValue >= m_high) || (currentValue <= m_low);
+      return llabs((int64_t) currentValue - (int64_t) m_base) >= (int64_t) m_tolerance;
     // Current value is unknown
     return m_wasKnown; 
   }
-- 
2.43.0


From 5ff9647126ffff9c75ebfd1effae1dccb93e893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 33/99] fix: integer lookup with tolerance stayed unknown when
 its old value came back

---
 src/intfc/Lookup.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 07aa3a4..c0e8d10 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -697,7 +697,8 @@ namespace PLEXIL
   {
     Integer currentValue;
     if (value->getValue(currentValue))
-      return llabs((int64_t) currentValue - (int64_t) m_base) >= (int64_t) m_tolerance;
+      return !m_wasKnown
+        || llabs((int64_t) currentValue - (int64_t) m_base) >= (int64_t) m_tolerance;
     // Current value is unknown
     return m_wasKnown; 
   }
@@ -855,7 +856,7 @@ namespace PLEXIL
                  ' ' << m_cachedState << ": not active, returning false");
         return false;
       }
-      if (!m_thresholds) {
+      if (!m_thresholds || !m_cachedValue->isKnown()) {
         debugMsg("LookupOnChange:getThresholds",
                  ' ' << m_cachedState << ": no thresholds, returning false");
         return false;
@@ -876,7 +877,7 @@ namespace PLEXIL
                  ' ' << m_cachedState << ": not active, returning false");
         return false;
       }
-      if (!m_thresholds) {
+      if (!m_thresholds || !m_cachedValue->isKnown()) {
         debugMsg("LookupOnChange:getThresholds",
                  ' ' << m_cachedState << ": no thresholds, returning false");
         return false;
-- 
2.43.0


From 088fb546d035bde890a2e2476e067150d6073a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 34/99] fix: thresholds follow changes of the tolerance of a
 lookup

---
 src/intfc/Lookup.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index c0e8d10..baebc4f 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1044,7 +1044,8 @@ namespace PLEXIL
         // m_cachedState, m_entry, and m_cachedValue are valid.
         if (m_tolerance->isKnown()) {
           // Check whether the thresholds have changed
-          if (m_thresholds->toleranceChanged(m_tolerance)) {
+          bool const toleranceChanged = m_thresholds->toleranceChanged(m_tolerance);
+          if (toleranceChanged) {
             debugMsg("LookupOnChange:update",
                      ' ' << this->m_cachedState
                      << " tolerance changed, updating thresholds");
@@ -1064,6 +1065,8 @@ namespace PLEXIL
             m_entry->updateThresholds(m_cachedState);
             return true;
           }
+          if (toleranceChanged)
+            m_entry->updateThresholds(m_cachedState);
           debugMsg("LookupOnChange:update",
                    ' ' << this->m_cachedState << " value changed but within tolerances");
           return false; // value or threshold updated, but value within tolerances
@@ -1079,7 +1082,7 @@ namespace PLEXIL
           m_cachedValue.reset();
           // Tell the cache entry about it
           m_entry->updateThresholds(m_cachedState);
-          return valueChanged; // ??
+          return true; // the cached value may have differed from the current one
         }
       }
       else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()
-- 
2.43.0


From 95de87e4972c6a123d90bdb01a0cdd61db102893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 35/99] fix: executive run by the notifying thread deadlocked

With setRunExecInBkgndOnly(false), notifyExec() called runExec() with
m_execMutex already locked. Nor may it run while suspended or stopped.
---
 src/app-framework/ExecApplication.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index d35c18c..6bb4623 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -480,14 +480,25 @@ namespace PLEXIL
     {
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
+      runExecLocked(false);
+    }
 
+    //! Implementation of runExec().
+    //! @param tryOnly If true, return immediately if m_execMutex is not available.
+    //! @return false if the exec was not run because another thread was running it.
+    bool runExecLocked(bool tryOnly)
+    {
 #ifdef PLEXIL_WITH_THREADS
       unsigned int oldMark = m_lastMark;
 #endif
       bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
-        ThreadMutexGuard guard(m_execMutex);
+        std::unique_lock<std::mutex> guard(m_execMutex, std::defer_lock);
+        if (!tryOnly)
+          guard.lock();
+        else if (!guard.try_lock())
+          return false;
 #endif
         debugMsg("ExecApplication:runExec", " Processing queue");
         m_manager->processQueue();
@@ -514,6 +525,7 @@ namespace PLEXIL
         m_markSem.post();
       }
 #endif
+      return true;
     }
 
     //
@@ -659,11 +671,9 @@ namespace PLEXIL
 #ifdef PLEXIL_WITH_THREADS
       // FIXME: Don't run if called from thread holding mutex - undefined behavior
       // How to fix? Call command handlers from outside the mutex hold.
-      if (!m_runExecInBkgndOnly && m_execMutex.try_lock()) {
-        // Exec is idle, so run it
-        debugMsg("ExecApplication:notify", " exec was idle, stepping it");
-        this->runExec();
-        m_execMutex.unlock();
+      if (!m_runExecInBkgndOnly && !m_suspended && m_interfacesStarted && runExecLocked(true)) {
+        // Exec was idle, so it was run here
+        debugMsg("ExecApplication:notify", " exec was idle, stepped it");
       }
       else {
         // Some thread currently owns the exec. Could be this thread.
-- 
2.43.0


From a2adaba186ff49b99af90ed1bcb6cfefc2fec4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 36/99] fix: a second application in one process crashed

Registering a listener or filter factory for a name already in use deleted
the factory inside its own constructor. Replace the old one, as adapter
factories do.
---
 src/app-framework/ExecListenerFactory.cc       | 11 ++---------
 src/app-framework/ExecListenerFilterFactory.cc | 10 ++--------
 2 files changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/app-framework/ExecListenerFactory.cc b/src/app-framework/ExecListenerFactory.cc
index 22f8bc1..919eb5f 100644
--- a/src/app-framework/ExecListenerFactory.cc
+++ b/src/app-framework/ExecListenerFactory.cc
@@ -138,15 +138,8 @@ namespace PLEXIL
   void ExecListenerFactory::registerFactory(std::string const &name, ExecListenerFactory* factory)
   {
     assertTrue_1(factory);
-    // FIXME: Assert, or replace old factory?
-    if (factoryMap().find(name) != factoryMap().end()) {
-      warn("Attempted to register an exec listener factory for name \""
-           << name.c_str()
-           << "\" twice, ignoring.");
-      delete factory;
-      return;
-    }
-    factoryMap()[name] = ExecListenerFactoryPtr(factory);
+    // Called from the constructor of factory, so factory cannot be deleted here.
+    factoryMap()[name].reset(factory);
     debugMsg("ExecListenerFactory:registerFactory",
              " Registered exec listener factory for name \"" << name.c_str() << "\"");
   }
diff --git a/src/app-framework/ExecListenerFilterFactory.cc b/src/app-framework/ExecListenerFilterFactory.cc
index 8c9a91f..8de50d3 100644
--- a/src/app-framework/ExecListenerFilterFactory.cc
+++ b/src/app-framework/ExecListenerFilterFactory.cc
@@ -144,14 +144,8 @@ namespace PLEXIL
                                                   ExecListenerFilterFactory* factory)
   {
     assertTrue_1(factory);
-    if (factoryMap().find(name) != factoryMap().end()) {
-      warn("Attempted to register an exec listener filter factory for name \""
-           << name.c_str()
-           << "\" twice, ignoring.");
-      delete factory;
-      return;
-    }
-    factoryMap()[name] = ExecListenerFilterFactoryPtr(factory);
+    // Called from the constructor of factory, so factory cannot be deleted here.
+    factoryMap()[name].reset(factory);
     debugMsg("ExecListenerFilterFactory:registerFactory",
              " Registered exec listener filter factory for name \"" << name.c_str() << "\"");
   }
-- 
2.43.0


From 9c43be12c4034fa9132e3541779ce1f9b8a1572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 37/99] fix: all plans were reported finished before any plan
 had been run

deleteFinishedPlans() recorded a deletion even if there was nothing to delete.
---
 src/exec/PlexilExec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index b58bf54..82e24bc 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -230,8 +230,8 @@ namespace PLEXIL
                  " deleting node " << node->getNodeId() << ' ' << node);
         m_plan.remove_if([node] (NodePtr const &n) -> bool
                          { return node == n.get(); });
+        m_finishedRootNodesDeleted = true;
       }
-      m_finishedRootNodesDeleted = true;
       debugMsg("PlexilExec:deleteFinishedPlans",
                " now " << m_plan.size() << " root nodes");
     }
-- 
2.43.0


From d61067c61b0dae7dc31b05632a0f16fe88495831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 38/99] fix: data race when threads reach new debug messages at
 once

---
 src/utils/DebugMessage.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/DebugMessage.cc b/src/utils/DebugMessage.cc
index 3f1f9ed..22d92fb 100644
--- a/src/utils/DebugMessage.cc
+++ b/src/utils/DebugMessage.cc
@@ -28,6 +28,7 @@
 
 #include "Error.hh"
 
+#include <atomic>
 #include <cstring> // strstr()
 #include <iostream>
 #include <vector>
@@ -42,14 +43,16 @@ namespace PLEXIL
   // DebugMessage
   //
 
-  static DebugMessage *allDebugMessages = nullptr;
+  // Debug messages are constructed by whichever thread reaches them first.
+  static std::atomic<DebugMessage *> allDebugMessages(nullptr);
 
   DebugMessage::DebugMessage(char const *mrkr)
     : marker(mrkr),
-      next(allDebugMessages),
+      next(allDebugMessages.load()),
       enabled(matchesPatterns(marker))
   {
-    allDebugMessages = this;
+    while (!allDebugMessages.compare_exchange_weak(next, this))
+      continue;
   }
 
   std::ostream &operator<<(std::ostream &ostr, DebugMessage const &msg)
@@ -121,7 +124,7 @@ namespace PLEXIL
   void enableMatchingDebugMessages(std::string &&pattern)
   {
     // Enable any existing messages that match
-    for (DebugMessage *m = allDebugMessages; m != nullptr; m = m->next)
+    for (DebugMessage *m = allDebugMessages.load(); m != nullptr; m = m->next)
       if (!m->enabled
           && markerMatches(m->marker, pattern))
         m->enabled = true;
-- 
2.43.0


From bde301858fd3bca121871817ea48c637c6518816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 39/99] fix: waiting for plans or for completion returned
 early, or never

Semaphores counted stale completions: waitForPlanFinished() returned at once
for a second plan, or when an empty cycle came first, and never if the plan
finished before addPlan() returned. Marks queued out of order made
notifyAndWaitForCompletion() wait for ever, and it spun after its first use.
---
 src/app-framework/ExecApplication.cc  | 107 +++++++++++++++-----------
 src/app-framework/InterfaceManager.hh |   3 +-
 2 files changed, 64 insertions(+), 46 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 6bb4623..852c03b 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -55,6 +55,7 @@
 #include <unistd.h> // sleep()
 #endif
 
+#include <condition_variable>
 #include <exception>
 #include <mutex>
 #include <thread>
@@ -211,17 +212,25 @@ namespace PLEXIL
     // Semaphore for notifying the Exec of external events
     ThreadSemaphore m_sem;
 
-    // Semaphore for notifyAndWaitForCompletion()
-    ThreadSemaphore m_markSem;
-
     // Semaphore for notifying external threads that the application is shut down
     ThreadSemaphore m_shutdownSem;
 
-    // Semaphore for waiting on all plans to finish
-    ThreadSemaphore m_allFinishedSem;
-
-    //! Last mark seen
+    //! Greatest mark taken from the queue. Guarded by m_execMutex.
     unsigned int m_lastMark;
+
+    //! For threads waiting for a mark, or for all plans to finish.
+    //! Guards the members below. May be acquired while holding m_execMutex.
+    std::mutex m_waitMutex;
+    std::condition_variable m_waitCond;
+
+    //! Greatest mark whose exec cycle is complete
+    unsigned int m_completedMark;
+
+    //! Mark queued after the most recently added plan
+    unsigned int m_planMark;
+
+    //! Value of m_exec->allPlansFinished() at the end of the last exec cycle
+    bool m_allFinished;
 #endif 
 
     //! Interfacing database and dispatcher
@@ -263,10 +272,13 @@ namespace PLEXIL
         m_workerThread(),
         m_execMutex(),
         m_sem(),
-        m_markSem(),
         m_shutdownSem(),
-        m_allFinishedSem(),
         m_lastMark(0),
+        m_waitMutex(),
+        m_waitCond(),
+        m_completedMark(0),
+        m_planMark(0),
+        m_allFinished(false),
 #endif
         m_configuration(makeAdapterConfiguration()),
         m_manager(new InterfaceManager(this, m_configuration.get())),
@@ -443,11 +455,7 @@ namespace PLEXIL
     {
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
-#ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
       bool needsStep = false;
-      bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
         ThreadMutexGuard guard(m_execMutex);
@@ -458,19 +466,11 @@ namespace PLEXIL
         m_exec->step(StateCache::queryTime());
         // Take care of any plans which have finished
         m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
         needsStep = m_exec->needsStep();
-      }
 #ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:step", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:step", " queue mark(s) processed");
-        m_markSem.post();
-      }
+        cycleComplete();
 #endif
+      }
       return needsStep;
     }
 
@@ -488,10 +488,6 @@ namespace PLEXIL
     //! @return false if the exec was not run because another thread was running it.
     bool runExecLocked(bool tryOnly)
     {
-#ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
-      bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
         std::unique_lock<std::mutex> guard(m_execMutex, std::defer_lock);
@@ -512,19 +508,11 @@ namespace PLEXIL
 
         // Clean up
         m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
         debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
-      }
 #ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:runExec", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:runExec", " queue mark(s) processed");
-        m_markSem.post();
-      }
+        cycleComplete();
 #endif
+      }
       return true;
     }
 
@@ -698,10 +686,11 @@ namespace PLEXIL
       unsigned int sequence = m_manager->markQueue();
       notifyExec();
       debugMsg("ExecApplication:notifyAndWait", " waiting for mark #" << sequence);
-      do {
-        m_markSem.wait();
-        m_markSem.post(); // in case it's not our mark and we got there first
-      } while (m_lastMark < sequence);
+      {
+        std::unique_lock<std::mutex> lock(m_waitMutex);
+        m_waitCond.wait(lock, [this, sequence]() -> bool
+                        { return m_completedMark >= sequence; });
+      }
       debugMsg("ExecApplication:notifyAndWait", " proceeding");
 #else // !defined(PLEXIL_WITH_THREADS)
       warn("notifyAndWaitForCompletion: Threads not enabled");
@@ -715,9 +704,11 @@ namespace PLEXIL
     {
 #ifdef PLEXIL_WITH_THREADS
       debugMsg("ExecApplication:waitForPlanFinished", " waiting");
-      int waitStatus = m_allFinishedSem.wait();
-      checkError(!waitStatus,
-                 "waitForPlanFinished: semaphore wait returned error " << waitStatus);
+      {
+        std::unique_lock<std::mutex> lock(m_waitMutex);
+        m_waitCond.wait(lock, [this]() -> bool
+                        { return m_planLoaded && m_allFinished && m_completedMark >= m_planMark; });
+      }
       debugMsg("ExecApplication:waitForPlanFinished", " proceeding");
 #else // !defined(PLEXIL_WITH_THREADS)
       warn("waitForPlanFinished: Threads not enabled");
@@ -816,7 +807,18 @@ namespace PLEXIL
       try {
         m_manager->handleAddPlan(planXml->document_element());
         debugMsg("ExecApplication:addPlan", " successful");
+#ifdef PLEXIL_WITH_THREADS
+        {
+          // Nobody may see the plan as finished until it has been through the queue.
+          unsigned int sequence = m_manager->markQueue();
+          std::lock_guard<std::mutex> lock(m_waitMutex);
+          if (sequence > m_planMark)
+            m_planMark = sequence;
+          m_planLoaded = true;
+        }
+#else
         m_planLoaded = true;
+#endif
         return true;
       }
       catch (const ParserException& e) {
@@ -830,7 +832,8 @@ namespace PLEXIL
     {
 #ifdef PLEXIL_WITH_THREADS
       debugMsg("ExecApplication:markProcessed", " sequence #" << sequence);
-      m_lastMark = sequence;
+      if (sequence > m_lastMark) // marks may be queued out of order by different threads
+        m_lastMark = sequence;
 #endif
     }
 
@@ -841,6 +844,20 @@ namespace PLEXIL
     //
 
 #ifdef PLEXIL_WITH_THREADS
+    /**
+     * @brief Publish the result of an exec cycle to waiting threads.
+     * @note Caller must hold m_execMutex.
+     */
+    void cycleComplete()
+    {
+      {
+        std::lock_guard<std::mutex> lock(m_waitMutex);
+        m_completedMark = m_lastMark;
+        m_allFinished = m_exec->allPlansFinished();
+      }
+      m_waitCond.notify_all();
+    }
+
     /**
      * @brief Spawns the worker thread which runs the exec's top level loop.
      * @return true if successful, false otherwise.
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index 69877f9..197f77d 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -28,6 +28,7 @@
 
 #include "AdapterExecInterface.hh"
 
+#include <atomic>
 #include <memory>
 
 // Forward reference
@@ -211,7 +212,7 @@ namespace PLEXIL
     std::unique_ptr<InputQueue> m_inputQueue;
 
     //! Index of last queue mark enqueued.
-    unsigned int m_markCount;
+    std::atomic<unsigned int> m_markCount;
   };
 
 }
-- 
2.43.0


From a247f4dfcda11521517647c567eb51b6b9ff1c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 40/99] fix: stop and suspend requests were shared between
 threads without synchronization

---
 src/app-framework/ExecApplication.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 852c03b..8c2394c 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -63,6 +63,7 @@ using ThreadMutexGuard = std::lock_guard<std::mutex>;
 
 #endif // PLEXIL_WITH_THREADS
 
+#include <atomic>
 #include <csignal>
 #include <cstring>
 
@@ -252,16 +253,16 @@ namespace PLEXIL
     bool m_initialized;
 
     // True if interfaces have been started, false otherwise.
-    bool m_interfacesStarted;
+    std::atomic<bool> m_interfacesStarted;
 
     //! True if at least one plan has been loaded.
     bool m_planLoaded;
 
     // Flag for halting the Exec thread
-    bool m_stop;
+    std::atomic<bool> m_stop;
 
     // Flag for suspend/resume
-    bool m_suspended;
+    std::atomic<bool> m_suspended;
 
   public:
 
-- 
2.43.0


From c5a5da6dd68d77513db4d0fcdabf90638bcac7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 41/99] fix: the handle of an accepted message was lost in the
 input queue

---
 src/intfc/QueueEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/QueueEntry.cc b/src/intfc/QueueEntry.cc
index 74965ae..f6b0ab8 100644
--- a/src/intfc/QueueEntry.cc
+++ b/src/intfc/QueueEntry.cc
@@ -127,6 +127,7 @@ namespace PLEXIL
   void QueueEntry::initForAcceptMessage(Message *msg, std::string const &handle)
   {
     message = msg;
+    value = handle;
     type = Q_ACCEPT_MSG;
   }
 
-- 
2.43.0


From 43a961932c187c7dcbab48c2a4405dc7ff588712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 42/99] fix: lookup values still queued at shutdown leaked
 their states

---
 src/app-framework/SerializedInputQueue.cc | 1 +
 src/app-framework/SimpleInputQueue.cc     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index 239a8a6..1b7dd81 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -52,6 +52,7 @@ namespace PLEXIL
     while (m_queueGet) {
       QueueEntry *temp = m_queueGet;
       m_queueGet = temp->next;
+      temp->reset(); // frees the state
       delete temp;
     }
     while (m_freeList) {
diff --git a/src/app-framework/SimpleInputQueue.cc b/src/app-framework/SimpleInputQueue.cc
index 4a75f6e..f9008cf 100644
--- a/src/app-framework/SimpleInputQueue.cc
+++ b/src/app-framework/SimpleInputQueue.cc
@@ -45,6 +45,7 @@ namespace PLEXIL
     while (m_queueGet) {
       QueueEntry *temp = m_queueGet;
       m_queueGet = temp->next;
+      temp->reset(); // frees the state
       delete temp;
     }
     while (m_freeList) {
-- 
2.43.0


From 09027b7c7ca8adf66cb2efbdce1c7260c4a489d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 43/99] fix: flushing the input queue deadlocked

---
 src/app-framework/SerializedInputQueue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index 1b7dd81..93668e8 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -132,7 +132,10 @@ namespace PLEXIL
     QueueEntry *temp;
     while ((temp = m_queueGet)) {
       m_queueGet = temp->next;
-      release(temp);
+      // release() would wait for m_mutex
+      temp->reset();
+      temp->next = m_freeList;
+      m_freeList = temp;
     }
     m_queuePut = nullptr;
   }
-- 
2.43.0


From 0f6cd874c7e574f995ef603eddf195d6026b5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 44/99] fix: a deleted node kept holding or awaiting a global
 mutex

---
 src/exec/NodeImpl.cc   | 5 +++++
 src/expr/Reservable.cc | 7 +++++++
 src/expr/Reservable.hh | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index e4427f5..1939373 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -416,6 +416,11 @@ namespace PLEXIL
     // Delete timepoints, if any
     delete m_timepoints.release();
     
+    // Don't leave global mutexes held or awaited by this node
+    if (m_usingMutexes)
+      for (Mutex *m : *m_usingMutexes)
+        m->forgetNode(this);
+
     // Delete mutex vectors
     delete m_usingMutexes.release();
     delete m_localMutexes.release();
diff --git a/src/expr/Reservable.cc b/src/expr/Reservable.cc
index a89dcff..dc42372 100644
--- a/src/expr/Reservable.cc
+++ b/src/expr/Reservable.cc
@@ -120,4 +120,11 @@ namespace PLEXIL
     }
   }
 
+  void Reservable::forgetNode(NodeConnector *node)
+  {
+    removeWaitingNode(node);
+    if (m_holder == node)
+      m_holder = nullptr;
+  }
+
 } // namespace PLEXIL
diff --git a/src/expr/Reservable.hh b/src/expr/Reservable.hh
index 9c0fb92..75103b3 100644
--- a/src/expr/Reservable.hh
+++ b/src/expr/Reservable.hh
@@ -74,6 +74,11 @@ namespace PLEXIL
     //! @param node Pointer to the node.
     void removeWaitingNode(NodeConnector *node);
 
+    //! Remove all references to a node which is being deleted.
+    //! @param node Pointer to the node.
+    //! @note Does not notify other waiting nodes.
+    void forgetNode(NodeConnector *node);
+
   protected:
 
     //! Default constructor, accessible only to derived classes.
-- 
2.43.0


From e5ca8b2f2e5b233f32fb9a5e41f7582aaea4cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 45/99] fix: diagnostic of a refused library read freed memory

---
 src/xml-parser/planLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/planLibrary.cc b/src/xml-parser/planLibrary.cc
index 4fd25a5..84eae68 100644
--- a/src/xml-parser/planLibrary.cc
+++ b/src/xml-parser/planLibrary.cc
@@ -165,9 +165,9 @@ namespace PLEXIL
       symtab = checkPlan(plan);
     }
     catch (ParserException const &exc) {
-      delete doc;
       warn("Unable to load library node \"" << nodeId << "\": "
            << exc.what());
+      delete doc; // nodeId points into doc
       return nullptr;
     }
     catch (...) {
-- 
2.43.0


From 01b8d1062f9cfd85e746e8e72e406f5745906ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 46/99] fix: refused plans leaked what had been built of them

---
 src/xml-parser/LookupFactory.cc    | 54 ++++++++++++++++--------------
 src/xml-parser/OperationFactory.cc | 22 +++++++-----
 src/xml-parser/commandXmlParser.cc |  8 ++---
 src/xml-parser/parsePlan.cc        |  9 ++++-
 4 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/src/xml-parser/LookupFactory.cc b/src/xml-parser/LookupFactory.cc
index aec5174..9bd25c8 100644
--- a/src/xml-parser/LookupFactory.cc
+++ b/src/xml-parser/LookupFactory.cc
@@ -168,37 +168,37 @@ namespace PLEXIL
     xml_node stateNameXml = expr.first_child();
     bool stateNameGarbage = false;
     Expression *stateName = createExpression(stateNameXml.first_child(), node, stateNameGarbage);
-    ValueType stateNameType = stateName->valueType();
-    checkParserExceptionWithLocation(stateNameType == STRING_TYPE || stateNameType == UNKNOWN_TYPE,
-                                     stateNameXml.first_child(),
-                                     "createExpression: Lookup name must be a string expression");
+    ExprVec *argVec = nullptr;
+    try {
+      ValueType stateNameType = stateName->valueType();
+      checkParserExceptionWithLocation(stateNameType == STRING_TYPE || stateNameType == UNKNOWN_TYPE,
+                                       stateNameXml.first_child(),
+                                       "createExpression: Lookup name must be a string expression");
 
-    // Type checking support
-    Symbol const *lkup = nullptr;
-    if (stateName->isConstant()) {
-      // Check whether it's known
-      std::string const *nameStr;
-      if (stateName->getValuePointer(nameStr)) {
-        // Check whether it's declared
-        lkup = getLookupSymbol(nameStr->c_str());
-        if (lkup)
-          returnType = lkup->returnType();
+      // Type checking support
+      Symbol const *lkup = nullptr;
+      if (stateName->isConstant()) {
+        // Check whether it's known
+        std::string const *nameStr;
+        if (stateName->getValuePointer(nameStr)) {
+          // Check whether it's declared
+          lkup = getLookupSymbol(nameStr->c_str());
+          if (lkup)
+            returnType = lkup->returnType();
+        }
       }
-    }
 
-    // TODO Warn if undeclared (future)
+      // TODO Warn if undeclared (future)
 
-    // Parse tolerance, arguments if supplied
-    xml_node argsXml = stateNameXml.next_sibling();
-    xml_node tolXml;
-    if (testTag(TOLERANCE_TAG, argsXml)) {
-      tolXml = argsXml;
-      argsXml = argsXml.next_sibling();
-    }
+      // Parse tolerance, arguments if supplied
+      xml_node argsXml = stateNameXml.next_sibling();
+      xml_node tolXml;
+      if (testTag(TOLERANCE_TAG, argsXml)) {
+        tolXml = argsXml;
+        argsXml = argsXml.next_sibling();
+      }
     
-    // Count args, then build ExprVec of appropriate size
-    ExprVec *argVec = nullptr;
-    try {
+      // Count args, then build ExprVec of appropriate size
       size_t nargs = std::distance(argsXml.begin(), argsXml.end());
       if (lkup) {
         // Check argument count against command declaration
@@ -253,6 +253,8 @@ namespace PLEXIL
         return makeLookup(stateName, stateNameGarbage, returnType, argVec);
     }
     catch (ParserException &e) {
+      if (stateNameGarbage)
+        delete stateName;
       delete argVec;
       throw;
     }
diff --git a/src/xml-parser/OperationFactory.cc b/src/xml-parser/OperationFactory.cc
index 681a6c5..f2c9005 100644
--- a/src/xml-parser/OperationFactory.cc
+++ b/src/xml-parser/OperationFactory.cc
@@ -99,18 +99,24 @@ namespace PLEXIL
       }
       catch (ParserException & /* e */) {
         for (size_t j = 0; j < i; j++)
-          if (argCreated[i])
-            delete args[i];
+          if (argCreated[j])
+            delete args[j];
         throw;
       }
 
       Operator const *oper = m_operation->getOperator(argTypes, desiredType);
-      checkParserExceptionWithLocation(oper,
-                                       expr,
-                                       "OperationFactory::allocate: no operator found for "
-                                       << m_operation->getName()
-                                       << "\n Arg types " << valueTypeName(argTypes[0])
-                                       << ", " << valueTypeName(argTypes[1]));
+      if (!oper) {
+        for (size_t j = 0; j < n; ++j)
+          if (argCreated[j])
+            delete args[j];
+        std::string typeNames;
+        for (ValueType typ : argTypes)
+          typeNames += ' ' + valueTypeName(typ);
+        reportParserExceptionWithLocation(expr,
+                                          "OperationFactory::allocate: no operator found for "
+                                          << m_operation->getName()
+                                          << "\n Arg types" << typeNames);
+      }
       Function *result = m_operation->constructFunction(oper, n);
 
       for (size_t j = 0 ; j < n; ++j) {
diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index bd51465..e1268d0 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -280,40 +280,40 @@ namespace PLEXIL
             assertTrueMsg(!strcmp(RESOURCE_NAME_TAG, tag),
                           "finalizeResourceList: unexpected tag \"" << tag << '"');
             exp = createExpression(rtemp.first_child(), node, isGarbage);
+            rspec.setNameExpression(exp, isGarbage);
             checkParserExceptionWithLocation(exp->valueType() == STRING_TYPE || exp->valueType() == UNKNOWN_TYPE,
                                              rtemp.first_child(),
                                              RESOURCE_NAME_TAG << " expression is not String valued in Command Resource");
-            rspec.setNameExpression(exp, isGarbage);
             break;
 
           case 16: // ResourcePriority
             assertTrueMsg(!strcmp(RESOURCE_PRIORITY_TAG, tag),
                           "finalizeResourceList: unexpected tag \"" << tag << '"');
             exp = createExpression(rtemp.first_child(), node, isGarbage);
+            rspec.setPriorityExpression(exp, isGarbage);
             checkParserExceptionWithLocation(exp->valueType() == INTEGER_TYPE || exp->valueType() == UNKNOWN_TYPE,
                                              rtemp.first_child(),
                                              RESOURCE_PRIORITY_TAG << " expression is not Integer valued in Command Resource");
-            rspec.setPriorityExpression(exp, isGarbage);
             break;
 
           case 18: // ResourceUpperBound
             assertTrueMsg(!strcmp(RESOURCE_UPPER_BOUND_TAG, tag),
                           "finalizeResourceList: unexpected tag \"" << tag << '"');
             exp = createExpression(rtemp.first_child(), node, isGarbage);
+            rspec.setUpperBoundExpression(exp, isGarbage);
             checkParserExceptionWithLocation(isNumericType(exp->valueType()) || exp->valueType() == UNKNOWN_TYPE,
                                              rtemp.first_child(),
                                              RESOURCE_UPPER_BOUND_TAG << " expression is not a numeric expression in Command Resource");
-            rspec.setUpperBoundExpression(exp, isGarbage);
             break;
 
           default:
             assertTrueMsg(!strcmp(RESOURCE_RELEASE_AT_TERMINATION_TAG, tag),
                           "finalizeResourceList: unexpected tag \"" << tag << '"');
             exp = createExpression(rtemp.first_child(), node, isGarbage);
+            rspec.setReleaseAtTerminationExpression(exp, isGarbage);
             checkParserExceptionWithLocation(exp->valueType() == BOOLEAN_TYPE || exp->valueType() == UNKNOWN_TYPE,
                                              rtemp.first_child(),
                                              RESOURCE_RELEASE_AT_TERMINATION_TAG << " expression is not a Boolean expression in Command");
-            rspec.setReleaseAtTerminationExpression(exp, isGarbage);
             break;
           }
         }
diff --git a/src/xml-parser/parsePlan.cc b/src/xml-parser/parsePlan.cc
index 1d267ea..ba3833b 100644
--- a/src/xml-parser/parsePlan.cc
+++ b/src/xml-parser/parsePlan.cc
@@ -133,7 +133,13 @@ namespace PLEXIL
     // Perform surface checks & log global symbols
     SymbolTable *symtab = checkPlan(xml);
     NodeImpl *result = nullptr;
-    result = constructPlan(xml, symtab, nullptr); // can throw ParserException
+    try {
+      result = constructPlan(xml, symtab, nullptr); // can throw ParserException
+    }
+    catch (...) {
+      delete symtab;
+      throw;
+    }
     pushSymbolTable(symtab);
     try {
       finalizeNode(result, xml.child(NODE_TAG));
@@ -141,6 +147,7 @@ namespace PLEXIL
     catch (...) {
       popSymbolTable();
       delete symtab;
+      delete result;
       throw;
     }
 
-- 
2.43.0


From 4dcaf813081d246b7e0a201315ee9859cf71f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 47/99] fix: variable declarations were accepted as expressions

---
 src/xml-parser/ArrayVariableFactory.cc |  2 ++
 src/xml-parser/UserVariableFactory.cc  |  2 ++
 src/xml-parser/parser-utils.cc         | 12 ++++++++++++
 src/xml-parser/parser-utils.hh         |  3 +++
 4 files changed, 19 insertions(+)

diff --git a/src/xml-parser/ArrayVariableFactory.cc b/src/xml-parser/ArrayVariableFactory.cc
index 14edd5c..e4a87ea 100644
--- a/src/xml-parser/ArrayVariableFactory.cc
+++ b/src/xml-parser/ArrayVariableFactory.cc
@@ -50,6 +50,8 @@ namespace PLEXIL
                                         pugi::xml_node const expr,
                                         ValueType desiredType)
   {
+    checkIsDeclaration(expr);
+
     // We know the declaration has a name and a valid type.
     // Check for a legal array type.
     xml_node temp = expr.first_child().next_sibling();
diff --git a/src/xml-parser/UserVariableFactory.cc b/src/xml-parser/UserVariableFactory.cc
index 4a43b92..0cd49bb 100644
--- a/src/xml-parser/UserVariableFactory.cc
+++ b/src/xml-parser/UserVariableFactory.cc
@@ -51,6 +51,8 @@ namespace PLEXIL
 
     ValueType check(char const *nodeId, pugi::xml_node const expr, ValueType desiredType) const
     {
+      checkIsDeclaration(expr);
+
       // We know the declaration has a name and a valid type;
       // see checkVariableDeclaration() in parseNode.cc
       xml_node temp = expr.first_child().next_sibling(); // must be Type element
diff --git a/src/xml-parser/parser-utils.cc b/src/xml-parser/parser-utils.cc
index 5950991..71ad661 100644
--- a/src/xml-parser/parser-utils.cc
+++ b/src/xml-parser/parser-utils.cc
@@ -117,6 +117,18 @@ namespace PLEXIL
   }
 
   // N.B. presumes e is not empty
+  void checkIsDeclaration(xml_node const e)
+  {
+    xml_node const parent = e.parent();
+    checkParserExceptionWithLocation(parent.type() != pugi::node_element
+                                     || testTag(VAR_DECLS_TAG, parent)
+                                     || testTag(IN_TAG, parent)
+                                     || testTag(INOUT_TAG, parent),
+                                     e,
+                                     "XML parsing error: Illegal <" << e.name()
+                                     << "> inside <" << parent.name() << ">");
+  }
+
   void checkHasChildElement(xml_node const e)
   {
     checkParserExceptionWithLocation(hasChildElement(e),
diff --git a/src/xml-parser/parser-utils.hh b/src/xml-parser/parser-utils.hh
index ffc32b1..108ecf7 100644
--- a/src/xml-parser/parser-utils.hh
+++ b/src/xml-parser/parser-utils.hh
@@ -54,6 +54,9 @@ namespace PLEXIL
   void checkTagSuffix(const char* t, pugi::xml_node const e);
   void checkNotEmpty(pugi::xml_node const e);
   void checkHasChildElement(pugi::xml_node const e);
+
+  //! Ensure that a variable declaration is not used as an expression.
+  void checkIsDeclaration(pugi::xml_node const e);
   bool isBoolean(const char* initval);
   bool isInteger(const char* initval);
   bool isDouble(const char* initval);
-- 
2.43.0


From 4d5ccfa75dd34d9dc20d1e76b70c0f52228b1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 48/99] fix: a command whose name is unknown tripped an
 internal assertion

---
 src/intfc/CommandImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index bdd6100..45f3922 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -369,8 +369,8 @@ namespace PLEXIL
       m_commandNameFixed = true;
     }
     else {
-      // Name is unknown - report plan error
-      // TODO
+      // Name is unknown
+      reportPlanError("Command name is unknown");
     }
   }
 
-- 
2.43.0


From 812be6214e5d0256b644be12d976f1185702e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 49/99] fix: array element targets in read-only arrays were
 accepted after being freed; leaks

---
 src/xml-parser/ArrayReferenceFactory.cc | 66 ++++++++++++++-----------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index 7171123..03f5a08 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -55,36 +55,45 @@ namespace PLEXIL
     xml_node indexXml = arrayXml.next_sibling();
     checkTag(INDEX_TAG, indexXml);
 
-    // Checks on array
-    if (testTag(NAME_TAG, arrayXml)) {
-      const char *arrayName = arrayXml.child_value();
-      arrayExpr = node->findVariable(arrayName);
-      checkParserExceptionWithLocation(arrayExpr,
-                                       arrayXml,
-                                       "No array variable named \""
-                                       << arrayName << "\" accessible from node "
-                                       << node->getNodeId());
-      checkParserExceptionWithLocation(isArrayType(arrayExpr->valueType()),
-                                       arrayXml,
-                                       "Variable \"" << arrayName
-                                       << "\" is not an array variable");
+    try {
+      // Checks on array
+      if (testTag(NAME_TAG, arrayXml)) {
+        const char *arrayName = arrayXml.child_value();
+        arrayExpr = node->findVariable(arrayName);
+        checkParserExceptionWithLocation(arrayExpr,
+                                         arrayXml,
+                                         "No array variable named \""
+                                         << arrayName << "\" accessible from node "
+                                         << node->getNodeId());
+        checkParserExceptionWithLocation(isArrayType(arrayExpr->valueType()),
+                                         arrayXml,
+                                         "Variable \"" << arrayName
+                                         << "\" is not an array variable");
+      }
+      else {
+        arrayExpr = createExpression(arrayXml, node, arrayCreated);
+        // Have to allow for UNKNOWN (e.g. lookups)
+        ValueType exprType = arrayExpr->valueType();
+        checkParserExceptionWithLocation(isArrayType(exprType) || exprType == UNKNOWN_TYPE,
+                                         arrayXml,
+                                         "Array expression is not an array");
+      }
+
+      // Checks on index
+      indexExpr = createExpression(indexXml.first_child(), node, indexCreated);
+      assertTrue_1(indexExpr);
+      ValueType indexType = indexExpr->valueType();
+      checkParserExceptionWithLocation(indexType == INTEGER_TYPE || indexType == UNKNOWN_TYPE,
+                                       indexXml,
+                                       "Array index expression is not numeric");
     }
-    else {
-      arrayExpr = createExpression(arrayXml, node, arrayCreated);
-      // Have to allow for UNKNOWN (e.g. lookups)
-      ValueType exprType = arrayExpr->valueType();
-      checkParserExceptionWithLocation(isArrayType(exprType) || exprType == UNKNOWN_TYPE,
-                                       arrayXml,
-                                       "Array expression is not an array");
+    catch (ParserException const &e) {
+      if (arrayCreated)
+        delete arrayExpr;
+      if (indexCreated)
+        delete indexExpr;
+      throw;
     }
-
-    // Checks on index
-    indexExpr = createExpression(indexXml.first_child(), node, indexCreated);
-    assertTrue_1(indexExpr);
-    ValueType indexType = indexExpr->valueType();
-    checkParserExceptionWithLocation(indexType == INTEGER_TYPE || indexType == UNKNOWN_TYPE,
-                                     indexXml,
-                                     "Array index expression is not numeric");
   }
 
   template <>
@@ -186,6 +195,7 @@ namespace PLEXIL
         delete arrayExpr;
       if (indexCreated)
         delete indexExpr;
+      throw;
     }
 
     wasCreated = true;
-- 
2.43.0


From 23c71b90501f2ef413348bbb670eb158211a7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 50/99] fix: nodes of a finished plan were still queued when it
 was deleted

---
 src/exec/NodeImpl.cc   |  5 +----
 src/exec/PlexilExec.cc | 11 +++++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 1939373..204ee1a 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -612,10 +612,7 @@ namespace PLEXIL
     case QUEUE_TRANSITION_CHECK:  // already a candidate, silently ignore
       return;
 
-    case QUEUE_DELETE:            // cannot possibly be a candidate
-      errorMsg("NodeImpl::notifyChanged, node "
-               << m_nodeId << ' ' << this
-               << " is on delete queue and ineligible for checking");
+    case QUEUE_DELETE:            // finished plan, no longer eligible for checking
       return;
 
     default:                      // Invalid queue state
diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 82e24bc..8837b39 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -228,6 +228,17 @@ namespace PLEXIL
         m_finishedRootNodes.pop();
         debugMsg("PlexilExec:deleteFinishedPlans",
                  " deleting node " << node->getNodeId() << ' ' << node);
+        // Forget any of the plan's nodes still waiting to be checked
+        auto inPlan = [node] (Node const *n) -> bool
+                      {
+                        while (n && n != node)
+                          n = n->getParent();
+                        return n == node;
+                      };
+        while (m_candidateQueue.remove_if(inPlan))
+          ;
+        while (m_pendingQueue.remove_if(inPlan))
+          ;
         m_plan.remove_if([node] (NodePtr const &n) -> bool
                          { return node == n.get(); });
         m_finishedRootNodesDeleted = true;
-- 
2.43.0


From 0e981efeb143dd8b3d78f500f73cee1244f708a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 51/99] fix: concatenation of no strings had undefined behavior

---
 src/expr/StringOperators.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr/StringOperators.cc b/src/expr/StringOperators.cc
index 22b22ed..f7a56e0 100644
--- a/src/expr/StringOperators.cc
+++ b/src/expr/StringOperators.cc
@@ -78,6 +78,10 @@ namespace PLEXIL
                                 Function const &func) const
   {
     size_t nargs = func.size();
+    if (!nargs) {
+      result.clear();
+      return true;
+    }
     String const *vals[nargs];
     for (size_t i = 0; i < nargs; ++i) {
       if (!func[i]->getValuePointer(vals[i]))
-- 
2.43.0


From da3e4e89b34a1f1e6f85140b7402ee64e6251419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 52/99] fix: malformed node bodies, aliases, initial values and
 recursive library calls are refused when loading

---
 src/xml-parser/parseLibraryCall.cc | 14 ++++++++++++++
 src/xml-parser/parseNode.cc        | 20 ++++++++++++--------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 629cc5c..c19dfa9 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -84,6 +84,7 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
                                      << callerId);
+    checkExpression(callerId.c_str(), temp); // for effect
   }
 
   void checkLibraryCall(char const *callerId, xml_node const callXml)
@@ -134,6 +135,19 @@ namespace PLEXIL
                                      << callXml.first_child().child_value()
                                      << " not found while expanding LibraryNodeCall node "
                                      << node->getNodeId());
+
+    // A library which calls itself, directly or not, would be expanded forever
+    char const *libraryId = l->doc->document_element().child(NODE_TAG).child_value(NODEID_TAG);
+    for (NodeImpl *ancestor = node; ancestor; ancestor = ancestor->getParentNode()) {
+      NodeImpl *caller = ancestor->getParentNode();
+      checkParserExceptionWithLocation(!caller
+                                       || caller->getType() != NodeType_LibraryNodeCall
+                                       || ancestor->getNodeId() != libraryId,
+                                       callXml,
+                                       "Recursive call to library node " << libraryId
+                                       << " in LibraryNodeCall node " << node->getNodeId());
+    }
+
     // Construct call
     // Template was checked before it was added to library
     node->addChild(constructPlan(l->doc->document_element(), l->symtab, node));
diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 77c23dc..3be90b2 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -409,6 +409,10 @@ namespace PLEXIL
                                      bodyXml,
                                      "Node \"" << nodeId
                                      << "\" has an empty " << BODY_TAG << " element");
+    checkParserExceptionWithLocation(child.type() == node_element,
+                                     bodyXml,
+                                     "Node \"" << nodeId
+                                     << "\" has an invalid " << BODY_TAG << " element");
 
     switch (nodeType) {
     case NodeType_Assignment:
@@ -1030,13 +1034,13 @@ namespace PLEXIL
       }
       else if (areTypesCompatible(arrayElementType(varType),
                                   init->valueType())) {
-        // Initializer is scalar literal
-        checkParserExceptionWithLocation(sizeSpec >= 0,
-                                         decl,
-                                         "Node " << node->getNodeId()
-                                         << ", array variable \"" << varName 
-                                         << "\": Scalar initial value requires "
-                                         << MAX_SIZE_TAG);
+        // Initializer is scalar literal, which array variables cannot take
+        if (garbage)
+          delete init;
+        reportParserExceptionWithLocation(decl,
+                                          "Node " << node->getNodeId()
+                                          << ", array variable \"" << varName 
+                                          << "\": Scalar initial value is not supported");
       }
       else {
         if (garbage)
@@ -1199,7 +1203,7 @@ namespace PLEXIL
       // Parse and check initial value expression
       bool initGarbage, garbage;
       Expression *initExp = parseVariableInitializer(initGarbage, node, inOutXml, isCall);
-      Expression *var = createAssignable(inOutXml, node, garbage);
+      Expression *var = createExpression(inOutXml, node, garbage);
       assertTrue_1(garbage); // better be something we can delete!
       if (!node->addLocalVariable(name, var)) {
         delete var;
-- 
2.43.0


From 1ca7b446e9588e975587797b6e63ebc3be24fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 53/99] fix: repeated bounds of a command resource were
 accepted, and leaked

---
 src/xml-parser/commandXmlParser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index e1268d0..3943094 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -47,7 +47,7 @@ namespace PLEXIL
   static void checkResource(char const *nodeId, xml_node const resourceElt)
   {
     checkTag(RESOURCE_TAG, resourceElt);
-    xml_node nameXml, prioXml;
+    xml_node nameXml, prioXml, upperBoundXml, releaseAtTermXml;
 
     // check the fields
     for (xml_node rtemp = resourceElt.first_child();
@@ -56,7 +56,6 @@ namespace PLEXIL
       ValueType tempType = UNKNOWN_TYPE;
       char const* tag = rtemp.name();
       size_t taglen = strlen(tag);
-      xml_node upperBoundXml, releaseAtTermXml;
       switch (taglen) {
       case 12: // ResourceName
         checkParserExceptionWithLocation(!strcmp(RESOURCE_NAME_TAG, tag),
-- 
2.43.0


From a1ec61c345ca8511d81b18626760b763ff4b2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 54/99] fix: node bodies with several contents and mutexes with
 initial values were accepted

---
 src/xml-parser/parseNode.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 3be90b2..2c2934f 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -166,6 +166,10 @@ namespace PLEXIL
                                      decl,
                                      "Malformed or empty " << decl.name()
                                      << " in node " << nodeId);
+    checkParserExceptionWithLocation(!decl.child(TYPE_TAG) && !decl.child(INITIALVAL_TAG),
+                                     decl,
+                                     "Malformed " << decl.name()
+                                     << ' ' << name << " in node " << nodeId);
   }
 
   static void checkVariableDeclarations(char const *nodeId, xml_node const decls)
@@ -409,7 +413,7 @@ namespace PLEXIL
                                      bodyXml,
                                      "Node \"" << nodeId
                                      << "\" has an empty " << BODY_TAG << " element");
-    checkParserExceptionWithLocation(child.type() == node_element,
+    checkParserExceptionWithLocation(child.type() == node_element && !child.next_sibling(),
                                      bodyXml,
                                      "Node \"" << nodeId
                                      << "\" has an invalid " << BODY_TAG << " element");
-- 
2.43.0


From 90441cb8912549640c8c185496dd02bc64acb28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 55/99] fix: converting an out-of-range number of seconds to a
 time left the result uninitialised

---
 src/utils/timespec-utils.cc | 13 ++++++++++---
 src/utils/timeval-utils.cc  | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/utils/timespec-utils.cc b/src/utils/timespec-utils.cc
index 6caaac8..bf4b392 100644
--- a/src/utils/timespec-utils.cc
+++ b/src/utils/timespec-utils.cc
@@ -106,9 +106,16 @@ struct timespec operator-(const struct timespec& ts1, const struct timespec& ts2
 
 void doubleToTimespec(double dbl, timespec& result)
 {
-  if (dbl > std::numeric_limits<time_t>::max()
-      || dbl < std::numeric_limits<time_t>::min()) {
-    // TODO: report out-of-range error
+  // The limits are not exactly representable as doubles.
+  // Out of range values become the nearest representable time.
+  if (!(dbl < (double) std::numeric_limits<time_t>::max())) {
+    result.tv_sec = std::numeric_limits<time_t>::max();
+    result.tv_nsec = 0;
+    return;
+  }
+  if (dbl < (double) std::numeric_limits<time_t>::min()) {
+    result.tv_sec = std::numeric_limits<time_t>::min();
+    result.tv_nsec = 0;
     return;
   }
   result.tv_sec = (time_t) dbl;
diff --git a/src/utils/timeval-utils.cc b/src/utils/timeval-utils.cc
index aa94f4c..134fa8e 100644
--- a/src/utils/timeval-utils.cc
+++ b/src/utils/timeval-utils.cc
@@ -116,9 +116,16 @@ struct timeval operator- (const struct timeval& tv1, const struct timeval& tv2)
 
 void doubleToTimeval(double dbl, timeval& result)
 {
-  if (dbl > std::numeric_limits<time_t>::max()
-      || dbl < std::numeric_limits<time_t>::min()) {
-    // TODO: report out-of-range error
+  // The limits are not exactly representable as doubles.
+  // Out of range values become the nearest representable time.
+  if (!(dbl < (double) std::numeric_limits<time_t>::max())) {
+    result.tv_sec = std::numeric_limits<time_t>::max();
+    result.tv_usec = 0;
+    return;
+  }
+  if (dbl < (double) std::numeric_limits<time_t>::min()) {
+    result.tv_sec = std::numeric_limits<time_t>::min();
+    result.tv_usec = 0;
     return;
   }
   result.tv_sec = (time_t) dbl;
-- 
2.43.0


From 24067fda8d52c7073728bb81026fd77c10416e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 56/99] fix: data race on the next wakeup time between the
 timer's thread and the executive

---
 src/app-framework/Timebase.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/Timebase.hh b/src/app-framework/Timebase.hh
index 249bdb1..449c7cb 100644
--- a/src/app-framework/Timebase.hh
+++ b/src/app-framework/Timebase.hh
@@ -26,6 +26,7 @@
 #ifndef PLEXIL_TIMEBASE_HH
 #define PLEXIL_TIMEBASE_HH
 
+#include <atomic>
 #include <cstdint>
 #include <functional>
 #include <memory>
@@ -144,7 +145,7 @@ namespace PLEXIL
     // Shared member variables
     //
 
-    double    m_nextWakeup;     //!< The time of the next scheduled deadline wakeup, in seconds since the epoch.
+    std::atomic<double> m_nextWakeup; //!< The time of the next scheduled deadline wakeup, in seconds since the epoch.
     WakeupFn  m_wakeupFn;       //!< The wakeup function.
     uint32_t  m_interval_usec;  //!< Repeat interval in microseconds.
     bool      m_started;        //!< true if the start() method has been called, false otherwise.
-- 
2.43.0


From 42f8b30bf6b0c7c249630c198eff029f9690580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 57/99] fix: time wakeups could come before their deadline, or
 never when the deadline was now

---
 src/app-framework/ItimerTimebase.cc | 11 ++++++++---
 src/app-framework/PosixTimebase.cc  |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index a73eb1f..60482b5 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -168,16 +168,21 @@ namespace PLEXIL
       // Convert the deadline to timeval and get the current time
       struct timeval deadline, now;
       deadline = doubleToTimeval(d);
+      if (timevalToDouble(deadline) < d) {
+        // Conversion truncates; wake up at or after the deadline, never before
+        deadline = deadline + timeval {0, 1};
+      }
       checkInterfaceError(!gettimeofday(&now, nullptr),
                           "ItimerTimebase:setTimer: gettimeofday failed, errno = "
                           << errno << ":\n " << strerror(errno));
                           
       // Have we missed the deadline already?
-      if (deadline < now) {
-        // Already past the scheduled time
+      // An interval of 0 would disable the timer.
+      if (!(now < deadline)) {
+        // Already at or past the scheduled time
         debugMsg("ItimerTimebase:setTimer",
                  " new value " << std::fixed << std::setprecision(6) << d
-                 << " is in past, calling wakeup function now");
+                 << " is not in the future, calling wakeup function now");
         m_nextWakeup = 0;
         m_wakeupFn();
         return;
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 833bbac..09873ac 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -173,6 +173,10 @@ namespace PLEXIL
       // Get the wakeup time into the format timer_settime wants.
       struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
       tymrSpec.it_value = doubleToTimespec(d);
+      if (timespecToDouble(tymrSpec.it_value) < d) {
+        // Conversion truncates; wake up at or after the deadline, never before
+        tymrSpec.it_value = tymrSpec.it_value + timespec {0, 1};
+      }
       
       // Get the current time
       struct timespec now;
-- 
2.43.0


From 358e1e53c5ff625b7345a928d4033ef8a0140127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 58/99] fix: a stopped time adapter could not be restarted, and
 long tick intervals overflowed

---
 src/app-framework/ItimerTimebase.cc | 1 +
 src/app-framework/PosixTimebase.cc  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 60482b5..bb28b07 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -130,6 +130,7 @@ namespace PLEXIL
       }
 
       debugMsg("ItimerTimebase:stop", " entered");
+      m_started = false;
 
       // Disable the timer
       struct itimerval tymrVal = {{0, 0}, {0, 0}};
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 09873ac..8afd397 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -112,7 +112,7 @@ namespace PLEXIL
       struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
 
       // Calculate repeat interval in nanosec.
-      uint64_t nanos = 1000 * m_interval_usec;
+      uint64_t nanos = 1000 * static_cast<uint64_t>(m_interval_usec);
       tymrSpec.it_interval.tv_sec  = nanos / NSEC_PER_SEC; // better be *integer* divide!
       tymrSpec.it_interval.tv_nsec = nanos % NSEC_PER_SEC;
       // Set initial interval to the same
@@ -142,6 +142,7 @@ namespace PLEXIL
       }
 
       debugMsg("PosixTimebase:stop", " entered");
+      m_started = false;
 
       // Whether tick or deadline, disable the timer
       struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
-- 
2.43.0


From 351022012306992c5f31772d551cdd9adec5d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 59/99] fix: UDP messages without a leading string parameter
 were not sent, and send failures were reported as success

The adapter required the first argument of every message command to be a
string, although it does not use it; failed sends were acknowledged as
successful, and the socket was leaked when connect failed.
---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 19 ++++---------------
 src/interfaces/UdpAdapter/udp-utils.cc  |  1 +
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 3818609..e46d1c7 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -241,20 +241,6 @@ namespace PLEXIL
     void executeDefaultCommand(Command *cmd, AdapterExecInterface *intf)
     {
       std::vector<Value> const &args = cmd->getArgValues();
-      if (args.size() == 0) {
-        warn("UdpAdapter:executeDefaultCommand: command requires at least one argument");
-        intf->handleCommandAck(cmd, COMMAND_FAILED);
-        intf->notifyOfExternalEvent();
-        return;
-      }
-      
-      if (args[0].valueType() != STRING_TYPE) {
-        warn("UdpAdapter:executeDefaultCommand: message name must be a string");
-        intf->handleCommandAck(cmd, COMMAND_FAILED);
-        intf->notifyOfExternalEvent();
-        return;
-      }
-      
       std::string const &msgName = cmd->getName();
       debugMsg("UdpAdapter:executeDefaultCommand",
                " called for \"" << msgName << "\" with " << args.size() << " args");
@@ -287,8 +273,11 @@ namespace PLEXIL
                " sendUdpMessage returned " << status << " (bytes sent)");
       // Clean up some (one hopes)
       delete[] udp_buffer;
+      if (status < 0) {
+        warn("executeDefaultCommand: sending " << msgName << " message failed");
+      }
       // Do the internal Plexil Boiler Plate (as per example in IpcAdapter.cc)
-      intf->handleCommandAck(cmd, COMMAND_SUCCESS);
+      intf->handleCommandAck(cmd, status < 0 ? COMMAND_FAILED : COMMAND_SUCCESS);
       intf->notifyOfExternalEvent();
     }
 
diff --git a/src/interfaces/UdpAdapter/udp-utils.cc b/src/interfaces/UdpAdapter/udp-utils.cc
index 505765b..ef77b86 100644
--- a/src/interfaces/UdpAdapter/udp-utils.cc
+++ b/src/interfaces/UdpAdapter/udp-utils.cc
@@ -221,6 +221,7 @@ namespace PLEXIL
     int connect_err = connect(sock, (struct sockaddr *)&peer_addr, sizeof(peer_addr));
     if (connect_err < 0) {
       perror("connect() returned -1");
+      close(sock);
       return -1;
     }
 
-- 
2.43.0


From d4d15f860476140fceac700b97e047e3aa95f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 60/99] fix: UDP adapter lost messages on a repeated receive
 and could not be stopped twice

A second ReceiveCommand for an open port leaked a socket and lost every
message; closing a port that is not open crashed; the adapter could not be
restarted; empty datagrams were dropped.
---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 96 ++++++++++++++---------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index d91d0ef..feae1b8 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -180,6 +180,8 @@ namespace PLEXIL
 
     virtual ~UdpEventLoopImpl()
     {
+      if (m_pipeFDs[1])
+        stop();
     }
 
     //! Listen for datagrams of no more than maxLen octets (bytes) on
@@ -199,34 +201,30 @@ namespace PLEXIL
         return false;
       }
 
-      // Create a socket and bind it to the port
-      int fd = openAndBindUdpSocket(port);
-      if (fd < 0) {
-        warn("UdpEventLoop::openListener: opening UDP socket on port " << port << " failed");
-        return false;
+      int fd = getListenerFD(port);
+      if (fd >= 0) {
+        // Already listening on this port.
+        // Keep the socket and any datagrams waiting there, but replace the listener.
+        sendControlMsg(OP_REMOVE, port);
+      }
+      else {
+        // Create a socket and bind it to the port
+        fd = openAndBindUdpSocket(port);
+        if (fd < 0) {
+          warn("UdpEventLoop::openListener: opening UDP socket on port " << port << " failed");
+          return false;
+        }
       }
 
       // Allocate a Listener
       {
-        Listener *l = new Listener(fd, port, maxLen, fn);
+        std::unique_ptr<Listener> l(new Listener(fd, port, maxLen, fn));
         std::lock_guard<std::mutex> guard(m_listenerMutex);
-        m_listeners.emplace(std::make_pair(port, std::unique_ptr<Listener>(l)));
+        m_listeners[port] = std::move(l);
       }
 
       // Tell event loop it has a new listener
-      ControlMsg addMsg = {OP_ADD, port};
-      ssize_t nbytes = write(m_pipeFDs[1], &addMsg, sizeof(ControlMsg));
-      if (nbytes < 0) {
-        warn("UdpEventLoop::openListener: unable to notify event thread: " << strerror(errno));
-      }
-      else if (sizeof(ControlMsg) != (size_t) nbytes) {
-        warn("UdpEventLoop::openListener: control pipe: byte count mismatch.\n Expected "
-             << sizeof(ControlMsg) << ", actual " << nbytes);
-      }
-      else {
-        // Wait for completion of request
-        m_sem.wait();
-      }
+      sendControlMsg(OP_ADD, port);
 
       debugMsg("UdpEventLoop:openListener", " port " << port << " succeeded");
       return true;
@@ -243,29 +241,23 @@ namespace PLEXIL
         return;
       }
 
+      int fd = getListenerFD(port);
+      if (fd < 0) {
+        debugMsg("UdpEventLoop:closeListener", " not listening on port " << port << ", ignored");
+        return;
+      }
+
       if (m_eventThread.joinable()) {
-        ControlMsg removeMsg = {OP_REMOVE, port};
-        ssize_t nbytes = write(m_pipeFDs[1], &removeMsg, sizeof(ControlMsg));
-        if (nbytes < 0) {
-          warn("UdpEventLoop::closeListener: unable to notify event thread: " << strerror(errno));
-        }
-        else if (sizeof(ControlMsg) != (size_t) nbytes) {
-          warn("UdpEventLoop::closeListener: control pipe: byte count mismatch.\n Expected "
-               << sizeof(ControlMsg) << ", actual " << nbytes);
-        }
-        else {
-          // Wait for completion of request
-          m_sem.wait();
-        }
+        sendControlMsg(OP_REMOVE, port);
       }
       else {
         warn("UdpEventLoop: Event loop thread has crashed!");
       }
 
       // Close socket
-      if (close(m_listeners[port]->socketFD)) {
+      if (close(fd)) {
         warn("UdpEventLoop: close() failed for file descriptor "
-             << m_listeners[port]->socketFD << " (port " << port << "):\n "
+             << fd << " (port " << port << "):\n "
              << strerror(errno));
       }
 
@@ -327,6 +319,9 @@ namespace PLEXIL
         if (m_eventThread.joinable())
           m_eventThread.join();
       }
+      // Event thread closed the read end
+      m_pipeFDs[0] = 0;
+      m_pipeFDs[1] = 0;
 
       // Close any remaining open sockets
       for (ListenerMap::value_type const &pr : m_listeners) {
@@ -343,6 +338,33 @@ namespace PLEXIL
 
   private:
 
+    //! Get the file descriptor of the socket listening on the port.
+    //! Return -1 if there is none.
+    int getListenerFD(in_port_t port)
+    {
+      std::lock_guard<std::mutex> guard(m_listenerMutex);
+      ListenerMap::const_iterator it = m_listeners.find(port);
+      return it == m_listeners.end() ? -1 : it->second->socketFD;
+    }
+
+    //! Request an operation from the event thread and wait for its completion.
+    void sendControlMsg(ControlOp op, in_port_t port)
+    {
+      ControlMsg msg = {op, port};
+      ssize_t nbytes = write(m_pipeFDs[1], &msg, sizeof(ControlMsg));
+      if (nbytes < 0) {
+        warn("UdpEventLoop: unable to notify event thread: " << strerror(errno));
+      }
+      else if (sizeof(ControlMsg) != (size_t) nbytes) {
+        warn("UdpEventLoop: control pipe: byte count mismatch.\n Expected "
+             << sizeof(ControlMsg) << ", actual " << nbytes);
+      }
+      else {
+        // Wait for completion of request
+        m_sem.wait();
+      }
+    }
+
     //! Event loop top level.
     //! @param pipeFD File descriptor on which to listen for commands.
     void eventLoop(int pipeFD)
@@ -554,10 +576,8 @@ namespace PLEXIL
       if (nbytes < 0) {
         warn("UdpEventLoop: recvfrom() failed on port " << listener->port << ": " << strerror(errno));
       }
-      else if (!nbytes) {
-        warn("UdpEventLoop: socket closed unexpectedly on port " << listener->port);
-      }
       else {
+        // An empty datagram is a datagram, too.
         (listener->func)(listener->port, listener->buffer.get(), (size_t) nbytes,
                          reinterpret_cast<const struct sockaddr *>(listener->addrBuf.get()),
                          listener->addrSizeBuf);
-- 
2.43.0


From d54a7905defef5727bf438627637a39a6a9d61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 61/99] fix: data race on the UDP message queues, and aborted
 receives stayed queued

The queues are shared by the executive's and the receiving thread without
a lock; a stale Command could be answered after its node was gone; aborting
one of several receivers closed the port for all.
---
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 85 ++++++++++++--------
 src/interfaces/UdpAdapter/MessageQueueMap.hh | 19 ++++-
 src/interfaces/UdpAdapter/UdpAdapter.cc      |  5 +-
 3 files changed, 69 insertions(+), 40 deletions(-)

diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 225b82a..97d562b 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -59,10 +59,33 @@ namespace PLEXIL
    */
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
-    PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push(cmd);
-    updateQueue(que);
-    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
+    bool valChanged = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* que = ensureQueue(message);
+      que->m_recipientQueue.push_back(cmd);
+      valChanged = updateQueue(que);
+    }
+    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
+    if (valChanged)
+      m_execInterface.notifyOfExternalEvent();
+  }
+
+  /**
+   * @brief Removes the given recipient from the queue of the given message.
+   * @param message The message the recipient was waiting for
+   * @param cmd The command instance
+   * @return true if other recipients are waiting for the message, false otherwise.
+   * @note Always executed from the Exec thread.
+   */
+  bool MessageQueueMap::removeRecipient(const std::string& message, Command *cmd) {
+    debugMsg("MessageQueueMap:removeRecipient", ' ' << this << " for \"" << message << "\"");
+    std::lock_guard<std::mutex> guard(m_mutex);
+    PairingQueue* que = getQueue(message);
+    if (!que)
+      return false;
+    que->m_recipientQueue.remove(cmd);
+    return !que->m_recipientQueue.empty();
   }
 
   /**
@@ -72,13 +95,7 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(Value(message));
-    updateQueue(pq);
-    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << pq->m_name << "\" added");
+    addMessage(message, Value(message));
   }
 
   /**
@@ -90,14 +107,20 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message, const Value& param) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(param);
-    updateQueue(pq);
+    bool valChanged = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(param);
+      valChanged = updateQueue(pq);
+    }
     debugMsg("MessageQueueMap:addMessage",
-             ' ' << this << " Message \"" << pq->m_name << "\" added, value = \"" << param << '"');
+             ' ' << this << " Message \"" << message << "\" added, value = \"" << param << '"');
+    if (valChanged)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -120,7 +143,6 @@ namespace PLEXIL
   //! @brief Get the PairingQueue for this message, if it exists.
   MessageQueueMap::PairingQueue* MessageQueueMap::getQueue(const std::string& message)
   {
-    std::lock_guard<std::mutex> guard(m_mutex);
     QueueMap::iterator it = m_map.find(message);
     if (m_map.end() != it)
       return it->second.get();
@@ -130,24 +152,19 @@ namespace PLEXIL
   //! @brief Get or construct the PairingQueue for this message.
   MessageQueueMap::PairingQueue * MessageQueueMap::ensureQueue(const std::string& message)
   {
-    PairingQueue* result = nullptr;
-    {
-      std::lock_guard<std::mutex> guard(m_mutex);
-      QueueMap::iterator it = m_map.find(message);
-      if (m_map.end() == it) {
-        it = m_map.emplace(QueueMap::value_type(message,
-                                                std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
-      }
-      return it->second.get();
+    QueueMap::iterator it = m_map.find(message);
+    if (m_map.end() == it) {
+      it = m_map.emplace(QueueMap::value_type(message,
+                                              std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
+      debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
     }
-    debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
-    return result;
+    return it->second.get();
   }
 
   /**
    * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
    */
-  void MessageQueueMap::updateQueue(PairingQueue* queue)
+  bool MessageQueueMap::updateQueue(PairingQueue* queue)
   {
     debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " entered");
     MessageQueue& mq = queue->m_messageQueue;
@@ -157,15 +174,13 @@ namespace PLEXIL
       debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " returning value");
       debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " returning value");
       m_execInterface.handleCommandReturn(rq.front(), mq.front());
-      debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name
-               << " recipient inactive, ignoring");
-      rq.pop();
+      rq.pop_front();
       mq.pop();
     }
     if (valChanged) {
       debugMsg("MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
-      m_execInterface.notifyOfExternalEvent();
     }
+    return valChanged;
   }
 
 }
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index d38df4d..2e09bb9 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -61,6 +61,15 @@ namespace PLEXIL
      */
     void addRecipient(const std::string &message, Command *cmd);
 
+    /**
+     * @brief Removes the given recipient from the queue of the given message.
+     * The recipient will not receive any value from now on.
+     * @param message The message the recipient was waiting for
+     * @param cmd Pointer to the command requesting the message.
+     * @return true if other recipients are waiting for the message, false otherwise.
+     */
+    bool removeRecipient(const std::string &message, Command *cmd);
+
     /**
      * @brief Adds the given message to its queue. If there is a recipient
      * waiting for the message, it is sent immediately.
@@ -103,7 +112,7 @@ namespace PLEXIL
     using MessageQueue = std::queue<Value, std::list<Value>>;
 
     //* @brief Data structure containing the invoking command, for identifying and storing recipients
-    using RecipientQueue = std::queue<Command *, std::list<Command *>>;
+    using RecipientQueue = std::list<Command *>;
 
     //* @brief Data queue structure associating a message string with a queue of recipients and a queue of messages. Only one queue should have items at a time. */
     struct PairingQueue
@@ -121,25 +130,29 @@ namespace PLEXIL
 
     /**
      * @brief Private function that returns the queue for the given message, if it exists.
+     * @note The caller must hold the mutex.
      */
     PairingQueue* getQueue(const std::string& message);
 
     /**
      * @brief Private function that returns the queue for the given message. Creates a new queue
      * if one does not already exist.
+     * @note The caller must hold the mutex.
      */
     PairingQueue* ensureQueue(const std::string& message);
 
     /**
      * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+     * @return true if any recipient got a message; the exec should then be notified.
+     * @note The caller must hold the mutex.
      */
-    void updateQueue(PairingQueue* queue);
+    bool updateQueue(PairingQueue* queue);
 
     //* @brief Map holding all message queues
     using QueueMap = std::map<std::string, std::unique_ptr<PairingQueue>>;
     QueueMap m_map;
 
-    //* @brief Semaphore for return values from LookupNow
+    //* @brief Mutex for the queues, which are used by the exec and by the receiving thread
     std::mutex m_mutex;
 
     //* @brief The interface
diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index e46d1c7..c107174 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -312,7 +312,6 @@ namespace PLEXIL
 
       debugMsg("UdpAdapter:executeReceiveCommandCommand", " called for " << msgName);
       std::string command = formatMessageName(msgName, RECEIVE_COMMAND_COMMAND);
-      m_messageQueues.addRecipient(command, cmd);
       // Set up the thread on which the message may/will eventually be received
       int status = startUdpMessageReceiver(msgName, cmd);
       if (status) {
@@ -322,6 +321,7 @@ namespace PLEXIL
       else {
         debugMsg("UdpAdapter:executeReceiveCommandCommand",
                  " message handler for \"" << command << "\" registered");
+        m_messageQueues.addRecipient(command, cmd);
         intf->handleCommandAck(cmd, COMMAND_SENT_TO_SYSTEM);
       }
       intf->notifyOfExternalEvent();
@@ -555,7 +555,8 @@ namespace PLEXIL
         abortCommand(cmd, intf, false);
         return;
       }
-      m_eventLoop->closeListener(msg.local_port);
+      if (!m_messageQueues.removeRecipient(formatMessageName(msgName, RECEIVE_COMMAND_COMMAND), cmd))
+        m_eventLoop->closeListener(msg.local_port); // no one else is waiting for it
 
       debugMsg("UdpAdapter:abortCommand", " ReceiveCommand(\"" << msgName << "\") complete");
 
-- 
2.43.0


From d1dee70196984a5454b6e196a9bad8c9810d96ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 62/99] fix: short UDP datagrams showed data of earlier ones,
 and message lengths could overflow

Also refuses float parameters of two bytes, which were accepted at
configuration but failed at every use.
---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index c107174..ef7fd2b 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -76,6 +76,9 @@ namespace PLEXIL
   static constexpr char const SEND_RETURN_VALUE_COMMAND[] = "SendReturnValue";
 
   // Message formatting
+  //! Largest possible payload of a UDP datagram.
+  static constexpr unsigned int MAX_DATAGRAM_LENGTH = 65507;
+
   static constexpr char const COMMAND_PREFIX[] = "__COMMAND__";
   static constexpr char const PARAM_PREFIX[] = "__PARAMETER__";
 
@@ -682,11 +685,10 @@ namespace PLEXIL
           }
         }
         else if ((arg.type.compare("float") == 0) || (arg.type.compare("float-array") == 0)) {
-          // FIXME - shouldn't these be 4 or 8??
-          if (arg.len != 2 && arg.len != 4) {
+          if (arg.len != 4) {
             warn("UdpAdapter: Message " << name
                  << ": Invalid 'bytes' value " << arg.len
-                 << " for " << arg.type << " parameter;\n valid values are 2 or 4");
+                 << " for " << arg.type << " parameter;\n the only valid value is 4");
             return false;
           }
         }
@@ -742,6 +744,11 @@ namespace PLEXIL
           arg.desc = param_desc.value();
 
         // Success!
+        if (static_cast<uint64_t>(arg.len) * arg.elements > MAX_DATAGRAM_LENGTH - msg.len) {
+          warn("UdpAdapter: Message " << name << ": message is longer than the limit of "
+               << MAX_DATAGRAM_LENGTH << " bytes");
+          return false;
+        }
         msg.len += arg.len * arg.elements;
         msg.parameters.push_back(arg);
       }
@@ -819,6 +826,15 @@ namespace PLEXIL
       // Handle a UDP message once it has indeed arrived.
       // msgDef is passed in, therefore, we will assume it is good.
       debugMsg("UdpAdapter:handleUdpMessage", " called for " << msgDef.name);
+      // The buffer still has the rest of an earlier message in it if this one is too short.
+      std::vector<unsigned char> padded;
+      if (length < msgDef.len) {
+        warn("UdpAdapter: received only " << length << " of the " << msgDef.len
+             << " bytes of message " << msgDef.name);
+        padded.assign(buffer, buffer + length);
+        padded.resize(msgDef.len, 0);
+        buffer = padded.data();
+      }
       if (m_debug) {
         std::cout << "  handleUdpMessage: buffer: ";
         print_buffer(buffer, msgDef.len);
-- 
2.43.0


From ac94fc0b18699b331113e904d40ff440f99b24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 63/99] fix: viewer messages were not well-formed XML when a
 string contained < or &

The text of values and names was not escaped; a control character in a
string could also end the message early.
---
 src/interfaces/LuvListener/LuvFormat.cc | 28 ++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/LuvListener/LuvFormat.cc b/src/interfaces/LuvListener/LuvFormat.cc
index fe60b6e..c1113d9 100644
--- a/src/interfaces/LuvListener/LuvFormat.cc
+++ b/src/interfaces/LuvListener/LuvFormat.cc
@@ -80,6 +80,32 @@ namespace PLEXIL {
     s << "</" << val << ">";
   }
 
+  // Write text with the characters which are special to XML (or to the Luv
+  // protocol, which uses a control character to end messages) escaped.
+  static void escapedText(std::ostream& s, const char* text) {
+    for (; *text; ++text) {
+      switch (*text) {
+      case '<':
+        s << "&lt;";
+        break;
+
+      case '>':
+        s << "&gt;";
+        break;
+
+      case '&':
+        s << "&amp;";
+        break;
+
+      default:
+        if ((unsigned char) *text < ' ' && *text != '\t' && *text != '\n')
+          s << "&#" << (unsigned int) (unsigned char) *text << ';';
+        else
+          s << *text;
+      }
+    }
+  }
+
   /**
    * @brief Generate a simple XML element containing some text.
    * @param s The stream to write the element to.
@@ -90,7 +116,7 @@ namespace PLEXIL {
                          const char* tag,
                          const char* text) {
     simpleStartTag(s, tag);
-    s << text;
+    escapedText(s, text);
     endTag(s, tag);
   }
 
-- 
2.43.0


From 89e355d22720264fddc2ac7e1d0b6cfba4f67286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 64/99] fix: the executive died when the viewer went away, and
 messages could be truncated

Closing the viewer raised SIGPIPE or an uncaught exception in the
executive; partial and interrupted writes and reads were not handled.
---
 src/interfaces/LuvListener/LuvListener.cc | 20 ++++++++++++----
 src/interfaces/Sockets/Socket.cpp         | 29 +++++++++++++++++++----
 src/interfaces/Sockets/Socket.h           |  4 ++++
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/interfaces/LuvListener/LuvListener.cc b/src/interfaces/LuvListener/LuvListener.cc
index b9b05cb..80b5d0c 100644
--- a/src/interfaces/LuvListener/LuvListener.cc
+++ b/src/interfaces/LuvListener/LuvListener.cc
@@ -28,6 +28,7 @@
 
 #include "ClientSocket.h"
 #include "Debug.hh"
+#include "Error.hh" // warn()
 #include "ExecListenerFactory.hh"
 #include "Expression.hh"
 #include "LuvFormat.hh"
@@ -207,6 +208,7 @@ namespace PLEXIL
                             const char* host, 
                             bool ignoreFailure) 
     {
+      closeSocket(); // in case of restart
       try {
         debugMsg("LuvListener:start",
                  " opening client socket to host " << host << ", port " << port);
@@ -225,7 +227,7 @@ namespace PLEXIL
     }
 
     //* Close the socket.
-    void closeSocket()
+    void closeSocket() const
     {
       delete m_socket;
       m_socket = nullptr;
@@ -243,8 +245,16 @@ namespace PLEXIL
     void sendMessage(const std::string& msg) const
     {
       debugMsg("LuvListener:sendMessage", " sending:\n" << msg);
-      *m_socket << msg << LUV_END_OF_MESSAGE;
-      waitForAck();
+      if (!m_socket)
+        return; // viewer has gone away
+      try {
+        *m_socket << msg << LUV_END_OF_MESSAGE;
+        waitForAck();
+      }
+      catch (SocketException const &e) {
+        warn("LuvListener: connection to viewer lost: " << e.description());
+        closeSocket();
+      }
     }
 
     //* Wait for acknowledgement from the viewer.
@@ -255,7 +265,7 @@ namespace PLEXIL
         std::string buffer;
 		do
           *m_socket >> buffer;
-        while (buffer[0] != LUV_END_OF_MESSAGE);
+        while (buffer.find(LUV_END_OF_MESSAGE) == std::string::npos);
       }
       debugMsg("LuvListener:waitForAck", " exited");
     }
@@ -267,7 +277,7 @@ namespace PLEXIL
 	//
 	// Member variables
 	//
-    Socket* m_socket;
+    mutable Socket* m_socket; // null when not connected to the viewer
     std::string m_host;
 	uint16_t m_port;
     bool m_block;
diff --git a/src/interfaces/Sockets/Socket.cpp b/src/interfaces/Sockets/Socket.cpp
index e8ef88d..3e2971d 100644
--- a/src/interfaces/Sockets/Socket.cpp
+++ b/src/interfaces/Sockets/Socket.cpp
@@ -201,14 +201,32 @@ bool Socket::accept (Socket& new_socket) const
 }
 
 
+// Send the whole message, however many calls it takes.
+static bool sendAll (int sock, const char* msg, size_t size)
+{
+   while (size)
+   {
+      ssize_t n = ::send (sock, msg, size, SOCK_MSG_NOSIGNAL);
+      if (n == -1)
+      {
+         if (errno == EINTR)
+            continue;
+         return false;
+      }
+      msg += n;
+      size -= n;
+   }
+   return true;
+}
+
 bool Socket::send (const std::string s) const
 {
-   return ::send (m_sock, s.c_str(), s.size(), SOCK_MSG_NOSIGNAL) != -1;
+   return sendAll (m_sock, s.c_str(), s.size());
 }
 
 bool Socket::send (char* msg, size_t size) const
 {
-   return ::send(m_sock, msg, size, SOCK_MSG_NOSIGNAL) != -1;
+   return sendAll (m_sock, msg, size);
 }
 
 int Socket::recv (std::string& s) const
@@ -219,7 +237,10 @@ int Socket::recv (std::string& s) const
    
    memset (buf, 0, MAXRECV + 1);
    
-   int status = ::recv (m_sock, buf, MAXRECV, 0);
+   int status;
+   do
+      status = ::recv (m_sock, buf, MAXRECV, 0);
+   while (status == -1 && errno == EINTR);
    
    if (status == -1)
    {
@@ -285,7 +306,7 @@ bool Socket::connect(const std::string host, const uint16_t port)
                << std::endl;
      return false;
    }
-   memcpy((void *) &m_addr.sin_addr, (void *) hostent->h_addr, sizeof(hostent->h_addr));
+   memcpy((void *) &m_addr.sin_addr, (void *) hostent->h_addr, hostent->h_length);
    
    int status = ::connect (m_sock, (sockaddr *) &m_addr, sizeof (m_addr));
    
diff --git a/src/interfaces/Sockets/Socket.h b/src/interfaces/Sockets/Socket.h
index 7b92649..b7b9d07 100644
--- a/src/interfaces/Sockets/Socket.h
+++ b/src/interfaces/Sockets/Socket.h
@@ -43,7 +43,11 @@
 const int MAXHOSTNAME = 200;
 const int MAXCONNECTIONS = 5;
 const int MAXRECV = 500;
+#ifdef MSG_NOSIGNAL
+const int SOCK_MSG_NOSIGNAL = MSG_NOSIGNAL;
+#else
 const int SOCK_MSG_NOSIGNAL = 0;
+#endif
 
 class Socket
 {
-- 
2.43.0


From 05087fa52440a247d310bba883fe7623c163b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 65/99] fix: viewer listener made from the command line used
 its configuration after its end

---
 src/interfaces/LuvListener/LuvListener.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/LuvListener/LuvListener.cc b/src/interfaces/LuvListener/LuvListener.cc
index 80b5d0c..b1828e9 100644
--- a/src/interfaces/LuvListener/LuvListener.cc
+++ b/src/interfaces/LuvListener/LuvListener.cc
@@ -37,6 +37,7 @@
 #include "SocketException.h"
 
 #include <sstream>
+#include <memory>
 #include <string>
 
 #include <cstdlib>
@@ -185,6 +186,12 @@ namespace PLEXIL
       }
     }
 
+    //* Take ownership of the XML the listener was constructed from.
+    void adoptConfiguration(std::unique_ptr<pugi::xml_document> doc)
+    {
+      m_configuration = std::move(doc);
+    }
+
     //* Report whether the listener is connected to the viewer.
     virtual bool isConnected() override
     {
@@ -278,6 +285,7 @@ namespace PLEXIL
 	// Member variables
 	//
     mutable Socket* m_socket; // null when not connected to the viewer
+    std::unique_ptr<pugi::xml_document> m_configuration; // when constructed by makeLuvListener
     std::string m_host;
 	uint16_t m_port;
     bool m_block;
@@ -292,13 +300,16 @@ namespace PLEXIL
                                unsigned int port,
                                bool block)
   {
-    pugi::xml_document doc;
-    pugi::xml_node toplevel = doc.append_child("Listener");
+    // The listener refers to its configuration as long as it lives
+    std::unique_ptr<pugi::xml_document> doc(new pugi::xml_document);
+    pugi::xml_node toplevel = doc->append_child("Listener");
     toplevel.append_attribute("ListenerType").set_value("LuvListener");
     toplevel.append_attribute(LUV_HOSTNAME_ATTR).set_value(hostname);
     toplevel.append_attribute(LUV_PORT_ATTR).set_value(port);
     toplevel.append_attribute(LUV_BLOCKING_ATTR).set_value(block);
-    return new LuvListenerImpl(toplevel);
+    LuvListenerImpl *result = new LuvListenerImpl(toplevel);
+    result->adoptConfiguration(std::move(doc));
+    return result;
   }
 
 } // namespace PLEXIL
-- 
2.43.0


From 3c75a865b8ce7cf53fa73c89a86c760cbd9c1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 66/99] fix: plans were announced to listeners after they
 started, and from two threads at once

A plan was queued before the listeners heard of it, and listeners were
called by the adding thread and the executive's thread without exclusion,
which garbled the viewer's stream.
---
 src/app-framework/ExecListenerHub.cc  |  9 +++++++++
 src/app-framework/ExecListenerHub.hh  | 11 +++++++++++
 src/app-framework/InterfaceManager.cc |  3 ++-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/ExecListenerHub.cc b/src/app-framework/ExecListenerHub.cc
index 7057dad..2437ade 100644
--- a/src/app-framework/ExecListenerHub.cc
+++ b/src/app-framework/ExecListenerHub.cc
@@ -84,6 +84,9 @@ namespace PLEXIL
    */
   void ExecListenerHub::notifyOfAddPlan(pugi::xml_node const plan)
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_mutex);
+#endif
     for (ExecListenerPtr const &listener : m_listeners)
       listener->notifyOfAddPlan(plan);
   }
@@ -94,6 +97,9 @@ namespace PLEXIL
    */
   void ExecListenerHub::notifyOfAddLibrary(pugi::xml_node const libNode)
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_mutex);
+#endif
     for (ExecListenerPtr const &listener : m_listeners)
       listener->notifyOfAddLibrary(libNode);
   }
@@ -104,6 +110,9 @@ namespace PLEXIL
    */
   void ExecListenerHub::stepComplete(unsigned int cycleNum)
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_mutex);
+#endif
     for (ExecListenerPtr const &listener : m_listeners) {
       listener->notifyOfTransitions(m_transitions);
       for (AssignmentRecord const &assign : m_assignments)
diff --git a/src/app-framework/ExecListenerHub.hh b/src/app-framework/ExecListenerHub.hh
index eafeca5..49cee16 100644
--- a/src/app-framework/ExecListenerHub.hh
+++ b/src/app-framework/ExecListenerHub.hh
@@ -32,6 +32,11 @@
 #include "Value.hh"
 
 #include <memory>
+#include "plexil-config.h" // PLEXIL_WITH_THREADS
+
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+#endif
 
 namespace PLEXIL
 {
@@ -133,6 +138,12 @@ namespace PLEXIL
     // Clients
     std::vector<ExecListenerPtr> m_listeners;
 
+#ifdef PLEXIL_WITH_THREADS
+    // Plans and libraries are announced on the thread which adds them,
+    // everything else on the exec's. Recursive, as a listener may add a plan.
+    std::recursive_mutex m_mutex;
+#endif
+
     // Queues
     std::vector<NodeTransition> m_transitions;
     std::vector<AssignmentRecord> m_assignments;
diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index b50aa1d..6f19e2b 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -355,8 +355,9 @@ namespace PLEXIL
     assertTrue_1(entry);
 
     entry->initForAddPlan(root);
-    m_inputQueue->put(entry);
+    // Announce the plan before the exec can start running it
     m_application->listenerHub()->notifyOfAddPlan(planXml);
+    m_inputQueue->put(entry);
     debugMsg("InterfaceManager:handleAddPlan", " plan enqueued for loading");
   }
 
-- 
2.43.0


From 40d31e3d60bd2e63c8d4c4ffc5a104cd5e9c4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 67/99] fix: blanks before a comma became part of the name in
 comma-separated lists

---
 src/app-framework/InterfaceSchema.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app-framework/InterfaceSchema.cc b/src/app-framework/InterfaceSchema.cc
index 49a049c..8469123 100644
--- a/src/app-framework/InterfaceSchema.cc
+++ b/src/app-framework/InterfaceSchema.cc
@@ -56,9 +56,9 @@ namespace PLEXIL
 	// look for comma or end of string
 	const char * comma = strchr(next, ',');
 	unsigned int len = 
-	  (comma == nullptr) ? 
-	  strcspn(next, whitespace) /* strip trailing whitespace */ :
-	  comma - next;
+	  (comma == nullptr) ? strlen(next) : comma - next;
+	while (len && strchr(whitespace, next[len - 1])) /* strip trailing whitespace */
+	  --len;
 
 	// construct result string
 	result->push_back(std::string(next, len));
-- 
2.43.0


From d8169f617a918b1a2e817ec7a9c5d5c2798fa6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 68/99] fix: adding plans or libraries from several threads
 corrupted the parser's state

---
 src/app-framework/InterfaceManager.cc | 48 +++++++++++++++++++--------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index 6f19e2b..a61167b 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -57,6 +57,17 @@
 
 #include <cstring>
 
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+
+// Plans and libraries may be added by several threads, but the parser's symbol
+// tables and the library are global.
+static std::mutex t_parserMutex;
+#define LOCK_PARSER std::lock_guard<std::mutex> parserGuard(t_parserMutex)
+#else
+#define LOCK_PARSER
+#endif
+
 namespace PLEXIL
 {
 
@@ -348,7 +359,11 @@ namespace PLEXIL
     debugMsg("InterfaceManager:handleAddPlan", " entered");
 
     // parse the plan
-    NodeImpl *root = parsePlan(planXml); // can throw ParserException
+    NodeImpl *root;
+    {
+      LOCK_PARSER;
+      root = parsePlan(planXml); // can throw ParserException
+    }
 
     assertTrue_1(m_inputQueue);
     QueueEntry *entry = m_inputQueue->allocate();
@@ -371,19 +386,24 @@ namespace PLEXIL
     checkError(doc,
                "InterfaceManager::handleAddLibrary: Null plan document");
 
-    // Hand off to librarian
-    Library const *l = loadLibraryDocument(doc);
-    if (l) {
-      pugi::xml_node const node = l->doc->document_element().child(NODE_TAG);
-      char const *name = node.child_value(NODEID_TAG);
-      m_application->listenerHub()->notifyOfAddLibrary(node);
-      debugMsg("InterfaceManager:handleAddLibrary", " library node " << name << " added");
-      return true;
-    }
-    else {
-      debugMsg("InterfaceManager:handleAddLibrary", " failed");
-      return false;
+    // Copied for the listeners, as another thread could replace the library
+    pugi::xml_document libCopy;
+    {
+      // Hand off to librarian
+      LOCK_PARSER;
+      Library const *l = loadLibraryDocument(doc);
+      if (!l) {
+        debugMsg("InterfaceManager:handleAddLibrary", " failed");
+        return false;
+      }
+      libCopy.append_copy(l->doc->document_element().child(NODE_TAG));
     }
+
+    pugi::xml_node const node = libCopy.document_element();
+    m_application->listenerHub()->notifyOfAddLibrary(node);
+    debugMsg("InterfaceManager:handleAddLibrary",
+             " library node " << node.child_value(NODEID_TAG) << " added");
+    return true;
   }
 
   //! Load the named library from the library path.
@@ -393,6 +413,7 @@ namespace PLEXIL
   bool
   InterfaceManager::handleLoadLibrary(std::string const &libName)
   {
+    LOCK_PARSER;
     if (loadLibraryNode(libName.c_str()))
       return true;
     return PLEXIL::isLibraryLoaded(libName.c_str());
@@ -404,6 +425,7 @@ namespace PLEXIL
   bool
   InterfaceManager::isLibraryLoaded(const std::string &libName) const
   {
+    LOCK_PARSER;
     return PLEXIL::isLibraryLoaded(libName.c_str());
   }
 
-- 
2.43.0


From 3051f83943818cf4639f8fd53418e37a3d74f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 69/99] fix: surplus content in expressions, plans and library
 calls was silently ignored when loading

---
 src/xml-parser/ArrayReferenceFactory.cc |  2 ++
 src/xml-parser/LookupFactory.cc         |  3 +++
 src/xml-parser/UserVariableFactory.cc   |  1 +
 src/xml-parser/commandXmlParser.cc      |  6 ++++++
 src/xml-parser/parseAssignment.cc       |  2 ++
 src/xml-parser/parseLibraryCall.cc      | 19 +++++++++++++++++++
 src/xml-parser/parseNode.cc             |  1 +
 src/xml-parser/parsePlan.cc             |  1 +
 src/xml-parser/parser-utils.cc          |  8 ++++++++
 src/xml-parser/parser-utils.hh          |  1 +
 src/xml-parser/updateXmlParser.cc       |  1 +
 11 files changed, 45 insertions(+)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index 03f5a08..b8c7a6b 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -141,8 +141,10 @@ namespace PLEXIL
                                      expr,
                                      "Node \"" << nodeId
                                      << "\": ArrayElement has no Index element");
+    checkNoSibling(indexXml);
     checkHasChildElement(indexXml);
     indexXml = indexXml.first_child();
+    checkNoSibling(indexXml);
     checkParserExceptionWithLocation(indexXml.type() == pugi::node_element,
                                      indexXml,
                                      "Node \"" << nodeId
diff --git a/src/xml-parser/LookupFactory.cc b/src/xml-parser/LookupFactory.cc
index 9bd25c8..cf86292 100644
--- a/src/xml-parser/LookupFactory.cc
+++ b/src/xml-parser/LookupFactory.cc
@@ -61,6 +61,7 @@ namespace PLEXIL
 
     // Name can be any legal String expression
     xml_node nameXml = stateNameXml.first_child();
+    checkNoSibling(nameXml);
     ValueType nameType = checkExpression(nodeId, nameXml);
     checkParserExceptionWithLocation(nameType == STRING_TYPE || nameType == UNKNOWN_TYPE,
                                      stateNameXml,
@@ -89,6 +90,7 @@ namespace PLEXIL
                                        << " may not appear in a " << expr.name());
 
       // Can be any valid numeric expression
+      checkNoSibling(temp.first_child());
       ValueType tolType = checkExpression(nodeId, temp.first_child());
       checkParserExceptionWithLocation(isNumericType(tolType) || tolType == UNKNOWN_TYPE,
                                        temp,
@@ -108,6 +110,7 @@ namespace PLEXIL
                                      << " may not appear in a " << expr.name());
     
     xml_node args = temp;
+    checkNoSibling(args);
     temp = args.first_child();
     if (lkup) {
       // Check count and types of args if name is known and declared
diff --git a/src/xml-parser/UserVariableFactory.cc b/src/xml-parser/UserVariableFactory.cc
index 0cd49bb..7e34c7e 100644
--- a/src/xml-parser/UserVariableFactory.cc
+++ b/src/xml-parser/UserVariableFactory.cc
@@ -72,6 +72,7 @@ namespace PLEXIL
                                          << "\": Invalid " << INITIALVAL_TAG << " contents in "
                                          << expr.name() << ' ' << expr.child_value(NAME_TAG));
         temp = temp.first_child();
+        checkNoSibling(temp);
 
         // *** N.B. ***
         // The schema used to restrict initializers to literals.
diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index 3943094..eb346e5 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -70,6 +70,7 @@ namespace PLEXIL
                                          "Command Node \"" << nodeId
                                          << "\": " << rtemp.name()
                                          << " element is invalid");
+        checkNoSibling(rtemp.first_child());
         tempType = checkExpression(nodeId, rtemp.first_child());
         checkParserExceptionWithLocation(tempType == STRING_TYPE || tempType == UNKNOWN_TYPE,
                                          rtemp,
@@ -92,6 +93,7 @@ namespace PLEXIL
                                          "Command Node \"" << nodeId
                                          << "\": " << rtemp.name()
                                          << " element is invalid");
+        checkNoSibling(rtemp.first_child());
         tempType = checkExpression(nodeId, rtemp.first_child());
         checkParserExceptionWithLocation(isNumericType(tempType) || tempType == UNKNOWN_TYPE,
                                          rtemp,
@@ -114,6 +116,7 @@ namespace PLEXIL
                                          "Command Node \"" << nodeId
                                          << "\": " << rtemp.name()
                                          << " element is invalid");
+        checkNoSibling(rtemp.first_child());
         tempType = checkExpression(nodeId, rtemp.first_child());
         checkParserExceptionWithLocation(isNumericType(tempType) || tempType == UNKNOWN_TYPE,
                                          rtemp,
@@ -136,6 +139,7 @@ namespace PLEXIL
                                          "Command Node \"" << nodeId
                                          << "\": " << rtemp.name()
                                          << " element is invalid");
+        checkNoSibling(rtemp.first_child());
         tempType = checkExpression(nodeId, rtemp.first_child());
         checkParserExceptionWithLocation(areTypesCompatible(BOOLEAN_TYPE, tempType),
                                          rtemp,
@@ -215,6 +219,7 @@ namespace PLEXIL
     // Required command name expression
     checkTag(NAME_TAG, temp);
     checkHasChildElement(temp);
+    checkNoSibling(temp.first_child());
     ValueType nameType = checkExpression(nodeId, temp.first_child());
     checkParserExceptionWithLocation(areTypesCompatible(STRING_TYPE, nameType),
                                      temp,
@@ -243,6 +248,7 @@ namespace PLEXIL
     temp = temp.next_sibling();
     if (temp) {
       checkTag(ARGS_TAG, temp);
+      checkNoSibling(temp);
       // Check argument types, count against declaration
       // See lookupXmlParser.cc
       temp = temp.first_child();
diff --git a/src/xml-parser/parseAssignment.cc b/src/xml-parser/parseAssignment.cc
index 95bfcf9..b059447 100644
--- a/src/xml-parser/parseAssignment.cc
+++ b/src/xml-parser/parseAssignment.cc
@@ -71,6 +71,8 @@ namespace PLEXIL
                                      assnXml,
                                      "Assignment Node \"" << nodeId
                                      << "\": Invalid right hand side for Assignment");
+    checkNoSibling(rhsXml);
+    checkNoSibling(rhsXml.first_child());
     ValueType rht = checkExpression(nodeId, rhsXml.first_child(), lht);
 
     // Check type consistency between variable (or array elt) and RHS expression
diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index c19dfa9..bb031ec 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -84,6 +84,7 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
                                      << callerId);
+    checkNoSibling(temp);
     checkExpression(callerId.c_str(), temp); // for effect
   }
 
@@ -136,6 +137,24 @@ namespace PLEXIL
                                      << " not found while expanding LibraryNodeCall node "
                                      << node->getNodeId());
 
+    // Every argument must be for a parameter the library has
+    xml_node const iface = l->doc->document_element().child(NODE_TAG).child(INTERFACE_TAG);
+    for (xml_node alias = callXml.first_child().next_sibling(); alias; alias = alias.next_sibling()) {
+      char const *name = alias.child_value(NODE_PARAMETER_TAG);
+      bool declared = false;
+      for (xml_node direction : iface)
+        for (xml_node parm : direction)
+          if (!strcmp(name, parm.child_value(NAME_TAG)))
+            declared = true;
+      checkParserExceptionWithLocation(declared,
+                                       alias,
+                                       "Library node "
+                                       << callXml.first_child().child_value()
+                                       << " has no parameter named \"" << name
+                                       << "\"; see LibraryNodeCall node "
+                                       << node->getNodeId());
+    }
+
     // A library which calls itself, directly or not, would be expanded forever
     char const *libraryId = l->doc->document_element().child(NODE_TAG).child_value(NODEID_TAG);
     for (NodeImpl *ancestor = node; ancestor; ancestor = ancestor->getParentNode()) {
diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 2c2934f..1f38ae9 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -457,6 +457,7 @@ namespace PLEXIL
                                      "Node \"" << nodeId
                                      << "\": " << xml.name()
                                      << " element is malformed");
+    checkNoSibling(expr);
     
     ValueType t = checkExpression(nodeId, expr);
     checkParserExceptionWithLocation(areTypesCompatible(BOOLEAN_TYPE, t),
diff --git a/src/xml-parser/parsePlan.cc b/src/xml-parser/parsePlan.cc
index ba3833b..ad045f0 100644
--- a/src/xml-parser/parsePlan.cc
+++ b/src/xml-parser/parsePlan.cc
@@ -88,6 +88,7 @@ namespace PLEXIL
     pushSymbolTable(result);
     try {
       checkNode(elt);
+      checkNoSibling(elt);
     }
     catch (...) {
       delete result;
diff --git a/src/xml-parser/parser-utils.cc b/src/xml-parser/parser-utils.cc
index 71ad661..27a7776 100644
--- a/src/xml-parser/parser-utils.cc
+++ b/src/xml-parser/parser-utils.cc
@@ -136,6 +136,14 @@ namespace PLEXIL
                                      "XML parsing error: Expected a child element of <" << e.name() << ">");
   }
 
+  void checkNoSibling(xml_node const e)
+  {
+    checkParserExceptionWithLocation(!e.next_sibling(),
+                                     e.next_sibling(),
+                                     "XML parsing error: Extraneous content after <" << e.name()
+                                     << "> in <" << e.parent().name() << ">");
+  }
+
   bool isBoolean(const char* initval)
   {
     if (!initval)
diff --git a/src/xml-parser/parser-utils.hh b/src/xml-parser/parser-utils.hh
index 108ecf7..eadfb95 100644
--- a/src/xml-parser/parser-utils.hh
+++ b/src/xml-parser/parser-utils.hh
@@ -54,6 +54,7 @@ namespace PLEXIL
   void checkTagSuffix(const char* t, pugi::xml_node const e);
   void checkNotEmpty(pugi::xml_node const e);
   void checkHasChildElement(pugi::xml_node const e);
+  void checkNoSibling(pugi::xml_node const e); // nothing may follow this element
 
   //! Ensure that a variable declaration is not used as an expression.
   void checkIsDeclaration(pugi::xml_node const e);
diff --git a/src/xml-parser/updateXmlParser.cc b/src/xml-parser/updateXmlParser.cc
index 1f2df74..f3584fa 100644
--- a/src/xml-parser/updateXmlParser.cc
+++ b/src/xml-parser/updateXmlParser.cc
@@ -56,6 +56,7 @@ namespace PLEXIL
                                        pr,
                                        "Node \"" << nodeId
                                        << "\": Update pair without a value expression");
+      checkNoSibling(temp);
       checkExpression(nodeId, temp);
     }
 
-- 
2.43.0


From a2d06725e247afc2c40143164f686f9253546808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 70/99] fix: test scripts: sent plans were never added,
 malformed values were silently misread, an update from a node that ran before
 could not be acknowledged

---
 src/apps/TestExec/TestExternalInterface.cc | 106 ++++++++++-----------
 src/apps/TestExec/exec-test-runner.cc      |  19 +++-
 2 files changed, 64 insertions(+), 61 deletions(-)

diff --git a/src/apps/TestExec/TestExternalInterface.cc b/src/apps/TestExec/TestExternalInterface.cc
index 48a3dac..b6ea0fa 100644
--- a/src/apps/TestExec/TestExternalInterface.cc
+++ b/src/apps/TestExec/TestExternalInterface.cc
@@ -42,7 +42,7 @@
 #include "pugixml.hpp"
 #include "stricmp.h"
 
-#include <limits>
+#include <memory>
 #include <sstream>
 
 #ifdef STDC_HEADERS
@@ -198,8 +198,11 @@ namespace PLEXIL
     Value value = parseResult(elt);
     CommandHandleValue handle = NO_COMMAND_HANDLE;
     std::string const *str = nullptr;
-    if (value.getValuePointer(str))
+    if (value.getValuePointer(str)) {
       handle = parseCommandHandleValue(*str);
+      checkParserException(handle != NO_COMMAND_HANDLE,
+                           "\"" << *str << "\" is not a valid command handle");
+    }
     debugMsg("Test:testOutput",
              "Sending command ACK " << getText(command, value));
     StateCommandMap::iterator it = m_commandAcks.find(command);
@@ -247,21 +250,12 @@ namespace PLEXIL
     checkError(strlen(filename) > 0,
                "SendPlan element has no file attribute");
 
-    pugi::xml_document* doc = new pugi::xml_document();
-    pugi::xml_parse_result parseResult = doc->load_file(filename);
-    assertTrueMsg(parseResult.status == pugi::status_ok, 
-                  "Error parsing plan file " << elt.attribute("file").value()
-                  << ": " << parseResult.description());
+    std::unique_ptr<pugi::xml_document> doc(loadXmlFile(filename));
+    checkError(doc, "Plan file " << filename << " not found or not readable");
 
     debugMsg("Test:testOutput",
              "Sending plan from file " << elt.attribute("file").value());
-    NodeImpl *root = nullptr;
-    try {
-      root = parsePlan(doc->document_element().child("PlexilPlan"));
-    }
-    catch (ParserException const &e) {
-      std::cerr << "Error parsing plan XML: \n" << e.what() << std::endl;
-    }
+    NodeImpl *root = parsePlan(doc->document_element());
     if (root)
       g_exec->addPlan(root);
   }
@@ -382,6 +376,29 @@ namespace PLEXIL
     }
   }
 
+  // Read one value of the given type from the whole text,
+  // surrounding white space aside.
+  template <typename T>
+  static T parseText(const std::string& type, const std::string& text)
+  {
+    T result;
+    std::istringstream str(text);
+    str >> result;
+    checkParserException(!str.fail() && (str >> std::ws).eof(),
+                         "\"" << text << "\" is not a valid " << type << " value");
+    return result;
+  }
+
+  // Accepts true and false in any case, 1, and 0.
+  static bool parseBoolean(const std::string& text)
+  {
+    if (0 == stricmp(text.c_str(), "true"))
+      return true;
+    if (0 == stricmp(text.c_str(), "false"))
+      return false;
+    return parseText<bool>("bool", text);
+  }
+
   static Value parseParam(pugi::xml_node const param)
   {
     checkError(!param.first_child().empty()
@@ -402,26 +419,17 @@ namespace PLEXIL
         t = STRING_TYPE;
       return Value(t);
     }
-    else if (type == "int") {
-      Integer value;
-      std::istringstream str(val);
-      str >> value;
-      return Value(value);
-    }
-    else if (type == "real") {
-      Real value;
-      std::istringstream str(val);
-      str >> value;
-      return Value(value);
-    }
-    else if (type == "bool") {
-      bool value;
-      std::istringstream str(val);
-      str >> value;
-      return Value(value);
-    }
+    else if (type == "int")
+      return Value(parseText<Integer>(type, val));
+    else if (type == "real")
+      return Value(parseText<Real>(type, val));
+    else if (type == "bool")
+      return Value(parseBoolean(val));
     // string case
-    else if (param.first_child().empty()) {
+    checkParserException(type.empty() || type.find("string") == 0
+                         || type.rfind("array") != std::string::npos,
+                         "Unknown type attribute \"" << type << "\"");
+    if (param.first_child().empty()) {
       return Value("");
     }
     else {
@@ -465,32 +473,14 @@ namespace PLEXIL
       return Value(valStr);
     }
     // int, int-array
-    else if (type.find("int") == 0) {
-      Integer value;
-      std::istringstream ss(valStr);
-      ss >> value;
-      return Value(value);
-    }
+    else if (type.find("int") == 0)
+      return Value(parseText<Integer>("int", valStr));
     // real, real-array
-    else if (type.find("real") == 0) {
-      Real value;
-      std::istringstream ss(valStr);
-      ss >> value;
-      return Value(value);
-    }
+    else if (type.find("real") == 0)
+      return Value(parseText<Real>("real", valStr));
     // bool or bool-array
-    else if (type.find("bool") == 0) {
-      if (0 == stricmp(valStr.c_str(), "true"))
-        return Value(true);
-      else if (0 == stricmp(valStr.c_str(), "false"))
-        return Value(false);
-      else {
-        bool value;
-        std::istringstream ss(valStr);
-        ss >> value;
-        return Value(value);
-      }
-    }
+    else if (type.find("bool") == 0)
+      return Value(parseBoolean(valStr));
     else {
       reportParserException("Unknown type attribute \"" << type << "\"");
       return Value();
@@ -582,7 +572,7 @@ namespace PLEXIL
     Update::PairValueMap const &pairs = update->getPairs();
     for (Update::PairValueMap::const_iterator pairIt = pairs.begin(); pairIt != pairs.end(); ++pairIt)
       debugMsg("Test:testOutput", " " << pairIt->first << " => " << pairIt->second);
-    m_waitingUpdates.insert(std::make_pair(update->getNodeId(), update));
+    m_waitingUpdates[update->getNodeId()] = update;
   }
 
   static std::string getText(const State& c)
diff --git a/src/apps/TestExec/exec-test-runner.cc b/src/apps/TestExec/exec-test-runner.cc
index efe110c..b903407 100644
--- a/src/apps/TestExec/exec-test-runner.cc
+++ b/src/apps/TestExec/exec-test-runner.cc
@@ -355,7 +355,7 @@ int run(int argc, char** argv)
 
   // Load the plan
   {
-    pugi::xml_document *planDoc;
+    pugi::xml_document *planDoc = nullptr;
     try {
       planDoc = loadXmlFile(planName);
       if (!planDoc)
@@ -408,7 +408,7 @@ int run(int argc, char** argv)
 
   // load script
   {
-    pugi::xml_document *scriptDoc;
+    pugi::xml_document *scriptDoc = nullptr;
     try {
       scriptDoc = loadXmlFile(scriptName);
       if (!scriptDoc)
@@ -442,7 +442,20 @@ int run(int argc, char** argv)
 
       return 1;
     }
-    intf.run(scriptElement);
+    try {
+      intf.run(scriptElement);
+    }
+    catch (ParserException const &e) {
+      warn("Error in script " << scriptName << ":\n" << e.what());
+      delete scriptDoc;
+
+      // Clean up
+      delete g_exec;
+      g_exec = nullptr;
+      g_dispatcher = nullptr;
+
+      return 1;
+    }
     debugMsg("Time", "Time spent in execution: " << clock() - time);
     delete scriptDoc;
   }
-- 
2.43.0


From 6b20ee4c09d1d74db412a1564235fee50890c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 71/99] fix: simulator: negative values, strings and last lines
 were skipped, malformed scripts accepted, unknown values random and commands
 could not return a handle

---
 src/apps/StandAloneSimulator/LineInStream.cc  |   4 +-
 .../PlexilSimResponseFactory.cc               |  18 +--
 .../StandAloneSimulator/PlexilSimulator.cc    |  10 +-
 .../StandAloneSimulator/ResponseFactory.cc    | 107 +++++++++++-------
 .../StandAloneSimulator/ResponseFactory.hh    |   9 +-
 .../SimulatorScriptReader.cc                  |  10 +-
 6 files changed, 90 insertions(+), 68 deletions(-)

diff --git a/src/apps/StandAloneSimulator/LineInStream.cc b/src/apps/StandAloneSimulator/LineInStream.cc
index 466b5c6..f92aa7e 100644
--- a/src/apps/StandAloneSimulator/LineInStream.cc
+++ b/src/apps/StandAloneSimulator/LineInStream.cc
@@ -74,12 +74,14 @@ std::istream &LineInStream::getLine()
     size_t firstNonWhitespace = m_linebuf.find_first_not_of(" \t\n\r");
     ignoreLine = (m_linebuf.size() == 0)
       || (std::string::npos == firstNonWhitespace)
-      || !isalnum(m_linebuf[firstNonWhitespace]);
+      || m_linebuf[firstNonWhitespace] == '#';
     condDebugMsg(ignoreLine,
                  "LineInStream:getLine",
                  " ignoring blank or comment line");
   }
   while (ignoreLine && m_filestream.good() && !m_filestream.eof());
+  if (ignoreLine)
+    m_linebuf.clear(); // nothing but blank lines and comments left
 
   debugMsg("LineInStream:getLine",
            " line = \"" << m_linebuf << "\"");
diff --git a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
index 62714eb..d2bc371 100644
--- a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
@@ -56,9 +56,8 @@ public:
 
     // Return value is on next line
     Value returnValue;
-    instream.getLine();
-    returnValue = parseReturnValue(instream, returnType);
-    // Error handling??
+    if (!parseReturnValue(instream, returnType, returnValue))
+      return false;
 
     debugMsg("PlexilSimResponseFactory:parseTelemetryReturn",
              " Adding telemetry for " << name << " value " << returnValue
@@ -86,19 +85,8 @@ public:
 
     Value returnValue;
     // Return value is on next line
-    instream.getLine();
-    if (instream.eof()) {
-      std::cerr << "Error: file " << instream.getFileName()
-                << ", line " << instream.getLineCount()
-                << ": premature end of file reading return value for "
-                << name
-                << std::endl;
+    if (!parseReturnValue(instream, returnType, returnValue, true))
       return false;
-    }
-
-    // TODO: check IO errors
-    returnValue = parseReturnValue(instream, returnType);
-    // TODO: error handling
 
     debugMsg("PlexilSimResponseFactory:parseCommandReturn",
              " Adding command return for " << name
diff --git a/src/apps/StandAloneSimulator/PlexilSimulator.cc b/src/apps/StandAloneSimulator/PlexilSimulator.cc
index 89f4bca..1989b48 100644
--- a/src/apps/StandAloneSimulator/PlexilSimulator.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimulator.cc
@@ -132,12 +132,18 @@ at the top of the script."
     std::unique_ptr<SimulatorScriptReader> rdr(makeScriptReader(mgrMap, agenda, factory));
     for (std::string const &scriptName : scriptNames) {
       debugMsg("PlexilSimulator", " reading script " << scriptName);
-      rdr->readScript(scriptName);
+      if (!rdr->readScript(scriptName)) {
+        std::cerr << "Error in script " << scriptName << ". Exiting." << std::endl;
+        return 1;
+      }
     }
     if (!telemetryScriptName.empty()) {
       debugMsg("PlexilSimulator",  
                " reading telemetry script " << telemetryScriptName);
-      rdr->readScript(telemetryScriptName, true);
+      if (!rdr->readScript(telemetryScriptName, true)) {
+        std::cerr << "Error in script " << telemetryScriptName << ". Exiting." << std::endl;
+        return 1;
+      }
     }
   }
 
diff --git a/src/apps/StandAloneSimulator/ResponseFactory.cc b/src/apps/StandAloneSimulator/ResponseFactory.cc
index e71ae44..07415da 100644
--- a/src/apps/StandAloneSimulator/ResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/ResponseFactory.cc
@@ -26,6 +26,7 @@
 #include "ResponseFactory.hh"
 
 #include "LineInStream.hh"
+#include "ParserException.hh"
 
 #include "timeval-utils.hh"
 
@@ -87,58 +88,78 @@ bool ResponseFactory::parseCommandResponseHeader(LineInStream &instream,
   return true;
 }
 
-Value parseReturnValue(LineInStream &instream, ValueType returnType)
+template <typename T>
+static Value parseTypedValue(std::string const &line, ValueType returnType)
 {
-  std::string const &line = instream.getLineStream().str();
-
-  switch (returnType) {
-  case BOOLEAN_TYPE: {
-    Boolean bv;
-    parseValue(line, bv);
-    return Value(bv);
-  }
+  T val;
+  if (parseValue(line, val))
+    return Value(val);
+  return Value(returnType); // unknown
+}
 
-  case INTEGER_TYPE: {
-    Integer iv;
-    parseValue(line, iv);
-    return Value(iv);
+bool parseReturnValue(LineInStream &instream,
+                      ValueType returnType,
+                      Value &result,
+                      bool isCommand)
+{
+  instream.getLine();
+  std::string const line = instream.getLineStream().str();
+  if (line.empty()) {
+    std::cerr << "Error: file " << instream.getFileName()
+              << ", line " << instream.getLineCount()
+              << ": premature end of file reading return value"
+              << std::endl;
+    return false;
   }
 
-  case REAL_TYPE: {
-    Real rv;
-    parseValue(line, rv);
-    return Value(rv);
+  if (isCommand && returnType != STRING_TYPE) {
+    CommandHandleValue const handle = parseCommandHandleValue(line);
+    if (handle != NO_COMMAND_HANDLE) {
+      result = Value(handle);
+      return true;
+    }
   }
 
-  case STRING_TYPE: {
-    String sv;
-    parseValue(line, sv);
-    return Value(sv);
+  try {
+    switch (returnType) {
+    case BOOLEAN_TYPE:
+      result = parseTypedValue<Boolean>(line, returnType);
+      return true;
+
+    case INTEGER_TYPE:
+      result = parseTypedValue<Integer>(line, returnType);
+      return true;
+
+    case REAL_TYPE:
+      result = parseTypedValue<Real>(line, returnType);
+      return true;
+
+    case STRING_TYPE:
+      result = parseTypedValue<String>(line, returnType);
+      return true;
+
+    // A command which returns no value can only respond with a handle
+    case UNKNOWN_TYPE:
+      std::cerr << "Error: file " << instream.getFileName()
+                << ", line " << instream.getLineCount()
+                << ": \"" << line << "\" is not a command handle value"
+                << std::endl;
+      return false;
+
+    default:
+      std::cerr << "Error: file " << instream.getFileName()
+                << ", line " << instream.getLineCount()
+                << ": unimplemented return value type "
+                << valueTypeName(returnType)
+                << std::endl;
+      return false;
+    }
   }
-
-  case COMMAND_HANDLE_TYPE:
-    return Value(parseCommandHandleValue(line));
-
-  case DATE_TYPE:
-  case DURATION_TYPE:
-  case ARRAY_TYPE:
-  case BOOLEAN_ARRAY_TYPE:
-  case INTEGER_ARRAY_TYPE:
-  case REAL_ARRAY_TYPE:
-  case STRING_ARRAY_TYPE:
-
-    std::cerr << "Error: file " << instream.getFileName()
-              << ", line " << instream.getLineCount()
-              << ": unimplemented return value type "
-              << valueTypeName(returnType)
-              << std::endl;
-    return Value();
-
-  default:
+  catch (ParserException const &e) {
     std::cerr << "Error: file " << instream.getFileName()
               << ", line " << instream.getLineCount()
-              << ": invalid return value type " << returnType
+              << ": " << e.what()
               << std::endl;
-    return Value();
+    return false;
   }
 }
diff --git a/src/apps/StandAloneSimulator/ResponseFactory.hh b/src/apps/StandAloneSimulator/ResponseFactory.hh
index abe35ac..89c7d53 100644
--- a/src/apps/StandAloneSimulator/ResponseFactory.hh
+++ b/src/apps/StandAloneSimulator/ResponseFactory.hh
@@ -94,7 +94,12 @@ protected:
 };
 
 // Utility needed by implementors of the above
-PLEXIL::Value parseReturnValue(LineInStream &instream,
-                               PLEXIL::ValueType returnType);
+// Reads the next line as a value of the given type
+// or, if a command response, as a command handle value.
+// Returns true if successful, false otherwise.
+bool parseReturnValue(LineInStream &instream,
+                      PLEXIL::ValueType returnType,
+                      PLEXIL::Value &result,
+                      bool isCommand = false);
 
 #endif // SAS_RESPONSE_FACTORY_HH
diff --git a/src/apps/StandAloneSimulator/SimulatorScriptReader.cc b/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
index c298f48..671d97b 100644
--- a/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
+++ b/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
@@ -145,11 +145,11 @@ public:
       else if (compatibilityMode) {
         if (telemetry) {
           if (!m_factory->parseTelemetryReturn(m_agenda, instream, firstWord, REAL_TYPE))
-            break;
+            return false;
         }
         else if (!m_factory->parseCommandReturn(ensureResponseMessageManager(firstWord),
                                                 instream, firstWord, REAL_TYPE))
-          break;
+          return false;
       }
       else if (UNKNOWN_TYPE != parseValueType(firstWord)) {
         // Is declaration
@@ -198,18 +198,18 @@ public:
         compatibilityMode = true;
         if (!m_factory->parseCommandReturn(ensureResponseMessageManager(firstWord),
                                            instream, firstWord, REAL_TYPE))
-          break;
+          return false;
       }
       else if (m_symbolTable.find(firstWord) != m_symbolTable.end()) {
         // This is a known symbol, parse according to symbol type
         SimSymbol *sym = m_symbolTable[firstWord].get();
         if (sym->symbolType == LOOKUP_SYM_TYPE) {
           if (!m_factory->parseTelemetryReturn(m_agenda, instream, firstWord, sym->returnType))
-            break;
+            return false;
         }
         else if (!m_factory->parseCommandReturn(ensureResponseMessageManager(firstWord),
                                                 instream, firstWord, sym->returnType))
-          break;
+          return false;
       }
       else {
         std::cerr << "Error: file " << instream.getFileName()
-- 
2.43.0


From c1560221d4a181a894dbb35bc543aa30515a202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 72/99] fix: simulator: commands raced the simulator thread or
 aborted it, early commands and past due responses were lost, messages leaked

---
 src/apps/StandAloneSimulator/Agenda.cc        |  4 +-
 src/apps/StandAloneSimulator/Agenda.hh        |  2 +-
 .../CommandResponseManager.cc                 |  8 +--
 src/apps/StandAloneSimulator/IpcCommRelay.cc  |  5 +-
 .../StandAloneSimulator/PlexilSimulator.cc    | 17 ++++-
 src/apps/StandAloneSimulator/Simulator.cc     | 70 +++++++++++--------
 src/apps/StandAloneSimulator/Simulator.hh     |  3 +-
 src/apps/StandAloneSimulator/TimingService.cc | 11 +--
 src/apps/StandAloneSimulator/TimingService.hh |  4 +-
 9 files changed, 74 insertions(+), 50 deletions(-)

diff --git a/src/apps/StandAloneSimulator/Agenda.cc b/src/apps/StandAloneSimulator/Agenda.cc
index 599b497..98fae86 100644
--- a/src/apps/StandAloneSimulator/Agenda.cc
+++ b/src/apps/StandAloneSimulator/Agenda.cc
@@ -91,9 +91,9 @@ public:
   }
     
   // Only valid when not empty.
-  virtual timeval const &nextResponseTime() const
+  virtual timeval nextResponseTime() const
   {
-    static struct timeval sl_zero = {0, 0};
+    static struct timeval const sl_zero = {0, 0};
     std::lock_guard<std::mutex> g(*m_mutex);
     if (m_queue.empty())
       return sl_zero;
diff --git a/src/apps/StandAloneSimulator/Agenda.hh b/src/apps/StandAloneSimulator/Agenda.hh
index fb49695..aa0d073 100644
--- a/src/apps/StandAloneSimulator/Agenda.hh
+++ b/src/apps/StandAloneSimulator/Agenda.hh
@@ -48,7 +48,7 @@ public:
   virtual size_t size() const = 0;
   virtual bool empty() const = 0;
   virtual void setSimulatorStartTime(timeval const &tym) = 0;
-  virtual timeval const &nextResponseTime() const = 0;
+  virtual timeval nextResponseTime() const = 0;
   virtual ResponseMessage *popResponse() = 0;
   virtual void scheduleResponse(timeval tym, ResponseMessage *msg) = 0;
 
diff --git a/src/apps/StandAloneSimulator/CommandResponseManager.cc b/src/apps/StandAloneSimulator/CommandResponseManager.cc
index f2eb1f2..83de5ee 100644
--- a/src/apps/StandAloneSimulator/CommandResponseManager.cc
+++ b/src/apps/StandAloneSimulator/CommandResponseManager.cc
@@ -101,12 +101,8 @@ public:
              " " << m_Identifier << ", count: " << m_Counter);
     ++m_Counter;
 
-    // This shouldn't happen, but check anyway just in case
-    assertTrueMsg(respBase != nullptr,
-                  "getResponses: Internal error: No response found for \""
-                  << m_Identifier << "\"");
-
-    if (respBase->numberOfResponses > 0) {
+    // There may be no response for this one, and no default
+    if (respBase && respBase->numberOfResponses > 0) {
       tDelay = respBase->delay;
       return respBase;
     }
diff --git a/src/apps/StandAloneSimulator/IpcCommRelay.cc b/src/apps/StandAloneSimulator/IpcCommRelay.cc
index 3dd2a3a..75e86d3 100644
--- a/src/apps/StandAloneSimulator/IpcCommRelay.cc
+++ b/src/apps/StandAloneSimulator/IpcCommRelay.cc
@@ -86,6 +86,7 @@ void IpcCommRelay::sendResponse(const ResponseMessage* respMsg) {
              << " \"" << respMsg->getName() << "\"");
     const IpcMessageId* transId = static_cast<const IpcMessageId*> (respMsg->getId());
     m_ipcFacade.publishReturnValues(transId->second, transId->first, value);
+    delete transId;
   }
     break;
 
@@ -104,6 +105,7 @@ void IpcCommRelay::sendResponse(const ResponseMessage* respMsg) {
              << respMsg->getMessageType());
     break;    
   }
+  delete respMsg;
   debugMsg("IpcCommRelay:sendResponse", " completed");
 }
 
@@ -113,7 +115,8 @@ void IpcCommRelay::sendResponse(const ResponseMessage* respMsg) {
 void IpcCommRelay::processCommand(const std::vector<PlexilMsgBase*>& msgs) {
   std::string cmdName(((const PlexilStringValueMsg*) msgs[0])->stringValue);
   IpcMessageId* transId = new IpcMessageId(msgs[0]->senderUID, msgs[0]->serial);
-  m_Simulator->scheduleResponseForCommand(cmdName, static_cast<void*> (transId));
+  if (!m_Simulator->scheduleResponseForCommand(cmdName, static_cast<void*> (transId)))
+    delete transId; // no response, so no one else will
 }
 
 /**
diff --git a/src/apps/StandAloneSimulator/PlexilSimulator.cc b/src/apps/StandAloneSimulator/PlexilSimulator.cc
index 1989b48..7785b3b 100644
--- a/src/apps/StandAloneSimulator/PlexilSimulator.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimulator.cc
@@ -36,6 +36,7 @@
 
 #include <fstream>
 
+#include <csignal>
 #include <cstring>
 
 static void usage(std::ostream &stream = std::cout)
@@ -151,15 +152,25 @@ at the top of the script."
   // Run the simulator
   //
   
+  // Block the signals the simulator waits for before creating any threads,
+  // so that those threads don't receive them instead.
+  sigset_t sigs;
+  sigemptyset(&sigs);
+  for (int sig : {SIGALRM, SIGINT, SIGHUP, SIGQUIT, SIGTERM})
+    sigaddset(&sigs, sig);
+  pthread_sigmask(SIG_BLOCK, &sigs, nullptr);
+
   std::unique_ptr<IpcCommRelay> plexilRelay(new IpcCommRelay(agentName));
+
+  // Simulator instance is responsible for deleting map, agenda
+  // Construct it before messages start arriving at the relay.
+  std::unique_ptr<Simulator> mySimulator(makeSimulator(plexilRelay.get(), mgrMap, agenda));
+
   if (!plexilRelay->initialize(centralhost)) {
     warn("PlexilSimulator: failed to initialize IPC. Exiting.");
     return 1;
   }
 
-  // Simulator instance is responsible for deleting map, agenda
-  std::unique_ptr<Simulator> mySimulator(makeSimulator(plexilRelay.get(), mgrMap, agenda));
-
   // Run until interrupted
   mySimulator->simulatorTopLevel();
 
diff --git a/src/apps/StandAloneSimulator/Simulator.cc b/src/apps/StandAloneSimulator/Simulator.cc
index 97a93d2..30992b7 100644
--- a/src/apps/StandAloneSimulator/Simulator.cc
+++ b/src/apps/StandAloneSimulator/Simulator.cc
@@ -38,8 +38,10 @@
 #include "Error.hh"
 #include "timeval-utils.hh"
 
+#include <atomic>
 #include <iomanip>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 #include <cerrno>
@@ -63,8 +65,10 @@ private:
   std::unique_ptr<Agenda> m_Agenda;
   std::unique_ptr<ResponseManagerMap> m_CmdToRespMgr;
   std::thread m_SimulatorThread;
-  bool m_Started;
-  bool m_Stop;
+  mutable std::mutex m_ValueMutex; // guards m_LookupNowValueMap
+  std::mutex m_TimerMutex;         // guards the timer and the decision to set it
+  std::atomic<bool> m_Started;
+  std::atomic<bool> m_Stop;
 
 public:
 
@@ -75,6 +79,8 @@ public:
       m_Agenda(agenda),
       m_CmdToRespMgr(map),
       m_SimulatorThread(),
+      m_ValueMutex(),
+      m_TimerMutex(),
       m_Started(false),
       m_Stop(false)
   {
@@ -124,6 +130,7 @@ public:
     if (!m_TimingService.defaultInitializeSignalHandling())
       return;
 
+    std::unique_lock<std::mutex> startLock(m_TimerMutex);
     m_Started = true;
 
     timeval now;
@@ -151,6 +158,7 @@ public:
                << timevalToDouble(firstWakeup));
       scheduleNextResponse(firstWakeup);
     }
+    startLock.unlock();
 
     //
     // Handle timer events until interrupted
@@ -178,28 +186,27 @@ public:
     //
     // Clean up
     //
-    m_TimingService.stopTimer();
-    m_TimingService.restoreSignalHandling();
-
+    {
+      std::lock_guard<std::mutex> g(m_TimerMutex);
+      m_TimingService.stopTimer();
+      m_TimingService.restoreSignalHandling();
+      m_Started = false;
+    }
     m_Stop = false;
-    m_Started = false;
 
     debugMsg("Simulator:simulatorTopLevel", " cleaning up");
   }
 
-  void scheduleResponseForCommand(const std::string& command,
+  bool scheduleResponseForCommand(const std::string& command,
                                   void* uniqueId)
   {
-    timeval time;
-    gettimeofday(&time, nullptr);
     debugMsg("Simulator:scheduleResponseForCommand",
              " for : " << command);
-    bool valid = constructNextResponse(command, uniqueId, time, MSG_COMMAND);
-    if (valid)
-      scheduleNextResponse(time);
-    else
-      debugMsg("Simulator:scheduleResponseForCommand",
-               "Not a command that needs a response.");
+    bool valid = constructNextResponse(command, uniqueId, MSG_COMMAND);
+    condDebugMsg(!valid,
+                 "Simulator:scheduleResponseForCommand",
+                 "Not a command that needs a response.");
+    return valid;
   }
 
   /**
@@ -209,6 +216,7 @@ public:
    */
   ResponseMessage* getLookupNowResponse(const std::string& stateName, void* uniqueId) const
   {
+    std::lock_guard<std::mutex> g(m_ValueMutex);
     NameValueMap::const_iterator it = m_LookupNowValueMap.find(stateName);
     if (it == m_LookupNowValueMap.end())
       return nullptr; // Name not known or no value established yet
@@ -231,7 +239,6 @@ private:
 
   bool constructNextResponse(const std::string& command,
                              void* uniqueId, 
-                             timeval& time,
                              int type)
   {
     ResponseManagerMap::const_iterator iter  = m_CmdToRespMgr->find(command);
@@ -264,6 +271,12 @@ private:
 
   void scheduleMessage(const timeval& delay, ResponseMessage* msg)
   {
+    std::lock_guard<std::mutex> g(m_TimerMutex);
+    if (!m_Started) {
+      // Times are relative to simulator start until then
+      m_Agenda->scheduleResponse(delay, msg);
+      return;
+    }
     timeval now;
     gettimeofday(&now, nullptr);
     timeval eventTime = now + delay;
@@ -272,8 +285,11 @@ private:
              << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
              << timevalToDouble(eventTime));
     m_Agenda->scheduleResponse(eventTime, msg);
+    scheduleNextResponse(eventTime);
   }
 
+  // Responses are only ever sent by the simulator thread.
+  // Call with m_TimerMutex held.
   void scheduleNextResponse(const timeval& time)
   {
     timeval nextEvent;
@@ -282,17 +298,11 @@ private:
         || time < nextEvent) {
       // Schedule timer
       debugMsg("Simulator:scheduleNextResponse", " Scheduling a timer");
-      bool timeIsFuture = m_TimingService.setTimer(time);
-      if (timeIsFuture) {
-        debugMsg("Simulator:scheduleNextResponse",
-                 " Timer set for "
-                 << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
-                 << timevalToDouble(time));
-      }
-      else {
-        debugMsg("Simulator:scheduleNextResponse", " Immediate response required");
-        handleWakeUp();
-      }
+      m_TimingService.setTimer(time);
+      debugMsg("Simulator:scheduleNextResponse",
+               " Timer set for "
+               << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
+               << timevalToDouble(time));
     }
     else {
       debugMsg("Simulator:scheduleNextResponse",
@@ -313,7 +323,7 @@ private:
     // Send every message with a scheduled time earlier than now.
     //
     while (!m_Agenda->empty()) {
-      timeval const &responseTime = m_Agenda->nextResponseTime();
+      timeval const responseTime = m_Agenda->nextResponseTime();
       debugMsg("Simulator:handleWakeUp", " next response at "
                << responseTime.tv_sec << '.' << responseTime.tv_usec);
       if (responseTime > now)
@@ -324,6 +334,7 @@ private:
                  "Simulator:handleWakeup: Agenda::popResponse returned null");
       if (resp->getMessageType() == MSG_TELEMETRY) {
         // Store the value for subsequent LookupNow requests
+        std::lock_guard<std::mutex> g(m_ValueMutex);
         m_LookupNowValueMap[resp->getName()] = resp->getValue();
       }
       debugMsg("Simulator:handleWakeUp", " sending response "
@@ -340,8 +351,9 @@ private:
     //
     // Schedule next wakeup, if any
     //
+    std::lock_guard<std::mutex> g(m_TimerMutex);
     struct timeval nextWakeup = m_Agenda->nextResponseTime();
-    if (nextWakeup.tv_sec != 0 && nextWakeup.tv_usec != 0) {
+    if (nextWakeup.tv_sec != 0 || nextWakeup.tv_usec != 0) {
       debugMsg("Simulator:handleWakeUp",
                " Scheduling next wakeup at "
                << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
diff --git a/src/apps/StandAloneSimulator/Simulator.hh b/src/apps/StandAloneSimulator/Simulator.hh
index 207a385..9f6e9cd 100644
--- a/src/apps/StandAloneSimulator/Simulator.hh
+++ b/src/apps/StandAloneSimulator/Simulator.hh
@@ -66,8 +66,9 @@ public:
    * @brief Schedules a response to the named command.
    * @param command The command name to which we are responding.
    * @param uniqueId Caller-specified identifier, passed through the simulator to the comm relay.
+   * @return True if there will be a response, false if not.
    */
-  virtual void scheduleResponseForCommand(const std::string& command, 
+  virtual bool scheduleResponseForCommand(const std::string& command, 
                                           void* uniqueId = nullptr) = 0;
 
   /**
diff --git a/src/apps/StandAloneSimulator/TimingService.cc b/src/apps/StandAloneSimulator/TimingService.cc
index 3af7657..5dab556 100644
--- a/src/apps/StandAloneSimulator/TimingService.cc
+++ b/src/apps/StandAloneSimulator/TimingService.cc
@@ -170,7 +170,7 @@ bool TimingService::restoreSignalHandling()
   return 0;
 }
 
-bool TimingService::setTimer(const timeval& time)
+void TimingService::setTimer(const timeval& time)
 {
   assertTrueMsg(m_nBlockedSignals != 0,
 				"TimingService::setTimer: Fatal error: signal handling has not been initialized");
@@ -181,10 +181,12 @@ bool TimingService::setTimer(const timeval& time)
   myTimer.it_interval.tv_sec = myTimer.it_interval.tv_usec = 0;
   myTimer.it_value = time - now;
       
-  if (myTimer.it_value.tv_sec < 0 || myTimer.it_value.tv_usec < 0) {
+  // A zero interval would disable the timer
+  if (!(time > now)) {
 	debugMsg("TimingService:setTimer",
-			 " Not setting interval timer, requested time is in the past");
-	return false;
+			 " requested time is not in the future");
+	myTimer.it_value.tv_sec = 0;
+	myTimer.it_value.tv_usec = 1;
   }
       
   int status = setitimer(ITIMER_REAL, &myTimer, nullptr);
@@ -194,7 +196,6 @@ bool TimingService::setTimer(const timeval& time)
 		   " Set interval timer for "
 		   << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
 		   << timevalToDouble(myTimer.it_value));
-  return true;
 }
 
 /**
diff --git a/src/apps/StandAloneSimulator/TimingService.hh b/src/apps/StandAloneSimulator/TimingService.hh
index 1353587..c01cd07 100644
--- a/src/apps/StandAloneSimulator/TimingService.hh
+++ b/src/apps/StandAloneSimulator/TimingService.hh
@@ -70,9 +70,9 @@ public:
   /**
    * @brief Set the timer for the specified absolute time.
    * @param time Const reference to a timeval with the requested wakeup time.
-   * @return True if the time is in the future, false otherwise.
+   * @note If the time is not in the future, the timer expires immediately.
    */
-  bool setTimer(const timeval& time);
+  void setTimer(const timeval& time);
 
   /**
    * @brief Get the (estimated) absolute time of the next scheduled wakeup.
-- 
2.43.0


From 454e9dba6beb5dfac5bb0405ba9aa1be462b0e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:06 +0000
Subject: [PATCH 73/99] fix: simulator: a repeated declaration leaked its
 symbol

---
 src/apps/StandAloneSimulator/SimulatorScriptReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/apps/StandAloneSimulator/SimulatorScriptReader.cc b/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
index 671d97b..9cf693b 100644
--- a/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
+++ b/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
@@ -167,6 +167,7 @@ public:
                     << ", line " << instream.getLineCount()
                     << ": symbol \"" << sym->name << "\" is already declared"
                     << std::endl;
+          delete sym;
           return false;
         }
         m_symbolTable.emplace(sym->name, std::unique_ptr<SimSymbol>(sym));
@@ -187,6 +188,7 @@ public:
                     << ", line " << instream.getLineCount()
                     << ": symbol \"" << sym->name << "\" is already declared"
                     << std::endl;
+          delete sym;
           return false;
         }
         m_symbolTable.emplace(sym->name, std::unique_ptr<SimSymbol>(sym));
-- 
2.43.0


From dccf2a99a7e0fb847ef17c2fa7f1a1498fb57442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 74/99] fix: launcher: outcome and failure type of an earlier
 iteration or plan stayed visible

---
 src/app-framework/Launcher.cc | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index bee1ad5..8d3644f 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -94,22 +94,18 @@ namespace PLEXIL
         m_interface->handleValueChange(State(PLAN_STATE_STATE, nodeIdValue),
                                        Value(nodeStateName(newState)));
 
+        // Report the outcome and failure type, or that there is none (yet):
+        // the node may be repeating, or reusing the name of an earlier one.
         NodeOutcome o = node->getOutcome();
-        if (o != NO_OUTCOME) {
-          // Report the outcome
-          debugMsg("LauncherListener:notify",
-                   ' ' << node->getNodeId() << " outcome " << outcomeName(o));
-          m_interface->handleValueChange(State(PLAN_OUTCOME_STATE, nodeIdValue),
-                                         Value(outcomeName(o)));
-          FailureType f = node->getFailureType();
-          if (f != NO_FAILURE) {
-            // Report the failure type
-            debugMsg("LauncherListener:notify",
-                     ' ' << node->getNodeId() << " failure " << failureTypeName(f));
-            m_interface->handleValueChange(State(PLAN_FAILURE_TYPE_STATE, nodeIdValue),
-                                           Value(failureTypeName(f)));
-          }
-        }
+        debugMsg("LauncherListener:notify",
+                 ' ' << node->getNodeId() << " outcome " << outcomeName(o));
+        m_interface->handleValueChange(State(PLAN_OUTCOME_STATE, nodeIdValue),
+                                       o != NO_OUTCOME ? Value(outcomeName(o)) : Value());
+        FailureType f = node->getFailureType();
+        debugMsg("LauncherListener:notify",
+                 ' ' << node->getNodeId() << " failure " << failureTypeName(f));
+        m_interface->handleValueChange(State(PLAN_FAILURE_TYPE_STATE, nodeIdValue),
+                                       f != NO_FAILURE ? Value(failureTypeName(f)) : Value());
 
         // Be sure to wake the exec
         notify = true;
-- 
2.43.0


From 8fb052349267391373fc89e3885666ac5963bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:29 +0000
Subject: [PATCH 75/99] fix: launcher: array, unknown and real-valued arguments
 to StartPlan were refused or changed

---
 src/app-framework/Launcher.cc | 38 ++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index 8d3644f..7bfb1d2 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -43,6 +43,9 @@
 #include "State.hh"
 
 #include <algorithm> // std::find_if()
+#include <iomanip>   // std::setprecision()
+#include <limits>
+#include <sstream>
 
 namespace PLEXIL
 {
@@ -124,25 +127,39 @@ namespace PLEXIL
   // Helper functions
   //
 
+  //! Construct the text which parses back to the given scalar value.
+  static std::string valueToXmlText(Value const &v)
+  {
+    if (!v.isKnown())
+      return "UNKNOWN";
+    double real;
+    if (v.valueType() == REAL_TYPE && v.getValue(real)) {
+      std::ostringstream s;
+      s << std::setprecision(std::numeric_limits<double>::max_digits10) << real;
+      return s.str();
+    }
+    return v.valueToString();
+  }
+
   static void valueToExprXml(pugi::xml_node parent, Value const &v)
   {
     ValueType vt = v.valueType();
     if (isArrayType(vt)) {
       pugi::xml_node aryxml = parent.append_child("ArrayValue");
       char const *eltType = typeNameAsValue(arrayElementType(vt));
-      aryxml.append_attribute("Type").set_value(eltType);
+      aryxml.append_attribute("Type").set_value(valueTypeName(arrayElementType(vt)).c_str());
       Array const *ary;
       v.getValuePointer(ary); // better succeed!
       for (size_t i = 0; i < ary->size(); ++i) {
         // quick & dirty
         aryxml.append_child(eltType).append_child(pugi::node_pcdata)
-          .set_value(ary->getElementValue(i).valueToString().c_str());
+          .set_value(valueToXmlText(ary->getElementValue(i)).c_str());
       }
     }
     else {
       // Scalar value
       parent.append_child(typeNameAsValue(vt)).append_child(pugi::node_pcdata)
-        .set_value(v.valueToString().c_str());
+        .set_value(valueToXmlText(v).c_str());
     }
   }
 
@@ -254,6 +271,17 @@ namespace PLEXIL
         intf->notifyOfExternalEvent();
         return;
       }
+      // Plan XML can't represent an unknown String
+      Array const *array = nullptr;
+      if (args[i + 1].valueType() == STRING_ARRAY_TYPE
+          && args[i + 1].getValuePointer(array)
+          && !array->allElementsKnown()) {
+        warn("Launcher: StartPlan command argument " << i + 1
+             << " is a String array with UNKNOWN elements");
+        intf->handleCommandAck(cmd, COMMAND_FAILED);
+        intf->notifyOfExternalEvent();
+        return;
+      }
       actuals.push_back(args[i + 1]);
     }
     
@@ -280,7 +308,7 @@ namespace PLEXIL
                ' ' << *nodeName << ": successfully added wrapper plan " << callerId)
     }
     catch (ParserException &e) {
-      warn("Launching plan " << nodeName << " failed:\n"
+      warn("Launching plan " << *nodeName << " failed:\n"
            << e.what());
       intf->handleCommandAck(cmd, COMMAND_FAILED);
       intf->notifyOfExternalEvent();
@@ -298,7 +326,7 @@ namespace PLEXIL
     std::list<NodePtr>::const_iterator it =
       std::find_if(allNodes.begin(), allNodes.end(), pred);
     if (it == allNodes.end()) {
-      warn("No such node" << nodeName); // FIXME
+      warn("No such node " << nodeName); // FIXME
       return nullptr;
     }
     Node *result = it->get();
-- 
2.43.0


From 5d1011ec356e84e38f76a43e71331287aecae70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:08 +0000
Subject: [PATCH 76/99] fix: node construction outside the executive's thread
 read and initialised the state cache's time unprotected

---
 src/exec/NodeImpl.cc    |  5 +++--
 src/intfc/StateCache.cc | 16 +++++++++++++++-
 src/intfc/StateCache.hh |  6 ++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 204ee1a..e41bdfa 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -33,7 +33,7 @@
 #include "NodeVariableMap.hh"
 #include "PlanError.hh"
 #include "PlexilExec.hh"
-#include "StateCache.hh" // currentTime()
+#include "StateCache.hh" // lastKnownTime()
 #include "UserVariable.hh"
 
 #include <algorithm> // std::sort
@@ -282,7 +282,8 @@ namespace PLEXIL
     debugMsg("NodeImpl:NodeImpl", " common initialization");
 
     // Initialize transition trace
-    logTransition(StateCache::currentTime(), (NodeState) m_state);
+    // Nodes may be constructed outside the Exec's thread
+    logTransition(StateCache::lastKnownTime(), (NodeState) m_state);
   }
 
   void NodeImpl::allocateVariables(size_t n)
diff --git a/src/intfc/StateCache.cc b/src/intfc/StateCache.cc
index d0c8780..bf8a803 100644
--- a/src/intfc/StateCache.cc
+++ b/src/intfc/StateCache.cc
@@ -33,19 +33,29 @@
 #include "State.hh"
 #include "StateCacheEntry.hh"
 
+#include <atomic>
 #include <map>
 
 namespace PLEXIL
 {
 
+  // The time as last seen by the Exec.
+  static std::atomic<double> s_lastKnownTime(0.0);
+
   // Implementation of time query functions
   double StateCache::currentTime()
   {
     double result = 0.0;
     instance().ensureTimeEntry()->cachedValue()->getValue(result);
+    s_lastKnownTime = result;
     return result;
   }
 
+  double StateCache::lastKnownTime()
+  {
+    return s_lastKnownTime;
+  }
+
   double StateCache::queryTime()
   {
     // Update the cached value
@@ -102,7 +112,10 @@ namespace PLEXIL
     //! \param value The new value.
     virtual void lookupReturn(State const &state, Value const &value)
     {
-      ensureStateCacheEntry(state)->updateValue(value, m_cycleCount);
+      StateCacheEntry *entry = ensureStateCacheEntry(state);
+      entry->updateValue(value, m_cycleCount);
+      if (entry == m_timeEntry)
+        currentTime();
     }
 
     //! \brief Construct or find the cache entry for this state.
@@ -213,6 +226,7 @@ namespace PLEXIL
         m_timeEntry(nullptr),
         m_cycleCount(1)
     {
+      ensureTimeEntry();
     }
 
     //! \brief Get or construct a state cache entry for the given state.
diff --git a/src/intfc/StateCache.hh b/src/intfc/StateCache.hh
index 9ebbb87..18ea057 100644
--- a/src/intfc/StateCache.hh
+++ b/src/intfc/StateCache.hh
@@ -54,6 +54,12 @@ namespace PLEXIL
     //! \return The cached time value, as a double.
     static double currentTime();
 
+    //! \brief Get the value most recently seen by currentTime() or lookupReturn().
+    //! \return The time value, as a double. Zero if none has been seen.
+    //! \note Unlike the rest of the cache, safe to call from any thread,
+    //!       e.g. while constructing nodes.
+    static double lastKnownTime();
+
     //! \brief Query the clock to get the time.
     //! \return The actual time, as a double.
     static double queryTime();
-- 
2.43.0


From 464f7e8bccf65118b9fced716f8585b672324254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:06 +0000
Subject: [PATCH 77/99] fix: message adapter: unsafe from several threads,
 empty handles, bad arguments acknowledged twice or read past their end

---
 src/app-framework/MessageAdapter.cc | 94 ++++++++++++++++++++++-------
 1 file changed, 71 insertions(+), 23 deletions(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index a986f28..0b2f91a 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -42,9 +42,25 @@
 
 #include <queue>
 
+#if defined(PLEXIL_WITH_THREADS)
+#include <atomic>
+#include <mutex>
+#endif
+
 namespace PLEXIL
 {
 
+  //! Construct a handle which no other message has had.
+  static std::string newMessageHandle()
+  {
+#if defined(PLEXIL_WITH_THREADS)
+    static std::atomic<unsigned long> sl_count(0);
+#else
+    static unsigned long sl_count = 0;
+#endif
+    return "Message_" + std::to_string(++sl_count);
+  }
+
   //! @class MessageAdapter
   //! A generalization and rationalization of the functionality
   //! provided by the old IpcAdapter and UdpAdapter.
@@ -89,6 +105,13 @@ namespace PLEXIL
 
     virtual bool start()
     {
+      // Let HaveMessage be known even before the first message
+#if defined(PLEXIL_WITH_THREADS)
+      std::lock_guard<std::mutex> const guard(m_mutex);
+#endif
+      if (m_queue.empty())
+        getInterface().notifyMessageQueueEmpty();
+
       // Begin accepting incoming messages
       // TODO
 
@@ -122,22 +145,26 @@ namespace PLEXIL
     //! Pop the message at the head of the queue and send it to the Exec.
     void acceptMessage(Command *cmd, AdapterExecInterface *intf)
     {
-      if (m_queue.empty()) {
-        // Empty queue -> handle unknown
-        intf->handleCommandReturn(cmd, Value());
-      }
-      else {
-        // Generate a handle
-        std::string handle;
-        // TODO - generate UID?
-        intf->notifyMessageAccepted(m_queue.front(), handle);
-        m_queue.pop();
-        intf->handleCommandReturn(cmd, Value(handle));
-        // Post the new state of the queue.
+      {
+#if defined(PLEXIL_WITH_THREADS)
+        std::lock_guard<std::mutex> const guard(m_mutex);
+#endif
         if (m_queue.empty()) {
-          intf->notifyMessageQueueEmpty();
-        } else {
-          intf->notifyMessageReceived(m_queue.front());
+          // Empty queue -> handle unknown
+          intf->handleCommandReturn(cmd, Value());
+        }
+        else {
+          // Generate a handle
+          std::string const handle = newMessageHandle();
+          intf->notifyMessageAccepted(m_queue.front(), handle);
+          m_queue.pop();
+          intf->handleCommandReturn(cmd, Value(handle));
+          // Post the new state of the queue.
+          if (m_queue.empty()) {
+            intf->notifyMessageQueueEmpty();
+          } else {
+            intf->notifyMessageReceived(m_queue.front());
+          }
         }
       }
       // In either case, we've done our job
@@ -201,17 +228,20 @@ namespace PLEXIL
           warn("ReleaseMessageHandle command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("ReleaseMessageHandle command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // do nothing, but report success
           intf->handleCommandAck(cmd, COMMAND_SUCCESS);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // All good? Hand it off for implementation.
@@ -229,18 +259,21 @@ namespace PLEXIL
           warn("PublishMessage command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("PublishMessage command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("PublishMessage command: first argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
@@ -253,35 +286,40 @@ namespace PLEXIL
         // Check that there are at least two parameters and that they are strings
         // Check that there is at least one parameter and that it is a string
         State const &command = cmd->getCommand();
-        if (command.parameterCount() < 1) {
+        if (command.parameterCount() < 2) {
           // report arg-count error
           warn("SendMessage command requires at least two arguments");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: first argument, recipient, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: first argument, recipient, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(1) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: second argument, message, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(1).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: second argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
@@ -296,14 +334,21 @@ namespace PLEXIL
     void enqueueMessage(State const &state, std::string const &sender, double timestamp)
     {
       // check if started?
-      bool wasEmpty = m_queue.empty();
-      m_queue.push(new Message(state, sender, timestamp));
-      if (wasEmpty) {
-        // Tell the Exec we have a message for them
-        // (populates the PeekAtMessage and PeekAtMessageSender lookups)
-        getInterface().notifyMessageReceived(m_queue.front());
-        getInterface().notifyOfExternalEvent();
+      bool wasEmpty;
+      {
+#if defined(PLEXIL_WITH_THREADS)
+        std::lock_guard<std::mutex> const guard(m_mutex);
+#endif
+        wasEmpty = m_queue.empty();
+        m_queue.push(new Message(state, sender, timestamp));
+        if (wasEmpty) {
+          // Tell the Exec we have a message for them
+          // (populates the PeekAtMessage and PeekAtMessageSender lookups)
+          getInterface().notifyMessageReceived(m_queue.front());
+        }
       }
+      if (wasEmpty)
+        getInterface().notifyOfExternalEvent(); // may run the Exec here and now
     }
     
     //
@@ -313,6 +358,9 @@ namespace PLEXIL
     using MessageQueue = std::queue<Message *>;
 
     MessageQueue m_queue;
+#if defined(PLEXIL_WITH_THREADS)
+    std::mutex m_mutex; // transports may receive in threads of their own
+#endif
   }; // class MessageAdapterImpl
 
 } // namespace PLEXIL
-- 
2.43.0


From 460fbf1cfbb609823ff84050fb7086fcef9614d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:06 +0000
Subject: [PATCH 78/99] fix: state cache: releasing a message handle crashed or
 left its values known, anonymous senders known as empty

---
 src/intfc/StateCache.cc | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/intfc/StateCache.cc b/src/intfc/StateCache.cc
index bf8a803..03be757 100644
--- a/src/intfc/StateCache.cc
+++ b/src/intfc/StateCache.cc
@@ -149,7 +149,10 @@ namespace PLEXIL
     {
       ensureStateCacheEntry(s_haveMessage)->update(true);
       ensureStateCacheEntry(s_peekAtMessage)->update(msg->message.name());
-      ensureStateCacheEntry(s_peekAtMessageSender)->update(msg->sender);
+      if (msg->sender.empty())
+        ensureStateCacheEntry(s_peekAtMessageSender)->setUnknown(); // anonymous
+      else
+        ensureStateCacheEntry(s_peekAtMessageSender)->update(msg->sender);
     }
 
     //! \brief Perform the appropriate actions when the message queue
@@ -178,7 +181,7 @@ namespace PLEXIL
           ->updateValue(msg->message.parameter(i), m_cycleCount);
       }
       ensureStateCacheEntry(State("MessageSender", handleValue))
-        ->updateValue(Value(msg->sender), m_cycleCount);
+        ->updateValue(msg->sender.empty() ? Value() : Value(msg->sender), m_cycleCount);
       ensureStateCacheEntry(State("MessageArrived", handleValue))
         ->updateValue(Value(msg->timestamp), m_cycleCount);
       delete msg;
@@ -196,18 +199,11 @@ namespace PLEXIL
         return; // not there, therefore already deleted or never existed
 
       Integer count;
-      if (!iter->second->cachedValue()->getValue(count)) {
-        // warn of internal error (NYI)
-        return;
-      }
+      CachedValue const *countValue = iter->second->cachedValue();
+      if (!countValue || !countValue->getValue(count))
+        return; // only ever looked up, or already released
       
-      if (iter->second->hasRegisteredLookups()) {
-        // BIG OOPS - can't delete these w/o leaving dangling pointers
-        // warn (NYI)
-        return;
-      }
-
-      m_map.erase(iter);
+      deleteStateCacheEntry(State("MessageParameterCount", handleValue));
       for (Integer i = 0; i < count; ++i) {
         deleteStateCacheEntry(State("MessageParameter",
                                     handleValue,
@@ -240,7 +236,8 @@ namespace PLEXIL
       return iter->second.get();
     }
 
-    //! \brief Delete the state cache entry for the named state.
+    //! \brief Delete the state cache entry for the named state,
+    //!        or make it unknown if there are active lookups on it.
     //! \param state Const reference to the state.
     void deleteStateCacheEntry(State const &state)
     {
@@ -248,7 +245,8 @@ namespace PLEXIL
       if (iter == m_map.end())
         return; // already deleted or never there
       if (iter->second->hasRegisteredLookups()) {
-        // warn (NYI) and bail out
+        // Can't delete it without leaving dangling pointers
+        iter->second->setUnknown();
         return;
       }
       m_map.erase(iter);
-- 
2.43.0


From 220e5084045dd7e193a5639ee8f00cd4e9d650fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:06 +0000
Subject: [PATCH 79/99] fix: accepted messages not yet processed at shutdown
 leaked

---
 src/intfc/QueueEntry.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/intfc/QueueEntry.cc b/src/intfc/QueueEntry.cc
index f6b0ab8..24d5b63 100644
--- a/src/intfc/QueueEntry.cc
+++ b/src/intfc/QueueEntry.cc
@@ -26,6 +26,7 @@
 
 #include "QueueEntry.hh"
 
+#include "Message.hh"
 #include "State.hh"
 
 namespace PLEXIL
@@ -44,6 +45,8 @@ namespace PLEXIL
     next = nullptr;
     if (type == Q_LOOKUP)
       delete state;
+    else if (type == Q_ACCEPT_MSG)
+      delete message; // null if it was delivered
     state = nullptr;
     value.setUnknown();
     type = Q_UNINITED;
-- 
2.43.0


From f6a60d0ce519477424072acb1ea537a58d58613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 80/99] fix: adapter configuration leaked when its type has no
 factory

---
 src/app-framework/AdapterFactory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/AdapterFactory.cc b/src/app-framework/AdapterFactory.cc
index 36e43ed..b7e599f 100644
--- a/src/app-framework/AdapterFactory.cc
+++ b/src/app-framework/AdapterFactory.cc
@@ -54,7 +54,7 @@ namespace PLEXIL
   {
     debugMsg("AdapterFactory:createInstance", " xml = " << xml);
 
-    AdapterConf *conf = parseAdapterConfiguration(xml);
+    std::unique_ptr<AdapterConf> conf(parseAdapterConfiguration(xml));
     if (!conf) {
       warn("AdapterFactory: unable to parse configuration XML");
       return nullptr;
@@ -86,7 +86,7 @@ namespace PLEXIL
            << adapterType << "\".");
       return nullptr;
     }
-    InterfaceAdapter *retval = it->second->create(conf, intf);
+    InterfaceAdapter *retval = it->second->create(conf.release(), intf);
     debugMsg("AdapterFactory:createInstance", " Created adapter " << adapterType);
     return retval;
   }
-- 
2.43.0


From 67f136ce704d9517cb280f40ccaf14771d90cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 81/99] fix: an interface error in a planner update handler
 ended the executive instead of failing the update

---
 src/app-framework/AdapterConfiguration.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/AdapterConfiguration.cc b/src/app-framework/AdapterConfiguration.cc
index 5d00cca..d2fb8de 100644
--- a/src/app-framework/AdapterConfiguration.cc
+++ b/src/app-framework/AdapterConfiguration.cc
@@ -574,7 +574,15 @@ namespace PLEXIL {
       debugMsg("AdapterConfiguration:updatePlanner",
                " sending planner update for node "
                << update->getNodeId());
-      (handler)(update, m_manager);
+      try {
+        (handler)(update, m_manager);
+      }
+      catch (InterfaceError const &e) {
+        warn("executeUpdate: Error sending update for node " << update->getNodeId()
+             << ":\n" << e.what());
+        m_manager->handleUpdateAck(update, false);
+        m_manager->notifyOfExternalEvent();
+      }
     }
 
   private:
-- 
2.43.0


From ea7d42184b23b7e997451f104f3e7ec66b3e8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 82/99] fix: null dispatcher used when an application with two
 tolerance lookups of a state was destroyed

---
 src/intfc/StateCacheEntry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index f8c7be0..12e7898 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -135,7 +135,7 @@ namespace PLEXIL
           m_highThreshold.reset();
         }
       }
-      else if (m_lowThreshold || m_highThreshold) {
+      else if ((m_lowThreshold || m_highThreshold) && g_dispatcher) {
         // Check whether thresholds should be updated
         debugMsg("StateCacheEntry:unregisterLookup",
                  ' ' << state << " updating thresholds from remaining "
-- 
2.43.0


From 6eda94b9dec2793c091c42600c60ce06e3a88f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 83/99] fix: thresholds of a state stayed set after its last
 tolerance lookup ended

---
 src/intfc/StateCacheEntry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index 12e7898..18dfbeb 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -133,6 +133,8 @@ namespace PLEXIL
         if (m_lowThreshold || m_highThreshold) {
           m_lowThreshold.reset();
           m_highThreshold.reset();
+          if (g_dispatcher) // may already be gone at exit
+            g_dispatcher->clearThresholds(state);
         }
       }
       else if ((m_lowThreshold || m_highThreshold) && g_dispatcher) {
-- 
2.43.0


From 6de26de3e626582d23062b3fad2c2d10ce61e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:11 +0000
Subject: [PATCH 84/99] fix: releasing a lookup within lookups took time
 exponential in the depth

---
 src/intfc/Lookup.cc | 56 +++------------------------------------------
 1 file changed, 3 insertions(+), 53 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index baebc4f..4bb9bc1 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -178,39 +178,6 @@ namespace PLEXIL
       return true; // value may change independently of parameters
     }
 
-    //
-    // Propagator API
-    //
-
-    //! \brief Add a change listener to this object.
-    //! \param ptr Pointer to the listener.
-    //! \note Lookups must explicitly listen to their parameters,
-    //!       because the lookup's value can change when the
-    //!       parameters change.
-    //! \note Wraps the Propagator method.
-    virtual void addListener(ExpressionListener *l) override
-    {
-      if (!hasListeners()) {
-        m_stateName->addListener(this);
-        if (m_paramVec)
-          m_paramVec->addListener(this);
-      }
-      Propagator::addListener(l);
-    }
-
-    //! \brief Remove a change listener from this object.
-    //! \param ptr Pointer to the listener to remove.
-    //! \note Wraps the Propagator method.
-    virtual void removeListener(ExpressionListener *l) override
-    {
-      Propagator::removeListener(l);
-      if (!hasListeners()) {
-        if (m_paramVec)
-          m_paramVec->removeListener(this);
-        m_stateName->removeListener(this);
-      }
-    }
-
     //
     // Expression API
     //
@@ -354,6 +321,9 @@ namespace PLEXIL
     //! \brief Call a function on all subexpressions of this object.
     //! \param oper A function of one argument, a pointer to Listenable,
     //!             returning void.
+    //! \note Lookups must listen to their names and parameters,
+    //!       because the lookup's value can change when they change.
+    //!       The Propagator base class does that for all subexpressions.
     virtual void doSubexprs(ListenableUnaryOperator const &oper) override
     {
       (oper)(m_stateName);
@@ -892,26 +862,6 @@ namespace PLEXIL
     }
     ///@}
 
-    //! \brief Add a change listener to this object.
-    //! \param ptr Pointer to the listener.
-    //! \note The value of a LookupOnChange may change when its
-    //!       tolerance value changes.
-    virtual void addListener(ExpressionListener *l) override
-    {
-      if (!hasListeners())
-        m_tolerance->addListener(this);
-      LookupImpl::addListener(l);
-    }
-
-    //! \brief Remove a change listener from this object.
-    //! \param ptr Pointer to the listener to remove.
-    virtual void removeListener(ExpressionListener *l) override
-    {
-      LookupImpl::removeListener(l);
-      if (!hasListeners())
-        m_tolerance->removeListener(this);
-    }
-
     //! \brief Local macro for defining LookupOnChange::getValue() methods.
     //! \param _rtype_ The name of the result type.
 
-- 
2.43.0


From 3d6b8f574faed54eb3a1fc06b0c59eaeee3140be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:53 +0000
Subject: [PATCH 85/99] fix: documents nested thousands of elements deep
 exhausted the stack

---
 src/xml-parser/parsePlan.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/xml-parser/parsePlan.cc b/src/xml-parser/parsePlan.cc
index ad045f0..8e8f32c 100644
--- a/src/xml-parser/parsePlan.cc
+++ b/src/xml-parser/parsePlan.cc
@@ -64,11 +64,39 @@ namespace PLEXIL
     return doc;
   }
 
+  // Checking, constructing, and executing a plan all recurse on its structure.
+  // Refuse documents which could exhaust the stack.
+  static void checkNesting(xml_node const xml)
+  {
+    static unsigned int const MAX_ELEMENT_DEPTH = 1000;
+
+    unsigned int depth = 0;
+    xml_node elt = xml;
+    while (elt) {
+      if (elt.first_child()) {
+        elt = elt.first_child();
+        ++depth;
+        checkParserException(depth <= MAX_ELEMENT_DEPTH,
+                             "Plan elements are nested more than "
+                             << MAX_ELEMENT_DEPTH << " deep");
+        continue;
+      }
+      while (depth && !elt.next_sibling()) {
+        elt = elt.parent();
+        --depth;
+      }
+      if (!depth)
+        return;
+      elt = elt.next_sibling();
+    }
+  }
+
   // First pass: surface check of XML
   SymbolTable *checkPlan(xml_node const xml)
   {
     debugMsg("checkPlan", " entered");
     checkTag(PLEXIL_PLAN_TAG, xml);
+    checkNesting(xml);
     checkHasChildElement(xml);
 
     xml_node elt = xml.first_child();
-- 
2.43.0


From 016cde647e4625b43a572f8faf2ec8ea422f782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:18 +0000
Subject: [PATCH 86/99] fix: an array made unknown meanwhile was not given back
 its value when its assignment was undone

---
 src/expr/ArrayVariable.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 41368b1..3f7f72e 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -698,8 +698,8 @@ namespace PLEXIL
   void ArrayVariableImpl<T>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<T> const *saved =
         dynamic_cast<ArrayImpl<T> const *>(m_savedValue.get());
@@ -714,8 +714,8 @@ namespace PLEXIL
   void ArrayVariableImpl<Integer>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<Integer> const *saved =
         dynamic_cast<ArrayImpl<Integer> const *>(m_savedValue.get());
@@ -730,8 +730,8 @@ namespace PLEXIL
   void ArrayVariableImpl<String>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<String> const *saved =
         dynamic_cast<ArrayImpl<String> const *>(m_savedValue.get());
-- 
2.43.0


From 808e5511c99f515f586f354cb739f75884a1184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:21 +0000
Subject: [PATCH 87/99] fix: a library node without variables of its own let
 its caller's variables be seen inside it

---
 src/exec/ListNode.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/exec/ListNode.cc b/src/exec/ListNode.cc
index 6901af6..9f63c83 100644
--- a/src/exec/ListNode.cc
+++ b/src/exec/ListNode.cc
@@ -220,15 +220,9 @@ namespace PLEXIL
     if (m_variablesByName)
       return m_variablesByName.get();
 
-    // Search ancestors for first in chain
-    NodeImpl *n = m_parent;
-    NodeVariableMap const *map = nullptr;
-    while (n && !map) {
-      map = n->getVariableMap();
-      if (!map)
-        n = n->m_parent;
-    }
-    return map;
+    // None here, use what our own parent makes visible.
+    // The variables of a library node's caller are not visible.
+    return m_parent ? m_parent->getChildVariableMap() : nullptr;
   }
 
   // Create the ancestor end, ancestor exit, and ancestor invariant conditions required by children
-- 
2.43.0


From 9d70aa463dee76d968a179ad81545157e5d7b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:27 +0000
Subject: [PATCH 88/99] fix: UDP event loop survives an interrupted poll()

---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index feae1b8..94ba5eb 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -384,6 +384,8 @@ namespace PLEXIL
       do {
         int nReady = poll(pollfds.data(), pollfds.size(), -1);
         if (nReady < 0) {
+          if (errno == EINTR)
+            continue; // interrupted by a signal handler
           warn("UdpEventLoop: poll() failed: " << strerror(errno));
           break;
         }
-- 
2.43.0


From ce396542e86750409a412a9fd4dc6fa099525a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:42 +0000
Subject: [PATCH 89/99] fix: IPC messages with unsendable values crashed,
 leaked or were published in part; command handle values had no message

---
 src/interfaces/IpcUtils/IpcFacade.cc | 87 +++++++++++++++++++++++++++-
 1 file changed, 84 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index fe81b57..604962c 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -100,6 +100,10 @@ namespace PLEXIL
       return RETURN_VALUE_MSG;
       break;
 
+    case PlexilMsgType_CommandHandleValue:
+      return COMMAND_HANDLE_VALUE_MSG;
+      break;
+
     case PlexilMsgType_BooleanValue:
       return BOOLEAN_VALUE_MSG;
       break;
@@ -150,6 +154,50 @@ namespace PLEXIL
     }
   }
 
+  /**
+   * @brief Can this value be sent in a value message?
+   * @param val The Value.
+   * @return true if it can, false otherwise.
+   * @note There is no representation for unknown array elements.
+   */
+  static bool isSendable(Value const &val)
+  {
+    if (!val.isKnown())
+      return true;
+
+    switch (val.valueType()) {
+    case BOOLEAN_TYPE:
+    case INTEGER_TYPE:
+    case REAL_TYPE:
+    case STRING_TYPE:
+    case COMMAND_HANDLE_TYPE:
+      return true;
+
+    case BOOLEAN_ARRAY_TYPE:
+    case INTEGER_ARRAY_TYPE:
+    case REAL_ARRAY_TYPE:
+    case STRING_ARRAY_TYPE: {
+      Array const *ary = nullptr;
+      val.getValuePointer(ary);
+      return ary && ary->allElementsKnown();
+    }
+
+    default:
+      return false;
+    }
+  }
+
+  //! @brief Can all these values be sent in value messages?
+  static bool areSendable(std::vector<Value> const &vals)
+  {
+    for (Value const &val : vals)
+      if (!isSendable(val)) {
+        warn("IpcFacade: cannot send value " << val);
+        return false;
+      }
+    return true;
+  }
+
   /**
    * @brief Utility function to create a value message from a PLEXIL Value.
    * @param val The Value to encode in the message.
@@ -654,6 +702,7 @@ namespace PLEXIL
   static constexpr const char *ALL_MSG_TYPE_NAMES[] =
     {MSG_BASE,
      RETURN_VALUE_MSG,
+     COMMAND_HANDLE_VALUE_MSG,
      BOOLEAN_VALUE_MSG,
      INTEGER_VALUE_MSG,
      REAL_VALUE_MSG,
@@ -712,13 +761,16 @@ namespace PLEXIL
   uint32_t IpcFacade::publishMessage(std::string const &command)
   {
     assertTrue_2(m_isStarted, "publishMessage called before started");
+    uint32_t serial = getSerialNumber();
     struct PlexilStringValueMsg packet =
       { { PlexilMsgType_Message,
           0,
-          getSerialNumber(),
+          serial,
           m_myUID.c_str() },
         command.c_str() };
-    return IPC_publishData(STRING_VALUE_MSG, (void *) &packet);
+    IPC_RETURN_TYPE result = IPC_publishData(STRING_VALUE_MSG, (void *) &packet);
+    setError(result);
+    return result == IPC_OK ? serial : ERROR_SERIAL;
   }
 
   uint32_t IpcFacade::publishCommand(std::string const &command,
@@ -732,6 +784,10 @@ namespace PLEXIL
                                   std::vector<Value> const &argsToDeliver)
   {
     assertTrue_2(m_isStarted, "publishCommand called before started");
+    if (!areSendable(argsToDeliver)) {
+      setError(IPC_Error);
+      return ERROR_SERIAL;
+    }
     uint32_t serial = getSerialNumber();
     struct PlexilStringValueMsg cmdPacket =
       { { PlexilMsgType_Command,
@@ -767,6 +823,10 @@ namespace PLEXIL
                                     std::string const &dest,
                                     std::vector<Value> const &argsToDeliver)
   {
+    if (!areSendable(argsToDeliver)) {
+      setError(IPC_Error);
+      return ERROR_SERIAL;
+    }
     // Construct the messages
     // Leader
     uint32_t serial = getSerialNumber();
@@ -793,6 +853,10 @@ namespace PLEXIL
                                           Value const &arg)
   {
     assertTrue_2(m_isStarted, "publishReturnValues called before started");
+    if (!areSendable(std::vector<Value>(1, arg))) {
+      setError(IPC_Error);
+      return ERROR_SERIAL;
+    }
     uint32_t serial = getSerialNumber();
     struct PlexilReturnValuesMsg packet =
       { { PlexilMsgType_ReturnValues,
@@ -824,6 +888,10 @@ namespace PLEXIL
     // Telemetry values message
     debugMsg("IpcFacade:publishTelemetry",
              ' ' << m_myUID << " sending telemetry message for \"" << destName << "\"");
+    if (!areSendable(values)) {
+      setError(IPC_Error);
+      return ERROR_SERIAL;
+    }
     uint32_t leaderSerial = getSerialNumber();
     PlexilStringValueMsg tvMsg =
       { { (uint16_t) PlexilMsgType_TelemetryValues,
@@ -843,6 +911,13 @@ namespace PLEXIL
                                     std::vector<std::pair<std::string, Value> > const& update) {
     debugMsg("IpcFacade:publishUpdate",
              ' ' << m_myUID << " sending planner update for \"" << nodeName << "\"");
+    for (std::pair<std::string, Value> const &item : update)
+      // There are no pair messages for unknown and array values
+      if (!item.second.isKnown() || !isScalarType(item.second.valueType()) || !isSendable(item.second)) {
+        warn("IpcFacade: cannot send value " << item.second << " in an update");
+        setError(IPC_Error);
+        return ERROR_SERIAL;
+      }
     uint32_t serial = getSerialNumber();
     struct PlexilStringValueMsg updatePacket =
       {{PlexilMsgType_PlannerUpdate,
@@ -877,7 +952,7 @@ namespace PLEXIL
   IPC_RETURN_TYPE IpcFacade::sendParameters(std::vector<Value> const &args, uint32_t serial, std::string const &dest) {
     size_t nParams = args.size();
     // Construct parameter messages
-    PlexilMsgBase* paramMsgs[nParams];
+    std::vector<PlexilMsgBase *> paramMsgs(nParams);
     for (size_t i = 0; i < nParams; ++i) {
       PlexilMsgBase* paramMsg = constructPlexilValueMsg(args[i]);
       // Fill in common fields
@@ -1037,6 +1112,12 @@ namespace PLEXIL
     if (status != IPC_OK)
       return false;
     status = IPC_defineMsg(formatMsgName(RETURN_VALUE_MSG, uid), IPC_VARIABLE_LENGTH, RETURN_VALUE_MSG_FORMAT);
+    if (status != IPC_OK)
+      return false;
+    status = IPC_defineMsg(COMMAND_HANDLE_VALUE_MSG, IPC_VARIABLE_LENGTH, COMMAND_HANDLE_VALUE_MSG_FORMAT);
+    if (status != IPC_OK)
+      return false;
+    status = IPC_defineMsg(formatMsgName(COMMAND_HANDLE_VALUE_MSG, uid), IPC_VARIABLE_LENGTH, COMMAND_HANDLE_VALUE_MSG_FORMAT);
     if (status != IPC_OK)
       return false;
     status = IPC_defineMsg(BOOLEAN_VALUE_MSG, IPC_VARIABLE_LENGTH, BOOLEAN_VALUE_MSG_FORMAT);
-- 
2.43.0


From 32b7a08657fc6acb77c067c98d8af8f90deb9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:22 +0000
Subject: [PATCH 90/99] fix: IPC messages without sender or text, repeated or
 of unknown type stopped the executive; ignored and incomplete ones leaked

---
 src/interfaces/IpcUtils/IpcFacade.cc | 104 +++++++++++++++++++--------
 1 file changed, 76 insertions(+), 28 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index 604962c..f34ccc0 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -44,6 +44,7 @@ namespace PLEXIL
   // forward reference
   static bool definePlexilIPCMessageTypes(std::string uid);
   static void myIpcDispatch(bool *flag_ptr);
+  static void freeMessage(PlexilMsgBase *msg);
   static void ipcMessageHandler(MSG_INSTANCE /* rawMsg */,
                                 void * unmarshalledMsg,
                                 void * this_as_void_ptr);
@@ -514,9 +515,8 @@ namespace PLEXIL
     }
 
     default:
-      // TODO: handle error more gracefully
-      errorMsg("getPlexilMsgValue: invalid or unimplemented message type "
-               << msg->msgType);
+      warn("getPlexilMsgValue: invalid or unimplemented message type "
+           << msg->msgType);
       // fall thru...
 
     case PlexilMsgType_UnknownValue:
@@ -649,6 +649,12 @@ namespace PLEXIL
     m_stopDispatchThread = true;
     m_thread.join();
 
+    // Nobody will complete these any more
+    for (IncompleteMessageMap::value_type const &entry : m_incompletes)
+      for (PlexilMsgBase *msg : entry.second)
+        freeMessage(msg);
+    m_incompletes.clear();
+
     debugMsg("IpcFacade:stop", ' ' << m_myUID << " unsubscribing all");
     unsubscribeAllListeners();
 
@@ -1232,32 +1238,70 @@ namespace PLEXIL
     facade->handleMessage(msgData);
   }
 
+  //! Free the data of a received message.
+  static void freeMessage(PlexilMsgBase *msg)
+  {
+    IPC_freeData(IPC_msgFormatter(msgFormatForType((PlexilMsgType) msg->msgType)), (void *) msg);
+  }
+
+  //! Does the message have all the strings it should?
+  static bool hasAllStrings(PlexilMsgBase const *msg)
+  {
+    if (!msg->senderUID)
+      return false;
+
+    switch ((PlexilMsgType) msg->msgType) {
+    case PlexilMsgType_AddPlan:
+    case PlexilMsgType_AddPlanFile:
+    case PlexilMsgType_AddLibrary:
+    case PlexilMsgType_AddLibraryFile:
+    case PlexilMsgType_Command:
+    case PlexilMsgType_Message:
+    case PlexilMsgType_LookupNow:
+    case PlexilMsgType_PlannerUpdate:
+    case PlexilMsgType_StringValue:
+    case PlexilMsgType_TelemetryValues:
+      return reinterpret_cast<PlexilStringValueMsg const *>(msg)->stringValue;
+
+    case PlexilMsgType_ReturnValues:
+      return reinterpret_cast<PlexilReturnValuesMsg const *>(msg)->requesterUID;
+
+    case PlexilMsgType_StringArray: {
+      PlexilStringArrayMsg const *arrayMsg = reinterpret_cast<PlexilStringArrayMsg const *>(msg);
+      for (size_t i = 0; i < arrayMsg->arraySize; ++i)
+        if (!arrayMsg->stringArray[i])
+          return false;
+      return true;
+    }
+
+    default:
+      return true;
+    }
+  }
+
   // Handle a message received from IPC dispatch thread
   void IpcFacade::handleMessage(PlexilMsgBase *msgData)
   {
     PlexilMsgType msgType = (PlexilMsgType) msgData->msgType;
     debugMsg("IpcFacade:handleMessage",
              ' ' << m_myUID << " received message type = " << msgType);
+    if (!hasAllStrings(msgData)) {
+      warn("IpcFacade: received message of type " << msgType
+           << " without sender or text, ignoring");
+      freeMessage(msgData);
+      return;
+    }
     switch (msgType) {
 
       // These can have 0 or more parameters,
       // and frequently have 0.
     case PlexilMsgType_Command:
     case PlexilMsgType_LookupNow:
-      if (msgData->count) {
-        debugMsg("IpcFacade:handleMessage",
-                 ' ' << m_myUID << " received "
-                 << (msgType == PlexilMsgType_Command ? "Command" : "LookupNow")
-                 << " message with parameters, processing as multi-part");
-        cacheMessageLeader(msgData);
-      }
-      else {
-        debugMsg("IpcFacade:handleMessage",
-                 ' ' << m_myUID << " delivering "
-                 << (msgType == PlexilMsgType_Command ? "Command" : "LookupNow")
-                 << " message with no parameters immediately");
-        deliverMessages(std::vector<PlexilMsgBase *>(1, msgData));
-      }
+      debugMsg("IpcFacade:handleMessage",
+               ' ' << m_myUID << " received "
+               << (msgType == PlexilMsgType_Command ? "Command" : "LookupNow")
+               << " message with " << msgData->count << " parameters");
+      cacheMessageLeader(msgData);
       break;
 
       // PlannerUpdate can have 0 pairs, but it's unlikely.
@@ -1276,6 +1320,8 @@ namespace PLEXIL
       const PlexilReturnValuesMsg* returnLeader = (const PlexilReturnValuesMsg*) msgData;
       if (!strcmp(returnLeader->requesterUID, getUID().c_str()))
         cacheMessageLeader(msgData);
+      else
+        freeMessage(msgData);
       break;
     }
       // Values - could be parameters or return values
@@ -1319,8 +1365,8 @@ namespace PLEXIL
       break;
 
     default:
-      errorMsg("IpcFacade::handleMessage: Received unimplemented or invalid message type "
-               << msgType);
+      warn("IpcFacade::handleMessage: Received unimplemented or invalid message type "
+           << msgType << ", ignoring");
       break;
     }
   }
@@ -1337,12 +1383,15 @@ namespace PLEXIL
   {
     IpcMessageId const msgId(msgData->senderUID, msgData->serial);
 
-    // Check that this isn't a duplicate leader
+    // If this is a duplicate leader, the sender has started over
     IncompleteMessageMap::iterator it = m_incompletes.find(msgId);
-    assertTrueMsg(it == m_incompletes.end(),
-                  "IpcFacade " << m_myUID
-                  << ": internal error: received duplicate leader for sender "
-                  << msgData->senderUID << ", serial " << msgData->serial);
+    if (it != m_incompletes.end()) {
+      warn("IpcFacade " << m_myUID << ": received duplicate leader for sender "
+           << msgData->senderUID << ", serial " << msgData->serial);
+      for (PlexilMsgBase *msg : it->second)
+        freeMessage(msg);
+      m_incompletes.erase(it);
+    }
 
     if (msgData->count == 0) {
       debugMsg("IpcFacade:cacheMessageLeader", " count == 0, processing immediately");
@@ -1373,6 +1422,7 @@ namespace PLEXIL
       debugMsg("IpcFacade:cacheMessageTrailer",
                ' ' << m_myUID << " no existing sequence for sender "
                << msgData->senderUID << ", serial " << msgData->serial << ", ignoring");
+      freeMessage(msgData);
       return;
     }
     std::vector<PlexilMsgBase*> &msgs = it->second;
@@ -1418,10 +1468,8 @@ namespace PLEXIL
     debugMsg("IpcFacade:deliverMessage", " unlocked listeners mutex");
 
     // clean up
-    for (size_t i = 0; i < msgs.size(); i++) {
-      PlexilMsgBase* msg = msgs[i];
-      IPC_freeData(IPC_msgFormatter(msgFormatForType((PlexilMsgType) msg->msgType)), (void *) msg);
-    }
+    for (size_t i = 0; i < msgs.size(); i++)
+      freeMessage(msgs[i]);
   }
 
 // UUID generation constants
-- 
2.43.0


From 7e12b52801df66549b50249419c28cee186b00d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:22 +0000
Subject: [PATCH 91/99] fix: races of the IPC dispatch thread with the
 executive over serials, errors, message names, start and stop; unsubscribing
 had no effect

---
 src/interfaces/IpcAdapter/IpcAdapter.cc |  5 ++++-
 src/interfaces/IpcUtils/IpcFacade.cc    | 18 ++++++++++++------
 src/interfaces/IpcUtils/IpcFacade.hh    |  9 ++++++---
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index e7d4e97..c92b451 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -224,14 +224,17 @@ namespace PLEXIL
         return false;
       }
 
+      // Listen before the first message can arrive
+      m_ipcFacade.subscribeAll(&m_listener);
+
       // Spawn listener thread
       if (m_ipcFacade.start() != IPC_OK) {
         warn("IpcAdapter: Unable to spawn IPC dispatch thread");
+        m_ipcFacade.unsubscribe(&m_listener);
         return false;
       }
       debugMsg("IpcAdapter:start", " spawned IPC dispatch thread");
 
-      m_ipcFacade.subscribeAll(&m_listener);
       debugMsg("IpcAdapter:start", " succeeded");
       return true;
     }
diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index f34ccc0..80ce632 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -43,7 +43,7 @@ namespace PLEXIL
 {
   // forward reference
   static bool definePlexilIPCMessageTypes(std::string uid);
-  static void myIpcDispatch(bool *flag_ptr);
+  static void myIpcDispatch(std::atomic<bool> *flag_ptr);
   static void freeMessage(PlexilMsgBase *msg);
   static void ipcMessageHandler(MSG_INSTANCE /* rawMsg */,
                                 void * unmarshalledMsg,
@@ -62,6 +62,9 @@ namespace PLEXIL
     using MessageFormatMap = std::map<MessageFormatKey, std::string>;
 
     static MessageFormatMap sl_formatMap;
+    // Both the exec and the dispatch thread publish messages
+    static std::mutex sl_formatMutex;
+    std::lock_guard<std::mutex> guard(sl_formatMutex);
 
     MessageFormatKey const key(msgName, destId);
     std::string &resultString = sl_formatMap[key];
@@ -528,6 +531,7 @@ namespace PLEXIL
     m_myUID(generateUID()),
     m_listenersMutex(),
     m_nextSerial(1),
+    m_error(IPC_OK),
     m_isInitialized(false),
     m_isStarted(false),
     m_stopDispatchThread(false)
@@ -627,8 +631,8 @@ namespace PLEXIL
       // Spawn message thread AFTER all subscribes complete
       // Running thread in parallel with subscriptions resulted in deadlocks
       debugMsg("IpcFacade:start", ' ' << m_myUID << " spawning IPC dispatch thread");
+      m_isStarted = true; // messages may arrive as soon as the thread is running
       m_thread = std::thread(myIpcDispatch, &m_stopDispatchThread);
-      m_isStarted = true;
     }
     return result;
   }
@@ -697,9 +701,11 @@ namespace PLEXIL
     debugMsg("IpcFacade:unsubscribe", " locking listeners mutex");
     {
       std::lock_guard<std::mutex> guard(m_listenersMutex);
-      std::remove(m_listenersToAll.begin(), m_listenersToAll.end(), listener);
-      for (ListenerMap::value_type pair : m_registeredListeners)
-        std::remove(pair.second.begin(), pair.second.end(), listener);
+      m_listenersToAll.erase(std::remove(m_listenersToAll.begin(), m_listenersToAll.end(), listener),
+                             m_listenersToAll.end());
+      for (ListenerMap::value_type &pair : m_registeredListeners)
+        pair.second.erase(std::remove(pair.second.begin(), pair.second.end(), listener),
+                          pair.second.end());
     }
     debugMsg("IpcFacade:unsubscribe", " unlocking listeners mutex");
   }
@@ -1202,7 +1208,7 @@ namespace PLEXIL
 
   //! IPC listener thread top level.
   //! Exits when the stop flag is set.
-  void myIpcDispatch(bool *flag_ptr)
+  void myIpcDispatch(std::atomic<bool> *flag_ptr)
   {
     assertTrue_2(flag_ptr,
                  "IpcFacade dispatch thread: pointer to stop flag is null!");
diff --git a/src/interfaces/IpcUtils/IpcFacade.hh b/src/interfaces/IpcUtils/IpcFacade.hh
index 808f8f7..1f89f24 100644
--- a/src/interfaces/IpcUtils/IpcFacade.hh
+++ b/src/interfaces/IpcUtils/IpcFacade.hh
@@ -32,6 +32,7 @@
 
 #include "Value.hh"
 
+#include <atomic>
 #include <limits>
 #include <list>
 #include <map>
@@ -367,10 +368,12 @@ namespace PLEXIL {
 
     //* @brief Count of # of outgoing commands and requests, starting with 1
     //  @note Should only ever be 0 at initialization
-    IpcSerialNumber m_nextSerial;
+    //* @note Used by both the exec and the dispatch thread.
+    std::atomic<IpcSerialNumber> m_nextSerial;
 
     //* @brief The error code of the last called IPC method.
-    IPC_RETURN_TYPE m_error;
+    //* @note Used by both the exec and the dispatch thread.
+    std::atomic<IPC_RETURN_TYPE> m_error;
 
     //* @brief Is the facade initialized?
     bool m_isInitialized;
@@ -379,7 +382,7 @@ namespace PLEXIL {
     bool m_isStarted;
 
     //* @brief True if the dispatch thread should stop.
-    bool m_stopDispatchThread;
+    std::atomic<bool> m_stopDispatchThread;
   };
 
   /**
-- 
2.43.0


From 7d8fbb07a09833792b2d304d5ee0562e2299994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:21 +0000
Subject: [PATCH 92/99] fix: plan files announced over IPC were loaded as
 libraries, wrong ones stopped the executive

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index c92b451..a4ca409 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -813,10 +813,14 @@ namespace PLEXIL
                   << stringMsg->stringValue << " not found" << std::endl;
         return;
       }
-      if (stringMsg->header.msgType == PlexilMsgType_AddPlan) {
-        getInterface().handleAddPlan(doc->document_element());
-        // Always notify immediately when adding a plan
-        getInterface().notifyOfExternalEvent();
+      if (stringMsg->header.msgType == PlexilMsgType_AddPlanFile) {
+        try {
+          getInterface().handleAddPlan(doc->document_element());
+          // Always notify immediately when adding a plan
+          getInterface().notifyOfExternalEvent();
+        } catch (ParserException const &e) {
+          std::cerr << "IpcAdapter: Error loading plan:\n " << e.what() << std::endl;
+        }
       }
       else {
         // No notification required
-- 
2.43.0


From 2ffb4569f80b4c3f7a5e2a74977bd646c76918c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:21 +0000
Subject: [PATCH 93/99] fix: IPC message queues were used by two threads
 without protection, aborted commands received messages

---
 src/interfaces/IpcAdapter/IpcAdapter.cc      |  2 +
 src/interfaces/IpcAdapter/MessageQueueMap.cc | 80 +++++++++++---------
 src/interfaces/IpcAdapter/MessageQueueMap.hh | 17 ++++-
 3 files changed, 61 insertions(+), 38 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index a4ca409..7e531f8 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -671,6 +671,8 @@ namespace PLEXIL
     //! Acknowledge an abortCommand() call
     void acknowledgeCommandAbort(Command *command, AdapterExecInterface *intf)
     {
+      // It must not be given a message from now on
+      m_messageQueues.removeRecipient(command);
       intf->handleCommandAbortAck(command, true);
       intf->notifyOfExternalEvent();
     }
diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.cc b/src/interfaces/IpcAdapter/MessageQueueMap.cc
index 225b82a..d1502ad 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.cc
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.cc
@@ -59,10 +59,28 @@ namespace PLEXIL
    */
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
-    PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push(cmd);
-    updateQueue(que);
-    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
+    bool valChanged = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* que = ensureQueue(message);
+      que->m_recipientQueue.push_back(cmd);
+      valChanged = updateQueue(que);
+    }
+    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
+    if (valChanged)
+      m_execInterface.notifyOfExternalEvent();
+  }
+
+  /**
+   * @brief Removes the given recipient from all queues.
+   * @param cmd The command instance
+   * @note Always executed from the Exec thread.
+   */
+  void MessageQueueMap::removeRecipient(Command *cmd) {
+    debugMsg("MessageQueueMap:removeRecipient", ' ' << this);
+    std::lock_guard<std::mutex> guard(m_mutex);
+    for (QueueMap::value_type &entry : m_map)
+      entry.second->m_recipientQueue.remove(cmd);
   }
 
   /**
@@ -72,13 +90,7 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(Value(message));
-    updateQueue(pq);
-    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << pq->m_name << "\" added");
+    addMessage(message, Value(message));
   }
 
   /**
@@ -90,14 +102,20 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message, const Value& param) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(param);
-    updateQueue(pq);
+    bool valChanged = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(param);
+      valChanged = updateQueue(pq);
+    }
     debugMsg("MessageQueueMap:addMessage",
-             ' ' << this << " Message \"" << pq->m_name << "\" added, value = \"" << param << '"');
+             ' ' << this << " Message \"" << message << "\" added, value = \"" << param << '"');
+    if (valChanged)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -120,7 +138,6 @@ namespace PLEXIL
   //! @brief Get the PairingQueue for this message, if it exists.
   MessageQueueMap::PairingQueue* MessageQueueMap::getQueue(const std::string& message)
   {
-    std::lock_guard<std::mutex> guard(m_mutex);
     QueueMap::iterator it = m_map.find(message);
     if (m_map.end() != it)
       return it->second.get();
@@ -130,24 +147,19 @@ namespace PLEXIL
   //! @brief Get or construct the PairingQueue for this message.
   MessageQueueMap::PairingQueue * MessageQueueMap::ensureQueue(const std::string& message)
   {
-    PairingQueue* result = nullptr;
-    {
-      std::lock_guard<std::mutex> guard(m_mutex);
-      QueueMap::iterator it = m_map.find(message);
-      if (m_map.end() == it) {
-        it = m_map.emplace(QueueMap::value_type(message,
-                                                std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
-      }
-      return it->second.get();
+    QueueMap::iterator it = m_map.find(message);
+    if (m_map.end() == it) {
+      it = m_map.emplace(QueueMap::value_type(message,
+                                              std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
+      debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
     }
-    debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
-    return result;
+    return it->second.get();
   }
 
   /**
    * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
    */
-  void MessageQueueMap::updateQueue(PairingQueue* queue)
+  bool MessageQueueMap::updateQueue(PairingQueue* queue)
   {
     debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " entered");
     MessageQueue& mq = queue->m_messageQueue;
@@ -157,15 +169,13 @@ namespace PLEXIL
       debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " returning value");
       debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " returning value");
       m_execInterface.handleCommandReturn(rq.front(), mq.front());
-      debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name
-               << " recipient inactive, ignoring");
-      rq.pop();
+      rq.pop_front();
       mq.pop();
     }
     if (valChanged) {
       debugMsg("MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
-      m_execInterface.notifyOfExternalEvent();
     }
+    return valChanged;
   }
 
 }
diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.hh b/src/interfaces/IpcAdapter/MessageQueueMap.hh
index d38df4d..838da68 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.hh
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.hh
@@ -61,6 +61,13 @@ namespace PLEXIL
      */
     void addRecipient(const std::string &message, Command *cmd);
 
+    /**
+     * @brief Removes the given recipient from all queues.
+     * The recipient will not receive any value from now on.
+     * @param cmd Pointer to the command requesting the message.
+     */
+    void removeRecipient(Command *cmd);
+
     /**
      * @brief Adds the given message to its queue. If there is a recipient
      * waiting for the message, it is sent immediately.
@@ -103,7 +110,7 @@ namespace PLEXIL
     using MessageQueue = std::queue<Value, std::list<Value>>;
 
     //* @brief Data structure containing the invoking command, for identifying and storing recipients
-    using RecipientQueue = std::queue<Command *, std::list<Command *>>;
+    using RecipientQueue = std::list<Command *>;
 
     //* @brief Data queue structure associating a message string with a queue of recipients and a queue of messages. Only one queue should have items at a time. */
     struct PairingQueue
@@ -121,25 +128,29 @@ namespace PLEXIL
 
     /**
      * @brief Private function that returns the queue for the given message, if it exists.
+     * @note The caller must hold the mutex.
      */
     PairingQueue* getQueue(const std::string& message);
 
     /**
      * @brief Private function that returns the queue for the given message. Creates a new queue
      * if one does not already exist.
+     * @note The caller must hold the mutex.
      */
     PairingQueue* ensureQueue(const std::string& message);
 
     /**
      * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+     * @return true if any recipient got a message; the exec should then be notified.
+     * @note The caller must hold the mutex.
      */
-    void updateQueue(PairingQueue* queue);
+    bool updateQueue(PairingQueue* queue);
 
     //* @brief Map holding all message queues
     using QueueMap = std::map<std::string, std::unique_ptr<PairingQueue>>;
     QueueMap m_map;
 
-    //* @brief Semaphore for return values from LookupNow
+    //* @brief Mutex for the queues, which are used by the exec and by the receiving thread
     std::mutex m_mutex;
 
     //* @brief The interface
-- 
2.43.0


From bd218307d0bd0d0054e79d475b4ad460e2feb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:21 +0000
Subject: [PATCH 94/99] fix: IPC lookups: hung when they could not be sent,
 answered more than once, published values were read while changing

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 70 +++++++++++++++++--------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 7e531f8..dc1682e 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -602,7 +602,7 @@ namespace PLEXIL
         state.setParameter(i - 2, args[i]);
 
       {
-        std::lock_guard<std::mutex> guard(m_cmdMutex);
+        std::lock_guard<std::mutex> guard(m_lookupMutex);
         //Set value internally
         m_externalLookups[state] = args[1];
       }
@@ -748,6 +748,14 @@ namespace PLEXIL
           // Publish and see if anyone responds
           m_pendingLookupSerial = m_ipcFacade.publishLookupNow(stateName, params);
         }
+        if (m_pendingLookupSerial == IpcFacade::ERROR_SERIAL) {
+          // Nobody will answer
+          warn("IpcAdapter: publishing lookup of " << state
+               << " failed with status \"" << m_ipcFacade.getError() << "\"");
+          endPendingLookup();
+          rcvr->setUnknown();
+          return;
+        }
       }
 
       // Wait for results
@@ -761,9 +769,15 @@ namespace PLEXIL
       rcvr->update(m_pendingLookupResult);
 
       // Clean up
+      m_pendingLookupResult.setUnknown();
+    }
+
+    //! The pending LookupNow has its result, if any. Ignore further replies.
+    //! @note Caller must hold m_lookupMutex.
+    void endPendingLookup()
+    {
       m_pendingLookupSerial = 0;
       m_pendingLookupState = State();
-      m_pendingLookupResult.setUnknown();
     }
 
     /**
@@ -944,8 +958,9 @@ namespace PLEXIL
       // Check to see if a LookupNow is waiting on this value
       {
         std::lock_guard<std::mutex> g(m_lookupMutex);
-        if (m_pendingLookupState == state) {
+        if (m_pendingLookupSerial && m_pendingLookupState == state) {
           m_pendingLookupResult = result;
+          endPendingLookup();
           m_lookupSem.post();
           return;
         }
@@ -960,16 +975,19 @@ namespace PLEXIL
     void handleReturnValuesSequence(const std::vector<PlexilMsgBase*>& msgs) 
     {
       const PlexilReturnValuesMsg* rv = (const PlexilReturnValuesMsg*) msgs[0];
-      //lock mutex to ensure all sending procedures are complete.
-      if (rv->requestSerial == m_pendingLookupSerial) {
-        // LookupNow for which we are awaiting data
+      {
+        //lock mutex to ensure all sending procedures are complete.
         std::lock_guard<std::mutex> guard(m_lookupMutex);
-        debugMsg("IpcAdapter:handleReturnValuesSequence",
-                 " processing value(s) for a pending LookupNow");
-        m_pendingLookupResult = parseReturnValue(msgs);
-        // *** TODO: check for error
-        m_lookupSem.post();
-        return;
+        if (m_pendingLookupSerial && rv->requestSerial == m_pendingLookupSerial) {
+          // LookupNow for which we are awaiting data
+          debugMsg("IpcAdapter:handleReturnValuesSequence",
+                   " processing value(s) for a pending LookupNow");
+          m_pendingLookupResult = parseReturnValue(msgs);
+          // *** TODO: check for error
+          endPendingLookup();
+          m_lookupSem.post();
+          return;
+        }
       }
 
       Command *cmd = nullptr;
@@ -1023,20 +1041,24 @@ namespace PLEXIL
       for (size_t i = 1 ; i <= nParms ; ++i)
         lookup.setParameter(i - 1, getPlexilMsgValue(msgs[i]));
 
-      Value const *resultPtr = nullptr;
+      // The exec may change the value any time
+      Value result;
+      bool found = false;
       ExternalLookupMap::const_iterator it;
       {
         std::lock_guard<std::mutex> guard(m_lookupMutex);      
         it = m_externalLookups.find(lookup);
-        if (it != m_externalLookups.end())
-          resultPtr = &it->second;
+        if (it != m_externalLookups.end()) {
+          result = it->second;
+          found = true;
+        }
       }
 
-      if (resultPtr) {
+      if (found) {
         debugMsg("IpcAdapter:handleLookupNowMessages",
                  " Publishing value of external lookup \"" << lookup
-                 << "\" with internal value '" << *resultPtr << "'");
-        m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, *resultPtr);
+                 << "\" with internal value '" << result << "'");
+        m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, result);
         return;
       }
 
@@ -1046,14 +1068,16 @@ namespace PLEXIL
         {
           std::lock_guard<std::mutex> guard(m_lookupMutex);      
           it = m_externalLookups.find(lookup);
-          if (it != m_externalLookups.end())
-            resultPtr = &it->second;
+          if (it != m_externalLookups.end()) {
+            result = it->second;
+            found = true;
+          }
         }
-        if (resultPtr) {
+        if (found) {
           debugMsg("IpcAdapter:handleLookupNowMessages",
                    " Publishing default value of external lookup \"" << name
-                   << "\" = '" << (*it).second << "'");
-          m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, *resultPtr);
+                   << "\" = '" << result << "'");
+          m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, result);
           return;
         } 
       }
-- 
2.43.0


From cd97497ed8ab54fc3b729e2d0271f56935775568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:21 +0000
Subject: [PATCH 95/99] fix: IPC commands: early replies were lost, late ones
 given to aborted commands, wrong ones or publishing errors stopped the
 executive

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 124 +++++++++++++++---------
 1 file changed, 78 insertions(+), 46 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index dc1682e..3847eda 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -639,31 +639,41 @@ namespace PLEXIL
                  << args.front()
                  << "\"");
 
-      uint32_t serial;
-      size_t sep_pos = name.find_first_of(TRANSACTION_ID_SEPARATOR_CHAR);
-      // decide to direct or publish command
-      if (sep_pos != std::string::npos) {
-        debugMsg("IpcAdapter:executeCommand", ' ' << m_ipcFacade.getUID()
-                 << " sending \"" << name.substr(sep_pos + 1)
-                 << "\" to \"" << name.substr(0, sep_pos) << '"');
-        serial = m_ipcFacade.sendCommand(name.substr(sep_pos + 1),
-                                         name.substr(0, sep_pos),
-                                         args);
-      }
-      else {
-        debugMsg("IpcAdapter:executeCommand", ' ' << m_ipcFacade.getUID()
-                 << " publishing \"" << name << '"');
-        serial = m_ipcFacade.publishCommand(name, args);
-      }
-      assertTrueMsg(serial != IpcFacade::ERROR_SERIAL,
-                    "executeCommand: IPC Error, IPC_errno = " << m_ipcFacade.getError());
-      // log ack and return variables in case we get values for them
       {
+        // Replies may arrive before the publish call returns,
+        // don't process them until the command is logged
         std::lock_guard<std::mutex> guard(m_cmdMutex);
-        m_pendingCommands[serial] = command;
+        // Replies to an earlier activation of this command are not for this one
+        forgetPendingCommand(command);
+
+        uint32_t serial;
+        size_t sep_pos = name.find_first_of(TRANSACTION_ID_SEPARATOR_CHAR);
+        // decide to direct or publish command
+        if (sep_pos != std::string::npos) {
+          debugMsg("IpcAdapter:executeCommand", ' ' << m_ipcFacade.getUID()
+                   << " sending \"" << name.substr(sep_pos + 1)
+                   << "\" to \"" << name.substr(0, sep_pos) << '"');
+          serial = m_ipcFacade.sendCommand(name.substr(sep_pos + 1),
+                                           name.substr(0, sep_pos),
+                                           args);
+        }
+        else {
+          debugMsg("IpcAdapter:executeCommand", ' ' << m_ipcFacade.getUID()
+                   << " publishing \"" << name << '"');
+          serial = m_ipcFacade.publishCommand(name, args);
+        }
+        if (serial == IpcFacade::ERROR_SERIAL) {
+          warn("IpcAdapter: publishing command " << name
+               << " failed with status \"" << m_ipcFacade.getError() << "\"");
+          intf->handleCommandAck(command, COMMAND_FAILED);
+        }
+        else {
+          // log ack and return variables in case we get values for them
+          m_pendingCommands[serial] = command;
+          // store ack
+          intf->handleCommandAck(command, COMMAND_SENT_TO_SYSTEM);
+        }
       }
-      // store ack
-      intf->handleCommandAck(command, COMMAND_SENT_TO_SYSTEM);
       intf->notifyOfExternalEvent();
       debugMsg("IpcAdapter:executeCommand", " command \"" << name << "\" sent.");
     }
@@ -671,12 +681,29 @@ namespace PLEXIL
     //! Acknowledge an abortCommand() call
     void acknowledgeCommandAbort(Command *command, AdapterExecInterface *intf)
     {
-      // It must not be given a message from now on
+      // It must not be given a message or a reply from now on
       m_messageQueues.removeRecipient(command);
+      {
+        std::lock_guard<std::mutex> guard(m_cmdMutex);
+        forgetPendingCommand(command);
+      }
       intf->handleCommandAbortAck(command, true);
       intf->notifyOfExternalEvent();
     }
 
+    //! No replies are expected for this command any more.
+    //! @note Caller must hold m_cmdMutex.
+    void forgetPendingCommand(Command *command)
+    {
+      PendingCommandsMap::iterator it = m_pendingCommands.begin();
+      while (it != m_pendingCommands.end()) {
+        if (it->second == command)
+          it = m_pendingCommands.erase(it);
+        else
+          ++it;
+      }
+    }
+
     //
     // Lookup handling
     //
@@ -975,6 +1002,11 @@ namespace PLEXIL
     void handleReturnValuesSequence(const std::vector<PlexilMsgBase*>& msgs) 
     {
       const PlexilReturnValuesMsg* rv = (const PlexilReturnValuesMsg*) msgs[0];
+      if (msgs[0]->count != 1 || msgs.size() != 2) {
+        warn("IpcAdapter: return values message for request " << rv->requestSerial
+             << " should have 1 value, has " << msgs[0]->count << ", ignoring");
+        return;
+      }
       {
         //lock mutex to ensure all sending procedures are complete.
         std::lock_guard<std::mutex> guard(m_lookupMutex);
@@ -990,8 +1022,9 @@ namespace PLEXIL
         }
       }
 
-      Command *cmd = nullptr;
       {
+        // Hold the mutex until the reply is delivered,
+        // so that there are no replies after an abort is acknowledged.
         std::lock_guard<std::mutex> guard(m_cmdMutex);
         PendingCommandsMap::iterator cit = m_pendingCommands.find(rv->requestSerial);
         if (cit == m_pendingCommands.end()) {
@@ -999,31 +1032,30 @@ namespace PLEXIL
           return;
         }
 
-        cmd = cit->second;
+        Command *cmd = cit->second;
         assertTrue_1(cmd);
-      }
 
-      size_t nValues = msgs[0]->count;
-      if (msgs[1]->count == MSG_COUNT_CMD_ACK) {
-        assertTrueMsg(nValues == 1,
-                      "handleReturnValuesSequence: command ack requires 1 value, received "
-                      << nValues);
-        debugMsg("IpcAdapter:handleReturnValuesSequence",
-                 " processing command acknowledgment for command " << cmd->getName());
-        Value ack = parseReturnValue(msgs);
-        assertTrue_2(ack.isKnown() && ack.valueType() == COMMAND_HANDLE_TYPE,
-                     "IpcAdapter:handleReturnValuesSequence received a command acknowledgment which is not a CommandHandle value");
-        CommandHandleValue handle;
-        ack.getValue(handle);
-        getInterface().handleCommandAck(cmd, handle);
-        getInterface().notifyOfExternalEvent();
-      }
-      else {
-        debugMsg("IpcAdapter:handleReturnValuesSequence",
-                 " processing command return value for command " << cmd->getName());
-        getInterface().handleCommandReturn(cmd, parseReturnValue(msgs));
-        getInterface().notifyOfExternalEvent();
+        if (msgs[1]->count == MSG_COUNT_CMD_ACK) {
+          debugMsg("IpcAdapter:handleReturnValuesSequence",
+                   " processing command acknowledgment for command " << cmd->getName());
+          Value ack = parseReturnValue(msgs);
+          CommandHandleValue handle = NO_COMMAND_HANDLE;
+          if (ack.isKnown() && ack.valueType() == COMMAND_HANDLE_TYPE)
+            ack.getValue(handle);
+          if (!isCommandHandleValid(handle)) {
+            warn("IpcAdapter: received a command acknowledgment for "
+                 << cmd->getName() << " which is not a valid CommandHandle value, ignoring");
+            return;
+          }
+          getInterface().handleCommandAck(cmd, handle);
+        }
+        else {
+          debugMsg("IpcAdapter:handleReturnValuesSequence",
+                   " processing command return value for command " << cmd->getName());
+          getInterface().handleCommandReturn(cmd, parseReturnValue(msgs));
+        }
       }
+      getInterface().notifyOfExternalEvent();
     }
   
     //! Process an external LookupNow request. Ignores lookups that
-- 
2.43.0


From 265d21260b661694eb037b95ea4a42d3c1afbdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:36 +0000
Subject: [PATCH 96/99] fix: wrong arguments of IPC commands and publishing
 errors stopped the executive, empty planner updates never ended

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 162 ++++++++++++++++--------
 1 file changed, 108 insertions(+), 54 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 3847eda..086767a 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -423,21 +423,37 @@ namespace PLEXIL
     // Command implementations
     //
 
+    //! The command cannot be executed.
+    void commandFailed(Command *command, AdapterExecInterface *intf)
+    {
+      intf->handleCommandAck(command, COMMAND_FAILED);
+      intf->notifyOfExternalEvent();
+    }
+
     void executeSendMessageCommand(Command *command, AdapterExecInterface *intf)
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for one argument, the message
-      assertTrueMsg(args.size() == 1,
-                    "IpcAdapter: The SendMessage command requires exactly one argument");
-      assertTrueMsg(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
-                    "IpcAdapter: The argument to the SendMessage command, "
-                    << args.front() << ", is not a valid String value");
+      if (args.size() != 1) {
+        warn("IpcAdapter: The SendMessage command requires exactly one argument");
+        commandFailed(command, intf);
+        return;
+      }
+      if (!args.front().isKnown() || args.front().valueType() != STRING_TYPE) {
+        warn("IpcAdapter: The argument to the SendMessage command, "
+             << args.front() << ", is not a valid String value");
+        commandFailed(command, intf);
+        return;
+      }
       std::string const *theMessage;
       args.front().getValuePointer(theMessage);
       debugMsg("IpcAdapter:executeCommand",
                " SendMessage(\"" << *theMessage << "\")");
-      checkInterfaceError(m_ipcFacade.publishMessage(*theMessage) != IpcFacade::ERROR_SERIAL,
-                          "Message publish failed");
+      if (m_ipcFacade.publishMessage(*theMessage) == IpcFacade::ERROR_SERIAL) {
+        warn("IpcAdapter: publishMessage failed with status \"" << m_ipcFacade.getError() << "\"");
+        commandFailed(command, intf);
+        return;
+      }
       // store ack
       intf->handleCommandAck(command, COMMAND_SUCCESS);
       intf->notifyOfExternalEvent();
@@ -451,18 +467,28 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for two arguments, the message and the value
-      assertTrueMsg(args.size() == 2,
-                    "IpcAdapter: SendReturnValue command requires exactly two arguments"
-                    << "\n but was given " << args.size());
-      assertTrueMsg(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
-                    "IpcAdapter: The message name argument to the SendReturnValue command, "
-                    << args.front() << ", is not a valid String value");
+      if (args.size() != 2) {
+        warn("IpcAdapter: SendReturnValue command requires exactly two arguments but was given "
+             << args.size());
+        commandFailed(command, intf);
+        return;
+      }
+      if (!args.front().isKnown() || args.front().valueType() != STRING_TYPE) {
+        warn("IpcAdapter: The message name argument to the SendReturnValue command, "
+             << args.front() << ", is not a valid String value");
+        commandFailed(command, intf);
+        return;
+      }
       const std::string *front;
       args.front().getValuePointer(front);
       uint32_t serial;
       //grab serial from parameter
       std::string::size_type sep_pos = front->find(SERIAL_UID_SEPARATOR, 1);
-      assertTrueMsg(sep_pos != std::string::npos, "Could not find UID seperator in first parameter of return value");
+      if (sep_pos == std::string::npos) {
+        warn("Could not find UID seperator in first parameter of return value");
+        commandFailed(command, intf);
+        return;
+      }
       std::string const serial_string = front->substr(0, sep_pos);
       serial = atoi(serial_string.c_str());
       std::string front_string = front->substr(sep_pos + 1, front->size());
@@ -470,8 +496,11 @@ namespace PLEXIL
                " SendReturnValue(sender_serial:\"" << serial << "\" \"" << front_string << "\")");
       //publish
       serial = m_ipcFacade.publishReturnValues(serial, front_string, args[1]);
-      checkInterfaceError(serial != IpcFacade::ERROR_SERIAL,
-                          "Return values failed to be sent");
+      if (serial == IpcFacade::ERROR_SERIAL) {
+        warn("IpcAdapter: publishReturnValues failed with status \"" << m_ipcFacade.getError() << "\"");
+        commandFailed(command, intf);
+        return;
+      }
 
       // store ack
       intf->handleCommandAck(command, COMMAND_SUCCESS);
@@ -486,12 +515,17 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for one argument, the message
-      assertTrueMsg(args.size() == 1,
-                    "IpcAdapter: The ReceiveMessage command requires exactly one argument");
-      assertTrueMsg(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
-                    "IpcAdapter: The argument to the SendMessage command, "
-                    << args.front()
-                    << ", is not a valid String value");
+      if (args.size() != 1) {
+        warn("IpcAdapter: The ReceiveMessage command requires exactly one argument");
+        commandFailed(command, intf);
+        return;
+      }
+      if (!args.front().isKnown() || args.front().valueType() != STRING_TYPE) {
+        warn("IpcAdapter: The argument to the SendMessage command, "
+             << args.front() << ", is not a valid String value");
+        commandFailed(command, intf);
+        return;
+      }
       std::string const *theMessage;
       args.front().getValuePointer(theMessage);
       m_messageQueues.addRecipient(*theMessage, command);
@@ -508,13 +542,17 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for one argument, the message
-      checkPlanError(args.size() == 1,
-                     "IpcAdapter: The " << RECEIVE_COMMAND_COMMAND
-                     << " command requires exactly one argument");
-      checkPlanError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
-                    "IpcAdapter: The argument to the " << RECEIVE_COMMAND_COMMAND
-                    << " command, " << args.front()
-                    << ", is not a string");
+      if (args.size() != 1) {
+        warn("IpcAdapter: The " << RECEIVE_COMMAND_COMMAND << " command requires exactly one argument");
+        commandFailed(command, intf);
+        return;
+      }
+      if (!args.front().isKnown() || args.front().valueType() != STRING_TYPE) {
+        warn("IpcAdapter: The argument to the " << RECEIVE_COMMAND_COMMAND << " command, "
+             << args.front() << ", is not a string");
+        commandFailed(command, intf);
+        return;
+      }
 
       std::string const *cmdName = nullptr;
       args.front().getValuePointer(cmdName);
@@ -536,26 +574,35 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for one argument, the message
-      checkPlanError(args.size() == 1 || args.size() == 2,
-                    "IpcAdapter: The " << GET_PARAMETER_COMMAND
-                     << " command requires either one or two arguments");
-      checkPlanError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
-                    "IpcAdapter: The first argument to the " << GET_PARAMETER_COMMAND
-                     << " command, " << args.front() << ", is not a string");
+      if (args.size() != 1 && args.size() != 2) {
+        warn("IpcAdapter: The " << GET_PARAMETER_COMMAND << " command requires either one or two arguments");
+        commandFailed(command, intf);
+        return;
+      }
+      if (!args.front().isKnown() || args.front().valueType() != STRING_TYPE) {
+        warn("IpcAdapter: The first argument to the " << GET_PARAMETER_COMMAND << " command, "
+             << args.front() << ", is not a string");
+        commandFailed(command, intf);
+        return;
+      }
       int32_t id;
       if (args.size() == 1)
         // Default to parameter 0
         id = 0;
       else {
-        assertTrueMsg(args[1].isKnown() && args[1].valueType() == INTEGER_TYPE,
-                      "IpcAdapter: The second argument to the "
-                      << GET_PARAMETER_COMMAND << " command, " << args[1]
-                      << ", is not an Integer");
+        if (!args[1].isKnown() || args[1].valueType() != INTEGER_TYPE) {
+          warn("IpcAdapter: The second argument to the " << GET_PARAMETER_COMMAND << " command, "
+               << args[1] << ", is not an Integer");
+          commandFailed(command, intf);
+          return;
+        }
         args[1].getValue(id);
-        assertTrueMsg(id >= 0,
-                      "IpcAdapter: The second argument to the "
-                      << GET_PARAMETER_COMMAND << " command, " << args[1]
-                      << ", is not a valid index");
+        if (id < 0) {
+          warn("IpcAdapter: The second argument to the " << GET_PARAMETER_COMMAND << " command, "
+               << args[1] << ", is not a valid index");
+          commandFailed(command, intf);
+          return;
+        }
       }
       std::string const *cmdName = nullptr;
       args.front().getValuePointer(cmdName);
@@ -574,12 +621,17 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       size_t nargs = args.size();
-      assertTrueMsg(nargs >= 2,
-                    "IpcAdapter: The " << UPDATE_LOOKUP_COMMAND
-                    << " command requires at least two arguments");
-      assertTrueMsg(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
-                    "IpcAdapter: The argument to the " << UPDATE_LOOKUP_COMMAND
-                    << " command, " << args.front() << ", is not a string");
+      if (nargs < 2) {
+        warn("IpcAdapter: The " << UPDATE_LOOKUP_COMMAND << " command requires at least two arguments");
+        commandFailed(command, intf);
+        return;
+      }
+      if (!args.front().isKnown() || args.front().valueType() != STRING_TYPE) {
+        warn("IpcAdapter: The argument to the " << UPDATE_LOOKUP_COMMAND << " command, "
+             << args.front() << ", is not a string");
+        commandFailed(command, intf);
+        return;
+      }
 
       // Extract state from command parameters
       std::string const *lookupName;
@@ -820,15 +872,17 @@ namespace PLEXIL
       std::vector<std::pair<std::string, Value> > args(update->getPairs().begin(),
                                                        update->getPairs().end());
       if(args.empty()) {
-        debugMsg("IpcAdapter:sendPlannerUpdate", "Emtpy update");
+        debugMsg("IpcAdapter:sendPlannerUpdate", "Empty update");
+        // There is nothing to send, but the node waits for this
+        intf->handleUpdateAck(update, true);
+        intf->notifyOfExternalEvent();
         return;
       }
 
       uint32_t serial = m_ipcFacade.publishUpdate(name, args);
-      checkInterfaceError(serial != IpcFacade::ERROR_SERIAL,
-                          "sendPlannerUpdate: IPC Error, IPC_errno = " <<
-                          m_ipcFacade.getError());
-      intf->handleUpdateAck(update, true);
+      if (serial == IpcFacade::ERROR_SERIAL)
+        warn("IpcAdapter: publishUpdate failed with status \"" << m_ipcFacade.getError() << "\"");
+      intf->handleUpdateAck(update, serial != IpcFacade::ERROR_SERIAL);
       intf->notifyOfExternalEvent();
     }
 
-- 
2.43.0


From 555efc7adeb1b0dc46b7d0ce2342794b7e79e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:02 +0000
Subject: [PATCH 97/99] fix: strings of planner updates were published after
 they had been released

---
 src/interfaces/IpcUtils/IpcFacade.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index 80ce632..47afa06 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -361,7 +361,7 @@ namespace PLEXIL
   }
 
   struct PlexilMsgBase* constructPlexilPairMsg(std::string const& name,
-                                               Value const val)
+                                               Value const &val)
   {
     PlexilMsgBase* result = nullptr;
     if (val.isKnown()) {
-- 
2.43.0


From 8f0e009a508b476e9e15760ea569732bd24278db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:25 +0000
Subject: [PATCH 98/99] fix: universalExec refused to run without a
 configuration file, and used what it had parsed of a malformed one

---
 src/universal-exec/UniversalExec.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/universal-exec/UniversalExec.cc b/src/universal-exec/UniversalExec.cc
index 85e8960..f647260 100644
--- a/src/universal-exec/UniversalExec.cc
+++ b/src/universal-exec/UniversalExec.cc
@@ -229,13 +229,14 @@ int main_internal(int argc, char** argv)
                 << ":\n " 
                 << parseResult.description()
                 << "\nContinuing without interface configuration" << std::endl;
+      configDoc.reset(); // discard anything parsed before the error
     }
 	debugMsg("UniversalExec", " got configuration XML starting with " << configDoc.document_element().name());
   }
 
   // get Interfaces element
   pugi::xml_node configElt;
-  if (configDoc.empty()) {
+  if (!configDoc.document_element()) {
 	// Construct default interface XML
 	configElt = configDoc.append_child(PLEXIL::InterfaceSchema::INTERFACES_TAG);
 	// Add a time adapter
-- 
2.43.0


From 867a3500d1103adb367a1d96a8f36fd0082a38b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:25 +0000
Subject: [PATCH 99/99] fix: universalExec -v crashed, as the listener was
 added before there was a hub

---
 src/universal-exec/UniversalExec.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/universal-exec/UniversalExec.cc b/src/universal-exec/UniversalExec.cc
index f647260..2c741d0 100644
--- a/src/universal-exec/UniversalExec.cc
+++ b/src/universal-exec/UniversalExec.cc
@@ -28,6 +28,7 @@
 #include "Debug.hh"
 #include "Error.hh"
 #include "ExecApplication.hh"
+#include "ExecListenerHub.hh"
 #include "InterfaceManager.hh"
 #include "InterfaceSchema.hh"
 #include "lifecycle-utils.h"
@@ -272,9 +273,10 @@ int main_internal(int argc, char** argv)
 #ifdef HAVE_LUV_LISTENER
   // Construct interface to the PLEXIL Viewer if requested on the command line
   if (luvRequest) {
-    _app->configuration()->addExecListener(makeLuvListener(luvHost.c_str(),
-                                                           luvPort,
-                                                           luvBlock));
+    // The adapter configuration has no listener hub until it is initialized
+    _app->listenerHub()->addListener(makeLuvListener(luvHost.c_str(),
+                                                     luvPort,
+                                                     luvBlock));
   }
 #endif
 
-- 
2.43.0

