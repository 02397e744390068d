From aef19fc32985f7f232850bcf5e9322f990989538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 01/89] fix: models depending on a replaced or recreated model
 are notified

Adding a node, edge or element model under a name that other models depend
on did not mark these dependents as out of date, so that they kept the values
of the previous definition.
---
 src/Geometry/Region.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 03d4b25..f278048 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -891,6 +891,8 @@ void Region::AddNodeModel(NodeModelPtr nmp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         nodeModels[nm] = nmp;
+        //// Anything depending on the previous definition is notified it is out of date
+        this->SignalCallbacks(nm);
     }
     else if (edgeModels.count(nm))
     {
@@ -916,6 +918,8 @@ void Region::AddNodeModel(NodeModelPtr nmp)
     else
     {
       nodeModels[nm] = nmp;
+      //// Anything evaluated before this definition existed is notified it is out of date
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -929,6 +933,8 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         edgeModels[nm] = emp;
+        //// Anything depending on the previous definition is notified it is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -954,6 +960,8 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
     else
     {
       edgeModels[nm] = emp;
+      //// Anything evaluated before this definition existed is notified it is out of date
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -967,6 +975,8 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         triangleEdgeModels[nm] = emp;
+        //// Anything depending on the previous definition is notified it is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -992,6 +1002,8 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
     else
     {
       triangleEdgeModels[nm] = emp;
+      //// Anything evaluated before this definition existed is notified it is out of date
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -1005,6 +1017,8 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         tetrahedronEdgeModels[nm] = emp;
+        //// Anything depending on the previous definition is notified it is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -1030,6 +1044,8 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
     else
     {
       tetrahedronEdgeModels[nm] = emp;
+      //// Anything evaluated before this definition existed is notified it is out of date
+      this->SignalCallbacks(nm);
     }
 }
 
-- 
2.43.0


From 165abf069153835630d3f3b8570d8f34b52fa5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 02/89] fix: interface node model reports its length

An interface model whose expression starts with another interface model of
non-uniform value was evaluated with a length of zero.
---
 src/models/InterfaceNodeModel.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/models/InterfaceNodeModel.hh b/src/models/InterfaceNodeModel.hh
index f6b45fa..9c2e91d 100644
--- a/src/models/InterfaceNodeModel.hh
+++ b/src/models/InterfaceNodeModel.hh
@@ -93,7 +93,7 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
 
         size_t GetLength() const
         {
-          return length;
+          return model_data.GetLength();
         }
 
         bool IsZero() const;
@@ -137,7 +137,6 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
         mutable bool uptodate = false;
         mutable bool inprocess = false;
         mutable ModelDataHolder model_data;
-        size_t length = 0;
 };
 
 template <typename T1, typename T2, typename ... Args>
-- 
2.43.0


From ab204c2e21a6b4a3e387140fb582671cd97956ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 03/89] fix: if() does not overwrite the cached value of its
 condition

The condition shares its data with the expression cache. Multiplying it in
place changed the value of every other use of the same condition in the
expression.
---
 src/AutoEquation/InterfaceModelExprEval.cc | 6 ++++--
 src/AutoEquation/ModelExprEval.cc          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index df6f811..cda6f04 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -307,8 +307,10 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
   else
   {
     // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    // Note: test may share its data with the expression cache
+    out = InterfaceModelExprData<DoubleType>(1.0);
+    out *= test;
+    out *= eval_function(values[1]);
   }
 
   return out;
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index bc712ed..f943a28 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -291,8 +291,10 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateIfType(Eqo::EqObjPt
   else
   {
     // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    // Note: test may share its data with the expression cache
+    out = ModelExprData<DoubleType>(1.0, data_ref);
+    out *= test;
+    out *= eval_function(values[1]);
   }
 
   return out;
-- 
2.43.0


From df34846d6d4c7b47afcfe4b464d4d43659d22c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 04/89] fix: circuit node aliases refer to the same node
 everywhere

An element created on an alias got a separate node of that name. Setting a
circuit node value only notified models using the very name it was set by.
---
 src/Circuit/data/NodeKeeper.cc | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 9f8847d..51b1671 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -61,6 +61,13 @@ CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt,
     }
 
 
+    //// An alias refers to a node which already exists
+    NodeAliasTable_t::const_iterator alias = NodeAliasTable_.find(name);
+    if (alias != NodeAliasTable_.end())
+    {
+        return NodeTable_[alias->second];
+    }
+
     if (NodeTable_.count(name))
     {
 /*
@@ -559,7 +566,24 @@ void NodeKeeper::SetNodeValue(const std::string &solutionname, const std::string
 void NodeKeeper::TriggerCallbackOnNode(const std::string &nm)
 {
     GlobalData &gdata = GlobalData::GetInstance();
-    gdata.SignalCallbacksOnGlobal(nm);
+
+    //// Models may refer to the node by its name or any of its aliases
+    std::string node = nm;
+    NodeAliasTable_t::const_iterator ait = NodeAliasTable_.find(nm);
+    if (ait != NodeAliasTable_.end())
+    {
+        node = ait->second;
+    }
+
+    gdata.SignalCallbacksOnGlobal(node);
+
+    for (NodeAliasTable_t::const_iterator it = NodeAliasTable_.begin(); it != NodeAliasTable_.end(); ++it)
+    {
+        if (it->second == node)
+        {
+            gdata.SignalCallbacksOnGlobal(it->first);
+        }
+    }
 }
 
 
@@ -569,9 +593,4 @@ void NodeKeeper::TriggerCallbacksOnNodes()
     {
         TriggerCallbackOnNode(it->first);
     }
-    for (NodeAliasTable_t::const_iterator it = NodeAliasTable_.begin(); it != NodeAliasTable_.end(); ++it)
-    {
-        TriggerCallbackOnNode(it->first);
-    }
 }
-
-- 
2.43.0


From ba092e2609a8235976cb9584f4e17f572e7de413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 05/89] fix: delete_circuit succeeds and circuit commands stop
 on bad arguments

delete_circuit never set a result, so that it always raised an error without
a message, and models depending on the deleted nodes kept their value. The
other commands went on after reporting an error in their arguments.
---
 src/commands/CircuitCommands.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 0c7d982..f923ade 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -381,6 +381,7 @@ circuitNodeAliasCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -437,6 +438,7 @@ void circuitGetCircuitNodeListCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -478,6 +480,7 @@ void circuitGetCircuitSolutionListCmd (CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -511,6 +514,7 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -571,10 +575,16 @@ circuitDeleteCircuitCmd(CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
+  //// Models depending on a circuit node are out of date
+  NodeKeeper::instance().TriggerCallbacksOnNodes();
+
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
+
+  data.SetEmptyResult();
 };
 
 void
@@ -595,6 +605,7 @@ circuitGetCircuitEquationNumberCmd (CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   // const std::string commandName = data.GetCommandName();
-- 
2.43.0


From 070c96838449dacdd579ab1acc248cf62659742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 06/89] fix: circuit_element checks its arguments before
 creating nodes

An unknown element type or an element name already in use was detected only
after the nodes had been created.
---
 src/commands/CircuitCommands.cc | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index f923ade..3d52b51 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -199,12 +199,35 @@ circuitElementCmd(CommandHandler &data)
         }
     }
 
+    InstanceKeeper &ik = InstanceKeeper::instance();
+
+    //// These must be checked before any node is created
+    if (std::string("VvIiCcLlRr").find(type) == std::string::npos)
+    {
+        std::ostringstream os;
+        os << "Cannot figure out what element type -name  \"" << name <<
+              "\" is\n";
+        errorString += os.str();
+    }
+    else if (ik.getInstanceModel(name))
+    {
+        std::ostringstream os;
+        os << "Circuit element -name  \"" << name <<
+              "\" already exists\n";
+        errorString += os.str();
+    }
+
+    if (!errorString.empty())
+    {
+        data.SetErrorResult(errorString);
+        return;
+    }
+
     //// Should not fail
     CreateNode(n1, CircuitUpdateType::DEFAULT);
     CreateNode(n2, CircuitUpdateType::DEFAULT);
 
     NodeKeeper &nk = NodeKeeper::instance();
-    InstanceKeeper &ik = InstanceKeeper::instance();
     InstanceModel  *im = nullptr;
 
     if (type == 'V' || type == 'v')
@@ -242,20 +265,6 @@ circuitElementCmd(CommandHandler &data)
         ik.addInstanceModel(im);
         data.SetEmptyResult();
     }
-    else
-    {
-        std::ostringstream os;
-        os << "Cannot figure out what element type -name  \"" << name <<
-              "\" is\n";
-        errorString += os.str();
-    }
-
-    if (!errorString.empty())
-    {
-        data.SetErrorResult(errorString);
-        return;
-    }
-
 }
 
 void
-- 
2.43.0


From b0c56b2cbad4283232c6f14e7600a4bd7e91f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 07/89] fix: add_circuit_node honours variable_update and value

Both arguments were checked and then ignored: every node was created with the
default update and an initial value of zero. A node declared positive whose
value is not positive raises an error instead of halving its update forever.
---
 src/Circuit/data/NodeKeeper.cc  | 21 ++++++++++++++++++++-
 src/Circuit/data/NodeKeeper.hh  |  4 ++++
 src/commands/CircuitCommands.cc |  3 ++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 51b1671..5ef7ab3 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -89,6 +89,11 @@ CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt,
     return NodeTable_[name];
 }
 
+void NodeKeeper::SetInitialValue(const std::string &name, double value)
+{
+    InitialValues_[name] = value;
+}
+
 CircuitNodePtr NodeKeeper::AddNodeAlias(const std::string &alias, const std::string &name)
 {
     NodeTable_t::iterator nname  = NodeTable_.find(name);
@@ -274,8 +279,15 @@ void NodeKeeper::CreateSolution(const std::string &key)
 
     // technically this needs to be deleted in the destructor
     // migrate to smart pointer
-    // Should call initializer for each node (dc case only)
     Sol_[key] = new Solution(numberOfNodes_,0.0);
+    // Initial value for each node (dc case only)
+    if (key == "dcop")
+    {
+        for (NormMap_t::const_iterator it = InitialValues_.begin(); it != InitialValues_.end(); ++it)
+        {
+            SetNodeValue(key, it->first, it->second);
+        }
+    }
     std::ostringstream os;
     os << "creating solution " << key << " with " << numberOfNodes_ << " nodes" << "\n";
     OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
@@ -347,6 +359,13 @@ void NodeKeeper::UpdateSolution(const std::string &key, const Solution &rhs)
         }
         else if (ut == CircuitUpdateType::POSITIVE)
         {
+            if (!(oval > 0.0))
+            {
+                std::ostringstream os;
+                os << "CircuitNode " << it->first << " has negative or zero value before positive update. " << oval << "\n";
+                OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
+            }
+
             while ((upd + oval) <=  0.0)
             {
                 upd /= 2.0;
diff --git a/src/Circuit/data/NodeKeeper.hh b/src/Circuit/data/NodeKeeper.hh
index f317bbc..32caabe 100644
--- a/src/Circuit/data/NodeKeeper.hh
+++ b/src/Circuit/data/NodeKeeper.hh
@@ -54,6 +54,9 @@ class NodeKeeper {
 
         CircuitNodePtr AddNodeAlias(const std::string &/*alias*/, const std::string &/*name*/);
 
+        //// Value of the node when the "dcop" solution is created
+        void SetInitialValue(const std::string &/*name*/, double /*value*/);
+
         bool HaveNodes();
 
         void DeleteNode(const std::string & name);
@@ -115,6 +118,7 @@ class NodeKeeper {
 
         NodeTable_t       NodeTable_;
         NodeAliasTable_t  NodeAliasTable_;
+        NormMap_t         InitialValues_;
         SolutionMap_t     Sol_;
         size_t          numberOfNodes_ = 0;
         bool            SolutionLocked_ = false;
diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 3d52b51..6a6fc40 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -130,7 +130,8 @@ void addCircuitNodeCmd(CommandHandler &data)
     }
     else
     {
-        CreateNode(name, CircuitUpdateType::DEFAULT);
+        CreateNode(name, updateType);
+        nk.SetInitialValue(name, value);
         data.SetEmptyResult();
     }
 
-- 
2.43.0


From 8115ce31645260ea22dc721c1f07ff62304c3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 08/89] fix: integer arguments that are not integers are
 rejected

---
 src/pythonapi/ObjectHolder.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 27ce406..97a6e38 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -217,7 +217,7 @@ ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const
 {
   EnsurePythonGIL gil;
 
-  bool   ok = true;
+  bool   ok = false;
   int    val= 0;
 
   ObjectHolder::LongEntry_t lent = this->GetLong();
@@ -230,10 +230,6 @@ ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const
       ok = true;
       val = ret;
     }
-    else
-    {
-      ok = false;
-    }
   }
   return std::make_pair(ok, val);
 }
@@ -251,8 +247,10 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
     PyObject *obj = reinterpret_cast<PyObject *>(object_);
     if (PyLong_CheckExact(obj))
     {
-      ok = true;
       val = PyLong_AsLong(obj);
+      // out of range
+      ok = !PyErr_Occurred();
+      PyErr_Clear();
     }
     else if (PyUnicode_CheckExact(obj) || PyBytes_CheckExact(obj))
     {
@@ -264,8 +262,9 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
       {
         if ((*p) == 0)
         {
-          ok = true;
           val = PyLong_AsLong(iobj);
+          // out of range
+          ok = !PyErr_Occurred();
         }
         Py_DECREF(iobj);
       }
-- 
2.43.0


From 80e5969f3a1ece6c0c680ee79ede11abe7d38177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 09/89] fix: replacing an equation moves its variable mapping

---
 src/Geometry/Region.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index f278048..5f7a4ac 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1158,14 +1158,24 @@ void Region::AddEquation(EquationHolder &eq)
     }
     else
     {
-      if (oeq.GetVariable() != var)
+      const std::string ovar = oeq.GetVariable();
+      if (ovar != var)
       {
+        if (variableEquationMap.count(var))
+        {
+          std::ostringstream os;
+          os << "ERROR: Can't create equation if its variable is already being used\n"
+              << "New Equation: " << nm << ", Old Equation: " << variableEquationMap[var] << ", Variable: "  << var << "\n";
+          GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *this, os.str());
+          return;
+        }
+
         std::ostringstream os;
         os << "Warning: Adding a new equation by the same name with a different variable will remove mapping to other variable.\n"
-            "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
+            "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << ovar << ", New Variable: " << var << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
 
-        variableEquationMap.erase(var);
+        variableEquationMap.erase(ovar);
         variableEquationMap[var] = nm;
       }
       else
-- 
2.43.0


From d8e216b20719087ebd584a4a409403b45f59cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 10/89] fix: a contact node is given up only to a contact that
 has the equation

---
 src/Equation/ContactEquation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index dd4bd4c..02bf12a 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -137,7 +137,7 @@ ConstNodeList_t ContactEquation<DoubleType>::GetActiveNodes() const
           else
           {
 
-            const ContactEquationPtrMap_t &cepm = contact.GetEquationPtrList();
+            const ContactEquationPtrMap_t &cepm = ocontact.GetEquationPtrList();
 
             for (ContactEquationPtrMap_t::const_iterator cepmit = cepm.begin(); cepmit != cepm.end(); ++cepmit)
             {
-- 
2.43.0


From 18f8fb2a3b4185044668fdbaeb2db047ffb04fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 11/89] fix: edge_volume_model is assembled without an
 edge_model

---
 src/AutoEquation/ExprEquation.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/ExprEquation.cc b/src/AutoEquation/ExprEquation.cc
index daad619..16e7fce 100644
--- a/src/AutoEquation/ExprEquation.cc
+++ b/src/AutoEquation/ExprEquation.cc
@@ -51,10 +51,12 @@ void ExprEquation<DoubleType>::DerivedAssemble(dsMath::RealRowColValueVec<Double
         {
             model_cache->clear();
             Equation<DoubleType>::EdgeCoupleAssemble(edge_model_, m, v, w);
-            if (!edge_volume_model_.empty())
-            {
-              Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
-            }
+        }
+
+        if (!edge_volume_model_.empty())
+        {
+            model_cache->clear();
+            Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
         }
 
         if (!node_model_.empty())
-- 
2.43.0


From b51825ca445db5319780b2f3782659ee5aec573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 12/89] fix: get_equation_numbers reports a variable without an
 equation

---
 src/commands/EquationCommands.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/EquationCommands.cc b/src/commands/EquationCommands.cc
index 9716145..bd1e2cb 100644
--- a/src/commands/EquationCommands.cc
+++ b/src/commands/EquationCommands.cc
@@ -762,6 +762,10 @@ getEquationNumbersCmd(CommandHandler &data)
   if (!variableName.empty())
   {
     equationName = reg->GetEquationNameFromVariable(variableName);
+    if (equationName.empty())
+    {
+      errorString += std::string("Could not find equation for variable ") + variableName + "\n";
+    }
   }
 
   if (!equationName.empty())
-- 
2.43.0


From 424b48c6197303f1e80e04a93c7258d7efe3dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 13/89] fix: custom_equation rows and columns out of range are
 rejected

---
 src/math/Newton.cc | 16 +++++++++-------
 src/math/Newton.hh |  4 ++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d603e65..801b44c 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -360,7 +360,7 @@ void Newton<DoubleType>::LoadMatrixAndRHS(Matrix<DoubleType> &matrix, std::vecto
     pv.clear();
     m.clear();
     v.clear();
-    AssembleTclEquations(pm, pv, m, v, w, t);
+    AssembleTclEquations(pm, pv, m, v, w, t, permvec.size());
     LoadIntoMatrixPermutated(pm, matrix, permvec, scl);
     LoadIntoRHSPermutated(pv, rhs, permvec, scl);
     LoadIntoMatrix(m, matrix, scl);
@@ -1349,10 +1349,12 @@ bool Newton<DoubleType>::NoiseSolve(const std::string &output_name, LinearSolver
 }
 
 template <typename DoubleType>
-void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHolder &matrix_objects, ObjectHolder &rhs_objects, RealRowColValueVec<DoubleType> &mat, RHSEntryVec<DoubleType> &rhs, dsMathEnum::WhatToLoad w)
+void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHolder &matrix_objects, ObjectHolder &rhs_objects, RealRowColValueVec<DoubleType> &mat, RHSEntryVec<DoubleType> &rhs, dsMathEnum::WhatToLoad w, size_t numeqns)
 {
   std::vector<ObjectHolder> objects;
 
+  const auto in_range = [numeqns](const ObjectHolder::IntegerEntry_t &e) { return e.first && (e.second >= 0) && (static_cast<size_t>(e.second) < numeqns); };
+
   //// Read in the entries here
   if (w != dsMathEnum::WhatToLoad::MATRIXONLY)
   {
@@ -1372,7 +1374,7 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
         ObjectHolder::IntegerEntry_t row = objects[i].GetInteger();
         ObjectHolder::DoubleEntry_t val = objects[i + 1].GetDouble();
 
-        if (row.first && val.first)
+        if (in_range(row) && val.first)
         {
           rhs.push_back(std::make_pair(row.second, val.second));
         }
@@ -1407,7 +1409,7 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
         ObjectHolder::IntegerEntry_t col = objects[i + 1].GetInteger();
         ObjectHolder::DoubleEntry_t  val = objects[i + 2].GetDouble();
 
-        if (row.first && col.first && val.first)
+        if (in_range(row) && in_range(col) && val.first)
         {
           mat.push_back(RealRowColVal<DoubleType>(row.second, col.second, val.second));
         }
@@ -1424,7 +1426,7 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
 }
 
 template <typename DoubleType>
-void Newton<DoubleType>::AssembleTclEquations(RealRowColValueVec<DoubleType> &pmat, RHSEntryVec<DoubleType> &prhs, RealRowColValueVec<DoubleType> &mat, RHSEntryVec<DoubleType> &rhs, dsMathEnum::WhatToLoad w, dsMathEnum::TimeMode t)
+void Newton<DoubleType>::AssembleTclEquations(RealRowColValueVec<DoubleType> &pmat, RHSEntryVec<DoubleType> &prhs, RealRowColValueVec<DoubleType> &mat, RHSEntryVec<DoubleType> &rhs, dsMathEnum::WhatToLoad w, dsMathEnum::TimeMode t, size_t numeqns)
 {
   /*
     pmat, prhs will be row permutated before loading into matrix
@@ -1480,11 +1482,11 @@ void Newton<DoubleType>::AssembleTclEquations(RealRowColValueVec<DoubleType> &pm
 
     if (is_bulk.second)
     {
-      AssembleTclEquation(name, matrix_objects, rhs_objects, pmat, prhs, w);
+      AssembleTclEquation(name, matrix_objects, rhs_objects, pmat, prhs, w, numeqns);
     }
     else
     {
-      AssembleTclEquation(name, matrix_objects, rhs_objects, mat, rhs, w);
+      AssembleTclEquation(name, matrix_objects, rhs_objects, mat, rhs, w, numeqns);
     }
   }
 }
diff --git a/src/math/Newton.hh b/src/math/Newton.hh
index 373d500..ee27381 100644
--- a/src/math/Newton.hh
+++ b/src/math/Newton.hh
@@ -229,9 +229,9 @@ class Newton {
 
         void AssembleBulk(RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, Device &, dsMathEnum::WhatToLoad, dsMathEnum::TimeMode);
 
-        void AssembleTclEquation(const std::string &name, ObjectHolder &, ObjectHolder &, RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &,  dsMathEnum::WhatToLoad);
+        void AssembleTclEquation(const std::string &name, ObjectHolder &, ObjectHolder &, RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &,  dsMathEnum::WhatToLoad, size_t);
 
-        void AssembleTclEquations(RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, dsMathEnum::WhatToLoad, dsMathEnum::TimeMode);
+        void AssembleTclEquations(RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, dsMathEnum::WhatToLoad, dsMathEnum::TimeMode, size_t);
 
         const DoubleType rhssign = -1.0;
 
-- 
2.43.0


From 89d99b51fc4f8f8e21fcd1774a67e65c773cf108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 14/89] fix: the circuit derivative of a contact current is
 assembled once

---
 src/Equation/ContactEquation.cc | 126 ++++++++++++++++----------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index 02bf12a..d0180f1 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -1558,48 +1558,48 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          EdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        EdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
+        const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
-          {
-            const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
 
-            for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          {
+            if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
             {
-              if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
-              {
-                continue;
-              }
+              continue;
+            }
 
-              const  size_t eind = (*it)->GetIndex();
-              const DoubleType val = edd[eind];
+            const  size_t eind = (*it)->GetIndex();
+            const DoubleType val = edd[eind];
 
-              if ((*it)->GetHead() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
-              }
-              else if ((*it)->GetTail() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
-              }
-              else
-              {
-                dsAssert(0, "UNEXPECTED");
-              }
+            if ((*it)->GetHead() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
+            }
+            else if ((*it)->GetTail() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
+            }
+            else
+            {
+              dsAssert(0, "UNEXPECTED");
             }
           }
         }
@@ -1809,45 +1809,45 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          TriangleEdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        TriangleEdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
+          for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
           {
-            const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
-            for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
+            const Triangle &triangle = **ti;
+            const size_t tindex = triangle.GetIndex();
+            const ConstEdgeList &edgeList = ttelist[tindex];
+            for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
             {
-              const Triangle &triangle = **ti;
-              const size_t tindex = triangle.GetIndex();
-              const ConstEdgeList &edgeList = ttelist[tindex];
-              for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
-              {
-                const Edge &edge = *edgeList[eindex];
+              const Edge &edge = *edgeList[eindex];
 
-                auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
+              auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
 
-                if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
-                {
-                  continue;
-                }
+              if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
+              {
+                continue;
+              }
 
-                const size_t vindex = 3 * tindex + eindex;
+              const size_t vindex = 3 * tindex + eindex;
 
-                val *= edd[vindex];
+              val *= edd[vindex];
 
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
-              }
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
             }
           }
         }
-- 
2.43.0


From 35dcd339fa8f07fc7a605ca013a2929291ea48f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 15/89] fix: writing one value drops the copy in the other
 precision

---
 src/models/ModelDataHolder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index a574dcf..a6d7dd6 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -295,6 +295,8 @@ void ModelDataHolder::SetValue(size_t index, const float128 &nv)
 
   float128_values[index] = nv;
 
+  // the other copy is out of date
+  clear_type(MDtype::DOUBLE);
 }
 #endif
 
@@ -317,6 +319,9 @@ void ModelDataHolder::SetValue(size_t index, const double &nv)
     expand_uniform();
 
     double_values[index] = nv;
+
+    // the other copy is out of date
+    clear_type(MDtype::EXTENDED);
   }
 }
 
-- 
2.43.0


From cecb923e9fb683a9420612ec9f610e9aa6839735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 16/89] fix: ground nodes without a circuit do not break the
 solve

---
 src/Circuit/data/NodeKeeper.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 5ef7ab3..34172b5 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -521,7 +521,15 @@ double NodeKeeper::GetRelError(const std::string &nm)
 
 bool NodeKeeper::HaveNodes()
 {
-    return NodeTable_.size() != 0;
+    //// ground by itself is not a circuit
+    for (NodeTable_t::const_iterator it = NodeTable_.begin(); it != NodeTable_.end(); ++it)
+    {
+        if (!it->second->isGROUND())
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 bool NodeKeeper::IsCircuitNode(const std::string &name)
-- 
2.43.0


From c545ece6daf91127ced0d91362c4ec8063272cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 17/89] fix: an error during a solve restores the solutions

---
 src/math/Newton.cc | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index 801b44c..a65adc0 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -445,6 +445,7 @@ void Newton<DoubleType>::RestoreSolutions()
     if (nk.HaveNodes())
     {
       nk.CopySolution("dcop_prev", "dcop");
+      nk.TriggerCallbacksOnNodes();
     }
   }
 }
@@ -641,6 +642,26 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   BackupSolutions();
 
+  //// When an error ends the solve, the solutions of the unfinished iteration are not kept
+  struct RestoreOnError {
+    Newton<DoubleType> &newton;
+    bool                active;
+    ~RestoreOnError()
+    {
+      if (active)
+      {
+        try
+        {
+          newton.RestoreSolutions();
+        }
+        catch (...)
+        {
+        }
+      }
+    }
+  };
+  RestoreOnError restore_on_error{*this, true};
+
   /////
   ///// Permutation vector
   /////
@@ -823,6 +844,12 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
     }
   }
 
+  if (converged && timeinfo.IsTransient())
+  {
+    newI.resize(numeqns);
+    LoadMatrixAndRHS(*matrix, newI, permvec, dsMathEnum::WhatToLoad::RHS, dsMathEnum::TimeMode::DC, static_cast<DoubleType>(1.0));
+  }
+
   if (!converged)
   {
     RestoreSolutions();
@@ -850,13 +877,13 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
     if (timeinfo.IsTransient())
     {
-      newI.resize(numeqns);
-      LoadMatrixAndRHS(*matrix, newI, permvec, dsMathEnum::WhatToLoad::RHS, dsMathEnum::TimeMode::DC, static_cast<DoubleType>(1.0));
       UpdateTransientCurrent(timeinfo, numeqns, newI, newQ);
     }
 
   }
 
+  restore_on_error.active = false;
+
   if (ohm)
   {
     (*ohm)["iterations"] = ObjectHolder(iteration_list);
-- 
2.43.0


From 49ecb22d5a12773cc66abd10e57ddbcc2d048f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 18/89] fix: an error while the contact currents are updated
 restores them

---
 src/Equation/ContactEquation.cc       | 16 ++++++++++++++-
 src/Equation/ContactEquation.hh       |  4 ++++
 src/Equation/ContactEquationHolder.cc | 28 +++++++++++++++++++++++++++
 src/Equation/ContactEquationHolder.hh |  2 ++
 src/Geometry/Device.cc                | 22 +++++++++++++++++++++
 src/Geometry/Device.hh                |  2 ++
 src/math/Newton.cc                    |  2 ++
 7 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index d0180f1..7d45dd2 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -76,9 +76,23 @@ void ContactEquation<DoubleType>::UpdateContact()
   calcCharge();
 }
 
+template <typename DoubleType>
+void ContactEquation<DoubleType>::BackupContact()
+{
+  previous_current = current;
+  previous_charge  = charge;
+}
+
+template <typename DoubleType>
+void ContactEquation<DoubleType>::RestoreContact()
+{
+  current = previous_current;
+  charge  = previous_charge;
+}
+
 template <typename DoubleType>
 ContactEquation<DoubleType>::ContactEquation(const std::string &nm, const std::string &cnode, ContactPtr cp, RegionPtr rp)
-    : myname(nm), circuitnode(cnode), mycontact(cp), myregion(rp), charge(0.0), current(0.0)
+    : myname(nm), circuitnode(cnode), mycontact(cp), myregion(rp), charge(0.0), current(0.0), previous_charge(0.0), previous_current(0.0)
 {
 }
 
diff --git a/src/Equation/ContactEquation.hh b/src/Equation/ContactEquation.hh
index edba699..22b99bc 100644
--- a/src/Equation/ContactEquation.hh
+++ b/src/Equation/ContactEquation.hh
@@ -75,6 +75,8 @@ class ContactEquation {
         const std::string &GetCircuitNode() const;
 
         void UpdateContact();
+        void BackupContact();
+        void RestoreContact();
 
         const Region &GetRegion() const
         {
@@ -131,6 +133,8 @@ class ContactEquation {
         RegionPtr  myregion;
         DoubleType charge;
         DoubleType current;
+        DoubleType previous_charge;
+        DoubleType previous_current;
 };
 #endif
 
diff --git a/src/Equation/ContactEquationHolder.cc b/src/Equation/ContactEquationHolder.cc
index 6362425..c22f733 100644
--- a/src/Equation/ContactEquationHolder.cc
+++ b/src/Equation/ContactEquationHolder.cc
@@ -124,6 +124,34 @@ void ContactEquationHolder::UpdateContact() const
 #endif
 }
 
+void ContactEquationHolder::BackupContact() const
+{
+  if (double_)
+  {
+    (*double_).BackupContact();
+  }
+#ifdef DEVSIM_EXTENDED_PRECISION
+  if (float128_)
+  {
+    (*float128_).BackupContact();
+  }
+#endif
+}
+
+void ContactEquationHolder::RestoreContact() const
+{
+  if (double_)
+  {
+    (*double_).RestoreContact();
+  }
+#ifdef DEVSIM_EXTENDED_PRECISION
+  if (float128_)
+  {
+    (*float128_).RestoreContact();
+  }
+#endif
+}
+
 template<>
 void ContactEquationHolder::Assemble(dsMath::RealRowColValueVec<double> &m, dsMath::RHSEntryVec<double> &v, PermutationMap &p, dsMathEnum::WhatToLoad w, dsMathEnum::TimeMode t)
 {
diff --git a/src/Equation/ContactEquationHolder.hh b/src/Equation/ContactEquationHolder.hh
index acc9feb..fa94832 100644
--- a/src/Equation/ContactEquationHolder.hh
+++ b/src/Equation/ContactEquationHolder.hh
@@ -63,6 +63,8 @@ class ContactEquationHolder {
     std::string GetName() const;
     bool operator==(const ContactEquationHolder &) const;
     void UpdateContact() const;
+    void BackupContact() const;
+    void RestoreContact() const;
     template <typename DoubleType>
     void Assemble(dsMath::RealRowColValueVec<DoubleType> &, dsMath::RHSEntryVec<DoubleType> &, PermutationMap &, dsMathEnum::WhatToLoad, dsMathEnum::TimeMode);
     void DevsimSerialize(std::ostream &) const;
diff --git a/src/Geometry/Device.cc b/src/Geometry/Device.cc
index cf248bd..43a7499 100644
--- a/src/Geometry/Device.cc
+++ b/src/Geometry/Device.cc
@@ -452,6 +452,28 @@ void Device::UpdateContacts()
   }
 }
 
+void Device::BackupContacts()
+{
+  for (const auto &contact : contactList)
+  {
+    for (const auto &eq : contact.second->GetEquationPtrList())
+    {
+      eq.second.BackupContact();
+    }
+  }
+}
+
+void Device::RestoreContacts()
+{
+  for (const auto &contact : contactList)
+  {
+    for (const auto &eq : contact.second->GetEquationPtrList())
+    {
+      eq.second.RestoreContact();
+    }
+  }
+}
+
 void Device::SignalCallbacksOnInterface(const std::string &nm, const Region *rp) const
 {
   for (InterfaceList_t::const_iterator it = interfaceList.begin();
diff --git a/src/Geometry/Device.hh b/src/Geometry/Device.hh
index 753dfba..0ba0d3f 100644
--- a/src/Geometry/Device.hh
+++ b/src/Geometry/Device.hh
@@ -83,6 +83,8 @@ class Device
       void NoiseUpdate(const std::string &/*output*/, const std::vector<PermutationEntry> &/*permvec*/, const std::vector<dsMath::ComplexDouble_t<DoubleType>> &/*result*/);
 
       void UpdateContacts();
+      void BackupContacts();
+      void RestoreContacts();
       // Need to be careful with accessors and stuff
       // maintaining constness of contact
       void AddContact(const ContactPtr &);
diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index a65adc0..6433572 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -437,6 +437,7 @@ void Newton<DoubleType>::RestoreSolutions()
       Device &dev =     *(dit->second);
       //// Transient may have other backup suffixes
       dev.RestoreSolutions("_prev");
+      dev.RestoreContacts();
     }
   }
 
@@ -467,6 +468,7 @@ void Newton<DoubleType>::BackupSolutions()
       Device &dev =     *(dit->second);
       //// Transient may have other backup suffixes
       dev.BackupSolutions("_prev");
+      dev.BackupContacts();
     }
   }
 
-- 
2.43.0


From edfd4f689a04f123ae210bbc3914b3143ea5f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 19/89] fix: an infinite update of a positive circuit node ends

---
 src/Circuit/data/NodeKeeper.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 34172b5..e3905f4 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -13,6 +13,7 @@ SPDX-License-Identifier: Apache-2.0
 
 #include <sstream>
 #include <climits>
+#include <limits>
 #include <cmath>
 
 
@@ -366,6 +367,12 @@ void NodeKeeper::UpdateSolution(const std::string &key, const Solution &rhs)
                 OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
             }
 
+            if (upd < -std::numeric_limits<double>::max())
+            {
+                //// halving would never end
+                upd = -std::numeric_limits<double>::max();
+            }
+
             while ((upd + oval) <=  0.0)
             {
                 upd /= 2.0;
-- 
2.43.0


From bee5c74f44cf1156903f2049fe5155f4cfa612bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 20/89] fix: the node of the largest relative error is reported

---
 src/Equation/Equation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index bde16dd..fd788f4 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -286,6 +286,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     DoubleType aerr = 0.0;
     DoubleType rerr = 0.0;
     size_t     aerr_node = 0;
+    size_t     rerr_node = 0;
 
     for (size_t i = 0; i < upds.size(); ++i)
     {
@@ -304,6 +305,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
         if (nrerror > rerr)
         {
             rerr = nrerror;
+            rerr_node = i;
         }
 
     }
@@ -311,7 +313,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     setAbsError(aerr);
     setRelError(rerr);
     setAbsErrorNodeIndex(aerr_node);
-    setRelErrorNodeIndex(aerr_node);
+    setRelErrorNodeIndex(rerr_node);
 //    dsErrors::EquationMathErrorInfo(*this, rerr, aerr, OutputStream::OutputType::INFO);
 }
 
-- 
2.43.0


From aaf9164f2d8b1dcca8842df0c7c61dffa38f305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 21/89] fix: an update that is not a number is not reported as
 converged

---
 src/Equation/Equation.cc | 5 +++--
 src/Geometry/Device.cc   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index fd788f4..c1eb1c6 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -292,7 +292,8 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     {
         const DoubleType n1 = abs(upds[i]);
 
-        if (n1 > aerr)
+        //// an update which is not a number is the error
+        if (n1 > aerr || n1 != n1)
         {
           aerr = n1;
           aerr_node = i;
@@ -302,7 +303,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
 
         const DoubleType nrerror =  n1 / (n2 + minError);
 
-        if (nrerror > rerr)
+        if (nrerror > rerr || nrerror != nrerror)
         {
             rerr = nrerror;
             rerr_node = i;
diff --git a/src/Geometry/Device.cc b/src/Geometry/Device.cc
index 43a7499..041ebfb 100644
--- a/src/Geometry/Device.cc
+++ b/src/Geometry/Device.cc
@@ -350,7 +350,7 @@ void Device::Update(const dsMath::DoubleVec_t<DoubleType> &result)
         DoubleType rerr = rp->GetRelError<DoubleType>();
         DoubleType aerr = rp->GetAbsError<DoubleType>();
 
-        if (aerr > absError)
+        if (aerr > absError || aerr != aerr)
         {
             absError = aerr;
         }
-- 
2.43.0


From 377c927c782881e2f83f917e459c6fe8379412b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 22/89] fix: a circuit value that is not a number is not
 converged

---
 src/Circuit/data/NodeKeeper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index e3905f4..76b4437 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -391,7 +391,7 @@ void NodeKeeper::UpdateSolution(const std::string &key, const Solution &rhs)
 
         const double n2 = std::abs(nval);
         const double nrerror =  n1 / (n2 + minError);
-        if (nrerror > rerr)
+        if (nrerror > rerr || nrerror != nrerror)
             rerr = nrerror;
 
         // should really set all at once
-- 
2.43.0


From 844706df53b3e84cd0e8e45c5cf0adfaeed0de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 23/89] fix: divergence is counted per iteration from the
 errors of each device

---
 src/math/Newton.cc | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index 6433572..af331a4 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -38,6 +38,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <iomanip>
 #include <cmath>
 #include <cstdlib>
+#include <map>
 using std::abs;
 
 namespace dsMath {
@@ -686,8 +687,8 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   size_t divergence_count = 0;
   bool   max_error_hit = false;
-  DoubleType last_rel_err = 0.0;
-  DoubleType last_abs_err = 0.0;
+  //// relative and absolute error of each device in the previous iteration
+  std::map<std::string, std::pair<DoubleType, DoubleType>> last_errors;
 
   ObjectHolderList_t iteration_list;
 
@@ -770,6 +771,7 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
     PrintIteration(iter, p_iteration_map);
     {
       converged = true;
+      bool diverged = false;
       GlobalData::DeviceList_t::const_iterator dit  = dlist.begin();
       GlobalData::DeviceList_t::const_iterator dend = dlist.end();
       ObjectHolderList_t dobjlist;
@@ -792,23 +794,25 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
 
         /* if are our is higher than our convergence criteria and it is running away*/
-        bool diverged = ((devrerr > relLimit) && (devrerr > last_rel_err))
-           || ((devaerr > absLimit) && (devaerr > last_abs_err));
-        if (diverged)
-        {
-          divergence_count += 1;
-        }
-        else
-        {
-          divergence_count = 0;
-        }
-        last_rel_err = devrerr;
-        last_abs_err = devaerr;
+        auto &last_error = last_errors[device.GetName()];
+        diverged = diverged || ((devrerr > relLimit) && (devrerr > last_error.first))
+           || ((devaerr > absLimit) && (devaerr > last_error.second));
+        last_error = std::make_pair(devrerr, devaerr);
 
         converged = converged && (devrerr < relLimit) && (devaerr < absLimit);
 
         max_error_hit = max_error_hit || (devaerr > maxLimit);
       }
+
+      if (diverged)
+      {
+        divergence_count += 1;
+      }
+      else
+      {
+        divergence_count = 0;
+      }
+
       if (p_iteration_map)
       {
         (*p_iteration_map)["devices"] = ObjectHolder(dobjlist);
-- 
2.43.0


From b093fc695d460ee07ff9a3ab26ddc817f4fc4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 24/89] fix: powers and logarithms of even powers are only
 combined where that is valid

---
 src/adiff/EquationObject.cc | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 20d800d..e30884f 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -1455,6 +1455,28 @@ EqObjPtr Log::Derivative(EqObjPtr foo)
   return ret;
 }
 
+namespace {
+bool IsEvenOrUnknown(EqObjPtr y)
+{
+   if (y->getType() != CONST_OBJ)
+   {
+      return true;
+   }
+   const double v = static_cast<Constant *>(y.get())->getDoubleValue();
+   return std::fmod(v, 2.0) == 0.0;
+}
+
+bool IsInteger(EqObjPtr y)
+{
+   if (y->getType() != CONST_OBJ)
+   {
+      return false;
+   }
+   const double v = static_cast<Constant *>(y.get())->getDoubleValue();
+   return v == std::floor(v);
+}
+}
+
 EqObjPtr Log::Simplify()
 {
    if (value->isOne())
@@ -1475,10 +1497,14 @@ EqObjPtr Log::Simplify()
    }
 
    ///log(pow(x,y))) = y*log(x);
+   /// for a negative x and an even y log(x) does not exist
    if (value->getType() == POW_OBJ)
    {
       Pow *Y = static_cast<Pow *>(value.get());
-      return (Y->exponent * log(Y->base));
+      if (!IsEvenOrUnknown(Y->exponent))
+      {
+         return (Y->exponent * log(Y->base));
+      }
    }
 
    return log(value->Simplify());
@@ -1657,11 +1683,15 @@ EqObjPtr Pow::Simplify()
 
    /// may want to do static cast
    /// pow(pow(x,y),z) = pow(x,(y*z))
+   /// for a negative x and an even y this only holds if z is an integer
    if (b->getType() == POW_OBJ)
    {
       Pow *Y = static_cast<Pow *>(b.get());
 //      cout << Y-> base << " " <<  (Y->exponent * exponent) << endl;
-      return pow(Y->base, (Y->exponent * expo)->Simplify());
+      if (IsInteger(expo) || !IsEvenOrUnknown(Y->exponent))
+      {
+         return pow(Y->base, (Y->exponent * expo)->Simplify());
+      }
    }
    return pow(b, expo);
 }
-- 
2.43.0


From 51da65904628ba1bdac7001382cdc5d3933bb673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 25/89] fix: integer constants of a million and more keep their
 digits in expressions

---
 src/adiff/EquationObject.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index e30884f..4c0a8a1 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -293,6 +293,10 @@ std::string Constant::createStringValue()
     {
       os << std::scientific << std::setprecision(15);
     }
+    else
+    {
+      os << std::setprecision(16);
+    }
     if (dvalue < 0.0)
     {
       os << "(" << dvalue << ")";
-- 
2.43.0


From 15e1ead694519caa1732e1d020034bc4117f98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 26/89] fix: generated models declare every node their
 equations refer to

---
 src/Circuit/models/ideal/IdealCapacitor.cc | 12 ++++++++---
 src/Circuit/models/ideal/IdealInductor.cc  | 18 ++++++++++------
 src/Circuit/models/ideal/IdealResistor.cc  | 12 ++++++++---
 src/adiff/mcTest.cc                        | 25 +++++++++++++---------
 4 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/Circuit/models/ideal/IdealCapacitor.cc b/src/Circuit/models/ideal/IdealCapacitor.cc
index cc41c5b..b60d4e7 100644
--- a/src/Circuit/models/ideal/IdealCapacitor.cc
+++ b/src/Circuit/models/ideal/IdealCapacitor.cc
@@ -13,8 +13,14 @@ IdealCapacitor::IdealCapacitor( NodeKeeper *nk, const char *name,
 
 void IdealCapacitor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
 {
+   const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
 
+   const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
 
+   const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
 
 
 
@@ -26,14 +32,14 @@ void IdealCapacitor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::Re
 
 void IdealCapacitor::assembleTran_impl(const double scl, const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> *mat, std::vector<std::pair<int, double> > &rhs)
 {
-   const size_t node_num_vbot = node_ptr_vbot->getNumber();
    const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
 
-   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
    const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
 
-   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
    const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
 
    const double iq = (C * (vtop - vbot));
    const double evbot = scl *(-iq);
diff --git a/src/Circuit/models/ideal/IdealInductor.cc b/src/Circuit/models/ideal/IdealInductor.cc
index ca941f7..9047888 100644
--- a/src/Circuit/models/ideal/IdealInductor.cc
+++ b/src/Circuit/models/ideal/IdealInductor.cc
@@ -14,17 +14,17 @@ IdealInductor::IdealInductor( NodeKeeper *nk, const char *name,
 
 void IdealInductor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
 {
-   const size_t node_num_I = node_ptr_I->getNumber();
-   const size_t node_num_vbot = node_ptr_vbot->getNumber();
    const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
+   const size_t node_num_I = node_ptr_I->getNumber();
 
-   const bool   is_gnd_node_I = node_ptr_I->isGROUND();
-   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
    const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
+   const bool   is_gnd_node_I = node_ptr_I->isGROUND();
 
-   const double I = (is_gnd_node_I) ? 0.0 : sol[node_num_I];
-   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
    const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
+   const double I = (is_gnd_node_I) ? 0.0 : sol[node_num_I];
 
    const double vdiff = (vbot - vtop);
    const double eI = vdiff;
@@ -69,10 +69,16 @@ void IdealInductor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::Rea
 
 void IdealInductor::assembleTran_impl(const double scl, const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> *mat, std::vector<std::pair<int, double> > &rhs)
 {
+   const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
    const size_t node_num_I = node_ptr_I->getNumber();
 
+   const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
    const bool   is_gnd_node_I = node_ptr_I->isGROUND();
 
+   const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
    const double I = (is_gnd_node_I) ? 0.0 : sol[node_num_I];
 
    const double vl = (I * L);
diff --git a/src/Circuit/models/ideal/IdealResistor.cc b/src/Circuit/models/ideal/IdealResistor.cc
index 7316511..f41e274 100644
--- a/src/Circuit/models/ideal/IdealResistor.cc
+++ b/src/Circuit/models/ideal/IdealResistor.cc
@@ -13,14 +13,14 @@ IdealResistor::IdealResistor( NodeKeeper *nk, const char *name,
 
 void IdealResistor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
 {
-   const size_t node_num_vbot = node_ptr_vbot->getNumber();
    const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
 
-   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
    const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
 
-   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
    const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
 
    const double G = pow(R,(-1));
    const double ir = ((vtop - vbot) * G);
@@ -58,8 +58,14 @@ void IdealResistor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::Rea
 
 void IdealResistor::assembleTran_impl(const double scl, const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> *mat, std::vector<std::pair<int, double> > &rhs)
 {
+   const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
 
+   const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
 
+   const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
 
 
 
diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 5822bcd..494c31d 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -725,6 +725,21 @@ else if (atype == ACASSEMBLE)
    typedef std::map<std::string, std::pair<Eqo::EqObjPtr, Eqo::EqObjPtr> >::iterator StrEqEqMapIt;
    StrEqEqMapIt seemit, seemend;
    ostringstream bos[7];
+   // an equation may refer to a node which does not have an equation of this type
+   for (lit = TotalNodeList.begin(); lit != TotalNodeList.end(); ++lit)
+   {
+      const std::string &tmpname = *lit;
+
+      bos[EQNNUMBER] <<
+"   const size_t " << nodeNbrName(tmpname) << " = " << nodePtrName(tmpname) << "->getNumber();\n";
+
+      bos[ISGROUND] <<
+"   const bool   " << nodeIsGndName(tmpname) << " = " << nodePtrName(tmpname) << "->isGROUND();\n";
+
+      bos[SOLUTION] <<
+"   const double " << tmpname << " = (" << nodeIsGndName(tmpname) << ") ? 0.0 : " "sol[" << nodeNbrName(tmpname) << "];\n";
+   }
+
    seemend=EquationList.end();
    for (seemit=EquationList.begin(); seemit != EquationList.end(); ++seemit)
    {
@@ -739,16 +754,6 @@ else if (atype == ACASSEMBLE)
 
       std::string tmpname=(EquationToNodeMap[seemit->first]);
 
-      bos[EQNNUMBER] <<
-"   const size_t " << nodeNbrName(tmpname) << " = " << nodePtrName(tmpname) << "->getNumber();\n";
-
-      bos[ISGROUND] <<
-"   const bool   " << nodeIsGndName(tmpname) << " = " << nodePtrName(tmpname) << "->isGROUND();\n";
-
-      bos[SOLUTION] <<
-"   const double " << tmpname << " = (" << nodeIsGndName(tmpname) << ") ? 0.0 : " "sol[" << nodeNbrName(tmpname) << "];\n";
-
-
 //       out << "calling print for equation!\n";
 //       out << seemit->second.first << "\n";
       bos[MODEL] << printForEquation(wasModelProcessed, pt);
-- 
2.43.0


From dd718b927842069a10466a29f2b22a4941e2d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 27/89] fix: generated models keep the digits of parameter
 defaults

---
 src/adiff/mcTest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 494c31d..c00ff30 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -632,7 +632,7 @@ ClassName << "::" << ClassName << "( NodeKeeper *nk, const char *name,\n";
       {
          os <<
 "       " << std::setw(15) << std::left << parameterListName(it->first) <<
-            " = " << std::scientific << it->second.second << ";\n";
+            " = " << std::scientific << std::setprecision(16) << it->second.second << ";\n";
       }
       out << os.str();
    }
-- 
2.43.0


From a32f33126175d803073d457388bcea96f21dd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 28/89] fix: integers too large for an int are read correctly
 by the model compiler

---
 src/adiff/mcScanner.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adiff/mcScanner.l b/src/adiff/mcScanner.l
index ae18862..ba39aef 100644
--- a/src/adiff/mcScanner.l
+++ b/src/adiff/mcScanner.l
@@ -52,7 +52,7 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 {float1}|{float2}|{float3}    {yylval.dval = atof(yytext); return FLOAT;}
 
-{integer}   {yylval.dval = atoi(yytext); return INT;}
+{integer}   {yylval.dval = atof(yytext); return INT;}
 
 ^title  {yylval.str=yytext; return TITLE;}
 
-- 
2.43.0


From f5db2f23310a1bae3a892a7c49c68c657a45d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 29/89] fix: redefining a user function's derivatives does not
 capture argument names

---
 src/Circuit/models/ideal/IdealCapacitor.cc |  2 +-
 src/Circuit/models/ideal/IdealInductor.cc  |  2 +-
 src/Circuit/models/ideal/IdealResistor.cc  |  2 +-
 src/adiff/mcParser.y                       | 13 ++++++++++---
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Circuit/models/ideal/IdealCapacitor.cc b/src/Circuit/models/ideal/IdealCapacitor.cc
index b60d4e7..b929889 100644
--- a/src/Circuit/models/ideal/IdealCapacitor.cc
+++ b/src/Circuit/models/ideal/IdealCapacitor.cc
@@ -8,7 +8,7 @@ IdealCapacitor::IdealCapacitor( NodeKeeper *nk, const char *name,
        node_ptr_vbot= this->AddCircuitNode(n2);
 
        //Parameter List
-       C               = 1.000000e+00;
+       C               = 1.0000000000000000e+00;
 }
 
 void IdealCapacitor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
diff --git a/src/Circuit/models/ideal/IdealInductor.cc b/src/Circuit/models/ideal/IdealInductor.cc
index 9047888..a8af460 100644
--- a/src/Circuit/models/ideal/IdealInductor.cc
+++ b/src/Circuit/models/ideal/IdealInductor.cc
@@ -9,7 +9,7 @@ IdealInductor::IdealInductor( NodeKeeper *nk, const char *name,
        node_ptr_I= this->AddInternalNode("I");
 
        //Parameter List
-       L               = 1.000000e+00;
+       L               = 1.0000000000000000e+00;
 }
 
 void IdealInductor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
diff --git a/src/Circuit/models/ideal/IdealResistor.cc b/src/Circuit/models/ideal/IdealResistor.cc
index f41e274..1407dc3 100644
--- a/src/Circuit/models/ideal/IdealResistor.cc
+++ b/src/Circuit/models/ideal/IdealResistor.cc
@@ -8,7 +8,7 @@ IdealResistor::IdealResistor( NodeKeeper *nk, const char *name,
        node_ptr_vbot= this->AddCircuitNode(n2);
 
        //Parameter List
-       R               = 1.000000e+00;
+       R               = 1.0000000000000000e+00;
 }
 
 void IdealResistor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
diff --git a/src/adiff/mcParser.y b/src/adiff/mcParser.y
index 7e7a652..9618667 100644
--- a/src/adiff/mcParser.y
+++ b/src/adiff/mcParser.y
@@ -287,12 +287,19 @@ userfunccmd :
 		// Just like, except for create
 //		Eqo::CreateUserFunc($3, nargs);
 		    Eqo::UserDiffInfoVec udiv;
-		    std::vector<Eqo::EqObjPtr> f;
-
+		    // create special reserved names
+		    for (size_t i = 0; i < nargs; ++i)
+		    {
+			std::string foo = $4[i];
+			$4[i] = "@" + foo; // create reserved name
+			for (size_t j = 0; j < nargs; ++j)
+			{
+			    $7[j]=$7[j]->subst(foo, Eqo::var($4[i]));
+			}
+		    }
 		    for (size_t i = 0; i < nargs; ++i)
 		    {
 			udiv.push_back(std::make_pair($4[i], $7[i]));
-			f.push_back(Eqo::var($4[i]));
 		    }
 		    Eqo::SetUserFuncDiffs($2, udiv);
 		}
-- 
2.43.0


From 660b85af99a6c7e4496d0f3305947ccf1143ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 30/89] fix: coefficients of the Joyce-Dixon approximation and
 its expansion in Fermi and InvFermi

---
 src/MathEval/Fermi.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index 83aa28e..a9947fb 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -39,7 +39,7 @@ template <typename T>
 T Joyce(T r)
 {
     //static const T sqrt1_8 = 1.0/sqrt(8.);
-    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_pi<T>();
+    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_two<T>();
     static const T c1 = -4.9500897298752622e-3;
     static const T c2 =  1.4838577128872821e-4;
     static const T c3 = -4.4256301190009895e-6;
@@ -61,7 +61,7 @@ template <typename T>
 T dJoycedx(T r)
 {
     //static const double sqrt1_8 = 1.0/sqrt(8.);
-    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_pi<T>();
+    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_two<T>();
     static const T c1 = -2.0*4.9500897298752622e-3;
     static const T c2 =  3.0*1.4838577128872821e-4;
     static const T c3 = -4.0*4.4256301190009895e-6;
@@ -83,7 +83,7 @@ T Expansion(T r)
 {
     /// M_PI_4 = pi/4
     // static const T d1 = 3./4.* sqrt(M_PI);
-    static const T d1 = boost::math::constants::three_quarters_pi<T>();
+    static const T d1 = 0.75 * boost::math::constants::root_pi<T>();
     //static const T d2 = 4./3.;
     static const T d2 = static_cast<T>(4.)/static_cast<T>(3.);
     //static const T d3 = - M_PI * M_PI/6;
-- 
2.43.0


From e3589af6e815e0b1c05be65fce6c3678f2ca5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 31/89] fix: Fermi converges for large arguments and does not
 fail for very negative ones

---
 src/MathEval/Fermi.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index a9947fb..e67305a 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -29,6 +29,7 @@ eprint = { https://doi.org/10.1063/1.89697 }
 #include <cmath>
 using std::abs;
 #include <cstdlib>
+#include <limits>
 namespace
 {
 // TODO: "These coefficients only worked out for amd64 in current configuration"
@@ -166,7 +167,22 @@ template <typename T>
 T Fermi(T Eta)
 {
     //// initial guess
-    T r = exp(Eta);
+    T r;
+    if (Eta < 1.0)
+    {
+        r = exp(Eta);
+        //// the nondegenerate limit, which may also underflow
+        if (r < std::numeric_limits<T>::epsilon())
+        {
+            return r;
+        }
+    }
+    else
+    {
+        //// the degenerate limit does not overflow and approaches the root from below
+        static const T d1 = 0.75 * boost::math::constants::root_pi<T>();
+        r = Eta * sqrt(Eta) / d1;
+    }
 //    std::cerr << "Init: " << Eta << " " << r << std::endl;
     T rerr = 0.0;
     size_t i = 0;
@@ -195,7 +211,13 @@ T Fermi(T Eta)
 template <typename T>
 T dFermidx(T Eta)
 {
-    return 1.0/dInvFermidx(Fermi(Eta));
+    const T r = Fermi(Eta);
+    //// the nondegenerate limit, where 1/r may overflow
+    if (r < std::numeric_limits<T>::epsilon())
+    {
+        return r;
+    }
+    return 1.0/dInvFermidx(r);
 }
 
 template double InvFermi<double>(double);
-- 
2.43.0


From 6c36cd63254bebc1d1fd93fde8242296cb201181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 32/89] fix: the derivative of the Bernoulli function is
 accurate near zero

---
 src/MathEval/Bernoulli.cc | 42 ++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/MathEval/Bernoulli.cc b/src/MathEval/Bernoulli.cc
index 73a0479..0bb2c6d 100644
--- a/src/MathEval/Bernoulli.cc
+++ b/src/MathEval/Bernoulli.cc
@@ -130,30 +130,36 @@ DoubleType derBernoulliImpl(DoubleType x)
       ret /= ex1 * ex1;
     }
 #else
-    const auto ex1 = expm1(x);
-
-    //// This condition is IMPORTANT for convergence
-    //// TODO: it should be possible to calculate the breakpoint for this condition
-    if (x != ex1)
+    // the closed form loses digits to cancellation as x approaches 0
+    if (fx < 1.0e-2)
+    {
+      // coefficients of the derivative of the Taylor series, odd powers of x
+      static const DoubleType c[] = {
+          static_cast<DoubleType>(1.0) / 6.0,
+          static_cast<DoubleType>(-1.0) / 180.0,
+          static_cast<DoubleType>(1.0) / 5040.0,
+          static_cast<DoubleType>(-1.0) / 151200.0,
+          static_cast<DoubleType>(1.0) / 4790016.0,
+          static_cast<DoubleType>(-691.0) / 108972864000.0,
+          static_cast<DoubleType>(1.0) / 5337446400.0
+      };
+      const DoubleType x2 = x * x;
+      DoubleType sum = c[6];
+      for (int i = 5; i >= 0; --i)
+      {
+        sum = sum * x2 + c[i];
+      }
+      ret = x * sum;
+      ret -= 0.5;
+    }
+    else
     {
+      const auto ex1 = expm1(x);
       const auto ex2 = ex1 - (x * exp(x));
   //  const auto ex2 = (1 - x) * exp(x) - 1;
       ret = ex2;
       ret *= pow(ex1, -2);
     }
-    else
-    {
-      DoubleType num = static_cast<DoubleType>(-0.5);
-      DoubleType den = static_cast<DoubleType>( 1.0);
-      num -= x / static_cast<DoubleType>(3.);
-      den += x;
-#if 0
-      // these terms did not affect testing
-      num -= x*x / static_cast<DoubleType>(8.);
-      den += (7.*x*x)/12.;
-#endif
-      ret = num / den;
-    }
 #endif
   }
   else if (x > 0.0)
-- 
2.43.0


From 5826e8302d694b720cc24dbb1907c1b7dfb0615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 33/89] fix: extended precision exponents next to an integer
 are not taken as integers

---
 src/MathEval/MathWrapper.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MathEval/MathWrapper.cc b/src/MathEval/MathWrapper.cc
index be4da47..d7b50ab 100644
--- a/src/MathEval/MathWrapper.cc
+++ b/src/MathEval/MathWrapper.cc
@@ -196,10 +196,9 @@ namespace
 template <typename DoubleType>
 inline bool IsInt(DoubleType x)
 {
-  double y;
-  return ((modf(static_cast<double>(x), &y) == 0) &&
-          (x >= std::numeric_limits<int>::min()) &&
-          (x <= std::numeric_limits<int>::max())
+  return ((x >= std::numeric_limits<int>::min()) &&
+          (x <= std::numeric_limits<int>::max()) &&
+          (x == static_cast<DoubleType>(static_cast<int>(x)))
          );
 }
 }
-- 
2.43.0


From 3be59858a43f32a1534dcef8c6a9833ecb4444fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 34/89] fix: inverse error functions raise the floating point
 exception for undefined arguments

---
 src/MathEval/MiscMathFunc.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/MathEval/MiscMathFunc.cc b/src/MathEval/MiscMathFunc.cc
index f82410f..c61b0d2 100644
--- a/src/MathEval/MiscMathFunc.cc
+++ b/src/MathEval/MiscMathFunc.cc
@@ -12,6 +12,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "BoostConstants.hh"
 #include "BoostSpecialFunctions.hh"
 using my_policy::use_errno;
+#include <cfenv>
 #include <cmath>
 
 template <typename DoubleType>
@@ -83,16 +84,34 @@ DoubleType dot2dfunc(DoubleType ax, DoubleType ay, DoubleType bx, DoubleType by)
   return (ax*bx + ay*by);
 }
 
+namespace {
+// the errno policy returns infinity or nan without raising a floating point exception
+template <typename DoubleType>
+DoubleType RaiseIfUndefined(DoubleType x)
+{
+  const double y = static_cast<double>(x);
+  if (std::isnan(y))
+  {
+    std::feraiseexcept(FE_INVALID);
+  }
+  else if (std::isinf(y))
+  {
+    std::feraiseexcept(FE_DIVBYZERO);
+  }
+  return x;
+}
+}
+
 template <typename DoubleType>
 DoubleType erf_inv(DoubleType x)
 {
-  return boost::math::erf_inv(x, use_errno());
+  return RaiseIfUndefined(boost::math::erf_inv(x, use_errno()));
 }
 
 template <typename DoubleType>
 DoubleType erfc_inv(DoubleType x)
 {
-  return boost::math::erfc_inv(x, use_errno());
+  return RaiseIfUndefined(boost::math::erfc_inv(x, use_errno()));
 }
 
 template double erf_inv(double x);
-- 
2.43.0


From 1b61d51b24340d425d16e4eac8223f51001fb3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 35/89] fix: Fermi does not hang when the square in its
 expansion overflows

---
 src/MathEval/Fermi.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index e67305a..a4ce6f6 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -85,16 +85,16 @@ T Expansion(T r)
     /// M_PI_4 = pi/4
     // static const T d1 = 3./4.* sqrt(M_PI);
     static const T d1 = 0.75 * boost::math::constants::root_pi<T>();
-    //static const T d2 = 4./3.;
-    static const T d2 = static_cast<T>(4.)/static_cast<T>(3.);
+    //static const T d2 = 2./3.;
+    static const T d2 = static_cast<T>(2.)/static_cast<T>(3.);
     //static const T d3 = - M_PI * M_PI/6;
     static const T d3 = - boost::math::constants::pi_sqr_div_six<T>();
     //static const double d1 = 3./4.* sqrt(M_PI);
     //static const double d2 = 4./3.;
     //static const double d3 = - M_PI * M_PI/6;
-    T sum = pow(d1*r, d2);
-    sum += d3;
-    sum = sqrt(sum);
+    //// sqrt(t*t + d3) without overflow of the square
+    const T t = pow(d1*r, d2);
+    T sum = t * sqrt(1 + (d3 / t) / t);
 
     sum += offset;
     return sum;
-- 
2.43.0


From e0ac6271293fc522438ca3d93be555f21eaada89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 36/89] fix: inverse Gauss-Fermi integral converges for small
 arguments

---
 src/MathEval/GaussFermi.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/MathEval/GaussFermi.cc b/src/MathEval/GaussFermi.cc
index 960cfd2..f695a97 100644
--- a/src/MathEval/GaussFermi.cc
+++ b/src/MathEval/GaussFermi.cc
@@ -198,7 +198,16 @@ T igfi(T g, T s)
     // using the degenerate approximation
     const T S = s*s;
     const T H = calcH(s, S);
-    x = -s * sqrt2 * erf_inv(arg) / H;
+    if ((g > 0.0) && (g < 0.5 * exp(-0.5 * S)))
+    {
+      // below the value at zeta = -S the nondegenerate limit is the closer one,
+      // and the degenerate approximation would need one iteration per unit of zeta
+      x = log(g) - 0.5 * S;
+    }
+    else
+    {
+      x = -s * sqrt2 * erf_inv(arg) / H;
+    }
 
 #if 0
     // slightly less accuracy, best to use iteration
-- 
2.43.0


From 33286e35e47606f6e00cd1c0397d779a787fe91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 37/89] fix: the not equal operator accepted in expressions can
 be evaluated

---
 src/MathEval/LogicalMath.hh | 6 ++++++
 src/MathEval/MathEval.cc    | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/MathEval/LogicalMath.hh b/src/MathEval/LogicalMath.hh
index 1c43342..c20da03 100644
--- a/src/MathEval/LogicalMath.hh
+++ b/src/MathEval/LogicalMath.hh
@@ -31,6 +31,12 @@ inline DoubleType logical_eq(DoubleType x, DoubleType y)
   return (x == y);
 }
 
+template <typename DoubleType>
+inline DoubleType logical_neq(DoubleType x, DoubleType y)
+{
+  return (x != y);
+}
+
 template <typename DoubleType>
 inline DoubleType logical_lt(DoubleType x, DoubleType y)
 {
diff --git a/src/MathEval/MathEval.cc b/src/MathEval/MathEval.cc
index d23bca9..54b18fb 100644
--- a/src/MathEval/MathEval.cc
+++ b/src/MathEval/MathEval.cc
@@ -154,6 +154,7 @@ using ::derfc_invdx;
   {"&&",  logical_and,  "obj1 && obj2       -- logical and"},
   {"||",  logical_or,  "obj1 || obj2       -- logical or"},
   {"==",  logical_eq,  "obj1 == obj2       -- logical equal"},
+  {"!=",  logical_neq,  "obj1 != obj2       -- logical not equal"},
   {"<",  logical_lt,  "obj1 < obj2       -- logical less"},
   {"<=",  logical_lte,  "obj1 <= obj2       -- logical less than equal"},
   {">",  logical_gt,  "obj1 > obj2       -- logical greater"},
@@ -301,6 +302,7 @@ using ::derfc_invdx;
   {"&&",  logical_and,  "obj1 && obj2       -- logical and"},
   {"||",  logical_or,  "obj1 || obj2       -- logical or"},
   {"==",  logical_eq,  "obj1 == obj2       -- logical equal"},
+  {"!=",  logical_neq,  "obj1 != obj2       -- logical not equal"},
   {"<",  logical_lt,  "obj1 < obj2       -- logical less"},
   {"<=",  logical_lte,  "obj1 <= obj2       -- logical less than equal"},
   {">",  logical_gt,  "obj1 > obj2       -- logical greater"},
-- 
2.43.0


From 18be467b2feaa2eb68865e1825c31ec236da5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 38/89] fix: derivatives of the inverse error functions raise
 for undefined arguments

---
 src/MathEval/MiscMathFunc.cc | 64 ++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/MathEval/MiscMathFunc.cc b/src/MathEval/MiscMathFunc.cc
index c61b0d2..3926b65 100644
--- a/src/MathEval/MiscMathFunc.cc
+++ b/src/MathEval/MiscMathFunc.cc
@@ -45,73 +45,73 @@ DoubleType derfcdx(DoubleType x)
   return mtwo_div_root_pi*exp(-x*x);
 }
 
+namespace {
+// the errno policy returns infinity or nan without raising a floating point exception
 template <typename DoubleType>
-DoubleType derf_invdx(DoubleType x)
+DoubleType RaiseIfUndefined(DoubleType x)
 {
-  // g'(x) = 1./(f'(g(x)))
-  return 1.0 / derfdx(boost::math::erf_inv(x, use_errno()));
+  const double y = static_cast<double>(x);
+  if (std::isnan(y))
+  {
+    std::feraiseexcept(FE_INVALID);
+  }
+  else if (std::isinf(y))
+  {
+    std::feraiseexcept(FE_DIVBYZERO);
+  }
+  return x;
+}
 }
 
 template <typename DoubleType>
-DoubleType derfc_invdx(DoubleType x)
+DoubleType erf_inv(DoubleType x)
 {
-  // g'(x) = 1./(f'(g(x)))
-  return 1.0 / derfcdx(boost::math::erfc_inv(x, use_errno()));
+  return RaiseIfUndefined(boost::math::erf_inv(x, use_errno()));
 }
 
-
 template <typename DoubleType>
-DoubleType vec_sum(DoubleType x)
+DoubleType erfc_inv(DoubleType x)
 {
-  return x;
+  return RaiseIfUndefined(boost::math::erfc_inv(x, use_errno()));
 }
 
 template <typename DoubleType>
-DoubleType vec_max(DoubleType x)
+DoubleType derf_invdx(DoubleType x)
 {
-  return x;
+  // g'(x) = 1./(f'(g(x)))
+  return 1.0 / derfdx(erf_inv(x));
 }
 
 template <typename DoubleType>
-DoubleType vec_min(DoubleType x)
+DoubleType derfc_invdx(DoubleType x)
 {
-  return x;
+  // g'(x) = 1./(f'(g(x)))
+  return 1.0 / derfcdx(erfc_inv(x));
 }
 
+
 template <typename DoubleType>
-DoubleType dot2dfunc(DoubleType ax, DoubleType ay, DoubleType bx, DoubleType by)
+DoubleType vec_sum(DoubleType x)
 {
-  return (ax*bx + ay*by);
+  return x;
 }
 
-namespace {
-// the errno policy returns infinity or nan without raising a floating point exception
 template <typename DoubleType>
-DoubleType RaiseIfUndefined(DoubleType x)
+DoubleType vec_max(DoubleType x)
 {
-  const double y = static_cast<double>(x);
-  if (std::isnan(y))
-  {
-    std::feraiseexcept(FE_INVALID);
-  }
-  else if (std::isinf(y))
-  {
-    std::feraiseexcept(FE_DIVBYZERO);
-  }
   return x;
 }
-}
 
 template <typename DoubleType>
-DoubleType erf_inv(DoubleType x)
+DoubleType vec_min(DoubleType x)
 {
-  return RaiseIfUndefined(boost::math::erf_inv(x, use_errno()));
+  return x;
 }
 
 template <typename DoubleType>
-DoubleType erfc_inv(DoubleType x)
+DoubleType dot2dfunc(DoubleType ax, DoubleType ay, DoubleType bx, DoubleType by)
 {
-  return RaiseIfUndefined(boost::math::erfc_inv(x, use_errno()));
+  return (ax*bx + ay*by);
 }
 
 template double erf_inv(double x);
-- 
2.43.0


From 4949e9d79da69fa27cf936f7540bb7666f5fae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 39/89] fix: derivative of the geometric average of negative
 values has the right sign

---
 src/GeomModels/AverageEdgeModel.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GeomModels/AverageEdgeModel.cc b/src/GeomModels/AverageEdgeModel.cc
index bc7980e..32c01d0 100644
--- a/src/GeomModels/AverageEdgeModel.cc
+++ b/src/GeomModels/AverageEdgeModel.cc
@@ -131,6 +131,10 @@ struct Geometric {
   std::pair<DoubleType, DoubleType> operator()(DoubleType x, DoubleType xd, DoubleType y, DoubleType yd) const
   {
     DoubleType ratio = sqrt(y/x);
+    if (x < 0.0)
+    {
+      ratio = -ratio;
+    }
     return std::make_pair(0.5 * xd * ratio, 0.5 * yd /ratio);
   }
 };
-- 
2.43.0


From e7565b785ad9495e5fbb47bf536469f4572344d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 40/89] fix: vector_gradient averages correctly where more than
 two edges meet

---
 src/GeomModels/VectorGradient.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GeomModels/VectorGradient.cc b/src/GeomModels/VectorGradient.cc
index 4bc4736..7756cef 100644
--- a/src/GeomModels/VectorGradient.cc
+++ b/src/GeomModels/VectorGradient.cc
@@ -109,11 +109,11 @@ void VectorGradient<DoubleType>::calc1d() const
         val += vgrad[eindex];
         ++count;
       }
-      if (count != 0)
-      {
-        val /= count;
-        vx[i] = val;
-      }
+    }
+    if (count != 0)
+    {
+      val /= count;
+      vx[i] = val;
     }
   }
 
-- 
2.43.0


From 9e0c6781c36b8d1c739077fd8a678ba24f92b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 41/89] fix: vector_gradient uses the z coordinate in three
 dimensions

---
 src/Geometry/GradientField.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/GradientField.cc b/src/Geometry/GradientField.cc
index 4e007e7..e545eb2 100644
--- a/src/Geometry/GradientField.cc
+++ b/src/Geometry/GradientField.cc
@@ -89,7 +89,7 @@ void GradientField<DoubleType>::CalcMatrices3d() const
   //// Assert fields exist
   ConstNodeModelPtr ux = myregion_->GetNodeModel("x");
   ConstNodeModelPtr uy = myregion_->GetNodeModel("y");
-  ConstNodeModelPtr uz = myregion_->GetNodeModel("y");
+  ConstNodeModelPtr uz = myregion_->GetNodeModel("z");
 
   dsAssert(ux.get(), "UNEXPECTED");
   dsAssert(uy.get(), "UNEXPECTED");
-- 
2.43.0


From 00293295e831a3442d65ea1c0d477a13190757f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 42/89] fix: saved derivative models of element_from_edge_model
 name their command

---
 src/models/TetrahedronEdgeFromEdgeModelDerivative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
index 2cd56ed..48c6d34 100644
--- a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
+++ b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
@@ -147,7 +147,7 @@ void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::calcTetrahedronEdgeScal
 template <typename DoubleType>
 void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_pair_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
+  of << "COMMAND element_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
 }
 
 template class TetrahedronEdgeFromEdgeModelDerivative<double>;
-- 
2.43.0


From e581a99bf4360151d773bc409a44215750d2bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 43/89] fix: device files hold enough digits to restore every
 value

---
 src/meshing/DevsimRestartWriter.cc | 2 +-
 src/meshing/DevsimWriter.cc        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 69bd1ee..5e56ce2 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -179,7 +179,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
   std::ios oldState(nullptr);
   oldState.copyfmt(myfile);
 
-  myfile << std::setprecision(15) << std::scientific;
+  myfile << std::setprecision(16) << std::scientific;
   GlobalData   &gdata = GlobalData::GetInstance();
 
   DevicePtr dp = gdata.GetDevice(dname);
diff --git a/src/meshing/DevsimWriter.cc b/src/meshing/DevsimWriter.cc
index 5e1f65a..2bb5e88 100644
--- a/src/meshing/DevsimWriter.cc
+++ b/src/meshing/DevsimWriter.cc
@@ -132,7 +132,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
     std::ios oldState(nullptr);
     oldState.copyfmt(myfile);
 
-    myfile << std::setprecision(15) << std::scientific;
+    myfile << std::setprecision(16) << std::scientific;
     GlobalData   &gdata = GlobalData::GetInstance();
 
     DevicePtr dp = gdata.GetDevice(dname);
-- 
2.43.0


From bef3d188a7078a745cb9d56bc1620ae4ebdbc738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 44/89] fix: saved cylindrical models name existing commands

---
 src/GeomModels/TriangleCylindricalEdgeCouple.cc | 2 +-
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalEdgeCouple.cc b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
index 80924fe..aaaf29a 100644
--- a/src/GeomModels/TriangleCylindricalEdgeCouple.cc
+++ b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
@@ -161,7 +161,7 @@ Vector<DoubleType> TriangleCylindricalEdgeCouple<DoubleType>::calcTriangleCylind
 template <typename DoubleType>
 void TriangleCylindricalEdgeCouple<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalEdgeCouple<double>;
diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index db0043a..c789501 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -261,7 +261,7 @@ std::vector<DoubleType> TriangleCylindricalNodeVolume<DoubleType>::calcTriangleC
 template <typename DoubleType>
 void TriangleCylindricalNodeVolume<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalNodeVolume<double>;
-- 
2.43.0


From fd16e694c9c200b5abc8c9f921d4084c57525791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 45/89] fix: saved element models keep their display type in
 two dimensions

---
 src/AutoEquation/TriangleEdgeExprModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AutoEquation/TriangleEdgeExprModel.cc b/src/AutoEquation/TriangleEdgeExprModel.cc
index 8d802e8..e2ee108 100644
--- a/src/AutoEquation/TriangleEdgeExprModel.cc
+++ b/src/AutoEquation/TriangleEdgeExprModel.cc
@@ -132,7 +132,7 @@ void TriangleEdgeExprModel<DoubleType>::calcTriangleEdgeScalarValues() const
 template <typename DoubleType>
 void TriangleEdgeExprModel<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -name \"" << GetName() << "\" -equation \"" << EngineAPI::getStringValue(equation) << ";\"";
+  of << "COMMAND element_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -name \"" << GetName() << "\" -equation \"" << EngineAPI::getStringValue(equation) << ";\" -display_type \"" << GetDisplayTypeString() << "\"";
 }
 
 template class TriangleEdgeExprModel<double>;
-- 
2.43.0


From 22852a3a594741a93914dd8d94f8c5427e0d611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 46/89] fix: create_contact_from_interface works in two
 dimensions

---
 src/Geometry/Contact.cc   | 6 ++++++
 src/Geometry/Interface.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/Geometry/Contact.cc b/src/Geometry/Contact.cc
index 0033a00..65ad1d3 100644
--- a/src/Geometry/Contact.cc
+++ b/src/Geometry/Contact.cc
@@ -207,6 +207,12 @@ void Contact::FindEdges() const
 
 void Contact::FindTriangles() const
 {
+  //// only a three dimensional contact is made out of triangles
+  if (GetRegion()->GetDimension() != 3)
+  {
+    return;
+  }
+
   contacttriangles.clear();
   contactedges.clear();
 
diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 821ee36..9444bcd 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -275,6 +275,12 @@ void Interface::FindEdges() const
 
 void Interface::FindTriangles() const
 {
+  //// only a three dimensional interface is made out of triangles
+  if (GetRegion0()->GetDimension() != 3)
+  {
+    return;
+  }
+
   triangles0.clear();
   triangles1.clear();
   edges0.clear();
-- 
2.43.0


From c7422e319c91633857edfb30f8172bafa28db447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 47/89] fix: contacts and interfaces keep the nodes that are on
 no element when saved

---
 src/meshing/DevsimRestartWriter.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 5e56ce2..5ed7580 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -262,7 +262,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
 
       const ConstNodeList_t &ctnodes = cnt.GetNodes();
 
-      if (dimension == 1)
+      //// the elements may not reach all of the nodes
       {
         myfile << "begin_nodes\n";
         for (ConstNodeList_t::const_iterator ctit = ctnodes.begin(); ctit != ctnodes.end(); ++ctit)
@@ -271,7 +271,8 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
         }
         myfile << "end_nodes\n\n";
       }
-      else if (dimension == 2)
+
+      if (dimension == 2)
       {
         const ConstEdgeList_t &itedges = cnt.GetEdges();
         if (!itedges.empty())
@@ -323,7 +324,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
       const ConstNodeList_t &itnodes1 = iint.GetNodes1();
       dsAssert(itnodes0.size() == itnodes1.size(), "UNEXPECTED");
 
-      if (dimension == 1 || (!iint.ElementsProvided()))
+      //// the elements may not reach all of the nodes
       {
         myfile << "begin_nodes\n";
         for (size_t i = 0; i < itnodes0.size(); ++i)
@@ -332,6 +333,11 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
         }
         myfile << "end_nodes\n\n";
       }
+
+      if (!iint.ElementsProvided())
+      {
+        //// found from the nodes when they are needed
+      }
       else if (dimension == 2)
       {
         const ConstEdgeList_t &itedges0 = iint.GetEdges0();
-- 
2.43.0


From 3668832033a61bd4f70d39107a066e1849dd7af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 48/89] fix: interfaces loaded from their elements pair the
 nodes by coordinate

---
 src/meshing/DevsimLoader.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index 66e229f..6517ef2 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -363,10 +363,6 @@ void FixNodePairs(MeshInterface &mint, ConstNodeList &cn0, ConstNodeList &cn1)
     {
       (*jt).second.second = (*it)->GetIndex();
     }
-    else
-    {
-      mmap.erase(jt);
-    }
   }
 
   for (std::map<size_t, std::pair<size_t, size_t> >::iterator it = mmap.begin(); it != mmap.end(); ++it)
@@ -572,6 +568,9 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
         GetNodes(mint.GetMeshRegion0(), rp0, cn0);
         GetNodes(mint.GetMeshRegion1(), rp1, cn1);
         FixNodePairs(mint, cn0, cn1);
+        cn0.clear();
+        cn1.clear();
+        mnp = mint.GetNodePairs();
       }
 
       if (!mnp.empty())
-- 
2.43.0


From ddbedbc791763bd741a3858e8b8f4632f13cfa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 49/89] fix: a device file that cannot be loaded leaves nothing
 behind and a cut short one is refused

---
 src/meshing/DevsimParser.y  |  6 ++++
 src/meshing/DevsimReader.cc |  2 ++
 src/meshing/DevsimReader.hh |  4 +++
 src/meshing/DevsimScanner.l | 66 ++++++++++++++++++++++++++++++++++---
 4 files changed, 74 insertions(+), 4 deletions(-)

diff --git a/src/meshing/DevsimParser.y b/src/meshing/DevsimParser.y
index 1821327..189e283 100644
--- a/src/meshing/DevsimParser.y
+++ b/src/meshing/DevsimParser.y
@@ -10,6 +10,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "DevsimReader.hh"
 #include "DevsimLoader.hh"
 #include "MeshKeeper.hh"
+#include "GlobalData.hh"
 #include "OutputStream.hh"
 #include <sstream>
 
@@ -76,6 +77,7 @@ begin_devicecmd : BEG_DEVICE WORD  {
         dsDevsimParse::DevsimLoader = new dsMesh::DevsimLoader($2);
         dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
         mk.AddMesh(dsDevsimParse::DevsimLoader);
+        dsDevsimParse::meshNames.push_back($2);
     }
 }
 ;
@@ -86,6 +88,10 @@ end_devicecmd : END_DEVICE {
   if (ret)
   {
     std::string deviceName = dsDevsimParse::DevsimLoader->GetName();
+    if (!GlobalData::GetInstance().GetDevice(deviceName))
+    {
+      dsDevsimParse::deviceNames.push_back(deviceName);
+    }
     //// should we finalize and instantiate by default ????
     //// or should this be the last step for the user
     ret = dsDevsimParse::DevsimLoader->Instantiate(dsDevsimParse::DevsimLoader->GetName(), errorString);
diff --git a/src/meshing/DevsimReader.cc b/src/meshing/DevsimReader.cc
index d0f7927..93e2aeb 100644
--- a/src/meshing/DevsimReader.cc
+++ b/src/meshing/DevsimReader.cc
@@ -17,6 +17,8 @@ dsMesh::MeshInterfacePtr MeshInterface;
 dsMesh::SolutionPtr      Sol;
 dsMesh::EquationPtr      Equation;
 std::string errors;
+std::vector<std::string> meshNames;
+std::vector<std::string> deviceNames;
 }
 
 namespace dsDevsimParse
diff --git a/src/meshing/DevsimReader.hh b/src/meshing/DevsimReader.hh
index 6256264..b0ce1f0 100644
--- a/src/meshing/DevsimReader.hh
+++ b/src/meshing/DevsimReader.hh
@@ -9,6 +9,7 @@ SPDX-License-Identifier: Apache-2.0
 #define DEVSIM_READER_HH
 #include "MeshLoaderStructs.hh"
 #include <string>
+#include <vector>
 #include <cstddef>
 
 //TODO: ensure stack size can trigger realloc
@@ -27,6 +28,9 @@ extern dsMesh::MeshInterfacePtr MeshInterface;
 extern dsMesh::SolutionPtr      Sol;
 extern dsMesh::EquationPtr      Equation;
 extern std::string errors;
+//// names of what the current load has created
+extern std::vector<std::string> meshNames;
+extern std::vector<std::string> deviceNames;
 
 void DeletePointers();
 
diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index 004ac56..497b7ca 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -9,8 +9,14 @@ SPDX-License-Identifier: Apache-2.0
 #include "Devsimyystype.hh"
 #include "DevsimReader.hh"
 #include "DevsimParser.hh"
+#include "DevsimLoader.hh"
+#include "GlobalData.hh"
+#include "MeshKeeper.hh"
+#include "dsException.hh"
 #include <sstream>
 #define YY_NO_UNPUT
+//// a file that cannot be read must not end the program
+#define YY_FATAL_ERROR(msg) throw dsException(std::string(msg) + "\n")
 #ifdef _WIN32
 #include <io.h>
 #define YY_NO_UNISTD_H
@@ -313,11 +319,57 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 int Devsimparse();
 
 namespace dsDevsimParse {
+namespace {
+//// However a load ends, the next one starts afresh, and one that fails leaves nothing behind
+class LoadGuard {
+  public:
+    LoadGuard()
+    {
+      dsDevsimParse::errors.clear();
+      dsDevsimParse::meshNames.clear();
+      dsDevsimParse::deviceNames.clear();
+      dsDevsimParse::meshlineno = 1;
+    }
+
+    ~LoadGuard()
+    {
+      if (YY_CURRENT_BUFFER)
+      {
+        yy_delete_buffer( YY_CURRENT_BUFFER );
+      }
+      if (Devsimin)
+      {
+        fclose(Devsimin);
+        Devsimin = nullptr;
+      }
+      while (yy_start_stack_ptr > 0)
+      {
+        yy_pop_state();
+      }
+      BEGIN(INITIAL);
+      dsDevsimParse::DeletePointers();
+      dsDevsimParse::DevsimLoader = nullptr;
+      if (!success)
+      {
+        for (auto &name : dsDevsimParse::deviceNames)
+        {
+          GlobalData::GetInstance().DeleteDevice(name);
+        }
+        for (auto &name : dsDevsimParse::meshNames)
+        {
+          dsMesh::MeshKeeper::GetInstance().DeleteMesh(name);
+        }
+      }
+    }
+
+    bool success = false;
+};
+}
+
 bool LoadMeshes(const std::string &fname, std::string &errorString)
 {
     bool ret = false;
-    dsDevsimParse::errors.clear();
-    dsDevsimParse::meshlineno = 1;
+    LoadGuard guard;
 
     Devsimin = fopen(fname.c_str(), "r");
 
@@ -333,13 +385,19 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
     {
         Devsim_switch_to_buffer(Devsim_create_buffer( Devsimin, YY_BUF_SIZE ) );
         retval = Devsimparse();
-        yy_delete_buffer( YY_CURRENT_BUFFER );
+        if (!retval && (dsDevsimParse::DevsimLoader || dsDevsimParse::deviceNames.empty()))
+        {
+            retval = 1;
+            std::ostringstream os;
+            os << "Unexpected end of file " << fname << "\n";
+            errorString += os.str();
+        }
     }
 
 
     ret = !retval;
 
-    dsDevsimParse::DeletePointers();
+    guard.success = ret;
     errorString += dsDevsimParse::errors;
     return ret;
 }
-- 
2.43.0


From 0e3448f9e1ed597205c45e59b3f32aa2a6262b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:39 +0000
Subject: [PATCH 50/89] fix: a device file with a degenerate element is refused

---
 src/meshing/DevsimLoader.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index 6517ef2..590261f 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -1115,6 +1115,28 @@ bool DevsimLoader::Finalize_(std::string &errorString)
         }
       }
 
+      //// the nodes of an element are distinct
+      bool degenerate = false;
+      for (const auto &e : region.GetEdges())
+      {
+        degenerate |= (e.Index0() == e.Index1());
+      }
+      for (const auto &t : region.GetTriangles())
+      {
+        degenerate |= (t.Index0() == t.Index1()) || (t.Index1() == t.Index2());
+      }
+      for (const auto &t : region.GetTetrahedra())
+      {
+        degenerate |= (t.Index0() == t.Index1()) || (t.Index1() == t.Index2()) || (t.Index2() == t.Index3());
+      }
+      if (degenerate)
+      {
+        ret = false;
+        std::ostringstream os;
+        os << rname << " has an element that uses a node more than once\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      }
+
       if (region.HasTriangles())
       {
         const MeshTriangleList_t &nl = region.GetTriangles();
-- 
2.43.0


From 707ae352787013516b177b48087c4ec26a839f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 51/89] fix: write_devices reports files that cannot be written

---
 src/commands/MeshingCommands.cc    | 11 +++++++++++
 src/meshing/DevsimRestartWriter.cc | 17 ++++++++++++++---
 src/meshing/DevsimWriter.cc        | 17 ++++++++++++++---
 src/meshing/TecplotWriter.cc       | 17 ++++++++++++++---
 src/meshing/VTKWriter.cc           | 17 ++++++++++++++---
 5 files changed, 67 insertions(+), 12 deletions(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index ce93994..0a23fe4 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -831,6 +831,17 @@ writeDevicesCmd(CommandHandler &data)
         return;
     }
 
+    if (!device.empty())
+    {
+        Device *dev = nullptr;
+        errorString += dsValidate::ValidateDevice(device, dev);
+        if (!errorString.empty())
+        {
+            data.SetErrorResult(errorString);
+            return;
+        }
+    }
+
     bool ret = true;
     if (device.empty())
     {
diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 5ed7580..b3e2afb 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -411,7 +411,7 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -419,6 +419,12 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
     else
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write \"" << filename << "\"\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -431,7 +437,7 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -442,10 +448,15 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
     for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
     {
         const std::string &dname = dit->first;
-        ret = WriteSingleDevice(dname, myfile, errorString);
+        ret = WriteSingleDevice(dname, myfile, errorString) && ret;
     }
 
     myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/DevsimWriter.cc b/src/meshing/DevsimWriter.cc
index 2bb5e88..a202bb4 100644
--- a/src/meshing/DevsimWriter.cc
+++ b/src/meshing/DevsimWriter.cc
@@ -244,7 +244,7 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -252,6 +252,12 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
     else
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write \"" << filename << "\"\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -264,7 +270,7 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -275,10 +281,15 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
     for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
     {
         const std::string &dname = dit->first;
-        ret = WriteSingleDevice(dname, myfile, errorString);
+        ret = WriteSingleDevice(dname, myfile, errorString) && ret;
     }
 
     myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index ba61f36..59f5bfa 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -797,7 +797,7 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -805,6 +805,12 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
     else
     {
         ret = Tecplot::WriteSingleDevice(deviceName, myfile, include_test, errorString);
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write " << filename << "\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -817,7 +823,7 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -836,10 +842,15 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
         for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
         {
             const std::string &dname = dit->first;
-            ret = Tecplot::WriteSingleDevice(dname, myfile, include_test, errorString);
+            ret = Tecplot::WriteSingleDevice(dname, myfile, include_test, errorString) && ret;
         }
     }
     myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write " << filename << "\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index 1c7f35a..478b64d 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -474,12 +474,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     std::ofstream visitfile;
     vtmfile.open (vtmfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
     visitfile.open (visitfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (vtmfile.bad())
+    if (!vtmfile)
     {
       ret = false;
       os << "Could not open " << vtmfilename << " for writing\n";
     }
-    else if (visitfile.bad())
+    else if (!visitfile)
     {
       ret = false;
       os << "Could not open " << visitfilename << " for writing\n";
@@ -503,7 +503,7 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
         std::ofstream vtufile;
         vtufile.open (vtufilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-        if (vtufile.bad())
+        if (!vtufile)
         {
             ret = false;
             os << "Could not open " << vtufilename << " for writing\n";
@@ -521,6 +521,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
           vtufile << "\n";
           vtufile.close();
+          if (!vtufile)
+          {
+              ret = false;
+              os << "Could not write " << vtufilename << "\n";
+              break;
+          }
           vtufiles.push_back(vtufilename);
         }
         ++i;
@@ -549,6 +555,11 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     }
     vtmfile.close();
     visitfile.close();
+    if (ret && !(vtmfile && visitfile))
+    {
+      ret = false;
+      os << "Could not write " << vtmfilename << " and " << visitfilename << "\n";
+    }
   }
   errorString += os.str();
   return ret;
-- 
2.43.0


From e3fbfa2fba46ed80ab17d4d610230701dd87dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 52/89] fix: a gmsh file that cannot be read leaves nothing
 behind and a cut short one is refused

---
 src/meshing/GmshParser.y  | 50 +++++++++++++++++++++++++-
 src/meshing/GmshScanner.l | 74 +++++++++++++++++++++++++++++----------
 2 files changed, 104 insertions(+), 20 deletions(-)

diff --git a/src/meshing/GmshParser.y b/src/meshing/GmshParser.y
index b4795e6..62e0f72 100644
--- a/src/meshing/GmshParser.y
+++ b/src/meshing/GmshParser.y
@@ -20,6 +20,30 @@ int Gmsherror(const char *msg);
 int Gmshlex();
 
 bool processElement(dsMesh::GmshLoader &, const std::vector<int> &);
+
+namespace {
+//// number of entries announced and seen in the current section
+long expected_count = 0;
+long actual_count   = 0;
+
+void beginSection(int n)
+{
+  expected_count = n;
+  actual_count   = 0;
+}
+
+bool endSection(const char *name)
+{
+  const bool ret = (expected_count == actual_count);
+  if (!ret)
+  {
+    std::ostringstream os;
+    os << "ERROR: section " << name << " has " << actual_count << " entries but " << expected_count << " were expected\n";
+    Gmsherror(os.str().c_str());
+  }
+  return ret;
+}
+}
 %}
 
 //%token HELP
@@ -36,7 +60,7 @@ bool processElement(dsMesh::GmshLoader &, const std::vector<int> &);
 %type <ilist> intlist
 
 %%
-all : | meshformat
+all : meshformat
     ;
 
 meshformat :
@@ -61,6 +85,9 @@ meshformat :
 
 physicalnames :
         BEG_PHYSICALNAMES EOL INT EOL
+        {
+          beginSection($3);
+        }
         | physicalnames INT INT WORD EOL
         {
           if (($2 < 0) || ($2 > 3))
@@ -87,16 +114,24 @@ physicalnames :
           else
           {
             dsGmshParse::GmshLoader->AddPhysicalName($2, $3, $4);
+            ++actual_count;
           }
         }
         | physicalnames END_PHYSICALNAMES EOL
         {
           /// Verify we get the expected number
+          if (!endSection("PhysicalNames"))
+          {
+            YYABORT;
+          }
         }
         ;
 
 nodes :
         BEG_NODES EOL INT EOL
+        {
+          beginSection($3);
+        }
         | nodes INT number number number EOL
         {
           /// enforce that node index is a positive number
@@ -110,16 +145,24 @@ nodes :
           else
           {
             dsGmshParse::GmshLoader->AddCoordinate($2, dsMesh::MeshCoordinate($3, $4, $5));
+            ++actual_count;
           }
         }
         | nodes END_NODES
         {
           /// Verify we get the expected number
+          if (!endSection("Nodes"))
+          {
+            YYABORT;
+          }
         }
         ;
 
 elements :
         BEG_ELEMENTS EOL INT EOL
+        {
+          beginSection($3);
+        }
         | elements intlist EOL
         {
           /// here we are processing a list of numbers since the number we expect are based on element type and tag properties
@@ -128,10 +171,15 @@ elements :
           {
             YYABORT;
           }
+          ++actual_count;
         }
         | elements END_ELEMENTS
         {
           /// Verify we get the expected number
+          if (!endSection("Elements"))
+          {
+            YYABORT;
+          }
         }
         ;
 
diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index c996e72..779003e 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -9,8 +9,11 @@ SPDX-License-Identifier: Apache-2.0
 #include "Gmshyystype.hh"
 #include "GmshReader.hh"
 #include "GmshParser.hh"
+#include "dsException.hh"
 #include <sstream>
 #define YY_NO_UNPUT
+//// a file that cannot be read must not end the program
+#define YY_FATAL_ERROR(msg) throw dsException(std::string(msg) + "\n")
 #ifdef _WIN32
 #include <io.h>
 #define YY_NO_UNISTD_H
@@ -112,27 +115,55 @@ int Gmshparse();
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
 namespace dsGmshParse {
-bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, std::string &errorString)
-{
-    bool ret = false;
-    dsGmshParse::errors.clear();
-    dsGmshParse::meshlineno = 0;
-
-
-    if (dsGmshParse::GmshLoader)
+namespace {
+//// However a load ends, the next one starts afresh, and one that fails leaves nothing behind
+class LoadGuard {
+  public:
+    explicit LoadGuard(const std::string &n) : meshName(n)
     {
-      std::ostringstream os;
-      os << "A Gmsh mesh is already being loaded by the name of " << dsGmshParse::GmshLoader->GetName() << "\n";
-      errorString += os.str();
-      return false;
+      dsGmshParse::errors.clear();
+      dsGmshParse::meshlineno = 0;
+      dsGmshParse::GmshLoader = new dsMesh::GmshLoader(meshName);
+      dsMesh::MeshKeeper::GetInstance().AddMesh(dsGmshParse::GmshLoader);
     }
-    else
+
+    ~LoadGuard()
     {
-      dsGmshParse::GmshLoader = new dsMesh::GmshLoader(meshName);
-      dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-      mk.AddMesh(dsGmshParse::GmshLoader);
+      if (YY_CURRENT_BUFFER)
+      {
+        yy_delete_buffer( YY_CURRENT_BUFFER );
+      }
+      if (Gmshin)
+      {
+        fclose(Gmshin);
+        Gmshin = nullptr;
+      }
+      while (yy_start_stack_ptr > 0)
+      {
+        yy_pop_state();
+      }
+      BEGIN(INITIAL);
+      dsGmshParse::DeletePointers();
+      dsGmshParse::GmshLoader = nullptr;
+      if (!success)
+      {
+        dsMesh::MeshKeeper::GetInstance().DeleteMesh(meshName);
+      }
     }
 
+    bool success = false;
+
+  private:
+    std::string meshName;
+};
+}
+
+bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, std::string &errorString)
+{
+    bool ret = false;
+
+    LoadGuard guard(meshName);
+
     Gmshin = fopen(fname.c_str(), "r");
 
     int retval = 1;
@@ -147,15 +178,20 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
     {
         Gmsh_switch_to_buffer(Gmsh_create_buffer( Gmshin, YY_BUF_SIZE ) );
 	retval = Gmshparse();
-	yy_delete_buffer( YY_CURRENT_BUFFER );
+        if (!retval && yy_start_stack_ptr > 0)
+        {
+            retval = 1;
+            std::ostringstream os;
+            os << "Unexpected end of file " << fname << "\n";
+            errorString += os.str();
+        }
     }
 
 
     ret = !retval;
 
-    dsGmshParse::DeletePointers();
+    guard.success = ret;
     errorString += dsGmshParse::errors;
-    dsGmshParse::GmshLoader = NULL;
     return ret;
 }
 }
-- 
2.43.0


From 834047b47ac930440ba6cf23de44c62c0f1ee79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 53/89] fix: arguments that cannot be converted to text or
 lists are refused

---
 src/common_api/ObjectHolder.hh |  2 +
 src/pythonapi/GetArgs.cc       |  6 +++
 src/pythonapi/ObjectHolder.cc  | 99 ++++++++++++++++++++++++++--------
 3 files changed, 85 insertions(+), 22 deletions(-)

diff --git a/src/common_api/ObjectHolder.hh b/src/common_api/ObjectHolder.hh
index 6f2b5b8..99de39b 100644
--- a/src/common_api/ObjectHolder.hh
+++ b/src/common_api/ObjectHolder.hh
@@ -56,6 +56,8 @@ class ObjectHolder {
     typedef std::pair<bool, bool>      BooleanEntry_t;
     typedef std::pair<bool, int>       IntegerEntry_t;
     typedef std::pair<bool, ptrdiff_t> LongEntry_t;
+    typedef std::pair<bool, std::string> StringEntry_t;
+    StringEntry_t  GetStringEntry() const;
     DoubleEntry_t  GetDouble() const;
     BooleanEntry_t GetBoolean() const;
     IntegerEntry_t GetInteger() const;
diff --git a/src/pythonapi/GetArgs.cc b/src/pythonapi/GetArgs.cc
index 0041302..233e92e 100644
--- a/src/pythonapi/GetArgs.cc
+++ b/src/pythonapi/GetArgs.cc
@@ -91,6 +91,12 @@ bool GetArgs::processOptions(CommandInfo &tdata, std::string &error)
           }
           else if (type == optionType::STRING)
           {
+            if (!toh.GetStringEntry().first)
+            {
+              notConvertibleToType(commandName, optname, optionType::STRING, toh, error);
+              status = true;
+              break;
+            }
           }
           else
           {
diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 97a6e38..28c21a5 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -121,44 +121,76 @@ ObjectHolder::ObjectHolder(bool tval)
 namespace {
 
 //https://stackoverflow.com/questions/5356773/python-get-string-representation-of-pyobject
-std::string GetStringFromStringObject(PyObject *obj)
+//// false if the object is not text that can be represented
+bool GetStringFromStringObject(PyObject *obj, std::string &ret)
 {
   EnsurePythonGIL gil;
 
-  std::string ret;
-  if (PyUnicode_CheckExact(obj))
+  ret.clear();
+
+  ObjectHolder bytes;
+  if (PyUnicode_Check(obj))
   {
-    PyObject *sobj = PyUnicode_AsUTF8String(obj);
-    ret = PyBytes_AsString(sobj);
-    Py_DECREF(sobj);
+    bytes = ObjectHolder(PyUnicode_AsUTF8String(obj));
   }
   else if (PyBytes_CheckExact(obj))
   {
-    ret = PyBytes_AsString(obj);
+    ObjectHolder text(PyUnicode_FromEncodedObject(obj, "utf-8", "strict"));
+    if (!text.empty())
+    {
+      Py_INCREF(obj);
+      bytes = ObjectHolder(reinterpret_cast<void *>(obj));
+    }
   }
-  return ret;
+
+  char      *data   = nullptr;
+  Py_ssize_t length = 0;
+  bool ok = !bytes.empty() && (PyBytes_AsStringAndSize(reinterpret_cast<PyObject *>(bytes.GetObject()), &data, &length) != -1);
+  PyErr_Clear();
+
+  if (ok)
+  {
+    ret.assign(data, length);
+    ok = (ret.find('\0') == std::string::npos);
+    if (!ok)
+    {
+      ret.clear();
+    }
+  }
+  return ok;
 }
 
 }
 
-std::string ObjectHolder::GetString() const
+ObjectHolder::StringEntry_t ObjectHolder::GetStringEntry() const
 {
   EnsurePythonGIL gil;
 
+  bool ok = false;
   std::string ret;
   if (object_)
   {
     PyObject *obj = reinterpret_cast<PyObject *>(object_);
-    ret = GetStringFromStringObject(obj);
-
-    if (ret.empty())
+    if (PyUnicode_CheckExact(obj) || PyBytes_CheckExact(obj))
     {
-      PyObject *strobj = PyObject_Str(obj);
-      ret = GetStringFromStringObject(strobj);
-      Py_DECREF(strobj);
+      ok = GetStringFromStringObject(obj, ret);
+    }
+    else
+    {
+      ObjectHolder strobj(PyObject_Str(obj));
+      PyErr_Clear();
+      if (!strobj.empty())
+      {
+        ok = GetStringFromStringObject(reinterpret_cast<PyObject *>(strobj.GetObject()), ret);
+      }
     }
   }
-  return ret;
+  return std::make_pair(ok, ret);
+}
+
+std::string ObjectHolder::GetString() const
+{
+  return GetStringEntry().second;
 }
 
 ObjectHolder::DoubleEntry_t ObjectHolder::GetDouble() const
@@ -202,6 +234,7 @@ ObjectHolder::BooleanEntry_t ObjectHolder::GetBoolean() const
   {
     PyObject *obj = reinterpret_cast<PyObject *>(object_);
     int ret = PyObject_IsTrue(obj);
+    PyErr_Clear();
     if (ret != -1)
     {
       ok  = true;
@@ -316,15 +349,26 @@ bool ObjectHolder::GetListOfObjects(ObjectHolderList_t &objs) const
   PyObject *obj = reinterpret_cast<PyObject *>(object_);
   if (obj && PySequence_Check(obj))
   {
-    ok = true;
-    size_t len = PySequence_Size(obj);
-    objs.resize(len);
-    for (size_t i = 0; i < len; ++i)
+    const Py_ssize_t len = PySequence_Size(obj);
+    ok = (len != -1);
+    for (Py_ssize_t i = 0; ok && (i < len); ++i)
     {
       //// this is a new reference
       PyObject *lobj = PySequence_GetItem(obj, i);
       //Py_INCREF(lobj);
-      objs[i] = ObjectHolder(lobj);
+      if (lobj)
+      {
+        objs.push_back(ObjectHolder(lobj));
+      }
+      else
+      {
+        ok = false;
+      }
+    }
+    if (!ok)
+    {
+      PyErr_Clear();
+      objs.clear();
     }
   }
 
@@ -438,6 +482,7 @@ void GetArrayInfo(const ObjectHolder &input, std::string &typecode, long &itemsi
       }
     }
 
+    PyErr_Clear();
     if (bytecall.IsCallable())
     {
       bytes = ObjectHolder(PyObject_CallObject(reinterpret_cast<PyObject *>(bytecall.GetObject()), nullptr));
@@ -585,7 +630,17 @@ bool ObjectHolder::GetStringList(std::vector<std::string> &values) const
     ok = true;
     for (size_t i = 0; i < objs.size(); ++i)
     {
-      values[i] = objs[i].GetString();
+      const auto &ent = objs[i].GetStringEntry();
+      if (ent.first)
+      {
+        values[i] = ent.second;
+      }
+      else
+      {
+        values.clear();
+        ok = false;
+        break;
+      }
     }
   }
   return ok;
-- 
2.43.0


From aa48c420222fde852c875b0dcd46eb0537854773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 54/89] fix: commands refuse mesh positions, spacings and node
 values that are not a number

---
 src/commands/CheckFunctions.cc  | 17 ++++++++++++++-
 src/commands/CheckFunctions.hh  |  1 +
 src/commands/CircuitCommands.cc |  2 +-
 src/commands/MeshingCommands.cc | 38 ++++++++++++++++-----------------
 4 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/commands/CheckFunctions.cc b/src/commands/CheckFunctions.cc
index 1e536cb..33bcf4e 100644
--- a/src/commands/CheckFunctions.cc
+++ b/src/commands/CheckFunctions.cc
@@ -11,6 +11,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "MeshKeeper.hh"
 #include "Mesh1d.hh"
 #include "Validate.hh"
+#include <cmath>
 #include <sstream>
 namespace dsCommand {
 
@@ -20,7 +21,7 @@ bool mustBePositive(const std::string &optionName, std::string &errorString, con
 
     const double dval = args.GetDoubleOption(optionName);
 
-    if (dval <= 0)
+    if (std::isnan(dval) || (dval <= 0))
     {
         std::ostringstream os;
         os << "-" << optionName << " must be greater than 0.0\n";
@@ -31,6 +32,20 @@ bool mustBePositive(const std::string &optionName, std::string &errorString, con
     return ret;
 }
 
+bool mustBeNumber(const std::string &optionName, std::string &errorString, const CommandHandler &args)
+{
+    bool ret = true;
+
+    if (std::isnan(args.GetDoubleOption(optionName)))
+    {
+        std::ostringstream os;
+        os << "-" << optionName << " must be a number\n";
+        errorString += os.str();
+        ret = false;
+    }
+
+    return ret;
+}
 
 bool stringCannotBeEmpty(const std::string &optionName, std::string &errorString, const CommandHandler &args)
 {
diff --git a/src/commands/CheckFunctions.hh b/src/commands/CheckFunctions.hh
index 7a9f9db..6e23b2d 100644
--- a/src/commands/CheckFunctions.hh
+++ b/src/commands/CheckFunctions.hh
@@ -14,6 +14,7 @@ class GetArgs;
 class CommandHandler;
 namespace dsCommand {
 bool mustBePositive(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
+bool mustBeNumber(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool stringCannotBeEmpty(const std::string &/*optionName*/,std::string &/*errorString*/, const CommandHandler &);
 bool meshCannotExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool meshMustExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 6a6fc40..adacdd7 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -65,7 +65,7 @@ void addCircuitNodeCmd(CommandHandler &data)
     {
         {"name",          "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"variable_update",      "default", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL},
-        {"value",                "0.0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL},
+        {"value",                "0.0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL}
     };
 
diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 0a23fe4..bf3bf94 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -185,9 +185,9 @@ add1dMeshLineCmd(CommandHandler &data)
     static dsGetArgs::Option option[] = {
         {"mesh",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
         {"tag",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, nullptr},
+        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeNumber},
 /// this will default to plus spacing
-        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {"ps",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBePositive},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
@@ -246,9 +246,9 @@ add2dMeshLineCmd(CommandHandler &data)
     using namespace dsGetArgs;
     static dsGetArgs::Option option[] = {
         {"mesh",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
-        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, nullptr},
+        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeNumber},
 /// this will default to plus spacing
-        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {"ps",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBePositive},
         {"dir",    "",  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, nullptr},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
@@ -414,11 +414,11 @@ add2dInterfaceCmd(CommandHandler &data)
         {"name",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region0",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region1",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {nullptr,  nullptr,  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
 
@@ -484,11 +484,11 @@ add2dContactCmd(CommandHandler &data)
         {"name",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"material", "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region",  "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {nullptr,  nullptr,  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
 
@@ -590,11 +590,11 @@ add2dRegionCmd(CommandHandler &data)
         {"mesh",     "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
         {"region",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"material", "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL, nullptr}
     };
 
-- 
2.43.0


From 73d774d0209377fd1fdfca15448f62c1148089b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 55/89] fix: a gmsh mesh description that is refused leaves no
 mesh behind and is checked to its end

---
 src/meshing/GmshReader.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index 47e217a..8b3e19f 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -8,6 +8,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "GmshReader.hh"
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
+#include <memory>
 #include <sstream>
 
 namespace dsGmshParse {
@@ -24,9 +25,8 @@ void DeletePointers()
 
 bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &coordinates, const std::vector<std::string> &physical_names, const std::vector<size_t> &elements, std::string &errorString)
 {
-  dsMesh::GmshLoaderPtr gmshLoaderp = new dsMesh::GmshLoader(meshName);
-  dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-  mk.AddMesh(gmshLoaderp);
+  //// registered once the description has been found to be consistent
+  auto gmshLoaderp = std::make_unique<dsMesh::GmshLoader>(meshName);
 
   dsMesh::GmshLoader &gmshLoader = *gmshLoaderp;
 
@@ -83,7 +83,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
       errorString = os.str();
       return false;
     }
-    else if ((eeindex + nodes_to_get + 1) > element_vec_len)
+    else if ((eeindex + nodes_to_get + 2) > element_vec_len)
     {
       std::ostringstream os;
       os << "ERROR: element list indexing error on element " << element_count << "\n";
@@ -93,7 +93,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     size_t physical_number = elements[eeindex + 1];
 
-    if (physical_number > physical_names.size())
+    if (physical_number >= physical_names.size())
     {
       std::ostringstream os;
       os << "ERROR: element physical index " << physical_number << " must be less than number of physical_names " << physical_names.size() <<  " on element " << element_count << " on position " << eeindex + 1 << "\n";
@@ -150,6 +150,8 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
     }
   }
 
+  dsMesh::MeshKeeper::GetInstance().AddMesh(gmshLoaderp.release());
+
   return true;
 }
 }
-- 
2.43.0


From f769d7bba0e9369320aed78f4cbf36f061356020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 56/89] fix: an option with an empty name is refused

---
 src/pythonapi/GetArgs.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pythonapi/GetArgs.cc b/src/pythonapi/GetArgs.cc
index 233e92e..3b48f66 100644
--- a/src/pythonapi/GetArgs.cc
+++ b/src/pythonapi/GetArgs.cc
@@ -30,7 +30,13 @@ bool GetArgs::processOptions(CommandInfo &tdata, std::string &error)
   for (ObjectHolderMap_t::iterator it = hashmap.begin(); it != hashmap.end(); ++it)
   {
     const std::string &optname = it->first;
-    if (!optname.empty())
+    if (optname.empty())
+    {
+      error = "an option without a name is invalid\n";
+      status = true;
+      break;
+    }
+    else
     {
       if (optionMap.count(optname))
       {
-- 
2.43.0


From 3083a8673cfb70eb1509638ba6446e8809ee4927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 57/89] fix: another box for a named item of a 2d mesh is added
 to it

---
 src/commands/MeshingCommands.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index bf3bf94..31f31e1 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -462,9 +462,9 @@ add2dInterfaceCmd(CommandHandler &data)
         else
         {
             dsMesh::MeshInterface2dPtr ip(new dsMesh::MeshInterface2d(name, region0Name, region1Name));
-            m2dp->AddInterface(ip);
             dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
             ip->AddBoundingBox(bb);
+            m2dp->AddInterface(ip);
             data.SetEmptyResult();
         }
     }
@@ -523,9 +523,9 @@ add2dContactCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshContact2dPtr cp(new dsMesh::MeshContact2d(name, materialName, regionName));
-        m2dp->AddContact(cp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         cp->AddBoundingBox(bb);
+        m2dp->AddContact(cp);
         data.SetEmptyResult();
     }
 }
@@ -628,9 +628,9 @@ add2dRegionCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshRegion2dPtr rp(new dsMesh::MeshRegion2d(regionName, materialName));
-        m2dp->AddRegion(rp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         rp->AddBoundingBox(bb);
+        m2dp->AddRegion(rp);
         data.SetEmptyResult();
     }
 }
-- 
2.43.0


From 6abffd488ee6ea900d67209a826cced232f41c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 58/89] fix: the surface area of a 1d region counts its own
 contacts and interfaces

---
 src/GeomModels/SurfaceArea.cc | 40 ++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index 23d6082..28c3c7b 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -75,30 +75,40 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
 
     const Device &device = *GetRegion().GetDevice();
 
-    const Device::CoordinateIndexToInterface_t &cti = device.GetCoordinateIndexToInterface();
-    const Device::CoordinateIndexToContact_t   &ctc = device.GetCoordinateIndexToContact();
-
-
     const ConstNodeList &nl = GetRegion().GetNodeList();
 
     std::vector<DoubleType> nv(nl.size());
     std::vector<DoubleType> ca(nl.size());
 
-    for (ConstNodeList::const_iterator it = nl.begin(); it != nl.end(); ++it)
+    // only the contacts and interfaces of this region count
+    const DoubleType length = 1.0;
+    for (const auto &it : device.GetContactList())
     {
-        const Node &node = *(*it);
-        const size_t ci  = node.GetCoordinate().GetIndex();
-        const size_t ni  = node.GetIndex();
-
-        if (cti.count(ci))
+        const ConstContactPtr cp = it.second;
+        if (cp && (cp->GetRegion() == &GetRegion()))
+        {
+            for (const auto &node : cp->GetNodes())
+            {
+                ca[node->GetIndex()] = length;
+            }
+        }
+    }
+    for (const auto &it : device.GetInterfaceList())
+    {
+        const ConstInterfacePtr ip = it.second;
+        if (ip && (ip->GetRegion0() == &GetRegion()))
         {
-            const DoubleType length = 1.0;
-            nv[ni] += length;
+            for (const auto &node : ip->GetNodes0())
+            {
+                nv[node->GetIndex()] = length;
+            }
         }
-        if (ctc.count(ci))
+        if (ip && (ip->GetRegion1() == &GetRegion()))
         {
-            const DoubleType length = 1.0;
-            ca[ni] += length;
+            for (const auto &node : ip->GetNodes1())
+            {
+                nv[node->GetIndex()] = length;
+            }
         }
     }
     SetValues(nv);
-- 
2.43.0


From f829402ce8e97058826ec7d63ec08398ead1ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 59/89] fix: a 1d mesh that was refused can be corrected and
 finalized; names of regions and contacts are unique

---
 src/meshing/Mesh1d.cc | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/meshing/Mesh1d.cc b/src/meshing/Mesh1d.cc
index 04d986b..23d5427 100644
--- a/src/meshing/Mesh1d.cc
+++ b/src/meshing/Mesh1d.cc
@@ -56,6 +56,14 @@ void Mesh1d::SetLocationsAndTags()
 {
     dsAssert(!points.empty(), "UNEXPECTED");
 
+    //// an earlier attempt to finalize the mesh may have failed
+    locations.clear();
+    tagsToIndices.clear();
+    indicesToTags.clear();
+    indexToInterfaceIndex.clear();
+    indexToRegionIndex.clear();
+    indexToContactIndex.clear();
+
     sort(points.begin(), points.end());
 
     double xl = points[0].getPosition();
@@ -117,7 +125,7 @@ struct RegionSort
     {
         dsAssert(r0.GetIndex0() < r0.GetIndex1(), "UNEXPECTED");
         dsAssert(r1.GetIndex0() < r1.GetIndex1(), "UNEXPECTED");
-        return (r0.GetIndex0() < r1.GetIndex1());
+        return (r0.GetIndex0() < r1.GetIndex0());
     }
 };
 }
@@ -142,6 +150,13 @@ bool Mesh1d::SanityCheckingAndSetInterfaceIndices(std::string &errorString)
             break;
         }
 
+        if (contacts[0].GetName() == contacts[1].GetName())
+        {
+            ret = false;
+            os << "Contact name " << contacts[0].GetName() << " can only be used once in a mesh\n";
+            break;
+        }
+
         dsAssert(tagsToIndices.count(contacts[0].GetTag()) != 0, "UNEXPECTED");
         dsAssert(tagsToIndices.count(contacts[1].GetTag()) != 0, "UNEXPECTED");
         size_t pos0 = tagsToIndices[contacts[0].GetTag()];
@@ -219,8 +234,16 @@ bool Mesh1d::SanityCheckingAndSetInterfaceIndices(std::string &errorString)
 
     //// Assume that every point in the mesh has to be colored with a region
     size_t cpos = 0;
+    std::set<std::string> regionNames;
     for (size_t i = 0; i < regions.size(); ++i)
     {
+        if (!regionNames.insert(regions[i].GetName()).second)
+        {
+            ret = false;
+            os << "Region name " << regions[i].GetName() << " can only be used once in a mesh\n";
+            break;
+        }
+
         size_t i0 = regions[i].GetIndex0();
         size_t i1 = regions[i].GetIndex1();
 
-- 
2.43.0


From dc0219971a1e9664d3cd636b8205c805bdac6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 60/89] fix: mesh line positions and spacings that cannot be
 meshed are refused; no sliver next to the last interval

---
 src/commands/CheckFunctions.cc  | 15 +++++++++++++++
 src/commands/CheckFunctions.hh  |  1 +
 src/commands/MeshingCommands.cc |  4 ++--
 src/meshing/MeshUtil.cc         |  4 +++-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/commands/CheckFunctions.cc b/src/commands/CheckFunctions.cc
index 33bcf4e..e61dcd8 100644
--- a/src/commands/CheckFunctions.cc
+++ b/src/commands/CheckFunctions.cc
@@ -47,6 +47,21 @@ bool mustBeNumber(const std::string &optionName, std::string &errorString, const
     return ret;
 }
 
+bool mustBeFinite(const std::string &optionName, std::string &errorString, const CommandHandler &args)
+{
+    bool ret = true;
+
+    if (!std::isfinite(args.GetDoubleOption(optionName)))
+    {
+        std::ostringstream os;
+        os << "-" << optionName << " must be finite\n";
+        errorString += os.str();
+        ret = false;
+    }
+
+    return ret;
+}
+
 bool stringCannotBeEmpty(const std::string &optionName, std::string &errorString, const CommandHandler &args)
 {
     bool ret = true;
diff --git a/src/commands/CheckFunctions.hh b/src/commands/CheckFunctions.hh
index 6e23b2d..86172cf 100644
--- a/src/commands/CheckFunctions.hh
+++ b/src/commands/CheckFunctions.hh
@@ -15,6 +15,7 @@ class CommandHandler;
 namespace dsCommand {
 bool mustBePositive(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool mustBeNumber(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
+bool mustBeFinite(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool stringCannotBeEmpty(const std::string &/*optionName*/,std::string &/*errorString*/, const CommandHandler &);
 bool meshCannotExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool meshMustExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 31f31e1..60b3e4c 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -185,7 +185,7 @@ add1dMeshLineCmd(CommandHandler &data)
     static dsGetArgs::Option option[] = {
         {"mesh",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
         {"tag",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeNumber},
+        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeFinite},
 /// this will default to plus spacing
         {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {"ps",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBePositive},
@@ -246,7 +246,7 @@ add2dMeshLineCmd(CommandHandler &data)
     using namespace dsGetArgs;
     static dsGetArgs::Option option[] = {
         {"mesh",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
-        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeNumber},
+        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeFinite},
 /// this will default to plus spacing
         {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {"ps",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBePositive},
diff --git a/src/meshing/MeshUtil.cc b/src/meshing/MeshUtil.cc
index 8ec4d1a..eec7da2 100644
--- a/src/meshing/MeshUtil.cc
+++ b/src/meshing/MeshUtil.cc
@@ -25,6 +25,7 @@ pts_t equidistance(double xl, double xh, double sl)
     while (x < xh)
     {
         x += sl;
+        dsAssert(x > ret.back(), "mesh line spacing is too small for the position of the mesh line");
         if (x > (xh - tolerance))
         {
             x = xh;
@@ -48,13 +49,14 @@ pts_t variable(double xl, double xh, double sl, double sh)
     for (size_t i = 0; x < xh; ++i)
     {
         x += sl*pow(r, int(i));
+        dsAssert(x > ret.back(), "mesh line spacing is too small for the position of the mesh line");
         if (x > (xh - tolerance))
         {
             x = xh;
 
             /// need to have at least one pt with the minimum spacing
             double tpos = x - sh;
-            if (ret.back() < tpos)
+            if (ret.back() < (tpos - tolerance))
             {
                 ret.push_back(tpos);
             }
-- 
2.43.0


From 7dd6f26aeceb31eb7f57275b34d174719f2a2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 61/89] fix: a device that cannot be created from its mesh
 leaves nothing behind

---
 src/commands/MeshingCommands.cc | 13 ++++++++++++-
 src/meshing/GmshLoader.cc       | 25 +++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 60b3e4c..15a7c42 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -663,9 +663,20 @@ createDeviceCmd(CommandHandler &data)
     dsMesh::MeshKeeper &mdata = dsMesh::MeshKeeper::GetInstance();
     dsMesh::MeshPtr mp = mdata.GetMesh(meshName);
 
-    bool ret = mp->Instantiate(deviceName, errorString);
+    bool ret = false;
+    try
+    {
+      ret = mp->Instantiate(deviceName, errorString);
+    }
+    catch (...)
+    {
+      GlobalData::GetInstance().DeleteDevice(deviceName);
+      throw;
+    }
     if (!ret)
     {
+      //// do not leave a partial device behind
+      GlobalData::GetInstance().DeleteDevice(deviceName);
       data.SetErrorResult(errorString);
       return;
     }
diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 6d0ec95..5564c74 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -262,7 +262,7 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
   std::map<std::string, std::vector<NodePtr> > RegionNameToNodeMap;
 
   //// For each name in the region map, we create a list of nodes which are indexes
-  [this, &RegionNameToNodeMap, dp, &coordinate_list]()
+  [this, &RegionNameToNodeMap, dp, &coordinate_list, &ret]()
   {
     MeshNodeList_t        mesh_nodes;
     MeshTetrahedronList_t mesh_tetrahedra;
@@ -304,6 +304,14 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
       std::vector<NodePtr> &nodeList = RegionNameToNodeMap[regionName];
       processNodes(mesh_nodes, coordinate_list, nodeList);
 
+      if (mesh_nodes.empty())
+      {
+        std::ostringstream os;
+        os << "Region " << regionName << " does not reference any nodes.\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+        ret = false;
+      }
+
       size_t ncount = 0;
       for (std::vector<NodePtr>::const_iterator nit = nodeList.begin(); nit != nodeList.end(); ++nit)
       {
@@ -457,6 +465,10 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
       }
 
       // All of our contact nodes should exist
+      if (cnodes.size() != mesh_nodes.size())
+      {
+        continue;
+      }
       ConstNodePtr mesh_edge_nodes[2];
       for (MeshEdgeList_t::const_iterator tnit = mesh_edges.begin(); tnit != mesh_edges.end(); ++tnit)
       {
@@ -641,7 +653,11 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         continue;
       }
 
-      // All of our contact nodes should exist
+      // All of our interface nodes should exist
+      if (inodes[0].size() != mesh_nodes.size())
+      {
+        continue;
+      }
       ConstNodePtr mesh_edge_nodes[2];
       for (MeshEdgeList_t::const_iterator tnit = mesh_edges.begin(); tnit != mesh_edges.end(); ++tnit)
       {
@@ -700,6 +716,11 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
   }();
 
 
+  if (!ret)
+  {
+    errorString += "Check log for errors.\n";
+  }
+
   //// Create the device
   //// Add the device
 
-- 
2.43.0


From 9db6341a2de3cd90707874a117baf3514ff4723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 62/89] fix: elements of a mesh refer to coordinates that exist

---
 src/meshing/GmshReader.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index 8b3e19f..6058ba5 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -116,7 +116,15 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     for (size_t i = 0; i < nodes_to_get; ++i)
     {
-      node_indexes[i] = elements[eeindex + i + 2];
+      const size_t node_index = elements[eeindex + i + 2];
+      if (node_index >= num_coords)
+      {
+        std::ostringstream os;
+        os << "ERROR: element node index " << node_index << " must be less than number of coordinates " << num_coords <<  " on element " << element_count << "\n";
+        errorString = os.str();
+        return false;
+      }
+      node_indexes[i] = static_cast<int>(node_index);
     }
 
     gmshLoader.AddElement(dsMesh::GmshElement(element_count, physical_number, element_type, node_indexes));
-- 
2.43.0


From 9015423858b891fea36f43b4388373772ee41b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 63/89] fix: an interface from nodes needs a new name

---
 src/commands/MeshingCommands.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 15a7c42..5a75885 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -1271,6 +1271,15 @@ void createInterfaceFromNodesCmd(CommandHandler &data)
       return;
   }
 
+  if (dev->GetInterface(name))
+  {
+    std::ostringstream os;
+    os << onInterfaceonDevice(name, deviceName) << " already exists.\n";
+    errorString = os.str();
+    data.SetErrorResult(errorString);
+    return;
+  }
+
   std::vector<size_t> nodes[2];
   for (size_t i = 0; i < 2; ++i)
   {
-- 
2.43.0


From eb7cf022efbd66c364f62b155a2061443ae4b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 64/89] fix: both sides of an interface within one region have
 surface area

---
 src/GeomModels/CylindricalSurfaceArea.cc | 2 +-
 src/GeomModels/SurfaceArea.cc            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GeomModels/CylindricalSurfaceArea.cc b/src/GeomModels/CylindricalSurfaceArea.cc
index 5551090..0795bf1 100644
--- a/src/GeomModels/CylindricalSurfaceArea.cc
+++ b/src/GeomModels/CylindricalSurfaceArea.cc
@@ -204,7 +204,7 @@ void CylindricalSurfaceArea<DoubleType>::calcCylindricalSurfaceArea2d() const
           edge_list.push_back(*tit);
         }
       }
-      else if (ip->GetRegion1() == &region)
+      if (ip->GetRegion1() == &region)
       {
         const ConstEdgeList_t &temp_edge_list = ip->GetEdges1();
         for (ConstEdgeList_t::const_iterator tit = temp_edge_list.begin(); tit != temp_edge_list.end(); ++tit)
diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index 28c3c7b..897344e 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -175,7 +175,7 @@ void SurfaceArea<DoubleType>::calcSurfaceArea2d() const
           interface_edge_list.push_back(*tit);
         }
       }
-      else if (ip->GetRegion1() == &region)
+      if (ip->GetRegion1() == &region)
       {
         const ConstEdgeList_t &temp_edge_list = ip->GetEdges1();
         for (ConstEdgeList_t::const_iterator tit = temp_edge_list.begin(); tit != temp_edge_list.end(); ++tit)
@@ -263,7 +263,7 @@ void SurfaceArea<DoubleType>::calcSurfaceArea3d() const
           interface_triangle_list.push_back(*tit);
         }
       }
-      else if (ip->GetRegion1() == &region)
+      if (ip->GetRegion1() == &region)
       {
         const ConstTriangleList_t &temp_triangle_list = ip->GetTriangles1();
         for (ConstTriangleList_t::const_iterator tit = temp_triangle_list.begin(); tit != temp_triangle_list.end(); ++tit)
-- 
2.43.0


From 3a072cb0e3a795c7f3c9b85b0f8cc055a17132c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 65/89] fix: cylindrical node volume of triangles with their
 apex outside of the other side's radius

---
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index c789501..8469821 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -116,18 +116,12 @@ namespace {
 template <typename DoubleType>
 DoubleType calcCylindricalTriangleVolumeFlat(DoubleType r0, DoubleType z0, DoubleType r1, DoubleType z1, DoubleType r2)
 {
-  DoubleType ret = 0.0;
   const DoubleType z = abs(z1 - z0);
-  const DoubleType r20_2 = pow((r2 - r0), 2.0);
-  const DoubleType r10_2 = pow((r1 - r0), 2.0);
-
-  ret = abs(r20_2 - r10_2) * z / 3.0;
-
+  // area of the triangle times the distance traveled by its centroid
   const DoubleType r21 = abs(r2 - r1);
-  ret += r21 * r0 * z;
-  ret *= M_PI;
+  const DoubleType r = abs(r0 + r1 + r2) / 3.0;
 
-  return ret;
+  return M_PI * r * r21 * z;
 }
 
 // Calc volume of arbitrary triangle swept around z axis
-- 
2.43.0


From 19453f0a547002a282f0f489b33fd9f9cdfcdb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 66/89] fix: CylindricalEdgeNodeVolume@n0 keeps its values

---
 src/GeomModels/CylindricalEdgeNodeVolume.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/GeomModels/CylindricalEdgeNodeVolume.cc b/src/GeomModels/CylindricalEdgeNodeVolume.cc
index 4ef4b34..8666b64 100644
--- a/src/GeomModels/CylindricalEdgeNodeVolume.cc
+++ b/src/GeomModels/CylindricalEdgeNodeVolume.cc
@@ -43,9 +43,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
 
   dsAssert(dimension == 2, "CylindricalEdgeNodeVolume 2d Only");
 
-  std::vector<DoubleType> nv(r.GetNumberNodes());
-
-
   if (dimension == 2)
   {
     const Region &region = GetRegion();
@@ -67,8 +64,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
   {
     dsAssert(false, "UNEXPECTED");
   }
-
-  SetValues(nv);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From 54ee2089057bc944611a300ff2e3f8a398f7b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:30 +0000
Subject: [PATCH 67/89] fix: vtk files keep the last block of data when it is
 full

---
 src/utility/base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/base64.cc b/src/utility/base64.cc
index 6fd1e43..c51740c 100644
--- a/src/utility/base64.cc
+++ b/src/utility/base64.cc
@@ -98,7 +98,7 @@ template <typename T> std::string convertVectorToZlibBase64(const std::vector<T>
   for (size_t i = 0; i < numberOfBlocks; ++i)
   {
     size_t inputLength = maxLength;
-    if (i == (numberOfBlocks - 1))
+    if (i == numberOfFullBlocks)
     {
       inputLength = sizeof(T) * numberTInPartialBlock;
     }
-- 
2.43.0


From 9e1c83b67a2e8f860653581f467b2c7c2c9a69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:30 +0000
Subject: [PATCH 68/89] fix: include_test applies to vector and tetrahedron
 models in vtk files

---
 src/meshing/VTKWriter.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index 478b64d..faa08dd 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -158,6 +158,11 @@ void WritePointData(const Region &reg, MeshWriterTest_t include_test, std::ostre
       const std::string &nm = it->first;
       const EdgeModel &em = *(it->second);
 
+      if (!include_test(nm))
+      {
+        continue;
+      }
+
       if (em.GetDisplayType() == EdgeModel::DisplayType::VECTOR)
       {
         const NodeVectorList<double> &nvl = em.GetVectorValuesOnNodes<double>();
@@ -239,6 +244,11 @@ void WriteElementData(const Region &reg, MeshWriterTest_t include_test, std::ost
       const std::string &nm = it->first;
       const TetrahedronEdgeModel &em = *(it->second);
 
+      if (!include_test(nm))
+      {
+        continue;
+      }
+
       std::vector<double> nsl;
       if (em.GetDisplayType() == TetrahedronEdgeModel::DisplayType::SCALAR)
       {
-- 
2.43.0


From b346562f8ff6564a4c6f10d8e577a154ccb9c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:30 +0000
Subject: [PATCH 69/89] fix: tecplot files of a device whose regions display a
 model differently

---
 src/meshing/TecplotWriter.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index 59f5bfa..9f539e6 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -272,8 +272,6 @@ void WriteEdgeBlockVector(std::ostream &myfile, const Region &reg, const std::st
   /// TODO: make sure it is the same type in each region
   if (emp)
   {
-    dsAssert(emp->GetDisplayType() == EdgeModel::DisplayType::VECTOR, "UNEXPECTED");
-
     const NodeVectorList<double> &values = emp->GetVectorValuesOnNodes<double>();
     dsAssert(values.size() > 0, "UNEXPECTED");
 
-- 
2.43.0


From 6daf1d34e2e24a98f1d3448cfe92622afc00f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:47 +0000
Subject: [PATCH 70/89] fix: an include_test that fails for a model is reported

---
 src/meshing/MeshWriter.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/meshing/MeshWriter.cc b/src/meshing/MeshWriter.cc
index a456228..c78bf77 100644
--- a/src/meshing/MeshWriter.cc
+++ b/src/meshing/MeshWriter.cc
@@ -7,13 +7,14 @@ SPDX-License-Identifier: Apache-2.0
 
 #include "MeshWriter.hh"
 #include "Interpreter.hh"
+#include <memory>
 
 MeshWriter::~MeshWriter() {}
 
 class MeshWriterTestFunctor {
 
     public:
-        MeshWriterTestFunctor(ObjectHolder oh) : object_holder_(oh), call_function_(false)
+        MeshWriterTestFunctor(ObjectHolder oh) : object_holder_(oh), call_function_(false), error_(std::make_shared<std::string>())
         {
         }
 
@@ -63,10 +64,25 @@ class MeshWriterTestFunctor {
             {
                 auto x = interp.GetResult().GetBoolean();
                 ret = x.first && x.second;
+                if (!x.first)
+                {
+                    *error_ += "\"include_test\" does not return boolean for \"" + arg + "\"\n";
+                }
+            }
+            else
+            {
+                *error_ += "\"include_test\" failed for \"" + arg + "\"\n";
+                *error_ += interp.GetErrorString();
             }
             return ret;
         }
 
+        // errors of this test and of the copies made from it
+        const std::string &error() const
+        {
+            return *error_;
+        }
+
         bool operator()(const std::string &arg)
         {
             bool ret = true;
@@ -82,6 +98,7 @@ class MeshWriterTestFunctor {
     private:
         ObjectHolder object_holder_;
         bool         call_function_;
+        std::shared_ptr<std::string> error_;
 };
 
 bool MeshWriter::WriteMesh(const std::string &deviceName, const std::string &filename, ObjectHolder test, std::string &errorString)
@@ -91,6 +108,8 @@ bool MeshWriter::WriteMesh(const std::string &deviceName, const std::string &fil
     if (ret)
     {
         ret = this->WriteMesh_(deviceName, filename, test_functor, errorString);
+        errorString += test_functor.error();
+        ret = ret && test_functor.error().empty();
     }
     return ret;
 }
@@ -102,6 +121,8 @@ bool MeshWriter::WriteMeshes(const std::string &filename, ObjectHolder test, std
     if (ret)
     {
         ret = this->WriteMeshes_(filename, test_functor, errorString);
+        errorString += test_functor.error();
+        ret = ret && test_functor.error().empty();
     }
     return ret;
 }
-- 
2.43.0


From 8f9e12bfb959d417dc228aa0d414757dd4451ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:47 +0000
Subject: [PATCH 71/89] fix: names are escaped in vtk files

---
 src/meshing/VTKWriter.cc | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index faa08dd..3d29757 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -31,6 +31,33 @@ SPDX-License-Identifier: Apache-2.0
 
 namespace VTK {
 
+std::string EscapeXML(const std::string &text)
+{
+  std::string ret;
+  for (const char c : text)
+  {
+    switch (c)
+    {
+      case '&':
+        ret += "&amp;";
+        break;
+      case '<':
+        ret += "&lt;";
+        break;
+      case '>':
+        ret += "&gt;";
+        break;
+      case '"':
+        ret += "&quot;";
+        break;
+      default:
+        ret += c;
+        break;
+    }
+  }
+  return ret;
+}
+
 void WriteHeader(std::ostream &myfile)
 {
   myfile <<
@@ -54,7 +81,7 @@ void WriteDataArray(const std::vector<double> &nsl, const std::string &name, con
 
   if (!name.empty())
   {
-    myfile << " Name=\"" << name << "\"";
+    myfile << " Name=\"" << EscapeXML(name) << "\"";
   }
   if (number_components != 1)
   {
@@ -553,7 +580,7 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
         for (std::vector<std::string>::iterator it = vtufiles.begin(); it != vtufiles.end(); ++it)
         {
           vtmfile <<
-"    <DataSet group=\"" << i << "\" dataset=\"" << 0 << "\" file=\"" << *it << "\"/>\n";
+"    <DataSet group=\"" << i << "\" dataset=\"" << 0 << "\" file=\"" << EscapeXML(*it) << "\"/>\n";
           ++i;
           visitfile << *it << "\n";
         }
-- 
2.43.0


From b182ce332092a12d6a2fd73bd628e05df0cb19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:47 +0000
Subject: [PATCH 72/89] fix: vtk files list the files of the regions relative
 to their own directory

---
 src/meshing/VTKWriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index 3d29757..b3db4d1 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -564,7 +564,8 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
               os << "Could not write " << vtufilename << "\n";
               break;
           }
-          vtufiles.push_back(vtufilename);
+          // readers look for it in the directory of the file that lists it
+          vtufiles.push_back(vtufilename.substr(vtufilename.rfind('/') + 1));
         }
         ++i;
       }
-- 
2.43.0


From ad151a2d7d7ea783607f9df03381bf65c0a701a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 73/89] fix: a uniform extended value that rounds to zero or
 one is not taken for it

---
 src/models/ModelDataHolder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index a6d7dd6..d865e13 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -102,12 +102,20 @@ void ModelDataHolder::clear() const
 bool ModelDataHolder::IsZero() const
 {
   bool ret = is_uniform && (double_uniform_value == 0.0);
+#ifdef DEVSIM_EXTENDED_PRECISION
+  //// the double is the rounded extended value
+  ret = ret && (float128_uniform_value == 0.0);
+#endif
   return ret;
 }
 
 bool ModelDataHolder::IsOne() const
 {
   bool ret = is_uniform && (double_uniform_value == 1.0);
+#ifdef DEVSIM_EXTENDED_PRECISION
+  //// the double is the rounded extended value
+  ret = ret && (float128_uniform_value == 1.0);
+#endif
   return ret;
 }
 
-- 
2.43.0


From 32d1a826c2dad83bf2cdad5dc657e2dccb96522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 74/89] fix: the extended solver may be switched on or off
 between time steps

---
 src/math/TimeData.cc | 53 ++++++++++++++++++++++++++++++++++++++++++++
 src/math/TimeData.hh |  4 ++++
 2 files changed, 57 insertions(+)

diff --git a/src/math/TimeData.cc b/src/math/TimeData.cc
index a3563ee..e2dd725 100644
--- a/src/math/TimeData.cc
+++ b/src/math/TimeData.cc
@@ -17,6 +17,35 @@ template <>
 TimeData<float128> *TimeData<float128>::instance = 0;
 #endif
 
+#ifdef DEVSIM_EXTENDED_PRECISION
+namespace {
+template <typename DoubleType>
+struct OtherPrecision;
+
+template <>
+struct OtherPrecision<double>
+{
+  using type = float128;
+};
+
+template <>
+struct OtherPrecision<float128>
+{
+  using type = double;
+};
+
+template <typename T, typename U>
+void convert(const std::vector<U> &from, std::vector<T> &to)
+{
+  to.resize(from.size());
+  for (size_t i = 0; i < from.size(); ++i)
+  {
+    to[i] = static_cast<T>(from[i]);
+  }
+}
+}
+#endif
+
 template <typename DoubleType>
 TimeData<DoubleType>::TimeData() : IData(3), QData(3)
 {
@@ -48,36 +77,60 @@ template <typename DoubleType>
 void TimeData<DoubleType>::SetI(TimePoint_t tp, const std::vector<DoubleType> &v)
 {
   IData[static_cast<size_t>(tp)] = v;
+#ifdef DEVSIM_EXTENDED_PRECISION
+  auto &other = TimeData<typename OtherPrecision<DoubleType>::type>::GetInstance();
+  convert(v, other.IData[static_cast<size_t>(tp)]);
+#endif
 }
 
 template <typename DoubleType>
 void TimeData<DoubleType>::SetQ(TimePoint_t tp, const std::vector<DoubleType> &v)
 {
   QData[static_cast<size_t>(tp)] = v;
+#ifdef DEVSIM_EXTENDED_PRECISION
+  auto &other = TimeData<typename OtherPrecision<DoubleType>::type>::GetInstance();
+  convert(v, other.QData[static_cast<size_t>(tp)]);
+#endif
 }
 
 template <typename DoubleType>
 void TimeData<DoubleType>::CopyI(TimePoint_t fr, TimePoint_t to)
 {
   IData[static_cast<size_t>(to)] = IData[static_cast<size_t>(fr)];
+#ifdef DEVSIM_EXTENDED_PRECISION
+  auto &other = TimeData<typename OtherPrecision<DoubleType>::type>::GetInstance();
+  other.IData[static_cast<size_t>(to)] = other.IData[static_cast<size_t>(fr)];
+#endif
 }
 
 template <typename DoubleType>
 void TimeData<DoubleType>::CopyQ(TimePoint_t fr, TimePoint_t to)
 {
   QData[static_cast<size_t>(to)] = QData[static_cast<size_t>(fr)];
+#ifdef DEVSIM_EXTENDED_PRECISION
+  auto &other = TimeData<typename OtherPrecision<DoubleType>::type>::GetInstance();
+  other.QData[static_cast<size_t>(to)] = other.QData[static_cast<size_t>(fr)];
+#endif
 }
 
 template <typename DoubleType>
 void TimeData<DoubleType>::ClearI(TimePoint_t tp)
 {
   IData[static_cast<size_t>(tp)].clear();
+#ifdef DEVSIM_EXTENDED_PRECISION
+  auto &other = TimeData<typename OtherPrecision<DoubleType>::type>::GetInstance();
+  other.IData[static_cast<size_t>(tp)].clear();
+#endif
 }
 
 template <typename DoubleType>
 void TimeData<DoubleType>::ClearQ(TimePoint_t tp)
 {
   QData[static_cast<size_t>(tp)].clear();
+#ifdef DEVSIM_EXTENDED_PRECISION
+  auto &other = TimeData<typename OtherPrecision<DoubleType>::type>::GetInstance();
+  other.QData[static_cast<size_t>(tp)].clear();
+#endif
 }
 
 template <typename DoubleType>
diff --git a/src/math/TimeData.hh b/src/math/TimeData.hh
index 28756b9..65ec7f4 100644
--- a/src/math/TimeData.hh
+++ b/src/math/TimeData.hh
@@ -50,6 +50,10 @@ class TimeData
         ~TimeData();
         static TimeData *instance;
 
+        // the data of the other precision is kept the same, since
+        // the precision of the solver may change between time steps
+        template <typename OtherType> friend class TimeData;
+
         std::vector<std::vector<DoubleType > > IData;
         std::vector<std::vector<DoubleType > > QData;
 };
-- 
2.43.0


From 154ba7ea5259fc8b541df81583f8f49464b50381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:20 +0000
Subject: [PATCH 75/89] fix: floating point exceptions of the gauss fermi
 functions are reported each time

---
 src/MathEval/GaussFermi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathEval/GaussFermi.cc b/src/MathEval/GaussFermi.cc
index f695a97..c81d84d 100644
--- a/src/MathEval/GaussFermi.cc
+++ b/src/MathEval/GaussFermi.cc
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "GaussFermi.hh"
 #include "BoostConstants.hh"
 #include "MiscMathFunc.hh"
+#include <boost/math/special_functions/fpclassify.hpp>
 #ifdef DEVSIM_EXTENDED_PRECISION
 #include "Float128.hh"
 #endif
@@ -76,7 +77,8 @@ inline T calcH(const T &s, const T &S)
     thread_local auto p = std::make_pair(s, calcH_Impl(s, S));
 
     // Assume that s is constant across the same call in the same region
-    if (p.first != s)
+    // A value that is not finite is calculated again so that the floating point exception is seen each time
+    if ((p.first != s) || !(boost::math::isfinite)(p.second))
     {
       p = std::make_pair(s, calcH_Impl(s, S));
     }
-- 
2.43.0


From d5134301b9238f11de4e7df683cd9097e036f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:20 +0000
Subject: [PATCH 76/89] fix: floating point exceptions raised by hand belong to
 the thread

---
 src/utility/FPECheck.cc | 2 +-
 src/utility/FPECheck.hh | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/FPECheck.cc b/src/utility/FPECheck.cc
index 9227d42..b59ae05 100644
--- a/src/utility/FPECheck.cc
+++ b/src/utility/FPECheck.cc
@@ -14,7 +14,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <cmath>
 #include <cassert>
 
-FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
+thread_local FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
 
 #ifndef _WIN32
 void fpehandle(int)
diff --git a/src/utility/FPECheck.hh b/src/utility/FPECheck.hh
index 7e3502b..2d5469a 100644
--- a/src/utility/FPECheck.hh
+++ b/src/utility/FPECheck.hh
@@ -41,6 +41,7 @@ class FPECheck
     FPECheck(const FPECheck &);
     FPECheck &operator=(const FPECheck &);
 
-    static FPECheck::FPEFlag_t fpe_raised_;
+    // as the flags of the floating point unit
+    static thread_local FPECheck::FPEFlag_t fpe_raised_;
 };
 #endif
-- 
2.43.0


From 79ab7ce990710c2418138bd04be4c4e835fa95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 77/89] fix: clearing a matrix keeps room for an entry in every
 row

---
 src/math/CompressedMatrix.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index 4659d11..cd56e4d 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -475,12 +475,13 @@ void CompressedMatrix<DoubleType>::ClearMatrix()
     Az_.resize(sz);
   }
 
+  // one entry for each row, whatever the number of entries
   OutOfBandEntries_Real.clear();
-  OutOfBandEntries_Real.resize(sz);
+  OutOfBandEntries_Real.resize(this->size());
   if (GetMatrixType() == MatrixType::COMPLEX)
   {
     OutOfBandEntries_Imag.clear();
-    OutOfBandEntries_Imag.resize(sz);
+    OutOfBandEntries_Imag.resize(this->size());
   }
 }
 
-- 
2.43.0


From ba7570e60cdb426746b469bee26271fd1f311357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 78/89] fix: the transposed product reads the pointers and
 indexes of the matrix

---
 src/math/CompressedMatrix.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index cd56e4d..251acf2 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -568,11 +568,11 @@ void CompressedMatrix<DoubleType>::TransposeMultiply(const DoubleVec_t<DoubleTyp
   const DoubleVec_t<DoubleType> &Vals = this->GetReal();
   if (compressionType_ == CompressionType::CCM)
   {
-    RowScaleMultiply(Rows, Cols, Vals, x, y);
+    RowScaleMultiply(Cols, Rows, Vals, x, y);
   }
   else if (compressionType_ == CompressionType::CRM)
   {
-    ColScaleMultiply(Cols, Rows, Vals, x, y);
+    ColScaleMultiply(Rows, Cols, Vals, x, y);
   }
 }
 
@@ -604,11 +604,11 @@ void CompressedMatrix<DoubleType>::TransposeMultiply(const ComplexDoubleVec_t<Do
   const ComplexDoubleVec_t<DoubleType> &Vals = this->GetComplex();
   if (compressionType_ == CompressionType::CCM)
   {
-    RowScaleMultiply(Rows, Cols, Vals, x, y);
+    RowScaleMultiply(Cols, Rows, Vals, x, y);
   }
   else if (compressionType_ == CompressionType::CRM)
   {
-    ColScaleMultiply(Cols, Rows, Vals, x, y);
+    ColScaleMultiply(Rows, Cols, Vals, x, y);
   }
 }
 }
-- 
2.43.0


From bb915c0d12db9bea5417de50c4b53d356825c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 79/89] fix: the extended precision values given to the direct
 solver outlive the factorization

---
 src/math/MKLPardisoPreconditioner.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/math/MKLPardisoPreconditioner.cc b/src/math/MKLPardisoPreconditioner.cc
index a716ace..e84a403 100644
--- a/src/math/MKLPardisoPreconditioner.cc
+++ b/src/math/MKLPardisoPreconditioner.cc
@@ -79,6 +79,10 @@ class MKLPardisoData {
   const int *ia;
   const int *ja;
   const void *a;
+
+  // values in the precision of the library, which reads them again when solving
+  DoubleVec_t<double>        dvals_;
+  ComplexDoubleVec_t<double> zvals_;
 };
 
 MKLPardisoData::MKLPardisoData(int numeqn) {
@@ -260,22 +264,22 @@ bool MKLPardisoData::LUFactorMatrix(CompressedMatrix<float128> *cm)
   if (cm->GetMatrixType() == MatrixType::REAL)
   {
     const DoubleVec_t<float128> &fvals = cm->GetReal();
-    DoubleVec_t<double> dvals(fvals.size());
+    dvals_.resize(fvals.size());
     for (size_t i = 0; i < fvals.size(); ++i)
     {
-      dvals[i] = static_cast<double>(fvals[i]);
+      dvals_[i] = static_cast<double>(fvals[i]);
     }
-    ret = LUFactorMatrixImpl(cm, reinterpret_cast<void *>(&dvals[0]));
+    ret = LUFactorMatrixImpl(cm, reinterpret_cast<void *>(dvals_.data()));
   }
   else if (cm->GetMatrixType() == MatrixType::COMPLEX)
   {
     const ComplexDoubleVec_t<float128> &fvals = cm->GetComplex();
-    ComplexDoubleVec_t<double> dvals(fvals.size());
+    zvals_.resize(fvals.size());
     for (size_t i = 0; i < fvals.size(); ++i)
     {
-      dvals[i] = ComplexDouble_t<double>(static_cast<double>(fvals[i].real()), static_cast<double>(fvals[i].imag()));
+      zvals_[i] = ComplexDouble_t<double>(static_cast<double>(fvals[i].real()), static_cast<double>(fvals[i].imag()));
     }
-    ret = LUFactorMatrixImpl(cm, reinterpret_cast<void *>(&dvals[0]));
+    ret = LUFactorMatrixImpl(cm, reinterpret_cast<void *>(zvals_.data()));
   }
   return ret;
 }
-- 
2.43.0


From b1454a8b4bb86e13364f1e234c9f28782b83aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 80/89] fix: a failure of the direct solver when solving is
 reported

---
 src/math/MKLPardisoPreconditioner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/MKLPardisoPreconditioner.cc b/src/math/MKLPardisoPreconditioner.cc
index e84a403..641b5ab 100644
--- a/src/math/MKLPardisoPreconditioner.cc
+++ b/src/math/MKLPardisoPreconditioner.cc
@@ -10,6 +10,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "CompressedMatrix.hh"
 #include "dsAssert.hh"
 #include "OutputStream.hh"
+#include <string>
 #include <utility>
 #include <complex>
 #include <vector>
@@ -293,6 +294,9 @@ void MKLPardisoData::LUSolveImpl(void *x, const void *b_input)
 
   PARDISO (pt, &maxfct, &mnum, &mtype, &phase,
            &n, a, ia, ja, &idum, &nrhs, &iparm[0], &msglvl, b, x, &error);
+
+  // the answer is not one
+  dsAssert(error == 0, "MKL Pardiso failed to solve the system. Error " + std::to_string(error) + ".");
 }
 
 template <>
-- 
2.43.0


From ccc8d146b8f7088217e65ae6788a120ab2cd4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:01 +0000
Subject: [PATCH 81/89] fix: the block preconditioner keeps the entries of
 circuit rows

---
 src/math/BlockPreconditioner.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/BlockPreconditioner.cc b/src/math/BlockPreconditioner.cc
index f308227..621f370 100644
--- a/src/math/BlockPreconditioner.cc
+++ b/src/math/BlockPreconditioner.cc
@@ -167,8 +167,8 @@ void BlockPreconditioner<DoubleType>::ProcessBlockInfo(const IntVec_t &Cols, con
       }
       else
       {
-        const BlockInfo &binfo = blockInfoList_[rbindex];
-        if (!((c >= binfo.min_range_) && (c <= binfo.max_range_)))
+        // the rows of circuit nodes are in no block
+        if ((rbindex == size_t(-1)) || !((c >= blockInfoList_[rbindex].min_range_) && (c <= blockInfoList_[rbindex].max_range_)))
         {
           //// These entries must always be added since tie interfaces, contacts
           block_matrix_->AddEntry(r, c, v);
-- 
2.43.0


From 523fd97aef4c5b5ee10ef2df48b05fd52340174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 82/89] fix: an answer of the python solver that is not a
 dictionary is not taken as a solution

---
 src/math/ExternalPreconditioner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/ExternalPreconditioner.cc b/src/math/ExternalPreconditioner.cc
index 47daa32..fd0255e 100644
--- a/src/math/ExternalPreconditioner.cc
+++ b/src/math/ExternalPreconditioner.cc
@@ -274,6 +274,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(false, error_string);
     }
     else
     {
@@ -334,6 +335,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(false, error_string);
     }
     else
     {
-- 
2.43.0


From 10a6cb7b331d8f29654fe0522f86b5d1fef32266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:38 +0000
Subject: [PATCH 83/89] fix: the edge models the current models need are
 created

---
 python_packages/model_create.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python_packages/model_create.py b/python_packages/model_create.py
index b290ac8..c04f2c9 100644
--- a/python_packages/model_create.py
+++ b/python_packages/model_create.py
@@ -200,10 +200,10 @@ def EnsureEdgeFromNodeModelExists(device, region, nodemodel):
     Checks if the edge models exists
     """
     if not InNodeModelList(device, region, nodemodel):
-        raise "{} must exist"
+        raise RuntimeError("{0} must exist".format(nodemodel))
 
-    _emlist = get_edge_model_list(device=device, region=region)
-    emtest = "{0}@n0".format(nodemodel) and "{0}@n1".format(nodemodel)
+    emlist = get_edge_model_list(device=device, region=region)
+    emtest = "{0}@n0".format(nodemodel) in emlist and "{0}@n1".format(nodemodel) in emlist
     if not emtest:
         if debug:
             print("INFO: Creating ${0}@n0 and ${0}@n1".format(nodemodel))
-- 
2.43.0


From 5a385ae9ae9d5496b9c8249c57463f25af37f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:38 +0000
Subject: [PATCH 84/89] fix: gmsh files with groups of points can be read in
 python

---
 python_packages/pythonmesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python_packages/pythonmesh.py b/python_packages/pythonmesh.py
index 19a1098..d014524 100644
--- a/python_packages/pythonmesh.py
+++ b/python_packages/pythonmesh.py
@@ -80,6 +80,7 @@ def read_gmsh_file(filename):
     _all_physical_numbers = sorted(set([x[3] for x in data["elements"]]))
     sorted_physical_names = sorted(data["physical_names"], key=lambda x: x[0])
     physical_number_map = {
+        0: {},
         1: {},
         2: {},
         3: {},
@@ -110,8 +111,9 @@ def read_gmsh_file(filename):
         elif t == 15:
             # point
             etype = 0
+            dimension = 0
         else:
-            raise RuntimeError("Cannot handle element type " % i)
+            raise RuntimeError("Cannot handle element type %d" % t)
 
         # physical number
         # will be remapped later
-- 
2.43.0


From 8c68694373def2f54e5e5723f7c1e5b00a4840c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:20 +0000
Subject: [PATCH 85/89] fix: a floating point exception of a derived model is
 reported each time it is read

---
 src/models/EdgeModel.cc            | 2 ++
 src/models/NodeModel.cc            | 2 ++
 src/models/TetrahedronEdgeModel.cc | 2 ++
 src/models/TriangleEdgeModel.cc    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 75ca993..d98130c 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -86,6 +86,8 @@ void EdgeModel::CalculateValues() const
     std::ostringstream os;
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
+    // the values are not valid, evaluate and report again when they are needed again
+    MarkOld();
     FPECheck::ClearFPE();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index f085e38..51ffb12 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -108,6 +108,8 @@ void NodeModel::CalculateValues() const
     std::ostringstream os;
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the node model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
+    // the values are not valid, evaluate and report again when they are needed again
+    MarkOld();
     FPECheck::ClearFPE();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 55a5582..c2087b2 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -84,6 +84,8 @@ void TetrahedronEdgeModel::CalculateValues() const
     std::ostringstream os;
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
+    // the values are not valid, evaluate and report again when they are needed again
+    MarkOld();
     FPECheck::ClearFPE();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 84d6554..7ae2ca6 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -82,6 +82,8 @@ void TriangleEdgeModel::CalculateValues() const
     std::ostringstream os;
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
+    // the values are not valid, evaluate and report again when they are needed again
+    MarkOld();
     FPECheck::ClearFPE();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
-- 
2.43.0


From 9f4a269ab6f48cba137e89189a9cbbeae603d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:17 +0000
Subject: [PATCH 86/89] fix: floating point exceptions raised before a nested
 model is read are not lost

---
 src/models/EdgeModel.cc            |  2 +-
 src/models/NodeModel.cc            |  2 +-
 src/models/TetrahedronEdgeModel.cc |  2 +-
 src/models/TriangleEdgeModel.cc    |  2 +-
 src/utility/FPECheck.cc            | 17 +++++++++++++++++
 src/utility/FPECheck.hh            | 15 +++++++++++++++
 6 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index d98130c..1b7e602 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -64,7 +64,7 @@ void EdgeModel::init()
 
 void EdgeModel::CalculateValues() const
 {
-  FPECheck::ClearFPE();
+  FPECheck::Evaluation evaluation;
   if (!uptodate)
   {
     inprocess = true;
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index 51ffb12..5b72184 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -86,7 +86,7 @@ void NodeModel::DefaultInitializeValues()
 
 void NodeModel::CalculateValues() const
 {
-  FPECheck::ClearFPE();
+  FPECheck::Evaluation evaluation;
   if (!uptodate)
   {
     inprocess = true;
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index c2087b2..618733a 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -62,7 +62,7 @@ void TetrahedronEdgeModel::init()
 
 void TetrahedronEdgeModel::CalculateValues() const
 {
-  FPECheck::ClearFPE();
+  FPECheck::Evaluation evaluation;
   if (!uptodate)
   {
     inprocess = true;
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 7ae2ca6..9623a6b 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -60,7 +60,7 @@ void TriangleEdgeModel::init()
 
 void TriangleEdgeModel::CalculateValues() const
 {
-  FPECheck::ClearFPE();
+  FPECheck::Evaluation evaluation;
   if (!uptodate)
   {
     inprocess = true;
diff --git a/src/utility/FPECheck.cc b/src/utility/FPECheck.cc
index b59ae05..2b84724 100644
--- a/src/utility/FPECheck.cc
+++ b/src/utility/FPECheck.cc
@@ -15,6 +15,23 @@ SPDX-License-Identifier: Apache-2.0
 #include <cassert>
 
 thread_local FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
+thread_local size_t FPECheck::evaluations_ = 0;
+
+FPECheck::Evaluation::Evaluation() : enclosing_(evaluations_ ? getFPEFlags() : getClearedFlag())
+{
+  ++evaluations_;
+  ClearFPE();
+}
+
+FPECheck::Evaluation::~Evaluation()
+{
+  --evaluations_;
+  ClearFPE();
+  if (enclosing_ != getClearedFlag())
+  {
+    raiseFPE(enclosing_);
+  }
+}
 
 #ifndef _WIN32
 void fpehandle(int)
diff --git a/src/utility/FPECheck.hh b/src/utility/FPECheck.hh
index 2d5469a..91c788d 100644
--- a/src/utility/FPECheck.hh
+++ b/src/utility/FPECheck.hh
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 
 #ifndef FPE_CHECK_HH
 #define FPE_CHECK_HH
+#include <cstddef>
 #include <string>
 class FPECheck
 {
@@ -35,6 +36,19 @@ class FPECheck
     static void raiseFPE(FPECheck::FPEFlag_t);
     static double ManualCheckAndRaiseFPE(const double &x);
 
+    // an evaluation starts without exceptions, those raised so far by an
+    // evaluation it is part of are raised again when it ends
+    class Evaluation
+    {
+      public:
+        Evaluation();
+        ~Evaluation();
+        Evaluation(const Evaluation &) = delete;
+        Evaluation &operator=(const Evaluation &) = delete;
+      private:
+        FPECheck::FPEFlag_t enclosing_;
+    };
+
   private:
     void ClearFP();
     FPECheck();
@@ -43,5 +57,6 @@ class FPECheck
 
     // as the flags of the floating point unit
     static thread_local FPECheck::FPEFlag_t fpe_raised_;
+    static thread_local size_t evaluations_;
 };
 #endif
-- 
2.43.0


From 00e3e945403ede5b68d0ec214c2fbe63715522e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:30 +0000
Subject: [PATCH 87/89] fix: the list of math libraries does not grow with
 every reset

---
 src/math/BlasHeaders.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/BlasHeaders.cc b/src/math/BlasHeaders.cc
index d76d503..632b9f8 100644
--- a/src/math/BlasHeaders.cc
+++ b/src/math/BlasHeaders.cc
@@ -542,6 +542,7 @@ LoaderMessages_t LoadMathLibraries(std::string &errors)
 void ClearBlasFunctions()
 {
   clear_table();
+  blas_table::dll_handles.clear();
 }
 }
 
-- 
2.43.0


From 6b0c7a0c8c5cca677408dba64268a0660f246d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:46 +0000
Subject: [PATCH 88/89] fix: noise solutions follow an equation kept in its
 original row

A hybrid interface equation adds the bulk equation of the second region to
the first and keeps it in its own row. The transfer from a source in that
equation to the output is the sum over both rows.
---
 src/Equation/Equation.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index c1eb1c6..1f1e80f 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -408,13 +408,18 @@ void Equation<DoubleType>::DefaultNoiseUpdate(const std::string &outputname, con
     const ConstNodeList::const_iterator nend = nl.end();
     for ( ; nit != nend; ++nit)
     {
-        // TODO: we need to make sure we handle when the equation was copied, KeepCopy() == true
-        const size_t eqrow = permvec[myregion->GetEquationNumber(ind, *nit)].GetRow();
+        const size_t eqnum = myregion->GetEquationNumber(ind, *nit);
+        const size_t eqrow = permvec[eqnum].GetRow();
 
         if (eqrow != size_t(-1))
         {
           const size_t eqindex = (*nit)->GetIndex();
-          const dsMath::ComplexDouble_t<DoubleType> &upd  = result[eqrow];
+          dsMath::ComplexDouble_t<DoubleType> upd  = result[eqrow];
+          // the equation is in its original row as well
+          if (permvec[eqnum].KeepCopy())
+          {
+            upd += result[eqnum];
+          }
           realout[eqindex] = upd.real();
           imagout[eqindex] = upd.imag();
         }
-- 
2.43.0


From 8090e89cf4f6c6a7e50db5342c3117e114de9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:45 +0000
Subject: [PATCH 89/89] fix: the iterative solver does not break down when its
 preconditioner is exact

---
 src/math/gmres.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/math/gmres.cc b/src/math/gmres.cc
index 9a31fca..731aca0 100644
--- a/src/math/gmres.cc
+++ b/src/math/gmres.cc
@@ -10,6 +10,7 @@ http://math.nist.gov/iml++/gmres.h.txt
 #include <cmath>
 #include <vector>
 #include <complex>
+#include <limits>
 namespace iml
 {
 
@@ -291,12 +292,25 @@ int GMRES(const Operator &A, Vector &x, const Vector &b,
 
     for (i = 0; i < m && j <= max_iter; i++, j++) {
       w = M.solve(A * v[i]);
+      const Real normw = norm(w);
       for (k = 0; k <= i; k++) {
         H(k, i) = dot(w, v[k]);
         w -= H(k, i) * v[k];
       }
+      // a second pass, as a small remainder of the first is not orthogonal
+      for (k = 0; k <= i; k++) {
+        const Real hk = dot(w, v[k]);
+        H(k, i) += hk;
+        w -= hk * v[k];
+      }
       H(i+1, i) = norm(w);
-      v[i+1] = w * (1.0 / H(i+1, i)); // ??? w / H(i+1, i)
+      if (H(i+1, i) <= std::numeric_limits<Real>::epsilon() * normw) {
+        // only round off is left of the new direction, the solution is in the space already spanned
+        H(i+1, i) = 0.0;
+      }
+      else {
+        v[i+1] = w * (1.0 / H(i+1, i)); // ??? w / H(i+1, i)
+      }
 
       for (k = 0; k < i; k++)
         ApplyPlaneRotation(H(k,i), H(k+1,i), cs(k), sn(k));
-- 
2.43.0

