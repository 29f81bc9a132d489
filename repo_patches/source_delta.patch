From f81a7701720275b63df895e24596533e98d7d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 01/63] fix: totalTime determines stepSize when stepCount was
 set first

---
 src/quanguru/classes/QSimBase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 696a0ad..1453fde 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -349,6 +349,8 @@ class timeBase(stateBase):
         setAttrParam(self, '_timeBase__totalTime', fTime)
         if self.stepSize is not None:
             self._timeBase__stepCount.value = int((fTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+        elif self._timeBase__stepCount.value is not None:
+            self._timeBase__stepSize.value = fTime/self._timeBase__stepCount.value # pylint: disable=assigning-non-slot
 
     @property
     def stepCount(self):
-- 
2.43.0


From 73ffd875ea7cee8a962c538ca029542ea8b1cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 02/63] fix: a changed step ratio re-creates the step's unitary

---
 src/quanguru/classes/QPro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f3379ab..f7fb36a 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -33,7 +33,7 @@ from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond
 
 from .base import qBase, addDecorator
 from .baseClasses import updateBase
-from .QSimBase import _parameter
+from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
 from .QSweep import Sweep
 
@@ -158,7 +158,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @ratio.setter
     def ratio(self, val):
-        self._genericProtocol__ratio = val # pylint: disable=assigning-non-slot
+        setAttr(self, '_genericProtocol__ratio', val)
 
     @property
     def system(self):
-- 
2.43.0


From 16d890e9722018003fa86e16594e6817d968e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 03/63] fix: a changed gate phase or implementation re-creates
 the gate's unitary

---
 src/quanguru/classes/QGates.py | 12 ++++++++++--
 src/quanguru/classes/QPro.py   |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 921372c..2a1a6a2 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -35,13 +35,13 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     _externalInstances: int = 0
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
-    __slots__ = ['__angle', '__rotationAxis', 'phase', '_rotationOp']
+    __slots__ = ['__angle', '__rotationAxis', '__phase', '_rotationOp']
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self.__angle = None
         self.__rotationAxis = None
         self._rotationOp = None
-        self.phase = 1
+        self.__phase = 1
         #self._createUnitary = self._rotMat
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
@@ -53,6 +53,14 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     def angle(self, val):
         setAttr(self, '_SpinRotation__angle', val)
 
+    @property
+    def phase(self):
+        return self._SpinRotation__phase
+
+    @phase.setter
+    def phase(self, val):
+        setAttr(self, '_SpinRotation__phase', val)
+
     @property
     def rotationAxis(self):
         return self._SpinRotation__rotationAxis # pylint: disable=no-member
diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f7fb36a..09419fd 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -451,7 +451,7 @@ class Gate(genericProtocol):
 
     @implementation.setter
     def implementation(self, typeStr):
-        self._Gate__implementation = typeStr # pylint: disable=assigning-non-slot
+        setAttr(self, '_Gate__implementation', typeStr)
 
 class Update(updateBase):
     label = 'Update'
-- 
2.43.0


From b7a04b7a4511b2f68d33e7c74c24f22f6cdb5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 04/63] fix: a re-created unitary drops the Hermitian conjugate
 of the old one

---
 src/quanguru/classes/QPro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 09419fd..7314603 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -218,6 +218,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         for update in self._genericProtocol__updates:
             update.setup()
         self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
+        self._paramBoundBase__matrixHc = None # pylint: disable=assigning-non-slot
         for update in self._genericProtocol__updates:
             update.setback()
         self._paramUpdatedToFalse()
-- 
2.43.0


From 803002569ce4f26636a1541c03e94a0724ee60e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 05/63] fix: the unitary of a fixed protocol is created when
 there is none yet

---
 src/quanguru/classes/QPro.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 7314603..51ffb86 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -198,11 +198,11 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-        if self._paramUpdated:
+        if self._paramBoundBase__matrix is None: # pylint: disable=no-member
+            self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
+        elif self._paramUpdated:
             if not self.fixed:
                 self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
@@ -229,11 +229,11 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     def _defGetUnitary(self, collapseOps = None, decayRates = None):
         runCreate = False
-        if self._paramUpdated:
+        if self._paramBoundBase__matrix is None: # pylint: disable=no-member
+            runCreate = True
+        elif self._paramUpdated:
             if not self.fixed:
                 runCreate = True
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            runCreate = True
 
         if runCreate:
             lc = 1
-- 
2.43.0


From c08e7d39b8e8724a6e57548092470087e479b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 06/63] fix: step updates are set back also when creating the
 unitary fails

---
 src/quanguru/classes/QPro.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 51ffb86..d8b3dae 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -215,12 +215,16 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-        for update in self._genericProtocol__updates:
-            update.setup()
-        self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
-        self._paramBoundBase__matrixHc = None # pylint: disable=assigning-non-slot
-        for update in self._genericProtocol__updates:
-            update.setback()
+        active = []
+        try:
+            for update in self._genericProtocol__updates:
+                update.setup()
+                active.append(update)
+            self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
+            self._paramBoundBase__matrixHc = None # pylint: disable=assigning-non-slot
+        finally:
+            for update in reversed(active):
+                update.setback()
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -499,10 +503,14 @@ class Update(updateBase):
 
     def _setup(self):
         self.memoryValue = getattr(list(self.subSys.values())[0], self.key)
-        if self._updateBase__function is None: # pylint: disable=no-member
-            super()._runUpdate(self.value)
-        else:
-            self._updateBase__function(self) # pylint: disable=no-member
+        try:
+            if self._updateBase__function is None: # pylint: disable=no-member
+                super()._runUpdate(self.value)
+            else:
+                self._updateBase__function(self) # pylint: disable=no-member
+        except BaseException:
+            self.setback()
+            raise
 
     def _setback(self):
         if self.value != self.memoryValue:
-- 
2.43.0


From f65056024b4bf5d2bc4d7ed15e2d8798e6daa76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 07/63] fix: an update on several systems sets each back to its
 own value

---
 src/quanguru/classes/QPro.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index d8b3dae..eec436b 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -467,7 +467,7 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['value', '__memoryValue', 'setup', 'setback']
+    __slots__ = ['value', '__memoryValue', '__memory', 'setup', 'setback']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
@@ -475,6 +475,7 @@ class Update(updateBase):
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
+        self.__memory = []
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
     @property
@@ -502,7 +503,9 @@ class Update(updateBase):
         self._updateBase__function = func # pylint: disable=assigning-non-slot
 
     def _setup(self):
-        self.memoryValue = getattr(list(self.subSys.values())[0], self.key)
+        memory = [(subSys, getattr(subSys, self.key)) for subSys in self.subSys.values()]
+        self.memoryValue = memory[0][1]
+        self._Update__memory = memory # pylint: disable=assigning-non-slot
         try:
             if self._updateBase__function is None: # pylint: disable=no-member
                 super()._runUpdate(self.value)
@@ -513,5 +516,8 @@ class Update(updateBase):
             raise
 
     def _setback(self):
-        if self.value != self.memoryValue:
-            super()._runUpdate(self.memoryValue)
+        # each system gets its own value back, since an update may act on systems with different values
+        memory = self._Update__memory or [(subSys, self.memoryValue) for subSys in self.subSys.values()]
+        for subSys, value in memory:
+            if self.value != value:
+                setattr(subSys, self.key, value)
-- 
2.43.0


From ec72ae2aa914445374a5ca5fa95101ead057b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 08/63] fix: a new or changed step update re-creates the step's
 unitary

---
 src/quanguru/classes/QPro.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index eec436b..3072c93 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -147,6 +147,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def addUpdate(self, *args):
         for update in args:
             self._genericProtocol__updates.append(update) # pylint: disable=no-member
+            update._protocols.append(self) # pylint: disable=protected-access
+        self._paramUpdated = True
 
     @property
     def updates(self):
@@ -467,17 +469,30 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['value', '__memoryValue', '__memory', 'setup', 'setback']
+    __slots__ = ['__value', '__memoryValue', '__memory', '_protocols', 'setup', 'setback']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
-        self.value = None
+        self.__value = None
+        #: protocols/steps using this update, they need to re-create their unitary when the value changes
+        self._protocols = []
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
         self.__memory = []
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
+    @property
+    def value(self):
+        return self._Update__value
+
+    @value.setter
+    def value(self, val):
+        if val != self._Update__value:
+            self._Update__value = val # pylint: disable=assigning-non-slot
+            for protocol in self._protocols:
+                protocol._paramUpdated = True # pylint: disable=protected-access
+
     @property
     def memoryValue(self):
         return self._Update__memoryValue
-- 
2.43.0


From daf4c329bc0eb58fdf78b33ced463b382761cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 09/63] fix: every run and sweep point starts at time zero

---
 src/quanguru/classes/QSim.py         | 1 +
 src/quanguru/classes/modularSweep.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 3dd482f..dad119f 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -343,6 +343,7 @@ class Simulation(timeBase):
         if len(self.subSys.values()) == 0:
             self.addQSystems(self.superSys)
         self._freeEvol()
+        self._Simulation__index = -1 # pylint: disable=assigning-non-slot
         for qSys in self.subSys.values():
             qSys._constructMatrices() # pylint: disable=protected-access
         for protocol in self.subSys.keys():
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 6cc52d0..fad0389 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -68,6 +68,7 @@ def parallelTimeEvol(qSim, ind):
 # These two functions, respectively, run Sweep and timeDependent (sweep) parameter updates
 # In the timeDependet case, evolFunc of first function is the second function
 def _runSweepAndPrep(qSim, ind):
+    qSim._Simulation__index = -1 # pylint: disable=protected-access
     if len(qSim.Sweep.inds) > 0:
         qSim.Sweep.runSweep(qSim.Sweep._indicesForSweep(ind, *qSim.Sweep.inds))
 
-- 
2.43.0


From e4616fe5fef0f1be8b43bea873ab76c8a8d944d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 10/63] fix: the worker processes of a failed run are shut down

---
 src/quanguru/classes/QSim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index dad119f..5438d02 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -410,7 +410,13 @@ class _poolMemory: # pylint: disable=too-few-public-methods
                 _pool = multiprocessing.Pool(processes=_poolMemory.coreCount) #pylint:disable=consider-using-with
             else:
                 _pool = None
-        runSimulation(qSim, _pool)
+        try:
+            runSimulation(qSim, _pool)
+        except BaseException:
+            if _pool is not None:
+                _pool.terminate()
+                _pool.join()
+            raise
 
         if _pool is not None:
             _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
-- 
2.43.0


From 95f16c67c2da637398d81fbe903442b6921c1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 11/63] fix: a parallel run on a single-core machine uses one
 worker

---
 src/quanguru/classes/QSim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 5438d02..1692c80 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -390,13 +390,13 @@ class _poolMemory: # pylint: disable=too-few-public-methods
         if p is True:
             if coreCount is None:
                 if _poolMemory.coreCount is None:
-                    _pool = multiprocessing.Pool(processes=multiprocessing.cpu_count()-1) #pylint:disable=consider-using-with
+                    _pool = multiprocessing.Pool(processes=max(multiprocessing.cpu_count()-1, 1)) #pylint:disable=consider-using-with
                 else:
                     _pool = multiprocessing.Pool(processes=_poolMemory.coreCount) #pylint:disable=consider-using-with
             elif isinstance(coreCount, int):
                 _pool = multiprocessing.Pool(processes=coreCount) #pylint:disable=consider-using-with
             elif coreCount.lower() == 'all':
-                _pool = multiprocessing.Pool(processes=multiprocessing.cpu_count()-1) #pylint:disable=consider-using-with
+                _pool = multiprocessing.Pool(processes=max(multiprocessing.cpu_count()-1, 1)) #pylint:disable=consider-using-with
             else:
                 # FIXME should raise error
                 print('error')
-- 
2.43.0


From 68ffae4ba060cd006bc560a8c4544efda6c1bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 12/63] fix: a parallel run returns the calculated quantities

---
 src/quanguru/classes/QRes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/quanguru/classes/QRes.py b/src/quanguru/classes/QRes.py
index 5f7b201..285896e 100644
--- a/src/quanguru/classes/QRes.py
+++ b/src/quanguru/classes/QRes.py
@@ -75,6 +75,13 @@ class qResBlank:
         """
         return self._qResBlank__statesLast # pylint: disable=no-member
 
+    @property
+    def calculated(self):
+        r"""
+        returns the protected attribute ``self._qResBlank__calculated``
+        """
+        return self._qResBlank__calculated # pylint: disable=no-member
+
 class qResBase(qBase):
     r"""
     Base class for qResults implements the defaultdict attributes (used to store various quantities) and property/method
@@ -268,9 +275,14 @@ class qResults(qResBase):
         (see :meth:`~_copyAllResBlank`), this method re-writes the results into corresponding :class:`~qResults` objects
         and re-shapes them into correct sweep and time trace structure. Calls other methods of the class for these.
         """
+        # every worker starts from (a copy of) these, so they are skipped in the values returned by the workers
+        before = {keyUni: {key: len(val) for key, val in qRes.calculated.items()}
+                  for keyUni, qRes in self.allResults.items()}
         for res in results:
             for keyUni, valUni in res.items():
                 self._organise(keyUni, valUni)
+                for key, val in valUni.calculated.items():
+                    self.allResults[keyUni].calculated[key].extend(val[before[keyUni].get(key, 0):])
         self._finaliseAll(inds)
 
     @classmethod
-- 
2.43.0


From 596a95840815f2f2e2b567521e73ff4b40f41cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 13/63] fix: the first sweep can be combinatorial

---
 src/quanguru/classes/QSweep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 8c1fcd6..88f7cd9 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -331,8 +331,8 @@ class Sweep(qBase):
         ``subSys`` one after the other. Also, for nested Sweeps, the indList should be a properly nested list.
         """
         indx = 0
-        for sweep in self.sweeps.values():
-            if sweep.combinatorial is True:
+        for position, sweep in enumerate(self.sweeps.values()):
+            if ((sweep.combinatorial is True) and (position > 0)):
                 indx += 1
             sweep.runSweep(indList[indx])
 
-- 
2.43.0


From 63d744855b0bc3b34d4b5076215a69075435e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 14/63] fix: a run after the last sweep is removed has no sweep
 points left over

---
 src/quanguru/classes/QSweep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 88f7cd9..26bf8ad 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -321,6 +321,9 @@ class Sweep(qBase):
                 if ((sweep.combinatorial is True) or (indx == 0)):
                     self._Sweep__inds.insert(0, len(sweep.sweepList))
             self._Sweep__indMultip = reduce(lambda x, y: x*y, self._Sweep__inds) # pylint: disable=assigning-non-slot
+        else:
+            self._Sweep__inds = [] # pylint: disable=assigning-non-slot
+            self._Sweep__indMultip = 1 # pylint: disable=assigning-non-slot
 
     def runSweep(self, indList):
         r"""
-- 
2.43.0


From a1be9667013cc46cfa1ce462e1727e9a1529b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 15/63] fix: looking up the name of a deleted object raises

---
 src/quanguru/classes/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 48ef44e..f59fcdb 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -395,7 +395,8 @@ class named:
             return name
         obj = checkNotVal(self._allInstaces.get(name), None,
                           f"No object with the given name/alias {name} is found!")
-        return obj if isinstance(obj, named) else obj()
+        return obj if isinstance(obj, named) else checkNotVal(obj(), None,
+                                                              f"The object with the name/alias {name} no longer exists!")
 
     def _incrementInstances(self) -> None:
         r"""
-- 
2.43.0


From 0aaad7e3208b8540cf1a0b128f4bd45cde172db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 16/63] fix: a directory created by another process in the
 meantime is not an error

---
 src/quanguru/extensions/_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/_helpers.py b/src/quanguru/extensions/_helpers.py
index 8ac220f..dbabaa6 100644
--- a/src/quanguru/extensions/_helpers.py
+++ b/src/quanguru/extensions/_helpers.py
@@ -44,5 +44,9 @@ def makeDir(path=None):
         path = sys.path[0]
 
     if not os.path.isdir(path):
-        os.mkdir(path)
+        try:
+            os.mkdir(path)
+        except FileExistsError: # some other process might have created it in the meantime
+            if not os.path.isdir(path):
+                raise
     return path
-- 
2.43.0


From add142382698bb399905ea0c216f65af6ac0d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 17/63] fix: readCSV reads complex numbers with current numpy
 versions

---
 src/quanguru/extensions/saveReadCSV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index c5f2a64..4f1a660 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -94,7 +94,7 @@ def readCSV(path, datatype=float, realVal=True):
             if datatype != np.complex128:
                 data.append(np.array(list(row), dtype=datatype))
             else:
-                li = np.genfromtxt(list(row), delimiter=',', dtype=np.complex)
+                li = np.genfromtxt(list(row), delimiter=',', dtype=np.complex128)
                 data.append(np.real(li) if realVal else li)
     return data if len(data) > 1 else data[0]
 
-- 
2.43.0


From 6409027d94ef1e08d6fd05de03eef0ab44110457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 18/63] fix: saveQResCSV saves a plain list of results

---
 src/quanguru/extensions/saveReadCSV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index 4f1a660..0f7b6fa 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -106,7 +106,7 @@ def _recursiveSaveList(data, path=None, fileName=None):
         elif isinstance(data[0][0], (float, int, np.complex128)):
             saveCSV(data, path=path, fileName=fileName)
     elif isinstance(data[0], (float, int, np.complex128)):
-        saveCSV(data[0], path=path, fileName=fileName)
+        saveCSV(data, path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
     for key, val in data.items():
-- 
2.43.0


From 029ccca4f7a76a3b78ad3827da2e6f8d93d8c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 19/63] fix: data that cannot be written into a CSV file raises
 instead of leaving an empty file

---
 src/quanguru/extensions/saveReadCSV.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index 0f7b6fa..c6a493e 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -30,6 +30,7 @@ r"""
 """
 
 import csv
+from numbers import Number
 from datetime import datetime
 import numpy as np
 from ._helpers import makeDir
@@ -55,6 +56,15 @@ def saveCSV(data, path=None, fileName=None):
         path to the saved CSV file
     """
 
+    rows = [list(row) if isinstance(row, (list, tuple, np.ndarray)) else row
+            for row in (data if isinstance(data[0], (list, tuple, np.ndarray)) else [list(data)])]
+    for row in rows:
+        if not isinstance(row, list):
+            raise TypeError('cannot write ' + str(type(row)) + ' as a row of a CSV file')
+        for val in row:
+            if not isinstance(val, (Number, np.generic, str)):
+                raise TypeError('cannot write ' + str(type(val)) + ' into a CSV file')
+
     if fileName is None:
         now = datetime.now()
         fileName = datetime.timestamp(now)
@@ -62,11 +72,8 @@ def saveCSV(data, path=None, fileName=None):
 
     with open(path + '/' + str(fileName) + '.txt', 'w') as csvFile: #pylint:disable=W1514
         csvWriter = csv.writer(csvFile, delimiter=',', quotechar='"', quoting=csv.QUOTE_MINIMAL)
-        if isinstance(data[0], (list, np.ndarray)):
-            for ind in range(len(data)):
-                csvWriter.writerow([data[ind][ind2] for ind2 in range(len(data[ind]))])
-        elif isinstance(data[0], (float, int, np.complex128)):
-            csvWriter.writerow([data[ind2] for ind2 in range(len(data))])
+        for row in rows:
+            csvWriter.writerow(row)
 
     return path
 
@@ -103,9 +110,9 @@ def _recursiveSaveList(data, path=None, fileName=None):
         if isinstance(data[0][0], (list, np.ndarray)):
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
                 _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind))
-        elif isinstance(data[0][0], (float, int, np.complex128)):
+        else:
             saveCSV(data, path=path, fileName=fileName)
-    elif isinstance(data[0], (float, int, np.complex128)):
+    else:
         saveCSV(data, path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
-- 
2.43.0


From 0bbad7818c4568d05a9caf178601c9a6cb585b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 20/63] fix: saveQResCSV gives every sweep point its own file

---
 src/quanguru/extensions/saveReadCSV.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index c6a493e..dd615df 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -109,7 +109,8 @@ def _recursiveSaveList(data, path=None, fileName=None):
     if isinstance(data[0], (list, np.ndarray)):
         if isinstance(data[0][0], (list, np.ndarray)):
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
-                _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind))
+                # indices have the same width so that, for example, (1, 11) and (11, 1) have different names
+                _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind).zfill(len(str(len(data)-1))))
         else:
             saveCSV(data, path=path, fileName=fileName)
     else:
-- 
2.43.0


From bb4ab9752ed669da92332a12ae64faa77e9e5e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 21/63] fix: a default file name never overwrites an existing
 file

---
 src/quanguru/extensions/saveReadCSV.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index dd615df..c4c7751 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -30,6 +30,7 @@ r"""
 """
 
 import csv
+from itertools import count
 from numbers import Number
 from datetime import datetime
 import numpy as np
@@ -65,18 +66,26 @@ def saveCSV(data, path=None, fileName=None):
             if not isinstance(val, (Number, np.generic, str)):
                 raise TypeError('cannot write ' + str(type(val)) + ' into a CSV file')
 
-    if fileName is None:
-        now = datetime.now()
-        fileName = datetime.timestamp(now)
     path = makeDir(path)
 
-    with open(path + '/' + str(fileName) + '.txt', 'w') as csvFile: #pylint:disable=W1514
+    with _openFile(path, fileName) as csvFile:
         csvWriter = csv.writer(csvFile, delimiter=',', quotechar='"', quoting=csv.QUOTE_MINIMAL)
         for row in rows:
             csvWriter.writerow(row)
 
     return path
 
+def _openFile(path, fileName):
+    if fileName is not None:
+        return open(path + '/' + str(fileName) + '.txt', 'w') #pylint:disable=W1514,R1732
+    now = datetime.timestamp(datetime.now())
+    # the time stamp might be taken already, and an existing file should never be overwritten with a default name
+    for ind in count():
+        try:
+            return open(path + '/' + str(now) + (f'_{ind}' if ind > 0 else '') + '.txt', 'x') #pylint:disable=W1514,R1732
+        except FileExistsError:
+            continue
+
 def readCSV(path, datatype=float, realVal=True):
     """
     Function to read from a CSV file in the given path. Rows of the CSV file are read in as list into an arrays.
-- 
2.43.0


From 48331a73e12529dee722b59ba0fbcc0335df282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 22/63] fix: saveQResCSV raises instead of saving two results
 into the same file

---
 src/quanguru/extensions/saveReadCSV.py | 27 ++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index c4c7751..e2a9058 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -114,24 +114,35 @@ def readCSV(path, datatype=float, realVal=True):
                 data.append(np.real(li) if realVal else li)
     return data if len(data) > 1 else data[0]
 
-def _recursiveSaveList(data, path=None, fileName=None):
+def _recursiveSaveList(data, path=None, fileName=None, written=None):
     if isinstance(data[0], (list, np.ndarray)):
         if isinstance(data[0][0], (list, np.ndarray)):
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
                 # indices have the same width so that, for example, (1, 11) and (11, 1) have different names
-                _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind).zfill(len(str(len(data)-1))))
+                _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind).zfill(len(str(len(data)-1))),
+                                   written=written)
         else:
-            saveCSV(data, path=path, fileName=fileName)
+            _saveOnce(data, path, fileName, written)
     else:
-        saveCSV(data, path=path, fileName=fileName)
-
-def _saveDictToCSV(data, path=None, fileName=''):
+        _saveOnce(data, path, fileName, written)
+
+def _saveOnce(data, path, fileName, written):
+    # written contains the file names already used, one result should not be overwritten by another
+    if written is not None:
+        if fileName in written:
+            raise ValueError('more than one result would be saved as ' + fileName)
+        written.add(fileName)
+    saveCSV(data, path=path, fileName=fileName)
+
+def _saveDictToCSV(data, path=None, fileName='', written=None):
+    written = set() if written is None else written
     for key, val in data.items():
-        _recursiveSaveList(val, path, fileName=fileName+key)
+        _recursiveSaveList(val, path, fileName=fileName+key, written=written)
 
 def saveQResCSV(qRes, path=None):
     results = qRes.allResults
+    written = set()
     for key, val in results.items():
         result = val.resultsDict
         if len(result.keys()) > 0:
-            _saveDictToCSV(result, path, key._allStringSum()) #pylint:disable=protected-access
+            _saveDictToCSV(result, path, key._allStringSum(), written) #pylint:disable=protected-access
-- 
2.43.0


From f8df63e153c9db690d144f9a46924c7db9a0dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 23/63] fix: the dissipators of a protocol are applied once,
 not twice

---
 src/quanguru/classes/QPro.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 3072c93..416b554 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -195,16 +195,14 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
 
     def unitary(self):
-        collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-        decayRates = None if not self._isOpen else list(self._dissipator.values())
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
         if self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
+            self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
         elif self._paramUpdated:
             if not self.fixed:
-                self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
+                self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
-- 
2.43.0


From b4c0fc8f4ae78ed16a04c2679fd1e79cd3bb2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 24/63] fix: a changed decay rate is used by the protocols of
 the dissipator

---
 src/quanguru/classes/QPro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 416b554..bfdc183 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -208,10 +208,10 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def getUnitary(self, collapseOps = None, decayRates = None):
         if collapseOps is None:
             collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = None if not self._isOpen else list(self._dissipator.values())
+            decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
         else:
             collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = decayRates + list(self._dissipator.values())
+            decayRates = decayRates + [ds.jRate for ds in self._dissipator.keys()]
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-- 
2.43.0


From 7205a60e52d51ff17de399911aefbc7d5f766b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 25/63] fix: gates of open systems map density matrices to
 density matrices

---
 src/quanguru/classes/QGates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 2a1a6a2..01feccd 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -25,6 +25,7 @@ from .QPro import Gate
 from .QSimBase import setAttr
 from ..QuantumToolbox import evolution
 from ..QuantumToolbox import operators #pylint: disable=relative-beyond-top-level
+from ..QuantumToolbox.linearAlgebra import hc #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox import spinRotations #pylint: disable=relative-beyond-top-level
 
 class SpinRotation(Gate): # pylint: disable=too-many-ancestors
@@ -87,7 +88,7 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
                 flipOpN = operators.compositeOp(rotOp(sys[i+1].dimension, isDim=True),
                                                 sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)
                 flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn
-            self._paramBoundBase__matrix = evolution._prepostSO(flipUn) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipUn, hc(flipUn)) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -118,7 +119,7 @@ class xGate(SpinRotation): # pylint: disable=too-many-ancestors
             flipOp = operators.compositeOp(rotOp(self.angle), sys[0]._dimsBefore, sys[0]._dimsAfter) # pylint: disable=no-member
             for i in range(len(sys)-1):
                 flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp
-            self._paramBoundBase__matrix = evolution._prepostSO(flipOp) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipOp, hc(flipOp)) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
-- 
2.43.0


From 50d159c8a40bcf9d71278c28e8415143dd8699df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 26/63] fix: the matrix of a jump operator is re-created after
 a dimension change

---
 src/quanguru/classes/environment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 9e82b59..7fe4cad 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -99,6 +99,8 @@ class dissipatorObj(_genericOpen):
 
     @property
     def jOperMatrix(self):
+        if self._paramBoundBase__matrix is None: # pylint:disable=no-member
+            self._paramBoundBase__matrix = compositeOp(self.jOper, dimA=self.superSys._dimsAfter, dimB=self.superSys._dimsBefore) # pylint:disable=no-member,assigning-non-slot,line-too-long # noqa: E501
         return self._paramBoundBase__matrix # pylint:disable=no-member
 
     @jOperMatrix.setter
-- 
2.43.0


From d24ac62d93cb43111ad8d896bdb9442344e2085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 27/63] fix: a repeated step keeps the dissipators of its
 protocol

---
 src/quanguru/classes/QPro.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index bfdc183..e62db6b 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -194,15 +194,15 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             self.simulation._bound(supSys.simulation) # pylint: disable=protected-access
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
 
-    def unitary(self):
+    def unitary(self, collapseOps = None, decayRates = None):
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
         if self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
+            self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
         elif self._paramUpdated:
             if not self.fixed:
-                self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
+                self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
@@ -374,8 +374,8 @@ class copyStep(qBase):
     def _paramUpdated(self, boolean):
         pass
 
-    def getUnitary(self, collapseOps = None, decayRates = None): #pylint:disable=unused-argument
-        self.superSys.unitary()
+    def getUnitary(self, collapseOps = None, decayRates = None):
+        self.superSys.unitary(collapseOps, decayRates)
         return self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix #pylint:disable=protected-access
 
     def unitary(self): #pylint:disable=unused-argument
-- 
2.43.0


From 950e0869a05e45728a90fc2bed5d3de7c095a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 28/63] fix: a changed bath temperature re-creates the
 unitaries of its protocols

---
 src/quanguru/classes/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 7fe4cad..726e7fe 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -75,6 +75,7 @@ class dissipatorObj(_genericOpen):
     @temperature.setter
     def temperature(self, temp):
         self._dissipatorObj__bath.temperature = temp
+        self._paramUpdated = True
 
     @_genericOpen.superSys.setter # pylint: disable=no-member
     def superSys(self, supSys):
-- 
2.43.0


From c800704a092f4927720941352e50945dfc7dc682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 29/63] fix: fixed steps of open protocols get the dissipators
 of their protocol

---
 src/quanguru/classes/QPro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index e62db6b..0de310d 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -174,6 +174,11 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.fixed is True:
             self.getUnitary(collapseOps, decayRates)
 
+        # fixed steps are created here, so they need the dissipators that are otherwise given by getUnitary
+        if self._isOpen:
+            collapseOps = (collapseOps or []) + [ds.jOperMatrix for ds in self._dissipator.keys()]
+            decayRates = (decayRates or []) + [ds.jRate for ds in self._dissipator.keys()]
+
         for step in self.subSys.values():
             if isinstance(step, genericProtocol):
                 step.prepare(collapseOps, decayRates)
-- 
2.43.0


From bc04ec0d9566a134475cfaf66156d709713dce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 30/63] fix: a changed decay rate re-creates the steps of its
 protocols

---
 src/quanguru/classes/environment.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 726e7fe..f5fdb24 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -75,7 +75,7 @@ class dissipatorObj(_genericOpen):
     @temperature.setter
     def temperature(self, temp):
         self._dissipatorObj__bath.temperature = temp
-        self._paramUpdated = True
+        self._rateUpdated()
 
     @_genericOpen.superSys.setter # pylint: disable=no-member
     def superSys(self, supSys):
@@ -92,7 +92,21 @@ class dissipatorObj(_genericOpen):
 
     @jRate.setter
     def jRate(self, rate):
-        setAttr(self, '_dissipatorObj__rate', rate)
+        if rate != self._dissipatorObj__rate:
+            setAttr(self, '_dissipatorObj__rate', rate)
+            self._rateUpdated()
+
+    def _rateUpdated(self):
+        r"""
+        The decay rate enters the evolution of every step of the protocols, so all of them have to be re-created.
+        """
+        self._paramUpdated = True
+        protocols = list(self._paramBound.values())
+        while protocols:
+            for step in getattr(protocols.pop(), 'steps', {}).values():
+                step = getattr(step, 'superSys', step) if step.label == 'copyStep' else step
+                step._paramUpdated = True # pylint: disable=protected-access
+                protocols.append(step)
 
     @property
     def jOper(self):
-- 
2.43.0


From a27e866890d903b4b6f7ee0886fcbd08336424f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 31/63] fix: a dissipator added to a protocol that has its
 unitary re-creates it

---
 src/quanguru/classes/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index f5fdb24..eea7750 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -85,6 +85,7 @@ class dissipatorObj(_genericOpen):
     def addToProtocol(self, protocol):
         protocol._genericProtocol__dissipator[self] = self.jRate #pylint:disable=protected-access
         self._paramBoundBase__paramBound[protocol.name] = protocol # pylint: disable=no-member
+        self._rateUpdated()
 
     @property
     def jRate(self):
-- 
2.43.0


From 44e248d6c805033c7803f4c0d4807e2029dfcb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 32/63] fix: StopIteration in a worker fails the run instead of
 dropping a sweep point

---
 src/quanguru/classes/modularSweep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index fad0389..2cb1374 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -62,7 +62,11 @@ def paralEvol(qSim, p):
 
 # need this to avoid return part, which is only needed in multi-processing
 def parallelTimeEvol(qSim, ind):
-    _runSweepAndPrep(qSim, ind)
+    try:
+        _runSweepAndPrep(qSim, ind)
+    except StopIteration as err:
+        # pool.map takes a StopIteration for the end of its tasks and silently drops the result
+        raise RuntimeError('evolution raised StopIteration') from err
     return qSim.qRes._copyAllResBlank() # pylint: disable=protected-access
 
 # These two functions, respectively, run Sweep and timeDependent (sweep) parameter updates
-- 
2.43.0


From 5e84b2bd48ba8a965214ddc6e0013bcec63e973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 33/63] fix: a run whose worker process died fails instead of
 waiting forever

---
 src/quanguru/classes/modularSweep.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 2cb1374..49f3d6e 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -57,8 +57,14 @@ def nonParalEvol(qSim):
 
 # multi-processing functions
 def paralEvol(qSim, p):
-    results = p.map(partial(parallelTimeEvol, qSim), range(qSim.Sweep.indMultip), chunksize=1)
-    qSim.qRes._organiseMultiProcRes(results, qSim.Sweep.inds) # pylint: disable=protected-access
+    workers = list(p._pool) # pylint: disable=protected-access
+    results = p.map_async(partial(parallelTimeEvol, qSim), range(qSim.Sweep.indMultip), chunksize=1)
+    # a worker process that dies takes its point with it, and the pool would wait for that result forever
+    while not results.ready():
+        results.wait(0.1)
+        if not (results.ready() or all(worker.is_alive() for worker in workers)):
+            raise RuntimeError('a worker process died before the simulation was completed')
+    qSim.qRes._organiseMultiProcRes(results.get(), qSim.Sweep.inds) # pylint: disable=protected-access
 
 # need this to avoid return part, which is only needed in multi-processing
 def parallelTimeEvol(qSim, ind):
-- 
2.43.0


From 81040d7740cb0f5a45ef063d2ee00f788ddbf9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 34/63] fix: a step re-created by itself or in another protocol
 re-creates its protocols

---
 src/quanguru/classes/QPro.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 0de310d..0d1c78c 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -58,7 +58,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         return cls.numberOfExponentiations
 
     __slots__ = ['__currentState', '__inProtocol', '__fixed', '__ratio', '__updates', '__dissipator', '_openSys',
-                 '_getUnitary', 'timeDependency', '__identity', 'sampleStates', 'stepSample']
+                 '_getUnitary', 'timeDependency', '__identity', 'sampleStates', 'stepSample', '_protocols']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
@@ -73,6 +73,9 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         #: it is determined if self is already a step in a protocol, so that a `copyStep` (of self) is used when self is
         #: used again as a step in the same protocol or in different protocol/s.
         self.__inProtocol = False
+        #: protocols containing self (or a copyStep of self) as a step, they need to re-create their unitary also when
+        #: self already re-created its own.
+        self._protocols = []
         #: when parameters of a step are going to be fixed during the whole simulation (including parameter sweeps),
         #: we can label it as fixed to optimize number of exponentiations.
         self.__fixed = False
@@ -234,6 +237,9 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def _paramUpdatedToFalse(self):
+        if self._paramUpdated:
+            for protocol in self._protocols:
+                protocol._paramBoundBase__paramUpdated = True
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
 
     def _defGetUnitary(self, collapseOps = None, decayRates = None):
@@ -286,9 +292,11 @@ class qProtocol(genericProtocol):
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
     def _paramUpdatedToFalse(self):
-        super()._paramUpdatedToFalse()
+        updated = self._paramUpdated
         for step in self.subSys.values():
             step._paramUpdatedToFalse()
+        self._paramBoundBase__paramUpdated = updated # pylint: disable=assigning-non-slot
+        super()._paramUpdatedToFalse()
 
     @genericProtocol._paramUpdated.getter
     def _paramUpdated(self):# pylint: disable=invalid-overridden-method
@@ -314,6 +322,9 @@ class qProtocol(genericProtocol):
         Copy step ensures the exponentiation
         '''
         for step in args:
+            original = step.superSys if isinstance(step, copyStep) else step
+            if self not in original._protocols:
+                original._protocols.append(self)
             if isinstance(step, copyStep):
                 super().addSubSys(step)
             elif step._genericProtocol__inProtocol:
-- 
2.43.0


From 7d2098ff0e22fac1f1fcd8b7ce61b53762c0242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 35/63] fix: adding or removing a step re-creates the unitary
 of the protocol

---
 src/quanguru/classes/QPro.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 0d1c78c..0938557 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -325,6 +325,7 @@ class qProtocol(genericProtocol):
             original = step.superSys if isinstance(step, copyStep) else step
             if self not in original._protocols:
                 original._protocols.append(self)
+            self._paramUpdated = True
             if isinstance(step, copyStep):
                 super().addSubSys(step)
             elif step._genericProtocol__inProtocol:
@@ -337,6 +338,14 @@ class qProtocol(genericProtocol):
                 if ((step.superSys is None) and (self.superSys is not None)):
                     step.superSys = self.superSys
 
+    def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=dangerous-default-value
+        super()._removeSubSysExc(subSys, _exclude=_exclude)
+        self._paramUpdated = True
+
+    def resetSubSys(self):
+        super().resetSubSys()
+        self._paramUpdated = True
+
     def _puValues(self, step, vals):#pylint:disable=dangerous-default-value
         subSysList = list(self.subSys.values())
         ind = subSysList.index(step) + 1
-- 
2.43.0


From 8769bc2fb662fed2a8aaebf2d014efdad22d4218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 36/63] fix: a gate re-created by itself re-creates its
 protocols

---
 src/quanguru/classes/QGates.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 01feccd..0c57e91 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -89,7 +89,6 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
                                                 sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)
                 flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn
             self._paramBoundBase__matrix = evolution._prepostSO(flipUn, hc(flipUn)) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
-        self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
 class xGate(SpinRotation): # pylint: disable=too-many-ancestors
@@ -120,7 +119,6 @@ class xGate(SpinRotation): # pylint: disable=too-many-ancestors
             for i in range(len(sys)-1):
                 flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp
             self._paramBoundBase__matrix = evolution._prepostSO(flipOp, hc(flipOp)) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
-        self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def _gateImplements(self, collapseOps = None, decayRates = None): #pylint:disable=unused-argument
-- 
2.43.0


From a8ab2d08b14b7a638071fbadd24ce35044228db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 37/63] fix: a sub-system removed from a composite system keeps
 its dimension

---
 src/quanguru/classes/QSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 41eebb0..f871cf1 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -492,7 +492,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 oldDim = subSys.dimension
                 subSys.dimension = 1
                 super()._removeSubSysExc(subSys, _exclude=_exclude)
-                setAttr(self, '_QuantumSystem__dimension', oldDim)
+                setAttr(subSys, '_QuantumSystem__dimension', oldDim)
             subSys.superSys = None
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
-- 
2.43.0


From 42da56f0824db00a5307b9665d687eb7dc89a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 38/63] fix: a system added to a gate re-creates the gate's
 unitary

---
 src/quanguru/classes/QPro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 0938557..cad4deb 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -466,6 +466,7 @@ class Gate(genericProtocol):
         # FIXME this becomes 'fixed' unless the dimension is changed.
         #if self.implementation.lower() != 'instant':
         newSys._paramBoundBase__paramBound[self.name] = self
+        self._paramUpdated = True
         return newSys
 
     @system.setter
-- 
2.43.0


From 361d16fcf086a7e3542c574987bcb991c15a4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 39/63] fix: a system removed from a gate re-creates the gate's
 unitary

---
 src/quanguru/classes/QPro.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index cad4deb..ebfe07f 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -202,6 +202,14 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             self.simulation._bound(supSys.simulation) # pylint: disable=protected-access
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
 
+    def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=dangerous-default-value
+        super()._removeSubSysExc(subSys, _exclude=_exclude)
+        self._paramUpdated = True
+
+    def resetSubSys(self):
+        super().resetSubSys()
+        self._paramUpdated = True
+
     def unitary(self, collapseOps = None, decayRates = None):
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
@@ -338,14 +346,6 @@ class qProtocol(genericProtocol):
                 if ((step.superSys is None) and (self.superSys is not None)):
                     step.superSys = self.superSys
 
-    def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=dangerous-default-value
-        super()._removeSubSysExc(subSys, _exclude=_exclude)
-        self._paramUpdated = True
-
-    def resetSubSys(self):
-        super().resetSubSys()
-        self._paramUpdated = True
-
     def _puValues(self, step, vals):#pylint:disable=dangerous-default-value
         subSysList = list(self.subSys.values())
         ind = subSysList.index(step) + 1
-- 
2.43.0


From 01d933d189bc3edab0004b03fa758149fe9ed6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 40/63] fix: objects that nothing else refers to could not be
 found by name in worker processes

---
 src/quanguru/classes/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index f59fcdb..b84e031 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -360,13 +360,11 @@ class named:
         return state
 
     def __setstate__(self, state):
+        # the unpickled _allInstaces keeps the objects themselves (not weak references), because some of them might not
+        # be referenced by anything else in this process
         for slot in state:
             setattr(self, slot, state[slot])
 
-        for k, v in self._allInstaces.items(): # pylint: disable=protected-access
-            if isinstance(v, named):
-                self._allInstaces[k] = weakref.ref(v, None) # pylint: disable=protected-access
-
     def __init__(self, **kwargs) -> None:
         #: boolean to distinguish internally and explicitly created instances.
         self._internal: bool = checkCorType(kwargs.pop('_internal', False), bool, '_internal')
-- 
2.43.0


From 26ede8d1082eef773312e525dcd1ed4cd1c5b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 41/63] fix: a default name could be the alias of another
 object

---
 src/quanguru/classes/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index b84e031..0db60e1 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -413,11 +413,11 @@ class named:
 
         :returns: the default name
         """
-        if self._internal is False:
-            name = self.clsLabel() + str(self.clsInstances(self._internal))
-        else:
-            name = '_' + self.clsLabel() + str(self.clsInstances(self._internal))
-        return name
+        label = self.clsLabel() if self._internal is False else '_' + self.clsLabel()
+        count = self.clsInstances(self._internal)
+        while label + str(count) in named._allInstacesDict: # the name is used as an alias for another object
+            count += 1
+        return label + str(count)
 
     @property
     def name(self) -> aliasClass:
-- 
2.43.0


From e9609365062f2384945879f619019225947de2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 42/63] fix: objects of user subclasses without __slots__ lost
 attributes or raised when pickled for parallel runs

---
 src/quanguru/classes/base.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 0db60e1..aa7bf8a 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -41,7 +41,6 @@ import inspect
 
 import warnings
 import weakref
-from itertools import chain
 from typing import Callable, Hashable, Dict, Optional, List, Union, Any, Tuple, Mapping
 
 from .exceptions import raiseAttrType, checkNotVal, checkCorType
@@ -333,29 +332,19 @@ class named:
 
     __slots__ = ["__name", "_internal", "__weakref__", "_allInstaces"]
 
-    @classmethod
-    def _findInSlots(cls, k):
-        if hasattr(cls, "__slots__"):
-            if k in cls.__slots__:
-                k =  "_" + cls.__name__
-            elif cls.__base__ != object:
-                k = cls.__base__._findInSlots(k) # pylint: disable=no-member,protected-access
-        return k
-
     def __getstate__(self):
         for k, v in self._allInstaces.items(): # pylint: disable=protected-access
             if ((not isinstance(v, named)) and (v is not None)):
                 self._allInstaces[k] = v() # pylint: disable=protected-access
-        state = {}
-        slots = chain.from_iterable(getattr(cls, '__slots__', []) for cls in self.__class__.__mro__)
-        for k in slots:
-            if k == '__weakref__':
-                continue
-
-            if (k.startswith("__") and (not k.endswith("__"))):
-                k = self._findInSlots(k) + k
-                state[k] = getattr(self, k)
-            else:
+        # attributes of the classes that do not define __slots__ are in __dict__
+        state = dict(getattr(self, '__dict__', {}))
+        for cls in self.__class__.__mro__:
+            for k in cls.__dict__.get('__slots__', []):
+                if k in ('__weakref__', '__dict__'):
+                    continue
+
+                if (k.startswith("__") and (not k.endswith("__"))):
+                    k = "_" + cls.__name__.lstrip("_") + k
                 state[k] = getattr(self, k)
         return state
 
-- 
2.43.0


From b53716350468aeb0338d6f2bd972515d00384e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 43/63] fix: copy of a nested composite system with a coupling
 between its inner systems raised

---
 src/quanguru/classes/QSystem.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index f871cf1..0762549 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -712,20 +712,28 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
     def _freeMatrix(self, qMat):
         self._firstTerm._freeMatrix = qMat # pylint: disable=protected-access
 
+    def _copiedSubSys(self, newSys):
+        r"""
+        Names of the sub-systems (at every level) of self mapped to the corresponding sub-systems of its copy ``newSys``
+        """
+        copies = {}
+        for qsys, cqsys in zip(self.subSys.values(), newSys.subSys.values()):
+            copies[qsys.name] = cqsys
+            copies.update(qsys._copiedSubSys(cqsys)) # pylint: disable=protected-access
+        return copies
+
     def copy(self, **kwargs):
         newSys = super().copy()
         for qsys in self.subSys.values():
             cqsys = qsys.copy()
             cqsys.alias = qsys.name + "_" + cqsys.name
             newSys.addSubSys(cqsys)
-        subSysList = list(newSys.subSys.values())
+        copies = self._copiedSubSys(newSys)
         for ter in self.terms.values():
             if isinstance(ter.qSystem, QuantumSystem):
                 qSystemNames = newSys
             else:
-                qSystemNames = []
-                for qsys in ter.qSystem:
-                    qSystemNames.append(qsys.name + "_" + subSysList[qsys.ind].name)
+                qSystemNames = [copies[qsys.name] for qsys in ter.qSystem]
 
             if newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
                 newSys.createTerm(qSystem=qSystemNames, #pylint:disable=no-member
-- 
2.43.0


From 68022630c89df3e3b9dd099c3fd2d6aa910638c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 44/63] fix: step size given to a system or protocol was
 overwritten when it joined a simulation that has a step count

---
 src/quanguru/classes/QSimBase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 1453fde..3f8dde5 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -481,7 +481,9 @@ class timeBase(stateBase):
             bounding = True
             for ind, key in enumerate(keys):
                 if getattr(self, key)._bound is False: # pylint: disable=protected-access
-                    if getattr(other, key)._value is not None: # pylint: disable=protected-access
+                    # stepCount follows from the other two, and setting it again would modify the stepSize
+                    derived = key == '_timeBase__stepCount' and None not in (self.stepSize, self.totalTime)
+                    if getattr(other, key)._value is not None and not derived: # pylint: disable=protected-access
                         setattr(self, keysProp[ind], getattr(self, key)._value) # pylint: disable=protected-access
 
                     if bounding:
-- 
2.43.0


From 1a2d189e69900d81305e16700035e2f24dd90c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 45/63] fix: a system or protocol with its own time settings
 was cut off from the clock and initial state of its simulation

---
 src/quanguru/classes/QSim.py     |  9 +++++----
 src/quanguru/classes/QSimBase.py | 10 +++-------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 1692c80..ee8119c 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -112,10 +112,11 @@ class Simulation(timeBase):
         the step size.
         """
         try:
-            if isinstance(self._timeBase__bound, Simulation): # pylint: disable=no-member
-                time = self._timeBase__bound._currentTime # pylint: disable=no-member
-            else:
-                time = self.stepSize*(self.__index+1)
+            # the step counter is in the simulation that runs, and self might be bound to it with its own step size
+            running = self
+            while isinstance(running._timeBase__bound, Simulation): # pylint: disable=no-member
+                running = running._timeBase__bound # pylint: disable=no-member
+            time = self.stepSize*(running._Simulation__index+1) # pylint: disable=no-member
         except: #pylint:disable=bare-except # noqa: E722
             time = 0
         return time
diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 3f8dde5..89d85ab 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -49,17 +49,13 @@ def setAttr(obj: paramBoundBase, attrStr: str, val: Any) -> None:
 def setAttrParam(obj: paramBoundBase, attrStr: str, val: Any) -> None:
     r"""
     a customized setattr that changes the value stored as the ``value`` attribute of a _parameter object.
-    The value (and _paramUpdated) is changed, if the new value is different than the old/existing. In any case, it
-    breaks existing timeBase bounds (bound between :class:`~Simulation` instances).
+    The _paramUpdated is changed, if the new value is different than the old/existing. In any case, it breaks the
+    existing bound of the _parameter object.
     Especially useful for multi parameter sweeps (see :class:`~_sweep`).
     """
     oldVal = getattr(obj, attrStr).value
-    if obj._timeBase__bound is not None:
-        obj._timeBase__bound._paramBoundBase__paramBound.pop(obj.name, None)
-        obj._timeBase__bound = None
-
+    getattr(obj, attrStr).value = val
     if val != oldVal:
-        getattr(obj, attrStr).value = val
         setattr(obj, '_paramUpdated', True)
 
 class _parameter: # pylint: disable=too-few-public-methods
-- 
2.43.0


From de86ae0687a6073a5322154793428f43194b8fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 46/63] fix: removeSweep of a system keeps the sweeps of other
 systems

Sweep.removeSweep(system) asked every sweep to drop the system and raised
KeyError at the first sweep that does not contain it. Removing a protocol or
a system from a simulation calls it, so these raised half way whenever the
simulation swept anything else.
---
 src/quanguru/classes/QSweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 26bf8ad..26e0350 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -256,10 +256,11 @@ class Sweep(qBase):
         Else, it calls the :meth:`removeSubSys <quanguru.classes.base.qBase.removeSubSys>` on every ``_sweep`` in its
         ``subSys`` dictionary (since ``systems`` are stored in ``subSys`` dictionary of ``_sweep`` objects).
         """
+        sys = self.getByNameOrAlias(sys)
         if isinstance(sys, _sweep):
             super()._removeSubSysExc(sys, _exclude=[])
         else:
-            sweeps = list(self.subSys.values())
+            sweeps = [sweep for sweep in self.subSys.values() if any(sub is sys for sub in sweep.subSys.values())]
             for sweep in sweeps:
                 sweep._removeSubSysExc(sys, _exclude=[]) #pylint:disable=protected-access
                 if len(sweep.subSys) == 0:
-- 
2.43.0


From 18163f8f0676871c33b9331305067d48ed3a9254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 47/63] fix: removing a system from a simulation works when it
 has a protocol

removeQSystems/removeSubSys looked the system up by name among the keys,
which are protocols once one is given or a run took place, and raised
KeyError. The protocols of the removed system and their sweeps go too.
---
 src/quanguru/classes/QSim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index ee8119c..cdccf35 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -235,7 +235,14 @@ class Simulation(timeBase):
         """
         #for key, subSys in self._qBase__subSys.items(): # pylint: disable=no-member
         #    if ((subSys is subS) or (subSys.name == subS)):
-        super()._removeSubSysExc(subS, _exclude=[]) # pylint: disable=no-member
+        subS = self.getByNameOrAlias(subS)
+        keys = [key for key, qSys in self._qBase__subSys.items() if qSys is subS] # pylint: disable=no-member
+        if len(keys) == 0:
+            raise KeyError(subS.name)
+        for key in keys:
+            self._qBase__subSys.pop(key) # pylint: disable=no-member
+            if isinstance(key, named) and (key is not subS._freeEvol):
+                self.removeSweep([key, key.simulation])
         #print(subS.name + ' and its protocol ' + key.name + ' is removed from qSystems of ' + self.name)
         self.removeSweep([subS, subS.simulation, subS._freeEvol, subS._freeEvol.simulation])
 
-- 
2.43.0


From 12d56544936552656a498129c530db0e215992cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 48/63] fix: removeProtocol removes the free evolution and
 works with names

Removing (or replacing) the default free evolution by the name of its system,
as documented, raised AttributeError before the first run and did nothing
after it; giving the free evolution object before the first run, or the name
or alias of any protocol, silently did nothing.
---
 src/quanguru/classes/QSim.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index cdccf35..284e5c5 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -261,9 +261,17 @@ class Simulation(timeBase):
         r"""
         Remove a protocoal and corresponding sweeps from the simulation.
         """
-        # FIXME what if freeEvol case, protocol then corresponds to qsys.name before simulation run
-        #  or a freeEvol obj after run
-        qsys = self._qBase__subSys.pop(Protocol, None) # pylint: disable=no-member
+        if Protocol is None:
+            return
+        Protocol = self.getByNameOrAlias(Protocol)
+        key = Protocol
+        for qsys in self.qSystems:
+            if (Protocol is qsys) or (Protocol is qsys._freeEvol): # pylint: disable=protected-access
+                # free evolution, its key is the name of the system before the simulation is run
+                Protocol = qsys._freeEvol # pylint: disable=protected-access
+                key = Protocol if Protocol in self._qBase__subSys else qsys.name # pylint: disable=no-member
+                break
+        qsys = self._qBase__subSys.pop(key, None) # pylint: disable=no-member
         if qsys is not None:
             self.removeSweep([Protocol, Protocol.simulation])
             if qsys not in self.qSystems:
-- 
2.43.0


From 50c3d6ccca2865bea8485a77533f4f127c7440d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 49/63] fix: a sweep over a range does not go beyond sweepMax

arange(min, max + step, step) has one more value whenever the range is not a
multiple of the step, and, by rounding, sometimes when it is: 0.1 to 0.3 in
steps of 0.1 also swept 0.4.
---
 src/quanguru/classes/QSweep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 26e0350..eacabbf 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -25,6 +25,7 @@ r"""
 """
 
 from functools import reduce
+from math import floor
 from numpy import arange, logspace
 
 from .base import qBase, _recurseIfList
@@ -130,8 +131,9 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
         if self._sweepList is None:
             try:
                 if self.logSweep is False:
-                    self._sweepList = arange(self.sweepMin, self.sweepMax + self.sweepStep, # pylint: disable=no-member
-                                             self.sweepStep) # pylint: disable=no-member
+                    # the number of values is rounded down, sweepMax is the largest value that can be swept
+                    num = floor((self.sweepMax - self.sweepMin)/self.sweepStep + 1e-9) + 1 # pylint: disable=no-member
+                    self._sweepList = self.sweepMin + arange(num)*self.sweepStep # pylint: disable=no-member
                 elif self.logSweep is True:
                     self._sweepList = logspace(self.sweepMin, self.sweepMax,
                                                num=self.sweepStep, base=10.0) # pylint: disable=no-member
-- 
2.43.0


From 1c3f7f320a87780b2514e673b9561ab4f01910b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 50/63] fix: frequencies can be swept over ranges of integers

The range is an array, and its numpy integers are not accepted as frequency:
sweepMin=1, sweepMax=3, sweepStep=1 (or any integer array) raised TypeError.
---
 src/quanguru/classes/QSweep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index eacabbf..cbb1e39 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -26,7 +26,7 @@ r"""
 
 from functools import reduce
 from math import floor
-from numpy import arange, logspace
+from numpy import arange, generic, logspace
 
 from .base import qBase, _recurseIfList
 from .baseClasses import updateBase
@@ -164,7 +164,9 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
         """
 
         val = self.sweepList[self.index]
-        self._runUpdate(val)
+        # arrays (such as the ones created from sweepMin-sweepMax-sweepStep) contain numpy numbers, but, for example, the
+        # frequencies do not accept numpy integers
+        self._runUpdate(val.item() if isinstance(val, generic) else val)
 
     def runSweep(self, ind):
         r"""
-- 
2.43.0


From 6500d1b738c6d0dd52cb92f0546d618fbac23408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 51/63] fix: the copy of a system has all of its terms

---
 src/quanguru/classes/QSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 0762549..621e08d 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -729,13 +729,13 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             cqsys.alias = qsys.name + "_" + cqsys.name
             newSys.addSubSys(cqsys)
         copies = self._copiedSubSys(newSys)
-        for ter in self.terms.values():
+        for ind, ter in enumerate(self.terms.values()):
             if isinstance(ter.qSystem, QuantumSystem):
                 qSystemNames = newSys
             else:
                 qSystemNames = [copies[qsys.name] for qsys in ter.qSystem]
 
-            if newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
+            if (newSys._QuantumSystem__firstTerm is None) or (ind > 0):#pylint:disable=no-member,protected-access
                 newSys.createTerm(qSystem=qSystemNames, #pylint:disable=no-member
                                   operator=ter.operator,
                                   frequency=ter.frequency,
-- 
2.43.0


From ab3af3ae6d4541d42ce358ec5e2900f4766c29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 52/63] fix: the first term and the Hamiltonian follow
 resetTerms

---
 src/quanguru/classes/QSystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 621e08d..b353e4d 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -653,6 +653,9 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         Method to delete all the existing terms by assigning a new empty dictionary.
         """
         self._QuantumSystem__terms = aliasDict() # pylint:disable=assigning-non-slot
+        self._QuantumSystem__firstTerm = None # pylint:disable=assigning-non-slot
+        self.delMatrices(_exclude=[])
+        self._paramUpdated = True
 
     @terms.setter
     def terms(self, trm):
-- 
2.43.0


From 63051371c51e05c52aca82df3fdf7f62a2f3fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 53/63] fix: copying a generic system that has an initial state

---
 src/quanguru/classes/QSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index b353e4d..54478b0 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -748,11 +748,11 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 newSys._firstTerm.operator=ter.operator#pylint:disable=no-member,protected-access
                 newSys._firstTerm.frequency=ter.frequency#pylint:disable=no-member,protected-access
                 newSys._firstTerm.order=ter.order#pylint:disable=no-member,protected-access
-        if self.simulation._stateBase__initialStateInput._value is not None:
-            newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot
         if not self._isComposite:
             newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
             newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
+        if self.simulation._stateBase__initialStateInput._value is not None:
+            newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot
         newSys._named__setKwargs(**kwargs) #pylint:disable=no-member
         return newSys
 
-- 
2.43.0


From 17f37ccf55abd2f6a3e1ba0e35527d6bb6970403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 54/63] fix: the parameters an update function changes are
 always set back

---
 src/quanguru/classes/QPro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index ebfe07f..5accc46 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -558,5 +558,5 @@ class Update(updateBase):
         # each system gets its own value back, since an update may act on systems with different values
         memory = self._Update__memory or [(subSys, self.memoryValue) for subSys in self.subSys.values()]
         for subSys, value in memory:
-            if self.value != value:
+            if (self._updateBase__function is not None) or (self.value != value): # pylint: disable=no-member
                 setattr(subSys, self.key, value)
-- 
2.43.0


From c5e8fbdcea0310f61c6552e67d0ee63d92a8433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 55/63] fix: the updates of a protocol do not reach beyond that
 protocol

---
 src/quanguru/classes/QPro.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 5accc46..c5ca089 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -241,9 +241,18 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         finally:
             for update in reversed(active):
                 update.setback()
+            if active:
+                self._forgetSteps()
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
+    def _forgetSteps(self):
+        # the matrices of the steps are created with the updated parameters, which are valid only in this protocol
+        for step in self.subSys.values():
+            if isinstance(step, genericProtocol) and (not step.fixed):
+                step._paramBoundBase__matrix = None
+                step._forgetSteps() # pylint: disable=protected-access
+
     def _paramUpdatedToFalse(self):
         if self._paramUpdated:
             for protocol in self._protocols:
-- 
2.43.0


From bda3f37d7cd32cc0e8c3641ab9ccea230ede82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 56/63] fix: a system added to a part of a composite gets the
 dimensions of the whole

---
 src/quanguru/classes/QSystem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 54478b0..684575e 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -377,6 +377,10 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         for subS in self.subSys.values():
             subS._dimsAfter *= subSys.dimension
             subSys._dimsBefore *= subS.dimension
+        subSys._dimsAfter *= self._dimsAfter
+        subSys._dimsBefore *= self._dimsBefore
+        if self.superSys is not None:
+            self.superSys._updateDimension(self, self.dimension*subSys.dimension, self.dimension)
         return subSys
 
     @addDecorator
-- 
2.43.0


From 395558254c33a60d5cab0a7c33a6b2bae6027b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 57/63] fix: removing a composite part keeps its own terms and
 removes the couplings to its parts

---
 src/quanguru/classes/QSystem.py | 15 +++++++++++----
 src/quanguru/classes/QTerms.py  |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 684575e..549d7d1 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -487,11 +487,16 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 # 1. because subSys.subSys changes its size due to _removeSubSysExc calls
                 # 2. we add these systems back again after removal
                 qsysList = list(subSys.subSys.values())
+                terms = subSys.terms.copy()
                 for qsys in qsysList:
                     subSys._removeSubSysExc(qsys, _exclude=_exclude)#pylint:disable=protected-access
                 super()._removeSubSysExc(subSys, _exclude=_exclude)
-                # add the sub-systems of subSys back again
+                subSys.superSys = None
+                subSys._dimsAfter = 1
+                subSys._dimsBefore = 1
+                # add the sub-systems of subSys (and its terms between them) back again
                 subSys.addSubSys(qsysList)
+                subSys._QuantumSystem__terms = terms
             else:
                 oldDim = subSys.dimension
                 subSys.dimension = 1
@@ -514,10 +519,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                     if self.superSys is not None:
                         self.superSys._removeSubSysExc(subSys, _exclude=_exclude) #pylint:disable=protected-access
 
-        if subSys is not self:
-            termObjs = list(self.terms.values())
+        owner = self
+        while owner not in (None, subSys): # the terms of the systems that contain self also might use subSys
+            termObjs = list(owner.terms.values())
             for ter in termObjs:
-                ter._removeTermIfQSysInList(self, subSys)#pylint:disable=protected-access
+                ter._removeTermIfQSysInList(owner, subSys)#pylint:disable=protected-access
+            owner = owner.superSys
         self.delMatrices(_exclude=[])
         self._paramUpdated = True
 
diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 6fcc983..d7ef541 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -120,7 +120,7 @@ class QTerm(paramBoundBase):
         This is an internal method used in removeSubSys of quantum systems.
         """
         if isinstance(self.qSystem, (list, tuple)):
-            if subSys in self.qSystem:
+            if any(((qs is subSys) or subSys._hasInSubs(qs)) for qs in self.qSystem):
                 qSys.removeTerm(self)
 
     @staticmethod
-- 
2.43.0


From 5bbc1f7374cac063d7bdca0f53fa78d378917116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 58/63] fix: changing a shared thermal bath reaches the steps
 of the protocols with its dissipators

---
 src/quanguru/classes/environment.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index eea7750..926036e 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -179,6 +179,14 @@ class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
         _genericOpen.subSys.fset(self, subS)
         subS._dissipatorObj__bath = self #pylint:disable=protected-access
         self._paramBoundBase__paramBound[subS.name] = subS # pylint: disable=no-member
+        subS._rateUpdated() #pylint:disable=protected-access
+
+    def _ratesUpdated(self):
+        r"""
+        The rates of all the dissipators of the bath depend on its temperature and characteristic frequency.
+        """
+        for dissipator in self._paramBound.values():
+            dissipator._rateUpdated() #pylint:disable=protected-access
 
     @dissipator.setter
     def dissipator(self, subS):
@@ -195,6 +203,7 @@ class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
     @temperature.setter
     def temperature(self, temp):
         setAttr(self, '_thermalBath__temperature', temp)
+        self._ratesUpdated()
 
     @property
     def charFreq(self):
@@ -206,6 +215,7 @@ class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
     @charFreq.setter
     def charFreq(self, freq):
         setAttr(self, '_thermalBath__charFreq', freq)
+        self._ratesUpdated()
 
     @property
     def nBar(self):
-- 
2.43.0


From 68e533e4ad8addf9fc07c1e44f3fd27c933e33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 59/63] fix: adding a system by name with a protocol keeps the
 default protocol already there

---
 src/quanguru/classes/QSim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 284e5c5..326358e 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -26,7 +26,7 @@ import sys
 import platform
 import multiprocessing
 
-from .base import _recurseIfList, named
+from .base import _recurseIfList, named, aliasClass
 from .QSimBase import timeBase
 from .QSweep import Sweep
 from .modularSweep import runSimulation
@@ -195,6 +195,8 @@ class Simulation(timeBase):
             for qsys in subS:
                 self.addQSystems(qsys, **kwargs)
         else:
+            if isinstance(subS, (str, aliasClass)):
+                subS = self.getByNameOrAlias(subS)
             # this horrible solution needs to be fixed!
             if subS not in self._qBase__subSys.values(): # pylint: disable=no-member
                 subS = super().addSubSys(subS, **kwargs)
-- 
2.43.0


From 973307f5f9686891003be398fdfb03f4bde0bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 60/63] fix: a changed sweep range takes effect after a run

---
 src/quanguru/classes/QSweep.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index cbb1e39..cc358a3 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -126,20 +126,21 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
     def sweepList(self):
         r"""
         gets and sets :py:attr:`~_sweepList`. Setter requires a list input, if it is not set, getter tries creating the
-        list (and setting :py:attr:`~_sweepList`) using sweepMin-sweepMax-sweepStep attributes.
+        list using the current values of sweepMin-sweepMax-sweepStep attributes.
         """
-        if self._sweepList is None:
+        sweepList = self._sweepList
+        if sweepList is None:
             try:
                 if self.logSweep is False:
                     # the number of values is rounded down, sweepMax is the largest value that can be swept
                     num = floor((self.sweepMax - self.sweepMin)/self.sweepStep + 1e-9) + 1 # pylint: disable=no-member
-                    self._sweepList = self.sweepMin + arange(num)*self.sweepStep # pylint: disable=no-member
+                    sweepList = self.sweepMin + arange(num)*self.sweepStep # pylint: disable=no-member
                 elif self.logSweep is True:
-                    self._sweepList = logspace(self.sweepMin, self.sweepMax,
-                                               num=self.sweepStep, base=10.0) # pylint: disable=no-member
+                    sweepList = logspace(self.sweepMin, self.sweepMax,
+                                         num=self.sweepStep, base=10.0) # pylint: disable=no-member
             except: #pylint:disable=bare-except # noqa: E722
                 pass
-        return self._sweepList
+        return sweepList
 
     @sweepList.setter
     def sweepList(self, sList):
-- 
2.43.0


From 856125f161273f3df8d1c342aee38ce01b8137f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 61/63] fix: a time-dependency sweep given by a range runs its
 own number of steps

---
 src/quanguru/classes/modularSweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 49f3d6e..061619f 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -109,7 +109,7 @@ def timeDependent(qSim):
     td = False
     if len(qSim.timeDependency.sweeps) > 0:
         td = True
-        if list(qSim.timeDependency.sweeps.values())[0]._sweepList is not None: #pylint: disable=protected-access
+        if list(qSim.timeDependency.sweeps.values())[0].sweepList is not None:
             qSim.timeDependency.prepare()
         else:
             qSim.timeDependency._Sweep__inds = [qSim.stepCount] #pylint: disable=protected-access
-- 
2.43.0


From 882d198b358f674e94eefe396b238518504a4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:30 +0000
Subject: [PATCH 62/63] fix: time-dependent sweeps put the original values back
 after each evolution

---
 src/quanguru/classes/modularSweep.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 061619f..e2b628f 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -78,6 +78,16 @@ def parallelTimeEvol(qSim, ind):
 # These two functions, respectively, run Sweep and timeDependent (sweep) parameter updates
 # In the timeDependet case, evolFunc of first function is the second function
 def _runSweepAndPrep(qSim, ind):
+    # the time-dependent sweeps leave their last values behind, but the next evolution starts with the original values
+    values = [(sys, sweep.sweepKey, getattr(sys, sweep.sweepKey)) for sweep in qSim.timeDependency.sweeps.values()
+              for sys in sweep.subSys.values() if hasattr(sys, str(sweep.sweepKey))]
+    try:
+        _runSweepPoint(qSim, ind)
+    finally:
+        for sys, key, value in values:
+            setattr(sys, key, value)
+
+def _runSweepPoint(qSim, ind):
     qSim._Simulation__index = -1 # pylint: disable=protected-access
     if len(qSim.Sweep.inds) > 0:
         qSim.Sweep.runSweep(qSim.Sweep._indicesForSweep(ind, *qSim.Sweep.inds))
-- 
2.43.0


From eba5ad53b1aa890e07c4f34eb7d87216e2197d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:24 +0000
Subject: [PATCH 63/63] fix: results recorded at some of the points of a sweep
 only

---
 src/quanguru/classes/QRes.py         | 24 ++++++++++++++++--------
 src/quanguru/classes/modularSweep.py |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/quanguru/classes/QRes.py b/src/quanguru/classes/QRes.py
index 285896e..1250d81 100644
--- a/src/quanguru/classes/QRes.py
+++ b/src/quanguru/classes/QRes.py
@@ -23,6 +23,7 @@ r"""
 
 """
 from collections import defaultdict
+from math import prod
 
 from .base import qBase, aliasDict
 
@@ -278,9 +279,9 @@ class qResults(qResBase):
         # every worker starts from (a copy of) these, so they are skipped in the values returned by the workers
         before = {keyUni: {key: len(val) for key, val in qRes.calculated.items()}
                   for keyUni, qRes in self.allResults.items()}
-        for res in results:
+        for ind, res in enumerate(results):
             for keyUni, valUni in res.items():
-                self._organise(keyUni, valUni)
+                self._organise(keyUni, valUni, ind)
                 for key, val in valUni.calculated.items():
                     self.allResults[keyUni].calculated[key].extend(val[before[keyUni].get(key, 0):])
         self._finaliseAll(inds)
@@ -295,25 +296,30 @@ class qResults(qResBase):
             qres._finalise(inds)
 
     @staticmethod
-    def _organise(keyUni, valUni):
+    def _organise(keyUni, valUni, ind):
         r"""
         At the end of time evolution, :meth:`~_organise` creates a single list containing all the results/states for
-        each key.
+        each key. ``ind`` is the number of the time evolutions before this one, and the ones that stored nothing for a
+        key have an empty list in its list.
         """
         for key, val in valUni.resultsDict.items():
-            qResults._allResults[keyUni]._qResBase__results[key].append(val) # pylint: disable=no-member
+            results = qResults._allResults[keyUni]._qResBase__results[key] # pylint: disable=no-member
+            results.extend([] for _ in range(ind - len(results)))
+            results.append(val)
 
         for key1, val1, in valUni.states.items():
-            qResults._allResults[keyUni]._qResBase__states[key1].append(val1) # pylint: disable=no-member
+            states = qResults._allResults[keyUni]._qResBase__states[key1] # pylint: disable=no-member
+            states.extend([] for _ in range(ind - len(states)))
+            states.append(val1)
 
-    def _organiseSingleProcRes(self):
+    def _organiseSingleProcRes(self, ind):
         r"""
         organising the single-process results by simply calling :meth:`~_organise` on every qResults instance in
         allResults dictionary. This needs to be finalised, ie. creates a single list containing every sweep, so the list
         has to be reshaped.
         """
         for keyUni, valUni in self.allResults.items():
-            self._organise(keyUni, valUni)
+            self._organise(keyUni, valUni, ind)
 
     def _finalise(self, inds):
         r"""
@@ -321,12 +327,14 @@ class qResults(qResBase):
         """
         for key, val in self._qResBase__results.items(): # pylint: disable=no-member
             if inds != []:
+                val.extend([] for _ in range(prod(inds) - len(val)))
                 self._qResBase__results[key], _ = self._reShape(val, list(reversed(inds))) # pylint: disable=no-member
             else:
                 self._qResBase__results[key] = val[0]  # pylint: disable=no-member
 
         for key1, val1 in self._qResBase__states.items(): # pylint: disable=no-member
             if inds != []:
+                val1.extend([] for _ in range(prod(inds) - len(val1)))
                 self._qResBase__states[key1], _ = self._reShape(val1, list(reversed(inds))) # pylint: disable=no-member
             else:
                 self._qResBase__states[key1] = val1[0] # pylint: disable=no-member
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index e2b628f..b3b4deb 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -52,7 +52,7 @@ def runSimulation(qSim, p):
 def nonParalEvol(qSim):
     for ind in range(qSim.Sweep.indMultip):
         _runSweepAndPrep(qSim, ind)
-        qSim.qRes._organiseSingleProcRes() # pylint: disable=protected-access
+        qSim.qRes._organiseSingleProcRes(ind) # pylint: disable=protected-access
     qSim.qRes._finaliseAll(qSim.Sweep.inds) # pylint: disable=protected-access
 
 # multi-processing functions
-- 
2.43.0

