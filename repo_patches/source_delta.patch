From c1f677ce16946332c96f435ff6a965f672d01999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 001/116] fix: re-include all actuators before the Jacobian is
 recomputed when the scheduled DMs change

---
 falco/ctrl.py | 60 ++++++++++++++++++++++++++++++++++++---------------
 falco/wfsc.py |  1 +
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 5c83f1a..8dfb681 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -127,9 +127,12 @@ def wrapper(mp, cvar, jacStruct):
     return None
 
 
-def cull_weak_actuators(mp, cvar, jacStruct):
+def include_all_actuators(mp, cvar):
     """
-    Remove weak actuators from the controlled set.
+    Re-include all actuators in the controlled set if a new cull is needed.
+
+    Must be called before the Jacobian is computed because the Jacobian is
+    computed only for the actuators in the controlled set.
 
     Parameters
     ----------
@@ -137,17 +140,12 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         Structure containing optical model parameters
     cvar : ModelParameters
         Structure containing controller variables
-    jacStruct : ModelParameters
-        Structure containing control Jacobians for each specified DM.
 
     Returns
     -------
     None
-        Changes are made by reference to mp and jacStruct.
+        Changes are made by reference to mp and cvar.
     """
-    if type(mp) is not falco.config.ModelParameters:
-        raise TypeError('Input "mp" must be of type ModelParameters')
-
     if cvar.Itr == 0:  # Cull in first iteration
         cvar.flagCullAct = True
     else:  # Cull when actuators used change
@@ -164,15 +162,17 @@ def cull_weak_actuators(mp, cvar, jacStruct):
 
     # Before performing new cull, include all actuators again
     if cvar.flagCullAct:
-        # Re-include all actuators in the basis set.
-        if np.any(mp.dm_ind == 1):
-            mp.dm1.act_ele = list(range(mp.dm1.NactTotal))
-        if np.any(mp.dm_ind == 2):
-            mp.dm2.act_ele = list(range(mp.dm2.NactTotal))
-        if np.any(mp.dm_ind == 8):
-            mp.dm8.act_ele = list(range(mp.dm8.NactTotal))
-        if np.any(mp.dm_ind == 9):
-            mp.dm9.act_ele = list(range(mp.dm9.NactTotal))
+        # Re-include all actuators in the basis set. If the Jacobian is not
+        # being recomputed, keep the actuators that the Jacobian has.
+        if cvar.flagRelin:
+            if np.any(mp.dm_ind == 1):
+                mp.dm1.act_ele = np.arange(mp.dm1.NactTotal)
+            if np.any(mp.dm_ind == 2):
+                mp.dm2.act_ele = np.arange(mp.dm2.NactTotal)
+            if np.any(mp.dm_ind == 8):
+                mp.dm8.act_ele = np.arange(mp.dm8.NactTotal)
+            if np.any(mp.dm_ind == 9):
+                mp.dm9.act_ele = np.arange(mp.dm9.NactTotal)
 
         # Update the number of elements used per DM
         if np.any(mp.dm_ind == 1):
@@ -192,6 +192,32 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         else:
             mp.dm9.Nele = 0
 
+    return None
+
+
+def cull_weak_actuators(mp, cvar, jacStruct):
+    """
+    Remove weak actuators from the controlled set.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+    cvar : ModelParameters
+        Structure containing controller variables
+    jacStruct : ModelParameters
+        Structure containing control Jacobians for each specified DM.
+
+    Returns
+    -------
+    None
+        Changes are made by reference to mp and jacStruct.
+    """
+    if type(mp) is not falco.config.ModelParameters:
+        raise TypeError('Input "mp" must be of type ModelParameters')
+
+    include_all_actuators(mp, cvar)
+
     # Reduce the number of actuators used based on their relative strength
     # in the Jacobian
     if cvar.flagCullAct and cvar.flagRelin:
diff --git a/falco/wfsc.py b/falco/wfsc.py
index cae6fc2..1753296 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -77,6 +77,7 @@ def loop(mp, out):
     
             # Compute the control Jacobians for each DM
             cvar.flagRelin = np.any(mp.relinItrVec == Itr) or Itr == 0
+            falco.ctrl.include_all_actuators(mp, cvar)
             if cvar.flagRelin:
                 jacStruct = falco.model.jacobian(mp)
 
-- 
2.43.0


From c66a24c805e6f78745c5f132587e2e9532265525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 002/116] fix: do not compound the spatial weighting of the
 Jacobian over iterations without relinearization

---
 falco/wfsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 1753296..41caade 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -1,5 +1,5 @@
 """WFSC Loop Function."""
-from copy import copy
+from copy import deepcopy
 import numpy as np
 import os
 import time
@@ -123,7 +123,7 @@ def loop(mp, out):
 
         # Send a copy of jacStruct so that spatial weights don't show up 
         # outside the controller or get applied multiple times.
-        falco.ctrl.wrapper(mp, cvar, copy(jacStruct))
+        falco.ctrl.wrapper(mp, cvar, deepcopy(jacStruct))
 
         # Store key data in out object
         out.log10regHist[Itr] = cvar.log10regUsed
-- 
2.43.0


From 52101f96ec4b0afa292a7ab30133f4c2038317b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 003/116] fix: do not overwrite the incoherent estimate when
 storing intensities

---
 falco/wfsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 41caade..cbb3a64 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -343,7 +343,7 @@ def store_intensities(mp, out, ev, Itr):
 
     # Apply subband weights and then sum over subbands
     Iest = np.abs(ev.Eest)**2
-    Iinco = ev.IincoEst
+    Iinco = ev.IincoEst.copy()
     for iMode in range(mp.jac.Nmode):
         iSubband = mp.jac.sbp_inds[iMode]
         Iest[:, iMode] = mp.sbp_weights[iSubband] * Iest[:, iMode]
-- 
2.43.0


From 58948b343b91130223a4caf74513ee6c10affd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 004/116] fix: index the parallel Jacobian by column and only
 for the DMs in use

---
 falco/model/models.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index cc82748..5e8f918 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1156,9 +1156,14 @@ def jacobian(mp):
             #     )
             # results_tuple = tuple(result)
 
-            results_order_dm1 = [(imode, idm, iact) for iact in mp.dm1.act_ele for idm in [1, ] for imode in range(mp.jac.Nmode)]
-            results_order_dm2 = [(imode, idm, iact) for iact in mp.dm2.act_ele for idm in [2, ] for imode in range(mp.jac.Nmode)]
-            results_order = results_order_dm1 + results_order_dm2
+            results_order = []
+            results_index = []  # column of the Jacobian for each result
+            for idm, dm in ((1, mp.dm1), (2, mp.dm2)):
+                if any(mp.dm_ind == idm):
+                    for index, iact in enumerate(dm.act_ele):
+                        for imode in range(mp.jac.Nmode):
+                            results_order.append((imode, idm, iact))
+                            results_index.append(index)
 
             with PoolExecutor(max_workers=mp.Nthreads) as executor:
                 result = executor.map(
@@ -1171,15 +1176,11 @@ def jacobian(mp):
             for ii in range(len(results_order)):
                 imode = results_order[ii][0]
                 idm = results_order[ii][1]
-                iact = results_order[ii][2]
+                index = results_index[ii]
                 if idm == 1:
-                    jacStruct.G1[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G1[:, index, imode] = results_tuple[ii]
                 if idm == 2:
-                    jacStruct.G2[:, iact, imode] = results_tuple[ii]
-                if idm == 8:
-                    jacStruct.G8[:, iact, imode] = results_tuple[ii]
-                if idm == 9:
-                    jacStruct.G9[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G2[:, index, imode] = results_tuple[ii]
 
             print('done.')
 
-- 
2.43.0


From a720f0f69976f47c90eeae3cf3282838f0352034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 005/116] fix: enumerate the actuators when reassembling the
 Jacobian from slices

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 5e8f918..b3cbc6a 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1287,11 +1287,11 @@ def reassemble_jac_from_slices(mp):
     # Reorder Jacobian by mode and DM from the list
     for imode in range(mp.jac.Nmode):
 
-        for index, iact in mp.dm1.act_ele:
+        for index, iact in enumerate(mp.dm1.act_ele):
             fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
             jacStruct.G1[:, index, imode] = np.load(fn_dm1)
 
-        for index, iact in mp.dm2.act_ele:
+        for index, iact in enumerate(mp.dm2.act_ele):
             fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
             jacStruct.G2[:, index, imode] = np.load(fn_dm2)
 
-- 
2.43.0


From b7ab08e4b1427f5722ca84696ad218013c85cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 006/116] fix: pin out-of-range actuators at their voltage
 limit relative to the bias voltage

---
 falco/dm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 3c42546..388ba15 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -916,13 +916,13 @@ def enforce_constraints(dm):
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmin*np.ones(new_inds.size)
+    new_vals = dm.Vmin - dm.biasMap.flatten()[new_inds]  # relative to the bias, as dm.V is
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmax*np.ones(new_inds.size)
+    new_vals = dm.Vmax - dm.biasMap.flatten()[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
-- 
2.43.0


From c15acdc4b19e52edf4027e8f80adc70f5f1ac0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 007/116] fix: keep the commands of a DM that is not used when
 probing pairwise

---
 falco/est.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 6e38f8e..16c1db5 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -292,12 +292,12 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
     # Store the initial DM commands
-    if np.any(mp.dm_ind == 1):
+    if hasattr(mp.dm1, 'V'):
         DM1Vnom = mp.dm1.V.copy()
     else:
         DM1Vnom = np.zeros((mp.dm1.Nact, mp.dm1.Nact))
 
-    if np.any(mp.dm_ind == 2):
+    if hasattr(mp.dm2, 'V'):
         DM2Vnom = mp.dm2.V.copy()
     else:
         DM2Vnom = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
@@ -706,10 +706,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         # plt.gca().invert_yaxis()
 
     # Reset nominal values that were changed
-    if np.any(mp.dm_ind == 1):
-        mp.dm1.V = DM1Vnom
-    if np.any(mp.dm_ind == 2):
-        mp.dm2.V = DM2Vnom
+    mp.dm1.V = DM1Vnom
+    mp.dm2.V = DM2Vnom
     mp.dm_ind = mp.dm_ind_init
 
     print('Completed pairwise probing estimation.')
-- 
2.43.0


From f0c14238d98e5beef9c81e3126e57ae388c9206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 008/116] fix: index the scheduled probe intensities instead of
 calling them

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 16c1db5..3db9018 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -423,7 +423,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                                      ev.InormProbeMax])
                 print('Chosen probe intensity: %.2e' % InormProbe)
             else:
-                InormProbe = mp.est.probeSchedule.InormProbeVec(Itr)
+                InormProbe = mp.est.probeSchedule.InormProbeVec[Itr]
                 print('Scheduled probe intensity: %.2e' % InormProbe)
 
             # Perform the probing
-- 
2.43.0


From 2f7f62747a0f52cad386e99c7c53b28df8d0f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 009/116] fix: do not leave actuators pinned by trial and probe
 commands that are not applied

---
 falco/ctrl.py | 12 ++++++++++++
 falco/est.py  |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 8dfb681..e7b2ab4 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -858,6 +858,10 @@ def _efc(ni, vals_list, mp, cvar):
     if any(mp.dm_ind == 9):
         DM9V0 = mp.dm9.V.copy()
 
+    # A trial command must not leave actuators pinned at their limits
+    pinned0 = [(dm, dm.pinned, dm.Vpinned) for dm in (mp.dm1, mp.dm2)
+               if hasattr(dm, 'pinned')]
+
     # Initializations
     log10reg = vals_list[ni][0]  # log 10 of regularization value
     dmfac = vals_list[ni][1]  # Scaling factor for entire DM command
@@ -895,6 +899,8 @@ def _efc(ni, vals_list, mp, cvar):
         mp.dm8.V = DM8V0
     if any(mp.dm_ind == 9):
         mp.dm9.V = DM9V0
+    for dm, pinned, Vpinned in pinned0:
+        dm.pinned, dm.Vpinned = pinned, Vpinned
 
     return InormAvg, dDM
 
@@ -933,6 +939,10 @@ def _ad_efc(ni, vals_list, mp, cvar):
     if any(mp.dm_ind == 9):
         DM9V0 = mp.dm9.V.copy()
 
+    # A trial command must not leave actuators pinned at their limits
+    pinned0 = [(dm, dm.pinned, dm.Vpinned) for dm in (mp.dm1, mp.dm2)
+               if hasattr(dm, 'pinned')]
+
     # Initializations
     log10reg = vals_list[ni][0]  # log 10 of regularization value
     dmfac = vals_list[ni][1]  # Scaling factor for entire DM command
@@ -1058,6 +1068,8 @@ def _ad_efc(ni, vals_list, mp, cvar):
         mp.dm8.V = DM8V0
     if any(mp.dm_ind == 9):
         mp.dm9.V = DM9V0
+    for dm, pinned, Vpinned in pinned0:
+        dm.pinned, dm.Vpinned = pinned, Vpinned
 
     return InormAvg, dDM
 
diff --git a/falco/est.py b/falco/est.py
index 3db9018..241c038 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -302,6 +302,10 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     else:
         DM2Vnom = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
 
+    # Probe commands must not leave actuators pinned at their limits
+    pinned0 = [(dm, dm.pinned, dm.Vpinned) for dm in (mp.dm1, mp.dm2)
+               if hasattr(dm, 'pinned')]
+
     # Initialize output arrays
     Npairs = mp.est.probe.Npairs  # Number of image PAIRS
     ev.imageArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, 1+2*Npairs, mp.Nsbp))
@@ -708,6 +712,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # Reset nominal values that were changed
     mp.dm1.V = DM1Vnom
     mp.dm2.V = DM2Vnom
+    for dm, pinned, Vpinned in pinned0:
+        dm.pinned, dm.Vpinned = pinned, Vpinned
     mp.dm_ind = mp.dm_ind_init
 
     print('Completed pairwise probing estimation.')
-- 
2.43.0


From f4c83db7bec7e7be0c33ac5a498ce59376fde6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 010/116] fix: saving the entire workspace at the end of the
 loop

---
 falco/wfsc.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index cbb3a64..a2cdd8b 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -200,8 +200,6 @@ def loop(mp, out):
     # Save out the data from the workspace
     if mp.flagSaveWS:
         del cvar
-        del G
-        del h
         del jacStruct
 
         # Don't bother saving the large 2-D, floating point maps.
@@ -217,21 +215,21 @@ def loop(mp, out):
 
         mp.P1.full.E = 1
         mp.P1.compact.E = 1
-        mp.dm1.full.mask = 1
-        mp.dm1.compact.mask = 1
-        mp.dm2.full.mask = 1
-        mp.dm2.compact.mask = 1
+        for dm in (mp.dm1, mp.dm2):
+            if hasattr(dm, 'full'):
+                dm.full.mask = 1
+            if hasattr(dm, 'compact'):
+                dm.compact.mask = 1
+                dm.compact.inf_datacube = 0
         mp.complexTransFull = 1
         mp.complexTransCompact = 1
 
-        mp.dm1.compact.inf_datacube = 0
-        mp.dm2.compact.inf_datacube = 0
-        mp.dm8.compact.inf_datacube = 0
-        mp.dm9.compact.inf_datacube = 0
-        mp.dm8.inf_datacube = 0
-        mp.dm9.inf_datacube = 0
+        for dm in (mp.dm8, mp.dm9):
+            dm.inf_datacube = 0
+            if hasattr(dm, 'compact'):
+                dm.compact.inf_datacube = 0
 
-        fnAll = mp.path.ws + mp.runLabel + '_all.pkl'
+        fnAll = os.path.join(mp.path.ws, (mp.runLabel + '_all.pkl'))
         print('Saving entire workspace to file ' + fnAll + '...', end='')
         with open(fnAll, 'wb') as f:
             pickle.dump(mp, f)
-- 
2.43.0


From 8772bcb148720a722ce956054c2df2f136ab6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 011/116] fix: size the per-mode intensity histories by the
 number of control modes

---
 falco/setup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index a03b259..f688377 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1477,10 +1477,10 @@ def init_storage_arrays(mp):
 
     out.normIntMeasCorr = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in correction region of dark hole.
     out.normIntMeasScore = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in scoring region of dark hole.
-    out.normIntModCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in correction region of dark hole.
-    out.normIntModScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in scoring region of dark hole.
-    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
-    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntModCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in correction region of dark hole.
+    out.normIntModScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in scoring region of dark hole.
+    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
 
     # Storage array for throughput at each iteration
     out.thput = np.zeros(mp.Nitr + 1)
-- 
2.43.0


From ca3708db2ccb97b06411b717d3ad72080e72b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 012/116] fix: create the DM1 structures that hold its stop

---
 falco/setup.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index f688377..d9b1c99 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1296,10 +1296,11 @@ def falco_configure_dm1_and_dm2(mp):
 
 def falco_gen_dm_stops(mp):
     """Generate circular aperture stops for the DMs."""
-    if not hasattr(mp.dm2, 'full'):
-        mp.dm2.full = falco.config.Object()
-    if not hasattr(mp.dm2, 'compact'):
-        mp.dm2.compact = falco.config.Object()
+    for dm in (mp.dm1, mp.dm2):
+        if not hasattr(dm, 'full'):
+            dm.full = falco.config.Object()
+        if not hasattr(dm, 'compact'):
+            dm.compact = falco.config.Object()
 
     if mp.flagDM1stop:
         mp.dm1.full.mask = falco.mask.falco_gen_DM_stop(mp.P2.full.dx, mp.dm1.Dstop, mp.centering)
-- 
2.43.0


From d9831368a53960dac3936f77b6f03093cb956353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 013/116] fix: use the compact model's sampling for its DM
 padding

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index d9b1c99..6e6ea38 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1327,7 +1327,7 @@ def falco_set_dm_surface_padding(mp):
     else:
         NdmPad = 2*mp.P1.compact.Nbeam;
 
-    while (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_dm1_dm2)/mp.P2.full.dx**2) or (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_P2_dm1)/mp.P2.compact.dx**2): 
+    while (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_dm1_dm2)/mp.P2.compact.dx**2) or (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_P2_dm1)/mp.P2.compact.dx**2): 
         # Double the zero-padding until the angular spectrum sampling requirement is not violated
         NdmPad = 2*NdmPad;
     mp.compact.NdmPad = NdmPad;
-- 
2.43.0


From 6b8a9b3aef3fb25e91cb35019d105d2041007fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 014/116] fix: use the Hermitian inner product to compare
 complex field changes

---
 falco/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index c9b52b2..b49d3e0 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -200,11 +200,11 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
         dEsimNonzero = dEsim[indsNonzero].reshape([-1, 1])
 
         out.complexProjection[Itr-1, iSubband] = \
-            (np.abs(dEsimNonzero.T @ dEmeasNonzero) / np.abs(dEsimNonzero.T @ dEsimNonzero)).item()
+            (np.abs(dEsimNonzero.conj().T @ dEmeasNonzero) / np.abs(dEsimNonzero.conj().T @ dEsimNonzero)).item()
         print('Complex projection of deltaE is %3.2f    for subband %d/%d' %
               (out.complexProjection[Itr-1, iSubband], iSubband, mp.Nsbp-1))
         out.complexCorrelation[Itr-1, iSubband] = \
-            (np.abs(dEsimNonzero.T @ dEmeasNonzero/(np.sqrt(np.abs(dEmeasNonzero.T @ dEmeasNonzero))*np.sqrt(np.abs(dEsimNonzero.T @ dEsimNonzero))))).item()
+            (np.abs(dEsimNonzero.conj().T @ dEmeasNonzero/(np.sqrt(np.abs(dEmeasNonzero.conj().T @ dEmeasNonzero))*np.sqrt(np.abs(dEsimNonzero.conj().T @ dEsimNonzero))))).item()
         print('Complex correlation of deltaE is %3.2f    for subband %d/%d' %
               (out.complexCorrelation[Itr-1, iSubband], iSubband, mp.Nsbp-1))
 
-- 
2.43.0


From c2d10fd19c22fc606f27fa4588155e49f4611794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 015/116] fix: parallel images include every star, their own
 polarization state and the noise

---
 falco/imaging.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 316435c..8194b9c 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -1,4 +1,5 @@
 """Functions for generating images in FALCO."""
+import copy
 import numpy as np
 import multiprocessing
 from concurrent.futures import ThreadPoolExecutor as PoolExecutor
@@ -267,7 +268,7 @@ def get_summed_image(mp):
     if type(mp) is not falco.config.ModelParameters:
         raise TypeError('Input "mp" must be of type ModelParameters')
 
-    if not (mp.flagParallel and mp.flagSim):
+    if not (mp.flagParallel and mp.flagSim) or mp.flagImageNoise:
         summedImage = 0
         for si in range(mp.Nsbp):
             summedImage += mp.sbp_weights[si] * get_sbp_image(mp, si)
@@ -275,9 +276,11 @@ def get_summed_image(mp):
     else:  # Compute simulated images in parallel
 
         # Initializations
-        vals_list = [(ilam, pol) for ilam in range(mp.full.NlamUnique)
-                     for pol in mp.full.pol_conds]
-        Nvals = mp.full.NlamUnique*len(mp.full.pol_conds)
+        vals_list = [(ilam, pol, iStar)
+                     for ilam in range(mp.full.NlamUnique)
+                     for pol in mp.full.pol_conds
+                     for iStar in range(mp.star.count)]
+        Nvals = len(vals_list)
 
 #         result = map(
 #             lambda p: _get_single_sim_full_image(*p),
@@ -326,36 +329,28 @@ def get_summed_image(mp):
 
 def _get_single_sim_full_image_one_arg(mp):
     """Use only with get_summed_image."""
-    ilist = mp.ilist
-    vals_list = mp.vals_list
-    ilam = vals_list[ilist][0]
-    pol = vals_list[ilist][1]
+    return _get_single_sim_full_image(mp, mp.ilist, mp.vals_list)
 
-    modvar = falco.config.ModelVariables()  # Initialize the new structure
-    modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
-    modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
-                                              1]
-    mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
-    modvar.whichSource = 'star'
-    modvar.starIndex = 0
-    Estar = falco.model.full(mp, modvar)
 
-    return np.abs(Estar)**2  # Apply spectral weighting outside this function
+def _copy_for_polarization(mp, pol):
+    """Shallow copy of mp with its own polarization state (for threads)."""
+    mpPol = copy.copy(mp)
+    mpPol.full = copy.copy(mp.full)
+    mpPol.full.polaxis = pol
+    return mpPol
 
 
 def _get_single_sim_full_image(mp, ilist, vals_list):
     """Use only with get_summed_image."""
-    ilam = vals_list[ilist][0]
-    pol = vals_list[ilist][1]
+    ilam, pol, iStar = vals_list[ilist]
 
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
-    mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
-    modvar.starIndex = 0
-    Estar = falco.model.full(mp, modvar)
+    modvar.starIndex = iStar
+    Estar = falco.model.full(_copy_for_polarization(mp, pol), modvar)
 
     return np.abs(Estar)**2  # Apply spectral weighting outside this function
 
@@ -481,10 +476,10 @@ def _get_subband_image_component(mp, si, ilist, inds_list):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
-    mp.full.polaxis = mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = iStar
-    Estar = falco.model.full(mp, modvar)
+    Estar = falco.model.full(
+        _copy_for_polarization(mp, mp.full.pol_conds[ipol]), modvar)
 
     # Apply weight within the sub-bandpass.
     # Assume polarizations are evenly weighted.
-- 
2.43.0


From 34d5464183070566e8980ef045b2e72039c8d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 016/116] fix: perfect estimate of several stars and of
 non-square images

---
 falco/est.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 241c038..882828a 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -129,7 +129,7 @@ def perfect(mp, ev):
         # pool.join()
 
         # Re-order for easier indexing
-        EmatArray = np.zeros((mp.Fend.Nxi, mp.Fend.Neta, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
+        EmatArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         EvecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         for iv in range(Nvals):
             iMode = inds_list[iv][0]  # Index of the Jacobian mode
@@ -190,7 +190,7 @@ def perfect(mp, ev):
                 EmatSubband += mp.full.lambda_weights[wi] * E2D
 
             if isPiston:
-                ev.imageArray[:, :, 0, modvar.sbpIndex] = np.abs(EmatSubband)**2
+                ev.imageArray[:, :, 0, modvar.sbpIndex] += np.abs(EmatSubband)**2
 
             Eest[:, iMode] = EmatSubband[mp.Fend.corr.maskBool]
 
-- 
2.43.0


From e45c3f44050439a6e9e5d2ac9b90b19e60a981ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 017/116] fix: pairwise estimation that uses the Jacobian

---
 falco/est.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 882828a..4c48d2f 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -531,18 +531,21 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             # is adaptive based on empirical data.
             if mp.est.flagUseJac:
 
+                # Jacobian mode of this sub-bandpass and star without aberration
+                iMode = np.nonzero((mp.jac.sbp_inds == iSubband) &
+                                   (mp.jac.star_inds == iStar) &
+                                   (mp.jac.zern_inds == 1))[0][0]
                 dEplus = np.zeros_like(Iplus, dtype=complex)
                 for iProbe in range(Npairs):
+                    # The Jacobian includes the relative weight of the DM
                     if whichDM == 1:
-                        dV = DM1Vplus[:, :, iProbe] - DM1Vnom
-                        dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G1[:, :, iSubband]) * \
-                            dV[mp.dm1.act_ele]
+                        dV = (DM1Vplus[:, :, iProbe] - DM1Vnom).ravel()
+                        dEplus[:, iProbe] = jacStruct.G1[:, :, iMode] @ \
+                            (dV[mp.dm1.act_ele]/mp.dm1.weight)
                     elif whichDM == 2:
-                        dV = DM2Vplus[:, :, iProbe] - DM2Vnom
-                        dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G2[:, :, iSubband]) * \
-                            dV[mp.dm2.act_ele]
+                        dV = (DM2Vplus[:, :, iProbe] - DM2Vnom).ravel()
+                        dEplus[:, iProbe] = jacStruct.G2[:, :, iMode] @ \
+                            (dV[mp.dm2.act_ele]/mp.dm2.weight)
 
             # Get the probe phase from the model
             # and the probe amplitude from the measurements
@@ -603,7 +606,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
 
                     if mp.est.flagUseJac:
                         dE = dEplus[ipix, :].T
-                        H = np.array([np.real(dE), np.imag(dE)])
+                        H = np.array([np.real(dE), np.imag(dE)]).T
                         Epix = np.linalg.pinv(H) @ zAll[:, ipix]  # Batch processing
                     else:
                         allProbeInds = np.arange(Npairs, dtype=int)
-- 
2.43.0


From 92d7e00d48c1f14021875d5947f19172176cbe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 018/116] fix: probe with DM2 when it differs in size from DM1

---
 falco/est.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 4c48d2f..c4b13b8 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -521,7 +521,10 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             ev.iStar = iStar
             dDMVplus = np.zeros_like(DM1Vplus)
             for ii in range(Npairs):
-                dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                if whichDM == 1:
+                    dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                elif whichDM == 2:
+                    dDMVplus[:, :, ii] = DM2Vplus[:, :, ii] - DM2Vnom
             falco.plot.pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband)
 
             # ################# Perform the estimation #######################
-- 
2.43.0


From 2ab1f4eb37e92e5fadb93f4cc6f6e17b49b8855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 019/116] fix: count the weight of a repeated wavelength once
 in narrow bandpasses

---
 falco/setup.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 6e6ea38..63324e5 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -547,19 +547,14 @@ def falco_set_spectral_properties(mp):
             counter = counter+1;
 
     # Get rid of redundant wavelengths in the complete list, and sum weights for repeated wavelengths
-    unused_1, inds_unique = np.unique(np.round(1e12*lambdas), return_index=True)  # Check equality at picometer level
+    unused_1, inds_unique, inds_inverse = np.unique(
+        np.round(1e12*lambdas), return_index=True, return_inverse=True)  # Check equality at picometer level
     mp.full.indsLambdaUnique = inds_unique
-    duplicate_inds = np.setdiff1d(np.arange(len(lambdas), dtype=int), inds_unique)
-    # duplicate_values = lambda_weights_all[duplicate_inds] # duplicate weight values
 
     # Shorten the vectors to contain only unique values. Combine weights for repeated wavelengths.
     mp.full.lambdas = lambdas[inds_unique]
-    mp.full.lambda_weights_all = lambda_weights_all[inds_unique]
-    for idup in range(len(duplicate_inds)):
-        wvl = lambdas[duplicate_inds[idup]]
-        weight = lambda_weights_all[duplicate_inds[idup]]
-        ind = np.where(np.abs(mp.full.lambdas-wvl) <= 1e-11)
-        mp.full.lambda_weights_all[ind] = mp.full.lambda_weights_all[ind] + weight
+    mp.full.lambda_weights_all = np.bincount(inds_inverse,
+                                             weights=lambda_weights_all)
     mp.full.NlamUnique = len(inds_unique)
     pass
 
-- 
2.43.0


From a5deea3764261480dd832be30ca56f8c0ec5837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 020/116] fix: accept controlled Zernikes in any order

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 63324e5..a924833 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -586,7 +586,7 @@ def falco_set_jacobian_modal_weights(mp):
 
     if not np.any(mp.jac.zerns == 1):
         raise ValueError('Piston must be included as a controlled Zernike.')
-    elif list(mp.jac.zerns) != list(set(mp.jac.zerns)):
+    elif len(mp.jac.zerns) != len(set(mp.jac.zerns)):
         raise ValueError('mp.jac.zerns cannot have repeated values.')
     else:
         # Reset coefficient for piston term to 1
@@ -597,7 +597,7 @@ def falco_set_jacobian_modal_weights(mp):
     for izern in range(mp.jac.Nzern):
         whichZern = mp.jac.zerns[izern]
         if whichZern == 1:  # Include all wavelengths for piston Zernike mode
-            mp.jac.weightMat[:, 0] = np.ones(mp.Nsbp)
+            mp.jac.weightMat[:, izern] = np.ones(mp.Nsbp)
         else:  # Include just middle and end wavelengths for non-piston
             mp.jac.weightMat[0, izern] = 1
             mp.jac.weightMat[mp.si_ref, izern] = 1
-- 
2.43.0


From c6e1866f121c25534298811f214f7648e850ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 021/116] fix: off-axis compact image uses the piston weights
 and the stars of the compact model

---
 falco/imaging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 8194b9c..29cfaf7 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -611,7 +611,8 @@ def get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
     modvar.y_offset = y_offset
 
     Iout = 0.
-    for iStar in range(mp.star.count):
+    indPiston = np.nonzero(mp.jac.zerns == 1)[0][0]
+    for iStar in range(mp.compact.star.count):
         modvar.starIndex = iStar
 
         for si in range(mp.Nsbp):
@@ -619,7 +620,8 @@ def get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
             modvar.zernIndex = 1
 
             E2D = falco.model.compact(mp, modvar, isEvalMode=isEvalMode)
-            Iout += (np.abs(E2D)**2) * mp.jac.weightMat[si, 0]
+            Iout += (np.abs(E2D)**2) * \
+                mp.jac.weightMat[si, indPiston]
 
     return Iout
 
-- 
2.43.0


From 908e500dc2c85700162076721287a9de2060ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 022/116] fix: use the unaberrated modes of every star to
 predict images and field changes

---
 falco/imaging.py | 29 ++++++++++++++++++-----------
 falco/plot.py    |  6 +++++-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 29cfaf7..8210c8d 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -524,16 +524,21 @@ def get_expected_summed_image(mp, cvar, dDM):
 
     # Initialize variables
     Ibandavg = 0
-    EnewTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
-    EoldTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
+    # Estimated modes without aberrations (for each sub-bandpass and star)
+    indsMode = np.nonzero(mp.jac.zern_inds == 1)[0]
+    EnewTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode),
+                                dtype=complex)
+    EoldTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode),
+                                dtype=complex)
 
     # Generate the model-based E-field with the new DM setting
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.whichSource = 'star'
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
+    for iMode in indsMode:
+        modvar.sbpIndex = mp.jac.sbp_inds[iMode]
+        modvar.starIndex = mp.jac.star_inds[iMode]
         Etemp = falco.model.compact(mp, modvar)
-        EnewTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+        EnewTempVecArray[:, iMode] = Etemp[mp.Fend.corr.maskBool]
 
     # Revert to the previous DM commands
     if any(mp.dm_ind == 1):
@@ -548,15 +553,17 @@ def get_expected_summed_image(mp, cvar, dDM):
     # Generate the model-based E-field with the previous DM setting
     modvar.whichSource = 'star'
     modvar.wpsbpIndex = 0  # Dummy, placeholder value
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
+    for iMode in indsMode:
+        modvar.sbpIndex = mp.jac.sbp_inds[iMode]
+        modvar.starIndex = mp.jac.star_inds[iMode]
         Etemp = falco.model.compact(mp, modvar)
-        EoldTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+        EoldTempVecArray[:, iMode] = Etemp[mp.Fend.corr.maskBool]
 
     # Compute the expected new 2-D intensity image
-    for si in range(mp.Nsbp):
-        EexpectedVec = cvar.Eest[:, si] + \
-            (EnewTempVecArray[:, si] - EoldTempVecArray[:, si])
+    for iMode in indsMode:
+        si = mp.jac.sbp_inds[iMode]
+        EexpectedVec = cvar.Eest[:, iMode] + \
+            (EnewTempVecArray[:, iMode] - EoldTempVecArray[:, iMode])
         Eexpected2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         Eexpected2D[mp.Fend.corr.maskBool] = EexpectedVec
 
diff --git a/falco/plot.py b/falco/plot.py
index b49d3e0..89e6ba5 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -187,7 +187,11 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
 
     """
     for iSubband in range(mp.Nsbp):
-        dEmeas = np.squeeze(Eest[:, iSubband] - EestPrev[:, iSubband])
+        # Mode of the estimate in this sub-bandpass without aberration
+        iMode = np.nonzero((mp.jac.sbp_inds == iSubband) &
+                           (mp.jac.zern_inds == 1) &
+                           (mp.jac.star_inds == 0))[0][0]
+        dEmeas = np.squeeze(Eest[:, iMode] - EestPrev[:, iMode])
         dEmeas2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         dEmeas2D[mp.Fend.corr.maskBool] = dEmeas  # 2-D for plotting
         indsNonzero = np.nonzero(dEmeas != 0)[0]
-- 
2.43.0


From b05d9dab637ed13ba81417c64e3a227ea19380d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 023/116] fix: interpolate the charge of a chromatic vortex

---
 falco/mask.py            | 35 +++++++++++++++++++++++++++-
 falco/model/jacobians.py | 14 +----------
 falco/model/models.py    | 50 +++-------------------------------------
 3 files changed, 38 insertions(+), 61 deletions(-)

diff --git a/falco/mask.py b/falco/mask.py
index 16075a5..a580fcd 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 from numpy import cos, sin
-from scipy.interpolate import RectBivariateSpline
+from scipy.interpolate import interp1d, RectBivariateSpline
 from scipy.ndimage import rotate
 
 import falco.proper as proper
@@ -1645,6 +1645,39 @@ def falco_gen_vortex_mask(charge, N):
     return np.exp(1j*charge*falco.util.azimuthal_grid(np.arange(-N/2., N/2.)))
 
 
+def get_vortex_charge(F3, wvl):
+    """
+    Compute the charge of the vortex mask at the given wavelength.
+
+    Parameters
+    ----------
+    F3 : falco.config.Object
+        Structure of focal plane mask parameters. F3.VortexCharge is either a
+        scalar for an achromatic mask, or an array of charges corresponding to
+        the wavelengths F3.VortexCharge_lambdas for a chromatic mask.
+    wvl : float
+        Wavelength in meters.
+
+    Returns
+    -------
+    charge : int, float
+        Charge of the vortex, linearly interpolated or extrapolated if needed.
+
+    """
+    charge = F3.VortexCharge
+
+    if isinstance(charge, np.ndarray):
+        if charge.size == 1:
+            return charge.item()
+        return float(interp1d(F3.VortexCharge_lambdas, charge, kind='linear',
+                              fill_value='extrapolate')(wvl))
+    elif isinstance(charge, (int, float)):
+        return charge
+    else:
+        raise TypeError("mp.F3.VortexCharge must be an int, float, or numpy "
+                        "ndarray.")
+
+
 def gen_ellipse(inputs):
 
     pupil = falco_gen_ellipse(inputs)
diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index cc91428..18ba3bc 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -65,19 +65,7 @@ def precomp(mp):
 
         if mp.coro.upper() in ('VC', 'AVC', 'VORTEX'):
             # Get FPM charge
-            if isinstance(mp.F3.VortexCharge, np.ndarray):
-                # Passing an array for mp.F3.VortexCharge with
-                # corresponding wavelengths mp.F3.VortexCharge_lambdas
-                # represents a chromatic vortex FPM
-                if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
-                else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge, 'linear', 'extrap')
-            elif isinstance(mp.F3.VortexCharge, int) or isinstance(mp.F3.VortexCharge, float):
-                # single value indicates fully achromatic mask
-                charge = mp.F3.VortexCharge
-            else:
-                raise TypeError("mp.F3.VortexCharge must be an int, float, or numpy ndarray.")
+            charge = falco.mask.get_vortex_charge(mp.F3, wvl)
 
             # Array size for planes P3, F3, and P4
             Nfft1 = int(2**falco.util.nextpow2(np.max(np.array([mp.dm1.compact.NdmPad, minPadFacVortex*mp.dm1.compact.Nbox])))) # Don't crop--but do pad if necessary.
diff --git a/falco/model/models.py b/falco/model/models.py
index b3cbc6a..28c1475 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -371,22 +371,7 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
 
     elif mp.coro.upper() in ('VORTEX', 'VC'):
         # Get FPM charge
-        if isinstance(mp.F3.VortexCharge, np.ndarray):
-            # Passing an array for mp.F3.VortexCharge with
-            # corresponding wavelengths mp.F3.VortexCharge_lambdas
-            # represents a chromatic vortex FPM
-            if mp.F3.VortexCharge.size == 1:
-                charge = mp.F3.VortexCharge
-            else:
-                np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge,
-                          'linear', 'extrap')
-
-        elif isinstance(mp.F3.VortexCharge, (int, float)):
-            # single value indicates fully achromatic mask
-            charge = mp.F3.VortexCharge
-        else:
-            raise TypeError("mp.F3.VortexCharge must be an int, float, or\
-                            numpy ndarray.")
+        charge = falco.mask.get_vortex_charge(mp.F3, wvl)
         EP4 = falco.prop.mft_p2v2p(EP3, charge, mp.P1.full.Nbeam/2., 0.3, 5)
         EP4 = pad_crop(EP4, mp.P4.full.Narr)
 
@@ -551,21 +536,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
 
             # Get FPM charge
-            if isinstance(mp.F3.VortexCharge, np.ndarray):
-                # Passing an array for mp.F3.VortexCharge with
-                # corresponding wavelengths mp.F3.VortexCharge_lambdas
-                # represents a chromatic vortex FPM
-                if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
-                else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
-
-            elif isinstance(mp.F3.VortexCharge, (int, float)):
-                # single value indicates fully achromatic mask
-                charge = mp.F3.VortexCharge
-            else:
-                raise TypeError("mp.F3.VortexCharge must be int, float or numpy ndarray.")
+            charge = falco.mask.get_vortex_charge(mp.F3, wvl)
 
             EP3_grad = falco.prop.mft_p2v2p(EP4_grad, charge, mp.P1.compact.Nbeam/2., 0.3, 5, reverseGradient=True)
 
@@ -930,22 +901,7 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
         if mp.coro.upper() in ('VORTEX', 'VC', 'AVC'):
 
             # Get FPM charge
-            if isinstance(mp.F3.VortexCharge, np.ndarray):
-                # Passing an array for mp.F3.VortexCharge with
-                # corresponding wavelengths mp.F3.VortexCharge_lambdas
-                # represents a chromatic vortex FPM
-                if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
-                else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
-
-            elif isinstance(mp.F3.VortexCharge, (int, float)):
-                # single value indicates fully achromatic mask
-                charge = mp.F3.VortexCharge
-            else:
-                raise TypeError("mp.F3.VortexCharge must be int, float or numpy\
-                                ndarray.")
+            charge = falco.mask.get_vortex_charge(mp.F3, wvl)
 
             EP4 = falco.prop.mft_p2v2p(EP3, charge, mp.P1.compact.Nbeam/2., 0.3, 5)
             # There is one relay inherent to falco.prop.mft_p2v2p.m
-- 
2.43.0


From 193f7a7d3484764f3844d442e5f57c1dadb5e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 024/116] fix: same phase of the Zernike modes in the full
 model, compact model and Jacobian

---
 falco/model/jacobians.py | 2 +-
 falco/model/models.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 18ba3bc..ef0e29b 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -102,7 +102,7 @@ def precomp(mp):
             zernMat = np.squeeze(falco.zern.gen_norm_zern_maps(
                 mp.P1.compact.Nbeam, mp.centering, indsZnoll))
             zernMat = pad_crop(zernMat, mp.P1.compact.Narr)
-            Ein *= zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[
+            Ein *= zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[
                 mp.jac.zerns == modvar.zernIndex]
 
         """ Masks and DM surfaces """
diff --git a/falco/model/models.py b/falco/model/models.py
index 28c1475..33751eb 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -99,7 +99,7 @@ def full(mp, modvar, isNorm=True):
                                                            mp.centering,
                                                            indsZnoll))
         zernMat = pad_crop(zernMat, mp.P1.full.Narr)
-        Ein = Ein*zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
+        Ein = Ein*zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
                                                      modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
-- 
2.43.0


From bfe8236290ca5accf1796633f1b2a2bec1836d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 025/116] fix: scale the focal plane mask the same way in the
 full model, compact model and Jacobian

---
 falco/model/jacobians.py | 3 ++-
 falco/model/models.py    | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index ef0e29b..4526d60 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -239,7 +239,8 @@ def lyot(mp, imode, idm, iact):
     surfIntoPhase = 2.  # Phase change is twice the DM surface height.
 
     # Default is that FPM sampling does not vary with wavelength
-    if mp.layout.lower() == 'fpm_scale':
+    if mp.layout.lower() == 'fpm_scale' or \
+            (mp.coro.upper() == 'HLC' and mp.layout.lower() != 'fourier'):
         scaleFac = wvl/mp.lambda0
     else:
         scaleFac = 1
diff --git a/falco/model/models.py b/falco/model/models.py
index 33751eb..bd8c247 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -309,8 +309,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         #  MFT from FPM to Lyot Plane (i.e., F3 to P4)
         EP4subtrahend = falco.prop.mft_f2p(EF3, mp.fl, wvl,
                                            fpmScaleFac*mp.F3.full.dxi,
-                                           mp.F3.full.deta,
-                                           fpmScaleFac*mp.P4.full.dx,
+                                           fpmScaleFac*mp.F3.full.deta,
+                                           mp.P4.full.dx,
                                            mp.P4.full.Narr, mp.centering)
         # Babinet's principle at P4
         EP4noFPM = falco.prop.relay(EP3, NrelayFactor*mp.Nrelay3to4, mp.centering)
@@ -727,7 +727,7 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
 
     elif mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper',
                                'proper', 'fpm_scale'):
-        if mp.coro.upper() == 'HLC':
+        if mp.coro.upper() == 'HLC' or mp.layout.lower() == 'fpm_scale':
             Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
                                    flagScaleFPM=True, useFPM=useFPM,
                                    forRevGradModel=forRevGradModel)
-- 
2.43.0


From ff479b6bb5789f8cbe89d0c975c97edec322f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 026/116] fix: peak Jacobian with interpixel centering and for
 the HLC

---
 falco/model/jacobians.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 4526d60..0368c80 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -1022,7 +1022,8 @@ def no_fpm(mp, imode, idm, iact):
     # Ein = np.sqrt(starWeight) * Ett * \
     #     np.squeeze(mp.P1.compact.E[:, :, modvar.sbpIndex])
 
-    EttUndoAtP2 = 1./falco.prop.relay(Ett, NrelayFactor*mp.Nrelay1to2)
+    EttUndoAtP2 = 1./falco.prop.relay(Ett, NrelayFactor*mp.Nrelay1to2,
+                                      mp.centering)
 
     # # Apply a Zernike (in amplitude) at input pupil
     # # Used only for Zernike sensitivity control.
@@ -1045,12 +1046,12 @@ def no_fpm(mp, imode, idm, iact):
         else:
             lyotStopReimaged = falco.prop.relay(
                 pad_crop(mp.P4.compact.maskAtP1res, NdmPad),
-                NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4))
+                NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4), mp.centering)
 
     else:
         lyotStopReimaged = falco.prop.relay(
             pad_crop(mp.P4.compact.mask, NdmPad),
-            NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4))
+            NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4), mp.centering)
 
     # pupil = pad_crop(mp.P1.compact.mask, NdmPad)
     # Ein = pad_crop(Ein, NdmPad)
@@ -1099,7 +1100,10 @@ def no_fpm(mp, imode, idm, iact):
         # Edm1WFE = np.ones((NdmPad, NdmPad))
         Edm2WFE = np.ones((NdmPad, NdmPad))
 
-    transOuterFPM = 1
+    if mp.coro.upper() == 'HLC':
+        transOuterFPM = mp.compact.fpmCube[0, 0, modvar.sbpIndex]
+    else:
+        transOuterFPM = 1
 
     """Propagation"""
     # # Get the unocculted peak E-field and coronagraphic E-field
-- 
2.43.0


From 684b47e25299cc2aa143076f4751593414635b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 027/116] fix: reverse gradient through the DM2 stop, the HLC
 and masks sampled differently from the pupil

---
 falco/model/models.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index bd8c247..7822e41 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -444,11 +444,10 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     isEvalMode = False
     useFPM = True
 
-    # Complex trans of points outside FPM
-    if mp.coro.upper() == 'HLC':
-        transOuterFPM = mp.F3.compact.mask[0, 0]
+    if mp.flagDM2stop:
+        DM2stop = pad_crop(mp.dm2.compact.mask, NdmPad)
     else:
-        transOuterFPM = 1.
+        DM2stop = np.ones((NdmPad, NdmPad))
 
     if mp.flagRotation:
         NrelayFactor = 1
@@ -515,6 +514,22 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         # Compute the delta E-field from the latest commands (model new - model old).
         dEend = EFendB - EFendA
 
+        # Complex trans of points outside FPM, for the FPM at this wavelength
+        if mp.coro.upper() == 'HLC':
+            transOuterFPM = mp.F3.compact.mask[0, 0]
+        else:
+            transOuterFPM = 1.
+
+        # Sampling of the FPM when it scales with wavelength
+        if mp.layout.lower() == 'fpm_scale' or \
+                (mp.coro.upper() == 'HLC' and mp.layout.lower() != 'fourier'):
+            fpmScaleFac = wvl/mp.lambda0
+        else:
+            fpmScaleFac = 1.0
+        if mp.coro.upper() not in ('VORTEX', 'VC', 'AVC'):
+            dxiF3 = fpmScaleFac*mp.F3.compact.dxi
+            detaF3 = fpmScaleFac*mp.F3.compact.deta
+
         # DH = EFend[mp.Fend.corr.maskBool]
         EdhNew = Eest2D + dEend
         DH = EdhNew[mp.Fend.corr.maskBool]
@@ -543,19 +558,19 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
-            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(mp.F3.compact.mask) * EF3_grad
-            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
+            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
             EP4noFPM_grad = EP4_grad
-            EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
+            EP3noFPM_grad = pad_crop(falco.prop.relay(np.conj(transOuterFPM)*EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
-            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(transOuterFPM - mp.F3.compact.mask) * auxEP4subtr_grad
-            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
+            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
         else:
@@ -577,6 +592,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         surf_dm2_bar = -kk*np.imag(Edm2_grad * np.conj(Edm2pre))
 
         # To DM1
+        Edm2_grad = np.conj(DM2stop) * Edm2_grad
         Edm1_grad = falco.prop.ptp(Edm2_grad, mp.P2.compact.dx*Edm2_grad.shape[0], wvl, -mp.d_dm1_dm2)
         surf_dm1_bar = -kk*np.imag(Edm1_grad * np.conj(Edm1post))
 
-- 
2.43.0


From 10dd395cb55760cd7b3efda004909860d794a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 028/116] fix: gradient of the regularization term of the
 AD-EFC cost

---
 falco/model/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 7822e41..c622ee7 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -619,7 +619,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
                                Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
                               axis=None)
-    gradient += 2 * utu_coef * gradient
+    gradient += 2 * utu_coef * command_vec
 
     return total_cost, gradient
 
-- 
2.43.0


From 14c3b786681c03836a0f4aa5f6bc8d8b4e8eff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 029/116] fix: sample the focal plane with its own vertical
 step in mft_f2p

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 1b91514..23c43e9 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -158,7 +158,7 @@ def mft_f2p(E_foc, fl, wavelength, dxi, deta, dx, N, centering='pixel'):
 
     # Focal-plane coordinates
     xi = util.create_axis(Nxi, dxi, centering=centering)[:, None]  # Broadcast to column vector
-    eta = util.create_axis(Neta, dxi, centering=centering)[None, :]  # Broadcast to row vector
+    eta = util.create_axis(Neta, deta, centering=centering)[None, :]  # Broadcast to row vector
 
     # Pupil-plane coordinates
     x = util.create_axis(N, dx, centering=centering)[None, :]  # Broadcast to row vector
-- 
2.43.0


From 3e3fbec74b957a52b8a9cfc0924e9a885707d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 030/116] fix: use the HLC mask of the wavelength being
 modelled, also in parallel

---
 falco/hlc.py          |  4 ++--
 falco/model/models.py | 43 ++++++++++++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 08be1de..d31b0c8 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -45,8 +45,8 @@ def gen_fpm_from_LUT(mp, si, wi, modelType):
     elif modelType.lower() == 'full':
         # size = (Ndiel,Nmetal,mp.Nsbp*mp.Nwpsbp)
         complexTransCube = mp.complexTransFull
-        # Index of the wavelength in mp.lam_array
-        ilam = (si-1)*mp.Nwpsbp + wi
+        # Index of the wavelength in mp.full.lambdas
+        ilam = np.argmin(np.abs(mp.full.lambdas - mp.full.lambdasMat[si, wi]))
     else:
         raise ValueError('modelType must specify full or compact model.')
 
diff --git a/falco/model/models.py b/falco/model/models.py
index c622ee7..71ea909 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -103,18 +103,16 @@ def full(mp, modvar, isNorm=True):
                                                      modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
-    if mp.Nsbp > 1 and mp.Nwpsbp > 1:
-        # Weird indexing is because interior wavelengths at
-        # edges of sub-bands are the same, and the fpmCube
-        # contains only the minimal set of masks.
-        ilam = (modvar.sbpIndex-2)*mp.Nwpsbp + modvar.wpsbpIndex + \
-            (mp.Nsbp-modvar.sbpIndex+1)
-    elif mp.Nsbp == 1 and mp.Nwpsbp > 1:
-        ilam = modvar.wpsbpIndex
-    elif mp.Nwpsbp == 1:
-        ilam = modvar.sbpIndex
-
     if mp.coro.upper() == 'HLC':
+        # The fpmCube contains only the minimal set of masks because interior
+        # wavelengths at edges of sub-bands are the same.
+        ilam = np.argmin(np.abs(mp.full.lambdas - wvl))
+
+        # Keep the mask of each wavelength separate when run in parallel
+        mp = copy.copy(mp)
+        mp.F3 = copy.copy(mp.F3)
+        mp.F3.full = copy.copy(mp.F3.full)
+
         if mp.layout.lower() == 'fourier' or mp.layout.lower() == 'proper':
             if hasattr(mp.full, 'fpmCube'):
                 mp.F3.full.mask = mp.full.fpmCube[:, :, ilam]
@@ -514,11 +512,17 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         # Compute the delta E-field from the latest commands (model new - model old).
         dEend = EFendB - EFendA
 
-        # Complex trans of points outside FPM, for the FPM at this wavelength
+        # FPM at this wavelength and complex trans of points outside the FPM
+        transOuterFPM = 1.
         if mp.coro.upper() == 'HLC':
-            transOuterFPM = mp.F3.compact.mask[0, 0]
-        else:
-            transOuterFPM = 1.
+            if hasattr(mp.compact, 'fpmCube'):
+                fpm = mp.compact.fpmCube[:, :, modvar.sbpIndex]
+            else:
+                fpm = falco.hlc.gen_fpm_from_LUT(mp, modvar.sbpIndex, -1,
+                                                 'compact')
+            transOuterFPM = fpm[0, 0]
+        elif mp.coro.upper() not in ('VORTEX', 'VC', 'AVC'):
+            fpm = mp.F3.compact.mask
 
         # Sampling of the FPM when it scales with wavelength
         if mp.layout.lower() == 'fpm_scale' or \
@@ -559,7 +563,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
             EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
-            EF3_grad = np.conj(mp.F3.compact.mask) * EF3_grad
+            EF3_grad = np.conj(fpm) * EF3_grad
             EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
@@ -569,7 +573,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
             auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
-            EF3_grad = np.conj(transOuterFPM - mp.F3.compact.mask) * auxEP4subtr_grad
+            EF3_grad = np.conj(transOuterFPM - fpm) * auxEP4subtr_grad
             EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
@@ -723,6 +727,11 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
 
     # Define what the complex-valued FPM is if the coro is some type of HLC.
     if mp.coro.upper() in ('HLC',):
+        # Keep the mask of each sub-band separate when run in parallel
+        mp = copy.copy(mp)
+        mp.F3 = copy.copy(mp.F3)
+        mp.F3.compact = copy.copy(mp.F3.compact)
+
         if mp.layout.lower() == 'fourier':
             if hasattr(mp.compact, 'fpmCube'):
                 mp.F3.compact.mask = mp.compact.fpmCube[:, :, modvar.sbpIndex]
-- 
2.43.0


From e8031552d63c38bffb9f109d26231fcdb04256d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 031/116] fix: keep pinned actuators at their values when their
 command leaves the range

---
 falco/dm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/dm.py b/falco/dm.py
index 388ba15..482a1b6 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -916,12 +916,14 @@ def enforce_constraints(dm):
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = np.setdiff1d(new_inds, dm.pinned).astype(int)  # pinned actuators keep their values
     new_vals = dm.Vmin - dm.biasMap.flatten()[new_inds]  # relative to the bias, as dm.V is
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = np.setdiff1d(new_inds, dm.pinned).astype(int)  # pinned actuators keep their values
     new_vals = dm.Vmax - dm.biasMap.flatten()[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
-- 
2.43.0


From d1a2129117242eb3c51e11a9bd1361b5d1deb02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 032/116] fix: make the neighbor rule hold and report the right
 actuators

---
 falco/dm.py | 81 +++++++++++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 482a1b6..93e4894 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -820,10 +820,10 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
 
     """
     check.twoD_array(Vin, 'Vin', TypeError)
-    check.real_scalar(Vlim, 'Vlim', TypeError)
+    check.real_nonnegative_scalar(Vlim, 'Vlim', TypeError)
     check.positive_scalar_integer(Nact, 'Nact', TypeError)
 
-    Vout = Vin  # Initialize output voltage map
+    Vout = np.array(Vin, dtype=float)  # Initialize output voltage map
     indPair = np.zeros((0, 2))  # Initialize the paired indices list. [nPairs x 2]
 
     kx1 = np.array([[0, 1], [1, 1], [1, 0]])              # R1-C1
@@ -835,48 +835,55 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
     kx7 = np.array([[-1, 1], [0, 1]])                       # R48, C1 - C47
     kx8 = np.array([[-1, -1]])                             # R48, C48
 
-    for jj in range(Nact):            # Row
-        for ii in range(Nact):        # Col
-
-            if jj == 0:
-                if ii == 0:
-                    kx = kx1
-                elif ii < Nact-1:
-                    kx = kx2
-                else:
-                    kx = kx3
-            elif jj < Nact-1:
-                if ii == 0:
-                    kx = kx4
-                elif ii < Nact-1:
-                    kx = kx5
+    # Adjusting one pair can break the rule for another, so repeat until met
+    tol = 1e-9*np.max(np.abs(Vout))
+    isViolated = True
+    while isViolated:
+        isViolated = False
+        for jj in range(Nact):            # Row
+            for ii in range(Nact):        # Col
+
+                if jj == 0:
+                    if ii == 0:
+                        kx = kx1
+                    elif ii < Nact-1:
+                        kx = kx2
+                    else:
+                        kx = kx3
+                elif jj < Nact-1:
+                    if ii == 0:
+                        kx = kx4
+                    elif ii < Nact-1:
+                        kx = kx5
+                    else:
+                        kx = kx6
                 else:
-                    kx = kx6
-            else:
-                if ii < Nact-1:
-                    kx = kx7
-                else:
-                    kx = kx8
+                    if ii < Nact-1:
+                        kx = kx7
+                    else:
+                        kx = kx8
+
+                kr = jj + kx[:, 0]
+                kc = ii + kx[:, 1]
+                nNbr = kr.size  # length(kr); # Number of neighbors
 
-            kr = jj + kx[:, 0]
-            kc = ii + kx[:, 1]
-            nNbr = kr.size  # length(kr); # Number of neighbors
+                if nNbr >= 1:
+                    for iNbr in range(nNbr):
 
-            if nNbr >= 1:
-                for iNbr in range(nNbr):
+                        a1 = Vout[jj, ii] - Vout[kr[iNbr], kc[iNbr]]  # Compute the delta voltage
 
-                    a1 = Vout[jj, ii] - Vout[kr[iNbr], kc[iNbr]]  # Compute the delta voltage
+                        if (np.abs(a1) > Vlim + tol):  # If neighbor rule is violated
+                            isViolated = True
 
-                    if (np.abs(a1) > Vlim):  # If neighbor rule is violated
+                            indLinCtr = jj*Nact + ii  # linear index of center actuator
+                            indLinNbr = kr[iNbr]*Nact + kc[iNbr]  # linear index of neigboring actuator
+                            indPair = np.vstack([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
 
-                        indLinCtr = (ii-1)*Nact + jj  # linear index of center actuator
-                        indLinNbr = (kc[iNbr]-1)*Nact + kr[iNbr]  # linear index of neigboring actuator
-                        indPair = np.array([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
-                        indPair = np.vstack([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
+                            fx = (np.abs(a1) - Vlim) / 2.
+                            Vout[jj, ii] = Vout[jj, ii] - np.sign(a1)*fx
+                            Vout[kr[iNbr], kc[iNbr]] = Vout[kr[iNbr], kc[iNbr]] + np.sign(a1)*fx
 
-                        fx = (np.abs(a1) - Vlim) / 2.
-                        Vout[jj, ii] = Vout[jj, ii] - np.sign(a1)*fx
-                        Vout[kr[iNbr], kc[iNbr]] = Vout[kr[iNbr], kc[iNbr]] + np.sign(a1)*fx
+    indPair = np.unique(indPair, axis=0)
 
     return Vout, indPair
 
-- 
2.43.0


From 962debe27fa1ed9a9399e14bf019e37cc2860bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 033/116] fix: allow control with a single usable actuator

---
 falco/ctrl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index e7b2ab4..0cdf39f 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -57,13 +57,13 @@ def wrapper(mp, cvar, jacStruct):
 
             Gstack = np.zeros((mp.Fend.corr.Npix, 1), dtype=complex)  # Initialize a row to concatenate onto
             if any(mp.dm_ind == 1):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G1[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G1[:, :, iMode]))
             if any(mp.dm_ind == 2):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G2[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G2[:, :, iMode]))
             if any(mp.dm_ind == 8):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G8[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G8[:, :, iMode]))
             if any(mp.dm_ind == 9):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G9[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G9[:, :, iMode]))
             Gstack = Gstack[:, 1:]  # Remove the column used for initialization
 
             # Square matrix part stays the same if no re-linearization has occurrred.
@@ -1258,9 +1258,9 @@ def set_utu_scale_fac(mp):
 
         Gstack = np.zeros((mp.Fend.corr.Npix, 1), dtype=complex)  # Initialize a row to concatenate onto
         if any(mp.dm_ind == 1):
-            Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G1[:, :, iMode])))
+            Gstack = np.hstack((Gstack, jacStruct.G1[:, :, iMode]))
         if any(mp.dm_ind == 2):
-            Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G2[:, :, iMode])))
+            Gstack = np.hstack((Gstack, jacStruct.G2[:, :, iMode]))
         Gstack = Gstack[:, 1:]  # Remove the column used for initialization
 
         # Square matrix part stays the same if no re-linearization has occurrred.
-- 
2.43.0


From 5e65282865fd0434a3cc2a4977a66b69cd73ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 034/116] fix: shift the scoring region by its own vertical
 offset

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index a924833..bee1550 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1117,7 +1117,7 @@ def falco_configure_dark_hole_region(mp):
             mp.Fend.xiOffset = np.atleast_1d(mp.Fend.xiOffset)
             SCORE["xiOffset"] = mp.Fend.xiOffset[iZone]
         if hasattr(mp.Fend, 'etaOffset'):
-            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.xiOffset)
+            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.etaOffset)
             SCORE["etaOffset"] = mp.Fend.etaOffset[iZone]
 
         [maskTemp, _, _] = falco.mask.falco_gen_SW_mask(SCORE)
-- 
2.43.0


From da4354ff6bc83c9ce10aa00cc0480455093fbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 035/116] fix: reject arrays that cannot be binned evenly

---
 falco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/util.py b/falco/util.py
index 00fd321..0224312 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -566,7 +566,7 @@ def bin_downsample(Ain, dsfac):
     # Array Sizes
     ny0, nx0 = Ain.shape
     if (nx0 % dsfac != 0) or (ny0 % dsfac != 0):
-        ValueError('The size of Ain must be divisible by dsfac.')
+        raise ValueError('The size of Ain must be divisible by dsfac.')
 
     nx1 = int(nx0/dsfac)
     ny1 = int(ny0/dsfac)
-- 
2.43.0


From f1c2e3de002c14aa6457157a1d62192dfdaadad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 036/116] fix: accept array sizes in pad_crop and keep the type
 of its input

---
 falco/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/util.py b/falco/util.py
index 0224312..2f720ba 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -224,14 +224,15 @@ def pad_crop(arrayIn, outsize, extrapval=0):
     try:
         if len(sh1) != 2:
             raise TypeError('Output dimensions must have 2 elements')
-        if (not isinstance(sh1[0], int)) or (not isinstance(sh1[1], int)):
+        if (not isinstance(sh1[0], int_types)) or \
+                (not isinstance(sh1[1], int_types)):
             raise TypeError('Output dimensions must be integers')
         if (sh1[0] <= 0) or (sh1[1] <= 0):
             raise TypeError('Output dimensions must be positive ' + 'integers')
     except TypeError:
         raise TypeError('outsize must be an iterable')
 
-    arrayOut = extrapval * np.ones(sh1, dtype=arrayIn.dtype)
+    arrayOut = np.full(sh1, extrapval, dtype=arrayIn.dtype)
 
     xneg = min(sh0[1]//2, sh1[1]//2)
     xpos = min(sh0[1] - sh0[1]//2, sh1[1] - sh1[1]//2)
-- 
2.43.0


From a7627e6a9fe87da307b3efe87e4224033d653681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 037/116] fix: centre the inverse FFT of arrays of odd size

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 23c43e9..eede15e 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -254,7 +254,7 @@ def fft2d(arrayIn):
 
 def ifft2d(arrayIn):
     check.twoD_array(arrayIn, 'arrayIn', TypeError)
-    return np.fft.ifftshift(np.fft.ifft2(np.fft.fftshift(arrayIn), norm='ortho'))
+    return np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(arrayIn), norm='ortho'))
 
 
 def mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False):
-- 
2.43.0


From be1097b9585a8f64fda8586b94f2e364f3757f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 038/116] fix: leave the global YAML loader alone when loading
 a configuration

---
 falco/config/yaml_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/config/yaml_loader.py b/falco/config/yaml_loader.py
index 9c971a3..9731789 100644
--- a/falco/config/yaml_loader.py
+++ b/falco/config/yaml_loader.py
@@ -38,7 +38,9 @@ def _eval_constructor(eval_globals, eval_locals):
 
 def _get_loader(eval_globals, eval_locals, ctors_dict):
     """Add constructors to PyYAML loader."""
-    loader = yaml.SafeLoader
+    class loader(yaml.SafeLoader):
+        """A loader of its own, so that yaml.SafeLoader stays as it is."""
+
     loader.add_constructor(u'tag:yaml.org,2002:map', object_constructor(Object))
     loader.add_constructor("!eval", _eval_constructor(eval_globals, eval_locals))
 
-- 
2.43.0


From 7131e888d3a54c284b86cf6e6c9d70f6f83b1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 039/116] fix: evaluate the expressions of every configuration
 in its own context

---
 falco/config/ModelParameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/config/ModelParameters.py b/falco/config/ModelParameters.py
index 3441450..dcc7789 100755
--- a/falco/config/ModelParameters.py
+++ b/falco/config/ModelParameters.py
@@ -245,8 +245,9 @@ class ModelParameters(Object):
 
         result = ModelParameters()
 
-        if context is None:
-            context = {}
+        # A copy, because the expressions are evaluated lazily and the caller
+        # may use the same context for another configuration.
+        context = {} if context is None else dict(context)
         context['mp'] = result
 
         data = load_from_str(
-- 
2.43.0


From 4b1d508f3a74826c2de116428e86adf05e9c2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 040/116] fix: let field and index syntax of configuration
 objects refer to the same values

---
 falco/config/Object.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/falco/config/Object.py b/falco/config/Object.py
index 4c2244a..e0c81e4 100644
--- a/falco/config/Object.py
+++ b/falco/config/Object.py
@@ -19,6 +19,10 @@ class Object:
         self.__dict__ = {"data": data}
 
     def merge(self, **kwargs):
+        for item in kwargs:
+            if item != 'data' and item in self.__dict__:
+                # Set as a field since: merge into its current value
+                self.data[item] = self.__dict__.pop(item)
         deepmerge.always_merger.merge(self.data, kwargs)
 
     def __getattr__(self, item):
@@ -39,9 +43,10 @@ class Object:
         return self.data[item]
 
     def __getitem__(self, item):
-        return self.__getattr__(item)
+        return getattr(self, item)
 
     def __setitem__(self, key, value):
+        self.__dict__.pop(key, None)
         self.data[key] = value
 
     def __eq__(self, other):
-- 
2.43.0


From 91e8f792effc2d88fefd3ab0d8937f7672ce143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 041/116] fix: keep the surface of a mirror clocked by a
 quarter turn finite

---
 falco/dm.py             | 14 ++++++--------
 falco/proper/prop_dm.py |  5 +++--
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 93e4894..4e43776 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -448,10 +448,9 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
     dy_dxs = (new_xyz[0, 1] - new_xyz[1, 1]) / (edge[0, 0] - edge[1, 0])
     dy_dys = (new_xyz[1, 1] - new_xyz[2, 1]) / (edge[1, 1] - edge[2, 1])
 
-    xs = (x/dx_dxs - y*dx_dys/(dx_dxs*dy_dys)) / \
-        (1 - dy_dxs*dx_dys/(dx_dxs*dy_dys))
-    ys = (y/dy_dys - x*dy_dxs/(dx_dxs*dy_dys)) / \
-        (1 - dx_dys*dy_dxs/(dx_dxs*dy_dys))
+    det = dx_dxs*dy_dys - dx_dys*dy_dxs
+    xs = (x*dy_dys - y*dx_dys) / det
+    ys = (y*dx_dxs - x*dy_dxs) / det
 
     xdm = (xs + dm_xc * dx_dm) / dx_inf + xoff_grid
     ydm = (ys + dm_yc * dx_dm) / dx_inf + yoff_grid
@@ -1309,10 +1308,9 @@ def derotate_resize_surface(surfaceToFit, dx, Nact, dm_xc, dm_yc, spacing,
     dy_dxs = (new_xyz[0, 1] - new_xyz[1, 1]) / (edge[0, 0] - edge[1, 0])
     dy_dys = (new_xyz[1, 1] - new_xyz[2, 1]) / (edge[1, 1] - edge[2, 1])
 
-    xs = (x/dx_dxs - y*dx_dys/(dx_dxs*dy_dys)) / \
-        (1 - dy_dxs*dx_dys/(dx_dxs*dy_dys))
-    ys = (y/dy_dys - x*dy_dxs/(dx_dxs*dy_dys)) / \
-        (1 - dx_dys*dy_dxs/(dx_dxs*dy_dys))
+    det = dx_dxs*dy_dys - dx_dys*dy_dxs
+    xs = (x*dy_dys - y*dx_dys) / det
+    ys = (y*dx_dxs - x*dy_dxs) / det
 
     xdm = (xs + dm_xc * dx_dm) / dx_inf + xoff_grid
     ydm = (ys + dm_yc * dx_dm) / dx_inf + yoff_grid
diff --git a/falco/proper/prop_dm.py b/falco/proper/prop_dm.py
index 5df7082..a491b09 100644
--- a/falco/proper/prop_dm.py
+++ b/falco/proper/prop_dm.py
@@ -243,8 +243,9 @@ def prop_dm(wf, dm_z0, dm_xc, dm_yc, spacing = 0., **kwargs):
     dy_dxs = (new_xyz[0,1] - new_xyz[1,1]) / (edge[0,0] - edge[1,0])
     dy_dys = (new_xyz[1,1] - new_xyz[2,1]) / (edge[1,1] - edge[2,1])
 
-    xs = ( x/dx_dxs - y*dx_dys/(dx_dxs*dy_dys) ) / ( 1 - dy_dxs*dx_dys/(dx_dxs*dy_dys) )
-    ys = ( y/dy_dys - x*dy_dxs/(dx_dxs*dy_dys) ) / ( 1 - dx_dys*dy_dxs/(dx_dxs*dy_dys) )
+    det = dx_dxs*dy_dys - dx_dys*dy_dxs
+    xs = (x*dy_dys - y*dx_dys) / det
+    ys = (y*dx_dxs - x*dy_dxs) / det
 
     xdm = (xs + dm_xc * dx_dm) / dx_inf + xoff_grid
     ydm = (ys + dm_yc * dx_dm) / dx_inf + yoff_grid
-- 
2.43.0


From 1f1515c7049812b0bbd6bac94156ba20e943ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 042/116] fix: undo the mirror orientation when fitting
 commands to a surface

---
 falco/dm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/falco/dm.py b/falco/dm.py
index 4e43776..b6d557a 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1030,6 +1030,14 @@ def fit_surf_to_act(dm, surfaceToFit):
     else:
         raise ValueError('Invalid or missing value of dm.surfFitMethod')
 
+    # Undo the reorientation applied to the commands by gen_surf_from_act()
+    if hasattr(dm, 'orientation'):
+        orientation = dm.orientation.lower()
+        nRot = {'0': 0, '90': 1, '180': 2, '270': 3}[orientation.split('rot')[1]]
+        heightAtActRes = np.rot90(heightAtActRes, -nRot)
+        if orientation.startswith('flipx'):
+            heightAtActRes = np.fliplr(heightAtActRes)
+
     Vout = heightAtActRes/dm.VtoH
     Vout[np.isinf(Vout)] = 0
 
-- 
2.43.0


From 267e11b0e83d081d336c85ffb41a7be378deee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 043/116] fix: no half-pixel offset of the influence functions
 when interpixel centered

---
 falco/dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index b6d557a..d4535cf 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -763,7 +763,8 @@ def gen_poke_cube(dm, mp, dx_dm, **kwargs):
 
         # Find the locations of the postage stamps arrays in the larger pupilPad array
         dm.xy_cent_act_inPix = dm.xy_cent_act*(dm.dm_spacing/dx_dm)  # Convert units to pupil-plane pixels
-        dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
+        if dm.centering == 'pixel':
+            dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
         dm.xy_cent_act_box = np.round(dm.xy_cent_act_inPix)  # Center locations of the postage stamps (in between pixels), in actuator widths
         dm.xy_cent_act_box_inM = dm.xy_cent_act_box*dx_dm  # now in meters
         dm.xy_box_lowerLeft = dm.xy_cent_act_box + (dm.NdmPad-Nbox)/2 - 0  # index of pixel in lower left of the postage stamp within the whole pupilPad array. +0 for Python, +1 for Matlab
-- 
2.43.0


From 630fe9e095d3b972bf703d4e31f6c296ed1e4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 044/116] fix: fit surfaces with a negative influence function
 by the PROPER method

---
 falco/dm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index d4535cf..685ed83 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1027,7 +1027,9 @@ def fit_surf_to_act(dm, surfaceToFit):
         heightAtActRes = fit_surf_with_dm_lsq_wrapper(dm, gridDerotAtActRes)  # Creates the prefilter if it doesn't exist
         # heightAtActRes = fit_surf_with_dm_lsq(gridDerotAtActRes, dm.act_prefilter)  # Assumes prefilter exists already
     elif dm.surfFitMethod.lower() == 'proper':
-        [heightAtActRes, surfaceOut] = proper.prop_fit_dm(gridDerotAtActRes, infFuncAtActRes)
+        # The iterative fit converges only for a positive influence function
+        signFactor = np.sign(np.sum(infFuncAtActRes))
+        [heightAtActRes, surfaceOut] = proper.prop_fit_dm(signFactor*gridDerotAtActRes, signFactor*infFuncAtActRes)
     else:
         raise ValueError('Invalid or missing value of dm.surfFitMethod')
 
-- 
2.43.0


From 4d0e47ec0291b3f8124aa3846adfe25cefb44659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 045/116] fix: place the actuators of the differentiable mirror
 model as the other models do

---
 falco/diff_dm.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 4290949..aab06f1 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -158,8 +158,9 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     #intrpolate tine infuence function to the new coordinates
     #inf_scaled = ndimage.map_coordinates(inf, (Ynew[:], Xnew[:]))
 
-    shiftx = -1*int((dm.xc - dm.Nact//2 + 0.5) * inf_mag)
-    shifty = -1*int((dm.yc - dm.Nact//2 + 0.5) * inf_mag)
+    # the shift includes the half-pixel offset of interpixel centering
+    shiftx = -1*(dm_xc - (dm.Nact - 1)/2) * inf_mag
+    shifty = -1*(dm_yc - (dm.Nact - 1)/2) * inf_mag
 
     inf_pad = util.pad_crop(inf, int(nx_grid))
 
@@ -386,17 +387,17 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     cy, cx = [s//2 for s in shape]
     Nactx, Nacty = Nact
     skip_samples_x, skip_samples_y = sep
-    # python trick; floor division (//) rounds to negative inf, not zero
-    # because FFT grid alignment biases things to the left, if Nact is odd
-    # we want more on the negative side;
-    # this will make that so
-    offx = 0
-    offy = 0
+    # python trick; floor division (//) rounds to negative inf, not zero,
+    # so the negative extreme of an odd number of actuators is one too far out
     # TODO: does falco have an is_odd?  Did not see it in util
     if Nactx % 2 == 0:
         offx = skip_samples_x // 2
+    else:
+        offx = skip_samples_x
     if Nacty % 2 == 0:
         offy = skip_samples_y // 2
+    else:
+        offy = skip_samples_y
 
     neg_extreme_x = cx + -Nactx//2 * skip_samples_x + offx
     neg_extreme_y = cy + -Nacty//2 * skip_samples_y + offy
-- 
2.43.0


From 8adc5bee18ef3093b728d40b2056264553cb78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 046/116] fix: half-pixel offset of interpixel-centered mirror
 surfaces along the beam axes

---
 falco/dm.py | 54 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 685ed83..e0a23ba 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -52,12 +52,8 @@ def gen_surf_from_act(dm, dx, Nout):
 
     # Adjust the centering of the output DM surface. The shift needs to be in
     # units of actuators, not meters, for prop_dm.m.
-    Darray = Nout*dx  # dm.NdmPad*dx
     Narray = Nout  # dm.NdmPad
-    if dm.centering == 'interpixel':
-        cshift = -Darray/2./Narray/dm.dm_spacing
-    elif dm.centering == 'pixel':
-        cshift = 0
+    xcshift, ycshift = _centering_shift(dm, dx)
 
     pupil_ratio = 1  # beam diameter fraction
     wl_dummy = 1e-6  # dummy value needed to initialize PROPER (meters)
@@ -105,13 +101,13 @@ def gen_surf_from_act(dm, dx, Nout):
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-                    dm, dx, Nout, heightMap, dm.xc-cshift, dm.yc-cshift, 
+                    dm, dx, Nout, heightMap, dm.xc-xcshift, dm.yc-ycshift, 
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
             else:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-                    dm, dx, Nout, heightMap, dm.xc-cshift, dm.yc-cshift, 
+                    dm, dx, Nout, heightMap, dm.xc-xcshift, dm.yc-ycshift, 
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
@@ -128,13 +124,13 @@ def gen_surf_from_act(dm, dx, Nout):
     else:
         if flagXYZ:
             DMsurf = falco.dm.propcustom_dm(
-                bm, heightMap, dm.xc-cshift, dm.yc-cshift, dm.dm_spacing,
+                bm, heightMap, dm.xc-xcshift, dm.yc-ycshift, dm.dm_spacing,
                 XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, XYZ=True,
                 inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
             )
         else:
             DMsurf = falco.dm.propcustom_dm(
-                bm, heightMap, dm.xc-cshift, dm.yc-cshift, dm.dm_spacing,
+                bm, heightMap, dm.xc-xcshift, dm.yc-ycshift, dm.dm_spacing,
                 XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, ZYX=True,
                 inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
             )
@@ -144,6 +140,39 @@ def gen_surf_from_act(dm, dx, Nout):
     return DMsurf
 
 
+def _centering_shift(dm, dx):
+    """
+    Compute the shift of the array center from the center of a pixel.
+
+    Parameters
+    ----------
+    dm : ModelParameters
+        Structure containing parameter values for the DM
+    dx : float
+        Pixel width [meters] at the DM plane
+
+    Returns
+    -------
+    xcshift, ycshift : float
+        Shift [actuator widths] along the axes of the (tilted and clocked) DM
+
+    """
+    if dm.centering == 'pixel':
+        return 0., 0.
+
+    a, b, g = radians(dm.xtilt), radians(dm.ytilt), radians(dm.zrot)
+    if hasattr(dm, 'flagZYX') and dm.flagZYX:
+        m = np.array([[cos(b)*cos(g), cos(g)*sin(a)*sin(b)-cos(a)*sin(g)],
+                      [cos(b)*sin(g), cos(a)*cos(g)+sin(a)*sin(b)*sin(g)]])
+    else:
+        m = np.array([[cos(b)*cos(g), -cos(b)*sin(g)],
+                      [cos(a)*sin(g)+sin(a)*sin(b)*cos(g), cos(a)*cos(g)-sin(a)*sin(b)*sin(g)]])
+
+    # The array is half a pixel off along the axes of the beam
+    halfPixel = np.array([-dx/2., -dx/2.])/dm.dm_spacing
+    return np.linalg.solve(m.T, halfPixel)
+
+
 def discretize_surf(dm, HminStepMethod):
     """
     Discretize the DM commands used to make the DM surface map.
@@ -1007,16 +1036,15 @@ def fit_surf_to_act(dm, surfaceToFit):
     elif nSurface > dm.Nact:
         # Adjust the centering of the output DM surface. The shift needs to be
         # in units of actuators, not meters
-        wArray = nSurface*dm.dx
-        cshift = -wArray/2./nSurface/dm.dm_spacing if(dm.centering == 'interpixel') else 0.
+        xcshift, ycshift = _centering_shift(dm, dm.dx)
         if flagXYZ:
             gridDerotAtActRes = derotate_resize_surface(
-                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshift, dm.yc-cshift,
+                surfaceToFit, dm.dx, dm.Nact, dm.xc-xcshift, dm.yc-ycshift,
                 dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                 XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
         else:
             gridDerotAtActRes = derotate_resize_surface(
-                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshift, dm.yc-cshift,
+                surfaceToFit, dm.dx, dm.Nact, dm.xc-xcshift, dm.yc-ycshift,
                 dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                 ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
 
-- 
2.43.0


From 12aa02caf935af3b546d2bf61f039d6ecd8e9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 047/116] fix: reassemble the Jacobian slices of the mirrors in
 use only

---
 falco/model/models.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 71ea909..9d82d07 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1268,13 +1268,15 @@ def reassemble_jac_from_slices(mp):
     # Reorder Jacobian by mode and DM from the list
     for imode in range(mp.jac.Nmode):
 
-        for index, iact in enumerate(mp.dm1.act_ele):
-            fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
-            jacStruct.G1[:, index, imode] = np.load(fn_dm1)
+        if any(mp.dm_ind == 1):
+            for index, iact in enumerate(mp.dm1.act_ele):
+                fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
+                jacStruct.G1[:, index, imode] = np.load(fn_dm1)
 
-        for index, iact in enumerate(mp.dm2.act_ele):
-            fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
-            jacStruct.G2[:, index, imode] = np.load(fn_dm2)
+        if any(mp.dm_ind == 2):
+            for index, iact in enumerate(mp.dm2.act_ele):
+                fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
+                jacStruct.G2[:, index, imode] = np.load(fn_dm2)
 
     # TIED ACTUATORS
     apply_ties_to_jac(mp, jacStruct)
-- 
2.43.0


From 59bd153d5a87c2daf5e28b6d0f8efa4551dd3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 048/116] fix: accept non-integer vortex charges in mft_p2v2p

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index eede15e..b8ac212 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -287,7 +287,7 @@ def mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False
 
     """
     check.twoD_array(pupilPre, 'pupilPre', TypeError)
-    check.scalar_integer(charge, 'charge', TypeError)
+    check.real_scalar(charge, 'charge', TypeError)
     check.real_positive_scalar(beamRadius, 'beamRadius', TypeError)
     check.real_positive_scalar(inVal, 'inVal', TypeError)
     check.real_positive_scalar(outVal, 'outVal', TypeError)
-- 
2.43.0


From 1bf4209f70afe47694bce4e6baf1b7b7ca57dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 049/116] fix: undo the built-in rotation of the vortex about
 the central pixel

---
 falco/model/jacobians.py |  6 ++++--
 falco/model/models.py    | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 0368c80..d81a3e7 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -867,7 +867,8 @@ def vortex(mp, imode, idm, iact):
 
         # FFT from Vortex FPM to Lyot Plane
         EP4 = fftshift(fft2(EF3))/Nfft1
-        EP4 = fp.relay(EP4, NrelayFactor*mp.Nrelay3to4-1, mp.centering)  # Add more re-imaging relays if necessary
+        EP4 = fp.relay(EP4, -1, 'pixel')  # Undo the rotation of the FFTs about the central pixel
+        EP4 = fp.relay(EP4, NrelayFactor*mp.Nrelay3to4, mp.centering)  # Add more re-imaging relays if necessary
         if Nfft1 > mp.P4.compact.Narr:
             EP4 = mp.P4.compact.croppedMask*pad_crop(EP4, mp.P4.compact.Narr)  # Crop EP4 and then apply Lyot stop 
         else:
@@ -948,7 +949,8 @@ def vortex(mp, imode, idm, iact):
 
         # FFT from Vortex FPM to Lyot Plane
         EP4 = fftshift(fft2(EF3))/Nfft2
-        EP4 = fp.relay(EP4, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
+        EP4 = fp.relay(EP4, -1, 'pixel')  # Undo the rotation of the FFTs about the central pixel
+        EP4 = fp.relay(EP4, NrelayFactor*mp.Nrelay3to4, mp.centering)
 
         if Nfft2 > mp.P4.compact.Narr:
             EP4 = mp.P4.compact.croppedMask * pad_crop(EP4, mp.P4.compact.Narr)
diff --git a/falco/model/models.py b/falco/model/models.py
index 9d82d07..8713828 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -371,10 +371,12 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         # Get FPM charge
         charge = falco.mask.get_vortex_charge(mp.F3, wvl)
         EP4 = falco.prop.mft_p2v2p(EP3, charge, mp.P1.full.Nbeam/2., 0.3, 5)
+        # Undo the rotation built into falco.prop.mft_p2v2p.m, which is always
+        # about the central pixel.
+        EP4 = falco.prop.relay(EP4, -1, 'pixel')
         EP4 = pad_crop(EP4, mp.P4.full.Narr)
 
-        # There is one rotation already built into falco.prop.mft_p2v2p.m
-        EP4 = falco.prop.relay(EP4, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
+        EP4 = falco.prop.relay(EP4, NrelayFactor*mp.Nrelay3to4, mp.centering)
 
     else:
         log.warning('The chosen coronagraph type is not included yet.')
@@ -551,8 +553,10 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         if mp.coro.upper() in ('VORTEX', 'VC', 'AVC'):
 
             EP4_grad = pad_crop(EP4_grad, NdmPad)
-            # There is 1 rotation inherent to falco.prop.mft_p2v2p.m
-            EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
+            EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4, mp.centering)
+            # There is 1 rotation inherent to falco.prop.mft_p2v2p.m, which is
+            # always about the central pixel.
+            EP4_grad = falco.prop.relay(EP4_grad, -1, 'pixel')
 
             # Get FPM charge
             charge = falco.mask.get_vortex_charge(mp.F3, wvl)
@@ -929,8 +933,10 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
             charge = falco.mask.get_vortex_charge(mp.F3, wvl)
 
             EP4 = falco.prop.mft_p2v2p(EP3, charge, mp.P1.compact.Nbeam/2., 0.3, 5)
-            # There is one relay inherent to falco.prop.mft_p2v2p.m
-            EP4 = falco.prop.relay(EP4, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
+            # Undo the relay inherent to falco.prop.mft_p2v2p.m, which is
+            # always about the central pixel.
+            EP4 = falco.prop.relay(EP4, -1, 'pixel')
+            EP4 = falco.prop.relay(EP4, NrelayFactor*mp.Nrelay3to4, mp.centering)
             EP4 = pad_crop(EP4, mp.P4.compact.Narr)
 
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
-- 
2.43.0


From b96c2b4c4701e0dc340d7566f4b7e7d1d8090da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 050/116] fix: check the scheduled probe properties instead of
 raising TypeError

---
 falco/est.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index c4b13b8..26e6e78 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -249,28 +249,32 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # If scheduled, change some aspects of the probe.
     # None values mean they are not scheduled.
     if mp.est.probeSchedule.xOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.xOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.xOffsetVec,
+                         'mp.est.probeSchedule.xOffsetVec', ValueError)
         if len(mp.est.probeSchedule.xOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.xOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.xOffset = mp.est.probeSchedule.xOffsetVec[Itr]
 
     if mp.est.probeSchedule.yOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.yOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.yOffsetVec,
+                         'mp.est.probeSchedule.yOffsetVec', ValueError)
         if len(mp.est.probeSchedule.yOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.yOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.yOffset = mp.est.probeSchedule.yOffsetVec[Itr]
 
     if mp.est.probeSchedule.rotationVec is not None:
-        check.oneD_array(mp.est.probeSchedule.rotationVec)
+        check.oneD_array(mp.est.probeSchedule.rotationVec,
+                         'mp.est.probeSchedule.rotationVec', ValueError)
         if len(mp.est.probeSchedule.rotationVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.rotationVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.rotation = mp.est.probeSchedule.rotationVec[Itr]
 
     if mp.est.probeSchedule.InormProbeVec is not None:
-        check.oneD_array(mp.est.probeSchedule.InormProbeVec)
+        check.oneD_array(mp.est.probeSchedule.InormProbeVec,
+                         'mp.est.probeSchedule.InormProbeVec', ValueError)
         if len(mp.est.probeSchedule.InormProbeVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.InormProbeVec must have '
                              'enough values for all WFSC iterations.')
-- 
2.43.0


From d24308fa565a4d5faccc88744239fb87222f6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 051/116] fix: apply the weights of the DMs in AD-EFC as to the
 resulting commands

---
 falco/ctrl.py         |  8 ++++----
 falco/model/models.py | 11 ++++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 0cdf39f..2a5b34b 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -977,8 +977,8 @@ def _ad_efc(ni, vals_list, mp, cvar):
         dm1ub = mp.dm1.Vmax - (dm1vec + mp.dm1.biasMap.flatten())
         # dm1ub[dm1ub > mp.ctrl.ad.dv_max] = mp.ctrl.ad.dv_max
         dm0[cvar.uLegend == 1] = np.zeros(mp.dm1.Nele)  # dm1vec
-        bounds[cvar.uLegend == 1, 0] = dm1lb[mp.dm1.act_ele]
-        bounds[cvar.uLegend == 1, 1] = dm1ub[mp.dm1.act_ele]
+        bounds[cvar.uLegend == 1, 0] = dm1lb[mp.dm1.act_ele]/mp.dm1.weight
+        bounds[cvar.uLegend == 1, 1] = dm1ub[mp.dm1.act_ele]/mp.dm1.weight
 
     if any(mp.dm_ind == 2):
         dm2vec = mp.dm2.V.flatten()
@@ -987,8 +987,8 @@ def _ad_efc(ni, vals_list, mp, cvar):
         dm2ub = mp.dm2.Vmax - (dm2vec + mp.dm2.biasMap.flatten())
         # dm2ub[dm2ub > mp.ctrl.ad.dv_max] = mp.ctrl.ad.dv_max
         dm0[cvar.uLegend == 2] = np.zeros(mp.dm2.Nele)  # dm2vec
-        bounds[cvar.uLegend == 2, 0] = dm2lb[mp.dm2.act_ele]
-        bounds[cvar.uLegend == 2, 1] = dm2ub[mp.dm2.act_ele]
+        bounds[cvar.uLegend == 2, 0] = dm2lb[mp.dm2.act_ele]/mp.dm2.weight
+        bounds[cvar.uLegend == 2, 1] = dm2ub[mp.dm2.act_ele]/mp.dm2.weight
 
     EFend_list = []
     Edm1post_list = []
diff --git a/falco/model/models.py b/falco/model/models.py
index 8713828..949074f 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -465,11 +465,12 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     # dDM1Vvec[mp.dm1.act_ele] = mp.dm1.weight*duVec[cvar.uLegend == 1]
     # dDM.dDM1V = dDM1Vvec.reshape((mp.dm1.Nact, mp.dm1.Nact))
 
-    # Calculate new cumulative DM commands and put into 2-D arrays
+    # Calculate new cumulative DM commands and put into 2-D arrays. The weight
+    # of each DM is applied as it is to the resulting command.
     dDM1Vvec = np.zeros(mp.dm1.NactTotal)
     dDM2Vvec = np.zeros(mp.dm2.NactTotal)
-    dDM1Vvec[mp.dm1.act_ele] = command_vec[mp.ctrl.uLegend == 1]
-    dDM2Vvec[mp.dm2.act_ele] = command_vec[mp.ctrl.uLegend == 2]
+    dDM1Vvec[mp.dm1.act_ele] = mp.dm1.weight*command_vec[mp.ctrl.uLegend == 1]
+    dDM2Vvec[mp.dm2.act_ele] = mp.dm2.weight*command_vec[mp.ctrl.uLegend == 2]
     dv_dm1 = dDM1Vvec.reshape((mp.dm1.Nact, mp.dm1.Nact))
     dv_dm2 = dDM2Vvec.reshape((mp.dm2.Nact, mp.dm2.Nact))
 
@@ -622,8 +623,8 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     else:
         raise ValueError('mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel must be True for AD-EFC.')
 
-    Vout1 *= mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
-    Vout2 *= mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
+    Vout1 *= mp.dm1.weight * mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
+    Vout2 *= mp.dm2.weight * mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
                                Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
                               axis=None)
-- 
2.43.0


From ff80ba8a1d990144e14b215d7ad7fd2c2415ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 052/116] fix: allow AD-EFC with a single DM

---
 falco/model/models.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 949074f..4bbaa81 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -469,8 +469,10 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     # of each DM is applied as it is to the resulting command.
     dDM1Vvec = np.zeros(mp.dm1.NactTotal)
     dDM2Vvec = np.zeros(mp.dm2.NactTotal)
-    dDM1Vvec[mp.dm1.act_ele] = mp.dm1.weight*command_vec[mp.ctrl.uLegend == 1]
-    dDM2Vvec[mp.dm2.act_ele] = mp.dm2.weight*command_vec[mp.ctrl.uLegend == 2]
+    if np.any(mp.dm_ind == 1):
+        dDM1Vvec[mp.dm1.act_ele] = mp.dm1.weight*command_vec[mp.ctrl.uLegend == 1]
+    if np.any(mp.dm_ind == 2):
+        dDM2Vvec[mp.dm2.act_ele] = mp.dm2.weight*command_vec[mp.ctrl.uLegend == 2]
     dv_dm1 = dDM1Vvec.reshape((mp.dm1.Nact, mp.dm1.Nact))
     dv_dm2 = dDM2Vvec.reshape((mp.dm2.Nact, mp.dm2.Nact))
 
@@ -614,20 +616,21 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     # print('normFacADweightedSum = %.4g' % normFacADweightedSum)
     # print('utu_coef = %.4g' % utu_coef)
 
-    if mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel:
+    if not (mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel):
+        raise ValueError('mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel must be True for AD-EFC.')
+
+    grad_list = []  # only for the DMs used for control
+    if np.any(mp.dm_ind == 1):
         Vout1 = mp.dm1.differentiableModel.render_backprop(
             surf_dm1_bar_total, wfe=False)
+        Vout1 *= mp.dm1.weight * mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
+        grad_list.append(Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele])
+    if np.any(mp.dm_ind == 2):
         Vout2 = mp.dm2.differentiableModel.render_backprop(
             surf_dm2_bar_total, wfe=False)
-
-    else:
-        raise ValueError('mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel must be True for AD-EFC.')
-
-    Vout1 *= mp.dm1.weight * mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
-    Vout2 *= mp.dm2.weight * mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
-    gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
-                               Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
-                              axis=None)
+        Vout2 *= mp.dm2.weight * mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
+        grad_list.append(Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele])
+    gradient = np.concatenate(grad_list, axis=None)
     gradient += 2 * utu_coef * command_vec
 
     return total_cost, gradient
-- 
2.43.0


From a7800e5e504522a9cf2ea464110458facd557aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 053/116] fix: keep the Zernike coefficients given by the user
 unchanged

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index bee1550..bb637e7 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -581,7 +581,7 @@ def falco_set_jacobian_modal_weights(mp):
         raise TypeError('Input "mp" must be of type ModelParameters')
 
     mp.jac.zerns = np.atleast_1d(mp.jac.zerns)
-    mp.jac.Zcoef = np.atleast_1d(mp.jac.Zcoef)
+    mp.jac.Zcoef = np.array(mp.jac.Zcoef, ndmin=1)  # copy to modify below
     mp.jac.Nzern = np.size(mp.jac.zerns)
 
     if not np.any(mp.jac.zerns == 1):
-- 
2.43.0


From f05c9dfcfddbad2efc27c9b5ba61c7e029d6a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 054/116] fix: default value of the verbosity of AD-EFC

---
 falco/setup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/setup.py b/falco/setup.py
index bb637e7..a95e4e5 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -211,6 +211,8 @@ def set_optional_variables(mp):
         mp.ctrl.ad.maxfun = 1000000
     if not hasattr(mp.ctrl.ad, 'maxcor'):
         mp.ctrl.ad.maxcor = 10
+    if not hasattr(mp.ctrl.ad, 'iprint'):
+        mp.ctrl.ad.iprint = -1
 
     # Model options (Very specialized cases--not for the average user)
     if not hasattr(mp, 'flagFiber'):
-- 
2.43.0


From 1d1380e1c2145a37efb5665b217c5973a8208aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 055/116] fix: keep the outermost pixels of a Lyot stop that
 fills its array

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index a95e4e5..f593cca 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -766,7 +766,7 @@ def crop_lyot_stop(mp):
 
         lyotSum = np.sum(mp.P4.full.mask)
         lyotDiff = 0
-        counter = 2
+        counter = 0
         while np.abs(lyotDiff) <= 1e-7:
             mp.P4.full.Narr = len(mp.P4.full.mask)-counter
             # Subtract an extra 2 to negate the extra step that overshoots:
@@ -778,7 +778,7 @@ def crop_lyot_stop(mp):
     # Compact model
     lyotSum = np.sum(mp.P4.compact.mask)
     lyotDiff = 0
-    counter = 2
+    counter = 0
     while np.abs(lyotDiff) <= 1e-7:
         # Number of points across the cropped-down Lyot stop
         mp.P4.compact.Narr = len(mp.P4.compact.mask) - counter
-- 
2.43.0


From 3c9f994b56d6d87a05c04f341570ff405b9d281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 056/116] fix: extract the central portion of the wavefront in
 prop_end

---
 falco/proper/prop_end.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_end.py b/falco/proper/prop_end.py
index ce54a4d..f4fbb34 100644
--- a/falco/proper/prop_end.py
+++ b/falco/proper/prop_end.py
@@ -49,6 +49,6 @@ def prop_end(wf, **kwargs):
     if "EXTRACT" in kwargs:
         EXTRACT = kwargs["EXTRACT"]
         ny, nx = wf.wfarr.shape
-        wf.wfarr = wf.wfarr[ny/2-EXTRACT/2:ny/2+EXTRACT/2,nx/2-EXTRACT/2:nx/2+EXTRACT/2]
+        wf.wfarr = wf.wfarr[ny//2-EXTRACT//2:ny//2+EXTRACT//2,nx//2-EXTRACT//2:nx//2+EXTRACT//2]
 
     return (wf.wfarr, sampling)
-- 
2.43.0


From 7820e423cac129f1b89d7ed168014cadbded170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 057/116] fix: allow a lens after propagating to a plane with
 TO_PLANE

---
 falco/proper/prop_propagate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/proper/prop_propagate.py b/falco/proper/prop_propagate.py
index 524634a..f66c0cf 100644
--- a/falco/proper/prop_propagate.py
+++ b/falco/proper/prop_propagate.py
@@ -52,6 +52,7 @@ def prop_propagate(wf, dz, surface_name = "", **kwargs):
     
     if proper.switch_set("TO_PLANE",**kwargs):
         wf.propagator_type = wf.propagator_type[:11] + "INSIDE_"
+        wf.beam_type_old = "INSIDE_"    # the reference surface is planar
     
     if proper.verbose:
         print("  PROPAGATOR: propagator_type = %s" %(wf.propagator_type))
-- 
2.43.0


From 21d13910767943d9dc0a837adb2f00aba43f500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 058/116] fix: collimate a beam whose radius equals the focal
 length up to rounding

---
 falco/proper/prop_lens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_lens.py b/falco/proper/prop_lens.py
index d38ad6e..e7da829 100644
--- a/falco/proper/prop_lens.py
+++ b/falco/proper/prop_lens.py
@@ -53,7 +53,7 @@ def prop_lens(wf, lens_fl, surface_name = ""):
     if (wf.z - wf.z_w0) != 0.0:     # lens is not at focus or entrance pupil
         gR_beam_old = (wf.z - wf.z_w0) + wf.z_Rayleigh**2 / (wf.z - wf.z_w0)
         gR_beam_old_inf = 0.
-        if gR_beam_old != lens_fl:
+        if 1./gR_beam_old != 1./lens_fl:
             gR_beam = 1./(1./gR_beam_old - 1./lens_fl)
             gR_beam_inf = 0
             if proper.verbose:
-- 
2.43.0


From 899a99ae662523edad7f8c522bdcf86502a9d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 059/116] fix: resume from a saved wavefront state

---
 falco/proper/prop_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_state.py b/falco/proper/prop_state.py
index fcd75a2..08afce4 100644
--- a/falco/proper/prop_state.py
+++ b/falco/proper/prop_state.py
@@ -44,9 +44,9 @@ def prop_state(wf):
     proper.n = int(0)
     proper.first_pass = np.fix(0)
     
-    statedata = np.load(statefile_lam)
+    statedata = np.load(statefile_lam, allow_pickle = True)
     proper.total_original_pupil = statedata["total_original_pupil"]
-    wf = statedata["wf"].tolist()
+    wf.__dict__.update(statedata["wf"].tolist().__dict__)
     proper.n = wf.wfarr.shape[0]
         
     return
-- 
2.43.0


From a7c26760fde51ded00152800677a2ba02632c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 060/116] fix: remove the saved wavefront states, and no other
 files

---
 falco/proper/prop_end_savestate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/falco/proper/prop_end_savestate.py b/falco/proper/prop_end_savestate.py
index 3738d59..0c876f5 100644
--- a/falco/proper/prop_end_savestate.py
+++ b/falco/proper/prop_end_savestate.py
@@ -31,7 +31,11 @@ def prop_end_savestate():
 
     statefile = proper.statefile
 
-    sfiles = glob('*' + statefile)
+    # nothing was saved unless prop_init_savestate named the state files
+    if statefile == "":
+        return
+
+    sfiles = glob('*' + statefile + '.npz')
     if len(sfiles) > 0:
         for sfile in sfiles:
             os.remove(sfile)
-- 
2.43.0


From 8fb24ca76e3d330bfc534019d27342ffad56725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 061/116] fix: accept wavelength files with one line in
 prop_run

---
 falco/proper/prop_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_run.py b/falco/proper/prop_run.py
index 612aefd..4a2bc91 100644
--- a/falco/proper/prop_run.py
+++ b/falco/proper/prop_run.py
@@ -113,7 +113,7 @@ def prop_run(routine_name, lambda0, gridsize, **kwargs):
 
     if type(lambda0) == str:
         try:
-            lam, throughput = np.loadtxt(lambda0, unpack = True, usecols = (0,1))
+            lam, throughput = np.loadtxt(lambda0, unpack = True, usecols = (0,1), ndmin = 2)
         except IOError:
             raise IOError("Unable to open wavelength file %s" %(lambda0))
 
-- 
2.43.0


From 32fd33baafe0c8453bd76f4ae4795f3084555678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 062/116] fix: draw polygons that reach beyond the array

---
 falco/proper/prop_irregular_polygon.py | 14 +++++++-------
 falco/proper/prop_polygon.py           | 16 ++++++++--------
 falco/proper/prop_rectangle.py         |  4 ++--
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/falco/proper/prop_irregular_polygon.py b/falco/proper/prop_irregular_polygon.py
index 8604703..038b8e7 100644
--- a/falco/proper/prop_irregular_polygon.py
+++ b/falco/proper/prop_irregular_polygon.py
@@ -125,14 +125,14 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
             if y > np.max(yp):
                 break
             
-            if y >= yp[leftnext]:
+            while y >= yp[leftnext] and yp[left] < np.max(yp):
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
                     
-            if y >= yp[rightnext]:
+            while y >= yp[rightnext] and yp[right] < np.max(yp):
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
@@ -157,18 +157,18 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
             xrightpix = int(np.round(xright))
             
             if xleftpix != xrightpix:
-                if xleftpix >= 0:
+                if xleftpix >= 0 and xleftpix < ngrid:
                     image[ypix,xleftpix] = image[ypix,xleftpix] + mag * ((xleftpix + 0.5) - xleft)
-                if xrightpix < ngrid:
+                if xrightpix >= 0 and xrightpix < ngrid:
                     image[ypix,xrightpix] = image[ypix,xrightpix] + mag * (xright - (xrightpix - 0.5))
-                if (xrightpix - xleftpix) > 1:
+                if (xrightpix - xleftpix) > 1 and xleftpix + 1 < ngrid and xrightpix > 0:
                     if xleftpix+1 < 0:
                         imin = 0
                     else:
                         imin = xleftpix+1
                         
-                    if xrightpix >= ngrid:
-                        imax = ngrid - 1 
+                    if xrightpix > ngrid:
+                        imax = ngrid
                     else:
                         imax = xrightpix
                     image[ypix,imin:imax] = image[ypix,imin:imax] + mag
diff --git a/falco/proper/prop_polygon.py b/falco/proper/prop_polygon.py
index 321df7d..073b1af 100644
--- a/falco/proper/prop_polygon.py
+++ b/falco/proper/prop_polygon.py
@@ -140,7 +140,7 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
     else:
         imin = int(np.round(np.min(yp)))
         
-    if int(np.round(np.max(yp))) > ngrid:
+    if int(np.round(np.max(yp))) >= ngrid:
         imax = ngrid            
     else:
         imax = int(np.round(np.max(yp))) + 1   
@@ -154,14 +154,14 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
             if y > np.max(yp):
                 break
             
-            if y >= yp[leftnext]:
+            while y >= yp[leftnext] and yp[left] < np.max(yp):
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
                     
-            if y >= yp[rightnext]:
+            while y >= yp[rightnext] and yp[right] < np.max(yp):
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
@@ -186,18 +186,18 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
             xrightpix = int(np.round(xright))
             
             if xleftpix != xrightpix:
-                if xleftpix >= 0:
+                if xleftpix >= 0 and xleftpix < ngrid:
                     image[ypix,xleftpix] = image[ypix,xleftpix] + mag * ((xleftpix + 0.5) - xleft)
-                if xrightpix < ngrid:
+                if xrightpix >= 0 and xrightpix < ngrid:
                     image[ypix,xrightpix] = image[ypix,xrightpix] + mag * (xright - (xrightpix - 0.5))
-                if (xrightpix - xleftpix) > 1:
+                if (xrightpix - xleftpix) > 1 and xleftpix + 1 < ngrid and xrightpix > 0:
                     if xleftpix+1 < 0:
                         imin = 0
                     else:
                         imin = xleftpix+1
                         
-                    if xrightpix >= ngrid:
-                        imax = ngrid - 1 
+                    if xrightpix > ngrid:
+                        imax = ngrid
                     else:
                         imax = xrightpix
                     image[ypix,imin:imax] = image[ypix,imin:imax] + mag
diff --git a/falco/proper/prop_rectangle.py b/falco/proper/prop_rectangle.py
index 34215e9..105102b 100644
--- a/falco/proper/prop_rectangle.py
+++ b/falco/proper/prop_rectangle.py
@@ -156,14 +156,14 @@ def prop_rectangle(wf, xsize, ysize, xc = np.nan, yc = np.nan, **kwargs):
             if y > np.max(yp):
                 break
 
-            if y >= yp[leftnext]:
+            while y >= yp[leftnext] and yp[left] < np.max(yp):
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
 
-            if y >= yp[rightnext]:
+            while y >= yp[rightnext] and yp[right] < np.max(yp):
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
-- 
2.43.0


From a6a495fd33ea5533a348dda8bef2c82bfdd04219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 063/116] fix: start each wavefront with the default
 antialiasing

---
 falco/proper/prop_begin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/proper/prop_begin.py b/falco/proper/prop_begin.py
index b794327..56e2482 100644
--- a/falco/proper/prop_begin.py
+++ b/falco/proper/prop_begin.py
@@ -50,6 +50,7 @@ def prop_begin(beam_diameter, lamda, grid_n, beam_diam_fraction = 0.5):
     z_ray = np.pi * w0**2 / lamda
     
     proper.rayleigh_factor = 1.
+    proper.prop_set_antialiasing()
     proper.old_opd = 0.
     
     nlist = 1500
-- 
2.43.0


From 26060f31567608597291acc02fdd084cca69446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 064/116] fix: magnify the edge pixels of ellipses too

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index a580fcd..aef930a 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1753,7 +1753,7 @@ def falco_gen_ellipse(inputs):
 
         xCenter = X[grayInds[0, iInterior], grayInds[1, iInterior]]
         yCenter = Y[grayInds[0, iInterior], grayInds[1, iInterior]]
-        RHOup = 0.5*np.sqrt(
+        RHOup = 1/magFac*0.5*np.sqrt(
         1/(radiusX)**2*(np.cos(clockingRadians)*(Xup+xCenter) +
                         np.sin(clockingRadians)*(Yup+yCenter))**2
         + 1/(radiusY)**2*(np.sin(clockingRadians)*(Xup+xCenter) -
-- 
2.43.0


From a5714923ed5ea56825870502a120bc63db39e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:10 +0000
Subject: [PATCH 065/116] fix: antialias the whole edge of elongated ellipses

---
 falco/mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index aef930a..7a46eb7 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1732,7 +1732,8 @@ def falco_gen_ellipse(inputs):
         + 1/(radiusY)**2*(np.sin(clockingRadians)*X - np.cos(clockingRadians)*Y)**2
         )
 
-    halfWindowWidth = np.max(np.abs((RHO[1, 0]-RHO[0, 0], RHO[0, 1] - RHO[0, 0])))
+    # Largest change of RHO from the center of a pixel to its corner
+    halfWindowWidth = dx/np.sqrt(2)*radius/(magFac*np.min((radiusX, radiusY)))
     pupil = -1*np.ones(RHO.shape)
     pupil[np.abs(RHO) < radius - halfWindowWidth] = 1
     pupil[np.abs(RHO) > radius + halfWindowWidth] = 0
-- 
2.43.0


From f349a673cacd312650eabc03bb813d49e4c6307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 066/116] fix: swapped polar coordinates in
 falco_gen_pupil_customHex

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 7a46eb7..2fcb25f 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1555,7 +1555,7 @@ def falco_gen_pupil_customHex(inputs):
 
     # Create coordinates
     [X, Y] = np.meshgrid(np.arange(-N/2, N/2), np.arange(-N/2, N/2))
-    [THETA, RHO] = falco.util.cart2pol(X, Y)
+    [RHO, THETA] = falco.util.cart2pol(X, Y)
 
     inputs["apDia"] = inputs["Nbeam"]
     if('pistons' in inputs.keys()):
-- 
2.43.0


From 82c880c5f10c0b9593ea535e33ead84c0263bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 067/116] fix: strut width in falco_gen_pupil_customHex

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 2fcb25f..b36817e 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1573,7 +1573,7 @@ def falco_gen_pupil_customHex(inputs):
 
     # Create spiders
     if(wStrut > 0):
-        halfwidth = wStrut*2.*apRad
+        halfwidth = wStrut*apRad
         try:
             for ang in angStrutVec:
                 pupil = pupil*(1.-np.exp(-(RHO*np.sin(THETA-ang*np.pi/180.)/halfwidth)**hg_expon_spider) *
-- 
2.43.0


From 41bed61f0b201388b692a3fd61bffb8a9a97e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:30 +0000
Subject: [PATCH 068/116] fix: falco_gen_pupil_customHex leaves its inputs
 alone

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index b36817e..816a2de 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1557,7 +1557,7 @@ def falco_gen_pupil_customHex(inputs):
     [X, Y] = np.meshgrid(np.arange(-N/2, N/2), np.arange(-N/2, N/2))
     [RHO, THETA] = falco.util.cart2pol(X, Y)
 
-    inputs["apDia"] = inputs["Nbeam"]
+    inputs = dict(inputs, apDia=inputs["Nbeam"])
     if('pistons' in inputs.keys()):
         pupil0 = falco.hexsegmirror.get_field(inputs)
     else:
-- 
2.43.0


From 9775aee9513038af5f8cac9b4fb68b41bb7a0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:30 +0000
Subject: [PATCH 069/116] fix: flagRot180deg rotates the LUVOIR B pupil

---
 falco/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 816a2de..94d1c36 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1227,6 +1227,8 @@ def falco_gen_pupil_LUVOIR_B(inputs, **kwargs):
                                      ROTATION=clockDeg)
 
     mask = np.fft.ifftshift(np.abs(bm.wfarr)) * ap
+    if flagRot180deg:
+        mask = np.rot90(mask, 2)
 
     return mask
 
-- 
2.43.0


From c637906ba1be3cf79be15cc64cb6b81491e501e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:30 +0000
Subject: [PATCH 070/116] fix: sheared interpixel WFIRST pupils

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 94d1c36..ef4f70f 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -452,7 +452,7 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
         Narray = ceil_even(Nbeam*np.max(2*np.abs((xShear, yShear))) + magFac*Nbeam)
 
     if centering.lower() == 'interpixel':
-        xs = np.linspace(-(Nbeam-1)/2, (Nbeam-1)/2, Nbeam)/Nbeam
+        xs = np.linspace(-(Narray-1)/2, (Narray-1)/2, Narray)/Nbeam
     else:
         xs = np.linspace(-(Narray/2), Narray/2-1, Narray)/Nbeam
 
-- 
2.43.0


From f0490538cd4609ef6fb5d671a4d0918cb65b19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 071/116] fix: tabs of half-turned Roman pupils

---
 falco/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index ef4f70f..1611c01 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -211,6 +211,7 @@ def falco_gen_pupil_Roman_CGI_20200513(Nbeam, centering, changes={}):
         cshift = 0
         if flagRot180:
             cshift = -dx
+            XS, YS = XS + dx, YS + dx
 
     # INITIALIZE PROPER
     bm = proper.prop_begin(Dbeam, wl, Narray, bdf)
@@ -470,6 +471,7 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
         cshift = 0
         if flagRot180:
             cshift = -dx
+            XS, YS = XS + dx, YS + dx
 
     # INITIALIZE PROPER
     bm = proper.prop_begin(Dbeam, wl, Narray, bdf)
-- 
2.43.0


From 1b97a3e9e201c0581e10ef5f22cc8177a69f7d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 072/116] fix: tabs of clocked WFIRST pupils

---
 falco/mask.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/falco/mask.py b/falco/mask.py
index 1611c01..f0bb046 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -515,25 +515,25 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
     # the pupil.
 
     # SOFTWARE MASK:
-    XSnew = (1/1*XS+xcCOBStabs)-xShear
-    YSnew = (1/1*YS+ycCOBStabs)-yShear
+    # in the coordinates of the unclocked pupil
+    XSnew = (rotMat[0, 0]*(XS-xShear) + rotMat[1, 0]*(YS-yShear)) + magFac*xcCOBStabs
+    YSnew = (rotMat[0, 1]*(XS-xShear) + rotMat[1, 1]*(YS-yShear)) + magFac*ycCOBStabs
 
     overSizeFac = 1.3
     cobsTabsMask = np.zeros([Narray, Narray])
     THETAS = np.arctan2(YSnew, XSnew)
-    clockRad = np.deg2rad(clock_deg)
 
     if angTabStart[0] > angTabEnd[0]:
         msk1 = (XSnew**2 + YSnew**2) <= (overSizeFac*magFac*IDtabs/2)**2
-        msk2 = np.logical_and(THETAS >= angTabEnd[0]+clockRad, THETAS <= angTabStart[0]+clockRad)
-        msk3 = np.logical_and(THETAS >= angTabEnd[1]+clockRad, THETAS <= angTabStart[1]+clockRad)
-        msk4 = np.logical_and(THETAS >= angTabEnd[2]+clockRad, THETAS <= angTabStart[2]+clockRad)
+        msk2 = np.logical_and(THETAS >= angTabEnd[0], THETAS <= angTabStart[0])
+        msk3 = np.logical_and(THETAS >= angTabEnd[1], THETAS <= angTabStart[1])
+        msk4 = np.logical_and(THETAS >= angTabEnd[2], THETAS <= angTabStart[2])
         cobsTabsMask[np.logical_and(msk1,np.logical_or(msk2,np.logical_or(msk3, msk4)))] = 1
     else:
         msk1 = (XSnew**2 + YSnew**2) <= (overSizeFac*magFac*IDtabs/2)**2
-        msk2 = np.logical_and(THETAS <= angTabEnd[0]+clockRad, THETAS >= angTabStart[0]+clockRad)
-        msk3 = np.logical_and(THETAS <= angTabEnd[1]+clockRad, THETAS >= angTabStart[1]+clockRad)
-        msk4 = np.logical_and(THETAS <= angTabEnd[2]+clockRad, THETAS >= angTabStart[2]+clockRad)
+        msk2 = np.logical_and(THETAS <= angTabEnd[0], THETAS >= angTabStart[0])
+        msk3 = np.logical_and(THETAS <= angTabEnd[1], THETAS >= angTabStart[1])
+        msk4 = np.logical_and(THETAS <= angTabEnd[2], THETAS >= angTabStart[2])
         cobsTabsMask[np.logical_and(msk1, np.logical_or(msk2, np.logical_or(msk3, msk4)))] = 1
 
 
-- 
2.43.0


From 5e2adbb09a31f0424dd10eb0deeabb21bb12cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 073/116] fix: WFIRST pupils leave the requested changes alone

---
 falco/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index f0bb046..8e849e7 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -405,6 +405,8 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
         -7.527300509955320e-01,
         -2.822938064533701e+00])
 
+    changes = dict(changes)
+
     # Oversized strut features: overwrite defaults if values specified
     if 'OD' in changes: OD = changes["OD"]
     if 'ID' in changes: ID = changes["ID"]
-- 
2.43.0


From 85b5ddd39e5521f3d6332c0add5ed2f81065ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 074/116] fix: antialias bowtie FPMs the same way in every call

---
 falco/mask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/mask.py b/falco/mask.py
index 8e849e7..7cb5e3a 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -768,6 +768,7 @@ def gen_bowtie_fpm(inputs):
 
     # INITIALIZE PROPER. Note that:  bm.dx = diam / bdf / np;
     wf = proper.prop_begin(Dmask, wl_dummy, Narray, bdf)
+    proper.prop_set_antialiasing(101)
 
     # Outer opaque ring of FPM
     cx_OD = 0 + cshift + xOffset
-- 
2.43.0


From 81ed180c6a34095a614ce7374bb56587d6ab8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 075/116] fix: normalise Zernike maps over the beam diameter
 asked for

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 4a17202..6f55381 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -376,7 +376,7 @@ def gen_norm_zern_maps(Nbeam, centering, indsZnoll):
     # PROPER setup values
     Dbeam = 1.  # Diameter of aperture, normalized to itself
     wl = 1e-6  # wavelength (m); Dummy value--no propagation here, so not used.
-    beam_diam_frac = Narray/Nbeam
+    beam_diam_frac = Nbeam/Narray
 
     # Initialize wavefront structure in PROPER
     bm = proper.prop_begin(Dbeam, wl, Narray, beam_diam_frac)
-- 
2.43.0


From 8933b83c9a500c261d87c5995e6f624dc5395131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 076/116] fix: add up all obscured Zernikes

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 6f55381..9d765cc 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -619,7 +619,7 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
                 elif zernike_num[iz] == 22:
                     ab = (np.sqrt(7)*(1 + eps**6 - 12*r2 + 30*r4 - 20*r**6 + eps**4*(9 - 12*r2) + eps**2*(9 - 36*r2 + 30*r4)))/ (-1 + eps**2)**3
 
-            dmap[j, :] += zernike_val[iz] * ab
+                dmap[j, :] += zernike_val[iz] * ab
 
     if not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
         if ("AMPLITUDE" in kwargs and kwargs["AMPLITUDE"]):
-- 
2.43.0


From 1f9566baf55cac21f39a43706026a4a05a0e6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 077/116] fix: accept a scalar Zernike index and coefficient

---
 falco/proper/prop_zernikes.py | 4 ++--
 falco/zern.py                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/proper/prop_zernikes.py b/falco/proper/prop_zernikes.py
index d961472..dbe9668 100644
--- a/falco/proper/prop_zernikes.py
+++ b/falco/proper/prop_zernikes.py
@@ -108,8 +108,8 @@ def prop_zernikes(a, zernike_num, zernike_val, eps = 0., **kwargs):
     22 : 5th order spherical
 
     """
-    zernike_num = np.asarray(zernike_num)
-    zernike_val = np.asarray(zernike_val)
+    zernike_num = np.atleast_1d(zernike_num)
+    zernike_val = np.atleast_1d(zernike_val)
     n = proper.n
     
     if proper.print_it and not proper.switch_set("NO_APPLY",**kwargs):
diff --git a/falco/zern.py b/falco/zern.py
index 9d765cc..4239d29 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -494,8 +494,8 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
     Update - JEK - Fixed use of ** instead of ** in obscured Zernikes
     Update - AR - Added CENTERING as keyword
     """
-    zernike_num = np.asarray(zernike_num)
-    zernike_val = np.asarray(zernike_val)
+    zernike_num = np.atleast_1d(zernike_num)
+    zernike_val = np.atleast_1d(zernike_val)
     n = proper.n
 
     if proper.print_it and not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
-- 
2.43.0


From 45243f66f88704f8c0d2340d999e19cbc1f450f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 078/116] fix: long Zernike equations were cut off

---
 falco/proper/prop_noll_zernikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_noll_zernikes.py b/falco/proper/prop_noll_zernikes.py
index e6c5370..4280c50 100644
--- a/falco/proper/prop_noll_zernikes.py
+++ b/falco/proper/prop_noll_zernikes.py
@@ -86,7 +86,7 @@ def prop_noll_zernikes(maxz, **kwargs):
     max_r_power = 0
     max_theta_multiplier = 0
 
-    z_list = np.zeros(maxz+1, dtype = "S250")    # z_list[0] is always blank
+    z_list = np.zeros(maxz+1, dtype = "S2000")    # z_list[0] is always blank
     iz = 1
     n = 0
 
-- 
2.43.0


From 36efc4d12ec4cea8287452b0133afb897c8a6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 079/116] fix: fit Zernikes about a given centre and on arrays
 that are not square

---
 falco/proper/prop_fit_zernikes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falco/proper/prop_fit_zernikes.py b/falco/proper/prop_fit_zernikes.py
index fac4c35..3ac9d21 100644
--- a/falco/proper/prop_fit_zernikes.py
+++ b/falco/proper/prop_fit_zernikes.py
@@ -75,13 +75,13 @@ def prop_fit_zernikes(wavefront0, pupil0, pupilradius0, nzer, **kwargs):
     if eps > 0 and nzer > 22:
         raise ValueError("PROP_FIT_ZERNIKES: ERROR: Limited to first 22 Obscured Zernikes.")            
 
-    nx = wavefront0.shape[0]
-    ny = wavefront0.shape[1]
+    ny = wavefront0.shape[0]
+    nx = wavefront0.shape[1]
     wavefront = wavefront0
     pupil = pupil0
     
-    if not "XC" in kwargs: xc = int(nx / 2)
-    if not "YC" in kwargs: yc = int(ny / 2)        
+    xc = kwargs.get("XC", int(nx / 2))
+    yc = kwargs.get("YC", int(ny / 2))
 
     if proper.switch_set("FIT",**kwargs):
         kval = [0,1]
@@ -177,7 +177,7 @@ def prop_fit_zernikes(wavefront0, pupil0, pupilradius0, nzer, **kwargs):
         else: 
             fitv = np.zeros((nw)) 
             for i in range(nzer): fitv += zcoeff[i] * ab[:,i]
-            fit = np.reshape(fitv, (nx, ny))
+            fit = np.reshape(fitv, (ny, nx))
 
     if k==1:
         return (zcoeff, fit) 
-- 
2.43.0


From fbcc3bac4f9d602d90bd6caea03b28579568ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 080/116] fix: sensitivity to a single Zernike mode

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 4239d29..3dc6bc2 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -207,7 +207,7 @@ def calc_zern_sens(mp):
 
     # Compute Zernike sensitivity values averaged across each annulus in dark hole
     # |dE|^2 averaged over wavelength and polarization state
-    dE2cube = np.squeeze(np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2))
+    dE2cube = np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2)
     dE2mat = np.zeros((Nzern, Nannuli))
     for iz in range(Nzern):
         dEtemp = np.squeeze(dE2cube[:, :, iz])
-- 
2.43.0


From e29355c7a017e28ff8d06c4d49d35acccb9f11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 081/116] fix: Zernike sensitivities leave the full model as it
 was

---
 falco/zern.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 3dc6bc2..06435bb 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -305,21 +305,26 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
     modvar.starIndex = 0
 
     # Save the original input E-field as E0 to reset it later
-    E = mp.P1.full.E
-    E0 = E.copy()
+    E0 = mp.P1.full.E
+    mp.P1.full.E = E0.copy()
+
+    # Save the original Zernike modes of the full model
+    zNames = ('zindex', 'zval_m', 'zval')
+    zSaved = {name: copy.copy(getattr(mp.full, name)) for name in zNames if hasattr(mp.full, name)}
 
     # Initialize the Zernike modes to include as empty if the variable doesn't exist already
     if not hasattr(mp.full, 'zindex'):
         mp.full.zindex = np.array([])
         mp.full.zval_m = np.array([])
-    zindex0 = copy.copy(mp.full.zindex)  # Save the original
-    zval_m0 = copy.copy(mp.full.zval_m)  # Save the original
+    zindex0 = copy.copy(mp.full.zindex)
+    zval_m0 = copy.copy(mp.full.zval_m)
 
     if(mp.full.flagPROPER):  # WARNING: THIS OPTION HAS NOT BEEN TESTED
 
         # Put the Zernike index and coefficent in the vectors used by the PROPER full model
         if(any(zindex0 == indsZnoll[izern])):  # Add the delta to an existing entry
             zind = np.nonzero(zindex0 == indsZnoll[izern])[0]
+            mp.full.zval_m = zval_m0
             mp.full.zval_m[zind] = mp.full.zval_m[zind] + mp.full.ZrmsVal
         else:  # Concatenate the Zenike modes to the vector if it isn't included already
             mp.full.zindex = np.concatenate((zindex0, np.array([indsZnoll[izern]]))).astype(int)
@@ -336,8 +341,11 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
 
     Estar = falco.model.full(mp, modvar)
     mp.P1.full.E = E0  # Reset to original value
-    mp.full.zindex = zindex0
-    mp.full.zval_m = zval_m0
+    for name in zNames:
+        if name in zSaved:
+            setattr(mp.full, name, zSaved[name])
+        elif hasattr(mp.full, name):
+            delattr(mp.full, name)
 
     return Estar
 
-- 
2.43.0


From 7e2e019e99a218ff130e89a0c3c8a1bb605f0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:11 +0000
Subject: [PATCH 082/116] fix: make the starting disc of the hybrid mask

---
 falco/hlc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index d31b0c8..f27748b 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -524,13 +524,13 @@ def setup_fpm_cosine(mp):
     FPMgenInputs['rhoOuter'] = np.inf  # radius of outer opaque FPM ring (in lambda_c/D)
     FPMgenInputs['FPMampFac'] = 0  # amplitude transmission of inner FPM spot
     FPMgenInputs['centering'] = mp.centering
-    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                  mp.dm8.NdmPad))
     mp.dm8.inf_datacube = np.zeros((diskFull.shape[0], diskFull.shape[1], 1))
     mp.dm8.inf_datacube[:, :, 0] = diskFull
     # Make or read in DM8 disk for the compact model
     FPMgenInputs['pixresFPM'] = mp.F3.compact.res  # pixels per lambda_c/D
-    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                     mp.dm8.compact.NdmPad))
     mp.dm8.compact.inf_datacube = np.zeros((diskCompact.shape[0],
                                             diskCompact.shape[1], 1))
@@ -678,13 +678,13 @@ def setup_fpm(mp):
     FPMgenInputs['rhoOuter'] = np.inf  # radius of outer opaque FPM ring (in lambda_c/D)
     FPMgenInputs['FPMampFac'] = 0  # amplitude transmission of inner FPM spot
     FPMgenInputs['centering'] = mp.centering
-    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                  mp.dm8.NdmPad))
     mp.dm8.inf_datacube = np.zeros((diskFull.shape[0], diskFull.shape[1], 1))
     mp.dm8.inf_datacube[:, :, 0] = diskFull
     # Make or read in DM8 disk for the compact model
     FPMgenInputs['pixresFPM'] = mp.F3.compact.res  # pixels per lambda_c/D
-    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                     mp.dm8.compact.NdmPad))
     mp.dm8.compact.inf_datacube = np.zeros((diskCompact.shape[0],
                                             diskCompact.shape[1], 1))
-- 
2.43.0


From 6cf95cdab001e0b281749d31c93a74640eed30cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:11 +0000
Subject: [PATCH 083/116] fix: know fused silica by its names

---
 falco/thinfilm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index d0d0cfd..955d3ac 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -165,7 +165,7 @@ def calc_complex_trans_matrix(substrate, metal, dielectric, lam, aoi, t_Ti,
     # Define Material Properties
     # ---------------------------------------------
     # Substrate properties
-    if substrate.upper() in ('FS', 'FUSEDSILICA, FUSED_SILICA'):
+    if substrate.upper() in ('FS', 'FUSEDSILICA', 'FUSED_SILICA'):
         A1 = 0.68374049400
         A2 = 0.42032361300
         A3 = 0.58502748000
-- 
2.43.0


From e55ddf216279d38baf9d77dfbe128355a3b3dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:11 +0000
Subject: [PATCH 084/116] fix: azimuth of the cosine modes of
 interpixel-centred masks

---
 falco/hlc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index f27748b..614500e 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -318,7 +318,7 @@ def setup_fpm_cosine(mp):
     if mp.centering == 'pixel':
         x = np.arange(-beamRad, beamRad)
     elif mp.centering == 'interpixel':
-        x = np.arange((NbeamCompact-1)/2, (NbeamCompact+1)/2)
+        x = np.arange(-(NbeamCompact-1)/2, (NbeamCompact+1)/2)
     X, Y = np.meshgrid(x, x)
     RHO, THETA = cart2pol(X, Y)
     THETA2 = THETA+np.pi/3*2
-- 
2.43.0


From ba189cf8a450376c3f82279809f0a259f4e8bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 085/116] fix: make every azimuthal cosine mode of a ring of
 the hybrid mask

---
 falco/hlc.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 614500e..c61a697 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -281,12 +281,14 @@ def setup_fpm_cosine(mp):
     min_azimSize = mp.min_azimSize_dm9  # [microns]
     pow_arr = np.arange(2, 62, 2)*6
 
-    numdivCos = 2
+    # Number of lobes of the cosine modes in each ring
     countCos = 0
     start_rad = int(np.floor(mp.dm9.actres/2))+1
+    powerCos = {}
     for ri in range(start_rad, Nrad+1):
-        for _iter in range(numdivCos+1):
-            countCos += 1
+        powmin = 2 * np.pi * drSep*(ri - 1) / min_azimSize * 18
+        powerCos[ri] = pow_arr[min(np.searchsorted(pow_arr, powmin), pow_arr.size-1)]
+        countCos += int(powerCos[ri]/6) + 1
     numdivSin = 3
     countSin = 0
     start_rad = int(np.floor(mp.dm9.actres/2))+1
@@ -331,7 +333,6 @@ def setup_fpm_cosine(mp):
     mask = Rc <= mp.F3.Rin
     
     # Cosine basis
-    numdiv = 2
     count = 0  # index counter
     for ri in np.arange(start_rad, Nrad+1):
         modeTemp = windowFull * (1 + (-1)**((ri+1) % 2) *
@@ -344,16 +345,10 @@ def setup_fpm_cosine(mp):
             modeTemp[Rc < rMin] = 0
         
         modeTemp[Rc > rMax] = 0
+        power = powerCos[ri]
+        numdiv = int(power/6)
         for II in range(numdiv+1):
-            # Choose power for number of lobes
-            powmin = 2 * np.pi * rMin / min_azimSize * 18
-            aux = pow_arr - powmin
-            aux[aux < 0] = np.inf
-            ind_mi = np.argmin(aux)
-            power = pow_arr[ind_mi]
-            #
             cosFull = np.cos(THETA*power) + 1
-            numdiv = int(power/6)
             dth = 2*np.pi/power
             th_arr = np.linspace(np.pi/2, np.pi/2+np.pi/3, numdiv+1)
             th_rev_arr = np.linspace(np.pi/2+np.pi/3, np.pi/2, numdiv+1)
-- 
2.43.0


From 89dceb553674b9648c693772a1fbbc67b755211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:16 +0000
Subject: [PATCH 086/116] fix: tables of thin film data were reused for other
 requests

---
 falco/thinfilm.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 955d3ac..013e0f6 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -448,18 +448,19 @@ def gen_complex_trans_table(mp, flagRefl=False):
     # mp.F3.metal = 'Ni'
     # mp.F3.diel = 'PMGI'
 
-    fn_compact = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1fN%d_%.1fdeg_compact.npy' %
+    # The file names spell out everything the tables depend on
+    fn_base = ('ct_cube_%s_Ti%.10gnm_%s_%.10gto%.10gby%.10gN%d_%s_%.10gto%.10gby%.10gN%d_%.10gdeg_d0fac%.10g' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec),
-         np.max(mp.t_metal_nm_vec), mp.dt_metal_nm, mp.F3.dielectric,
-         np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec), mp.dt_diel_nm,
-         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi))
+         np.max(mp.t_metal_nm_vec), mp.dt_metal_nm, len(mp.t_metal_nm_vec),
+         mp.F3.dielectric, np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec),
+         mp.dt_diel_nm, len(mp.t_diel_nm_vec), mp.aoi, mp.F3.d0fac))
+
+    fn_compact = ('%s_wvl%.10gto%.10gnmN%d_compact.npy' %
+        (fn_base, 1e9*mp.sbp_centers[0], 1e9*mp.sbp_centers[-1], mp.Nsbp))
     fn_cube_compact = os.path.join(localpath, 'data', 'material', fn_compact)
 
-    fn_full = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1f_%dN%d_%.1fdeg_full.npy' %
-        (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec), np.max(mp.t_metal_nm_vec), mp.dt_metal_nm,
-         mp.F3.dielectric, np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec),
-         mp.dt_diel_nm, (1e9*mp.lambda0), 100*mp.fracBW, mp.Nsbp, mp.Nwpsbp,
-         mp.aoi))
+    fn_full = ('%s_wvl%.10gto%.10gnm_%dN%d_full.npy' %
+        (fn_base, 1e9*mp.full.lambdas[0], 1e9*mp.full.lambdas[-1], mp.Nsbp, mp.Nwpsbp))
     fn_cube_full = os.path.join(localpath, 'data', 'material', fn_full)
 
     if flagRefl:
-- 
2.43.0


From 38116c9477b6a0c6a6d0b4788f296fcf66f756ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 087/116] fix: error maps were shifted vertically by the
 horizontal shift

---
 falco/proper/prop_resamplemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_resamplemap.py b/falco/proper/prop_resamplemap.py
index 8369f27..b95c982 100644
--- a/falco/proper/prop_resamplemap.py
+++ b/falco/proper/prop_resamplemap.py
@@ -63,7 +63,7 @@ def prop_resamplemap(wf, dmap, pixscale, xc, yc, xshift = 0., yshift = 0.):
     
     y = np.arange(n, dtype = np.float64) - int(n/2)
     y = y * proper.prop_get_sampling(wf) / pixscale
-    y += yc - xshift/pixscale
+    y += yc - yshift/pixscale
 
     if proper.use_cubic_conv:
         dmap = proper.prop_cubic_conv(dmap.T, x, y, GRID=True)
-- 
2.43.0


From 3b87cfe46f600c31a551ce4c105020168dbb1e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 088/116] fix: amplitude error maps raised NameError

---
 falco/proper/prop_errormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_errormap.py b/falco/proper/prop_errormap.py
index bc2e502..359dfad 100644
--- a/falco/proper/prop_errormap.py
+++ b/falco/proper/prop_errormap.py
@@ -89,7 +89,7 @@ def prop_errormap(wf, filename, xshift = 0., yshift = 0., **kwargs):
         If map type is MIRROR_SURFACE, WAVEFRONT, or AMPLITUDE.
     """
 
-    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper_switch_set("MICRONS",**kwargs)):
+    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper.switch_set("MICRONS",**kwargs)):
         raise SystemExit("ERRORMAP: Cannot specify NM or MICRON for an amplitude map")
     
     if proper.switch_set("NM",**kwargs) and proper.switch_set("MICRONS",**kwargs):
-- 
2.43.0


From 204fcb0d58afcc03096d10a44eeddc80438681b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 089/116] fix: centre of error maps that are not square or
 given along one axis only

---
 falco/proper/prop_errormap.py | 16 +++-------------
 falco/proper/prop_readmap.py  | 10 +++-------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/falco/proper/prop_errormap.py b/falco/proper/prop_errormap.py
index 359dfad..dfaedaa 100644
--- a/falco/proper/prop_errormap.py
+++ b/falco/proper/prop_errormap.py
@@ -95,19 +95,9 @@ def prop_errormap(wf, filename, xshift = 0., yshift = 0., **kwargs):
     if proper.switch_set("NM",**kwargs) and proper.switch_set("MICRONS",**kwargs):
         raise SystemExit("ERRORMAP: Cannot specify both NM and MICRONS")
 
-    if ("XC_MAP" in kwargs or "YC_MAP" in kwargs or "SAMPLING" in kwargs):
-        if ("XC_MAP" in kwargs and "YC_MAP" in kwargs and "SAMPLING" in kwargs):
-            dmap = proper.prop_readmap(wf, filename, xshift, yshift, XC_MAP = kwargs["XC_MAP"], 
-                YC_MAP = kwargs["YC_MAP"], SAMPLING = kwargs["SAMPLING"])
-        elif ("XC_MAP" in kwargs and "YC_MAP" in kwargs):
-            dmap = proper.prop_readmap(wf, filename, xshift, yshift, XC_MAP = kwargs['XC_MAP'], 
-                YC_MAP = kwargs["YC_MAP"])
-        elif "SAMPLING" in kwargs:
-            dmap = proper.prop_readmap(wf, filename, xshift, yshift, SAMPLING = kwargs['SAMPLING'])
-    else:
-        dmap = proper.prop_readmap(wf, filename, xshift, yshift)    
-    
-    
+    placement = {key: kwargs[key] for key in ("XC_MAP", "YC_MAP", "SAMPLING") if key in kwargs}
+    dmap = proper.prop_readmap(wf, filename, xshift, yshift, **placement)
+
     if "ROTATEMAP" in kwargs or "MAGNIFY" in kwargs:
         # readmap stores map with center at (0,0), so shift 
         # before and after rotation
diff --git a/falco/proper/prop_readmap.py b/falco/proper/prop_readmap.py
index 88815f6..e9cbf31 100644
--- a/falco/proper/prop_readmap.py
+++ b/falco/proper/prop_readmap.py
@@ -73,13 +73,9 @@ def prop_readmap(wf, filename, xshift = 0, yshift = 0, **kwargs):
     else:
         pixsize = kwargs["SAMPLING"]
     
-    if not "XC_MAP" in kwargs:
-        s = dmap.shape
-        xc = s[0]//2
-        yc = s[1]//2
-    else:
-        xc = kwargs["XC_MAP"]
-        yc = kwargs["YC_MAP"]
+    s = dmap.shape
+    xc = kwargs.get("XC_MAP", s[1]//2)
+    yc = kwargs.get("YC_MAP", s[0]//2)
         
     # resample map to current wavefront grid spacing
     dmap = proper.prop_resamplemap(wf, dmap, pixsize, xc, yc, xshift, yshift)
-- 
2.43.0


From 7bacf6bbc05a2b00376b7e4092c23d405184a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 090/116] fix: PSD error maps on a rotated surface were sheared

---
 falco/proper/prop_psd_errormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 61b4d45..8fc0bb6 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -161,8 +161,8 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
         xk = np.tile(np.arange(n, dtype = np.float64), (n,1)) - int(n/2)
         yk = xk.T
 
-        xk = xk * np.cos(-rot_angle) - yk * np.sin(-rot_angle)
-        yk = xk * np.sin(-rot_angle) + yk * np.cos(-rot_angle)
+        xk, yk = (xk * np.cos(-rot_angle) - yk * np.sin(-rot_angle),
+                  xk * np.sin(-rot_angle) + yk * np.cos(-rot_angle))
         yk = yk * np.cos(-inc_angle)
         kpsd = np.sqrt(xk**2 + yk**2) * dk   # cycles/meter
         if proper.switch_set("TPF",**kwargs):
-- 
2.43.0


From 6db41ec7096d4d380767bd1f1dc9a421a7031eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 091/116] fix: a maximum frequency multiplied the PSD by the
 frequency

---
 falco/proper/prop_psd_errormap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 8fc0bb6..989581c 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -180,8 +180,7 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
         # if specified, zero-out spatial frequencies > max_frequency
         if "MAX_FREQUENCY" in kwargs:
             max_frequency = kwargs["MAX_FREQUENCY"]
-            kpsd[kpsd > max_frequency] = 0.0
-            psd2d *= (kpsd)
+            psd2d *= (kpsd <= max_frequency)
 
         if proper.prop_use_fftw() == 1:
             dmap_fft = proper.prop_shift_center(np.sqrt(psd2d)/dk*np.exp(i*phase))
-- 
2.43.0


From ae9503f745a135e597983dace5628c739a110e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 092/116] fix: the size asked of a pixellated image was ignored

---
 falco/proper/prop_pixellate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_pixellate.py b/falco/proper/prop_pixellate.py
index 79b8324..6dfb8ee 100644
--- a/falco/proper/prop_pixellate.py
+++ b/falco/proper/prop_pixellate.py
@@ -70,7 +70,7 @@ def prop_pixellate(image_in, sampling_in, sampling_out, n_out = 0):
     
     # Image is integrated over pixels but has original sampling; now, resample
     # pixel sampling
-    if n_out != 0:
+    if n_out == 0:
         n_out = int(np.fix(n_in * mag))
         
     new = proper.prop_magnify(convolved_image, mag, n_out)
-- 
2.43.0


From 6c48547d4027a838e0dac7505cefdfea86405066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 093/116] fix: the surface of a DM fit that diverged was not
 the one of its commands

---
 falco/proper/prop_fit_dm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/proper/prop_fit_dm.py b/falco/proper/prop_fit_dm.py
index bd1463a..36fd316 100644
--- a/falco/proper/prop_fit_dm.py
+++ b/falco/proper/prop_fit_dm.py
@@ -65,6 +65,7 @@ def prop_fit_dm(dm_z, inf_kernel):
     # If fit diverged, use the result from the previous iteration
     if e > e0:
         dm_z_command = last_good_dm
+        dm_surface = convolve(dm_z_command, inf_kernel)
         
     return (dm_z_command, dm_surface)
         
-- 
2.43.0


From 81f7c69483d72472e2f92c49d0e112c0957f9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 094/116] fix: segmented apertures without omitted segments
 raised TypeError

---
 falco/proper/prop_hex_wavefront.py | 340 ++++++++++++++---------------
 1 file changed, 170 insertions(+), 170 deletions(-)

diff --git a/falco/proper/prop_hex_wavefront.py b/falco/proper/prop_hex_wavefront.py
index 945cf0a..699257b 100644
--- a/falco/proper/prop_hex_wavefront.py
+++ b/falco/proper/prop_hex_wavefront.py
@@ -1,170 +1,170 @@
-#   Copyright 2016, 2017 California Institute of Technology
-#   Users must agree to abide by the restrictions listed in the
-#   file "LegalStuff.txt" in the PROPER library directory.
-#
-#   PROPER developed at Jet Propulsion Laboratory/California Inst. Technology
-#   Original IDL version by John Krist
-#   Python translation by Navtej Saini, with Luis Marchen and Nikta Amiri
-#
-
-
-import falco.proper as proper
-import numpy as np
-
-
-def prop_hex_wavefront(wf, nrings, hexrad, hexsep, zernike_val = 0, **kwargs):
-    """Compute transmission and wavefront phase errors for a segmented hexagonal
-    aperture and apply them to the current wavefront.
-
-    The hexagons making up the aperture have antialiased edges. Each segment
-    has user-defined hexagonal Zernike phase errors (up to Z22).
-
-    Parameters
-    ----------
-    wf : obj
-        WaveFront class object
-
-    nrings : int
-        Number of rings of hexagons in aperture (e.g. 1 = a central hexagon
-        surrounded by a ring of hexagons)
-
-    hexrad : float
-        The distance in meters from the center of a hexagonal segment to a
-        vertex.
-
-    hexsep : float
-        The distance between the centers of adjacent hexagonal segments.
-
-    zernike_val : numpy ndarray
-        Array of dimensions (22, nhex) where nhex is the number of hexagonal
-        segments [nhex = nrings*(nrings+1)*3+1]. Each line in this array
-        specifies the hexagonal Zernike polynomial coefficients (Z1 to Z22) for
-        a segment. The Zernikes are Noll-ordered (see prop_zernikes in the
-        manual for a list of them or look at the prop_hex_zernikes.py routine in
-        the PROPER library). The values are in meters of RMS wavefront error.
-        Even if the center segment is made dark by /DARKCENTER, there must be an
-        entry for it.
-
-
-    Returns
-    -------
-    aperture : numpy ndarray
-        Transmission map for a segmented hexagonal aperture
-
-    phase : numpy ndarray, optional
-        Wavefront phase errors for a segmented hexagonal aperture
-
-
-    Other Parameters
-    ----------------
-    DARKCENTER : bool
-        If set, the central hexagonal segment transmission will be set to 0.0.
-
-    NO_APPLY : bool
-        If set, the aperture and phase maps are created but not applied to the
-        wavefront.
-
-    OMIT=omit
-        List of segment IDs to omit drawing, starting with 0. "zernike_val", if 
-        specified, must include entries for the omitted segments, but they are ignored.
-
-    ROTATION : float
-        The counterclockwise rotation in degrees of the aperture about its center.
-
-    XCENTER, YCENTER : float
-        The offset in meters of the aperture from the center of the wavefront.
-        By default, the aperture is centered within the wavefront.
-
-    Original translation by Navtej Saini
-    Revised 28 Oct 2019 - JEK - Fixed NO_APPLY and DARKCENTER logic to allow False setting
-    31 Mar 2022 - JEK - added OMIT option and set default values for xc & yc
-    2 May 2022 - JEK - fixed missing colons
-    """
-
-    if not "XCENTER" in kwargs:
-        xc = 0.
-    else:
-        xc = kwargs["XCENTER"]
-
-    if not "YCENTER" in kwargs:
-        yc = 0.
-    else:
-        yc = kwargs["YCENTER"]
-
-    if not "OMIT" in kwargs:
-        omit = -1
-    else:
-        omit = kwargs["OMIT"]
-
-    if "ROTATION" in kwargs:
-        angle = kwargs["ROTATION"]
-        anglerad = angle * np.pi / 180
-    else:
-        angle = 0.
-        anglerad =0.
-
-    n = proper.prop_get_gridsize(wf)
-    dx = proper.prop_get_sampling(wf)
-
-    aperture = np.zeros([n,n], dtype = np.float64)
-
-    ## 1 May 2018 - Navtej
-    ## Taking absolute value of zernike_val before summing up
-    include_phase_errors = np.sum(np.abs(zernike_val)) != 0.
-
-    if include_phase_errors:
-        zernike_index = np.arange(22, dtype=int) + 1
-        phase = np.zeros([n,n], dtype = np.float64)
-    else:
-        phase = 0
-
-    segi = 0
-
-    for iring in range(0, nrings+1):
-        x = hexsep * np.cos(30*np.pi/180) * iring
-        y = -nrings * hexsep + iring * hexsep * 0.5
-
-        for iseg in range(0, 2*nrings-iring+1):
-            # Create hex segment on one side
-            if segi not in omit:
-                xhex = x * np.cos(anglerad) - y * np.sin(anglerad) + xc
-                yhex = x * np.sin(anglerad) + y * np.cos(anglerad) + yc
-
-                segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
-      
-                if (iring == 0 and iseg == nrings and proper.switch_set("DARKCENTER",**kwargs)) == False:
-                    aperture += segment
-
-                segment = segment != 0
-
-                if include_phase_errors:
-                    phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
-
-            segi += 1
-
-            # create hex segment on opposite side
-            if iring != 0:
-                if segi not in omit:
-                    xhex = -x * np.cos(anglerad) - y * np.sin(anglerad) + xc
-                    yhex = -x * np.sin(anglerad) + y * np.cos(anglerad) + yc
-
-                    segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
-                    aperture += segment
-                    segment = segment != 0
-
-                    if include_phase_errors:
-                        phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
-
-                segi += 1
-
-            y += hexsep
-
-    if not proper.switch_set("NO_APPLY",**kwargs):
-        proper.prop_multiply(wf, aperture)
-        if include_phase_errors:
-            proper.prop_add_phase(wf, phase)
-
-    if include_phase_errors:
-        return (aperture, phase)
-    else:
-        return aperture
+#   Copyright 2016, 2017 California Institute of Technology
+#   Users must agree to abide by the restrictions listed in the
+#   file "LegalStuff.txt" in the PROPER library directory.
+#
+#   PROPER developed at Jet Propulsion Laboratory/California Inst. Technology
+#   Original IDL version by John Krist
+#   Python translation by Navtej Saini, with Luis Marchen and Nikta Amiri
+#
+
+
+import falco.proper as proper
+import numpy as np
+
+
+def prop_hex_wavefront(wf, nrings, hexrad, hexsep, zernike_val = 0, **kwargs):
+    """Compute transmission and wavefront phase errors for a segmented hexagonal
+    aperture and apply them to the current wavefront.
+
+    The hexagons making up the aperture have antialiased edges. Each segment
+    has user-defined hexagonal Zernike phase errors (up to Z22).
+
+    Parameters
+    ----------
+    wf : obj
+        WaveFront class object
+
+    nrings : int
+        Number of rings of hexagons in aperture (e.g. 1 = a central hexagon
+        surrounded by a ring of hexagons)
+
+    hexrad : float
+        The distance in meters from the center of a hexagonal segment to a
+        vertex.
+
+    hexsep : float
+        The distance between the centers of adjacent hexagonal segments.
+
+    zernike_val : numpy ndarray
+        Array of dimensions (22, nhex) where nhex is the number of hexagonal
+        segments [nhex = nrings*(nrings+1)*3+1]. Each line in this array
+        specifies the hexagonal Zernike polynomial coefficients (Z1 to Z22) for
+        a segment. The Zernikes are Noll-ordered (see prop_zernikes in the
+        manual for a list of them or look at the prop_hex_zernikes.py routine in
+        the PROPER library). The values are in meters of RMS wavefront error.
+        Even if the center segment is made dark by /DARKCENTER, there must be an
+        entry for it.
+
+
+    Returns
+    -------
+    aperture : numpy ndarray
+        Transmission map for a segmented hexagonal aperture
+
+    phase : numpy ndarray, optional
+        Wavefront phase errors for a segmented hexagonal aperture
+
+
+    Other Parameters
+    ----------------
+    DARKCENTER : bool
+        If set, the central hexagonal segment transmission will be set to 0.0.
+
+    NO_APPLY : bool
+        If set, the aperture and phase maps are created but not applied to the
+        wavefront.
+
+    OMIT=omit
+        List of segment IDs to omit drawing, starting with 0. "zernike_val", if 
+        specified, must include entries for the omitted segments, but they are ignored.
+
+    ROTATION : float
+        The counterclockwise rotation in degrees of the aperture about its center.
+
+    XCENTER, YCENTER : float
+        The offset in meters of the aperture from the center of the wavefront.
+        By default, the aperture is centered within the wavefront.
+
+    Original translation by Navtej Saini
+    Revised 28 Oct 2019 - JEK - Fixed NO_APPLY and DARKCENTER logic to allow False setting
+    31 Mar 2022 - JEK - added OMIT option and set default values for xc & yc
+    2 May 2022 - JEK - fixed missing colons
+    """
+
+    if not "XCENTER" in kwargs:
+        xc = 0.
+    else:
+        xc = kwargs["XCENTER"]
+
+    if not "YCENTER" in kwargs:
+        yc = 0.
+    else:
+        yc = kwargs["YCENTER"]
+
+    if not "OMIT" in kwargs:
+        omit = []
+    else:
+        omit = kwargs["OMIT"]
+
+    if "ROTATION" in kwargs:
+        angle = kwargs["ROTATION"]
+        anglerad = angle * np.pi / 180
+    else:
+        angle = 0.
+        anglerad =0.
+
+    n = proper.prop_get_gridsize(wf)
+    dx = proper.prop_get_sampling(wf)
+
+    aperture = np.zeros([n,n], dtype = np.float64)
+
+    ## 1 May 2018 - Navtej
+    ## Taking absolute value of zernike_val before summing up
+    include_phase_errors = np.sum(np.abs(zernike_val)) != 0.
+
+    if include_phase_errors:
+        zernike_index = np.arange(22, dtype=int) + 1
+        phase = np.zeros([n,n], dtype = np.float64)
+    else:
+        phase = 0
+
+    segi = 0
+
+    for iring in range(0, nrings+1):
+        x = hexsep * np.cos(30*np.pi/180) * iring
+        y = -nrings * hexsep + iring * hexsep * 0.5
+
+        for iseg in range(0, 2*nrings-iring+1):
+            # Create hex segment on one side
+            if segi not in omit:
+                xhex = x * np.cos(anglerad) - y * np.sin(anglerad) + xc
+                yhex = x * np.sin(anglerad) + y * np.cos(anglerad) + yc
+
+                segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
+      
+                if (iring == 0 and iseg == nrings and proper.switch_set("DARKCENTER",**kwargs)) == False:
+                    aperture += segment
+
+                segment = segment != 0
+
+                if include_phase_errors:
+                    phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
+
+            segi += 1
+
+            # create hex segment on opposite side
+            if iring != 0:
+                if segi not in omit:
+                    xhex = -x * np.cos(anglerad) - y * np.sin(anglerad) + xc
+                    yhex = -x * np.sin(anglerad) + y * np.cos(anglerad) + yc
+
+                    segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
+                    aperture += segment
+                    segment = segment != 0
+
+                    if include_phase_errors:
+                        phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
+
+                segi += 1
+
+            y += hexsep
+
+    if not proper.switch_set("NO_APPLY",**kwargs):
+        proper.prop_multiply(wf, aperture)
+        if include_phase_errors:
+            proper.prop_add_phase(wf, phase)
+
+    if include_phase_errors:
+        return (aperture, phase)
+    else:
+        return aperture
-- 
2.43.0


From a8ea7b9e819c4be523b6cf18c4e143d205a80a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 095/116] fix: hexagonal piston alone raised AttributeError

---
 falco/proper/prop_hex_zernikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_hex_zernikes.py b/falco/proper/prop_hex_zernikes.py
index fd17da4..0c811d2 100644
--- a/falco/proper/prop_hex_zernikes.py
+++ b/falco/proper/prop_hex_zernikes.py
@@ -103,7 +103,7 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
 
     r = np.sqrt(x**2 + y**2) / hexrad
     t = np.arctan2(y, x) - angle * np.pi/180.
-    zer = 0.
+    zer = np.zeros(r.shape)
 
     for i in range(len(zcoeff)):
         iz = zindex[i]
-- 
2.43.0


From a098fd456cb0765b9f48cc05f26effb6e977050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:30 +0000
Subject: [PATCH 096/116] fix: images were rotated about a point half a pixel
 off, smoothed, and without the centre, shift and fill asked for

---
 falco/proper/prop_rotate.py | 68 ++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 43 deletions(-)

diff --git a/falco/proper/prop_rotate.py b/falco/proper/prop_rotate.py
index 4380588..87a60fc 100644
--- a/falco/proper/prop_rotate.py
+++ b/falco/proper/prop_rotate.py
@@ -13,10 +13,9 @@ import numpy as np
 
 if not proper.use_cubic_conv:
     try:
-        from scipy.ndimage import rotate
+        from scipy.ndimage import map_coordinates
     except:
-        from scipy.ndimage.interpolation import rotate
-        
+        from scipy.ndimage.interpolation import map_coordinates
 
 
 def prop_rotate(old_image, theta, **kwargs):
@@ -50,47 +49,30 @@ def prop_rotate(old_image, theta, **kwargs):
     MISSING : float
         Value to set extrapolated pixels.        
     """
-    if old_image.dtype == np.dtype("complex128") or old_image.dtype == np.dtype("complex64"):
-        is_complex = 1
-    else:
-        is_complex = 0
-        
-    new_image = np.copy(old_image)
-    
+    ny, nx = old_image.shape
+    xc = kwargs.get("XC", nx // 2)
+    yc = kwargs.get("YC", ny // 2)
+    xshift = kwargs.get("XSHIFT", 0.)
+    yshift = kwargs.get("YSHIFT", 0.)
+    missing = kwargs.get("MISSING", 0.)
+
+    # where each new pixel was in the old image
+    t = -theta * np.pi / 180.
+    x0, y0 = np.meshgrid(np.arange(nx) - xc - xshift, np.arange(ny) - yc - yshift)
+    # rounding keeps points of the edge of the image from falling just outside
+    xi = np.round(x0 * np.cos(t) - y0 * np.sin(t) + xc, 9)
+    yi = np.round(x0 * np.sin(t) + y0 * np.cos(t) + yc, 9)
+
     if proper.use_cubic_conv:
-        n = old_image.shape[0]
-    
-        if not "XC" in kwargs:
-            XC = int(n / 2)
-        
-        if not "YC" in kwargs:
-            YC = int(n / 2)
-        
-        if not "XSHIFT" in kwargs:
-            xshift = 0.
-    
-        if not "YSHIFT" in kwargs:
-            yshift = 0.        
-        
-        if not "MISSING" in kwargs:
-            missing = 0.    
-        
-        t = -theta * np.pi / 180.
-    
-        x0 = np.arange(n, dtype = np.float64) - XC - xshift
-    
-        for j in range(n):
-            y0 = j - YC - yshift
-            xi = x0 * np.cos(t) - y0 * np.sin(t) + YC
-            yi = x0 * np.sin(t) + y0 * np.cos(t) + XC
-        
-            new_image[j,:] = proper.prop_cubic_conv(old_image, xi, yi, GRID = False)
+        new_image = proper.prop_cubic_conv(old_image, xi, yi, GRID = False)
     else:
-        theta = -1. * theta
-        if is_complex:
-            new_image.real = rotate(old_image.real, theta, reshape = False, prefilter = True) 
-            new_image.imag = rotate(old_image.imag, theta, reshape = False, prefilter = True)
+        if np.iscomplexobj(old_image):
+            new_image = np.zeros(old_image.shape, dtype = np.complex128)
+            new_image.real = map_coordinates(old_image.real, [yi, xi], order = 3, mode = "nearest")
+            new_image.imag = map_coordinates(old_image.imag, [yi, xi], order = 3, mode = "nearest")
         else:
-            new_image = rotate(old_image, theta, reshape = False, prefilter = False)
-    
+            new_image = map_coordinates(old_image, [yi, xi], order = 3, mode = "nearest", output = np.float64)
+
+    new_image[(xi < 0) | (xi > nx-1) | (yi < 0) | (yi > ny-1)] = missing
+
     return new_image
-- 
2.43.0


From a6a04de4a805b553ae4aeb4766e70013144af91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:30 +0000
Subject: [PATCH 097/116] fix: rounded rectangles raised TypeError

---
 falco/proper/prop_rounded_rectangle.py | 117 ++-----------------------
 1 file changed, 9 insertions(+), 108 deletions(-)

diff --git a/falco/proper/prop_rounded_rectangle.py b/falco/proper/prop_rounded_rectangle.py
index aa4335b..356fd34 100644
--- a/falco/proper/prop_rounded_rectangle.py
+++ b/falco/proper/prop_rounded_rectangle.py
@@ -9,6 +9,7 @@
 
 
 import falco.proper as proper
+import numpy as np
 
 
 def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0):
@@ -42,118 +43,18 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     n = proper.prop_get_gridsize(wf)
     
     # x,y offset of the circle defining rounded corner (meters)
-    rad_pix = corner_radius/dx
     xoff = width/2. - corner_radius
     yoff = height/2. - corner_radius
-    
-    mask = proper.prop_rectangle(wf, width, height, xc, yc)
-    
-    circle = proper.prop_ellipse(wf, corner_radius, corner_radius, xoff+xc, yoff+yc)
-    xoff_pix = (xoff+xc) / dx + n//2
-    yoff_pix = (yoff+yc) / dx + n//2
-    
-    if xoff_pix < 0:
-        x1 = 0
-    else:
-        x1 = xoff_pix
 
-    if xoff_pix + rad_pix + 3 > n:
-        x2 = n
-    else:
-        x2 = xoff_pix + rad_pix + 3
-                        
-    if yoff_pix < 0:
-        y1 = 0
-    else:
-        y1 = yoff_pix
-    
-    if yoff_pix + rad_pix + 3 > n:
-        y2 = n
-    else:
-        y2 = yoff_pix + rad_pix + 3
-    
-    mask[y1:y2,x1:x2] = 0
-    mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
-    
-    circle = proper.prop_ellipse(wf, corner_radius, corner_radius, xoff+xc, -yoff+yc)
-    xoff_pix = (xoff+xc)/dx + n//2
-    yoff_pix = (-yoff+yc)/dx + n//2
-    
-    if xoff_pix < 0:
-        x1 = 0
-    else:
-        x1 = xoff_pix
-
-    if xoff_pix + rad_pix + 3 > n:
-        x2 = n
-    else:
-        x2 = xoff_pix + rad_pix + 3
-        
-    if yoff_pix - rad_pix - 2 < 0:
-        y1 = 0
-    else:
-        y1 = yoff_pix - rad_pix - 2
-        
-    if yoff_pix > n:
-        y2 = n
-    else:
-        y2 = yoff_pix + 1
-            
-    mask[y1:y2,x1:x2] = 0
-    mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
-    
-    circle = proper.prop_ellipse(wf, corner_radius, corner_radius, -xoff+xc, yoff+yc)
-    xoff_pix = (-xoff+xc) / dx + n//2
-    yoff_pix = (yoff+yc) / dx + n//2
-    
-    if xoff_pix - rad_pix - 2 < 0:
-        x1 = 0
-    else:
-        x1 = xoff_pix - rad_pix - 2
-        
-    if xoff_pix > n:
-        x2 = n
-    else:
-        x2 = xoff_pix + 1
-        
-    if yoff_pix < 0:
-        y1 = 0
-    else:
-        y1 = yoff_pix
-        
-    if yoff_pix + rad_pix + 3 > n:
-        y2 = n
-    else:
-        y2 = yoff_pix + rad_pix + 3
+    x = (np.arange(n) - n//2) * dx - xc
+    y = (np.arange(n) - n//2) * dx - yc
 
-    mask[y1:y2,x1:x2] = 0
-    mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
+    mask = proper.prop_rectangle(wf, width, height, xc, yc)
 
-    circle = proper.prop_ellipse(wf, corner_radius, corner_radius, -xoff+xc, -yoff+yc)
-    xoff_pix = (-xoff+xc) / dx + n//2
-    yoff_pix = (-yoff+yc) / dx + n//2
-    
-    if xoff_pix - rad_pix - 2 < 0:
-        x1 = 0
-    else:
-        x1 = xoff_pix - rad_pix - 2
-        
-    if xoff_pix > n:
-        x2 = n
-    else:
-        x2 = xoff_pix + 1
-        
-    if yoff_pix - rad_pix - 2 < 0:
-        y1 = 0
-    else:
-        y1 = yoff_pix - rad_pix - 2
-        
-    if yoff_pix > n:
-        y2 = n
-    else:
-        y2 = yoff_pix + 1
+    for xsign in (1, -1):
+        for ysign in (1, -1):
+            circle = proper.prop_ellipse(wf, corner_radius, corner_radius, xsign*xoff+xc, ysign*yoff+yc)
+            corner = np.outer(ysign*y > yoff, xsign*x > xoff)
+            mask[corner] = circle[corner]
 
-    mask[y1:y2,x1:x2] = 0
-    mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
-    
     return mask
-- 
2.43.0


From e9046fb6d3f62319e8368bd2ee478a67b5ec7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:30 +0000
Subject: [PATCH 098/116] fix: surfaces of mirrors with unequal numbers of
 actuators along x and y raised ValueError

---
 falco/dm.py             | 2 +-
 falco/proper/prop_dm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index e0a23ba..3106c38 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -492,7 +492,7 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
                                mode="nearest", prefilter=True)
 
     dmap = np.zeros([n, n], dtype=np.float64)
-    nx_grid, ny_grid = grid.shape
+    ny_grid, nx_grid = grid.shape
     xmin, xmax = n // 2 - xdim // 2, n // 2 - xdim // 2 + nx_grid
     ymin, ymax = n // 2 - ydim // 2, n // 2 - ydim // 2 + ny_grid
     dmap[ymin:ymax, xmin:xmax] = grid
diff --git a/falco/proper/prop_dm.py b/falco/proper/prop_dm.py
index a491b09..416f92f 100644
--- a/falco/proper/prop_dm.py
+++ b/falco/proper/prop_dm.py
@@ -257,7 +257,7 @@ def prop_dm(wf, dm_z0, dm_xc, dm_yc, spacing = 0., **kwargs):
         grid = map_coordinates(dm_grid.T, [xdm, ydm], order = 3, mode = "nearest", prefilter = True)
 
     dmap = np.zeros([n,n], dtype = np.float64)
-    nx_grid, ny_grid = grid.shape
+    ny_grid, nx_grid = grid.shape
     xmin, xmax = n // 2 - xdim //2, n // 2 - xdim // 2 + nx_grid
     ymin, ymax =  n // 2 - ydim // 2, n // 2 - ydim // 2 + ny_grid
     dmap[ymin:ymax, xmin:xmax] = grid
-- 
2.43.0


From 7fccd0cb5f88cb04178fb9bb1f5206ae32700764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:16 +0000
Subject: [PATCH 099/116] fix: the 18th hexagonal Zernike polynomial was not
 orthogonal to the 10th

---
 falco/proper/prop_hex_zernikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_hex_zernikes.py b/falco/proper/prop_hex_zernikes.py
index 0c811d2..22904dd 100644
--- a/falco/proper/prop_hex_zernikes.py
+++ b/falco/proper/prop_hex_zernikes.py
@@ -63,7 +63,7 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
     all this.
 
     The normalization error (difference between the requested and actual RMS of
-    the aberration) is about 0.5%, except for Z18 (1.5%) and Z22 (1%).
+    the aberration) is about 0.5%, except for Z22 (1%).
 
     The user provides an array of Zernike polynomial indicies (1 to 22) and an
     array of corresponding polynomial coefficients that specify the RMS amount
@@ -144,7 +144,7 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
         elif iz == 17:
             zer += z * 2 * np.sqrt(6/1089382547.) * (70369*r - 322280*r**3 + 309540*r**5) * np.sin(t)
         elif iz == 18:
-            zer += z * 4 * np.sqrt(385/295894589.) * (4365*r**5 - 3322*r**3) * np.cos(3*t)
+            zer += z * 4 * np.sqrt(385/295894589.) * (4635*r**5 - 3322*r**3) * np.cos(3*t)
         elif iz == 19:
             zer += z * 4 * np.sqrt(5/97.) * (35*r**5 - 22*r**3) * np.sin(3*t)
         elif iz == 20:
-- 
2.43.0


From 725ddb9c27c39abe303163d49ce44cb7f86c375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:39 +0000
Subject: [PATCH 100/116] fix: segmented mirror field left out the segments
 that are present

---
 falco/hexsegmirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/hexsegmirror.py b/falco/hexsegmirror.py
index d4b3b43..a4f1142 100644
--- a/falco/hexsegmirror.py
+++ b/falco/hexsegmirror.py
@@ -115,7 +115,7 @@ def get_field( hexMirrorDict ):
         cenrow = ringNum*hexSep
         cencol = 0
         
-        if(missingSegments[segNum]==0):
+        if(missingSegments[segNum]==1):
             OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                              wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT)
         segNum = segNum + 1
@@ -135,7 +135,7 @@ def get_field( hexMirrorDict ):
                     #%disp(['Finished ring ',num2str(ringNum)]);
                     pass
                 else:
-                    if(missingSegments[segNum]==0):
+                    if(missingSegments[segNum]==1):
                         OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                                          wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT);
                         pass
-- 
2.43.0


From 5ed4a7cc5e27ec7913be47712874c91d0b50a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:16 +0000
Subject: [PATCH 101/116] fix: piston and tilts of the segments of a mirror
 were ignored

---
 falco/hexsegmirror.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/falco/hexsegmirror.py b/falco/hexsegmirror.py
index a4f1142..ae8f303 100644
--- a/falco/hexsegmirror.py
+++ b/falco/hexsegmirror.py
@@ -69,12 +69,10 @@ def add_hex_segment( centerRow, centerColumn, numRings, apDia, wGap, piston, til
     c = np.exp(-(RHOprime*np.cos(THETA+np.pi/6)/(hexFlatDiam/2))**power)
     HEXamp = a*b*c
     
-#    HEXphz = and(and(RHOprime*sin(THETA)<=(hexSep/2),RHOprime*cos(THETA-pi/6)<=(hexSep/2)),RHOprime*cos(THETA+pi/6)<=(hexSep/2))
-#            *np.exp(1i*2*pi*piston)
-#            *np.exp(1i*2*pi*tiltx/apDia*(X-centerColumn))
-#            *np.exp(1i*2*pi*tilty/apDia*(Y-centerRow))
-    HEXphz = 1.
-            
+    HEXphz = np.exp(1j*2*np.pi*piston) \
+        * np.exp(1j*2*np.pi*tiltx/apDia*(X-centerColumn)) \
+        * np.exp(1j*2*np.pi*tilty/apDia*(Y-centerRow))
+
     return arrayIn + HEXamp*HEXphz
 
 
@@ -104,7 +102,7 @@ def get_field( hexMirrorDict ):
         missingSegments = np.ones(count_segments( numRings ),)
     
     N1 = 2**falco.util.nextpow2(apDia)
-    OUT = np.zeros((N1,N1))
+    OUT = np.zeros((N1,N1), dtype=complex)
     
     hexFlatDiam = (apDia-numRings*2*wGap)/(2*numRings+1)
     hexSep = hexFlatDiam + wGap
-- 
2.43.0


From 428f4760203a62ff6263bce8e22988d9a542a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 102/116] fix: surface names were printed as bytes in tables of
 surfaces

---
 falco/proper/prop_begin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_begin.py b/falco/proper/prop_begin.py
index 56e2482..8106595 100644
--- a/falco/proper/prop_begin.py
+++ b/falco/proper/prop_begin.py
@@ -66,7 +66,7 @@ def prop_begin(beam_diameter, lamda, grid_n, beam_diam_fraction = 0.5):
         proper.lens_eff_fratio_list = np.zeros(nlist, dtype = np.float64)  # list of effective fratios after each lens 
         proper.beam_diam_list = np.zeros(nlist, dtype = np.float64)        # list of beam diameters at each lens
         proper.distance_list = np.zeros(nlist, dtype = np.float64)         # list of propagation distances 
-        proper.surface_name_list = np.zeros(nlist, dtype = "S25")          # list of surface names 
+        proper.surface_name_list = np.zeros(nlist, dtype = "U25")          # list of surface names 
         proper.sampling_list = np.zeros(nlist, dtype = np.float64)         # list of sampling at each surface
         proper.action_num = 0
                 
-- 
2.43.0


From 73658998295103814db7a6fbb6485ddeb7cd541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:20 +0000
Subject: [PATCH 103/116] fix: tables of surfaces gave the beam radius as the
 beam diameter

---
 falco/proper/prop_propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_propagate.py b/falco/proper/prop_propagate.py
index f66c0cf..3200b73 100644
--- a/falco/proper/prop_propagate.py
+++ b/falco/proper/prop_propagate.py
@@ -79,7 +79,7 @@ def prop_propagate(wf, dz, surface_name = "", **kwargs):
     if proper.do_table:
         proper.sampling_list[proper.action_num] = wf.dx
         proper.distance_list[proper.action_num] = dz
-        proper.beam_diam_list[proper.action_num] = 1 * proper.prop_get_beamradius(wf)
+        proper.beam_diam_list[proper.action_num] = 2 * proper.prop_get_beamradius(wf)
         
         if surface_name != "":
            proper.surface_name_list[proper.action_num] = surface_name
-- 
2.43.0


From 176e9f54a334c9fa913a6659062cb6be863325e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:29 +0000
Subject: [PATCH 104/116] fix: Roman full models gave square fields for
 rectangular images

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 4bbaa81..1be2978 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -176,9 +176,9 @@ def full(mp, modvar, isNorm=True):
 
         [Eout, sampling] = proper.prop_run(
             fn_proper, wvl*1e6,
-            int(2**falco.util.nextpow2(mp.Fend.Nxi)),
+            int(2**falco.util.nextpow2(max(mp.Fend.Nxi, mp.Fend.Neta))),
             QUIET=True, PASSVALUE=optval)
-        Eout = pad_crop(Eout, (mp.Fend.Nxi, mp.Fend.Nxi))
+        Eout = pad_crop(Eout, (mp.Fend.Neta, mp.Fend.Nxi))
 
         if not normFac == 0:
             Eout = Eout/np.sqrt(normFac)
-- 
2.43.0


From ab0f5bcc0a6a6a6f9837b9c8cba372ac294ab77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:30 +0000
Subject: [PATCH 105/116] fix: PROPER full models lost the options set in a
 configuration

---
 falco/model/models.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 1be2978..9f4ac79 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -131,7 +131,7 @@ def full(mp, modvar, isNorm=True):
 
     elif mp.layout.lower() == 'proper':
 
-        optval = copy.copy(vars(mp.full))
+        optval = _prescription_options(mp.full)
 
         if any(mp.dm_ind == 1):
             optval['use_dm1'] = True
@@ -160,7 +160,7 @@ def full(mp, modvar, isNorm=True):
         del optval
 
     elif mp.layout.lower() in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
-        optval = copy.copy(vars(mp.full))
+        optval = _prescription_options(mp.full)
         optval['use_dm1'] = True
         optval['use_dm2'] = True
         optval['dm1_m'] = mp.dm1.V*mp.dm1.VtoH + mp.full.dm1.flatmap
@@ -186,6 +186,14 @@ def full(mp, modvar, isNorm=True):
     return Eout
 
 
+def _prescription_options(settings):
+    """Collect all settings of the full model, however they were set."""
+    names = set(getattr(settings, 'data', ())) | set(vars(settings))
+    names.discard('data')
+
+    return {name: getattr(settings, name) for name in names}
+
+
 def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
     """
     Truth model with a simple layout used to generate images in simulation.
-- 
2.43.0


From 9b069902b8f6379bafd02d6882dbdb2e1c874967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:40 +0000
Subject: [PATCH 106/116] fix: Zernike sensitivities failed for rectangular
 images and several dark hole zones

---
 falco/zern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 06435bb..f1a6616 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -45,9 +45,10 @@ def calc_zern_sens(mp):
         maskDict["pixresFP"] = mp.Fend.res
         maskDict["rhoInner"] = Rsens[ni, 0]  # [lambda0/D]
         maskDict["rhoOuter"] = Rsens[ni, 1]  # [lambda0/D]
-        maskDict["angDeg"] = mp.Fend.corr.ang  # [degrees]
+        maskDict["angDeg"] = np.atleast_1d(mp.Fend.corr.ang)[0]  # [degrees]
         maskDict["centering"] = mp.centering
-        maskDict["FOV"] = mp.Fend.FOV
+        maskDict["Nxi"] = mp.Fend.Nxi
+        maskDict["Neta"] = mp.Fend.Neta
         maskDict["whichSide"] = np.atleast_1d(mp.Fend.sides)[0]
         if hasattr(mp.Fend, 'shape'):
             maskDict["shape"] = np.atleast_1d(mp.Fend.shape)[0]
-- 
2.43.0


From 0870cbbc5d84533071248442a67f0766cf0c3022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:40 +0000
Subject: [PATCH 107/116] fix: Zernike sensitivities ignored the rotation of
 the dark hole

---
 falco/zern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/zern.py b/falco/zern.py
index f1a6616..7ba8beb 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -52,6 +52,8 @@ def calc_zern_sens(mp):
         maskDict["whichSide"] = np.atleast_1d(mp.Fend.sides)[0]
         if hasattr(mp.Fend, 'shape'):
             maskDict["shape"] = np.atleast_1d(mp.Fend.shape)[0]
+        if hasattr(mp.Fend, 'clockAngDeg'):
+            maskDict["clockAngDeg"] = np.atleast_1d(mp.Fend.clockAngDeg)[0]
         maskCube[:, :, ni], xisDL, etasDL = falco.mask.falco_gen_SW_mask(maskDict)
 
     if not mp.full.flagPROPER:  # When using full models made with PROPER
-- 
2.43.0


From 13c2c4d524e7d67a30482a81d8e6eb3b474beba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:46 +0000
Subject: [PATCH 108/116] fix: Zernike sensitivities left the full model in
 another polarization state

---
 falco/zern.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 7ba8beb..410f949 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -257,7 +257,7 @@ def falco_get_single_sim_Efield_LamPol(ni, inds_list, mp):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 1]
-    mp.full.polaxis = mp.full.pol_conds[ipol]
+    mp = _with_polarization(mp, mp.full.pol_conds[ipol])
     modvar.whichSource = 'star'
     modvar.starIndex = 0
     modvar.zernIndex = 1
@@ -266,6 +266,14 @@ def falco_get_single_sim_Efield_LamPol(ni, inds_list, mp):
     return Estar
 
 
+def _with_polarization(mp, pol):
+    """Shallow copy of mp whose full model is in the given polarization state."""
+    mpPol = copy.copy(mp)
+    mpPol.full = copy.copy(mp.full)
+    mpPol.full.polaxis = pol
+    return mpPol
+
+
 def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
     """
     Calculate the E-field for a given wavelength, polarization, and Zernike.
@@ -303,7 +311,7 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
-    mp.full.polaxis = mp.full.pol_conds[ipol]
+    mp = _with_polarization(mp, mp.full.pol_conds[ipol])
     modvar.whichSource = 'star'
     modvar.starIndex = 0
 
-- 
2.43.0


From 7e3aea276162b403a34cdc501797cddcc01ad867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:38 +0000
Subject: [PATCH 109/116] fix: saving the workspace emptied the caller's model

---
 falco/wfsc.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index a2cdd8b..c0f06c5 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -202,29 +202,31 @@ def loop(mp, out):
         del cvar
         del jacStruct
 
+        ws = deepcopy(mp)  # The caller goes on using mp
+
         # Don't bother saving the large 2-D, floating point maps.
         # (they take up too much space)
-        mp.P1.full.mask = 1
-        mp.P1.compact.mask = 1
-        mp.P3.full.mask = 1
-        mp.P3.compact.mask = 1
-        mp.P4.full.mask = 1
-        mp.P4.compact.mask = 1
-        mp.F3.full.mask = 1
-        mp.F3.compact.mask = 1
-
-        mp.P1.full.E = 1
-        mp.P1.compact.E = 1
-        for dm in (mp.dm1, mp.dm2):
+        ws.P1.full.mask = 1
+        ws.P1.compact.mask = 1
+        ws.P3.full.mask = 1
+        ws.P3.compact.mask = 1
+        ws.P4.full.mask = 1
+        ws.P4.compact.mask = 1
+        ws.F3.full.mask = 1
+        ws.F3.compact.mask = 1
+
+        ws.P1.full.E = 1
+        ws.P1.compact.E = 1
+        for dm in (ws.dm1, ws.dm2):
             if hasattr(dm, 'full'):
                 dm.full.mask = 1
             if hasattr(dm, 'compact'):
                 dm.compact.mask = 1
                 dm.compact.inf_datacube = 0
-        mp.complexTransFull = 1
-        mp.complexTransCompact = 1
+        ws.complexTransFull = 1
+        ws.complexTransCompact = 1
 
-        for dm in (mp.dm8, mp.dm9):
+        for dm in (ws.dm8, ws.dm9):
             dm.inf_datacube = 0
             if hasattr(dm, 'compact'):
                 dm.compact.inf_datacube = 0
@@ -232,7 +234,7 @@ def loop(mp, out):
         fnAll = os.path.join(mp.path.ws, (mp.runLabel + '_all.pkl'))
         print('Saving entire workspace to file ' + fnAll + '...', end='')
         with open(fnAll, 'wb') as f:
-            pickle.dump(mp, f)
+            pickle.dump(ws, f)
 
         print('done.\n\n')
     else:
-- 
2.43.0


From e45ced96c8a58cab6c04c04bee4df632b69ed122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:02 +0000
Subject: [PATCH 110/116] fix: a polygon starting along a straight edge was
 drawn wrong

The sense of the vertices of an irregular polygon was taken from the
first three, which may lie on one line.
---
 falco/proper/prop_irregular_polygon.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/falco/proper/prop_irregular_polygon.py b/falco/proper/prop_irregular_polygon.py
index 038b8e7..1cb1860 100644
--- a/falco/proper/prop_irregular_polygon.py
+++ b/falco/proper/prop_irregular_polygon.py
@@ -67,9 +67,10 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
     mag = proper.antialias_subsampling
     
     # drawing algorithm needs vertices to be clockwise-ordered.
-    # Test for clockwise-ness of vertices; for a convex polygon, if the cross 
-    # product of adjacent edges is positive, it is counter-clockwise.
-    cp = (xvert[1] - xvert[0]) * (yvert[2] - yvert[1]) - (yvert[1] - yvert[0]) * (xvert[2] - xvert[1])
+    # Test for clockwise-ness of vertices: the signed area of the polygon is
+    # positive if they are counter-clockwise. (Any three adjacent vertices may
+    # lie on one line.)
+    cp = np.sum(xvert * np.roll(yvert, -1) - np.roll(xvert, -1) * yvert)
     if cp > 0:
         xp = xvert[::-1]
         yp = yvert[::-1]
-- 
2.43.0


From 537aceb0f621ef8a5fedfd79957ab4e74fa55ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:02 +0000
Subject: [PATCH 111/116] fix: an ellipse outside of the array raised
 IndexError

The differences were computed for nothing (they are overwritten), and do
not exist if the box around the ellipse is one pixel wide.
---
 falco/proper/prop_ellipse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/falco/proper/prop_ellipse.py b/falco/proper/prop_ellipse.py
index 9d8becd..e69b835 100644
--- a/falco/proper/prop_ellipse.py
+++ b/falco/proper/prop_ellipse.py
@@ -105,8 +105,6 @@ def prop_ellipse(wf, xradius, yradius, xc = 0.0, yc = 0.0, **kwargs):
     xr = (x * cost - y * sint) / xrad_pix
     yr = (x * sint + y * cost) / yrad_pix
     r = np.sqrt(xr*xr + yr*yr)
-    drx = np.abs(r[0,1] - r[0,0])
-    dry = np.abs(r[1,0] - r[0,0])
 
     delx = 1.0 / xrad_pix
     dely = 1.0 / yrad_pix
-- 
2.43.0


From ed89e46c936b25ef2083ab32c174eca998b5436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:02 +0000
Subject: [PATCH 112/116] fix: a polygon in an array of odd size was half a
 pixel off

---
 falco/proper/prop_polygon.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/falco/proper/prop_polygon.py b/falco/proper/prop_polygon.py
index 073b1af..a423c3b 100644
--- a/falco/proper/prop_polygon.py
+++ b/falco/proper/prop_polygon.py
@@ -79,20 +79,20 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
     
     
     if np.isnan(xc):
-        xcpix = ngrid/2.
+        xcpix = ngrid//2
     else:
         if norm:
-            xcpix = xc*pr + ngrid/2.
+            xcpix = xc*pr + ngrid//2
         else:
-            xcpix = xc / sampling + ngrid/2.
+            xcpix = xc / sampling + ngrid//2
             
     if np.isnan(yc):
-        ycpix = ngrid/2.
+        ycpix = ngrid//2
     else:
         if norm:
-            ycpix = yc*pr + ngrid/2.
+            ycpix = yc*pr + ngrid//2
         else:
-            ycpix = yc / sampling + ngrid/2.
+            ycpix = yc / sampling + ngrid//2
             
     if not norm:
         radpix = rad/sampling
-- 
2.43.0


From ef92f22da59ffa801c931279f6a4d3c2aa9c5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:07 +0000
Subject: [PATCH 113/116] fix: plotting the probes changed the measured images

---
 falco/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index 89e6ba5..a2417a4 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -350,5 +350,4 @@ def pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband):
 
 
 def log10nonneg(array):
-    array[array < 0] = 0
-    return np.log10(array)
+    return np.log10(np.maximum(array, 0))
-- 
2.43.0


From b7de8ae34797eb9654eb3865dcdaa42201a4661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:01 +0000
Subject: [PATCH 114/116] fix: the singular mode spectrum failed as no Jacobian
 of DM 8 and 9 exists

---
 falco/plot.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index a2417a4..7b0ec72 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -244,22 +244,17 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
 
 def singular_mode_spectrum_of_Efield(mp, out, jacStruct, Eest, Itr):
 
-    iMode = 0
-    Gcomplex = np.concatenate((jacStruct.G1[:, :, iMode],
-                               jacStruct.G2[:, :, iMode],
-                               jacStruct.G8[:, :, iMode],
-                               jacStruct.G9[:, :, iMode]), axis=1)
+    # Only the DMs used for control have a Jacobian
+    Gcube = np.concatenate([getattr(jacStruct, 'G%d' % dm) for dm in (1, 2, 8, 9)
+                            if np.any(mp.dm_ind == dm)], axis=1)
+    Gcomplex = Gcube[:, :, 0]
     Gall = np.zeros((mp.jac.Nmode*Gcomplex.shape[0], Gcomplex.shape[1]),
                     dtype=complex)
     Eall = np.zeros((mp.jac.Nmode*Eest.shape[0], 1), dtype=complex)
 
     for iMode in range(mp.jac.Nmode):
         N = Gcomplex.shape[0]
-        Gcomplex = np.concatenate((jacStruct.G1[:, :, iMode],
-                                   jacStruct.G2[:, :, iMode],
-                                   jacStruct.G8[:, :, iMode],
-                                   jacStruct.G9[:, :, iMode]), axis=1)
-        Gall[iMode*N:(iMode+1)*N, :] = Gcomplex
+        Gall[iMode*N:(iMode+1)*N, :] = Gcube[:, :, iMode]
         Eall[iMode*N:(iMode+1)*N, 0] = Eest[:, iMode]
 
     Eri = np.concatenate((np.real(Eall), np.imag(Eall)), axis=0)
-- 
2.43.0


From 7811153387eb3e48f785aee344be323f393c87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:01 +0000
Subject: [PATCH 115/116] fix: smoothing a vector shorter than the window made
 it longer

---
 falco/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/util.py b/falco/util.py
index 2f720ba..bc7c4b8 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -635,6 +635,7 @@ def smooth(y, box_pts):
         1-D array of smoothed values.
 
     """
+    box_pts = min(box_pts, len(y))  # the output is as long as the input
     box = np.ones(box_pts)/box_pts
     y_smooth = np.convolve(y, box, mode='same')
 
-- 
2.43.0


From e61ed37fdb4c21eae17407996a77f964c502795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:31 +0000
Subject: [PATCH 116/116] fix: extracting an odd-sized centre returned an array
 one pixel short

---
 falco/proper/prop_end.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/proper/prop_end.py b/falco/proper/prop_end.py
index f4fbb34..76fbcc0 100644
--- a/falco/proper/prop_end.py
+++ b/falco/proper/prop_end.py
@@ -49,6 +49,7 @@ def prop_end(wf, **kwargs):
     if "EXTRACT" in kwargs:
         EXTRACT = kwargs["EXTRACT"]
         ny, nx = wf.wfarr.shape
-        wf.wfarr = wf.wfarr[ny//2-EXTRACT//2:ny//2+EXTRACT//2,nx//2-EXTRACT//2:nx//2+EXTRACT//2]
+        y0, x0 = ny//2-EXTRACT//2, nx//2-EXTRACT//2
+        wf.wfarr = wf.wfarr[y0:y0+EXTRACT, x0:x0+EXTRACT]
 
     return (wf.wfarr, sampling)
-- 
2.43.0

