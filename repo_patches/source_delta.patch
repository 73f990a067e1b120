From cbad43215232cc0fdcdd13afdf836c33f9310e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:20 +0000
Subject: [PATCH 01/95] fix: BaseSrc.get_receiver_indices raised TypeError for
 every receiver

---
 simpeg/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index e471ab1..1b8b513 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -340,7 +340,7 @@ class BaseSrc:
 
     @property
     def _rxOrder(self):
-        if getattr(self.__rxOrder, None) is None:
+        if self.__rxOrder is None:
             self.__rxOrder = {}
             [
                 self.__rxOrder.setdefault(rx.uid, ii)
-- 
2.43.0


From 429a314a163d69453a0a935ce4a18c09be4b251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:41 +0000
Subject: [PATCH 02/95] fix: number of data and unique times stayed stale after
 replacing sources or receivers

---
 simpeg/survey.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index 1b8b513..8416457 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -519,9 +519,12 @@ class BaseSurvey:
         (n_src) numpy.ndarray of int
             Number of associate data for each source
         """
-        if getattr(self, "_vnD", None) is None:
-            self._vnD = np.array([src.nD for src in self.source_list])
-        return self._vnD
+        # an explicitly assigned _vnD takes precedence; the counts that follow from
+        # the sources are not cached as source and receiver lists can be replaced.
+        vnD = getattr(self, "_vnD", None)
+        if vnD is None:
+            vnD = np.array([src.nD for src in self.source_list])
+        return vnD
 
     @property
     def nSrc(self):
@@ -638,10 +641,8 @@ class BaseTimeSurvey(BaseSurvey):
         numpy.ndarray
             The unique time channels for all survey receivers.
         """
-        if getattr(self, "_unique_times", None) is None:
-            rx_times = []
-            for source in self.source_list:
-                for receiver in source.receiver_list:
-                    rx_times.append(receiver.times)
-            self._unique_times = np.unique(np.hstack(rx_times))
-        return self._unique_times
+        rx_times = []
+        for source in self.source_list:
+            for receiver in source.receiver_list:
+                rx_times.append(receiver.times)
+        return np.unique(np.hstack(rx_times))
-- 
2.43.0


From 1a29b3cb66cef35dc5f764ad529438b0c3965380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:04 +0000
Subject: [PATCH 03/95] fix: FDEM survey kept the frequencies of the previous
 source list

---
 .../frequency_domain/survey.py                | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/survey.py b/simpeg/electromagnetics/frequency_domain/survey.py
index c7c0a1d..e23c458 100644
--- a/simpeg/electromagnetics/frequency_domain/survey.py
+++ b/simpeg/electromagnetics/frequency_domain/survey.py
@@ -15,15 +15,6 @@ class Survey(BaseSurvey):
     def __init__(self, source_list, **kwargs):
         super(Survey, self).__init__(source_list, **kwargs)
 
-        _frequency_dict = {}
-        for src in self.source_list:
-            if src.frequency not in _frequency_dict:
-                _frequency_dict[src.frequency] = []
-            _frequency_dict[src.frequency] += [src]
-
-        self._frequency_dict = _frequency_dict
-        self._frequencies = sorted([f for f in self._frequency_dict])
-
     @property
     def source_list(self):
         """List of FDEM sources associated with the survey
@@ -41,6 +32,16 @@ class Survey(BaseSurvey):
             "source_list", new_list, BaseFDEMSrc, ensure_unique=True
         )
 
+        _frequency_dict = {}
+        for src in self._source_list:
+            if src.frequency not in _frequency_dict:
+                _frequency_dict[src.frequency] = []
+            _frequency_dict[src.frequency] += [src]
+
+        self._frequency_dict = _frequency_dict
+        self._frequencies = sorted([f for f in self._frequency_dict])
+        self._num_sources_by_frequency = None
+
     @property
     def frequencies(self):
         """Frequencies in the survey
-- 
2.43.0


From c21016eeb8c73f9632a8755d30740ba5b513b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:04 +0000
Subject: [PATCH 04/95] fix: DC survey kept the electrode locations of the
 previous source list

---
 simpeg/electromagnetics/static/resistivity/survey.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simpeg/electromagnetics/static/resistivity/survey.py b/simpeg/electromagnetics/static/resistivity/survey.py
index 2d540a1..e892aa2 100644
--- a/simpeg/electromagnetics/static/resistivity/survey.py
+++ b/simpeg/electromagnetics/static/resistivity/survey.py
@@ -36,6 +36,15 @@ class Survey(BaseSurvey):
         super(Survey, self).__init__(source_list, **kwargs)
         self.survey_geometry = survey_geometry
 
+    @BaseSurvey.source_list.setter
+    def source_list(self, new_list):
+        BaseSurvey.source_list.fset(self, new_list)
+        # electrode locations are gathered from the sources
+        self._locations_a = None
+        self._locations_b = None
+        self._locations_m = None
+        self._locations_n = None
+
     @property
     def survey_geometry(self):
         """Survey geometry.
-- 
2.43.0


From 578ab73fcd477c175d170f3b1954bd5faac1762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 05/95] fix: TDEM Jvec dropped the field derivatives at the
 final time

---
 simpeg/electromagnetics/time_domain/simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index efd986e..063fdbb 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -266,6 +266,14 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 if tInd != len(self.time_steps + 1):
                     dun_dm_v[:, i] = Adiaginv * (JRHS - Asubdiag * dun_dm_v[:, i])
 
+        # fill in the derivatives at the final time
+        for i, src in enumerate(self.survey.source_list):
+            for projField in set([rx.projField for rx in src.receiver_list]):
+                df_dmFun = getattr(f, "_%sDeriv" % projField, None)
+                df_dm_v[src, "{}Deriv".format(projField), self.nT] = df_dmFun(
+                    self.nT, src, dun_dm_v[:, i], v
+                )
+
         Jv = []
         for src in self.survey.source_list:
             for rx in src.receiver_list:
-- 
2.43.0


From 91706f2718a039b6025efeb52361a78d96f0335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 06/95] fix: TDEM e-formulation Jtvec used the second time step
 for the initial condition of galvanic sources

---
 simpeg/electromagnetics/time_domain/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index 063fdbb..baf612a 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -1340,6 +1340,7 @@ class Simulation3DElectricField(BaseTDEMSimulation):
         # Treating initial condition when a galvanic source is included
         tInd = -1
         Grad = self.mesh.nodal_gradient
+        Asubdiag = self.getAsubdiag(0)
 
         for isrc, src in enumerate(self.survey.source_list):
             if src.srcType == "galvanic":
-- 
2.43.0


From ddc8fa18322df08592621b2d06657c361c1ec954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:45 +0000
Subject: [PATCH 07/95] fix: TDEM Jtvec ignored the model dependence of the
 initial fields of galvanic sources (b, h, j formulations)

---
 simpeg/electromagnetics/time_domain/simulation.py | 15 ++++++++++-----
 simpeg/electromagnetics/time_domain/sources.py    |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index baf612a..f5fad95 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -442,6 +442,15 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 JTv = JTv + mkvc(-dAT_dm_v - dAsubdiagT_dm_v + dRHST_dm_v)
 
         # Treat the initial condition
+        Asubdiag = self.getAsubdiag(0)
+        for isrc, src in enumerate(self.survey.source_list):
+            JTv = JTv + self.getInitialFieldsDeriv(
+                src,
+                mkvc(df_duT_v[src, "{}Deriv".format(self._fieldType), 0])
+                - Asubdiag.T * ATinv_df_duT_v[isrc, :],
+                adjoint=True,
+                f=f,
+            )
 
         # del df_duT_v, ATinv_df_duT_v, A, Asubdiag
         if AdiagTinv is not None:
@@ -570,11 +579,7 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 ifieldsDeriv += np.zeros(self.mesh.n_edges)
 
         elif adjoint is True:
-            if self._fieldType in ["b", "j"]:
-                ifieldsDeriv += np.zeros(self.mesh.n_faces)
-            elif self._fieldType in ["e", "h"]:
-                ifieldsDeriv[0] += np.zeros(self.mesh.n_edges)
-            ifieldsDeriv[1] += np.zeros_like(self.model)  # take care of a  Zero() case
+            ifieldsDeriv += np.zeros(len(self.model))
 
         return ifieldsDeriv
 
diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index c0d7473..f1bf2ca 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -2173,7 +2173,7 @@ class LineCurrent(BaseTDEMSrc):
         numpy.ndarray
             Derivative of initial magnetic flux density times a vector
         """
-        if self.waveform.has_initial_fields is False:
+        if self.waveform.has_initial_fields is False or self.srcType == "inductive":
             return Zero()
 
         if adjoint is True:
-- 
2.43.0


From 8407d344467979cbdc5c3056a9c3b98669e6c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 08/95] fix: Richards Jtvec without fields called a method that
 does not exist

---
 simpeg/flow/richards/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index 97c2e58..b959189 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -414,7 +414,7 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
     @utils.timeIt
     def Jtvec(self, m, v, f=None):
         if f is None:
-            f = self.field(m)
+            f = self.fields(m)
 
         PTv, PTdv = self.survey.derivAdjoint(self, f, v=v)
 
-- 
2.43.0


From 0eb76179ff0da73fe6ec63a5ed973f99ceb86022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 09/95] fix: FDEM magnetic-property sensitivities mixed up the
 sources of one frequency

---
 simpeg/electromagnetics/frequency_domain/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 179a32c..982d4f2 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -886,7 +886,7 @@ class Simulation3DElectricField(BaseFDEMSimulation):
 
         C = self.mesh.edge_curl
         MfMui = self.MfMui
-        s_m, s_e = self.getSourceTerm(freq)
+        s_m, _ = src.eval(self)
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
         MfMuiDeriv = self.MfMuiDeriv(s_m)
 
@@ -1764,7 +1764,7 @@ class Simulation3DCurrentDensity(BaseFDEMSimulation):
         MeMuI = self.MeMuI
         MeMuIDeriv = self.MeMuIDeriv
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
-        s_m, _ = self.getSourceTerm(freq)
+        s_m, _ = src.eval(self)
 
         if adjoint:
             if self._makeASymmetric:
-- 
2.43.0


From 489cada22b5cfa86c43db3e5ed86a6370a549cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 10/95] fix: simulations ignored a new model that differed from
 the previous one by less than the allclose tolerance

---
 simpeg/props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index ee9ac01..558cbd6 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -460,7 +460,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
             if not (
                 isinstance(previous_value, np.ndarray)
                 and isinstance(value, np.ndarray)
-                and np.allclose(previous_value, value)
+                and np.array_equal(previous_value, value)
             ):
                 # cached properties to delete
                 for prop in self._delete_on_model_update:
-- 
2.43.0


From 7e10ef2eff13aef454fa3c015703178518808c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 11/95] fix: deleting the model left a tuple in its place

---
 simpeg/props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index 558cbd6..7238ad0 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -478,7 +478,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
 
     @model.deleter
     def model(self):
-        self._model = (None,)
+        self._model = None
         # cached properties to delete
         for prop in self._delete_on_model_update:
             if hasattr(self, prop):
-- 
2.43.0


From bd7cdfac4def67bb7e7a715ca197a47c4a1c0bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:12 +0000
Subject: [PATCH 12/95] fix: SIP data and Jtvec were ordered by source while
 the predicted data are ordered by time

---
 .../static/spectral_induced_polarization/data.py       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/data.py b/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
index f84e018..46c32dd 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
@@ -42,14 +42,16 @@ class Data(BaseData):
                     self._index_dictionary[src][rx] = {}
 
             # loop over sources and find the associated data indices
+            # the simulations order the data by time, then source and receiver
             indBot, indTop = 0, 0
-            for src in self.survey.source_list:
-                for rx in src.receiver_list:
-                    for t in rx.times:
+            for t in self.survey.unique_times:
+                for src in self.survey.source_list:
+                    for rx in src.receiver_list:
+                        if t not in rx.times:
+                            continue
                         indTop += rx.nD
                         self._index_dictionary[src][rx][t] = np.arange(indBot, indTop)
                         indBot += rx.nD
-
         return self._index_dictionary
 
     ##########################
-- 
2.43.0


From d63b12f326dd9152505361b469a8aa50849d8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:47 +0000
Subject: [PATCH 13/95] fix: SIP simulations with stored sensitivities raised
 AttributeError

---
 .../static/spectral_induced_polarization/simulation.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index b0b3344..c339c43 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -382,7 +382,7 @@ class BaseSIPSimulation(BaseIPSimulation):
                     sys.stdout.flush()
                 u_src = f[src, self._solutionType]
                 for rx in src.receiver_list:
-                    P = rx.getP(self.mesh, rx.projGLoc(f)).toarray()
+                    P = rx.getP(self.mesh, f._GLoc(rx.projField)).toarray()
                     ATinvdf_duT = self.Ainv * (P.T)
                     dA_dmT = self.getADeriv(u_src, ATinvdf_duT, adjoint=True)
                     iend = istrt + rx.nD
@@ -413,7 +413,7 @@ class BaseSIPSimulation(BaseIPSimulation):
         ntime = len(self.survey.unique_times)
         JtJdiag = np.zeros_like(m)
         J = self.getJ(m, f=f)
-        wd = Wd.diagonal().reshape((self.survey.locations_n, ntime), order="F")
+        wd = Wd.diagonal().reshape((self.survey.n_locations, ntime), order="F")
         for tind in range(ntime):
             t = self.survey.unique_times[tind]
             Jtv = self._P * J.T * sdiag(wd[:, tind])
-- 
2.43.0


From 6ba6db2492b9e648236fb3b4e4a4f87c178d14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:22 +0000
Subject: [PATCH 14/95] fix: sensitivity diagonal of magnetic amplitude data
 without weights raised IndexError

---
 simpeg/potential_fields/magnetics/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 6b403dd..f3ab014 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -384,7 +384,7 @@ class Simulation3DIntegral(BasePFSimulation):
         weights = (
             W.diagonal() ** 2
             if W is not None
-            else np.ones(self.survey.nD, dtype=np.float64)
+            else np.ones(self.nD, dtype=np.float64)
         )
 
         # Compute gtg (G.T @ W.T @ W @ G) if it's not cached, or if the
-- 
2.43.0


From cbe48322fbbf1fcfa032512b507da068834e65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:10 +0000
Subject: [PATCH 15/95] fix: sensitivity diagonals kept the values of earlier
 models and weights

---
 simpeg/electromagnetics/base_1d.py            |  40 ++++---
 .../frequency_domain/simulation.py            |  17 ++-
 .../natural_source/simulation_1d.py           |  30 +++---
 .../static/induced_polarization/simulation.py |  15 ++-
 .../static/resistivity/simulation.py          |  20 ++--
 simpeg/meta/dask_sim.py                       | 102 +++++++++---------
 simpeg/meta/multiprocessing.py                |  46 ++++----
 simpeg/meta/simulation.py                     |  82 +++++++-------
 8 files changed, 162 insertions(+), 190 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 41ae772..500b90b 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -637,24 +637,22 @@ class BaseEM1DSimulation(BaseSimulation):
         return delta
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            Js = self._getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
-            out = 0.0
-            if self.hMap is not None:
-                J = Js["dh"] @ self.hDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.sigmaMap is not None:
-                J = Js["ds"] @ self.sigmaDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.muMap is not None:
-                J = Js["dmu"] @ self.muDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.thicknessesMap is not None:
-                J = Js["dthick"] @ self.thicknessesDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            self._gtgdiag = out
-        return self._gtgdiag
+        Js = self._getJ(m, f=f)
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal() ** 2
+        out = 0.0
+        if self.hMap is not None:
+            J = Js["dh"] @ self.hDeriv
+            out = out + np.einsum("i,ij,ij->j", W, J, J)
+        if self.sigmaMap is not None:
+            J = Js["ds"] @ self.sigmaDeriv
+            out = out + np.einsum("i,ij,ij->j", W, J, J)
+        if self.muMap is not None:
+            J = Js["dmu"] @ self.muDeriv
+            out = out + np.einsum("i,ij,ij->j", W, J, J)
+        if self.thicknessesMap is not None:
+            J = Js["dthick"] @ self.thicknessesDeriv
+            out = out + np.einsum("i,ij,ij->j", W, J, J)
+        return out
diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 982d4f2..f18ff93 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -424,19 +424,16 @@ class BaseFDEMSimulation(BaseEMSimulation):
         """
         self.model = m
 
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
+        J = self.getJ(m, f=f)
 
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
-
-            diag = np.einsum("i,ij,ij->j", W, J, J)
+        if W is None:
+            W = np.ones(J.shape[0])
+        else:
+            W = W.diagonal() ** 2
 
-            self._gtgdiag = diag
+        diag = np.einsum("i,ij,ij->j", W, J, J)
 
-        return self._gtgdiag
+        return diag
 
     # @profile
     def getSourceTerm(self, freq):
diff --git a/simpeg/electromagnetics/natural_source/simulation_1d.py b/simpeg/electromagnetics/natural_source/simulation_1d.py
index ef03577..2b9a8ad 100644
--- a/simpeg/electromagnetics/natural_source/simulation_1d.py
+++ b/simpeg/electromagnetics/natural_source/simulation_1d.py
@@ -315,22 +315,20 @@ class Simulation1DRecursive(BaseSimulation):
         return self._Jmatrix
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            Js = self.getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
-
-            gtgdiag = 0
-            if self.sigmaMap is not None:
-                J = Js["sigma"] @ self.sigmaDeriv
-                gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-            if self.thicknessesMap is not None:
-                J = Js["thick"] @ self.thicknessesDeriv
-                gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-            self._gtgdiag = gtgdiag
-        return self._gtgdiag
+        Js = self.getJ(m, f=f)
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal() ** 2
+
+        gtgdiag = 0
+        if self.sigmaMap is not None:
+            J = Js["sigma"] @ self.sigmaDeriv
+            gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
+        if self.thicknessesMap is not None:
+            J = Js["thick"] @ self.thicknessesDeriv
+            gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
+        return gtgdiag
 
     def Jvec(self, m, v, f=None):
         J = self.getJ(m, f=None)
diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 30c7dae..e36b418 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -113,16 +113,13 @@ class BaseIPSimulation(BasePDESimulation):
         return self._pred
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
-            if W is None:
-                W = self._scale**2
-            else:
-                W = (self._scale * W.diagonal()) ** 2
+        J = self.getJ(m, f=f)
+        if W is None:
+            W = self._scale**2
+        else:
+            W = (self._scale * W.diagonal()) ** 2
 
-            self._gtgdiag = np.einsum("i,ij,ij->j", W, J, J)
-
-        return self._gtgdiag
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     def Jvec(self, m, v, f=None):
         return self._scale * super().Jvec(m, v, f)
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index c84939a..5e429fc 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -138,20 +138,18 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         """
         Return the diagonal of JtJ
         """
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
+        J = self.getJ(m, f=f)
 
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
+        if W is None:
+            W = np.ones(J.shape[0])
+        else:
+            W = W.diagonal() ** 2
 
-            diag = np.zeros(J.shape[1])
-            for i in range(J.shape[0]):
-                diag += (W[i]) * (J[i] * J[i])
+        diag = np.zeros(J.shape[1])
+        for i in range(J.shape[0]):
+            diag += (W[i]) * (J[i] * J[i])
 
-            self._gtgdiag = diag
-        return self._gtgdiag
+        return diag
 
     def Jvec(self, m, v, f=None):
         """
diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index 701dffe..8aecab6 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -468,35 +468,32 @@ class DaskMetaSimulation(MetaSimulation):
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
         m_future = self._m_as_future
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
-            jtj_diag = []
-            client = self.client
-            if f is None:
-                f = self.fields(m)
-            for i, (mapping, sim, worker, field) in enumerate(
-                zip(self.mappings, self.simulations, self._workers, f)
-            ):
-                sim_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
-                jtj_diag.append(
-                    client.submit(
-                        _get_jtj_diag,
-                        mapping,
-                        sim,
-                        m_future,
-                        field,
-                        sim_w,
-                        self._repeat_sim,
-                        workers=worker,
-                        pure=False,
-                    )
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        jtj_diag = []
+        client = self.client
+        if f is None:
+            f = self.fields(m)
+        for i, (mapping, sim, worker, field) in enumerate(
+            zip(self.mappings, self.simulations, self._workers, f)
+        ):
+            sim_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
+            jtj_diag.append(
+                client.submit(
+                    _get_jtj_diag,
+                    mapping,
+                    sim,
+                    m_future,
+                    field,
+                    sim_w,
+                    self._repeat_sim,
+                    workers=worker,
+                    pure=False,
                 )
-            self._jtjdiag = _reduce(client, add, jtj_diag, workers=self._workers)
-
-        return self._jtjdiag
+            )
+        return _reduce(client, add, jtj_diag, workers=self._workers)
 
 
 class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
@@ -618,33 +615,30 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            jtj_diag = []
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
-            client = self.client
-            if f is None:
-                f = self.fields(m)
-            for mapping, sim, worker, field in zip(
-                self.mappings, self._simulations, self._workers, f
-            ):
-                jtj_diag.append(
-                    client.submit(
-                        _get_jtj_diag,
-                        mapping,
-                        sim,
-                        self._m_as_future,
-                        field,
-                        W,
-                        workers=worker,
-                        pure=False,
-                    )
+        jtj_diag = []
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        client = self.client
+        if f is None:
+            f = self.fields(m)
+        for mapping, sim, worker, field in zip(
+            self.mappings, self._simulations, self._workers, f
+        ):
+            jtj_diag.append(
+                client.submit(
+                    _get_jtj_diag,
+                    mapping,
+                    sim,
+                    self._m_as_future,
+                    field,
+                    W,
+                    workers=worker,
+                    pure=False,
                 )
-            self._jtjdiag = _reduce(client, add, jtj_diag, workers=self._workers)
-
-        return self._jtjdiag
+            )
+        return _reduce(client, add, jtj_diag, workers=self._workers)
 
 
 class DaskRepeatedSimulation(DaskMetaSimulation):
diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 05edf03..3662f48 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -327,21 +327,19 @@ class MultiprocessingMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
-            if f is None:
-                f = self.fields(m)
-            for i, (p, field) in enumerate(zip(self._sim_processes, f)):
-                chunk_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
-                p.start_jtj_diag(chunk_w, field)
-            jtj_diag = []
-            for p in self._sim_processes:
-                jtj_diag.append(p.result())
-            self._jtjdiag = np.sum(jtj_diag, axis=0)
-        return self._jtjdiag
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        if f is None:
+            f = self.fields(m)
+        for i, (p, field) in enumerate(zip(self._sim_processes, f)):
+            chunk_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
+            p.start_jtj_diag(chunk_w, field)
+        jtj_diag = []
+        for p in self._sim_processes:
+            jtj_diag.append(p.result())
+        return np.sum(jtj_diag, axis=0)
 
     def join(self, timeout=None):
         for p in self._sim_processes:
@@ -410,16 +408,14 @@ class MultiprocessingSumMetaSimulation(
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if f is None:
-                f = self.fields(m)
-            for p, field in zip(self._sim_processes, f):
-                p.start_jtj_diag(W, field)
-            jtj_diag = []
-            for p in self._sim_processes:
-                jtj_diag.append(p.result())
-            self._jtjdiag = np.sum(jtj_diag, axis=0)
-        return self._jtjdiag
+        if f is None:
+            f = self.fields(m)
+        for p, field in zip(self._sim_processes, f):
+            p.start_jtj_diag(W, field)
+        jtj_diag = []
+        for p in self._sim_processes:
+            jtj_diag.append(p.result())
+        return np.sum(jtj_diag, axis=0)
 
 
 class MultiprocessingRepeatedSimulation(
diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index f2ebc30..b6f171a 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -292,37 +292,34 @@ class MetaSimulation(BaseSimulation):
         then controlled by how diagonally dominant ``J.T @ J`` is.
         """
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                try:
-                    W = W.diagonal()
-                except (AttributeError, TypeError, ValueError):
-                    pass
-            jtj_diag = 0.0
-            # approximate the JtJ diag on the full model space as:
-            # sum((diag(sqrt(jtj_diag)) @ M_deriv))**2)
-            # Which is correct for mappings that match input parameters to only 1 output parameter.
-            # (i.e. projections, multipliers, etc.).
-            # It is usually close within a scaling factor for others, whose accuracy is controlled
-            # by how diagonally dominant JtJ is.
-            if f is None:
-                f = self.fields(m)
-            for i, (mapping, sim, field) in enumerate(
-                zip(self.mappings, self.simulations, f)
-            ):
-                if self._repeat_sim:
-                    sim.model = mapping * self.model
-                sim_w = sp.diags(W[self._data_offsets[i] : self._data_offsets[i + 1]])
-                sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, sim_w, f=field)))
-                m_deriv = mapping.deriv(self.model)
-                jtj_diag += np.asarray(
-                    (sim_jtj @ m_deriv).power(2).sum(axis=0)
-                ).flatten()
-            self._jtjdiag = jtj_diag
-
-        return self._jtjdiag
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            try:
+                W = W.diagonal()
+            except (AttributeError, TypeError, ValueError):
+                pass
+        jtj_diag = 0.0
+        # approximate the JtJ diag on the full model space as:
+        # sum((diag(sqrt(jtj_diag)) @ M_deriv))**2)
+        # Which is correct for mappings that match input parameters to only 1 output parameter.
+        # (i.e. projections, multipliers, etc.).
+        # It is usually close within a scaling factor for others, whose accuracy is controlled
+        # by how diagonally dominant JtJ is.
+        if f is None:
+            f = self.fields(m)
+        for i, (mapping, sim, field) in enumerate(
+            zip(self.mappings, self.simulations, f)
+        ):
+            if self._repeat_sim:
+                sim.model = mapping * self.model
+            sim_w = sp.diags(W[self._data_offsets[i] : self._data_offsets[i + 1]])
+            sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, sim_w, f=field)))
+            m_deriv = mapping.deriv(self.model)
+            jtj_diag += np.asarray(
+                (sim_jtj @ m_deriv).power(2).sum(axis=0)
+            ).flatten()
+        return jtj_diag
 
     @property
     def _delete_on_model_update(self):
@@ -408,19 +405,16 @@ class SumMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            jtj_diag = 0.0
-            if f is None:
-                f = self.fields(m)
-            for mapping, sim, field in zip(self.mappings, self.simulations, f):
-                sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
-                m_deriv = mapping.deriv(self.model)
-                jtj_diag += np.asarray(
-                    (sim_jtj @ m_deriv).power(2).sum(axis=0)
-                ).flatten()
-            self._jtjdiag = jtj_diag
-
-        return self._jtjdiag
+        jtj_diag = 0.0
+        if f is None:
+            f = self.fields(m)
+        for mapping, sim, field in zip(self.mappings, self.simulations, f):
+            sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
+            m_deriv = mapping.deriv(self.model)
+            jtj_diag += np.asarray(
+                (sim_jtj @ m_deriv).power(2).sum(axis=0)
+            ).flatten()
+        return jtj_diag
 
 
 class RepeatedSimulation(MetaSimulation):
-- 
2.43.0


From d665b9a7eb7c4020d027ef1a8c9878e1bf0077ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 16/95] fix: FDEM/NSEM getJ failed for receivers whose fields
 depend on the model and for single-datum receivers

---
 .../frequency_domain/simulation.py              | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index f18ff93..c25102e 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -367,6 +367,9 @@ class BaseFDEMSimulation(BaseEMSimulation):
 
                     for rx in src.receiver_list:
                         v = np.eye(rx.nD, dtype=float)
+                        if rx.nD == 1:
+                            # a single vector, as the derivatives squeeze their input
+                            v = v[:, 0]
 
                         df_duT, df_dmT = rx.evalDeriv(
                             src, self.mesh, f, v=v, adjoint=True
@@ -378,14 +381,16 @@ class BaseFDEMSimulation(BaseEMSimulation):
                         dRHS_dmT = self.getRHSDeriv(
                             freq, src, ATinvdf_duT, adjoint=True
                         )
-                        du_dmT = -dA_dmT
-
+                        # one column per datum of the receiver
+                        du_dmT = np.zeros((m_size, rx.nD), dtype=complex)
+                        if not isinstance(dA_dmT, Zero):
+                            du_dmT -= np.reshape(dA_dmT, du_dmT.shape)
                         if not isinstance(dRHS_dmT, Zero):
-                            du_dmT += dRHS_dmT
-                        if not isinstance(df_dmT[0], Zero):
-                            du_dmT += np.hstack(df_dmT)
+                            du_dmT += np.reshape(dRHS_dmT, du_dmT.shape)
+                        if not isinstance(df_dmT, Zero):
+                            du_dmT += np.reshape(df_dmT, du_dmT.shape)
 
-                        block = np.array(du_dmT, dtype=complex).real.T
+                        block = du_dmT.real.T
 
                         src_rx_slice = survey_slices[src, rx]
                         Jmatrix[src_rx_slice] = block
-- 
2.43.0


From 8f713e31d38da2952696305a3a3fdb3ff72f8129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 17/95] fix: DC Neumann systems were not symmetric, so
 sensitivities of pole potentials were wrong

---
 .../static/resistivity/simulation.py             | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 5e429fc..2c11bb4 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -366,13 +366,10 @@ class Simulation3DCellCentered(BaseDCSimulation):
 
         if self.bc_type == "Neumann":
             if self.verbose:
-                print("Perturbing first row of A to remove nullspace for Neumann BC.")
+                print("Perturbing first entry of A to remove nullspace for Neumann BC.")
 
-            # Handling Null space of A
-            I, J, V = sp.find(A[0, :])
-            for jj in J:
-                A[0, jj] = 0.0
-            A[0, 0] = 1.0
+            # Handling Null space of A (keeping it symmetric)
+            A[0, 0] += 1.0
 
         return A
 
@@ -531,11 +528,8 @@ class Simulation3DNodal(BaseDCSimulation):
         A = Grad.T.tocsr() @ MeSigma @ Grad
 
         if self.bc_type == "Neumann":
-            # Handling Null space of A
-            I, J, V = sp.find(A[0, :])
-            for jj in J:
-                A[0, jj] = 0.0
-            A[0, 0] = 1.0
+            # Handling Null space of A (keeping it symmetric)
+            A[0, 0] += 1.0
         else:
             # Dirichlet BC type should already have failed
             # Also, this will fail if sigma is anisotropic
-- 
2.43.0


From 5f97f92817db9c22df52a1624b73d920520aa177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 18/95] fix: straight-ray tomography getJ raised AttributeError

---
 simpeg/seismic/straight_ray_tomography/simulation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simpeg/seismic/straight_ray_tomography/simulation.py b/simpeg/seismic/straight_ray_tomography/simulation.py
index 1070f1d..82c5c77 100644
--- a/simpeg/seismic/straight_ray_tomography/simulation.py
+++ b/simpeg/seismic/straight_ray_tomography/simulation.py
@@ -119,6 +119,18 @@ class Simulation2DIntegral(LinearSimulation):
         self.model = m
         return self.A * self.slowness
 
+    def getJ(self, m, f=None):
+        """Sensitivity matrix.
+
+        Parameters
+        ----------
+        m : numpy.ndarray
+        f : Ignored
+            Not used, present here for API consistency by convention.
+        """
+        self.model = m
+        return self.A @ self.slownessDeriv
+
     def Jvec(self, m, v, f=None):
         self.model = m
         # mt = self.model.transformDeriv
-- 
2.43.0


From 6ad84b01f6b09c6fc3b2a32120a9c07b4060dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 19/95] fix: forward-only sensitivity diagonal applied the
 weights of the first data to every component

---
 simpeg/potential_fields/gravity/simulation.py | 24 +++++++++++---
 .../potential_fields/magnetics/simulation.py  | 32 ++++++++++++++-----
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/simpeg/potential_fields/gravity/simulation.py b/simpeg/potential_fields/gravity/simulation.py
index 434ba52..e44fce9 100644
--- a/simpeg/potential_fields/gravity/simulation.py
+++ b/simpeg/potential_fields/gravity/simulation.py
@@ -708,8 +708,15 @@ class Simulation3DIntegral(BasePFSimulation):
         # Allocate array for the diagonal of G.T @ G
         diagonal = np.zeros(self.nC, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                # The data are ordered by location first, then by component
+                component_weights = weights[
+                    index_offset + i : index_offset + n_rows : n_components
+                ]
                 kernel_func = CHOCLO_KERNELS[component]
                 conversion_factor = _get_conversion_factor(component)
                 diagonal_gtg_func(
@@ -718,9 +725,10 @@ class Simulation3DIntegral(BasePFSimulation):
                     active_cell_nodes,
                     kernel_func,
                     constants.G * conversion_factor,
-                    weights,
+                    component_weights,
                     diagonal,
                 )
+            index_offset += n_rows
         return diagonal
 
 
@@ -922,8 +930,15 @@ class SimulationEquivalentSourceLayer(
         # Allocate array for the diagonal of G.T @ G
         diagonal = np.zeros(self.nC, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                # The data are ordered by location first, then by component
+                component_weights = weights[
+                    index_offset + i : index_offset + n_rows : n_components
+                ]
                 choclo_forward_func = CHOCLO_FORWARD_FUNCS[component]
                 conversion_factor = _get_conversion_factor(component)
                 diagonal_gtg_func(
@@ -933,9 +948,10 @@ class SimulationEquivalentSourceLayer(
                     self.cell_z_bottom,
                     choclo_forward_func,
                     conversion_factor,
-                    weights,
+                    component_weights,
                     diagonal,
                 )
+            index_offset += n_rows
         return diagonal
 
 
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index f3ab014..8b1c750 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1167,13 +1167,20 @@ class Simulation3DIntegral(BasePFSimulation):
         diagonal = np.zeros(n_columns, dtype=np.float64)
 
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
             if not CHOCLO_SUPPORTED_COMPONENTS.issuperset(components):
                 raise NotImplementedError(
                     f"Other components besides {CHOCLO_SUPPORTED_COMPONENTS} "
                     "aren't implemented yet."
                 )
-            for component in components:
+            for i, component in enumerate(components):
+                # The data are ordered by location first, then by component
+                component_weights = weights[
+                    index_offset + i : index_offset + n_rows : n_components
+                ]
                 if component == "tmi":
                     diagonal_gtg_func = NUMBA_FUNCTIONS_3D["diagonal_gtg"]["tmi"][
                         self.numba_parallel
@@ -1185,7 +1192,7 @@ class Simulation3DIntegral(BasePFSimulation):
                         regional_field,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
                 elif component in ("tmi_x", "tmi_y", "tmi_z"):
@@ -1208,7 +1215,7 @@ class Simulation3DIntegral(BasePFSimulation):
                         kernel_yz,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
                 else:
@@ -1226,9 +1233,10 @@ class Simulation3DIntegral(BasePFSimulation):
                         kernel_z,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
+            index_offset += n_rows
         return diagonal
 
 
@@ -1585,13 +1593,20 @@ class SimulationEquivalentSourceLayer(
         n_columns = self.nC if scalar_model else 3 * self.nC
         diagonal = np.zeros(n_columns, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
             if not CHOCLO_SUPPORTED_COMPONENTS.issuperset(components):
                 raise NotImplementedError(
                     f"Other components besides {CHOCLO_SUPPORTED_COMPONENTS} "
                     "aren't implemented yet."
                 )
-            for component in components:
+            for i, component in enumerate(components):
+                # The data are ordered by location first, then by component
+                component_weights = weights[
+                    index_offset + i : index_offset + n_rows : n_components
+                ]
                 if component == "tmi":
                     diagonal_gtg_func = NUMBA_FUNCTIONS_2D["diagonal_gtg"]["tmi"][
                         self.numba_parallel
@@ -1604,7 +1619,7 @@ class SimulationEquivalentSourceLayer(
                         regional_field,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
                 elif component in ("tmi_x", "tmi_y", "tmi_z"):
@@ -1628,7 +1643,7 @@ class SimulationEquivalentSourceLayer(
                         kernel_yz,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
                 else:
@@ -1647,9 +1662,10 @@ class SimulationEquivalentSourceLayer(
                         kernel_z,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        component_weights,
                         diagonal,
                     )
+            index_offset += n_rows
         return diagonal
 
 
-- 
2.43.0


From fc54af3bc806b88ef431959b17c3716df12c74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:53 +0000
Subject: [PATCH 20/95] fix: sensitivities with passed fields used the
 factorization of another model

---
 .../frequency_domain/simulation.py            | 29 ++++++++++++++-----
 .../static/resistivity/simulation.py          | 19 ++++++++----
 .../static/resistivity/simulation_2d.py       | 29 ++++++++++++++-----
 3 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index c25102e..33cd686 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -184,25 +184,40 @@ class BaseFDEMSimulation(BaseEMSimulation):
         if m is not None:
             self.model = m
 
-        try:
-            self.Ainv
-        except AttributeError:
-            self.Ainv = len(self.survey.frequencies) * [None]
+        Ainvs = []
 
         f = self.fieldsPair(self)
 
-        for i_f, freq in enumerate(self.survey.frequencies):
+        for freq in self.survey.frequencies:
             A = self.getA(freq)
             rhs = self.getRHS(freq)
             Ainv = self.solver(A, **self.solver_opts)
             u = Ainv * rhs
             if not self.forward_only:
-                self.Ainv[i_f] = Ainv
+                Ainvs.append(Ainv)
 
             Srcs = self.survey.get_sources_by_frequency(freq)
             f[Srcs, self._solutionType] = u
+        if not self.forward_only:
+            self._Ainv = Ainvs
         return f
 
+    @property
+    def Ainv(self):
+        """Factorizations of the system matrices of the current model.
+
+        Returns
+        -------
+        list
+            One solver for each frequency in the survey.
+        """
+        if getattr(self, "_Ainv", None) is None:
+            self._Ainv = [
+                self.solver(self.getA(freq), **self.solver_opts)
+                for freq in self.survey.frequencies
+            ]
+        return self._Ainv
+
     # @profile
     def Jvec(self, m, v, f=None):
         r"""Compute the sensitivity matrix times a vector.
@@ -505,7 +520,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
             List of the model-dependent attributes to clean upon model update.
         """
         toDelete = super()._delete_on_model_update
-        return toDelete + ["_Jmatrix", "_gtgdiag"]
+        return toDelete + ["_Jmatrix", "_gtgdiag", "_Ainv"]
 
 
 ###############################################################################
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 2c11bb4..33e0c9f 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -24,8 +24,6 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
 
     _mini_survey = None
 
-    Ainv = None
-
     def __init__(
         self,
         mesh,
@@ -102,8 +100,8 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
             self.model = m
 
         f = self.fieldsPair(self)
-        if self.Ainv is not None:
-            self.Ainv.clean()
+        if getattr(self, "_Ainv", None) is not None:
+            self._Ainv.clean()
         A = self.getA()
         self.Ainv = self.solver(A, **self.solver_opts)
         RHS = self.getRHS()
@@ -112,6 +110,17 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
 
         return f
 
+    @property
+    def Ainv(self):
+        """Factorization of the system matrix of the current model."""
+        if getattr(self, "_Ainv", None) is None:
+            self._Ainv = self.solver(self.getA(), **self.solver_opts)
+        return self._Ainv
+
+    @Ainv.setter
+    def Ainv(self, value):
+        self._Ainv = value
+
     def getJ(self, m, f=None):
         self.model = m
         if getattr(self, "_Jmatrix", None) is None:
@@ -289,7 +298,7 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
-        return toDelete + ["_Jmatrix", "_gtgdiag"]
+        return toDelete + ["_Jmatrix", "_gtgdiag", "_Ainv"]
 
     def _mini_survey_data(self, d_mini):
         if self._mini_survey is not None:
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 16b591f..aa1d635 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -121,7 +121,6 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
         self._quad_weights = weights
         self._quad_points = points
 
-        self.Ainv = [None for i in range(self.nky)]
         self.nT = self.nky - 1  # Only for using TimeFields
 
         # Do stuff to simplify the forward and JTvec operation if number of dipole
@@ -225,22 +224,35 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
             print(">> Compute fields")
         if m is not None:
             self.model = m
-        if self.Ainv[0] is not None:
-            for i in range(self.nky):
-                self.Ainv[i].clean()
+        if getattr(self, "_Ainv", None) is not None:
+            for Ainv in self._Ainv:
+                Ainv.clean()
         f = self.fieldsPair(self)
         kys = self._quad_points
         f._quad_weights = self._quad_weights
+        self._Ainv = []
         for iky, ky in enumerate(kys):
             A = self.getA(ky)
-            if self.Ainv[iky] is not None:
-                self.Ainv[iky].clean()
-            self.Ainv[iky] = self.solver(A, **self.solver_opts)
+            self._Ainv.append(self.solver(A, **self.solver_opts))
             RHS = self.getRHS(ky)
-            u = self.Ainv[iky] * RHS
+            u = self._Ainv[iky] * RHS
             f[:, self._solutionType, iky] = u
         return f
 
+    @property
+    def Ainv(self):
+        """Factorizations of the system matrices of the current model, one per wavenumber."""
+        if getattr(self, "_Ainv", None) is None:
+            self._Ainv = [
+                self.solver(self.getA(ky), **self.solver_opts)
+                for ky in self._quad_points
+            ]
+        return self._Ainv
+
+    @Ainv.setter
+    def Ainv(self, value):
+        self._Ainv = value
+
     def fields_to_space(self, f, y=0.0):
         f_fwd = self.fieldsPair_fwd(self)
         phi = f[:, self._solutionType, :].dot(self._quad_weights)
@@ -450,6 +462,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
+        toDelete = toDelete + ["_Ainv"]
         if self.fix_Jmatrix:
             return toDelete
         return toDelete + ["_Jmatrix"]
-- 
2.43.0


From 8b52600643e8cb8891a939e3e8033633f61da987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:53 +0000
Subject: [PATCH 21/95] fix: IP dpred with passed fields returned the data of
 the last model

---
 .../static/induced_polarization/simulation.py             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index e36b418..0278694 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -85,6 +85,7 @@ class BaseIPSimulation(BasePDESimulation):
 
     _Jmatrix = None
     _pred = None
+    _pred_model = None
 
     def fields(self, m):
         if self.verbose:
@@ -94,6 +95,7 @@ class BaseIPSimulation(BasePDESimulation):
             self._f = super().fields(None)
 
         self._pred = self.forward(m, f=self._f)
+        self._pred_model = np.array(m)
 
         return self._f
 
@@ -107,8 +109,10 @@ class BaseIPSimulation(BasePDESimulation):
 
         """
         # return self.Jvec(m, m, f=f)
-        if f is None:
-            f = self.fields(m)
+        if m is None:
+            m = self.model
+        if f is None or not np.array_equal(m, self._pred_model):
+            self.fields(m)
 
         return self._pred
 
-- 
2.43.0


From 6e8cccb022589a2ce5f544f8bd7360899e8d6958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:53 +0000
Subject: [PATCH 22/95] fix: SIP sensitivities kept chargeability parameters of
 the last model; sensitivity diagonal takes W

---
 .../simulation.py                             | 34 +++++++++++--------
 .../simulation_2d.py                          |  6 ++--
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index c339c43..821d512 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -22,14 +22,10 @@ class BaseSIPSimulation(BaseIPSimulation):
 
     c, cMap, cDeriv = props.Invertible("Frequency dependency")
 
-    Ainv = None
     _f = None
     _Jmatrix = None
     _dc_voltage_set = False
 
-    _eta_store = None
-    _taui_store = None
-    _c_store = None
     _pred = None
 
     def __init__(
@@ -143,6 +139,18 @@ class BaseSIPSimulation(BaseIPSimulation):
             drho_dlogrho = sdiag(self.rho)
         return drho_dlogrho
 
+    @property
+    def _eta_store(self):
+        return self.eta
+
+    @property
+    def _taui_store(self):
+        return self.taui
+
+    @property
+    def _c_store(self):
+        return self.c
+
     @property
     def etaDeriv_store(self):
         if getattr(self, "_etaDeriv_store", None) is None:
@@ -351,6 +359,7 @@ class BaseSIPSimulation(BaseIPSimulation):
                         rx.data_type = "apparent_chargeability"
 
         self._pred = self.forward(m, f=self._f)
+        self._pred_model = np.array(m)
 
         return self._f
 
@@ -398,12 +407,12 @@ class BaseSIPSimulation(BaseIPSimulation):
                 collected = gc.collect()
                 print("Garbage collector: collected %d objects." % (collected))
             # clean all factorization
-            if self.Ainv is not None:
-                self.Ainv.clean()
+            self.Ainv.clean()
+            self.Ainv = None
 
             return self._Jmatrix
 
-    def getJtJdiag(self, m, Wd, f=None):
+    def getJtJdiag(self, m, W=None, f=None):
         """
         Compute JtJ using adjoint problem. Still we never form
         JtJ
@@ -413,7 +422,8 @@ class BaseSIPSimulation(BaseIPSimulation):
         ntime = len(self.survey.unique_times)
         JtJdiag = np.zeros_like(m)
         J = self.getJ(m, f=f)
-        wd = Wd.diagonal().reshape((self.survey.n_locations, ntime), order="F")
+        wd = np.ones(self.survey.nD) if W is None else W.diagonal()
+        wd = wd.reshape((-1, ntime), order="F")
         for tind in range(ntime):
             t = self.survey.unique_times[tind]
             Jtv = self._P * J.T * sdiag(wd[:, tind])
@@ -431,9 +441,6 @@ class BaseSIPSimulation(BaseIPSimulation):
 
         self.model = m
 
-        self._eta_store = self.eta
-        self._taui_store = self.taui
-        self._c_store = self.c
 
         Jv = []
 
@@ -485,10 +492,9 @@ class BaseSIPSimulation(BaseIPSimulation):
             d_\text{pred} = Pf(m)
 
         """
-        if f is None:
-            f = self.fields(m)
+        if f is None or not np.array_equal(m, self._pred_model):
+            self.fields(m)
         return self._pred
-        # return self.forward(m, f=f)
 
     def Jvec(self, m, v, f=None):
         self.model = m
diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation_2d.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation_2d.py
index 7b1a3be..0286254 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation_2d.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation_2d.py
@@ -68,9 +68,9 @@ class BaseSIPSimulation2D(BaseSIPSimulation):
 
             self._Jmatrix = self._mini_survey_data(Jt.T)
             # clean all factorization
-            if self.Ainv[0] is not None:
-                for i in range(self.nky):
-                    self.Ainv[i].clean()
+            for Ainv in self.Ainv:
+                Ainv.clean()
+            self.Ainv = None
             return self._Jmatrix
 
 
-- 
2.43.0


From 9e86cf90d02daf642db2dffca247e331dca4c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 23/95] fix: magnetic PDE sensitivities with stored J or passed
 fields raised errors

---
 .../potential_fields/magnetics/simulation.py  | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 8b1c750..f20be5b 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -382,9 +382,7 @@ class Simulation3DIntegral(BasePFSimulation):
 
         # We should probably check that W is diagonal. Let's assume it for now.
         weights = (
-            W.diagonal() ** 2
-            if W is not None
-            else np.ones(self.nD, dtype=np.float64)
+            W.diagonal() ** 2 if W is not None else np.ones(self.nD, dtype=np.float64)
         )
 
         # Compute gtg (G.T @ W.T @ W @ G) if it's not cached, or if the
@@ -1716,6 +1714,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
     """
 
     _Ainv = None
+    _Jmatrix = None
 
     rem, remMap, remDeriv = props.Invertible(
         "Magnetic Polarization (nT)", optional=True
@@ -1755,7 +1754,6 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
         self.solver_opts = {"is_symmetric": True, "is_positive_definite": True}
 
-        self._Jmatrix = None
         self._stored_fields = None
 
     @property
@@ -1885,17 +1883,19 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
         return A
 
+    def _get_Ainv(self):
+        if self._Ainv is None:
+            self._Ainv = self.solver(self._getA(), **self.solver_opts)
+        return self._Ainv
+
     def fields(self, m):
         self.model = m
 
         if self._stored_fields is None:
 
-            if self._Ainv is None:
-                self._Ainv = self.solver(self._getA(), **self.solver_opts)
-
             rhs = self._getRHS(m)
 
-            u = self._Ainv * rhs
+            u = self._get_Ainv() * rhs
             b_field = -self.MfMuiI * self._DivT * u
 
             if not np.isscalar(self.mu) or not np.allclose(self.mu, mu_0):
@@ -1984,7 +1984,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
     def getJ(self, m, f=None):
         self.model = m
-        if self._Jmatrix:
+        if self._Jmatrix is not None:
             return self._Jmatrix
         if f is None:
             f = self.fields(m)
@@ -2005,13 +2005,15 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
         if v is None:
             v = np.eye(Q.shape[0])
             divt_solve_q = (
-                self._DivT * (self._Ainv * ((Q * self.MfMuiI * -self._DivT).T * v))
+                self._DivT
+                * (self._get_Ainv() * ((Q * self.MfMuiI * -self._DivT).T * v))
                 + Q.T * v
             )
             del v
         else:
             divt_solve_q = (
-                self._DivT * (self._Ainv * ((-self._Div * (self.MfMuiI.T * (Q.T * v)))))
+                self._DivT
+                * (self._get_Ainv() * ((-self._Div * (self.MfMuiI.T * (Q.T * v)))))
                 + Q.T * v
             )
 
@@ -2085,7 +2087,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
                     self.MfMuiI * Mf_r_mui_deriv * v
                 )
 
-        Ainv_Ddm = self._Ainv * (self._Div * (-dCmu_dm + db_dm))
+        Ainv_Ddm = self._get_Ainv() * (self._Div * (-dCmu_dm + db_dm))
 
         Jv = Q * (C * Ainv_Ddm + (-dCmu_dm + db_dm))
 
-- 
2.43.0


From 17e287c7fe0919892c1f8632b93069865f2c8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:01 +0000
Subject: [PATCH 24/95] fix: 2D nodal DC sensitivities kept the boundary term
 of the first model

---
 simpeg/electromagnetics/static/resistivity/simulation_2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index aa1d635..1010a01 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -724,6 +724,10 @@ class Simulation2DNodal(BaseDCSimulation2D):
             out += _inner_mat_mul_op(self._MBC_sigma[ky], u, v, adjoint)
         return out
 
+    @property
+    def _clear_on_sigma_update(self):
+        return super()._clear_on_sigma_update + ["_MBC_sigma"]
+
     def getRHS(self, ky):
         """
         RHS for the DC problem
-- 
2.43.0


From 0875f1f45090efda6578da34f8f2a06eb554fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:03 +0000
Subject: [PATCH 25/95] fix: assigning a physical property or map left
 matrices, factorizations and sensitivities of the previous one

---
 .../static/induced_polarization/simulation.py  | 16 ++++++++++++++++
 .../static/resistivity/simulation.py           |  4 ++++
 .../static/self_potential/simulation.py        |  2 +-
 .../potential_fields/magnetics/simulation.py   |  7 +++++++
 simpeg/props.py                                | 18 ++++++++++++++++++
 5 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 0278694..ce68e1c 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -83,6 +83,7 @@ class BaseIPSimulation(BasePDESimulation):
             self.Ainv = Ainv
         self._f = _f
 
+    _f = None
     _Jmatrix = None
     _pred = None
     _pred_model = None
@@ -139,6 +140,21 @@ class BaseIPSimulation(BasePDESimulation):
         toDelete = []
         return toDelete
 
+    @property
+    def _delete_on_property_update(self):
+        # everything that was computed with the previous background or mapping
+        return [
+            *super()._delete_on_property_update,
+            *self._clear_on_sigma_update,
+            *self._clear_on_rho_update,
+            "_f",
+            "_scale",
+            "_Ainv",
+            "_Jmatrix",
+            "_pred",
+            "_pred_model",
+        ]
+
 
 class Simulation2DCellCentered(BaseIPSimulation, DC_2D_CC):
     """
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 33e0c9f..71ba923 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -300,6 +300,10 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         toDelete = super()._delete_on_model_update
         return toDelete + ["_Jmatrix", "_gtgdiag", "_Ainv"]
 
+    @property
+    def _delete_on_property_update(self):
+        return super()._delete_on_property_update + ["_Jmatrix", "_Ainv"]
+
     def _mini_survey_data(self, d_mini):
         if self._mini_survey is not None:
             out = d_mini[self._invs[0]]  # AM
diff --git a/simpeg/electromagnetics/static/self_potential/simulation.py b/simpeg/electromagnetics/static/self_potential/simulation.py
index 05a657a..8457c65 100644
--- a/simpeg/electromagnetics/static/self_potential/simulation.py
+++ b/simpeg/electromagnetics/static/self_potential/simulation.py
@@ -82,7 +82,7 @@ class Simulation3DCellCentered(dc.Simulation3DCellCentered):
         # When enabling resistivity derivatives, uncomment these lines
         # if self.rhoMap is not None:
         #     return super()._delete_on_model_update
-        if self.storeJ and self.qMap is not None and not self.qMap.is_linear:
+        if self.qMap is not None and not self.qMap.is_linear:
             return ["_Jmatrix", "_gtgdiag"]
         return []
 
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index f20be5b..7e7525c 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -2216,3 +2216,10 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
             if self._Jmatrix is not None:
                 toDelete = toDelete + ["_Jmatrix"]
         return toDelete
+
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        if name in ["mu", "mui", "rem", "muMap", "muiMap", "remMap"]:
+            self._stored_fields = None
+            self._Ainv = None
+            self._Jmatrix = None
diff --git a/simpeg/props.py b/simpeg/props.py
index 7238ad0..78e21b9 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -58,8 +58,10 @@ class Mapping:
         def fset(self, value):
             if value is not None:
                 value = validate_type(scope.name, value, IdentityMap, cast=False)
+                self._delete_stored_on_property_update()
                 scope.clear_props(self)
             setattr(self, f"_{scope.name}", value)
+            self._delete_stored_on_property_update()
 
         def fdel(self):
             setattr(self, f"_{scope.name}", None)
@@ -178,10 +180,12 @@ class PhysicalProperty:
                 if value.ndim == 0:
                     value = value.item()
 
+                self._delete_stored_on_property_update()
                 if scope.reciprocal:
                     delattr(self, scope.reciprocal.name)
                 scope.clear_mappings(self)
             setattr(self, f"_{scope.name}", value)
+            self._delete_stored_on_property_update()
 
         def fdel(self):
             setattr(self, f"_{scope.name}", None)
@@ -378,6 +382,20 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
         error=True,
     )
 
+    @property
+    def _delete_on_property_update(self):
+        """Names of stored items to delete when a physical property or map is assigned."""
+        return self._delete_on_model_update
+
+    def _delete_stored_on_property_update(self):
+        # nothing that depends on the maps can have been stored without a model
+        if getattr(self, "_model", None) is None:
+            return
+        for prop in self._delete_on_property_update:
+            deleter = getattr(getattr(type(self), prop, None), "fdel", None)
+            if prop in self.__dict__ or deleter is not None:
+                delattr(self, prop)
+
     #: List of matrix names to have their factors cleared on a model update
     @property
     def clean_on_model_update(self):
-- 
2.43.0


From 05cf7cbfc43d20f20ce8bf1eb5cc641918cc987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:32 +0000
Subject: [PATCH 26/95] fix: 1D layered simulations failed for surveys with a
 narrow range of offsets or times

---
 simpeg/electromagnetics/utils/em1d_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/utils/em1d_utils.py b/simpeg/electromagnetics/utils/em1d_utils.py
index fa77c48..2b60d47 100644
--- a/simpeg/electromagnetics/utils/em1d_utils.py
+++ b/simpeg/electromagnetics/utils/em1d_utils.py
@@ -247,8 +247,9 @@ def get_splined_dlf_points(filt, v_min, v_max):
     pts_per_dec = np.squeeze(1 / np.log(factor))
 
     nout = int(np.ceil(np.log(outmax / outmin) * pts_per_dec) + 1)
-    if nout - filt.base.size < 3:
-        nout = filt.base.size + 3
+    # the splines through these points are quintic, they need at least six points
+    if nout - filt.base.size < 5:
+        nout = filt.base.size + 5
     out = np.exp(
         np.arange(np.log(outmin), np.log(outmin) + nout / pts_per_dec, 1 / pts_per_dec)
     )
-- 
2.43.0


From 832988afd6bac9010c02eef007c3432faae06da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:32 +0000
Subject: [PATCH 27/95] fix: Richards dpred with passed fields used the water
 retention of the last model

---
 simpeg/flow/richards/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index b959189..eac4cca 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -226,6 +226,9 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
 
         Where P is a projection of the fields onto the data space.
         """
+        if m is not None:
+            # receivers may evaluate model dependent properties
+            self.model = m
         if f is None:
             f = self.fields(m)
 
-- 
2.43.0


From e001261776e0cbe3c452df38355533163e729de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:32 +0000
Subject: [PATCH 28/95] fix: mass matrices survived a property or map
 assignment made without a model

---
 simpeg/props.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index 78e21b9..9e554e3 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -58,7 +58,8 @@ class Mapping:
         def fset(self, value):
             if value is not None:
                 value = validate_type(scope.name, value, IdentityMap, cast=False)
-                self._delete_stored_on_property_update()
+            self._delete_stored_on_property_update()
+            if value is not None:
                 scope.clear_props(self)
             setattr(self, f"_{scope.name}", value)
             self._delete_stored_on_property_update()
@@ -180,7 +181,8 @@ class PhysicalProperty:
                 if value.ndim == 0:
                     value = value.item()
 
-                self._delete_stored_on_property_update()
+            self._delete_stored_on_property_update()
+            if value is not None:
                 if scope.reciprocal:
                     delattr(self, scope.reciprocal.name)
                 scope.clear_mappings(self)
@@ -388,10 +390,12 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
         return self._delete_on_model_update
 
     def _delete_stored_on_property_update(self):
-        # nothing that depends on the maps can have been stored without a model
-        if getattr(self, "_model", None) is None:
+        try:
+            names = self._delete_on_property_update
+        except AttributeError:
+            # the object is still being constructed, nothing has been stored yet
             return
-        for prop in self._delete_on_property_update:
+        for prop in names:
             deleter = getattr(getattr(type(self), prop, None), "fdel", None)
             if prop in self.__dict__ or deleter is not None:
                 delattr(self, prop)
-- 
2.43.0


From bf836efe27af4c0fc89915744fafbc1c9428a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:44 +0000
Subject: [PATCH 29/95] fix: derivatives of composed and summed maps were wrong
 for dense factors and overwrote the passed vector

---
 simpeg/maps/_base.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 9369f1f..7092a2e 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -522,14 +522,11 @@ class ComboMap(IdentityMap):
             \frac{\partial \mathbf{f_1}}{\partial \mathbf{m}}
         """
 
-        if v is not None:
-            deriv = v
-        else:
-            deriv = 1
-
+        deriv = v
         mi = m
         for map_i in reversed(self.maps):
-            deriv = map_i.deriv(mi) * deriv
+            d_map = map_i.deriv(mi)
+            deriv = d_map if deriv is None else d_map @ deriv
             mi = map_i * mi
         return deriv
 
@@ -823,7 +820,7 @@ class SumMap(ComboMap):
             if ii == 0:
                 mout = m0
             else:
-                mout += m0
+                mout = mout + m0
         return mout
 
     def deriv(self, m, v=None):
@@ -845,19 +842,15 @@ class SumMap(ComboMap):
         """
 
         for ii, map_i in enumerate(self.maps):
-            m0 = m.copy()
-
-            if v is not None:
-                deriv = v
-            else:
-                deriv = sp.eye(self.nP)
-
-            deriv = map_i.deriv(m0, v=deriv)
+            deriv = map_i.deriv(m.copy(), v=v)
             if ii == 0:
                 sumDeriv = deriv
             else:
-                sumDeriv += deriv
+                sumDeriv = sumDeriv + deriv
 
+        # adding sparse and dense derivatives gives a np.matrix
+        if isinstance(sumDeriv, np.matrix):
+            sumDeriv = np.asarray(sumDeriv)
         return sumDeriv
 
 
-- 
2.43.0


From e13b2d9ffe9b04f142bfd3628a6f72c1f5162e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:44 +0000
Subject: [PATCH 30/95] fix: SurjectVertical1D derivative failed on 1D meshes

---
 simpeg/maps/_surjection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/maps/_surjection.py b/simpeg/maps/_surjection.py
index edcfa1f..9869e3e 100644
--- a/simpeg/maps/_surjection.py
+++ b/simpeg/maps/_surjection.py
@@ -174,7 +174,7 @@ class SurjectVertical1D(IdentityMap):
         return int(self.mesh.vnC[self.mesh.dim - 1])
 
     def _transform(self, m):
-        repNum = np.prod(self.mesh.vnC[: self.mesh.dim - 1])
+        repNum = np.prod(self.mesh.vnC[: self.mesh.dim - 1], dtype=int)
         return mkvc(m).repeat(repNum)
 
     def deriv(self, m, v=None):
@@ -210,7 +210,7 @@ class SurjectVertical1D(IdentityMap):
             input argument *v* is not ``None``, the method returns the derivative times
             the vector *v*.
         """
-        repNum = np.prod(self.mesh.vnC[: self.mesh.dim - 1])
+        repNum = np.prod(self.mesh.vnC[: self.mesh.dim - 1], dtype=int)
         repVec = sp.csr_matrix(
             (np.ones(repNum), (range(repNum), np.zeros(repNum))), shape=(repNum, 1)
         )
-- 
2.43.0


From 98e7a6bf360a39d992721e658a10206bcf677f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:44 +0000
Subject: [PATCH 31/95] fix: susceptibility map derivatives failed when the
 number of parameters is open

---
 simpeg/maps/_property_maps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/maps/_property_maps.py b/simpeg/maps/_property_maps.py
index 44c3eb1..477804b 100644
--- a/simpeg/maps/_property_maps.py
+++ b/simpeg/maps/_property_maps.py
@@ -521,7 +521,7 @@ class ChiMap(IdentityMap):
         """
         if v is not None:
             return mu_0 * v
-        return mu_0 * sp.eye(self.nP)
+        return mu_0 * sp.eye(m.size)
 
     def inverse(self, m):
         r"""Apply the inverse mapping to an array.
@@ -593,7 +593,7 @@ class EffectiveSusceptibilityMap(IdentityMap):
     def deriv(self, m, v=None):
         if v is not None:
             return self.ambient_field_magnitude * v
-        return self.ambient_field_magnitude * sp.eye(self.nP)
+        return self.ambient_field_magnitude * sp.eye(m.size)
 
     def inverse(self, m):
         return m / self.ambient_field_magnitude
@@ -660,7 +660,7 @@ class MuRelative(IdentityMap):
         """
         if v is not None:
             return mu_0 * v
-        return mu_0 * sp.eye(self.nP)
+        return mu_0 * sp.eye(m.size)
 
     def inverse(self, m):
         r"""Apply the inverse mapping to an array.
-- 
2.43.0


From 5a8c9a746f63e05237ef408f01aa4b4a1b02f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:10 +0000
Subject: [PATCH 32/95] fix: SphericalSystem derivative was stale for a model
 array changed in place

---
 simpeg/maps/_base.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 7092a2e..f7a4e8b 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -918,13 +918,10 @@ class SphericalSystem(IdentityMap):
         self.model = None
 
     def sphericalDeriv(self, model):
-        if getattr(self, "model", None) is None:
-            self.model = model
-
-        if getattr(self, "_sphericalDeriv", None) is None or not all(
-            self.model == model
+        if getattr(self, "_sphericalDeriv", None) is None or not np.array_equal(
+            self.model, model
         ):
-            self.model = model
+            self.model = np.array(model)
 
             # Do a double projection to make sure the parameters are bounded
             m_xyz = mat_utils.spherical2cartesian(model.reshape((-1, 3), order="F"))
-- 
2.43.0


From dbc0f92afddcd4bbf37cef463a7190f284a025b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:10 +0000
Subject: [PATCH 33/95] fix: 3D ParametricPolyMap derivative used another
 coefficient order than the mapping

---
 simpeg/maps/_parametric.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 4837b7c..99fe6f4 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -646,7 +646,7 @@ class ParametricPolyMap(IdentityMap):
             if self.normal == "x":
                 f = (
                     polynomial.polyval2d(
-                        Y, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        Y, Z, c.reshape((self.order[0] + 1, self.order[1] + 1), order="F")
                     )
                     - X
                 )
@@ -654,7 +654,7 @@ class ParametricPolyMap(IdentityMap):
             elif self.normal == "y":
                 f = (
                     polynomial.polyval2d(
-                        X, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        X, Z, c.reshape((self.order[0] + 1, self.order[1] + 1), order="F")
                     )
                     - Y
                 )
@@ -662,13 +662,20 @@ class ParametricPolyMap(IdentityMap):
             elif self.normal == "z":
                 f = (
                     polynomial.polyval2d(
-                        X, Y, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        X, Y, c.reshape((self.order[0] + 1, self.order[1] + 1), order="F")
                     )
                     - Z
                 )
                 V = polynomial.polyvander2d(X, Y, self.order)
             else:
                 raise (Exception("Input for normal = X or Y or Z"))
+            # polyvander2d orders its columns with the second power fastest,
+            # the coefficients in the model have the first power fastest
+            V = (
+                V.reshape((-1, self.order[0] + 1, self.order[1] + 1))
+                .transpose((0, 2, 1))
+                .reshape((V.shape[0], -1))
+            )
 
         if self.logSigma:
             g1 = -(np.arctan(alpha * f) / np.pi + 0.5) * sig1 + sig1
-- 
2.43.0


From 225d0fac27f51e98fc82bc8e342b8129c25d9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:10 +0000
Subject: [PATCH 34/95] fix: maps kept using the cells or units they had before
 a reassignment

---
 simpeg/maps/_injection.py  | 3 +++
 simpeg/maps/_parametric.py | 1 +
 simpeg/maps/_surjection.py | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpeg/maps/_injection.py b/simpeg/maps/_injection.py
index 68c02c2..cf1f77f 100644
--- a/simpeg/maps/_injection.py
+++ b/simpeg/maps/_injection.py
@@ -51,6 +51,7 @@ class Mesh2Mesh(IdentityMap):
     @IdentityMap.mesh.setter
     def mesh(self, value):
         self._mesh = validate_type("mesh", value, discretize.base.BaseMesh, cast=False)
+        self._P = None
 
     @property
     def mesh2(self):
@@ -67,6 +68,7 @@ class Mesh2Mesh(IdentityMap):
         self._mesh2 = validate_type(
             "mesh2", value, discretize.base.BaseMesh, cast=False
         )
+        self._P = None
 
     @property
     def active_cells(self):
@@ -83,6 +85,7 @@ class Mesh2Mesh(IdentityMap):
         if value is not None:
             value = validate_active_indices("active_cells", value, self.mesh.n_cells)
         self._active_cells = value
+        self._P = None
 
     indActive = deprecate_property(
         active_cells,
diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 99fe6f4..0b1a69e 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -1156,6 +1156,7 @@ class BaseParametric(IdentityMap):
         if value is not None:
             value = validate_active_indices("active_cells", value, self.mesh.n_cells)
         self._active_cells = value
+        self._x = self._y = self._z = None
 
     indActive = deprecate_property(
         active_cells,
diff --git a/simpeg/maps/_surjection.py b/simpeg/maps/_surjection.py
index 9869e3e..99bda44 100644
--- a/simpeg/maps/_surjection.py
+++ b/simpeg/maps/_surjection.py
@@ -462,7 +462,7 @@ class SurjectUnits(IdentityMap):
 
     @indices.setter
     def indices(self, values):
-        values = validate_type("indices", values, list)
+        values = list(validate_type("indices", values, list))
         mesh = self.mesh
         last_shape = None
         for i in range(len(values)):
@@ -478,6 +478,7 @@ class SurjectUnits(IdentityMap):
                     raise ValueError("all indicies must have the same shape.")
                 last_shape = values[i].shape
         self._indices = values
+        self._P = None
 
     @property
     def P(self):
-- 
2.43.0


From 436c358bd883adb1144c767be0a85acc33df7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:28 +0000
Subject: [PATCH 35/95] fix: effective medium map mixed up inclusion fractions
 of different cells and calls

---
 simpeg/maps/_property_maps.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/simpeg/maps/_property_maps.py b/simpeg/maps/_property_maps.py
index 477804b..93b9ddd 100644
--- a/simpeg/maps/_property_maps.py
+++ b/simpeg/maps/_property_maps.py
@@ -1436,7 +1436,7 @@ class SelfConsistentEffectiveMedium(IdentityMap):
 
         if not (np.all(0 <= phi1) and np.all(phi1 <= 1)):
             warnings.warn("there are phis outside bounds of 0 and 1", stacklevel=2)
-            phi1 = np.median(np.c_[phi1 * 0, phi1, phi1 * 0 + 1.0])
+            phi1 = np.clip(phi1, 0.0, 1.0)
 
         phi0 = 1.0 - phi1
 
@@ -1464,10 +1464,6 @@ class SelfConsistentEffectiveMedium(IdentityMap):
                 relerr = np.linalg.norm(np.abs(sige2 - sige1).flatten(), np.inf)
 
             if np.all(relerr <= self.tol):
-                if self.sigstart is None:
-                    self._sigstart = (
-                        sige2  # store as a starting point for the next time around
-                    )
                 return sige2
 
             sige1 = sige2
-- 
2.43.0


From 254dc3568a20a735e8f23110f0b5450519a52dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:29 +0000
Subject: [PATCH 36/95] fix: ParametricSplineMap derivative used the last
 evaluated model and missed boundary nodes

---
 simpeg/maps/_parametric.py | 116 ++++++++-----------------------------
 1 file changed, 25 insertions(+), 91 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 0b1a69e..0f8a76c 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -953,34 +953,46 @@ class ParametricSplineMap(IdentityMap):
         sig1, sig2, c = m[0], m[1], m[2:]
         if self.logSigma:
             sig1, sig2 = np.exp(sig1), np.exp(sig2)
+        X = self.mesh.cell_centers[:, 0]
+        Y = self.mesh.cell_centers[:, 1]
+
+        def spline_basis(x):
+            # an interpolating spline is linear in its nodal values
+            return np.stack(
+                [
+                    UnivariateSpline(self.pts, e_i, k=self.order, s=0)(x)
+                    for e_i in np.eye(self.npts)
+                ],
+                axis=-1,
+            )
+
         # 2D
         if self.mesh.dim == 2:
-            X = self.mesh.cell_centers[:, 0]
-            Y = self.mesh.cell_centers[:, 1]
-
             if self.normal == "x":
-                f = self.spl(Y) - X
+                df_dc = spline_basis(Y)
+                f = df_dc @ c - X
             elif self.normal == "y":
-                f = self.spl(X) - Y
+                df_dc = spline_basis(X)
+                f = df_dc @ c - Y
             else:
                 raise (Exception("Input for normal = X or Y or Z"))
         # 3D
         elif self.mesh.dim == 3:
-            X = self.mesh.cell_centers[:, 0]
-            Y = self.mesh.cell_centers[:, 1]
             Z = self.mesh.cell_centers[:, 2]
-
             if self.normal == "x":
                 zb = self.ptsv[0]
                 zt = self.ptsv[1]
-                flines = (self.spl["splt"](Y) - self.spl["splb"](Y)) * (Z - zb) / (
-                    zt - zb
-                ) + self.spl["splb"](Y)
-                f = flines - X
+                # bottom and top lines, interpolated vertically
+                w = ((Z - zb) / (zt - zb))[:, None]
+                basis = spline_basis(Y)
+                df_dc = np.c_[(1 - w) * basis, w * basis]
+                f = df_dc @ c - X
             # elif self.normal =='Y':
             # elif self.normal =='Z':
             else:
                 raise (Exception("Not Implemented for Y and Z, your turn :)"))
+        else:
+            raise (Exception("Only supports 2D and 3D"))
 
         if self.logSigma:
             g1 = -(np.arctan(alpha * f) / np.pi + 0.5) * sig1 + sig1
@@ -989,85 +1001,7 @@ class ParametricSplineMap(IdentityMap):
             g1 = -(np.arctan(alpha * f) / np.pi + 0.5) + 1.0
             g2 = np.arctan(alpha * f) / np.pi + 0.5
 
-        if self.mesh.dim == 2:
-            g3 = np.zeros((self.mesh.nC, self.npts))
-            if self.normal == "y":
-                # Here we use perturbation to compute sensitivity
-                # TODO: bit more generalization of this ...
-                # Modfications for X and Z directions ...
-                for i in range(np.size(self.pts)):
-                    ctemp = c[i]
-                    ind = np.argmin(abs(self.mesh.cell_centers_y - ctemp))
-                    ca = c.copy()
-                    cb = c.copy()
-                    dy = self.mesh.h[1][ind] * 1.5
-                    ca[i] = ctemp + dy
-                    cb[i] = ctemp - dy
-                    spla = UnivariateSpline(self.pts, ca, k=self.order, s=0)
-                    splb = UnivariateSpline(self.pts, cb, k=self.order, s=0)
-                    fderiv = (spla(X) - splb(X)) / (2 * dy)
-                    g3[:, i] = (
-                        sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
-                        * fderiv
-                    )
-
-        elif self.mesh.dim == 3:
-            g3 = np.zeros((self.mesh.nC, self.npts * 2))
-            if self.normal == "x":
-                # Here we use perturbation to compute sensitivity
-                for i in range(self.npts * 2):
-                    ctemp = c[i]
-                    ind = np.argmin(abs(self.mesh.cell_centers_y - ctemp))
-                    ca = c.copy()
-                    cb = c.copy()
-                    dy = self.mesh.h[1][ind] * 1.5
-                    ca[i] = ctemp + dy
-                    cb[i] = ctemp - dy
-
-                    # treat bottom boundary
-                    if i < self.npts:
-                        splba = UnivariateSpline(
-                            self.pts, ca[: self.npts], k=self.order, s=0
-                        )
-                        splbb = UnivariateSpline(
-                            self.pts, cb[: self.npts], k=self.order, s=0
-                        )
-                        flinesa = (
-                            (self.spl["splt"](Y) - splba(Y)) * (Z - zb) / (zt - zb)
-                            + splba(Y)
-                            - X
-                        )
-                        flinesb = (
-                            (self.spl["splt"](Y) - splbb(Y)) * (Z - zb) / (zt - zb)
-                            + splbb(Y)
-                            - X
-                        )
-
-                    # treat top boundary
-                    else:
-                        splta = UnivariateSpline(
-                            self.pts, ca[self.npts :], k=self.order, s=0
-                        )
-                        spltb = UnivariateSpline(
-                            self.pts, ca[self.npts :], k=self.order, s=0
-                        )
-                        flinesa = (
-                            (self.spl["splt"](Y) - splta(Y)) * (Z - zb) / (zt - zb)
-                            + splta(Y)
-                            - X
-                        )
-                        flinesb = (
-                            (self.spl["splt"](Y) - spltb(Y)) * (Z - zb) / (zt - zb)
-                            + spltb(Y)
-                            - X
-                        )
-                    fderiv = (flinesa - flinesb) / (2 * dy)
-                    g3[:, i] = (
-                        sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
-                        * fderiv
-                    )
-        else:
-            raise (Exception("Not Implemented for Y and Z, your turn :)"))
+        g3 = sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi) * df_dc
 
         if v is not None:
             return sp.csr_matrix(np.c_[g1, g2, g3]) * v
-- 
2.43.0


From ac0e3ca70ae135c5200342b3f717bb52a970f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 37/95] fix: L2 objective functions kept the default weights of
 a former mapping and mishandled dense map derivatives

---
 simpeg/objective_function.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index 9188168..4c74e03 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -624,30 +624,28 @@ class L2ObjectiveFunction(BaseObjectiveFunction):
         """
         if getattr(self, "_W", None) is None:
             if self._nC_residual != "*":
-                self._W = sp.eye(self._nC_residual)
-            else:
-                self._W = Identity()
+                return sp.eye(self._nC_residual)
+            return Identity()
         return self._W
 
     def __call__(self, m):
         """Evaluate the objective function for a given model."""
-        r = self.W * (self.mapping * m)
+        r = self.W @ (self.mapping * m)
         return r.dot(r)
 
     def deriv(self, m):
         # Docstring inherited from BaseObjectiveFunction
-        return 2 * self.mapping.deriv(m).T * (self.W.T * (self.W * (self.mapping * m)))
+        return 2 * (
+            self.mapping.deriv(m).T @ (self.W.T @ (self.W @ (self.mapping * m)))
+        )
 
     def deriv2(self, m, v=None):
         # Docstring inherited from BaseObjectiveFunction
         if v is not None:
-            return (
-                2
-                * self.mapping.deriv(m).T
-                * (self.W.T * (self.W * (self.mapping.deriv(m) * v)))
-            )
-        W = self.W * self.mapping.deriv(m)
-        return 2 * W.T * W
+            mapping_deriv = self.mapping.deriv(m)
+            return 2 * (mapping_deriv.T @ (self.W.T @ (self.W @ (mapping_deriv @ v))))
+        W = self.W @ self.mapping.deriv(m)
+        return 2 * (W.T @ W)
 
 
 def _validate_objective_functions(objective_functions):
-- 
2.43.0


From 29128a7d813bba7e9c3c21a8c66c7bd12470c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:04 +0000
Subject: [PATCH 38/95] fix: data misfits kept weights of former uncertainties,
 lost their counter and applied unsymmetric weights wrongly in deriv2

---
 simpeg/data_misfit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/data_misfit.py b/simpeg/data_misfit.py
index 740e803..8e8e2b8 100644
--- a/simpeg/data_misfit.py
+++ b/simpeg/data_misfit.py
@@ -104,6 +104,7 @@ class BaseDataMisfit(L2ObjectiveFunction):
     def counter(self, value):
         if value is not None:
             value = validate_type("counter", value, Counter, cast=False)
+        self._counter = value
 
     @property
     def nP(self):
@@ -185,7 +186,7 @@ class BaseDataMisfit(L2ObjectiveFunction):
                     "the W matrix. Please set data.relative_error and or "
                     "data.noise_floor."
                 )
-            self._W = sdiag(1 / (standard_deviation))
+            return sdiag(1 / (standard_deviation))
         return self._W
 
     @W.setter
@@ -339,5 +340,5 @@ class L2DataMisfit(BaseDataMisfit):
             f = self.simulation.fields(m)
 
         return 2 * self.simulation.Jtvec_approx(
-            m, self.W * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
+            m, self.W.T * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
         )
-- 
2.43.0


From 183c5c3fe8139e9f6407e18a57f195775bbc32ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:11 +0000
Subject: [PATCH 39/95] fix: a numpy number times a combination of objective
 functions was an array

---
 simpeg/objective_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index 4c74e03..72d459d 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -271,6 +271,7 @@ class BaseObjectiveFunction(BaseSimPEG):
         return deriv & deriv2
 
     __numpy_ufunc__ = True
+    __array_ufunc__ = None  # numpy scalars and arrays defer to __rmul__
 
     def __add__(self, other):
         if isinstance(other, Zero):
-- 
2.43.0


From 6c1f4ffb05f18a5d86018ebf8aadc01bc395ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:57 +0000
Subject: [PATCH 40/95] fix: 1D layered simulations failed for narrow surveys,
 keep the default number of spline points

---
 .../electromagnetics/static/resistivity/simulation_1d.py | 5 ++++-
 simpeg/electromagnetics/time_domain/simulation_1d.py     | 5 ++++-
 simpeg/electromagnetics/utils/em1d_utils.py              | 9 +++++----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index 85d72bd..e963276 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -236,7 +236,10 @@ class Simulation1DLayers(BaseSimulation):
                     r_max = max(off.max(), r_max)
         self.survey.set_geometric_factor()
 
-        lambdas, r_spline_points = get_splined_dlf_points(self._fhtfilt, r_min, r_max)
+        # the quintic splines need at least six points
+        lambdas, r_spline_points = get_splined_dlf_points(
+            self._fhtfilt, r_min, r_max, min_points=6
+        )
 
         lambdas = lambdas.reshape(-1)
         n_lambda = len(lambdas)
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index d5e7a3b..6f671b7 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -133,7 +133,10 @@ class Simulation1DLayered(BaseEM1DSimulation):
                             f"Unsupported source waveform object of {src.waveform}"
                         )
 
-        omegas, t_spline_points = get_splined_dlf_points(self._fftfilt, t_min, t_max)
+        # the quintic splines need at least six points
+        omegas, t_spline_points = get_splined_dlf_points(
+            self._fftfilt, t_min, t_max, min_points=6
+        )
 
         n_omega = len(omegas)
         n_t = len(t_spline_points)
diff --git a/simpeg/electromagnetics/utils/em1d_utils.py b/simpeg/electromagnetics/utils/em1d_utils.py
index 2b60d47..93fbe51 100644
--- a/simpeg/electromagnetics/utils/em1d_utils.py
+++ b/simpeg/electromagnetics/utils/em1d_utils.py
@@ -221,7 +221,7 @@ def LogUniform(f, chi_inf=0.05, del_chi=0.05, tau1=1e-5, tau2=1e-2):
     )
 
 
-def get_splined_dlf_points(filt, v_min, v_max):
+def get_splined_dlf_points(filt, v_min, v_max, min_points=4):
     """Get the splined points used for the digital linear filter.
 
     Parameters
@@ -230,6 +230,8 @@ def get_splined_dlf_points(filt, v_min, v_max):
         The filter parameters loaded from libdlf, in a named tuple containing a `.base` property.
     v_min, v_max : float
         The minimum and maximum points needed
+    min_points : int
+        The minimum number of spline points to return.
 
     Returns
     -------
@@ -247,9 +249,8 @@ def get_splined_dlf_points(filt, v_min, v_max):
     pts_per_dec = np.squeeze(1 / np.log(factor))
 
     nout = int(np.ceil(np.log(outmax / outmin) * pts_per_dec) + 1)
-    # the splines through these points are quintic, they need at least six points
-    if nout - filt.base.size < 5:
-        nout = filt.base.size + 5
+    if nout - filt.base.size < min_points - 1:
+        nout = filt.base.size + min_points - 1
     out = np.exp(
         np.arange(np.log(outmin), np.log(outmin) + nout / pts_per_dec, 1 / pts_per_dec)
     )
-- 
2.43.0


From 8202f691506b42c524993f0b122c2f6a58903544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:44 +0000
Subject: [PATCH 41/95] fix: FDEM e-form magnetic fields of several sources
 were all applied to the first source

---
 simpeg/electromagnetics/frequency_domain/fields.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index d23392e..033bf3d 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -512,6 +512,7 @@ class Fields3DElectricField(FieldsFDEM):
             if not isinstance(s_m, Zero) and s_m.ndim == 1:
                 s_m = s_m[:, None]
             b[:, i:ii] = b[:, i:ii] + 1.0 / (1j * omega(src.frequency)) * s_m
+            i = ii
         return b
 
     def _bDeriv_u(self, src, du_dm_v, adjoint=False):
-- 
2.43.0


From c3bf6280598db9907b78d374a5270b38cacd567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:44 +0000
Subject: [PATCH 42/95] fix: slices of sources picked columns instead of
 sources for fields with several columns per source

---
 simpeg/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpeg/fields.py b/simpeg/fields.py
index f78c994..7b157b6 100644
--- a/simpeg/fields.py
+++ b/simpeg/fields.py
@@ -244,6 +244,12 @@ class Fields:
     def _srcIndex(self, srcTestList):
         if type(srcTestList) is slice:
             ind = srcTestList
+            source_list = self.survey.source_list
+            if ind != slice(None) and any(
+                src._fields_per_source != 1 for src in source_list
+            ):
+                # sources own several columns: translate the slice of sources
+                ind = self.survey.get_source_indices(source_list[ind])
         else:
             ind = self.survey.get_source_indices(srcTestList)
         return ind
-- 
2.43.0


From 338aa4abb8e3a30f9fc385a5e8b2183eea9dd3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:29 +0000
Subject: [PATCH 43/95] fix: TDEM j-form dbdt failed for several sources

---
 simpeg/electromagnetics/time_domain/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/fields.py b/simpeg/electromagnetics/time_domain/fields.py
index 927a35e..cd53274 100644
--- a/simpeg/electromagnetics/time_domain/fields.py
+++ b/simpeg/electromagnetics/time_domain/fields.py
@@ -852,7 +852,7 @@ class Fields3DCurrentDensity(FieldsTDEM):
         )
 
     def _dbdt(self, jSolution, source_list, tInd):
-        dhdt = mkvc(self._dhdt(jSolution, source_list, tInd))
+        dhdt = self._dhdt(jSolution, source_list, tInd)
         return self.simulation.MeI * (self.simulation.MeMu * dhdt)
 
     def _dbdtDeriv_u(self, tInd, src, dun_dm_v, adjoint=False):
-- 
2.43.0


From 9d150852e6a54837f4dfc6d8557e1d20cd8a77db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:27 +0000
Subject: [PATCH 44/95] fix: regularization gradients and Hessians were wrong
 for maps with dense derivatives

---
 simpeg/regularization/_gradient.py | 2 +-
 simpeg/regularization/base.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/regularization/_gradient.py b/simpeg/regularization/_gradient.py
index fbf3451..a6ffeb1 100644
--- a/simpeg/regularization/_gradient.py
+++ b/simpeg/regularization/_gradient.py
@@ -198,7 +198,7 @@ class SmoothnessFullGradient(BaseRegularization):
             else self.mapping * m
         )
         r = G @ dm
-        return 2 * (m_d.T * (G.T @ (M_f @ r)))
+        return 2 * (m_d.T @ (G.T @ (M_f @ r)))
 
     def deriv2(self, m, v=None):
         m_d = self.mapping.deriv(m)
diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 54d939c..f9705f5 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -426,7 +426,7 @@ class BaseRegularization(BaseObjectiveFunction):
             The Gradient of the regularization function evaluated for the model provided.
         """
         r = self.W * self.f_m(m)
-        return 2 * self.f_m_deriv(m).T * (self.W.T * r)
+        return 2 * (self.f_m_deriv(m).T @ (self.W.T @ r))
 
     @utils.timeIt
     def deriv2(self, m, v=None) -> csr_matrix:
@@ -461,7 +461,7 @@ class BaseRegularization(BaseObjectiveFunction):
         if v is None:
             return 2 * f_m_deriv.T * ((self.W.T * self.W) * f_m_deriv)
 
-        return 2 * f_m_deriv.T * (self.W.T * (self.W * (f_m_deriv * v)))
+        return 2 * (f_m_deriv.T @ (self.W.T @ (self.W @ (f_m_deriv @ v))))
 
 
 class Smallness(BaseRegularization):
-- 
2.43.0


From 0557ae82a4930d599308fc46b60b4dc43eb3f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:27 +0000
Subject: [PATCH 45/95] fix: second order smoothness failed for angles in
 radians

---
 simpeg/regularization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index f9705f5..10639f5 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -1432,7 +1432,7 @@ class SmoothnessSecondOrder(SmoothnessFirstOrder):
         if self.units is not None and self.units.lower() == "radian":
             return self.cell_gradient.T @ (
                 utils.mat_utils.coterminal(self.cell_gradient.sign() @ dfm_dl)
-                / self.length_scales
+                / self._cell_distances
             )
 
         dfm_dl2 = self.cell_gradient @ dfm_dl
-- 
2.43.0


From b71713d6ffe37f91a1ade11272b3be5698f326fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 46/95] fix: vector amplitude gradients and Hessians were wrong
 for maps with dense derivatives

---
 simpeg/regularization/vector.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/simpeg/regularization/vector.py b/simpeg/regularization/vector.py
index 579e57e..6039b68 100644
--- a/simpeg/regularization/vector.py
+++ b/simpeg/regularization/vector.py
@@ -418,10 +418,9 @@ class BaseAmplitude(BaseVectorRegularization):
         """
         d_m = self._delta_m(m)
 
-        return (
-            2
-            * self.f_m_deriv(m).T
-            * (
+        return 2 * (
+            self.f_m_deriv(m).T
+            @ (
                 self.W.T
                 @ self.W
                 @ (self.f_m_deriv(m) @ d_m).reshape((-1, self.n_comp), order="F")
@@ -459,19 +458,17 @@ class BaseAmplitude(BaseVectorRegularization):
         f_m_deriv = self.f_m_deriv(m)
 
         if v is None:
-            return (
-                2
-                * f_m_deriv.T
-                * (sp.block_diag([self.W.T * self.W] * self.n_comp) * f_m_deriv)
+            return 2 * (
+                f_m_deriv.T
+                @ (sp.block_diag([self.W.T * self.W] * self.n_comp) @ f_m_deriv)
             )
 
-        return (
-            2
-            * f_m_deriv.T
-            * (
+        return 2 * (
+            f_m_deriv.T
+            @ (
                 self.W.T
                 @ self.W
-                @ (f_m_deriv * v).reshape((-1, self.n_comp), order="F")
+                @ (f_m_deriv @ v).reshape((-1, self.n_comp), order="F")
             ).flatten(order="F")
         )
 
-- 
2.43.0


From 44cb1d688d251ba6cc1b60265de02031fbbb3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 47/95] fix: regularization Hessian matrices were wrong for
 maps with dense derivatives

---
 simpeg/regularization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 10639f5..9f50663 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -459,7 +459,7 @@ class BaseRegularization(BaseObjectiveFunction):
         """
         f_m_deriv = self.f_m_deriv(m)
         if v is None:
-            return 2 * f_m_deriv.T * ((self.W.T * self.W) * f_m_deriv)
+            return 2 * (f_m_deriv.T @ ((self.W.T @ self.W) @ f_m_deriv))
 
         return 2 * (f_m_deriv.T @ (self.W.T @ (self.W @ (f_m_deriv @ v))))
 
-- 
2.43.0


From 1d214bea27195496014dfe2238ea011839457f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 48/95] fix: setting the active cells after construction left
 operators, maps and norms of the whole mesh

---
 simpeg/regularization/base.py   | 4 ++++
 simpeg/regularization/sparse.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 9f50663..0a3b515 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -106,6 +106,7 @@ class BaseRegularization(BaseObjectiveFunction):
             volume_term = "volume" in self._weights
             self._weights = {}
             self._W = None
+            self._cell_gradient = None
             if volume_term:
                 self.set_weights(volume=self.regularization_mesh.vol)
 
@@ -2254,6 +2255,9 @@ class WeightedLeastSquares(ComboObjectiveFunction):
         # notify the objective functions that the active_cells changed
         for objfct in self.objfcts:
             objfct.active_cells = active_cells
+        # the default mapping is the identity on the active cells
+        if type(getattr(self, "_mapping", None)) is maps.IdentityMap:
+            self.mapping = maps.IdentityMap(nP=self.regularization_mesh.nC)
 
     @property
     def reference_model(self) -> np.ndarray:
diff --git a/simpeg/regularization/sparse.py b/simpeg/regularization/sparse.py
index 14c6aa9..4fa321c 100644
--- a/simpeg/regularization/sparse.py
+++ b/simpeg/regularization/sparse.py
@@ -61,6 +61,14 @@ class BaseSparse(BaseRegularization):
         self.irls_scaled = irls_scaled
         self.irls_threshold = irls_threshold
 
+    @BaseRegularization.active_cells.setter
+    def active_cells(self, values):
+        BaseRegularization.active_cells.fset(self, values)
+        # a norm common to all cells (or faces) applies to the active ones
+        norm = getattr(self, "_norm", None)
+        if norm is not None and norm.size > 0 and np.all(norm == norm[0]):
+            self.norm = norm[0]
+
     @property
     def irls_scaled(self) -> bool:
         """Scale IRLS weights.
-- 
2.43.0


From 454eec185fe5c7ea76f72dd4413f676c232efc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:05 +0000
Subject: [PATCH 49/95] fix: IRLS weights failed along directions without
 active faces

---
 simpeg/regularization/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/sparse.py b/simpeg/regularization/sparse.py
index 4fa321c..72037ea 100644
--- a/simpeg/regularization/sparse.py
+++ b/simpeg/regularization/sparse.py
@@ -198,7 +198,7 @@ class BaseSparse(BaseRegularization):
             \odot \bigg [ \mathbf{f_{\! max}}^{\!\! 2} + \epsilon^2} \bigg ]^{1 - \mathbf{p}/2}
         """
         lp_scale = np.ones_like(f_m)
-        if self.irls_scaled:
+        if self.irls_scaled and f_m.size > 0:
             # Scale on l2-norm gradient: f_m.max()
             l2_max = np.ones_like(f_m) * np.abs(f_m).max()
             # Compute theoretical maximum gradients for p < 1
-- 
2.43.0


From f8daa97f0062d971a6840b6ebcea2ff8d4df900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:05 +0000
Subject: [PATCH 50/95] fix: resetting the mapping of a regularization kept the
 size of the previous mapping

---
 simpeg/regularization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 0a3b515..2acdbd5 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -2355,7 +2355,7 @@ class WeightedLeastSquares(ComboObjectiveFunction):
     @mapping.setter
     def mapping(self, mapping: maps.IdentityMap):
         if mapping is None:
-            mapping = maps.IdentityMap(nP=self._nC_residual)
+            mapping = maps.IdentityMap(nP=self.regularization_mesh.nC)
 
         if not isinstance(mapping, maps.IdentityMap):
             raise TypeError(
-- 
2.43.0


From 80222a99c986cc2dff9caca1cabd8198b20ce735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 51/95] fix: cross-gradient regularization ignored its weights

---
 simpeg/regularization/cross_gradient.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simpeg/regularization/cross_gradient.py b/simpeg/regularization/cross_gradient.py
index bf9353d..963cf91 100644
--- a/simpeg/regularization/cross_gradient.py
+++ b/simpeg/regularization/cross_gradient.py
@@ -138,8 +138,15 @@ class CrossGradient(BaseSimilarityMeasure):
 
         if regmesh.mesh.dim not in (2, 3):
             raise ValueError("Cross-Gradient is only defined for 2D or 3D")
-        self._G = regmesh.cell_gradient
-        self._Av = sp.diags(np.sqrt(regmesh.vol)) * regmesh.average_face_to_cell
+        self.set_weights(volume=regmesh.vol)
+
+    @property
+    def _G(self):
+        return self.regularization_mesh.cell_gradient
+
+    @property
+    def _Av(self):
+        return self.W @ self.regularization_mesh.average_face_to_cell
 
     @property
     def approx_hessian(self):
-- 
2.43.0


From 27c2582deb4cd94adc6969f1c7f07aae8dd2488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 52/95] fix: similarity measures did not refuse wire maps
 without exactly two models

---
 simpeg/regularization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 2acdbd5..6b2c2c1 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -2410,7 +2410,7 @@ class BaseSimilarityMeasure(BaseRegularization):
         try:
             m1, m2 = wires.maps  # Assume a map has been passed for each model.
         except ValueError:
-            ValueError("Wire map must have two model mappings")
+            raise ValueError("Wire map must have two model mappings")
 
         if m1[1].shape[0] != m2[1].shape[0]:
             raise ValueError(
-- 
2.43.0


From c36fa7a3dbd16a56e8d3f1017495b22efeb83e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 53/95] fix: PGI Hessian kept the cluster precisions of the
 first model, reference model and mixture

---
 simpeg/directives/_pgi_directives.py |   2 -
 simpeg/regularization/pgi.py         | 135 ++++++++++++---------------
 2 files changed, 61 insertions(+), 76 deletions(-)

diff --git a/simpeg/directives/_pgi_directives.py b/simpeg/directives/_pgi_directives.py
index 60f4488..882e7e0 100644
--- a/simpeg/directives/_pgi_directives.py
+++ b/simpeg/directives/_pgi_directives.py
@@ -126,8 +126,6 @@ class PGI_UpdateParameters(InversionDirective):
 
             mref = mkvc(self.pgi_reg.gmm.means_[membership])
             self.pgi_reg.reference_model = mref
-            if getattr(self.fixed_membership, "shape", [0, 0])[0] < len(membership):
-                self.pgi_reg._r_second_deriv = None
 
 
 class PGI_BetaAlphaSchedule(InversionDirective):
diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 0193647..62959e2 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -220,10 +220,6 @@ class PGIsmallness(Smallness):
 
         super().__init__(mesh=mesh, mapping=IdentityMap(nP=self.shape[0]), **kwargs)
 
-        # Save repetitive computations (see withmapping implementation)
-        self._r_first_deriv = None
-        self._r_second_deriv = None
-
         if weights is not None:
             if isinstance(weights, (np.ndarray, list)):
                 weights = {"user_weights": np.r_[weights].flatten()}
@@ -746,90 +742,81 @@ class PGIsmallness(Smallness):
             dmmodel = np.c_[[a * b for a, b in zip(self.maplist, modellist)]].T
             mD = [a.deriv(b) for a, b in zip(self.maplist, modellist)]
             mD = sp.block_diag(mD)
-            if self._r_second_deriv is None:
-                if self.gmm.covariance_type == "tied":
-                    if self.non_linear_relationships:
-                        r = np.r_[
-                            [
-                                self.gmm.cluster_mapping[membership[i]].deriv(
-                                    dmmodel[i],
-                                    v=(
-                                        self.gmm.cluster_mapping[membership[i]].deriv(
-                                            dmmodel[i], v=self.gmm.precisions_
-                                        )
-                                    ).T,
-                                )
-                                for i in range(len(dmmodel))
-                            ]
+            if self.gmm.covariance_type == "tied":
+                if self.non_linear_relationships:
+                    r = np.r_[
+                        [
+                            self.gmm.cluster_mapping[membership[i]].deriv(
+                                dmmodel[i],
+                                v=(
+                                    self.gmm.cluster_mapping[membership[i]].deriv(
+                                        dmmodel[i], v=self.gmm.precisions_
+                                    )
+                                ).T,
+                            )
+                            for i in range(len(dmmodel))
                         ]
-                    else:
-                        r = self.gmm.precisions_[np.newaxis, :, :][
-                            np.zeros_like(membership)
+                    ]
+                else:
+                    r = self.gmm.precisions_[np.newaxis, :, :][
+                        np.zeros_like(membership)
+                    ]
+            elif (
+                self.gmm.covariance_type == "spherical"
+                or self.gmm.covariance_type == "diag"
+            ):
+                if self.non_linear_relationships:
+                    r = np.r_[
+                        [
+                            self.gmm.cluster_mapping[membership[i]].deriv(
+                                dmmodel[i],
+                                v=(
+                                    self.gmm.cluster_mapping[membership[i]].deriv(
+                                        dmmodel[i],
+                                        v=self.gmm.precisions_[membership[i]]
+                                        * np.eye(len(self.wiresmap.maps)),
+                                    )
+                                ).T,
+                            )
+                            for i in range(len(dmmodel))
                         ]
-                elif (
-                    self.gmm.covariance_type == "spherical"
-                    or self.gmm.covariance_type == "diag"
-                ):
-                    if self.non_linear_relationships:
-                        r = np.r_[
-                            [
-                                self.gmm.cluster_mapping[membership[i]].deriv(
-                                    dmmodel[i],
-                                    v=(
-                                        self.gmm.cluster_mapping[membership[i]].deriv(
-                                            dmmodel[i],
-                                            v=self.gmm.precisions_[membership[i]]
-                                            * np.eye(len(self.wiresmap.maps)),
-                                        )
-                                    ).T,
-                                )
-                                for i in range(len(dmmodel))
-                            ]
+                    ]
+                else:
+                    r = np.r_[
+                        [
+                            precision * np.eye(len(self.wiresmap.maps))
+                            for precision in self.gmm.precisions_
                         ]
-                    else:
-                        r = np.r_[
-                            [
-                                self.gmm.precisions_[memb]
-                                * np.eye(len(self.wiresmap.maps))
-                                for memb in membership
-                            ]
+                    ][membership]
+            else:
+                if self.non_linear_relationships:
+                    r = np.r_[
+                        [
+                            self.gmm.cluster_mapping[membership[i]].deriv(
+                                dmmodel[i],
+                                v=(
+                                    self.gmm.cluster_mapping[membership[i]].deriv(
+                                        dmmodel[i],
+                                        v=self.gmm.precisions_[membership[i]],
+                                    )
+                                ).T,
+                            )
+                            for i in range(len(dmmodel))
                         ]
+                    ]
                 else:
-                    if self.non_linear_relationships:
-                        r = np.r_[
-                            [
-                                self.gmm.cluster_mapping[membership[i]].deriv(
-                                    dmmodel[i],
-                                    v=(
-                                        self.gmm.cluster_mapping[membership[i]].deriv(
-                                            dmmodel[i],
-                                            v=self.gmm.precisions_[membership[i]],
-                                        )
-                                    ).T,
-                                )
-                                for i in range(len(dmmodel))
-                            ]
-                        ]
-                    else:
-                        r = self.gmm.precisions_[membership]
-
-                self._r_second_deriv = r
+                    r = self.gmm.precisions_[membership]
 
             if v is not None:
                 mDv = self.wiresmap * (mD * v)
                 mDv = np.c_[mDv]
                 r0 = (self.W * (mkvc(mDv))).reshape(mDv.shape, order="F")
-                second_deriv_times_r0 = mkvc(
-                    np.einsum("ijk,ik->ij", self._r_second_deriv, r0)
-                )
+                second_deriv_times_r0 = mkvc(np.einsum("ijk,ik->ij", r, r0))
                 return 2 * mkvc(mD.T * (self.W * second_deriv_times_r0))
             else:
                 # Forming the Hessian by diagonal blocks
                 hlist = [
-                    [
-                        self._r_second_deriv[:, i, j]
-                        for i in range(len(self.wiresmap.maps))
-                    ]
+                    [r[:, i, j] for i in range(len(self.wiresmap.maps))]
                     for j in range(len(self.wiresmap.maps))
                 ]
                 Hr = sp.csc_matrix((0, 0), dtype=np.float64)
-- 
2.43.0


From 5491d96d64d2d9babfa1c9b50d9fda5d207a8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 54/95] fix: PGI Hessian matrix did not match its products for
 non-linear maps

---
 simpeg/regularization/pgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 62959e2..e91cc93 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -828,7 +828,7 @@ class PGIsmallness(Smallness):
 
                 Hr = Hr.dot(self.W)
 
-                return 2 * (mD.T * mD) * (self.W * (Hr))
+                return 2 * mD.T * (self.W * Hr) * mD
 
         else:
             if self.non_linear_relationships:
@@ -906,7 +906,7 @@ class PGIsmallness(Smallness):
                 for j in range(len(self.wiresmap.maps)):
                     Hc = sp.hstack([Hc, sdiag(hlist[i][j])])
                 Hr = sp.vstack([Hr, Hc])
-            Hr = 2 * (mD.T * mD) * Hr
+            Hr = 2 * mD.T * Hr * mD
 
             if v is not None:
                 return Hr.dot(v)
-- 
2.43.0


From b2629105451b42a7ee27961f2e2393700acd27c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 55/95] fix: PGI derivatives were NaN for models far from every
 cluster

---
 simpeg/regularization/pgi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index e91cc93..53f63f8 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -698,8 +698,7 @@ class PGIsmallness(Smallness):
                     )
             W = np.c_[W].T
             logP = np.vstack([logP for maps in self.wiresmap.maps])
-            numer = (W * np.exp(logP)).sum(axis=1)
-            r = numer / (np.exp(score_vec))
+            r = (W * np.exp(logP - score_vec[:, np.newaxis])).sum(axis=1)
             return 2 * mkvc(mD.T * r)
 
     @timeIt
@@ -893,7 +892,7 @@ class PGIsmallness(Smallness):
 
             hlist = [
                 [
-                    (W[:, :, i, j].T * np.exp(logP)).sum(axis=1) / np.exp(score)
+                    (W[:, :, i, j].T * np.exp(logP - score[:, np.newaxis])).sum(axis=1)
                     for i in range(len(self.wiresmap.maps))
                 ]
                 for j in range(len(self.wiresmap.maps))
-- 
2.43.0


From 945cb2be26e7dbed28c828e7a187d4607e6adcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:04 +0000
Subject: [PATCH 56/95] fix: maximum step of optimizers ignored negative steps

---
 simpeg/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 76c328e..f00427d 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -714,8 +714,9 @@ class Minimize(object):
             The scaled search direction.
         """
 
-        if self.maxStep < np.abs(p.max()):
-            p = self.maxStep * p / np.abs(p.max())
+        largest = np.abs(p).max()
+        if self.maxStep < largest:
+            p = self.maxStep * p / largest
         return p
 
     nameLS = "Armijo linesearch"  #: The line-search name
-- 
2.43.0


From 40ba8b2d905b5b22cfe758b810e8842d7dd264c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:11 +0000
Subject: [PATCH 57/95] fix: optimizers did not finish when the line search
 broke

---
 simpeg/optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index f00427d..bcab6ff 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -516,6 +516,7 @@ class Minimize(object):
                 if self.require_decrease is True:
                     xt, caught = self.modifySearchDirectionBreak(p)
                     if not caught:
+                        self.finish()
                         return self.xc
                 else:
                     print("Linesearch failed. Stepping anyways...")
-- 
2.43.0


From 4d7d653b2f1be35c26df742bcbd72994f0d33e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:11 +0000
Subject: [PATCH 58/95] fix: NewtonRoot took one step more than its iteration
 limit

---
 simpeg/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index bcab6ff..b4f0a83 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1509,7 +1509,7 @@ class NewtonRoot(object):
             self.iter += 1
             if norm(rt) < self.tol:
                 break
-            if self.iter > self.maxIter:
+            if self.iter >= self.maxIter:
                 print(
                     "NewtonRoot stopped by maxIters ({0:d}). "
                     "norm: {1:4.4e}".format(self.maxIter, norm(rt))
-- 
2.43.0


From 724ea9dd6eb8f0fb8188992d31ee0cc8ab53b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 59/95] fix: ProjectedGNCG search directions left the free
 variables with a BFGS preconditioner

---
 simpeg/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index b4f0a83..fde2628 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1645,7 +1645,7 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
 
         r = resid  # - Inactive * (self.H * step)#  step is zero
 
-        p = self.approxHinv * r
+        p = inactive * (self.approxHinv * r)
 
         sold = np.dot(r, p)
 
@@ -1670,7 +1670,7 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
             r -= alpha * q
             r_norm = norm(r)
 
-            h = self.approxHinv * r
+            h = inactive * (self.approxHinv * r)
 
             snew = np.dot(r, h)
 
-- 
2.43.0


From 4dbf7e568e8031a389c9be60313e96b40849b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:53 +0000
Subject: [PATCH 60/95] fix: SaveOutputEveryIteration could not load the
 results it saved

---
 simpeg/directives/_directives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index 5cbaa81..ee1fa56 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -1959,7 +1959,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
                     f"'file_name' is a required argument if '{type(self).__qualname__}.on_disk' is `False`"
                 )
             file_name = self.file_abs_path
-        results = np.loadtxt(file_name, comments="#")
+        results = np.loadtxt(file_name, comments="#", ndmin=2)
         if results.shape[1] != 9:
             raise ValueError(f"{file_name} does not have valid results")
 
@@ -1976,7 +1976,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
             self.phi_m_smooth_x + self.phi_m_smooth_y + self.phi_m_smooth_z
         )
 
-        self.target_misfit = self.invProb.dmisfit.simulation.survey.nD
+        self.target_misfit = np.sum([dmis.nD for dmis in self.invProb.dmisfit.objfcts])
         self.i_target = None
 
         if self.invProb.phi_d < self.target_misfit:
@@ -2048,7 +2048,7 @@ class SaveOutputEveryIteration(SaveEveryIteration):
             fig.savefig(fname, dpi=dpi)
 
     def plot_tikhonov_curves(self, fname=None, dpi=200):
-        self.target_misfit = self.invProb.dmisfit.simulation.survey.nD
+        self.target_misfit = np.sum([dmis.nD for dmis in self.invProb.dmisfit.objfcts])
         self.i_target = None
 
         if self.invProb.phi_d < self.target_misfit:
-- 
2.43.0


From baf50fbbb63ceb986a27d1ee57268b9faaa8f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:53 +0000
Subject: [PATCH 61/95] fix: ScalingMultipleDataMisfits_ByEig ignored its
 number of power iterations

---
 simpeg/directives/_directives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index ee1fa56..9943289 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -936,7 +936,9 @@ class ScalingMultipleDataMisfits_ByEig(InversionDirective):
         dm_eigenvalue_list = []
         for dm in self.dmisfit.objfcts:
             dm_eigenvalue_list += [
-                eigenvalue_by_power_iteration(dm, m, random_seed=rng)
+                eigenvalue_by_power_iteration(
+                    dm, m, n_pw_iter=self.n_pw_iter, random_seed=rng
+                )
             ]
 
         self.chi0 = self.chi0_ratio / np.r_[dm_eigenvalue_list]
-- 
2.43.0


From 11466d73eddb80cd5c5ab4672638ab53e675e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 62/95] fix: BaseInvProblem misaligned fields and data when a
 misfit term has no simulation

---
 simpeg/inverse_problem.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/simpeg/inverse_problem.py b/simpeg/inverse_problem.py
index ec24a15..7c73f4e 100644
--- a/simpeg/inverse_problem.py
+++ b/simpeg/inverse_problem.py
@@ -277,16 +277,7 @@ class BaseInvProblem:
                 break
 
         if f is None:
-            if isinstance(self.dmisfit, BaseDataMisfit):
-                f = self.dmisfit.simulation.fields(m)
-
-            elif isinstance(self.dmisfit, BaseObjectiveFunction):
-                f = []
-                for objfct in self.dmisfit.objfcts:
-                    if hasattr(objfct, "simulation"):
-                        f += [objfct.simulation.fields(m)]
-                    else:
-                        f += []
+            f = self._evaluate_fields(self.dmisfit, m)
 
         if deleteWarmstart:
             self.warmstart = []
@@ -295,14 +286,28 @@ class BaseInvProblem:
 
         return f
 
+    def _evaluate_fields(self, objfct, m):
+        """Fields of each term of an objective function (None for terms without)."""
+        if isinstance(objfct, ComboObjectiveFunction):
+            return [self._evaluate_fields(fct, m) for fct in objfct.objfcts]
+        if hasattr(objfct, "simulation"):
+            return objfct.simulation.fields(m)
+        return None
+
+    def _evaluate_dpred(self, objfct, m, f):
+        """Predicted data of each term of an objective function that has some."""
+        if isinstance(objfct, ComboObjectiveFunction):
+            dpred = []
+            for fct, f_i in zip(objfct.objfcts, f):
+                dpred += self._evaluate_dpred(fct, m, f_i)
+            return dpred
+        if hasattr(objfct, "simulation"):
+            return [objfct.simulation.dpred(m, f=f)]
+        return []
+
     def get_dpred(self, m, f):
-        dpred = []
-        for i, objfct in enumerate(self.dmisfit.objfcts):
-            if hasattr(objfct, "simulation"):
-                dpred += [objfct.simulation.dpred(m, f=f[i])]
-            else:
-                dpred += []
-        return np.hstack(dpred)
+        dpred = self._evaluate_dpred(self.dmisfit, m, f)
+        return np.hstack(dpred) if dpred else np.array([])
 
     @timeIt
     def evalFunction(self, m, return_g=True, return_H=True):
-- 
2.43.0


From 3ac5911645c4a74f559a56ab66ac140e2c75207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 63/95] fix: BaseInvProblem reported the y part of a 3D
 regularization in phi_z

---
 simpeg/inverse_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/inverse_problem.py b/simpeg/inverse_problem.py
index 7c73f4e..ef12a88 100644
--- a/simpeg/inverse_problem.py
+++ b/simpeg/inverse_problem.py
@@ -349,10 +349,10 @@ class BaseInvProblem:
                 dim = reg.regularization_mesh.dim
                 self.phi_s += mult * reg.objfcts[i_s](m) * reg.alpha_s
                 self.phi_x += mult * reg.objfcts[i_x](m) * reg.alpha_x
-                if dim > 1:
+                if dim == 2:
                     self.phi_z += mult * reg.objfcts[i_y](m) * reg.alpha_y
                 if dim > 2:
-                    self.phi_y = self.phi_z
+                    self.phi_y += mult * reg.objfcts[i_y](m) * reg.alpha_y
                     self.phi_z += mult * reg.objfcts[i_z](m) * reg.alpha_z
 
         phi = phi_d + self.beta * phi_m
-- 
2.43.0


From 7a7d51529111414a05b68af4a1736f94eb0f716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 64/95] fix: values of the terms of a composite objective
 function shifted past a zero multiplier

---
 simpeg/objective_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index 72d459d..eebd62d 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -460,6 +460,7 @@ class ComboObjectiveFunction(BaseObjectiveFunction):
         for i, phi in enumerate(self):
             multiplier, objfct = phi
             if multiplier == 0.0:  # don't evaluate the fct
+                obj_vals.append(np.nan)
                 continue
             if f is not None and objfct.has_fields:
                 objective_func_value = objfct(m, f=f[i])
-- 
2.43.0


From d7c708fd86c29c1521442ac10118f554d39ec636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:29 +0000
Subject: [PATCH 65/95] fix: composite simulations evaluated members at stale
 models

---
 simpeg/meta/simulation.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index b6f171a..f058562 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -191,6 +191,12 @@ class MetaSimulation(BaseSimulation):
                 else:
                     sim.model = value
 
+    def _update_sim_model(self, mapping, sim):
+        # The simulation might be shared between mappings, its mapping might have
+        # been replaced, or it might have been used with another model on its own.
+        if self.model is not None:
+            sim.model = mapping * self.model
+
     def fields(self, m):
         """Create fields for every simulation.
 
@@ -211,8 +217,7 @@ class MetaSimulation(BaseSimulation):
         # The above should pass the model to all the internal simulations.
         f = []
         for mapping, sim in zip(self.mappings, self.simulations):
-            if self._repeat_sim and self.model is not None:
-                sim.model = mapping * self.model
+            self._update_sim_model(mapping, sim)
             f.append(sim.fields(sim.model))
         return f
 
@@ -221,10 +226,11 @@ class MetaSimulation(BaseSimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         d_pred = []
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
-            if self._repeat_sim:
-                sim.model = mapping * self.model
+            self._update_sim_model(mapping, sim)
             d_pred.append(sim.dpred(m=sim.model, f=field))
         return np.concatenate(d_pred)
 
@@ -234,8 +240,7 @@ class MetaSimulation(BaseSimulation):
             f = self.fields(m)
         j_vec = []
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
-            if self._repeat_sim:
-                sim.model = mapping * self.model
+            self._update_sim_model(mapping, sim)
             sim_v = mapping.deriv(self.model) @ v
             j_vec.append(sim.Jvec(sim.model, sim_v, f=field))
         return np.concatenate(j_vec)
@@ -248,8 +253,7 @@ class MetaSimulation(BaseSimulation):
         for i, (mapping, sim, field) in enumerate(
             zip(self.mappings, self.simulations, f)
         ):
-            if self._repeat_sim:
-                sim.model = mapping * self.model
+            self._update_sim_model(mapping, sim)
             sim_v = v[self._data_offsets[i] : self._data_offsets[i + 1]]
             jt_vec += mapping.deriv(self.model).T @ sim.Jtvec(sim.model, sim_v, f=field)
         return jt_vec
@@ -311,8 +315,7 @@ class MetaSimulation(BaseSimulation):
         for i, (mapping, sim, field) in enumerate(
             zip(self.mappings, self.simulations, f)
         ):
-            if self._repeat_sim:
-                sim.model = mapping * self.model
+            self._update_sim_model(mapping, sim)
             sim_w = sp.diags(W[self._data_offsets[i] : self._data_offsets[i + 1]])
             sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, sim_w, f=field)))
             m_deriv = mapping.deriv(self.model)
@@ -377,8 +380,11 @@ class SumMetaSimulation(MetaSimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         d_pred = 0
-        for sim, field in zip(self.simulations, f):
+        for mapping, sim, field in zip(self.mappings, self.simulations, f):
+            self._update_sim_model(mapping, sim)
             d_pred += sim.dpred(m=sim.model, f=field)
         return d_pred
 
@@ -390,6 +396,7 @@ class SumMetaSimulation(MetaSimulation):
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
             # Every d_pred needs to be setup to grab the current model
             # if given m=None as an argument.
+            self._update_sim_model(mapping, sim)
             sim_v = mapping.deriv(self.model) @ v
             j_vec += sim.Jvec(sim.model, sim_v, f=field)
         return j_vec
@@ -400,6 +407,7 @@ class SumMetaSimulation(MetaSimulation):
             f = self.fields(m)
         jt_vec = 0
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
+            self._update_sim_model(mapping, sim)
             jt_vec += mapping.deriv(self.model).T @ sim.Jtvec(sim.model, v, f=field)
         return jt_vec
 
@@ -409,6 +417,7 @@ class SumMetaSimulation(MetaSimulation):
         if f is None:
             f = self.fields(m)
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
+            self._update_sim_model(mapping, sim)
             sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
             m_deriv = mapping.deriv(self.model)
             jtj_diag += np.asarray(
-- 
2.43.0


From 0849979741429814cb586923c8c95fc8b76b29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:29 +0000
Subject: [PATCH 66/95] fix: composite simulations failed on the sensitivity
 diagonal with dense mapping derivatives

---
 simpeg/meta/dask_sim.py   | 2 +-
 simpeg/meta/simulation.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index 8aecab6..1883736 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -68,7 +68,7 @@ def _get_jtj_diag(mapping, sim, model, field, w, apply_map=False):
         jtj = sim.getJtJdiag(sim.model, w, f=field)
     sim_jtj = sp.diags(np.sqrt(jtj))
     m_deriv = mapping.deriv(model)
-    return np.asarray((sim_jtj @ m_deriv).power(2).sum(axis=0)).flatten()
+    return np.asarray(sp.csr_matrix(sim_jtj @ m_deriv).power(2).sum(axis=0)).flatten()
 
 
 def _reduce(client, operation, items, workers):
diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index f058562..23c2a5d 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -320,7 +320,7 @@ class MetaSimulation(BaseSimulation):
             sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, sim_w, f=field)))
             m_deriv = mapping.deriv(self.model)
             jtj_diag += np.asarray(
-                (sim_jtj @ m_deriv).power(2).sum(axis=0)
+                sp.csr_matrix(sim_jtj @ m_deriv).power(2).sum(axis=0)
             ).flatten()
         return jtj_diag
 
@@ -421,7 +421,7 @@ class SumMetaSimulation(MetaSimulation):
             sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
             m_deriv = mapping.deriv(self.model)
             jtj_diag += np.asarray(
-                (sim_jtj @ m_deriv).power(2).sum(axis=0)
+                sp.csr_matrix(sim_jtj @ m_deriv).power(2).sum(axis=0)
             ).flatten()
         return jtj_diag
 
-- 
2.43.0


From 0e0535f29f49d94293ebe632378c1aafe1dc0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:29 +0000
Subject: [PATCH 67/95] fix: composite simulations kept the data layout of
 replaced members

---
 simpeg/meta/simulation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index 23c2a5d..f337a60 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -107,6 +107,13 @@ class MetaSimulation(BaseSimulation):
         survey._vnD = vnD
         return survey
 
+    def _update_survey(self):
+        # Keep the layout of the data consistent with the simulations (and mappings)
+        # when they are replaced after construction.
+        if hasattr(self, "_survey"):
+            self.survey = self._make_survey()
+            self._data_offsets = np.cumsum(np.r_[0, self.survey.vnD])
+
     @property
     def simulations(self):
         """The list of simulations.
@@ -122,6 +129,7 @@ class MetaSimulation(BaseSimulation):
         self._simulations = validate_list_of_types(
             "simulations", value, BaseSimulation, ensure_unique=True
         )
+        self._update_survey()
 
     @property
     def mappings(self):
@@ -162,6 +170,7 @@ class MetaSimulation(BaseSimulation):
                         f"input mapping shape {map_out_shape}."
                     )
         self._mappings = value
+        self._update_survey()
 
     @property
     def _act_map_names(self):
@@ -374,6 +383,7 @@ class SumMetaSimulation(MetaSimulation):
             if sim.survey.nD != nD:
                 raise ValueError("All simulations must have the same number of data.")
         self._simulations = value
+        self._update_survey()
 
     def dpred(self, m=None, f=None):
         if f is None:
@@ -479,3 +489,4 @@ class RepeatedSimulation(MetaSimulation):
         self._simulation = validate_type(
             "simulation", value, BaseSimulation, cast=False
         )
+        self._update_survey()
-- 
2.43.0


From 8331cdad2b7f23006820f6c333e1521f52e378c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:44 +0000
Subject: [PATCH 68/95] fix: MultiprocessingSumMetaSimulation was wrong with
 fewer processes than simulations

---
 simpeg/meta/multiprocessing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 3662f48..895543a 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -225,6 +225,9 @@ class MultiprocessingMetaSimulation(MetaSimulation):
     >>> mp.set_start_method("spawn")
     """
 
+    # The type of simulation used to combine the simulations on a single process.
+    _chunk_class = MetaSimulation
+
     def __init__(self, simulations, mappings, n_processes=None):
         super().__init__(simulations, mappings)
 
@@ -245,7 +248,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             if chunk == 0:
                 continue
             i_end = i_start + chunk
-            sim_chunk = MetaSimulation(
+            sim_chunk = self._chunk_class(
                 self.simulations[i_start:i_end], self.mappings[i_start:i_end]
             )
             chunk_nd.append(sim_chunk.survey.nD)
@@ -370,6 +373,8 @@ class MultiprocessingSumMetaSimulation(
         will be the minimum of this number and the number of simulations.
     """
 
+    _chunk_class = SumMetaSimulation
+
     def dpred(self, m=None, f=None):
         if f is None:
             if m is None:
-- 
2.43.0


From 714884f29ce94803b707c6249bfabe26171476b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:44 +0000
Subject: [PATCH 69/95] fix: multiprocessing simulations did not accept what
 their serial versions accept

---
 simpeg/meta/multiprocessing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 895543a..ad91f58 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -296,6 +296,8 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
@@ -333,7 +335,10 @@ class MultiprocessingMetaSimulation(MetaSimulation):
         if W is None:
             W = np.ones(self.survey.nD)
         else:
-            W = W.diagonal()
+            try:
+                W = W.diagonal()
+            except (AttributeError, TypeError, ValueError):
+                pass
         if f is None:
             f = self.fields(m)
         for i, (p, field) in enumerate(zip(self._sim_processes, f)):
@@ -380,6 +385,8 @@ class MultiprocessingSumMetaSimulation(
             if m is None:
                 m = self.model
             f = self.fields(m)
+        elif m is not None:
+            self.model = m
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
-- 
2.43.0


From 3ccf61f4c04342f331f2abbd72915dfd90fad523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:02 +0000
Subject: [PATCH 70/95] fix: errors in simulation processes misaligned later
 answers or were returned as data

---
 simpeg/meta/multiprocessing.py | 98 +++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 30 deletions(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index ad91f58..f420750 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -1,4 +1,6 @@
 from multiprocessing import Process, Queue, cpu_count
+from queue import Empty
+import pickle
 from simpeg.meta import MetaSimulation, SumMetaSimulation, RepeatedSimulation
 from simpeg.props import HasModel
 import uuid
@@ -46,6 +48,8 @@ class _SimulationProcess(Process):
         # everything here is local to the process
         # a place to cache items locally
         _cached_items = {}
+        # The error raised by the last model that was sent, if any.
+        model_error = None
 
         # The queues are shared between the head process and the worker processes
         # We use them to communicate between the two.
@@ -74,20 +78,36 @@ class _SimulationProcess(Process):
                     # store_model
                     sim_key, m = args
                     sim = _cached_items[sim_key]
-                    sim.model = m
+                    # nothing is waiting on the result of this operation, so keep the
+                    # error for the operations that make use of the model.
+                    model_error = None
+                    try:
+                        sim.model = m
+                    except Exception as err:
+                        model_error = err
                 elif op == 1:
                     # create fields
                     (sim_key,) = args
                     sim = _cached_items[sim_key]
                     f_key = uuid.uuid4().hex
                     r_queue.put(f_key)
-                    fields = sim.fields(sim.model)
+                    # The key is the answer to this task, so keep an error for the
+                    # operations that make use of the fields.
+                    try:
+                        if model_error is not None:
+                            raise model_error
+                        fields = sim.fields(sim.model)
+                    except Exception as err:
+                        fields = err
                     _cached_items[f_key] = fields
                 elif op == 2:
                     # do dpred
                     sim_key, f_key = args
                     sim = _cached_items[sim_key]
                     fields = _cached_items[f_key]
+                    for item in (model_error, fields):
+                        if isinstance(item, Exception):
+                            raise item
                     d_pred = sim.dpred(sim.model, fields)
                     r_queue.put(d_pred)
                 elif op == 3:
@@ -95,6 +115,9 @@ class _SimulationProcess(Process):
                     sim_key, v, f_key = args
                     sim = _cached_items[sim_key]
                     fields = _cached_items[f_key]
+                    for item in (model_error, fields):
+                        if isinstance(item, Exception):
+                            raise item
                     jvec = sim.Jvec(sim.model, v, fields)
                     r_queue.put(jvec)
                 elif op == 4:
@@ -102,6 +125,9 @@ class _SimulationProcess(Process):
                     sim_key, v, f_key = args
                     sim = _cached_items[sim_key]
                     fields = _cached_items[f_key]
+                    for item in (model_error, fields):
+                        if isinstance(item, Exception):
+                            raise item
                     jtvec = sim.Jtvec(sim.model, v, fields)
                     r_queue.put(jtvec)
                 elif op == 5:
@@ -109,15 +135,25 @@ class _SimulationProcess(Process):
                     sim_key, w, f_key = args
                     sim = _cached_items[sim_key]
                     fields = _cached_items[f_key]
+                    for item in (model_error, fields):
+                        if isinstance(item, Exception):
+                            raise item
                     jtj = sim.getJtJdiag(sim.model, w, fields)
                     r_queue.put(jtj)
             except Exception as err:
+                try:
+                    # Make sure the error can make it to the head process.
+                    pickle.loads(pickle.dumps(err))
+                except Exception:
+                    err = RuntimeError(f"{type(err).__name__}: {err}")
                 r_queue.put(err)
 
     def set_sim(self, sim):
         self._check_closed()
         self.task_queue.put(("set_sim", (sim,)))
-        key = self.result_queue.get()
+        key = self.result()
+        if isinstance(key, Exception):
+            raise key
         future = SimpleFuture(key, self)
         self._my_sim = future
         return future
@@ -131,7 +167,9 @@ class _SimulationProcess(Process):
         self._check_closed()
         sim = self._my_sim
         self.task_queue.put((1, (sim.item_id,)))
-        key = self.result_queue.get()
+        key = self.result()
+        if isinstance(key, Exception):
+            raise key
         future = SimpleFuture(key, self)
         return future
 
@@ -165,8 +203,15 @@ class _SimulationProcess(Process):
         )
 
     def result(self):
+        """Wait for the next result, errors of the process are returned."""
         self._check_closed()
-        return self.result_queue.get()
+        while True:
+            alive = self.is_alive()
+            try:
+                return self.result_queue.get(timeout=0.5)
+            except Empty:
+                if not alive:
+                    return RuntimeError("A simulation process ended unexpectedly.")
 
     def join(self, timeout=None):
         self._check_closed()
@@ -269,6 +314,15 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             for p in self._sim_processes:
                 p.store_model(self._model)
 
+    def _results(self):
+        # Always collect the result of every process, otherwise it would be taken as
+        # the answer to a later request.
+        results = [p.result() for p in self._sim_processes]
+        for result in results:
+            if isinstance(result, Exception):
+                raise result
+        return results
+
     def fields(self, m):
         """Create fields for every simulation.
 
@@ -301,9 +355,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
-        d_pred = []
-        for p in self._sim_processes:
-            d_pred.append(p.result())
+        d_pred = self._results()
         return np.concatenate(d_pred)
 
     def Jvec(self, m, v, f=None):
@@ -312,9 +364,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             f = self.fields(m)
         for p, field in zip(self._sim_processes, f):
             p.start_j_vec(v, field)
-        j_vec = []
-        for p in self._sim_processes:
-            j_vec.append(p.result())
+        j_vec = self._results()
         return np.concatenate(j_vec)
 
     def Jtvec(self, m, v, f=None):
@@ -325,9 +375,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             chunk_v = v[self._data_offsets[i] : self._data_offsets[i + 1]]
             p.start_jt_vec(chunk_v, field)
 
-        jt_vec = []
-        for p in self._sim_processes:
-            jt_vec.append(p.result())
+        jt_vec = self._results()
         return np.sum(jt_vec, axis=0)
 
     def getJtJdiag(self, m, W=None, f=None):
@@ -344,9 +392,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
         for i, (p, field) in enumerate(zip(self._sim_processes, f)):
             chunk_w = W[self._data_offsets[i] : self._data_offsets[i + 1]]
             p.start_jtj_diag(chunk_w, field)
-        jtj_diag = []
-        for p in self._sim_processes:
-            jtj_diag.append(p.result())
+        jtj_diag = self._results()
         return np.sum(jtj_diag, axis=0)
 
     def join(self, timeout=None):
@@ -390,10 +436,8 @@ class MultiprocessingSumMetaSimulation(
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
-        d_pred = 0
-        for p in self._sim_processes:
-            d_pred += p.result()
-        return d_pred
+        d_pred = self._results()
+        return np.sum(d_pred, axis=0)
 
     def Jvec(self, m, v, f=None):
         self.model = m
@@ -401,9 +445,7 @@ class MultiprocessingSumMetaSimulation(
             f = self.fields(m)
         for p, field in zip(self._sim_processes, f):
             p.start_j_vec(v, field)
-        j_vec = []
-        for p in self._sim_processes:
-            j_vec.append(p.result())
+        j_vec = self._results()
         return np.sum(j_vec, axis=0)
 
     def Jtvec(self, m, v, f=None):
@@ -413,9 +455,7 @@ class MultiprocessingSumMetaSimulation(
         for p, field in zip(self._sim_processes, f):
             p.start_jt_vec(v, field)
 
-        jt_vec = []
-        for p in self._sim_processes:
-            jt_vec.append(p.result())
+        jt_vec = self._results()
         return np.sum(jt_vec, axis=0)
 
     def getJtJdiag(self, m, W=None, f=None):
@@ -424,9 +464,7 @@ class MultiprocessingSumMetaSimulation(
             f = self.fields(m)
         for p, field in zip(self._sim_processes, f):
             p.start_jtj_diag(W, field)
-        jtj_diag = []
-        for p in self._sim_processes:
-            jtj_diag.append(p.result())
+        jtj_diag = self._results()
         return np.sum(jtj_diag, axis=0)
 
 
-- 
2.43.0


From 3259b49145c0e7ce4ea5e62842b14824779e2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:11 +0000
Subject: [PATCH 71/95] fix: multiprocessing simulations ignored replaced
 members and mappings

---
 simpeg/meta/multiprocessing.py | 79 ++++++++++++++++------------------
 1 file changed, 37 insertions(+), 42 deletions(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index f420750..9adc0cd 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -279,33 +279,49 @@ class MultiprocessingMetaSimulation(MetaSimulation):
         if n_processes is None:
             n_processes = cpu_count()
 
+        self._start_processes(min(n_processes, len(self.mappings)))
+
+    def _start_processes(self, n_processes):
+        self._sim_processes = [_SimulationProcess() for _ in range(n_processes)]
+        for p in self._sim_processes:
+            p.start()
+        self._send_simulations()
+
+    def _make_chunk(self, i_start, i_end):
+        return self._chunk_class(
+            self.simulations[i_start:i_end], self.mappings[i_start:i_end]
+        )
+
+    def _send_simulations(self):
         # split simulation,mappings up into chunks
         # (Which are currently defined using MetaSimulations)
-        n_sim = len(simulations)
-        chunk_sizes = min(n_processes, n_sim) * [n_sim // n_processes]
-        for i in range(n_sim % n_processes):
-            chunk_sizes[i] += 1
-
+        n_sim = len(self.mappings)
+        for p in self._sim_processes[n_sim:]:
+            p.join()
+        self._sim_processes = self._sim_processes[:n_sim]
+        n_processes = len(self._sim_processes)
         i_start = 0
         chunk_nd = []
-        processes = []
-        for chunk in chunk_sizes:
-            if chunk == 0:
-                continue
-            i_end = i_start + chunk
-            sim_chunk = self._chunk_class(
-                self.simulations[i_start:i_end], self.mappings[i_start:i_end]
-            )
+        for i, p in enumerate(self._sim_processes):
+            i_end = i_start + n_sim // n_processes + (i < n_sim % n_processes)
+            sim_chunk = self._make_chunk(i_start, i_end)
             chunk_nd.append(sim_chunk.survey.nD)
-            p = _SimulationProcess()
-            processes.append(p)
-            p.start()
             p.set_sim(sim_chunk)
             i_start = i_end
-
-        self._sim_processes = processes
         self._data_offsets = np.cumsum(np.r_[0, chunk_nd])
 
+    def _update_survey(self):
+        # The processes have their own copies of the simulations and the mappings,
+        # and need new ones when they are replaced.
+        if hasattr(self, "_sim_processes"):
+            self.survey = self._make_survey()
+            if not self._repeat_sim and len(self.simulations) != len(self.mappings):
+                return  # wait until both have been replaced.
+            self._send_simulations()
+            if self.model is not None:
+                for p in self._sim_processes:
+                    p.store_model(self._model)
+
     @MetaSimulation.model.setter
     def model(self, value):
         updated = HasModel.model.fset(self, value)
@@ -499,28 +515,7 @@ class MultiprocessingRepeatedSimulation(
         if n_processes is None:
             n_processes = cpu_count()
 
-        # split mappings up into chunks
-        n_sim = len(mappings)
-        chunk_sizes = min(n_processes, n_sim) * [n_sim // n_processes]
-        for i in range(n_sim % n_processes):
-            chunk_sizes[i] += 1
-
-        processes = []
-        i_start = 0
-        chunk_nd = []
-        for chunk in chunk_sizes:
-            if chunk == 0:
-                continue
-            i_end = i_start + chunk
-            sim_chunk = RepeatedSimulation(
-                self.simulation, self.mappings[i_start:i_end]
-            )
-            chunk_nd.append(sim_chunk.survey.nD)
-            p = _SimulationProcess()
-            processes.append(p)
-            p.start()
-            p.set_sim(sim_chunk)
-            i_start = i_end
+        self._start_processes(min(n_processes, len(self.mappings)))
 
-        self._data_offsets = np.cumsum(np.r_[0, chunk_nd])
-        self._sim_processes = processes
+    def _make_chunk(self, i_start, i_end):
+        return RepeatedSimulation(self.simulation, self.mappings[i_start:i_end])
-- 
2.43.0


From 199f6dde5a127ae3676a753cf6e70f42cdb5b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 72/95] fix: 1D simulations could not be sent to other
 processes

---
 simpeg/electromagnetics/base_1d.py                          | 6 ++++--
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 6 ++++--
 simpeg/electromagnetics/time_domain/simulation_1d.py        | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 500b90b..0de80a0 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -28,6 +28,9 @@ for filter_name in libdlf.hankel.__all__:
     if "j0" in hankel_filter.values and "j1" in hankel_filter.values:
         HANKEL_FILTERS[filter_name] = hankel_filter
 
+# This lives at the module level so that the simulations can be pickled
+HankelFilter = namedtuple("HankelFilter", "base j0 j1")
+
 ###############################################################################
 #                                                                             #
 #                             Base EM1D Simulation                            #
@@ -168,8 +171,7 @@ class BaseEM1DSimulation(BaseSimulation):
             "hankel_filter", value, list(HANKEL_FILTERS.keys())
         )
         base, j0, j1 = HANKEL_FILTERS[self._hankel_filter]()
-        hank = namedtuple("HankelFilter", "base j0 j1")
-        self._fhtfilt = hank(base, j0, j1)
+        self._fhtfilt = HankelFilter(base, j0, j1)
         self._coefficients_set = False
 
     _hankel_pts_per_dec = 0  # Default: Standard DLF
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index e963276..b4f4f86 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -18,6 +18,9 @@ for filter_name in libdlf.hankel.__all__:
     if "j0" in hankel_filter.values:
         HANKEL_FILTERS[filter_name] = hankel_filter
 
+# This lives at the module level so that the simulations can be pickled
+HankelFilter = namedtuple("HankelFilter", "base j0")
+
 
 def _phi_tilde(rho, thicknesses, lambdas):
     """Calculate potential in the hankel domain.
@@ -197,8 +200,7 @@ class Simulation1DLayers(BaseSimulation):
             "hankel_filter", value, list(HANKEL_FILTERS.keys())
         )
         filt = HANKEL_FILTERS[self._hankel_filter]()
-        hank = namedtuple("HankelFilter", "base j0")
-        self._fhtfilt = hank(filt[0], filt[1])
+        self._fhtfilt = HankelFilter(filt[0], filt[1])
         self._coefficients_set = False
 
     @property
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index 6f671b7..21a7ee2 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -27,6 +27,9 @@ for filter_name in libdlf.fourier.__all__:
     if "cos" in fourier_filter.values:
         COS_FILTERS[filter_name] = fourier_filter
 
+# This lives at the module level so that the simulations can be pickled
+CosineFilter = namedtuple("CosineFilter", "base cos")
+
 
 class Simulation1DLayered(BaseEM1DSimulation):
     """
@@ -73,8 +76,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
             "time_filter", value, list(COS_FILTERS.keys())
         )
         filt = COS_FILTERS[self._time_filter]()
-        cos_filt = namedtuple("CosineFilter", "base cos")
-        self._fftfilt = cos_filt(filt[0], filt[-1])
+        self._fftfilt = CosineFilter(filt[0], filt[-1])
         self._coefficients_set = False
 
     def get_coefficients(self):
-- 
2.43.0


From 9a0e3df0880c57aa47ecfca0d8a1a30cb3f5107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 73/95] fix: multiprocessing simulations waited forever on
 members that cannot be pickled

---
 simpeg/meta/multiprocessing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 9adc0cd..a84a459 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -64,7 +64,7 @@ class _SimulationProcess(Process):
             op, args = task
             try:
                 if op == "set_sim":
-                    (sim,) = args
+                    sim = pickle.loads(args[0])
                     sim_key = uuid.uuid4().hex
                     _cached_items[sim_key] = sim
                     r_queue.put(sim_key)
@@ -150,7 +150,9 @@ class _SimulationProcess(Process):
 
     def set_sim(self, sim):
         self._check_closed()
-        self.task_queue.put(("set_sim", (sim,)))
+        # pickle it here, as an error in the feeding thread of the queue would
+        # leave this waiting for an answer.
+        self.task_queue.put(("set_sim", (pickle.dumps(sim),)))
         key = self.result()
         if isinstance(key, Exception):
             raise key
@@ -285,7 +287,11 @@ class MultiprocessingMetaSimulation(MetaSimulation):
         self._sim_processes = [_SimulationProcess() for _ in range(n_processes)]
         for p in self._sim_processes:
             p.start()
-        self._send_simulations()
+        try:
+            self._send_simulations()
+        except Exception:
+            self.join()
+            raise
 
     def _make_chunk(self, i_start, i_end):
         return self._chunk_class(
-- 
2.43.0


From a0362b36148987103e0d0d13b216329879bbde13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:44 +0000
Subject: [PATCH 74/95] fix: sensitivities stored by one potential field
 problem were reused for others

The geoana engine reused any sensitivity.npy of the same shape: another mesh,
other active cells, components, locations, inducing field or data type. The
file now comes with a digest of its problem and is reused only for it.
---
 simpeg/potential_fields/base.py               | 58 +++++++++++++++++--
 .../potential_fields/magnetics/simulation.py  | 10 ++++
 2 files changed, 63 insertions(+), 5 deletions(-)

diff --git a/simpeg/potential_fields/base.py b/simpeg/potential_fields/base.py
index 2781c26..800aecd 100644
--- a/simpeg/potential_fields/base.py
+++ b/simpeg/potential_fields/base.py
@@ -1,3 +1,4 @@
+import hashlib
 import os
 from multiprocessing.pool import Pool
 
@@ -309,11 +310,16 @@ class BasePFSimulation(LinearSimulation):
             n_cells *= 3
         if self.store_sensitivities == "disk":
             sens_name = os.path.join(self.sensitivity_path, "sensitivity.npy")
-            if os.path.exists(sens_name):
-                # do not pull array completely into ram, just need to check the size
-                kernel = np.load(sens_name, mmap_mode="r")
-                if kernel.shape == (self.survey.nD, n_cells):
-                    print(f"Found sensitivity file at {sens_name} with expected shape")
+            digest_name = os.path.join(self.sensitivity_path, "sensitivity.sha256")
+            digest = self._sensitivity_digest()
+            # Reuse the stored sensitivities only if they belong to this problem
+            if os.path.exists(sens_name) and os.path.exists(digest_name):
+                with open(digest_name) as f:
+                    same_problem = f.read() == digest
+                if same_problem:
+                    # do not pull array completely into ram
+                    kernel = np.load(sens_name, mmap_mode="r")
+                    print(f"Found sensitivity file at {sens_name} for this problem")
                     kernel = np.asarray(kernel)
                     return kernel
         if self.store_sensitivities == "forward_only":
@@ -349,9 +355,51 @@ class BasePFSimulation(LinearSimulation):
         if self.store_sensitivities == "disk":
             print(f"writing sensitivity to {sens_name}")
             os.makedirs(self.sensitivity_path, exist_ok=True)
+            # Remove the existing files first: the sensitivities could be in use by
+            # another simulation, and a digest must never describe other sensitivities.
+            for name in (digest_name, sens_name):
+                if os.path.exists(name):
+                    os.remove(name)
             np.save(sens_name, kernel)
+            with open(digest_name, "w") as f:
+                f.write(digest)
         return kernel
 
+    def _sensitivity_digest(self):
+        """
+        Digest that identifies the problem the sensitivity matrix belongs to.
+
+        Returns
+        -------
+        str
+        """
+        digest = hashlib.sha256()
+
+        def update(*values):
+            for value in values:
+                if not isinstance(value, np.ndarray):
+                    value = repr(value)
+                else:
+                    digest.update(repr((value.shape, value.dtype.str)).encode())
+                    value = np.ascontiguousarray(value).tobytes()
+                digest.update(value if isinstance(value, bytes) else value.encode())
+
+        update(
+            type(self).__name__,
+            type(self).__module__,
+            np.dtype(self.sensitivity_dtype).str,
+            self._nodes,
+            self._unique_inv,
+        )
+        for location, components in self.survey._location_component_iterator():
+            update(np.asarray(location), list(components))
+        update(*self._sensitivity_digest_values())
+        return digest.hexdigest()
+
+    def _sensitivity_digest_values(self):
+        """Any other settings the sensitivity matrix depends on."""
+        return []
+
     def _check_engine_and_sensitivity_path(self):
         """
         Check if sensitivity_path is a file if engine is set to "choclo"
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 7e7525c..3173bcb 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -562,6 +562,16 @@ class Simulation3DIntegral(BasePFSimulation):
 
         return amplitude
 
+    def _sensitivity_digest_values(self):
+        source_field = self.survey.source_field
+        return [
+            self.model_type,
+            float(source_field.amplitude),
+            float(source_field.inclination),
+            float(source_field.declination),
+            self.M,
+        ]
+
     def evaluate_integral(self, receiver_location, components):
         """
         Load in the active nodes of a tensor mesh and computes the magnetic
-- 
2.43.0


From a7ca5756cc7a96b4eb0c3c28a7974eaeaad64e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:44 +0000
Subject: [PATCH 75/95] fix: simulations with choclo overwrote the stored
 sensitivities of live simulations

Creating the memory map in an existing file truncated it and replaced the
sensitivities of any simulation that still had it mapped.
---
 simpeg/potential_fields/base.py                 | 10 ++++++++++
 simpeg/potential_fields/gravity/simulation.py   |  2 ++
 simpeg/potential_fields/magnetics/simulation.py |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/simpeg/potential_fields/base.py b/simpeg/potential_fields/base.py
index 800aecd..dcdf794 100644
--- a/simpeg/potential_fields/base.py
+++ b/simpeg/potential_fields/base.py
@@ -416,6 +416,16 @@ class BasePFSimulation(LinearSimulation):
                 "should be the path to a new or existing file."
             )
 
+    def _remove_sensitivity_file(self):
+        """
+        Remove the file for storing sensitivities, if it already exists.
+
+        The sensitivities in it could still be in use by another simulation, so a new
+        file needs to be created instead of overwriting the existing one.
+        """
+        if os.path.exists(self.sensitivity_path):
+            os.remove(self.sensitivity_path)
+
     def _get_active_nodes(self):
         """
         Return locations of nodes only for active cells
diff --git a/simpeg/potential_fields/gravity/simulation.py b/simpeg/potential_fields/gravity/simulation.py
index e44fce9..72eff96 100644
--- a/simpeg/potential_fields/gravity/simulation.py
+++ b/simpeg/potential_fields/gravity/simulation.py
@@ -597,6 +597,7 @@ class Simulation3DIntegral(BasePFSimulation):
         # Allocate sensitivity matrix
         shape = (self.survey.nD, self.nC)
         if self.store_sensitivities == "disk":
+            self._remove_sensitivity_file()
             sensitivity_matrix = np.memmap(
                 self.sensitivity_path,
                 shape=shape,
@@ -834,6 +835,7 @@ class SimulationEquivalentSourceLayer(
         # Allocate sensitivity matrix
         shape = (self.survey.nD, self.nC)
         if self.store_sensitivities == "disk":
+            self._remove_sensitivity_file()
             sensitivity_matrix = np.memmap(
                 self.sensitivity_path,
                 shape=shape,
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 3173bcb..bbaa2eb 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -953,6 +953,7 @@ class Simulation3DIntegral(BasePFSimulation):
         n_columns = self.nC if scalar_model else 3 * self.nC
         shape = (self.survey.nD, n_columns)
         if self.store_sensitivities == "disk":
+            self._remove_sensitivity_file()
             sensitivity_matrix = np.memmap(
                 self.sensitivity_path,
                 shape=shape,
@@ -1406,6 +1407,7 @@ class SimulationEquivalentSourceLayer(
         n_columns = self.nC if scalar_model else 3 * self.nC
         shape = (self.survey.nD, n_columns)
         if self.store_sensitivities == "disk":
+            self._remove_sensitivity_file()
             sensitivity_matrix = np.memmap(
                 self.sensitivity_path,
                 shape=shape,
-- 
2.43.0


From 8e94026c2d0365c7321e5dcc6373a6325c5e1eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:44 +0000
Subject: [PATCH 76/95] fix: magnetization set on a magnetic simulation was
 ignored

It was ignored by the choclo engine, and by any simulation that had already
computed its sensitivities.
---
 simpeg/potential_fields/magnetics/simulation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index bbaa2eb..0a208c0 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -236,8 +236,19 @@ class Simulation3DIntegral(BasePFSimulation):
         if self.model_type == "vector":
             self._M = sdiag(mkvc(M) * self.survey.source_field.amplitude)
         else:
+            if self.engine == "choclo":
+                msg = (
+                    "Setting the magnetization of the cells hasn't been implemented "
+                    "yet for engine=\"choclo\". Choose another engine, like "
+                    '"geoana".'
+                )
+                raise NotImplementedError(msg)
             M = np.asarray(M)
             self._M = M.reshape((self.nC, 3))
+            # The sensitivities depend on the magnetization
+            for name in ("_G", "_gtg_diagonal", "_ampDeriv"):
+                if hasattr(self, name):
+                    delattr(self, name)
 
     def fields(self, model):
         self.model = model
-- 
2.43.0


From 95848a161cf9aad537f5c760ca0af90ecc387deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:42 +0000
Subject: [PATCH 77/95] fix: potential field simulations could not be pickled
 nor copied once getJtJdiag was called

---
 simpeg/potential_fields/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpeg/potential_fields/base.py b/simpeg/potential_fields/base.py
index dcdf794..7300434 100644
--- a/simpeg/potential_fields/base.py
+++ b/simpeg/potential_fields/base.py
@@ -149,6 +149,12 @@ class BasePFSimulation(LinearSimulation):
         self._nodes = nodes[unique]  # unique active nodes
         self._unique_inv = unique_inv.reshape(cell_nodes.T.shape)
 
+    def __getstate__(self):
+        # Hash objects cannot be pickled nor copied
+        state = self.__dict__.copy()
+        state.pop("_weights_sha256", None)
+        return state
+
     @property
     def mesh(self):
         """Mesh for the integral potential field simulations.
-- 
2.43.0


From 5b8338a1937fd08dd4e2b142818cb665e489afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:44 +0000
Subject: [PATCH 78/95] fix: read_dcip_xyz took values from the wrong columns,
 or failed, unless the columns of the file were in the order in which they
 were asked for

---
 .../io_utils/io_utils_electromagnetics.py     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index e0306a1..1bc9a75 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -106,7 +106,7 @@ def read_dcip_xyz(
         has_uncert = True
         non_location_columns += 1
     if dict_headers is not None:
-        out_headers += dict_headers
+        out_headers += list(dict_headers)
         has_dict = True
         non_location_columns += len(dict_headers)
 
@@ -115,7 +115,9 @@ def read_dcip_xyz(
         col_indices.append(file_headers.index(h))
 
     # Load specified columns of data
-    data_array = np.loadtxt(file_name, comments="!", skiprows=1, usecols=col_indices)
+    data_array = np.loadtxt(
+        file_name, comments="!", skiprows=1, usecols=col_indices, ndmin=2
+    )
     n_rows = np.shape(data_array)[0]
     num_location_columns = np.shape(data_array)[1] - non_location_columns
 
@@ -133,10 +135,10 @@ def read_dcip_xyz(
         n_cols = [6, 7]
     # 2D surface data
     else:
-        a_cols = [1]
-        b_cols = [2]
-        m_cols = [3]
-        n_cols = [4]
+        a_cols = [0]
+        b_cols = [1]
+        m_cols = [2]
+        n_cols = [3]
 
     # Extract electrode locations
     if is_surface_data:
@@ -170,19 +172,19 @@ def read_dcip_xyz(
 
     # Sort and organize all data columns
     if has_data:
-        data_object.dobs = data_array[out_indices, file_headers.index(data_header)]
+        data_object.dobs = data_array[out_indices, out_headers.index(data_header)]
 
     # Sort and organize all data columns
     if has_uncert:
         data_object.standard_deviation = data_array[
-            out_indices, file_headers.index(uncertainties_header)
+            out_indices, out_headers.index(uncertainties_header)
         ]
 
     # Sort and organize all data columns
     if has_dict:
         out_dict = {}
         for h in dict_headers:
-            out_dict[h] = data_array[out_indices, file_headers.index(h)]
+            out_dict[h] = data_array[out_indices, out_headers.index(h)]
         return data_object, out_dict
 
     else:
-- 
2.43.0


From 36284200f7313d293df17f56e3c3d4406d03aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:32 +0000
Subject: [PATCH 79/95] fix: DCIP readers misread files with poles and dipoles,
 electrodes close together for the size of their coordinates, surface poles
 and single lines

---
 .../io_utils/io_utils_electromagnetics.py     | 132 ++++++++++--------
 1 file changed, 74 insertions(+), 58 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index 1bc9a75..c134fed 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -1,3 +1,5 @@
+from itertools import groupby
+
 import numpy as np
 from discretize.utils import mkvc
 import warnings
@@ -9,6 +11,42 @@ from ..code_utils import validate_string, validate_type
 ########################################################################################
 
 
+def _is_pole(location_1, location_2):
+    """Whether a pair of electrodes is a pole, i.e. the same electrode twice."""
+    return np.allclose(location_1, location_2, rtol=0.0)
+
+
+def _make_receivers(locations, data_type):
+    """Make a list of DC receivers from the electrodes of each datum.
+
+    Parameters
+    ----------
+    locations : list of tuple
+        The locations of the M and N electrodes of each datum, the second one
+        is None for a pole.
+    data_type : str
+        The type of data.
+
+    Returns
+    -------
+    list
+        Pole and dipole receivers that keep the order of the data.
+    """
+    from ...electromagnetics.static import resistivity as dc
+
+    receiver_list = []
+    for is_pole, group in groupby(locations, key=lambda mn: mn[1] is None):
+        m_locs, n_locs = zip(*group)
+        if is_pole:
+            rx = dc.receivers.Pole(np.asarray(m_locs), data_type=data_type)
+        else:
+            rx = dc.receivers.Dipole(
+                np.asarray(m_locs), np.asarray(n_locs), data_type=data_type
+            )
+        receiver_list.append(rx)
+    return receiver_list
+
+
 def read_dcip_xyz(
     file_name,
     data_type,
@@ -245,7 +283,9 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
     from ...data import Data
 
     # Load file
-    obsfile = np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    obsfile = np.atleast_1d(
+        np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    )
 
     # Find starting data
     start_index = 0
@@ -268,16 +308,16 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
     # Flag for z value provided
     is_surface = False
-    is_pole_tx = False
-    is_pole_rx = False
 
     if format_type == "simple":
         # Load numeric data into an array
         if data_type == "volt":
-            data_array = np.loadtxt(file_name, comments="!", skiprows=start_index)
+            data_array = np.loadtxt(
+                file_name, comments="!", skiprows=start_index, ndmin=2
+            )
         else:
             data_array = np.loadtxt(
-                file_name, comments={"!", "IPTYPE"}, skiprows=start_index
+                file_name, comments={"!", "IPTYPE"}, skiprows=start_index, ndmin=2
             )
 
         n_rows = np.shape(data_array)[0]
@@ -338,20 +378,14 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
                 # Check if z value is provided, if False -> 9999
                 if len(temp) == 3:
                     # check if pole|dipole
-                    if np.allclose(temp[0], temp[1]):
-                        tx = np.r_[temp[0], 9999]
-                        is_pole_tx = True
-                    else:
-                        tx = np.r_[temp[0], 9999, temp[1], 9999]
+                    is_pole_tx = _is_pole(temp[0], temp[1])
+                    tx = np.r_[temp[0], 9999, temp[1], 9999]
                     is_surface = True
 
                 else:
                     # check if pole|dipole
-                    if np.allclose(temp[0:2], temp[2:4]):
-                        tx = np.r_[temp[0:2]]
-                        is_pole_tx = True
-                    else:
-                        tx = temp[:-1]
+                    is_pole_tx = _is_pole(temp[0:2], temp[2:4])
+                    tx = temp[:-1]
 
                 continue
 
@@ -362,21 +396,19 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
                 data_column_index = 2
 
                 # Check if Pole Receiver
-                if np.allclose(temp[0], temp[1]):
-                    is_pole_rx = True
-                    rx.append(np.r_[temp[0], 9999])
+                if _is_pole(temp[0], temp[1]):
+                    rx.append((np.r_[temp[0], 9999], None))
                 else:
-                    rx.append(np.r_[temp[0], 9999, temp[1], 9999])
+                    rx.append((np.r_[temp[0], 9999], np.r_[temp[1], 9999]))
 
             else:
                 data_column_index = 4  # Since dpred for dc has app_res
 
                 # Check if Pole Receiver
-                if np.allclose(temp[0:2], temp[2:4]):
-                    is_pole_rx = True
-                    rx.append(temp[:2])
+                if _is_pole(temp[0:2], temp[2:4]):
+                    rx.append((temp[:2], None))
                 else:
-                    rx.append(temp[:4])
+                    rx.append((temp[:2], temp[2:4]))
 
             # Predicted/observed data
             if len(temp) == data_column_index + 1:
@@ -391,15 +423,11 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
             # Reach the end of transmitter block
             if count == 0:
-                rx = np.asarray(rx)
-                if is_pole_rx:
-                    Rx = dc.receivers.Pole(rx[:, :2], data_type=data_type)
-                else:
-                    Rx = dc.receivers.Dipole(rx[:, :2], rx[:, 2:], data_type=data_type)
+                receiver_list = _make_receivers(rx, data_type)
                 if is_pole_tx:
-                    source_list.append(dc.sources.Pole([Rx], tx[:2]))
+                    source_list.append(dc.sources.Pole(receiver_list, tx[:2]))
                 else:
-                    source_list.append(dc.sources.Dipole([Rx], tx[:2], tx[2:]))
+                    source_list.append(dc.sources.Dipole(receiver_list, tx[:2], tx[2:]))
 
         survey = dc.survey.Survey(source_list)
         data_out = Data(survey=survey)
@@ -462,7 +490,9 @@ def read_dcip3d_ubc(file_name, data_type):
     from ...data import Data
 
     # Load file
-    obsfile = np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    obsfile = np.atleast_1d(
+        np.genfromtxt(file_name, delimiter="\n", dtype=str, comments="!")
+    )
 
     # Pre-allocate
     source_list = []
@@ -471,8 +501,6 @@ def read_dcip3d_ubc(file_name, data_type):
 
     # Flag for z value provided
     is_surface = False
-    is_pole_tx = False
-    is_pole_rx = False
 
     # IP data for dcip3d has a line with a flag we can remove.
     if obsfile[0][0:6] == "IPTYPE":
@@ -498,20 +526,14 @@ def read_dcip3d_ubc(file_name, data_type):
             # Check if z value is provided, if False -> 9999
             if len(temp) == 5:
                 # check if pole|dipole
-                if np.allclose(temp[0:2], temp[2:4]):
-                    tx = np.r_[temp[0:2], 9999]
-                    is_pole_tx = True
-                else:
-                    tx = np.r_[temp[0:2], 9999, temp[2:4], 9999]
+                is_pole_tx = _is_pole(temp[0:2], temp[2:4])
+                tx = np.r_[temp[0:2], 9999, temp[2:4], 9999]
                 is_surface = True
 
             else:
                 # check if pole|dipole
-                if np.allclose(temp[0:3], temp[3:6]):
-                    tx = np.r_[temp[0:3]]
-                    is_pole_tx = True
-                else:
-                    tx = temp[:-1]
+                is_pole_tx = _is_pole(temp[0:3], temp[3:6])
+                tx = temp[:-1]
 
             continue
 
@@ -522,21 +544,19 @@ def read_dcip3d_ubc(file_name, data_type):
             data_column_index = 4  # Since dpred for dc has app_res
 
             # Check if Pole Receiver
-            if np.allclose(temp[0:2], temp[2:4]):
-                is_pole_rx = True
-                rx.append(temp[:2])
+            if _is_pole(temp[0:2], temp[2:4]):
+                rx.append((np.r_[temp[0:2], 9999], None))
             else:
-                rx.append(np.r_[temp[0:2], 9999, temp[2:4], 9999])
+                rx.append((np.r_[temp[0:2], 9999], np.r_[temp[2:4], 9999]))
 
         else:
             data_column_index = 6  # Since dpred for dc has app_res
 
             # Check if Pole Receiver
-            if np.allclose(temp[0:3], temp[3:6]):
-                is_pole_rx = True
-                rx.append(temp[:3])
+            if _is_pole(temp[0:3], temp[3:6]):
+                rx.append((temp[:3], None))
             else:
-                rx.append(temp[:6])
+                rx.append((temp[:3], temp[3:6]))
 
         # Predicted/observed data
         if len(temp) == data_column_index + 1:
@@ -551,15 +571,11 @@ def read_dcip3d_ubc(file_name, data_type):
 
         # Reach the end of transmitter block
         if count == 0:
-            rx = np.asarray(rx)
-            if is_pole_rx:
-                Rx = dc.receivers.Pole(rx[:, :3], data_type=data_type)
-            else:
-                Rx = dc.receivers.Dipole(rx[:, :3], rx[:, 3:], data_type=data_type)
+            receiver_list = _make_receivers(rx, data_type)
             if is_pole_tx:
-                source_list.append(dc.sources.Pole([Rx], tx[:3]))
+                source_list.append(dc.sources.Pole(receiver_list, tx[:3]))
             else:
-                source_list.append(dc.sources.Dipole([Rx], tx[:3], tx[3:]))
+                source_list.append(dc.sources.Dipole(receiver_list, tx[:3], tx[3:]))
 
     survey = dc.survey.Survey(source_list)
     data_out = Data(survey=survey)
-- 
2.43.0


From 7c5123bc6ac282fdaed02af6ef75c057668bbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:32 +0000
Subject: [PATCH 80/95] fix: writing predicted DC data to a 3D UBC file
 replaced the uncertainties of the data object

---
 simpeg/utils/io_utils/io_utils_electromagnetics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index c134fed..2f6aa68 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -880,10 +880,12 @@ def write_dcip3d_ubc(
     # Predicted DC data will automatically contain apparent resistivity column.
     # Here we compute the apparent resistivities and treat it like an uncertainties column.
     if (file_type == "dpred") & (data_type == "volt"):
-        data_object.standard_deviation = apparent_resistivity_from_voltage(
+        uncertainties = apparent_resistivity_from_voltage(
             data_object.survey, data_object.dobs
         )
         file_type = "dobs"
+    else:
+        uncertainties = data_object.standard_deviation
 
     # Write comments and IP type (if applicable)
     with open(file_name, "w") as fid:
@@ -936,7 +938,7 @@ def write_dcip3d_ubc(
                     N = np.c_[N, data_object.dobs[count : count + rx.nD]]
 
                 if file_type == "dobs":
-                    N = np.c_[N, data_object.standard_deviation[count : count + rx.nD]]
+                    N = np.c_[N, uncertainties[count : count + rx.nD]]
 
                 # Write receivers and locations
                 if isinstance(N, np.ndarray):
-- 
2.43.0


From 38bf34e98d35d545f2dd5046a646a3ec656f88ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:32 +0000
Subject: [PATCH 81/95] fix: UBC DCIP files written with several comment lines
 could not be read

---
 .../io_utils/io_utils_electromagnetics.py      | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index 2f6aa68..8e2ad30 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -711,12 +711,9 @@ def write_dcip2d_ubc(
         fid.write(f"! {format_type} FORMAT\n")
 
         if comment_lines is not None and len(comment_lines) > 0:
-            # ensure comment_lines ends with a new line character
-            if comment_lines[0] != "!":
-                comment_lines = "! " + comment_lines
-            if comment_lines[-1] != "\n":
-                comment_lines += "\n"
-            fid.write(comment_lines)
+            # ensure every line is a comment and ends with a new line character
+            for line in comment_lines.splitlines():
+                fid.write((line if line.startswith("!") else "! " + line) + "\n")
 
         if format_type.lower() != "simple":
             fid.write("{:g}\n".format(len(data_object.survey.source_list)))
@@ -892,12 +889,9 @@ def write_dcip3d_ubc(
         fid.write(f"! {format_type} FORMAT\n")
 
         if comment_lines is not None and len(comment_lines) > 0:
-            if comment_lines[0] != "!":
-                comment_lines = "! " + comment_lines
-            # ensure comment_lines ends with a new line character
-            if comment_lines[-1] != "\n":
-                comment_lines += "\n"
-            fid.write(comment_lines)
+            # ensure every line is a comment and ends with a new line character
+            for line in comment_lines.splitlines():
+                fid.write((line if line.startswith("!") else "! " + line) + "\n")
 
         if data_type == "apparent_chargeability":
             fid.write("IPTYPE=1\n")
-- 
2.43.0


From 0b3e1a4f46049132e316ec5c030648e707fb8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:43 +0000
Subject: [PATCH 82/95] fix: write_gg3d_ubc renamed the components of the
 receivers it was given and left out data that are zero

---
 simpeg/utils/io_utils/io_utils_pf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_pf.py b/simpeg/utils/io_utils/io_utils_pf.py
index ff689c1..d4188e6 100644
--- a/simpeg/utils/io_utils/io_utils_pf.py
+++ b/simpeg/utils/io_utils/io_utils_pf.py
@@ -340,7 +340,7 @@ def write_gg3d_ubc(filename, data_object):
         raise NotImplementedError(
             "Writing of ubc format only supported for a single receiver."
         )
-    components = src.receiver_list[0].components
+    components = list(src.receiver_list[0].components)
     n_comp = len(components)
     factor = np.ones(n_comp)
 
@@ -357,9 +357,8 @@ def write_gg3d_ubc(filename, data_object):
     output = src.receiver_list[0].locations
     n_loc = np.shape(output)[0]
 
-    if np.any(data_object.dobs != 0):
-        dobs = data_object.dobs.reshape((n_loc, n_comp)) * factor
-        output = np.c_[output, dobs]
+    dobs = data_object.dobs.reshape((n_loc, n_comp)) * factor
+    output = np.c_[output, dobs]
 
     if np.any(data_object.standard_deviation != 0):
         std = data_object.standard_deviation.reshape((n_loc, n_comp))
-- 
2.43.0


From de2e22b16b3fed80b4260c1593056700cc8a12f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:44 +0000
Subject: [PATCH 83/95] fix: read_mag3d_ubc and read_grav3d_ubc dropped data
 that are zero

---
 simpeg/utils/io_utils/io_utils_pf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_pf.py b/simpeg/utils/io_utils/io_utils_pf.py
index d4188e6..571f4af 100644
--- a/simpeg/utils/io_utils/io_utils_pf.py
+++ b/simpeg/utils/io_utils/io_utils_pf.py
@@ -46,6 +46,7 @@ def read_mag3d_ubc(obs_file):
     d = np.zeros(ndat, dtype=float)
     wd = np.zeros(ndat, dtype=float)
     locXYZ = np.zeros((ndat, 3), dtype=float)
+    has_data = False
 
     ii = 0
     while ii < ndat:
@@ -55,6 +56,7 @@ def read_mag3d_ubc(obs_file):
 
             if len(temp) > 3:
                 d[ii] = temp[3]
+                has_data = True
 
                 if len(temp) == 5:
                     wd[ii] = temp[4]
@@ -65,7 +67,7 @@ def read_mag3d_ubc(obs_file):
     if np.all(wd == 0.0):
         wd = None
 
-    if np.all(d == 0.0):
+    if not has_data:
         d = None
 
     rxLoc = magnetics.receivers.Point(locXYZ)
@@ -157,6 +159,7 @@ def read_grav3d_ubc(obs_file):
     d = np.zeros(ndat, dtype=float)
     wd = np.zeros(ndat, dtype=float)
     locXYZ = np.zeros((ndat, 3), dtype=float)
+    has_data = False
 
     ii = 0
     while ii < ndat:
@@ -165,6 +168,7 @@ def read_grav3d_ubc(obs_file):
             locXYZ[ii, :] = temp[:3]
             if len(temp) > 3:
                 d[ii] = temp[3]
+                has_data = True
 
                 if len(temp) == 5:
                     wd[ii] = temp[4]
@@ -178,7 +182,7 @@ def read_grav3d_ubc(obs_file):
 
     # UBC and SimPEG used opposite sign convention for
     # gravity data so must multiply by -1.
-    if np.all(d == 0.0):
+    if not has_data:
         d = None
     else:
         d *= -1.0
-- 
2.43.0


From 66fdb0ede2c0a691547d7ab63fd9187327f55ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:44 +0000
Subject: [PATCH 84/95] fix: generate_survey_from_abmn_locations repeated data
 of sources that differ by rounding and took dipoles at large coordinates for
 poles

---
 simpeg/electromagnetics/static/utils/static_utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 5312c58..6fced12 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -1026,7 +1026,12 @@ def generate_survey_from_abmn_locations(
 
     # Loop over all unique source locations
     source_list = []
+    is_used = np.zeros(n_rows, dtype=bool)
     for ind in ab_index:
+        # Rows that already belong to a source which is the same within tolerance
+        if is_used[ind]:
+            continue
+
         # Get source location
         src_loc_a = mkvc(locations_a[ind, :])
         src_loc_b = mkvc(locations_b[ind, :])
@@ -1036,15 +1041,17 @@ def generate_survey_from_abmn_locations(
             (
                 (np.sqrt(np.sum((locations_a - src_loc_a) ** 2, axis=1)) < 1e-3)
                 & (np.sqrt(np.sum((locations_b - src_loc_b) ** 2, axis=1)) < 1e-3)
+                & ~is_used
             )
         )[0]
+        is_used[rx_index] = True
 
         rx_loc_m = locations_m[rx_index, :]
         rx_loc_n = locations_n[rx_index, :]
 
         # Extract pole and dipole receivers
         k_ii = k[rx_index]
-        is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, atol=1e-3), axis=1)
+        is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, rtol=0.0, atol=1e-3), axis=1)
         rx_list = []
 
         if any(is_pole_rx):
@@ -1062,7 +1069,7 @@ def generate_survey_from_abmn_locations(
             out_indices.append(k_ii[~is_pole_rx])
 
         # Define Pole or Dipole Sources
-        if np.all(np.isclose(src_loc_a, src_loc_b, atol=1e-3)):
+        if np.all(np.isclose(src_loc_a, src_loc_b, rtol=0.0, atol=1e-3)):
             source_list.append(dc.sources.Pole(rx_list, src_loc_a))
         else:
             source_list.append(dc.sources.Dipole(rx_list, src_loc_a, src_loc_b))
-- 
2.43.0


From fa33517f0dfccad55647635c3f61925d231c6670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:44 +0000
Subject: [PATCH 85/95] fix: convert_survey_3d_to_2d_lines repeated the data of
 sources above each other

---
 .../electromagnetics/static/utils/static_utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/static/utils/static_utils.py b/simpeg/electromagnetics/static/utils/static_utils.py
index 6fced12..26ff0e5 100644
--- a/simpeg/electromagnetics/static/utils/static_utils.py
+++ b/simpeg/electromagnetics/static/utils/static_utils.py
@@ -441,22 +441,29 @@ def convert_survey_3d_to_2d_lines(
         ]
 
         # For each source in the line
+        is_used = np.zeros(len(lineID_index), dtype=bool)
         for ind in ab_index:
+            # Rows that already belong to a source which is the same within tolerance
+            if is_used[ind]:
+                continue
+
             # Get source location
             src_loc_a = mkvc(a_locs_s[ind, :])
             src_loc_b = mkvc(b_locs_s[ind, :])
 
             # Get receiver locations
             rx_index = np.where(
-                np.isclose(a_locs_s[:, 0], src_loc_a[0], atol=1e-3)
-                & np.isclose(b_locs_s[:, 0], src_loc_b[0], atol=1e-3)
+                np.all(np.isclose(a_locs_s, src_loc_a, rtol=0.0, atol=1e-3), axis=1)
+                & np.all(np.isclose(b_locs_s, src_loc_b, rtol=0.0, atol=1e-3), axis=1)
+                & ~is_used
             )[0]
+            is_used[rx_index] = True
             rx_loc_m = m_locs_s[rx_index, :]
             rx_loc_n = n_locs_s[rx_index, :]
 
             # Extract pole and dipole receivers
             k_ii = kID[rx_index]
-            is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, atol=1e-3), axis=1)
+            is_pole_rx = np.all(np.isclose(rx_loc_m, rx_loc_n, rtol=0.0, atol=1e-3), axis=1)
             rx_list = []
 
             if any(is_pole_rx):
@@ -476,7 +483,7 @@ def convert_survey_3d_to_2d_lines(
                 out_indices.append(k_ii[~is_pole_rx])
 
             # Define Pole or Dipole Sources
-            if np.all(np.isclose(src_loc_a, src_loc_b, atol=1e-3)):
+            if np.all(np.isclose(src_loc_a, src_loc_b, rtol=0.0, atol=1e-3)):
                 source_list.append(dc.sources.Pole(rx_list, src_loc_a))
             else:
                 source_list.append(dc.sources.Dipole(rx_list, src_loc_a, src_loc_b))
-- 
2.43.0


From afcc444d5e32526d2f0f70e01f09134e33e82f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:14 +0000
Subject: [PATCH 86/95] fix: natural source record arrays failed for tippers
 and could not be rotated for a single frequency

---
 .../electromagnetics/natural_source/survey.py | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/survey.py b/simpeg/electromagnetics/natural_source/survey.py
index fc3751d..1b356bd 100644
--- a/simpeg/electromagnetics/natural_source/survey.py
+++ b/simpeg/electromagnetics/natural_source/survey.py
@@ -86,11 +86,9 @@ class Data(BaseData, DataNSEMPlotMethods):
             # Note: needs to be written more generally,
             # using diffterent rxTypes and not all the data at the locations
             # Assume the same locs for all RX
-            locs = src.receiver_list[0].locations_e
-            if locs.shape[1] == 1:
-                locs = np.hstack((np.array([[0.0, 0.0]]), locs))
-            elif locs.shape[1] == 2:
-                locs = np.hstack((np.array([[0.0]]), locs))
+            locs = src.receiver_list[0].locations[0]
+            if locs.shape[1] < 3:
+                locs = np.hstack((np.zeros((len(locs), 3 - locs.shape[1])), locs))
             tArrRec = np.concatenate(
                 (
                     src.frequency * np.ones((locs.shape[0], 1)),
@@ -98,7 +96,7 @@ class Data(BaseData, DataNSEMPlotMethods):
                     np.nan * np.ones((locs.shape[0], 12)),
                 ),
                 axis=1,
-            ).view(dtRI)
+            ).view(dtRI)[:, 0]
             # Get the type and the value for the DataNSEM object as a list
             typeList = [
                 [rx.orientation, rx.component, self.dobs[survey_slices[src, rx]]]
@@ -108,7 +106,7 @@ class Data(BaseData, DataNSEMPlotMethods):
             for k, c, val in typeList:
                 zt_type = "t" if "z" in k else "z"
                 key = zt_type + k + c[0]
-                tArrRec[key] = mkvc(val, 2)
+                tArrRec[key] = mkvc(val)
             # Masked array
 
             try:
@@ -208,20 +206,19 @@ class Data(BaseData, DataNSEMPlotMethods):
                             dataList.append(dFreq[rxType][notNaNind].imag.copy())
                     else:
                         component = "real" if "r" in rxType else "imag"
-                        if "z" in rxType:
+                        if "t" in rxType:
                             receiver_list.append(
-                                Impedance(
+                                Tipper(
                                     locs, orientation=rxType[1:3], component=component
                                 )
                             )
-                            dataList.append(dFreq[rxType][notNaNind].copy())
-                        if "t" in rxType:
+                        else:
                             receiver_list.append(
-                                Tipper(
+                                Impedance(
                                     locs, orientation=rxType[1:3], component=component
                                 )
                             )
-                            dataList.append(dFreq[rxType][notNaNind].copy())
+                        dataList.append(dFreq[rxType][notNaNind].copy())
 
             source_list.append(src(receiver_list, freq))
 
-- 
2.43.0


From 0c9d1c11a228c056df976338ffed71b7a45e3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:14 +0000
Subject: [PATCH 87/95] fix: Wires could not be pickled

---
 simpeg/maps/_base.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index f7a4e8b..416d24c 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -1148,6 +1148,16 @@ class Wires(object):
 
         self._tuple = namedtuple("Model", [w[0] for w in args])
 
+    def __getstate__(self):
+        # the class of the tuples cannot be pickled
+        state = self.__dict__.copy()
+        del state["_tuple"]
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._tuple = namedtuple("Model", [name for name, _ in self.maps])
+
     def __mul__(self, val):
         assert isinstance(val, np.ndarray)
         split = []
-- 
2.43.0


From 5f51cf568567d24c12de10117ea24242613231f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:49 +0000
Subject: [PATCH 88/95] fix: read_dcip2d_ubc could not read secondary
 potentials in simple format

---
 simpeg/utils/io_utils/io_utils_electromagnetics.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/simpeg/utils/io_utils/io_utils_electromagnetics.py b/simpeg/utils/io_utils/io_utils_electromagnetics.py
index 8e2ad30..6739c81 100644
--- a/simpeg/utils/io_utils/io_utils_electromagnetics.py
+++ b/simpeg/utils/io_utils/io_utils_electromagnetics.py
@@ -311,14 +311,7 @@ def read_dcip2d_ubc(file_name, data_type, format_type):
 
     if format_type == "simple":
         # Load numeric data into an array
-        if data_type == "volt":
-            data_array = np.loadtxt(
-                file_name, comments="!", skiprows=start_index, ndmin=2
-            )
-        else:
-            data_array = np.loadtxt(
-                file_name, comments={"!", "IPTYPE"}, skiprows=start_index, ndmin=2
-            )
+        data_array = np.loadtxt(file_name, comments=["!", "IPTYPE"], ndmin=2)
 
         n_rows = np.shape(data_array)[0]
 
-- 
2.43.0


From 412e2fefb17dab4e7a1d795acb314faaa9c1194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:58 +0000
Subject: [PATCH 89/95] fix: editing synthetic data made without noise also
 edited the clean data

---
 simpeg/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/simulation.py b/simpeg/simulation.py
index bbde7df..68d238a 100644
--- a/simpeg/simulation.py
+++ b/simpeg/simulation.py
@@ -422,7 +422,7 @@ class BaseSimulation(props.HasModel):
             noise = random_num_generator.normal(loc=0, scale=std, size=dclean.shape)
             dobs = dclean + noise
         else:
-            dobs = dclean
+            dobs = dclean.copy()
 
         return SyntheticData(
             survey=self.survey,
-- 
2.43.0


From 43048dc2f2d4f4e245f8cf0e78865b82676766b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:58 +0000
Subject: [PATCH 90/95] fix: setting items of a Data object modified the array
 it was made from

---
 simpeg/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/data.py b/simpeg/data.py
index b461e45..cda6854 100644
--- a/simpeg/data.py
+++ b/simpeg/data.py
@@ -129,9 +129,10 @@ class Data:
 
     @dobs.setter
     def dobs(self, value):
+        # work on a copy: setting items must not modify the array we were given
         self._dobs = validate_ndarray_with_shape(
             "dobs", value, shape=(self.survey.nD,), dtype=(float, complex)
-        )
+        ).copy()
 
     @property
     def relative_error(self):
-- 
2.43.0


From fce6727617c85a44cf89f4df74ee39cb6700e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:45 +0000
Subject: [PATCH 91/95] fix: LinearMap kept a matrix it had refused

---
 simpeg/maps/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 416d24c..bbd998a 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -585,8 +585,9 @@ class LinearMap(IdentityMap):
             )
         if not hasattr(value, "shape"):
             raise TypeError(f"{repr(value)} does not have a shape attribute.")
-        self._A = value
+        # look at the number of columns first: nothing changes when there is none
         self._nP = value.shape[1]
+        self._A = value
         self._shape = value.shape
 
     @property
-- 
2.43.0


From 474aac020b5e98a44a35402668eda6bfa408a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:26 +0000
Subject: [PATCH 92/95] fix: cross reference regularization kept a direction it
 had refused

---
 simpeg/regularization/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/vector.py b/simpeg/regularization/vector.py
index 6039b68..a287439 100644
--- a/simpeg/regularization/vector.py
+++ b/simpeg/regularization/vector.py
@@ -212,7 +212,6 @@ class CrossReferenceRegularization(Smallness, BaseVectorRegularization):
                 value = np.tile(value, (nC, 1))
             else:
                 raise ValueError(f"ref_dir must be shape {(nC, mesh.dim)}")
-        self._ref_dir = value
 
         R0 = sp.diags(value[:, 0])
         R1 = sp.diags(value[:, 1])
@@ -228,6 +227,7 @@ class CrossReferenceRegularization(Smallness, BaseVectorRegularization):
                     [R1, -R0, Z],
                 ]
             )
+        self._ref_dir = value
         self._X = X
 
     def f_m(self, m):
-- 
2.43.0


From 6f74f94e04cc705adaf5b98c419ff40cfdd40186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:47 +0000
Subject: [PATCH 93/95] fix: DC sources accepted an empty list of currents

---
 simpeg/electromagnetics/static/resistivity/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/sources.py b/simpeg/electromagnetics/static/resistivity/sources.py
index ee46681..20247fa 100644
--- a/simpeg/electromagnetics/static/resistivity/sources.py
+++ b/simpeg/electromagnetics/static/resistivity/sources.py
@@ -54,7 +54,7 @@ class BaseSrc(survey.BaseSrc):
     @current.setter
     def current(self, other):
         other = validate_ndarray_with_shape("current", other, shape=("*",), dtype=float)
-        if len(other) > 1 and len(other) != self.location.shape[0]:
+        if len(other) != 1 and len(other) != self.location.shape[0]:
             raise ValueError(
                 "Current must be constant or equal to the number of specified source locations."
                 f" saw {len(other)} current sources and {self.location.shape[0]} locations."
-- 
2.43.0


From 38a6b7a543c99260ef9791669af13e7610b2f91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:49 +0000
Subject: [PATCH 94/95] fix: a refused standard deviation erased the relative
 error

---
 simpeg/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/data.py b/simpeg/data.py
index cda6854..973c431 100644
--- a/simpeg/data.py
+++ b/simpeg/data.py
@@ -260,8 +260,8 @@ class Data:
 
     @standard_deviation.setter
     def standard_deviation(self, value):
-        self.relative_error = np.zeros(self.nD)
         self.noise_floor = value
+        self.relative_error = np.zeros(self.nD)
 
     @property
     def nD(self):
-- 
2.43.0


From 7bfd2956abafc1542a39ae90a96d15dbb82b5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:56 +0000
Subject: [PATCH 95/95] fix: parametric maps kept a slope factor whose slope
 was refused

---
 simpeg/maps/_parametric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 0f8a76c..69b2907 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -1078,8 +1078,9 @@ class BaseParametric(IdentityMap):
 
     @slopeFact.setter
     def slopeFact(self, value):
-        self._slopeFact = validate_float("slopeFact", value, min_val=0.0)
-        self.slope = self._slopeFact / self.mesh.edge_lengths.min()
+        value = validate_float("slopeFact", value, min_val=0.0)
+        self.slope = value / self.mesh.edge_lengths.min()
+        self._slopeFact = value
 
     @property
     def active_cells(self):
-- 
2.43.0

