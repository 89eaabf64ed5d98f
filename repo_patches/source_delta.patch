From a6072b4232677290a2d872a0dabe794ba5a5b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:04 +0000
Subject: [PATCH 01/57] fix: accumulate the KVL/KCL stamps of voltage-defined
 elements

A sense node of a VCVS coinciding with one of its output nodes (or an
element with both terminals on one node) overwrote the +/-1 already
written in the same matrix entry instead of adding to it.
---
 ahkab/dc_analysis.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 60de681..4bc6525 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1029,11 +1029,11 @@ def generate_mna_and_N(circ, verbose=3):
             mna = utilities.expand_matrix(mna, add_a_row=True, add_a_col=True)
             N = utilities.expand_matrix(N, add_a_row=True, add_a_col=False)
             # KCL
-            mna[elem.n1, index] = 1.0
-            mna[elem.n2, index] = -1.0
+            mna[elem.n1, index] += 1.0
+            mna[elem.n2, index] -= 1.0
             # KVL
-            mna[index, elem.n1] = +1.0
-            mna[index, elem.n2] = -1.0
+            mna[index, elem.n1] += 1.0
+            mna[index, elem.n2] -= 1.0
             if isinstance(elem, components.sources.VSource) and not elem.is_timedependent:
                 # corretto, se e' def una parte tempo-variabile ci pensa
                 # mdn_solver a scegliere quella giusta da usare.
@@ -1041,8 +1041,9 @@ def generate_mna_and_N(circ, verbose=3):
             elif isinstance(elem, components.sources.VSource) and elem.is_timedependent:
                 pass  # taken care step by step
             elif isinstance(elem, components.sources.EVSource):
-                mna[index, elem.sn1] = -1.0 * elem.alpha
-                mna[index, elem.sn2] = +1.0 * elem.alpha
+                # accumulate: a sensing node may also be an output node
+                mna[index, elem.sn1] -= elem.alpha
+                mna[index, elem.sn2] += elem.alpha
             elif isinstance(elem, components.Inductor):
                 # N[index,0] = 0 pass, it's already zero
                 pass
-- 
2.43.0


From 859b803aa3b275b799a557912de7953bad64a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:04 +0000
Subject: [PATCH 02/57] fix: a CCVS may precede the element whose current it
 senses

generate_mna_and_N() wrote the transresistance in a column that did not
exist yet, raising an IndexError.
---
 ahkab/dc_analysis.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 4bc6525..ab3ea43 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1048,15 +1048,22 @@ def generate_mna_and_N(circ, verbose=3):
                 # N[index,0] = 0 pass, it's already zero
                 pass
             elif isinstance(elem, components.sources.HVSource):
-                index_source = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes+index_source] = 1.0 * elem.alpha
+                # the sensed element may come later in the netlist, in which
+                # case its column is not there yet: see below
+                pass
             else:
                 print("dc_analysis.py: BUG - found an unknown voltage_def elem.")
                 print(elem)
                 sys.exit(33)
 
     # iterate again for devices that depend on voltage-defined ones.
+    index = n_of_nodes - 1
     for elem in circ:
+        if circuit.is_elem_voltage_defined(elem):
+            index = index + 1
+        if isinstance(elem, components.sources.HVSource):
+            local_i_index = circ.find_vde_index(elem.source_id, verbose=0)
+            mna[index, n_of_nodes + local_i_index] += elem.alpha
         if isinstance(elem, components.sources.FISource):
             local_i_index = circ.find_vde_index(elem.source_id, verbose=0)
             mna[elem.n1, n_of_nodes + local_i_index] = mna[elem.n1, n_of_nodes + local_i_index] + elem.alpha
-- 
2.43.0


From 185b360e25a40a63d1902fb02e340d0799d264bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:44 +0000
Subject: [PATCH 03/57] fix: ac_analysis defaults to a logarithmic sweep when
 sweep_type is None

---
 ahkab/ac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 75aba01..1bc13e5 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -206,7 +206,7 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
         raise ValueError("AC analysis has start > stop")
     if points < 2 and not start == stop:
         raise ValueError("AC analysis has number of points < 2 & start != stop")
-    if sweep_type.upper() == options.ac_log_step or sweep_type is None:
+    if sweep_type is None or sweep_type.upper() == options.ac_log_step:
         omega_iter = utilities.log_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
     elif sweep_type.upper() == options.ac_lin_step:
         omega_iter = utilities.lin_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
-- 
2.43.0


From 282b8e0243f2ad47a1e8cc70d17d7ad07ee9b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:44 +0000
Subject: [PATCH 04/57] fix: diode current and conductance agree (breakdown,
 IKF, RS, AREA, zero bias, temperature)

---
 ahkab/diode.py | 59 +++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 1b31f7a..6ba2610 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -36,7 +36,7 @@ from __future__ import (unicode_literals, absolute_import,
 from math import e as E, isinf, sqrt
 import numpy as np
 
-from scipy.optimize import newton
+from scipy.optimize import brentq, newton
 
 from . import constants
 from . import utilities
@@ -358,9 +358,14 @@ class diode_model(object):
             dev.last_vd = vext
         else:
             vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
-            vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
-                        args=(vext, dev), tol=options.vea, maxiter=500)
-            i = self._get_i(vext-vd)
+            try:
+                vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
+                            args=(vext, dev), tol=options.vea, maxiter=500)
+            except RuntimeError:
+                # the drop over RS is always between 0 and vext
+                vd = brentq(self._obj_irs, min(0, vext), max(0, vext),
+                            args=(vext, dev))
+            i = self._get_i(vext-vd) * dev.AREA
             dev.last_vd = vd
         return i
 
@@ -370,16 +375,7 @@ class diode_model(object):
 
     def _obj_irs_prime(self, x, vext, dev):
         # obj fn derivative for newton
-        # first term
-        ret = 1./self.RS
-        # disable RS
-        RSSAVE = self.RS
-        self.RS = 0
-        # second term
-        ret += self.get_gm(self, 0, (vext-x,), 0, dev)
-        # renable RS
-        self.RS = RSSAVE
-        return ret
+        return 1./self.RS + self._get_gj(vext-x)*dev.AREA
 
     def _safe_exp(self, x):
         return np.exp(x) if x < 70 else np.exp(70) + 10 * x
@@ -387,27 +383,38 @@ class diode_model(object):
     def _get_i(self, v):
         i_fwd= self.IS * (self._safe_exp(v/(self.N * self.VT)) - 1)
         i_rec= self.ISR* (self._safe_exp(v/(self.NR * self.VT)) - 1)
-        i_rev=-self.IS * (self._safe_exp(-(v+self.BV)/(self.NBV *self.VT)) - 1)
+        i_rev=-self.IS * self._safe_exp(-(v+self.BV)/(self.NBV *self.VT))
         k_inj = 1
         if (not isinf(self.IKF)) and (self.IKF>0) and (i_fwd>0):
             k_inj = sqrt(self.IKF/(self.IKF+i_fwd))
         
         return k_inj*i_fwd+i_rec+i_rev
 
+    def _get_gj(self, v):
+        """The derivative of ``_get_i()`` with respect to the junction voltage"""
+        e_fwd = self._safe_exp(v/(self.N*self.VT))
+        g_fwd = self.IS/(self.N*self.VT) * e_fwd
+        g_rec = self.ISR/(self.NR*self.VT) * self._safe_exp(v/(self.NR*self.VT))
+        g_rev = self.IS/(self.NBV*self.VT) * \
+                self._safe_exp(-(v+self.BV)/(self.NBV*self.VT))
+        i_fwd = self.IS*(e_fwd - 1)
+        k_inj = 1
+        if (not isinf(self.IKF)) and (self.IKF>0) and (i_fwd>0):
+            k_inj = sqrt(self.IKF/(self.IKF+i_fwd)) * \
+                    (1 - .5*i_fwd/(self.IKF+i_fwd))
+        return k_inj*g_fwd + g_rec + g_rev
+
     @utilities.memoize
     def get_gm(self, op_index, ports_v, port_index, dev):
         if dev.T != self.T:
             self.set_temperature(dev.T)
         v=ports_v[0]
-        gm = self.IS / (self.N * self.VT) *\
-            self._safe_exp(v / (self.N * self.VT)) +\
-            -self.IS/self.VT * (self._safe_exp(-(v+self.BV)/self.VT)) +\
-            self.ISR / (self.NR * self.VT) *\
-            self._safe_exp(v / (self.NR * self.VT))
-        
-        if self.RS != 0.0:
-            gm = 1. / (self.RS + 1. / (gm + 1e-3*options.gmin))
-        return dev.AREA * gm
+        if not self.RS:
+            return dev.AREA * self._get_gj(v)
+        # the junction sees what RS leaves of the external voltage
+        vj = v - self.RS*self.get_i(self, v, dev)
+        gj = dev.AREA * self._get_gj(vj)
+        return 1. / (self.RS + 1. / (gj + 1e-3*options.gmin))
 
     def __str__(self):
         pass
@@ -420,6 +427,8 @@ class diode_model(object):
                          (self.N*constants.k*T)*
                          (1 - T/self.T))
         self.BV = self.BV - self.TBV*(T - self.T)
-        self.RS = self.RS*(1 + self.TRS*(T - self.T))
+        self.RS = self.RS*(1 + self.TRS*(T - T_DEFAULT))/ \
+                  (1 + self.TRS*(self.T - T_DEFAULT))
+        self.VT = constants.Vth(T)
         self.T = T
 
-- 
2.43.0


From f4c9ddab7b0f719b498746ef49aed0ccc0432598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:44 +0000
Subject: [PATCH 05/57] fix: square-law MOS transconductances are the
 derivatives of the current

---
 ahkab/mosq.py | 60 +++++++++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index ae86b8e..0d1b319 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -251,12 +251,13 @@ class mosq_device(object):
         """
         if self.opdict is None:
             self.opdict = {}
-        if not (self.opdict['state'] == ports_v[0]).all() or 'gmd' not in self.opdict \
+        state = tuple(float(v) for v in ports_v[0])
+        if self.opdict['state'] != state or 'gmd' not in self.opdict \
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
             vds, vgs, _ = ports_v[0]
-            self.opdict['state'] = ports_v[0]
+            self.opdict['state'] = state
             gstamp = self.gstamp(ports_v[0], reduced=False)[1]
             self.opdict['gmd'] = gstamp[0, 0]
             self.opdict['gm'] = gstamp[0, 1]
@@ -378,9 +379,10 @@ class mosq_device(object):
                           (-gmd, -gmg, gmd + gmg + gmb, -gmb),
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
-            stamp = self.mosq_model.T1*stamp*self.mosq_model.T2
-        if (self.opdict['state'] != ports_v[0]).any():
-            self.opdict = {'state':ports_v[0]}
+            stamp = self.mosq_model.T1.dot(stamp).dot(self.mosq_model.T2)
+        state = tuple(float(v) for v in ports_v)
+        if self.opdict['state'] != state:
+            self.opdict = {'state': state}
         self.opdict.update({'gmd': stamp[0, 0]})
         self.opdict.update({'gm': stamp[0, 1]})
         self.opdict.update({'gmb': stamp[0, 3]})
@@ -640,7 +642,7 @@ class mosq_mos_model(object):
         VT = self.get_VT((vds, vgs, vbs), device)
         _, skp = self.get_svt_skp(device)
         if vgs < VT:
-            ids = options.iea * (vgs / VT + vds / VT) / 100
+            ids = self._get_goff(VT) * (vgs + vds)
             if debug:
                 print("OFF: %g" % ids)
         else:
@@ -658,6 +660,19 @@ class mosq_mos_model(object):
 
         return Ids
 
+    def _get_goff(self, VT):
+        """Leakage conductance of the OFF device"""
+        return options.iea / max(abs(VT), .1) / 100
+
+    def _get_gov(self, vds, vov):
+        """Derivative of the normalized ON current wrt the overdrive ``vov``"""
+        if vds < vov - 0.5*self.LAMBDA*vov**2:
+            gov = self.KP * vds
+        else:
+            gov = self.KP * vov * (1 + self.LAMBDA * (vds - vov + 0.25*self.LAMBDA*vov**2)) + \
+                  0.5*self.KP*self.LAMBDA * vov**2 * (0.5*self.LAMBDA*vov - 1)
+        return gov
+
     @utilities.memoize
     def get_gmb(self, device, voltages):
         """Get the bulk-source transconductance
@@ -689,24 +704,12 @@ class mosq_mos_model(object):
         vsqrt2 = max(2*self.PHI, 0.)
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
+        # the bulk acts through the threshold voltage only
         gmb = 0
-        if vgs < VT:
-            pass # gmb = 0
-        else:
-            if vds < vgs - VT:
-                if vsqrt1 > 0:
-                    gmb = self.KP * self.GAMMA * vds * device.W / \
-                          (2 * device.L * vsqrt1 ** .5)
-            else:
-                if vsqrt1 > 0:
-                    gmb += -0.25*self.KP*self.GAMMA*self.LAMBDA*device.W * (vsqrt1 > 0) * \
-                           (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 / \
-                           (device.L * vsqrt1**.5)
-                    gmb += +0.5*self.KP*self.GAMMA*device.W*(self.LAMBDA* \
-                            (self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                            (-self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) \
-                            + vgs - self.VTO) / (device.L * vsqrt1**.5)
-        gmb = self.NPMOS * (1 + skp) * gmb * device.M / device.N
+        if vgs >= VT and vsqrt1 > 0:
+            gmb = self._get_gov(vds, vgs - VT) * device.W / device.L * \
+                  .5 * self.GAMMA / vsqrt1 ** .5
+        gmb = (1 + skp) * gmb * device.M / device.N
         if debug:
             print("gmb %g" % gmb)
         return gmb
@@ -743,7 +746,7 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         if vgs < VT:
-            gmd = options.iea / VT / 100
+            gmd = self._get_goff(VT)
         else:
             if vds < vgs -VT -0.5*self.LAMBDA*(VT - vgs)**2: # correction term disc. due to LAMBDA
                 gmd = self.KP * device.W / device.L * (vgs - vds - VT)
@@ -789,14 +792,9 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         if vgs < VT:
-            gm = options.iea / VT / 100
+            gm = self._get_goff(VT)
         else:
-            if vds < vgs - VT:
-                gm = self.KP * device.W / device.L * vds
-            else:
-                gm = -0.5*self.KP*self.LAMBDA * device.W/device.L * (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 \
-                     +0.5*self.KP * device.W/device.L *(self.LAMBDA*( self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                     (-2 * self.GAMMA * (-vsqrt2**.5 + vsqrt1**.5) + 2*vgs - 2*self.VTO)
+            gm = self._get_gov(vds, vgs - VT) * device.W / device.L
         gm = (1 + skp) * gm * device.M / device.N
         if debug:
             print("gmg %g" % gm)
-- 
2.43.0


From 13224bfb2e11d53aa494ec7dcf37e19cea2bc2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:44 +0000
Subject: [PATCH 06/57] fix: switch transconductance is proportional to the
 output voltage

---
 ahkab/switch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/switch.py b/ahkab/switch.py
index c95cc91..06524de 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -394,7 +394,7 @@ class vswitch_model:
         """Returns the source to output transconductance or d(I)/d(Vsn1-Vsn2)."""
         (vout, vin) = xxx_todo_changeme2
         self._update_status(vin, dev)
-        gm = self.A * self.SLOPE * (math.tanh(self.SLOPE * (self.V - vin)) ** 2 - 1) / (
+        gm = vout * self.A * self.SLOPE * (math.tanh(self.SLOPE * (self.V - vin)) ** 2 - 1) / (
             self.A * math.tanh(self.SLOPE * (self.V - vin)) - self.B) ** 2
         return gm + options.gmin
 
-- 
2.43.0


From 6da69ea3f8ffd1ba9ae2e2c7a26381779d1be594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:36 +0000
Subject: [PATCH 07/57] fix: memoized results follow changes of the device and
 model they belong to

---
 ahkab/utilities.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index ee30470..5e86db8 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -35,7 +35,6 @@ import operator
 
 import numpy as np
 
-from functools import wraps
 
 from . import printing
 from . import py3compat
@@ -716,17 +715,30 @@ def memoize(f):
         a big cache.
 
     """
+    def state(arg):
+        # objects (devices, models) may be modified between two calls: their
+        # present attributes are part of the key, but for the values they
+        # remember from the last evaluation.
+        attrs = getattr(arg, '__dict__', None)
+        if attrs is None:
+            return arg
+        return (arg,) + tuple((k, v) for k, v in sorted(attrs.items())
+                              if k != 'last_vd' and
+                              isinstance(v, (int, float, str, tuple)))
+
     class memodict(collections.OrderedDict):
-        __slots__ = ()
-        @wraps(f)
-        def __getitem__(self, *key):
-            return dict.__getitem__(self, key)
-        def __missing__(self, key):
-            ret = self[key] = f(*key)
+        def __call__(self, *args):
+            key = tuple(state(arg) for arg in args)
+            if key in self:
+                return self[key]
+            ret = self[key] = f(*args)
             # set options.cache_len to None to disable any size limit.
             if options.cache_len is not None and len(self) > options.cache_len:
-                self.popitem() #FIFO pop
+                self.popitem(last=False) #FIFO pop
             return ret
-    return memodict().__getitem__
-
 
+    # not a plain function: no binding takes place when it is looked up
+    # through an instance
+    cache = memodict()
+    cache.__doc__ = f.__doc__
+    return cache
-- 
2.43.0


From 6d885b7c5e892a10f6f64f5a956b86d2176bf234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 08/57] fix: EKV normalized current does not depend on the
 previous evaluation

---
 ahkab/ekv.py | 45 ++++++++++-----------------------------------
 1 file changed, 10 insertions(+), 35 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 2b8cdff..d3d12e4 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -77,7 +77,6 @@ from __future__ import (unicode_literals, absolute_import,
 import scipy, scipy.optimize
 import math
 
-from scipy.optimize import newton
 
 from . import constants
 from . import options
@@ -711,45 +710,21 @@ class ekv_mos_model:
 
         The Newton Method is used inside.
         """
-        # starting guess for Newton's Method.
-        if iguess is None:
-            iguess = 1.0
         # sanity checks
         if math.isnan(vsmall):
             raise ValueError("Attempted to calculate a current corresponding to a NaN voltage.")
         if not ip_abs_err > 0:
             raise ValueError("The normalized current absolute error has been set to a negative value.")
-        ismall = newton(self._vsmall_obj, iguess, fprime=self._vsmall_obj_prime,
-                        fprime2=self._vsmall_obj_prime2, args=(vsmall,),
-                        tol=1.48e-8, maxiter=500)
-        #print(ismall, max(ismall, 0))
-        return max(ismall, 10*utilities.EPS)
-
-    def _vsmall_obj(self, x, vsmall):
-        """Returns :math:`e` according to the equations:
-            q = sqrt(.25 + x) - .5
-            e = ln(q) + 2q - vsmall
-        """
-        if x > 0:
-            return math.log(math.sqrt(.25 + x) - 0.5) + 2.0 * math.sqrt(.25 + x) - 1.0 - vsmall
-        else:
-            return x - vsmall
-
-    def _vsmall_obj_prime(self, x, vsmall):
-        """The Newton algorithm in get_ismall(...) requires the evaluation of the
-        first derivative of the fixed point function:
-            dv/di = 1.0/(sqrt(.25+i)-.5) * .5/sqrt(.25 + i) + 1/sqrt(.25 + i)
-        This is provided by this module.
-        """
-        if x < utilities.EPS:
-            x = 10*utilities.EPS
-        return 0.5/(math.sqrt(.25 + x) - .5)/math.sqrt(.25 + x) + \
-               1.0/math.sqrt(.25 + x)
-
-    def _vsmall_obj_prime2(self, x, vsmall):
-        if x < utilities.EPS:
-            x = 10*utilities.EPS
-        return -1./(4*(x + 0.25)*(math.sqrt(x + 0.25) - 0.5)**2) - 1./(2.*(x + 0.25)**(3./2.)) - 1./(4.*(x + 0.25)**(3./2.)*(math.sqrt(x + 0.25) - 0.5))
+        # In the unknown u = ln(q), the function u + 2*exp(u) - v is convex and
+        # increasing: from the right of its zero, the iteration is monotonic.
+        u = math.log(.5*vsmall) if vsmall > 2. else vsmall
+        for _ in range(500):
+            expu = math.exp(u)
+            du = (u + 2.*expu - vsmall)/(1. + 2.*expu)
+            u = u - du
+            if abs(du) <= 1e-9:
+                break
+        return max(self.qsmall2ismall(math.exp(u)), 10*utilities.EPS)
 
     def get_vsmall(self, ismall, verbose=3):
         """Returns v according to the equations:
-- 
2.43.0


From faaa63e9f1419bfe02d08bfb6d7768df1fa98d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:53 +0000
Subject: [PATCH 09/57] fix: EKV conductances scale with the device
 multiplicity, PMOS slope factor

---
 ahkab/ekv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index d3d12e4..aff0bd1 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -674,9 +674,9 @@ class ekv_mos_model:
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         if CS_FACTOR == +1:
-            gms = -1.0 * self.scaling.Gs * qf
+            gms = -1.0 * self.scaling.Gs * device.M / device.N * qf
         elif CS_FACTOR == -1:
-            gms = -self.scaling.Gs * qr
+            gms = -self.scaling.Gs * device.M / device.N * qr
         return gms
 
     def get_gmd(self, device, xxx_todo_changeme3, opdict=None, debug=False):
@@ -685,18 +685,18 @@ class ekv_mos_model:
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         if CS_FACTOR == +1:
-            gmd = self.scaling.Gs * qr
+            gmd = self.scaling.Gs * device.M / device.N * qr
         elif CS_FACTOR == -1:
-            gmd = self.scaling.Gs * qf
+            gmd = self.scaling.Gs * device.M / device.N * qf
         return gmd
 
     def get_gmg(self, device, xxx_todo_changeme4, opdict=None, debug=False):
         """Returns the gate-bulk transconductance or d(IDS)/d(VG-VB)."""
         (vd, vg, vs) = xxx_todo_changeme4
-        VP, nv, nq = self.get_vp_nv_nq(float(vg))
+        VP, nv, nq = self.get_vp_nv_nq(float(vg) * self.NPMOS)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
-        gmg = CS_FACTOR * self.scaling.Gs * (qf - qr) / nv
+        gmg = CS_FACTOR * self.scaling.Gs * device.M / device.N * (qf - qr) / nv
         return gmg
 
     def get_ismall(self, vsmall, ip_abs_err, iguess=None, debug=False):
-- 
2.43.0


From 9926a7a863f3b9f0193bc1669446fe1f8005ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:31 +0000
Subject: [PATCH 10/57] fix: nonlinear devices with both terminals grounded or
 on one node

---
 ahkab/dc_analysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index ab3ea43..619c488 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -856,9 +856,12 @@ def _update_J_and_Tx(J, Tx, x, elem, time):
             v_dports.append(v)
         if hasattr(elem, 'gstamp') and hasattr(elem, 'istamp'):
             iis, gs = elem.gstamp(v_dports, time)
-            J[iis] += gs.reshape(-1)
+            if len(iis):
+                J[iis] += gs.reshape(-1)
             iis, i = elem.istamp(v_dports, time)
-            Tx[iis] += i.reshape(-1)
+            if len(iis):
+                # both terminals may be on the same node: accumulate
+                np.add.at(Tx, iis, i.reshape(-1))
             continue
         if n1 or n2:
             iel = elem.i(index, v_dports, time)
-- 
2.43.0


From 3ba64710cb95e8df939457c0924e0e96c3363a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:39 +0000
Subject: [PATCH 11/57] fix: gmin and source stepping end on the original
 problem

---
 ahkab/dc_analysis.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 619c488..4f0d69f 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -252,6 +252,10 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         standard_solving, gmin_stepping,
         source_stepping, verbose)
 
+    if not (standard_solving["enabled"] or gmin_stepping["enabled"] or source_stepping["enabled"]):
+        printing.print_general_error("All the solution methods are disabled.")
+        return (None, None, False, tot_iterations)
+
     convergence_by_node = None
     printing.print_info_line(("Solving... ", 3), verbose, print_nl=False)
 
@@ -260,12 +264,10 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
             mna_to_pass = mna + Gmin
             N_to_pass = Ndc + Ntran * (Ntran is not None)
         elif gmin_stepping["enabled"]:
-            # print "gmin index:", str(gmin_stepping["index"])+", gmin:", str(
-            # 10**(gmin_stepping["factors"][gmin_stepping["index"]]))
             printing.print_info_line(
-                ("Setting Gmin to: " + str(10 ** gmin_stepping["factors"][gmin_stepping["index"]]), 6), verbose)
+                ("Setting Gmin to: " + str(gmin_stepping["factors"][gmin_stepping["index"]]), 6), verbose)
             mna_to_pass = build_gmin_matrix(
-                circ, 10 ** (gmin_stepping["factors"][gmin_stepping["index"]]), mna_size, verbose) + mna
+                circ, gmin_stepping["factors"][gmin_stepping["index"]], mna_size, verbose) + mna + Gmin
             N_to_pass = Ndc + Ntran * (Ntran is not None)
         elif source_stepping["enabled"]:
             printing.print_info_line(
@@ -276,7 +278,8 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
             (x, error, converged, n_iter, convergence_by_node) = mdn_solver(x, mna_to_pass, circ, T=N_to_pass,
                                                                             nv=nv, print_steps=(verbose > 0), locked_nodes=locked_nodes, time=time, MAXIT=MAXIT, debug=(verbose == 6))
             tot_iterations += n_iter
-        except np.linalg.linalg.LinAlgError:
+        except (np.linalg.linalg.LinAlgError, RuntimeError):
+            # splu() reports a singular matrix with a RuntimeError
             n_iter = 0
             converged = False
             print("failed.")
@@ -309,10 +312,11 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         else:
             printing.print_info_line(
                 ("[%d iterations]" % (n_iter,), 6), verbose)
-            if (source_stepping["enabled"] and source_stepping["index"] != 9):
+            # the last step of each method is the original problem
+            if (source_stepping["enabled"] and source_stepping["index"] < len(source_stepping["factors"]) - 1):
                 converged = False
                 source_stepping["index"] = source_stepping["index"] + 1
-            elif (gmin_stepping["enabled"] and gmin_stepping["index"] != 9):
+            elif (gmin_stepping["enabled"] and gmin_stepping["index"] < len(gmin_stepping["factors"]) - 1):
                 gmin_stepping["index"] = gmin_stepping["index"] + 1
                 converged = False
             else:
@@ -449,12 +453,13 @@ def get_solve_methods():
         The dictionaries contain the options and the status of the methods.
     """
     standard_solving = {"enabled": False, "failed": False}
-    g_indices = list(range(int(numpy.log(options.gmin)), 0))
+    g_indices = list(range(int(numpy.log10(options.gmin)), 0))
     g_indices.reverse()
-    gmin_stepping = {"enabled": False, "failed":
-                     False, "factors": g_indices, "index": 0}
+    # the last step adds nothing to the original problem
+    gmin_stepping = {"enabled": False, "failed": False, "factors":
+                     [10. ** i for i in g_indices] + [0.], "index": 0}
     source_stepping = {"enabled": False, "failed": False, "factors": (
-        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9), "index": 0}
+        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9, 1.), "index": 0}
     return standard_solving, gmin_stepping, source_stepping
 
 
-- 
2.43.0


From 930d9efeb5978e050ff410d79029c8e0ba018ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:56 +0000
Subject: [PATCH 12/57] fix: DC sweeps visit the requested grid and always
 restore the source

---
 ahkab/dc_analysis.py | 57 +++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 4f0d69f..480aed9 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -514,12 +514,19 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     if (stop - start) * step < 0:
         raise ValueError("Unbonded stepping in DC analysis.")
 
-    points = (stop - start) / step + 1
+    # number of points, the rounding errors do not add or lose one
+    points = (stop - start) / step + 1 if stop != start else 1
+    if abs(points - round(points)) < 1e-6:
+        points = int(round(points))
     sweep_type = sweep_type.upper()[:3]
 
     if sweep_type == options.dc_log_step:
         dc_iter = utilities.log_axis_iterator(start, stop, points=points)
     elif sweep_type == options.dc_lin_step:
+        if points != int(points):
+            # stop is not on the grid
+            points = int(points)
+            stop = start + step*(points - 1)
         dc_iter = utilities.lin_axis_iterator(start, stop, points=points)
     else:
         printing.print_general_error("Unknown sweep type: %s" % (sweep_type,))
@@ -565,38 +572,34 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
 
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
     index = 0
-    for sweep_value in dc_iter:
-        index = index + 1
-        if isinstance(source_elem, components.sources.VSource):
-            source_elem.dc_value = sweep_value
-        else:
+    solved = False
+    try:
+        for sweep_value in dc_iter:
+            index = index + 1
             source_elem.dc_value = sweep_value
-        # silently calculate the op
-        x = op_analysis(circ, x0=x, guess=guess, verbose=0)
-        if x is None:
-            tick.hide(verbose > 2)
-            if not options.dc_sweep_skip_allowed:
-                print("Could't solve the circuit for sweep value:", start + index * step)
-                solved = False
-                break
-            else:
-                print("Skipping sweep value:", start + index * step)
-                continue
-        solved = True
-        sol.add_op(sweep_value, x)
-
-        tick.step()
+            # silently calculate the op
+            x = op_analysis(circ, x0=x, guess=guess, verbose=0)
+            if x is None:
+                tick.hide(verbose > 2)
+                if not options.dc_sweep_skip_allowed:
+                    print("Could't solve the circuit for sweep value:", start + index * step)
+                    solved = False
+                    break
+                else:
+                    print("Skipping sweep value:", start + index * step)
+                    continue
+            solved = True
+            sol.add_op(sweep_value, x)
+
+            tick.step()
+    finally:
+        # clean up
+        source_elem.dc_value = initial_value
 
     tick.hide(verbose > 2)
     if solved:
         printing.print_info_line(("done", 3), verbose)
 
-    # clean up
-    if isinstance(source_elem, components.sources.VSource):
-        source_elem.dc_value = initial_value
-    else:
-        source_elem.dc_value = initial_value
-
     return sol if solved else None
 
 
-- 
2.43.0


From 3150e42e411510a5b31a39682e17174b8935b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:56 +0000
Subject: [PATCH 13/57] fix: DC guess: nodes without a guess, ports on a single
 node

---
 ahkab/dc_guess.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ahkab/dc_guess.py b/ahkab/dc_guess.py
index e300003..37fdfb2 100644
--- a/ahkab/dc_guess.py
+++ b/ahkab/dc_guess.py
@@ -92,8 +92,7 @@ def get_dc_guess(circ, verbose=3):
             if not one_element_with_dc_guess_found:
                 one_element_with_dc_guess_found = True
             if elem.is_nonlinear:
-                port_index = 0
-                for (n1, n2) in elem.ports:
+                for port_index, (n1, n2) in enumerate(elem.ports):
                     if n1 == n2:
                         continue
                     if index:
@@ -104,7 +103,6 @@ def get_dc_guess(circ, verbose=3):
                     M[index, n1] = +1
                     M[index, n2] = -1
                     T[index] = elem.dc_guess[port_index]
-                    port_index = port_index + 1
                     index = index + 1
             else:
                 if elem.n1 == elem.n2:
@@ -209,7 +207,7 @@ def get_dc_guess(circ, verbose=3):
     # 2. Append to each vector of guesses the values for currents in
     #    voltage defined elem.
     # Both them are set to 0
-    for index in removed_index:
+    for index in reversed(removed_index):
         Rp = np.concatenate((np.concatenate((Rp[:index, 0].reshape((-1, 1)),
                                              np.zeros((1, 1))), axis=0),
                              Rp[index:, 0].reshape((-1, 1))), axis=0)
-- 
2.43.0


From e4f9b66ea59329ec7373c03166fab029555b2ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:11 +0000
Subject: [PATCH 14/57] fix: element initial conditions of grounded elements,
 of zero value and of chained elements

---
 ahkab/dc_analysis.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 480aed9..c1c5a3e 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1187,15 +1187,31 @@ def modify_x0_for_ic(circ, x0):
     voltage_defined_elements = [
         x for x in circ if circuit.is_elem_voltage_defined(x)]
 
-    # setup voltages this may _not_ work properly
-    for elem in circ:
-        if isinstance(elem, components.Capacitor) and elem.ic or \
-                isinstance(elem, diode.diode) and elem.ic:
-            x0[elem.n1 - 1, 0] = x0[elem.n2 - 1, 0] + elem.ic
+    # setup the voltages, starting from the nodes with a path to ground through
+    # elements with an IC: their voltages are not to be moved again afterwards
+    pending = [elem for elem in circ
+               if isinstance(elem, (components.Capacitor, diode.diode)) and
+               elem.ic is not None]
+    done = set([0])
+    while pending:
+        ready = [elem for elem in pending
+                 if elem.n1 in done or elem.n2 in done]
+        if not ready:
+            done.add(pending[0].n2)
+            continue
+        elem = ready[0]
+        pending.remove(elem)
+        if elem.n1 not in done:
+            ref = x0[elem.n2 - 1, 0] if elem.n2 else 0.
+            x0[elem.n1 - 1, 0] = ref + elem.ic
+        elif elem.n2 not in done:
+            ref = x0[elem.n1 - 1, 0] if elem.n1 else 0.
+            x0[elem.n2 - 1, 0] = ref - elem.ic
+        done.update((elem.n1, elem.n2))
 
     # setup the currents
     for elem in voltage_defined_elements:
-        if isinstance(elem, components.Inductor) and elem.ic:
+        if isinstance(elem, components.Inductor) and elem.ic is not None:
             x0[nv - 1 + voltage_defined_elements.index(elem), 0] = elem.ic
 
     if return_obj:
-- 
2.43.0


From 1e96d4e464e2b01988c0783453200d8d2cc7b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:11 +0000
Subject: [PATCH 15/57] fix: the initial condition of a diode is a valid DC
 guess

---
 ahkab/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 6ba2610..e86d000 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -92,7 +92,7 @@ class diode(object):
 
         if ic is not None:  # fixme
             print("(W): ic support in diodes is very experimental.")
-            self.dc_guess = ic
+            self.dc_guess = [ic]
         self.ic = ic
         self.off = off
         if self.off:
-- 
2.43.0


From 76c3bd73fddeb15268d3a9aa9df1b9c79b6a19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 16/57] fix: brute-force PSS works with dense matrices and with
 devices that provide stamps

---
 ahkab/bfpss.py | 56 +++++++++-----------------------------------------
 1 file changed, 10 insertions(+), 46 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 5275eae..68244b2 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -158,9 +158,9 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
     nv_1 = circ.get_nodes_number() - 1
     ni = n_of_var - nv_1
     for i in range(points):
-        nv_indices += (i * mna.shape[0] * np.ones(nv_1) + \
+        nv_indices += (i * mna.shape[0] + \
                       np.arange(nv_1)).tolist()
-        ni_indices += (i * mna.shape[0] * np.ones(ni) + \
+        ni_indices += (i * mna.shape[0] + \
                       np.arange(nv_1, n_of_var)).tolist()
 
     converged = False
@@ -186,54 +186,18 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
             T[:, 0] = 0
             td[:, 0] = 0
         for index in range(1, points):
+            # build all dT(xn)/dxn (stored in J) and T(x)
+            i1, i2 = index * n_of_var, (index + 1) * n_of_var
+            Jx = np.zeros((n_of_var, n_of_var))
+            Tx = np.zeros((n_of_var, 1))
             for elem in circ:
-                # build all dT(xn)/dxn (stored in J) and T(x)
                 if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    for opindex in range(len(oports)):
-                        dports = elem.get_drive_ports(opindex)
-                        v_ports = []
-                        for dpindex in range(len(dports)):
-                            dn1, dn2 = dports[dpindex]
-                            # build v: remember we trashed the
-                            # 0 row and 0 col of mna -> -1
-                            v = 0
-                            if dn1:
-                                v = v + x[index * n_of_var + dn1 - 1, 0]
-                            if dn2:
-                                v = v - x[index * n_of_var + dn2 - 1, 0]
-                            v_ports.append(v)
-                        # all drive ports are ready.
-                        n1, n2 = oports[opindex][0], oports[opindex][1]
-                        if n1:
-                            T[index * n_of_var + n1 - 1, 0] = T[index * n_of_var + n1 - 1, 0] + \
-                                                              elem.i(opindex, v_ports)
-                        if n2:
-                            T[index * n_of_var + n2 - 1, 0] = T[index * n_of_var + n2 - 1, 0] - \
-                                                              elem.i(opindex, v_ports)
-                        for dpindex in range(len(dports)):
-                            dn1, dn2 = dports[dpindex]
-                            if n1:
-                                if dn1:
-                                    J[index * n_of_var + n1 - 1, index * n_of_var + dn1 - 1] = \
-                                        J[index * n_of_var + n1 - 1, index * n_of_var + dn1 - 1] + \
-                                            elem.g(opindex, v_ports, dpindex)
-                                if dn2:
-                                    J[index * n_of_var + n1 - 1, index * n_of_var + dn2 - 1] =\
-                                        J[index * n_of_var + n1 - 1, index * n_of_var + dn2 - 1] - 1.0 * \
-                                            elem.g(opindex, v_ports, dpindex)
-                            if n2:
-                                if dn1:
-                                    J[index * n_of_var + n2 - 1, index * n_of_var + dn1 - 1] = \
-                                        J[index * n_of_var + n2 - 1, index * n_of_var + dn1 - 1] - 1.0 * \
-                                            elem.g(opindex, v_ports, dpindex)
-                                if dn2:
-                                    J[index * n_of_var + n2 - 1, index * n_of_var + dn2 - 1] =\
-                                        J[index * n_of_var + n2 - 1, index * n_of_var + dn2 - 1] + \
-                                            elem.g(opindex, v_ports, dpindex)
+                    dc_analysis._update_J_and_Tx(Jx, Tx, x[i1:i2, :], elem, 0.)
+            J[i1:i2, i1:i2] = Jx
+            T[i1:i2, :] = Tx
 
         J = J + CMAT
-        residuo = CMAT*x + T + Tf + Tt
+        residuo = CMAT.dot(x) + T + Tf + Tt
         if sparse:
             J = scipy.sparse.csc_matrix(J)
             lu = scipy.sparse.linalg.splu(J)
-- 
2.43.0


From c98355f97709ff9699f0168c046b16088739324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 17/57] fix: shooting works with devices that provide stamps

---
 ahkab/shooting.py | 38 +++-----------------------------------
 1 file changed, 3 insertions(+), 35 deletions(-)

diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 5cbf928..583d98a 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -313,44 +313,12 @@ def _get_variable_MAass_and_Tass(circ, xi, xi_minus_1, M, D, step, n_of_var):
     J = np.zeros((n_of_var, n_of_var))
     (C1, C0) = implicit_euler.get_df_coeff(step)
 
+    Tx = np.zeros((n_of_var, 1))
     for elem in circ:
         # build all dT(xn)/dxn (stored in J) and T(x)
         if elem.is_nonlinear:
-            output_ports = elem.get_output_ports()
-            for index in range(len(output_ports)):
-                n1, n2 = output_ports[index]
-                ports = elem.get_drive_ports(index)
-                v_ports = []
-                for port in ports:
-                    v = 0  # build v: remember we trashed the 0 row and 0 col of mna -> -1
-                    if port[0]:
-                        v = v + xi[port[0] - 1]
-                    if port[1]:
-                        v = v - xi[port[1] - 1]
-                    v_ports.append(v)
-                if n1:
-                    Tass[n1 - 1] = Tass[n1 - 1] + elem.i(index, v_ports)
-                if n2:
-                    Tass[n2 - 1] = Tass[n2 - 1] - elem.i(index, v_ports)
-                for pindex in range(len(ports)):
-                    if n1:
-                        if ports[pindex][0]:
-                            J[n1 - 1, ports[pindex][0] - 1] = \
-                                J[n1 - 1, ports[pindex][0] - 1] + \
-                                elem.g(index, v_ports, pindex)
-                        if ports[pindex][1]:
-                            J[n1 - 1, ports[pindex][1] - 1] = \
-                                J[n1 - 1, ports[pindex][1] - 1] - \
-                                elem.g(index, v_ports, pindex)
-                    if n2:
-                        if ports[pindex][0]:
-                            J[n2 - 1, ports[pindex][0] - 1] = \
-                                J[n2 - 1, ports[pindex][0] - 1] - \
-                                elem.g(index, v_ports, pindex)
-                        if ports[pindex][1]:
-                            J[n2 - 1, ports[pindex][1] - 1] = \
-                                J[n2 - 1, ports[pindex][1] - 1] + \
-                                elem.g(index, v_ports, pindex)
+            dc_analysis._update_J_and_Tx(J, Tx, xi.reshape(-1, 1), elem, 0.)
+    Tass = Tass + Tx[:, 0]
 
     Tass = Tass + np.dot(D*C1, xi) + np.dot(M, xi) + np.dot(D * C0, xi_minus_1)
 
-- 
2.43.0


From 2b8115cbf5d8f032608fe2e29ce7f0ec72f93b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:57 +0000
Subject: [PATCH 18/57] fix: pole-zero analysis of nonlinear circuits
 linearises them again

---
 ahkab/pz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 0c64865..21ac595 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -63,6 +63,7 @@ import copy
 import numpy as np
 
 from . import circuit
+from . import ac
 from . import dc_analysis
 from . import components
 from . import transient
@@ -210,7 +211,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                     # hopefully x0 is an ndarray!
                 printing.print_info_line(("Using the supplied op as " +
                                       "linearization point.", 5), verbose)
-            J, _ = dc_analysis.build_J_and_Tx(x0, MNA.shape[0]-1, mc, time=0., sparse=False)
+            J = ac._generate_J(x0, mc, MNA.shape[0] - 1)
             MNA[1:, 1:] += J
     D = transient.generate_D(mc, MNA[1:, 1:].shape)
     MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
-- 
2.43.0


From 275551db53f486e3f0cf0faf48810d23d90fdc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:47 +0000
Subject: [PATCH 19/57] fix: the failure of the last solving method ends the
 operating point search

---
 ahkab/dc_analysis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index c1c5a3e..7efb3c7 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -426,9 +426,13 @@ def more_solve_methods_available(standard_solving, gmin_stepping, source_steppin
         The answer.
     """
 
-    if (standard_solving["failed"] or not options.use_standard_solve_method) and \
-       (gmin_stepping["failed"] or not options.use_gmin_stepping) and \
-       (source_stepping["failed"] or not options.use_source_stepping):
+    # the method that is enabled is the one in use: it's not available for a retry
+    if (standard_solving["failed"] or standard_solving["enabled"] or
+        not options.use_standard_solve_method) and \
+       (gmin_stepping["failed"] or gmin_stepping["enabled"] or
+        not options.use_gmin_stepping) and \
+       (source_stepping["failed"] or source_stepping["enabled"] or
+        not options.use_source_stepping):
         return False
     else:
         return True
-- 
2.43.0


From e1ca8ad427adbc81b749cdeff404bfda6ef150fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:30 +0000
Subject: [PATCH 20/57] fix: operating point power of controlled sources
 (sensing nodes, any sensed element)

---
 ahkab/results.py | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 7e7072c..5440c1c 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -339,7 +339,6 @@ class op_solution(solution, _mutable_data):
     def _get_elements_op(self, circ, x):
         """Returns"""
         tot_power = 0
-        i_index = 0
         nv_1 = circ.get_nodes_number() - 1
         op_info = {}
         op_keys = {}
@@ -391,8 +390,8 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 vs = 0
-                vs = vs + x[elem.n1-1] if elem.sn1 != 0 else vs
-                vs = vs - x[elem.n2-1] if elem.sn2 != 0 else vs
+                vs = vs + x[elem.sn1-1] if elem.sn1 != 0 else vs
+                vs = vs - x[elem.sn2-1] if elem.sn2 != 0 else vs
                 tot_power = tot_power - v*vs*elem.alpha
             elif isinstance(elem, components.sources.ISource):
                 v = 0
@@ -400,40 +399,23 @@ class op_solution(solution, _mutable_data):
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 tot_power = tot_power - v*elem.I()
             elif isinstance(elem, components.sources.VSource) or \
-                 isinstance(elem, components.sources.EVSource):
+                 isinstance(elem, components.sources.EVSource) or \
+                 isinstance(elem, components.sources.HVSource):
                 v = 0
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
+                i_index = circ.find_vde_index(elem.part_id)
                 tot_power = tot_power - v*x[nv_1 + i_index, 0]
-                i_index = i_index + 1
             elif isinstance(elem, components.sources.FISource):
-                local_i_index = 0
-                found_source = False
-                for e in circ:
-                    if circuit.is_elem_voltage_defined(e):
-                        if isinstance(e, components.sources.VSource) and e.part_id.lower() == elem.source_id.lower():
-                            found_source = True
-                            break
-                        else:
-                            local_i_index += 1
-                if not found_source:
+                try:
+                    local_i_index = circ.find_vde_index(elem.source_id)
+                except ValueError:
                     raise RuntimeError("Sensing voltage source %s for %s not found. BUG!" %
                                        (elem.source_id, elem.part_id))
                 v = 0.
                 v = v + x[elem.n1 - 1] if elem.n1 != 0 else v
                 v = v - x[elem.n2 - 1] if elem.n2 != 0 else v
                 tot_power = tot_power - v * elem.alpha * x[nv_1 + local_i_index, 0]
-            elif isinstance(elem, components.sources.HVSource):
-                try:
-                    local_i_index = circ.find_vde_index(elem.source_id)
-                except ValueError:
-                    raise RuntimeError("Sensing voltage source %s for %s not found. BUG!" %
-                                       (elem.source_id, elem.part_id))
-                local_i_index2 = circ.find_vde_index(elem.part_id)
-                tot_power = tot_power - elem.alpha*x[nv_1 + local_i_index, 0]* \
-                                        x[nv_1 + local_i_index2, 0]
-            elif circuit.is_elem_voltage_defined(elem):
-                i_index = i_index + 1
 
         #op_info.append("TOTAL POWER: %e W\n" % (tot_power,))
         return op_keys, op_info, tot_power
-- 
2.43.0


From 80dddb96261cb39c4c045ec1925617801f3f095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 21/57] fix: step from a period up to rounding, logarithmic
 grids reject a single point over a range

---
 ahkab/utilities.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index 5e86db8..a13a2ff 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -263,7 +263,13 @@ class log_axis_iterator:
     """
 
     def __init__(self, min, max, points):
-        self.inc = 10.**((np.log10(max) - np.log10(min))/(points - 1))
+        if points < 1 or (points < 2 and min != max):
+            raise ValueError("Logarithmic iterator from %g to %g with %d points." %
+                             (min, max, points))
+        if points > 1:
+            self.inc = 10.0**((np.log10(max) - np.log10(min)) / (points - 1))
+        else:
+            self.inc = 1.0
         self.max = max
         self.min = min
         self.index = 0
@@ -582,12 +588,14 @@ def check_step_and_points(step=None, points=None, period=None,
         step = float(period)/(points - 1)
     else:
         points = float(period)/step
-        if points % 1 != 0:
-            step = step + (step * (points % 1)) / int(points)
-            points = int(float(period)/step)
-            printing.print_warning("adapted step is %g" % (step,))
+        if abs(points - round(points)) < 1e-6:
+            # the period is a multiple of the step, but for the rounding errors
+            points = int(round(points))
+            step = float(period)/points
         else:
             points = int(points)
+            step = float(period)/points
+            printing.print_warning("adapted step is %g" % (step,))
         # 0 - N where xN is in reality the first point of the second period!!
         points = points + 1
 
-- 
2.43.0


From 249e932cdaaca87458d554b6c0d298e89a7fd9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:39 +0000
Subject: [PATCH 22/57] fix: Gear and fixed-step implicit Euler transients run
 on Python 3 and current scipy

---
 ahkab/gear.py      | 2 +-
 ahkab/transient.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/gear.py b/ahkab/gear.py
index b9b0962..cf1c58c 100644
--- a/ahkab/gear.py
+++ b/ahkab/gear.py
@@ -85,7 +85,7 @@ from __future__ import (unicode_literals, absolute_import,
 import numpy as np
 import sys
 
-from scipy.misc import factorial
+from scipy.special import factorial
 
 from . import printing
 
diff --git a/ahkab/transient.py b/ahkab/transient.py
index 14f8ce8..d48fc11 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -256,7 +256,9 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
         buffer_len += 1
         thebuffer = dfbuffer(length=buffer_len, width=3)
     else:
-        thebuffer = dfbuffer(length=max(max_x, max_dx) + 1, width=3)
+        thebuffer = dfbuffer(length=max([mx for mx in (max_x, max_dx)
+                                         if mx is not None]) + 1,
+                             width=3)
     thebuffer.add((tstart, x0, None)) #setup the first values
     printing.print_info_line(("done.", 5), verbose) #FIXME
 
-- 
2.43.0


From 8ffad4b01e2e742d897b8025ee3e6cc9a10ed1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:15 +0000
Subject: [PATCH 23/57] fix: transient steps always advance the time

---
 ahkab/transient.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index d48fc11..ccb6b67 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -459,14 +459,15 @@ def check_step(tstep, time, tstop, HMAX):
     tstep : float
         The step provided if it passes the tests, a *shortened* step otherwise.
 
-    :raises ValueError: When the step is shorter than ``option.hmin``.
+    :raises ValueError: When the step is shorter than ``option.hmin`` or too short
+        to advance the time.
 
     """
     if tstep > HMAX:
         tstep = HMAX
     if tstop - time < tstep:
         tstep = tstop - time
-    elif tstep < options.hmin:
+    elif tstep < options.hmin or time + tstep == time:
         printing.print_general_error("Step size too small: "+str(tstep))
         raise ValueError("Step size too small")
     return tstep
-- 
2.43.0


From b7b84089ae01b17d7dd9ae9add2e882c9bc58bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:24 +0000
Subject: [PATCH 24/57] fix: pulse waveforms repeat from the end of the delay

---
 ahkab/time_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index bd53e69..bcf38a7 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -440,7 +440,9 @@ class pulse(object):
         """Evaluate the pulse function at the given time."""
         if time is None:
             time = 0
-        time = time - self.per * int(time / self.per)
+        if time > self.td:
+            # the waveform repeats every per seconds, starting from td
+            time = time - self.per * int((time - self.td) / self.per)
         if time < self.td:
             return self.v1
         elif time < self.td + self.tr:
-- 
2.43.0


From e34ab8147c5f47e71aa41e742494448382363855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:24 +0000
Subject: [PATCH 25/57] fix: PWL waveforms hold their first and last values

---
 ahkab/time_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index bcf38a7..2151631 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -805,7 +805,8 @@ class pwl(object):
             self.repeat_time = 0
         self.td = td
         self._type = "V"
-        self._f = InterpolatedUnivariateSpline(self.x, self.y, k=1)
+        self._f = InterpolatedUnivariateSpline(self.x, self.y, k=1,
+                                               ext=3) # hold the end values
 
     def __call__(self, time):
         """Evaluate the PWL function at the given time."""
-- 
2.43.0


From ed3e5c64a1dcb9d45c96d5c9ccb48701d95ce72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 26/57] fix: removing an element keeps the nodes and couplings
 other elements use, and only those

---
 ahkab/circuit.py | 75 ++++++++++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 41 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index eead870..8346e60 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -119,7 +119,6 @@ Reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
-import copy
 import math
 
 from . import components
@@ -1031,47 +1030,17 @@ class Circuit(list):
             # we got the element
             elem = elem_or_id
         self.remove(elem)
-        nodes = []
-        if hasattr(elem, 'n1') and elem.n1 != 0:
-            nodes = nodes + [elem.n1]
-        if hasattr(elem, 'n2') and elem.n2 != 0 and elem.n2 not in nodes:
-            nodes = nodes + [elem.n2]
-        if elem.is_nonlinear:
-            for n1, n2 in elem.ports:
-                if n1 != 0 and n1 not in nodes:
-                    nodes = nodes + [n1]
-                if n2 != 0 and n2 not in nodes:
-                    nodes = nodes + [n2]
-        # check if then nodes are needed by other elements
-        remove_list = copy.copy(nodes)
-        for n in nodes:
+        if isinstance(elem, components.InductorCoupling):
+            # the inductors are not coupled any more
             for e in self:
-                if hasattr(elem, 'n1') and e.n1 == n or \
-                   hasattr(elem, 'n2') and e.n2 == n or \
-                   hasattr(elem, 'sn1') and e.sn1 == n or \
-                   hasattr(elem, 'sn2') and e.sn2 == n:
-                    remove_list.remove(n)
-                    break
-                if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    # check output ports
-                    for n1, n2 in oports:
-                        if n1 == n or n2 == n:
-                            remove_list.remove(n)
-                            break
-                    if n not in remove_list:
-                        break
-                    # check the ports that drive them
-                    for i in range(len(oports)):
-                        dports = elem.get_drive_ports(i)
-                        for n1, n2 in oports:
-                            if n1 == n or n2 == n:
-                                remove_list.remove(n)
-                                break
-                        if n not in remove_list:
-                            break
-
-        for n in remove_list:
+                if isinstance(e, components.Inductor) and \
+                   elem in e.coupling_devices:
+                    e.coupling_devices.remove(elem)
+        # purge the nodes that are not needed by other elements
+        needed = set([0])
+        for e in self:
+            needed.update(get_elem_nodes(e))
+        for n in get_elem_nodes(elem) - needed:
             self.nodes_dict.pop(self.nodes_dict[n])
             self.nodes_dict.pop(n)
 
@@ -1169,6 +1138,30 @@ def is_elem_voltage_defined(elem):
         return False
 
 
+def get_elem_nodes(elem):
+    """Get all the internal nodes an element is connected to
+
+    **Parameters:**
+
+    elem : Component
+        The element.
+
+    **Returns:**
+
+    nodes : set
+        The internal nodes of its terminals, of its sensing terminals and of its
+        ports.
+    """
+    nodes = set()
+    for terminal in ('n1', 'n2', 'sn1', 'sn2'):
+        if hasattr(elem, terminal):
+            nodes.add(getattr(elem, terminal))
+    if elem.is_nonlinear:
+        for port in elem.ports:
+            nodes.update(port)
+    return nodes
+
+
 class NodeNotFoundError(Exception):
     """Circuit Node exception."""
     pass
-- 
2.43.0


From 5c65e26877ec2062b73242f26aad66ad92901548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 27/57] fix: nodes added after a removal get a number of their
 own

---
 ahkab/circuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index 8346e60..0c4385b 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -197,6 +197,9 @@ class Circuit(list):
                 int_node = 0
             else:
                 int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                while int_node in self.nodes_dict:
+                    # there are gaps if nodes have been purged
+                    int_node = int_node - 1
             self.nodes_dict.update({int_node:name})
             self.nodes_dict.update({name:int_node})
         else:
@@ -246,6 +249,9 @@ class Circuit(list):
             else:
                 got_ref = 0 in self.nodes_dict
                 int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                while int_node in self.nodes_dict:
+                    # there are gaps if nodes have been purged
+                    int_node = int_node - 1
             self.nodes_dict.update({int_node:ext_name})
             self.nodes_dict.update({ext_name:int_node})
         else:
-- 
2.43.0


From daa9299aae850cd6757606fca6c1a20c14b310a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 28/57] fix: pole-zero results without zeros hold their poles

---
 ahkab/results.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 5440c1c..c105340 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1165,21 +1165,21 @@ class pz_solution(solution, _mutable_data):
         if np.prod(self.zeros.shape):
             for i in range(self.zeros.shape[0]):
                 self.variables += ['z%d' % i]
-            for v in self.variables:
-                self.units.update({v: "rad/s"})
-            self.csv_headers = []
-            for i in range(len(self.variables)):
-                self.csv_headers.append("Re(%s)" % self.variables[i])
-                self.csv_headers.append("Im(%s)" % self.variables[i])
-
-            # save in Re/Im form
-            sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
-            self._add_data(sdata)
-
-            # store local data too:
-            self.data = case_insensitive_dict()
-            for i in range(len(self.variables)):
-                self.data.update({self.variables[i]: data[i, 0]})
+        for v in self.variables:
+            self.units.update({v: "rad/s"})
+        self.csv_headers = []
+        for i in range(len(self.variables)):
+            self.csv_headers.append("Re(%s)" % self.variables[i])
+            self.csv_headers.append("Im(%s)" % self.variables[i])
+
+        # save in Re/Im form
+        sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
+        self._add_data(sdata)
+
+        # store local data too:
+        self.data = case_insensitive_dict()
+        for i in range(len(self.variables)):
+            self.data.update({self.variables[i]: data[i, 0]})
 
     def _add_data(self, data):
         """Remember to call this method with REAL data - already split in RE and IM."""
-- 
2.43.0


From 82d9dd5c422ab610740b4a38a08d7c04dfd0d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 29/57] fix: AC results are read back in the phase unit they
 were saved with

---
 ahkab/results.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index c105340..8c8516a 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -558,6 +558,7 @@ class ac_solution(solution, _mutable_data):
         solution.__init__(self, circ, outfile)
         self.sol_type = "AC"
         self.linearization_op = op
+        self._phase_in_deg = options.ac_phase_in_deg
         self.stype = stype
         self.ostart, self.ostop, self.opoints = start, stop, points
 
@@ -600,11 +601,14 @@ class ac_solution(solution, _mutable_data):
         xsplit = np.zeros((x.shape[0]*2, 1))
         for i in range(x.shape[0]):
             xsplit[2*i, 0] = np.abs(x[i, 0])
-            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=options.ac_phase_in_deg)
+            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=self._phase_in_deg)
 
         data = np.concatenate((frequency, xsplit), axis=0)
         self._add_data(data)
 
+    def _to_rad(self, phase):
+        return np.radians(phase) if self._phase_in_deg else phase
+
     def get_x(self):
         return self[self.variables[0]]
 
@@ -636,12 +640,12 @@ class ac_solution(solution, _mutable_data):
                     ip = [h.upper() for h in headers].index(match_phase)
                     if cplx_data is None:
                         cplx_data = np.array(data[i, :]*
-                                             np.exp(1j*data[ip,:]).reshape((1, -1)),
+                                             np.exp(1j*self._to_rad(data[ip, :])).reshape((1, -1)),
                                              dtype=np.complex_)
                     else:
                         cplx_data = np.vstack((cplx_data,
                                                (data[i, :]*
-                                                np.exp(1j*data[ip, :])).reshape((1, -1))))
+                                                np.exp(1j*self._to_rad(data[ip, :]))).reshape((1, -1))))
         return cplx_data
 
     # Access as a dictionary BY VARIABLE NAME:
@@ -661,7 +665,7 @@ class ac_solution(solution, _mutable_data):
             # raise the correct exception
             raise KeyError(name)
         if len(headers) == 2:
-            data = data[0, :] * np.exp(1j*data[1, :])
+            data = data[0, :] * np.exp(1j*self._to_rad(data[1, :]))
         else:
             data = data.reshape((-1,))
         return data
-- 
2.43.0


From ed778577380fd77cd7e23571eee20225295b3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 30/57] fix: op values() of a single unknown and AC items() are
 lists

---
 ahkab/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 8c8516a..93423e8 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -506,7 +506,7 @@ class op_solution(solution, _mutable_data):
 
     def values(self):
         """Get all of the results set's variables values."""
-        return np.squeeze(self.x).tolist()
+        return self.x[:, 0].tolist()
 
     def items(self):
         vlist = []
@@ -688,7 +688,7 @@ class ac_solution(solution, _mutable_data):
 
     def items(self):
         values = self.values()
-        return zip(self.variables, values)
+        return list(zip(self.variables, values))
 
     # iterator methods
     def __iter__(self):
-- 
2.43.0


From 60fa849a440cc0abfb4c04758b7131f237494a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 31/57] fix: case_insensitive_dict updates an entry whatever
 the case of its name

---
 ahkab/results.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 93423e8..dff0eaa 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1315,7 +1315,12 @@ class case_insensitive_dict(object):
     def update(self, adict):
         """Update the dictionary contents with the mapping in the dictionary ``adict``.
         """
-        return self._dict.update(adict)
+        for name in adict:
+            # a name in another case is the same name
+            for key in list(self._dict.keys()):
+                if key.upper() == name.upper() and key != name:
+                    del self._dict[key]
+            self._dict[name] = adict[name]
 
     # iterator methods
     def __iter__(self):
-- 
2.43.0


From 0e1a65f4a021b07fb1e09db9d6c619064cb20787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 32/57] fix: load_csv skips samples, not lines

---
 ahkab/csvlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 205d259..7f69cb6 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -262,11 +262,12 @@ def load_csv(filename, load_headers=None, nsamples=None, skip=0, verbose=3):
         raise ValueError("Specified header not found")
 
     fp = _get_fp(filename)
-    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, skiprows=skip, ndmin=2)
+    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True,
+                      skiprows=skip + 1, ndmin=2) # the first line has the headers
     _close_fp(fp, filename)
 
     # prepare return values
-    EOF = (nsamples is None) or (nsamples == data.shape[1])
+    EOF = (nsamples is None) or (nsamples >= data.shape[1])
     if nsamples is not None:
         data = data[:, :min(nsamples, data.shape[1])]
     pos = skip + data.shape[1]
-- 
2.43.0


From a946707fb5aff294cc7cd8b366996824a3203a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 33/57] fix: netlist lines of C, L and K accept the comments
 and only the parameters they document

---
 ahkab/netlist_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index d67cbd0..b4f02e3 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -425,7 +425,7 @@ def parse_elem_capacitor(line, circ):
         raise NetlistParseError("parse_elem_capacitor(): malformed line")
 
     ic = None
-    if len(line_elements) == 5 and not line_elements[4][0] == '*':
+    if len(line_elements) > 4 and not line_elements[4][0] == '*':
         (label, value) = parse_param_value_from_string(line_elements[4])
         if label == "ic":
             ic = convert_units(value)
@@ -460,11 +460,13 @@ def parse_elem_inductor(line, circ):
         A list containing a :class:`ahkab.components.Inductor` element.
     """
     line_elements = line.split()
-    if len(line_elements) < 4 or (len(line_elements) > 5 and not line_elements[6][0] == "*"):
+    if len(line_elements) < 4 or \
+       (len(line_elements) > 5 and not line_elements[5][0] == "*" and
+        not line_elements[4][0] == "*"):
         raise NetlistParseError("parse_elem_inductor(): malformed line")
 
     ic = None
-    if len(line_elements) == 5 and not line_elements[4][0] == '*':
+    if len(line_elements) > 4 and not line_elements[4][0] == '*':
         (label, value) = parse_param_value_from_string(line_elements[4])
         if label == "ic":
             ic = convert_units(value)
@@ -499,7 +501,7 @@ def parse_elem_inductor_coupling(line, circ, elements=[]):
         A list containing a :class:`ahkab.components.InductorCoupling` element.
     """
     line_elements = line.split()
-    if len(line_elements) < 4 or (len(line_elements) > 4 and not line_elements[5][0] == "*"):
+    if len(line_elements) < 4 or (len(line_elements) > 4 and not line_elements[4][0] == "*"):
         raise NetlistParseError("parse_elem_inductor_coupling(): malformed line")
 
     part_id = line_elements[0]
-- 
2.43.0


From fe719fa4391eb4e31f47e7e6a9ec86822444000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 34/57] fix: diode lines accept OFF and pass on T, reject
 models of other devices

---
 ahkab/netlist_parser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index b4f02e3..d754d1d 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -752,15 +752,14 @@ def parse_elem_diode(line, circ, models=None):
             break
         param, value = parse_param_value_from_string(line_elements[index])
 
-        value = convert_units(value)
         if param == "area":
-            Area = value
+            Area = convert_units(value)
         elif param == "t":
-            T = value
+            T = convert_units(value)
         elif param == "ic":
-            ic = value
+            ic = convert_units(value)
         elif param == "off":
-            if not len(value):
+            if value == "":
                 off = True
             else:
                 off = convert_boolean(value)
@@ -774,8 +773,10 @@ def parse_elem_diode(line, circ, models=None):
 
     if model_label not in models:
         raise NetlistParseError("parse_elem_diode(): Unknown model id: " + model_label)
+    if not isinstance(models[model_label], diode.diode_model):
+        raise NetlistParseError("parse_elem_diode(): Not a diode model: " + model_label)
     elem = diode.diode(part_id=line_elements[0], n1=n1, n2=n2, model=models[
-                       model_label], AREA=Area, ic=ic, off=off)
+                       model_label], AREA=Area, T=T, ic=ic, off=off)
     return [elem]
 
 
@@ -1665,7 +1666,7 @@ def convert_boolean(value):
     elif value == 'yes' or value == 'true' or value == '1' or value == 1:
         return_value = True
     else:
-        raise NetlistParseError("invalid boolean: " + value)
+        raise NetlistParseError("invalid boolean: %s" % value)
 
     return return_value
 
-- 
2.43.0


From 6b93144460970e9356b7130a0aeafe45dd63a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 35/57] fix: values that are not numbers in element lines are
 parse errors

---
 ahkab/netlist_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index d754d1d..14363ce 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -305,6 +305,8 @@ def main_netlist_parser(circ, netlist_lines, subckts_dict, models):
             except KeyError:
                 raise NetlistParseError("Parser: do not know how to parse" +
                                         " '%s' elements." % line[0])
+            except ValueError as ve:
+                raise NetlistParseError(str(ve))
     #   Handle errors from individual parse functions
     except NetlistParseError as npe:
         (msg,) = npe.args
@@ -1215,7 +1217,8 @@ def parse_time_function(ftype, line_elements, stype):
         assigned = False
         for t in prot_params:
             if (label is None and t['pos'] == i) or label == t['label']:
-                fun_params.update({t['dest']: convert(value, t['type'])})
+                fun_params.update({t['dest']: convert(value, t['type'],
+                                                      raise_exception=True)})
                 assigned = True
                 break
         if assigned:
-- 
2.43.0


From bf9901ddc1bee5a6fefd5ccc6dcfcc0e5696cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 36/57] fix: time functions of sources take all documented
 parameters and may omit the optional ones

---
 ahkab/netlist_parser.py | 44 +++++++++++++++++++++++++----------------
 ahkab/time_functions.py | 12 +++++++++--
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 14363ce..6856ed4 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -585,23 +585,21 @@ def parse_elem_vsource(line, circ):
             elif value == 'exp':
                 param_number = 6
             elif value == 'sin':
-                param_number = 5
+                param_number = 6
             elif value == 'sffm':
-                param_number = 5
+                param_number = 6
             elif value == 'am':
                 param_number = 5
             else:
                 raise NetlistParseError("parse_elem_vsource(): unknown signal" +
                                         "type %s" % value)
             if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number
-                                                             + 1],
-                                               "voltage")
-                index = index + param_number
+                params = time_function_params(line_elements, index + 1,
+                                              param_number)
+                function = parse_time_function(value, params, "voltage")
+                index = index + len(params)
                 # continue
-            elif function is not None:
+            elif param_number:
                 raise NetlistParseError("parse_elem_vsource(): only a time function can be defined.")
         elif label == 'vdc':
             dc_value = convert_units(value)
@@ -674,20 +672,19 @@ def parse_elem_isource(line, circ):
             elif value == 'exp':
                 param_number = 6
             elif value == 'sin':
-                param_number = 5
+                param_number = 6
             elif value == 'sffm':
-                param_number = 5
+                param_number = 6
             elif value == 'am':
                 param_number = 5
             else:
                 raise NetlistParseError("parse_elem_isource(): unknown signal type.")
             if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number + 1],
-                                               "current")
-                index = index + param_number
-            elif function is not None:
+                params = time_function_params(line_elements, index + 1,
+                                              param_number)
+                function = parse_time_function(value, params, "current")
+                index = index + len(params)
+            elif param_number:
                 raise NetlistParseError("parse_elem_isource(): only a time function can be defined.")
         elif label == 'idc':
             dc_value = convert_units(value)
@@ -1179,6 +1176,19 @@ def parse_elem_user_defined(line, circ):
     return [elem]
 
 
+def time_function_params(line_elements, start, number):
+    """The tokens that belong to a time function: at most ``number``, starting
+    with position ``start``. Optional parameters may be missing: the tokens end
+    at a comment and at the other parameters of an independent source."""
+    params = []
+    for token in line_elements[start:start + number]:
+        if token[0] == '*' or \
+           token.split('=')[0] in ('type', 'vdc', 'vac', 'idc', 'iac'):
+            break
+        params.append(token)
+    return params
+
+
 def parse_time_function(ftype, line_elements, stype):
     """Parses a time function of type ftype from the line_elements supplied.
 
diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index 2151631..33ddf3f 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -193,6 +193,14 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'needed': False,
                'dest': 'theta',
                'default': 0
+               },
+               {
+               'label': 'phase',
+               'pos': 5,
+               'type': float,
+               'needed': False,
+               'dest': 'phi',
+               'default': 0
                }
                )
         },'exp': { #EXP(V1 V2 TD1 TAU1 TD2 TAU2)
@@ -323,7 +331,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'label': 'fc',
                'pos': 2,
                'type': float,
-               'needed': False,
+               'needed': True,
                'dest': 'fc',
                'default': None
                },
@@ -390,7 +398,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'type': float,
                'needed': False,
                'dest': 'td',
-               'default': None
+               'default': 0.
                })
         }
 }
-- 
2.43.0


From 510dfe48e47f77c026b033e078a54dc5eb3051f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 37/57] fix: references to elements inside a subcircuit stay
 inside the instance

---
 ahkab/components/Inductor.py |  2 +-
 ahkab/netlist_parser.py      | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ahkab/components/Inductor.py b/ahkab/components/Inductor.py
index c2ca6d2..656ba12 100644
--- a/ahkab/components/Inductor.py
+++ b/ahkab/components/Inductor.py
@@ -120,7 +120,7 @@ class InductorCoupling(Component):
         self.is_symbolic = True
 
     def __str__(self):
-        return "%s %s %g" % (self.L1, self.L2, self.value)
+        return "%s %s %g" % (self.L1, self.L2, self.K)
 
     def get_other_inductor(self, Lselected):
         Lret = None
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 6856ed4..f0a41b0 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1799,10 +1799,18 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
                                         subckts_dict, models)
 
     # Every subckt adds elements with the _same description_ (elem.part_id[1:])
-    # We modify it so that each description is unique for every instance
+    # We modify it so that each description is unique for every instance,
+    # together with the references among the elements of the instance
+    new_ids = {}
     for element in elements_list:
-        element.part_id = element.part_id[0] + \
-                          "-" + wrapped_circ.prefix + element.part_id[1:]
+        new_ids.update({element.part_id: element.part_id[0] + "-" +
+                        wrapped_circ.prefix + element.part_id[1:]})
+    for element in elements_list:
+        element.part_id = new_ids[element.part_id]
+        for ref in ('source_id', 'L1', 'L2'):
+            if hasattr(element, ref):
+                setattr(element, ref, new_ids.get(getattr(element, ref),
+                                                  getattr(element, ref)))
 
     return elements_list
 
-- 
2.43.0


From 4151ab7deb1769786b5a8bfb2e266e6cb58d6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 38/57] fix: initial conditions name any node and element, the
 label has to match entirely

---
 ahkab/dc_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 7efb3c7..c1efea3 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1123,8 +1123,8 @@ def build_x0_from_user_supplied_ic(circ, icdict):
 
     :raises ValueError: whenever a malformed ``icdict`` is supplied.
     """
-    Vregex = re.compile("V\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
-    Iregex = re.compile("I\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
+    Vregex = re.compile(r"^\s*V\s*\(\s*(\S+)\s*\)\s*$", re.IGNORECASE)
+    Iregex = re.compile(r"^\s*I\s*\(\s*(\S+)\s*\)\s*$", re.IGNORECASE)
     nv = circ.get_nodes_number()  # number of voltage variables
     voltage_defined_elem_names = \
         [elem.part_id.lower() for elem in circ
-- 
2.43.0


From d80a728cb29806f83622d0d691b83db79e5e1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 39/57] fix: setting the temperature of a MOS model again
 starts from the current temperature

---
 ahkab/ekv.py  | 12 ++++++++----
 ahkab/mosq.py | 17 +++++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index aff0bd1..a9acd14 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -429,6 +429,7 @@ class ekv_mos_model:
             float(TCV) if TCV is not None else self.NPMOS * TCV_DEFAULT
         self.BEX = float(BEX) if BEX is not None else BEX_DEFAULT
 
+        self.TEMP = self.TNOM
         self.set_device_temperature(constants.T)
 
         # Setup switches
@@ -445,10 +446,13 @@ class ekv_mos_model:
 
         Correspondingly, ``VTO``, ``KP`` and ``PHI`` get updated.
         """
-        self.TEMP = T
-        self.VTO = self.VTO - self.TCV * (T - self.TNOM)
-        self.KP = self.KP * (T / self.TNOM) ** self.BEX
-        self.PHI = self.PHI * T / self.TNOM + 3.0 * constants.Vth(self.TNOM) * math.log(T / self.TNOM) \
+        T0, self.TEMP = self.TEMP, T
+        self.VTO = self.VTO - self.TCV * (T - T0)
+        self.KP = self.KP * (T / T0) ** self.BEX
+        self.PHI = (self.PHI - self._get_phi_shift(T0)) * T / T0 + self._get_phi_shift(T)
+
+    def _get_phi_shift(self, T):
+        return 3.0 * constants.Vth(self.TNOM) * math.log(T / self.TNOM) \
             - constants.si.Eg(
                 self.TNOM) * T / self.TNOM + constants.si.Eg(T)
 
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 0d1b319..82dfbb1 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -500,6 +500,7 @@ class mosq_mos_model(object):
         self.AVT = AVT if AVT is not None else AVT_DEFAULT
         self.AKP = AKP if AKP is not None else AKP_DEFAULT
 
+        self.TEMP = self.TNOM
         self.set_device_temperature(constants.T)
 
         sc, sc_reason = self._self_check()
@@ -519,12 +520,16 @@ class mosq_mos_model(object):
 
         Correspondingly, ``VTO``, ``KP`` and ``PHI`` get updated.
         """
-        self.TEMP = T
-        self.VTO = self.VTO - self.TCV * (T - self.TNOM)
-        self.KP = self.KP * (T / self.TNOM) ** self.BEX
-        self.PHI = (self.PHI * T / self.TNOM + 3 * constants.Vth(self.TNOM) *
-                    math.log(T / self.TNOM) - constants.si.Eg(self.TNOM) * T /
-                    self.TNOM + constants.si.Eg(T))
+        T0, self.TEMP = self.TEMP, T
+        self.VTO = self.VTO - self.TCV * (T - T0)
+        self.KP = self.KP * (T / T0) ** self.BEX
+        self.PHI = (self.PHI - self._get_phi_shift(T0)) * T / T0 + \
+            self._get_phi_shift(T)
+
+    def _get_phi_shift(self, T):
+        return (3 * constants.Vth(self.TNOM) * math.log(T / self.TNOM) -
+                constants.si.Eg(self.TNOM) * T / self.TNOM +
+                constants.si.Eg(T))
 
     def get_device_temperature(self):
         """Returns the temperature of the device - in K.
-- 
2.43.0


From b2f5fa9ba07a125bfedd845c00fc7155abd9132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 40/57] fix: operating point information follows changes of the
 model at the same bias

---
 ahkab/mosq.py   | 35 +++++++++++++++--------------------
 ahkab/switch.py | 11 ++++++-----
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 82dfbb1..7e35801 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -252,26 +252,21 @@ class mosq_device(object):
         if self.opdict is None:
             self.opdict = {}
         state = tuple(float(v) for v in ports_v[0])
-        if self.opdict['state'] != state or 'gmd' not in self.opdict \
-            or 'gm' not in self.opdict or 'gmb' not in self.opdict \
-            or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
-
-            vds, vgs, _ = ports_v[0]
-            self.opdict['state'] = state
-            gstamp = self.gstamp(ports_v[0], reduced=False)[1]
-            self.opdict['gmd'] = gstamp[0, 0]
-            self.opdict['gm'] = gstamp[0, 1]
-            self.opdict['gmb'] = gstamp[0, 3]
-            self.opdict['Ids'] = self.istamp(ports_v[0], reduced=False)[1][0]
-            self.opdict.update({'VTH':self.mosq_model.get_VT(ports_v[0], self.device)})
-            self.opdict.update({'W':self.device.W, 'L':self.device.L,
-                                'ON':(vgs >= self.opdict['VTH'])})
-            self.opdict.update({'beta':.5*self.mosq_model.KP*self.device.W/self.device.L})
-            self.opdict.update({'VOD':self.mosq_model.NPMOS*(vgs - self.opdict['VTH']),
-                                'SAT':vds > vgs - self.opdict['VTH']})
-        else:
-            pass
-            #already up to date
+        # always recomputed: the bias being the same does not mean that the
+        # parameters and the temperature of the model are.
+        vds, vgs, _ = ports_v[0]
+        self.opdict['state'] = state
+        gstamp = self.gstamp(ports_v[0], reduced=False)[1]
+        self.opdict['gmd'] = gstamp[0, 0]
+        self.opdict['gm'] = gstamp[0, 1]
+        self.opdict['gmb'] = gstamp[0, 3]
+        self.opdict['Ids'] = self.istamp(ports_v[0], reduced=False)[1][0]
+        self.opdict.update({'VTH':self.mosq_model.get_VT(ports_v[0], self.device)})
+        self.opdict.update({'W':self.device.W, 'L':self.device.L,
+                            'ON':(vgs >= self.opdict['VTH'])})
+        self.opdict.update({'beta':.5*self.mosq_model.KP*self.device.W/self.device.L})
+        self.opdict.update({'VOD':self.mosq_model.NPMOS*(vgs - self.opdict['VTH']),
+                            'SAT':vds > vgs - self.opdict['VTH']})
 
     def get_op_info(self, ports_v):
         """Information regarding the Operating Point (OP)
diff --git a/ahkab/switch.py b/ahkab/switch.py
index 06524de..e1f7efb 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -191,11 +191,12 @@ class switch_device:
         """
         if self.opdict is None:
             self.opdict = {}
-        if not (self.opdict['state'] == ports_v[0] and 'R' in self.opdict):
-            self.opdict['state'] = ports_v[0]
-            self.opdict['R'] = float(1.0 / self.g(0, ports_v[0], 0))
-            self.opdict['I'] = float(self.i(0, ports_v[0]))
-            self.opdict['STATUS'] = self.device.is_on
+        # always recomputed: the bias being the same does not mean that the
+        # parameters of the model and the status of the switch are.
+        self.opdict['state'] = ports_v[0]
+        self.opdict['R'] = float(1.0 / self.g(0, ports_v[0], 0))
+        self.opdict['I'] = float(self.i(0, ports_v[0]))
+        self.opdict['STATUS'] = self.device.is_on
 
     def get_op_info(self, ports_v):
         """Information regarding the Operating Point (OP)
-- 
2.43.0


From 223d0fdcfd2ab85bbb872cdf4dada8efba213390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 41/57] fix: periodic analyses that diverged to NaN are
 failures, not converged

---
 ahkab/bfpss.py    | 2 +-
 ahkab/shooting.py | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 68244b2..25c7e9c 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -244,7 +244,7 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
 def _convergence_check(dx, x, nv_indices, ni_indices, vector_norm):
     """Perform a convergence check using the specified vector norm"""
     # sometimes something diverges... look out
-    if vector_norm(dx) is np.nan:
+    if not np.all(np.isfinite(dx)):
         raise OverflowError
     dxc = np.array(dx)
     xc = np.array(x)
diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 583d98a..061bc64 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -217,7 +217,9 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
             x[index] = td*dx[index] + x[index]
         dx.append(dxN)
 
-        if (_vector_norm_wrapper(dx, vector_norm) < min(options.ver, options.ier) *
+        if not np.all(np.isfinite(dx)):
+            raise OverflowError
+        elif (_vector_norm_wrapper(dx, vector_norm) < min(options.ver, options.ier) *
                 _vector_norm_wrapper(x, vector_norm) + min(options.vea, options.iea)):
             # and (dc_analysis.vector_norm(residuo) <
             # options.er*dc_analysis.vector_norm(x) + options.ea):
@@ -226,9 +228,6 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
                 break
             else:
                 conv_counter = conv_counter + 1
-        elif vector_norm(dx[points - 1]) is np.nan:  # needs work fixme
-            raise OverflowError
-            # break
         else:
             conv_counter = 0
             tick.step()
-- 
2.43.0


From 3f23f56e2d43837a8814c1d0f45c7e4398e837f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 42/57] fix: symbolic voltage-defined elements with coinciding
 nodes get the entries numeric analysis gives them

---
 ahkab/symbolic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a98a403..1d9a86c 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -471,11 +471,11 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             mna = _expand_matrix(mna, add_a_row=True, add_a_col=True)
             N = _expand_matrix(N, add_a_row=True, add_a_col=False)
             # KCL
-            mna[elem.n1, index] = +1
-            mna[elem.n2, index] = -1
+            mna[elem.n1, index] += +1
+            mna[elem.n2, index] += -1
             # KVL
-            mna[index, elem.n1] = +1
-            mna[index, elem.n2] = -1
+            mna[index, elem.n1] += +1
+            mna[index, elem.n2] += -1
             if isinstance(elem, components.sources.VSource):
                 if elem.is_symbolic:
                     VDC = _symbol_factory(elem.part_id.upper())
@@ -491,8 +491,8 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         alpha = subs[alpha]
                 else:
                     alpha = elem.alpha
-                mna[index, elem.sn1] = -alpha
-                mna[index, elem.sn2] = +alpha
+                mna[index, elem.sn1] += -alpha
+                mna[index, elem.sn2] += +alpha
             elif isinstance(elem, components.sources.HVSource):
                 if elem.is_symbolic:
                     alpha = _symbol_factory(elem.part_id.upper(), real=True)
-- 
2.43.0


From 45851394904553a95a6425ae332ac7f60fe4f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 43/57] fix: numeric couplings in symbolic analysis are their
 mutual inductance

---
 ahkab/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 1d9a86c..629c4f7 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -533,7 +533,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                     if M in subs:  # instant substitution
                         M = subs[M]
                 else:
-                    M = cd.K
+                    M = cd.M
                 # get `part_id` of the other inductor (eg. "L32")
                 other_id_wdescr = cd.get_other_inductor(elem.part_id)
                 # find its index to know which column corresponds to
-- 
2.43.0


From cd851804ccb41fcf8bde7f9ad6f9c882a7c8f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:03 +0000
Subject: [PATCH 44/57] fix: the unknowns of symbolic analysis are not confused
 with elements of the same name

---
 ahkab/symbolic.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 629c4f7..5b0819d 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -166,11 +166,14 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line((sympy.sstr(N), 5), verbose)
 
     printing.print_info_line(("Building equations...", 3), verbose)
+    # The unknowns are solved for through symbols of their own: the voltage of
+    # the node "1" and the voltage source "V1" are both called V1.
+    xu = x.applyfunc(lambda v: sympy.Dummy(v.name))
     eq = []
-    for i in _to_real_list(mna * x + N):
+    for i in _to_real_list(mna * xu + N):
         eq.append(sympy.Eq(i, 0))
 
-    x = _to_real_list(x)
+    x, xu = _to_real_list(x), _to_real_list(xu)
 
     if verbose > 3:
         printing.print_symbolic_equations(eq)
@@ -179,10 +182,11 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line(("Solving...", 1), verbose)
 
     sol = sympy.solve(
-            eq, x, manual=options.symb_sympy_manual_solver, simplify=True)
+            eq, xu, manual=options.symb_sympy_manual_solver, simplify=True)
 
-    for ks in list(sol.keys()):
-        sol.update({ks: sol[ks].subs(subs_g)})
+    names = dict(zip(xu, x))
+    sol = dict((names[ks], sol[ks].subs(subs_g).xreplace(names))
+               for ks in xu if ks in sol)
 
     if sol == {}:
         printing.print_warning("No solutions. Check the netlist.")
-- 
2.43.0


From 6d61f93fcf2138e5cc2378778a69d4844a268eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 45/57] fix: substitutions in symbolic analysis apply to every
 kind of element

---
 ahkab/symbolic.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 5b0819d..2132683 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -385,6 +385,11 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                     # but we keep track of which is which and substitute back after
                     # solving.
                     subs_g.update({G:1/R})
+                    if G in subs:  # instant substitution
+                        G = subs[G]
+                        R = _symbol_factory('R' + str(G)[1 + len(_COND_POSTFIX):],
+                                            real=True, positive=True)
+                        subs_g.update({G:1/R})
                 else:
                     G = 1.0/R
             else:
@@ -448,7 +453,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 mna[elem.n2, elem.n1] = mna[elem.n2, elem.n1] - 1 / r0
                 mna[elem.n2, elem.n2] = mna[elem.n2, elem.n2] + 1 / r0
         elif isinstance(elem, diode.diode):
-            gd = _symbol_factory("g" + elem.part_id, positive=True)
+            gd = _symbol_factory("g" + elem.part_id, real=True, positive=True)
             if gd in subs:  # instant substitution
                 gd = subs[gd]
             mna[elem.n1, elem.n1] = mna[elem.n1, elem.n1] + gd
@@ -614,17 +619,20 @@ def _parse_substitutions(sdict):
         else:
             letter_id1 = v1[0].upper()
             letter_id2 = v2[0].upper()
-        if letter_id1[0] in ('R', 'G', 'L', 'C', 'M'):
-            s1 = _symbol_factory(letter_id1 + v1[1:], real=True, positive=True)
-        else:
-            s1 = _symbol_factory(letter_id1 + v1[1:], real=True)
-        if letter_id2[0] in ('R', 'G', 'L', 'C', 'M'):
-            s2 = _symbol_factory(letter_id2 + v2[1:], real=True, positive=True)
-        else:
-            s2 = _symbol_factory(letter_id2 + v2[1:], real=True)
-        subs.update({s1:s2})
+        subs.update({_element_symbol(letter_id1 + v1[1:]):
+                     _element_symbol(letter_id2 + v2[1:])})
     return subs
 
+def _element_symbol(name):
+    """The symbol :func:`generate_mna_and_N` uses for ``name``"""
+    if name[0].upper() in ('V', 'I'):
+        return _symbol_factory(name)
+    elif name[0].upper() in ('E', 'F', 'H') or (name[0].upper() == 'G' and
+         not name.upper().startswith(('GM_', 'GD', 'G' + _COND_POSTFIX.upper()))):
+        return _symbol_factory(name, real=True)
+    else:
+        return _symbol_factory(name, real=True, positive=True)
+
 def _symbol_factory(name, **options):
     filtered_options = {}
     for i in options:
-- 
2.43.0


From 8510fd9001ed1aa12c0eff99ce534ecf8785946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 46/57] fix: numeric inductors in symbolic analysis

---
 ahkab/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 2132683..c77d39c 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -519,7 +519,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         if L in subs:  # instant substitution
                             L = subs[L]
                     else:
-                        L = elem.L
+                        L = elem.value
                     mna[index, index] = -s * L
                 else:
                     pass
-- 
2.43.0


From 141e0be2267c8988dacd1988e284ba1d1885d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 47/57] fix: symbolic CCVS may sense elements which follow it

---
 ahkab/symbolic.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index c77d39c..83bbc95 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -503,14 +503,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 mna[index, elem.sn1] += -alpha
                 mna[index, elem.sn2] += +alpha
             elif isinstance(elem, components.sources.HVSource):
-                if elem.is_symbolic:
-                    alpha = _symbol_factory(elem.part_id.upper(), real=True)
-                    if alpha in subs:  # instant substitution
-                        alpha = subs[alpha]
-                else:
-                    alpha = elem.alpha
-                source_index = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes + source_index] = +alpha
+                pass  # see below: the sensed current may come later on
             elif isinstance(elem, components.Inductor):
                 if ac:
                     if elem.is_symbolic:
@@ -552,6 +545,16 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 # add the term.
                 mna[pre_vde + this_index,
                     pre_vde + other_index] += -s * M
+        elif isinstance(elem, components.sources.HVSource):
+            this_index = circ.find_vde_index(elem.part_id, verbose=0)
+            source_index = circ.find_vde_index(elem.source_id, verbose=0)
+            if elem.is_symbolic:
+                alpha = _symbol_factory(elem.part_id.upper(), real=True)
+                if alpha in subs:  # instant substitution
+                    alpha = subs[alpha]
+            else:
+                alpha = elem.alpha
+            mna[pre_vde + this_index, pre_vde + source_index] += +alpha
         elif isinstance(elem, components.sources.FISource):
             source_current_index = circ.find_vde_index(elem.source_id, verbose=0)
             if elem.is_symbolic:
-- 
2.43.0


From 36aad3f008ed2619d05d9762c39f8837df023f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 48/57] fix: numeric VCCS in symbolic analysis

---
 ahkab/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 83bbc95..7ba950e 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -421,7 +421,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 if alpha in subs:  # instant substitution
                     alpha = subs[alpha]
             else:
-                alpha = elem.value
+                alpha = elem.alpha
             mna[elem.n1, elem.sn1] = mna[elem.n1, elem.sn1] + alpha
             mna[elem.n1, elem.sn2] = mna[elem.n1, elem.sn2] - alpha
             mna[elem.n2, elem.sn1] = mna[elem.n2, elem.sn1] - alpha
-- 
2.43.0


From 1f1fa505da378d285eb8ad738c463a0a1c78eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 49/57] fix: pole-zero analysis copes with singularities at
 infinity, at zero and does not depend on chance

---
 ahkab/pz.py | 56 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 21ac595..a32819f 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -37,9 +37,8 @@ and:
     *Proceedings of the 34th Midwest Symposium on*, pp.380,
     383 vol.1, 14-17 May 1991
 
-Frequency sweeping -- or shifting -- is performed with a random frequency
-kick, currently, hoping not to kick so hard that we end up on the negative side.
-A bisection method would be better and hopefully will be implemented soon.
+If the algorithm can't be run at the frequency requested, it is shifted by
+increasing amounts.
 
 Overview
 ~~~~~~~~
@@ -107,6 +106,19 @@ def _enlarge_matrix(M):
         return np.vstack((np.hstack((M, np.zeros((M.shape[0], 1)))),
                          np.zeros((1, M.shape[1] + 1))))
 
+def _next_shift(shift):
+    """The frequency to be tried if the algorithm can't be run at ``shift``"""
+    if np.abs(shift) > options.pz_max:
+        raise ValueError("PZ: the circuit equations are singular at all frequencies.")
+    return 10.*np.abs(shift) if shift else 1.
+
+def _finite_eigvals(M):
+    """The eigenvalues of ``M`` which differ from zero: the remaining ones
+    are singularities at infinity, eg of two capacitors in parallel."""
+    eigvals = np.linalg.eigvals(M)
+    tol = 10*M.shape[0]*np.finfo(float).eps*np.linalg.norm(M)
+    return eigvals[np.abs(eigvals) > tol]
+
 def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     """Calculate the circuit poles.
 
@@ -214,7 +226,12 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             J = ac._generate_J(x0, mc, MNA.shape[0] - 1)
             MNA[1:, 1:] += J
     D = transient.generate_D(mc, MNA[1:, 1:].shape)
-    MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
+    try:
+        MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
+    except np.linalg.LinAlgError:
+        # there is a pole right there
+        return calculate_singularities(mc, input_source, output_port, MNA=MNA,
+                                       outfile=outfile, shift=_next_shift(shift))
     nodes_m1 = mc.get_nodes_number() - 1
     vde1 = -1
     MC = np.zeros((MNA.shape[0] - 1, 1))
@@ -263,6 +280,8 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                 dei_victim += 1
         if calc_zeros and e1.part_id == input_source:
             ROUTIN = 0
+            # what can't be told from zero
+            ROUTIN_min = 1e-12*np.max(np.abs(TV))
             o1, o2 = output_port
             if o1:
                 ROUTIN += TV[o1 - 1, 0]
@@ -273,12 +292,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
         # reset, get ready to restart
         MC[:, :] = 0.
     if TCM is not None:
-        if np.linalg.det(TCM):
-            poles = 1./(2.*np.pi)*(1./np.linalg.eigvals(TCM) + shift)
-        else:
-            return calculate_singularities(mc, input_source, output_port, MNA=MNA,
-                                           outfile=outfile, 
-                                           shift=shift+np.abs(1+np.random.uniform())*1e3)
+        poles = 1./(2.*np.pi)*(1./_finite_eigvals(TCM) + shift)
     else:
         poles = []
     if calc_zeros and TCM is not None:
@@ -312,28 +326,22 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
         ROUT = np.diag(np.atleast_1d(np.array(ROUT)))
         if ROUT.any():
             try:
-                if not np.all(ROUTIN) or not np.isfinite(ROUTIN):
+                if not np.isfinite(ROUTIN) or np.abs(ROUTIN) <= ROUTIN_min:
                     # immediate catch
                     raise ValueError("ROUT-IN is either Inf, NaN or null")
                 ZTCM = TCM - np.dot(RIIN, ROUT)/ROUTIN
                 if not (np.isfinite(ZTCM).all()):
                     raise ValueError("Array contains infs, NaNs or both")
                     # immediate catch
-                eigvals = np.linalg.eigvals(ZTCM)
-                if not np.all(eigvals) or not np.isfinite(eigvals).all():
-                    # immediate catch
-                    raise ValueError("ZTCM eigenvalues contain either Inf, NaN or null values")
-                zeros = 1./(2.*np.pi)*(1./np.linalg.eigvals(ZTCM) + shift)
+                zeros = 1./(2.*np.pi)*(1./_finite_eigvals(ZTCM) + shift)
             except ValueError:
-                return calculate_singularities(mc, input_source, output_port, 
-                                           MNA=MNA, outfile=outfile,
-                                           shift=shift+np.abs(np.random.uniform()+1)*1e3)
-        elif shift < 1e12:
-            return calculate_singularities(mc, input_source, output_port, 
-                                       MNA=MNA, outfile=outfile,
-                                       shift=shift*np.abs(np.random.uniform()+1)*10)
+                if np.abs(shift) < options.pz_max:
+                    return calculate_singularities(mc, input_source, output_port,
+                                               MNA=MNA, outfile=outfile,
+                                               shift=_next_shift(shift))
+                zeros = [] # there is no transfer at any frequency
         else:
-            zeros = []
+            zeros = [] # the transfer does not depend on frequency
     else:
         zeros = []
     poles = np.array([a for a in poles if np.abs(a) < options.pz_max], dtype=np.complex_)
-- 
2.43.0


From c3abd55f1768c4e90dd9272af92c7bb71ed27b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 50/57] fix: coupled inductors in pole-zero analysis

---
 ahkab/pz.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index a32819f..92a19df 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -106,6 +106,12 @@ def _enlarge_matrix(M):
         return np.vstack((np.hstack((M, np.zeros((M.shape[0], 1)))),
                          np.zeros((1, M.shape[1] + 1))))
 
+def _add_couplings(mc, elem, MC, nodes_m1):
+    """The voltages the current of ``elem`` induces in the coupled inductors"""
+    for cd in elem.coupling_devices:
+        other = mc.find_vde_index(cd.get_other_inductor(elem.part_id), verbose=0)
+        MC[nodes_m1 + other, 0] += -1.*cd.M/elem.value
+
 def _next_shift(shift):
     """The frequency to be tried if the algorithm can't be run at ``shift``"""
     if np.abs(shift) > options.pz_max:
@@ -245,6 +251,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
         elif isinstance(e1, components.Inductor):
             MC[nodes_m1 + vde1] += -1.
+            _add_couplings(mc, e1, MC, nodes_m1)
         elif calc_zeros and e1.part_id == input_source:
             if isinstance(e1, components.sources.VSource):
                 MC[nodes_m1 + vde1] += -1.
@@ -308,6 +315,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                 MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
             elif isinstance(e1, components.Inductor):
                 MC[nodes_m1 + vde1, 0] += -1.
+                _add_couplings(mc, e1, MC, nodes_m1)
             else:
                 continue
             TV = -1.*np.dot(MNAinv, MC)
-- 
2.43.0


From 3dfdb212312b8243e025badd74e2d7e15269e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 51/57] fix: pole-zero output given as V(node)

---
 ahkab/pz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 92a19df..a4f8c84 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -196,7 +196,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             input_source = input_source.part_id
         if type(output_port) in py3compat.string_types:
             output_port = plotting._split_netlist_label(output_port)[0] 
-            output_port = [o[1:] for o in output_port]
+            output_port = [o[1:] for o in output_port if o is not None]
             output_port = [o.lower() for o in output_port]
             if len(output_port) == 1:
                 # we refer to the ground implicitely
-- 
2.43.0


From 710be1a6c30dc486ce6d7bfe9d04bf4b0b9b2a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 52/57] fix: pole-zero analysis rejects nearly singular shifts,
 keeps its poles when it looks for zeros; calculate_poles works

---
 ahkab/pz.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index a4f8c84..6f2e64d 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -118,6 +118,20 @@ def _next_shift(shift):
         raise ValueError("PZ: the circuit equations are singular at all frequencies.")
     return 10.*np.abs(shift) if shift else 1.
 
+def _invert(M, shift):
+    # the inverse of M. Matrices that are singular in the available precision
+    # are rejected too, as long as there are other shift values to try.
+    Minv = np.linalg.inv(M)
+    if np.abs(shift) <= options.pz_max:
+        scaled = np.array(M)
+        for _ in range(3):
+            scaled /= np.max(np.abs(scaled), axis=1).reshape((-1, 1))
+            scaled /= np.max(np.abs(scaled), axis=0).reshape((1, -1))
+        if not np.linalg.cond(scaled) < 1e13:
+            raise np.linalg.LinAlgError('Singular matrix')
+    return Minv
+
+
 def _finite_eigvals(M):
     """The eigenvalues of ``M`` which differ from zero: the remaining ones
     are singularities at infinity, eg of two capacitors in parallel."""
@@ -148,8 +162,9 @@ def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     pz_sol : pz_solution instance
         The PZ solution, with no zeros.
     """
-    return calculate_singularities(mc, input_source=None, output_port=None, 
-                                   MNA=None, shift=0)[0]
+    return calculate_singularities(mc, input_source=None, output_port=None,
+                                   MNA=MNA, x0=x0, shift=0, outfile=outfile,
+                                   verbose=verbose)
 
 def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                             x0=None, shift=0, outfile=None, verbose=0):
@@ -233,7 +248,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             MNA[1:, 1:] += J
     D = transient.generate_D(mc, MNA[1:, 1:].shape)
     try:
-        MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
+        MNAinv = _invert(MNA[1:, 1:] + shift*D[1:, 1:], shift)
     except np.linalg.LinAlgError:
         # there is a pole right there
         return calculate_singularities(mc, input_source, output_port, MNA=MNA,
@@ -344,10 +359,12 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                 zeros = 1./(2.*np.pi)*(1./_finite_eigvals(ZTCM) + shift)
             except ValueError:
                 if np.abs(shift) < options.pz_max:
-                    return calculate_singularities(mc, input_source, output_port,
-                                               MNA=MNA, outfile=outfile,
-                                               shift=_next_shift(shift))
-                zeros = [] # there is no transfer at any frequency
+                    res = calculate_singularities(mc, input_source, output_port,
+                                                  MNA=MNA, outfile=outfile,
+                                                  shift=_next_shift(shift))
+                    zeros = res.zeros
+                else:
+                    zeros = [] # there is no transfer at any frequency
         else:
             zeros = [] # the transfer does not depend on frequency
     else:
-- 
2.43.0


From 2020a2ec91f544e5e714a93fe988fb7c07bf08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 53/57] fix: text of time functions: labels the parser knows,
 phase of sin, points of pwl

---
 ahkab/time_functions.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index 33ddf3f..100987d 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -464,8 +464,8 @@ class pulse(object):
 
     def __str__(self):
         return "type=pulse " + \
-            self._type.lower() + "1=" + str(self.v1) + " " + \
-            self._type.lower() + "2=" + str(self.v2) + \
+            "v1=" + str(self.v1) + " " + \
+            "v2=" + str(self.v2) + \
             " td=" + str(self.td) + " per=" + str(self.per) + \
             " tr=" + str(self.tr) + " tf=" + str(self.tf) + \
             " pw=" + str(self.pw)
@@ -535,10 +535,10 @@ class sin(object):
 
     def __str__(self):
         return "type=sin " + \
-            self._type.lower() + "o=" + str(self.vo) + " " + \
-            self._type.lower() + "a=" + str(self.va) + \
+            "vo=" + str(self.vo) + " " + \
+            "va=" + str(self.va) + \
             " freq=" + str(self.freq) + " theta=" + str(self.theta) + \
-            " td=" + str(self.td)
+            " td=" + str(self.td) + " phase=" + str(self.phi)
 
 
 class exp(object):
@@ -611,8 +611,8 @@ class exp(object):
 
     def __str__(self):
         return "type=exp " + \
-            self._type.lower() + "1=" + str(self.v1) + " " + \
-            self._type.lower() + "2=" + str(self.v2) + \
+            "v1=" + str(self.v1) + " " + \
+            "v2=" + str(self.v2) + \
             " td1=" + str(self.td1) + " td2=" + str(self.td2) + \
             " tau1=" + str(self.tau1) + " tau2=" + str(self.tau2)
 
@@ -841,11 +841,11 @@ class pwl(object):
         pwl_str = "type=pwl"
         tv = " "
         for x, y in zip(self.x, self.y):
-            tv += "%g %g "
+            tv += "%g %g " % (x, y)
         pwl_str += tv
         if self.td:
             pwl_str += "td=%g " % self.td
         if self.repeat:
-            pwl_str = "RPT=%g " % self.repeat_time
+            pwl_str += "RPT=%g " % self.repeat_time
         return pwl_str[:-1]
 
-- 
2.43.0


From 19706b41f45f2ef9d031f4837643dcd5a9492859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 54/57] fix: str() of current-controlled sources

---
 ahkab/components/sources/FISource.py | 3 +++
 ahkab/components/sources/HVSource.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ahkab/components/sources/FISource.py b/ahkab/components/sources/FISource.py
index 50e7d0a..c6f3ee5 100644
--- a/ahkab/components/sources/FISource.py
+++ b/ahkab/components/sources/FISource.py
@@ -69,6 +69,9 @@ class FISource(Component):
         self.is_nonlinear = False
         self.is_symbolic = True
 
+    def __str__(self):
+        return "value=%s" % self.alpha
+
     def get_netlist_elem_line(self, nodes_dict):
         """A netlist line that, parsed, evaluates to the same instance
 
diff --git a/ahkab/components/sources/HVSource.py b/ahkab/components/sources/HVSource.py
index a70c316..7e45070 100644
--- a/ahkab/components/sources/HVSource.py
+++ b/ahkab/components/sources/HVSource.py
@@ -68,6 +68,9 @@ class HVSource(Component):  # H
         self.is_nonlinear = False
         self.is_symbolic = True
 
+    def __str__(self):
+        return "value=%s" % self.alpha
+
     def get_netlist_elem_line(self, nodes_dict):
         """A netlist line that, parsed, evaluates to the same instance
 
-- 
2.43.0


From 5e8e0719d547f0aa827fe0176d8f7e785c311571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 55/57] fix: generated netlist lines of sources, and of
 elements with initial conditions, parse back

---
 ahkab/components/Component.py       |  5 ++++-
 ahkab/components/sources/ISource.py | 14 ++++++++------
 ahkab/components/sources/VSource.py | 10 ++++++----
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/ahkab/components/Component.py b/ahkab/components/Component.py
index 1d25a32..8ce391b 100644
--- a/ahkab/components/Component.py
+++ b/ahkab/components/Component.py
@@ -178,5 +178,8 @@ class Component(object):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        line = "%s %s %s %g" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], self.value)
+        if getattr(self, 'ic', None) is not None:
+            line += " ic=%g" % self.ic
+        return line
diff --git a/ahkab/components/sources/ISource.py b/ahkab/components/sources/ISource.py
index 8bcffed..10df4e1 100644
--- a/ahkab/components/sources/ISource.py
+++ b/ahkab/components/sources/ISource.py
@@ -61,10 +61,11 @@ class ISource(Component):
     def __str__(self):
         rep = ""
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
+            sign = "-" if abs(self.arg_ac) == np.pi else ""
+            rep = rep + "iac=" + sign + str(self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
@@ -116,10 +117,11 @@ class ISource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
+            sign = "-" if abs(self.arg_ac) == np.pi else ""
+            rep = rep + "iac=" + sign + str(self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/components/sources/VSource.py b/ahkab/components/sources/VSource.py
index 70e5cc2..9755255 100644
--- a/ahkab/components/sources/VSource.py
+++ b/ahkab/components/sources/VSource.py
@@ -64,10 +64,11 @@ class VSource(Component):
     def __str__(self):
         rep = ""
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
             #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            sign = "-" if abs(self.arg_ac) == np.pi else ""
+            rep = rep + "vac=" + sign + str(self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
@@ -115,10 +116,11 @@ class VSource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
             #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            sign = "-" if abs(self.arg_ac) == np.pi else ""
+            rep = rep + "vac=" + sign + str(self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
-- 
2.43.0


From 3604543d4a4f90331613ee6f33d8ffb4b44c712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:27 +0000
Subject: [PATCH 56/57] fix: solve linear systems with the full Newton step
 whatever the damping options

With nr_damp_first_iters set, the single step taken for a linear circuit was
damped to 1% and the result reported as converged.
---
 ahkab/dc_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index c1efea3..24a8ff3 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -832,11 +832,13 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
-        x = x + get_td(dx, locked_nodes, n=iteration) * dx
         if not nonlinear_circuit:
+            # the system is linear: the full step is its solution
+            x = x + dx
             converged = True
             break
-        elif convergence_check(x, dx, residuo, nv - 1)[0]:
+        x = x + get_td(dx, locked_nodes, n=iteration) * dx
+        if convergence_check(x, dx, residuo, nv - 1)[0]:
             converged = True
             break
         # if vector_norm(dx) == np.nan: #Overflow
-- 
2.43.0


From bacec10247cb0deddeb55c9bc98408dc94afd98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:03 +0000
Subject: [PATCH 57/57] fix: cached values of device functions depend on the
 tolerances and on attributes of any numeric type

---
 ahkab/utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index a13a2ff..f966b03 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -732,11 +732,14 @@ def memoize(f):
             return arg
         return (arg,) + tuple((k, v) for k, v in sorted(attrs.items())
                               if k != 'last_vd' and
-                              isinstance(v, (int, float, str, tuple)))
+                              isinstance(v, (int, float, np.generic, str,
+                                             tuple)))
 
     class memodict(collections.OrderedDict):
         def __call__(self, *args):
-            key = tuple(state(arg) for arg in args)
+            # the tolerances the functions make use of may be changed as well
+            key = (options.gmin, options.iea, options.vea) + \
+                  tuple(state(arg) for arg in args)
             if key in self:
                 return self[key]
             ret = self[key] = f(*args)
-- 
2.43.0

