From 85a3bd00618446b57fcccd0c06f42eafe8e24f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 01/40] fix: nonlinear shear strain is w,x*w,y, not twice that

The membrane shear of the Donnell kinematics is u,y + v,x + w,x*w,y.  The strain
field and the membrane forces of the numerical geometric stiffness used
2*w,x*w,y, so that the tangent stiffness was not the Hessian of the strain
energy.
---
 panels/models/clpt_bardell_field.pyx                | 2 +-
 panels/models/cylshell_clpt_donnell_bardell_num.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell_num.pyx    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index b310687..8cf3a3c 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -502,7 +502,7 @@ cdef void cfstrain(double *c, int m, int n, double a, double b,
                     eyy += c[col+1]*fv[i]*gveta[j]*(2/b) + 1/r*c[col+2]*fw[i]*gw[j] + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta
                 else:
                     eyy += c[col+1]*fv[i]*gveta[j]*(2/b) + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta
-                gxy += c[col+0]*fu[i]*gueta[j]*(2/b) + c[col+1]*fvxi[i]*gv[j]*(2/a) + NLgeom*4/(a*b)*(
+                gxy += c[col+0]*fu[i]*gueta[j]*(2/b) + c[col+1]*fvxi[i]*gv[j]*(2/a) + NLgeom*2/(a*b)*(
                                         c[col+2]*fwxi[i]*gw[j]*weta +
                                         wxi*c[col+2]*fw[i]*gweta[j] )
                 kxx += -c[col+2]*fwxixi[i]*gw[j]*4/(a*a)
diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index 2939b5f..4d48145 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -469,7 +469,7 @@ def fkG_num(double [::1] cs, object Finput, object shell,
 
                         exx += cs[col+0]*(2/a)*fAuxi*gAu + 0.5*cs[col+2]*(2/a)*fAwxi*gAw*(2/a)*wxi
                         eyy += cs[col+1]*(2/b)*fAv*gAveta + 1/r*cs[col+2]*fAw*gAw + 0.5*cs[col+2]*(2/b)*fAw*gAweta*(2/b)*weta
-                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
+                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + 0.5*cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + 0.5*cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
                         kxx += -cs[col+2]*(2/a*2/a)*fAwxixi*gAw
                         kyy += -cs[col+2]*(2/b*2/b)*fAw*gAwetaeta
                         kxy += -2*cs[col+2]*(2/a)*fAwxi*(2/b)*gAweta
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 1e19deb..f8526b7 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -470,7 +470,7 @@ def fkG_num(double [::1] cs, object Finput, object shell,
 
                         exx += cs[col+0]*(2/a)*fAuxi*gAu + 0.5*cs[col+2]*(2/a)*fAwxi*gAw*(2/a)*wxi
                         eyy += cs[col+1]*(2/b)*fAv*gAveta + 0.5*cs[col+2]*(2/b)*fAw*gAweta*(2/b)*weta
-                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
+                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + 0.5*cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + 0.5*cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
                         kxx += -cs[col+2]*(2/a*2/a)*fAwxixi*gAw
                         kyy += -cs[col+2]*(2/b*2/b)*fAw*gAwetaeta
                         kxy += -2*cs[col+2]*(2/a)*fAwxi*(2/b)*gAweta
-- 
2.43.0


From c1eb863290592a8d1aabadd712d310142cc3d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 02/40] fix: sign of the offset coupling in the mass matrix

The reference surface offset is along +z, as in the laminate stiffness, and
velocities are u - z*w,x, so the coupling of u, v with the slopes of w is
-rho*h*offset.  With the opposite sign natural frequencies of an unrestrained
plate depended on the choice of the reference surface.
---
 panels/models/cylshell_clpt_donnell_bardell.pyx  | 8 ++++----
 panels/models/plate_clpt_donnell_bardell.pyx     | 8 ++++----
 panels/models/plate_clpt_donnell_bardell_num.pyx | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index c800f12..ab5e4d4 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -417,7 +417,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -425,15 +425,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 71b0f50..e0bf76b 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -415,7 +415,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -423,15 +423,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index f8526b7..5657616 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -677,7 +677,7 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+0
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
@@ -687,17 +687,17 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+0
-                                kMv[c] += weight*( 0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+1
-                                kMv[c] += weight*( 0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
-- 
2.43.0


From 5b15ab176ccafba02ddd4c034a81e28980e6dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 03/40] fix: stale laminate and model after the definition of a
 shell changes

_rebuild() kept the ply lists and the model it had derived the first time, so a
later change of stack, plyt, laminaprop, rho or r was ignored or mixed with the
old values, and the calculations that did not call it used the laminate of an
earlier calculation or failed on a new shell.  Derived values are now derived
again, given ones are kept.
---
 panels/shell.py | 55 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 59ef4dd..8045bb9 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -89,6 +89,7 @@ class Shell(object):
         'num_eigvalues', 'num_eigvalues_print',
         'out_num_cores', 'increments', 'results',
         'lam', 'matrices', 'fields', 'plot_mesh',
+        '_derived', # values of model, laminaprops, rhos and plyts that were not given but derived
         ]
 
     def __init__(self, a=None, b=None, r=None,
@@ -120,6 +121,7 @@ class Shell(object):
         self.bay = None
 
         # model
+        self._derived = {}
         self.model = None
         self.fsdt_shear_correction = 5/6. # in case of First-order Shear Deformation Theory
 
@@ -238,14 +240,31 @@ class Shell(object):
         gc.collect()
 
 
+    def _is_derived(self, attr):
+        # not given, or the value derived by a previous call: must be derived
+        # again since the definition may have changed in the meantime
+        value = getattr(self, attr)
+        return (value is None or (not isinstance(value, str) and len(value) == 0)
+                or value is self._derived.get(attr))
+
+
+    def _derive(self, attr, value):
+        self._derived[attr] = value
+        setattr(self, attr, value)
+
+
+    def _rebuild_model(self):
+        if self._is_derived('model'):
+            if not self.r:
+                self._derive('model', 'plate_clpt_donnell_bardell')
+            else:
+                self._derive('model', 'cylshell_clpt_donnell_bardell')
+
+
     def _rebuild(self):
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
-        if self.model is None:
-            if self.r is None:
-                self.model = 'plate_clpt_donnell_bardell'
-            elif self.r is not None:
-                self.model = 'cylshell_clpt_donnell_bardell'
+        self._rebuild_model()
 
         valid_models = sorted(modelDB.db.keys())
 
@@ -256,18 +275,18 @@ class Shell(object):
         if not self.stack:
             raise ValueError('stack must be defined')
 
-        if not self.laminaprops:
+        if self._is_derived('laminaprops'):
             if not self.laminaprop:
                 raise ValueError('laminaprop must be defined')
-            self.laminaprops = [self.laminaprop for i in self.stack]
+            self._derive('laminaprops', [self.laminaprop for i in self.stack])
 
-        if not self.rhos:
-            self.rhos = [self.rho for i in self.stack]
+        if self._is_derived('rhos'):
+            self._derive('rhos', [self.rho for i in self.stack])
 
-        if not self.plyts:
+        if self._is_derived('plyts'):
             if self.plyt is None:
                 raise ValueError('plyt must be defined')
-            self.plyts = [self.plyt for i in self.stack]
+            self._derive('plyts', [self.plyt for i in self.stack])
 
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
@@ -298,6 +317,7 @@ class Shell(object):
             obtained by the :method:`.Shell.get_size`
 
         """
+        self._rebuild_model()
         dofs = modelDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
         return self.size
@@ -577,6 +597,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
+        self._rebuild()
         analytical_kM = True
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
@@ -629,7 +650,7 @@ class Shell(object):
         r"""Calculate the aerodynamic matrix using the linear piston theory
         """
         msg('Calculating kA... ', level=2, silent=silent)
-
+        self._rebuild_model()
 
         matrices_num = modelDB.db[self.model]['matrices_num']
 
@@ -733,6 +754,7 @@ class Shell(object):
 
 
         """
+        self._rebuild_model()
         c = np.ascontiguousarray(c, dtype=DOUBLE)
 
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
@@ -779,6 +801,8 @@ class Shell(object):
             ``(x, y, exx, eyy, gxy, kxx, kyy, kxy)``
 
         """
+        self._rebuild_model()
+        self.r = self.r if self.r is not None else 0.
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fstrain = modelDB.db[self.model]['field'].fstrain
@@ -836,6 +860,8 @@ class Shell(object):
         kyy = fields['kyy']
         kxy = fields['kxy']
         if ABD is None:
+            if self.stack:
+                self._rebuild()
             ABD = self.ABD
         if ABD is None:
             raise ValueError('Laminate ABD matrix not defined for shell')
@@ -1073,8 +1099,8 @@ class Shell(object):
            account in the calculations.
 
         """
-        fg = modelDB.db[self.model]['field'].fg
         size = self.get_size()
+        fg = modelDB.db[self.model]['field'].fg
         g = np.zeros((5, size), dtype=DOUBLE)
         fg(g, x, y, self)
         gu, gv, gw, gphix, gphiy = g
@@ -1167,6 +1193,9 @@ class Shell(object):
 
         """
         msg('Calculating internal forces...', level=2, silent=silent)
+        if self.stack:
+            self._rebuild()
+        self._rebuild_model()
         model = self.model
         if not model in modelDB.db.keys():
             raise ValueError(
-- 
2.43.0


From 3e888940642a86d60efed1b69a6b7949eac77b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 04/40] fix: check the length of the Ritz constants in uvw,
 strain and calc_fint

The kernels do not check bounds and read beyond the end of a short vector.
---
 panels/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 8045bb9..07842d8 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -756,6 +756,7 @@ class Shell(object):
         """
         self._rebuild_model()
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
 
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fuvw = modelDB.db[self.model]['field'].fuvw
@@ -804,6 +805,7 @@ class Shell(object):
         self._rebuild_model()
         self.r = self.r if self.r is not None else 0.
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fstrain = modelDB.db[self.model]['field'].fstrain
         exx, eyy, gxy, kxx, kyy, kxy = fstrain(c, self, xs, ys, self.out_num_cores, int(NLgeom))
@@ -1220,6 +1222,7 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, size)
         fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
 
         gc.collect()
-- 
2.43.0


From a82d4a35676ad6407c77de219cddaa0d7cbc31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 05/40] fix: connections that list their panels in any order,
 without changing the dictionary

The dictionary given by the user had its positions swapped in place, the
panels of SB and BF connections had their roles exchanged when the second one
comes first in the assembly, and a panel connected to itself used whatever
panels the previous connection had.
---
 panels/multidomain/multidomain.py | 62 +++++++++++++++++--------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a53fe8b..3ed4645 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -29,6 +29,23 @@ def default_field(panel, gridx, gridy):
     return xs, ys, shape
 
 
+def upper_coupling(k12, p1, p2):
+    r"""Coupling terms of a connection, placed in the upper triangle
+
+    The functions ``fkC..12`` place the coupling block at the rows of ``p1``
+    and columns of ``p2``, which is in the lower triangle if ``p2`` comes
+    first in the assembly, and on the diagonal if a panel is connected to
+    itself.
+
+    """
+    if p1.row_start < p2.row_start:
+        return k12
+    elif p1.row_start > p2.row_start:
+        return k12.T
+    else:
+        return k12 + k12.T
+
+
 class MultiDomain(object):
     r"""Class for multi-domain semi-analytical approach
 
@@ -777,27 +794,9 @@ class MultiDomain(object):
         # Looping through each connection pair 
         for connecti in conn:
             # connecti = ith connection pair
-            p1_temp = connecti['p1']
-            p2_temp = connecti['p2']
-            if p1_temp.col_start < p2_temp.col_start:
-                pA = p1_temp
-                pB = p2_temp
-            elif p1_temp.col_start > p2_temp.col_start:
-                pA = p2_temp
-                pB = p1_temp
-                if connecti['func'] == 'SB':
-                    pass
-                else:
-                    if 'xcte1' in connecti.keys() and 'xcte2' in connecti.keys():
-                        temp_xcte = connecti['xcte1']
-                        connecti['xcte1'] = connecti['xcte2']
-                        connecti['xcte2'] = temp_xcte
-                    # y needs to be tested
-                    if 'ycte1' in connecti.keys() and 'ycte2' in connecti.keys():
-                        temp_ycte = connecti['ycte1']
-                        connecti['ycte1'] = connecti['ycte2']
-                        connecti['ycte2'] = temp_ycte
-            
+            pA = connecti['p1']
+            pB = connecti['p2']
+
             connection_function = connecti['func'] # Type of connection
             
             if connection_function == 'SSycte':
@@ -812,9 +811,10 @@ class MultiDomain(object):
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
                 # adds the penalty stiffness to ycte of panel 1 and panel 2 coupling position
-                kC_conn += connections.kCSSycte.fkCSSycte12(
+                k12 = connections.kCSSycte.fkCSSycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_coupling(k12, pA, pB)
                 # adds the penalty stiffness to ycte of panel pB position
                 kC_conn += connections.kCSSycte.fkCSSycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
@@ -825,9 +825,10 @@ class MultiDomain(object):
                 kC_conn += connections.kCSSxcte.fkCSSxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSSxcte.fkCSSxcte12(
+                k12 = connections.kCSSxcte.fkCSSxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_coupling(k12, pA, pB)
                 kC_conn += connections.kCSSxcte.fkCSSxcte22(
                         kt, kr, pA, pB, connecti['xcte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -838,8 +839,9 @@ class MultiDomain(object):
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                k12 = connections.kCSB.fkCSB12(kt, dsb, pA, pB,
                         size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_coupling(k12, pA, pB)
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
             
@@ -848,9 +850,10 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFycte.fkCBFycte11(
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFycte.fkCBFycte12(
+                k12 = connections.kCBFycte.fkCBFycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_coupling(k12, pA, pB)
                 kC_conn += connections.kCBFycte.fkCBFycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -860,9 +863,10 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFxcte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFxcte.fkCBFxcte12(
+                k12 = connections.kCBFxcte.fkCBFxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_coupling(k12, pA, pB)
                 kC_conn += connections.kCBFxcte.fkCBFxcte22(
                         kt, kr, pA, pB, connecti['xcte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -873,9 +877,10 @@ class MultiDomain(object):
                 kC_conn += connections.kCLTxycte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCLTxycte.fkCBFxycte12(
+                k12 = connections.kCLTxycte.fkCBFxycte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['ycte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_coupling(k12, pA, pB)
                 kC_conn += connections.kCLTxycte.fkCBFycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -889,8 +894,9 @@ class MultiDomain(object):
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                k12 = connections.kCSB.fkCSB12(kt, dsb, pA, pB,
                         size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_coupling(k12, pA, pB)
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
                 
-- 
2.43.0


From 8be59e5b57302e80e2fe935aeda95566a71112de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 06/40] fix: connection stiffness of the connections and panels
 that are current

It was kept from the first call, whatever connections or finalize argument
the next ones got and however the panels were changed.
---
 panels/multidomain/multidomain.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 3ed4645..02f08df 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -784,13 +784,10 @@ class MultiDomain(object):
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
 
-        if self.kC_conn is not None:
-            return self.kC_conn
-
         size = self.get_size()
 
-        kC_conn = 0.
-        
+        kC_conn = csr_matrix((size, size), dtype=DOUBLE)
+
         # Looping through each connection pair 
         for connecti in conn:
             # connecti = ith connection pair
@@ -888,6 +885,8 @@ class MultiDomain(object):
             # Traction Seperation Law introduced at the interface
             elif connection_function == 'SB_TSL':
                 tsl_type = connecti['tsl_type']
+                pA._rebuild()
+                pB._rebuild()
                 kt = connections.calc_kw_tsl(pA, pB, tsl_type)
                 print(kt)
                 
@@ -954,7 +953,7 @@ class MultiDomain(object):
         # NOTE move this to another class method? it's a bid hidden
         # Adding kC_conn to KC panel
         kC_conn = self.get_kC_conn(conn=conn)
-        kC += self.kC_conn
+        kC += kC_conn
 
         self.kC = kC
         msg('finished!', level=2, silent=silent)
-- 
2.43.0


From 6ca40c1ac6800de5dc547d1ff8e8cc91739f590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 07/40] fix: calc_kT and calc_fint of an assembly raised
 TypeError

---
 panels/multidomain/multidomain.py | 2 +-
 panels/shell.py                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 02f08df..60454d3 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -1019,7 +1019,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kT += p.calc_kC(c=c, size=size, row0=p.row_start, col0=p.col_start,
-                    silent=silent, finalize=False, inc=inc, NLgeom=True)
+                    silent=silent, finalize=False, NLgeom=True)
             kT += p.calc_kG(c=c, size=size, row0=p.row_start,
                     col0=p.col_start, silent=silent, finalize=False, NLgeom=True)
         if finalize:
diff --git a/panels/shell.py b/panels/shell.py
index 07842d8..c05acef 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1223,7 +1223,7 @@ class Shell(object):
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         check_c(c, size)
-        fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
+        fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
 
-- 
2.43.0


From f82eaeae10156812537c72b407fc30ed405f3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 08/40] fix: panels used in two assemblies or changed after the
 assembly was made

The positions of the panels were those of the last assembly created.
---
 panels/multidomain/multidomain.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 60454d3..189c2aa 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -99,10 +99,15 @@ class MultiDomain(object):
         self.panels = panels
         self.size = None
         self.out_num_cores = 4
-        row0 = 0
-        col0 = 0
         for p in panels:
             assert isinstance(p, Shell) # Check if its Shell obj
+        self._set_positions()
+
+
+    def _set_positions(self):
+        row0 = 0
+        col0 = 0
+        for p in self.panels:
             # This actually modifies the shell obj (i.e. passed panels)
             p.row_start = row0 # 1st panel starts at 0,0. Rest start at end of last matrix  --- Assembly of Kp_i from the paper
             p.col_start = col0
@@ -116,6 +121,8 @@ class MultiDomain(object):
         '''
         Size of K of a single panel
         '''
+        # The panels could have been changed or used in another assembly
+        self._set_positions()
         self.size = sum([3*p.m*p.n for p in self.panels])
         return self.size
 
-- 
2.43.0


From 380b254b9d29df83a4ed949c1c9e7bf0d6f80909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 09/40] fix: check c and bring the panels up to date in the
 fields of an assembly

---
 panels/multidomain/multidomain.py | 34 +++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 189c2aa..eff3964 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -372,6 +372,12 @@ class MultiDomain(object):
         return ax, data
 
 
+    def _check_c(self, c):
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
+        return c
+
+
     def uvw(self, c, group, gridx=50, gridy=50):
         r"""Calculate the displacement field
 
@@ -406,12 +412,14 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        c = self._check_c(c)
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
                 continue
             c_panel = c[panel.col_start: panel.col_end]
-            c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             fuvw = modelDB.db[model]['field'].fuvw
             x, y, shape = default_field(panel, gridx, gridy)
@@ -459,13 +467,15 @@ class MultiDomain(object):
         """
         
         # res = results
+        c = self._check_c(c)
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
             if panel.group != group:
                 continue
             c_panel = c[panel.col_start: panel.col_end]
-            c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             # In panels\panels\models - for plates, clpt_bardell_field
             fstrain = modelDB.db[model]['field'].fstrain
@@ -518,12 +528,14 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        c = self._check_c(c)
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
                 continue
             c_panel = c[panel.col_start: panel.col_end]
-            c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             fstrain = modelDB.db[model]['field'].fstrain
             x, y, shape = default_field(panel, gridx, gridy)
@@ -538,6 +550,8 @@ class MultiDomain(object):
             kyy = reshape(kyy, shape)
             kxy = reshape(kxy, shape)
             Ns = np.zeros((exx.shape + (6,)))
+            if panel.stack:
+                panel._rebuild()
             F = panel.ABD
             if F is None:
                 raise ValueError('Laminate ABD matrix not defined for panel')
@@ -586,12 +600,14 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        c = self._check_c(c)
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
                 continue
             c_panel = c[panel.col_start: panel.col_end]
-            c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             fuvw = modelDB.db[model]['field'].fuvw
             
@@ -655,13 +671,15 @@ class MultiDomain(object):
         
         
         # res = results
+        c = self._check_c(c)
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
             if panel.group != group:
                 continue
             c_panel = c[panel.col_start: panel.col_end]
-            c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             # In panels\panels\models - for plates, clpt_bardell_field
             fstrain = modelDB.db[model]['field'].fstrain
@@ -725,12 +743,14 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        c = self._check_c(c)
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
                 continue
             c_panel = c[panel.col_start: panel.col_end]
-            c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
+            panel._rebuild_model()
+            panel.r = panel.r if panel.r is not None else 0.
             model = panel.model
             fstrain = modelDB.db[model]['field'].fstrain
             
@@ -762,6 +782,8 @@ class MultiDomain(object):
             kyy = reshape(kyy, shape)
             kxy = reshape(kxy, shape)
             Ns = np.zeros((exx.shape + (6,)))
+            if panel.stack:
+                panel._rebuild()
             F = panel.ABD
             if F is None:
                 raise ValueError('Laminate ABD matrix not defined for panel')
-- 
2.43.0


From 12176d68a120037e26e6a5b9d21ff3a201f853d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 10/40] fix: default sampling points of a panel were those of
 the first panel of the group

---
 panels/multidomain/multidomain.py | 39 +++++++++++++++++--------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index eff3964..4fdcfab 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -613,14 +613,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            xs, ys = x_gauss, y_gauss
+            if xs is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xs = linspace(0, panel.a, no_grid_x)
+            if ys is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
-            
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+                ys = linspace(0, panel.b, no_grid_y)
+
+            xs, ys = np.meshgrid(xs, ys, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -686,14 +687,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            xs, ys = x_gauss, y_gauss
+            if xs is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xs = linspace(0, panel.a, no_grid_x)
+            if ys is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
-            
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+                ys = linspace(0, panel.b, no_grid_y)
+
+            xs, ys = np.meshgrid(xs, ys, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -756,14 +758,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            xs, ys = x_gauss, y_gauss
+            if xs is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xs = linspace(0, panel.a, no_grid_x)
+            if ys is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
-            
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+                ys = linspace(0, panel.b, no_grid_y)
+
+            xs, ys = np.meshgrid(xs, ys, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
-- 
2.43.0


From 146967986e676e15d115014553e35406ce9de44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 11/40] fix: aerodynamic matrix of curved shells and of shells
 with free edges

The upper triangle was mirrored as for a skew-symmetric matrix, which changed
the sign of half of the curvature correction and is not the work of the
aerodynamic pressure when the edges are not supported.
---
 .../cylshell_clpt_donnell_bardell_num.pyx     | 10 +++------
 .../models/plate_clpt_donnell_bardell_num.pyx | 21 +++++++------------
 panels/multidomain/tstiff2d_1stiff_flutter.py |  3 +--
 panels/shell.py                               |  4 ++--
 panels/stiffpanelbay/stiffpanelbay.py         |  4 ++--
 5 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index 4d48145..fdea2d8 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -536,7 +536,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fAwxi, fBw, gAw, gBw
+    cdef double fAw, fBw, fBwxi, gAw, gBw
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -610,10 +610,10 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                 c = -1
                 for i in range(m):
                     fAw = f(i, xi, x1w, x1wr, x2w, x2wr)
-                    fAwxi = fp(i, xi, x1w, x1wr, x2w, x2wr)
 
                     for k in range(m):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
+                        fBwxi = fp(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
                             gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
@@ -623,17 +623,13 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma + 2*beta*fAw*fBwxi*gAw*gBw/a) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 5657616..9ed8cb2 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -722,7 +722,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fAwxi, fBw, gAw, gBw
+    cdef double fAw, fBw, fBwxi, gAw, gBw
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -796,10 +796,10 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                 c = -1
                 for i in range(m):
                     fAw = f(i, xi, x1w, x1wr, x2w, x2wr)
-                    fAwxi = fp(i, xi, x1w, x1wr, x2w, x2wr)
 
                     for k in range(m):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
+                        fBwxi = fp(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
                             gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
@@ -809,17 +809,13 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma + 2*beta*fAw*fBwxi*gAw*gBw/a) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
@@ -838,7 +834,7 @@ def fkAy_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fBw, gAweta, gBw
+    cdef double fAw, fBw, gAw, gBw, gBweta
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -916,24 +912,21 @@ def fkAy_num(object shell, int size, int row0, int col0, int nx, int ny):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
-                            gAweta = fp(j, eta, y1w, y1wr, y2w, y2wr)
+                            gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
 
                             for l in range(n):
 
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
+                                gBweta = fp(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( -0.5*beta*fAw*fBw*gAweta*gBw*intx*inty/b )
+                                kAv[c] += weight*( 0.5*beta*fAw*fBw*gAw*gBweta*intx*inty/b )
 
     kAy = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 8d61feb..4d92903 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -1,7 +1,6 @@
 import numpy as np
 from scipy.sparse import csr_matrix
 
-from structsolve.sparseutils import make_skew_symmetric
 from structsolve import freq, static
 
 from panels.shell import Shell
@@ -343,7 +342,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
 
     assert np.any(np.isnan(kA.data)) == False
     assert np.any(np.isinf(kA.data)) == False
-    kA = csr_matrix(make_skew_symmetric(kA))
+    kA = csr_matrix(kA)
 
     eigvals, eigvecs = freq((k0 + kG + kA), kM, tol=0, sparse_solver=True, silent=True,
              num_eigvalues=25, num_eigvalues_print=5)
diff --git a/panels/shell.py b/panels/shell.py
index c05acef..02c59bd 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -8,7 +8,7 @@ from scipy.sparse.linalg import eigs, eigsh
 from scipy.linalg import eig
 from numpy import linspace, deg2rad
 from composites import laminated_plate
-from structsolve.sparseutils import remove_null_cols, make_skew_symmetric, finalize_symmetric_matrix
+from structsolve.sparseutils import remove_null_cols, finalize_symmetric_matrix
 
 from .logger import msg, warn
 from . import modelDB
@@ -691,7 +691,7 @@ class Shell(object):
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
             assert np.any(np.isinf(kA.data)) == False
-            kA = csr_matrix(make_skew_symmetric(kA))
+            kA = csr_matrix(kA)
         self.matrices['kA'] = kA
 
         #NOTE memory cleanup
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d44397..e18e246 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -5,7 +5,7 @@ from multiprocessing import cpu_count
 import numpy as np
 from scipy.sparse import csr_matrix
 from numpy import linspace, reshape
-from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetric
+from structsolve.sparseutils import finalize_symmetric_matrix
 
 from panels.logger import msg
 from panels import Shell, modelDB as panelmDB
@@ -742,7 +742,7 @@ class StiffPanelBay(object):
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-        kA = csr_matrix(make_skew_symmetric(kA))
+        kA = csr_matrix(kA)
         self.kA = kA
 
         #NOTE forcing Python garbage collector to clean the memory
-- 
2.43.0


From 7a6820fdf09f8a3cc1d4022521719031fa08d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 12/40] fix: calc_kA kept the first aerodynamic parameters and
 changed the Mach number

---
 panels/shell.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 02c59bd..d914573 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -666,9 +666,9 @@ class Shell(object):
                 raise ValueError('Mach number cannot be a NoneValue')
             elif self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
             Mach = self.Mach
+            if Mach == 1:
+                Mach = 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if self.r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -678,15 +678,19 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
-        self.beta = beta
-        self.gamma = gamma
-
-        if self.flow.lower() == 'x':
-            kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-        elif self.flow.lower() == 'y':
-            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
-        else:
-            raise ValueError('Invalid flow value, must be x or y')
+        given = (self.beta, self.gamma)
+        try:
+            # the functions read beta and gamma from the shell
+            self.beta = beta
+            self.gamma = gamma
+            if self.flow.lower() == 'x':
+                kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
+            elif self.flow.lower() == 'y':
+                kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
+            else:
+                raise ValueError('Invalid flow value, must be x or y')
+        finally:
+            self.beta, self.gamma = given
 
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
-- 
2.43.0


From 62a66ad2709a6e305671bb268d255f31f8c78f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 13/40] fix: too few integration points for kA after more terms
 are requested

---
 panels/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index d914573..0c64267 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -254,6 +254,8 @@ class Shell(object):
 
 
     def _rebuild_model(self):
+        self.nx = max(self.nx, self.m)
+        self.ny = max(self.ny, self.n)
         if self._is_derived('model'):
             if not self.r:
                 self._derive('model', 'plate_clpt_donnell_bardell')
@@ -262,8 +264,6 @@ class Shell(object):
 
 
     def _rebuild(self):
-        self.nx = max(self.nx, self.m)
-        self.ny = max(self.ny, self.n)
         self._rebuild_model()
 
         valid_models = sorted(modelDB.db.keys())
-- 
2.43.0


From 16e0216054ff62e269020145b24b2c0b46c07652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 14/40] fix: calc_cA raised AttributeError and did not return
 the matrix

---
 panels/shell.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 0c64267..76fa4f6 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -711,10 +711,14 @@ class Shell(object):
         """
         msg('Calculating cA... ', level=2, silent=silent)
 
+        self._rebuild_model()
+
         if size is None:
             size = self.get_size()
-        matrices_num = modelDB.db[self.model]['matrices_num']
-        cA = matrices_num.fcA(aeromu, self, size, 0, 0)
+        elif isinstance(size, str):
+            size = int(size) + self.get_size()
+        matrices = modelDB.db[self.model]['matrices']
+        cA = matrices.fcA(aeromu, self, size, 0, 0)
         cA = cA*(0+1j)
 
         if finalize:
@@ -726,6 +730,8 @@ class Shell(object):
 
         msg('finished!', level=2, silent=silent)
 
+        return cA
+
 
     def uvw(self, c, xs=None, ys=None, gridx=300, gridy=300):
         r"""Calculate the displacement field
-- 
2.43.0


From aa2e1c6e5bdd44eddbe64c72d8e7c730c11faec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 15/40] fix: force_orthotropic_laminate was ignored by the
 analytical kC

---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index ab5e4d4..5e1ae0e 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -75,7 +75,7 @@ def fk0(object shell, int size, int row0, int col0):
     a = shell.a
     b = shell.b
     r = shell.r
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index e0bf76b..d4219df 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -73,7 +73,7 @@ def fk0(object shell, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From b622c6d0db1dea36798e599955af27b62ff7a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 16/40] fix: analytical mass matrix ignored the densities given
 for each ply

---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 4 ++--
 panels/models/plate_clpt_donnell_bardell.pyx    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index 5e1ae0e..0a0c7da 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -359,8 +359,8 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
-    h = sum(shell.plyts)
+    h = shell.lam.h
+    rho = shell.lam.intrho/h
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index d4219df..6d8f5dd 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -357,8 +357,8 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
-    h = sum(shell.plyts)
+    h = shell.lam.h
+    rho = shell.lam.intrho/h
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From 61d60b1f64d1be68bb74f19c261a09199058f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 17/40] fix: coupling of the in-plane and out-of-plane inertia
 of BladeStiff1D twice too big

---
 .../stiffener/models/bladestiff1d_clt_donnell_bardell.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
index 9b56860..15197b4 100644
--- a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
+++ b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
@@ -233,7 +233,7 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+0
                         kMfc[c] = col+2
-                        kMfv[c] += 2*bf*df*fAufBwxi*gAu*gBw*hf*rho
+                        kMfv[c] += bf*df*fAufBwxi*gAu*gBw*hf*rho
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+1
@@ -241,15 +241,15 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+2
-                        kMfv[c] += 2*a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
+                        kMfv[c] += a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+0
-                        kMfv[c] += 2*bf*df*fAwxifBu*gAw*gBu*hf*rho
+                        kMfv[c] += bf*df*fAwxifBu*gAw*gBu*hf*rho
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+1
-                        kMfv[c] += 2*a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
+                        kMfv[c] += a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+2
-- 
2.43.0


From edf5c3d424bb02a47842671dc32e90885efa0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 18/40] fix: rotary inertia of BladeStiff1D flanges ignored the
 thickness of the base

---
 panels/stiffener/bladestiff1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 015c9ec..51a2f93 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -76,6 +76,7 @@ class BladeStiff1D(object):
         bay = self.bay
         if self.bstack is not None:
             hb = sum(self.bplyts)
+            self.hb = hb
             y1 = self.ys - self.bb/2.
             y2 = self.ys + self.bb/2.
             self.base = Shell(a=bay.a, b=bay.b, r=bay.r,
-- 
2.43.0


From e7bcf39997ae7e88d5785969588283c7d33872ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 19/40] fix: stiffeners with a base and no flange raised an
 error

---
 panels/stiffener/bladestiff1d.py      | 7 ++++---
 panels/stiffpanelbay/stiffpanelbay.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 51a2f93..929af25 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -93,9 +93,10 @@ class BladeStiff1D(object):
             self.Asb = self.bb*hb
 
         #TODO check offset effect on curved panels
-        self.dbf = self.bf/2. + hb + h/2.
-        self.Iyy = self.hf*self.bf**3/12.
-        self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
+        if self.fstack is not None:
+            self.dbf = self.bf/2. + hb + h/2.
+            self.Iyy = self.hf*self.bf**3/12.
+            self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
 
         Asb = self.Asb if self.Asb is not None else 0.
         Asf = self.Asf if self.Asf is not None else 0.
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index e18e246..172ddc5 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -218,7 +218,8 @@ class StiffPanelBay(object):
         self.size = dofs*self.m*self.n
 
         for s in self.bladestiff2ds:
-            self.size += s.flange.get_size()
+            if s.flange is not None:
+                self.size += s.flange.get_size()
 
         for s in self.tstiff2ds:
             self.size += s.base.get_size() + s.flange.get_size()
-- 
2.43.0


From e6e7a08d6fe832bfdb43e97213719980141c3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 20/40] fix: calc_kC read invalid memory when c or c_cte were
 not given

---
 panels/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 76fa4f6..000ae69 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -460,7 +460,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         self.r = self.r if self.r is not None else 0.
 
-        if c is None and ABDnxny is None:
+        if c is None:
             # Empty c if the interest is only on the heterogeneous
             # laminate properties
             c = np.zeros(size, dtype=DOUBLE)
@@ -487,7 +487,10 @@ class Shell(object):
             if c_cte is not None:
                 msg('NOTE: constant stress state taken into account by c_cte', level=3, silent=silent)
                 check_c(c_cte, size)
+                c_cte = np.ascontiguousarray(c_cte, dtype=DOUBLE)
                 analytical_kG = False
+            else:
+                c_cte = np.zeros(size, dtype=DOUBLE)
             # This calc KG0 - Geo stiff mat at initial membrane stress state (SA formulation paper - eq 12) and adds it to K0 calc earlier
             
             # WHY IS KG0 ADDED TO KC ???????????????????????????
-- 
2.43.0


From 700c8bbfd843da5980b227c94b0d5dd179181c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 21/40] fix: analytical matrices ignored x1, x2, y1 and y2

The panels and the bases of the stiffeners of a StiffPanelBay were all
integrated over the whole bay instead of over their own strips.
---
 panels/shell.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 000ae69..f4ae51d 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -381,6 +381,12 @@ class Shell(object):
         return ABD
 
 
+    def _partial_domain(self):
+        # Same condition that the numerical integration uses
+        return ((self.x1 != -1 and self.x2 != -1)
+             or (self.y1 != -1 and self.y2 != -1))
+
+
     def calc_kC(self, size=None, row0=0, col0=0, silent=True, finalize=True,
             c=None, c_cte=None, nx=None, ny=None, ABDnxny=None, NLgeom=False):
         r"""Calculate the constitutive stiffness matrix
@@ -446,6 +452,10 @@ class Shell(object):
         # ??????????
         if ABDnxny is not None:
             analytical_kC = False
+        # Only the numerical integration can be done over a part of the domain
+        if self._partial_domain():
+            analytical_kC = False
+            analytical_kG = False
         # For NL Geos, KC (and not KC0) needs to be used so only do it numerically
         if NLgeom:
             analytical_kC = False
@@ -540,7 +550,7 @@ class Shell(object):
             c = np.zeros(size, dtype=DOUBLE)
             if any((self.Nxx, self.Nyy, self.Nxy)):
                 msg('NOTE: stress state taken into account using ONLY (Nxx, Nyy, Nxy)', level=3, silent=silent)
-        if NLgeom:
+        if NLgeom or self._partial_domain():
             analytical_kG = False
 
         matrices = modelDB.db[self.model]['matrices']
@@ -601,7 +611,7 @@ class Shell(object):
         """
         msg('Calculating kM... ', level=2, silent=silent)
         self._rebuild()
-        analytical_kM = True
+        analytical_kM = not self._partial_domain()
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
 
-- 
2.43.0


From a6689fbdfe5babb7dd0aece7a87cc3cbee3b7cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 22/40] fix: aerodynamic matrices of StiffPanelBay

kA had the size of the skin and ignored beta, calc_cA raised TypeError.
---
 panels/stiffpanelbay/stiffpanelbay.py | 80 +++++++++------------------
 1 file changed, 26 insertions(+), 54 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 172ddc5..80fa933 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -697,49 +697,28 @@ class StiffPanelBay(object):
     def calc_kA(self, silent=False):
         self._rebuild()
         msg('Calculating kA... ', level=2, silent=silent)
-        a = self.a
-        b = self.b
-        r = self.r if self.r is not None else 0.
-        m = self.m
-        n = self.n
 
-        if self.beta is None:
-            if self.Mach < 1:
-                raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
-            beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            if r != 0.:
-                gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
-            else:
-                gamma = 0.
-            ainf = self.speed_sound
-            aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
-        else:
-            beta = self.beta
-            gamma = self.gamma if self.gamma is not None else 0.
-            aeromu = self.aeromu if self.aeromu is not None else 0.
+        size = self.get_size()
 
-        # contributions from panels
+        # contributions from panels, the aerodynamic parameters that are not
+        # given are calculated by the panels
         #TODO summing up coo_matrix objects may be slow!
-        #FIXME this only works if the first panel represent the full
-        #      stiffpanelbay domain (mainly integration interval, boundary
-        #      conditions)
-        p = self.panels[0]
-        #FIXME the initialization below looks terrible
-        #      we should move as quick as possible to the strategy of using
-        #      classes more to carry data, avoiding these intrincated methods
-        #      shared among classes... (calc_kC, calc_kG etc)
-        p.flow = self.flow
-        p.Mach = self.Mach
-        p.rho_air = self.rho_air
-        p.speed_sound = self.speed_sound
-        p.size = self.size
-        p.V = self.V
-        p.r = self.r
-        p.calc_kA(silent=True, finalize=False)
-        kA = p.matrices['kA']
+        kA = 0.
+        for p in self.panels:
+            #FIXME the initialization below looks terrible
+            #      we should move as quick as possible to the strategy of using
+            #      classes more to carry data, avoiding these intrincated methods
+            #      shared among classes... (calc_kC, calc_kG etc)
+            p.flow = self.flow
+            p.beta = self.beta
+            p.gamma = self.gamma
+            p.Mach = self.Mach
+            p.rho_air = self.rho_air
+            p.speed_sound = self.speed_sound
+            p.V = self.V
+            p.r = self.r
+            kA += p.calc_kA(size=size, row0=0, col0=0, silent=True,
+                            finalize=False)
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
@@ -759,32 +738,25 @@ class StiffPanelBay(object):
     def calc_cA(self, silent=False):
         self._rebuild()
         msg('Calculating cA... ', level=2, silent=silent)
-        a = self.a
-        b = self.b
-        r = self.r
-        m = self.m
-        n = self.n
         size = self.get_size()
 
         if self.beta is None:
-            if self.Mach < 1:
+            if self.Mach is None:
+                raise ValueError('Mach number cannot be a NoneValue')
+            elif self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
             Mach = self.Mach
+            if Mach == 1:
+                Mach = 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
             ainf = self.speed_sound
             aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
         else:
-            beta = self.beta
-            gamma = self.gamma if self.gamma is not None else 0.
             aeromu = self.aeromu if self.aeromu is not None else 0.
 
-        # contributions from panels
+        # contributions from panels, the function covers the whole bay
         p = self.panels[0]
-        p.calc_cA(size=size, row0=0, col0=0, silent=silent)
-        cA = p.matrices['cA']
+        cA = p.calc_cA(aeromu, size=size, silent=True, finalize=False)
 
         cA = finalize_symmetric_matrix(cA)
         self.cA = cA
-- 
2.43.0


From bf0481669da94e112458a046a2c4b5bea462150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 23/40] fix: calc_fext of StiffPanelBay raised an error when
 there are forces or flanges

---
 panels/stiffpanelbay/stiffpanelbay.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 80fa933..8da13ed 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1420,27 +1420,29 @@ class StiffPanelBay(object):
 
         # punctual forces on skin
         size = dofs*self.m*self.n
-        g = np.zeros((3, size), dtype=DOUBLE)
+        g = np.zeros((5, size), dtype=DOUBLE)
         fext_skin = np.zeros(size, dtype=DOUBLE)
         for i, force in enumerate(self.forces_skin):
             x, y, fx, fy, fz = force
-            fg(g, x, y, self)
+            fg(g, x, y, self.panels[0])
 
-            fpt = np.array([[fx, fy, fz]])
+            fpt = np.array([[fx, fy, fz, 0, 0]])
             fext_skin += fpt.dot(g).ravel()
 
         fext = fext_skin
         # punctual forces on bladestiff2ds
         # flange
         for s in self.bladestiff2ds:
+            if s.flange is None:
+                continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
-            for i, force in enumerate(s.flange.forces):
+            for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_stiffener += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_stiffener))
-- 
2.43.0


From c04918fdec89597f1835c683921386526ca56691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 24/40] fix: displacements of StiffPanelBay at given points and
 on any flange

---
 panels/stiffpanelbay/stiffpanelbay.py | 42 +++++++++------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 8da13ed..911dcff 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -816,10 +816,7 @@ class StiffPanelBay(object):
         a = self.a
         b = self.b
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
 
         if c.shape[0] == self.get_size():
             dofs = panelmDB.db[self.model]['dofs']
@@ -894,41 +891,28 @@ class StiffPanelBay(object):
         dofs = panelmDB.db[self.model]['dofs']
         row_init = dofs*self.m*self.n
 
+        if region.lower() != 'flange' or stiff.flange is None:
+            raise ValueError('Invalid region')
+
         # getting array position
-        for i, s in enumerate(self.stiffeners):
-            if i > 0:
-                s_1 = self.stiffeners[i-1]
-                if isinstance(s, BladeStiff2D):
-                    row_init += s_1.get_size()
-            if i == si:
+        for s in self.bladestiff2ds:
+            if s is stiff:
                 break
+            if s.flange is not None:
+                row_init += s.flange.get_size()
 
-        if region.lower() == 'flange':
-            bstiff = stiff.flange.b
-            if isinstance(s, BladeStiff2D):
-                row_final = row_init + s.flange.get_size()
-            else:
-                raise ValueError('Invalid region')
-        else:
-            raise ValueError('Invalid region')
+        bstiff = stiff.flange.b
+        row_final = row_init + stiff.flange.get_size()
 
         if c.shape[0] == self.get_size():
             c = c[row_init: row_final]
         else:
             raise ValueError('c must be the full vector of Ritz constants')
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
-        else:
-            xshape = xs.shape
-
-        if region.lower() == 'flange':
-            fuvw = panelmDB.db[s.flange.model]['field'].fuvw
-            us, vs, ws, phixs, phiys = fuvw(c, s.flange, xs, ys, self.out_num_cores)
+        xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
 
-        elif region.lower() == 'base':
-            fuvw = panelmDB.db[s.base.model]['field'].fuvw
-            us, vs, ws, phixs, phiys = fuvw(c, s.base, xs, ys, self.out_num_cores)
+        fuvw = panelmDB.db[stiff.flange.model]['field'].fuvw
+        us, vs, ws, phixs, phiys = fuvw(c, stiff.flange, xs, ys, self.out_num_cores)
 
         self.u = reshape(us, xshape)
         self.v = reshape(vs, xshape)
-- 
2.43.0


From 71f9f9f8247627e0ba5afc53c07911e46062c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 25/40] fix: penalties of u and v of line prescribed
 displacements were applied to w

---
 panels/multidomain/connections/kCpd.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/multidomain/connections/kCpd.pyx b/panels/multidomain/connections/kCpd.pyx
index c4563fa..ee1d323 100644
--- a/panels/multidomain/connections/kCpd.pyx
+++ b/panels/multidomain/connections/kCpd.pyx
@@ -256,12 +256,12 @@ def fkCld_xcte(double ku, double kv, double kw, object p, double xp,
                         fBw = f(k, xip, x1w, x1wr, x2w, x2wr)
             
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+0
+                        kCld_xctec[c] = col+0
                         kCld_xctev[c] += ku*b*fAu*fBu*gAugBu/2.
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+1
+                        kCld_xctec[c] = col+1
                         kCld_xctev[c] += kv*b*fAv*fBv*gAvgBv/2.
                         c += 1
                         kCld_xcter[c] = row+2
@@ -380,12 +380,12 @@ def fkCld_ycte(double ku, double kv, double kw, object p, double yp,
                         gBw = f(l, etap, y1w, y1wr, y2w, y2wr)
             
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+0
+                        kCld_yctec[c] = col+0
                         kCld_yctev[c] += ku*a*fAufBu*gAu*gBu/2.
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+1
+                        kCld_yctec[c] = col+1
                         kCld_yctev[c] += kv*a*fAvfBv*gAv*gBv/2.
                         c += 1
                         kCld_ycter[c] = row+2
-- 
2.43.0


From dcfb7f9550b4055853315a659ed7c79d5385f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 26/40] fix: loads of the ready-made models used the value of
 the last panel

---
 panels/multidomain/cylinder.py                    | 4 ++--
 panels/multidomain/cylinder_blade_stiffened.py    | 2 +-
 panels/multidomain/tstiff2d_1stiff_compression.py | 2 +-
 panels/multidomain/tstiff2d_1stiff_flutter.py     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 816182d..2f8a4df 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -168,7 +168,7 @@ def cylinder_compression_lb_Nxx_from_static(height, r, stack, plyt, laminaprop,
         raise ValueError('The length of "Nxxs" must be the same as "npanels"')
 
     for i, p in enumerate(assy.panels):
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxxs[i], None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxxs[i]: Nxx, None, None)
         p.x2u = 1
 
     fext = assy.calc_fext(silent=True)
@@ -220,7 +220,7 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: p.Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
diff --git a/panels/multidomain/cylinder_blade_stiffened.py b/panels/multidomain/cylinder_blade_stiffened.py
index b8e25fe..4a098a8 100644
--- a/panels/multidomain/cylinder_blade_stiffened.py
+++ b/panels/multidomain/cylinder_blade_stiffened.py
@@ -229,7 +229,7 @@ def cylinder_blade_stiffened_compression_lb_Nxx_from_static(height, r, stack,
         elif 'blade' in p.group:
             i_blade += 1
             Nxx = Nxxs_blade[i_blade]
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxx: Nxx, None, None)
 
     fext = assy.calc_fext(silent=True)
 
diff --git a/panels/multidomain/tstiff2d_1stiff_compression.py b/panels/multidomain/tstiff2d_1stiff_compression.py
index 1f6d7c7..4e5f6c1 100644
--- a/panels/multidomain/tstiff2d_1stiff_compression.py
+++ b/panels/multidomain/tstiff2d_1stiff_compression.py
@@ -329,7 +329,7 @@ def tstiff2d_1stiff_compression(a, b, ys, bb, bf, defect_a, rho, plyt,
     if run_static_case:
         fext = np.zeros(size)
         for p in [p07, p08, p09, p14, p15]:
-            p.add_distr_load_fixed_x(0, lambda y: p.Nxx, None, None)
+            p.add_distr_load_fixed_x(0, lambda y, Nxx=p.Nxx: Nxx, None, None)
             fext[p.col_start: p.col_end] = p.calc_fext(silent=True)
 
         incs, cs = static(k0, -fext, silent=True)
diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 4d92903..b5b8c7f 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -320,7 +320,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
         if not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None):
             fext = np.zeros(size)
             for p in [p07, p08, p09, p14, p15]:
-                p.add_distr_load_fixed_x(0, lambda y: p.Nxx, None, None)
+                p.add_distr_load_fixed_x(0, lambda y, Nxx=p.Nxx: Nxx, None, None)
                 fext[p.col_start: p.col_end] = p.calc_fext(silent=True)
 
             incs, cs = static(k0, -fext, silent=True)
-- 
2.43.0


From c735dd8f2bd065da773ddd82d5b250e3df1d53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 27/40] fix: line loads of shells with one or two terms were
 zero or not integrated exactly

---
 panels/shell_fext.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/panels/shell_fext.py b/panels/shell_fext.py
index 87dfc95..d58f7ce 100644
--- a/panels/shell_fext.py
+++ b/panels/shell_fext.py
@@ -28,6 +28,11 @@ def shell_fext(shell, inc, size, col0):
     g = np.zeros((5, shell.get_size()), dtype=np.float64)
     fext = np.zeros(size, dtype=np.float64) # A vector bec size = single integer
 
+    # number of integration points along lines, the first terms of the
+    # approximation functions are cubic and there is no rule with one point
+    nx = max(shell.m, 4)
+    ny = max(shell.n, 4)
+
     
     # %% Prescribed LOADS
     
@@ -63,9 +68,9 @@ def shell_fext(shell, inc, size, col0):
         if x is None:
             ycte = y
             # getting integration points and weights
-            points = np.zeros(shell.m, dtype=np.float64)
-            weights = np.zeros(shell.m, dtype=np.float64)
-            get_points_weights(shell.m, points, weights)
+            points = np.zeros(nx, dtype=np.float64)
+            weights = np.zeros(nx, dtype=np.float64)
+            get_points_weights(nx, points, weights)
             # integrating g(x,ycte)*s(x,ycte)*dx = sum(weight_i * ( (a/2) * g(xvar, ycte) * s(xvar, ycte) ))
             for xi, weight in zip(points, weights):
                 xvar = (xi + 1)*shell.a/2
@@ -75,9 +80,9 @@ def shell_fext(shell, inc, size, col0):
         else:
             xcte = x
             # getting integration points and weights
-            points = np.zeros(shell.n, dtype=np.float64)
-            weights = np.zeros(shell.n, dtype=np.float64)
-            get_points_weights(shell.n, points, weights)
+            points = np.zeros(ny, dtype=np.float64)
+            weights = np.zeros(ny, dtype=np.float64)
+            get_points_weights(ny, points, weights)
             # integrating g(xcte,y)*s(xcte,y)*dy = sum(weight_i * ( (b/2) * g(xcte, yvar) * s(xcte, yvar) ))
             for eta, weight in zip(points, weights):
                 yvar = (eta + 1)*shell.b/2
@@ -141,9 +146,9 @@ def shell_fext(shell, inc, size, col0):
             ycte = y
             # getting integration points and weights
                 # Integration over x so m terms
-            points = np.zeros(shell.m, dtype=np.float64)
-            weights = np.zeros(shell.m, dtype=np.float64)
-            get_points_weights(shell.m, points, weights)
+            points = np.zeros(nx, dtype=np.float64)
+            weights = np.zeros(nx, dtype=np.float64)
+            get_points_weights(nx, points, weights)
                 # Addresses of points and weights get passed -- ftn def uses pointers so changes the address so no return arg
             # integrating g(x,ycte)*s(x,ycte)*dx = sum(weight_i * ( (a/2) * g(xvar, ycte) * s(xvar, ycte) ))
             for xi, weight in zip(points, weights):
@@ -160,9 +165,9 @@ def shell_fext(shell, inc, size, col0):
         else: 
             xcte = x
             # getting integration points and weights
-            points = np.zeros(shell.n, dtype=np.float64)
-            weights = np.zeros(shell.n, dtype=np.float64)
-            get_points_weights(shell.n, points, weights)
+            points = np.zeros(ny, dtype=np.float64)
+            weights = np.zeros(ny, dtype=np.float64)
+            get_points_weights(ny, points, weights)
             for eta, weight in zip(points, weights):
                 yvar = (eta + 1)*shell.b/2
                 fpt = np.array([[funcu(yvar), funcv(yvar), funcw(yvar), 0, 0]]) * inc_i
-- 
2.43.0


From f46088fd93793bd49703607c7b56a19b88100491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 28/40] fix: shells with distributed prescribed displacements
 could not be saved

---
 panels/shell.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index f4ae51d..7e1971d 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -34,6 +34,17 @@ def check_c(c, size):
         raise ValueError('"c" must have the same size as the global stiffness matrix')
 
 
+class _ScaledFunction(object):
+    # penalty constant times prescribed displacement; a closure could not be
+    # saved with Shell.save()
+    def __init__(self, k, func):
+        self.k = k
+        self.func = func
+
+    def __call__(self, coord):
+        return self.k*self.func(coord)
+
+
 class Shell(object):
     r"""General shell class that can be used for plates or shells
 
@@ -1035,15 +1046,15 @@ class Shell(object):
         if (ku is not None) or (funcu is not None): # ku or funcu is specified
             if ku is None or funcu is None: # if atmost 1 is specified for u means u is to be specified, but is currently incomplete
                 raise ValueError('Both ku and funcu must be specified')
-            new_funcu = lambda y: ku*funcu(y) # y is param in ftn 
+            new_funcu = _ScaledFunction(ku, funcu)
         if (kv is not None) or (funcv is not None):
             if kv is None or funcv is None:
                 raise ValueError('Both kv and funcv must be specified')
-            new_funcv = lambda y: kv*funcv(y)
+            new_funcv = _ScaledFunction(kv, funcv)
         if (kw is not None) or (funcw is not None):
             if kw is None or funcw is None:
                 raise ValueError('Both kw and funcw must be specified')
-            new_funcw = lambda y: kw*funcw(y)
+            new_funcw = _ScaledFunction(kw, funcw)
         if cte:
             self.distr_pds.append([x, None, new_funcu, new_funcv, new_funcw])
         else:
@@ -1081,15 +1092,15 @@ class Shell(object):
         if (ku is not None) or (funcu is not None):
             if ku is None or funcu is None:
                 raise ValueError('Both ku and funcu must be specified')
-            new_funcu = lambda x: ku*funcu(x)
+            new_funcu = _ScaledFunction(ku, funcu)
         if (kv is not None) or (funcv is not None):
             if kv is None or funcv is None:
                 raise ValueError('Both kv and funcv must be specified')
-            new_funcv = lambda x: kv*funcv(x)
+            new_funcv = _ScaledFunction(kv, funcv)
         if (kw is not None) or (funcw is not None):
             if kw is None or funcw is None:
                 raise ValueError('Both kw and funcw must be specified')
-            new_funcw = lambda x: kw*funcw(x)
+            new_funcw = _ScaledFunction(kw, funcw)
         if cte:
             self.distr_pds.append([None, y, new_funcu, new_funcv, new_funcw])
         else:
-- 
2.43.0


From 891f4bda42e38be87c4ca1282cdd22f830b0c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 29/40] fix: offset of the base of a BladeStiff2D on panels
 defined by plyt

---
 panels/stiffener/bladestiff2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f4d0c50..ce28e60 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -92,6 +92,7 @@ class BladeStiff2D(object):
             h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
             hb = sum(self.bplyts)
             self.dpb = h/2. + hb/2.
+            self.base.offset = -h/2. - hb/2.
             self.base.lam = laminated_plate(self.bstack, plyts=self.bplyts,
                                             laminaprops=self.blaminaprops,
                                             offset=(-h/2.-hb/2.))
-- 
2.43.0


From ba870aa66b286de58cc542cdba85baa4f3403232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 30/40] fix: kG of the flange of a BladeStiff2D ignored the
 state

---
 panels/stiffener/bladestiff2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index ce28e60..f5d84d2 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -183,7 +183,7 @@ class BladeStiff2D(object):
             pass
         if self.flange is not None:
             kG += self.flange.calc_kG(size=size, row0=row0, col0=col0,
-                    silent=True, finalize=False, NLgeom=NLgeom)
+                    silent=True, finalize=False, c=c, NLgeom=NLgeom)
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
-- 
2.43.0


From 91a4fd832fb43db868a99db55d476e518d5bc783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 31/40] fix: size, displacements and forces of a StiffPanelBay
 before its first matrix raised KeyError

---
 panels/stiffpanelbay/stiffpanelbay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 911dcff..a6b80ca 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -214,6 +214,7 @@ class StiffPanelBay(object):
             The size of the stiffness matrices.
 
         """
+        self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
 
@@ -888,6 +889,7 @@ class StiffPanelBay(object):
             #TODO why this case isn't working?
             raise RuntimeError('Use plot_skin for the base of BladeStiff2D')
 
+        self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         row_init = dofs*self.m*self.n
 
@@ -1398,6 +1400,7 @@ class StiffPanelBay(object):
             The external force vector
 
         """
+        self._rebuild()
         msg('Calculating external forces...', level=2, silent=silent)
         dofs = panelmDB.db[self.model]['dofs']
         fg = panelmDB.db[self.model]['field'].fg
-- 
2.43.0


From 4963e91b38ae7817ce3fe58228bc0a791e735994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 32/40] fix: default integration order of
 tstiff2d_1stiff_compression is the one of Shell, as documented

---
 panels/multidomain/tstiff2d_1stiff_compression.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/panels/multidomain/tstiff2d_1stiff_compression.py b/panels/multidomain/tstiff2d_1stiff_compression.py
index 4e5f6c1..f7617dd 100644
--- a/panels/multidomain/tstiff2d_1stiff_compression.py
+++ b/panels/multidomain/tstiff2d_1stiff_compression.py
@@ -123,12 +123,12 @@ def tstiff2d_1stiff_compression(a, b, ys, bb, bf, defect_a, rho, plyt,
     nb = n if nb is None else nb
     mf = m if mf is None else mf
     nf = n if nf is None else nf
-    nx = m if nx is None else nx
-    ny = n if ny is None else ny
-    nxb = mb if nxb is None else nxb
-    nyb = nb if nyb is None else nyb
-    nxf = mf if nxf is None else nxf
-    nyf = nf if nyf is None else nyf
+    nx = 2*m if nx is None else nx
+    ny = 2*n if ny is None else ny
+    nxb = 2*mb if nxb is None else nxb
+    nyb = 2*nb if nyb is None else nyb
+    nxf = 2*mf if nxf is None else nxf
+    nyf = 2*nf if nyf is None else nyf
 
     # skin panels
     p01 = Shell(group='skin', Nxx=Nxx_skin, x0=alow+defect, y0=ys+bb/2., a=aup, b=bleft, r=r, m=m, n=n, plyt=plyt, stack=stack_skin, laminaprop=laminaprop, rho=rho, nx=nx, ny=ny)
-- 
2.43.0


From 54e854d94046dc81892563a2a4f1f861068b79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 33/40] fix: cylinder_spla raised TypeError, its Analysis got
 the callables in a wrong order

---
 panels/multidomain/cylinder.py    |  4 ++--
 panels/multidomain/multidomain.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 2f8a4df..9ed3cc2 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -226,8 +226,8 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
 
     assy.conn = conns
-    analysis = Analysis(assy.calc_fext, assy.calc_kC, assy.calc_fint,
-            assy.calc_kT)
+    analysis = Analysis(calc_fext=assy.calc_fext, calc_fint=assy.calc_fint,
+            calc_kC=assy.calc_kC, calc_kG=assy.calc_kG)
     analysis.NL_method = 'NR'
     analysis.modified_NR = False
     analysis.line_search = False
diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 4fdcfab..0a8e98d 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -943,7 +943,8 @@ class MultiDomain(object):
         return kC_conn
 
 
-    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.):
+    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.,
+            NLgeom=False):
         """Calculate the constitutive stiffness matrix of the assembly
         --- this is kP (made by diagonally assemblying kP_i from the MD paper)
 
@@ -963,6 +964,9 @@ class MultiDomain(object):
             symmetric, should be ``False`` when assemblying.
         inc : float, optional
             Dummy argument needed for non-linear analyses.
+        NLgeom : bool, optional
+            Flag to indicate if geometrically non-linearities should be
+            considered.
 
         """
         size = self.get_size()
@@ -976,7 +980,7 @@ class MultiDomain(object):
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             # Calc Kc per panel (from the Shell class)
             kC += p.calc_kC(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                    silent=silent, finalize=False) 
+                    silent=silent, finalize=False, NLgeom=NLgeom)
 
         # Make the matrix symm at the end
         if finalize:
@@ -992,7 +996,7 @@ class MultiDomain(object):
         return kC
 
 
-    def calc_kG(self, c=None, silent=False, finalize=True):
+    def calc_kG(self, c=None, silent=False, finalize=True, NLgeom=False):
         """Calculate the geometric stiffness matrix of the assembly
 
         Parameters
@@ -1006,6 +1010,9 @@ class MultiDomain(object):
         finalize : bool, optional
             Asserts validity of output data and makes the output matrix
             symmetric, should be ``False`` when assemblying.
+        NLgeom : bool, optional
+            Flag to indicate if geometrically non-linearities should be
+            considered.
 
         """
         size = self.get_size()
@@ -1018,7 +1025,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kG += p.calc_kG(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                            silent=silent, finalize=False)
+                            silent=silent, finalize=False, NLgeom=NLgeom)
         if finalize:
             kG = finalize_symmetric_matrix(kG)
         self.kG = kG
-- 
2.43.0


From 796e688d00281fdf98f8474f38da0b25d71f45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 34/40] fix: a rejected request made a flat StiffPanelBay with
 stiffeners unusable

---
 panels/stiffener/bladestiff1d.py | 2 +-
 panels/stiffener/bladestiff2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 929af25..3442b7c 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -63,7 +63,7 @@ class BladeStiff1D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.)
 
         if self.fstack is not None:
             self.hf = sum(self.fplyts)
diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f5d84d2..f6f00ed 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -82,7 +82,7 @@ class BladeStiff2D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.)
         if self.flange is not None:
             self.flange.lam = laminated_plate(self.flange.stack, plyts=self.flange.plyts,
                                             laminaprops=self.flange.laminaprops)
-- 
2.43.0


From 0e5d92377034ba43ab5d9287d747ce3bc7979837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 35/40] fix: StiffPanelBay could not be saved

---
 panels/stiffpanelbay/stiffpanelbay.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index a6b80ca..4cc4244 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -132,9 +132,7 @@ class StiffPanelBay(object):
         self.Ys = None
 
         for panel in self.panels:
-            panel.kC = None
-            panel.kM = None
-            panel.kG = None
+            panel._clear_matrices()
 
         for s in self.bladestiff1ds:
             s.kC = None
-- 
2.43.0


From af9740408bb6b13cb69589721c06e8d4868d09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 36/40] fix: more terms than there are approximation functions
 silently gave zeros and read out of bounds

---
 panels/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 7e1971d..702f38e 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -12,6 +12,7 @@ from structsolve.sparseutils import remove_null_cols, finalize_symmetric_matrix
 
 from .logger import msg, warn
 from . import modelDB
+from .bardell import NUM
 from . shell_fext import shell_fext
 
 DOUBLE = np.float64
@@ -265,6 +266,8 @@ class Shell(object):
 
 
     def _rebuild_model(self):
+        if max(self.m, self.n) > NUM:
+            raise ValueError('m and n cannot be larger than %d, the number of approximation functions implemented' % NUM)
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
         if self._is_derived('model'):
-- 
2.43.0


From 096cd9e79eda50559bfc4b951635494195b59c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 37/40] fix: numbers of integration points without a quadrature
 rule silently gave zeros

---
 panels/legendre_gauss_quadrature.pyx |  4 ++++
 panels/shell.py                      | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/panels/legendre_gauss_quadrature.pyx b/panels/legendre_gauss_quadrature.pyx
index e46337f..0f84e0c 100644
--- a/panels/legendre_gauss_quadrature.pyx
+++ b/panels/legendre_gauss_quadrature.pyx
@@ -11,5 +11,9 @@ cdef extern from 'legendre_gauss_quadrature.hpp':
 def get_points_weights(int n,
                        double [::1] points,
                        double [::1] weights):
+    if not 2 <= n <= 64:
+        raise ValueError('The number of integration points must be between 2 and 64')
+    if points.shape[0] < n or weights.shape[0] < n:
+        raise ValueError('points and weights must have at least n entries')
     leggauss_quad(n, &points[0], &weights[0])
 
diff --git a/panels/shell.py b/panels/shell.py
index 702f38e..2d6f275 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -35,6 +35,13 @@ def check_c(c, size):
         raise ValueError('"c" must have the same size as the global stiffness matrix')
 
 
+def check_orders(*orders):
+    # Conducts a check on the numbers of integration points
+    for n in orders:
+        if not 2 <= n <= 64:
+            raise ValueError('The number of integration points must be between 2 and 64')
+
+
 class _ScaledFunction(object):
     # penalty constant times prescribed displacement; a closure could not be
     # saved with Shell.save()
@@ -502,6 +509,7 @@ class Shell(object):
             kC = matrices.fk0(self, size, row0, col0)
         # This is what happens for NL Geo
         else:
+            check_orders(nx, ny)
             kC = matrices_num.fkC_num(c, ABDnxny, self,
                      size, row0, col0, nx, ny, NLgeom=int(NLgeom))
 
@@ -521,6 +529,7 @@ class Shell(object):
             if analytical_kG:
                 kC += matrices.fkG0(self.Nxx_cte, self.Nyy_cte, self.Nxy_cte, self, size, row0, col0)
             else:
+                check_orders(nx, ny)
                 kC += matrices_num.fkG_num(c_cte, ABDnxny, self,
                         size, row0, col0, nx, ny, NLgeom,
                         self.Nxx_cte, self.Nyy_cte, self.Nxy_cte)
@@ -578,6 +587,7 @@ class Shell(object):
         if analytical_kG:
             kG = matrices.fkG0(self.Nxx, self.Nyy, self.Nxy, self, size, row0, col0)
         else:
+            check_orders(nx, ny)
             if ABDnxny is None:
                 ABDnxny = self._get_lam_ABD()
             kG = matrices_num.fkG_num(c, ABDnxny, self, size, row0, col0,
@@ -658,6 +668,7 @@ class Shell(object):
         if analytical_kM:
             kM = matrices.fkM(self, self.offset, size, row0, col0)
         else:
+            check_orders(nx, ny)
             hrho_input = np.concatenate((h_nxny[..., None], rho_nxny[..., None]), axis=2)
             kM = matrices_num.fkM_num(self, self.offset, hrho_input, size, row0, col0, nx, ny)
 
@@ -705,6 +716,7 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
+        check_orders(self.nx, self.ny)
         given = (self.beta, self.gamma)
         try:
             # the functions read beta and gamma from the shell
@@ -1256,6 +1268,7 @@ class Shell(object):
         self.r = self.r if self.r is not None else 0.
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
+        check_orders(nx, ny)
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
-- 
2.43.0


From d04ff8946538c550cefcdb7d066a2596293ffc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 38/40] fix: contour plots of strains ignored NLgeom

---
 panels/plot_shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index a164724..3c0bc10 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -107,7 +107,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     if vec in displs:
         shell.uvw(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
     elif vec in strains:
-        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
+        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     elif vec in stresses:
         shell.stress(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     else:
-- 
2.43.0


From c5309572be840d6f240af3ede9f4e3bf1dbd0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 39/40] fix: plotting an assembly failed when a domain had no
 starting position

---
 panels/multidomain/multidomain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 0a8e98d..f47e23e 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -309,8 +309,8 @@ class MultiDomain(object):
             if panel.group != group:
                 continue
             count += 1
-            xplot = res['y'][count] + panel.y0
-            yplot = res['x'][count] + panel.x0
+            xplot = res['y'][count] + (panel.y0 or 0.)
+            yplot = res['x'][count] + (panel.x0 or 0.)
             field = res[vec][count]
             contour = ax.contourf(xplot, yplot, field, levels=levels,
                     cmap=colormap_obj)
-- 
2.43.0


From 2c26f27320764f553f09a15f3b57b37c0ef51c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:51 +0000
Subject: [PATCH 40/40] fix: stress resultants and internal forces of a shell
 whose laminate was removed

---
 panels/multidomain/multidomain.py |  4 ++--
 panels/shell.py                   | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index f47e23e..93fd778 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -550,7 +550,7 @@ class MultiDomain(object):
             kyy = reshape(kyy, shape)
             kxy = reshape(kxy, shape)
             Ns = np.zeros((exx.shape + (6,)))
-            if panel.stack:
+            if panel.stack or panel._is_derived('ABD'):
                 panel._rebuild()
             F = panel.ABD
             if F is None:
@@ -785,7 +785,7 @@ class MultiDomain(object):
             kyy = reshape(kyy, shape)
             kxy = reshape(kxy, shape)
             Ns = np.zeros((exx.shape + (6,)))
-            if panel.stack:
+            if panel.stack or panel._is_derived('ABD'):
                 panel._rebuild()
             F = panel.ABD
             if F is None:
diff --git a/panels/shell.py b/panels/shell.py
index 2d6f275..d46f49a 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -108,7 +108,7 @@ class Shell(object):
         'num_eigvalues', 'num_eigvalues_print',
         'out_num_cores', 'increments', 'results',
         'lam', 'matrices', 'fields', 'plot_mesh',
-        '_derived', # values of model, laminaprops, rhos and plyts that were not given but derived
+        '_derived', # values of model, laminaprops, rhos, plyts and ABD that were not given but derived
         ]
 
     def __init__(self, a=None, b=None, r=None,
@@ -268,7 +268,7 @@ class Shell(object):
 
 
     def _derive(self, attr, value):
-        self._derived[attr] = value
+        self._derived = dict(self._derived, **{attr: value}) # copies of the shell keep theirs
         setattr(self, attr, value)
 
 
@@ -315,7 +315,7 @@ class Shell(object):
                                       rhos=self.rhos,
                                       offset=self.offset)
             self.lam = lam
-            self.ABD = self._get_lam_ABD()
+            self._derive('ABD', self._get_lam_ABD())
         self.size = self.get_size()
 
 
@@ -911,7 +911,7 @@ class Shell(object):
         kyy = fields['kyy']
         kxy = fields['kxy']
         if ABD is None:
-            if self.stack:
+            if self.stack or self._is_derived('ABD'):
                 self._rebuild()
             ABD = self.ABD
         if ABD is None:
@@ -1244,7 +1244,7 @@ class Shell(object):
 
         """
         msg('Calculating internal forces...', level=2, silent=silent)
-        if self.stack:
+        if self.stack or (ABDnxny is None and self._is_derived('ABD')):
             self._rebuild()
         self._rebuild_model()
         model = self.model
-- 
2.43.0

