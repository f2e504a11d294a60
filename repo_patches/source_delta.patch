From 09b05f7891802571338920ecd07207bc338dfda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 001/121] fix: RHS: shear area in y direction uses section
 height, as in the constructor

---
 metku/sections/steel/RHS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 0675623..15d2352 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -138,7 +138,7 @@ class RHS(SteelSection):
             I[0] = RHS_second_moment(self.H, self.B, self.T, self.R)
             I[1] = RHS_second_moment(self.B, self.H, self.T, self.R)
             self.I = np.asarray(I)
-            self.Ashear = [RHS_shear_area(self.A, self.B, self.B),RHS_shear_area(self.A, self.H, self.B)]
+            self.Ashear = [RHS_shear_area(self.A, self.B, self.H),RHS_shear_area(self.A, self.H, self.B)]
             self.Au = RHS_paint_area(self.H, self.B, self.R)
             Wel = [0.0, 0.0]
             Wel[0] = RHS_elastic_modulus(self.H, I[0])
-- 
2.43.0


From 12e1a9cd855e9c489d1760078c26cc30eed1b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 002/121] fix: ISection: circumference of a rolled I section
 subtracts the web thickness once per flange

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 049a40c..0e813e6 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -716,7 +716,7 @@ def cross_section_properties(b, h, tf, tw, r):
     A = 2.0 * tf * b + (h - 2.0 * tf) * tw + (4.0 - math.pi) * r ** 2.0
 
     # Perimeter of cross-section
-    Au = 4 * (b - 2 * r) + 2 * (h - 2 * tw) + 2 * math.pi * r
+    Au = 4 * (b - 2 * r) + 2 * (h - tw) + 2 * math.pi * r
 
     # Shear area [mm^2]    
     Ashear = A - 2.0 * b * tf + (tw + 2.0 * r) * tf
-- 
2.43.0


From 8fc25053c1654380d7d9144472c985a8cbf6b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 003/121] fix: WISection: circumference includes both faces of
 the top flange

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 951f2d5..1d221f3 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -604,7 +604,7 @@ class WISection(SteelSection):
 
     def paint_area(self):
         """ Area to be painted (circumference of the section) """
-        return 2 * self.tt + self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
+        return 2 * self.tt + 2 * self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
                - 2 * self.tw
 
     def elastic_neutral_axis(self):
-- 
2.43.0


From 66dacaad5bea6ce9adaef6904e91c6e53b329333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 004/121] fix: CHS: give I, Wel, Wpl and shear area for both
 principal axes

SteelSection and the beam elements index these properties by axis, which
raised IndexError (I, Wel, Wpl) or gave a zero shear area for tubes.
CustomCHS read moduli through methods that do not exist.
---
 metku/sections/steel/CHS.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index c025439..66dd6b0 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -32,10 +32,10 @@ class CHS(SteelSection):
         
         A = self.area()
         Au = self.paint_area()
-        I = self.second_moment()
-        Ashear = self.shear_area()
-        Wel = self.elastic_modulus()
-        Wpl = self.plastic_modulus()
+        I = [self.second_moment(), self.second_moment()]
+        Ashear = [self.shear_area(), self.shear_area()]
+        Wel = [self.elastic_modulus(), self.elastic_modulus()]
+        Wpl = [self.plastic_modulus(), self.plastic_modulus()]
         self.It = self.torsion_modulus()
         self.Iw = 0.0
 
@@ -97,21 +97,26 @@ class CHS(SteelSection):
     def flange_class(self, verb=False):
         return 1
     
-    def bending_resistance(self, C=0, verb=False):
+    def bending_resistance(self, C=0, axis="y", verb=False):
         # Bending resistance, Nmm
         if C == 0:
             C = self.section_class()
 
+        if axis == "y":
+            n = 0
+        else:
+            n = 1
+
         if C < 3:
-            WRd = self.Wpl
+            WRd = self.Wpl[n]
         elif C == 3:
-            WRd = self.Wel
+            WRd = self.Wel[n]
         else:
             #raise NotImplementedError(f"Cross-section class 4 not implemented in: {self}")
             warnings.warn(f"!Cross-section class 4 not implemented for CHS profiles! "
                   f"\nUsing elastic bending resistance, check results accordingly!", UserWarning, stacklevel=2)
 
-            WRd = self.Wel
+            WRd = self.Wel[n]
 
         MRd = self.code.bending_resistance(WRd, self.fy)
 
@@ -191,16 +196,13 @@ class CustomCHS(CHS):
                 
             return self.area()
         elif name == "I":
-            I = self.second_moment()
-            #if I[1] < 0:
-            #    print(self.h, self.b, self.tt, self.tb, self.tw)
-            return self.second_moment()
+            return [self.second_moment(), self.second_moment()]
         elif name == "Wel":
-            return self.section_modulus()
+            return [self.elastic_modulus(), self.elastic_modulus()]
         elif name == "Wpl":
-            return self.plastic_section_modulus()
+            return [self.plastic_modulus(), self.plastic_modulus()]
         elif name == "Ashear":
-            return self.shear_area()
+            return [self.shear_area(), self.shear_area()]
         elif name == "Au":
             return self.paint_area()
         elif name == "It":
-- 
2.43.0


From 8b4b719ed89f3f6bafd6bfe26b1830d742a7023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 005/121] fix: CHS: web_class_comp_bend accepts the axial force
 like every other section

---
 metku/sections/steel/CHS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index 66dd6b0..bf46896 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -89,7 +89,7 @@ class CHS(SteelSection):
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
         
-    def web_class_comp_bend(self, verb=False):
+    def web_class_comp_bend(self, Ned=0.0, verb=False):
         r = self.D/self.T
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
-- 
2.43.0


From 81b42e1219c4c7291aac05c798ab92a1ee375114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 006/121] fix: CHS: moment-axial force interaction is found by
 section_resistance

---
 metku/sections/steel/CHS.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index bf46896..f10b42d 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -125,24 +125,21 @@ class CHS(SteelSection):
 
         return MRd, C
     
-    def MomentAxialForceInteract(self):
-        """ This interaction formula is only for plastic design """
-        MRd = self.BendingResistance(1);
-        NRd = self.AxialForceResistance;
-            
+    def moment_axial_force_interact(self, UN, MRd):
         """ EN 1993-1-1: 6.2.9.1(5)
             In class 1 or 2 use plastic design
-        """
-        n = abs(self.Ned)/NRd;
 
-        if n > 1.0:
-            MNRd = 0
+            input: UN .. NEd/NRd
+                  MRd .. moment resistance
+        """
+        if UN > 1.0:
+            MNRd = 0.0
         else:
-            MNRd = MRd*min(1-n**1.7,1)
+            MNRd = MRd * min(1 - UN**1.7, 1)
 
         return MNRd
-    
-    
+
+
 def CHS_area(D,T):
     r = 0.5*D
     A = math.pi*r**2 - math.pi*(r-T)**2
-- 
2.43.0


From 19a3ed334c0ab76f86fd01fbd46d7785a2c464eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 007/121] fix: CustomISection: recalculated properties follow H
 and B everywhere

h and b (web and flange class, shear, drawing) kept their initial values and
the shear area became a scalar after cross_section_properties().
---
 metku/sections/steel/ISection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 0e813e6..af01d02 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -702,8 +702,11 @@ class CustomISection(ISection):
         ISection.__init__(self, H, B, tf, tw, r, fy=fy)
 
     def cross_section_properties(self):
+        self.h = self.H
+        self.b = self.B
         args = cross_section_properties(self.B, self.H, self.tf, self.tw, self.r)
-        self.A, self.Au, self.Ashear, self.I, self.It, self.Iw, self.Wpl, self.Wel = args
+        self.A, self.Au, Ashear, self.I, self.It, self.Iw, self.Wpl, self.Wel = args
+        self.Ashear = [0.0, Ashear]
 
 
 def cross_section_properties(b, h, tf, tw, r):
-- 
2.43.0


From 8a058674f2b226a78dbcd6fbfc77fb3290cb4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 008/121] fix: WISection: web share of the area in the M-N
 interaction deducts both flanges

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 1d221f3..210f2d9 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -579,7 +579,7 @@ class WISection(SteelSection):
                   MRd .. moment resistance           
             TODO tarkista tämä
         """
-        aw = min((self.A - (self.bt * self.tt - self.bb * self.tb))
+        aw = min((self.A - (self.bt * self.tt + self.bb * self.tb))
                  / self.A, 0.5)
 
         if UN > 1.0:
-- 
2.43.0


From b604d3289888dfd5eaeb7ef98d3d5ef6a1da69fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 009/121] fix: ISection: material given by name ('S355') works
 for buckling curve selection

---
 metku/sections/steel/ISection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index af01d02..5666478 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -43,6 +43,8 @@ class ISection(SteelSection):
         self.Iw = Iw
         self.It = It
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
+        # The material can be given by its name, too
+        fy = self.fy
 
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if H / B > 1.2:
-- 
2.43.0


From 5fbbe22b747ddeb613356c74f9817d349a2e8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 010/121] fix: SteelMember: beam-column check of members
 susceptible to LTB uses the stored CmLT

---
 metku/structures/steel/steel_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 0b5d561..2fdb75a 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -704,7 +704,7 @@ class SteelMember:
 
         if self.LTB:
             # Member is susceptible to lateral-torsional buckling
-            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.CmLT,
+            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.__CmLT,
                                  section_class=cross_section_class)
         else:
             MzEd = self.MEdZ
-- 
2.43.0


From a7d6d1c4756543aa20b814a4d84d4b8ea9470664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 011/121] fix: SteelMember: mcrit_buckling returns the critical
 moment

---
 metku/structures/steel/steel_member.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 2fdb75a..ad3be59 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -560,6 +560,8 @@ class SteelMember:
             print("Ncr_z = {0:4.2f} kN".format(Ncrz * 1e-3))
             print("Mcr = {0:6.4f} kNm".format(Mcr * 1e-6))
 
+        return Mcr
+
     def add_section(self, ned=0.0, myed=0.0, mzed=0.0, vyed=0.0, vzed=0.0,
                     ted=0.0, loc=0.0):
         """ Adds new section with internal forces and location """
-- 
2.43.0


From 3013bbed1dc41690c09bb320eb7d19e849339bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 012/121] fix: WISection: compressed share of the web in
 bending deducts the welds' throat

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 210f2d9..98349e5 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -533,7 +533,7 @@ class WISection(SteelSection):
             alpha = 0  # TODO tarkista tämä
         else:
             alpha = (self.h - self.tt - math.sqrt(2) * self.weld_throat - dpl) \
-                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2))
+                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2) * self.weld_throat)
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, alpha, psi)
 
-- 
2.43.0


From ae1fdac4c725ab54ab39169ffb6bfa68165a2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 013/121] fix: EN 1993-1-5: buckling factor of a uniformly
 compressed outstand element

---
 metku/eurocodes/en1993/en1993_1_5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 58115e9..891179f 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -109,7 +109,7 @@ def buckling_factor_outstand(psi=1.0, sigma1="tip"):
     else:
         if psi == 1.0:
             ksigma = 0.43
-        if psi < 1.0 and psi > 0.0:
+        elif psi < 1.0 and psi > 0.0:
             ksigma = 0.578 / (psi + 0.34)
         elif psi == 0.0:
             ksigma = 1.7
-- 
2.43.0


From 6926c41705747855dc2c8fd7a900dc9b22aa5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 014/121] fix: WISection: ineffective part of the web is
 measured within the compressed part

---
 metku/sections/steel/wi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 98349e5..f03a583 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -811,8 +811,12 @@ class WISection(SteelSection):
         else:
             self.eff_web['bc'] = cw
 
-        ec = self.h - self.effective_neutral_axis()
-        self.eff_web['bneg'] = ec - self.tb - np.sqrt(2) * self.weld_throat - beff
+        if psi < 0:
+            ec = self.h - self.effective_neutral_axis()
+            self.eff_web['bneg'] = ec - self.tt - np.sqrt(2) * self.weld_throat - beff
+        else:
+            # The entire web is in compression
+            self.eff_web['bneg'] = cw - beff
         # self.eff_web['bneg'] = (1 - rho) * cw / 2
 
         if verb:
-- 
2.43.0


From 94017829791b07410d37e1f3177cae101655c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 015/121] fix: EN 1993-1-5: critical shear stress can be
 evaluated without the verbosity flag

---
 metku/eurocodes/en1993/en1993_1_5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 891179f..27a4814 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -324,7 +324,7 @@ def sigma_E(t, b):
     return 190_000 * (t / b) ** 2
 
 
-def tau_crit(hw, a, t, b, verb):
+def tau_crit(hw, a, t, b, verb=False):
     """ Critical shear stress for shear buckling
         EN 1993-1-5, Eq. (5.4)
     """
-- 
2.43.0


From 4b362501db4973e7cbc6d3dc114542f662fec51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 016/121] fix: SteelMember: critical moment of mono-symmetric
 sections takes the load position into account

---
 metku/structures/steel/steel_member.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index ad3be59..4244789 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -442,7 +442,6 @@ class SteelMember:
             Mcr = part1 * (part2 - part3)
 
         elif self.symmetry == 'mono':
-            za = 0
             zs = self.profile.zs
             zg = za - zs
 
-- 
2.43.0


From a8822d8afc8a838c232e1a04d418a7d221f1130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 017/121] fix: SteelMember: interaction factor kzy of members
 susceptible to lateral-torsional buckling

---
 metku/structures/steel/steel_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 4244789..3defcd5 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -706,7 +706,8 @@ class SteelMember:
         if self.LTB:
             # Member is susceptible to lateral-torsional buckling
             kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.__CmLT,
-                                 section_class=cross_section_class)
+                                 section_class=cross_section_class,
+                                 susceptible_to_torsion=True)
         else:
             MzEd = self.MEdZ
 
-- 
2.43.0


From 4f9e3e634333f425dcafcb84e7d7a8ee51b79e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 018/121] fix: SteelMember: beam-column check uses the
 lateral-torsional buckling resistance

---
 metku/structures/steel/steel_member.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 3defcd5..c9df0e0 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -736,6 +736,10 @@ class SteelMember:
         # MRd = self.profile.bending_resistance(C=cross_section_class)
         MRd = self.profile.MRd
 
+        if self.LTB:
+            # Eqs. (6.61) and (6.62): reduction by lateral-torsional buckling
+            MRd = self.LT_buckling_strength(self.mcrit(), MRd=MRd)
+
         com_comp_bend_y = -NEd / NbRd[0] + kyy * MyEd / MRd
         com_comp_bend_z = -NEd / NbRd[1] + kzy * MyEd / MRd
 
-- 
2.43.0


From 94e5297c9c452353b40838192b300a909065d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 019/121] fix: line loads of one load case on an element
 replaced each other

---
 metku/framefem/elements/eb_semi_rigid_beam.py |  5 +++--
 metku/framefem/elements/ebbeam.py             | 10 ++++++----
 metku/framefem/framefem.py                    |  4 ++++
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index abfdf1c..e727fd4 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -312,8 +312,9 @@ class EBSemiRigidBeam(EBBeam):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0
 
-            # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: several loads of the same load case can act
+        # on the element
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1bc43eb..564e447 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -508,8 +508,9 @@ class EBBeam(Element):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: several loads of the same load case can act
+        # on the element
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
@@ -966,8 +967,9 @@ class EBBeam3D(Element):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: several loads of the same load case can act
+        # on the element
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 16b4e91..6f8cbb6 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -512,6 +512,10 @@ class FrameFEM:
         """ Initialize load vector """
         global_load = np.zeros(self.dofs)
 
+        """ Local loads of the elements are collected anew """
+        for elem in self.elements:
+            elem.floc.pop(sid, None)
+
         for load in self.loads:
             """ Get the loads to be added to the vector 
                 and the global degrees of freedom of these loads
-- 
2.43.0


From a672efde74a52dda959dc451a06cef7f6e3fe403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:50 +0000
Subject: [PATCH 020/121] fix: load factor of a line load in global coordinates
 was squared

---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 564e447..0aae74f 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -423,7 +423,7 @@ class EBBeam(Element):
                     #q = np.array([0, q1, 0])
                     q = np.array([0, 1, 0])
                 # Load vector transformed into element local coordinate system
-                qloc = load.f*T[:3, :3].dot(q)
+                qloc = T[:3, :3].dot(q)
                                 
                 if order == 1:
                     """ Loads perpendicular to the axis of the element """
-- 
2.43.0


From 64ed9430ebac6891bbf845546576e1beeca0e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 021/121] fix: axial line load in local coordinates was dropped

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 2 ++
 metku/framefem/elements/ebbeam.py             | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index e727fd4..cce5b8d 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -253,6 +253,8 @@ class EBSemiRigidBeam(EBBeam):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5 * L * (0.5 * (q1+q2)-1 / 6 * (q2-q1))
+                    floc[3] = 0.5 * L * (0.5 * (q1+q2)+1 / 6 * (q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     floc[1] = 7 / 20 * q1 * L + 3 / 20 * q2 * L
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 0aae74f..fd65150 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -384,6 +384,8 @@ class EBBeam(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[3] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     if order == 1:
@@ -903,6 +905,8 @@ class EBBeam3D(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[6] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     floc[1] = 7/20*q1*L + 3/20*q2*L
-- 
2.43.0


From 958fe5e30b4dc7c5d1b8b955b6777c177bb1d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 022/121] fix: fixed-end moments of second-order analysis for
 locally given loads

---
 metku/framefem/elements/ebbeam.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index fd65150..a076c2e 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -403,16 +403,16 @@ class EBBeam(Element):
                             floc[2] = L**2*(1/20*q1+1/30*q2)
                             floc[5] = -L**2*(1/30*q1+1/20*q2)
                         else:
-                            k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                            k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                             a = 0.5*L
                             lam = k*a
-                            s = np.sin(k*L)
-                            c = np.cos(k*L)
+                            s = np.sin(lam)
+                            c = np.cos(lam)
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
@@ -460,7 +460,7 @@ class EBBeam(Element):
                         floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                         floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                     else:
-                        k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                        k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                         a = 0.5*L
                         lam = k*a
                         s = np.sin(lam)
@@ -468,9 +468,6 @@ class EBBeam(Element):
                         
                         qy1 = q1*qloc[1]
                         qy2 = q2*qloc[1]
-                        print(f'lambda = {lam:4.3f}')
-                        print(f's = {s:4.3f}')
-                        print(f'c = {c:4.3f}')
                         #print(k,lam,s,c,(lam*c-s)/lam**2/s)
                         #print()
                         floc[1] = 0.5*qy1*L
-- 
2.43.0


From a255b81450cf3df2f9332a7c1e1c7b339d28e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:46 +0000
Subject: [PATCH 023/121] fix: linear_statics failed with its default support
 method

---
 metku/framefem/framefem.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 6f8cbb6..46a2396 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -619,13 +619,14 @@ class FrameFEM:
                             K[i,i] = 1
                             for p in loads:
                                 p[i] = 0
-                        elif support_method == 'REM':
-                            rem_dofs.append(i)
+                        rem_dofs.append(i)
         
         self.supp_dofs = rem_dofs
         
-        
-        if support_method == 'REM':
+        if support_method == 'ZERO':
+            self.K = K
+            self.p = np.column_stack(loads)
+        elif support_method == 'REM':
             rem_dofs = np.array(rem_dofs,dtype=int)
             
             K = np.delete(K,rem_dofs,0)
@@ -667,7 +668,8 @@ class FrameFEM:
                 # Substitute free dofs from global displacement vector                        
                 for i, free_dof in enumerate(free_dofs):
                     if free_dof:
-                        node.u[lcase][i] = u[dofs[i]]
+                        for j, lc in enumerate(lcase):
+                            node.u[lc][i] = u[int(dofs[i]),j]
 
             """
             This substition did not work !!!
@@ -721,8 +723,6 @@ class FrameFEM:
             
         self.KII = KII
         self.pII = pII
-        
-        print(pII)
             
         u2 = np.linalg.solve(KII, pII)
         
-- 
2.43.0


From bc3fc3eee2438825981e82382213b5765d5c611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 024/121] fix: displacement of a dof that becomes supported
 kept its old value

---
 metku/framefem/framefem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 46a2396..f9a7069 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -677,6 +677,8 @@ class FrameFEM:
             """
         elif support_method == 'REM':
             for i, lc in enumerate(lcase):                
+                for node in self.nodes:
+                    node.u[lc][:] = 0
                 for ui, d in zip(u[:,i],self.glob_dofs):                
                     for node in self.nodes:
                         try:
@@ -749,6 +751,8 @@ class FrameFEM:
             node.u[free_dofs] = u[dofs[free_dofs]]
             """
         elif support_method == 'REM':
+            for node in self.nodes:
+                node.u2[lcase][:] = 0
             for ui, d in zip(u2,self.glob_dofs):                
                 for node in self.nodes:
                     try:
-- 
2.43.0


From 01da5b4d586f5826fe0e1bc1a761a03165e4fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 025/121] fix: supported dofs included inactive ones

---
 metku/framefem/framefem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index f9a7069..fa197dd 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -537,7 +537,8 @@ class FrameFEM:
         """
         supp_dofs = []
         for supp in self.supports:
-            supp_dofs += list(supp.node.dofs[supp.dof])      
+            # dofs that are not active in the model have the number -1
+            supp_dofs += [d for d in supp.node.dofs[supp.dof] if d >= 0]
         
         self.supp_dofs = supp_dofs
 
-- 
2.43.0


From be49912b2415694855e01f9846dd245a10cc5d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 026/121] fix: nodes added after a load case had no
 displacement storage in 3D and second order

---
 metku/framefem/framefem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index fa197dd..c9066d0 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -175,15 +175,16 @@ class FrameFEM:
             """
 
             self.nodal_coords.append([x, y])            
-            for load_id in self.loadcases.keys():   
-                newNode.u[load_id] = np.zeros(len(newNode.dofs))
-                #newNode.u[load_id] = [0.0, 0.0, 0.0]
         else:
             self.dim = 3
             self.nodal_coords.append([x, y, z])
             #for i in range(self.nloadcases()):
             #    newNode.u = np.vstack((newNode.u, [0.0, 0.0, 0.0, 0.0, 0.0, 0.0]))
 
+        for load_id in self.loadcases.keys():   
+            newNode.u[load_id] = np.zeros(len(newNode.dofs))
+            newNode.u2[load_id] = np.zeros(len(newNode.dofs))
+
         self.nodes.append(newNode)
         return newNode
 
-- 
2.43.0


From 78f4f64376e94946bf5abf73133bdf3e6d68fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 027/121] fix: stiffness matrix ignored releases and joint
 stiffness set after its first evaluation

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 4 ----
 metku/framefem/elements/ebbeam.py             | 7 ++-----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index cce5b8d..9702466 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -11,9 +11,6 @@ Euler-Bernoulli beam in 2D with rotational stiffness at nodes
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
 from .ebbeam import EBBeam
 try:
     from metku.framefem import LineLoad
@@ -127,7 +124,6 @@ class EBSemiRigidBeam(EBBeam):
         return np.append(self.nodes[0].dofs, self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Stiffness matrix in local coordinates """
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index a076c2e..9e5101c 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -11,9 +11,6 @@ Euler-Bernoulli beam element in 2D
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
 
 #try:
 #    from metku.framefem import Element, LineLoad, FEMNode
@@ -93,7 +90,6 @@ class EBBeam(Element):
         return np.append(self.nodes[0].dofs,self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Generates stiffness matrix in local coordinates
 
@@ -295,7 +291,8 @@ class EBBeam(Element):
             k0[[2, 5], [2, 5]] = a*PSI
         else:
             # For members in tension, use first order stiffness matrix
-            k0 = self.local_stiffness_matrix(E, A, I1, Le)
+            # (it takes the releases into account)
+            return self.local_stiffness_matrix(E, A, I1, Le)
         
         if len(self.releases) > 0:
             """ There are releases in the element, so the stiffness matrix
-- 
2.43.0


From d6c10e23042de9da8c93b328365b8ac246a6cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:08 +0000
Subject: [PATCH 028/121] fix: semi-rigid beam element could not be analysed
 and ignored its joints in line loads

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 9702466..d8908a1 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -60,6 +60,8 @@ class EBSemiRigidBeam(EBBeam):
 
         self.bending_moment = [0.0, 0.0]
         self.shear_force = [0.0, 0.0]
+        # own list: the limits below must not change the caller's list
+        rot_stiff = list(rot_stiff)
         for i in range(2):
             if rot_stiff[i] <= kHinge:
                 rot_stiff[i] = kHinge
@@ -69,9 +71,9 @@ class EBSemiRigidBeam(EBBeam):
         # print(rot_stiff)
         self.rot_stiff = rot_stiff
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
-        c = self.direction_cosines()
+        c = self.direction_cosines(initial)
         L = np.zeros((6, 6))
         L[0, 0:2] = c[0:2]
         L[1, 0] = -L[0, 1]
@@ -172,32 +174,32 @@ class EBSemiRigidBeam(EBBeam):
 
         return k0
 
-    def stiffness_matrix(self):
+    def stiffness_matrix(self, initial=True):
         """ Compute the stiffness matrix """
 
         E = self.material.young
         A = self.section.A
         I1 = self.section.I[0]
-        Le = self.length()
+        Le = self.length(initial)
         k0 = self.local_stiffness_matrix(E, A, I1, Le)
 
         # k0 = CheckReleases[fem.elem[N],k0];
 
         # local-global matrix
-        L = self.transformation_matrix()
+        L = self.transformation_matrix(initial)
 
         # globaali elementin matriisi
         ke = L.transpose().dot(k0.dot(L))
 
         return ke
 
-    def local_geometric_stiffness_matrix(self,lcase=0):
+    def local_geometric_stiffness_matrix(self,lcase=0,initial=True):
         """ Geometric stiffness matrix in local coordinates
             From: Cook et. al 1989, Section 14.2
         """
         #P = self.axial_force[1]
         P = self.fint[lcase]['fx'][1]
-        Le = self.length()
+        Le = self.length(initial)
 
         g0 = P / 30 / Le
         keg0 = g0 * np.array([[36, 3 * Le, -36, 3 * Le],
@@ -210,21 +212,21 @@ class EBSemiRigidBeam(EBBeam):
 
         return kg0
 
-    def geometric_stiffness_matrix(self,lcase=0):
+    def geometric_stiffness_matrix(self,lcase=0,initial=True):
         """ Geometric stiffness matrix in global coordinates
             From: Cook et. al (1989), Section 14.2
         """
 
         # local-global transformation matrix
-        L = self.transformation_matrix()
+        L = self.transformation_matrix(initial)
 
-        kG0 = self.local_geometric_stiffness_matrix(lcase)
+        kG0 = self.local_geometric_stiffness_matrix(lcase,initial)
 
         kG = L.transpose().dot(kG0.dot(L))
 
         return kG
 
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load
 
             'load' is a Load type object. By default, it is assumed that
@@ -237,12 +239,12 @@ class EBSemiRigidBeam(EBBeam):
         """
         floc = np.zeros(6)
 
-        T = self.transformation_matrix()
-        L = self.length()
+        T = self.transformation_matrix(initial)
+        L = self.length(initial)
 
         if isinstance(load, LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
+            q1 = load.f * load.qval[0]
+            q2 = load.f * load.qval[1]
             # print(q1,q2)
             if load.coords == 'local':
                 # print('local coordinates')
@@ -298,6 +300,11 @@ class EBSemiRigidBeam(EBBeam):
 
                 # print(floc)
 
+        # Flexibility of the joints: shape functions of the element are
+        # those of the rigidly connected beam times (I + S/delta)
+        q = [1, 2, 4, 5]
+        floc[q] += 1 / self.delta() * self.matrix_S().transpose().dot(floc[q])
+
         if len(self.releases) > 0:
             """ There are releases in the element, so the local load vector
                 is modified.
-- 
2.43.0


From 6b1634974ec93c49e4781afb1d3090eec3e711d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 029/121] fix: geometric stiffness of rods and springs, spring
 forces could not be evaluated

---
 metku/framefem/elements/rod.py     |  7 ++++---
 metku/framefem/elements/springs.py | 11 ++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 91b65ad..cd6e823 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -31,7 +31,7 @@ class Rod(Element):
 
     def transformation_matrix(self,initial=True):
         """ From local to global coordinates """
-        c = self.direction_cosines()
+        c = self.direction_cosines(initial)
         #c = self.dcos
         L1 = np.hstack((c, np.zeros(len(c))))
         L2 = np.hstack((np.zeros(len(c)), c))
@@ -96,7 +96,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -112,7 +112,8 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0],
+                      [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index d0f6222..22e54e4 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -36,9 +36,9 @@ class LinearSpring(Element):
         # Dimension of the element
         self.dim = len(n1.coord)
 
-    def transformation_matrix(self):
+    def transformation_matrix(self,initial=True):
         """ From local to global coordinates """
-        c = self.direction_cosines()
+        c = self.direction_cosines(initial)
         L1 = np.hstack((c, np.zeros(len(c))))
         L2 = np.hstack((np.zeros(len(c)), c))
         L = np.vstack((L1, L2))
@@ -94,7 +94,7 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -110,7 +110,8 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0],
+                      [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
@@ -132,7 +133,7 @@ class LinearSpring(Element):
         self.fint[lcase]['fx'][1] = self.fint[lcase]['fx'][0]
 
 
-    def nodal_displacements(self,lcase=0):
+    def nodal_displacements(self,lcase=0,order=1):
         """ Get nodal displacements of an element
             Requires previously performed structural analysis such
             that nodal displacements are available.
-- 
2.43.0


From 33a7342e4c46213e8a490e8d3ea049f5f19d31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 030/121] fix: 3D beam element could not be analysed and put
 line loads on wrong dofs

---
 metku/framefem/elements/ebbeam.py | 63 +++++++++++++++++--------------
 metku/framefem/framefem.py        |  2 +-
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 9e5101c..c1186fa 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -17,7 +17,7 @@ import numpy as np
 #except:
 #    from framefem import Element, LineLoad
 
-from ..framefem import Element, LineLoad
+from ..framefem import Element, FEMNode, LineLoad
 
 class EBBeam(Element):
     """ Euler-Bernoulli beam element
@@ -709,17 +709,17 @@ class EBBeam3D(Element):
         for n in self.nodes:
             n.dofs[:6] = 0
     
-    def direction_vector(self):
+    def direction_vector(self,initial=True):
         
-        return super().direction_cosines()
+        return super().direction_cosines(initial)
             
-    def direction_cosines(self):
+    def direction_cosines(self,initial=True):
         """ Calculates direction cosines for a 3D-beam element """
         
         l0 = np.zeros((3,3))
         
-        X = self.coord()
-        L = self.length()
+        X = self.coord(initial)
+        L = self.length(initial)
         dX = X[1, :] - X[0, :]        
         # direction cosines along the local x axis
         l0[0,:] = dX / L
@@ -746,7 +746,7 @@ class EBBeam3D(Element):
         
         return l0
         
-    def transformation_matrix(self):
+    def transformation_matrix(self,initial=True):
         """ Calculates transformation matrix from local to global coordinates
 
             Returns:
@@ -755,7 +755,7 @@ class EBBeam3D(Element):
             :rtype: np.array
 
          """
-        l0 = self.direction_cosines()
+        l0 = self.direction_cosines(initial)
         L = np.zeros((12, 12))
         L[0:3, 0:3] = l0
         L[3:6, 3:6] = l0
@@ -775,7 +775,7 @@ class EBBeam3D(Element):
         #return self.nodes[0].dofs + self.nodes[1].dofs
     
     
-    def local_stiffness_matrix(self):
+    def local_stiffness_matrix(self,initial=True):
         """ Generates stiffness matrix in local coordinates
 
 
@@ -792,7 +792,7 @@ class EBBeam3D(Element):
         I2 = self.section.Iz
         J = self.section.It
         
-        Le = self.length()
+        Le = self.length(initial)
 
         rodc = E * A / Le
         EI1 = E * I1
@@ -834,7 +834,7 @@ class EBBeam3D(Element):
 
         return k0
     
-    def stiffness_matrix(self):
+    def stiffness_matrix(self,initial=True):
         """ Computes element's global stiffness matrix
 
             Returns:
@@ -843,19 +843,19 @@ class EBBeam3D(Element):
             :rtype: np.array
 
         """
-        k0 = self.local_stiffness_matrix()
+        k0 = self.local_stiffness_matrix(initial)
 
         # k0 = CheckReleases[fem.elem[N],k0];
 
         # local-global matrix
-        L = self.transformation_matrix()
+        L = self.transformation_matrix(initial)
 
         # globaali elementin matriisi
         ke = L.transpose().dot(k0.dot(L))
 
         return ke
     
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load 
         
             'load' is a Load type object. By default, it is assumed that
@@ -887,12 +887,12 @@ class EBBeam3D(Element):
         """
         floc = np.zeros(12)
 
-        T = self.transformation_matrix()
-        L = self.length()
+        T = self.transformation_matrix(initial)
+        L = self.length(initial)
 
         if isinstance(load,LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
+            q1 = load.f*load.qval[0]
+            q2 = load.f*load.qval[1]
             #print(q1,q2)
             if load.coords == 'local':
                 #print('local coordinates')
@@ -910,19 +910,19 @@ class EBBeam3D(Element):
                 elif load.dir == 'z':
                     floc[2] = 7/20*q1*L + 3/20*q2*L
                     floc[8] = 3/20*q1*L + 7/20*q2*L                    
-                    floc[4] = L**2*(1/20*q1+1/30*q2)
-                    floc[10] = -L**2*(1/30*q1+1/20*q2)
+                    floc[4] = -L**2*(1/20*q1+1/30*q2)
+                    floc[10] = L**2*(1/30*q1+1/20*q2)
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
                     first into local coordinates.
                 """
                 if load.dir == "x":                    
-                    q = np.array([1, 0, 0,0,0,0])
+                    q = np.array([1, 0, 0])
                 elif load.dir == 'y':                    
-                    q = np.array([0, 1, 0,0,0,0])
+                    q = np.array([0, 1, 0])
                 elif load.dir == 'z':                    
-                    q = np.array([0, 0, 1,0,0,0])
+                    q = np.array([0, 0, 1])
                 # Load vector transformed into element local coordinate system
                 qloc = T[:3, :3].dot(q)
                 
@@ -930,15 +930,22 @@ class EBBeam3D(Element):
                 qy1 = q1*qloc[1]
                 qy2 = q2*qloc[1]
                 floc[1] = 7/20*qy1*L + 3/20*qy2*L
-                floc[4] = 3/20*qy1*L + 7/20*qy2*L
-                floc[2] = L**2*(1/20*qy1+1/30*qy2)
-                floc[5] = -L**2*(1/30*qy1+1/20*qy2)
+                floc[7] = 3/20*qy1*L + 7/20*qy2*L
+                floc[5] = L**2*(1/20*qy1+1/30*qy2)
+                floc[11] = -L**2*(1/30*qy1+1/20*qy2)
+                
+                qz1 = q1*qloc[2]
+                qz2 = q2*qloc[2]
+                floc[2] = 7/20*qz1*L + 3/20*qz2*L
+                floc[8] = 3/20*qz1*L + 7/20*qz2*L
+                floc[4] = -L**2*(1/20*qz1+1/30*qz2)
+                floc[10] = L**2*(1/30*qz1+1/20*qz2)
                 
                 """ Loads parallel to the axis of the element """
                 qx1 = q1*qloc[0]
                 qx2 = q2*qloc[0]
                 floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
-                floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
+                floc[6] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                 
                 # Construct nodal load in local coordinates
                 # qloc[0,1,2] = axial, shear, moment of node 1
@@ -959,7 +966,7 @@ class EBBeam3D(Element):
             """
             rel = self.releases
             # nrel is the list of non-released forces
-            nrel = np.setdiff1d(np.arange(12,rel))          
+            nrel = np.setdiff1d(np.arange(12),rel)          
             
             #print(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index c9066d0..21f089a 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1482,7 +1482,7 @@ class FEMNode:
             self.X = np.array([x, y, z])
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
-            self.dofs = -np.ones(6)
+            self.dofs = -np.ones(6,dtype=int)
             # Nodal displacements
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
-- 
2.43.0


From a9e6bd5cb0a80abb5e7efc401ac5fdc92d96adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 031/121] fix: order of the free degrees of freedom of buckling
 modes

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 21f089a..42d179c 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -392,7 +392,7 @@ class FrameFEM:
     def global_free_dofs(self):
         """ List of free degrees of freedom """
         
-        return list(set(np.arange(self.dofs))-set(self.supp_dofs))
+        return sorted(set(np.arange(self.dofs))-set(self.supp_dofs))
 
     def global_stiffness_matrix(self):
         """ Constructs the global stiffness matrix
-- 
2.43.0


From 5bcae013cc472129506d5213d8b9e97156c9ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 032/121] fix: reduction factors between 100 and 200 degrees
 (all steels) and above the last bolt temperature could not be evaluated

---
 metku/eurocodes/en1993/en1993_1_2.py | 45 ++++++++--------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 5e958a8..b2ac878 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -108,40 +108,19 @@ def reduce_property(t,prop,steel='carbon'):
     """ Function for determining the reduction factor at temperature 't'
         of property 'prop'
     """
-    rf = 1.0
-    # Check if 't' matches any of the special temperatures
-    if any(SPECIAL_TEMPS == t):
-        if steel == 'carbon':
-            rf = REDUCTION_FACTORS_CS[t][prop]
-        elif steel =='1.4301':
-            rf = REDUCTION_FACTORS_14301[t][prop]
-        elif steel == 'bolts':
-            rf = REDUCTION_FACTORS_BOLTS[t][prop]
-        else:
-            print("Unidentified steel grade!")
-    else:
-        # t does not match any of the special temperatures;
-        # Do linear interpolation
-        
-        """ Find the largest smaller and smallest larger
-            temperatures and the corresponding reduction factors
-        """
-        t_smaller = np.max(SPECIAL_TEMPS[SPECIAL_TEMPS < t])
-        t_larger = np.min(SPECIAL_TEMPS[SPECIAL_TEMPS > t])
-        
-        if steel == 'carbon':
-            p_smaller = REDUCTION_FACTORS_CS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_CS[t_larger][prop]
-        elif steel == '1.4301':
-            p_smaller = REDUCTION_FACTORS_14301[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_14301[t_larger][prop]
-        elif steel == 'bolts':
-            p_smaller = REDUCTION_FACTORS_BOLTS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_BOLTS[t_larger][prop]
-            
-        rf = linear_interpolation((t_smaller,p_smaller), (t_larger,p_larger), t)
+    tables = {'carbon': REDUCTION_FACTORS_CS,
+              '1.4301': REDUCTION_FACTORS_14301,
+              'bolts': REDUCTION_FACTORS_BOLTS}
+    
+    if steel not in tables:
+        print("Unidentified steel grade!")
+        return 1.0
+    
+    # Linear interpolation between the temperatures given for the steel
+    temps = list(tables[steel])
+    factors = [tables[steel][temp][prop] for temp in temps]
     
-    return rf
+    return np.interp(t,temps,factors)
 
 """ Chapter 3: Materials """
 def EaT(t,Ea=210000,steel='carbon'):
-- 
2.43.0


From 9f384f8ba01d3b09553a028eabeaa00f8e44d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 033/121] fix: k2% of stainless steel 1.4301 at 1000-1200
 degrees was a tenth of EN 1993-1-2 Table C.1

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index b2ac878..a2af554 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -43,9 +43,9 @@ REDUCTION_FACTORS_14301 = {20:{'ky':0.26,'k02':1.0,'ku':1.0,'kE':1.0,'kEct':0.11
                            700:{'ky':0.26,'k02':0.40,'ku':0.43,'kE':0.71,'kEct':0.02,'epsU': 0.30},
                            800:{'ky':0.35,'k02':0.27,'ku':0.27,'kE':0.63,'kEct':0.02,'epsU': 0.20},
                            900:{'ky':0.38,'k02':0.14,'ku':0.15,'kE':0.45,'kEct':0.02,'epsU': 0.20},
-                           1000:{'ky':0.040,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
-                           1100:{'ky':0.040,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
-                           1200:{'ky':0.040,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
+                           1000:{'ky':0.40,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
+                           1100:{'ky':0.40,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
+                           1200:{'ky':0.40,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
                            }
 
 # EN 1993-1-2, Table D.1
-- 
2.43.0


From 6b4a3617124810598bec173069904d2ea69b8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 034/121] fix: pressure coefficients of monopitch roofs of 5-15
 degrees were extrapolated from those of 15-30 degrees

---
 metku/eurocodes/en1991/en1991_1_4.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index f21cdb4..5f021cd 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -132,15 +132,16 @@ class ExternalPressureMonoRoof:
                 self.H = {'cpe10': interpolate([15,30],[-0.9,-0.8],angle), 'cpe1':interpolate([15,30],[-1.2,-0.8],angle)}
         elif angle >= 5:
             if wind_direction == 0:
-                cneg10 = interpolate([15,30],[-0.9,-0.5],angle)
-                cneg1 = interpolate([15,30],[-2.0,-1.5],angle)
-                cpos = interpolate([15,30],[0.2,0.7],angle)
+                cneg10 = interpolate([5,15],[-1.7,-0.9],angle)
+                cneg1 = interpolate([5,15],[-2.5,-2.0],angle)
+                cpos = interpolate([5,15],[0.0,0.2],angle)
                 self.F = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
-                cneg10 = interpolate([15,30],[-0.8,-0.5],angle)
-                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[-1.5,cpos]} 
-                cpos = interpolate([15,30],[0.2,0.4],angle)
-                cneg = interpolate([15,30],[-0.3,-0.2],angle)
-                self.H = {'cpe10': [cneg,cpos], 'cpe1':[cneg,cpos]} 
+                cneg10 = interpolate([5,15],[-1.2,-0.8],angle)
+                cneg1 = interpolate([5,15],[-2.0,-1.5],angle)
+                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
+                cneg10 = interpolate([5,15],[-0.6,-0.3],angle)
+                cneg1 = interpolate([5,15],[-1.2,-0.3],angle)
+                self.H = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
             elif wind_direction == 180:
                 self.F = {'cpe10': interpolate([5,15],[-2.3,-2.5],angle), 'cpe1':interpolate([5,15],[-2.5,-2.8],angle)} 
                 self.G = {'cpe10': -1.3, 'cpe1':-2.0}
-- 
2.43.0


From b60fe9f735864febbc2c85b2c09b34000ef7ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 035/121] fix: leading load of the characteristic combination
 was chosen with quasi-permanent values of the other loads

---
 metku/eurocodes/en1991/en1991.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 70a633e..0645e30 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -373,7 +373,7 @@ class SLSCombiner(Combiner):
                 if l is not lo:
                     case2qi.append({'load': lo, 'factor': lo[0].comb_factors[0]})
                     case3qi.append({'load': lo, 'factor': lo[0].comb_factors[2]})
-            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 2),
+            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 0),
                                                'combination': {'G': case1, 'Q1': case2q1, 'Qi': case2qi}})
             frequent_combination.append({'value': self.sum_G_k() + l[0].combined(1) + self.sum_Q_k_excluding(l[0], 2),
                                          'combination': {'G': case1, 'Q1': case3q1, 'Qi': case3qi}})
-- 
2.43.0


From 8728c871cae80ed9e9ca70ade877356966808114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 036/121] fix: a member of one element hinged at both ends kept
 only the hinge at its second end

---
 metku/raami/frame_member.py      |  4 ++--
 metku/raami/raami_plane_truss.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b452861..916f787 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -628,7 +628,7 @@ class FrameMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
     
     def clear_fem(self):
         """ Removes FEM nodes and elements """
@@ -1082,7 +1082,7 @@ class MultiSpanMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]    
+            self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]    
     
     def clear_fem(self):
         
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2399d9b..533672e 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1803,7 +1803,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
         elif model == "en1993":
             # First end node
             self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
@@ -1840,7 +1840,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
         elif model == "ecc_elements":
             if isinstance(self.joints[0],TubularYJoint):
                 N1 = self.joints[0].fem_nodes['xc']                              
@@ -1910,7 +1910,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
        
     
     
@@ -2092,7 +2092,7 @@ class BottomChord(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
             
 
 class TrussBrace(SteelFrameMember):
@@ -2372,7 +2372,7 @@ class TrussBrace(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
     
     def angle_top(self):
         """ Angle between the brace and top chord """
-- 
2.43.0


From cd9b033447d94e3dbb9a70776ed3f77a0f00d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 037/121] fix: frame members shared one list of hinges, so a
 hinge added to a member appeared in the others

---
 metku/raami/frame_member.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 916f787..de14b91 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -167,7 +167,7 @@ class FrameMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         # Flag stating whether or not the member can buckle in sway mode
         self.sway = sway
@@ -216,10 +216,10 @@ class FrameMember:
     
     @lcr.setter
     def lcr(self,val):
-        self.__lcr = val
+        self.__lcr = list(val)
         
         if not self.member is None:
-            self.member.lcr = val
+            self.member.lcr = np.array(val)
     
     def coords(self):
         """ Return nodal coordinates """
@@ -913,7 +913,7 @@ class MultiSpanMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         self.sway = sway
         
@@ -940,7 +940,7 @@ class MultiSpanMember:
     
     @lcr.setter
     def lcr(self,val):
-        self.__lcr = val
+        self.__lcr = list(val)
         
         if not self.members is None:
             for mem in self.members:
@@ -1394,7 +1394,7 @@ class MemberGroup:
 
         """
 
-        self.members = members
+        self.members = list(members)
         if len(members) == 0:
             self.cross_section = None
             self.frame = None
-- 
2.43.0


From 92e15ff5f054af1568d1e54e4b9d2a64f66d403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 038/121] fix: moving a frame node left the internal finite
 element nodes of its members in place

---
 metku/raami/frame_member.py | 13 +++++++++++++
 metku/raami/frame_node.py   |  5 +----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index de14b91..994e146 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -336,6 +336,19 @@ class FrameMember:
         """ Clear global node coordinates and recalculate those """
         self.global_node_coords.clear()
         self.calc_nodal_coordinates()
+        
+        # Update member length
+        if not self.member is None:
+            self.member.length = self.length()
+        
+        # Move also internal FEM nodes, if they exist
+        if len(self.fem_nodes) == len(self.global_node_coords):
+            if self.fem_nodes[0] is self.nodes[0].fem_node and self.fem_nodes[-1] is self.nodes[1].fem_node:
+                for fem_node, x in zip(self.fem_nodes[1:-1],self.global_node_coords[1:-1]):
+                    fem_node.x = x[0]
+                    fem_node.y = x[1]
+                    if len(x) == 3:
+                        fem_node.z = x[2]
 
     def calc_nodal_coordinates(self, num_elements=0):
         """ Calculates nodal coordinates along the member 
diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 5019de1..ec5e9c4 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -33,7 +33,7 @@ class FrameNode:
             coordinates = coordinates[0]
         
         self.node_id = ""
-        self.coords = np.asarray(coordinates)
+        self.coords = np.array(coordinates, dtype=float)
         self.fem_node = None
         
         self.members = [] # List of members to which the node is connected
@@ -61,7 +61,6 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
         
     @property
     def y(self):
@@ -79,7 +78,6 @@ class FrameNode:
         # Update connected member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
     
     @property
     def z(self):
@@ -98,7 +96,6 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
     
     def plot(self, print_text=True, marker='ok', axes=None):
         """ Plots the node """
-- 
2.43.0


From 5e16ccb0eedfdf300bfaf4652075482020e8044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 039/121] fix: coordinates of finite element nodes given as
 integers were truncated when moved

---
 metku/framefem/framefem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 42d179c..89d2b47 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1478,8 +1478,8 @@ class FEMNode:
         
         """ Nodal coordinates"""
         if z is not None:
-            self.coord = np.array([x, y, z])
-            self.X = np.array([x, y, z])
+            self.coord = np.array([x, y, z], dtype=float)
+            self.X = np.array([x, y, z], dtype=float)
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
             self.dofs = -np.ones(6,dtype=int)
@@ -1487,8 +1487,8 @@ class FEMNode:
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
         else:
-            self.coord = np.array([x, y])
-            self.X = np.array([x, y])
+            self.coord = np.array([x, y], dtype=float)
+            self.X = np.array([x, y], dtype=float)
             self.dofs = np.array([-1, -1, -1])
             # [Ux, Uy, Uz]
             self.v = np.array([0,0,0])
-- 
2.43.0


From cd997ec07302de5870b921233a49888d7335ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 040/121] fix: loads of a frame with equal names replaced each
 other or were left out

---
 metku/raami/raami.py | 64 +++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 42 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f535a59..be0b1d3 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -136,7 +136,7 @@ class Raami:
             self.load_ids.append(loadcase.load_id)
 
         for load in loadcase.loads:
-            if load.name not in self.loads:
+            if not any(load is other for other in self.loads.values()):
                 self.add(load)
 
     def add_loadcombination(self, loadcombination: LoadCombination) -> None:
@@ -146,35 +146,7 @@ class Raami:
         loadcombination.combine_loads()
 
     def add_pointload(self, pointload:PointLoad) -> None:
-        """ If a point load with same 'name' is already included
-                        in the frame, add a number to the end of the name
-                        of the new load such that each point load has a unique
-                        name.
-
-                        NOTE: using 'len' to provide new id number might fail,
-                        if point loads are deleted such that the number of point loads
-                        changes along the way.
-                    """
-
-
-        if pointload.name in self.loads.keys():
-            pointload.name += str(len(self.loads))
-
-        if pointload not in self.loads.values():
-            self.loads[pointload.name] = pointload
-
-        if not (pointload.load_id in self.load_ids):
-            # There is no load case for the new load.
-            # Add a new load case for this load
-            NewLoadCase = LoadCase(load_id=pointload.load_id, loads=[pointload])
-            self.add(NewLoadCase)
-            self.load_ids.append(pointload.load_id)
-        else:
-            # If a load case with this.load_id exists, add the new
-            # load to that load case
-            self.load_cases[pointload.load_id].add(pointload)
-
-
+        self._add_load(pointload)
 
         """ If the location of the point load is in between
             member end nodes, add a node to the corresponding member
@@ -186,24 +158,32 @@ class Raami:
 
     def add_lineload(self, lineload: LineLoad | PWLineLoad) -> None:
 
-        if lineload.name in self.loads.keys():
-            lineload.name += str(len(self.loads))
+        self._add_load(lineload)
 
-        self.loads[lineload.name] = lineload
+    def _add_load(self, load) -> None:
+        """ Stores 'load' with a unique name and adds it to the load case
+            corresponding to its load id.
 
+            If a load with the same 'name' is already included in the frame,
+            a number is added to the end of the name of the new load.
+        """
+        if not any(load is other for other in self.loads.values()):
+            name = load.name
+            num = len(self.loads)
+            while load.name in self.loads:
+                load.name = name + str(num)
+                num += 1
 
-        if not (lineload.load_id in self.load_ids):
-
-            NewLoadCase = LoadCase(load_id=lineload.load_id, loads=[lineload])
+            self.loads[load.name] = load
 
-            self.add(NewLoadCase)
-            self.load_ids.append(lineload.load_id)
+        if load.load_id not in self.load_ids:
+            # There is no load case for the new load.
+            # Add a new load case for this load
+            self.add(LoadCase(load_id=load.load_id, loads=[load]))
         else:
-            # If a load case with this.load_id exists, add the new
+            # If a load case with this load_id exists, add the new
             # load to that load case
-            self.load_cases[lineload.load_id].add(lineload)
-
-
+            self.load_cases[load.load_id].add(load)
 
     def add_support(self, support: Support) -> None:
         # print("Adding support")
-- 
2.43.0


From 30420a305e69b1e99e119bf63960914c56e5660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 041/121] fix: removing the self-weight of a frame left its
 loads, so adding it again doubled the self-weight

---
 metku/raami/frame_member.py |  8 ++++++--
 metku/raami/raami.py        | 12 ++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 994e146..ff0a904 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -175,6 +175,7 @@ class FrameMember:
         self.costs = {}
         
         self.self_weight = False
+        self.self_weight_load = None
         
         
         
@@ -323,14 +324,17 @@ class FrameMember:
             
             # Default units: N/mm
             value = -self.cross_section.self_weight()
-            self.frame.add(LineLoad(self, [value, value], 'y',load_id,ltype='dead',
-                                    name='self-weight'))
+            self.self_weight_load = LineLoad(self, [value, value], 'y',load_id,ltype='dead',
+                                             name='self-weight')
+            self.frame.add(self.self_weight_load)
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
+            self.frame.remove_load(self.self_weight_load)
+            self.self_weight_load = None
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index be0b1d3..443d4af 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -231,6 +231,18 @@ class Raami:
 
         return self
 
+    def remove_load(self, load) -> None:
+        """ Removes 'load' from the frame, from its load case and from its member """
+
+        self.loads = {name: other for name, other in self.loads.items() if other is not load}
+
+        for lcase in self.load_cases.values():
+            lcase.loads = [other for other in lcase.loads if other is not load]
+
+        member = getattr(load, 'member', None)
+        if member is not None:
+            member.loads = [other for other in member.loads if other is not load]
+
     def add_self_weight(self):
         """ Adds self weight to frame's members
         """
-- 
2.43.0


From 18420574a7055bfe41052278f82de3d44b827234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 042/121] fix: combined loads ignored the scaling factor of the
 load and piled up in the load case of the combination

---
 metku/raami/frame_loads.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 6171533..96b3114 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -93,7 +93,7 @@ class LoadCombination:
     """ Class for load combinations """
     
     
-    def __init__(self,comb_id,comb_type='ULS',load_cases=[]):
+    def __init__(self,comb_id,comb_type='ULS',load_cases=()):
         """
         
         Parameters
@@ -114,7 +114,7 @@ class LoadCombination:
         
         self.comb_id = comb_id
         self.comb_type = comb_type
-        self.load_cases = load_cases
+        self.load_cases = list(load_cases)
         self.lead_variable_load = None
 
         # The first non-dead load is the leading variable load case.
@@ -134,6 +134,9 @@ class LoadCombination:
         for key in keys_to_delete:
             del self.frame.loads[key]
 
+        if self.comb_id in self.frame.load_cases:
+            self.frame.load_cases[self.comb_id].loads = []
+
     def combine_loads(self):
         """ Does the actual load combination:
             Each load in each load case is multiplied by its corresponding
@@ -206,7 +209,7 @@ class Load:
             if comb_type == 'ULS':
                 factor = 1.15
         
-        self.f = factor
+        self.f *= factor
             
 
 class PointLoad(Load):
-- 
2.43.0


From 61f52b47d50654f77a3599d30ea80abc95e6c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 043/121] fix: piecewise constant loads of columns and members
 drawn from right to left took the wrong values

---
 metku/raami/frame_loads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 96b3114..f7b3706 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -369,10 +369,11 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
-        xdiv = self.member.local_to_global(self.xdiv)[0]
+        xdiv = self.xdiv
         
         for elem in self.member.fem_elements:
-            X = [elem.nodes[0].x,elem.nodes[1].x]
+            # Local coordinates of the element nodes
+            X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
             if X[1] <= xdiv:
                 q = qval[0]
-- 
2.43.0


From cbda36bc7cee980e402437eb46282b10f677efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 044/121] fix: greatest and least member forces of several load
 cases were compared by their absolute values

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index ff0a904..8842f91 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -528,7 +528,7 @@ class FrameMember:
                     if result_dict[key]["load_id"] is None:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
-                    elif abs(val) > abs(result_dict[key][force]):
+                    elif func(val, result_dict[key][force]) != result_dict[key][force]:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
 
-- 
2.43.0


From 1df676f2afd29e594c75453869fa7e9a4fd0c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 045/121] fix: elements of the symmetry pair of a general frame
 member kept the old cross-section

---
 metku/raami/frame_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 8842f91..1a838c6 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -199,7 +199,8 @@ class FrameMember:
             self.symmetry_pair.__cross_section = val
             if not self.symmetry_pair.member is None:
                 self.symmetry_pair.member.profile = val
-                self.symmetry_pair.update_element_sections()
+            
+            self.symmetry_pair.update_element_sections()
             
     @property
     def material(self):
-- 
2.43.0


From 484023ca5e605ec77f60139bddba9c523a66bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 046/121] fix: choice of a group's profile ignored the
 slenderness limit and that of a multi-span member the greatest utilization

---
 metku/raami/frame_member.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 1a838c6..dbbf54e 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1377,7 +1377,7 @@ class MultiSpanSteelMember(MultiSpanMember):
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
                             
-            if all(r<=self.allowable_utilization for r in self.utilization.values()):# <= 1.0:
+            if all(r<=max_utility for r in self.utilization.values()):# <= 1.0:
                 break
             
         
@@ -1519,16 +1519,17 @@ class MemberGroup:
             if sec.section_class() > sec_class:
                 continue
             
+            # For multispan members, the member of a group contains
+            # several members.
+            spans = []
             for member in self.members:
-                # For multispan members, the member of a group contains
-                # several members.
                 if isinstance(member,MultiSpanMember):
-                    for mem in member.members:
-                        if any(mem.member.slenderness() > max_slenderness):
-                            continue
+                    spans += member.members
                 else:
-                    if any(member.member.slenderness() > max_slenderness):
-                        continue
+                    spans.append(member)
+            
+            if any(any(mem.member.slenderness() > max_slenderness) for mem in spans):
+                continue
             
             
             for load_id in self.frame.load_ids:   
-- 
2.43.0


From 354d75075f630c71b67e8206e928c9c53ba6a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 047/121] fix: resistance check of a member told the result of
 the last load case only

---
 metku/raami/frame_member.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index dbbf54e..18a33a1 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -546,12 +546,10 @@ class FrameMember:
 
         rmax = self.member.design()
         
-        if rmax > self.allowable_utilization:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        
+        # All load cases have to be passed
+        self.resistance_check = all(r <= self.allowable_utilization for r in self.utilization.values())
     
     def print_utilization(self,file=None,details=False):
         """ Prints utilization ratios for different load cases """
@@ -1213,12 +1211,10 @@ class SteelFrameMember(FrameMember):
 
         rmax = self.member.design(sway=self.sway)
         
-        if rmax > self.allowable_utilization:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        
+        # All load cases have to be passed
+        self.resistance_check = all(r <= self.allowable_utilization for r in self.utilization.values())
     
     def optimum_design(self, prof_type='CURRENT',verb=False,material="S355",
                        sec_class = 3, max_utility=1.0,
@@ -1341,12 +1337,10 @@ class MultiSpanSteelMember(MultiSpanMember):
             mem.design(load_id)
             rmax = max(rmax,mem.utilization[load_id])
                         
-        if rmax > 1.0:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        
+        # All load cases have to be passed
+        self.resistance_check = all(r <= 1.0 for r in self.utilization.values())
     
     def optimum_design(self,prof_type="CURRENT",verb=False,material="S355",
                        sec_class=3,max_utility=1.0):
@@ -1477,12 +1471,10 @@ class MemberGroup:
             mem.design(load_id)
             rmax = max(rmax,mem.utilization[load_id])
                         
-        if rmax > 1.0:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        
+        # All load cases have to be passed
+        self.resistance_check = all(r <= 1.0 for r in self.utilization.values())
     
     def optimum_design(self,prof_type="CURRENT",verb=False,material="S355",
                        sec_class=3,max_utility=1.0,
-- 
2.43.0


From ca6489beb2852af83df12b704d7ef573a5e77223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 048/121] fix: a steel material object assigned to a
 cross-section was ignored

---
 metku/sections/steel/steel_section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 5898d3f..91f513c 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -153,6 +153,8 @@ class SteelSection(metaclass=ABCMeta):
             self.__material = Steel(val)
         elif isinstance(val, (float, int)):
             self.__material = Steel("S" + str(int(val)))
+        elif isinstance(val, Steel):
+            self.__material = val
 
     @property
     def G(self):
-- 
2.43.0


From 1d3af1ce5a2e78d02a6e170779ffd876295341b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 049/121] fix: finite elements kept the old material when the
 cross-section of their member changed

---
 metku/raami/frame_member.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 18a33a1..e9fde2c 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -656,6 +656,7 @@ class FrameMember:
         if len(self.fem_elements) > 0:
             for element in self.fem_elements:
                 element.section = self.cross_section
+                element.material = self.material
     
     def plot(self, print_text=True, c='k', axes=None, mem_dim=False, dy = 50):
         
-- 
2.43.0


From 9d2a6cb10fafeda2cdd165d985364c344010b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 050/121] fix: reduction factor of Table 6.3 goes from w1 to w2
 for 1 < beta < 2

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 73eb1e0..2623947 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -31,7 +31,7 @@ def min_coeff_w(beta, b_eff_c_wc, t_wc, A_vc):
     elif beta == 1.0:
         w = w_1
     elif 1.0 < beta < 2.0:
-        w = w_1 + 2.0 * (beta - 1.0) * (1.0 - w_1)
+        w = w_1 + (beta - 1.0) * (w_2 - w_1)
     elif beta == 2.0:
         w = w_2
     else:
-- 
2.43.0


From 713321e717cc63c24a5740d8ef7f9a1cc57246a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 051/121] fix: bolt_shear_resistance had the factors of thread
 and shank swapped

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 2e3c7f5..b66c5d2 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2119,12 +2119,12 @@ def bolt_shear_resistance(fub,A,bolt_class=8.8,threads_in_plane=False):
     """
     
     if threads_in_plane:
-        av = 0.6
-    else:
         if bolt_class in {10.9,6.8,5.8,4.8}:
             av = 0.5
         elif bolt_class in {4.6,5.6,8.8}:
             av = 0.6
+    else:
+        av = 0.6
     
     FvRd = av*fub*A/gammaM2
     
-- 
2.43.0


From 22696e64ee5df5cf8af7cf99815d48632d53b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 052/121] fix: bolt_bearing_resistance lacked the partial
 factor and the spacing of edge bolts

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index b66c5d2..19e8413 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2157,14 +2157,14 @@ def bolt_bearing_resistance(fub,fu,d,t,e,p,d0,pos_perp="edge",pos_load="edge"):
         ad = p1/3/d0 - 0.25    
 
     if pos_perp == "edge":
-        k1 = min(2.8*e2/d0-1.7,2.5)
+        k1 = min(2.8*e2/d0-1.7,1.4*p2/d0-1.7,2.5)
     else:
         k1 = min(1.4*p2/d0-1.7,2.5)
         
     
     ab = min(ad,fub/fu,1.0)
     
-    FbRd = k1*ab*fu*d*t    
+    FbRd = k1*ab*fu*d*t/gammaM2
     
     return FbRd
 
-- 
2.43.0


From 38323deb2611759b2b48b08fa3acfffc00cc2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 053/121] fix: stiffener plates have a thickness 't', not 'khp'

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 2623947..e87e21b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -234,7 +234,7 @@ def col_web_trv_comp_stiffened(column, plate):
     e = column.eps
     tw = column.tw
     bsg = plate.b
-    ts = plate.khp
+    ts = plate.t
     
     fy = plate.material.fy
     As_eff = (30*e*tw+ts)*tw + 2*bsg*ts
diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 19e8413..4212bb4 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -571,13 +571,13 @@ class BoltRow:
         if self.z > zbeam:
             """ Row is above the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    + 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    + 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     + 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             return self.z-zweld
         else:
             """ Row is below the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    - 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    - 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     - 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             
             return zweld-self.z
-- 
2.43.0


From bd7ee68f2232fc8763d427d42617b11a2c0975f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 054/121] fix: add_stiffener swapped the width and depth of the
 plate

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 6d302b2..8c2b3ee 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -341,7 +341,7 @@ class EndPlateJoint:
                     hp = self.beam.h
                     bp = self.col.hw
                 tp = value
-                plate = RectPlate(hp,bp,tp,material=self.col.material.name)
+                plate = RectPlate(bp,hp,tp,material=self.col.material.name)
             elif key == 'plate':
                 plate = value
             
-- 
2.43.0


From 8733f7802ff466c76feb15b37370ec886f4467d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 055/121] fix: joints with a top stiffener failed: m2 of a
 T-stub is a read-only property

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 --
 metku/structures/steel/end_plate_joint.py       | 2 --
 2 files changed, 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 4212bb4..9a68025 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -792,8 +792,6 @@ class BoltRow:
         #self.Tstub_col_flange.emin = self.emin_flange
         #self.Tstub_col_flange.m = self.col_flange_m
         #self.Tstub_col_flange.e = self.col_flange_e
-        if self.joint.stiffeners['col_top_flange'] is not None:
-            self.Tstub_col_flange.m2 = self.top_flange_stiffener_m2
         """ Determine effective length 
             The 'leff_1' and 'leff_2' methods store the
             effective length of each failure mode to the T-stub,
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 8c2b3ee..bbdc2ce 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -369,9 +369,7 @@ class EndPlateJoint:
                         self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
                     else:
                         self.bolt_rows[0].loc_col_flange = END_ROW_ADJACENT_TO_STIFFENER
-                    self.bolt_rows[0].Tstub_col_flange.m2 = self.bolt_rows[0].top_flange_stiffener_m2
                     self.bolt_rows[1].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
-                    self.bolt_rows[1].Tstub_col_flange.m2 = self.bolt_rows[1].top_flange_stiffener_m2
                     
                     for group in self.row_groups:
                         for i, row in enumerate(group.rows):
-- 
2.43.0


From d08b63ef58c9de109966007c4cb31dc3999667c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 056/121] fix: rows of a bolt group kept a stale pitch at some
 locations

---
 .../eurocodes/en1993/en1993_1_8/en1993_1_8.py | 109 ++++--------------
 1 file changed, 20 insertions(+), 89 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 9a68025..95657a5 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1016,6 +1016,18 @@ class BoltRowGroup:
             rows.
         """
         return [self.rows[i].z-self.rows[i+1].z for i in range(len(self.rows)-1)]
+    
+    def pitch(self,i):
+        """ Distance between row 'i' and the adjacent rows of the group:
+            mean value, if there is a row on both sides
+        """
+        p = self.p
+        if i == 0:
+            return p[0]
+        if i == len(p):
+            return p[-1]
+        return 0.5*(p[i-1]+p[i])
+    
     def info(self):
         """ Prints info """
         
@@ -1866,13 +1878,7 @@ class TStubGroupColumnFlange(TStubGroup):
         for i, row in enumerate(self.group.rows):
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
-                if i == 0:
-                    row.Tstub_col_flange.p = self.group.p[i]
-                else:
-                    row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
-                row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
+            row.Tstub_col_flange.p = self.group.pitch(i)
             
             #print("p = ",row.Tstub_col_flange.p)
             
@@ -1891,13 +1897,7 @@ class TStubGroupColumnFlange(TStubGroup):
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['flange']
             
-            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
-                if i == 0:
-                    row.Tstub_col_flange.p = self.group.p[i]
-                else:
-                    row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
-                row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
+            row.Tstub_col_flange.p = self.group.pitch(i)
         
             self._leff_rows[row]['leff_cp'] = row.Tstub_col_flange.leff_cp_as_group(position)
             leff_cp += self._leff_rows[row]['leff_cp']
@@ -1913,13 +1913,7 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
-                if i == 0:
-                    row.Tstub_col_flange.p = self.group.p[i]
-                else:
-                    row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
-                row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
+            row.Tstub_col_flange.p = self.group.pitch(i)
             
             self._leff_rows[row]['leff_nc'] = row.Tstub_col_flange.leff_nc_as_group(position)
             
@@ -1936,13 +1930,7 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
-                if i == 0:
-                    row.Tstub_col_flange.p = self.group.p[i]
-                else:
-                    row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
-                row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
+            row.Tstub_col_flange.p = self.group.pitch(i)
             
             self._leff_rows[row]['leff_cp'] = row.Tstub_col_flange.leff_cp_as_group(position)
             
@@ -1986,24 +1974,7 @@ class TStubGroupEndPlate(TStubGroup):
         
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['plate']
-            if position == FIRST_ROW_BELOW_BEAM_TENSION_FLANGE:
-                """ First row below tension flange is always
-                    the first in any group
-                """
-                row.Tstub_end_plate.p = self.group.p[i]
-            elif position == OTHER_END_ROW:
-                """ Other inner row can be the first in a group
-                    or the last
-                """
-                if i == 0:
-                    """ Row is the first in a group """
-                    row.Tstub_end_plate.p = self.group.p[i]
-                else:
-                    """ Row is the last in a group """
-                    row.Tstub_end_plate.p = self.group.p[i-1]
-                    
-            elif position == OTHER_INNER_ROW:
-                row.Tstub_end_plate.p = 0.5*(self.group.p[i-1]+self.group.p[i])
+            row.Tstub_end_plate.p = self.group.pitch(i)
                 
             self._leff_rows[row]['leff_nc'] = row.Tstub_end_plate.leff_nc_as_group(position)
             leff_nc += self._leff_rows[row]['leff_nc']
@@ -2020,13 +1991,7 @@ class TStubGroupEndPlate(TStubGroup):
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['plate']
             
-            if position == END_ROW:
-                if i == 0:
-                    row.Tstub_end_plate.p = self.group.p[i]
-                else:
-                    row.Tstub_end_plate.p = self.group.p[i-1]
-            elif position == INNER_ROW:
-                row.Tstub_end_plate.p = 0.5*(self.group.p[i-1]+self.group.p[i])
+            row.Tstub_end_plate.p = self.group.pitch(i)
             
             self._leff_rows[row]['leff_cp'] = row.Tstub_end_plate.leff_cp_as_group(position)
             leff_cp += self._leff_rows[row]['leff_cp']
@@ -2043,24 +2008,7 @@ class TStubGroupEndPlate(TStubGroup):
             
             position = self.group.row_loc[i]['plate']
             
-            if position == FIRST_ROW_BELOW_BEAM_TENSION_FLANGE:
-                """ First row below tension flange is always
-                    the first in any group
-                """
-                row.Tstub_end_plate.p = self.group.p[i]
-            elif position == OTHER_END_ROW:
-                """ Other inner row can be the first in a group
-                    or the last
-                """
-                if i == 0:
-                    """ Row is the first in a group """
-                    row.Tstub_end_plate.p = self.group.p[i]
-                else:
-                    """ Row is the last in a group """
-                    row.Tstub_end_plate.p = self.group.p[i-1]
-                    
-            elif position == OTHER_INNER_ROW:
-                row.Tstub_end_plate.p = 0.5*(self.group.p[i-1]+self.group.p[i])
+            row.Tstub_end_plate.p = self.group.pitch(i)
             
             
             self._leff_rows[row]['leff_nc'] = row.Tstub_end_plate.leff_nc_as_group(position)
@@ -2078,24 +2026,7 @@ class TStubGroupEndPlate(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['plate']
-            if position == FIRST_ROW_BELOW_BEAM_TENSION_FLANGE:
-                """ First row below tension flange is always
-                    the first in any group
-                """
-                row.Tstub_end_plate.p = self.group.p[i]
-            elif position == OTHER_END_ROW:
-                """ Other inner row can be the first in a group
-                    or the last
-                """
-                if i == 0:
-                    """ Row is the first in a group """
-                    row.Tstub_end_plate.p = self.group.p[i]
-                else:
-                    """ Row is the last in a group """
-                    row.Tstub_end_plate.p = self.group.p[i-1]
-                    
-            elif position == OTHER_INNER_ROW:
-                row.Tstub_end_plate.p = 0.5*(self.group.p[i-1]+self.group.p[i])
+            row.Tstub_end_plate.p = self.group.pitch(i)
             
             self._leff_rows[row]['leff_cp'] = row.Tstub_end_plate.leff_cp_as_group(position)
             
-- 
2.43.0


From 97982386100471f25e2c0f9e46da79d88abe612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 057/121] fix: FT_Rd of a T-stub group could not be called
 without arguments

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 95657a5..6e830da 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1514,7 +1514,6 @@ class TStubColumnFlange(TStub):
             except:
                 alpha = cm.new_alpha(self.e, self.m, self.m2)                            
                 #print(alpha)
-            print(self.p,alpha,self.m,self.e)
             leff = 0.5*self.p + alpha*self.m - (2*self.m + 0.625*self.e)
             
             
@@ -1822,7 +1821,7 @@ class TStubGroup:
             
         return FRd
     
-    def FT_Rd(self,verb):
+    def FT_Rd(self,verb=False):
         """ Design tension resistance """
         
         FT_Rd = np.array([0.0,0.0,0.0])
-- 
2.43.0


From b1bce81d75a0e73b337c77ac63838d9dc23f059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 058/121] fix: additional shear resistance of a stiffened web
 panel was a moment

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bbdc2ce..bf7d5bd 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -399,7 +399,7 @@ class EndPlateJoint:
                 beam flanges (this may not be true for top stiffener for flushed end-plat)
             """
             ds = self.beam.h-self.beam.tf            
-            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()
+            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()/ds
             fyt = self.stiffeners['col_top_flange'].fy
             tst = self.stiffeners['col_top_flange'].t
             fyb = self.stiffeners['col_bottom_flange'].fy
-- 
2.43.0


From c4ab0035446e0c2e8d372ef30c3d18e1b54f291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 059/121] fix: rows in shear only entered the moment resistance
 of the joint

---
 metku/structures/steel/end_plate_joint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bf7d5bd..a888fe3 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -593,7 +593,8 @@ class EndPlateJoint:
         
         MjRd = 0.0
         for row in self.bolt_rows:
-            MjRd += row.FtRd * row.h
+            if row.type != SHEAR_ROW:
+                MjRd += row.FtRd * row.h
         
         if verb:
             print("MjRd = {0:4.2f} kNm".format(MjRd*1e-6))
-- 
2.43.0


From 15848f53f593c7e09c3fdd29bd34fa7831c7bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 060/121] fix: initial stiffness of joints with one tension row
 or shear rows

---
 metku/structures/steel/end_plate_joint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index a888fe3..d82554e 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -616,8 +616,8 @@ class EndPlateJoint:
 
     def keq(self,verb=False):
         """ Equivalent stiffness of the tension rows """
-        keff = np.array([row.keff() for row in self.bolt_rows])
-        hr = self.hr()
+        keff = np.array([row.keff() for row in self.bolt_rows if row.type != SHEAR_ROW])
+        hr = self.hr('non-shear')
         
     
         return sum(keff*hr)/self.zeq(verb)
@@ -690,6 +690,7 @@ class EndPlateJoint:
                 between bottom 
             """
             z = self.moment_arm()
+            k_eq = self.keq()
         else:
             z, k_eq = self.zeq_and_keq(verb)
         
-- 
2.43.0


From 355fe7b17ebdec6a6da21335442f18fa35e53ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 061/121] fix: size of a bolt that is not available in the
 required length could not be changed

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 6e830da..670293b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -208,6 +208,8 @@ class Bolt:
         self.washer_d = washer_size[val]["d2"]
         
         bolt_available = False
+        length = self._length
+        bolt_type = 'Full thread'
         for key, value in bolt_unit_cost_part_thread.items():
             if key >= self._length:
                 if value[val] != 'N/A':
-- 
2.43.0


From 49b660aeac92ed46f69e62aa5f69b36a9b104ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 062/121] fix: end-plate joints had no bolt rows when row types
 were not given

---
 metku/structures/steel/end_plate_joint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index d82554e..ae444d7 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -102,6 +102,10 @@ class EndPlateJoint:
         
         # Geometrical properties
         
+        # By default, all rows are in tension
+        if len(row_types) == 0:
+            row_types = [TENSION_ROW]*len(y_bolts)
+        
         # Create bolt rows
         for y, row_pos, r_type in zip(y_bolts,bolt_row_pos,row_types):
             """ Determine location of bolt row with respect to
-- 
2.43.0


From fb643fbe4d8ecb07e4d84bb6214763d350e943ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 063/121] fix: distance of a bolt row from the top of the plate
 was not updated with the plate

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 670293b..5864d4d 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -376,7 +376,6 @@ class BoltRow:
         
         self.joint = joint
         
-        self._z_top = 0.5*self.joint.beam.h+self.joint.etop - z
         #self.y = y
         """ p can be a single number, in which case there are two bolts
             in the row
@@ -450,12 +449,11 @@ class BoltRow:
     @property
     def z_top(self):
         """ Distance of the bolt row from the top of the end plate """
-        return self._z_top
+        return 0.5*self.joint.beam.h+self.joint.etop - self.z
     
     @z_top.setter
     def z_top(self,val):
         """ Distance of the bolt row from the top of the end plate """
-        self._z_top = val
         self.z = 0.5*self.joint.beam.h+self.joint.etop - val
         
     @property
-- 
2.43.0


From 33734e94fb374e842334a82728b88ae11fa7ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 064/121] fix: chord stress had no effect on resistance of Y
 joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 metku/raami/raami_plane_truss.py                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6d8d763..0dfb927 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -832,7 +832,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -854,7 +854,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 533672e..af8cc7f 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2860,7 +2860,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -2873,7 +2873,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From e1da58e3ef74b2dc7cee4fa4f5bff1326614aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 065/121] fix: resistance of Y joints with beta > 0.85 was not
 interpolated from chord face failure at 0.85

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 +++---
 metku/raami/raami_plane_truss.py                | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 0dfb927..93caaf7 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -824,9 +824,9 @@ class RHSYJoint(RHSJoint):
     def chord_face_failure(self,verb=False):
                         
         b = self.beta()
-        if b >= 1:
-            # If beta is grater than 1, artificially reduce it to "nearly 1".
-            b = 0.99
+        # Chord face failure is not possible for greater values of beta: the
+        # resistance is then interpolated from the one at beta = 0.85.
+        b = min(b,0.85)
         kn = self.eval_KN()
         
         r = self.strength_reduction()
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index af8cc7f..d9f58ca 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2852,9 +2852,9 @@ class TubularYJoint(TubularJoint):
     def chord_face_failure(self,verb=False):
                         
         b = self.beta()
-        if b >= 1:
-            # If beta is grater than 1, artificially reduce it to "nearly 1".
-            b = 0.99
+        # Chord face failure is not possible for greater values of beta: the
+        # resistance is then interpolated from the one at beta = 0.85.
+        b = min(b,0.85)
             
         kn = self.eval_KN()
         r = self.strength_reduction()
-- 
2.43.0


From f518ec64f864263da28b75318fb9b3a91c40c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 066/121] fix: side wall of stocky chords was stronger than its
 yield strength

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 metku/raami/raami_plane_truss.py                | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 93caaf7..9edecdf 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -812,7 +812,7 @@ class RHSYJoint(RHSJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
@@ -1017,7 +1017,7 @@ class RHSXJoint(RHSYJoint):
             alpha = self.chord.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             res = 0.8*chi * self.fy0*np.sin(np.radians(self.angle))            
         else:
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index d9f58ca..a137ccf 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2834,7 +2834,7 @@ class TubularYJoint(TubularJoint):
             alpha = self.chords[0].cross_section.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
-- 
2.43.0


From a6194a0c4e50f30f6cdf3691410394b9205d7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 067/121] fix: side wall resistance of X joints could not be
 evaluated and had the partial factor twice

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 9edecdf..692893f 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -1014,7 +1014,7 @@ class RHSXJoint(RHSYJoint):
                 
                 
         if self.N1 < 0.0:            
-            alpha = self.chord.imp_factor[0]
+            alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
             chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
@@ -1035,14 +1035,13 @@ class RHSXJoint(RHSYJoint):
             # Take the minimium of chord web buckling for X joints
             # and chord shear for K and N joints
             # 
-            Nshear = self.fy0*self.chord.Ashear/np.sqrt(3)/np.sin(np.radians(self.angle))
+            Nshear = self.fy0*self.chord.profile.Ashear[1]/np.sqrt(3)/np.sin(np.radians(self.angle))
             # The strength reduction factor is already taken into account
             # for the chord web buckling of the Y joint class method.
             # It must be applied for the chord shear.
             r = self.strength_reduction()
-            NRd = min(NRd,r*Nshear)
+            NRd = min(NRd,r*Nshear/gammaM5)
         
-        NRd = NRd / gammaM5
         return NRd
         
     def info(self):
-- 
2.43.0


From 0f856bd4b4bc0f9eb684d5b286c597bd4055f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 068/121] fix: compression in the brace of a Y joint was taken
 as tension

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 692893f..acd3784 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -765,7 +765,9 @@ class RHSYJoint(RHSJoint):
             self.brace = brace
         self.angle = angle
         
-        self._N1 = self.brace.NEd
+        # NEd of the member is an absolute value
+        ned = self.brace.ned
+        self._N1 = ned[np.argmax(abs(ned))]
         
     @property
     def N1(self):
-- 
2.43.0


From 9aa4dfc46b6bebb126602f87ade6d1da651746ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 069/121] fix: force and angle of the tension brace of a K
 joint

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index acd3784..ca39221 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -330,15 +330,15 @@ class RHSKGapJoint(RHSJoint):
     @property
     def N2(self):
         """ Axial force in the tension member """
-        if self.braces[0].NcEd <= 0.0:
-            return abs(self.braces[1].NcEd)
+        if self.braces[0].NcEd < 0.0:
+            return self.braces[1].NEd
         else:
             return self.braces[0].NEd
     
     @property
     def angle2(self):
         """ Angle of the tension member """
-        if self.braces[0].Ned <= 0.0:
+        if self.braces[0].NcEd < 0.0:
             return self.angles[1]
         else:
             return self.angles[0]
-- 
2.43.0


From 2ffde16b261ac88524117b1e8afba1d6c92b9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 070/121] fix: utilization of K joints could not be evaluated

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 7 +++++--
 metku/raami/raami_plane_truss.py                | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index ca39221..8d15b54 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -711,7 +711,7 @@ class RHSKGapJoint(RHSJoint):
 
         Returns
         -------
-        Utilization ratios N1Ed/NjRd and N2Ed/NjRd
+        Utilization ratios N1Ed/NjRd, N2Ed/NjRd and N0Ed/N0Rd
 
         """
         
@@ -730,7 +730,10 @@ class RHSKGapJoint(RHSJoint):
             N_ps_Rd = self.punching_shear()        
             NjRd = np.minimum(NjRd,N_ps_Rd)
 
-        res = np.array(abs(self.NEd)/NjRd,abs(self.N0/N0Rd))
+        # Utilization of the chord
+        U0 = abs(self.N0)/N0Rd if N0Rd > 0.0 else np.inf
+        
+        res = np.append(abs(self.NEd)/NjRd,U0)
 
         return res
 
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index a137ccf..eb8ea30 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3482,7 +3482,10 @@ class TubularKGapJoint(TubularJoint):
             NjRd = np.minimum(NjRd,N_ps_Rd)
         
         #NjRd = N_cff_Rd
-        r = np.array(abs(NEd)/NjRd,abs(self.N0/N0Rd))
+        # Utilization of the chord
+        U0 = abs(self.N0)/N0Rd if N0Rd > 0.0 else np.inf
+        
+        r = np.append(abs(NEd)/NjRd,U0)
         
         self.utilization[load_id] = max(r)
         
-- 
2.43.0


From c86cf6457259972cd6e5eeac63fac12b4b61351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 071/121] fix: chord face plate could not be added to a K joint

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 8d15b54..f7e6403 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -502,8 +502,8 @@ class RHSKGapJoint(RHSJoint):
 
         """
         
-        lp_min = 1.5*(self.braces[0].h/np.sin(np.radians(self.angles[0])) + self.gap + 
-                                              self.braces[1].h/np.sin(np.radians(self.angles[1])))
+        lp_min = 1.5*(self.h[0]/np.sin(np.radians(self.angles[0])) + self.gap + 
+                                              self.h[1]/np.sin(np.radians(self.angles[1])))
         
         lp = max(lp,lp_min)
         
-- 
2.43.0


From b08b1ce67cb3267350b265fee75c63b908b881a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 072/121] fix: Y joints of trusses with beta >= 0.85 could not
 be designed

---
 metku/raami/raami_plane_truss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index eb8ea30..d9285c3 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2866,9 +2866,9 @@ class TubularYJoint(TubularJoint):
 
         return NRd
     
-    def chord_web_buckling(self):
+    def chord_web_buckling(self,load_id):
         
-        fb = self.fb()
+        fb = self.fb(load_id)
         kn = self.eval_KN()
         r = self.strength_reduction()
         t0 = self.t0
@@ -2942,7 +2942,7 @@ class TubularYJoint(TubularJoint):
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
             N_cff_Rd = self.chord_face_failure()
-            N_csw_Rd = self.chord_web_buckling()
+            N_csw_Rd = self.chord_web_buckling(load_id)
             N_bf_Rd = self.brace_failure()
             
             # Linear interpolation between chord face failure at b = 0.85
-- 
2.43.0


From 6ff10f3af5e07ccb4a7162d58d87163fa006920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 073/121] fix: K and Y joints of trusses were not designed for
 the larger chord force

---
 metku/raami/raami_plane_truss.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index d9285c3..bc0b6d6 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2921,7 +2921,7 @@ class TubularYJoint(TubularJoint):
         #        N0 = N
         
         N1 = self.braces[0].NEd[load_id]
-        self.N0 = self.chords[0].NEd[load_id]
+        self.N0 = max([chord.NEd[load_id] for chord in self.chords],key=abs)
 
         #r = self.joint.design()
         b = self.beta()
@@ -3432,10 +3432,7 @@ class TubularKGapJoint(TubularJoint):
         #    joint_brace.Ned = brace.NEd[load_id]
         
         """ Load in the chord """
-        if abs(self.chords[0].NEd[load_id]) < abs(self.chords[1].NEd[load_id]):
-            N0 = self.chords[0].NEd[load_id]
-        else:
-            N0 = self.chords[1].NEd[load_id]
+        N0 = max([chord.NEd[load_id] for chord in self.chords],key=abs)
         
         M0 = 0.0
         """
-- 
2.43.0


From a6bde47e2fd938fd5cfa85bfd454db361ad65e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 074/121] fix: shear force in the gap of K joints at the ridge
 or of negative sign

---
 metku/raami/raami_plane_truss.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index bc0b6d6..63b33cb 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3131,7 +3131,12 @@ class TubularKGapJoint(TubularJoint):
     
     def V0gap(self,load_id):
         """ Shear force in the gap """
-        return max(self.fem_elements['gap'].fint[load_id]['fz'])
+        gap = self.fem_elements['gap']
+        # At the ridge, there is a gap element on both sides of the apex
+        if not isinstance(gap,list):
+            gap = [gap]
+        
+        return max([abs(V) for element in gap for V in element.fint[load_id]['fz']])
     
     @property
     def angles(self):
-- 
2.43.0


From 5e07ae30a77c0dd70921b6622bfdaea62ed44f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 075/121] fix: objective function gave values of fixed
 variables to free ones and used analysis results of other variable values

---
 metku/optimization/objective.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index 5e0f042..a9843dd 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -39,9 +39,6 @@ class ObjectiveFunction:
             Read values from 'x' and reverse them.
             Reversing is done so that 'pop' method can be employed.
         """
-        if self.fea_required and not self.problem.fea_done:
-            self.problem.fea()
-
         X = [val for val in x]
         X.reverse()
 
@@ -65,7 +62,10 @@ class ObjectiveFunction:
                 """
                 break
 
-        self.problem.substitute_variables(fixed_vals)
+        self.problem.substitute_variables(x)
+
+        if self.fea_required and not self.problem.fea_done.get("ALL", False):
+            self.problem.fea()
 
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
-- 
2.43.0


From 12f6fcca919d10b9f562725d28ade343c942585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 076/121] fix: linearization used and left analysis results of
 other variable values

---
 metku/optimization/structopt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d054c0..5f830c6 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -394,6 +394,10 @@ class OptimizationProblem:
             if not isinstance(var,BinaryVariable) and np.linalg.norm(x-xh) == 0:
                 print("Linearize: error with variable substitution - too small step size.")
 
+            if not isinstance(var, BinaryVariable):
+                # Analysis results of previous variable values are no longer valid
+                self.substitute_variables(xh)
+
             """ Evaluate objective function at x + hi*ei """
             if self.grad is None:
                 if not isinstance(var, BinaryVariable):                 
@@ -416,7 +420,8 @@ class OptimizationProblem:
                 
             """ Substitute the original value x[i] to current variable """
             var.substitute(prev_val)            
-            
+
+        self.substitute_variables(x)
 
         #B = A @ x.T - b
         B = A.dot(x) - b
-- 
2.43.0


From a20efc602d112561e659472350a609efa21ca69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 077/121] fix: linearization took coefficients of linear
 constraints from other variables when some are fixed

---
 metku/optimization/structopt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 5f830c6..a49428c 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -371,6 +371,9 @@ class OptimizationProblem:
         if self.grad is not None:
             df = self.grad(x)
                 
+        # Coefficients of linear constraints include the fixed variables
+        free_ndx = [i for i, var in enumerate(self.all_vars) if not var.locked]
+
         for i, var in enumerate(self.vars):
             prev_val = var.value
             if isinstance(var, BinaryVariable):
@@ -410,7 +413,7 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[i]
+                    dg[j] = con.a[free_ndx[i]]
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From c51775660cd1839a70b03631792972b2aacc9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 078/121] fix: linear constraints and linearization of index
 variables failed

---
 metku/optimization/variables.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 3a87151..36ccec2 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -333,11 +333,10 @@ class IndexVariable(IntegerVariable):
 
         self.value = new_value
 
-    # @property
-    # def idx(self):
-    #     if self.value in self.values:
-    #         return self.values.index(self.value)
-    #     return self.value
+    @property
+    def idx(self):
+        """ Index of the current value in the list of values """
+        return self.value
 
 
 class DiscreteVariable(Variable):
-- 
2.43.0


From eff87ad37bb6411e651e0fa72c5f689781fa5b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 079/121] fix: value of a locked index variable could be
 changed

---
 metku/optimization/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 36ccec2..7ccbf40 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -331,7 +331,8 @@ class IndexVariable(IntegerVariable):
                 " index or a value from the given list!\n"
                 f"Values: {self.values}")
 
-        self.value = new_value
+        if not self.locked:
+            self.value = new_value
 
     @property
     def idx(self):
-- 
2.43.0


From 308cfab4587f6d17332e99ff1e6917887125d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 080/121] fix: scaling was ignored by variables of several
 properties

---
 metku/optimization/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 7ccbf40..7b6df64 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -177,8 +177,10 @@ class Variable:
                                     new_val = new_value * self.scaling
 
                                 obj.__setattr__(p, new_val)
-                            else:
+                            elif isinstance(self, IndexVariable):
                                 obj.__setattr__(p, new_value)
+                            else:
+                                obj.__setattr__(p, new_value * self.scaling)
 
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
@@ -453,7 +455,7 @@ class CrossSectionVariable(Variable):
 
                             obj.__setattr__(p, new_val)
                         else:
-                            obj.__setattr__(p, new_value)
+                            obj.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From 8b97a58207a237d71ab908e9778b64ba3e0c85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 081/121] fix: member existence variable could not activate a
 member again

---
 metku/optimization/variables.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 7b6df64..a20e4d6 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -188,18 +188,17 @@ class Variable:
                         """ If a binary variable has a target, assume that target
                             is the section to be substituted. The section is
                             given in the 'section' attribute of the variable.
+
+                            If the target of a binary variable is a member,
+                            the binary variable is a member existence variable
+                            used in topology optimization. In that case,
+                            mark the member as active or passive.
                         """
-                        if new_value == 1:
+                        if prop == 'member':
+                            obj.__setattr__('active', new_value == 1)
+                        elif new_value == 1:
                             if prop == 'profile' or prop == 'cross_section':
                                 obj.__setattr__(prop, self.section)
-                        else:
-                            """ If the target of a binary variable is a member,
-                                the binary variable is a member existence variable
-                                used in topology optimization. In that case,
-                                mark the member as passive.
-                            """
-                            if prop == 'member':
-                                obj.__setattr__('active', False)
                     else:
                         obj.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From 9ee3f4b5c08fe4f9ff6b3d9f1c8b149f3fd62832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 082/121] fix: cross-section variables could not be given a
 value

---
 metku/optimization/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index a20e4d6..39fb3ec 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -421,7 +421,7 @@ class CrossSectionVariable(Variable):
 
     def __init__(self, name, lb=XLB, ub=XUB, target=None, profiles=None, value=None, target_fun=None):
 
-        super().__init__(name, lb, ub, target, profiles, value, target_fun=target_fun)
+        super().__init__(name, lb, ub, target, profiles=profiles, value=value, target_fun=target_fun)
 
     def substitute(self, new_value):
         """
-- 
2.43.0


From 7a0284fc186c6305a32f7a7eb5b986abd65c665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 083/121] fix: numerical gradients and MMA approximations
 failed

---
 metku/optimization/opt_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 65847bd..248afb2 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -28,12 +28,12 @@ def NumGrad(fun, x):
     # if isinstance(h, float):
     #    h = h * np.ones(n)
 
-    df = np.zeros(n, dtype=np.float)
+    df = np.zeros(n, dtype=float)
     #    
     for i in range(len(x)):
         # print("Täällä")
         # xh = deepcopy(x)
-        xh = np.asarray([val for val in x], dtype=np.float)
+        xh = np.asarray([val for val in x], dtype=float)
         h = max(1e-6 * abs(xh[i]), 1e-8)
         xh[i] += h
 
@@ -105,8 +105,8 @@ def mma_fun(xk, fk, dfk, L, U):
     n = len(xk)
 
     """ Initialize 'p' and 'q' as zeros. """
-    p = np.zeros(n, dtype=np.float)
-    q = np.zeros(n, dtype=np.float)
+    p = np.zeros(n, dtype=float)
+    q = np.zeros(n, dtype=float)
     for i, (Xk, Lk, Uk) in enumerate(zip(xk, L, U)):
         # Determine the constants p and q
         if dfk[i] >= 0:
-- 
2.43.0


From a1af8c3894185d0042e3c0111daf7b8790599253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 084/121] fix: linearization of a function without gradient
 failed

---
 metku/optimization/opt_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 248afb2..dab0c14 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -194,9 +194,7 @@ def Linearize(fun, x, grad=None):
     b = fun(x)
 
     if grad == None:
-        h = 0.01 * x  # check if this is OK
-        # h = np.ones_like(x) * 1e-2
-        a = NumGrad(fun, x, h)
+        a = NumGrad(fun, x)
     else:
         a = grad(x)
 
-- 
2.43.0


From c101d77bfa1614aefeb564a00df505f387b6fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 085/121] fix: approximations of constraints did not substitute
 the variables

---
 metku/optimization/constraints.py | 2 +-
 metku/optimization/structopt.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e11955c..495e90d 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -225,7 +225,7 @@ class NonLinearConstraint(Constraint):
         
         if self.grad is None:
             # Evaluate gradient numerically
-            df = opt_funs.NumGrad(self.con,x)
+            df = opt_funs.NumGrad(self,x)
         else:
             df = self.grad(x)
         
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index a49428c..f4a9a58 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -475,7 +475,7 @@ class OptimizationProblem:
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
                 
@@ -525,7 +525,7 @@ class OptimizationProblem:
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
                 
-- 
2.43.0


From 3172ee82a634af3291f1980697b48a996713bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 086/121] fix: approximations of a problem took its linear
 constraints away

---
 metku/optimization/solvers/mma.py | 2 +-
 metku/optimization/structopt.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 3bfff3e..7b6c329 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -74,7 +74,7 @@ class MMAProblem(OptimizationProblem):
         for con in P.cons:
             if isinstance(con, cons.LinearConstraint):
                 # Linear constraints are simply added
-                self.add(con)
+                self.add(copy(con))
             else:
                 # For nonlinear constraints, MMA approximation is made                
                 mma_con = copy(con)
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index f4a9a58..8cf77c3 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -471,7 +471,7 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pconlin.add(con)
+                Pconlin.add(copy.copy(con))
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
@@ -521,7 +521,7 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pmma.add(con)
+                Pmma.add(copy.copy(con))
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-- 
2.43.0


From 933ea412992e062de74a6b8de897b25f8da41498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 087/121] fix: approximated constraints required structural
 analysis

---
 metku/optimization/structopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8cf77c3..f83697a 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -478,6 +478,7 @@ class OptimizationProblem:
                 gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
+                conlin_con.fea_required = False
                 
                 Pconlin.add(conlin_con)
         
@@ -528,6 +529,7 @@ class OptimizationProblem:
                 gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
+                mma_con.fea_required = False
                 
                 Pmma.add(mma_con)
         
-- 
2.43.0


From 274a3f8da129b138ffe71c128b58fbaa094b40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 088/121] fix: exact penalty function rewarded violation of
 constraints

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index f83697a..3749d7b 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -888,7 +888,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += abs(val)
+                    F += R*abs(val)
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is max(0,val)
@@ -898,7 +898,7 @@ class OptimizationProblem:
                     """ For geq type constraints, the penalty term is
                          min(0,val)
                     """
-                    F += R*min(0,val)
+                    F += R*max(0,-val)
             
             """ Variable bounds are treated separately """
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From d68b7345a1cc98ab5fca1d91873754c8bec7649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 089/121] fix: exterior penalty function ignored its parameters

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 3749d7b..d0fce2d 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -928,7 +928,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += val**p
+                    F += R*abs(val)**p
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is square of max(0,val)
@@ -938,7 +938,7 @@ class OptimizationProblem:
                     """ For geq type constraints, the penalty term is
                         square of min(0,val)
                     """
-                    F += R*min(0,val)**2
+                    F += R*max(0,-val)**p
             
             
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From fd621e3d1ecc9604ec2b1a191e1e05f98eedf33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 090/121] fix: Lagrange multiplier of upper bounds was updated
 from that of lower bounds

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index d0fce2d..a219bc7 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -1083,7 +1083,7 @@ class OptimizationProblem:
                                 
             if var.ub < XUB:                    
                 val = x[i] - var.ub
-                var.ub_mult = max(var.lb_mult + 2*Rineq*val,0)
+                var.ub_mult = max(var.ub_mult + 2*Rineq*val,0)
             
 
 
-- 
2.43.0


From 7f7159a984e70f83f029d53140a8c96bb0a60133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 091/121] fix: values of equality and inequality constraints
 were not returned

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index a219bc7..6c1d810 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -638,6 +638,8 @@ class OptimizationProblem:
             if con.type == "=":
                 geq.append(con(x))
 
+        return np.asarray(geq)
+
     def eval_ineq_con(self, x):
         """ Evaluate inequality constriants
             All constraints are evaluated in the form g(x) >= 0
@@ -651,6 +653,8 @@ class OptimizationProblem:
             elif con.type == "<":
                 g.append(-con(x))
 
+        return np.asarray(g)
+
     def nvars(self):
         """ Return number of variables """
         return len(self.vars)
-- 
2.43.0


From fbc4d7c235f7f2089797e20ac25f29227dd0a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 092/121] fix: add_variable and add_constraint did not make the
 object a part of the problem

---
 metku/optimization/structopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 6c1d810..22ee9c4 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -671,21 +671,21 @@ class OptimizationProblem:
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-        self.vars.append(var)
+        self.add(var)
 
     def add_variables(self, variables):
         """ Adds new variables to the problem """
         for var in variables:
-            self.vars.append(var)
+            self.add(var)
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-        self.cons.append(con)
+        self.add(con)
 
     def add_constraints(self, constraints):
         """ Adds new constraints to the problem """
         for con in constraints:
-            self.cons.append(con)
+            self.add(con)
 
     def add_structure(self, structure):
         """ Add structure to the problem """
-- 
2.43.0


From e3d60d246b163d90b70f35516e5bdc73fe74a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 093/121] fix: constraints and objective given to the
 constructor of a problem did not belong to it

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 22ee9c4..0b0b9a7 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -88,9 +88,13 @@ class OptimizationProblem:
             self.__vars = []
         if constraints:
             self.cons = constraints
+            for con in self.cons:
+                con.problem = self
         else:
             self.cons = []
         self.obj = objective
+        if isinstance(objective, ObjectiveFunction):
+            objective.problem = self
         # Gradient and Hessian of the objective function
         # should also include the possibility that some of the variables
         # can be fixed!
-- 
2.43.0


From 47703b8fbfb4d8bee684d5c6a8b8a67c0ddea4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 094/121] fix: move limits of MMA for negative asymptotes

---
 metku/optimization/solvers/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 7b6c329..b0c62cf 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -54,7 +54,7 @@ class MMAProblem(OptimizationProblem):
         for i, var in enumerate(P.vars):
             # Create variables for the mma problem
             # Rules for variable bounds are from Svanberg (2007)
-            lb = max(var.lb, L[i] + 0.1 * (x[i] - abs(L[i])), x[i] - 0.5 * (var.ub - var.lb))
+            lb = max(var.lb, L[i] + 0.1 * (x[i] - L[i]), x[i] - 0.5 * (var.ub - var.lb))
             ub = min(var.ub, U[i] - 0.1 * (U[i] - x[i]), x[i] + 0.5 * (var.ub - var.lb))
             self.add(Variable(name=var.name,
                               lb=lb,
@@ -137,7 +137,7 @@ class MMA(OptSolver):
             Lnew = xk - g * (xk1 - self.L[-1])
             Unew = xk + g * (self.U[-1] - xk1)
 
-        Lnew = np.minimum(np.maximum(xk - 10 * Dx, Lnew), xk - 0.1 * Dx)
+        Lnew = np.minimum(np.maximum(xk - 10 * Dx, Lnew), xk - 0.01 * Dx)
         Unew = np.minimum(np.maximum(xk + 0.01 * Dx, Unew), xk + 10 * Dx)
 
         # print("Lnew = ",Lnew)
-- 
2.43.0


From 6f90c69c28b9b9d915cf009a6e00deb597640e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 095/121] fix: iteration history was overwritten by the next
 step

---
 metku/optimization/solvers/optsolver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index bb74e12..9673fe8 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -221,8 +221,8 @@ class OptSolver:
             problem.substitute_variables(self.X)
 
         # Store initial point
-        self.xvals.append(np.array(x0))
-        self.fvals.append(problem.obj(x0))
+        self.xvals.append(self.X.copy())
+        self.fvals.append(problem.obj(self.X))
 
 
         if plot:
@@ -303,7 +303,7 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X)
+                self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
-- 
2.43.0


From d42248fa1f0ef697206e4f930123eca17b34d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 096/121] fix: SLP took all constraints as less than or equal

---
 metku/optimization/solvers/slp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/slp.py b/metku/optimization/solvers/slp.py
index 4a316f2..38804b6 100644
--- a/metku/optimization/solvers/slp.py
+++ b/metku/optimization/solvers/slp.py
@@ -90,10 +90,14 @@ class SLP(OptSolver):
             beta = solver.NumVar(0, self.beta, 'beta')
         # Constraints
         for i in range(n):
-            if self.include_beta:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + beta)
-            else:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i])
+            lhs = solver.Sum([A[i, j] * x[j] for j in range(m)])
+            con_type = self.problem.cons[i].type
+            slack = beta if self.include_beta else 0
+            # Equalities are relaxed in both directions
+            if con_type != '>':
+                solver.Add(lhs <= B[i] + slack)
+            if con_type != '<':
+                solver.Add(lhs >= B[i] - slack)
 
         # Objective
         if self.include_beta:
-- 
2.43.0


From f12c954b1b1f44965a8bd503516310582fec6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 097/121] fix: MISLP ignored greater than or equal constraints

---
 metku/optimization/solvers/mislp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index e537d70..8d15e3f 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -110,6 +110,9 @@ class MISLP(OptSolver):
             if act_cons[i].type == '<':                
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) <= B[i] + beta)
+            elif act_cons[i].type == '>':
+                CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
+                                               for j in range(m)]) >= B[i] - beta)
             elif act_cons[i].type == '=':
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) == B[i])
-- 
2.43.0


From 72ca577a834c224a9c93d0c121d90243632ecf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 098/121] fix: feasibility was not evaluated by SLSQP

---
 metku/optimization/solvers/slsqp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/slsqp.py b/metku/optimization/solvers/slsqp.py
index a60828a..f81d839 100644
--- a/metku/optimization/solvers/slsqp.py
+++ b/metku/optimization/solvers/slsqp.py
@@ -152,7 +152,7 @@ class SLSQP(OptSolver):
             fval = self.problem.obj(xk)
             self.calc_constraints(xk)
             end = time.time()
-            print(f'\r Iteration {i + 1} / {self.maxiter}: Obj: {fval} Feasible: {self.problem.feasible} ' \
+            print(f'\r Iteration {i + 1} / {self.maxiter}: Obj: {fval} Feasible: {self.problem.feasible(xk)} ' \
                 f'max g: {max(self.constr_vals):.4f}')
             print(f"Iteration took: {end - self.start :.2f} s")
             self.start = end
@@ -160,7 +160,7 @@ class SLSQP(OptSolver):
     def feasibility_stop(self, xk):
         
         self.problem.substitute_variables(xk)
-        is_feasible = self.problem.feasible        
+        is_feasible = self.problem.feasible(xk)        
         return is_feasible
         
         #self.calc_constraints(xk)
-- 
2.43.0


From 966f47d8d945b4ddf5921e665d76fbd4da7c526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 099/121] fix: COBYLA ignored variable bounds and did not keep
 its solution

---
 metku/optimization/solvers/slsqp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/slsqp.py b/metku/optimization/solvers/slsqp.py
index f81d839..205d7e0 100644
--- a/metku/optimization/solvers/slsqp.py
+++ b/metku/optimization/solvers/slsqp.py
@@ -205,10 +205,16 @@ class COBYLA(SLSQP):
         out = minimize(self.problem.obj,
                        x0,
                        method='COBYLA',
+                       bounds=self._create_bounds(),
                        constraints=constraints,
                        options=options)
         # print(out)
-        return out
+        self.feasible = bool(out.success)
+        self.result = out
+        self.best_x = out.x
+        self.best_f = out.fun
+        self.X = out.x
+        return self.best_f, self.best_x
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 2cf013146a57634b36263fdadcdb12c75aafc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 100/121] fix: linearization ignored the variable on the right
 hand side of linear constraints

---
 metku/optimization/structopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 0b0b9a7..74c86b6 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -418,6 +418,8 @@ class OptimizationProblem:
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
                     dg[j] = con.a[free_ndx[i]]
+                    if con.b is var:
+                        dg[j] -= 1
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From 200536ca67fd56a274ed5ee3dabe806f6c3adcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 101/121] fix: linear constraints of the trust region solver
 ignored fixed variables

---
 metku/optimization/solvers/trust_region.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/trust_region.py b/metku/optimization/solvers/trust_region.py
index 20543fa..2b6b304 100644
--- a/metku/optimization/solvers/trust_region.py
+++ b/metku/optimization/solvers/trust_region.py
@@ -133,16 +133,25 @@ class TrustRegionConstr(OptSolver):
             #elif isinstance(con,sopt.LinearConstraint):
                 lb = -np.inf
                 ub = np.inf
+                # Coefficients include the fixed variables
+                a = np.array(con.a, dtype=float)
+                b = con.b
+                if isinstance(b, sopt.Variable):
+                    a[problem.all_vars.index(b)] -= 1
+                    b = 0
+                b = b - sum(ai*var.value for ai, var in zip(a, problem.all_vars) if var.locked)
+                a = np.array([ai for ai, var in zip(a, problem.all_vars) if not var.locked])
+
                 if con.type == "<" or con.type == "<=":                
-                    ub = con.b
+                    ub = b
                 elif con.type == ">" or con.type == ">=":
-                    lb = con.b
+                    lb = b
                 elif con.type == "=":
-                    lb = con.b
-                    ub = con.b
+                    lb = b
+                    ub = b
                                     
                 
-                constraints.append(LinCon(con.a,lb,ub))
+                constraints.append(LinCon(a,lb,ub))
                 
         
         bounds = self._create_bounds()
-- 
2.43.0


From 1b6d2faac8cf30e9368369f0ae7c9620a618f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 102/121] fix: torsional constants of rectangular timber
 sections

---
 metku/structures/timber/timber_member.py | 32 ++++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 45daaef..9331c39 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -631,9 +631,9 @@ class TimberMember:
         EN-1995-1-1 6-1-8
         Alpha and beta are based on the theoretical tables given in: T. Salmi 2000, Lujuusopin perusteet, p. 258
         """
-        section_height_to_width_ratio = self.section.get_H(self.loc[n]) / self.section.B
-        if section_height_to_width_ratio < 1:
-            section_height_to_width_ratio = 1 / section_height_to_width_ratio
+        h = max(self.section.get_H(self.loc[n]), self.section.B)
+        b = min(self.section.get_H(self.loc[n]), self.section.B)
+        section_height_to_width_ratio = h / b
         if 0.95 < section_height_to_width_ratio < 1.05:
             beta = 0.208
         elif 1.45 < section_height_to_width_ratio < 1.55:
@@ -647,26 +647,26 @@ class TimberMember:
         elif 3.95 < section_height_to_width_ratio < 4.05:
             beta = 0.282
         elif 4.95 < section_height_to_width_ratio < 5.05:
-            beta = 0.299
+            beta = 0.291
         elif 5.95 < section_height_to_width_ratio < 6.05:
-            beta = 0.307
+            beta = 0.299
         elif 7.95 < section_height_to_width_ratio < 8.05:
-            beta = 0.313
+            beta = 0.307
         elif 9 < section_height_to_width_ratio < np.inf:
             beta = 0.333
         else:
             beta = -0.0007 * section_height_to_width_ratio ** 2 + 0.0193 * section_height_to_width_ratio + 0.1923
-        Wv = beta * self.section.get_H(self.loc[n]) * self.section.B ** 2
+        Wv = beta * h * b ** 2
         return self.ted[n] / Wv
 
     def I_tor(self, loc: float) -> float:
         """
         @return: torsional constant for rectangular cross sections
         """
-        ratio = self.section.get_H(loc) / self.section.B
-        if ratio < 1:
-            ratio = 1 / ratio
-        if 1 < ratio < 1.05:
+        h = max(self.section.get_H(loc), self.section.B)
+        b = min(self.section.get_H(loc), self.section.B)
+        ratio = h / b
+        if ratio < 1.05:
             alpha = 0.141
         elif 1.45 < ratio < 1.55:
             alpha = 0.196
@@ -679,17 +679,17 @@ class TimberMember:
         elif 3.95 < ratio < 4.05:
             alpha = 0.281
         elif 4.95 < ratio < 5.05:
-            alpha = 0.299
+            alpha = 0.291
         elif 5.95 < ratio < 6.05:
-            alpha = 0.307
+            alpha = 0.299
         elif 7.95 < ratio < 8.05:
-            alpha = 0.313
+            alpha = 0.307
         elif 9 < ratio < np.inf:
             alpha = 0.333
         else:
-            alpha = -0.0022 * ratio ** 2 + 0.425 * ratio + 0.1116
+            alpha = -0.0022 * ratio ** 2 + 0.0425 * ratio + 0.1116
 
-        return alpha * self.section.get_H(loc) * self.section.B ** 3
+        return alpha * h * b ** 3
 
     def k_shape(self, n: int) -> float:
         """
-- 
2.43.0


From db82793208c5152361102d32adcdbc866f1d10d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 103/121] fix: apex bending factor of pitched cambered beams
 (EN 1995-1-1 (6.43))

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 9331c39..91d3c8f 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -438,7 +438,7 @@ class TimberMember:
             return 1 + 0.35 * (self.section.hap / r) + 0.6 * (self.section.hap / r) ** 2
         elif isinstance(self.section, KaarevaHarjaPalkki):
             r = self.section.r_in + 0.5 * self.section.hap
-            k2 = 0.35 * - 8 * np.tan(self.alfa())
+            k2 = 0.35 - 8 * np.tan(self.alfa())
             k3 = 0.6 + 8.3 * np.tan(self.alfa()) - 7.8 * np.tan(self.alfa()) ** 2
             k4 = 6 * np.tan(self.alfa()) ** 2
             return k1 + k2 * (self.section.hap / r) + k3 * (
-- 
2.43.0


From bb91a3d11993afcbbd634ae762d992ae59e7c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 104/121] fix: bending radius and lamination thickness in the
 same unit

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 91d3c8f..12a7eba 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -344,10 +344,10 @@ class TimberMember:
         if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
             return 1
         elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
-            if self.section.r_in * 1000 / self.section.t >= 240:
+            if self.section.r_in / self.section.t >= 240:
                 return 1
             else:
-                return 0.76 + 0.001 * (self.section.r_in * 1000 / self.section.t)
+                return 0.76 + 0.001 * (self.section.r_in / self.section.t)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 307057b244a959c0e2570d400e504b296b5ca95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 105/121] fix: volume factor of solid timber

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 12a7eba..3ef2d4c 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -399,7 +399,7 @@ class TimberMember:
         # SFS 1995-1-1 (6.51)
         if self.perm_k_vol is not None:
             return self.perm_k_vol
-        if self.material.type == 'solid timber':
+        if self.material.type == 'solid_timber':
             return 1.0
         v = self.V()
         if v > (2 / 3) * self.V_tot():
-- 
2.43.0


From 65d50104a8bb5b9d28fb0a6d0835cb1de5601759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 106/121] fix: zero strength layer before charring and charring
 at the failure time of the protection

---
 metku/eurocodes/en1995/en1995_1_2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 31d2e42..5319904 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -89,11 +89,11 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
         return t * beta_n + k0 * d0
     # RIL-205-2-2009 kuvat 3.3 - 3.5
     if t < fp.t_ch:
-        return 0
+        return k0 * d0
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-        elif fp.t_f < t < fp.t_a:
+        elif t < fp.t_a:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (t - fp.t_f) * 2 * beta_n + k0 * d0
         else:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0
-- 
2.43.0


From 395f9ac3eb743ec75760938ab940f034ef76f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:56 +0000
Subject: [PATCH 107/121] fix: bending stresses of opposite sign cancelled in
 timber member checks

---
 metku/structures/timber/timber_member.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 3ef2d4c..e8c6b6b 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1108,30 +1108,30 @@ class TimberMember:
 
     def check_bending_moment(self, n: int) -> float:
         # Bending moment utilization ratio:                         SFS-EN 1995-1-1 § 6.1.6
-        UM1 = abs(self.sigma_md(n)[0] / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd)
-        UM2 = abs(self.sigma_md(n)[1] / self.fmd + k_m * self.sigma_md(n)[0] / self.fmd)
+        UM1 = abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = abs(self.sigma_md(n)[1]) / self.fmd + k_m * abs(self.sigma_md(n)[0]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_torsion(self, n: int) -> float:
         # Torsion utilization ratio:                                SFS-EN 1995-1-1 § 6.1.8
-        UTx = self.tau_tord(n) / (self.k_shape(n) * self.fvd)
+        UTx = abs(self.tau_tord(n)) / (self.k_shape(n) * self.fvd)
         r = UTx
         return r
 
     def check_bending_tension(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.3
         # TODO z-suuntainen taivutusjännitys tarkistettava merkkien osalta (deplanaatiota ei ole otettu huomioon)
-        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_bending_compression(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.4
         # TODO katso ylemää
-        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1174,8 +1174,8 @@ class TimberMember:
         mz0 = np.array(sigma_mzd_list[0])
         mz1 = np.array(sigma_mzd_list[1])
 
-        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * mz0 / self.fmd),
-              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + mz1 / self.fmd)]
+        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * abs(mz0) / self.fmd),
+              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + abs(mz1) / self.fmd)]
         UB_fixed = [UB[0] * (sc0 < 0), UB[1] * (sc1 < 0)]
 
         return [max(UB_fixed[0]), max(UB_fixed[1])]
-- 
2.43.0


From 5c1ad5c31c71b911ba231ff45fee0d1486829c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 108/121] fix: lateral-torsional buckling of timber members
 under negative moments

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index e8c6b6b..713b355 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1191,7 +1191,7 @@ class TimberMember:
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
                     if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
-                        ULT_list.append({'r': self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
+                        ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
                     else:
                         ULT_list.append({
                             'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
-- 
2.43.0


From 144447463d66a7efc76d99a1a456d50307516f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 109/121] fix: bracing stiffness and bracing load of timber
 members

---
 metku/structures/timber/timber_member.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 713b355..565b26e 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1227,18 +1227,18 @@ class TimberMember:
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
                     Md = self.myed[self.loc.index(loc)]
-                    Nd_temp = (1 - self.k_crit(i, 1, loc)) * (Md / self.section.get_H(loc))
+                    Nd_temp = (1 - self.k_crit(i, 1, loc)) * (abs(Md) / self.section.get_H(loc))
                     Nd_list.append(Nd_temp)
 
         Nd = max(Nd_list)
-        C = Nd / a
+        C = ks * Nd / a
         if self.material.type == 'solid_timber':
             Fd = Nd / 50
         else:
             Fd = Nd / 80
 
         if n is not None:
-            qd = min([1, sqrt(15/self.parent.length)]) * ((n * Nd) / (50 * self.parent.length))
+            qd = min([1, sqrt(15e3/self.parent.length)]) * ((n * Nd) / (50 * self.parent.length))
             return C, Fd, qd
         return C, Fd
 
-- 
2.43.0


From e60528621ce3e14bfa1e379a4325167d6fad9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:36 +0000
Subject: [PATCH 110/121] fix: cost of saw blades depended inversely on the
 sawing time

---
 metku/cost/workshop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index 89363d9..e2ddcb4 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -852,7 +852,8 @@ class SawingCost(CostCentre):
         # calculate productive time and cost of consumables for each end.   
         for t, h, Ah, At in zip(T,H,AH,AT):     
             TPnew = self.productive_time(steel_grade, h, t, Ah)
-            cCS += self.consumables(At, t, TPnew, steel_grade)
+            # Consumables are given per minute of sawing
+            cCS += self.consumables(At, t, TPnew, steel_grade)*TPnew
             TP += TPnew            
                     
         self.times["productive"] = TP
-- 
2.43.0


From 31d9253d8756688f693de9f3d13b011009267ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 111/121] fix: cost of a plate kept the holes and welds of an
 earlier evaluation

---
 metku/structures/steel/plates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/structures/steel/plates.py b/metku/structures/steel/plates.py
index ca9948b..c21c5fc 100644
--- a/metku/structures/steel/plates.py
+++ b/metku/structures/steel/plates.py
@@ -94,6 +94,9 @@ class RectPlate:
             units: e
         """
         
+        for key in self._cost:
+            self._cost[key] = 0.0
+        
         self._cost['material'] = self.weight()*(material_cost + 
                                                 steel_grade_add_on(self.material.name) + 
                                                 thickness_add_on(self.t))*1e-3
-- 
2.43.0


From 3ec59bbf614bf96440bc57dd3a86ad65d4087538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 112/121] fix: end plate joint cost counted one nut and one
 washer for the two bolts of a row

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index ae444d7..cc29b41 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -812,8 +812,8 @@ class EndPlateJoint:
             else:
                 bolt_cost = 2*bolt_costs_pt[int(row.bolt.length)][int(row.bolt.d)]
             self._cost['bolts'] += bolt_cost
-            self._cost['bolts'] += nut_unit_cost[int(row.bolt.d)]
-            self._cost['bolts'] += washer_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 2*nut_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 2*2*washer_unit_cost[int(row.bolt.d)]
             """ Hole costs include forming holes both in the plate in the column """
             hole_cut_length += 2*row.bolt.d0*math.pi
            
-- 
2.43.0


From af8caa2a09959fc7e673d064563776eafaba24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 113/121] fix: the ridge of a sloped truss was at midspan also
 when L1 and L2 differ

---
 metku/raami/raami_plane_truss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 63b33cb..9624355 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -522,6 +522,10 @@ class SlopedTruss(PlaneTruss):
         """ Height of the truss above the origin """
         return self.L1*np.tan(np.radians(self.slope))
     
+    def xmid(self):
+        """ coordinates of the ridge, which is at the distance L1 from the left end """
+        return np.array([self.origin[0]+self.L1,self.origin[1]+self.Hmid-self.Hleft])
+    
     def weight_detailed(self,verb=False):
         """ Returns detailed weight 
             The weight of chords and braces are separated.
@@ -750,7 +754,7 @@ class SlopedTruss(PlaneTruss):
             
             # First half
             X0 = np.array([self.origin[0]+dx1,ycoord])
-            X1 = np.array([self.origin[0]+0.5*self.span,ycoord])  
+            X1 = np.array([self.origin[0]+self.L1,ycoord])  
             X2 = np.array([self.origin[0]+self.span-dx2,ycoord])
                         
             Xbot = [FrameNode(X0+s*(X1-X0)) for s in S]
-- 
2.43.0


From 394a0d74a4cc091a2b1c1346305f5a059f76082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 114/121] fix: piecewise loads of a truss were added twice to
 members at or beyond a zone boundary, or not at all

---
 metku/raami/raami_plane_truss.py | 47 ++++++++++++--------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 9624355..de4409c 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1105,38 +1105,27 @@ class SlopedTruss(PlaneTruss):
         load_name0 = 'TC_' + ltype
         
         for mem in self.top_chord:
-            if mem.nodes[1].x <= xzones[0]:
-                # Member is in the first zone
-                vals = [q[0],q[0]]
-                load_name = load_name0 + '_line'
-                self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
-                # Member is in the last zone
-                vals = [q[-1],q[-1]]
+            x1 = mem.nodes[0].x
+            x2 = mem.nodes[1].x
+            
+            # Zone boundaries inside the member
+            xdivs = [x for x in xzones if x1 < x < x2]
+            # Zone in which the member begins
+            i = sum(1 for x in xzones if x <= x1)
+            
+            if len(xdivs) == 0:
+                # member is totally inside a zone
+                vals = [q[i],q[i]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
+            elif len(xdivs) == 1:
+                # member is in two zones
+                vals = [q[i],q[i+1]]
+                xdiv = (xdivs[0]-x1)/(x2-x1)
+                load_name = load_name0 + '_pw_line'
+                self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
             else:
-                
-                for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
-                        # member is partially outside
-                        vals = [q[i],q[i+1]]
-                        xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x1
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
-                        # member is partially outside
-                        vals = [q[i+1],q[i+2]]
-                        xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x2
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
-                        # member is totally inside
-                        vals = [q[i+1],q[i+1]]
-                        load_name = load_name0 + '_line'
-                        self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+                raise ValueError('A top chord member can extend to two load zones at most.')
     
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
-- 
2.43.0


From eef18abd474b4b302101c6098666c3d16a50c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:43 +0000
Subject: [PATCH 115/121] fix: the right half of a KT truss was divided with
 the panel width of the left half

---
 metku/raami/raami_plane_truss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index de4409c..f5909f6 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -880,6 +880,7 @@ class SlopedTruss(PlaneTruss):
                 # Distance between nodes in x direction
                 #Dx = (self.L1-2*dx1)/(ndiv-1)
                 Dx = (self.L1-dx1)/(ndiv-0.5)
+                Dx2 = (self.L2-dx2)/(ndiv-0.5)
             else:
                 # If the first bottom chord node is not at x = 0, do the
                 # following:
@@ -894,14 +895,16 @@ class SlopedTruss(PlaneTruss):
                     S = np.linspace(0,1,ndiv)
                     Xbot0 = FrameNode(np.array([self.origin[0],ycoord]))
                     Dx = self.L1/ndiv
+                    Dx2 = self.L2/ndiv
                 else:
                     # Distance between nodes in x direction
                     Dx = 2*self.L1/(2*ndiv+1)
+                    Dx2 = 2*self.L2/(2*ndiv+1)
             
             # First half
             if dx1 == 0 and not first_diagonal_up:
                 X0 = np.array([self.origin[0]+0.5*Dx,ycoord])
-                X2 = np.array([self.origin[0]+self.span-0.5*Dx,ycoord])
+                X2 = np.array([self.origin[0]+self.span-0.5*Dx2,ycoord])
             else:
                 X0 = np.array([self.origin[0]+dx1,ycoord])
                 X2 = np.array([self.origin[0]+self.span-dx2,ycoord])
@@ -913,7 +916,7 @@ class SlopedTruss(PlaneTruss):
             
             
             # Second half
-            X1[0] += Dx
+            X1[0] = self.origin[0]+self.L1+0.5*Dx2
             
             Xbot += [FrameNode(X1+s*(X2-X1)) for s in S]
         
@@ -972,7 +975,7 @@ class SlopedTruss(PlaneTruss):
                     t, Xtop1 = top_line.intersect(bottom_line)                
                     Xtop.append(FrameNode(Xtop1))
                     
-                    p1New = X.coords + np.array([0.5*Dx,0])
+                    p1New = X.coords + np.array([0.5*Dx2,0])
                     bottom_line = Line(v=np.array([0.0,1.0]),p1=p1New)
                     t, Xtop2 = top_line.intersect(bottom_line)
                     
-- 
2.43.0


From 033b50c708c81b4bc2708517ced45d4c363fd638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 116/121] fix: generate_joints of a Vierendeel truss failed
 because Y joints have no joint object

---
 metku/raami/raami_vierendeel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 0705f19..9cdcdfa 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -254,7 +254,7 @@ class VierendeelTruss(PlaneTruss):
         # Set the actual geometry for all joints
         for joint in self.joints.values():  
             angle = joint.brace_angle(joint.braces[0],geometry="actual")
-            joint.joint.angle = angle
+            #joint.joint.angle = angle
     
     def generate_uniform_load(self,q,chord="top",load_id=LoadIDs['ULS'],ltype='live'):
         """ Creates a uniform line load to one of the chords """
-- 
2.43.0


From 73d84cb4c030da7ea997a49c1596978323dc2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 117/121] fix: the first load of a load case of a portal truss
 could not be on a column

---
 metku/raami/raami_portal_truss.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e0a02a8..d9f24f9 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -596,9 +596,6 @@ class PortalTruss(Raami):
             """
             
         elif part == 'column':
-            if not (load_id in self.load_ids):
-                self.load_ids.append(load_id)
-            
             load_name = 'COL'
             if member == 'left':
                 mem = self.columns[0]
-- 
2.43.0


From 154844834d697dbe7748f7a8bcea9187213d5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 118/121] fix: plastic neutral axis of a composite beam in the
 flange was calculated as if in the web and vice versa

---
 metku/sections/composite/composite_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index cedc960..534bebb 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -363,7 +363,7 @@ class CompositeIBeam:
         
         if Ra < Rc:
             ec0 = Ra/Rc*hc
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
         else:
@@ -395,7 +395,7 @@ class CompositeIBeam:
                 print("Ra = {0:4.2f} kN".format(Ra*1e-3))
                 print("Rc = {0:4.2f} kN".format(Rc*1e-3))
                 print("ec0 = {0:4.2f} [mm]".format(ec0))
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             """ Neutral axis in top flange of steel beam """
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
-- 
2.43.0


From a727d1ca06edc82c7a251aa6d6dfeb3c3eac8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 119/121] fix: rounded corners of the concrete in a filled tube
 were at a wrong distance from its centroid

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 962c28e..9c138d9 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -264,7 +264,7 @@ class ConcreteFilledTube:
         
         Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
         
         return Icy
     
-- 
2.43.0


From 49c6c3b1b9f7d8b6daf4438cd1c9c7e3ac9f2ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 120/121] fix: horizontal distance of a rebar from the tube was
 measured from its wrong edge

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 9c138d9..2b262d6 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -143,7 +143,7 @@ class ConcreteFilledTube:
         """ Distance in y-direction (horizontal) of the rebar edge from
             inner surface of the steel profile
         """
-        return 0.5*self.steel.B - self.steel.T - self.rebar_pos[0] + self.rebar.r
+        return 0.5*self.steel.B - self.steel.T - (self.rebar_pos[0] + self.rebar.r)
         
     @v.setter
     def v(self,v):
-- 
2.43.0


From f75365beed593fcdff6a0aaaf0afb8261585ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 121/121] fix: resistance of shear studs failed, and the steel
 resistance had a wrong area and no partial factor

---
 metku/eurocodes/en1994/en1994_1_1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index 2f11218..7ed78b0 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -15,6 +15,7 @@ import math
 
 try:
     from metku.eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
+    from metku.eurocodes.en1994.constants import gammaV
 except:
     from eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
     from eurocodes.en1994.constants import gammaV
@@ -42,7 +43,7 @@ class ShearStud:
     def PRd(self,fck,Ecm,verb=False):
         """ Shear force resistance of a stud """
         
-        PRd_steel = 0.8*self.fu*math.pi**2*self.d**2/4
+        PRd_steel = 0.8*self.fu*math.pi*self.d**2/4/gammaV
         
         if self.length/self.d > 4:
             alpha = 1.0
-- 
2.43.0

