From bcc619941f59073573914b1a89130830e20eea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 01/55] fix: do not write form factor parameters into the
 caller's parameter dictionary

The BSZ B->V and SSE Lambda_b->Lambda form factor implementations stored the
derived endpoint coefficients in the dictionary they were given, so computing
a prediction changed the user's parameter point.
---
 flavio/physics/bdecays/formfactors/b_v/bsz.py        | 1 +
 flavio/physics/bdecays/formfactors/lambdab_12/sse.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/formfactors/b_v/bsz.py b/flavio/physics/bdecays/formfactors/b_v/bsz.py
index db3b30d..d817f33 100644
--- a/flavio/physics/bdecays/formfactors/b_v/bsz.py
+++ b/flavio/physics/bdecays/formfactors/b_v/bsz.py
@@ -50,6 +50,7 @@ def ff(process, q2, par, n=2, omit_A='A0'):
     # cf. eq. (16) of arXiv:1503.05534
     flavio.citations.register("Straub:2015ica")
     par_prefix = process + ' BSZ'
+    par = par.copy()  # do not modify the dictionary passed by the caller
     par[par_prefix + ' a0_A12'] = par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2))
     par[par_prefix + ' a0_T2'] = par[par_prefix + ' a0_T1']
     for i in ["A0","A1","A12","V","T1","T2","T23"]:
diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
index 7bc08c6..5358ad3 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
@@ -50,6 +50,7 @@ def ff(process, q2, par, n=2):
     mP = par['m_'+pd['P']]
     ff = {}
     # implementing the two endpoint relations in (7) and (8) of arXiv:1602.01399
+    par = par.copy()  # do not modify the dictionary passed by the caller
     par[process+' SSE a0_fAperp'] = par[process+' SSE a0_fA0']
     par[process+' SSE a0_fT5perp'] = par[process+' SSE a0_fT50']
     for i in ['fA0', 'fAperp', 'fAt', 'fT0', 'fT50', 'fT5perp', 'fTperp', 'fV0', 'fVperp', 'fVt']:
-- 
2.43.0


From b0918155f77e4c186b368337cce0c3356119c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 02/55] fix: use the mass of the same quark in EDM/CEDM
 prefactors

get_m returned m_d for the up quark and m_u for the down quark, so that the
quark (chromo-)EDMs were off by m_u/m_d (or its inverse) with respect to the
operator normalization of the WCxf flavio basis.
---
 flavio/physics/edms/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/edms/common.py b/flavio/physics/edms/common.py
index 7d7f06b..8c6dad9 100644
--- a/flavio/physics/edms/common.py
+++ b/flavio/physics/edms/common.py
@@ -12,9 +12,9 @@ def get_m(par, f, scale, eft):
         return par['m_' + f]
     nf_out = eft_nf_out[eft]
     if f == 'u':
-        return flavio.physics.running.running.get_md(par, scale, nf_out=nf_out)
-    elif f == 'd':
         return flavio.physics.running.running.get_mu(par, scale, nf_out=nf_out)
+    elif f == 'd':
+        return flavio.physics.running.running.get_md(par, scale, nf_out=nf_out)
     elif f == 's':
         return flavio.physics.running.running.get_ms(par, scale, nf_out=nf_out)
     else:
-- 
2.43.0


From 20cd612bd280f95c83e6d549c63ab49f02b1d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 03/55] fix: conjugate the Wilson coefficients in CP conjugate
 Lambda_b amplitudes

The CP conjugate Lambda_b->Lambda(1520)ll and Lambda_b->Lambda ll amplitudes
only conjugated the CKM phases, but used the same Wilson coefficients, so that
CP asymmetries did not vanish (or appear) correctly for complex new physics.
---
 flavio/physics/bdecays/lambdablambda1520ll.py        | 2 ++
 flavio/physics/bdecays/lambdablambdall.py            | 2 ++
 flavio/physics/bdecays/lambdablambdall_subleading.py | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/lambdablambda1520ll.py b/flavio/physics/bdecays/lambdablambda1520ll.py
index eada6bf..b93d37b 100644
--- a/flavio/physics/bdecays/lambdablambda1520ll.py
+++ b/flavio/physics/bdecays/lambdablambda1520ll.py
@@ -183,6 +183,8 @@ def get_transversity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda(1520)', lep, scale)
 
     ha = helicity_amps(q2, mLb, mL, ff)
diff --git a/flavio/physics/bdecays/lambdablambdall.py b/flavio/physics/bdecays/lambdablambdall.py
index 519dec3..56f6763 100644
--- a/flavio/physics/bdecays/lambdablambdall.py
+++ b/flavio/physics/bdecays/lambdablambdall.py
@@ -124,6 +124,8 @@ def get_transverity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda', lep, scale)
     ha = helicity_amps(q2, mLb, mL, ff)
     N = prefactor(q2, par, scale)
diff --git a/flavio/physics/bdecays/lambdablambdall_subleading.py b/flavio/physics/bdecays/lambdablambdall_subleading.py
index 6953d8a..1745901 100644
--- a/flavio/physics/bdecays/lambdablambdall_subleading.py
+++ b/flavio/physics/bdecays/lambdablambdall_subleading.py
@@ -84,7 +84,7 @@ def fct_deltaC9_constant(wc_obj, par_dict, q2, cp_conjugate):
     par = par_dict.copy()
     if cp_conjugate:
         par = conjugate_par(par)
-    return transversity_amps_deltaC9_constant(q2, par_dict)
+    return transversity_amps_deltaC9_constant(q2, par)
 
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
-- 
2.43.0


From fc69615edc0725c9e3bb3457a23eb6bac5bad0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 04/55] fix: evaluate lepton-averaged (l) semi-leptonic
 observables instead of looking up m_l

---
 flavio/physics/bdecays/bvlnu.py      | 24 +++++++++++++++++-------
 flavio/physics/kdecays/kpilnu.py     |  9 +++++++++
 flavio/physics/kdecays/lambdaplnu.py |  3 +++
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/flavio/physics/bdecays/bvlnu.py b/flavio/physics/bdecays/bvlnu.py
index 410546f..a547a43 100644
--- a/flavio/physics/bdecays/bvlnu.py
+++ b/flavio/physics/bdecays/bvlnu.py
@@ -168,6 +168,12 @@ def kinem_allowed(q2, par, B, V, lep):
         return True
 
 def FL_diff(q2, wc_obj, par, B, V, lep):
+    if lep == 'l':
+        # average of e and mu!
+        num = dBRdq2(q2, wc_obj, par, B, V, lep, A='L')
+        if num == 0:
+            return 0
+        return num / dBRdq2(q2, wc_obj, par, B, V, lep, A=None)
     if not kinem_allowed(q2, par, B, V, lep):
         return 0
     J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
@@ -181,15 +187,18 @@ def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
     denom = flavio.math.integrate.nintegrate(lambda q2: dBRdq2(q2, wc_obj, par, B, V, lep,  A=None), q2min, q2max)
     return num / denom
 
-def Itot_norm(fct_J, wc_obj, par, B, V, lep):
+def _Itot(fct_J, wc_obj, par, B, V, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (_Itot(fct_J, wc_obj, par, B, V, 'e') + _Itot(fct_J, wc_obj, par, B, V, 'mu'))/2
     def fct(q2):
         J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
         return fct_J(J)
-    num = obs_q2int(fct, wc_obj, par, B, V, lep)
-    def fct_den(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return dGdq2(J)
-    den = obs_q2int(fct_den, wc_obj, par, B, V, lep)
+    return obs_q2int(fct, wc_obj, par, B, V, lep)
+
+def Itot_norm(fct_J, wc_obj, par, B, V, lep):
+    num = _Itot(fct_J, wc_obj, par, B, V, lep)
+    den = _Itot(dGdq2, wc_obj, par, B, V, lep)
     return num / den
 
 def dBR_dq2_dcosthl_binned(q2, clmin, clmax, wc_obj, par, B, V, lep):
@@ -344,7 +353,8 @@ def FL_tot_function(B, V, lep):
     def f(wc_obj, par):
         mB = par['m_'+B]
         mV = par['m_'+V]
-        ml = par['m_'+lep]
+        # for 'l' (average of e and mu), start at the lower of the two thresholds
+        ml = par['m_e'] if lep == 'l' else par['m_'+lep]
         q2max = (mB-mV)**2
         q2min = ml**2
         return FL_binned(q2min, q2max, wc_obj, par, B, V, lep)
diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index 4f2410e..c888eca 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -66,6 +66,9 @@ def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
     return flavio.math.integrate.nintegrate(integrand, q2min, q2max)
 
 def BR_tot(wc_obj, par, K, P, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (BR_tot(wc_obj, par, K, P, 'e') + BR_tot(wc_obj, par, K, P, 'mu'))/2
     mK = par['m_'+K]
     mP = par['m_'+P]
     ml = par['m_'+lep]
@@ -78,6 +81,9 @@ def BR_tot_function(K, P, lep):
 
 
 def logC(wc_obj, par, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (logC(wc_obj, par, 'e') + logC(wc_obj, par, 'mu'))/2
     mK = par['m_KL']
     mP = par['m_pi+']
     ml = par['m_' + lep]
@@ -94,6 +100,9 @@ def logC(wc_obj, par, lep):
 
 
 def RT(wc_obj, par, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (RT(wc_obj, par, 'e') + RT(wc_obj, par, 'mu'))/2
     mK = par['m_KL']
     mP = par['m_pi+']
     scale = par['m_rho0']
diff --git a/flavio/physics/kdecays/lambdaplnu.py b/flavio/physics/kdecays/lambdaplnu.py
index 85c1970..181400c 100644
--- a/flavio/physics/kdecays/lambdaplnu.py
+++ b/flavio/physics/kdecays/lambdaplnu.py
@@ -15,6 +15,9 @@ def g1_f1(wc_obj, par, lep, nu):
 
 def g1_f1_fct(lep):
     def f(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (g1_f1(wc_obj, par, lep='e', nu='e') + g1_f1(wc_obj, par, lep='mu', nu='mu'))/2
         return g1_f1(wc_obj, par, lep=lep, nu=lep)
     return f
 
-- 
2.43.0


From f6710970be114d608a236def81184faba4ef91c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 05/55] fix: raise an error instead of printing for degenerate
 lepton masses in V->llgamma

---
 flavio/physics/quarkonium/Vllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index 40deea9..662baa9 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -126,7 +126,7 @@ def Vllgamma_br(wc_obj, par,V,Q, l1,l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji):
         I_AP=(AL*PL.conjugate()+AR*PR.conjugate()).real
         I_APtilde=(AL*PtildeL.conjugate()+AR*PtildeR.conjugate()).imag
     else:
-        print("The case of non-hierarchical masses is not implemented.")
+        raise NotImplementedError("The case of non-hierarchical masses is not implemented.")
 
     prefactor=alphaem*Q**2*tauV*mV/(192*np.pi**2)
     
-- 
2.43.0


From 6c23bcda46f5a785a582e117ca5524414ff57dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 06/55] fix: declare the B argument of the B->gamma form factor
 quantity

---
 flavio/physics/bdecays/formfactors/b_gamma/bgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/formfactors/b_gamma/bgamma.py b/flavio/physics/bdecays/formfactors/b_gamma/bgamma.py
index 7e63346..4096fcb 100644
--- a/flavio/physics/bdecays/formfactors/b_gamma/bgamma.py
+++ b/flavio/physics/bdecays/formfactors/b_gamma/bgamma.py
@@ -22,7 +22,7 @@ def ff(q2, par, B):
 
 
 quantity = 'B->gamma form factor'
-a = AuxiliaryQuantity(name=quantity, arguments=['q2'])
+a = AuxiliaryQuantity(name=quantity, arguments=['q2', 'B'])
 a.set_description('Form factor for the B(s)->gamma transition')
 
 i = Implementation(name="B->gamma KM", quantity=quantity,
-- 
2.43.0


From 91640466385f78e90977450e057b38aff9d6e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 07/55] fix: apply the electromagnetic correction in K+->pi0lnu

---
 flavio/physics/kdecays/kpilnu.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index c888eca..b9c536d 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -51,14 +51,15 @@ def dBRdq2(q2, wc_obj, par, K, P, lep):
         return 0
     tauK = par['tau_'+K]
     J = get_angularcoeff(q2, wc_obj, par, K, P, lep)
-    if P == 'pi0':
-        # factor of 1/2 for neutral pi due to pi = (uubar-ddbar)/sqrt(2)
-        return tauK * dGdq2(J) / 2.
     if K == 'K+':
         deltaEM = par['K+' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
     elif K == 'KL' or K == 'KS':
         deltaEM = par['K0' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
-    return tauK * dGdq2(J) * (1 + deltaEM)**2
+    BR = tauK * dGdq2(J) * (1 + deltaEM)**2
+    if P == 'pi0':
+        # factor of 1/2 for neutral pi due to pi = (uubar-ddbar)/sqrt(2)
+        return BR / 2.
+    return BR
 
 def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
     def integrand(q2):
-- 
2.43.0


From 618da1c66aa8015b39d3321bf24e294c60bcedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 08/55] fix: include the quark mass thresholds in the cache key
 of the RG evolution

---
 flavio/physics/running/running.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 6c4f890..0ca7d70 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -33,11 +33,14 @@ def rg_evolve_sm(initial_condition, derivative_nf, scale_in, scale_out, nf_out=N
         return copy.deepcopy(initial_condition)
     if scale_out < 0.1:
         raise ValueError('RG evolution below the strange threshold not implemented.')
-    return _rg_evolve_sm(tuple(initial_condition), derivative_nf, scale_in, scale_out, nf_out)
+    # the thresholds are an argument since they can be changed in the config;
+    # return a copy to prevent accidentally changing the cached solution
+    return copy.deepcopy(_rg_evolve_sm(tuple(initial_condition), derivative_nf, scale_in, scale_out, nf_out,
+                                       tuple(sorted(_thresholds().items()))))
 
 @lru_cache(maxsize=config['settings']['cache size'])
-def _rg_evolve_sm(initial_condition, derivative_nf, scale_in, scale_out, nf_out):
-    thresholds = _thresholds()
+def _rg_evolve_sm(initial_condition, derivative_nf, scale_in, scale_out, nf_out, thresholds):
+    thresholds = dict(thresholds)
     if scale_in > scale_out: # running DOWN
         # set initial values and scales
         initial_nf = initial_condition
-- 
2.43.0


From 8d94560fa818f2b5dacb641a76eb2ba94d5d9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 09/55] fix: include the PDF set name in the cache key of the
 parton luminosities

---
 flavio/physics/dileptons/partondist.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/dileptons/partondist.py b/flavio/physics/dileptons/partondist.py
index 555a870..f450299 100644
--- a/flavio/physics/dileptons/partondist.py
+++ b/flavio/physics/dileptons/partondist.py
@@ -23,8 +23,12 @@ def get_pdf(name, member=0, download=False):
             raise Exception(f"PDF set '{name}' not available. Please install the PDF set using the command \"python3 -m parton install '{name}'\"")
     return pdf
 
-@lru_cache(maxsize=None)
 def get_parton_lumi(Q2, member=0):
     pdfset = config['PDF set']['dileptons']['name']
+    return _get_parton_lumi(pdfset, Q2, member)
+
+# cached version
+@lru_cache(maxsize=None)
+def _get_parton_lumi(pdfset, Q2, member):
     pdf = get_pdf(pdfset, member)
     return parton.PLumi(pdf, Q2=Q2)
-- 
2.43.0


From 5f251d14ed9b29b628e0773a61974843e95246cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 10/55] fix: register citations of memoised functions in their
 callers

---
 flavio/physics/bdecays/matrixelements.py | 14 ++++++++------
 flavio/physics/running/running.py        |  7 +++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/matrixelements.py b/flavio/physics/bdecays/matrixelements.py
index 195e6bd..7a234ea 100644
--- a/flavio/physics/bdecays/matrixelements.py
+++ b/flavio/physics/bdecays/matrixelements.py
@@ -78,7 +78,6 @@ def F_17(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
-    flavio.citations.register("Greub:2008cy")
     return _F_17([muh, z, sh])[0]
 
 @lru_cache(maxsize=config['settings']['cache size'])
@@ -90,7 +89,6 @@ def F_19(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
-    flavio.citations.register("Greub:2008cy")
     if sh == 0:
         return 0
     return _sh_F_19([muh, z, sh])[0] / sh
@@ -104,7 +102,6 @@ def F_27(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
-    flavio.citations.register("Greub:2008cy")
     return _F_27([muh, z, sh])[0]
 
 @lru_cache(maxsize=config['settings']['cache size'])
@@ -116,7 +113,6 @@ def F_29(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
-    flavio.citations.register("Greub:2008cy")
     if sh == 0:
         return 0
     return _sh_F_29([muh, z, sh])[0] / sh
@@ -159,7 +155,6 @@ def acot(x):
 def SeidelA(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (29) of hep-ph/0403185v2.
     """
-    flavio.citations.register("Seidel:2004jh")
     if q2==0:
         return 1/729. * (833 + 120j*pi - 312 * log(mb**2/mu**2))
     sh = min(q2/mb**2, 0.999)
@@ -177,7 +172,6 @@ def SeidelA(q2, mb, mu):
 def SeidelB(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (30) of hep-ph/0403185v2.
     """
-    flavio.citations.register("Seidel:2004jh")
     sh = min(q2/mb**2, 0.999)
     z = 4 / sh
     x1 = 1/2 + 1j/2 * sqrt(z - 1)
@@ -210,19 +204,25 @@ def SeidelC(q2, mb, mu):
             - (64)/(27) * zeta(3) + (16)/(81) * pi * 1j)
 
 def Fu_17(q2, mb, mu):
+    flavio.citations.register("Seidel:2004jh")
     return -SeidelA(q2, mb, mu)
 
 def Fu_27(q2, mb, mu):
+    flavio.citations.register("Seidel:2004jh")
     return -(-6 * SeidelA(q2, mb, mu))
 
 def Fu_19(q2, mb, mu):
+    flavio.citations.register("Seidel:2004jh")
     return -(SeidelB(q2, mb, mu) + 4 * SeidelC(q2, mb, mu))
 
 def Fu_29(q2, mb, mu):
+    flavio.citations.register("Seidel:2004jh")
     return -(-6 * SeidelB(q2, mb, mu) + 3 * SeidelC(q2, mb, mu))
 
 
 def delta_C7(par, wc, q2, scale, qiqj):
+    # for the functions F_17, F_27 (not registered there since they are cached)
+    flavio.citations.register("Greub:2008cy")
     alpha_s = running.get_alpha(par, scale)['alpha_s']
     mb = running.get_mb_pole(par)
     mc = par['m_c BVgamma']
@@ -242,6 +242,8 @@ def delta_C7(par, wc, q2, scale, qiqj):
     return -alpha_s/(4*pi) * (delta_t - xi_u/xi_t * delta_u)
 
 def delta_C9(par, wc, q2, scale, qiqj):
+    # for the functions F_19, F_29 (not registered there since they are cached)
+    flavio.citations.register("Greub:2008cy")
     alpha_s = running.get_alpha(par, scale)['alpha_s']
     mb = running.get_mb_pole(par)
     mc = running.get_mc_pole(par)
diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 0ca7d70..2f2828a 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -10,6 +10,7 @@ import copy
 from math import log, pi
 from wilson.util import qcd
 import rundec
+import flavio
 
 # quark mass thresholds
 def _thresholds():
@@ -204,6 +205,9 @@ def get_mc_KS(par, scale):
     r"""Get the $c$ quark mass in the kinetic scheme."""
     mcmc = par['m_c']
     alpha_s = get_alpha(par, mcmc)['alpha_s']
+    # registered here since the conversion itself is cached
+    for key in ["Gambino:2011cq", "Benson:2003kp"]:
+        flavio.citations.register(key)
     return _get_mc_KS(mcmc=mcmc, alpha_s=alpha_s, scale=scale, nl=3)
 
 
@@ -232,6 +236,9 @@ def get_mb_KS(par, scale):
     r"""Get the $b$ quark mass in the kinetic scheme."""
     mbmb = par['m_b']
     alpha_s = get_alpha(par, mbmb)['alpha_s']
+    # registered here since the conversion itself is cached
+    for key in ["Gambino:2011cq", "Benson:2003kp"]:
+        flavio.citations.register(key)
     return _get_mb_KS(mbmb=mbmb, alpha_s=alpha_s, scale=scale, nl=3)
 
 
-- 
2.43.0


From 6d854986903f1705ee227d8eae851b4e99de687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 11/55] fix: do not use the removed alias np.complex

---
 flavio/physics/running/running.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 2f2828a..2c78bef 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -321,7 +321,7 @@ def get_wilson(par, c_in, derivative_nf, scale_in, scale_out, nf_out=None):
     x_in = np.append(c_in_real, [alpha_in['alpha_s'], alpha_in['alpha_e']])
     sol = rg_evolve_sm(x_in, derivative_nf, scale_in, scale_out, nf_out=nf_out)
     c_out = sol[:-2]
-    return c_out.view(np.complex)
+    return c_out.view(complex)
 
 def get_f_perp(par, meson, scale, nf_out=None):
     r"""Get the transverse meson decay constant at a given scale.
-- 
2.43.0


From 3daf176682cb2d42ba7cc82c13f9add5523d9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 12/55] fix: spell the inspire key of the CMS B->K*mumu 2017
 measurements

---
 flavio/data/measurements.yml | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flavio/data/measurements.yml b/flavio/data/measurements.yml
index 4a04f17..d94f09d 100644
--- a/flavio/data/measurements.yml
+++ b/flavio/data/measurements.yml
@@ -2452,7 +2452,7 @@ CMS B->K*mumu 2013 combined with 2015:
 
 CMS B->K*mumu 2017 1-2:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 1
@@ -2467,7 +2467,7 @@ CMS B->K*mumu 2017 1-2:
 
 CMS B->K*mumu 2017 2-4.3:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 2
@@ -2482,7 +2482,7 @@ CMS B->K*mumu 2017 2-4.3:
 
 CMS B->K*mumu 2017 4.3-6:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 4.3
@@ -2497,7 +2497,7 @@ CMS B->K*mumu 2017 4.3-6:
 
 CMS B->K*mumu 2017 6-8.68:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 6
@@ -2512,7 +2512,7 @@ CMS B->K*mumu 2017 6-8.68:
 
 CMS B->K*mumu 2017 10.09-12.86:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 10.09
@@ -2527,7 +2527,7 @@ CMS B->K*mumu 2017 10.09-12.86:
 
 CMS B->K*mumu 2017 14.18-16:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 14.18
@@ -2542,7 +2542,7 @@ CMS B->K*mumu 2017 14.18-16:
 
 CMS B->K*mumu 2017 16-19:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 16
-- 
2.43.0


From 60bdbda186f0038072beac2bb0ca8ffcf62177dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 13/55] fix: bin of the CDF B+->Kmumu 2012 measurement (0-4.3
 was entered as 0-2, overwriting that bin)

---
 flavio/data/measurements.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/data/measurements.yml b/flavio/data/measurements.yml
index d94f09d..587066e 100644
--- a/flavio/data/measurements.yml
+++ b/flavio/data/measurements.yml
@@ -6087,7 +6087,7 @@ CDF B+>Kmumu 2012:
       value: 0.72 ± 0.14 ± 0.04 e-8
     - name: <dBR/dq2>(B+->Kmumu)
       q2min: 0.00
-      q2max: 2.00
+      q2max: 4.30
       value: 2.55 ± 0.38 ± 0.15 e-8
     - name: <dBR/dq2>(B+->Kmumu)
       q2min: 1.00
-- 
2.43.0


From b890b7e411169520e7595a445eb1758ae579ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 14/55] fix: use the CP conjugate parameters in the B->Pll
 deltaC9 shifts

---
 flavio/physics/bdecays/bpll_subleading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/bpll_subleading.py b/flavio/physics/bdecays/bpll_subleading.py
index 4d9a7c4..ce62c9b 100644
--- a/flavio/physics/bdecays/bpll_subleading.py
+++ b/flavio/physics/bdecays/bpll_subleading.py
@@ -71,7 +71,7 @@ def fct_deltaC9_polynomial(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_polynomial(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_polynomial(q2, par, B, P)
     return fct
 
 def fct_deltaC9_constant(B, P):
@@ -79,7 +79,7 @@ def fct_deltaC9_constant(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_constant(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_constant(q2, par, B, P)
     return fct
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
-- 
2.43.0


From c730ea8d34970c5dc3321d60ddcc96eb27c325e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 15/55] fix: define all combined LFV modes of pseudoscalar and
 scalar quarkonia

---
 flavio/physics/quarkonium/Pll.py | 2 +-
 flavio/physics/quarkonium/Sll.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 951fb09..3dbb813 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -97,7 +97,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_P_ll(M, (l1,l2))
         Prediction(_obs_name, Pll_br_func(_hadr[M]['P'], l1, l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_P_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Pll_br_comb_func(_hadr[M]['P'], l1,l2))
diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index d6d9879..59d9ca3 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -90,7 +90,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_S_ll(M, (l1,l2))
         Prediction(_obs_name, Sll_br_func(_hadr[M]['S'], l1,l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_S_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Sll_br_comb_func(_hadr[M]['S'],  l1,l2))
-- 
2.43.0


From f25def8fe295b0a7f2ea82d92593cafca5d9271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 16/55] fix: use the CP conjugate parameters in the subleading
 B->Vll corrections

---
 flavio/physics/bdecays/bvll/subleading.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flavio/physics/bdecays/bvll/subleading.py b/flavio/physics/bdecays/bvll/subleading.py
index 632ae6d..799007d 100644
--- a/flavio/physics/bdecays/bvll/subleading.py
+++ b/flavio/physics/bdecays/bvll/subleading.py
@@ -85,6 +85,8 @@ class HelicityAmpsDeltaC_9_shift(HelicityAmpsDeltaC):
 def fct_deltaC7C7p_polynomial(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_77p_polynomial(B, V, par, q2)()
     return fct
 
@@ -92,6 +94,8 @@ def fct_deltaC7C7p_polynomial(B, V):
 def fct_deltaC9_constant(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_9_shift(B, V, par, q2)()
     return fct
 
-- 
2.43.0


From d047193a784691db8aa83600d3522a01761ab401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 17/55] fix: add the missing taxonomy of m_W

---
 flavio/physics/wdecays/mw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flavio/physics/wdecays/mw.py b/flavio/physics/wdecays/mw.py
index 2dd12a4..291dac0 100644
--- a/flavio/physics/wdecays/mw.py
+++ b/flavio/physics/wdecays/mw.py
@@ -58,4 +58,5 @@ _obs_name = "m_W"
 _obs = flavio.classes.Observable(_obs_name)
 _obs.tex = r"$m_W$"
 _obs.set_description(r"$W^\pm$ boson pole mass")
+_obs.add_taxonomy(r'Process :: $W^\pm$ boson :: Mass')
 flavio.classes.Prediction(_obs_name, mW)
-- 
2.43.0


From 0664d99eaa19feeae959f2512d2099a0d454b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 18/55] fix: return zero for B->K(*)nunu outside the physical
 region

---
 flavio/physics/bdecays/bpnunu.py | 2 ++
 flavio/physics/bdecays/bvnunu.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/flavio/physics/bdecays/bpnunu.py b/flavio/physics/bdecays/bpnunu.py
index 33b2496..d1c8fd8 100644
--- a/flavio/physics/bdecays/bpnunu.py
+++ b/flavio/physics/bdecays/bpnunu.py
@@ -36,6 +36,8 @@ def helicity_amps(q2, wc_obj, par, B, P, nu1, nu2):
 def bpnunu_obs(function, q2, wc_obj, par, B, P, nu1, nu2):
     mB = par['m_'+B]
     mP = par['m_'+P]
+    if q2 < 0 or q2 > (mB-mP)**2: # kinematically forbidden
+        return 0
     h = helicity_amps(q2, wc_obj, par, B, P, nu1, nu2)
     # below, mb is set to 4 just to save time. It doesn't enter at all as there
     # are no dipole operators.
diff --git a/flavio/physics/bdecays/bvnunu.py b/flavio/physics/bdecays/bvnunu.py
index d479b72..a97dff2 100644
--- a/flavio/physics/bdecays/bvnunu.py
+++ b/flavio/physics/bdecays/bvnunu.py
@@ -37,6 +37,8 @@ def helicity_amps(q2, wc_obj, par, B, V, nu1, nu2):
 def bvnunu_obs(function, q2, wc_obj, par, B, V, nu1, nu2):
     mB = par['m_'+B]
     mV = par['m_'+V]
+    if q2 < 0 or q2 > (mB-mV)**2: # kinematically forbidden
+        return 0
     h = helicity_amps(q2, wc_obj, par, B, V, nu1, nu2)
     # below, mb is set to 4 just to save time. It doesn't enter at all as there
     # are no dipole operators.
-- 
2.43.0


From 4e402b34ee54d45e1bbddb73e08db383f48e119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 19/55] fix: do not reuse cached Wilson coefficients obtained
 for other CKM parameters

---
 flavio/physics/eft.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 8d7f897..47373c6 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -168,11 +168,17 @@ class WilsonCoefficients(wilson.Wilson):
             return w
         fwc = cls()
         fwc.set_initial_wcxf(w.wc)
-        fwc._cache = w._cache
-        fwc._options = w._options
+        fwc._options = w._options.copy()
         _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
-        if fwc.get_option('parameters') != _ckm_options:
-            fwc.set_option('parameters', _ckm_options)
+        fwc.set_option('parameters', _ckm_options)
+        # reuse the results of the last call, but only if they were obtained
+        # for the same parameters. Keeping them in the cache of `w` makes sure
+        # that they are discarded when the options of `w` are changed.
+        last_options, last_cache = w._cache.get('flavio', (None, None))
+        if last_options == _ckm_options:
+            fwc._cache = last_cache
+        else:
+            w._cache['flavio'] = (_ckm_options, fwc._cache)
         return fwc
 
     def run_wcxf(*args, **kwargs):
-- 
2.43.0


From f2fa7aed5f5f06bbe073135a2a59bb0c135629e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 20/55] fix: key of the cached predictions in
 MeasurementLikelihood

---
 flavio/statistics/likelihood.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index cd02f0d..da905e3 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -1,4 +1,5 @@
 import flavio
+import copy
 from collections import Counter
 import warnings
 import numpy as np
@@ -60,7 +61,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
         self.include_pseudo_measurements = include_pseudo_measurements
-        self._predictions_cache_hash = None
+        self._predictions_cache_key = None
         self._predictions_cache_values = None
         if exclude_measurements and include_measurements:
             raise ValueError("The options exclude_measurements and include_measurements must not be specified simultaneously")
@@ -142,9 +143,14 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         The latest computed values are cached and returned if the function is
         called successively with the same arguments.
         """
-        # compute a hash from the function's arguments used for caching
-        arg_hash = hash((frozenset(par_dict.items()),wc_obj))
-        if arg_hash != self._predictions_cache_hash:
+        # everything the predictions depend on, compared to the values of the
+        # last call (hashes are not sufficient: e.g. hash(-1.0) == hash(-2.0))
+        cache_key = (
+            dict(par_dict),
+            None if wc_obj is None else (wc_obj.wc, dict(wc_obj._options)),
+            copy.deepcopy(flavio.config),
+        )
+        if cache_key != self._predictions_cache_key:
             all_predictions = {}
             for observable in self.observables:
                 obs = flavio.classes.Observable.argument_format(observable, 'dict')
@@ -152,8 +158,8 @@ class MeasurementLikelihood(iio.YAMLLoadable):
                 _inst = flavio.classes.Observable[name]
                 all_predictions[observable] = _inst.prediction_par(par_dict, wc_obj, **obs)
             self._predictions_cache_values = all_predictions
-            self._predictions_cache_hash = arg_hash
-        return self._predictions_cache_values
+            self._predictions_cache_key = cache_key
+        return self._predictions_cache_values.copy()
 
     def get_number_observations(self, exclude_observables=None):
         """Get the number of observations, defined as individual measurements
-- 
2.43.0


From 11e097389534114fd86e49be0f42d779716e1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 21/55] fix: Observable.argument_format no longer returns the
 caller's dictionary

Its callers remove the name from the result, which destroyed the
observables of likelihoods and the arguments of sm_covariance.
---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index b55e748..7d1003c 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -614,7 +614,7 @@ class Observable(NamedInstanceClass):
                 t = obs['name']
             else:
                 t = tuple([obs['name']] + [obs[a] for a in args])
-            d = obs
+            d = dict(obs)
         if format == 'tuple':
             return t
         elif format == 'list':
-- 
2.43.0


From 41d2b30c9e15fc34f5322081eb138facc2e8632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 22/55] fix: ProbabilityDistribution.get_dict does not modify
 the distribution

---
 flavio/statistics/probability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ef61a03..fa95b49 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -100,6 +100,7 @@ class ProbabilityDistribution(object):
                 if isinstance(od[k], np.ndarray):
                     od[k] = od[k].tolist()
                 if isinstance(od[k], list):
+                    od[k] = list(od[k])
                     for i, x in enumerate(od[k]):
                         if isinstance(x, np.ndarray):
                             od[k][i] = od[k][i].tolist()
@@ -109,6 +110,7 @@ class ProbabilityDistribution(object):
             elif isinstance(od[k], float):
                 od[k] = float(od[k])
             if isinstance(od[k], list):
+                od[k] = list(od[k])
                 for i, x in enumerate(od[k]):
                     if isinstance(x, float):
                         od[k][i] = float(od[k][i])
-- 
2.43.0


From 81b158689c7300aa203229ae1ecd1ff7c39ebaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 23/55] fix: diff_plot_th_err does not modify its arguments

---
 flavio/plots/plotfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 6a044fd..d91aac1 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -152,8 +152,8 @@ def diff_plot_th_err(obs_name, x_min, x_max, wc=None, steps=100,
         obs_err_arr = [flavio.np_uncertainty(obs_name, wc, x, N=N, threads=threads) for x in x_err_arr]
         obs_arr = [flavio.np_prediction(obs_name, wc, x) for x in x_arr]
     ax = plt.gca()
-    plot_args = plot_args or {}
-    fill_args = fill_args or {}
+    plot_args = dict(plot_args or {})
+    fill_args = dict(fill_args or {})
     if label is not None:
         plot_args['label'] = label
     if 'alpha' not in fill_args:
-- 
2.43.0


From 10ed9ccf00a72b4692ef484eda7530c9f239e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 24/55] fix: deterministic order of the keys in the citation
 string

---
 flavio/citations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/citations.py b/flavio/citations.py
index 6a3d8d0..5b0663d 100644
--- a/flavio/citations.py
+++ b/flavio/citations.py
@@ -44,7 +44,7 @@ class Citations:
             yield citation
 
     def __str__(self):
-        return ",".join(self.set)
+        return ",".join(sorted(self.set))
 
     @property
     def set(self):
-- 
2.43.0


From a7d0ce755b3220e482a62dc6c301a58ed1d9fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 25/55] fix: deterministic order of the measurements of a
 likelihood

---
 flavio/statistics/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index da905e3..4704f0b 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -132,9 +132,9 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         if self.exclude_measurements is None and self.include_measurements is None:
             return all_measurements
         elif self.exclude_measurements is not None:
-            return list(set(all_measurements) - set(self.exclude_measurements))
+            return [m for m in all_measurements if m not in self.exclude_measurements]
         elif self.include_measurements is not None:
-            return list(set(all_measurements) & set(self.include_measurements))
+            return [m for m in all_measurements if m in self.include_measurements]
 
     def get_predictions_par(self, par_dict, wc_obj):
         """Compute the predictions for all observables as functions of
-- 
2.43.0


From adf919e35a971e6e6c47692dd0bf1714d578a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 26/55] fix: deterministic order of the parameters in
 sm_error_budget

---
 flavio/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/functions.py b/flavio/functions.py
index f99d85f..7bb790f 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -195,7 +195,7 @@ def sm_error_budget(obs_name, *args, N=50, **kwargs):
     dependent_par = get_dependent_parameters_sm(obs_name, *args, **kwargs)
 
     # Step 2: group parameters if correlated
-    par_constraint = {p: id(flavio.default_parameters._parameters[p][1]) for p in dependent_par}
+    par_constraint = {p: id(flavio.default_parameters._parameters[p][1]) for p in sorted(dependent_par)}
     v = defaultdict(list)
     for key, value in par_constraint.items():
         v[value].append(key)
-- 
2.43.0


From 31dda137acc53596e1306d630fd80a74b62f6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 27/55] fix: raise the error for unsupported multivariate
 convolutions

---
 flavio/statistics/probability.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index fa95b49..9c30519 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1691,10 +1691,8 @@ def _convolve_distributions_univariate(probability_distributions, central_values
 
     if not others and not gaussians:
         # if there is only a delta (or more than one), just return it
-        if central_values == 'same':
-            return deltas[0]
-        elif central_values == 'same':
-            return DeltaDistribution(sum([p.central_value for p in deltas]))
+        # (central_values is 'same', see above)
+        return deltas[0]
 
     # let's combine the normal distributions into 1
     if gaussians:
@@ -1749,7 +1747,7 @@ def _convolve_distributions_multivariate(probability_distributions, central_valu
     else:
         # otherwise, we need to combine the (combined) gaussian with the others
         if len(others) > 1:
-            NotImplementedError("Combining multivariate numerical distributions not implemented")
+            raise NotImplementedError("Combining multivariate numerical distributions not implemented")
         else:
             num = _convolve_multivariate_gaussian_numerical(gaussian, others[0],
                                                   central_values=central_values)
-- 
2.43.0


From 9d62c29ddf099f37d6e259a98ae2f23ff6384b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 28/55] fix: no unbound variable if there are no points in
 plots of measurements

---
 flavio/plots/plotfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index d91aac1..0170936 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -260,6 +260,7 @@ def bin_plot_exp(obs_name, col_dict=None, divide_binwidth=False, include_measure
         raise ValueError(r"Only observables that depend on the two bin boundaries (and nothing else) are allowed")
     _experiment_labels = [] # list of experiments appearing in the plot legend
     bins = []
+    y = []
     for m_name, m_obj in flavio.Measurement.instances.items():
         if include_measurements is not None and m_name not in include_measurements:
             continue
@@ -351,6 +352,7 @@ def diff_plot_exp(obs_name, col_dict=None, include_measurements=None,
         raise ValueError(r"Only observables that depend on a single variable are allowed")
     _experiment_labels = [] # list of experiments appearing in the plot legend
     xs = []
+    y = []
     for m_name, m_obj in flavio.Measurement.instances.items():
         if include_measurements is not None and m_name not in include_measurements:
             continue
-- 
2.43.0


From 8695a4154690227a363c5a2f176776a978ce60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 29/55] fix: minimize_robust uses the endpoints of unsuccessful
 tries

as documented, and returns a result if no method is available.
---
 flavio/math/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/math/optimize.py b/flavio/math/optimize.py
index e393b13..e69cd81 100644
--- a/flavio/math/optimize.py
+++ b/flavio/math/optimize.py
@@ -23,6 +23,7 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
     _x0 = x0[:] # copy initial x
     if methods is None:
         methods = ('SLSQP', 'MIGRAD', 'BFGS', 'Nelder-Mead')
+    opt = scipy.optimize.OptimizeResult(x=_x0, fun=_val, success=False)
     for i in range(tries):
         for m in methods:
             if disp:
@@ -35,11 +36,11 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                     if disp:
                         print("Skipping method MIGRAD: no iminuit installation found.")
                     continue
-                opt = minimize_migrad(fun, x0, args=args, print_level=int(disp))
+                opt = minimize_migrad(fun, _x0, args=args, print_level=int(disp))
             else:
                 options = {'disp': disp}
                 options.update(kwargs)
-                opt = minimize(fun, x0, args=args, method=m, options=options)
+                opt = minimize(fun, _x0, args=args, method=m, options=options)
             if opt.success:
                 return opt
             elif opt.fun < _val:
@@ -49,6 +50,7 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                 # if this step actually led to some improvement,
                 # use endpoint as new starting point
                 _x0 = opt.x
+                _val = opt.fun
     return opt
 
 def maximize_robust(fun, x0, args=(), methods=None, tries=3, disp=False, **kwargs):
-- 
2.43.0


From e5328d7efb7542e776b260d0e663fcfa80321444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 30/55] fix: AwareWilson takes no arguments, like
 WilsonCoefficients

---
 flavio/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/functions.py b/flavio/functions.py
index 7bb790f..f9c8b31 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -129,8 +129,8 @@ class AwareDict(dict):
 class AwareWilson(flavio.WilsonCoefficients):
     """Subclass of `flavio.WilsonCoefficients` that adds the arguments of calls
     to its `match_run`  method to `atuples` attribute."""
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
+    def __init__(self):
+        super().__init__()
         self.atuples = set()
 
     def match_run(self, scale, eft, basis, sectors='all'):
-- 
2.43.0


From cd68a0b54939d408ed4a9180c5d29af42735993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 31/55] fix: YAMLLoadable.dump passes the options to yaml.dump
 only

---
 flavio/io/instanceio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/io/instanceio.py b/flavio/io/instanceio.py
index ed7da8a..8f4f846 100644
--- a/flavio/io/instanceio.py
+++ b/flavio/io/instanceio.py
@@ -46,7 +46,7 @@ class YAMLLoadable(object):
 
     def dump(self, stream=None, **kwargs):
         """Dump the objectto a YAML string or stream."""
-        d = self.get_yaml_dict(**kwargs)
+        d = self.get_yaml_dict()
         return yaml.dump(d, stream=stream, **kwargs)
 
 
-- 
2.43.0


From 936b54646c7e6f25a04f1071cc473e317b78ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 32/55] fix: GammaUpperLimit accepts counts_signal

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 9c30519..2e96075 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -849,7 +849,8 @@ class GammaUpperLimit(GammaCountingProcess):
         super().__init__(
             scale_factor=scale_factor,
             counts_total=counts_total,
-            counts_background=counts_background)
+            counts_background=counts_background,
+            counts_signal=counts_signal)
 
     def __repr__(self):
         return ('flavio.statistics.probability.GammaUpperLimit'
-- 
2.43.0


From ba4addd15ad43e36dd57dfa6a09ceaa08b80139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 33/55] fix: number of sigmas in the HPD errors of
 NumericalDistribution

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 2e96075..d05d514 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -954,7 +954,7 @@ class NumericalDistribution(ProbabilityDistribution):
         if method == 'central':
             return err_left
         elif method == 'hpd':
-            if self.pdf(self.central_value + self.get_error_right(method='central')) == self.pdf(self.central_value - err_left):
+            if self.pdf(self.central_value + self.get_error_right(nsigma=nsigma, method='central')) == self.pdf(self.central_value - err_left):
                 return err_left
             try:
                 a = self._find_error_cdf(confidence_level(nsigma))
@@ -981,7 +981,7 @@ class NumericalDistribution(ProbabilityDistribution):
         if method == 'central':
             return err_right
         elif method == 'hpd':
-            if self.pdf(self.central_value - self.get_error_left(method='central')) == self.pdf(self.central_value + err_right):
+            if self.pdf(self.central_value - self.get_error_left(nsigma=nsigma, method='central')) == self.pdf(self.central_value + err_right):
                 return err_right
             try:
                 a = self._find_error_cdf(confidence_level(nsigma))
-- 
2.43.0


From 64dc2aa2de751022574608b1a722467a57d85981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 34/55] fix: ProbabilityDistribution.get_dict converts nested
 distributions, too

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index d05d514..85efb1e 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -94,7 +94,8 @@ class ProbabilityDistribution(object):
         if iterate:
             for k in od:
                 if isinstance(od[k], ProbabilityDistribution):
-                    od[k] = od[k].get_dict(distribution=True)
+                    od[k] = od[k].get_dict(distribution=True, iterate=iterate,
+                                             arraytolist=arraytolist)
         if arraytolist:
             for k in od:
                 if isinstance(od[k], np.ndarray):
-- 
2.43.0


From 0052852873f24433b0b89f823d33c2d25e287305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 35/55] fix: form factors based on HQET use the current
 renormalization scale

It was fixed to the default value when flavio is imported.
---
 .../physics/bdecays/formfactors/b_p/btop.py   | 19 ++++++++++++-------
 .../physics/bdecays/formfactors/b_v/btov.py   | 13 +++++++++----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_p/btop.py b/flavio/physics/bdecays/formfactors/b_p/btop.py
index 5f827ab..ec5752f 100644
--- a/flavio/physics/bdecays/formfactors/b_p/btop.py
+++ b/flavio/physics/bdecays/formfactors/b_p/btop.py
@@ -6,8 +6,13 @@ processes_H2L = ['B->K', 'B->pi']  # heavy to light
 processes_H2H = ['B->D', ]  # heavy to heavy
 
 
-def ff_function(function, process, **kwargs):
-    return lambda wc_obj, par_dict, q2: function(process, q2, par_dict, **kwargs)
+def ff_function(function, process, scale_key=None, **kwargs):
+    if scale_key is None:
+        return lambda wc_obj, par_dict, q2: function(process, q2, par_dict, **kwargs)
+    # the scale has to be looked up at the time of the evaluation
+    return lambda wc_obj, par_dict, q2: function(
+        process, q2, par_dict,
+        scale=config['renormalization scale'][scale_key], **kwargs)
 
 
 for p in processes_H2L + processes_H2H:
@@ -43,28 +48,28 @@ for p in processes_H2L + processes_H2H:
     iname = p + ' BCL3-IW'
     i = Implementation(name=iname, quantity=quantity,
                    function=ff_function(bcl.ff_isgurwise, p,
-                   scale=config['renormalization scale']['bpll'], n=3))
+                   scale_key='bpll', n=3))
     i.set_description("3-parameter BCL parametrization using improved Isgur-Wise relation"
                       " for the tensor form factor")
 
     iname = p + ' BCL4-IW'
     i = Implementation(name=iname, quantity=quantity,
                    function=ff_function(bcl.ff_isgurwise, p,
-                   scale=config['renormalization scale']['bpll'], n=4))
+                   scale_key='bpll', n=4))
     i.set_description("4-parameter BCL parametrization using improved Isgur-Wise relation"
                       " for the tensor form factor")
 
     iname = p + ' BCL3-IW-t0max'
     i = Implementation(name=iname, quantity=quantity,
                    function=ff_function(bcl.ff_isgurwise, p,
-                   scale=config['renormalization scale']['bpll'], n=3, t0='tm'))
+                   scale_key='bpll', n=3, t0='tm'))
     i.set_description("3-parameter BCL parametrization using improved Isgur-Wise relation"
                       r" for the tensor form factor and taking $t_0=t_-$ in the $z$ expansion")
 
     iname = p + ' BCL4-IW-t0max'
     i = Implementation(name=iname, quantity=quantity,
                    function=ff_function(bcl.ff_isgurwise, p,
-                   scale=config['renormalization scale']['bpll'], n=4, t0='tm'))
+                   scale_key='bpll', n=4, t0='tm'))
     i.set_description("4-parameter BCL parametrization using improved Isgur-Wise relation"
                       r" for the tensor form factor and taking $t_0=t_-$ in the $z$ expansion")
 
@@ -72,5 +77,5 @@ for p in processes_H2H:
     iname = p + ' CLN'
     i = Implementation(name=iname, quantity=quantity,
                    function=ff_function(cln.ff, p,
-                   scale=config['renormalization scale']['bpll']))
+                   scale_key='bpll'))
     i.set_description("CLN parametrization based on HQET")
diff --git a/flavio/physics/bdecays/formfactors/b_v/btov.py b/flavio/physics/bdecays/formfactors/b_v/btov.py
index 30a7396..6504460 100644
--- a/flavio/physics/bdecays/formfactors/b_v/btov.py
+++ b/flavio/physics/bdecays/formfactors/b_v/btov.py
@@ -6,8 +6,13 @@ processes_H2L = ['B->K*', 'B->rho', 'B->omega', 'Bs->phi', 'Bs->K*']  # heavy to
 processes_H2H = ['B->D*', ]  # heavy to heavy
 
 
-def ff_function(function, process, **kwargs):
-    return lambda wc_obj, par_dict, q2: function(process, q2, par_dict, **kwargs)
+def ff_function(function, process, scale_key=None, **kwargs):
+    if scale_key is None:
+        return lambda wc_obj, par_dict, q2: function(process, q2, par_dict, **kwargs)
+    # the scale has to be looked up at the time of the evaluation
+    return lambda wc_obj, par_dict, q2: function(
+        process, q2, par_dict,
+        scale=config['renormalization scale'][scale_key], **kwargs)
 
 
 for p in processes_H2L + processes_H2H:
@@ -35,12 +40,12 @@ for p in processes_H2H:
 
     iname = p + ' CLN'
     i = Implementation(name=iname, quantity=quantity,
-                   function=ff_function(cln.ff, p, scale=config['renormalization scale']['bvll']))
+                   function=ff_function(cln.ff, p, scale_key='bvll'))
     i.set_description("CLN parametrization")
 
     iname = p + ' CLNexp-IW'
     i = Implementation(name=iname, quantity=quantity,
-                   function=ff_function(clnexp.ff, p, scale=config['renormalization scale']['bvll']))
+                   function=ff_function(clnexp.ff, p, scale_key='bvll'))
     i.set_description("CLN-like parametrization as used by B factories"
                       " and using improved Isgur-Wise relations"
                       " for the tensor form factors")
-- 
2.43.0


From ecdeeb7604bd4375d685dab8c2807ab703f2c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 36/55] fix: QCD factorization uses the current renormalization
 scale

The Wilson coefficients were always evaluated at the scale configured when
flavio is imported.
---
 flavio/physics/bdecays/bvll/nonfactorizable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/bvll/nonfactorizable.py b/flavio/physics/bdecays/bvll/nonfactorizable.py
index 011fcb6..5f4eeba 100644
--- a/flavio/physics/bdecays/bvll/nonfactorizable.py
+++ b/flavio/physics/bdecays/bvll/nonfactorizable.py
@@ -18,10 +18,10 @@ from flavio.config import config
 
 # function needed for the QCD factorization implementation (see qcdf.py)
 def ha_qcdf_function(B, V):
-    scale = config['renormalization scale']['bvll']
     label = meson_quark[(B,V)] + 'ee' # the lepton flavour is irrelevant here
                                       # as only dipole and 4-quark operators contribute!
     def function(wc_obj, par_dict, q2, cp_conjugate):
+        scale = config['renormalization scale']['bvll']
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
@@ -33,7 +33,6 @@ def ha_qcdf_function(B, V):
 
 # ... and the same for the interpolated version (see qcdf_interpolate.py)
 def ha_qcdf_interpolate_function(B, V, contribution='all'):
-    scale = config['renormalization scale']['bvll']
     def function(wc_obj, par_dict, q2, cp_conjugate):
         return flavio.physics.bdecays.bvll.qcdf_interpolate.helicity_amps_qcdf(q2, par_dict, B, V, cp_conjugate, contribution)
     return function
-- 
2.43.0


From 2d6ed75f9856288a36e4f6258bcc94d82731365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 37/55] fix: electromagnetic coupling in B->ll and tau->Kl at
 the scale of the process

It was taken at 4.8 GeV irrespective of the scale of the Wilson coefficients
it normalizes.
---
 flavio/physics/bdecays/bll.py     | 3 ++-
 flavio/physics/taudecays/taupl.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/bll.py b/flavio/physics/bdecays/bll.py
index c238a94..3d2a80f 100644
--- a/flavio/physics/bdecays/bll.py
+++ b/flavio/physics/bdecays/bll.py
@@ -88,7 +88,8 @@ def br_inst(par, wc, B, l1, l2):
     """
     # paramaeters
     GF = par['GF']
-    alphaem = running.get_alpha(par, 4.8)['alpha_e']
+    scale = config['renormalization scale']['bll']
+    alphaem = running.get_alpha(par, scale)['alpha_e']
     ml1 = par['m_'+l1]
     ml2 = par['m_'+l2]
     mB = par['m_'+B]
diff --git a/flavio/physics/taudecays/taupl.py b/flavio/physics/taudecays/taupl.py
index 2fec4f7..c0a5fc3 100644
--- a/flavio/physics/taudecays/taupl.py
+++ b/flavio/physics/taudecays/taupl.py
@@ -16,7 +16,7 @@ def br_taupl(wc_obj, par, P, lep):
     r"""Branching ratio of $\tau^+\to p^0\ell^+$."""
     scale = flavio.config['renormalization scale']['taudecays']
     GF = par['GF']
-    alphaem = running.get_alpha(par, 4.8)['alpha_e']
+    alphaem = running.get_alpha(par, scale)['alpha_e']
     mP = par['m_' + P]
     mtau = par['m_tau']
     mu = par['m_u']
-- 
2.43.0


From 2985460ead2aa057349107cc9181db3d3aa8fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 38/55] fix: masses of light quarks in tau->pi0l at the scale
 of the Wilson coefficients

---
 flavio/physics/taudecays/taupl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/taudecays/taupl.py b/flavio/physics/taudecays/taupl.py
index c0a5fc3..235fa36 100644
--- a/flavio/physics/taudecays/taupl.py
+++ b/flavio/physics/taudecays/taupl.py
@@ -19,8 +19,8 @@ def br_taupl(wc_obj, par, P, lep):
     alphaem = running.get_alpha(par, scale)['alpha_e']
     mP = par['m_' + P]
     mtau = par['m_tau']
-    mu = par['m_u']
-    md = par['m_d']
+    mu = running.get_mu(par, scale)
+    md = running.get_md(par, scale)
     mlep = par['m_' + lep]
     fP = par['f_' + P]  
 
-- 
2.43.0


From 88be64b594c4b6ba52cc13358353e351eed5bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 39/55] fix: flavor number of alpha_e in tau->Vl

---
 flavio/physics/taudecays/tauvl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/taudecays/tauvl.py b/flavio/physics/taudecays/tauvl.py
index 21940a1..5b3e06d 100644
--- a/flavio/physics/taudecays/tauvl.py
+++ b/flavio/physics/taudecays/tauvl.py
@@ -26,7 +26,7 @@ def br_tauvl(wc_obj, par, V, lep):
     scale = flavio.config['renormalization scale']['taudecays']
     sec = wcxf_sector_names['tau', lep]
     wc = wc_obj.get_wc(sec, scale, par, nf_out=4)
-    alpha = flavio.physics.running.running.get_alpha_e(par, scale, nf_out=3)
+    alpha = flavio.physics.running.running.get_alpha_e(par, scale, nf_out=4)
     e = sqrt(4 * pi * alpha)
     mtau = par['m_tau']
     ml = par['m_' + lep]
-- 
2.43.0


From 6c8c981c59b027b21882b42c19908cd522b6237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 40/55] fix: the configured scale is used for the neutron EDM

---
 flavio/physics/edms/neutronedm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/edms/neutronedm.py b/flavio/physics/edms/neutronedm.py
index 93dad98..9524756 100644
--- a/flavio/physics/edms/neutronedm.py
+++ b/flavio/physics/edms/neutronedm.py
@@ -5,9 +5,10 @@ from .common import edm_f, cedm_f
 
 
 def nedm_wceff(wc_obj, par):
-    wc = wc_obj.get_wc('dF=0', scale=2, par=par, eft='WET-3', basis='flavio')
+    scale = flavio.config['renormalization scale']['nEDM']
+    wc = wc_obj.get_wc('dF=0', scale=scale, par=par, eft='WET-3', basis='flavio')
     wceff = {}
-    opt = dict(par=par, wc=wc, scale=2, eft='WET-3')
+    opt = dict(par=par, wc=wc, scale=scale, eft='WET-3')
     wceff['edm_d'] = edm_f(f='d', **opt)
     wceff['edm_u'] = edm_f(f='u', **opt)
     wceff['edm_s'] = edm_f(f='s', **opt)
-- 
2.43.0


From f82fb20c0de3a49089db32382a77c23e10cc27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 41/55] fix: removed constraints do not reappear in the YAML
 representation

Constraints that have been removed or replaced were written by `get_yaml_dict`
and became active again when the result was loaded.
---
 flavio/classes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index 7d1003c..fe3d4d9 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -378,6 +378,14 @@ class Constraints(object):
         """
         data = []
         for constraint, parameters in self._constraints:
+            # indices of parameters whose constraint was removed or replaced
+            exclude = tuple(i for i, p in enumerate(parameters)
+                            if self._parameters.get(p, None) != (i, constraint))
+            if len(exclude) == len(parameters):
+                continue
+            if exclude:
+                constraint = constraint.reduce_dimension(exclude=exclude)
+                parameters = [p for i, p in enumerate(parameters) if i not in exclude]
             d = OrderedDict()
             d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
-- 
2.43.0


From 233566e5f8fa02d180b370fc138256358e3bd992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 42/55] fix: get_1d_errors returns its result

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index fe3d4d9..f5e6001 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -262,7 +262,7 @@ class Constraints(object):
         warnings.warn("This function was renamed to `get_1d_errors_random` "
                       "in v0.16 and will be removed in the future. ",
                       DeprecationWarning)
-        self.get_1d_errors_random(N)
+        return self.get_1d_errors_random(N)
 
     def get_1d_errors_random(self, N=1000):
         """Get the Gaussian standard deviation for every parameter/observable
-- 
2.43.0


From 7a5fd761facb9bfd3fa903a4185acc3167930a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 43/55] fix: error message of get_central for observables with
 arguments

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index f5e6001..811e90b 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -211,7 +211,7 @@ class Constraints(object):
     def get_central(self, parameter):
         """Get the central value of a parameter"""
         if parameter not in self._parameters.keys():
-            raise ValueError('No constraints applied to parameter/observable ' + parameter)
+            raise ValueError('No constraints applied to parameter/observable ' + str(parameter))
         else:
             num, constraint = self._parameters[parameter]
             cv = constraint.central_value
-- 
2.43.0


From 8bdcedcc38182139ba3e0aa930396cc9e5ba693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 44/55] fix: several constraints can be added with the same
 distribution or list

Using the same distribution object for several parameters led to
identical random values and only one contribution to the probability;
later changes of the list of parameters changed the constraint.
---
 flavio/classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index 811e90b..c69ff6f 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -147,6 +147,10 @@ class Constraints(object):
         `constraint` must be an instance of a child of ProbabilityDistribution.
 
         Note that if there already exists a constraint, it will be removed."""
+        parameters = list(parameters)
+        if any(c is constraint for c, _ in self._constraints):
+            # constraints are identified by their distribution instance
+            constraint = copy.copy(constraint)
         for num, parameter in enumerate(parameters):
             if is_parameter_constraint:
                 try: # check if parameter object already exists
-- 
2.43.0


From d905a40c0cba217a7a5ee1c52c8935017cc6bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 45/55] fix: GeneralGammaDistributionPositive can be used
 directly

It relied on an attribute that only its subclasses define. A standard
deviation that is set to zero because it is too small is now also used as
such.
---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 85efb1e..3569ca9 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1027,13 +1027,13 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.loc = loc
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
-        x, y = self._get_xy()
-        if self.gaussian_standard_deviation/np.sqrt(self.counts_total+1) < 1/100:
+        if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
                           "GeneralGammaDistributionPositive to avoid numerical "
                           "instability.")
+        x, y = self._get_xy()
         super().__init__(x=x, y=y)
 
     def __repr__(self):
-- 
2.43.0


From 460f157ab786f02d9e04dbf80298f0ade54133c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 46/55] fix: kernel density estimates can be loaded from YAML

The kernel is a distribution itself and the number of bins an integer.
---
 flavio/statistics/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 3569ca9..f3847f3 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1278,7 +1278,7 @@ class KernelDensityEstimate(NumericalDistribution):
         if n_bins is None:
             self.n_bins = min(1000, self.n)
         else:
-            self.n_bins = n_bins
+            self.n_bins = int(n_bins)
         y, x_edges = np.histogram(data, bins=self.n_bins, density=True)
         x = (x_edges[:-1] + x_edges[1:])/2.
         self.y_raw = y
@@ -2051,6 +2051,9 @@ def dict2dist(constraint_dict):
         dict_list = constraint_dict
     pds = []
     def convertv(v):
+        # the arguments of some distributions are distributions themselves
+        if isinstance(v, dict) and 'distribution' in v:
+            return dict2dist(v)[0]
         # convert v to float if possible
         try:
             return float(v)
-- 
2.43.0


From 0f09192005e0796d63280fe31d833f539b701a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 47/55] fix: Likelihood instances can be dumped to YAML

---
 flavio/statistics/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 4704f0b..d355716 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -288,8 +288,8 @@ class Likelihood(iio.YAMLLoadable):
     }
 
     _output_schema_dict = {
-        'par_obj': vol.All([dict], iio.coerce_par_obj),
-        'fit_parameters': iio.get_par_diff,
+        'par_obj': iio.get_par_diff,
+        'fit_parameters': vol.Any(iio.ensurelist, [str]),
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
-- 
2.43.0


From 75be3a8710e029807eab39add17ad09bfff46a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 48/55] fix: YAML representation of likelihoods contains
 include_pseudo_measurements

---
 flavio/statistics/likelihood.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index d355716..73d41dc 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -30,12 +30,14 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         'observables':  vol.All([iio.coerce_observable_tuple], iio.list_deduplicate),
         'exclude_measurements': vol.Any(None, [str]),
         'include_measurements': vol.Any(None, [str]),
+        'include_pseudo_measurements': bool,
     }
 
     _output_schema_dict = {
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.All(iio.ensurelist, [str]),
         'include_measurements': vol.All(iio.ensurelist, [str]),
+        'include_pseudo_measurements': bool,
     }
 
     def __init__(self, observables, *,
@@ -285,6 +287,7 @@ class Likelihood(iio.YAMLLoadable):
         'observables':  vol.All([iio.coerce_observable_tuple], iio.list_deduplicate),
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
+        'include_pseudo_measurements': bool,
     }
 
     _output_schema_dict = {
@@ -293,6 +296,7 @@ class Likelihood(iio.YAMLLoadable):
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
+        'include_pseudo_measurements': bool,
     }
 
     def __init__(self,
@@ -309,6 +313,7 @@ class Likelihood(iio.YAMLLoadable):
         self.observables = observables
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
+        self.include_pseudo_measurements = include_pseudo_measurements
         self.measurement_likelihood = MeasurementLikelihood(
             observables,
             exclude_measurements=exclude_measurements,
-- 
2.43.0


From c4477e6895b17665199bfdcc9099852725656941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 49/55] fix: empty lists are kept in the YAML representation of
 likelihoods

For the nuisance parameters of FastLikelihood, an empty list is different
from the default value.
---
 flavio/io/instanceio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/io/instanceio.py b/flavio/io/instanceio.py
index 8f4f846..ba92dab 100644
--- a/flavio/io/instanceio.py
+++ b/flavio/io/instanceio.py
@@ -40,8 +40,9 @@ class YAMLLoadable(object):
         d = self.__dict__.copy()
         schema = self.output_schema()
         d = schema(d)
-        # remove NoneTypes and empty lists
-        d = {k: v for k, v in d.items() if v is not None and v != []}
+        # remove NoneTypes and lists that are only empty in the YAML dictionary
+        d = {k: v for k, v in d.items()
+             if v is not None and (v != [] or self.__dict__[k] == [])}
         return d
 
     def dump(self, stream=None, **kwargs):
-- 
2.43.0


From d2370af69b1bfecc7f27dfaa6b371c8dfdbdbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 50/55] fix: arguments are optional in
 Constraints.from_yaml_dict as documented

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index c69ff6f..211513e 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -448,7 +448,7 @@ class Constraints(object):
         if isinstance(data, dict):
             constraints = data['constraints']
             meta = data.get('metadata', {})
-            arguments = data['arguments']
+            arguments = data.get('arguments', {})
             kwargs.update(arguments)
             inst = instance or cls(*args, **kwargs)
             for m in meta:
-- 
2.43.0


From 8197a9102e40fa67aa8c137c3f4d93c438881ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 51/55] fix: ParameterLikelihood without parameters

---
 flavio/statistics/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 73d41dc..955707b 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -239,7 +239,7 @@ class ParameterLikelihood(iio.YAMLLoadable):
         into account in the likelihood.
         """
         self.par_obj = par_obj
-        self.parameters = parameters
+        self.parameters = parameters or []
         self.parameters_central = self.par_obj.get_central_all()
 
     def log_likelihood_par(self, par_dict, delta=False):
-- 
2.43.0


From d21df3d6c066d65e63baf24c3d017317a4917185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 52/55] fix: numpy numbers in the YAML representation of
 distributions

Integer and single precision numbers, tuples, and numbers in nested lists
lead to YAML files that could not be loaded.
---
 flavio/statistics/probability.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index f3847f3..5075885 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -31,6 +31,15 @@ def string_to_class(string):
             return c
     raise NameError("Distribution " + string + " not found.")
 
+def _arraytolist(v):
+    """Convert numpy arrays (also within lists) to lists and numpy scalars
+    to numbers."""
+    if isinstance(v, (np.ndarray, np.generic)):
+        return v.tolist()
+    if isinstance(v, (list, tuple)):
+        return [_arraytolist(x) for x in v]
+    return v
+
 class ProbabilityDistribution(object):
     """Common base class for all probability distributions"""
 
@@ -98,13 +107,7 @@ class ProbabilityDistribution(object):
                                              arraytolist=arraytolist)
         if arraytolist:
             for k in od:
-                if isinstance(od[k], np.ndarray):
-                    od[k] = od[k].tolist()
-                if isinstance(od[k], list):
-                    od[k] = list(od[k])
-                    for i, x in enumerate(od[k]):
-                        if isinstance(x, np.ndarray):
-                            od[k][i] = od[k][i].tolist()
+                od[k] = _arraytolist(od[k])
         for k in od:
             if isinstance(od[k], int):
                 od[k] = int(od[k])
-- 
2.43.0


From f2c50a6913af32dfc14412f75f5aeb8fc97c26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 53/55] fix: support of MultivariateNumericalDistribution
 without central value

---
 flavio/statistics/probability.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 5075885..abed141 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1499,14 +1499,15 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         for i, x in enumerate(xi):
             if len(x) == 2:
                 self.xi[i] = np.linspace(x[0], x[1], self.y.shape[i])
+        support = (np.asarray([x[0] for x in self.xi]),
+                   np.asarray([x[-1] for x in self.xi]))
         if central_value is not None:
-            super().__init__(central_value=central_value,
-                             support=(np.asarray([x[0] for x in self.xi]), np.asarray([x[-1] for x in self.xi])))
+            super().__init__(central_value=central_value, support=support)
         else:
             # if no central value is specified, set it to the mode
             mode_index = (slice(None),) + np.unravel_index(self.y.argmax(), self.y.shape)
             mode = np.asarray(np.meshgrid(*self.xi, indexing='ij'))[mode_index]
-            super().__init__(central_value=mode, support=None)
+            super().__init__(central_value=mode, support=support)
         _bin_volume = np.prod([x[1] - x[0] for x in self.xi])
         self.y_norm = self.y / np.sum(self.y) / _bin_volume  # normalize PDF to 1
         # ignore warning from log(0)=-np.inf
-- 
2.43.0


From b91858b3363c433938d9033eb4edea7b2bb82d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 54/55] fix: list format of observables without arguments given
 as dictionary

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 211513e..1f2bc15 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -630,7 +630,7 @@ class Observable(NamedInstanceClass):
         if format == 'tuple':
             return t
         elif format == 'list':
-            return list(t)
+            return t if isinstance(t, str) else list(t)
         elif format == 'dict':
             return d
 
-- 
2.43.0


From 533445b4bd9838ba8d29deb26ee97875bf34dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 55/55] fix: CP conjugation of the parameters of all CKM
 implementations

conjugate_par only flipped gamma and delta, so that CP asymmetries (and CP
averages) were wrong when the CKM implementations 'Wolfenstein' (etabar) or
'beta gamma' (beta) are selected.
---
 flavio/physics/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/common.py b/flavio/physics/common.py
index 38b48bf..ef87ed5 100644
--- a/flavio/physics/common.py
+++ b/flavio/physics/common.py
@@ -6,9 +6,10 @@ def conjugate_par(par_dict):
     """Given a dictionary of parameter values, return the dictionary where
     all CP-odd parameters have flipped sign.
 
-    This assumes that the only CP-odd parameters are `gamma` or `delta` (the
-    CKM phase in the Wolfenstein or standard parametrization)."""
-    cp_odd = ['gamma', 'delta']
+    This assumes that the only CP-odd parameters are `gamma`, `delta`, `beta`,
+    or `etabar` (the CKM phases in the different implementations of the CKM
+    matrix)."""
+    cp_odd = ['gamma', 'delta', 'beta', 'etabar']
     return {k: -v if k in cp_odd else v for k, v in par_dict.items()}
 
 def conjugate_wc(wc_dict):
-- 
2.43.0

