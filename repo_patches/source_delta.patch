From 93bb1a061f690a4d696b3c6366d34489ef797fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 01/22] fix: gradev passes edf and confidence to
 confidence_interval in the right order

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 8daffcf..a3c7435 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1658,7 +1658,7 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
 
     if n > 1:
         edf = ci.edf_simple(N, mj, alpha)
-        deverr = ci.confidence_interval(dev, confidence, edf)
+        deverr = ci.confidence_interval(dev, edf, confidence)
     else:
         deverr = [0, 0]
 
-- 
2.43.0


From 12544ec78a2a65c5afc6a15e04b457481db97ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 02/22] fix: gradev maps each noise type to its own exponent

---
 allantools/allantools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index a3c7435..f39ba09 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1652,6 +1652,10 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
     elif noisetype == 'wf':
         alpha = 0
     elif noisetype == 'fp':
+        alpha = 1
+    elif noisetype == 'ff':
+        alpha = -1
+    elif noisetype == 'rf':
         alpha = -2
     else:
         alpha = None
-- 
2.43.0


From 94d459dfd3f6d9d81e37d8727a594728ddba738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 03/22] fix: B1 and R(n) noise-ID ratios use tau=af/rate and
 frequency scaled by rate

---
 allantools/ci.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c4fe2bc..404e859 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -143,10 +143,10 @@ def rn(x, af, rate):
         ratio of MVAR to AVAR
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/float(rate)], data_type='phase', rate=rate)
     oadev_x = devs[0]
     (mtaus, mdevs, errs, ns) = at.mdev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/float(rate)], data_type='phase', rate=rate)
     mdev_x = mdevs[0]
     return pow(mdev_x/oadev_x, 2)
 
@@ -198,12 +198,12 @@ def b1(x, af, rate):
 
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type="phase", rate=rate)
+        x, taus=[af/float(rate)], data_type="phase", rate=rate)
     oadev_x = devs[0]
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = np.diff(x)
+    y = at.phase2frequency(x, rate)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From 1e638001ae890a006f51e4cfef0f374035a3c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 04/22] fix: Greenhall table 2 row for alpha=-4 is reachable

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 404e859..f6d1c8b 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -687,7 +687,7 @@ def greenhall_table3(alpha, d):
 def greenhall_table2(alpha, d):
     """ Table 2 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
-    assert(row_idx in [0, 1, 2, 3, 4, 5])
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table2 = [
         # alpha = +2:
-- 
2.43.0


From 163c5ec5a756561c9892aa8845f64199566646be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 05/22] fix: confidence_interval tails for confidence below one
 half

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index f6d1c8b..c5768dc 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -57,7 +57,7 @@ def confidence_interval(dev, edf, ci=ONE_SIGMA_CI):
     (dev_min, dev_max): (float, float)
         Confidence interval
     """
-    ci_l = min(np.abs(ci), np.abs((ci-1))) / 2
+    ci_l = (1 - ci) / 2
     ci_h = 1 - ci_l
 
     # function from scipy, works OK, but scipy is large and slow to build
-- 
2.43.0


From 0c6c0023ee502548260bf40bd6be25d1bd348c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 06/22] fix: EDF in confidence_interval_noiseID uses the number
 of phase points for frequency data

---
 allantools/ci.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c5768dc..1c07d0b 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -110,20 +110,22 @@ def confidence_interval_noiseID(x, dev, af, dev_type="adev",
         x, int(af), data_type=data_type, dmin=0, dmax=dmax)[0]
 
     # 2) EDF (tes was 'is')
+    # N is the number of phase points
+    N = len(x) + 1 if data_type == "freq" else len(x)
     if dev_type == "adev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=False, modified=False)
     elif dev_type == "oadev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=True, modified=False)
     elif (dev_type == "mdev") or (dev_type == "tdev"):
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=True, modified=True)
     elif dev_type == "hdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=N,
                             overlapping=False, modified=False)
     elif dev_type == "ohdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=N,
                             overlapping=True, modified=False)
     else:
         raise NotImplementedError
-- 
2.43.0


From 5b66f7e8b2bee8209d6aa9faf3c4dd41bec86250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 07/22] fix: autocorr_noise_id rejects an unknown data_type

---
 allantools/ci.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/ci.py b/allantools/ci.py
index 1c07d0b..6915ed1 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -382,6 +382,8 @@ def autocorr_noise_id(x, af, data_type="phase", dmin=0, dmax=2):
         y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
         x = np.average(y_shaped, axis=1)  # average
         x = detrend(x, deg=1)  # remove frequency drift
+    else:
+        raise ValueError("unknown data_type: %s" % data_type)
 
     # require minimum length for time-series
     if len(x) < 30:
-- 
2.43.0


From 26ab5afc281e8084e515cfda685cecb984c9739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 08/22] fix: timmer_koenig_from_psd mirrors the spectrum for
 odd record lengths

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index e66332e..0b841a0 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -315,7 +315,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for j in range(1, n // 2 + 1):
         X[j] = (np.sqrt(Sx[j]) / 2.0) * (np.random.normal(0, 1) + 1j * np.random.normal(0, 1))
 
-    X[n // 2 + 1:] = np.conj(X[1:n // 2][::-1])
+    X[n // 2 + 1:] = np.conj(X[1:(n + 1) // 2][::-1])
 
     x = np.fft.ifft(X) * np.sqrt((n - 1) / timestep)
     x = x.real
-- 
2.43.0


From eb42202925db6670cf9f6f0d69f86d690d83334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 09/22] fix: timmer_koenig_from_psd assigns a grid frequency on
 the last node to the last segment

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0b841a0..0888c29 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -295,7 +295,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for i, f in enumerate(frequencies):
         if f_nodes.size > 0 and f < f_nodes[0]:
             Sy[i] = h_ext[0] * f ** alpha_ext[0]
-        elif f_nodes.size > 0 and f > f_nodes[-1]:
+        elif f_nodes.size > 0 and f >= f_nodes[-1]:
             Sy[i] = h_ext[-1] * f ** alpha_ext[-1]
         else:
             if f_nodes.size == 0:
-- 
2.43.0


From e60f9b8ee6efc1b61a16494ad4cd439eb71f9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 10/22] fix: streaming add_frequency integrates with the
 sampling interval tau0

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 50d3eb9..0ffbc17 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -79,7 +79,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f)  # integration
+        self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
-- 
2.43.0


From 19aede1e5e4b13aa294e1c5286d141fdf87c23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 11/22] fix: streaming state arrays are sized by the averaging
 factors in use

---
 allantools/realtime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 0ffbc17..83bf937 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -46,7 +46,7 @@ class dev_realtime(object):
         self.af_decade = 0    # logspace decade
         if auto_afs:
             self.afs = numpy.array([1])
-        self.dev = numpy.zeros(len(afs))    # resulting xDEV
+        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
     def update_af(self):
@@ -103,7 +103,7 @@ class oadev_realtime(dev_realtime):
         super(oadev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
@@ -139,7 +139,7 @@ class ohdev_realtime(dev_realtime):
         super(ohdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
@@ -177,8 +177,8 @@ class tdev_realtime(dev_realtime):
         super(tdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                             auto_afs=auto_afs,
                                             pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
-        self.So = numpy.zeros(len(afs))      # overall sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
+        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point """
-- 
2.43.0


From b52578aae47f4afb4dfd2c2198d71175f165e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 12/22] fix: automatic averaging factors enter service with the
 first sample that contributes to them

---
 allantools/realtime.py | 48 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 83bf937..54ba444 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -54,26 +54,26 @@ class dev_realtime(object):
             - check if we can add another AF
             - if yes, add it.
         """
-        next_idx = self.af_idx+1
-        next_decade = self.af_decade
-        if next_idx == len(self.af_taus):
-            next_idx = 0
-            next_decade = self.af_decade + 1
-
-        # next possible AF:
-        next_af = int(numpy.round(
-            pow(10.0, next_decade) * self.af_taus[next_idx]))
-        if len(self.x) >= (2*next_af+1):  # can compute next AF
-            self.afs = numpy.append(self.afs, next_af)  # new AF
-            self.add_af()  # tell subclass to update internal variables
-            # FIXME: S defined in subclass!
-            # self.S = numpy.append(self.S, 0) # new S
-            self.dev = numpy.append(self.dev, 0)  # new dev
+        while True:
+            next_idx = self.af_idx+1
+            next_decade = self.af_decade
+            if next_idx == len(self.af_taus):
+                next_idx = 0
+                next_decade = self.af_decade + 1
+
+            # next possible AF:
+            next_af = int(numpy.round(
+                pow(10.0, next_decade) * self.af_taus[next_idx]))
+            if len(self.x) < (2*next_af+1):  # can not compute next AF yet
+                break
+            if next_af > self.afs[-1]:  # dense grids repeat small AFs
+                self.afs = numpy.append(self.afs, next_af)  # new AF
+                self.add_af()  # tell subclass to update internal variables
+                # FIXME: S defined in subclass!
+                # self.S = numpy.append(self.S, 0) # new S
+                self.dev = numpy.append(self.dev, 0)  # new dev
             self.af_idx = next_idx
             self.af_decade = next_decade
-        else:
-            pass
-            # print "no new AF "
 
     def add_frequency(self, f):
         """ add new frequency point, in units of Hz """
@@ -108,11 +108,11 @@ class oadev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares.
@@ -147,11 +147,11 @@ class ohdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares """
@@ -183,14 +183,14 @@ class tdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
             elif len(self.x) >= 2*af+1:  # 2n+1 samples measured
                 self.update_S3n(idx)
 
-        if self.auto_afs:
-            self.update_af()
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
-- 
2.43.0


From ffec0292c21a0e89fdaeb398601be446884dba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 13/22] fix: Dataset.write_results averaging factor column is
 tau*rate

---
 allantools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 0c2c505..f709aa7 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -196,7 +196,7 @@ class Dataset(object):
                        "\n")
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(self.out["taus"][i] / self.out["taus"][0]),
+                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From a706bd6302e0d7200f0dd41f6b1e9e74feb92978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 14/22] fix: psd2allan rejects an unknown kind

---
 allantools/allantools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index f39ba09..aede428 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1756,6 +1756,8 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
         exponent = 1.0
     elif kind[0].lower() == 'm':  # for modADEV
         exponent = 2.0
+    else:
+        raise ValueError("unknown kind: %s" % kind)
 
     integrand = np.array([
         S_y *
-- 
2.43.0


From 3bcdb2335abd1edd5bcf62bc13fc6dda3918e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 15/22] fix: Noise predictions reject unsupported noise
 exponents

---
 allantools/noise_kasdin.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/allantools/noise_kasdin.py b/allantools/noise_kasdin.py
index ae5f253..9f72291 100644
--- a/allantools/noise_kasdin.py
+++ b/allantools/noise_kasdin.py
@@ -211,6 +211,7 @@ class Noise(object):
             return -2.0
         elif self.b == 0:
             return -2.0
+        raise ValueError("no prediction for b=%s" % self.b)
 
     def c_mvar(self):
         """ return tau exponent "c" for noise type.
@@ -226,6 +227,7 @@ class Noise(object):
             return -2.0
         elif self.b == 0:
             return -3.0
+        raise ValueError("no prediction for b=%s" % self.b)
 
     def adev_from_qd(self, tau0=1.0, tau=1.0):
         """ prefactor for Allan deviation for noise type defined by (qd, b, tau0)
@@ -276,6 +278,8 @@ class Noise(object):
             coeff = 2*np.log(2)  # B, flicker FM,  constant ADEV
         elif self.b == -4:
             coeff = 2.0*pow(np.pi, 2)/3.0  # A, RW FM, sqrt(tau)
+        else:
+            raise ValueError("no prediction for b=%s" % self.b)
 
         # return np.sqrt(coeff*g_b*pow(2.0*np.pi, 2))
         return np.sqrt(coeff*h_b)
@@ -315,6 +319,8 @@ class Noise(object):
         elif self.b == -4:
             # A, RW FM, sqrt(tau)
             coeff = 11.0/20.0*pow(np.pi, 2)
+        else:
+            raise ValueError("no prediction for b=%s" % self.b)
 
         return np.sqrt(coeff*h_b)
 
@@ -349,6 +355,8 @@ class Noise(object):
         elif self.b == -4:
             # A, RW FM, sqrt(tau)
             coeff = 26.0/35.0*pow(np.pi, 2)
+        else:
+            raise ValueError("no prediction for b=%s" % self.b)
 
         return np.sqrt(coeff*g_b*pow(2.0*np.pi, 2))
 
-- 
2.43.0


From 37b2d7419afebca2861004f394d3a549ddc250c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 16/22] fix: flicker-PM coefficient of the parabolic deviation
 prediction

---
 allantools/noise_kasdin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise_kasdin.py b/allantools/noise_kasdin.py
index 9f72291..a6b2ce4 100644
--- a/allantools/noise_kasdin.py
+++ b/allantools/noise_kasdin.py
@@ -346,7 +346,7 @@ class Noise(object):
             coeff = 3.0/(2.0*pow(np.pi, 2))  # Vernotte Table I
         elif self.b == -1:
             # D, Flicker PM, tau^-1
-            coeff = (3.0*np.log(16)-1.0)/2.0/pow(np.pi, 2)
+            coeff = 3.0*(np.log(16)-1.0)/2.0/pow(np.pi, 2)
         elif self.b == -2:  # C, white FM,  1/sqrt(tau)
             coeff = 3.0/5.0
         elif self.b == -3:
-- 
2.43.0


From 778e3ee63e0755c8554937ba0a1d664b24ec1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 17/22] fix: psd_piecewise_to_adev rejects inconsistent segment
 arrays

---
 allantools/allantools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index aede428..599b885 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1967,6 +1967,9 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
     def integrand(z, a):
         return (np.sin(z) ** 4) / (z ** (2.0 - a))
 
+    if h.size != alpha.size or f_nodes.size != h.size - 1:
+        raise ValueError("Expected len(h) == len(alpha) == len(f_nodes)+1.")
+
     edges = np.concatenate(([0.0], f_nodes, [np.inf]))
     adev = np.empty_like(taus, dtype=float)
 
-- 
2.43.0


From 720b68a379c45ff89bc20043c47422e176b7dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 18/22] fix: Dataset.write_results headed old results with the
 rate and data type of a later set_input

---
 allantools/dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index f709aa7..cae7b5d 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -89,6 +89,8 @@ class Dataset(object):
         self.inp["rate"] = rate
         self.inp["data_type"] = data_type
         self.inp["taus"] = taus
+        # input that the results in self.out were computed from
+        self._out_inp = self.inp
 
     def set_input(self, data,
                   rate=1.0, data_type="phase", taus=None):
@@ -145,6 +147,7 @@ class Dataset(object):
         result = {key: result[i] for i, key in enumerate(keys)}
         self.out = result.copy()
         self.out["stat_id"] = function
+        self._out_inp = self.inp.copy()
         return result
 
     def write_results(self, filename, digits=5, header_params={}):
@@ -169,8 +172,9 @@ class Dataset(object):
         with open(filename, 'w') as fp:
             fp.write("# Generated by Allantools {}\n".format(
                 allantools.__version__))
-            fp.write("# Input data type: {}\n".format(self.inp["data_type"]))
-            fp.write("# Input data rate: {}\n".format(self.inp["rate"]))
+            fp.write("# Input data type: {}\n".format(
+                self._out_inp["data_type"]))
+            fp.write("# Input data rate: {}\n".format(self._out_inp["rate"]))
             for key, val in header_params.items():
                 fp.write("# {}: {}\n".format(key, val))
             # Fields
@@ -196,7 +200,7 @@ class Dataset(object):
                        "\n")
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
+                    af=int(round(self.out["taus"][i] * self._out_inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From 0b69bcbbb6d491bd1466fe17bf4d5d957b2df7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 19/22] fix: greenhall_table1 took the row of another noise
 type for alpha > 2

row index -alpha+2 is negative for alpha > 2 and selected rows from the end of
the table, so edf_greenhall returned (negative) EDFs for large modified cases.
---
 allantools/ci.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allantools/ci.py b/allantools/ci.py
index 6915ed1..5d09c9a 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -715,6 +715,7 @@ def greenhall_table2(alpha, d):
 def greenhall_table1(alpha, d):
     """ Table 1 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table1 = [
         # alpha = +2:
-- 
2.43.0


From 641499e619a7fe756c8bf552d4700016e54c3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 20/22] fix: timmer_koenig_from_psd ignored all but the first
 segment without f_nodes

Several segments with an empty f_nodes passed the length check, and the
spectrum of the first segment was used at all frequencies.
---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0888c29..50f4d75 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -270,7 +270,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
         raise ValueError("duration and timestep must be positive.")
     if h.size != alpha.size:
         raise ValueError("h and alpha must have the same length.")
-    if f_nodes.size not in (0, h.size - 1):
+    if f_nodes.size != h.size - 1:
         # Typical output of your reconstruction: len(f_nodes)=len(h)-1
         raise ValueError("Expected len(f_nodes) == len(h)-1 (or 0 for single segment).")
 
-- 
2.43.0


From ef504d586101f3e1492552af77e7c89d114e76c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 21/22] fix: mtie_phase_fast ignored data_type

Frequency data was analysed as if it were phase, and unknown data types were
accepted.
---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 599b885..0782a26 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1494,7 +1494,7 @@ def mtie_phase_fast(phase, rate=1.0, data_type="phase", taus=None):
     # !!!!!!!
     #
     rate = float(rate)
-    phase = np.asarray(phase)
+    phase = np.asarray(input_to_phase(phase, rate, data_type))
     k_max = int(np.floor(np.log2(len(phase))))
     phase = phase[0:pow(2, k_max)]  # truncate data to 2**k_max datapoints
     assert len(phase) == pow(2, k_max)
-- 
2.43.0


From 4dd17e3e7dc32fcf31d70fd417ba1efe71e35672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 22/22] fix: adev2psd_piecewise_approx segments meet at their
 common node

The break frequencies were right only for averaging times one decade
apart with no merged segments: S_y jumped between segments otherwise.
---
 allantools/allantools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 0782a26..ef902aa 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1913,8 +1913,9 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     else:
         f_nodes = np.array(
             [
-                1.0 / (10.0 * np.pi * filtered_tau[i]) *
-                (integral_values[i] / integral_values[i + 1]) ** (1.0 / (mus[i + 1] - mus[i]))
+                # S_y is continuous: adjacent segments meet at their common node
+                1.0 / np.pi *
+                (Bi[i + 1] * integral_values[i] / (Bi[i] * integral_values[i + 1])) ** (1.0 / (mus[i + 1] - mus[i]))
                 for i in range(mus.size - 1)
             ],
             dtype=float,
-- 
2.43.0

