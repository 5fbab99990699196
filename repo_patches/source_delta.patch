From a3195fa4f2bc9d39a371201e35d4e09c034278e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 01/30] fix: add missing term in fourth derivatives of rational
 basis functions

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fe2c7ed..89a0047 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -938,7 +938,8 @@ subroutine Rationalize(nen,dim,W,R0,R1,R2,R3,R4)
                    - R2(j,k,:)*W2(i,l) - R3(j,k,l,:)*W1(i) &
                    - R1(i,:)*W3(j,k,l) - R2(i,l,:)*W2(j,k) &
                    - R2(i,k,:)*W2(j,l) - R3(i,k,l,:)*W1(j) &
-                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k)
+                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k) &
+                   - R3(i,j,k,:)*W1(l)
   end do; end do; end do; end do
   R4 = R4 / W0
 end subroutine Rationalize
-- 
2.43.0


From f355ec67b5bbc881d2227d6c21ef0517527627b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 02/30] fix: mapped second and higher derivatives terminated
 the interpreter

---
 igakit/nurbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6fa3f8..e2953e1 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1621,6 +1621,8 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        if mapped:
+            raise NotImplementedError("geometry mapping not supported")
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
@@ -1690,6 +1692,8 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        if mapped and order > 1:
+            raise NotImplementedError("geometry mapping not supported")
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
-- 
2.43.0


From 722cb8cff7f100d19de1540d12cb0d757d781253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 03/30] fix: knot refinement sorted the caller's array in place

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index e2953e1..6572ac7 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1054,7 +1054,7 @@ class NURBS(object):
 
         """
         def Arg(p, U, u):
-            u.sort(kind='heapsort')
+            u = np.sort(u, kind='heapsort')
             assert u[ 0] >= U[p]
             assert u[-1] <= U[-p-1]
             tmp = np.concatenate((u, U[1:-1]))
-- 
2.43.0


From 22b69fb953579491a3ea8c074feffc16942d6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 04/30] fix: knot removal tolerance used a field instead of the
 weights

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 6572ac7..ac4bf20 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -867,7 +867,7 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = Pw[:,-1].min()
+        wmin = self.weights.min()
         Pmax = []
         for i in range(Pw.shape[0]):
             Pmax.append(np.linalg.norm(Pw[i,:-1]))
-- 
2.43.0


From aea71f3a196601e49fa26db3720b78d7c37e1782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 05/30] fix: degree elevation of unclamped directions

---
 igakit/nurbs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index ac4bf20..68e8a2d 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1144,11 +1144,12 @@ class NURBS(object):
         assert times >= 0
         if times == 0: return self
         axis = range(self.dim)[axis]
-        p = self.degree[axis]
-        U = self.knots[axis]
+        nrb = self.clone().clamp(axis)
+        p = nrb.degree[axis]
+        U = nrb.knots[axis]
         t = times
-        array = self.array.view()
-        knots = list(self.knots)
+        array = nrb.array.view()
+        knots = list(nrb.knots)
         #
         DegreeElevate = _bsp.DegreeElevate
         Pw = np.rollaxis(array, axis, 0)
-- 
2.43.0


From 820a4608e59caf8d3cd4773ad41ce974c7f27984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 06/30] fix: extraction at the right end of unclamped
 directions with repeated end knots

---
 igakit/igalib.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 89a0047..76503c6 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -196,8 +196,8 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
-     k = n+1
      s = FindMult(n,uu,p,U)
+     k = n+s
      if (s >= p) then
         Cw(:) = Pw(:,n)
         return
-- 
2.43.0


From b82146ffd2553315576b08d6c1efec0da1fbd793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 07/30] fix: knot insertion at the ends of unclamped directions

---
 igakit/nurbs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 68e8a2d..4108f3b 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -780,6 +780,8 @@ class NURBS(object):
         if times is None: times = p-mult
         assert times + mult <= p
         if times == 0: return self
+        if value in (U[p], U[-p-1]):
+            return self.refine(axis, [value]*times)
         #
         InsertKnot = _bsp.InsertKnot
         Pw = np.rollaxis(array, axis, 0)
@@ -1078,6 +1080,11 @@ class NURBS(object):
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
         V, Qw = RefineKnotVector(p, U, Pw, u)
+        # Values at the ends of the domain displace the end knots
+        l = np.count_nonzero(u == U[p])
+        r = np.count_nonzero(u == U[-p-1])
+        V = V[l:len(V)-r].copy()
+        Qw = Qw[l:len(Qw)-r].copy()
         Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
-- 
2.43.0


From 30f1f9b0938a05e55d546c50fde9b55d86020b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 08/30] fix: reverse() and remap() could shift the ends of the
 domain by rounding

---
 igakit/nurbs.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 4108f3b..83acdfe 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -642,7 +642,10 @@ class NURBS(object):
             return C[tuple(index)]
         def KntRev(p, U):
             U0, U1 = U[p], U[-p-1]
-            return (U1+U0)-U[::-1]
+            V = (U1+U0)-U[::-1]
+            V[U[::-1]==U1] = U0
+            V[U[::-1]==U0] = U1
+            return V
         allaxes = range(self.dim)
         if not axes: axes = allaxes
         array = self.array
@@ -708,12 +711,14 @@ class NURBS(object):
         if (a == c) and (b == d): return self
         #
         assert c < d
-        U = U.copy()
-        U -= a
-        U *= (d-c)/(b-a)
-        U += c
+        V = U.copy()
+        V -= a
+        V *= (d-c)/(b-a)
+        V += c
+        V[U==a] = c
+        V[U==b] = d
         knots = list(self.knots)
-        knots[axis] = U
+        knots[axis] = V
         #
         self._knots = tuple(knots)
         return self
-- 
2.43.0


From 54ed3b84d88e16fe9574cc18a5711c0885673536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 09/30] fix: revolve around the negative z axis

---
 igakit/cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 423f0ba..2ce6772 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -459,6 +459,7 @@ def revolve(nrb, point, axis=2, angle=None):
     # Transform the NURBS object to a new reference frame
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
+    if not np.any(n): n = 0 # v is parallel to z
     gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
-- 
2.43.0


From cadab973ee349188038599d04bd33665b1b6aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 10/30] fix: grid() and refine() modified the caller's arrays
 in place

---
 igakit/cad.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 2ce6772..bdc77bf 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -235,7 +235,7 @@ def grid(shape, degree=2, continuity=None,
     wrap : bool or sequence of bool, optional
 
     """
-    shape = np.asarray(shape, dtype='i')
+    shape = np.array(shape, dtype='i')
     if shape.ndim == 0:
         dim = 1
         shape.shape = (1,)
@@ -252,7 +252,7 @@ def grid(shape, degree=2, continuity=None,
     #
     if continuity is None:
         continuity = degree - 1
-    continuity = np.asarray(continuity, dtype='i')
+    continuity = np.array(continuity, dtype='i')
     if continuity.ndim == 0:
         continuity = continuity.repeat(dim)
     assert continuity.shape == (dim,)
@@ -693,7 +693,7 @@ def refine(nrb, factor=None, degree=None, continuity=None):
         if arg is None:
             return list(defval)
         dim = len(defval)
-        arg = np.asarray(arg, dtype=object)
+        arg = np.array(arg, dtype=object)
         if arg.ndim == 0:
             return arg.repeat(dim)
         assert arg.shape[0] == dim
-- 
2.43.0


From 6fb31b0e647ed43a4f310d9091f958ea3a6bc665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 11/30] fix: compare knots exactly, consistently with the span
 search

---
 igakit/igalib.f90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 76503c6..cacc90b 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -38,7 +38,7 @@ function FindMult(i,uu,p,U) result (mult)
   integer(kind=4) :: j
   mult = 0
   do j = -p, p+1
-     if (abs(uu - U(i+j))<epsilon(uu)) mult = mult + 1
+     if (uu == U(i+j)) mult = mult + 1
   end do
 end function FindMult
 
@@ -483,7 +483,7 @@ subroutine RefineKnotVector(d,n,p,U,Pw,r,X,Ubar,Qw)
      do l = 1, p
         idx = k - p + l
         alpha = Ubar(k+l) - X(j)
-        if (abs(alpha) < epsilon(alpha)) then
+        if (alpha == 0) then
            Qw(:,idx-1) = Qw(:,idx)
         else
            alpha = alpha / (Ubar(k+l) - U(i-p+l))
@@ -546,7 +546,7 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
   do while (b < m)
      i = b
      do while (b < m)
-        if (abs(U(b) - U(b+1))>epsilon(U)) exit
+        if (U(b) /= U(b+1)) exit
         b = b + 1
      end do
      mul = b - i + 1
@@ -1091,7 +1091,7 @@ subroutine SpanIndex(p,m,U,r,I)
   integer(kind=4) :: k, s
   s = 1
   do k = p, m-(p+1)
-     if (abs(U(k) - U(k+1))>epsilon(U)) then
+     if (U(k) /= U(k+1)) then
         I(s) = k; s = s + 1
         if (s > r) exit
      end if
@@ -2482,7 +2482,7 @@ subroutine BasisData(p,m,U,d,q,r,O,J,W,X,N)
 
   ir = 1
   do i = p, m-(p+1)
-     if (abs(U(i) - U(i+1))>epsilon(U)) then
+     if (U(i) /= U(i+1)) then
         O(ir) = i - p
         ir = ir + 1
      end if
-- 
2.43.0


From 7a06deb509d171f536aa2c9b07e5c050f31a863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 12/30] fix: compat() left different end knots in clamped and
 unclamped directions

---
 igakit/cad.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index bdc77bf..629c87b 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -334,6 +334,17 @@ def compat(*nurbs, **kargs):
                 t = elevate[i,j]
                 nrb.elevate(axis, t)
     #
+    def SameEnds(nurbs, axes):
+        # Ensure same end knots by clamping
+        for axis in axes:
+            ends = []
+            for nrb in nurbs:
+                p, U = nrb.degree[axis], nrb.knots[axis]
+                ends.append(np.concatenate([U[:p+1], U[-p-1:]]))
+            if any(np.any(e != ends[0]) for e in ends):
+                for nrb in nurbs:
+                    nrb.clamp(axis)
+    #
     def MergeKnots(nurbs, axes):
         m, n = len(nurbs), len(axes)
         insert = np.empty((m, n), dtype=object)
@@ -384,6 +395,7 @@ def compat(*nurbs, **kargs):
     #
     SameBounds(nurbs, axes)
     SameDegree(nurbs, axes)
+    SameEnds(nurbs, axes)
     MergeKnots(nurbs, axes)
     #
     return nurbs
-- 
2.43.0


From 442c03ecdfbb40121074d3f4fb749a248240f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 13/30] fix: coons() ignored the weights at the corners and
 rejected rounding errors

---
 igakit/cad.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 629c87b..3336c00 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -582,23 +582,19 @@ def coons(curves):
     (C00, C01) = compat(C00, C01)
     (C10, C11) = compat(C10, C11)
     #
-    p, U = C10.degree[0], C10.knots[0]
-    u0, u1 = U[p], U[-p-1]
-    P = np.zeros((2,2,3), dtype='d')
-    P[0,0] = C10(u0)
-    P[1,0] = C10(u1)
-    P[0,1] = C11(u0)
-    P[1,1] = C11(u1)
+    P = np.zeros((2,2,4), dtype='d')
+    P[0,0] = C10.boundary(0,0).control
+    P[1,0] = C10.boundary(0,1).control
+    P[0,1] = C11.boundary(0,0).control
+    P[1,1] = C11.boundary(0,1).control
     #
-    q, V = C00.degree[0], C00.knots[0]
-    v0, v1 = V[q], V[-q-1]
-    Q = np.zeros((2,2,3), dtype='d')
-    Q[0,0] = C00(v0)
-    Q[0,1] = C00(v1)
-    Q[1,0] = C01(v0)
-    Q[1,1] = C01(v1)
+    Q = np.zeros((2,2,4), dtype='d')
+    Q[0,0] = C00.boundary(0,0).control
+    Q[0,1] = C00.boundary(0,1).control
+    Q[1,0] = C01.boundary(0,0).control
+    Q[1,1] = C01.boundary(0,1).control
     #
-    assert np.allclose(P, Q, rtol=0, atol=1e-15)
+    assert np.allclose(P, Q, rtol=1e-12, atol=1e-12*np.abs(Q).max())
     #
     R0 = ruled(C00, C01).transpose()
     R1 = ruled(C10, C11)
-- 
2.43.0


From de2068e1ef2b3ee3088a6e1026bf926334f0999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 14/30] fix: join() misplaced the second object unless its
 domain starts at zero

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 3336c00..1c71266 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -646,7 +646,7 @@ def join(nrb1, nrb2, axis):
     u = U1[-p1-1]
     a = U2[p2]
     b = U2[-p2-1]
-    nrb2.remap(axis, a+u, b+u)
+    nrb2.remap(axis, u, u+(b-a))
 
     p = max(p1, p2)
     nrb1.elevate(axis, p-p1)
-- 
2.43.0


From dc4fd82a701ae6692db1bc6c70c6e13069d35025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 15/30] fix: join() distorted both objects when the weights at
 the junction differ

---
 igakit/cad.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 1c71266..0d6d04a 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -662,6 +662,11 @@ def join(nrb1, nrb2, axis):
     Ar = A2[tuple(I2)]
     I1[axis] = -1
     I2[axis] = +0
+    # Scale homogeneous coordinates to match weights at the junction
+    w1 = A1[tuple(I1)][...,3].sum()
+    w2 = A2[tuple(I2)][...,3].sum()
+    A2 = A2 * (w1/w2)
+    Ar = Ar * (w1/w2)
     Ac = (A1[tuple(I1)]+A2[tuple(I2)])/2.0
     Ic = [slice(None)] * (dim+1)
     Ic[axis] = np.newaxis
-- 
2.43.0


From eb2185b4ccdc5d22236b3910ec70f5511be85403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 16/30] fix: knot removal in objects with negative weights at
 unclamped ends

The tolerance was scaled with the smallest weight, which extrapolation
may make negative, and then no knot was ever removed.
---
 igakit/nurbs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 83acdfe..f84cdf9 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -874,7 +874,10 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = self.weights.min()
+        # Unclamped ends may have negative weights
+        nrb = self.clone()
+        for i in range(self.dim): nrb.clamp(i)
+        wmin = nrb.weights.min()
         Pmax = []
         for i in range(Pw.shape[0]):
             Pmax.append(np.linalg.norm(Pw[i,:-1]))
-- 
2.43.0


From e0b48a223f085004aa9a14396d9b6e0d6b680afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 17/30] fix: report errors when writing PetIGA files

ndarray.tofile() ignores errors of buffered data, so that a full disk
silently left a truncated file behind.
---
 igakit/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/io.py b/igakit/io.py
index 16337af..8b9569c 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -33,7 +33,8 @@ class PetIGA(object):
         self._types = tuple(np.dtype(t) for t in (I, R, S))
 
     def _write(self, fid, dtype, array):
-        np.asarray(array, dtype).tofile(fid)
+        # ndarray.tofile() does not report write errors
+        fid.write(np.asarray(array, dtype).tobytes())
 
     def _read(self, fid, dtype, count=None):
         if count is None:
-- 
2.43.0


From 74fc1cc0a214ffaf7eab4a19b97480ca9c5a90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 18/30] fix: number of spans of unclamped directions with
 repeated end knots

---
 igakit/igalib.pyf | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 7bb5dae..ac229d2 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -5,10 +5,8 @@ usercode '''
 static int CountSpans(int n, int p, double *U)
 {
   int i, spans=0;
-  for (i=p; i<=n; i++) {
-    while (i<=n && U[i]==U[i+1]) i++;
-    spans++;
-  }
+  for (i=p; i<=n; i++)
+    if (U[i]!=U[i+1]) spans++;
   return spans;
 }
 '''
-- 
2.43.0


From 33eecbd1fb8498a361138b1688d3e59b0e86b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 19/30] fix: evaluation at the ends of unclamped directions
 whose end knot is repeated inside

---
 igakit/igalib.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index cacc90b..98c2bf4 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -11,10 +11,16 @@ function FindSpan(n,p,uu,U) result (span)
   integer(kind=4) low, high
   if (uu >= U(n+1)) then
      span = n
+     do while (span > p .and. U(span) == U(n+1))
+        span = span - 1
+     end do
      return
   end if
   if (uu <= U(p)) then
      span = p
+     do while (span < n .and. U(span+1) == U(p))
+        span = span + 1
+     end do
      return
   end if
   low  = p
-- 
2.43.0


From b9b4b891822870a934406e55d4d0b574e2b0f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 20/30] fix: extraction at the ends of unclamped directions
 whose end knot is repeated inside

---
 igakit/igalib.f90 | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 98c2bf4..9e52b1a 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -194,20 +194,21 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
   real   (kind=8) :: uu, alpha, Rw(d,0:p)
   if (x <= U(p)) then
      uu = U(p)
-     k = p
-     s = FindMult(p,uu,p,U)
+     k = FindSpan(n,p,uu,U)
+     s = FindMult(k,uu,p,U)
      if (s >= p) then
-        Cw(:) = Pw(:,0)
+        Cw(:) = Pw(:,k-p)
         return
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
-     s = FindMult(n,uu,p,U)
-     k = n+s
+     k = FindSpan(n,p,uu,U)
+     s = FindMult(k,uu,p,U)
      if (s >= p) then
-        Cw(:) = Pw(:,n)
+        Cw(:) = Pw(:,k)
         return
      end if
+     k = k+s
   else
      uu = x
      k = FindSpan(n,p,uu,U)
-- 
2.43.0


From 5ef3e406f5808d880fe4e2216fd4dcc300488833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 21/30] fix: clamping, unclamping and elevation when end knots
 are repeated inside the domain

---
 igakit/nurbs.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index f84cdf9..a13f159 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -940,8 +940,11 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0).copy()
         shape = Pw.shape
         Pw.shape = (shape[0], -1)
-        V, Qw = Clamp(p, U, Pw, l, r)
-        Qw.shape = shape
+        # Control points that do not act on the domain are discarded
+        i = U.searchsorted(U[p], 'right')-p-1 if l else 0
+        j = U.searchsorted(U[-p-1])+p+1 if r else U.size
+        V, Qw = Clamp(p, U[i:j], Pw[i:j-p-1], l, r)
+        Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
@@ -1011,8 +1014,11 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0).copy()
         shape = Pw.shape
         Pw.shape = (shape[0], -1)
-        V, Qw = Unclamp(p, U, Pw, C, l, r)
-        Qw.shape = shape
+        # Control points that do not act on the domain are discarded
+        i = U.searchsorted(U[p], 'right')-p-1 if l else 0
+        j = U.searchsorted(U[-p-1])+p+1 if r else U.size
+        V, Qw = Unclamp(p, U[i:j], Pw[i:j-p-1], C, l, r)
+        Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
-- 
2.43.0


From 4dad9d938b06c871a065e99b2e2ec3e4af21dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 22/30] fix: remap and reverse keep knots next to the ends of
 the domain on their side

---
 igakit/nurbs.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a13f159..04f0f3d 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -642,9 +642,13 @@ class NURBS(object):
             return C[tuple(index)]
         def KntRev(p, U):
             U0, U1 = U[p], U[-p-1]
-            V = (U1+U0)-U[::-1]
-            V[U[::-1]==U1] = U0
-            V[U[::-1]==U0] = U1
+            W = U[::-1]
+            V = (U1+U0)-W
+            for s, t in ((U0, U1), (U1, U0)): # knots keep their side
+                V[W>s] = np.minimum(V[W>s], np.nextafter(t, -np.inf))
+                V[W<s] = np.maximum(V[W<s], np.nextafter(t, +np.inf))
+            V[W==U1] = U0
+            V[W==U0] = U1
             return V
         allaxes = range(self.dim)
         if not axes: axes = allaxes
@@ -715,6 +719,9 @@ class NURBS(object):
         V -= a
         V *= (d-c)/(b-a)
         V += c
+        for s, t in ((a, c), (b, d)): # knots keep their side
+            V[U<s] = np.minimum(V[U<s], np.nextafter(t, -np.inf))
+            V[U>s] = np.maximum(V[U>s], np.nextafter(t, +np.inf))
         V[U==a] = c
         V[U==b] = d
         knots = list(self.knots)
-- 
2.43.0


From 12d2406835d2e367b0e0f7b7633007455f8c7488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 23/30] fix: Plotter.kwire with axes counted from the end

---
 igakit/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/plot.py b/igakit/plot.py
index c0e93b2..f840cf6 100644
--- a/igakit/plot.py
+++ b/igakit/plot.py
@@ -128,6 +128,7 @@ class Plotter(object):
         uvw = nurbs.breaks()
         lines = []
         for axis in axes:
+            axis = range(nurbs.dim)[axis]
             u = uvw[axis]
             resolution = self.backend._resolution[1]
             a = np.linspace(u[0], u[-1], resolution)
-- 
2.43.0


From 598ce6a02aabfbf0600518f5fa2452c4ebbef3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 24/30] fix: errors of the storage that do not last are
 reported when writing VTK files

---
 igakit/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/igakit/io.py b/igakit/io.py
index 8b9569c..d6b5bbe 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -351,7 +351,7 @@ class VTK(object):
             fh_write('\n')
             fh_write('POINTS %d %s' % (len(points), 'double'))
             fh_write('\n')
-            points.astype('>d').tofile(fh)
+            fh.write(points.astype('>d').tobytes())
             fh_write('\n')
         else:
             dataset_type = 'RECTILINEAR_GRID'
@@ -363,7 +363,7 @@ class VTK(object):
                 label = X+'_COORDINATES'
                 fh_write('%s %s %s' % (label, len(array), 'double'))
                 fh_write('\n')
-                array.astype('>d').tofile(fh)
+                fh.write(array.astype('>d').tobytes())
                 fh_write('\n')
 
         if (not scalars and
@@ -386,7 +386,7 @@ class VTK(object):
             lookup_table = lookup_table.replace(' ', '_')
             fh_write('LOOKUP_TABLE %s' % lookup_table)
             fh_write('\n')
-            array.astype('>d').tofile(fh)
+            fh.write(array.astype('>d').tobytes())
             fh_write('\n')
 
         for i, (name, array) in enumerate(vectors):
@@ -395,7 +395,7 @@ class VTK(object):
             attr_name = attr_name.replace(' ', '_')
             fh_write('%s %s %s' %(attr_type, attr_name, 'double'))
             fh_write('\n')
-            array.astype('>d').tofile(fh)
+            fh.write(array.astype('>d').tobytes())
             fh_write('\n')
 
         fh.flush()
-- 
2.43.0


From d7bacd4f1700895514bb9fc2d94f7b5aaf40816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 25/30] fix: revolve lost half the digits for axes close to the
 z axis

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 0d6d04a..f81ba2d 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -472,7 +472,7 @@ def revolve(nrb, point, axis=2, angle=None):
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
     if not np.any(n): n = 0 # v is parallel to z
-    gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
+    gamma = np.arctan2(np.hypot(v[0], v[1]), v[2]) # angle between v and z
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
     # Map cartesian coordinates (x,y,z) to cylindrical coordinates
-- 
2.43.0


From 80fe1947066befa936a9f565de9ada07e7a9a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 26/30] fix: knot removal tolerance used homogeneous instead of
 Cartesian magnitudes

---
 igakit/nurbs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 04f0f3d..ca1ee76 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -885,10 +885,9 @@ class NURBS(object):
         nrb = self.clone()
         for i in range(self.dim): nrb.clamp(i)
         wmin = nrb.weights.min()
-        Pmax = []
-        for i in range(Pw.shape[0]):
-            Pmax.append(np.linalg.norm(Pw[i,:-1]))
-        Pmax = max(Pmax)
+        C = np.delete(nrb.array, 3, axis=-1)
+        C = C / nrb.weights[...,np.newaxis]
+        Pmax = np.sqrt(np.sum(C*C, axis=-1)).max()
         TOL = deviation*wmin/(1.+Pmax)
         t, V, Qw = RemoveKnot(p, U, Pw, value, TOL, times)
         if t > 0: V = V[:-t].copy()
-- 
2.43.0


From 3ce9fe8ebd3bbea366b6f37a4fc09e2be9fd7ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 27/30] fix: transpose with axes counted from the end permuted
 knots and control points differently

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index ca1ee76..96b6deb 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -552,7 +552,7 @@ class NURBS(object):
         else:
             axes = tuple(axes)
             assert len(axes) == self.dim
-        kaxes = list(axes)
+        kaxes = [range(self.dim)[i] for i in axes]
         caxes = kaxes+[self.dim]
         array = self.array.transpose(caxes).copy()
         knots = [self.knots[i] for i in kaxes]
-- 
2.43.0


From 48401e3b9889dc7950f786cd5b6aa17be27c5ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:27 +0000
Subject: [PATCH 28/30] fix: degree elevation up to degree 30 and above:
 binomial coefficients overflowed

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 9e52b1a..461e19b 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -648,7 +648,8 @@ contains
   pure function Bin(n,k) result (C)
     implicit none
     integer(kind=4), intent(in) :: n, k
-    integer(kind=4) :: i, C
+    integer(kind=4) :: i
+    real   (kind=8) :: C ! large degrees overflow an integer
     C = 1
     do i = 0, min(k,n-k) - 1
        C = C * (n - i)
-- 
2.43.0


From 0a7243eb17f967e23c63bbc6fdc2f46e61fb1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 29/30] fix: elevation of objects with discontinuities ended
 the interpreter or lost control points

---
 igakit/igalib.f90 | 7 +++++--
 igakit/nurbs.py   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 461e19b..0af8e84 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -543,7 +543,7 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
   end do
   kind = ph+1
   cind = 1
-  r = -1
+  r = 0
   a = p
   b = p+1
   ua = U(a)
@@ -562,6 +562,8 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
      ub = U(b)
      if (oldr > 0) then
         lbz = (oldr+2)/2
+     else if (oldr < 0) then
+        lbz = 0 ! discontinuity, nothing is shared
      else
         lbz = 1
      end if
@@ -636,7 +638,8 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
      !
      if (b < m) then
         bpts(:,0:r-1) = nextbpts(:,0:r-1)
-        bpts(:,r:p) = Pw(:,b-p+r:b)
+        i = max(r,0)
+        bpts(:,i:p) = Pw(:,b-p+i:b)
         a = b
         b = b+1
         ua = ub
diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 96b6deb..e3fec04 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1175,6 +1175,7 @@ class NURBS(object):
         p = nrb.degree[axis]
         U = nrb.knots[axis]
         t = times
+        assert np.all(U[:-p-1] < U[p+1:])
         array = nrb.array.view()
         knots = list(nrb.knots)
         #
-- 
2.43.0


From 855d974b9be820176ab1bf8858c669aec722ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 30/30] fix: refining or slicing an object with a discontinuity
 elsewhere was refused

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index e3fec04..717fa32 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1082,7 +1082,7 @@ class NURBS(object):
             tmp = np.concatenate((u, U[1:-1]))
             _, i = _np_unique(tmp, return_inverse=True)
             mult = np.bincount(i)
-            assert mult.max() <= p
+            assert mult[i[:u.size]].max() <= p
             return u
         #
         if values is None: return self
-- 
2.43.0

