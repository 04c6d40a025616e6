From 34c6ff48ccffc8561646d0ff3690efe4981539bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 01/51] fix: derivative of the clamped linear interpolation is
 0 outside [0,1]

---
 source/fortran/functions.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 3ab5965..932f0a0 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -133,7 +133,7 @@ c-----------------------------------------------------------------------
 
       else if ( type(1:1) .eq. 'l' ) then
 
-         if( phi .gt. 0.d0 .or.
+         if( phi .gt. 0.d0 .and.
      &       phi .lt. 1.d0 )then
             deriv_interp_func = 1.d0
          else
-- 
2.43.0


From 1c5683b36602739755d7a8ee118e9001758b9cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 02/51] fix: use the clamped phase in the log-cosh
 interpolation function

---
 source/fortran/functions.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 932f0a0..5f39590 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -74,7 +74,7 @@ c Moleans 2011
       else if ( type(1:1) .eq. 's' ) then
 
          phit = max( 0.d0, phi )
-         interp_func = log ( cosh (gamma*phi) )/log(cosh(gamma))
+         interp_func = log ( cosh (gamma*phit) )/log(cosh(gamma))
 
       else if ( type(1:1) .eq. 'c' ) then
 
-- 
2.43.0


From 5dd638326be67818432ad2f983d581dce1347510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 03/51] fix: second derivative of clamped interpolation
 functions vanishes where they are constant

---
 source/fortran/functions.f | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 5f39590..b43d7fe 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -199,16 +199,20 @@ c=======================================================================
 
       else if ( type(1:1) .eq. 'h' ) then
 
-         phit = max( 0.d0, min( 1.d0, phi ) )
-
-         second_deriv_interp_func =
-     &      6.d0 * ( 1.d0 - 2.d0 * phit )
+         if( phi .ge. 0.d0 .and. phi .le. 1.d0 )then
+            second_deriv_interp_func =
+     &         6.d0 * ( 1.d0 - 2.d0 * phi )
+         else
+            second_deriv_interp_func = 0.d0
+         endif
 
       else if ( type(1:1) .eq. 'w' ) then
 
-         phit = max( 0.d0, phi )
-
-         second_deriv_interp_func = 4.d0 - 6.d0 * phit
+         if( phi .ge. 0.d0 )then
+            second_deriv_interp_func = 4.d0 - 6.d0 * phi
+         else
+            second_deriv_interp_func = 0.d0
+         endif
 
       else if ( type(1:1) .eq. 'l' ) then
 
-- 
2.43.0


From 50f0bdfeafc04984da5f279b859420ba44276e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:28 +0000
Subject: [PATCH 04/51] fix: isotropic gradient at y sides averages along the
 transverse direction

---
 source/fortran/2d/grad.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/grad.m4 b/source/fortran/2d/grad.m4
index 8b49dfb..f93dd04 100644
--- a/source/fortran/2d/grad.m4
+++ b/source/fortran/2d/grad.m4
@@ -194,9 +194,9 @@ c              X component of gradient at "Y" side
 
 c              Y component of gradient at "Y" side
             grad_y_yside(i,j) = p12_dyinv * (
-     &          diff_y(i,j-1) +
+     &          diff_y(i-1,j) +
      &          diff_y(i,j)*10.d0 +
-     &          diff_y(i,j+1) )
+     &          diff_y(i+1,j) )
 
          enddo
       enddo
-- 
2.43.0


From 4f9b919f6c398e4f86d65a55d871329142f16b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 05/51] fix: derivatives of the quaternion rotation matrix
 entries (3,2) and (3,1)

---
 source/fortran/quat.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/quat.f b/source/fortran/quat.f
index cd6a21c..13d60ce 100644
--- a/source/fortran/quat.f
+++ b/source/fortran/quat.f
@@ -1367,7 +1367,7 @@ c d/dq2
 
       matrixdRdq(1,2,2)= 2.d0*q(3)
       matrixdRdq(2,2,2)=-2.d0*q(2)
-      matrixdRdq(3,2,2)= 2.d0*q(2)
+      matrixdRdq(3,2,2)= 2.d0*q(1)
 
       matrixdRdq(1,3,2)= 2.d0*q(4)
       matrixdRdq(2,3,2)=-2.d0*q(1)
@@ -1376,7 +1376,7 @@ c d/dq2
 c d/dq3
       matrixdRdq(1,1,3)=-2.d0*q(3)
       matrixdRdq(2,1,3)= 2.d0*q(2)
-      matrixdRdq(3,1,3)= 2.d0*q(1)
+      matrixdRdq(3,1,3)=-2.d0*q(1)
 
       matrixdRdq(1,2,3)= 2.d0*q(2)
       matrixdRdq(2,2,3)= 2.d0*q(3)
-- 
2.43.0


From adfe4c99978eb2f0c3b3b1df1149ce66b8529398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 06/51] fix: isotropic symmetric gradient reads the only
 component of a scalar orientation

---
 source/fortran/2d/quatgrad.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fortran/2d/quatgrad.m4 b/source/fortran/2d/quatgrad.m4
index 96f1986..4cc17ca 100644
--- a/source/fortran/2d/quatgrad.m4
+++ b/source/fortran/2d/quatgrad.m4
@@ -554,8 +554,8 @@ c                 Y component of gradient at "X" side
                
             else
 
-               d1prime(1) = diff_x(i,j-1,m)
-               d2prime(1) = diff_x(i,j+1,m)
+               d1prime(1) = diff_x(i,j-1,1)
+               d2prime(1) = diff_x(i,j+1,1)
 
             endif
 
@@ -625,8 +625,8 @@ c                 X component of gradient at "Y" side
 
             else
 
-               d1prime(1) = diff_y(i-1,j,m)
-               d2prime(1) = diff_y(i+1,j,m)
+               d1prime(1) = diff_y(i-1,j,1)
+               d2prime(1) = diff_y(i+1,j,1)
 
             endif
 
-- 
2.43.0


From 661e8fb1eabed04c21fea2ee74dd9985997f0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 07/51] fix: z-side flux of the eta right-hand side is
 dimensioned as z sides

---
 source/fortran/3d/quatrhs.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatrhs.m4 b/source/fortran/3d/quatrhs.m4
index ac7a4ac..a7dbf58 100644
--- a/source/fortran/3d/quatrhs.m4
+++ b/source/fortran/3d/quatrhs.m4
@@ -658,7 +658,7 @@ c variables in 3d side indexed
       double precision 
      &     flux0(SIDE3d0(ifirst,ilast,ngflux)),
      &     flux1(SIDE3d1(ifirst,ilast,ngflux)),
-     &     flux2(SIDE3d1(ifirst,ilast,ngflux))
+     &     flux2(SIDE3d2(ifirst,ilast,ngflux))
 c
 c***********************************************************************
 c***********************************************************************     
-- 
2.43.0


From 73de28ab69948fbc4d808f24aac98dae020834d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 08/51] fix: multi-order well derivative excludes the square of
 the parameter itself

---
 source/fortran/2d/multiorder.m4 | 3 ++-
 source/fortran/3d/multiorder.m4 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/multiorder.m4 b/source/fortran/2d/multiorder.m4
index 90f6959..a17261c 100644
--- a/source/fortran/2d/multiorder.m4
+++ b/source/fortran/2d/multiorder.m4
@@ -92,7 +92,8 @@ c  Phase energy well
                g_prime =
      &            phi(ic0,ic1,ip)*phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
      &            - phi(ic0,ic1,ip)
-               dsum = phi2sum(ic0,ic1) - phi(ic0,ic1,ip)
+               dsum = phi2sum(ic0,ic1)
+     &            - phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
                g_prime = g_prime + 2.*phi(ic0,ic1,ip)*dgamma*dsum
 
                rhs(ic0,ic1,ip) = rhs(ic0,ic1,ip) - m * g_prime
diff --git a/source/fortran/3d/multiorder.m4 b/source/fortran/3d/multiorder.m4
index a09b30c..e99a6b1 100644
--- a/source/fortran/3d/multiorder.m4
+++ b/source/fortran/3d/multiorder.m4
@@ -107,7 +107,8 @@ c  Phase energy well
                   g_prime =
      &               phi(ic0,ic1,ic2,ip)
      &               * (phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)-1.d0)
-                  dsum = phi2sum(ic0,ic1,ic2) - phi(ic0,ic1,ic2,ip)
+                  dsum = phi2sum(ic0,ic1,ic2)
+     &               - phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)
                   g_prime = g_prime + 2.*phi(ic0,ic1,ic2,ip)*dgamma*dsum
 
                   rhs(ic0,ic1,ic2,ip) = rhs(ic0,ic1,ic2,ip) - m*g_prime
-- 
2.43.0


From 04c818f24b5f166a7be5c43afc185b93026f23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:26 +0000
Subject: [PATCH 09/51] fix: z-side spinodal flux goes to the z sides

---
 source/fortran/3d/concentrationrhs.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index 54acfec..b4d6812 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -381,14 +381,14 @@ c      print*,kappa
          do ic2 = ifirst2, ilast2+1
          do ic1 = ifirst1, ilast1
          do ic0 = ifirst0, ilast0
-            flux1(ic0,ic1,ic2,ic) = 0.d0
+            flux2(ic0,ic1,ic2,ic) = 0.d0
             do jc = 1, ncomp
                ijc=ic+(jc-1)*ncomp
                sideca = 0.5*(
      &            conca(ic0,ic1,ic2-1,jc)+conca(ic0,ic1,ic2,jc) )
                sidecb = 0.5*(
      &            concb(ic0,ic1,ic2-1,jc)+concb(ic0,ic1,ic2,jc) )
-               flux2(ic0,ic1,ic2,ic) = flux1(ic0,ic1,ic2,ic)
+               flux2(ic0,ic1,ic2,ic) = flux2(ic0,ic1,ic2,ic)
      &         + dzinv*(
      &           diffconc2(ic0,ic1,ic2,ijc) *
      &           ( conc(ic0,ic1,ic2,jc) - conc(ic0,ic1,ic2-1,jc) )
-- 
2.43.0


From 7b81ef1d8f13ed9d2ad179322d1fc89227b13ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:26 +0000
Subject: [PATCH 10/51] fix: multi-order antitrapping at z sides uses the z
 neighbours and the z direction

---
 source/fortran/3d/concentrationrhs.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index b4d6812..c302c3d 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -1127,7 +1127,7 @@ c loop over solid order parameters
      &                           +phase(ic0  ,ic1,  ic2,  ip))
                      dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
                      dphipy = dphipy + dyinv*0.25d0*(vpp+vmp-vpm-vmm)
-                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
+                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1,ic2-1,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
                   dphip2 = dphipx*dphipx+dphipy*dphipy
@@ -1135,7 +1135,7 @@ c loop over solid order parameters
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
                      flux2(ic0,ic1,ic2) = flux2(ic0,ic1,ic2) -
-     &                  alpha*(dphiy/dphin)*(ac(1)-ac(2))*dpdt
+     &                  alpha*(dphiz/dphin)*(ac(1)-ac(2))*dpdt
                   endif
                endif
             enddo
-- 
2.43.0


From 4fde7d60ed7a0a935b616a40358b4880a31f8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:35 +0000
Subject: [PATCH 11/51] fix: 3d multi-order antitrapping takes centred
 gradients at the sides

---
 source/fortran/3d/concentrationrhs.m4 | 82 +++++++++++++--------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index c302c3d..24073cd 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -976,12 +976,12 @@ c compute gradient liquid phase first
      &                       - phase(ic0-1,ic1,ic2,norderp) )
                vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
      &                     +phase(ic0  ,ic1-1,ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1-1,ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
+               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2+1,norderp)
+     &                     +phase(ic0,ic1-1,ic2+1,norderp))
+               vpm = 0.5d0*(phase(ic0-1,ic1+1,ic2-1,norderp)
+     &                     +phase(ic0,ic1+1,ic2-1,norderp))
+               vpp = 0.5d0*(phase(ic0-1,ic1+1,ic2+1,norderp)
+     &                     +phase(ic0,ic1+1,ic2+1,norderp))
                dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
                dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
 
@@ -1003,18 +1003,18 @@ c loop over solid order parameters
      &                                       -phase(ic0-1,ic1,ic2,ip))
                      vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
      &                           +phase(ic0  ,ic1-1,ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1-1,ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2+1,ip)
+     &                           +phase(ic0,ic1-1,ic2+1,ip))
+                     vpm = 0.5d0*(phase(ic0-1,ic1+1,ic2-1,ip)
+     &                           +phase(ic0,ic1+1,ic2-1,ip))
+                     vpp = 0.5d0*(phase(ic0-1,ic1+1,ic2+1,ip)
+     &                           +phase(ic0,ic1+1,ic2+1,ip))
+                     dphipy = dphipy + dyinv*0.25d0*(vpp+vpm-vmm-vmp)
+                     dphipz = dphipz + dzinv*0.25d0*(vpp+vmp-vpm-vmm)
                      dpdt = dpdt + 0.5d0*( dphidt(ic0-1,ic1,ic2,ip)
      &                                    +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphiz*dphiz
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
@@ -1035,12 +1035,12 @@ c compute gradient liquid phase first
      &                         - phase(ic0,ic1-1,ic2,norderp) )
                vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
      &                     +phase(ic0-1,ic1,  ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
+               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2+1,norderp)
+     &                     +phase(ic0-1,ic1,ic2+1,norderp))
+               vpm = 0.5d0*(phase(ic0+1,ic1-1,ic2-1,norderp)
+     &                     +phase(ic0+1,ic1,ic2-1,norderp))
+               vpp = 0.5d0*(phase(ic0+1,ic1-1,ic2+1,norderp)
+     &                     +phase(ic0+1,ic1,ic2+1,norderp))
                dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
                dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
@@ -1061,18 +1061,18 @@ c loop over solid order parameters
      &                                       - phase(ic0,ic1-1,ic2,ip) )
                      vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
      &                           +phase(ic0-1,ic1,  ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
+                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2+1,ip)
+     &                           +phase(ic0-1,ic1,ic2+1,ip))
+                     vpm = 0.5d0*(phase(ic0+1,ic1-1,ic2-1,ip)
+     &                           +phase(ic0+1,ic1,ic2-1,ip))
+                     vpp = 0.5d0*(phase(ic0+1,ic1-1,ic2+1,ip)
+     &                           +phase(ic0+1,ic1,ic2+1,ip))
                      dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
                      dphipz = dphipz + dzinv*0.25d0*(vpp+vmp-vpm-vmm)
                      dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
@@ -1093,12 +1093,12 @@ c compute gradient liquid phase first
      &                         - phase(ic0,ic1,ic2-1,norderp) )
                vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
      &                     +phase(ic0-1,ic1-1,ic2,  norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1-1,ic2,  norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
+               vmp = 0.5d0*(phase(ic0-1,ic1+1,ic2-1,norderp)
+     &                     +phase(ic0-1,ic1+1,ic2,norderp))
+               vpm = 0.5d0*(phase(ic0+1,ic1-1,ic2-1,norderp)
+     &                     +phase(ic0+1,ic1-1,ic2,norderp))
+               vpp = 0.5d0*(phase(ic0+1,ic1+1,ic2-1,norderp)
+     &                     +phase(ic0+1,ic1+1,ic2,norderp))
                dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
                dphiy = dyinv*0.25d0*(vpp+vmp-vpm-vmm)
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
@@ -1119,18 +1119,18 @@ c loop over solid order parameters
      &                                       - phase(ic0,ic1,ic2-1,ip) )
                      vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
      &                           +phase(ic0-1,ic1-1,ic2,  ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1-1,ic2,  ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
+                     vmp = 0.5d0*(phase(ic0-1,ic1+1,ic2-1,ip)
+     &                           +phase(ic0-1,ic1+1,ic2,ip))
+                     vpm = 0.5d0*(phase(ic0+1,ic1-1,ic2-1,ip)
+     &                           +phase(ic0+1,ic1-1,ic2,ip))
+                     vpp = 0.5d0*(phase(ic0+1,ic1+1,ic2-1,ip)
+     &                           +phase(ic0+1,ic1+1,ic2,ip))
                      dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
                      dphipy = dphipy + dyinv*0.25d0*(vpp+vmp-vpm-vmm)
                      dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1,ic2-1,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
-- 
2.43.0


From ea366af443741a2e87bc09d0b94279fb3f867d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 12/51] fix: multi-phase diffusion weights the liquid with its
 average over both cells of a side

---
 source/fortran/2d/concentrationdiffusion.m4 | 2 +-
 source/fortran/3d/concentrationdiffusion.m4 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index da11f8b..27a6b11 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -502,7 +502,7 @@ c
             phis = interp_func( vphi, interp_type )
 
             vphi = average_func(
-     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1-1,nphi), avg_type )
+     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1,nphi), avg_type )
             phil = interp_func( vphi, interp_type )
 
             invT = 2.0d0 / ( temp(ic0,ic1-1) + temp(ic0,ic1) )
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 1e18855..b54ddb9 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1000,7 +1000,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
@@ -1027,7 +1027,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
-- 
2.43.0


From af132b1e4b59de74d44adfe831c843b6e9c52380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 13/51] fix: z-side three-phase diffusion sums all phase B
 order parameters

---
 source/fortran/3d/concentrationdiffusion.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index b54ddb9..79391d2 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -573,7 +573,7 @@ c
 
                vphi = 0.d0
                do ip = 1, nphiB
-                  vphi = average_func(
+                  vphi = vphi + average_func(
      &               phiB(ic0,ic1,ic2-1,ip), phiB(ic0,ic1,ic2,ip),
      &               avg_type )
                enddo
-- 
2.43.0


From 8d4f868bf938ada6148b50a9782224537f6736cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 14/51] fix: red-black relaxation colours cells by the parity
 of their indices

In 2d the colour used jfirst instead of ifirst, so that neighbouring patches could
disagree on the colour of a cell; in 2d and 3d a negative odd index sum matched
neither colour and half of the cells of the row were never relaxed.
---
 source/fortran/2d/ellipticfacops.m4 | 8 ++++----
 source/fortran/3d/ellipticfacops.m4 | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index fb09065..675b0af 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -107,7 +107,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -178,7 +178,7 @@ c      print*,'efo_rbgswithfluxmaxcondcvarsf2d'
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -250,7 +250,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -319,7 +319,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index 11d48f7..a978239 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -150,7 +150,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -238,7 +238,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -332,7 +332,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -418,7 +418,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
-- 
2.43.0


From 60681919389acd2e2c18f98b0185baa18d348b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 15/51] fix: FAC residual is dimensioned with its own ghost
 width

---
 source/fortran/2d/ellipticfacops.m4 |  8 ++++----
 source/fortran/3d/ellipticfacops.m4 | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index 675b0af..35bd4cf 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -368,8 +368,8 @@ c***********************************************************************
      &                      jfirst-solngj:jlast+solngj)
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj)
       double precision scalar_field(ifirst-sfgi:ilast+sfgi,
      &                              jfirst-sfgj:jlast+sfgj)
       double precision dx(0:1)
@@ -419,8 +419,8 @@ c***********************************************************************
      &                      jfirst-solngj:jlast+solngj)
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj)
       double precision scalar_field
       double precision dx(0:1)
 
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index a978239..b280063 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -479,9 +479,9 @@ c***********************************************************************
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj,
      &                     kfirst-rhsgk:klast+rhsgk)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj,
-     &                          kfirst-rhsgk:klast+rhsgk)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj,
+     &                          kfirst-residualgk:klast+residualgk)
       double precision scalar_field(ifirst-sfgi:ilast+sfgi,
      &                              jfirst-sfgj:jlast+sfgj,
      &                              kfirst-sfgk:klast+sfgk)
@@ -544,9 +544,9 @@ c***********************************************************************
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj,
      &                     kfirst-rhsgk:klast+rhsgk)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj,
-     &                          kfirst-rhsgk:klast+rhsgk)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj,
+     &                          kfirst-residualgk:klast+residualgk)
       double precision scalar_field
       double precision dx(0:2)
 
-- 
2.43.0


From edb230371ea6f0c59833754c9d8f31e601c7d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 16/51] fix: side gradients pass the ghost widths grad_side
 expects, not ghost boxes

---
 source/HierarchyStencilOps.cc | 21 ++-------------------
 source/fortran/QuatFort.h     | 13 ++-----------
 2 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/source/HierarchyStencilOps.cc b/source/HierarchyStencilOps.cc
index 1101181..48776c4 100644
--- a/source/HierarchyStencilOps.cc
+++ b/source/HierarchyStencilOps.cc
@@ -52,14 +52,6 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
    assert(grad_side_data->getGhostCellWidth() ==
           hier::IntVector(tbox::Dimension(NDIM), 0));
 
-   const hier::Box& diff_gbox = diff_data->getGhostBox();
-   const hier::Index& d_lower = diff_gbox.lower();
-   const hier::Index& d_upper = diff_gbox.upper();
-
-   const hier::Box& grad_gbox = grad_side_data->getGhostBox();
-   const hier::Index& g_lower = grad_gbox.lower();
-   const hier::Index& g_upper = grad_gbox.upper();
-
    std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
        SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
                               hier::PatchGeometry>(patch->getPatchGeometry()));
@@ -78,11 +70,7 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
 #if (NDIM == 3)
              diff_data->getPointer(2),
 #endif
-             d_lower[0], d_upper[0], d_lower[1], d_upper[1],
-#if (NDIM == 3)
-             d_lower[2], d_upper[2],
-#endif
-             dx,
+             diff_data->getGhostCellWidth()[0], dx,
              grad_side_data->getPointer(0, 0),  // side 0, depth 0 (x component)
              grad_side_data->getPointer(0, 1),  // side 0, depth 1 (y component)
 #if (NDIM == 3)
@@ -96,12 +84,7 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
              grad_side_data->getPointer(2, 0), grad_side_data->getPointer(2, 1),
              grad_side_data->getPointer(2, 2),
 #endif
-             g_lower[0], g_upper[0], g_lower[1], g_upper[1]
-#if (NDIM == 3)
-             ,
-             g_lower[2], g_upper[2]
-#endif
-   );
+             grad_side_data->getGhostCellWidth()[0]);
 }
 
 void HierarchyStencilOps::computeDiffs(
diff --git a/source/fortran/QuatFort.h b/source/fortran/QuatFort.h
index 7dae89e..c501d01 100644
--- a/source/fortran/QuatFort.h
+++ b/source/fortran/QuatFort.h
@@ -269,11 +269,7 @@ void GRAD_SIDE(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
                const double*,
 #endif
-               const int&, const int&, const int&, const int&,
-#if (NDIM == 3)
-               const int&, const int&,
-#endif
-               const double*, const double*, const double*,
+               const int&, const double*, const double*, const double*,
 #if (NDIM == 3)
                const double*,
 #endif
@@ -281,12 +277,7 @@ void GRAD_SIDE(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
                const double*, const double*, const double*, const double*,
 #endif
-               const int&, const int&, const int&, const int&
-#if (NDIM == 3)
-               ,
-               const int&, const int&
-#endif
-);
+               const int&);
 
 void GRAD_SIDE_ISOTROPIC(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
-- 
2.43.0


From c27533f272fb57d084d24870dc47934cb627ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:11 +0000
Subject: [PATCH 17/51] fix: CALPHADMobility: a first order parameter of three
 coefficients left the fourth uninitialised

---
 source/CALPHADMobility.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/CALPHADMobility.cc b/source/CALPHADMobility.cc
index 4582bb4..306d2d5 100644
--- a/source/CALPHADMobility.cc
+++ b/source/CALPHADMobility.cc
@@ -47,7 +47,7 @@ void CALPHADMobility::initialize(std::shared_ptr<tbox::Database> db)
          assert(n >= 2);
          assert(n <= 4);
 
-         double tmp[4];
+         double tmp[4] = {0., 0., 0., 0.};
          db->getDoubleArray(*it, &tmp[0], n);
          double_pair tmpp(tmp[0], tmp[1]);
          d_q[index_map[*(it->c_str() + 1)]] = tmpp;
-- 
2.43.0


From 09f63b7783ff2416253111bdd491f303572f7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 18/51] fix: TemperatureHistory: the first position of the
 table underflowed the interval index

---
 source/TemperatureHistory.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/TemperatureHistory.cc b/source/TemperatureHistory.cc
index d6033b3..b1acdc7 100644
--- a/source/TemperatureHistory.cc
+++ b/source/TemperatureHistory.cc
@@ -112,7 +112,8 @@ int TemperatureHistory::getTandGradT(const double time, const double position,
       else
          break;
    }
-   ipos--;
+   // a position equal to the first one belongs to the first interval
+   if (ipos > 0) ipos--;
    if ((ipos + 1) >= d_positions.size()) {
       d_os << "Position " << position
            << " is beyond range defined in TemperatureHistory" << std::endl;
-- 
2.43.0


From 9bdad6842329ca5aa6b80085af34ea137e046a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 19/51] fix: a gaussian temperature profile of constant
 amplitude did not follow its velocity

---
 source/GaussianTemperatureStrategy.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/GaussianTemperatureStrategy.cc b/source/GaussianTemperatureStrategy.cc
index d3eb95c..ded7aa5 100644
--- a/source/GaussianTemperatureStrategy.cc
+++ b/source/GaussianTemperatureStrategy.cc
@@ -129,7 +129,11 @@ void GaussianTemperatureStrategy::setCurrentTemperature(
       }
    }
 
-   if (d_dtemperaturedt != 0.0 || time == 0.0) {
+   bool moving = false;
+   for (short d = 0; d < NDIM; d++)
+      if (d_velocity[d] != 0.0) moving = true;
+
+   if (d_dtemperaturedt != 0.0 || moving || time == 0.0) {
 
       double tgaussian = getCurrentTemperature(time);
 
-- 
2.43.0


From 6880a0cb9e043c25a7fa514346866c5323e6a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 20/51] fix: constant heat capacity was set once per process,
 leaving zero on levels made by a regrid

---
 source/ConstantHeatCapacityStrategy.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/source/ConstantHeatCapacityStrategy.cc b/source/ConstantHeatCapacityStrategy.cc
index 8bf827b..cc2d285 100644
--- a/source/ConstantHeatCapacityStrategy.cc
+++ b/source/ConstantHeatCapacityStrategy.cc
@@ -25,12 +25,7 @@ void ConstantHeatCapacityStrategy::setCurrentValue(
 {
    assert(d_cp_id >= 0);
 
-   static bool first_time = true;
-
-   if (first_time) {
-      math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
-      mathops.setToScalar(d_cp_id, d_cp);
-   }
-
-   first_time = false;
+   // every time, since a regrid allocates (and zeroes) the data of new levels
+   math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
+   mathops.setToScalar(d_cp_id, d_cp);
 }
-- 
2.43.0


From 0b156b19ad78499394d295189feb648287565d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:53 +0000
Subject: [PATCH 21/51] fix: add the energies of all patches and levels in the
 reported totals

---
 source/fortran/2d/quatenergy.m4 | 3 ---
 source/fortran/3d/quatenergy.m4 | 5 -----
 2 files changed, 8 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index e8d388b..18e5095 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -375,7 +375,6 @@ c                 factor 0.25 because of cell average and double counting
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do j = lo1, hi1
             do i = lo0, hi0
@@ -431,7 +430,6 @@ c
       integer i, j
       double precision interp_func
 
-      total_free_e = 0.d0
 
       do j = lo1, hi1
          do i = lo0, hi0
@@ -530,7 +528,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do j = lo1, hi1
                do i = lo0, hi0
                   e = phi(i,j,p1)*phi(i,j,p1)
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index b9684ce..9cf4d55 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -331,7 +331,6 @@ c
 c Orientational energy: average over 2 cell faces in each direction
 c
       if ( misorientation_factor .gt. 0.d0 ) then
-         total_orient_e = 0.d0
          do k = lo2, hi2
             do j = lo1, hi1
                do i = lo0, hi0
@@ -426,7 +425,6 @@ c        factor 1/6 because of cell averaging
 c
 c q interface energy
 c
-         total_qint_e = 0.d0
          epsilonq2 = 0.5d0 * epsilon_q * epsilon_q
          do k = lo2, hi2
             do j = lo1, hi1
@@ -462,7 +460,6 @@ c                 factor 1/6 because of cell average
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do k = lo2, hi2
             do j = lo1, hi1
@@ -520,7 +517,6 @@ c
       integer i, j, k
       double precision interp_func
 
-      total_free_e = 0.d0
 
        do k = lo2, hi2
           do j = lo1, hi1
@@ -626,7 +622,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do k = lo2, hi2
                do j = lo1, hi1
                   do i = lo0, hi0
-- 
2.43.0


From 30c15b424c2b2494243f521f4c15666bb58c54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:06 +0000
Subject: [PATCH 22/51] fix: apply the gradient floor to the upper y face of
 the 3D orientation energy

---
 source/fortran/3d/quatenergy.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index 9cf4d55..096fbd2 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -382,8 +382,8 @@ c
                         o2 = o2 + gqy(i,j+1,k,m,n) * gqy(i,j+1,k,m,n)
                      enddo
                   enddo
-                  e = e + sqrt(o2) * p_phi
                   o2 = o2 + floor2
+                  e = e + sqrt(o2) * p_phi
 c
                   aphi = average_func(phi(i,j,k,1),phi(i,j,k-1,1),
      &                                   avg_type)
-- 
2.43.0


From 849199d287402184e49d31e25b3e3e8d3fc58df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:12 +0000
Subject: [PATCH 23/51] fix: scale the whole ternary Hessian of the quadratic
 free energy by the molar volume

---
 ...uadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc b/source/QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc
index e9d11f1..bb1579c 100644
--- a/source/QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc
+++ b/source/QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc
@@ -565,7 +565,7 @@ void QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase::
    d_quadratic_fenergy->computeSecondDerivativeFreeEnergy(
        0., &c_l[0], Thermo4PFM::PhaseIndex::phaseL, &d2fdc2[0]);
    if (use_internal_units)
-      for (short i = 0; i < 3; i++)
+      for (short i = 0; i < 4; i++)
          d2fdc2[i] *= d_energy_conv_factor_L;
 }
 
@@ -579,7 +579,7 @@ void QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase::
    d_quadratic_fenergy->computeSecondDerivativeFreeEnergy(
        0., &c_a[0], Thermo4PFM::PhaseIndex::phaseA, &d2fdc2[0]);
    if (use_internal_units)
-      for (short i = 0; i < 3; i++)
+      for (short i = 0; i < 4; i++)
          d2fdc2[i] *= d_energy_conv_factor_A;
 }
 
@@ -593,6 +593,6 @@ void QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase::
    d_quadratic_fenergy->computeSecondDerivativeFreeEnergy(
        0., &c_b[0], Thermo4PFM::PhaseIndex::phaseB, &d2fdc2[0]);
    if (use_internal_units)
-      for (short i = 0; i < 3; i++)
+      for (short i = 0; i < 4; i++)
          d2fdc2[i] *= d_energy_conv_factor_B;
 }
-- 
2.43.0


From 27e0e5373c0a840b6b53bd2256cdd26632ba8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 24/51] fix: call the base class when setting diffusion
 coefficients with thermal transport

---
 source/EBSCompositionRHSStrategyWithGradT.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/EBSCompositionRHSStrategyWithGradT.cc b/source/EBSCompositionRHSStrategyWithGradT.cc
index 4d917b4..a5b9a5c 100644
--- a/source/EBSCompositionRHSStrategyWithGradT.cc
+++ b/source/EBSCompositionRHSStrategyWithGradT.cc
@@ -64,7 +64,7 @@ void EBSCompositionRHSStrategyWithGradT::setDiffusionCoeff(
                          d_conc_b_scratch_id, d_temperature_scratch_id);
 
 
-   this->setDiffusionCoeff(hierarchy, time);
+   EBSCompositionRHSStrategy::setDiffusionCoeff(hierarchy, time);
 }
 
 void EBSCompositionRHSStrategyWithGradT::setDiffusionCoeffForT(
-- 
2.43.0


From b7c21ab97686b5989fc4f70b7a26c987541de3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 25/51] fix: average the partition coefficient across the face
 in y and z (Beckermann)

---
 source/BeckermannCompositionRHSStrategy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/BeckermannCompositionRHSStrategy.cc b/source/BeckermannCompositionRHSStrategy.cc
index ef77481..a29448f 100644
--- a/source/BeckermannCompositionRHSStrategy.cc
+++ b/source/BeckermannCompositionRHSStrategy.cc
@@ -328,7 +328,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
 
             const int idx_k =
                 (ii - imin_k) + (jj - jmin_k) * jp_k + (kk - kmin_k) * kp_k;
-            const int idxm1_k = idx_k - 1;
+            const int idxm1_k = idx_k - jp_k;
 
             // double phi = 0.5 * ( ptr_phi[idx_pf] + ptr_phi[idxm1_pf] );
             double phi = average(ptr_phi[idx_pf], ptr_phi[idxm1_pf]);
@@ -366,7 +366,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
 
                const int idx_k =
                    (ii - imin_k) + (jj - jmin_k) * jp_k + (kk - kmin_k) * kp_k;
-               const int idxm1_k = idx_k - 1;
+               const int idxm1_k = idx_k - kp_k;
 
                // double phi = 0.5 * ( ptr_phi[idx_pf] + ptr_phi[idxm1_pf] );
                double phi = average(ptr_phi[idx_pf], ptr_phi[idxm1_pf]);
-- 
2.43.0


From 76bd84816460905258c0f0bfc0fb4ab6d21306cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 26/51] fix: index the concentration with its own ghost box
 (Beckermann)

---
 source/BeckermannCompositionRHSStrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/BeckermannCompositionRHSStrategy.cc b/source/BeckermannCompositionRHSStrategy.cc
index a29448f..8a2c444 100644
--- a/source/BeckermannCompositionRHSStrategy.cc
+++ b/source/BeckermannCompositionRHSStrategy.cc
@@ -249,7 +249,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
    kp_k = jp_k * k_gbox.numberCells(1);
 #endif
 
-   const hier::Box& c_i_gbox = cd_k->getGhostBox();
+   const hier::Box& c_i_gbox = cd_c->getGhostBox();
    int imin_c_i = c_i_gbox.lower(0);
    int jmin_c_i = c_i_gbox.lower(1);
    int jp_c_i = c_i_gbox.numberCells(0);
-- 
2.43.0


From 371a63b3f05a99c5b1b3dcb12a962a30f8087ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:55 +0000
Subject: [PATCH 27/51] fix: initialize the members of the composition strategy
 with thermal transport

---
 source/EBSCompositionRHSStrategyWithGradT.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/EBSCompositionRHSStrategyWithGradT.cc b/source/EBSCompositionRHSStrategyWithGradT.cc
index a5b9a5c..d5ff544 100644
--- a/source/EBSCompositionRHSStrategyWithGradT.cc
+++ b/source/EBSCompositionRHSStrategyWithGradT.cc
@@ -43,7 +43,18 @@ EBSCompositionRHSStrategyWithGradT::EBSCompositionRHSStrategyWithGradT(
                                 diffusion_l_id, diffusion_a_id, diffusion_b_id,
                                 diffusion_precond_id, avg_func_type,
                                 free_energy_strategy,
-                                diffusion_for_conc_in_phase, "regular")
+                                diffusion_for_conc_in_phase, "regular"),
+      d_ncompositions(ncompositions),
+      d_phase_scratch_id(phase_scratch_id),
+      d_eta_scratch_id(eta_scratch_id),
+      d_conc_l_scratch_id(conc_l_scratch_id),
+      d_conc_a_scratch_id(conc_a_scratch_id),
+      d_conc_b_scratch_id(conc_b_scratch_id),
+      d_temperature_scratch_id(temperature_scratch_id),
+      d_with_three_phases(eta_scratch_id >= 0),
+      d_with_diffusion_for_preconditioner(!diffusion_precond_id.empty()),
+      d_diffusion_precond_id(diffusion_precond_id),
+      d_mobilities_strategy(mobilities_strategy)
 {
    assert(Mq_id >= 0);
    assert(Q_heat_transport.size() > 0);
-- 
2.43.0


From 8c1c2610668576ab95842959f2cde575edad9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:56 +0000
Subject: [PATCH 28/51] fix: store ternary diffusion matrices by columns as the
 flux kernels read them

---
 source/MobilityCompositionDiffusionStrategy.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/MobilityCompositionDiffusionStrategy.cc b/source/MobilityCompositionDiffusionStrategy.cc
index 913b2fc..57eebd7 100644
--- a/source/MobilityCompositionDiffusionStrategy.cc
+++ b/source/MobilityCompositionDiffusionStrategy.cc
@@ -16,14 +16,16 @@
 #include <vector>
 
 
+// c = a*b for symmetric matrices a and b, with c stored by columns (as the
+// concentration flux kernels take it)
 void small_mat_mult(const short n, const double* const a, const double* const b,
                     double* c)
 {
    for (short k = 0; k < n; k++)
       for (short i = 0; i < n; i++) {
-         c[n * k + i] = 0.;
+         c[n * i + k] = 0.;
          for (short j = 0; j < n; j++)
-            c[n * k + i] += a[n * k + j] * b[n * j + i];
+            c[n * i + k] += a[n * k + j] * b[n * j + i];
       }
 }
 
-- 
2.43.0


From d7a0284283a8d526e40845be485f0d49c67f6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:35 +0000
Subject: [PATCH 29/51] fix: do not query the third axis of the patch geometry
 in 2D

---
 source/CALPHADequilibriumPhaseConcentrationsStrategy.cc | 2 ++
 source/EBSCompositionRHSStrategy.cc                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/CALPHADequilibriumPhaseConcentrationsStrategy.cc b/source/CALPHADequilibriumPhaseConcentrationsStrategy.cc
index 2cb6f4f..62876d1 100644
--- a/source/CALPHADequilibriumPhaseConcentrationsStrategy.cc
+++ b/source/CALPHADequilibriumPhaseConcentrationsStrategy.cc
@@ -312,12 +312,14 @@ int CALPHADequilibriumPhaseConcentrationsStrategy<FreeEnergyType>::
       if (pg->getTouchesRegularBoundary(1, 1)) {
          imax[1]--;
       }
+#if (NDIM == 3)
       if (pg->getTouchesRegularBoundary(2, 0)) {
          imin[2]++;
       }
       if (pg->getTouchesRegularBoundary(2, 1)) {
          imax[2]--;
       }
+#endif
    }
 
    int nits = 0;
diff --git a/source/EBSCompositionRHSStrategy.cc b/source/EBSCompositionRHSStrategy.cc
index 2232f8d..3c33fa7 100644
--- a/source/EBSCompositionRHSStrategy.cc
+++ b/source/EBSCompositionRHSStrategy.cc
@@ -247,12 +247,14 @@ void EBSCompositionRHSStrategy::computeFluxOnPatch(hier::Patch& patch,
    if (pg->getTouchesRegularBoundary(1, 1)) {
       physbc[3] = 1;
    }
+#if (NDIM == 3)
    if (pg->getTouchesRegularBoundary(2, 0)) {
       physbc[4] = 1;
    }
    if (pg->getTouchesRegularBoundary(2, 1)) {
       physbc[5] = 1;
    }
+#endif
 
 
    // now add components of concentration flux,
-- 
2.43.0


From 397877c44be913502e1936fd66aaa479a62d0ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:35 +0000
Subject: [PATCH 30/51] fix: NewtonSolver database is optional for the Aziz
 partition coefficient

---
 source/AzizPartitionCoefficientStrategy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/AzizPartitionCoefficientStrategy.cc b/source/AzizPartitionCoefficientStrategy.cc
index 168fdd3..615ea25 100644
--- a/source/AzizPartitionCoefficientStrategy.cc
+++ b/source/AzizPartitionCoefficientStrategy.cc
@@ -51,7 +51,7 @@ AzizPartitionCoefficientStrategy<Thermo4PFM::CALPHADFreeEnergyFunctionsBinary>::
    pt::ptree calphad_pt;
    copyDatabase(calphad_db, calphad_pt);
    pt::ptree newton_pt;
-   copyDatabase(newton_db, newton_pt);
+   if (newton_db) copyDatabase(newton_db, newton_pt);
 
    d_fenergy = std::unique_ptr<Thermo4PFM::CALPHADFreeEnergyFunctionsBinary>(
        new Thermo4PFM::CALPHADFreeEnergyFunctionsBinary(calphad_pt, newton_pt,
@@ -89,7 +89,7 @@ AzizPartitionCoefficientStrategy<
    pt::ptree calphad_pt;
    copyDatabase(calphad_db, calphad_pt);
    pt::ptree newton_pt;
-   copyDatabase(newton_db, newton_pt);
+   if (newton_db) copyDatabase(newton_db, newton_pt);
 
    d_fenergy = std::unique_ptr<Thermo4PFM::CALPHADFreeEnergyFunctionsTernary>(
        new Thermo4PFM::CALPHADFreeEnergyFunctionsTernary(
-- 
2.43.0


From b076521485528f4384bc01c85452428dbc76216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:41 +0000
Subject: [PATCH 31/51] fix: set the diffusion coefficients of the Beckermann
 composition model

---
 source/QuatIntegrator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 594e1bd..675503b 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -41,6 +41,7 @@
 #include "MultiOrderRHSStrategy.h"
 #include "SinteringUWangRHSStrategy.h"
 #include "WangSinteringCompositionRHSStrategy.h"
+#include "BeckermannCompositionRHSStrategy.h"
 
 #include "SAMRAI/tbox/TimerManager.h"
 #include "SAMRAI/geom/CartesianPatchGeometry.h"
@@ -2421,6 +2422,13 @@ void QuatIntegrator::setDiffusionCoeffForConcentration(
       ws_rhs->setDiffusionCoeff(hierarchy, time);
    }
 
+   std::shared_ptr<BeckermannCompositionRHSStrategy> beckermann_rhs =
+       std::dynamic_pointer_cast<BeckermannCompositionRHSStrategy>(
+           d_composition_rhs_strategy);
+   if (beckermann_rhs) {
+      beckermann_rhs->setDiffusionCoeff(hierarchy, time);
+   }
+
    for (int amr_level = hierarchy->getFinestLevelNumber() - 1; amr_level >= 0;
         amr_level--) {
       d_conc_diffusion_coarsen_schedule[amr_level]->coarsenData();
-- 
2.43.0


From a784efd58c96c4b261a9011a528decea54133a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:54 +0000
Subject: [PATCH 32/51] fix: use the mesh spacing of the patch in the fluxes of
 the elliptic operator

---
 source/EllipticFACOps.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/EllipticFACOps.cc b/source/EllipticFACOps.cc
index 03ae99d..fd9f173 100644
--- a/source/EllipticFACOps.cc
+++ b/source/EllipticFACOps.cc
@@ -1247,10 +1247,9 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
 
    const int patch_ln = patch.getPatchLevelNumber();
    const hier::GlobalId id = patch.getGlobalId();
-   std::shared_ptr<geom::CartesianGridGeometry> patch_geom(
-       SAMRAI_SHARED_PTR_CAST<geom::CartesianGridGeometry,
-                              hier::BaseGridGeometry>(
-           d_hierarchy->getGridGeometry()));
+   std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
+       SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
+                              hier::PatchGeometry>(patch.getPatchGeometry()));
    const double *dx = patch_geom->getDx();
    const hier::Box &patch_box(patch.getBox());
    const hier::Index &plower = patch_box.lower();
@@ -1955,10 +1954,9 @@ void EllipticFACOps::computeFluxOnPatch(
    TBOX_ASSERT(w_data.getDepth() > depth);
    TBOX_ASSERT(Dgradw_data.getDepth() > depth);
 
-   std::shared_ptr<geom::CartesianGridGeometry> patch_geom(
-       SAMRAI_SHARED_PTR_CAST<geom::CartesianGridGeometry,
-                              hier::BaseGridGeometry>(
-           d_hierarchy->getGridGeometry()));
+   std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
+       SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
+                              hier::PatchGeometry>(patch.getPatchGeometry()));
    TBOX_ASSERT(patch_geom);
    const hier::Box &box = patch.getBox();
    const int *lower = &box.lower()[0];
-- 
2.43.0


From 4cf745bca704fe337c05e448aa9ff39e2bdcc254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:54 +0000
Subject: [PATCH 33/51] fix: use the coefficients of each component in the
 coarse-fine flux correction

---
 source/EllipticFACOps.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/EllipticFACOps.cc b/source/EllipticFACOps.cc
index fd9f173..f34474e 100644
--- a/source/EllipticFACOps.cc
+++ b/source/EllipticFACOps.cc
@@ -1267,11 +1267,11 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
    const double *flux2 = flux_data.getPointer(2, depth);
 #endif
 
-   if (d_poisson_spec[0].dIsVariable()) {
+   if (d_poisson_spec[depth].dIsVariable()) {
 
       std::shared_ptr<pdat::SideData<double> > diffcoef_data(
           SAMRAI_SHARED_PTR_CAST<pdat::SideData<double>, hier::PatchData>(
-              patch.getPatchData(d_poisson_spec[0].getDPatchDataId())));
+              patch.getPatchData(d_poisson_spec[depth].getDPatchDataId())));
 
       for (bn = 0; bn < nboxes; ++bn) {
          const hier::BoundaryBox &boundary_box = bboxes[bn];
@@ -1311,7 +1311,7 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
       }
    } else {
 
-      const double diffcoef_constant = d_poisson_spec[0].getDConstant();
+      const double diffcoef_constant = d_poisson_spec[depth].getDConstant();
 
       for (bn = 0; bn < nboxes; ++bn) {
          const hier::BoundaryBox &boundary_box = bboxes[bn];
-- 
2.43.0


From 7bb2c555fb7ee930aa32f228c09086d9a34edb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:55 +0000
Subject: [PATCH 34/51] fix: double precision weights in the coarse-fine ghost
 interpolation of the FAC operators

---
 source/fortran/2d/ellipticfacops.m4 | 16 ++++++++--------
 source/fortran/2d/quatfacops.m4     |  8 ++++----
 source/fortran/3d/ellipticfacops.m4 | 24 ++++++++++++------------
 source/fortran/3d/quatfacops.m4     | 12 ++++++------
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index 35bd4cf..b41536c 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -582,7 +582,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = bupper(0)
@@ -600,7 +600,7 @@ c        min i edge
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = blower(0)
@@ -618,7 +618,7 @@ c        max i edge
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = bupper(1)
@@ -636,7 +636,7 @@ c        min j edge
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = blower(1)
@@ -696,7 +696,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = bupper(0)
@@ -714,7 +714,7 @@ c     write(*,*) i, j, jq, jp
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = blower(0)
@@ -731,7 +731,7 @@ c        max i edge
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = bupper(1)
@@ -748,7 +748,7 @@ c        min j edge
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = blower(1)
diff --git a/source/fortran/2d/quatfacops.m4 b/source/fortran/2d/quatfacops.m4
index 5819ffe..c3d9950 100644
--- a/source/fortran/2d/quatfacops.m4
+++ b/source/fortran/2d/quatfacops.m4
@@ -854,7 +854,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = bupper(0)
@@ -874,7 +874,7 @@ c        min i edge
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i edge
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          igho = blower(0)
@@ -894,7 +894,7 @@ c        max i edge
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = bupper(1)
@@ -914,7 +914,7 @@ c        min j edge
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j edge
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          jgho = blower(1)
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index b280063..8215c10 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -749,7 +749,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = bupper(0)+1
@@ -774,7 +774,7 @@ c        min i face
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = blower(0)-1
@@ -799,7 +799,7 @@ c        max i face
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = bupper(1)+1
@@ -824,7 +824,7 @@ c        min j face
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = blower(1)-1
@@ -849,7 +849,7 @@ c        max j face
          enddo
       elseif ( location_index .eq. 4 ) then
 c        min k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = bupper(2)+1
@@ -874,7 +874,7 @@ c        min k face
          enddo
       elseif ( location_index .eq. 5 ) then
 c        max k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = blower(2)-1
@@ -950,7 +950,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = bupper(0)+1
@@ -975,7 +975,7 @@ c        min i face
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = blower(0)-1
@@ -1000,7 +1000,7 @@ c        max i face
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = bupper(1)+1
@@ -1025,7 +1025,7 @@ c        min j face
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = blower(1)-1
@@ -1050,7 +1050,7 @@ c        max j face
          enddo
       elseif ( location_index .eq. 4 ) then
 c        min k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = bupper(2)+1
@@ -1075,7 +1075,7 @@ c        min k face
          enddo
       elseif ( location_index .eq. 5 ) then
 c        max k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = blower(2)-1
diff --git a/source/fortran/3d/quatfacops.m4 b/source/fortran/3d/quatfacops.m4
index c9db42a..dc22a83 100644
--- a/source/fortran/3d/quatfacops.m4
+++ b/source/fortran/3d/quatfacops.m4
@@ -848,7 +848,7 @@ c     (with respect to boundary normal) gradients.
 
       if ( location_index .eq. 0 ) then
 c        min i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = bupper(0)+1
@@ -876,7 +876,7 @@ c        min i face
          enddo
       elseif ( location_index .eq. 1 ) then
 c        max i face
-         tranwt = 1.0/(1+ratio_to_coarser(0))
+         tranwt = 1.d0/(1+ratio_to_coarser(0))
          longwt = 2*tranwt
          h = dx(0)
          i = blower(0)-1
@@ -904,7 +904,7 @@ c        max i face
          enddo
       elseif ( location_index .eq. 2 ) then
 c        min j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = bupper(1)+1
@@ -932,7 +932,7 @@ c        min j face
          enddo
       elseif ( location_index .eq. 3 ) then
 c        max j face
-         tranwt = 1.0/(1+ratio_to_coarser(1))
+         tranwt = 1.d0/(1+ratio_to_coarser(1))
          longwt = 2*tranwt
          h = dx(1)
          j = blower(1)-1
@@ -960,7 +960,7 @@ c        max j face
          enddo
       elseif ( location_index .eq. 4 ) then
 c        min k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = bupper(2)+1
@@ -988,7 +988,7 @@ c        min k face
          enddo
       elseif ( location_index .eq. 5 ) then
 c        max k face
-         tranwt = 1.0/(1+ratio_to_coarser(2))
+         tranwt = 1.d0/(1+ratio_to_coarser(2))
          longwt = 2*tranwt
          h = dx(2)
          k = blower(2)-1
-- 
2.43.0


From 3fdbc60ac993081107a2070f93b504bb865a8cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:41 +0000
Subject: [PATCH 35/51] fix: pair forces between grains in 3d: component
 offsets and cell weights

---
 source/fortran/3d/forces.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fortran/3d/forces.m4 b/source/fortran/3d/forces.m4
index 06b5b84..6c4ad64 100644
--- a/source/fortran/3d/forces.m4
+++ b/source/fortran/3d/forces.m4
@@ -48,7 +48,7 @@ c
       do p1 = 1, nphases
          do p2 = 1, nphases
             if( p1 .ne. p2 )then
-              offset = NDIM*nphases*(p1-1)+p2*2-1
+              offset = NDIM*(nphases*(p1-1)+p2-1)+1
 c integral over domain
                do k = lo2, hi2
                   do j = lo1, hi1
@@ -62,9 +62,9 @@ c integral over domain
 
                         f = phi(i,j,k,p1)*phi(i,j,k,p1)
      &                    * phi(i,j,k,p2)* factor
-                        fx = f*diffx
-                        fy = f*diffy
-                        fz = f*diffz
+                        fx = f*diffx*weight(i,j,k)
+                        fy = f*diffy*weight(i,j,k)
+                        fz = f*diffz*weight(i,j,k)
                         forces(offset)   = forces(offset) + fx
                         forces(offset+1) = forces(offset+1) + fy
                         forces(offset+2) = forces(offset+2) + fz
-- 
2.43.0


From b9bb57233e664ab5f77a4c584bcf4463e26744d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:41 +0000
Subject: [PATCH 36/51] fix: current internal time of CVODE is its time, not
 its step

---
 source/samrai/CVODESolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/samrai/CVODESolver.h b/source/samrai/CVODESolver.h
index 2d5b846..76698f4 100644
--- a/source/samrai/CVODESolver.h
+++ b/source/samrai/CVODESolver.h
@@ -994,7 +994,7 @@ class CVODESolver
    double getCurrentInternalValueOfIndependentVariable() const
    {
       realtype r;
-      int ierr = CVodeGetCurrentStep(d_cvode_mem, &r);
+      int ierr = CVodeGetCurrentTime(d_cvode_mem, &r);
       CVODE_SAMRAI_ERROR(ierr);
       return r;
    }
-- 
2.43.0


From 686b76932c210672d28690d73a5446ec387e8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:41 +0000
Subject: [PATCH 37/51] fix: pass the number of ghosts before the temperature
 scale to the refine patch strategy

---
 source/QuatIntegrator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 675503b..9f50d8a 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -1347,7 +1347,9 @@ void QuatIntegrator::initializeCoarseRefineOperators(
                                       d_boundary_cond_db, phase_id,
                                       d_eta_scratch_id, d_quat_scratch_id,
                                       d_conc_scratch_id,
-                                      d_temperature_scratch_id, factor);
+                                      d_temperature_scratch_id,
+                                      d_model_parameters.nghosts_required(),
+                                      factor);
    }
 }
 
-- 
2.43.0


From bd86cb0251afaf6e7bb977de7d50199645b8291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:37 +0000
Subject: [PATCH 38/51] fix: keep the evolved temperature that CVODE computed,
 not the last state it evaluated

---
 source/QuatIntegrator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 9f50d8a..bb7afd5 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -2106,7 +2106,9 @@ double QuatIntegrator::Advance(
    // Take one step
    int return_code = d_sundials_solver->solve();
 
-   updateDependentVariables(hierarchy, d_scratch, d_current);
+   // an evolved temperature is part of the solution vector and already updated
+   if (!d_with_unsteady_temperature)
+      updateDependentVariables(hierarchy, d_scratch, d_current);
 
    // Check the return code
    if (return_code != 0) {
-- 
2.43.0


From 5f216a78f80f5a3c5f86748b8cd0b5677f5f838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:14 +0000
Subject: [PATCH 39/51] fix: exclude cells covered by finer levels from the
 weights of the diagnostics subdomain

---
 source/QuatModel.cc | 8 ++++----
 source/QuatModel.h  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index d545241..5908b36 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -4746,7 +4746,7 @@ void QuatModel::computeVectorWeights(
       }
    }
 
-   zeroOutLowerLevelWeights(hierarchy);
+   zeroOutLowerLevelWeights(hierarchy, d_weight_id);
 }
 
 void QuatModel::computeVectorWeightsDiagnostics(
@@ -4833,11 +4833,11 @@ void QuatModel::computeVectorWeightsDiagnostics(
       }
    }
 
-   zeroOutLowerLevelWeights(hierarchy);
+   zeroOutLowerLevelWeights(hierarchy, d_weight_diagnostics_id);
 }
 
 void QuatModel::zeroOutLowerLevelWeights(
-    std::shared_ptr<hier::PatchHierarchy> hierarchy)
+    std::shared_ptr<hier::PatchHierarchy> hierarchy, const int weight_id)
 {
    int coarsest_ln = 0;
    int finest_ln = hierarchy->getFinestLevelNumber();
@@ -4874,7 +4874,7 @@ void QuatModel::zeroOutLowerLevelWeights(
                std::shared_ptr<pdat::CellData<double> > w(
                    SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>,
                                           hier::PatchData>(
-                       patch->getPatchData(d_weight_id)));
+                       patch->getPatchData(weight_id)));
                w->fillAll(0.0, intersection);
 
             }  // assignment only in non-empty intersection
diff --git a/source/QuatModel.h b/source/QuatModel.h
index 1c766fe..c533ffe 100644
--- a/source/QuatModel.h
+++ b/source/QuatModel.h
@@ -357,8 +357,8 @@ class QuatModel : public PFModel
                               std::shared_ptr<tbox::Database>);
    void initializeAmr(std::shared_ptr<tbox::Database> amr_db);
 
-   void zeroOutLowerLevelWeights(
-       std::shared_ptr<hier::PatchHierarchy> hierarchy);
+   void zeroOutLowerLevelWeights(std::shared_ptr<hier::PatchHierarchy> hierarchy,
+                                 const int weight_id);
 
    void resetRefPhaseConcentrations();
    void setPhaseConcentrationsToEquilibrium(const double* const ceq);
-- 
2.43.0


From e0c4513e59e66da8601cd23e72c06a696b19ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:14 +0000
Subject: [PATCH 40/51] fix: recompute the weights of the diagnostics subdomain
 when the hierarchy changes

---
 source/QuatModel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 5908b36..4ce898f 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -3428,6 +3428,8 @@ void QuatModel::resetHierarchyConfiguration(
    }
 
    computeVectorWeights(d_patch_hierarchy);
+   if (d_subdomain_diagnostics[0] > 0.)
+      computeVectorWeightsDiagnostics(d_patch_hierarchy);
 }
 
 //=======================================================================
-- 
2.43.0


From f61843e4fa6065a505b14b15fbcc6cd58b563db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:14 +0000
Subject: [PATCH 41/51] fix: select the cells of the diagnostics subdomain by
 their centers

---
 source/QuatModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 4ce898f..82c0d93 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -4826,7 +4826,7 @@ void QuatModel::computeVectorWeightsDiagnostics(
               ++i) {
             pdat::CellIndex cell = *i;
             for (int d = 0; d < NDIM; d++) {
-               double x = low[d] + cell(d) * dx[d];
+               double x = low[d] + (cell(d) + 0.5) * dx[d];
 
                if (x < dlow[d]) (*w)(cell) = 0.;
                if (x > dup[d]) (*w)(cell) = 0.;
-- 
2.43.0


From cd10ac48bb65957aa5e45972eafe1d8b6f1ce353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:14 +0000
Subject: [PATCH 42/51] fix: evaluate the fraction of the phase field asked for

---
 source/QuatModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 82c0d93..ce49658 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -5162,7 +5162,7 @@ double QuatModel::evaluatePhaseFraction(
 
    math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
 
-   copyDepthCellData(hierarchy, d_work_id, 0, d_phase_id, depth);
+   copyDepthCellData(hierarchy, d_work_id, 0, phase_id, depth);
 
    return mathops.integral(d_work_id, d_weight_id);
 }
-- 
2.43.0


From a2b5707a733223806a2381ab7326f7b37450d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:14 +0000
Subject: [PATCH 43/51] fix: set every component of the reference phase
 compositions to its own equilibrium value

---
 source/QuatModel.cc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index ce49658..54c15fb 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -5290,11 +5290,30 @@ void QuatModel::setRefPhaseConcentrationsToEquilibrium(const double* const ceq)
    tbox::pout << "QuatModel::setRefPhaseConcentrationsToEquilibrium(ceq)"
               << std::endl;
 
-   math::HierarchyCellDataOpsReal<double> cellops(d_patch_hierarchy);
-   cellops.setToScalar(d_conc_l_ref_id, ceq[0], false);
-   cellops.setToScalar(d_conc_a_ref_id, ceq[1], false);
-   if (d_model_parameters.withPhaseB())
-      cellops.setToScalar(d_conc_b_ref_id, ceq[2], false);
+   std::vector<int> ids{d_conc_l_ref_id, d_conc_a_ref_id};
+   if (d_model_parameters.withPhaseB()) ids.push_back(d_conc_b_ref_id);
+
+   for (int ln = 0; ln <= d_patch_hierarchy->getFinestLevelNumber(); ln++) {
+      std::shared_ptr<hier::PatchLevel> level =
+          d_patch_hierarchy->getPatchLevel(ln);
+
+      for (hier::PatchLevel::Iterator ip(level->begin()); ip != level->end();
+           ip++) {
+         // equilibrium compositions are stored phase by phase
+         const double* cphase = ceq;
+         for (std::vector<int>::const_iterator id = ids.begin();
+              id != ids.end(); ++id) {
+            std::shared_ptr<pdat::CellData<double> > conc(
+                SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
+                    (*ip)->getPatchData(*id)));
+            assert(conc);
+
+            for (int i = 0; i < d_ncompositions; i++)
+               conc->fill(cphase[i], i);
+            cphase += d_ncompositions;
+         }
+      }
+   }
 }
 
 //=======================================================================
-- 
2.43.0


From 0e408a14abc89181fd221be41f180c7c00da4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:14 +0000
Subject: [PATCH 44/51] fix: let the restart interval decide about the initial
 restart file

---
 source/PFModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/PFModel.cc b/source/PFModel.cc
index 7469bd7..f86eac8 100644
--- a/source/PFModel.cc
+++ b/source/PFModel.cc
@@ -450,7 +450,7 @@ void PFModel::Run(void)
       tbox::pout << "cycle # " << d_cycle << " : t = " << d_time << std::endl;
    }
 
-   if (d_regrid_interval->includeInitial(d_time)) {
+   if (d_restart_interval->includeInitial(d_time)) {
       writeRestartFile();
    }
 
-- 
2.43.0


From 49db95fc5a658e9acdbecc66c637b95fbbad440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:14 +0000
Subject: [PATCH 45/51] fix: keep the first call of the moving frame with the
 frame, not with the process

---
 source/AdaptMovingFrame.cc | 9 +++++----
 source/AdaptMovingFrame.h  | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/AdaptMovingFrame.cc b/source/AdaptMovingFrame.cc
index 6de7131..df6080a 100644
--- a/source/AdaptMovingFrame.cc
+++ b/source/AdaptMovingFrame.cc
@@ -15,7 +15,9 @@ using namespace SAMRAI;
 AdaptMovingFrame::AdaptMovingFrame(
     std::shared_ptr<geom::CartesianGridGeometry> grid_geometry,
     QuatModel* quat_model, const double frame_velocity)
-    : d_max_accel(std::abs(frame_velocity)), d_quat_model(quat_model)
+    : d_max_accel(std::abs(frame_velocity)),
+      d_first_time(true),
+      d_quat_model(quat_model)
 {
    const double* low = grid_geometry->getXLower();
    const double* up = grid_geometry->getXUpper();
@@ -35,9 +37,8 @@ double AdaptMovingFrame::adaptVelocity(
        d_quat_model->evaluateVolumeSolid(hierarchy, phase_id) * d_vol_inv;
    tbox::pout << "Moving frame: fs = " << fs << std::endl;
 
-   static bool first_time = true;
    double acceleration = 0.;
-   if (!first_time) {
+   if (!d_first_time) {
       double dfsk = (fs - d_previous_fs);
       double dtinv = 1. / (time - d_previous_time);
 
@@ -57,7 +58,7 @@ double AdaptMovingFrame::adaptVelocity(
    double frame_velocity = current_frame_velocity + acceleration;
    tbox::pout << "Moving frame: new velocity = " << frame_velocity << std::endl;
 
-   first_time = false;
+   d_first_time = false;
 
    // save current values for next call
    d_previous_time = time;
diff --git a/source/AdaptMovingFrame.h b/source/AdaptMovingFrame.h
index 1ab13f6..8c30945 100644
--- a/source/AdaptMovingFrame.h
+++ b/source/AdaptMovingFrame.h
@@ -38,6 +38,7 @@ class AdaptMovingFrame
    double d_max_accel;
 
    // internal values to keep track of previous steps
+   bool d_first_time;
    double d_previous_time;
    double d_previous_fs;
 
-- 
2.43.0


From 3bc3ecbc5efd9d320b79c65cb3affd3b84bead56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:16 +0000
Subject: [PATCH 46/51] fix: refine the temperature of models without a phase
 field

---
 source/QuatModel.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 54c15fb..6a0f5f5 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -921,11 +921,10 @@ void QuatModel::setIntegratorModelParameters()
 
 void QuatModel::initializeRefineCoarsenAlgorithms()
 {
-   if (d_model_parameters.with_phase()) {
-      d_phase_refine_op =
-          d_grid_geometry->lookupRefineOperator(d_temperature_var,
-                                                "LINEAR_REFINE");
-   }
+   // used for the temperature too, with or without a phase field
+   d_phase_refine_op =
+       d_grid_geometry->lookupRefineOperator(d_temperature_var,
+                                             "LINEAR_REFINE");
    if (d_model_parameters.with_third_phase()) {
       d_eta_refine_op =
           d_grid_geometry->lookupRefineOperator(d_eta_var, "LINEAR_REFINE");
-- 
2.43.0


From b4df296ad87bc92375efb840e6e460bdac813d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:16 +0000
Subject: [PATCH 47/51] fix: regrid models without a phase field

---
 source/QuatModel.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 6a0f5f5..48937c7 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -2733,10 +2733,12 @@ void QuatModel::Regrid(const std::shared_ptr<hier::PatchHierarchy> hierarchy)
 {
    d_regrid_refine_alg.reset(new xfer::RefineAlgorithm());
 
-   d_regrid_refine_alg->registerRefine(d_phase_id,          // destination
-                                       d_phase_id,          // source
-                                       d_phase_scratch_id,  // temporary
-                                       d_phase_refine_op);
+   if (d_model_parameters.with_phase()) {
+      d_regrid_refine_alg->registerRefine(d_phase_id,          // destination
+                                          d_phase_id,          // source
+                                          d_phase_scratch_id,  // temporary
+                                          d_phase_refine_op);
+   }
 
    d_regrid_refine_alg->registerRefine(d_temperature_id,          // destination
                                        d_temperature_id,          // source
-- 
2.43.0


From ff6a9160b895a552d7bc42a27fe139eadda61e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:11 +0000
Subject: [PATCH 48/51] fix: compute the symmetry rotations of the new levels
 after a regrid

---
 source/QuatModel.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 48937c7..5de6b3e 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -2858,6 +2858,10 @@ void QuatModel::Regrid(const std::shared_ptr<hier::PatchHierarchy> hierarchy)
 #endif
 
    PFModel::Regrid(hierarchy);
+
+   // rotations on the new levels
+   if (d_model_parameters.with_orientation() && d_symmetry_aware)
+      computeSymmetryRotations(hierarchy, d_time);
 }
 
 //=======================================================================
-- 
2.43.0


From e20d8fc67b92408931a1b9f030d13d98098c9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:59 +0000
Subject: [PATCH 49/51] fix: expect one difference per direction in the phase
 differences shown

---
 source/QuatModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 5de6b3e..7b0dc63 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -3674,7 +3674,7 @@ void QuatModel::computePhaseDiffs(
                     patch->getPatchData(d_phase_diffs_cell_id)));
             assert(cell_diffs_data);
 
-            assert(diff_data->getDepth() == cell_diffs_data->getDepth());
+            assert(cell_diffs_data->getDepth() == NDIM * diff_data->getDepth());
 
             pdat::CellIterator iend(pdat::CellGeometry::end(box));
             for (pdat::CellIterator i(pdat::CellGeometry::begin(box));
-- 
2.43.0


From c10d8669143ae4687f2198bb2abeb7320acd6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:59 +0000
Subject: [PATCH 50/51] fix: reset the solver of the steady state temperature
 after a regrid

---
 source/SteadyStateTemperatureStrategy.cc | 6 +++++-
 source/SteadyStateTemperatureStrategy.h  | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/SteadyStateTemperatureStrategy.cc b/source/SteadyStateTemperatureStrategy.cc
index 9c4b1d6..12173e7 100644
--- a/source/SteadyStateTemperatureStrategy.cc
+++ b/source/SteadyStateTemperatureStrategy.cc
@@ -67,8 +67,12 @@ void SteadyStateTemperatureStrategy::initialize(
 //-----------------------------------------------------------------------
 
 void SteadyStateTemperatureStrategy::resetSolversState(
-    const std::shared_ptr<hier::PatchHierarchy> hierarchy)
+    const std::shared_ptr<hier::PatchHierarchy> hierarchy,
+    const int coarsest_level, const int finest_level)
 {
+   (void)coarsest_level;
+   (void)finest_level;
+
    assert(d_temperature_sys_solver);
    d_temperature_sys_solver->resetSolverState(d_temperature_scratch_id,
                                               d_rhs_id, hierarchy);
diff --git a/source/SteadyStateTemperatureStrategy.h b/source/SteadyStateTemperatureStrategy.h
index 69d808c..a453d5a 100644
--- a/source/SteadyStateTemperatureStrategy.h
+++ b/source/SteadyStateTemperatureStrategy.h
@@ -74,7 +74,8 @@ class SteadyStateTemperatureStrategy : public TemperatureStrategy
        const double time) = 0;
 
    void resetSolversState(
-       const std::shared_ptr<hier::PatchHierarchy> hierarchy);
+       const std::shared_ptr<hier::PatchHierarchy> hierarchy,
+       const int coarsest_level, const int finest_level);
 
    void solveSystem()
    {
-- 
2.43.0


From fdee385951df24504fed0643c125a8982332ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:42 +0000
Subject: [PATCH 51/51] fix: look up boundary values by time in the table of
 the object, within its times

---
 source/TimeLocationIndexRobinBcCoefs.cc | 51 +++++++------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/source/TimeLocationIndexRobinBcCoefs.cc b/source/TimeLocationIndexRobinBcCoefs.cc
index 17e3fe1..5284143 100644
--- a/source/TimeLocationIndexRobinBcCoefs.cc
+++ b/source/TimeLocationIndexRobinBcCoefs.cc
@@ -143,45 +143,21 @@ void TimeLocationIndexRobinBcCoefs::setBcCoefs(
    TBOX_ASSERT(location >= 0 && location < 2 * d_dim.getValue());
    TBOX_ASSERT(d_t_map[location].size() > 0);
 
-   static int prev_time_slot[6] = {0, 0, 0, 0, 0, 0};
-   static int next_time_slot[6] = {1, 1, 1, 1, 1, 1};
-
-   // specify how far from previous interval we should search for current
-   // interval. This is necessary since this function may be called for a
-   // time value smaller than in previous call
-   int search_range = 10;
-
-   prev_time_slot[location] -= search_range;
-   prev_time_slot[location] = std::max(prev_time_slot[location], 1);
-   // loop over time slot until we reach a time larger than fill_time
-   while (d_t_map[location][prev_time_slot[location]] <= fill_time) {
-      prev_time_slot[location]++;
-      assert(prev_time_slot[location] > 0);
-   }
-   prev_time_slot[location]--;
-   assert(prev_time_slot[location] >= 0);
-
-   next_time_slot[location] = prev_time_slot[location] + 1;
-
-   // tbox::plog<<"d_t_map[location][next_time_slot[location]]="
-   //          <<d_t_map[location][next_time_slot[location]]<<endl;
-   // tbox::pout<<"fill_time="<<fill_time<<endl;
-   // tbox::pout<<"prev_time_slot="<<prev_time_slot[location]<<endl;
-   // tbox::pout<<"next_time_slot="<<next_time_slot[location]<<endl;
-   if (d_t_map[location][prev_time_slot[location]] > fill_time ||
-       d_t_map[location][next_time_slot[location]] < fill_time) {
-      tbox::plog << "fill_time = " << fill_time << std::endl;
-      tbox::plog << "previous_time = "
-                 << d_t_map[location][prev_time_slot[location]] << std::endl;
-      tbox::plog << "next_time = "
-                 << d_t_map[location][next_time_slot[location]] << std::endl;
-      TBOX_ERROR(d_object_name << ": May need larger search range for time "
-                                  "index"
-                               << std::endl);
+   const int ntimes = static_cast<int>(d_t_map[location].size());
+   int next_slot = 1;
+   while (next_slot < ntimes - 1 && d_t_map[location][next_slot] <= fill_time)
+      next_slot++;
+
+   const int ntime_slot = next_slot;
+   const int ptime_slot = next_slot - 1;
+
+   if (ntimes < 2 || d_t_map[location][ptime_slot] > fill_time ||
+       d_t_map[location][ntime_slot] < fill_time) {
+      TBOX_ERROR(d_object_name << ": fill_time = " << fill_time
+                               << " outside the times given for boundary "
+                               << location << std::endl);
    }
 
-   const int ntime_slot = next_time_slot[location];
-   const int ptime_slot = prev_time_slot[location];
    TBOX_ASSERT(fill_time <= d_t_map[location][ntime_slot]);
    TBOX_ASSERT(fill_time >= d_t_map[location][ptime_slot]);
 
@@ -253,6 +229,7 @@ TimeLocationIndexRobinBcCoefs& TimeLocationIndexRobinBcCoefs::operator=(
       d_a_map[i] = r.d_a_map[i];
       d_b_map[i] = r.d_b_map[i];
       d_g_map[i] = r.d_g_map[i];
+      d_t_map[i] = r.d_t_map[i];
    }
    return *this;
 }
-- 
2.43.0

